//! C19: captured input and the image of the pointer.

use crate::engine::*;
use crate::ev::*;

pub struct C19;

const CFG: PageCfg = PageCfg {
    events: &["oninput", "onclick", "ondrop"],
    density: 3,
    weights: [6, 6, 2, 1, 1],
    draggable: true,
    rich: false,
    cursors: true,
};

impl Property for C19 {
    const ID: &'static str = "C19";
    const RULE: &'static str = "A random page with cursors, focusable, draggable and pressed elements, elements that refuse the pointer, 1-8 updates with changing values and up to 6 events each. After every update the output reports captured input exactly if the reference machine has a hovered, pressed, dragged or focused element, and the pointer image of the last hovered element that specifies one. Non-trivial: input is captured after one update and not after another, or the pointer image is not the default.";
    const CASES: (u64, u64) = (100_000, 1_500_000);
    type Case = Page;

    fn gen(g: &mut Gen) -> Page {
        gen_page(g, &CFG)
    }

    fn check(page: &Page, st: &mut Stats) -> Check {
        let mut run = Run::new(page, "")?;
        let (mut yes, mut no, mut image) = (0, 0, 0);
        for (i, step) in page.steps.iter().enumerate() {
            let u = run.update(step)?;
            let captured = run.machine.captured();
            if u.output.is_input_captured != captured {
                return Err(run.explain(&format!(
                    "update {i}: is_input_captured is {}, {} hovered, {} pressed, drag {:?}, focus {:?}, events {:?}",
                    u.output.is_input_captured,
                    run.machine.hovered.len(),
                    run.machine.pressed.len(),
                    run.machine.drag,
                    run.machine.focus,
                    u.events
                )));
            }
            let pointer = run.machine.pointer();
            if u.output.pointer != pointer {
                return Err(run.explain(&format!(
                    "update {i}: pointer is {:?}, expected {pointer:?}, events {:?}",
                    u.output.pointer, u.events
                )));
            }
            if captured {
                yes += 1;
                if run.machine.hovered.is_empty() {
                    st.label("captured without hover");
                }
            } else {
                no += 1;
            }
            if pointer != bumaga::Pointer::Auto {
                image += 1;
            }
        }
        for (event, n) in &run.machine.fired {
            st.label_n(event, *n);
        }
        if (yes > 0 && no > 0) || image > 0 {
            st.nontrivial();
        }
        Ok(())
    }
}
