//! C10: clicks, active state, focus and keys.

use crate::engine::*;
use crate::ev::*;
use bumaga::Pointer;
pub struct C10;

const CFG: PageCfg = PageCfg {
    events: &["onmousedown", "onmouseup", "onclick", "oncontextmenu", "onfocus", "onblur", "oninput", "onkeydown", "onkeyup"],
    density: 4,
    weights: [5, 8, 2, 4, 1],
    draggable: false,
    rich: false,
    cursors: false,
};

impl Property for C10 {
    const ID: &'static str = "C10";
    const RULE: &'static str = "A random page whose elements listen to button, click, focus and key events, 1-8 updates with changing values and up to 6 pointer, button (in some cases several at a time), key and character events each. The messages of every update equal those of a reference machine in order, and every element has the styles of :active and :focus exactly if it was pressed or focused before the update. Non-trivial: at least one click, or a character given to a focused element.";
    const CASES: (u64, u64) = (100_000, 1_500_000);
    type Case = Page;

    fn gen(g: &mut Gen) -> Page {
        gen_page(g, &CFG)
    }

    fn check(page: &Page, st: &mut Stats) -> Check {
        let mut run = Run::new(page, "*:active { background-color: #010203; } *:focus { cursor: wait; }")?;
        for (i, step) in page.steps.iter().enumerate() {
            let u = run.update(step)?;
            run.compare(i, &u)?;
            run.styled(i, &u, "style of :active", |e, state| {
                let applied = e.backgrounds.iter().any(|b| b.color == [1, 2, 3, 255]);
                applied == state.active
            })?;
            run.styled(i, &u, "style of :focus", |e, state| {
                (e.pointer == Pointer::Wait) == state.focus
            })?;
        }
        for (event, n) in &run.machine.fired {
            st.label_n(event, *n);
        }
        if run.machine.fired.contains_key("onclick") || run.machine.fired.contains_key("oninput") {
            st.nontrivial();
        }
        Ok(())
    }
}
