//! C09: hover follows the pointer.

use crate::engine::*;
use crate::ev::*;

pub struct C09;

const CFG: PageCfg = PageCfg {
    events: &["onmouseenter", "onmouseleave", "onmousemove"],
    density: 5,
    weights: [8, 1, 1, 1, 1],
    draggable: false,
    rich: false,
    cursors: false,
};

impl Property for C09 {
    const ID: &'static str = "C09";
    const RULE: &'static str = "A random page (templates, aliases, repeats, visibility, boxes with paddings, negative margins, absolute positions, pointer-events, visibility, rules of :hover and :active that change boxes) whose elements listen to enter, leave and move, 1-8 updates with changing values and up to 6 events each, pointer positions at centers, edges and outside of displayed boxes. The messages of every update (order and payload) equal those of a reference machine that computes hovered elements from displayed boxes, and every element has the :hover style exactly if it was hovered before the update. Non-trivial: at least one enter and one leave.";
    const CASES: (u64, u64) = (100_000, 1_500_000);
    type Case = Page;

    fn gen(g: &mut Gen) -> Page {
        gen_page(g, &CFG)
    }

    fn check(page: &Page, st: &mut Stats) -> Check {
        let mut run = Run::new(page, "*:hover { background-color: #010203; }")?;
        for (i, step) in page.steps.iter().enumerate() {
            let u = run.update(step)?;
            run.compare(i, &u)?;
            run.styled(i, &u, "style of :hover", |e, state| {
                let applied = e.backgrounds.iter().any(|b| b.color == [1, 2, 3, 255]);
                applied == state.hover
            })?;
            st.label_n("hovered", run.machine.hovered.len() as u64);
        }
        for (event, n) in &run.machine.fired {
            st.label_n(event, *n);
        }
        if run.machine.fired.contains_key("onmouseenter") && run.machine.fired.contains_key("onmouseleave") {
            st.nontrivial();
        }
        Ok(())
    }
}
