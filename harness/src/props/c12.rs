//! C12: drag and drop gestures.

use crate::engine::*;
use crate::ev::*;

pub struct C12;

const CFG: PageCfg = PageCfg {
    events: &["ondragstart", "ondragenter", "ondragover", "ondragleave", "ondrop", "ondragend", "onclick"],
    density: 7,
    weights: [6, 8, 1, 1, 1],
    draggable: true,
    rich: false,
    cursors: false,
};

impl Property for C12 {
    const ID: &'static str = "C12";
    const RULE: &'static str = "A random page with draggable elements (static and bound), drop targets and listeners of drag events and clicks, 1-8 updates with changing values and up to 6 events each. The messages of every update equal those of a reference machine: one start, of the deepest pressed draggable, enter, over and leave of hovered elements while dragging, drop on the deepest target and one end on the source at the release of the left button, no click of a drag. Non-trivial: a drag is started and ended.";
    const CASES: (u64, u64) = (100_000, 1_500_000);
    type Case = Page;

    fn gen(g: &mut Gen) -> Page {
        gen_page(g, &CFG)
    }

    fn check(page: &Page, st: &mut Stats) -> Check {
        let mut run = Run::new(page, "")?;
        for (i, step) in page.steps.iter().enumerate() {
            let u = run.update(step)?;
            run.compare(i, &u)?;
        }
        for (event, n) in &run.machine.fired {
            st.label_n(event, *n);
        }
        if run.machine.fired.contains_key("ondragstart") && run.machine.fired.contains_key("ondragend") {
            st.nontrivial();
        }
        Ok(())
    }
}
