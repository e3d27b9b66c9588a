//! C11: messages carry the arguments written in the handler.

use crate::engine::*;
use crate::ev::*;

pub struct C11;

const CFG: PageCfg = PageCfg {
    events: &[
        "onmouseenter", "onmouseleave", "onmousemove", "onmousedown", "onmouseup", "onclick", "oncontextmenu",
        "onfocus", "onblur", "oninput", "onkeydown", "onkeyup", "ondragstart", "ondragenter", "ondragover",
        "ondragleave", "ondrop", "ondragend",
    ],
    density: 3,
    weights: [8, 5, 1, 3, 1],
    draggable: true,
    rich: true,
    cursors: false,
};

impl Property for C11 {
    const ID: &'static str = "C11";
    const RULE: &'static str = "A random page (templates, aliases, repeats, visibility, boxes) whose elements have handlers of all 18 events with 0-5 arguments (words, $event, bindings of any kind of data in scope with pipes), 1-8 updates with changing values and up to 6 pointer, button, key and character events each. The messages of every update equal those of a reference machine in order and content: first argument as key, the rest as one argument or a list, bindings on the latest value, event data with pointer position, key or character, and the box and state of the target. Non-trivial: at least one message with two or more arguments.";
    const CASES: (u64, u64) = (80_000, 1_500_000);
    type Case = Page;

    fn gen(g: &mut Gen) -> Page {
        gen_page(g, &CFG)
    }

    fn check(page: &Page, st: &mut Stats) -> Check {
        let mut run = Run::new(page, "")?;
        let mut rich = 0;
        for (i, step) in page.steps.iter().enumerate() {
            let u = run.update(step)?;
            run.compare(i, &u)?;
            rich += u.expected.iter().filter(|m| m.is_object()).count();
            st.label_n("messages", u.expected.len() as u64);
        }
        for (event, n) in &run.machine.fired {
            st.label_n(event, *n);
        }
        if rich > 0 {
            st.nontrivial();
        }
        Ok(())
    }
}
