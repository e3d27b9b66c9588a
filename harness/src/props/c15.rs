//! C15: views are deterministic, and events may be split over updates.

use crate::bx;
use crate::doc::*;
use crate::engine::*;
use crate::ev::*;
use crate::sel::*;
use bumaga::{InputEvent, Output, View};
use serde::{Deserialize, Serialize};
use serde_json::Value;

#[derive(Serialize, Deserialize)]
pub struct Case {
    pub page: Page,
    pub sheet: Vec<RuleSet>,
    pub frames: Vec<Keyframes>,
    /// how the events of every step are split: sizes of chunks and their times
    pub chunks: Vec<Vec<(usize, u64)>>,
    /// rules of another page, with the same contents, which is shown next to the first one
    #[serde(default)]
    pub neighbour: Option<String>,
}

/// What can be observed of an update.
struct Record {
    outputs: [(Vec<Value>, bool, String); 2],
    snap: bx::Snap,
    ids: Vec<Option<(String, String)>>,
}

fn ids(view: &View) -> Vec<Option<(String, String)>> {
    let found = |id: &&str| view.get_element_by_id(id).map(|e| (e.tag.clone(), format!("{:?} {:?}", e.position, e.size)));
    SEL_IDS.iter().map(found).collect()
}

fn boxes(view: &View) -> Vec<([f32; 2], [f32; 2])> {
    let mut elements = vec![];
    bx::walk(view.body(), &mut elements);
    elements.iter().map(|e| (e.position, e.size)).collect()
}

fn seen(output: &Output) -> (Vec<Value>, bool, String) {
    (output.messages.clone(), output.is_input_captured, format!("{:?}", output.pointer))
}

/// The step of a page at once: an update without a move of the pointer counts as one, so begin with that.
fn advance(view: &mut View, step: &Step, boxes: &[([f32; 2], [f32; 2])]) -> Result<[Output; 2], String> {
    let events = step.events.iter().map(|e| e.event(boxes)).collect();
    let first = bx::update(view, bx::input(step.ms, vec![]), &step.value)?;
    bx::update(view, bx::input(0, vec![]), &step.value)?;
    Ok([first, bx::update(view, bx::input(0, events), &step.value)?])
}

/// The whole history of a page.
fn history(html: &str, css: &str, steps: &[Step]) -> Result<Vec<Record>, String> {
    let mut view = bx::view(html, css)?;
    let mut all = vec![];
    let mut at = vec![];
    for step in steps {
        let outputs = advance(&mut view, step, &at)?;
        at = boxes(&view);
        all.push(Record {
            outputs: [seen(&outputs[0]), seen(&outputs[1])],
            snap: bx::snap(&view.body()),
            ids: ids(&view),
        });
    }
    Ok(all)
}

pub struct C15;

const CFG: PageCfg = PageCfg {
    events: &[
        "onmouseenter", "onmouseleave", "onmousemove", "onmousedown", "onmouseup", "onclick", "oncontextmenu",
        "onfocus", "onblur", "oninput", "onkeydown", "onkeyup", "ondragstart", "ondragenter", "ondragover",
        "ondragleave", "ondrop", "ondragend",
    ],
    density: 3,
    weights: [6, 6, 3, 3, 1],
    draggable: true,
    rich: true,
    cursors: true,
};

/// Every handler begins with its event, so that repeats of moves can be told from other messages.
fn prefix(e: &mut El, serial: &mut usize) {
    *serial += 1;
    for attr in &mut e.attrs {
        if let Attr::On(event, args) = attr {
            let key = format!("{}-{serial}", &event[2..]);
            if args.is_empty() {
                args.push(Arg::Key(key));
            } else {
                args[0] = Arg::Key(key);
            }
        }
    }
    for kid in &mut e.kids {
        if let Node::El(kid) = kid {
            prefix(kid, serial);
        }
    }
}

fn is_move(message: &Value) -> bool {
    let key = match message {
        Value::String(s) => s.as_str(),
        Value::Object(o) => o.keys().next().map(String::as_str).unwrap_or(""),
        _ => "",
    };
    key.starts_with("mousemove-") || key.starts_with("dragover-")
}

fn steady(messages: &[Value]) -> Vec<&Value> {
    messages.iter().filter(|m| !is_move(m)).collect()
}

impl Property for C15 {
    const ID: &'static str = "C15";
    const RULE: &'static str = "A random page (templates, aliases, repeats, visibility, generated rules, animations and transitions, listeners of all events) through 1-8 values with up to 10 events each. A view which is given the updates next to a view of another page (the same contents and updates with other rules, in half of cases), and a view which is given the same updates alone on a fresh thread, have equal snapshots, outputs and found ids after every update. If no rule depends on a state of the pointer, a third view is given the events of every update, after its value was shown, in several updates (of any times if nothing is animated, of zero time otherwise) and reports the same messages in the same order but for repeated onmousemove and ondragover, the same captured flag and pointer image, and has the same snapshot. Non-trivial: split events with at least one message.";
    const CASES: (u64, u64) = (24_000, 300_000);
    type Case = Case;

    fn gen(g: &mut Gen) -> Case {
        let mut page = gen_page(g, &CFG);
        let mut serial = 0;
        prefix(&mut page.doc.body, &mut serial);
        for (_, t) in &mut page.doc.templates {
            prefix(t, &mut serial);
        }
        let pseudo = g.chance(1, 3);
        if !pseudo {
            page.css.retain(|r| ![":hover", ":active", ":focus"].iter().any(|p| r.contains(p)));
        }
        let mut sheet = if g.bool() { gen_sheet(g, 4, pseudo) } else { vec![] };
        let frames = if g.chance(1, 2) { gen_motion(g, &mut sheet) } else { vec![] };
        for step in &mut page.steps {
            step.ms = g.int(0, 12) as u64 * 50;
        }
        let chunks = page
            .steps
            .iter()
            .map(|_| g.vec(0, 4, |g| (g.below(4), g.int(0, 5) as u64 * 50)))
            .collect();
        let neighbour = g.chance(1, 2).then(|| {
            let mut css: Vec<String> = page.css.iter().filter(|_| g.chance(2, 3)).cloned().collect();
            css.push(print_motion(&sheet, &frames));
            let declarations = [
                "font-weight: 700", "font-weight: 100", "font-style: italic", "line-height: 2", "font-family: Other", "font-size: 11px",
                "color: #123456", "padding: 3px", "display: none", "width: 37px", "opacity: 0.5",
            ];
            for _ in 0..g.int(1, 4) {
                let selector = g.pick_s(&["*", "body", "div", ".a", "#x", "span"]);
                css.push(format!("{selector} {{ {}; }}", g.pick(&declarations)));
            }
            css.join("\n")
        });
        Case {
            page,
            sheet,
            frames,
            chunks,
            neighbour,
        }
    }

    fn check(case: &Case, st: &mut Stats) -> Check {
        let html = case.page.doc.html();
        let css = format!("{}\n{}", case.page.css.join("\n"), print_motion(&case.sheet, &case.frames));
        let still = ![":hover", ":active", ":focus"].iter().any(|p| css.contains(p));
        let moving = css.contains("animation") || css.contains("transition");
        let explain = |what: &str, i: usize, d: String| -> Check { Err(format!("step {i}: {what}: {d}\nhtml: {html}\ncss: {css}")) };
        // the same updates, where nothing else was ever displayed
        let alone = std::thread::scope(|scope| scope.spawn(|| history(&html, &css, &case.page.steps)).join());
        let alone = alone.map_err(|_| "panic of a view on another thread".to_string())??;
        let mut a = bx::view(&html, &css)?;
        let mut c = bx::view(&html, &css)?;
        let mut neighbour = match &case.neighbour {
            Some(css) => Some(bx::view(&html, css)?),
            None => None,
        };
        let mut split = 0;
        let mut at = vec![];
        for (i, step) in case.page.steps.iter().enumerate() {
            if let Some(neighbour) = &mut neighbour {
                let at = boxes(neighbour);
                advance(neighbour, step, if i > 0 { &at } else { &[] })?;
            }
            let events: Vec<InputEvent> = step.events.iter().map(|e| e.event(&at)).collect();
            let [first, mut x] = advance(&mut a, step, &at)?;
            let b = &alone[i];
            for (x, y) in [(seen(&first), &b.outputs[0]), (seen(&x), &b.outputs[1])] {
                if x != *y {
                    return explain("outputs of two equal views", i, format!("{x:?} vs {y:?}"));
                }
            }
            let snap = bx::snap(&a.body());
            if let Some(d) = snap.diff(&b.snap, "") {
                return explain("two equal views", i, d);
            }
            if ids(&a) != b.ids {
                return explain("two equal views", i, format!("elements by ids {:?} vs {:?}", ids(&a), b.ids));
            }
            let whole = std::mem::take(&mut x.messages);
            st.label_n("updates", 1);
            at = boxes(&a);
            if !still {
                continue;
            }
            bx::update(&mut c, bx::input(step.ms, vec![]), &step.value)?;
            bx::update(&mut c, bx::input(0, vec![]), &step.value)?;
            let mut rest = &events[..];
            let mut messages = vec![];
            let mut sizes = vec![];
            let mut plan = case.chunks[i].clone();
            plan.push((usize::MAX, 0));
            let mut last = None;
            for (size, ms) in plan {
                let (head, tail) = rest.split_at(size.min(rest.len()));
                rest = tail;
                sizes.push(head.len());
                let ms = if moving { 0 } else { ms };
                let output = bx::update(&mut c, bx::input(ms, head.to_vec()), &step.value)?;
                messages.extend(output.messages.clone());
                last = Some(output);
            }
            let (p, q) = (steady(&whole), steady(&messages));
            if p != q {
                return explain(&format!("messages of events {events:?} split by {sizes:?}"), i, format!("{p:?}\nvs\n{q:?}"));
            }
            let last = last.unwrap();
            let what = format!("events {events:?} split by {sizes:?}");
            if seen(&x).1 != seen(&last).1 || seen(&x).2 != seen(&last).2 {
                return explain(&what, i, format!("{:?} vs {:?}", seen(&x), seen(&last)));
            }
            if let Some(d) = snap.diff(&bx::snap(&c.body()), "") {
                return explain(&what, i, d);
            }
            if ids(&a) != ids(&c) {
                return explain(&what, i, format!("elements by ids {:?} vs {:?}", ids(&a), ids(&c)));
            }
            if sizes.iter().filter(|n| **n > 0).count() > 1 && !p.is_empty() {
                split += 1;
            }
        }
        st.label_n("split updates", split);
        if moving {
            st.label("animated");
        }
        if split > 0 {
            st.nontrivial();
        }
        Ok(())
    }
}
