//! C22: an update which brings nothing new changes nothing, reports nothing and measures nothing.

use crate::bx;
use crate::doc::*;
use crate::engine::*;
use crate::props::c02::{gen_ev, Ev};
use crate::sel::*;
use bumaga::{FontFace, Fonts, View};
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::cell::Cell;

thread_local! {
    static MEASURED: Cell<u64> = const { Cell::new(0) };
}

struct CountingFonts;

impl Fonts for CountingFonts {
    fn measure(&self, text: &str, face: &FontFace, max_width: Option<f32>) -> [f32; 2] {
        MEASURED.with(|m| m.set(m.get() + 1));
        bx::measure(text, face, max_width)
    }
}

fn measured() -> u64 {
    MEASURED.with(|m| m.replace(0))
}

#[derive(Serialize, Deserialize)]
pub struct Step {
    pub value: Value,
    pub viewport: [f32; 2],
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub events: Vec<Ev>,
    pub ms: u64,
    /// times of the updates which bring nothing new
    pub again: Vec<u64>,
    /// data which no binding names
    pub unused: Value,
}

#[derive(Serialize, Deserialize)]
pub struct Case {
    pub doc: Doc,
    pub sheet: Vec<RuleSet>,
    pub frames: Vec<Keyframes>,
    pub steps: Vec<Step>,
}

pub struct C22;

const LISTENED: [&str; 10] = [
    "onclick", "onmouseenter", "onmouseleave", "onfocus", "onblur", "oninput", "onkeydown", "ondrop", "ondragenter", "ondragleave",
];

fn listen(g: &mut Gen, e: &mut El) {
    let mut events = LISTENED.to_vec();
    events.retain(|_| g.chance(1, 8));
    for event in events {
        e.attrs.push(Attr::On(event.into(), vec![Arg::Key("M".into()), Arg::Event]));
    }
    if g.chance(1, 10) {
        e.attrs.push(st("draggable", "true"));
    }
    for kid in &mut e.kids {
        if let Node::El(kid) = kid {
            if kid.tag != "link" {
                listen(g, kid);
            }
        }
    }
}

fn has_texts(e: &bx::Snap) -> bool {
    e.text.as_ref().is_some_and(|t| !t.is_empty()) || e.kids.iter().any(has_texts)
}

impl Property for C22 {
    const ID: &'static str = "C22";
    const RULE: &'static str = "A random document (as for C02, without rules that depend on the pointer; a third with animations and transitions) goes through 1-5 values with viewports, events and times. After each, the same value and viewport are given twice without events and in zero time, so that styles of the step settle; then several times more (in any time, if nothing is animated), and once with data under a name which no binding of the document has: every one of these updates leaves the whole snapshot, the captured flag and the pointer image as they are, reports no message (onmousemove and ondragover are not listened to) and never asks to measure a text. Non-trivial: a displayed text that was measured before, at least two updates and a rule.";
    const CASES: (u64, u64) = (60_000, 1_000_000);
    type Case = Case;

    fn gen(g: &mut Gen) -> Case {
        let cfg = DocCfg {
            depth: 3,
            kids: 3,
            ..DocCfg::default()
        };
        let mut doc = DocGen::new(cfg).doc(g);
        dress(g, &mut doc.body, true);
        listen(g, &mut doc.body);
        let shape = doc.shape();
        let mut sheet = gen_sheet(g, 7, false);
        let frames = if g.chance(1, 3) { gen_motion(g, &mut sheet) } else { vec![] };
        let mut steps: Vec<Step> = vec![];
        while g.more(steps.len(), 1, 5, 3, 4) {
            let value = match steps.last() {
                Some(s) => mutate(g, &s.value, &shape, true),
                None => gen_value(g, &shape, true),
            };
            let viewport = *g.pick(&[[800.0, 600.0], [800.0, 600.0], [400.0, 700.0], [800.0, 300.0], [300.0, 600.0]]);
            steps.push(Step {
                value,
                viewport,
                events: g.vec(0, 4, gen_ev),
                ms: g.below(20) as u64 * 50,
                again: g.vec(1, 3, |g| g.below(20) as u64 * 50),
                unused: gen_any(g, 2),
            });
        }
        Case { doc, sheet, frames, steps }
    }

    fn check(case: &Case, st: &mut Stats) -> Check {
        let html = case.doc.html();
        let css = print_motion(&case.sheet, &case.frames);
        let moving = css.contains("animation") || css.contains("transition");
        let mut view = View::from_html(&html, &css, "./assets", CountingFonts, Box::new(bx::Identity))
            .map_err(|e| format!("document rejected: {e:?}\nhtml: {html}\ncss: {css}"))?;
        for (name, f) in bx::PIPES {
            view = view.pipe(name, f);
        }
        let mut texts = false;
        for (i, step) in case.steps.iter().enumerate() {
            let update = |view: &mut View, ms, events, value: &Value| {
                bx::update(view, bx::input(ms, events).viewport(step.viewport), value)
            };
            measured();
            let events = step.events.iter().map(|e| e.event()).collect();
            update(&mut view, step.ms, events, &step.value)?;
            for _ in 0..2 {
                update(&mut view, 0, vec![], &step.value)?;
            }
            let settled = update(&mut view, 0, vec![], &step.value)?;
            let some = measured() > 0;
            let before = bx::snap(&view.body());
            texts |= some && has_texts(&before);
            let mut repeats: Vec<(u64, Value)> = step
                .again
                .iter()
                .map(|ms| (if moving { 0 } else { *ms }, step.value.clone()))
                .collect();
            if let Value::Object(fields) = &step.value {
                let mut fields = fields.clone();
                fields.insert("not-bound".into(), step.unused.clone());
                repeats.push((0, Value::Object(fields)));
            }
            for (ms, value) in repeats {
                let output = update(&mut view, ms, vec![], &value)?;
                let explain = |what: String| -> Check {
                    Err(format!("step {i}, the same again in {ms} ms: {what}\nvalue: {value}\nhtml: {html}\ncss:\n{css}"))
                };
                if let Some(d) = before.diff(&bx::snap(&view.body()), "") {
                    return explain(d);
                }
                if !output.messages.is_empty() {
                    return explain(format!("messages {:?}", output.messages));
                }
                if (output.is_input_captured, output.pointer) != (settled.is_input_captured, settled.pointer) {
                    return explain(format!("output {output:?} after {settled:?}"));
                }
                let n = measured();
                if n > 0 {
                    return explain(format!("{n} texts measured"));
                }
                st.label_n("updates without news", 1);
            }
        }
        if moving {
            st.label("animated");
        }
        if texts && case.steps.len() > 1 && !case.sheet.is_empty() {
            st.nontrivial();
        }
        Ok(())
    }
}
