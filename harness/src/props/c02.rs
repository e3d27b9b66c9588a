//! C02: what is displayed depends on the last value only, not on how the view came to it.

use crate::bx;
use crate::doc::*;
use crate::engine::*;
use crate::sel::*;
use bumaga::{InputEvent, Keys, MouseButtons};
use serde::{Deserialize, Serialize};
use serde_json::Value;

#[derive(Serialize, Deserialize, Clone, Copy, Debug)]
pub enum Ev {
    Move(f32, f32),
    Down(bool),
    Up(bool),
    Wheel(f32, f32),
    Key(bool, u8),
    Char(char),
    Unknown,
}

pub const KEYS: [Keys; 6] = [
    Keys::Enter,
    Keys::Tab,
    Keys::Escape,
    Keys::Backspace,
    Keys::ArrowUp,
    Keys::Shift,
];

impl Ev {
    pub fn event(&self) -> InputEvent {
        let button = |left: bool| if left { MouseButtons::Left } else { MouseButtons::Right };
        match *self {
            Ev::Move(x, y) => InputEvent::MouseMove([x, y]),
            Ev::Down(left) => InputEvent::MouseButtonDown(button(left)),
            Ev::Up(left) => InputEvent::MouseButtonUp(button(left)),
            Ev::Wheel(x, y) => InputEvent::MouseWheel([x, y]),
            Ev::Key(true, k) => InputEvent::KeyDown(KEYS[k as usize % KEYS.len()]),
            Ev::Key(false, k) => InputEvent::KeyUp(KEYS[k as usize % KEYS.len()]),
            Ev::Char(c) => InputEvent::Char(c),
            Ev::Unknown => InputEvent::Unknown,
        }
    }
}

pub fn gen_ev(g: &mut Gen) -> Ev {
    match g.weighted(&[6, 2, 2, 1, 1, 1, 1]) {
        0 => Ev::Move(g.int(0, 160) as f32, g.int(0, 120) as f32),
        1 => Ev::Down(!g.chance(1, 4)),
        2 => Ev::Up(!g.chance(1, 4)),
        3 => Ev::Wheel(g.int(-1, 1) as f32, g.int(-1, 1) as f32),
        4 => Ev::Key(g.bool(), g.below(6) as u8),
        5 => Ev::Char(*g.pick(&['a', 'ж', ' '])),
        _ => Ev::Unknown,
    }
}

#[derive(Serialize, Deserialize)]
pub struct Step {
    pub value: Value,
    pub viewport: [f32; 2],
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub events: Vec<Ev>,
}

#[derive(Serialize, Deserialize)]
pub struct Case {
    pub doc: Doc,
    pub sheet: Vec<RuleSet>,
    pub steps: Vec<Step>,
}

pub struct C02;

/// Listeners make elements focusable and draggable.
fn interactive(g: &mut Gen, e: &mut El) {
    if g.chance(1, 5) {
        let event = g.pick_s(&["oninput", "onclick", "ondrop"]);
        e.attrs.push(Attr::On(event, vec![Arg::Key("M".into())]));
    }
    if g.chance(1, 10) {
        e.attrs.push(st("draggable", "true"));
    }
    for kid in &mut e.kids {
        if let Node::El(kid) = kid {
            if kid.tag != "link" {
                interactive(g, kid);
            }
        }
    }
}

fn settle(view: &mut bumaga::View, value: &Value, viewport: [f32; 2]) -> Result<(), String> {
    let events = vec![
        InputEvent::MouseMove([-1e6, -1e6]),
        InputEvent::MouseButtonUp(MouseButtons::Left),
        InputEvent::MouseButtonDown(MouseButtons::Right),
        InputEvent::MouseButtonUp(MouseButtons::Right),
    ];
    bx::update(view, bx::input(16, events).viewport(viewport), value)?;
    for _ in 0..2 {
        bx::update(view, bx::input(16, vec![]).viewport(viewport), value)?;
    }
    Ok(())
}

impl Property for C02 {
    const ID: &'static str = "C02";
    const RULE: &'static str = "A random styled document (generated stylesheet with selectors, combinators, pseudo-classes, any supported declarations, bound classes and inline styles, visibility, repeats, templates, listeners) goes through 1-6 values with random viewports and mouse/keyboard events; then the pointer leaves, buttons are released and focus is dropped. The whole snapshot (tree, texts, attributes, computed style, layout style, positions, sizes, clipping, scrolling, opacity) equals the snapshot of a fresh view that only ever saw the last value. Non-trivial: at least two different values, at least one rule, and the snapshot before the last value differs from the final one.";
    const CASES: (u64, u64) = (80_000, 1_000_000);
    type Case = Case;

    fn gen(g: &mut Gen) -> Case {
        let cfg = DocCfg {
            depth: 3,
            kids: 3,
            ..DocCfg::default()
        };
        let mut doc = DocGen::new(cfg).doc(g);
        dress(g, &mut doc.body, true);
        interactive(g, &mut doc.body);
        let shape = doc.shape();
        let sheet = gen_sheet(g, 7, true);
        let mut steps: Vec<Step> = vec![];
        while g.more(steps.len(), 1, 6, 4, 5) {
            let value = match steps.last() {
                Some(s) => mutate(g, &s.value, &shape, true),
                None => gen_value(g, &shape, true),
            };
            let viewport = *g.pick(&[[800.0, 600.0], [800.0, 600.0], [400.0, 700.0], [800.0, 300.0]]);
            let events = g.vec(0, 4, gen_ev);
            steps.push(Step {
                value,
                viewport,
                events,
            });
        }
        Case { doc, sheet, steps }
    }

    fn check(case: &Case, st: &mut Stats) -> Check {
        let html = case.doc.html();
        let css = print_sheet(&case.sheet);
        let mut view = bx::view(&html, &css)?;
        let mut before = None;
        for (i, step) in case.steps.iter().enumerate() {
            if i + 1 == case.steps.len() && i > 0 {
                before = Some(bx::snap(&view.body()));
            }
            let events = step.events.iter().map(|e| e.event()).collect();
            bx::update(&mut view, bx::input(16, events).viewport(step.viewport), &step.value)?;
        }
        let last = case.steps.last().unwrap();
        settle(&mut view, &last.value, last.viewport)?;
        let mut fresh = bx::view(&html, &css)?;
        bx::update(&mut fresh, bx::input(16, vec![]).viewport(last.viewport), &last.value)?;
        settle(&mut fresh, &last.value, last.viewport)?;
        let a = bx::snap(&view.body());
        let b = bx::snap(&fresh.body());
        if let Some(d) = a.diff(&b, "") {
            return Err(format!(
                "after the history vs fresh: {d}\nhtml: {html}\ncss:\n{css}\nvalues: {}",
                case.steps.iter().map(|s| s.value.to_string()).collect::<Vec<_>>().join("\n")
            ));
        }
        st.label_n("updates", case.steps.len() as u64);
        if let Some(before) = before {
            if !case.sheet.is_empty() && before.diff(&a, "").is_some() {
                st.nontrivial();
            }
        }
        Ok(())
    }
}
