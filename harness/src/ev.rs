//! A reference model of input handling: what is under the pointer, pressed, focused and dragged,
//! and which messages are reported for it.

use crate::bx;
use crate::doc::*;
use crate::engine::*;
use bumaga::{Element, Fragment, InputEvent, Keys, MouseButtons, Output, Pointer, PointerEvents, View};
use serde::{Deserialize, Serialize};
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, HashMap};
use taffy::NodeId;

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq)]
pub enum Ev {
    /// to a point
    Move(f32, f32),
    /// to a fraction of the box of the n-th displayed node
    Over(usize, f32, f32),
    Down(bool),
    Up(bool),
    Wheel(f32, f32),
    Key(bool, u8),
    Char(char),
    Unknown,
}

pub const KEYS: [Keys; 8] = [
    Keys::Enter,
    Keys::Tab,
    Keys::Escape,
    Keys::Backspace,
    Keys::ArrowUp,
    Keys::Shift,
    Keys::PageDown,
    Keys::Unknown,
];

impl Ev {
    pub fn event(&self, boxes: &[([f32; 2], [f32; 2])]) -> InputEvent {
        let button = |left: bool| if left { MouseButtons::Left } else { MouseButtons::Right };
        match *self {
            Ev::Move(x, y) => InputEvent::MouseMove([x, y]),
            Ev::Over(n, x, y) => {
                if boxes.is_empty() {
                    return InputEvent::MouseMove([x, y]);
                }
                let (p, s) = boxes[n % boxes.len()];
                InputEvent::MouseMove([p[0] + s[0] * x, p[1] + s[1] * y])
            }
            Ev::Down(left) => InputEvent::MouseButtonDown(button(left)),
            Ev::Up(left) => InputEvent::MouseButtonUp(button(left)),
            Ev::Wheel(x, y) => InputEvent::MouseWheel([x, y]),
            Ev::Key(true, k) => InputEvent::KeyDown(KEYS[k as usize % KEYS.len()]),
            Ev::Key(false, k) => InputEvent::KeyUp(KEYS[k as usize % KEYS.len()]),
            Ev::Char(c) => InputEvent::Char(c),
            Ev::Unknown => InputEvent::Unknown,
        }
    }
}

/// Weights of: moves, left button, right button, keys and characters, others.
pub fn gen_ev(g: &mut Gen, weights: &[u64; 5]) -> Ev {
    match g.weighted(weights) {
        0 => {
            if g.chance(1, 5) {
                Ev::Move(g.int(-5, 160) as f32, g.int(-5, 160) as f32)
            } else {
                let x = *g.pick(&[0.5, 0.0, 1.0, 0.25, 0.99]);
                let y = *g.pick(&[0.5, 0.0, 1.0, 0.75, 0.01]);
                Ev::Over(g.below(16), x, y)
            }
        }
        1 => {
            if g.bool() {
                Ev::Up(true)
            } else {
                Ev::Down(true)
            }
        }
        2 => {
            if g.bool() {
                Ev::Up(false)
            } else {
                Ev::Down(false)
            }
        }
        3 => {
            if g.bool() {
                Ev::Char(*g.pick(&['a', 'ж', ' ', '"']))
            } else {
                Ev::Key(g.bool(), g.below(8) as u8)
            }
        }
        _ => {
            if g.bool() {
                Ev::Unknown
            } else {
                Ev::Wheel(g.int(-1, 1) as f32, g.int(-2, 2) as f32)
            }
        }
    }
}

/// Keeps one button pressed at a time.
#[derive(Default)]
pub struct Buttons {
    pressed: Option<bool>,
}

impl Buttons {
    pub fn accept(&mut self, event: &Ev) -> bool {
        match *event {
            Ev::Down(button) => {
                if self.pressed.is_some() {
                    return false;
                }
                self.pressed = Some(button);
                true
            }
            Ev::Up(button) => match self.pressed {
                Some(pressed) if pressed != button => false,
                _ => {
                    self.pressed = None;
                    true
                }
            },
            _ => true,
        }
    }
}

#[derive(Clone, Copy, Default, Debug)]
pub struct State {
    pub active: bool,
    pub hover: bool,
    pub focus: bool,
}

/// What the machine knows about a node.
#[derive(Clone, Debug, Default)]
pub struct Item {
    pub position: [f32; 2],
    pub size: [f32; 2],
    pub receives: bool,
    pub draggable: bool,
    pub pointer: Pointer,
    pub on: BTreeMap<String, Vec<RArg>>,
    pub state: State,
}

#[derive(Default)]
pub struct Machine {
    pub items: HashMap<NodeId, Item>,
    /// displayed nodes in document order
    pub shown: Vec<NodeId>,
    pub mouse: [f32; 2],
    pub hovered: Vec<NodeId>,
    pub pressed: Vec<(NodeId, MouseButtons)>,
    pub drag: Option<NodeId>,
    pub focus: Option<NodeId>,
    pub messages: Vec<Value>,
    /// how many messages of every event were expected so far
    pub fired: BTreeMap<String, u64>,
}

impl Machine {
    /// Takes displayed elements of the view, and handlers of the reference tree.
    pub fn observe(&mut self, view: &View, expected: &REl) -> Result<(), String> {
        self.shown.clear();
        self.visit(view.body(), Some(expected))
    }

    fn visit(&mut self, f: Fragment, expected: Option<&REl>) -> Result<(), String> {
        let e: &Element = f.element;
        self.shown.push(e.node);
        let item = self.items.entry(e.node).or_default();
        item.position = e.position;
        item.size = e.size;
        item.receives = e.visible && e.pointer_events == PointerEvents::Auto;
        item.draggable = e.attrs.get("draggable").map(String::as_str) == Some("true");
        item.pointer = e.pointer;
        if let Some(expected) = expected {
            item.on = expected.on.clone();
        }
        let kids = f.children();
        for (i, kid) in kids.into_iter().enumerate() {
            let expected = match expected {
                Some(e) if e.tag != "img" => match e.kids.get(i) {
                    Some(RNode::El(e)) => {
                        if kid.element.tag != e.tag {
                            return Err(format!("<{}> displayed for <{}>", kid.element.tag, e.tag));
                        }
                        Some(e)
                    }
                    Some(RNode::Text(_)) => None,
                    None => return Err(format!("too many children of <{}>", e.tag)),
                },
                _ => None,
            };
            self.visit(kid, expected)?;
        }
        Ok(())
    }

    pub fn boxes(&self) -> Vec<([f32; 2], [f32; 2])> {
        self.shown
            .iter()
            .map(|n| (self.items[n].position, self.items[n].size))
            .collect()
    }

    pub fn target(&self, node: NodeId) -> Value {
        let item = &self.items[&node];
        json!({
            "size": item.size,
            "position": item.position,
            "state": {
                "active": item.state.active,
                "hover": item.state.hover,
                "focus": item.state.focus,
                "checked": false,
            }
        })
    }

    fn fire(&mut self, node: NodeId, event: &str, payload: Value, value: &Value) {
        let Some(args) = self.items[&node].on.get(event) else {
            return;
        };
        let mut args: Vec<Value> = args
            .iter()
            .map(|a| match a {
                RArg::Key(k) => Value::String(k.clone()),
                RArg::Event => payload.clone(),
                RArg::Path(path, pipe) => {
                    let mut v = lookup(value, path);
                    for p in pipe {
                        v = bx::pipe(p, v);
                    }
                    v
                }
            })
            .collect();
        *self.fired.entry(event.to_string()).or_default() += 1;
        let key = if args.is_empty() {
            "Undefined".to_string()
        } else {
            text_of(&args.remove(0))
        };
        let message = match args.len() {
            0 => Value::String(key),
            n => {
                let mut m = Map::new();
                m.insert(key, if n == 1 { args.remove(0) } else { Value::Array(args) });
                Value::Object(m)
            }
        };
        self.messages.push(message);
    }

    fn mouse(&mut self, node: NodeId, event: &str, value: &Value) {
        let payload = json!({"position": self.mouse, "target": self.target(node)});
        self.fire(node, event, payload, value);
    }

    fn state(&mut self, node: NodeId) -> &mut State {
        &mut self.items.get_mut(&node).unwrap().state
    }

    fn under_mouse(&self) -> Vec<NodeId> {
        let inside = |p: f32, at: f32, size: f32| p - at >= 0.0 && p - at < size;
        self.shown
            .iter()
            .filter(|n| {
                let i = &self.items[n];
                i.receives
                    && inside(self.mouse[0], i.position[0], i.size[0])
                    && inside(self.mouse[1], i.position[1], i.size[1])
            })
            .copied()
            .collect()
    }

    /// Handles events of one update after `observe`, returns expected messages.
    pub fn handle(&mut self, events: &[InputEvent], value: &Value) -> Vec<Value> {
        self.messages.clear();
        let first = events.iter().find(|e| {
            matches!(
                e,
                InputEvent::MouseMove(_) | InputEvent::MouseButtonDown(_) | InputEvent::MouseButtonUp(_)
            )
        });
        if !matches!(first, Some(InputEvent::MouseMove(_))) {
            self.moved(self.mouse, value);
        }
        for event in events {
            match *event {
                InputEvent::MouseMove(position) => self.moved(position, value),
                InputEvent::MouseButtonDown(button) => self.down(button, value),
                InputEvent::MouseButtonUp(button) => self.up(button, value),
                InputEvent::KeyDown(key) => self.key("onkeydown", key, value),
                InputEvent::KeyUp(key) => self.key("onkeyup", key, value),
                InputEvent::Char(c) => {
                    if let Some(node) = self.focus {
                        let payload = json!({"char": c, "target": self.target(node)});
                        self.fire(node, "oninput", payload, value);
                    }
                }
                InputEvent::MouseWheel(_) | InputEvent::Unknown => {}
            }
        }
        std::mem::take(&mut self.messages)
    }

    fn key(&mut self, event: &str, key: Keys, value: &Value) {
        if let Some(node) = self.focus {
            let payload = json!({"key": key, "target": self.target(node)});
            self.fire(node, event, payload, value);
        }
    }

    fn moved(&mut self, position: [f32; 2], value: &Value) {
        self.mouse = position;
        let now = self.under_mouse();
        let before = std::mem::replace(&mut self.hovered, now.clone());
        for node in before.iter().rev() {
            if !now.contains(node) {
                self.state(*node).hover = false;
                self.mouse(*node, "onmouseleave", value);
                if self.drag.is_some() {
                    self.mouse(*node, "ondragleave", value);
                }
            }
        }
        for node in now.iter().rev() {
            if !before.contains(node) {
                self.state(*node).hover = true;
                self.mouse(*node, "onmouseenter", value);
                if self.drag.is_some() {
                    self.mouse(*node, "ondragenter", value);
                }
            }
            self.mouse(*node, "onmousemove", value);
            if self.drag.is_some() {
                self.mouse(*node, "ondragover", value);
            }
        }
    }

    fn blur(&mut self, value: &Value) {
        if let Some(node) = self.focus.take() {
            self.state(node).focus = false;
            self.mouse(node, "onblur", value);
        }
    }

    fn down(&mut self, button: MouseButtons, value: &Value) {
        if let Some(focus) = self.focus {
            if !self.hovered.contains(&focus) {
                self.blur(value);
            }
        }
        let mut focused = false;
        for node in self.hovered.clone().into_iter().rev() {
            self.state(node).active = true;
            self.pressed.push((node, button));
            if !focused && self.items[&node].on.contains_key("oninput") {
                focused = true;
                if self.focus != Some(node) {
                    self.blur(value);
                    self.focus = Some(node);
                    self.state(node).focus = true;
                    self.mouse(node, "onfocus", value);
                }
            }
            self.mouse(node, "onmousedown", value);
            if button == MouseButtons::Left && self.drag.is_none() && self.items[&node].draggable {
                self.mouse(node, "ondragstart", value);
                self.drag = Some(node);
            }
        }
    }

    fn up(&mut self, button: MouseButtons, value: &Value) {
        let dragging = self.drag.is_some();
        for node in self.hovered.clone().into_iter().rev() {
            self.mouse(node, "onmouseup", value);
            match self.drag {
                Some(source) => {
                    if button == MouseButtons::Left && self.items[&node].on.contains_key("ondrop") {
                        self.mouse(node, "ondrop", value);
                        self.drag = None;
                        self.mouse(source, "ondragend", value);
                    }
                }
                None if dragging => {}
                None => {
                    if button == MouseButtons::Left && self.pressed.contains(&(node, button)) {
                        self.mouse(node, "onclick", value);
                    }
                    if button == MouseButtons::Right {
                        self.mouse(node, "oncontextmenu", value);
                    }
                }
            }
        }
        if button == MouseButtons::Left {
            if let Some(source) = self.drag.take() {
                self.mouse(source, "ondragend", value);
            }
        }
        self.pressed.retain(|(_, pressed)| *pressed != button);
        let nodes: Vec<_> = self.items.keys().copied().collect();
        for node in nodes {
            let active = self.pressed.iter().any(|(pressed, _)| *pressed == node);
            self.state(node).active = active;
        }
    }

    pub fn captured(&self) -> bool {
        !self.hovered.is_empty() || self.drag.is_some() || self.focus.is_some() || !self.pressed.is_empty()
    }

    pub fn pointer(&self) -> Pointer {
        self.hovered
            .iter()
            .map(|n| self.items[n].pointer)
            .filter(|p| *p != Pointer::Auto)
            .last()
            .unwrap_or(Pointer::Auto)
    }
}

// ---------------------------------------------------------------------------------------------
// pages with listeners

#[derive(Serialize, Deserialize)]
pub struct Step {
    pub value: Value,
    #[serde(default)]
    pub ms: u64,
    pub events: Vec<Ev>,
}

#[derive(Serialize, Deserialize)]
pub struct Page {
    pub doc: Doc,
    pub css: Vec<String>,
    pub steps: Vec<Step>,
    /// whether buttons can be pressed while another one is
    #[serde(default)]
    pub buttons: bool,
}

/// What a page of an event check is made of.
pub struct PageCfg {
    pub events: &'static [&'static str],
    /// chance (of 12) for an element to listen to an event
    pub density: u64,
    pub weights: [u64; 5],
    pub draggable: bool,
    pub rich: bool,
    pub cursors: bool,
}

fn listeners(g: &mut Gen, e: &mut El, cfg: &PageCfg, scope: &Scope, serial: &mut usize) {
    *serial += 1;
    let serial_of_element = *serial;
    let mut inner = scope.clone();
    for attr in &e.attrs {
        match attr {
            Attr::Alias(name, x) => {
                let kind = kind_of(x, scope);
                inner.locals.retain(|(n, _)| n != name);
                if let Some(kind) = kind {
                    inner.locals.push((name.clone(), kind));
                }
            }
            _ => {}
        }
    }
    for attr in &e.attrs {
        if let Attr::Repeat(name, _, x) = attr {
            let kind = match kind_of(x, &inner) {
                Some(Kind::ArrObj) => Some(Kind::Obj),
                Some(Kind::ArrLeaf) => Some(Kind::Leaf),
                _ => None,
            };
            inner.locals.retain(|(n, _)| n != name);
            if let Some(kind) = kind {
                inner.locals.push((name.clone(), kind));
            }
        }
    }
    for event in cfg.events {
        if !g.chance(cfg.density, 12) {
            continue;
        }
        let key = format!("{}-{serial_of_element}", &event[2..]);
        let mut args = vec![];
        if cfg.rich {
            match g.weighted(&[8, 1, 1, 2]) {
                0 => args.push(Arg::Key(key)),
                1 => {}
                2 => args.push(Arg::Key(g.pick_s(&["Select", "Set-1", "x_2", "Drop"]))),
                _ => args.push(Arg::Bind(inner.any_expr(g, true))),
            }
            while !args.is_empty() && g.more(args.len(), 1, 9, 3, 4) {
                let arg = match g.weighted(&[3, 2, 1]) {
                    0 => Arg::Bind(inner.any_expr(g, true)),
                    1 => Arg::Event,
                    _ => Arg::Key(g.pick_s(&["up", "Down", "x-1", "a"])),
                };
                args.push(arg);
            }
        } else {
            args.push(Arg::Key(key));
            if g.chance(1, 4) {
                args.push(Arg::Bind(inner.expr(g, Kind::Leaf, false)));
            }
        }
        e.attrs.push(Attr::On(event.to_string(), args));
    }
    if cfg.draggable {
        match g.below(8) {
            4..=6 => e.attrs.push(st("draggable", g.pick(&["true", "true", "true", "false"]))),
            7 => {
                let x = Expr {
                    path: vec![g.pick_s(&["a", "b"])],
                    pipe: vec![],
                };
                let shadowed = inner.locals.iter().any(|(n, _)| *n == x.path[0]);
                if !shadowed {
                    e.attrs.push(Attr::Dyn("draggable".into(), vec![Span::Bind(x)]));
                }
            }
            _ => {}
        }
    }
    for kid in &mut e.kids {
        if let Node::El(kid) = kid {
            if kid.tag != "link" {
                listeners(g, kid, cfg, &inner, serial);
            }
        }
    }
}

/// The kind of the data a path leads to.
pub fn kind_of(e: &Expr, scope: &Scope) -> Option<Kind> {
    let mut path = e.path.iter();
    let head = path.next()?;
    let mut kind = match scope.locals.iter().find(|(n, _)| n == head) {
        Some((_, kind)) => *kind,
        None => fields_of(Kind::Obj, true).iter().find(|(n, _)| n == head)?.1,
    };
    for key in path {
        kind = fields_of(kind, false).iter().find(|(n, _)| n == key)?.1;
    }
    Some(kind)
}

pub const BOXES: [&str; 14] = [
    "width: 40px; height: 30px;",
    "padding: 6px;",
    "height: 50px;",
    "margin: 4px 0 0 8px;",
    "margin-top: -12px;",
    "position: absolute; left: 10px; top: 12px; width: 30px; height: 25px;",
    "pointer-events: none;",
    "visibility: hidden;",
    "display: flex;",
    "width: 20px; height: 0px;",
    "pointer-events: auto; visibility: visible;",
    "overflow: hidden; height: 20px;",
    "opacity: 0;",
    "opacity: 0.5; padding: 3px;",
];

/// Rules of boxes for classes, tags and states.
pub fn gen_css(g: &mut Gen, cfg: &PageCfg) -> Vec<String> {
    let mut css = vec!["body { padding: 5px; width: 150px; }".to_string()];
    css.extend(g.vec(0, 8, |g| {
        let mut selector = match g.weighted(&[4, 4, 1]) {
            0 => format!(".{}", g.pick(&CLASSES)),
            1 => g.pick(&TAGS).to_string(),
            _ => "*".to_string(),
        };
        if g.chance(1, 4) {
            selector += g.pick(&[":hover", ":active", ":focus"]);
        }
        let style = if cfg.cursors && g.chance(1, 2) {
            let cursor = g.pick(&["pointer", "help", "wait", "text", "default", "auto", "not-allowed"]);
            format!("cursor: {cursor};")
        } else {
            g.pick_s(&BOXES)
        };
        format!("{selector} {{ {style} }}")
    }));
    css
}

pub const EVENTS: [&str; 18] = [
    "onmouseenter", "onmouseleave", "onmousemove", "onmousedown", "onmouseup", "onclick", "oncontextmenu",
    "onfocus", "onblur", "oninput", "onkeydown", "onkeyup", "ondragstart", "ondragenter", "ondragover",
    "ondragleave", "ondrop", "ondragend",
];

pub fn gen_page(g: &mut Gen, cfg: &PageCfg) -> Page {
    // some pages mix gestures of all kinds
    let mixed = PageCfg {
        events: &EVENTS,
        density: 3,
        weights: [7, 6, 1, 3, 1],
        draggable: cfg.draggable || g.bool(),
        rich: cfg.rich,
        cursors: cfg.cursors,
    };
    let cfg = if g.chance(1, 3) { &mixed } else { cfg };
    let doc_cfg = DocCfg {
        depth: 3,
        kids: 3,
        pipes: cfg.rich,
        templates: true,
        ..DocCfg::default()
    };
    let mut doc = DocGen::new(doc_cfg).doc(g);
    dress(g, &mut doc.body, false);
    let mut serial = 0;
    listeners(g, &mut doc.body, cfg, &Scope::default(), &mut serial);
    for (_, template) in &mut doc.templates {
        let scope = Scope {
            locals: vec![("it".into(), Kind::Obj)],
        };
        listeners(g, template, cfg, &scope, &mut serial);
    }
    // handlers read data too
    let shape = doc.shape();
    let css = gen_css(g, cfg);
    let buttons = g.chance(1, 5);
    let mut steps: Vec<Step> = vec![];
    while g.more(steps.len(), 1, 8, 6, 7) {
        let value = match steps.last() {
            Some(s) if g.chance(1, 2) => mutate(g, &s.value, &shape, false),
            Some(s) => s.value.clone(),
            None => gen_value(g, &shape, false),
        };
        let mut events = g.vec(0, 6, |g| gen_ev(g, &cfg.weights));
        if g.chance(if cfg.draggable { 3 } else { 2 }, 6) {
            // a press on one node and a release on another one
            let from = g.below(16);
            let to = if g.chance(1, 3) { from } else { g.below(16) };
            let left = !g.chance(1, 8);
            let mut gesture = vec![Ev::Over(from, 0.5, 0.5), Ev::Down(left), Ev::Over(to, 0.5, 0.5), Ev::Up(left)];
            if g.chance(1, 3) {
                gesture.truncate(g.len(2, 3));
            }
            if buttons && g.bool() {
                // with another button in the middle of it
                let at = g.len(1, gesture.len());
                let other = *g.pick(&[Ev::Down(!left), Ev::Up(!left), Ev::Down(left)]);
                gesture.insert(at, other);
            }
            events.extend(gesture);
        }
        if g.chance(1, 8) {
            // a small step over an edge
            let n = g.below(16);
            let (a, b) = *g.pick(&[(1.0, 0.999), (0.999, 1.0), (0.0, -0.001), (-0.001, 0.0)]);
            let y = if g.bool() { 0.5 } else { b };
            let edge = if g.bool() { [Ev::Over(n, a, 0.5), Ev::Over(n, b, y)] } else { [Ev::Over(n, 0.5, a), Ev::Over(n, y, b)] };
            events.extend(edge);
        }
        steps.push(Step {
            value,
            ms: 16,
            events,
        });
    }
    Page { doc, css, steps, buttons }
}

/// One update of a view together with the machine: (events, output, expected messages).
pub struct Run<'a> {
    pub page: &'a Page,
    pub view: View,
    pub machine: Machine,
    pub buttons: Buttons,
    pub html: String,
    pub sheet: String,
}

pub struct Updated {
    pub events: Vec<InputEvent>,
    pub output: Output,
    pub expected: Vec<Value>,
    /// states of elements before this update
    pub states: HashMap<NodeId, State>,
}

impl<'a> Run<'a> {
    pub fn new(page: &'a Page, extra_css: &str) -> Result<Self, String> {
        let html = page.doc.html();
        let sheet = format!("{}\n{extra_css}", page.css.join("\n"));
        let view = bx::view(&html, &sheet)?;
        Ok(Run {
            page,
            view,
            machine: Machine::default(),
            buttons: Buttons::default(),
            html,
            sheet,
        })
    }

    pub fn update(&mut self, step: &Step) -> Result<Updated, String> {
        let boxes = self.machine.boxes();
        let events: Vec<InputEvent> = step
            .events
            .iter()
            .filter(|e| self.page.buttons || self.buttons.accept(e))
            .map(|e| e.event(&boxes))
            .collect();
        let output = bx::update(&mut self.view, bx::input(step.ms, events.clone()), &step.value)?;
        let tree = self.page.doc.eval(&step.value);
        let states = self.machine.items.iter().map(|(n, i)| (*n, i.state)).collect();
        self.machine
            .observe(&self.view, &tree)
            .map_err(|e| self.explain(&e))?;
        let expected = self.machine.handle(&events, &step.value);
        Ok(Updated {
            events,
            output,
            expected,
            states,
        })
    }

    /// Whether something holds for every styled element and its state before the update.
    pub fn styled(
        &self,
        i: usize,
        u: &Updated,
        what: &str,
        test: impl Fn(&Element, State) -> bool,
    ) -> Result<(), String> {
        let body = self.view.body();
        let mut elements = vec![];
        bx::walk(body, &mut elements);
        for e in elements {
            if e.text.is_some() || e.tag.is_empty() {
                continue;
            }
            let state = u.states.get(&e.node).copied().unwrap_or_default();
            if !test(e, state) {
                return Err(self.explain(&format!(
                    "update {i}: {what}: <{}> at {:?} {:?} in state {state:?}, background {:?}, pointer {:?}",
                    e.tag, e.position, e.size, e.backgrounds.first().map(|b| b.color), e.pointer
                )));
            }
        }
        Ok(())
    }

    pub fn explain(&self, what: &str) -> String {
        format!("{what}\nhtml: {}\ncss: {}", self.html, self.sheet)
    }

    pub fn compare(&self, i: usize, u: &Updated) -> Result<(), String> {
        if u.output.messages == u.expected {
            return Ok(());
        }
        let at = u
            .output
            .messages
            .iter()
            .zip(&u.expected)
            .position(|(a, b)| a != b)
            .unwrap_or(u.output.messages.len().min(u.expected.len()));
        Err(self.explain(&format!(
            "update {i}: message {at} is {}, expected {}\nevents: {:?}\nreported: {}\nexpected: {}",
            u.output.messages.get(at).map(|v| v.to_string()).unwrap_or("nothing".into()),
            u.expected.get(at).map(|v| v.to_string()).unwrap_or("nothing".into()),
            u.events,
            Value::Array(u.output.messages.clone()),
            Value::Array(u.expected.clone()),
        )))
    }
}
