//! C21: what a host reads through typed helpers is the data itself.

use crate::bx;
use crate::engine::*;
use crate::sty;
use bumaga::*;
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, HashMap};
use std::fmt::Debug;
use std::time::Duration;

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Number {
    Unsigned(u64),
    Signed(i64),
    /// bits
    Float(u64),
}

/// Values which are given to a host, and read as a type.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Default)]
pub struct Item {
    pub name: String,
    pub count: u8,
    pub nested: Option<Box<Item>>,
    pub tags: Vec<String>,
}

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq)]
pub enum Ev {
    Move(f32, f32),
    Down(bool),
    Up(bool),
    Key(bool, usize),
    Char(char),
    Wheel(f32, f32),
}

#[derive(Serialize, Deserialize)]
pub struct Case {
    pub value: Value,
    pub number: Number,
    pub text: String,
    pub item: Item,
    /// left, top, width, height
    pub frame: [f32; 4],
    pub borders: [f32; 4],
    pub radius: [Option<f32>; 4],
    pub base: f32,
    pub draggable: Option<String>,
    pub bound: Option<Value>,
    pub steps: Vec<(u64, Vec<Ev>)>,
    pub viewport: Option<[f32; 2]>,
}

pub struct C21;

pub const ALL_KEYS: [Keys; 19] = [
    Keys::Unknown, Keys::Escape, Keys::Backspace, Keys::Delete, Keys::Insert, Keys::Enter, Keys::Tab, Keys::ArrowUp, Keys::ArrowDown,
    Keys::ArrowLeft, Keys::ArrowRight, Keys::End, Keys::Home, Keys::PageDown, Keys::PageUp, Keys::Alt, Keys::CapsLock, Keys::Ctrl, Keys::Shift,
];

impl Ev {
    fn event(&self) -> InputEvent {
        let button = |left: bool| if left { MouseButtons::Left } else { MouseButtons::Right };
        match *self {
            Ev::Move(x, y) => InputEvent::MouseMove([x, y]),
            Ev::Down(left) => InputEvent::MouseButtonDown(button(left)),
            Ev::Up(left) => InputEvent::MouseButtonUp(button(left)),
            Ev::Key(true, k) => InputEvent::KeyDown(ALL_KEYS[k % 19]),
            Ev::Key(false, k) => InputEvent::KeyUp(ALL_KEYS[k % 19]),
            Ev::Char(c) => InputEvent::Char(c),
            Ev::Wheel(x, y) => InputEvent::MouseWheel([x, y]),
        }
    }
}

fn number_of(n: &Number) -> serde_json::Number {
    match n {
        Number::Unsigned(n) => (*n).into(),
        Number::Signed(n) => (*n).into(),
        Number::Float(bits) => serde_json::Number::from_f64(f64::from_bits(*bits)).unwrap_or(0.into()),
    }
}

fn gen_number(g: &mut Gen) -> Number {
    let near = |g: &mut Gen, n: u64| n.wrapping_add(g.below(5) as u64).wrapping_sub(2);
    match g.below(6) {
        0 => Number::Unsigned(g.below(300) as u64),
        1 => {
            let n = 1u64 << g.below(64);
            Number::Unsigned(near(g, n))
        }
        2 => Number::Signed(-(g.below(300) as i64)),
        3 => {
            let n = 1u64 << g.below(63);
            Number::Signed(-(near(g, n) as i128).min(i64::MAX as i128) as i64)
        }
        4 => Number::Float((g.int(-4000, 4000) as f64 / 8.0).to_bits()),
        _ => Number::Float(g.draw(u64::MAX)),
    }
}

fn gen_text(g: &mut Gen) -> String {
    match g.below(6) {
        0 => match gen_number(g) {
            Number::Unsigned(n) => n.to_string(),
            Number::Signed(n) => n.to_string(),
            Number::Float(n) => f64::from_bits(n).to_string(),
        },
        1 => format!("{}{}", g.pick(&["0", "00", " ", "-", "0x", "", "1_"]), g.below(500)),
        2 => format!("{}{}", g.below(500), g.pick(&[" ", "px", ".0", "e1", "\n", "٣"])),
        3 => g.pick_s(&["", "true", "false", "null", "[array]", "18446744073709551615", "18446744073709551616"]),
        4 => g.pick_s(&["ж", "\"", "a b", "\u{0}", "{a}", "\\"]),
        _ => "".into(),
    }
}

fn gen_json(g: &mut Gen, depth: usize) -> Value {
    match g.weighted(&[2, 1, 1, 1, if depth > 0 { 2 } else { 0 }, if depth > 0 { 1 } else { 0 }]) {
        0 => Value::Number(number_of(&gen_number(g))),
        1 => Value::String(gen_text(g)),
        2 => Value::Null,
        3 => Value::Bool(g.bool()),
        4 => Value::Array(g.vec(0, 4, |g| gen_json(g, depth - 1))),
        _ => Value::Object(g.vec(0, 3, |g| (g.pick_s(&["a", "b", ""]), gen_json(g, depth - 1))).into_iter().collect::<Map<_, _>>()),
    }
}

fn gen_item(g: &mut Gen, depth: usize) -> Item {
    Item {
        name: gen_text(g),
        count: g.below(256) as u8,
        nested: if depth > 0 && g.bool() { Some(Box::new(gen_item(g, depth - 1))) } else { None },
        tags: g.vec(0, 3, gen_text),
    }
}

// ---------------------------------------------------------------------------------------------
// references

fn string_of(v: &Value) -> String {
    match v {
        Value::Null => "".into(),
        Value::String(s) => s.clone(),
        Value::Array(_) => "[array]".into(),
        Value::Object(_) => "{object}".into(),
        v => serde_json::to_string(v).unwrap(),
    }
}

fn u64_of(v: &Value) -> u64 {
    match v {
        Value::Bool(true) => 1,
        Value::Number(n) => {
            if let Some(n) = n.as_i128() {
                return n.clamp(0, u64::MAX as i128) as u64;
            }
            let n = n.as_f64().unwrap().trunc();
            if n <= 0.0 {
                0
            } else if n >= 18446744073709551616.0 {
                u64::MAX
            } else {
                // exact: a whole number below 2^64
                format!("{n:.0}").parse().unwrap()
            }
        }
        Value::String(s) => {
            // an optional sign, then digits only
            let digits = s.strip_prefix('+').unwrap_or(s);
            if digits.is_empty() || !digits.bytes().all(|b| b.is_ascii_digit()) {
                return 0;
            }
            digits.bytes().try_fold(0u64, |n, b| n.checked_mul(10)?.checked_add((b - b'0') as u64)).unwrap_or(0)
        }
        _ => 0,
    }
}

fn truth_of(v: &Value) -> bool {
    !(v.is_null() || *v == json!(false) || *v == json!("") || *v == json!([]) || v.as_f64() == Some(0.0))
}

fn read_back<T: Default + DeserializeOwned + Serialize + PartialEq + Debug>(x: T, others: &[Value]) -> Check {
    let v = serde_json::to_value(&x).unwrap();
    let got: T = v.eval();
    if got != x {
        return Err(format!("{v} reads as {got:?} instead of {x:?}"));
    }
    for other in others {
        let got: T = other.eval();
        if got != T::default() {
            return Err(format!("{other} of another type reads as {got:?} instead of {:?}", T::default()));
        }
    }
    Ok(())
}

fn equal<A: PartialEq<B> + Debug, B: Debug>(what: &str, got: A, expected: B) -> Check {
    if got != expected {
        return Err(format!("{what}: {got:?} instead of {expected:?}"));
    }
    Ok(())
}

fn values(case: &Case) -> Check {
    let number = Value::Number(number_of(&case.number));
    let text = Value::String(case.text.clone());
    for v in [&case.value, &number, &text] {
        equal(&format!("eval_string of {v}"), v.eval_string(), string_of(v))?;
        equal(&format!("eval_boolean of {v}"), v.eval_boolean(), truth_of(v))?;
        equal(&format!("eval_u64 of {v}"), v.eval_u64(), u64_of(v))?;
        equal(&format!("eval_usize of {v}"), v.eval_usize(), u64_of(v) as usize)?;
        let array = match v {
            Value::Array(a) => a.iter().map(string_of).collect(),
            v => vec![string_of(v)],
        };
        equal(&format!("eval_array of {v}"), v.eval_array(), array)?;
        equal(&format!("eval of {v} as value"), v.eval::<Value>(), v.clone())?;
    }
    read_back(case.item.clone(), &[json!(1), json!("a"), json!(null), json!({"name": "x", "count": 256, "nested": null, "tags": []})])?;
    read_back(case.text.clone(), &[json!(1), json!(true), json!(null), json!(["a"]), json!({})])?;
    read_back(case.item.count, &[json!(-1), json!(256), json!(1.5), json!("1"), json!(true), json!(null), json!([1])])?;
    read_back(vec![case.item.clone(); 2], &[json!(1), json!(null), json!([1]), json!({})])?;
    read_back(Some(case.text.clone()), &[json!(1), json!(null)])?;
    read_back(HashMap::from([(case.text.clone(), case.item.count)]), &[json!([]), json!(null), json!({"a": -1}), json!({"a": "1"})])?;
    read_back(case.item.count % 2 == 1, &[json!(1), json!("true"), json!(null)])?;
    match &case.number {
        Number::Unsigned(n) => read_back(*n, &[json!(-1), json!(0.5), json!("1")]),
        Number::Signed(n) => read_back(*n, &[json!(0.5), json!("1"), json!(u64::MAX)]),
        Number::Float(n) if f64::from_bits(*n).is_finite() => read_back(f64::from_bits(*n), &[json!("1.0"), json!(null)]),
        _ => Ok(()),
    }
}

// ---------------------------------------------------------------------------------------------
// elements and events

const EVENTS: [&str; 17] = [
    "onmouseenter", "onmouseleave", "onmousemove", "onmousedown", "onmouseup", "onclick", "oncontextmenu", "onfocus", "onblur", "oninput",
    "onkeydown", "onkeyup", "ondragstart", "ondragenter", "ondragover", "ondragleave", "ondragend",
];

fn page(case: &Case) -> (String, String) {
    let mut attrs: Vec<String> = EVENTS.iter().map(|e| format!("^{e}=\"{e} $event\"")).collect();
    if let Some(draggable) = &case.draggable {
        attrs.push(format!("draggable=\"{draggable}\""));
    }
    match &case.bound {
        Some(_) => attrs.push("@value=\"{v}\"".into()),
        None => attrs.push("value=\"some  text\"".into()),
    }
    let html = format!("<html><body><div id=\"x\" {}></div><p id=\"y\" #draggable=\"{{v}}\" #value=\"{{v}}\"></p></body></html>", attrs.join(" "));
    let [l, t, w, h] = case.frame.map(sty::num);
    let mut css = format!("#x {{ position: absolute; left: {l}px; top: {t}px; width: {w}px; height: {h}px;");
    for (side, w) in ["top", "right", "bottom", "left"].iter().zip(case.borders) {
        css += &format!(" border-{side}-width: {}px; border-{side}-color: #0{}0203ff;", sty::num(w), side.len());
    }
    let length = |v: f32, percent: Option<f32>| match percent {
        Some(p) => format!("{}%", sty::num(p)),
        None => format!("{}px", sty::num(v)),
    };
    let radius = case.radius.iter().enumerate().map(|(i, r)| length(i as f32 + 1.0, *r)).collect::<Vec<_>>();
    css += &format!(" border-radius: {}; }}", radius.join(" "));
    (html, css)
}

fn close(a: f32, b: f32) -> bool {
    (a - b).abs() <= 1e-3 * b.abs().max(1.0)
}

fn element(case: &Case, view: &View) -> Check {
    let e = view.get_element_by_id("x").ok_or("element is not found")?;
    equal("draggable", e.draggable(), case.draggable.as_deref() == Some("true"))?;
    let value = match &case.bound {
        Some(v) => string_of(v),
        None => "some  text".into(),
    };
    equal("value", e.value().cloned(), Some(value))?;
    let y = view.get_element_by_id("y").ok_or("element is not found")?;
    equal("draggable of an attribute without value", y.draggable(), false)?;
    let present = case.bound.as_ref().is_some_and(truth_of);
    equal("value of an attribute without value", y.value().is_some(), present)?;
    let sides = [e.borders.top(), e.borders.right(), e.borders.bottom(), e.borders.left()];
    for ((side, got), (name, w)) in sides.iter().enumerate().zip([3u8, 5, 6, 4].iter().zip(case.borders)) {
        let expected = (w > 0.0).then_some((w, [*name, 2, 3, 255]));
        equal(&format!("border of side {side}"), got.map(|b| (b.width, b.color)), expected)?;
    }
    for (i, r) in case.radius.iter().enumerate() {
        let got = e.borders.radius[i].resolve(case.base);
        let expected = r.map(|p| case.base * p / 100.0).unwrap_or(i as f32 + 1.0);
        if !close(got, expected) {
            return Err(format!("radius {i} resolves to {got} instead of {expected}"));
        }
    }
    Ok(())
}

fn payload<T: DeserializeOwned + Serialize>(v: &Value) -> Result<T, String> {
    let event: T = serde_json::from_value(v.clone()).map_err(|e| format!("event data {v} cannot be read: {e}"))?;
    // nothing is lost
    equal("event data written again", serde_json::to_value(&event).unwrap(), v.clone())?;
    Ok(event)
}

/// Messages of one update are read as events of their types; they are about the given events.
fn events(case: &Case, view: &View, given: &[InputEvent], output: &Output, known: &mut [bool; 2], st: &mut Stats) -> Check {
    let e = view.get_element_by_id("x").ok_or("element is not found")?;
    let mut keys = given.iter().filter_map(|e| match e {
        InputEvent::KeyDown(k) | InputEvent::KeyUp(k) => Some(*k),
        _ => None,
    });
    let mut chars = given.iter().filter_map(|e| match e {
        InputEvent::Char(c) => Some(*c),
        _ => None,
    });
    for message in &output.messages {
        let (name, data) = message.as_object().and_then(|m| m.iter().next()).ok_or(format!("message {message} without data"))?;
        st.label(name);
        let target = match name.as_str() {
            "onkeydown" | "onkeyup" => {
                let event: KeyboardEvent = payload(data)?;
                // some keys were pressed before the element had focus
                if !keys.any(|k| k == event.key) {
                    return Err(format!("{name} of {:?} out of order, given {given:?}", event.key));
                }
                event.target
            }
            "oninput" => {
                let event: TextEvent = payload(data)?;
                if !chars.any(|c| c == event.char) {
                    return Err(format!("{name} of {:?} out of order, given {given:?}", event.char));
                }
                event.target
            }
            _ => {
                let event: MouseEvent = payload(data)?;
                let inside = (0..2).all(|i| {
                    let offset = event.position[i] - e.position[i];
                    offset >= 0.0 && offset < e.size[i]
                });
                let within = ["onmouseenter", "onmousemove", "onmousedown", "onclick", "ondragenter", "ondragover"];
                if within.contains(&name.as_str()) && !inside {
                    return Err(format!("{name} at {:?} out of the element at {:?} of size {:?}", event.position, e.position, e.size));
                }
                if name == "onmouseleave" && inside {
                    return Err(format!("{name} at {:?} inside of the element", event.position));
                }
                event.target
            }
        };
        equal(&format!("size of target of {name}"), target.size, e.size)?;
        equal(&format!("position of target of {name}"), target.position, e.position)?;
        equal(&format!("width of target of {name}"), target.size, [case.frame[2], case.frame[3]])?;
        match name.as_str() {
            "onmouseenter" => known[0] = true,
            "onmouseleave" => known[0] = false,
            "onfocus" => known[1] = true,
            "onblur" => known[1] = false,
            _ => {}
        }
        // the element listens to everything that changes these states
        equal(&format!("target of {name} is hovered"), target.state.hover, known[0])?;
        equal(&format!("target of {name} has focus"), target.state.focus, known[1])?;
        let pressed = ["onmousedown", "onfocus", "onclick", "ondragstart"];
        if pressed.contains(&name.as_str()) && !target.state.active {
            return Err(format!("{name} of an element which is not active"));
        }
        let focused = ["onkeydown", "onkeyup", "oninput"];
        if focused.contains(&name.as_str()) && !target.state.focus {
            return Err(format!("{name} of an element without focus"));
        }
    }
    Ok(())
}

impl Property for C21 {
    const ID: &'static str = "C21";
    const RULE: &'static str = "Random JSON values, numbers near powers of two and of any bits, and number-like texts: eval_string, eval_boolean, eval_u64, eval_usize and eval_array equal an independent reference (exact unsigned numbers, truncation, saturation, decimal texts), and a value of a type (numbers, texts, optional, lists, maps, nested structures) that is turned into JSON reads back equal by eval while JSON of another type reads as the default. A page with one element that listens to all events, of random place, size, borders, radius and attributes, is given 1-6 updates of events with all keys and any characters: data of every message reads as MouseEvent, KeyboardEvent or TextEvent without loss, about a given key or character in the order given, a position inside (or outside) of the element and its current geometry; Element::draggable and value, the four sides of Borders and Length::resolve give what the page says; a second view which is given the same input by other calls of the Input builder and the same fonts by View::fonts answers the same. Non-trivial: messages of at least three kinds.";
    const CASES: (u64, u64) = (120_000, 1_500_000);
    type Case = Case;

    fn gen(g: &mut Gen) -> Case {
        let frame = [g.int(0, 60) as f32, g.int(0, 60) as f32, g.int(9, 100) as f32, g.int(9, 100) as f32];
        let percent = |g: &mut Gen| if g.bool() { Some(g.int(-8, 8) as f32 * 12.5) } else { None };
        let steps = g.vec(1, 6, |g| {
            let ms = g.below(20) as u64 * 10;
            let events = g.vec(0, 6, |g| match g.weighted(&[4, 3, 2, 3, 3, 1]) {
                0 => {
                    let f = |g: &mut Gen| *g.pick(&[0.5f32, 0.0, 1.0, 0.25, -0.5, 0.99]);
                    Ev::Move(frame[0] + frame[2] * f(g), frame[1] + frame[3] * f(g))
                }
                1 => Ev::Down(!g.chance(1, 3)),
                2 => Ev::Up(!g.chance(1, 3)),
                3 => Ev::Key(g.bool(), g.below(19)),
                4 => Ev::Char(match g.below(3) {
                    0 => *g.pick(&['a', 'ж', ' ', '"', '\\', '\n', '\u{0}', '\u{7f}', '\u{2028}', '😀']),
                    _ => char::from_u32(g.draw(0x110000) as u32).unwrap_or('x'),
                }),
                _ => Ev::Wheel(g.int(-1, 1) as f32, g.int(-1, 1) as f32),
            });
            (ms, events)
        });
        Case {
            value: gen_json(g, 2),
            number: gen_number(g),
            text: gen_text(g),
            item: gen_item(g, 2),
            frame,
            borders: [0; 4].map(|_| if g.bool() { g.int(1, 8) as f32 / 2.0 } else { 0.0 }),
            radius: [0; 4].map(|_| percent(g).map(f32::abs)),
            base: g.int(0, 400) as f32 / 2.0,
            draggable: if g.bool() { Some(g.pick_s(&["true", "false", "", "TRUE", "true ", "1", "draggable"])) } else { None },
            bound: if g.bool() { Some(gen_json(g, 1)) } else { None },
            steps,
            viewport: if g.bool() { Some([g.int(1, 900) as f32, g.int(1, 900) as f32]) } else { None },
        }
    }

    fn check(case: &Case, st: &mut Stats) -> Check {
        values(case)?;
        let (html, css) = page(case);
        let explain = |m: String| format!("{m}\nhtml: {html}\ncss: {css}");
        let mut a = bx::view(&html, &css)?;
        struct NoFonts;
        impl Fonts for NoFonts {
            fn measure(&self, _: &str, _: &FontFace, _: Option<f32>) -> [f32; 2] {
                [1.0, 1.0]
            }
        }
        let mut b = View::from_html(&html, &css, "", NoFonts, Box::new(bx::Identity))
            .map_err(|e| format!("{e:?}"))?
            .fonts(bx::TestFonts);
        let mut value = Map::new();
        if let Some(v) = &case.bound {
            value.insert("v".into(), v.clone());
        }
        let value = Value::Object(value);
        let mut kinds: BTreeMap<String, usize> = BTreeMap::new();
        let mut known = [false; 2];
        for (ms, step) in &case.steps {
            let given: Vec<InputEvent> = step.iter().map(Ev::event).collect();
            let mut input = Input::new();
            if let Some(viewport) = case.viewport {
                input = input.viewport(viewport);
            }
            let whole = input.time(Duration::from_millis(*ms)).events(given.clone());
            let mut single = Input::new().events(given[..given.len() / 2].to_vec()).time(Duration::from_millis(*ms));
            for event in &given[given.len() / 2..] {
                single = single.event(*event);
            }
            single = single.viewport(case.viewport.unwrap_or([800.0, 600.0]));
            let output = bx::update(&mut a, whole, &value)?;
            let same = bx::update(&mut b, single, &value)?;
            equal("messages of the same input built in another way", &same.messages, &output.messages).map_err(explain)?;
            equal("captured", same.is_input_captured, output.is_input_captured).map_err(explain)?;
            if let Some(d) = bx::snap(&a.body()).diff(&bx::snap(&b.body()), "") {
                return Err(explain(format!("the same input built in another way: {d}")));
            }
            element(case, &a).map_err(explain)?;
            events(case, &a, &given, &output, &mut known, st).map_err(explain)?;
            for message in &output.messages {
                if let Some((name, _)) = message.as_object().and_then(|m| m.iter().next()) {
                    *kinds.entry(name.clone()).or_default() += 1;
                }
            }
        }
        if kinds.len() > 2 {
            st.nontrivial();
        }
        Ok(())
    }
}
