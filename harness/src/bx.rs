//! Driving the code under test through its public API, and observing it.

use bumaga::*;
use serde::Serialize;
use serde_json::Value;
use std::collections::BTreeMap;
use std::time::Duration;

/// How many units of advance the text takes, which depends on its characters and is exact.
fn units(text: &str) -> f32 {
    text.chars().map(|c| if matches!(c as u32 % 5, 0 | 2) { 1.25 } else { 1.0 }).sum()
}

/// A deterministic text measure that depends on everything a font face carries.
pub struct TestFonts;

pub fn advance(face: &FontFace) -> f32 {
    face.size * 0.5
        + (face.weight as f32 - 400.0) / 400.0
        + face.family.len() as f32 * 0.125
        + if face.style == "italic" { 1.0 } else { 0.0 }
}

pub fn line(face: &FontFace) -> f32 {
    face.size * face.line_height
}

pub fn measure(text: &str, face: &FontFace, max_width: Option<f32>) -> [f32; 2] {
    let count = units(text);
    let width = count * advance(face);
    match max_width {
        Some(max) if width > max => {
            let per = (max / advance(face)).floor().max(1.0);
            let lines = (count / per).ceil().max(1.0);
            [(per * advance(face)).min(width), lines * line(face)]
        }
        _ => [width, if count > 0.0 { line(face) } else { 0.0 }],
    }
}

impl Fonts for TestFonts {
    fn measure(&self, text: &str, face: &FontFace, max_width: Option<f32>) -> [f32; 2] {
        measure(text, face, max_width)
    }
}

pub struct Identity;

impl RendererTranslator for Identity {
    fn translate(&self, span: String) -> String {
        span
    }
}

pub fn pipe_up(v: Value) -> Value {
    Value::String(v.eval_string().to_uppercase())
}
pub fn pipe_not(v: Value) -> Value {
    Value::Bool(!v.eval_boolean())
}
pub fn pipe_bang(v: Value) -> Value {
    Value::String(format!("{}!", v.eval_string()))
}
pub fn pipe_len(v: Value) -> Value {
    match &v {
        Value::Array(a) => Value::from(a.len()),
        Value::Object(o) => Value::from(o.len()),
        Value::String(s) => Value::from(s.len()),
        _ => Value::from(0),
    }
}
pub fn pipe_json(v: Value) -> Value {
    Value::String(v.to_string())
}

pub const PIPES: [(&str, Transformer); 5] = [
    ("up", pipe_up),
    ("not", pipe_not),
    ("bang", pipe_bang),
    ("len", pipe_len),
    ("json", pipe_json),
];

pub fn pipe(name: &str, value: Value) -> Value {
    for (n, f) in PIPES {
        if n == name {
            return f(value);
        }
    }
    // an unknown pipe has no effect
    assert_eq!(name, "nope");
    value
}

pub fn try_view(html: &str, css: &str) -> Result<View, ViewError> {
    let mut view = View::from_html(html, css, "./assets", TestFonts, Box::new(Identity))?;
    for (name, f) in PIPES {
        view = view.pipe(name, f);
    }
    Ok(view)
}

pub fn view(html: &str, css: &str) -> Result<View, String> {
    try_view(html, css).map_err(|e| format!("document rejected: {e:?}\nhtml: {html}\ncss: {css}"))
}

pub fn input(ms: u64, events: Vec<InputEvent>) -> Input {
    Input::new()
        .time(Duration::from_millis(ms))
        .events(events)
}

pub fn update(view: &mut View, input: Input, value: &Value) -> Result<Output, String> {
    view.update(input, value.clone())
        .map_err(|e| format!("update failed: {e:?}"))
}

/// Everything observable about one element after an update.
#[derive(Clone, Debug, PartialEq, Serialize)]
pub struct Snap {
    pub tag: String,
    pub text: Option<String>,
    pub attrs: BTreeMap<String, String>,
    /// appearance, by field
    pub look: BTreeMap<&'static str, String>,
    /// position, size, content size, clipping, opacity, scrolling
    pub geo: BTreeMap<&'static str, String>,
    /// computed layout style
    pub layout: String,
    /// the image of the first background
    pub picture: Option<String>,
    /// the first background comes from the attribute src
    pub is_src: bool,
    pub kids: Vec<Snap>,
}

pub fn look(e: &Element) -> BTreeMap<&'static str, String> {
    let mut m = BTreeMap::new();
    let b: Vec<String> = e
        .backgrounds
        .iter()
        .map(|b| format!("{:?} {} {:?} {:?}", b.image, b.is_src, b.color, b.src))
        .collect();
    m.insert("backgrounds", b.join(";"));
    let borders = [
        ("top", e.borders.top),
        ("right", e.borders.right),
        ("bottom", e.borders.bottom),
        ("left", e.borders.left),
    ]
    .map(|(n, b)| format!("{n} {} {:?}", b.width, b.color))
    .join("; ");
    m.insert("borders", borders);
    m.insert("radius", format!("{:?}", e.borders.radius));
    m.insert("color", format!("{:?}", e.color));
    m.insert("font", format!("{:?}", e.font));
    m.insert("self_opacity", format!("{}", e.self_opacity));
    m.insert("transforms", format!("{:?}", e.transforms));
    m.insert("pointer_events", format!("{:?}", e.pointer_events));
    m.insert("pointer", format!("{:?}", e.pointer));
    m.insert("visible", format!("{:?}", e.visible));
    m.insert("object_fit", format!("{:?}", e.object_fit));
    m
}

pub fn snap(f: &Fragment) -> Snap {
    let e: &Element = f.element;
    let mut geo = BTreeMap::new();
    geo.insert("position", format!("{:?}", e.position));
    geo.insert("size", format!("{:?}", e.size));
    geo.insert("content", format!("{:?}", e.content_size));
    geo.insert("opacity", format!("{}", e.opacity));
    geo.insert(
        "scrolling",
        match &e.scrolling {
            None => "none".to_string(),
            Some(s) => format!("{} {} {} {}", s.x, s.y, s.scroll_x, s.scroll_y),
        },
    );
    geo.insert(
        "clipping",
        match &e.clipping {
            None => "none".to_string(),
            Some(l) => format!("{:?} {:?}", l.location, l.size),
        },
    );
    Snap {
        tag: e.tag.clone(),
        text: e.text.as_ref().map(|t| t.to_string()),
        attrs: e.attrs.iter().map(|(k, v)| (k.clone(), v.clone())).collect(),
        look: look(e),
        geo,
        layout: format!("{:?}", f.tree.style(e.node).unwrap()),
        picture: e.backgrounds.first().and_then(|b| b.image.clone()),
        is_src: e.backgrounds.first().is_some_and(|b| b.is_src),
        kids: f.children().iter().map(snap).collect(),
    }
}

impl Snap {
    /// The first difference, with the path to it.
    pub fn diff(&self, other: &Snap, path: &str) -> Option<String> {
        if self.tag != other.tag {
            return Some(format!("{path}: tag {:?} vs {:?}", self.tag, other.tag));
        }
        let path = format!("{path}/{}", if self.text.is_some() { "#text" } else { &self.tag });
        if self.text != other.text {
            return Some(format!("{path}: text {:?} vs {:?}", self.text, other.text));
        }
        if self.attrs != other.attrs {
            return Some(format!("{path}: attrs {:?} vs {:?}", self.attrs, other.attrs));
        }
        for (a, b, what) in [(&self.look, &other.look, "look"), (&self.geo, &other.geo, "geo")] {
            if a != b {
                for (k, v) in a {
                    if b.get(k) != Some(v) {
                        return Some(format!("{path}: {what}.{k} {v} vs {:?}", b.get(k)));
                    }
                }
            }
        }
        if self.layout != other.layout {
            let split = |s: &str| s.replace("{ ", "{\n").replace(" }", "\n}").lines().map(String::from).collect::<Vec<_>>();
            let (a, b) = (split(&self.layout), split(&other.layout));
            let at = a.iter().zip(&b).position(|(a, b)| a != b).unwrap_or(0);
            let part = |v: &[String]| v[at.saturating_sub(1)..(at + 2).min(v.len())].join(" ");
            return Some(format!("{path}: layout style .. {} vs {}", part(&a), part(&b)));
        }
        for (i, (a, b)) in self.kids.iter().zip(other.kids.iter()).enumerate() {
            if let Some(d) = a.diff(b, &format!("{path}[{i}]")) {
                return Some(d);
            }
        }
        if self.kids.len() != other.kids.len() {
            return Some(format!(
                "{path}: {} children vs {}",
                self.kids.len(),
                other.kids.len()
            ));
        }
        None
    }

    pub fn count(&self) -> usize {
        1 + self.kids.iter().map(|k| k.count()).sum::<usize>()
    }
}

/// Finds elements in document order.
pub fn walk<'a>(f: Fragment<'a>, out: &mut Vec<&'a Element>) {
    out.push(f.element);
    if let Ok(children) = f.tree.children(f.element.node) {
        for node in children {
            let element = f.tree.get_node_context(node).unwrap();
            walk(
                Fragment {
                    element,
                    tree: f.tree,
                },
                out,
            );
        }
    }
}
