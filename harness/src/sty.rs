//! A reference model of declarations: typed values, printing, shorthands, units, observation.

use crate::engine::Gen;
use bumaga::{Element, Length, Pointer, PointerEvents, TextAlign};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use taffy::{Dimension, LengthPercentage, LengthPercentageAuto};

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Val {
    /// a number and a unit: px em rem vw vh vmin vmax
    Dim(f32, String),
    Pct(f32),
    Num(f32),
    Zero,
    Hex(Vec<u8>),
    Rgb(Vec<i32>),
    Rgba(Vec<i32>, f32),
    /// red, green, blue and perhaps alpha in percents
    RgbPct(Vec<u8>),
    Kw(String),
    Str(String),
    Url(String),
    Time(f32, String),
    Var(String),
}

pub fn kw(s: &str) -> Val {
    Val::Kw(s.to_string())
}

pub fn px(v: f32) -> Val {
    Val::Dim(v, "px".into())
}

pub fn num(v: f32) -> String {
    format!("{v}")
}

impl Val {
    pub fn print(&self) -> String {
        match self {
            Val::Dim(v, u) => format!("{}{u}", num(*v)),
            Val::Pct(v) => format!("{}%", num(*v)),
            Val::Num(v) => {
                let s = num(*v);
                // a lone 0 is its own kind of value
                if s == "0" {
                    "0.0".into()
                } else {
                    s
                }
            }
            Val::Zero => "0".into(),
            Val::Hex(c) => {
                let mut s = String::from("#");
                for b in c {
                    s += &format!("{b:02x}");
                }
                s
            }
            Val::Rgb(c) => format!("rgb({}, {}, {})", c[0], c[1], c[2]),
            Val::Rgba(c, a) => format!("rgba({}, {}, {}, {})", c[0], c[1], c[2], num(*a)),
            Val::RgbPct(c) => {
                let c: Vec<String> = c.iter().map(|c| format!("{c}%")).collect();
                format!("rgb{}({})", if c.len() == 4 { "a" } else { "" }, c.join(", "))
            }
            Val::Kw(k) => k.clone(),
            Val::Str(s) => format!("\"{s}\""),
            Val::Url(s) => format!("url(\"{s}\")"),
            Val::Time(v, u) => format!("{}{u}", num(*v)),
            Val::Var(n) => format!("var({n})"),
        }
    }
}

/// `name: a b, c d;`
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Decl {
    pub name: String,
    pub values: Vec<Vec<Val>>,
}

pub fn decl(name: &str, value: Val) -> Decl {
    Decl {
        name: name.into(),
        values: vec![vec![value]],
    }
}

impl Decl {
    pub fn print(&self) -> String {
        let values: Vec<String> = self
            .values
            .iter()
            .map(|v| v.iter().map(|v| v.print()).collect::<Vec<_>>().join(" "))
            .collect();
        format!("{}: {};", self.name, values.join(", "))
    }
}

pub fn print_decls(decls: &[Decl]) -> String {
    decls.iter().map(|d| d.print()).collect::<Vec<_>>().join(" ")
}

pub type Vars = BTreeMap<String, Vec<Val>>;

/// Values of longhand properties (and the index in a list).
pub type Computed = BTreeMap<(String, usize), Val>;

const SIDES: [&str; 4] = ["top", "right", "bottom", "left"];
const CORNERS: [&str; 4] = ["top-left", "top-right", "bottom-right", "bottom-left"];

/// The four values of top, right, bottom, left.
fn four(v: &[Val]) -> Option<[Val; 4]> {
    let at = |i: usize| v[i].clone();
    Some(match v.len() {
        1 => [at(0), at(0), at(0), at(0)],
        2 => [at(0), at(1), at(0), at(1)],
        3 => [at(0), at(1), at(2), at(1)],
        4 => [at(0), at(1), at(2), at(3)],
        _ => return None,
    })
}

/// Replaces variables by their values; None when one is not defined.
pub fn substitute(values: &[Val], vars: &Vars) -> Option<Vec<Val>> {
    let mut out = vec![];
    for v in values {
        match v {
            Val::Var(name) => {
                let inner = vars.get(name)?;
                out.extend(substitute(inner, vars)?);
            }
            v => out.push(v.clone()),
        }
    }
    Some(out)
}

/// Longhands of one comma-separated item of a declaration.
pub fn expand(name: &str, v: &[Val]) -> Vec<(String, Val)> {
    let mut out: Vec<(String, Val)> = vec![];
    let mut put = |k: String, v: &Val| out.push((k, v.clone()));
    match name {
        "background" => {
            put("background-image".into(), &kw("none"));
            put("background-color".into(), &v[0]);
        }
        "background-position" => {
            put("background-position-x".into(), &v[0]);
            put("background-position-y".into(), v.get(1).unwrap_or(&v[0]));
        }
        "border" if v.len() == 1 => {
            for s in SIDES {
                put(format!("border-{s}-width"), &Val::Zero);
                put(format!("border-{s}-color"), &kw("currentcolor"));
            }
        }
        "border" => {
            for s in SIDES {
                put(format!("border-{s}-width"), &v[0]);
                put(format!("border-{s}-color"), &v[2]);
            }
        }
        "border-top" | "border-right" | "border-bottom" | "border-left" => {
            put(format!("{name}-width"), &v[0]);
            put(format!("{name}-color"), &v[2]);
        }
        "border-width" | "border-color" => {
            let what = &name["border-".len()..];
            let f = four(v).expect("four");
            for (i, s) in SIDES.iter().enumerate() {
                put(format!("border-{s}-{what}"), &f[i]);
            }
        }
        "border-radius" => {
            // top-left, top-right, bottom-right, bottom-left
            let f = four(v).expect("four");
            for (i, c) in CORNERS.iter().enumerate() {
                put(format!("border-{c}-radius"), &f[i]);
            }
        }
        "padding" | "margin" => {
            let f = four(v).expect("four");
            for (i, s) in SIDES.iter().enumerate() {
                put(format!("{name}-{s}"), &f[i]);
            }
        }
        "inset" => {
            let f = four(v).expect("four");
            for (i, s) in SIDES.iter().enumerate() {
                put(s.to_string(), &f[i]);
            }
        }
        "overflow" => {
            put("overflow-x".into(), &v[0]);
            put("overflow-y".into(), v.get(1).unwrap_or(&v[0]));
        }
        "gap" => {
            // the order of this engine: column, row
            put("column-gap".into(), &v[0]);
            put("row-gap".into(), v.get(1).unwrap_or(&v[0]));
        }
        name => put(name.to_string(), &v[0]),
    }
    out
}

/// Applies a block of declarations in order.
pub fn compute(decls: &[Decl], vars: &mut Vars, out: &mut Computed) {
    for d in decls {
        if d.name.starts_with("--") {
            vars.insert(d.name.clone(), d.values[0].clone());
            continue;
        }
        for (i, item) in d.values.iter().enumerate() {
            if let Some(item) = substitute(item, vars) {
                for (k, v) in expand(&d.name, &item) {
                    out.insert((k, i), v);
                }
            }
        }
    }
}

/// What a value is relative to, and what the element inherits.
#[derive(Clone, Debug)]
pub struct Ctx {
    pub parent_font: f32,
    pub parent_color: [u8; 4],
    pub viewport: [f32; 2],
}

impl Ctx {
    fn len(&self, v: f32, unit: &str) -> f32 {
        let [w, h] = self.viewport;
        match unit {
            "px" => v,
            "em" => v * self.parent_font,
            "rem" => v * 16.0,
            "vw" => v * w / 100.0,
            "vh" => v * h / 100.0,
            "vmin" => v * w.min(h) / 100.0,
            "vmax" => v * w.max(h) / 100.0,
            u => panic!("unit {u}"),
        }
    }
}

pub fn f(v: f32) -> String {
    let v = if v == 0.0 { 0.0 } else { v };
    format!("{v:.2}")
}

fn rgba(c: [u8; 4]) -> String {
    format!("rgba {} {} {} {}", c[0], c[1], c[2], c[3])
}

/// The kind of value a longhand takes.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Ty {
    /// auto, lengths, percents
    LenPctAuto,
    /// lengths, percents
    LenPct,
    /// lengths only
    Len,
    Radius,
    Color,
    Alpha,
    Factor,
    Kw(&'static [&'static str]),
    FontSize,
    FontWeight,
    FontFamily,
    Image,
    BgPos,
}

pub const ALIGN_ITEMS: &[&str] = &[
    "normal", "start", "end", "flex-start", "flex-end", "center", "baseline", "stretch",
];
pub const ALIGN_CONTENT: &[&str] = &[
    "normal", "start", "end", "flex-start", "flex-end", "center", "stretch", "space-between",
    "space-evenly", "space-around",
];
pub const OVERFLOW: &[&str] = &["visible", "hidden", "clip", "scroll", "auto"];

pub const LONGHANDS: &[(&str, Ty)] = &[
    ("width", Ty::LenPctAuto),
    ("height", Ty::LenPctAuto),
    ("min-width", Ty::LenPctAuto),
    ("min-height", Ty::LenPctAuto),
    ("max-width", Ty::LenPctAuto),
    ("max-height", Ty::LenPctAuto),
    ("flex-basis", Ty::LenPctAuto),
    ("margin-top", Ty::LenPctAuto),
    ("margin-right", Ty::LenPctAuto),
    ("margin-bottom", Ty::LenPctAuto),
    ("margin-left", Ty::LenPctAuto),
    ("top", Ty::LenPctAuto),
    ("right", Ty::LenPctAuto),
    ("bottom", Ty::LenPctAuto),
    ("left", Ty::LenPctAuto),
    ("padding-top", Ty::LenPct),
    ("padding-right", Ty::LenPct),
    ("padding-bottom", Ty::LenPct),
    ("padding-left", Ty::LenPct),
    ("column-gap", Ty::LenPct),
    ("row-gap", Ty::LenPct),
    ("border-top-width", Ty::Len),
    ("border-right-width", Ty::Len),
    ("border-bottom-width", Ty::Len),
    ("border-left-width", Ty::Len),
    ("border-top-color", Ty::Color),
    ("border-right-color", Ty::Color),
    ("border-bottom-color", Ty::Color),
    ("border-left-color", Ty::Color),
    ("border-top-left-radius", Ty::Radius),
    ("border-top-right-radius", Ty::Radius),
    ("border-bottom-right-radius", Ty::Radius),
    ("border-bottom-left-radius", Ty::Radius),
    ("background-color", Ty::Color),
    ("background-image", Ty::Image),
    ("background-position-x", Ty::BgPos),
    ("background-position-y", Ty::BgPos),
    ("color", Ty::Color),
    ("opacity", Ty::Alpha),
    ("flex-grow", Ty::Factor),
    ("flex-shrink", Ty::Factor),
    ("font-size", Ty::FontSize),
    ("font-weight", Ty::FontWeight),
    ("font-family", Ty::FontFamily),
    ("font-style", Ty::Kw(&["normal", "italic", "oblique"])),
    (
        "text-align",
        Ty::Kw(&[
            "start", "end", "left", "right", "center", "justify", "justify-all", "match-parent",
        ]),
    ),
    ("pointer-events", Ty::Kw(&["auto", "none"])),
    (
        "cursor",
        Ty::Kw(&[
            "auto", "default", "pointer", "context-menu", "help", "progress", "wait", "text",
            "not-allowed",
        ]),
    ),
    ("visibility", Ty::Kw(&["visible", "hidden"])),
    ("box-sizing", Ty::Kw(&["border-box", "content-box"])),
    // grid is added by C04 only: the layout engine hangs on some grids with texts
    ("display", Ty::Kw(&["block", "flow", "flex"])),
    ("overflow-x", Ty::Kw(OVERFLOW)),
    ("overflow-y", Ty::Kw(OVERFLOW)),
    ("position", Ty::Kw(&["relative", "absolute"])),
    ("align-content", Ty::Kw(ALIGN_CONTENT)),
    ("justify-content", Ty::Kw(ALIGN_CONTENT)),
    ("align-items", Ty::Kw(ALIGN_ITEMS)),
    ("align-self", Ty::Kw(ALIGN_ITEMS)),
    ("justify-items", Ty::Kw(ALIGN_ITEMS)),
    ("justify-self", Ty::Kw(ALIGN_ITEMS)),
    (
        "flex-direction",
        Ty::Kw(&["row", "row-reverse", "column", "column-reverse"]),
    ),
    ("flex-wrap", Ty::Kw(&["nowrap", "wrap", "wrap-reverse"])),
];

pub fn ty(name: &str) -> Ty {
    LONGHANDS
        .iter()
        .find(|(n, _)| *n == name)
        .unwrap_or_else(|| panic!("longhand {name}"))
        .1
}

pub const INHERITED: [&str; 7] = [
    "color",
    "font-size",
    "font-weight",
    "font-family",
    "font-style",
    "pointer-events",
    "visibility",
];

/// Expected observation of a value of a longhand; panics on values out of the model.
pub fn expect(name: &str, v: &Val, c: &Ctx) -> String {
    let len = |v: &Val| -> Option<f32> {
        match v {
            Val::Dim(n, u) => Some(c.len(*n, u)),
            Val::Zero => Some(0.0),
            _ => None,
        }
    };
    let fail = || -> String { panic!("value {v:?} of {name} is out of the model") };
    match ty(name) {
        Ty::LenPctAuto | Ty::LenPct | Ty::Radius => match v {
            Val::Kw(k) if k == "auto" => "auto".into(),
            Val::Pct(p) => format!("{}%", f(*p)),
            v => len(v).map(f).unwrap_or_else(fail),
        },
        Ty::Len => match v {
            Val::Num(n) => f(*n),
            v => len(v).map(f).unwrap_or_else(fail),
        },
        Ty::BgPos => match v {
            Val::Num(n) => f(-n),
            v => len(v).map(|v| f(-v)).unwrap_or_else(fail),
        },
        Ty::FontSize => match v {
            Val::Pct(p) => f(p / 100.0 * c.parent_font),
            Val::Num(n) => f(*n),
            v => len(v).map(f).unwrap_or_else(fail),
        },
        Ty::Color => match color(v, c) {
            Some(color) => rgba(color),
            None => fail(),
        },
        Ty::Alpha => match v {
            Val::Zero => f(0.0),
            Val::Num(n) => f(*n),
            Val::Pct(p) => f(p / 100.0),
            _ => fail(),
        },
        Ty::Factor => match v {
            Val::Zero => f(0.0),
            Val::Num(n) => f(*n),
            _ => fail(),
        },
        Ty::Kw(list) => match v {
            Val::Kw(k) if (name == "display" && k == "grid") || list.contains(&k.as_str()) => canonical(name, k),
            _ => fail(),
        },
        Ty::FontWeight => match v {
            Val::Num(n) => f(n.trunc()),
            Val::Kw(k) if k == "normal" => f(400.0),
            Val::Kw(k) if k == "bold" => f(700.0),
            _ => fail(),
        },
        Ty::FontFamily => match v {
            Val::Str(s) => s.clone(),
            _ => fail(),
        },
        Ty::Image => match v {
            Val::Kw(k) if k == "none" => "none".into(),
            Val::Str(s) | Val::Url(s) => format!("image {s}"),
            _ => fail(),
        },
    }
}

fn canonical(name: &str, k: &str) -> String {
    match (name, k) {
        ("display", "flow") => "block".into(),
        ("overflow-x" | "overflow-y", "auto") => "scroll".into(),
        (_, k) => k.to_string(),
    }
}

fn byte(v: i32) -> u8 {
    v.clamp(0, 255) as u8
}

pub fn color(v: &Val, c: &Ctx) -> Option<[u8; 4]> {
    Some(match v {
        Val::Hex(b) => [b[0], b[1], b[2], *b.get(3).unwrap_or(&255)],
        // values out of the range are the nearest ones of it
        Val::Rgb(b) => [byte(b[0]), byte(b[1]), byte(b[2]), 255],
        Val::Rgba(b, a) => [byte(b[0]), byte(b[1]), byte(b[2]), (a.clamp(0.0, 1.0) * 255.0) as u8],
        Val::RgbPct(p) => {
            let at = |i: usize| (p[i].min(100) as u32 * 255 / 100) as u8;
            [at(0), at(1), at(2), if p.len() == 4 { at(3) } else { 255 }]
        }
        Val::Kw(k) => match k.as_str() {
            "black" => [0, 0, 0, 255],
            "white" => [255, 255, 255, 255],
            "red" => [255, 0, 0, 255],
            "green" => [0, 255, 0, 255],
            "blue" => [0, 0, 255, 255],
            "transparent" => [0, 0, 0, 0],
            "currentcolor" | "currentColor" => c.parent_color,
            _ => return None,
        },
        _ => return None,
    })
}

/// Observation of a longhand when nothing specifies it.
pub fn default_of(name: &str) -> String {
    match name {
        "width" | "height" | "min-width" | "min-height" | "max-width" | "max-height"
        | "flex-basis" | "top" | "right" | "bottom" | "left" => "auto".into(),
        "border-top-color" | "border-right-color" | "border-bottom-color"
        | "border-left-color" | "background-color" => rgba([0; 4]),
        "background-image" => "none".into(),
        "color" => rgba([0, 0, 0, 255]),
        "opacity" | "flex-shrink" => f(1.0),
        "font-size" => f(16.0),
        "font-weight" => f(400.0),
        "font-family" => "system-ui".into(),
        "font-style" => "normal".into(),
        "text-align" => "start".into(),
        "pointer-events" | "cursor" => "auto".into(),
        "visibility" => "visible".into(),
        "box-sizing" => "border-box".into(),
        "display" => "block".into(),
        "overflow-x" | "overflow-y" => "visible".into(),
        "position" => "relative".into(),
        "flex-direction" => "row".into(),
        "flex-wrap" => "nowrap".into(),
        "align-content" | "justify-content" | "align-items" | "align-self" | "justify-items"
        | "justify-self" => "normal".into(),
        _ => f(0.0),
    }
}

fn dim(d: Dimension) -> String {
    match d {
        Dimension::Length(v) => f(v),
        Dimension::Percent(v) => format!("{}%", f(v * 100.0)),
        Dimension::Auto => "auto".into(),
    }
}

fn lpa(d: LengthPercentageAuto) -> String {
    match d {
        LengthPercentageAuto::Length(v) => f(v),
        LengthPercentageAuto::Percent(v) => format!("{}%", f(v * 100.0)),
        LengthPercentageAuto::Auto => "auto".into(),
    }
}

fn lp(d: LengthPercentage) -> String {
    match d {
        LengthPercentage::Length(v) => f(v),
        LengthPercentage::Percent(v) => format!("{}%", f(v * 100.0)),
    }
}

fn length(d: Length) -> String {
    match d {
        Length::Number(v) => f(v),
        Length::Percent(v) => format!("{}%", f(v * 100.0)),
    }
}

fn kebab(debug: String) -> String {
    let mut out = String::new();
    for (i, c) in debug.chars().enumerate() {
        if c.is_uppercase() {
            if i > 0 {
                out.push('-');
            }
            out.extend(c.to_lowercase());
        } else {
            out.push(c);
        }
    }
    out
}

fn opt(debug: String) -> String {
    match debug.strip_prefix("Some(") {
        Some(s) => kebab(s.trim_end_matches(')').to_string()),
        None => "normal".into(),
    }
}

/// What the engine made of a longhand.
pub fn observe(name: &str, index: usize, e: &Element, l: &taffy::Style) -> String {
    let border = |side: &str| match side {
        "top" => e.borders.top,
        "right" => e.borders.right,
        "bottom" => e.borders.bottom,
        _ => e.borders.left,
    };
    let bg = || e.backgrounds.get(index).cloned().unwrap_or_default();
    match name {
        "width" => dim(l.size.width),
        "height" => dim(l.size.height),
        "min-width" => dim(l.min_size.width),
        "min-height" => dim(l.min_size.height),
        "max-width" => dim(l.max_size.width),
        "max-height" => dim(l.max_size.height),
        "flex-basis" => dim(l.flex_basis),
        "margin-top" => lpa(l.margin.top),
        "margin-right" => lpa(l.margin.right),
        "margin-bottom" => lpa(l.margin.bottom),
        "margin-left" => lpa(l.margin.left),
        "top" => lpa(l.inset.top),
        "right" => lpa(l.inset.right),
        "bottom" => lpa(l.inset.bottom),
        "left" => lpa(l.inset.left),
        "padding-top" => lp(l.padding.top),
        "padding-right" => lp(l.padding.right),
        "padding-bottom" => lp(l.padding.bottom),
        "padding-left" => lp(l.padding.left),
        "column-gap" => lp(l.gap.width),
        "row-gap" => lp(l.gap.height),
        "border-top-width" | "border-right-width" | "border-bottom-width"
        | "border-left-width" => {
            let side = name.split('-').nth(1).unwrap();
            let of_layout = match side {
                "top" => lp(l.border.top),
                "right" => lp(l.border.right),
                "bottom" => lp(l.border.bottom),
                _ => lp(l.border.left),
            };
            let shown = f(border(side).width);
            if of_layout == shown {
                shown
            } else {
                format!("shown {shown}, in layout {of_layout}")
            }
        }
        "border-top-color" | "border-right-color" | "border-bottom-color"
        | "border-left-color" => rgba(border(name.split('-').nth(1).unwrap()).color),
        "border-top-left-radius" => length(e.borders.radius[0]),
        "border-top-right-radius" => length(e.borders.radius[1]),
        "border-bottom-right-radius" => length(e.borders.radius[2]),
        "border-bottom-left-radius" => length(e.borders.radius[3]),
        "background-color" => rgba(bg().color),
        "background-image" => match bg().image {
            None => "none".into(),
            Some(s) if bg().is_src => format!("image {s} of src"),
            Some(s) => format!("image {s}"),
        },
        "background-position-x" => f(bg().src[0]),
        "background-position-y" => f(bg().src[1]),
        "color" => rgba(e.color),
        "opacity" => f(e.self_opacity),
        "flex-grow" => f(l.flex_grow),
        "flex-shrink" => f(l.flex_shrink),
        "font-size" => f(e.font.size),
        "font-weight" => f(e.font.weight as f32),
        "font-family" => e.font.family.clone(),
        "font-style" => e.font.style.clone(),
        "text-align" => match e.font.align {
            TextAlign::Start => "start",
            TextAlign::End => "end",
            TextAlign::Left => "left",
            TextAlign::Right => "right",
            TextAlign::Center => "center",
            TextAlign::Justify => "justify",
            TextAlign::JustifyAll => "justify-all",
            TextAlign::MatchParent => "match-parent",
        }
        .into(),
        "pointer-events" => match e.pointer_events {
            PointerEvents::Auto => "auto",
            PointerEvents::None => "none",
        }
        .into(),
        "cursor" => match e.pointer {
            Pointer::Auto => "auto",
            Pointer::Default => "default",
            Pointer::ContextMenu => "context-menu",
            Pointer::Help => "help",
            Pointer::Pointer => "pointer",
            Pointer::Progress => "progress",
            Pointer::Wait => "wait",
            Pointer::Text => "text",
            Pointer::NotAllowed => "not-allowed",
        }
        .into(),
        "visibility" => if e.visible { "visible" } else { "hidden" }.into(),
        "box-sizing" => kebab(format!("{:?}", l.box_sizing)),
        "display" => kebab(format!("{:?}", l.display)),
        "overflow-x" => kebab(format!("{:?}", l.overflow.x)),
        "overflow-y" => kebab(format!("{:?}", l.overflow.y)),
        "position" => kebab(format!("{:?}", l.position)),
        "align-content" => opt(format!("{:?}", l.align_content)),
        "justify-content" => opt(format!("{:?}", l.justify_content)),
        "align-items" => opt(format!("{:?}", l.align_items)),
        "align-self" => opt(format!("{:?}", l.align_self)),
        "justify-items" => opt(format!("{:?}", l.justify_items)),
        "justify-self" => opt(format!("{:?}", l.justify_self)),
        "flex-direction" => kebab(format!("{:?}", l.flex_direction)),
        "flex-wrap" => {
            let s = kebab(format!("{:?}", l.flex_wrap));
            if s == "no-wrap" {
                "nowrap".into()
            } else {
                s
            }
        }
        name => panic!("observe {name}"),
    }
}

// ---------------------------------------------------------------------------------------------
// generators

pub const UNITS: [&str; 7] = ["px", "em", "rem", "vw", "vh", "vmin", "vmax"];

pub fn gen_len(g: &mut Gen, negative: bool) -> Val {
    if g.chance(1, 10) {
        return Val::Zero;
    }
    let unit = if g.chance(1, 2) { "px" } else { *g.pick(&UNITS) };
    let n = match unit {
        "px" => g.int(0, 400) as f32 / 4.0,
        _ => g.int(0, 80) as f32 / 4.0,
    };
    let n = if negative && g.chance(1, 6) { -n } else { n };
    Val::Dim(if n == 0.0 { 0.0 } else { n }, unit.into())
}

pub fn gen_color(g: &mut Gen) -> Val {
    let mut c: Vec<u8> = vec![];
    for _ in 0..3 {
        let v = match g.below(3) {
            0 => g.below(256) as u8,
            1 => 255,
            _ => 0,
        };
        c.push(v)
    }
    let mut wide: Vec<i32> = c.iter().map(|c| *c as i32).collect();
    if g.chance(1, 5) {
        let at = g.below(3);
        wide[at] = *g.pick(&[256, -1, 300, 511, -128, 1000, 65536]);
    }
    match g.below(7) {
        6 => {
            let n = 3 + g.below(2);
            Val::RgbPct((0..n).map(|_| if g.chance(1, 12) { 101 + g.below(100) as u8 } else { g.below(101) as u8 }).collect())
        }
        0 => kw(*g.pick(&["red", "black", "white", "green", "blue", "transparent"])),
        1 => Val::Hex(c),
        2 => {
            c.push(g.below(256) as u8);
            Val::Hex(c)
        }
        3 => Val::Rgb(wide),
        4 => Val::Rgba(wide, if g.chance(1, 8) { *g.pick(&[-1.0, 1.5, 2.0, 256.0]) } else { g.int(0, 4) as f32 / 4.0 }),
        _ => Val::Hex(c),
    }
}

pub const FAMILIES: [&str; 7] = ["Roboto", "Noto Sans", "mono", "Кириллица", " a /* b */", "x; } y { z: 1", "/*"];

pub fn gen_val(g: &mut Gen, name: &str) -> Val {
    match ty(name) {
        Ty::LenPctAuto => match g.weighted(&[6, 2, 1]) {
            0 => {
                let negative = name.starts_with("margin")
                    || ["top", "right", "bottom", "left"].contains(&name);
                gen_len(g, negative)
            }
            1 => Val::Pct(g.int(0, 400) as f32 / 4.0),
            _ => kw("auto"),
        },
        Ty::LenPct | Ty::Radius => match g.weighted(&[4, 1]) {
            0 => {
                let v = gen_len(g, false);
                if v == Val::Zero && ty(name) == Ty::Radius {
                    px(0.0)
                } else {
                    v
                }
            }
            _ => Val::Pct(g.int(0, 200) as f32 / 4.0),
        },
        Ty::Len | Ty::BgPos => match g.weighted(&[5, 1]) {
            0 => {
                let negative = ty(name) == Ty::BgPos;
                gen_len(g, negative)
            }
            _ => Val::Num(g.int(1, 40) as f32 / 4.0),
        },
        Ty::Color => gen_color(g),
        Ty::Alpha => match g.below(3) {
            0 => Val::Num(g.int(0, 4) as f32 / 4.0),
            1 => Val::Pct(g.int(0, 4) as f32 * 25.0),
            _ => Val::Zero,
        },
        Ty::Factor => match g.below(3) {
            0 | 1 => Val::Num(g.int(1, 12) as f32 / 4.0),
            _ => Val::Zero,
        },
        Ty::Kw(list) => kw(*g.pick(list)),
        Ty::FontSize => match g.below(5) {
            0 => px(g.int(4, 40) as f32),
            1 => Val::Dim(g.int(2, 12) as f32 / 4.0, "em".into()),
            2 => Val::Pct(g.int(2, 12) as f32 * 25.0),
            3 => Val::Num(g.int(4, 40) as f32),
            _ => {
                let u = *g.pick(&["rem", "vw", "vh", "vmin", "vmax"]);
                Val::Dim(g.int(1, 8) as f32 / 2.0, u.into())
            }
        },
        Ty::FontWeight => match g.below(3) {
            0 => kw(*g.pick(&["normal", "bold"])),
            _ => Val::Num(g.int(1, 1000) as f32),
        },
        Ty::FontFamily => Val::Str(g.pick(&FAMILIES).to_string()),
        Ty::Image => match g.below(3) {
            0 => kw("none"),
            1 => Val::Str(g.pick(&["a.png", "img/b c.png", "x", "a,b;/*c*/", "  {}"]).to_string()),
            _ => Val::Url(g.pick(&["a.png", "img/b.png"]).to_string()),
        },
    }
}

/// A shorthand and the longhand its values are like.
pub const SHORTHANDS: &[(&str, &str, &[usize])] = &[
    ("padding", "padding-top", &[1, 2, 3, 4]),
    ("margin", "margin-top", &[1, 2, 3, 4]),
    ("border-width", "border-top-width", &[1, 2, 3, 4]),
    ("border-color", "border-top-color", &[1, 2, 3, 4]),
    ("border-radius", "border-top-left-radius", &[1, 2, 3, 4]),
    ("inset", "top", &[1, 4]),
    ("gap", "row-gap", &[1, 2]),
    ("overflow", "overflow-x", &[1, 2]),
    ("background-position", "background-position-x", &[1, 2]),
    ("background", "background-color", &[1]),
    ("border", "", &[3]),
    ("border-top", "", &[3]),
    ("border-right", "", &[3]),
    ("border-bottom", "", &[3]),
    ("border-left", "", &[3]),
];

pub fn gen_shorthand(g: &mut Gen) -> Decl {
    let (name, like, counts) = SHORTHANDS[g.below(SHORTHANDS.len())];
    let item = if like.is_empty() {
        if name == "border" && g.chance(1, 4) {
            vec![kw("none")]
        } else {
            let style = kw(*g.pick(&["solid", "dashed"]));
            vec![gen_val(g, "border-top-width"), style, gen_color(g)]
        }
    } else {
        let n = *g.pick(counts);
        (0..n).map(|_| gen_val(g, like)).collect()
    };
    Decl {
        name: name.into(),
        values: vec![item],
    }
}

pub fn gen_longhand(g: &mut Gen) -> Decl {
    let name = LONGHANDS[g.below(LONGHANDS.len())].0;
    decl(name, gen_val(g, name))
}

pub fn gen_decl(g: &mut Gen) -> Decl {
    if g.chance(1, 4) {
        gen_shorthand(g)
    } else {
        gen_longhand(g)
    }
}

/// Size of a font in pixels.
pub fn font_size(v: &Val, c: &Ctx) -> f32 {
    match v {
        Val::Pct(p) => p / 100.0 * c.parent_font,
        Val::Num(n) => *n,
        Val::Zero => 0.0,
        Val::Dim(n, u) => c.len(*n, u),
        v => panic!("font size {v:?}"),
    }
}
