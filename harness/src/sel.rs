//! A model of selectors: printing, reference matching over an observed tree, generators.

use crate::bx::Snap;
use crate::engine::Gen;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Simple {
    All,
    Type(String),
    Id(String),
    Class(String),
    /// name, operator (empty: presence), value
    Attr(String, String, String),
    Pseudo(String),
}

pub type Compound = Vec<Simple>;

/// The subject is the last compound; every compound but the first has a combinator before it.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Complex {
    pub first: Compound,
    pub rest: Vec<(char, Compound)>,
}

fn is_ident(s: &str) -> bool {
    !s.is_empty() && s.chars().all(|c| c.is_ascii_alphanumeric() || c == '-' || c == '_')
}

impl Simple {
    pub fn print(&self) -> String {
        match self {
            Simple::All => "*".into(),
            Simple::Type(t) => t.clone(),
            Simple::Id(t) => format!("#{t}"),
            Simple::Class(t) => format!(".{t}"),
            Simple::Attr(n, op, _) if op.is_empty() => format!("[{n}]"),
            Simple::Attr(n, op, v) if is_ident(v) && v.len() % 2 == 0 => format!("[{n}{op}{v}]"),
            Simple::Attr(n, op, v) => format!("[{n}{op}\"{v}\"]"),
            Simple::Pseudo(p) => format!(":{p}"),
        }
    }
}

pub fn print_compound(c: &Compound) -> String {
    c.iter().map(|s| s.print()).collect()
}

impl Complex {
    pub fn print(&self) -> String {
        let mut s = print_compound(&self.first);
        for (comb, c) in &self.rest {
            s += &format!(" {comb} {}", print_compound(c));
        }
        s
    }
}

pub fn print_selectors(list: &[Complex]) -> String {
    list.iter().map(|c| c.print()).collect::<Vec<_>>().join(", ")
}

/// A flattened element.
#[derive(Clone, Debug, Default)]
pub struct Flat {
    pub tag: String,
    pub attrs: BTreeMap<String, String>,
    pub parent: Option<usize>,
    /// previous sibling that is an element
    pub previous: Option<usize>,
    pub states: Vec<String>,
    pub look: BTreeMap<&'static str, String>,
    pub layout: String,
    pub path: String,
}

/// Elements in document order; the first is the parent of body, nothing but `*` matches it.
pub fn flatten(body: &Snap) -> Vec<Flat> {
    fn go(s: &Snap, parent: usize, previous: Option<usize>, path: &str, out: &mut Vec<Flat>) -> usize {
        let me = out.len();
        let path = format!("{path}/{}", s.tag);
        out.push(Flat {
            tag: s.tag.clone(),
            attrs: s.attrs.clone(),
            parent: Some(parent),
            previous,
            states: vec![],
            look: s.look.clone(),
            layout: s.layout.clone(),
            path: path.clone(),
        });
        if s.tag != "img" {
            let mut previous = None;
            for (i, kid) in s.kids.iter().enumerate() {
                if kid.text.is_none() {
                    previous = Some(go(kid, me, previous, &format!("{path}[{i}]"), out));
                }
            }
        }
        me
    }
    let mut out = vec![Flat::default()];
    go(body, 0, None, "", &mut out);
    out
}

pub fn matches_simple(s: &Simple, e: &Flat) -> bool {
    match s {
        Simple::All => true,
        Simple::Type(t) => e.tag == *t,
        Simple::Id(t) => e.attrs.get("id") == Some(t),
        Simple::Class(c) => match e.attrs.get("class") {
            Some(v) => v.split(|c: char| c.is_whitespace()).any(|w| w == c),
            None => false,
        },
        Simple::Attr(n, op, v) => match e.attrs.get(n) {
            None => false,
            Some(a) => match op.as_str() {
                "" => true,
                "=" => a == v,
                "~=" => a.split(|c: char| c.is_whitespace()).any(|w| w == v),
                "|=" => a == v || (a.starts_with(v.as_str()) && a[v.len()..].starts_with('-')),
                "^=" => a.starts_with(v.as_str()),
                "$=" => a.ends_with(v.as_str()),
                "*=" => a.contains(v.as_str()),
                op => panic!("operator {op}"),
            },
        },
        Simple::Pseudo(p) => e.states.contains(p),
    }
}

fn matches_compound(c: &Compound, e: &Flat) -> bool {
    c.iter().all(|s| matches_simple(s, e))
}

pub fn matches(sel: &Complex, tree: &[Flat], index: usize) -> bool {
    // from the subject to the left
    let mut compounds = vec![&sel.first];
    let mut combs = vec![];
    for (comb, c) in &sel.rest {
        combs.push(*comb);
        compounds.push(c);
    }
    let mut at = index;
    for i in (0..compounds.len()).rev() {
        if !matches_compound(compounds[i], &tree[at]) {
            return false;
        }
        if i > 0 {
            let next = match combs[i - 1] {
                '>' => tree[at].parent,
                '+' => tree[at].previous,
                c => panic!("combinator {c}"),
            };
            match next {
                Some(n) => at = n,
                None => return false,
            }
        }
    }
    true
}

pub fn matches_any(list: &[Complex], tree: &[Flat], index: usize) -> bool {
    list.iter().any(|s| matches(s, tree, index))
}

pub const SEL_CLASSES: [&str; 8] = ["a", "b", "c", "open", "row", "x-1", "v1", "class"];
pub const SEL_TAGS: [&str; 9] = [
    "div", "p", "span", "section", "ul", "h1", "button", "x-card", "body",
];
pub const SEL_ATTRS: [&str; 6] = ["data-k", "title", "class", "value", "checked", "name"];
pub const SEL_VALUES: [&str; 14] = [
    "a", "b", "x", "row", "x-1", "v", "v1", "Ab", "Ab c", "1", "true", "t", "a-b", "c",
];
pub const SEL_IDS: [&str; 5] = ["i1", "i2", "a", "b", "id"];

/// Rarely in the other case, which makes another name.
pub fn cased(g: &mut Gen, name: String) -> String {
    if g.chance(1, 10) {
        name.to_uppercase()
    } else {
        name
    }
}

pub fn gen_simple(g: &mut Gen, pseudo: bool) -> Simple {
    match g.weighted(&[6, 2, 3, if pseudo { 1 } else { 0 }, 1]) {
        0 => {
            let class = g.pick_s(&SEL_CLASSES);
            Simple::Class(cased(g, class))
        }
        1 => {
            let id = g.pick_s(&SEL_IDS);
            Simple::Id(cased(g, id))
        }
        2 => {
            let op = g.pick_s(&["", "=", "~=", "|=", "^=", "$=", "*="]);
            let value = if op.is_empty() { String::new() } else { g.pick_s(&SEL_VALUES) };
            let value = cased(g, value);
            Simple::Attr(g.pick_s(&SEL_ATTRS), op, value)
        }
        3 => Simple::Pseudo(g.pick_s(&["hover", "active", "focus", "checked"])),
        _ => Simple::All,
    }
}

pub fn gen_compound(g: &mut Gen, pseudo: bool) -> Compound {
    let mut c = vec![];
    if g.chance(2, 5) {
        c.push(Simple::Type(g.pick_s(&SEL_TAGS)));
    }
    while g.more(c.len(), 1, 3, 1, 3) {
        let s = gen_simple(g, pseudo);
        // `*` and a type can only be the first
        if s == Simple::All && !c.is_empty() {
            break;
        }
        c.push(s);
    }
    c
}

pub fn gen_complex(g: &mut Gen, pseudo: bool) -> Complex {
    let mut rest = vec![];
    let first = gen_compound(g, pseudo);
    while g.more(rest.len(), 0, 2, 1, 3) {
        rest.push((*g.pick(&['>', '+']), gen_compound(g, pseudo)));
    }
    Complex { first, rest }
}

pub fn gen_selectors(g: &mut Gen, pseudo: bool) -> Vec<Complex> {
    let mut list = vec![];
    while g.more(list.len(), 1, 3, 1, 4) {
        list.push(gen_complex(g, pseudo));
    }
    list
}

// ---------------------------------------------------------------------------------------------
// whole stylesheets

use crate::sty::{self, Decl};

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct RuleSet {
    pub sel: Vec<Complex>,
    pub decls: Vec<Decl>,
}

pub fn print_sheet(rules: &[RuleSet]) -> String {
    let rules: Vec<String> = rules
        .iter()
        .map(|r| format!("{} {{ {} }}", print_selectors(&r.sel), sty::print_decls(&r.decls)))
        .collect();
    rules.join("\n")
}

pub fn gen_decls(g: &mut Gen, lo: usize, hi: usize) -> Vec<Decl> {
    let mut decls = vec![];
    while g.more(decls.len(), lo, hi, 3, 4) {
        decls.push(sty::gen_decl(g));
    }
    decls
}

pub fn gen_sheet(g: &mut Gen, hi: usize, pseudo: bool) -> Vec<RuleSet> {
    let mut rules = vec![];
    while g.more(rules.len(), 0, hi, 5, 6) {
        rules.push(RuleSet {
            sel: gen_selectors(g, pseudo),
            decls: gen_decls(g, 1, 5),
        });
    }
    rules
}

// ---------------------------------------------------------------------------------------------
// animations and transitions of stylesheets, where only their presence matters

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Keyframes {
    pub name: String,
    pub frames: Vec<(String, Vec<Decl>)>,
}

impl Keyframes {
    pub fn print(&self) -> String {
        let frames: Vec<String> = self
            .frames
            .iter()
            .map(|(step, decls)| format!("{step} {{ {} }}", sty::print_decls(decls)))
            .collect();
        format!("@keyframes {} {{ {} }}", self.name, frames.join(" "))
    }
}

const MOTION_NAMES: [&str; 3] = ["Fade", "move-in", "Spin"];

fn time(ms: i64) -> sty::Val {
    if ms % 1000 == 0 {
        sty::Val::Time(ms as f32 / 1000.0, "s".into())
    } else {
        sty::Val::Time(ms as f32, "ms".into())
    }
}

pub fn gen_frames(g: &mut Gen, name: &str) -> Keyframes {
    let mut steps: Vec<&str> = vec!["0%", "100%"];
    if g.chance(1, 3) {
        steps = vec!["from", "to"];
    }
    if g.chance(1, 2) {
        steps.insert(1, *g.pick(&["50%", "25%"]));
    }
    let frames = steps.into_iter().map(|s| (s.to_string(), gen_decls(g, 1, 3))).collect();
    Keyframes {
        name: name.into(),
        frames,
    }
}

/// Definitions of animations; adds declarations which start them, and transitions, to the rules.
pub fn gen_motion(g: &mut Gen, rules: &mut Vec<RuleSet>) -> Vec<Keyframes> {
    let count = g.len(1, 3);
    let all: Vec<Keyframes> = (0..count).map(|i| gen_frames(g, MOTION_NAMES[i])).collect();
    for rule in rules.iter_mut() {
        if g.chance(1, 3) {
            let item = vec![
                time(g.int(1, 20) * 100),
                sty::kw("linear"),
                if g.bool() { sty::kw("infinite") } else { sty::Val::Num(g.int(1, 3) as f32) },
                sty::kw(&all[g.below(all.len())].name),
            ];
            rule.decls.push(Decl {
                name: "animation".into(),
                values: vec![item],
            });
        }
        if g.chance(1, 3) {
            let mut values = vec![];
            while g.more(values.len(), 1, 3, 1, 2) {
                let property = g.pick_s(&["width", "height", "opacity", "color", "background-color", "left", "padding-top", "font-size", "margin-left"]);
                let mut item = vec![sty::kw(&property), time(g.int(1, 20) * 100)];
                if g.chance(1, 3) {
                    item.push(sty::kw("linear"));
                    item.push(time(g.int(1, 9) * 100));
                }
                values.push(item);
            }
            rule.decls.push(Decl {
                name: "transition".into(),
                values,
            });
        }
    }
    all
}

pub fn print_motion(rules: &[RuleSet], frames: &[Keyframes]) -> String {
    let mut s: String = frames.iter().map(|f| f.print() + "\n").collect();
    s += &print_sheet(rules);
    s
}
