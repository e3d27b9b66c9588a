//! C05: what children inherit, and what they do not.

use crate::bx;
use crate::engine::*;
use crate::sty::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Map, Value};
use std::collections::BTreeMap;

#[derive(Serialize, Deserialize)]
pub struct N {
    /// how the element is styled: by classes, by a fixed inline style, by a bound one
    #[serde(default)]
    pub form: u8,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub base: Vec<Decl>,
    /// in effect when the node is switched on
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub on: Vec<Decl>,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub kids: Vec<Kid>,
}

#[derive(Serialize, Deserialize)]
pub enum Kid {
    Text,
    Img,
    /// hidden while its switch is off
    Opt(N),
    El(N),
}

#[derive(Serialize, Deserialize)]
pub struct Case {
    pub body: N,
    /// switches of nodes, in document order
    pub steps: Vec<Vec<bool>>,
    pub viewport: [f32; 2],
}

pub struct C05;

/// Bound styles of the elements that are on.
fn bound_styles(n: &N, index: &mut usize, step: &[bool], value: &mut Map<String, Value>) {
    let i = *index;
    *index += 1;
    if n.form == 2 {
        let on = step.get(i).copied().unwrap_or(false);
        value.insert(format!("s{i}"), json!(if on { print_decls(&n.on) } else { String::new() }));
    }
    for kid in &n.kids {
        if let Kid::El(n) | Kid::Opt(n) = kid {
            bound_styles(n, index, step, value);
        }
    }
}

const VARS: [(&str, &str); 4] = [
    ("--col", "color"),
    ("--fs", "font-size"),
    ("--w", "width"),
    ("--fam", "font-family"),
];
const OTHER: [&str; 10] = [
    "width",
    "height",
    "opacity",
    "background-color",
    "margin-top",
    "padding-left",
    "border-top-width",
    "overflow-x",
    "position",
    "display",
];

fn gen_block(g: &mut Gen, uses: bool, defines: bool, known: &[String]) -> Vec<Decl> {
    let mut out: Vec<Decl> = vec![];
    while g.more(out.len(), 0, 4, 3, 5) {
        let d = match g.weighted(&[6, 3, 3]) {
            0 => {
                let name = *g.pick(&INHERITED);
                decl(name, gen_val(g, name))
            }
            1 => {
                let name = *g.pick(&OTHER);
                decl(name, gen_val(g, name))
            }
            _ => {
                let (var, name) = *g.pick(&VARS);
                if defines {
                    decl(var, gen_val(g, name))
                } else if uses && known.iter().any(|k| k == var) {
                    decl(name, Val::Var(var.to_string()))
                } else {
                    continue;
                }
            }
        };
        out.push(d);
    }
    out
}

fn gen_node(g: &mut Gen, depth: usize, known: &[String], count: &mut usize) -> N {
    *count += 1;
    let defines = g.chance(1, 3);
    let form = g.weighted(&[4, 1, 1]) as u8;
    let mut base = gen_block(g, !defines, defines, known);
    let mut on = gen_block(g, !defines, defines, known);
    let own_color = base.iter().chain(&on).any(|d| d.name == "color");
    if depth < 4 && !own_color {
        for d in base.iter_mut().chain(on.iter_mut()) {
            if d.name == "background-color" && g.chance(1, 2) {
                *d = decl("background-color", Val::Kw("currentcolor".into()));
            }
        }
    }
    if form > 0 {
        // an inline style is in double quotes
        base.retain(|d| !print_decls(std::slice::from_ref(d)).contains('"'));
        on.retain(|d| !print_decls(std::slice::from_ref(d)).contains('"'));
    }
    if form == 1 {
        on.clear();
    }
    let mut known = known.to_vec();
    for d in &base {
        if d.name.starts_with("--") {
            known.push(d.name.clone());
        }
    }
    let mut kids = vec![];
    if depth > 0 {
        while g.more(kids.len(), if depth == 4 { 2 } else { 0 }, 4, 2, 3) {
            let kid = match g.weighted(&[4, 5, 1, 2]) {
                0 => Kid::Text,
                2 => Kid::Img,
                k => {
                    if *count >= 14 {
                        break;
                    }
                    let n = gen_node(g, depth - 1, &known, count);
                    if k == 1 {
                        Kid::El(n)
                    } else {
                        Kid::Opt(n)
                    }
                }
            };
            kids.push(kid);
        }
    }
    N {
        form,
        base,
        on,
        kids,
    }
}

fn print(n: &N, tag: &str, index: &mut usize, html: &mut String, css: &mut String, opt: bool) {
    let i = *index;
    *index += 1;
    let vis = if opt { format!(" ?=\"{{c{i}}}\"") } else { String::new() };
    match n.form {
        0 => {
            *html += &format!("<{tag} @class=\"n{i} {{c{i}}}\"{vis}>");
            *css += &format!(".n{i} {{ {} }}\n.on{i} {{ {} }}\n", print_decls(&n.base), print_decls(&n.on));
        }
        1 => *html += &format!("<{tag} style=\"{}\"{vis}>", print_decls(&n.base)),
        _ => *html += &format!("<{tag} @style=\"{} {{s{i}}}\"{vis}>", print_decls(&n.base)),
    }
    let mut text = false;
    for kid in &n.kids {
        match kid {
            Kid::Text => {
                if text {
                    *html += "<!-- -->";
                }
                *html += "text";
            }
            Kid::Img => *html += "<img src=\"a.png\"/>",
            Kid::El(n) => print(n, "div", index, html, css, false),
            Kid::Opt(n) => print(n, "div", index, html, css, true),
        }
        text = matches!(kid, Kid::Text);
    }
    *html += &format!("</{tag}>");
}

#[derive(Clone)]
struct Inherited {
    shown: BTreeMap<&'static str, String>,
    font: f32,
    color: [u8; 4],
    vars: Vars,
}

struct Walk<'a> {
    on: &'a [bool],
    index: usize,
    viewport: [f32; 2],
    problems: Vec<String>,
    inherited_by_child: u64,
}

impl Walk<'_> {
    fn skip(&mut self, n: &N) {
        self.index += 1;
        for kid in &n.kids {
            if let Kid::El(n) | Kid::Opt(n) = kid {
                self.skip(n);
            }
        }
    }

    fn visit(&mut self, n: &N, f: bumaga::Fragment, inh: &Inherited) {
        let i = self.index;
        self.index += 1;
        let on = self.on.get(i).copied().unwrap_or(false);
        let ctx = Ctx {
            parent_font: inh.font,
            parent_color: inh.color,
            viewport: self.viewport,
        };
        let mut vars = inh.vars.clone();
        let mut computed = Computed::new();
        compute(&n.base, &mut vars, &mut computed);
        if on {
            compute(&n.on, &mut vars, &mut computed);
        }
        let mut mine = Inherited {
            shown: BTreeMap::new(),
            font: inh.font,
            color: inh.color,
            vars,
        };
        let layout = f.tree.style(f.element.node).unwrap();
        for name in INHERITED.iter().chain(OTHER.iter()) {
            let own = computed.get(&(name.to_string(), 0));
            let want = match own {
                Some(v) => expect(name, v, &ctx),
                None if INHERITED.contains(name) => {
                    if inh.shown[name] != default_of(name) {
                        self.inherited_by_child += 1;
                    }
                    inh.shown[name].clone()
                }
                None => default_of(name),
            };
            let got = observe(name, 0, f.element, layout);
            if got != want {
                let how = if own.is_some() { "specified" } else { "not specified" };
                self.problems.push(format!("node {i}: {name} is {got}, expected {want} ({how})"));
            }
            mine.shown.insert(*name, want);
        }
        if let Some(v) = computed.get(&("font-size".to_string(), 0)) {
            mine.font = font_size(v, &ctx);
        }
        if let Some(v) = computed.get(&("color".to_string(), 0)) {
            mine.color = color(v, &ctx).unwrap();
        }
        let children = f.children();
        let mut at = 0;
        for kid in &n.kids {
            match kid {
                Kid::Opt(n) if !self.on.get(self.index).copied().unwrap_or(false) => {
                    self.skip(n);
                    continue;
                }
                _ => {}
            }
            let Some(child) = children.get(at) else {
                self.problems.push(format!("node {i}: child {at} is not displayed"));
                return;
            };
            at += 1;
            match kid {
                Kid::Text | Kid::Img => {
                    let child = if matches!(kid, Kid::Img) {
                        // the picture itself
                        match f.tree.children(child.element.node).unwrap().first() {
                            Some(n) => bumaga::Fragment {
                                element: f.tree.get_node_context(*n).unwrap(),
                                tree: f.tree,
                            },
                            None => {
                                self.problems.push(format!("node {i}: no picture of image"));
                                continue;
                            }
                        }
                    } else {
                        *child
                    };
                    let layout = child.tree.style(child.element.node).unwrap();
                    let what = if matches!(kid, Kid::Text) { "text" } else { "picture" };
                    for name in INHERITED {
                        let got = observe(name, 0, child.element, layout);
                        if got != mine.shown[name] {
                            self.problems.push(format!(
                                "{what} of node {i}: {name} is {got}, expected {}",
                                mine.shown[name]
                            ));
                        }
                    }
                    if child.element.self_opacity != 1.0 {
                        self.problems.push(format!("{what} of node {i}: own opacity is not 1"));
                    }
                }
                Kid::El(n) | Kid::Opt(n) => self.visit(n, *child, &mine),
            }
        }
        if at != children.len() {
            self.problems.push(format!("node {i}: more children than expected"));
        }
    }
}

impl Property for C05 {
    const ID: &'static str = "C05";
    const RULE: &'static str = "A random tree (up to 14 elements, texts, images, some elements hidden by a switch) where every element has a block of declarations that always applies (a rule of its class or an inline style) and one that applies while its switch is on (colour, font size/weight/family/style, pointer-events, visibility, variables and their uses, non-inherited properties), and 1-5 settings of all switches. After every update every element, text and picture has for every inherited property its own value (em and % of font sizes against the parent's size) or the value of its parent, and for other properties its own value or the initial one. Non-trivial: at least 3 elements and at least one value other than the initial one is taken from a parent.";
    const CASES: (u64, u64) = (150_000, 1_500_000);
    type Case = Case;

    fn gen(g: &mut Gen) -> Case {
        let mut count = 0;
        let body = gen_node(g, 4, &[], &mut count);
        let mut steps = vec![];
        while g.more(steps.len(), 1, 5, 3, 4) {
            let previous: Option<&Vec<bool>> = steps.last();
            let step = match previous {
                Some(p) => {
                    let mut p = p.clone();
                    for v in p.iter_mut() {
                        if g.chance(1, 4) {
                            *v = !*v;
                        }
                    }
                    p
                }
                None => (0..count).map(|_| g.bool()).collect(),
            };
            steps.push(step);
        }
        let viewport = *g.pick(&[[800.0, 600.0], [320.0, 480.0]]);
        Case {
            body,
            steps,
            viewport,
        }
    }

    fn check(case: &Case, st: &mut Stats) -> Check {
        let (mut html, mut css, mut index) = ("<html>".to_string(), String::new(), 0);
        print(&case.body, "body", &mut index, &mut html, &mut css, false);
        html += "</html>";
        let mut view = bx::view(&html, &css)?;
        let mut taken = 0;
        for (n, step) in case.steps.iter().enumerate() {
            let mut value = Map::new();
            for (i, on) in step.iter().enumerate() {
                value.insert(format!("c{i}"), json!(if *on { format!("on{i}") } else { String::new() }));
            }
            bound_styles(&case.body, &mut 0, step, &mut value);
            let value = Value::Object(value);
            bx::update(&mut view, bx::input(0, vec![]).viewport(case.viewport), &value)?;
            let initial = Inherited {
                shown: INHERITED.iter().map(|n| (*n, default_of(n))).collect(),
                font: 16.0,
                color: [0, 0, 0, 255],
                vars: Vars::new(),
            };
            let mut w = Walk {
                on: step,
                index: 0,
                viewport: case.viewport,
                problems: vec![],
                inherited_by_child: 0,
            };
            w.visit(&case.body, view.body(), &initial);
            taken += w.inherited_by_child;
            if let Some(p) = w.problems.first() {
                return Err(format!("step {n}: {p}\nvalue: {value}\nhtml: {html}\ncss:\n{css}"));
            }
        }
        st.label_n("values taken from a parent", taken);
        if index >= 3 && taken > 0 {
            st.nontrivial();
        }
        Ok(())
    }
}
