//! A model of bumaga templates: syntax tree, printer, reference evaluation, generators.

use crate::bx;
use crate::engine::Gen;
use serde::{Deserialize, Serialize};
use serde_json::{json, Map, Value};
use std::collections::BTreeMap;

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Expr {
    pub path: Vec<String>,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub pipe: Vec<String>,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Span {
    Lit(String),
    Bind(Expr),
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Arg {
    Key(String),
    Event,
    Bind(Expr),
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Attr {
    Static(String, String),
    Dyn(String, Vec<Span>),
    Tag(String, Expr),
    Alias(String, Expr),
    Vis(bool, Expr),
    Repeat(String, usize, Expr),
    On(String, Vec<Arg>),
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Node {
    Text(Vec<Span>),
    El(El),
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Default)]
pub struct El {
    pub tag: String,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub attrs: Vec<Attr>,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub kids: Vec<Node>,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Doc {
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub templates: Vec<(String, El)>,
    pub body: El,
}

pub const VOID: [&str; 15] = [
    "img", "input", "br", "hr", "area", "base", "col", "embed", "keygen", "meta", "param", "source", "track", "wbr",
    "command",
];

pub fn el(tag: &str, attrs: Vec<Attr>, kids: Vec<Node>) -> El {
    El {
        tag: tag.to_string(),
        attrs,
        kids,
    }
}

pub fn st(key: &str, value: &str) -> Attr {
    Attr::Static(key.to_string(), value.to_string())
}

// ---------------------------------------------------------------------------------------------
// printing

impl Expr {
    pub fn print(&self) -> String {
        let mut s = format!("{{{}", self.path.join("."));
        for p in &self.pipe {
            s += &format!("|{p}");
        }
        s + "}"
    }
}

pub fn print_spans(spans: &[Span]) -> String {
    spans
        .iter()
        .map(|s| match s {
            Span::Lit(s) => s.clone(),
            Span::Bind(e) => e.print(),
        })
        .collect()
}

impl Attr {
    pub fn print(&self) -> String {
        match self {
            Attr::Static(k, v) => format!("{k}=\"{v}\""),
            Attr::Dyn(k, spans) => format!("@{k}=\"{}\"", print_spans(spans)),
            Attr::Tag(k, e) => format!("#{k}=\"{}\"", e.print()),
            Attr::Alias(k, e) => format!("+{k}=\"{}\"", e.print()),
            Attr::Vis(v, e) => format!("{}=\"{}\"", if *v { "?" } else { "!" }, e.print()),
            Attr::Repeat(k, n, e) => format!("*{k}=\"{n} {}\"", e.print()),
            Attr::On(k, args) => {
                let args: Vec<String> = args
                    .iter()
                    .map(|a| match a {
                        Arg::Key(k) => k.clone(),
                        Arg::Event => "$event".to_string(),
                        Arg::Bind(e) => e.print(),
                    })
                    .collect();
                format!("^{k}=\"{}\"", args.join(" "))
            }
        }
    }
}

impl El {
    pub fn print(&self, out: &mut String) {
        out.push('<');
        out.push_str(&self.tag);
        for attr in &self.attrs {
            out.push(' ');
            out.push_str(&attr.print());
        }
        if VOID.contains(&self.tag.as_str()) || self.tag == "link" {
            out.push_str("/>");
            return;
        }
        out.push('>');
        let mut previous_text = false;
        for kid in &self.kids {
            match kid {
                Node::Text(spans) => {
                    if previous_text {
                        out.push_str("<!-- -->");
                    }
                    out.push_str(&print_spans(spans));
                    previous_text = true;
                }
                Node::El(e) => {
                    e.print(out);
                    previous_text = false;
                }
            }
        }
        out.push_str("</");
        out.push_str(&self.tag);
        out.push('>');
    }

    pub fn stat(&self, key: &str) -> Option<&str> {
        self.attrs.iter().find_map(|a| match a {
            Attr::Static(k, v) if k == key => Some(v.as_str()),
            _ => None,
        })
    }
}

impl Doc {
    pub fn html(&self) -> String {
        let mut out = String::from("<html>\n");
        for (id, template) in &self.templates {
            out.push_str(&format!("<template id=\"{id}\">"));
            template.print(&mut out);
            out.push_str("</template>\n");
        }
        self.body.print(&mut out);
        out.push_str("\n</html>");
        out
    }
}

// ---------------------------------------------------------------------------------------------
// reference evaluation

pub type Env = BTreeMap<String, Vec<String>>;

#[derive(Clone, Debug, PartialEq)]
pub enum RNode {
    Text(String),
    El(REl),
}

#[derive(Clone, Debug, PartialEq)]
pub struct REl {
    pub tag: String,
    pub attrs: BTreeMap<String, String>,
    pub on: BTreeMap<String, Vec<RArg>>,
    pub kids: Vec<RNode>,
}

/// An argument of a handler with its binding resolved to a path of the data.
#[derive(Clone, Debug, PartialEq)]
pub enum RArg {
    Key(String),
    Event,
    Path(Vec<String>, Vec<String>),
}

pub fn resolve(expr: &Expr, env: &Env) -> Vec<String> {
    let mut path = match env.get(&expr.path[0]) {
        Some(base) => base.clone(),
        None => vec![expr.path[0].clone()],
    };
    path.extend(expr.path[1..].iter().cloned());
    path
}

pub fn lookup(value: &Value, path: &[String]) -> Value {
    let mut v = value;
    for key in path {
        v = match v {
            Value::Object(o) => match o.get(key) {
                Some(v) => v,
                None => return Value::Null,
            },
            // the only notation of an index is the shortest one
            Value::Array(a) => match (0..a.len()).find(|i| i.to_string() == *key).map(|i| &a[i]) {
                Some(v) => v,
                None => return Value::Null,
            },
            _ => return Value::Null,
        };
    }
    v.clone()
}

pub fn eval(expr: &Expr, env: &Env, value: &Value) -> Value {
    let mut v = lookup(value, &resolve(expr, env));
    for p in &expr.pipe {
        v = bx::pipe(p, v);
    }
    v
}

pub fn text_of(v: &Value) -> String {
    match v {
        Value::Null => "".into(),
        Value::Bool(true) => "true".into(),
        Value::Bool(false) => "false".into(),
        Value::Number(n) => n.to_string(),
        Value::String(s) => s.clone(),
        Value::Array(_) => "[array]".into(),
        Value::Object(_) => "{object}".into(),
    }
}

pub fn truth_of(v: &Value) -> bool {
    match v {
        Value::Null => false,
        Value::Bool(b) => *b,
        Value::Number(n) => n.as_f64() != Some(0.0),
        Value::String(s) => !s.is_empty(),
        Value::Array(a) => !a.is_empty(),
        Value::Object(_) => true,
    }
}

fn spans_of(spans: &[Span], env: &Env, value: &Value) -> String {
    spans
        .iter()
        .map(|s| match s {
            Span::Lit(s) => s.clone(),
            Span::Bind(e) => text_of(&eval(e, env, value)),
        })
        .collect()
}

impl Doc {
    pub fn eval(&self, value: &Value) -> REl {
        self.eval_el(&self.body, &Env::new(), value)
    }

    /// The element a child stands for: the linked template with the bindings of the link first.
    pub fn expand(&self, child: &El) -> El {
        if child.tag == "link" {
            if let Some(href) = child.stat("href") {
                let id = href.trim_start_matches('#');
                let template = &self.templates.iter().find(|(k, _)| k == id).expect("template").1;
                let mut e = template.clone();
                let mut attrs: Vec<Attr> = child
                    .attrs
                    .iter()
                    .filter(|a| !matches!(a, Attr::Static(k, _) if k == "href"))
                    .cloned()
                    .collect();
                attrs.extend(e.attrs);
                e.attrs = attrs;
                return e;
            }
        }
        child.clone()
    }

    fn eval_el(&self, e: &El, env: &Env, value: &Value) -> REl {
        let mut attrs = BTreeMap::new();
        let mut on = BTreeMap::new();
        for attr in &e.attrs {
            match attr {
                Attr::Static(k, v) => {
                    attrs.insert(k.clone(), v.clone());
                }
                Attr::Dyn(k, spans) => {
                    attrs.insert(k.clone(), spans_of(spans, env, value));
                }
                Attr::Tag(k, e) => {
                    if truth_of(&eval(e, env, value)) {
                        attrs.insert(k.clone(), k.clone());
                    }
                }
                Attr::On(k, args) => {
                    let args = args
                        .iter()
                        .map(|a| match a {
                            Arg::Key(k) => RArg::Key(k.clone()),
                            Arg::Event => RArg::Event,
                            Arg::Bind(e) => RArg::Path(resolve(e, env), e.pipe.clone()),
                        })
                        .collect();
                    on.insert(k.clone(), args);
                }
                _ => {}
            }
        }
        let mut kids = vec![];
        for kid in &e.kids {
            match kid {
                Node::Text(spans) => kids.push(RNode::Text(spans_of(spans, env, value))),
                Node::El(kid) => {
                    let kid = self.expand(kid);
                    let mut env = env.clone();
                    for attr in &kid.attrs {
                        if let Attr::Alias(name, e) = attr {
                            let path = resolve(e, &env);
                            env.insert(name.clone(), path);
                        }
                    }
                    let vis = kid.attrs.iter().find_map(|a| match a {
                        Attr::Vis(v, e) => Some((*v, e.clone())),
                        _ => None,
                    });
                    let repeat = kid.attrs.iter().find_map(|a| match a {
                        Attr::Repeat(k, n, e) => Some((k.clone(), *n, e.clone())),
                        _ => None,
                    });
                    if let Some((flag, e)) = vis {
                        if truth_of(&eval(&e, &env, value)) == flag {
                            kids.push(RNode::El(self.eval_el(&kid, &env, value)));
                        }
                    } else if let Some((name, max, e)) = repeat {
                        let path = resolve(&e, &env);
                        let len = match lookup(value, &path) {
                            Value::Array(a) => a.len().min(max),
                            _ => 0,
                        };
                        for n in 0..len {
                            let mut env = env.clone();
                            let mut item = path.clone();
                            item.push(n.to_string());
                            env.insert(name.clone(), item);
                            kids.push(RNode::El(self.eval_el(&kid, &env, value)));
                        }
                    } else {
                        kids.push(RNode::El(self.eval_el(&kid, &env, value)));
                    }
                }
            }
        }
        REl {
            tag: e.tag.clone(),
            attrs,
            on,
            kids,
        }
    }
}

impl REl {
    /// The first difference between this expected element and an observed one.
    pub fn diff(&self, got: &bx::Snap, path: &str) -> Option<String> {
        let path = format!("{path}/{}", self.tag);
        if self.tag != got.tag {
            return Some(format!("{path}: expected this tag, got {:?}", got.tag));
        }
        if let Some(text) = &got.text {
            return Some(format!("{path}: expected an element, got text {text:?}"));
        }
        if self.attrs != got.attrs {
            return Some(format!(
                "{path}: attributes {:?}, expected {:?}",
                got.attrs, self.attrs
            ));
        }
        if self.tag == "img" {
            // the picture is part of the element
            let src = self.attrs.get("src").map(String::as_str).unwrap_or("");
            let shown = got.kids.first().and_then(|kid| kid.picture.as_deref());
            if got.kids.len() != 1 || shown != Some(src) {
                return Some(format!("{path}: picture {shown:?}, expected {src:?}"));
            }
            if !got.kids[0].is_src {
                return Some(format!("{path}: picture is not marked as given by src"));
            }
            return None;
        }
        let show = |kids: &[bx::Snap]| {
            let kids: Vec<String> = kids
                .iter()
                .map(|k| match &k.text {
                    Some(t) => format!("{t:?}"),
                    None => format!("<{}>", k.tag),
                })
                .collect();
            kids.join(" ")
        };
        for (i, kid) in self.kids.iter().enumerate() {
            let Some(other) = got.kids.get(i) else {
                return Some(format!(
                    "{path}: {} children, expected {}: {} / {:?}",
                    got.kids.len(),
                    self.kids.len(),
                    show(&got.kids),
                    kid
                ));
            };
            match kid {
                RNode::Text(text) => {
                    if other.text.as_ref() != Some(text) {
                        return Some(format!(
                            "{path}[{i}]: got {:?} <{}>, expected text {text:?}",
                            other.text, other.tag
                        ));
                    }
                }
                RNode::El(e) => {
                    if let Some(d) = e.diff(other, &format!("{path}[{i}]")) {
                        return Some(d);
                    }
                }
            }
        }
        if self.kids.len() != got.kids.len() {
            return Some(format!(
                "{path}: {} children, expected {}: {}",
                got.kids.len(),
                self.kids.len(),
                show(&got.kids)
            ));
        }
        None
    }
}

// ---------------------------------------------------------------------------------------------
// the shape of the data a document binds

#[derive(Clone, Debug, PartialEq)]
pub enum Shape {
    Leaf,
    Obj(BTreeMap<String, Shape>),
    Arr(usize, Box<Shape>),
}

impl Shape {
    fn at<'s>(&'s mut self, path: &[String]) -> &'s mut Shape {
        if path.is_empty() {
            return self;
        }
        let number = INDEXES.iter().position(|index| *index == path[0]);
        if matches!(self, Shape::Arr(..)) && number.is_none() && path[0] != "[]" {
            // a property of an array, there is no data for it
            return Box::leak(Box::new(Shape::Leaf));
        }
        if path[0] == "[]" || number.is_some() {
            if !matches!(self, Shape::Arr(..)) {
                *self = Shape::Arr(0, Box::new(Shape::Leaf));
            }
            if let (Some(index), Shape::Arr(n, _)) = (number, &mut *self) {
                *n = (*n).max(index + 1);
            }
            match self {
                Shape::Arr(_, item) => item.at(&path[1..]),
                _ => unreachable!(),
            }
        } else {
            if !matches!(self, Shape::Obj(_)) {
                *self = Shape::Obj(BTreeMap::new());
            }
            match self {
                Shape::Obj(fields) => fields
                    .entry(path[0].clone())
                    .or_insert(Shape::Leaf)
                    .at(&path[1..]),
                _ => unreachable!(),
            }
        }
    }
}

impl Doc {
    pub fn shape(&self) -> Shape {
        let mut shape = Shape::Obj(BTreeMap::new());
        self.shape_el(&self.body, &Env::new(), &mut shape);
        shape
    }

    fn shape_el(&self, e: &El, env: &Env, shape: &mut Shape) {
        let touch = |e: &Expr, env: &Env, shape: &mut Shape| {
            shape.at(&resolve(e, env));
        };
        for attr in &e.attrs {
            match attr {
                Attr::Dyn(_, spans) => {
                    for s in spans {
                        if let Span::Bind(e) = s {
                            touch(e, env, shape)
                        }
                    }
                }
                Attr::Tag(_, e) => touch(e, env, shape),
                Attr::On(_, args) => {
                    for a in args {
                        if let Arg::Bind(e) = a {
                            touch(e, env, shape)
                        }
                    }
                }
                _ => {}
            }
        }
        for kid in &e.kids {
            match kid {
                Node::Text(spans) => {
                    for s in spans {
                        if let Span::Bind(e) = s {
                            touch(e, env, shape)
                        }
                    }
                }
                Node::El(kid) => {
                    let kid = self.expand(kid);
                    let mut env = env.clone();
                    for attr in &kid.attrs {
                        if let Attr::Alias(name, e) = attr {
                            let path = resolve(e, &env);
                            shape.at(&path);
                            env.insert(name.clone(), path);
                        }
                    }
                    for attr in &kid.attrs {
                        match attr {
                            Attr::Vis(_, e) => touch(e, &env, shape),
                            Attr::Repeat(name, n, e) => {
                                let mut path = resolve(e, &env);
                                let s = shape.at(&path);
                                match s {
                                    Shape::Arr(m, _) => *m = (*m).max(*n),
                                    s => *s = Shape::Arr(*n, Box::new(Shape::Leaf)),
                                }
                                path.push("[]".to_string());
                                env.insert(name.clone(), path);
                            }
                            _ => {}
                        }
                    }
                    self.shape_el(&kid, &env, shape);
                }
            }
        }
    }
}

pub fn gen_scalar(g: &mut Gen) -> Value {
    match g.below(17) {
        0 => json!("a"),
        1 => json!(""),
        2 => Value::Null,
        3 => json!(true),
        4 => json!(false),
        5 => json!(0),
        6 => json!(g.int(-3, 120)),
        7 => json!(2.5),
        8 => json!("b"),
        9 => json!("Ab c"),
        10 => json!(-0.25),
        11 => json!("ж<&\""),
        12 => json!(0.0),
        13 => json!(g.pick_s(&["row", "open", "x-1", "a b", "row  c", "i1", "A", "Row", "ROW B", "I1"])),
        14 => json!(g.pick_s(&["b\n", "\t", " a ", "row\nx-1", "b\ta", "x-1-2", "a-b-c", "v1-"])),
        15 => json!(*g.pick(&[1e21, 1e-7, 9007199254740993.0, -1.0, 100000.5])),
        _ => json!(format!("v{}", g.below(5))),
    }
}

pub fn gen_any(g: &mut Gen, depth: usize) -> Value {
    match g.weighted(&[8, if depth > 0 { 2 } else { 0 }, if depth > 0 { 2 } else { 0 }]) {
        0 => gen_scalar(g),
        1 => {
            let n = g.below(3);
            Value::Array((0..n).map(|_| gen_any(g, depth - 1)).collect())
        }
        _ => {
            let n = g.below(3);
            let mut m = Map::new();
            for _ in 0..n {
                let k = g.pick_s(&["a", "b", "c", "x"]);
                m.insert(k, gen_any(g, depth - 1));
            }
            Value::Object(m)
        }
    }
}

/// A value for a shape; with `odd`, sometimes one of another type than the template expects.
pub fn gen_value(g: &mut Gen, shape: &Shape, odd: bool) -> Value {
    if odd && g.chance(1, 16) {
        return gen_any(g, 2);
    }
    match shape {
        Shape::Leaf => {
            if odd && g.chance(1, 8) {
                gen_any(g, 1)
            } else {
                gen_scalar(g)
            }
        }
        Shape::Obj(fields) => {
            if odd && g.chance(1, 12) {
                return Value::Null;
            }
            let mut m = Map::new();
            for (k, s) in fields {
                if odd && g.chance(1, 10) {
                    continue;
                }
                m.insert(k.clone(), gen_value(g, s, odd));
            }
            if g.chance(1, 10) {
                m.insert("unused".into(), gen_scalar(g));
            }
            Value::Object(m)
        }
        Shape::Arr(n, item) => {
            let items = g.vec(0, n + 1, |g| gen_value(g, item, odd));
            if odd && g.chance(1, 16) {
                // an object with the same keys is not an array
                return Value::Object(items.into_iter().enumerate().map(|(i, v)| (i.to_string(), v)).collect());
            }
            Value::Array(items)
        }
    }
}

/// A change of a value: keeps most of it.
pub fn mutate(g: &mut Gen, value: &Value, shape: &Shape, odd: bool) -> Value {
    if g.chance(1, 8) {
        return gen_value(g, shape, odd);
    }
    match (shape, value) {
        (Shape::Obj(fields), Value::Object(old)) => {
            let mut m = old.clone();
            for (k, s) in fields {
                if g.chance(1, 2) {
                    let next = match old.get(k) {
                        Some(v) => mutate(g, v, s, odd),
                        None => gen_value(g, s, odd),
                    };
                    m.insert(k.clone(), next);
                }
            }
            Value::Object(m)
        }
        (Shape::Arr(n, item), Value::Array(old)) => {
            let mut a = old.clone();
            match g.below(6) {
                0 => {}
                1 => {
                    a.pop();
                }
                2 => {
                    if a.len() < n + 2 {
                        a.push(gen_value(g, item, odd))
                    }
                }
                3 => {
                    if !a.is_empty() {
                        let i = g.below(a.len());
                        a.remove(i);
                    }
                }
                4 => a.clear(),
                _ => {
                    if !a.is_empty() {
                        let i = g.below(a.len());
                        a[i] = mutate(g, &old[i], item, odd);
                    }
                }
            }
            Value::Array(a)
        }
        (Shape::Leaf, old) => {
            if g.chance(1, 3) {
                old.clone()
            } else {
                gen_value(g, shape, odd)
            }
        }
        (shape, _) => gen_value(g, shape, odd),
    }
}

// ---------------------------------------------------------------------------------------------
// generating documents

#[derive(Clone)]
pub struct DocCfg {
    pub depth: usize,
    pub kids: usize,
    pub events: bool,
    pub pipes: bool,
    pub templates: bool,
    pub text: bool,
    pub classes: bool,
    pub ids: bool,
    pub img: bool,
}

impl Default for DocCfg {
    fn default() -> Self {
        DocCfg {
            depth: 4,
            kids: 4,
            events: false,
            pipes: true,
            templates: true,
            text: true,
            classes: true,
            ids: true,
            img: true,
        }
    }
}

/// What the data looks like: fixed vocabularies keep paths shared between bindings, and keep the
/// kinds of paths consistent (a path is a leaf, an object or an array everywhere).
/// Leaves: a b c name; objects: o p (fields: leaves, o2, items2); arrays: items list rows
/// (of objects), tags nums (of leaves).
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Leaf,
    Obj,
    ArrObj,
    ArrLeaf,
}

#[derive(Clone, Default)]
pub struct Scope {
    /// local names and what they stand for
    pub locals: Vec<(String, Kind)>,
}

pub fn fields_of(kind: Kind, root: bool) -> Vec<(&'static str, Kind)> {
    match kind {
        Kind::Obj if root => vec![
            ("a", Kind::Leaf),
            ("b", Kind::Leaf),
            ("c", Kind::Leaf),
            ("name", Kind::Leaf),
            ("user-name", Kind::Leaf),
            ("this", Kind::Leaf),
            ("o", Kind::Obj),
            ("p", Kind::Obj),
            ("items", Kind::ArrObj),
            ("rows", Kind::ArrObj),
            ("tags", Kind::ArrLeaf),
        ],
        Kind::Obj => vec![
            ("a", Kind::Leaf),
            ("b", Kind::Leaf),
            ("x", Kind::Leaf),
            ("n_1", Kind::Leaf),
            ("7", Kind::Leaf),
            ("01", Kind::Leaf),
            ("sub", Kind::Obj),
            ("tags", Kind::ArrLeaf),
            ("rows", Kind::ArrObj),
        ],
        _ => vec![],
    }
}

/// Numbers of array items in paths.
pub const INDEXES: [&str; 5] = ["0", "1", "2", "3", "4"];

impl Scope {
    /// A path of the wanted kind; locals preferred half of the time.
    pub fn path(&self, g: &mut Gen, want: Kind) -> Vec<String> {
        let mut path: Vec<String> = vec![];
        let mut kind = Kind::Obj;
        let mut root = true;
        // locals
        let usable: Vec<&(String, Kind)> = self
            .locals
            .iter()
            .filter(|(_, k)| *k == want || *k == Kind::Obj)
            .collect();
        if !usable.is_empty() && g.chance(2, 3) {
            let (name, k) = usable[g.below(usable.len())];
            path.push(name.clone());
            kind = *k;
            root = false;
            if kind == want && (kind != Kind::Obj || g.chance(1, 2)) {
                return path;
            }
        }
        loop {
            let fields = fields_of(kind, root);
            let done: Vec<&(&str, Kind)> = fields.iter().filter(|(_, k)| *k == want).collect();
            let more: Vec<&(&str, Kind)> = fields.iter().filter(|(_, k)| *k == Kind::Obj).collect();
            let shadowed = |name: &str| root && self.locals.iter().any(|(n, _)| n == name);
            if kind == Kind::Obj && path.len() < 5 && g.chance(1, 10) {
                // an item of array by its number, or a key which arrays do not have
                let arrays: Vec<&(&str, Kind)> = fields
                    .iter()
                    .filter(|(n, k)| !shadowed(n) && (*k == Kind::ArrObj || *k == Kind::ArrLeaf && want == Kind::Leaf))
                    .collect();
                if !arrays.is_empty() {
                    let (name, k) = arrays[g.below(arrays.len())];
                    path.push(name.to_string());
                    if want == Kind::Leaf && g.chance(1, 6) {
                        path.push(g.pick_s(&["length", "a", "05", "99999999999", "18446744073709551615"]));
                        return path;
                    }
                    path.push(g.pick_s(&INDEXES));
                    if *k == Kind::ArrLeaf || (want == Kind::Obj && g.chance(1, 2)) {
                        return path;
                    }
                    root = false;
                    continue;
                }
            }
            let deeper = if path.len() < 3 { g.chance(1, 4) } else { path.len() < 7 && g.chance(2, 5) };
            if deeper {
                let (name, k) = more[g.below(more.len())];
                if !shadowed(name) {
                    path.push(name.to_string());
                    kind = *k;
                    root = false;
                    continue;
                }
            }
            let done: Vec<_> = done.into_iter().filter(|(n, _)| !shadowed(n)).collect();
            if done.is_empty() {
                // everything of this kind is shadowed at the root
                path.push("p".to_string());
                kind = Kind::Obj;
                root = false;
                continue;
            }
            let (name, _) = done[g.below(done.len())];
            path.push(name.to_string());
            return path;
        }
    }

    pub fn expr(&self, g: &mut Gen, want: Kind, pipes: bool) -> Expr {
        let path = self.path(g, want);
        let pipe = if pipes && g.chance(1, 6) {
            g.vec(1, 4, |g| g.pick_s(&["up", "not", "bang", "len", "json", "nope"]))
        } else {
            vec![]
        };
        Expr { path, pipe }
    }

    /// An expression for a text-like use: a leaf most of the time.
    pub fn any_expr(&self, g: &mut Gen, pipes: bool) -> Expr {
        let want = match g.weighted(&[12, 1, 1, 1]) {
            0 => Kind::Leaf,
            1 => Kind::Obj,
            2 => Kind::ArrObj,
            _ => Kind::ArrLeaf,
        };
        self.expr(g, want, pipes)
    }
}

pub fn gen_lit(g: &mut Gen) -> String {
    // no leading or trailing whitespace, no newlines: whitespace is the subject of another check
    g.pick_s(&[
        "t", "Hello", "x y", "1,2", "a.b", "привет", "50%", "it's", "&amp;", "v=1;", "}", "(a)",
    ])
}

pub fn gen_spans(g: &mut Gen, scope: &Scope, cfg: &DocCfg) -> Vec<Span> {
    let mut spans: Vec<Span> = vec![];
    while g.more(spans.len(), 1, 4, 1, 2) {
        let lit = matches!(spans.last(), Some(Span::Bind(_)) | None) && g.chance(1, 2);
        if lit {
            spans.push(Span::Lit(gen_lit(g)));
        } else {
            spans.push(Span::Bind(scope.any_expr(g, cfg.pipes)));
        }
    }
    spans
}

pub const CLASSES: [&str; 8] = ["a", "b", "c", "open", "row", "x-1", "A", "Row"];
pub const TAGS: [&str; 8] = ["div", "p", "span", "section", "ul", "h1", "button", "x-card"];

pub struct DocGen {
    pub cfg: DocCfg,
    pub ids: usize,
    pub templates: Vec<(String, El)>,
    pub in_template: bool,
    /// a repeat of more than ten items is in the document
    pub large: bool,
}

impl DocGen {
    pub fn new(cfg: DocCfg) -> Self {
        DocGen {
            cfg,
            ids: 0,
            templates: vec![],
            in_template: false,
            large: false,
        }
    }

    fn attrs(&mut self, g: &mut Gen, scope: &Scope, used: &mut Vec<String>) -> Vec<Attr> {
        let mut attrs = vec![];
        while g.more(attrs.len(), 0, 4, 1, 2) {
            let key = if self.cfg.ids && g.chance(1, 6) {
                "id".to_string()
            } else {
                g.pick_s(&["class", "title", "data-k", "value", "checked", "name", "class"])
            };
            if used.contains(&key) {
                break;
            }
            used.push(key.clone());
            let attr = match g.below(4) {
                0 => {
                    let v = if key == "class" {
                        let n = g.len(1, 2);
                        let mut v: Vec<&str> = vec![];
                        for _ in 0..n {
                            v.push(g.pick(&CLASSES));
                        }
                        v.join(*g.pick(&[" ", " ", " ", " ", "  ", "\t", "\n", " \n "]))
                    } else if key == "id" {
                        g.pick_s(&["i1", "i2", "a", "b", "A", "I1"])
                    } else if g.chance(1, 2) {
                        g.pick_s(&["a", "b", "x-1", "row", "v1", "Ab c", "true", "x-1-2", "a\tb", "b\na"])
                    } else {
                        gen_lit(g)
                    };
                    Attr::Static(key, v)
                }
                1 | 2 => Attr::Dyn(key, {
                    let mut spans = gen_spans(g, scope, &self.cfg);
                    if !spans.iter().any(|s| matches!(s, Span::Bind(_))) {
                        spans.push(Span::Bind(scope.any_expr(g, self.cfg.pipes)));
                    }
                    spans
                }),
                _ => Attr::Tag(key, scope.any_expr(g, self.cfg.pipes)),
            };
            attrs.push(attr);
        }
        attrs
    }

    /// Names of locals. In a document with templates a local never hides a name templates read
    /// with another meaning; otherwise it may hide anything.
    fn local_name(&mut self, g: &mut Gen, kind: Kind) -> String {
        if self.templates.is_empty() && !self.in_template {
            g.pick_s(&["item", "row", "al", "a", "o", "items"])
        } else if kind == Kind::Obj {
            g.pick_s(&["it", "item", "row"])
        } else {
            g.pick_s(&["item", "row", "al"])
        }
    }

    pub fn element(&mut self, g: &mut Gen, scope: &Scope, depth: usize) -> El {
        let mut scope = scope.clone();
        let mut attrs = vec![];
        let mut used = vec![];
        // alias
        if g.chance(1, 6) {
            let want = *g.pick(&[Kind::Obj, Kind::Leaf, Kind::ArrObj, Kind::ArrLeaf]);
            let name = self.local_name(g, want);
            let e = scope.expr(g, want, false);
            scope.locals.retain(|(n, _)| *n != name);
            scope.locals.push((name.clone(), want));
            attrs.push(Attr::Alias(name, e));
        }
        let mut ordered = false;
        if !attrs.is_empty() && g.chance(1, 4) {
            // another one which can be based on the first
            let want = *g.pick(&[Kind::Obj, Kind::Leaf]);
            let name = self.local_name(g, want);
            let e = scope.expr(g, want, false);
            if !matches!(&attrs[0], Attr::Alias(n, _) if *n == name) {
                scope.locals.retain(|(n, _)| *n != name);
                scope.locals.push((name.clone(), want));
                attrs.push(Attr::Alias(name, e));
                ordered = true;
            }
        }
        let outer = scope.clone();
        match g.weighted(&[6, 3, 3]) {
            1 => {
                let e = scope.any_expr(g, self.cfg.pipes);
                attrs.push(Attr::Vis(g.chance(1, 2) == false, e));
            }
            2 => {
                let want = *g.pick(&[Kind::ArrObj, Kind::ArrLeaf]);
                let kind = if want == Kind::ArrObj {
                    Kind::Obj
                } else {
                    Kind::Leaf
                };
                let name = self.local_name(g, kind);
                let e = scope.expr(g, want, false);
                let n = if depth <= 1 && !self.large && !self.in_template && g.chance(1, 10) {
                    self.large = true;
                    10 + g.below(3)
                } else {
                    g.len(1, 4)
                };
                // whether an alias sees the item of a repeat of the same element is not specified
                let conflict = attrs
                    .iter()
                    .any(|a| matches!(a, Attr::Alias(_, e) if e.path[0] == name));
                if !conflict {
                    scope.locals.retain(|(n, _)| *n != name);
                    scope.locals.push((name.clone(), kind));
                    attrs.push(Attr::Repeat(name, n, e));
                }
            }
            _ => {}
        }
        if self.cfg.templates && !self.templates.is_empty() && depth > 0 && g.chance(1, 5) {
            let t = g.below(self.templates.len());
            let (id, root) = self.templates[t].clone();
            let mut at = vec![Attr::Static("href".into(), format!("#{id}"))];
            let is_shown = |a: &Attr| matches!(a, Attr::Vis(..) | Attr::Repeat(..));
            if root.attrs.iter().any(is_shown) {
                attrs.retain(|a| !is_shown(a));
                scope = outer.clone();
            }
            if root.attrs.iter().any(|a| matches!(a, Attr::Alias(..))) {
                attrs.retain(|a| !matches!(a, Attr::Repeat(..)));
                scope = outer.clone();
            }
            // templates read `it`: give it a meaning sometimes
            let has_alias = attrs.iter().any(|a| matches!(a, Attr::Alias(..)));
            if !has_alias && g.chance(2, 3) {
                let e = outer.expr(g, Kind::Obj, false);
                let conflict = attrs
                    .iter()
                    .any(|a| matches!(a, Attr::Repeat(name, _, _) if e.path[0] == *name));
                if !conflict {
                    at.push(Attr::Alias("it".into(), e));
                }
            }
            at.extend(attrs);
            if g.chance(1, 3) {
                // attributes of the link in addition to those of the root of the template
                let mut used: Vec<String> = vec!["src".into()];
                for attr in &root.attrs {
                    if let Attr::Static(k, _) | Attr::Dyn(k, _) | Attr::Tag(k, _) = attr {
                        used.push(k.clone());
                    }
                }
                at.extend(self.attrs(g, &scope, &mut used));
            }
            return el("link", at, vec![]);
        }
        let void = g.chance(1, 12);
        let tag = if void {
            if self.cfg.img && g.chance(1, 2) {
                "img".to_string()
            } else {
                g.pick_s(&VOID[1..])
            }
        } else {
            g.pick_s(&TAGS)
        };
        attrs.extend(self.attrs(g, &scope, &mut used));
        if tag == "img" && g.chance(1, 2) {
            attrs.push(Attr::Dyn("src".into(), vec![Span::Bind(scope.any_expr(g, false))]));
        }
        if !ordered {
            g.shuffle_last(&mut attrs);
        }
        let kids = if void || depth == 0 {
            vec![]
        } else {
            self.kids(g, &scope, depth - 1)
        };
        el(&tag, attrs, kids)
    }

    pub fn kids(&mut self, g: &mut Gen, scope: &Scope, depth: usize) -> Vec<Node> {
        let mut kids: Vec<Node> = vec![];
        if !self.large && !self.in_template && g.chance(1, 24) {
            // a long list of small things
            self.large = true;
            let n = g.len(9, 15);
            for _ in 0..n {
                if self.cfg.text && g.chance(1, 3) {
                    kids.push(Node::Text(gen_spans(g, scope, &self.cfg)));
                } else {
                    kids.push(Node::El(self.element(g, scope, 0)));
                }
            }
            return kids;
        }
        while g.more(kids.len(), 0, self.cfg.kids + 2, 2, 3) {
            if self.cfg.text && g.chance(2, 5) {
                kids.push(Node::Text(gen_spans(g, scope, &self.cfg)));
            } else {
                kids.push(Node::El(self.element(g, scope, depth)));
            }
        }
        kids
    }

    pub fn doc(mut self, g: &mut Gen) -> Doc {
        if self.cfg.templates && g.chance(1, 3) {
            let n = g.len(1, 2);
            self.in_template = true;
            for i in 0..n {
                let mut scope = Scope {
                    locals: vec![("it".into(), Kind::Obj)],
                };
                let mut attrs = vec![];
                if g.chance(1, 5) {
                    let e = scope.expr(g, Kind::Obj, false);
                    let name = g.pick_s(&["inner", "it"]);
                    scope.locals.retain(|(n, _)| *n != name);
                    scope.locals.push((name.clone(), Kind::Obj));
                    attrs.push(Attr::Alias(name, e));
                }
                match g.below(6) {
                    5 => {
                        let e = scope.any_expr(g, self.cfg.pipes);
                        attrs.push(Attr::Vis(g.bool(), e));
                    }
                    4 if attrs.is_empty() => {
                        let e = scope.expr(g, Kind::ArrObj, false);
                        scope.locals.push(("row".into(), Kind::Obj));
                        attrs.push(Attr::Repeat("row".into(), g.len(1, 3), e));
                    }
                    _ => {}
                }
                let mut used = vec![];
                attrs.extend(self.attrs(g, &scope, &mut used));
                let kids = self.kids(g, &scope, 2);
                let t = el(&g.pick_s(&TAGS), attrs, kids);
                self.templates.push((format!("t{i}"), t));
            }
            self.in_template = false;
            if g.bool() {
                // a template can link one which is defined later
                self.templates.reverse();
            }
        }
        let scope = Scope::default();
        let mut used = vec![];
        let attrs = self.attrs(g, &scope, &mut used);
        let depth = self.cfg.depth;
        let mut kids = self.kids(g, &scope, depth);
        if kids.is_empty() {
            kids.push(Node::El(self.element(g, &scope, depth)));
        }
        Doc {
            templates: self.templates,
            body: el("body", attrs, kids),
        }
    }
}

impl Gen {
    /// Rotates a short list; order of attributes must not matter.
    pub fn shuffle_last<T>(&mut self, items: &mut Vec<T>) {
        let n = items.len();
        if n > 1 && self.chance(1, 3) {
            let k = self.below(n);
            items.rotate_left(k);
        }
    }
}

/// Adds classes and inline styles to elements of the body.
pub fn dress(g: &mut Gen, e: &mut El, styles: bool) {
    let has = |e: &El, key: &str| {
        e.attrs.iter().any(|a| match a {
            Attr::Static(k, _) | Attr::Dyn(k, _) | Attr::Tag(k, _) => k == key,
            _ => false,
        })
    };
    let bind = |g: &mut Gen| {
        let path = vec![g.pick_s(&["a", "b", "c", "name"])];
        Span::Bind(Expr { path, pipe: vec![] })
    };
    if !has(e, "class") && g.chance(1, 2) {
        let mut classes = vec![];
        while g.more(classes.len(), 1, 3, 1, 2) {
            classes.push(g.pick_s(&CLASSES));
        }
        let attr = if g.chance(1, 3) {
            let spans = vec![Span::Lit(format!("{} ", classes.join(" "))), bind(g)];
            Attr::Dyn("class".into(), spans)
        } else {
            Attr::Static("class".into(), classes.join(" "))
        };
        e.attrs.push(attr);
    }
    if styles && g.chance(1, 8) {
        let p = g.pick_s(&["width", "height", "margin", "padding", "top", "flex-basis"]);
        let spans = vec![Span::Lit(format!("{p}: ")), bind(g), Span::Lit("px;".into())];
        e.attrs.push(Attr::Dyn("style".into(), spans));
    } else if styles && g.chance(1, 8) {
        let d = crate::sty::gen_decl(g).print();
        if !d.contains('"') {
            e.attrs.push(Attr::Static("style".into(), d));
        }
    }
    for kid in &mut e.kids {
        if let Node::El(kid) = kid {
            if kid.tag != "link" {
                dress(g, kid, styles);
            }
        }
    }
}
