//! C17: templates, aliases and repeats equal their expansion written by hand.

use crate::bx;
use crate::doc::*;
use crate::engine::*;
use crate::ev::*;
use crate::sel::*;
use bumaga::InputEvent;
use serde::{Deserialize, Serialize};
use serde_json::{Map, Value};

#[derive(Serialize, Deserialize)]
pub struct Case {
    pub page: Page,
    pub sheet: Vec<RuleSet>,
    pub frames: Vec<Keyframes>,
}

pub struct C17;

const CFG: PageCfg = PageCfg {
    events: &[
        "onmouseenter", "onmouseleave", "onmousedown", "onmouseup", "onclick", "oninput", "onkeydown", "onfocus", "onblur",
        "ondragstart", "ondrop", "ondragend",
    ],
    density: 2,
    weights: [6, 6, 2, 2, 1],
    draggable: true,
    rich: true,
    cursors: true,
};

#[derive(Default)]
struct Count {
    links: u64,
    aliases: u64,
    repeats: u64,
}

/// The path of a binding in the expanded document: what is reached through items of arrays is in
/// a copy of the data, where arrays are objects.
fn path_of(path: Vec<String>) -> Vec<String> {
    let is_index = |k: &String| k.chars().all(|c| c.is_ascii_digit());
    if !path.iter().any(is_index) {
        return path;
    }
    let mut out = vec!["x".to_string()];
    for key in path {
        if is_index(&key) {
            out.push(format!("n{}", letters(&key)));
        } else {
            out.push("f".into());
            out.push(key);
        }
    }
    out.push("v".into());
    out
}

fn letters(index: &str) -> String {
    index.chars().map(|c| (b'a' + (c as u8 - b'0')) as char).collect()
}

/// The copy of the data for expanded bindings.
fn spread(v: &Value) -> Value {
    let mut m = Map::new();
    m.insert("v".into(), v.clone());
    match v {
        Value::Object(o) => {
            m.insert("f".into(), Value::Object(o.iter().map(|(k, v)| (k.clone(), spread(v))).collect()));
            for (k, v) in o.iter().filter(|(k, _)| k.chars().all(|c| c.is_ascii_digit())) {
                m.insert(format!("n{}", letters(k)), spread(v));
            }
        }
        Value::Array(a) => {
            for (i, item) in a.iter().enumerate() {
                m.insert(format!("n{}", letters(&i.to_string())), spread(item));
                m.insert(format!("h{}", letters(&i.to_string())), Value::Bool(true));
            }
        }
        _ => {}
    }
    Value::Object(m)
}

fn expr_of(e: &Expr, env: &Env) -> Expr {
    Expr {
        path: path_of(resolve(e, env)),
        pipe: e.pipe.clone(),
    }
}

fn spans_of(spans: &[Span], env: &Env) -> Vec<Span> {
    spans
        .iter()
        .map(|s| match s {
            Span::Lit(s) => Span::Lit(s.clone()),
            Span::Bind(e) => Span::Bind(expr_of(e, env)),
        })
        .collect()
}

/// An element without the features, in a scope.
fn expand(doc: &Doc, e: &El, env: &Env, count: &mut Count) -> El {
    let mut attrs = vec![];
    for attr in &e.attrs {
        match attr {
            Attr::Static(..) => attrs.push(attr.clone()),
            Attr::Dyn(k, spans) => attrs.push(Attr::Dyn(k.clone(), spans_of(spans, env))),
            Attr::Tag(k, e) => attrs.push(Attr::Tag(k.clone(), expr_of(e, env))),
            Attr::Vis(v, e) => attrs.push(Attr::Vis(*v, expr_of(e, env))),
            Attr::On(k, args) => {
                let args = args
                    .iter()
                    .map(|a| match a {
                        Arg::Bind(e) => Arg::Bind(expr_of(e, env)),
                        a => a.clone(),
                    })
                    .collect();
                attrs.push(Attr::On(k.clone(), args));
            }
            Attr::Alias(..) | Attr::Repeat(..) => {}
        }
    }
    let mut kids = vec![];
    for kid in &e.kids {
        let kid = match kid {
            Node::Text(spans) => {
                kids.push(Node::Text(spans_of(spans, env)));
                continue;
            }
            Node::El(kid) => {
                count.links += (kid.tag == "link") as u64;
                doc.expand(kid)
            }
        };
        let mut env = env.clone();
        for attr in &kid.attrs {
            if let Attr::Alias(name, e) = attr {
                count.aliases += 1;
                let path = resolve(e, &env);
                env.insert(name.clone(), path);
            }
        }
        let repeat = kid.attrs.iter().find_map(|a| match a {
            Attr::Repeat(k, n, e) => Some((k, *n, e)),
            _ => None,
        });
        let Some((name, max, e)) = repeat else {
            kids.push(Node::El(expand(doc, &kid, &env, count)));
            continue;
        };
        count.repeats += 1;
        let array = resolve(e, &env);
        for n in 0..max {
            let mut item = array.clone();
            item.push(n.to_string());
            let mut present = path_of(item.clone());
            present.pop();
            let slot = present.len() - 1;
            present[slot].replace_range(..1, "h");
            let mut env = env.clone();
            env.insert(name.clone(), item);
            let mut copy = expand(doc, &kid, &env, count);
            copy.attrs.push(Attr::Vis(
                true,
                Expr {
                    path: present,
                    pipe: vec![],
                },
            ));
            kids.push(Node::El(copy));
        }
    }
    El {
        tag: e.tag.clone(),
        attrs,
        kids,
    }
}

impl Property for C17 {
    const ID: &'static str = "C17";
    const RULE: &'static str = "A random page with links to templates, aliases, repeats (nested, within each other, hiding names), generated rules with states, animations and transitions, and listeners with arguments, goes through 1-8 values with events. A second view shows the expansion by hand: bodies of templates in place of links, paths in place of aliases, and one conditional element per item of a repeat over a copy of the data in which arrays are objects. After every update both views have equal snapshots (tree, texts, attributes, styles, layout, positions), messages, captured flag and pointer image. Non-trivial: a link, alias or repeat, and two different snapshots.";
    const CASES: (u64, u64) = (40_000, 600_000);
    type Case = Case;

    fn gen(g: &mut Gen) -> Case {
        let mut page = gen_page(g, &CFG);
        let mut sheet = if g.bool() { gen_sheet(g, 4, true) } else { vec![] };
        let frames = if g.chance(1, 3) { gen_motion(g, &mut sheet) } else { vec![] };
        for step in &mut page.steps {
            step.ms = g.int(0, 12) as u64 * 50;
        }
        Case { page, sheet, frames }
    }

    fn check(case: &Case, st: &mut Stats) -> Check {
        let doc = &case.page.doc;
        let mut count = Count::default();
        let written = Doc {
            templates: vec![],
            body: expand(doc, &doc.body, &Env::new(), &mut count),
        };
        let (short, long) = (doc.html(), written.html());
        let css = format!("{}\n{}", case.page.css.join("\n"), print_motion(&case.sheet, &case.frames));
        let mut a = bx::view(&short, &css)?;
        let mut b = bx::view(&long, &css)?;
        let mut boxes = vec![];
        let mut different = false;
        let mut previous: Option<bx::Snap> = None;
        for (i, step) in case.page.steps.iter().enumerate() {
            let explain = |d: String| -> Check {
                Err(format!("update {i}: {d}\nvalue: {}\nhtml: {short}\nexpansion: {long}\ncss: {css}", step.value))
            };
            let events: Vec<InputEvent> = step.events.iter().map(|e| e.event(&boxes)).collect();
            let x = bx::update(&mut a, bx::input(step.ms, events.clone()), &step.value)?;
            let mut value = step.value.clone();
            if let Value::Object(m) = &mut value {
                m.insert("x".into(), spread(&step.value));
            }
            let y = bx::update(&mut b, bx::input(step.ms, events.clone()), &value)?;
            let (p, q) = (bx::snap(&a.body()), bx::snap(&b.body()));
            if let Some(d) = p.diff(&q, "") {
                return explain(d);
            }
            if x.messages != y.messages {
                return explain(format!("messages {:?} vs {:?}, events {events:?}", x.messages, y.messages));
            }
            if x.is_input_captured != y.is_input_captured || x.pointer != y.pointer {
                return explain(format!("captured {} vs {}, pointer {:?} vs {:?}", x.is_input_captured, y.is_input_captured, x.pointer, y.pointer));
            }
            st.label_n("messages", x.messages.len() as u64);
            let mut elements = vec![];
            bx::walk(a.body(), &mut elements);
            boxes = elements.iter().map(|e| (e.position, e.size)).collect();
            if let Some(previous) = &previous {
                different = different || previous.diff(&p, "").is_some();
            }
            previous = Some(p);
        }
        st.label_n("links", count.links);
        st.label_n("aliases", count.aliases);
        st.label_n("repeats", count.repeats);
        if count.links + count.aliases + count.repeats > 0 && different {
            st.nontrivial();
        }
        Ok(())
    }
}
