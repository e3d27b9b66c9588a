//! C03: which rules apply to which elements, and which of them wins.

use crate::bx;
use crate::doc::*;
use crate::engine::*;
use crate::sel::*;
use crate::sty::{self, Decl};
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::BTreeMap;

#[derive(Serialize, Deserialize)]
pub struct Case {
    pub doc: Doc,
    pub rules: Vec<(Vec<Complex>, Vec<Decl>)>,
    pub values: Vec<Value>,
}

pub const PROBES: [&str; 5] = ["width", "height", "flex-basis", "top", "min-width"];

pub struct C03;

/// More classes and some inline styles.
fn add_styles(g: &mut Gen, e: &mut El, next: &mut i64) {
    if g.chance(1, 8) {
        let probes = g.subset(&PROBES, 1, 2);
        if !probes.is_empty() {
            let text: Vec<String> = probes
                .iter()
                .map(|p| {
                    *next += 1;
                    sty::decl(p, sty::px(*next as f32)).print()
                })
                .collect();
            e.attrs.push(Attr::Static("style".into(), text.join(" ")));
        }
    }
    let classed = e.attrs.iter().any(|a| match a {
        Attr::Static(k, _) | Attr::Dyn(k, _) | Attr::Tag(k, _) => k == "class",
        _ => false,
    });
    if !classed && g.chance(2, 3) {
        let mut classes = vec![];
        while g.more(classes.len(), 1, 3, 1, 2) {
            classes.push(g.pick_s(&CLASSES));
        }
        let attr = if g.chance(1, 3) {
            let path = vec![g.pick_s(&["a", "b", "c", "name"])];
            let e = Expr { path, pipe: vec![] };
            let mut spans = vec![Span::Bind(e)];
            if g.bool() {
                spans.insert(0, Span::Lit(format!("{} ", classes.join(" "))));
            }
            Attr::Dyn("class".into(), spans)
        } else {
            Attr::Static("class".into(), classes.join(" "))
        };
        e.attrs.push(attr);
    }
    for kid in &mut e.kids {
        if let Node::El(kid) = kid {
            if kid.tag != "link" {
                add_styles(g, kid, next);
            }
        }
    }
}

/// Inline declarations of the probes as this check prints them.
fn inline(style: &str) -> BTreeMap<String, f32> {
    let mut out = BTreeMap::new();
    for d in style.split(';') {
        if let Some((k, v)) = d.trim().split_once(':') {
            out.insert(k.to_string(), v.trim().trim_end_matches("px").parse().unwrap());
        }
    }
    out
}

fn observed(name: &str, f: &bumaga::Fragment) -> String {
    sty::observe(name, 0, f.element, f.tree.style(f.element.node).unwrap())
}

impl Property for C03 {
    const ID: &'static str = "C03";
    const RULE: &'static str = "A random document (static and bound classes, ids and attributes, visibility, repeats, templates, inline styles), 1-8 rules with generated selector lists (types, ids, classes, attribute operators, pseudo-classes that do not hold, child and next-sibling combinators) that set probe properties to values no two declarations share, and a history of 1-4 values. After every update every displayed element shows, for every probe, the value of the last rule whose selector a reference matcher finds matching the displayed tree (inline style last), or the default. Non-trivial: at least one rule with a combinator or a bound attribute matches an element, and at least one probe was decided between two matching declarations.";
    const CASES: (u64, u64) = (180_000, 2_000_000);
    type Case = Case;

    fn gen(g: &mut Gen) -> Case {
        let cfg = DocCfg {
            depth: 3,
            kids: 3,
            text: true,
            ..DocCfg::default()
        };
        let mut doc = DocGen::new(cfg).doc(g);
        let mut next = 1000;
        add_styles(g, &mut doc.body, &mut next);
        let shape = doc.shape();
        let mut n = 0i64;
        let mut rules = vec![];
        while g.more(rules.len(), 1, 8, 5, 6) {
            let selectors = gen_selectors(g, true);
            let mut decls = vec![];
            for p in PROBES {
                if g.chance(2, 5) {
                    n += 1;
                    decls.push(sty::decl(p, sty::px(n as f32)));
                }
            }
            if decls.is_empty() {
                n += 1;
                decls.push(sty::decl("width", sty::px(n as f32)));
            }
            rules.push((selectors, decls));
        }
        let mut values = vec![gen_value(g, &shape, false)];
        while g.more(values.len(), 1, 4, 3, 4) {
            let last = values.last().unwrap().clone();
            values.push(mutate(g, &last, &shape, false));
        }
        Case { doc, rules, values }
    }

    fn check(case: &Case, st: &mut Stats) -> Check {
        let html = case.doc.html();
        let css: Vec<String> = case
            .rules
            .iter()
            .map(|(s, d)| format!("{} {{ {} }}", print_selectors(s), sty::print_decls(d)))
            .collect();
        let css = css.join("\n");
        let mut view = bx::view(&html, &css)?;
        let mut special = false;
        let mut decided = false;
        for (i, value) in case.values.iter().enumerate() {
            let events = vec![bumaga::InputEvent::MouseMove([-1e6, -1e6])];
            bx::update(&mut view, bx::input(0, events), value)?;
            let body = view.body();
            let snap = bx::snap(&body);
            let flat = flatten(&snap);
            // the same order as `flatten`
            let mut elements = vec![];
            collect(body, &mut elements);
            for (n, f) in elements.iter().enumerate() {
                let n = n + 1;
                let e = &flat[n];
                let mut expected: BTreeMap<&str, (f32, String)> = BTreeMap::new();
                let mut dynamic = BTreeMap::new();
                for (r, (selectors, decls)) in case.rules.iter().enumerate() {
                    if matches_any(selectors, &flat, n) {
                        st.label("rule matches");
                        if selectors.iter().any(|s| !s.rest.is_empty()) {
                            st.label("matches with combinator in list");
                            special = true;
                        }
                        for d in decls {
                            let v = match &d.values[0][0] {
                                sty::Val::Dim(v, _) => *v,
                                _ => unreachable!(),
                            };
                            let name = *PROBES.iter().find(|p| **p == d.name).unwrap();
                            if expected.insert(name, (v, format!("rule {r}"))).is_some() {
                                decided = true;
                            }
                            dynamic.insert(name, v);
                        }
                    }
                }
                if let Some(style) = e.attrs.get("style") {
                    for (k, v) in inline(style) {
                        let name = *PROBES.iter().find(|p| **p == k).unwrap();
                        if expected.insert(name, (v, "inline style".into())).is_some() {
                            decided = true;
                        }
                    }
                }
                for p in PROBES {
                    let got = observed(p, f);
                    let (want, by) = match expected.get(p) {
                        Some((v, by)) => (sty::f(*v), by.clone()),
                        None => (sty::default_of(p), "default".to_string()),
                    };
                    if got != want {
                        return Err(format!(
                            "after value {i}: {} {p} is {got}, expected {want} of {by}; attributes {:?}\nvalue: {value}\nhtml: {html}\ncss:\n{css}",
                            e.path, e.attrs
                        ));
                    }
                }
            }
        }
        if html.contains("@class") || html.contains("@id") || html.contains("@data-k") {
            special = true;
        }
        if special && decided {
            st.nontrivial();
        }
        Ok(())
    }
}

pub fn collect<'a>(f: bumaga::Fragment<'a>, out: &mut Vec<bumaga::Fragment<'a>>) {
    out.push(f);
    if f.element.tag == "img" {
        return;
    }
    for node in f.tree.children(f.element.node).unwrap() {
        let element = f.tree.get_node_context(node).unwrap();
        if element.text.is_none() {
            collect(
                bumaga::Fragment {
                    element,
                    tree: f.tree,
                },
                out,
            );
        }
    }
}
