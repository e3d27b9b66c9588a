//! C18: elements are found by the id they have now.

use crate::bx;
use crate::doc::*;
use crate::engine::*;
use bumaga::Element;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::{BTreeMap, BTreeSet};
use taffy::{NodeId, TaffyTree};

#[derive(Serialize, Deserialize)]
pub struct Case {
    pub doc: Doc,
    pub values: Vec<Value>,
}

pub struct C18;

const IDS: [&str; 6] = ["a", "b", "v1", "i1", "x-1", "1"];

/// Gives ids to elements which have none: static ones and bound ones.
fn identify(g: &mut Gen, e: &mut El, scope: &Scope) {
    let outer = scope;
    let mut scope = scope.clone();
    for a in &e.attrs {
        match a {
            Attr::Alias(name, _) | Attr::Repeat(name, _, _) => {
                // what they stand for is not looked at: only leaves of it are used
                scope.locals.retain(|(n, _)| n != name);
                scope.locals.push((name.clone(), Kind::Leaf));
            }
            _ => {}
        }
    }
    let has = e.attrs.iter().any(|a| matches!(a, Attr::Static(k, _) | Attr::Dyn(k, _) | Attr::Tag(k, _) if k == "id"));
    if !has && e.tag != "link" && g.chance(1, 2) {
        if g.chance(1, 3) {
            e.attrs.push(st("id", *g.pick(&IDS)));
        } else if g.chance(1, 8) {
            // the id is its name, while the value is true
            let path = vec![g.pick_s(&["a", "b", "c", "name"])];
            if !scope.locals.iter().any(|(n, _)| *n == path[0]) {
                e.attrs.push(Attr::Tag("id".into(), Expr { path, pipe: vec![] }));
            }
        } else {
            let own: Vec<String> = e
                .attrs
                .iter()
                .filter_map(|a| match a {
                    Attr::Repeat(n, _, _) | Attr::Alias(n, _) => Some(n.clone()),
                    _ => None,
                })
                .collect();
            let path = if !own.is_empty() && g.chance(2, 3) {
                vec![own[0].clone(), g.pick_s(&["a", "b", "x"])]
            } else {
                vec![g.pick_s(&["a", "b", "c", "name"])]
            };
            let shadowed = path.len() == 1 && scope.locals.iter().any(|(n, _)| *n == path[0]);
            // the kind of a local must stay what it is: objects only
            let object = path.len() == 1
                || e.attrs.iter().any(|a| match a {
                    Attr::Repeat(_, _, x) | Attr::Alias(_, x) if outer.locals.iter().any(|(n, _)| *n == x.path[0]) => false,
                    Attr::Repeat(n, _, x) => *n == path[0] && ["items", "rows"].contains(&x.path.last().unwrap().as_str()),
                    Attr::Alias(n, x) => *n == path[0] && ["o", "p", "sub"].contains(&x.path.last().unwrap().as_str()),
                    _ => false,
                });
            if !shadowed && object {
                let mut spans = vec![];
                if g.chance(1, 4) {
                    spans.push(Span::Lit("i".into()));
                }
                spans.push(Span::Bind(Expr { path, pipe: vec![] }));
                if g.chance(1, 6) {
                    spans.push(Span::Bind(Expr {
                        path: vec![if scope.locals.iter().any(|(n, _)| n == "c") { return } else { "c".into() }],
                        pipe: vec![],
                    }));
                }
                e.attrs.push(Attr::Dyn("id".into(), spans));
            }
        }
    }
    for kid in &mut e.kids {
        if let Node::El(kid) = kid {
            identify(g, kid, &scope);
        }
    }
}

/// All elements, hidden ones too.
fn all<'a>(tree: &'a TaffyTree<Element>, node: NodeId, out: &mut Vec<&'a Element>) {
    let e = tree.get_node_context(node).unwrap();
    out.push(e);
    let kids: Vec<NodeId> = if e.children.is_empty() {
        tree.children(node).unwrap()
    } else {
        e.children.clone()
    };
    for kid in kids {
        all(tree, kid, out);
    }
}

fn ids_of(e: &REl, out: &mut BTreeMap<String, usize>) {
    if let Some(id) = e.attrs.get("id") {
        *out.entry(id.clone()).or_default() += 1;
    }
    for k in &e.kids {
        if let RNode::El(k) = k {
            ids_of(k, out);
        }
    }
}

impl Property for C18 {
    const ID: &'static str = "C18";
    const RULE: &'static str = "Random templates (as for C01, but half of the elements have static, bound or composed ids, unique or not, in repeats, conditions and templates) and histories of 1-7 values from a small vocabulary, so that ids are exchanged, shared, given up and taken again. After every update, for every id of any element, of the reference evaluation and of the vocabulary: the lookup gives an element whose id attribute has this value, if there is one, and nothing otherwise; an id of the reference tree is found. Non-trivial: an id moves from one element to another or disappears, and at least two elements have ids.";
    const CASES: (u64, u64) = (50_000, 1_500_000);
    type Case = Case;

    fn gen(g: &mut Gen) -> Case {
        let cfg = DocCfg {
            text: false,
            img: false,
            ..DocCfg::default()
        };
        let mut doc = DocGen::new(cfg).doc(g);
        let mut body = doc.body.clone();
        identify(g, &mut body, &Scope::default());
        doc.body = body;
        let shape = doc.shape();
        let odd = g.chance(1, 4);
        let mut values = vec![gen_value(g, &shape, odd)];
        while g.more(values.len(), 1, 7, 6, 7) {
            let last = values.last().unwrap().clone();
            values.push(mutate(g, &last, &shape, odd));
        }
        Case { doc, values }
    }

    fn check(case: &Case, st: &mut Stats) -> Check {
        let html = case.doc.html();
        let mut view = bx::view(&html, "")?;
        let mut vocabulary: BTreeSet<String> = IDS.iter().map(|s| s.to_string()).collect();
        vocabulary.extend(["", "nope", "{a}", "[array]"].map(|s| s.to_string()));
        let mut before: BTreeMap<String, NodeId> = BTreeMap::new();
        let (mut moved, mut most) = (0, 0);
        for (i, value) in case.values.iter().enumerate() {
            bx::update(&mut view, bx::input(0, vec![]), value)?;
            let mut elements = vec![];
            let body = view.body();
            all(body.tree, body.node, &mut elements);
            let mut holders: BTreeMap<String, Vec<NodeId>> = BTreeMap::new();
            for e in &elements {
                // hidden items which were not bound to anything yet have the text of the binding
                if let Some(id) = e.attrs.get("id").filter(|id| !id.contains("{ ")) {
                    holders.entry(id.clone()).or_default().push(e.node);
                }
            }
            let mut shown = BTreeMap::new();
            ids_of(&case.doc.eval(value), &mut shown);
            vocabulary.extend(holders.keys().cloned());
            vocabulary.extend(shown.keys().cloned());
            let mut now = BTreeMap::new();
            for id in &vocabulary {
                let found = view.get_element_by_id(id);
                let context = || format!("after value {i}: id {id:?}\nholders: {holders:?}\nvalue: {value}\nprevious: {:?}\nhtml: {html}", case.values[..i].last().map(|v| v.to_string()));
                match (found, holders.get(id)) {
                    (None, None) => {}
                    (Some(e), _) if e.attrs.get("id") != Some(id) => {
                        return Err(format!("found <{}> with id {:?}; {}", e.tag, e.attrs.get("id"), context()));
                    }
                    (Some(e), Some(nodes)) if nodes.contains(&e.node) => {
                        now.insert(id.clone(), e.node);
                    }
                    (Some(e), _) => return Err(format!("found <{}> out of the document; {}", e.tag, context())),
                    (None, Some(_)) => return Err(format!("not found; {}", context())),
                }
                if shown.contains_key(id) && found.is_none() {
                    return Err(format!("displayed but not found; {}", context()));
                }
            }
            moved += before.iter().filter(|(id, node)| now.get(*id) != Some(node)).count();
            most = most.max(holders.values().map(|h| h.len()).sum());
            before = now;
        }
        st.label_n("ids moved or given up", moved as u64);
        if moved > 0 && most >= 2 {
            st.nontrivial();
        }
        Ok(())
    }
}
