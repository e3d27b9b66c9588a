//! C01: after every update the displayed tree is the template evaluated on the value just given.

use crate::bx;
use crate::doc::*;
use crate::engine::*;
use serde::{Deserialize, Serialize};
use serde_json::Value;

#[derive(Serialize, Deserialize)]
pub struct Case {
    pub doc: Doc,
    pub values: Vec<Value>,
}

pub struct C01;

impl Property for C01 {
    const ID: &'static str = "C01";
    const RULE: &'static str = "A random template (nested elements, text and attribute bindings, presence bindings, visibility, repeats, aliases, linked templates, pipes) and a history of 1-6 values fitting or not fitting its shape (missing, null, other types, shrinking and growing lists); after every update the whole displayed tree (tags, text, attributes, order) equals the reference evaluation of the template on the last value. Non-trivial: at least two different values, at least 3 displayed nodes, and the displayed tree changes at least once.";
    const CASES: (u64, u64) = (200_000, 3_000_000);
    type Case = Case;

    fn gen(g: &mut Gen) -> Case {
        let cfg = DocCfg::default();
        let doc = DocGen::new(cfg).doc(g);
        let shape = doc.shape();
        let odd = g.chance(1, 2);
        let mut values = vec![gen_value(g, &shape, odd)];
        while g.more(values.len(), 1, 6, 4, 5) {
            let last = values.last().unwrap().clone();
            values.push(mutate(g, &last, &shape, odd));
        }
        Case { doc, values }
    }

    fn check(case: &Case, st: &mut Stats) -> Check {
        let html = case.doc.html();
        let mut view = bx::view(&html, "")?;
        let mut previous: Option<REl> = None;
        let mut changes = 0;
        let mut most = 0;
        for (i, value) in case.values.iter().enumerate() {
            bx::update(&mut view, bx::input(0, vec![]), value)?;
            let expected = case.doc.eval(value);
            let body = view.body();
            let got = bx::snap(&body);
            most = most.max(got.count());
            if let Some(d) = expected.diff(&got, "") {
                return Err(format!("after value {i}: {d}\nvalue: {value}\nhtml: {html}"));
            }
            if let Some(p) = &previous {
                if *p != expected {
                    changes += 1;
                }
            }
            previous = Some(expected);
        }
        st.label_n("updates", case.values.len() as u64);
        if !case.doc.templates.is_empty() {
            st.label("with templates");
        }
        if html.contains(" *") {
            st.label("with repeat");
        }
        if html.contains(" ?=") || html.contains(" !=") {
            st.label("with visibility");
        }
        if changes > 0 && most >= 3 {
            st.nontrivial();
        }
        Ok(())
    }
}
