//! C23: documents which are cut off or damaged, and links without a template, are refused.

use crate::bx;
use crate::doc::*;
use crate::engine::*;
use crate::sel::*;
use bumaga::ViewError;
use serde::{Deserialize, Serialize};
use serde_json::Value;

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Fault {
    /// the text of the document ends here (in thousandths)
    CutHtml(usize),
    CutCss(usize),
    /// something broken inside of the n-th element
    Broken(usize, String),
    /// something after the end of the document
    After(String),
    /// a link to a template which does not exist, inside of the n-th element
    Missing(usize, String, u8),
    /// a link inside of the n-th element to a template which contains itself through others
    Recursive(usize, usize, u8),
    /// a brace or colon of the n-th rule
    Rule(usize, u8),
    /// between the rules, before the n-th
    Between(usize, String),
}

#[derive(Serialize, Deserialize)]
pub struct Case {
    pub doc: Doc,
    pub sheet: Vec<RuleSet>,
    pub frames: Vec<Keyframes>,
    pub value: Value,
    pub fault: Fault,
}

pub struct C23;

const BROKEN: [&str; 22] = [
    "<div>", "</div>", "<<", ">", "<=", "<b>{a</b>", "<b>{}</b>", "<b>{a.}</b>", "<b>{.a}</b>", "<b>{a|}</b>", "<b>{a b}</b>", "<b>{a|up:}</b>",
    "<p></p></p>", "<b @title=\"{a\"></b>", "<b ?=\"a\"></b>", "<b *x=\"3 items\"></b>", "<b +x=\"items\"></b>", "<b #x=\"a\"></b>",
    "<b ?=\"{}\"></b>", "<b @class=\"{a} {\"></b>", "<b =></b>", "<b><i></b>",
];

/// The first of them are harmless.
const AFTER: [&str; 18] = [
    "<p></p>", "text", "<!-- </div> -->", "\n\n", "<br>", "<p>{a}</p>", "</div>", "</html>", "\n</body>", "<", ">", "{", "{a", "\n<div>", "<p>", "<p", "text > text", "<!-- x --",
];

/// Elements that may have children, in the order of the document, and whether they are rendered.
fn hosts(doc: &Doc) -> Vec<(usize, bool)> {
    fn visit(e: &El, rendered: bool, out: &mut Vec<bool>) {
        let rendered = rendered && !e.attrs.iter().any(|a| matches!(a, Attr::Repeat(_, 0, _)));
        if VOID.contains(&e.tag.as_str()) || e.tag == "link" {
            return;
        }
        out.push(rendered);
        for kid in &e.kids {
            if let Node::El(kid) = kid {
                visit(kid, rendered, out);
            }
        }
    }
    fn links(e: &El, out: &mut Vec<String>) {
        if e.attrs.iter().any(|a| matches!(a, Attr::Repeat(_, 0, _))) {
            return;
        }
        if let (true, Some(href)) = (e.tag == "link", e.stat("href")) {
            out.push(href.trim_start_matches('#').to_string());
        }
        for kid in &e.kids {
            if let Node::El(kid) = kid {
                links(kid, out);
            }
        }
    }
    let mut used = vec![];
    links(&doc.body, &mut used);
    let mut at = 0;
    while at < used.len() {
        for (id, t) in &doc.templates {
            if *id == used[at] {
                let mut more = vec![];
                links(t, &mut more);
                more.retain(|id| !used.contains(id));
                used.extend(more);
            }
        }
        at += 1;
    }
    let mut out = vec![];
    for (id, t) in &doc.templates {
        // of templates with the same id the last one is used
        visit(t, used.contains(id), &mut out);
    }
    visit(&doc.body, true, &mut out);
    out.into_iter().enumerate().collect()
}

fn host<'a>(doc: &'a mut Doc, n: usize) -> &'a mut El {
    fn visit<'a>(e: &'a mut El, n: &mut usize) -> Option<&'a mut El> {
        if VOID.contains(&e.tag.as_str()) || e.tag == "link" {
            return None;
        }
        if *n == 0 {
            return Some(e);
        }
        *n -= 1;
        for kid in &mut e.kids {
            if let Node::El(kid) = kid {
                if let Some(found) = visit(kid, n) {
                    return Some(found);
                }
            }
        }
        None
    }
    let mut n = n;
    for (_, t) in &mut doc.templates {
        if let Some(found) = visit(t, &mut n) {
            return found;
        }
    }
    visit(&mut doc.body, &mut n).expect("an element")
}

/// A link with this address, and with other bindings of the link.
fn link(href: &str, how: u8) -> Node {
    let expr = |key: &str| Expr {
        path: vec![key.to_string()],
        pipe: vec![],
    };
    let mut attrs = vec![st("href", href)];
    match how {
        1 => attrs.push(Attr::Vis(true, expr("optional"))),
        2 => attrs.insert(0, Attr::Vis(false, expr("optional"))),
        3 => attrs.push(Attr::Repeat("entry".into(), 2, expr("entries"))),
        4 => attrs.push(Attr::Alias("entry".into(), expr("optional"))),
        5 => attrs.insert(0, st("class", "a")),
        6 => attrs.push(Attr::On("onclick".into(), vec![])),
        _ => {}
    }
    Node::El(el("link", attrs, vec![]))
}

const MARK: &str = "@@FAULT@@";

/// Whether the stylesheet which ends at `end` ends inside of a rule.
fn inside_rule(css: &str, end: usize) -> bool {
    let text = css[..end].as_bytes();
    let (mut depth, mut i, mut pending, mut quoted) = (0, 0, false, false);
    while i < text.len() {
        if quoted {
            quoted = text[i] != b'"';
        } else {
            match text[i] {
                b'"' => quoted = true,
                b'{' => depth += 1,
                b'}' => {
                    depth -= 1;
                    pending = false;
                    i += 1;
                    continue;
                }
                _ => {}
            }
            if !text[i].is_ascii_whitespace() {
                pending = true;
            }
        }
        i += 1;
    }
    depth > 0 || pending
}

fn cut(text: &str, part: usize) -> usize {
    let mut end = text.len() * part / 1000;
    while !text.is_char_boundary(end) {
        end -= 1;
    }
    end
}

impl Property for C23 {
    const ID: &'static str = "C23";
    const RULE: &'static str = "A random document with templates, stylesheet and keyframes which is accepted is given with one fault: the text of document or stylesheet ends too early, tags are unbalanced, a bare < or >, a binding which is not closed or has no name, a plain text where a binding must be written, something like that after the end of the document, a link (with other bindings of the link) to a template which is not defined or to almost the name of one, a link to a template which contains itself directly or through one or two others, a missing or additional brace or a missing colon in the stylesheet. Creating the view then gives an error of this kind (Html, Css, TemplateNotFound and TemplateRecursion with the link), whatever surrounds the fault; a bad link in a template that nothing uses, and a stylesheet which ends between rules are accepted, and the document without the fault is accepted and can be updated. Non-trivial: the fault must be refused.";
    const CASES: (u64, u64) = (120_000, 1_500_000);
    type Case = Case;

    fn gen(g: &mut Gen) -> Case {
        let cfg = DocCfg {
            depth: 3,
            events: true,
            ..DocCfg::default()
        };
        let mut doc = DocGen::new(cfg).doc(g);
        dress(g, &mut doc.body, false);
        let value = gen_value(g, &doc.shape(), true);
        let mut sheet = gen_sheet(g, 5, true);
        let frames = if g.chance(1, 3) { gen_motion(g, &mut sheet) } else { vec![] };
        let count = hosts(&doc).len();
        let fault = match g.below(8) {
            7 => Fault::After(g.pick_s(&AFTER)),
            0 => Fault::Broken(g.below(count), g.pick_s(&BROKEN)),
            1 => {
                let mut hrefs: Vec<String> = ["#nope", "#x-2", "#T", "#t", "t", "", "#", "##t"].iter().map(|s| s.to_string()).collect();
                for (id, _) in &doc.templates {
                    // almost the address of a template
                    hrefs.extend([id.clone(), format!("##{id}"), format!("#{id}-"), format!("#-{id}"), format!("# {id}"), format!("#{id} "), format!("#{}", id.to_uppercase())]);
                }
                let href = hrefs[g.below(hrefs.len())].clone();
                Fault::Missing(g.below(count), href, g.below(7) as u8)
            }
            2 => Fault::Recursive(g.below(count), g.len(1, 3), g.below(7) as u8),
            3 => Fault::CutHtml(g.below(1000)),
            4 => Fault::CutCss(g.below(1000)),
            5 => Fault::Rule(g.below(8), g.below(4) as u8),
            _ => Fault::Between(g.below(8), g.pick_s(&["}", "{", ".a", "{}", "@keyframes", "@keyframes x", ";", "\"", "/*", "color: red;", "a { b }", "a { b: ; }", "a { : c; }", "a { { } }"])),
        };
        Case { doc, sheet, frames, value, fault }
    }

    fn check(case: &Case, st: &mut Stats) -> Check {
        let html = case.doc.html();
        let css = print_motion(&case.sheet, &case.frames);
        let mut view = bx::view(&html, &css)?;
        bx::update(&mut view, bx::input(0, vec![]), &case.value)?;
        let mut bad_html = html.clone();
        let mut bad_css = css.clone();
        // what kind of error is expected
        let mut expected = None;
        let mut doc = Doc {
            templates: case.doc.templates.clone(),
            body: case.doc.body.clone(),
        };
        let count = hosts(&doc).len();
        let mut put = |doc: &mut Doc, n: usize, node: Node| -> bool {
            let n = n % count;
            let rendered = hosts(doc)[n].1;
            let e = host(doc, n);
            let at = (n * 7) % (e.kids.len() + 1);
            e.kids.insert(at, node);
            rendered
        };
        match &case.fault {
            Fault::CutHtml(part) => {
                bad_html.truncate(cut(&html, *part));
                expected = Some("Html");
            }
            Fault::CutCss(part) => {
                bad_css.truncate(cut(&css, *part));
                if inside_rule(&css, bad_css.len()) {
                    expected = Some("Css");
                }
            }
            Fault::Broken(n, text) => {
                put(&mut doc, *n, Node::Text(vec![Span::Lit(MARK.into())]));
                bad_html = doc.html().replacen(MARK, text, 1);
                expected = Some("Html");
            }
            Fault::After(text) => {
                bad_html.push_str(text);
                if AFTER[6..].contains(&text.as_str()) {
                    expected = Some("Html");
                }
            }
            Fault::Missing(n, href, how) => {
                doc.templates.retain(|(other, _)| format!("#{other}") != *href);
                // removing a template changes the order of elements and what is used
                let uses = doc.html().contains(&format!("\"{href}\""));
                let count = hosts(&doc).len();
                let rendered = put(&mut doc, n % count, link(href, *how));
                bad_html = doc.html();
                if rendered || uses {
                    expected = Some("TemplateNotFound");
                }
                if uses && !rendered {
                    // it depends on whether the other use is rendered
                    return Ok(());
                }
            }
            Fault::Recursive(n, length, how) => {
                let rendered = put(&mut doc, *n, link("#rec-0", how / 2));
                for i in 0..*length {
                    let next = link(&format!("#rec-{}", (i + 1) % length), if i == 0 { *how } else { 0 });
                    let inner = el("div", vec![], vec![Node::Text(vec![Span::Lit("x".into())]), next]);
                    doc.templates.push((format!("rec-{i}"), inner));
                }
                bad_html = doc.html();
                if rendered {
                    expected = Some("TemplateRecursion");
                }
            }
            Fault::Rule(n, kind) => {
                if case.sheet.is_empty() {
                    return Ok(());
                }
                let n = n % case.sheet.len();
                let before: String = case.frames.iter().map(|f| f.print() + "\n").collect::<String>() + &print_sheet(&case.sheet[..n]);
                let rule = &case.sheet[n];
                let selectors = print_selectors(&rule.sel);
                let decls = crate::sty::print_decls(&rule.decls);
                let damaged = match kind {
                    0 => format!("{selectors} {decls} }}"),
                    1 => format!("{selectors} {{ {decls}"),
                    2 => format!("{selectors} {{ {} }}", decls.replacen(':', " ", 1)),
                    _ => format!("{selectors} {{ {decls} }} }}"),
                };
                bad_css = format!("{before}\n{damaged}\n{}", print_sheet(&case.sheet[n + 1..]));
                expected = Some("Css");
            }
            Fault::Between(n, text) => {
                let n = n % (case.sheet.len() + 1);
                let frames: String = case.frames.iter().map(|f| f.print() + "\n").collect();
                let (a, b) = case.sheet.split_at(n);
                bad_css = format!("{frames}{}\n{text}\n{}", print_sheet(a), print_sheet(b));
                expected = Some("Css");
                if text == ".a" && n < case.sheet.len() || text == "{}" || text == "/*" && bad_css.rsplit("/*").next().unwrap().contains("*/") {
                    // a part of the next selector, a rule without selectors, a comment up to the next one
                    return Ok(());
                }
            }
        }
        let result = bx::try_view(&bad_html, &bad_css);
        let got = match &result {
            Ok(_) => None,
            Err(ViewError::Html(_)) => Some("Html".to_string()),
            Err(ViewError::Css(_)) => Some("Css".to_string()),
            Err(ViewError::TemplateNotFound(id)) => {
                if !matches!(&case.fault, Fault::Missing(_, missing, _) if id == missing) {
                    return Err(format!("template {id:?} reported as missing\nhtml: {bad_html}"));
                }
                Some("TemplateNotFound".into())
            }
            Err(ViewError::TemplateRecursion(id)) => {
                if !id.starts_with("#rec-") {
                    return Err(format!("template {id:?} reported as recursive\nhtml: {bad_html}"));
                }
                Some("TemplateRecursion".into())
            }
            Err(e) => Some(format!("{e:?}")),
        };
        if got.as_deref() != expected {
            let told = |o: Option<&str>| o.map(|k| format!("error {k}")).unwrap_or("no error".into());
            return Err(format!("{} instead of {}\nhtml: {bad_html}\ncss: {bad_css}", told(got.as_deref()), told(expected)));
        }
        match &case.fault {
            Fault::CutHtml(_) => st.label("cut html"),
            Fault::CutCss(_) => st.label("cut css"),
            Fault::Broken(..) => st.label("broken html"),
            Fault::After(..) => st.label("something after the document"),
            Fault::Missing(..) => st.label("missing template"),
            Fault::Recursive(..) => st.label("recursive template"),
            Fault::Rule(..) | Fault::Between(..) => st.label("broken css"),
        }
        if expected.is_some() {
            st.nontrivial();
        } else {
            st.label("accepted");
        }
        Ok(())
    }
}
