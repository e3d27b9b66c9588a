//! C06: HTML is read as written, however it is formatted.

use crate::bx;
use crate::doc::*;
use crate::engine::*;
use bumaga::*;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::BTreeMap;

#[derive(Serialize, Deserialize)]
pub struct Case {
    /// what the source means
    pub doc: Doc,
    /// how it is written
    pub html: String,
    pub translate: bool,
    pub values: Vec<Value>,
}

pub struct C06;

struct Marks;

impl RendererTranslator for Marks {
    fn translate(&self, span: String) -> String {
        mark(&span)
    }
}

fn mark(span: &str) -> String {
    format!("«{}»", span.to_uppercase())
}

fn wordy(g: &mut Gen, e: &mut El) {
    for attr in &mut e.attrs {
        if let Attr::Static(k, v) = attr {
            if (k.starts_with("data") || k == "title" || k == "name") && g.chance(1, 3) {
                *v = g.pick_s(&[
                    "", " ", " a", "a ", "a  b", "a\n b", "<b>", "a>b", "it's", "<!-- c -->", "<!-- c -->a", "/", "a/b", "{a}", "a.b",
                    "x=1", "ж", "$event", "&lt;", "#x", "a,b;",
                ]);
            }
        }
    }
    for kid in &mut e.kids {
        match kid {
            Node::El(e) => wordy(g, e),
            Node::Text(spans) => {
                let mut out: Vec<Span> = vec![];
                for (i, span) in spans.iter().enumerate() {
                    match span {
                        Span::Lit(s) => {
                            let mut s = s.clone();
                            let long = g.chance(1, 4);
                            while g.chance(if long { 4 } else { 2 }, 6) {
                                s += if g.chance(1, 6) { "  " } else { " " };
                                s += &g.pick_s(&["word", "a", "-", "two words", "\"q\"", "!", "/", "=", "x}"]);
                            }
                            if i > 0 && g.chance(1, 2) {
                                s.insert(0, ' ');
                            }
                            if g.chance(1, 3) {
                                s.push(' ');
                            }
                            out.push(Span::Lit(s));
                        }
                        bind => {
                            if matches!(out.last(), Some(Span::Bind(_))) && g.chance(1, 2) {
                                out.push(Span::Lit(" ".into()));
                            }
                            out.push(bind.clone());
                        }
                    }
                }
                if matches!(out.last(), Some(Span::Bind(_))) && g.chance(1, 4) {
                    out.push(Span::Lit(" ".into()));
                }
                *spans = out;
            }
        }
    }
}

/// Handlers of elements.
fn listen(g: &mut Gen, e: &mut El) {
    if e.tag != "link" && g.chance(1, 5) {
        let name = g.pick_s(&["onclick", "oninput", "onmouseenter"]);
        let args = g.vec(1, 3, |g| match g.below(3) {
            0 => Arg::Key(g.pick_s(&["Set", "a", "x-1", "My_Message"])),
            1 => Arg::Event,
            _ => Arg::Bind(Expr {
                path: vec![g.pick_s(&["k", "m"]), "z".into()],
                pipe: if g.chance(1, 3) { vec!["up".into()] } else { vec![] },
            }),
        });
        e.attrs.push(Attr::On(name, args));
    }
    for kid in &mut e.kids {
        if let Node::El(kid) = kid {
            listen(g, kid);
        }
    }
}

// ---------------------------------------------------------------------------------------------
// writing a document in one of many ways

fn gap(g: &mut Gen) -> &'static str {
    *g.pick(&["", "", "", " ", "\n", "\t", "\r\n  "])
}

fn space(g: &mut Gen) -> &'static str {
    *g.pick(&[" ", " ", " ", "  ", "\n", "\n    ", "\t", "\r\n"])
}

fn comment(g: &mut Gen) -> &'static str {
    *g.pick(&[
        "<!-- comment -->",
        "<!---->",
        "<!-- <div class=\"a\"> -->",
        "<!-- </body> {a} -->",
        "<!-- - -- > -->",
        "<!-- \"\n' -->",
    ])
}

fn between(g: &mut Gen) -> String {
    let mut s = gap(g).to_string();
    while g.chance(1, 8) {
        s += comment(g);
        s += gap(g);
    }
    s
}

/// What may stand between parts of the page: scripts are not read.
fn aside(g: &mut Gen) -> String {
    let mut s = between(g);
    while g.chance(1, 6) {
        s += "<script>";
        for _ in 0..g.below(4) {
            s += g.pick(&[
                "let a = 1;", "if (a < b && {}) { c() }", "'</p>'", "</template>", "<template id=\"t0\"><b></b></template>", "</",
                "<!-- ", " -->", "\"", "<body>", "</body>", "</html>", "/* { */", "\n\n", "</scrip>", "{a.b}", "`${x}`", "ж",
            ]);
        }
        s += "</script>";
        s += &between(g);
    }
    s
}

fn expr(g: &mut Gen, e: &Expr) -> String {
    let mut s = format!("{{{}", gap(g));
    s += &e.path.join(&if g.chance(1, 8) { format!("{}.{}", gap(g), gap(g)) } else { ".".to_string() });
    for p in &e.pipe {
        s += &format!("{}|{}{p}", gap(g), gap(g));
    }
    s + gap(g) + "}"
}

fn attr(g: &mut Gen, a: &Attr) -> String {
    let eq = if g.chance(1, 6) { format!("{}={}", gap(g), gap(g)) } else { "=".into() };
    match a {
        Attr::Static(k, v) => {
            let plain = !v.is_empty() && !v.contains(|c: char| c.is_whitespace() || "\"'`=<>".contains(c));
            if v.is_empty() && g.chance(1, 2) {
                k.clone()
            } else if plain && g.chance(1, 3) {
                format!("{k}{eq}{v}")
            } else {
                format!("{k}{eq}\"{v}\"")
            }
        }
        Attr::Dyn(k, spans) => {
            let mut s = format!("@{k}{eq}\"");
            for span in spans {
                match span {
                    Span::Lit(l) => s += l,
                    Span::Bind(e) => s += &expr(g, e),
                }
            }
            s + "\""
        }
        Attr::Tag(k, e) => format!("#{k}{eq}\"{}{}{}\"", gap(g), expr(g, e), gap(g)),
        Attr::Alias(k, e) => format!("+{k}{eq}\"{}{}{}\"", gap(g), expr(g, e), gap(g)),
        Attr::Vis(v, e) => format!("{}{eq}\"{}{}{}\"", if *v { "?" } else { "!" }, gap(g), expr(g, e), gap(g)),
        Attr::Repeat(k, n, e) => format!("*{k}{eq}\"{}{n}{}{}{}\"", gap(g), gap(g), expr(g, e), gap(g)),
        Attr::On(k, args) => {
            let mut s = format!("^{k}{eq}\"{}", gap(g));
            for (i, a) in args.iter().enumerate() {
                if i > 0 {
                    s += space(g);
                }
                match a {
                    Arg::Key(k) => s += k,
                    Arg::Event => s += "$event",
                    Arg::Bind(e) => s += &expr(g, e),
                }
            }
            s + gap(g) + "\""
        }
    }
}

fn open(g: &mut Gen, tag: &str, attrs: &[Attr], out: &mut String) {
    out.push('<');
    out.push_str(tag);
    for a in attrs {
        out.push_str(space(g));
        out.push_str(&attr(g, a));
    }
}

fn text(g: &mut Gen, spans: &[Span], last: bool, out: &mut String) {
    let count = spans.len();
    let many = g.chance(1, 4);
    for (i, span) in spans.iter().enumerate() {
        match span {
            Span::Bind(e) => out.push_str(&expr(g, e)),
            Span::Lit(s) => {
                let chars: Vec<char> = s.chars().collect();
                for (p, c) in chars.iter().enumerate() {
                    // spaces before of a line break are kept
                    let alone = chars.get(p + 1) != Some(&' ');
                    let end = i + 1 == count && p + 1 == chars.len();
                    if *c == ' ' && alone && !(end && last) && g.chance(if many { 5 } else { 2 }, 6) {
                        out.push_str(g.pick(&["\n", "\n    ", "\r\n\t", "\n  \n  ", "\r\n\r\n"]));
                    } else {
                        out.push(*c);
                    }
                }
            }
        }
    }
    if last && g.chance(1, 3) {
        out.push_str(g.pick(&["\n", "\n    ", "\r\n", "\n  \n"]));
    }
}

fn write(g: &mut Gen, e: &El, out: &mut String) {
    open(g, &e.tag, &e.attrs, out);
    if VOID.contains(&e.tag.as_str()) || e.tag == "link" {
        // a slash after an unquoted value would be a part of it
        let quoted = out.ends_with('"');
        out.push_str(match g.below(4) {
            0 if quoted => "/>",
            1 if quoted => ">",
            2 => "\n>",
            _ => " />",
        });
        return;
    }
    if g.chance(1, 6) {
        out.push_str(space(g));
    }
    out.push('>');
    let count = e.kids.len();
    let mut after_text = false;
    for (i, kid) in e.kids.iter().enumerate() {
        match kid {
            Node::Text(spans) => {
                if after_text {
                    out.push_str(comment(g));
                }
                out.push_str(&between(g));
                text(g, spans, i + 1 == count, out);
                after_text = true;
            }
            Node::El(e) => {
                if !after_text {
                    out.push_str(&between(g));
                } else if g.chance(1, 6) {
                    out.push_str(comment(g));
                    out.push_str(gap(g));
                }
                write(g, e, out);
                after_text = false;
            }
        }
    }
    if !after_text {
        out.push_str(&between(g));
    } else if g.chance(1, 6) {
        out.push_str(comment(g));
        out.push_str(gap(g));
    }
    out.push_str(&format!("</{}{}>", e.tag, if g.chance(1, 8) { " " } else { "" }));
}

fn document(g: &mut Gen, doc: &Doc) -> String {
    let mut out = between(g);
    out.push_str(g.pick(&["<html>", "<html lang=\"en\">", "<html >"]));
    out.push_str(&aside(g));
    if g.chance(1, 3) {
        out.push_str("<head>");
        out.push_str(&aside(g));
        out.push_str(g.pick(&[
            "",
            "<title>A page</title>",
            "<meta charset=\"utf-8\">",
            "<link rel=\"stylesheet\" href=\"a.css\"/>",
            "<script>if (a < b && {}) { c() }</script>",
            "<template id=\"t0\"><b></b></template>",
        ]));
        out.push_str(&aside(g));
        out.push_str("</head>");
        out.push_str(&aside(g));
    }
    let mut templates = doc.templates.clone();
    g.shuffle(&mut templates);
    for (id, template) in &templates {
        open(g, "template", &[Attr::Static("id".into(), id.clone())], &mut out);
        out.push('>');
        out.push_str(&between(g));
        write(g, template, &mut out);
        out.push_str(&between(g));
        out.push_str("</template>");
        out.push_str(&aside(g));
    }
    write(g, &doc.body, &mut out);
    out.push_str(&aside(g));
    out.push_str("</html>");
    out.push_str(&between(g));
    out
}

fn translated(e: &El) -> El {
    let mut e = e.clone();
    for kid in &mut e.kids {
        match kid {
            Node::El(kid) => *kid = translated(kid),
            Node::Text(spans) => {
                for span in spans {
                    if let Span::Lit(s) = span {
                        *s = mark(s);
                    }
                }
            }
        }
    }
    e
}

/// handlers of displayed elements: event, and kinds of arguments
fn heard(e: &REl, out: &mut Vec<BTreeMap<String, Vec<String>>>) {
    let kinds = |args: &Vec<RArg>| {
        args.iter()
            .map(|a| match a {
                RArg::Key(k) => k.clone(),
                RArg::Event => "$".into(),
                RArg::Path(p, pipe) => format!("{{{}|{}", p.last().unwrap(), pipe.join("|")),
            })
            .collect::<Vec<String>>()
    };
    out.push(e.on.iter().map(|(k, args)| (k.clone(), kinds(args))).collect());
    for k in &e.kids {
        if let RNode::El(k) = k {
            heard(k, out);
        }
    }
}

fn listening(f: Fragment, out: &mut Vec<BTreeMap<String, Vec<String>>>) {
    let kinds = |h: &Handler| {
        h.arguments
            .iter()
            .map(|a| match a {
                HandlerArgument::Keyword(k) => k.clone(),
                HandlerArgument::Event => "$".into(),
                HandlerArgument::Binder { path, pipe } => {
                    format!("{{{}|{}", path.rsplit('/').next().unwrap(), pipe.join("|"))
                }
            })
            .collect::<Vec<String>>()
    };
    out.push(f.element.listeners.iter().map(|(k, h)| (k.clone(), kinds(h))).collect());
    if f.element.tag != "img" {
        for k in f.children() {
            if k.element.text.is_none() {
                listening(k, out);
            }
        }
    }
}

impl Property for C06 {
    const ID: &'static str = "C06";
    const RULE: &'static str = "A random document (elements, texts of words and bindings, static attributes with any characters, bound attributes, handlers, repeats, conditions, aliases, templates) written in a random way: quotes or none, empty attributes, whitespace and line breaks inside of tags, bindings and texts, indentation, comments between contents, void notations, head and scripts; with or without a translator that marks every span. The displayed tree after 1-2 values, and the handlers of its elements, are those of the reference evaluation of the document that was written. Non-trivial: the source differs from the plain way to write it, with at least 3 displayed nodes and a text of at least two spans or words.";
    const CASES: (u64, u64) = (150_000, 2_000_000);
    type Case = Case;

    fn gen(g: &mut Gen) -> Case {
        let mut doc = DocGen::new(DocCfg::default()).doc(g);
        let mut body = doc.body.clone();
        wordy(g, &mut body);
        listen(g, &mut body);
        doc.body = body;
        for i in 0..doc.templates.len() {
            let mut t = doc.templates[i].1.clone();
            wordy(g, &mut t);
            doc.templates[i].1 = t;
        }
        let html = document(g, &doc);
        let shape = doc.shape();
        let mut values = vec![gen_value(g, &shape, false)];
        if g.chance(1, 2) {
            values.push(mutate(g, &values[0].clone(), &shape, false));
        }
        Case {
            doc,
            html,
            translate: g.chance(1, 3),
            values,
        }
    }

    fn check(case: &Case, st: &mut Stats) -> Check {
        let translator: Box<dyn RendererTranslator> = if case.translate {
            Box::new(Marks)
        } else {
            Box::new(bx::Identity)
        };
        let html = &case.html;
        let mut view = View::from_html(html, "", "./assets", bx::TestFonts, translator)
            .map_err(|e| format!("document rejected: {e:?}\nhtml: {html}"))?;
        for (name, f) in bx::PIPES {
            view = view.pipe(name, f);
        }
        let mut doc = case.doc.clone();
        if case.translate {
            st.label("with translator");
            doc.body = translated(&doc.body);
            for t in &mut doc.templates {
                t.1 = translated(&t.1);
            }
        }
        let mut most = 0;
        for (i, value) in case.values.iter().enumerate() {
            bx::update(&mut view, bx::input(0, vec![]), value)?;
            let expected = doc.eval(value);
            let got = bx::snap(&view.body());
            most = most.max(got.count());
            if let Some(d) = expected.diff(&got, "") {
                return Err(format!("after value {i}: {d}\nvalue: {value}\nhtml: {html:?}\nplain: {}", case.doc.html()));
            }
            let (mut heard_, mut listening_) = (vec![], vec![]);
            heard(&expected, &mut heard_);
            listening(view.body(), &mut listening_);
            if heard_ != listening_ {
                return Err(format!("handlers {listening_:?}, expected {heard_:?}\nhtml: {html:?}"));
            }
        }
        for (label, part) in [("comments", "<!--"), ("line breaks with carriage return", "\r\n"), ("templates", "<template"), ("scripts", "<script>")] {
            if html.contains(part) {
                st.label(label);
            }
        }
        let words = case.doc.html().matches(|c| c == ' ' || c == '{').count();
        if *html != case.doc.html() && most >= 3 && words >= 3 {
            st.nontrivial();
        }
        Ok(())
    }
}
