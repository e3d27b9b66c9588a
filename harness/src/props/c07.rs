//! C07: nothing given to the library crashes or hangs it.

use crate::bx;
use crate::doc::*;
use crate::engine::*;
use crate::ev::{self, PageCfg};
use crate::sel::*;
use crate::sty;
use bumaga::{Input, InputEvent, Keys, MouseButtons};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::sync::Once;
use std::time::Duration;

pub const FLOATS: [f32; 16] = [
    0.0,
    10.0,
    50.0,
    100.5,
    -1.0,
    -0.0,
    1e-30,
    1e6,
    1e30,
    3.4e38,
    -3.4e38,
    f32::INFINITY,
    f32::NEG_INFINITY,
    f32::NAN,
    16_777_217.0,
    0.1,
];

/// microseconds
pub const TIMES: [u64; 12] = [
    16_000,
    0,
    1,
    1_000,
    10_000,
    100_000,
    333_333,
    1_000_000,
    60_000_000,
    3_600_000_000,
    u32::MAX as u64 * 1_000_000,
    u64::MAX,
];

#[derive(Serialize, Deserialize)]
pub struct Step {
    pub value: Value,
    /// index of a time
    pub time: usize,
    /// indexes of floats
    pub viewport: [usize; 2],
    /// kind, and indexes of floats or keys
    pub events: Vec<(u8, usize, usize)>,
}

#[derive(Serialize, Deserialize)]
pub struct Case {
    pub html: String,
    pub css: String,
    pub steps: Vec<Step>,
}

pub struct C07;

const CFG: PageCfg = PageCfg {
    events: &[
        "onmouseenter", "onmouseleave", "onmousemove", "onmousedown", "onmouseup", "onclick", "oncontextmenu",
        "onfocus", "onblur", "oninput", "onkeydown", "onkeyup", "ondragstart", "ondragenter", "ondragover",
        "ondragleave", "ondrop", "ondragend",
    ],
    density: 1,
    weights: [8, 5, 1, 3, 1],
    draggable: true,
    rich: true,
    cursors: true,
};

pub const HTML_TOKENS: [&str; 60] = [
    "<div>", "</div>", "<", ">", "</", "/>", "<br>", "<br/>", "<img src=\"a.png\">", "<input", "<link", "<template",
    "</template>", "<template id=\"t0\">", "<link href=\"#t0\"/>", "<link href=\"#t1\">", "<link href=\"#nope\"/>",
    "<script>", "</script>", "<!--", "-->", "<body>", "</body>", "</html>", "<html>", "{", "}", "{a}", "{a.b}",
    "{items}", "{a|up}", "{a|nope}", "{a|duration}", "{a|up:b}", "{items.0}", "{items.1.a}", "{this}", "{}",
    " class=\"a\"", " class=a", " @class=\"a {b}\"", " @style=\"width: {a}px;\"", " style=\"width: 1px;\"",
    " style=\"animation: k 1s;\"", " #checked=\"{a}\"", " +it=\"{a}\"", " +it=\"{it}\"", " ?=\"{a}\"", " !=\"{a.b}\"",
    " *it=\"3 {items}\"", " *it=\"0 {items}\"", " ^onclick=\"M $event {a}\"", " ^onclick=\"\"", " ^onclick=\"{it.a}\"",
    "\"", "=", " ", "\n", "ж", "\u{0}",
];

pub const CSS_TOKENS: [&str; 75] = [
    "{", "}", ";", ":", ",", "(", ")", "[", "]", "div", ".a", "#a", "*", ">", "+", "~", ":hover", ":active",
    ":focus", ":root", "::before", ":nth-child(2)", "[a]", "[a=\"b\"]", "[a~=b i]", "@keyframes k { 0% { width: 1px; } 100% { width: 2px; } }",
    "@keyframes k { from { opacity: 0; } to { opacity: 1; } }", "@keyframes k {}", "@keyframes k { 150% { width: 1px; } }",
    "@media screen {", "/*", "*/", "width: 10px;", "width: -10px;", "height: 50%;", "width: 1e9px;", "width: 0;",
    "width: var(--x);", "--x: 1px;", "--x: var(--y) var(--y);", "--y: var(--x);", "width: var(--nope);",
    "width: var(--nope, 2px);", "color: #fff;", "color: #ff00ff80;", "color: #f;", "color: rgb(1, 2, 3);",
    "background: url(\"a.png\") red, blue;", "background-image: none, url(\"b.png\");", "animation: k 1s infinite;",
    "animation: k 0s;", "animation: k 1ms linear 0s 3;", "animation-name: k, nope, k;", "animation-duration: 0.001s, 2s;",
    "animation-delay: -5s;", "animation-iteration-count: 0;", "animation-iteration-count: 1000000000;",
    "animation-play-state: paused;", "animation-iteration-count: infinite;", "transition: width 1s linear 0s;",
    "transition: width 0s;", "transition: all 1s;", "transition: width 1ms, height 5s linear 2s;", "transform: translate(1px, 50%);",
    "transform: translateX();", "transform: translate3d(1px, 2px, 3px) translate(1px);", "display: grid;", "display: flex;",
    "display: none;", "position: absolute; inset: 1px;", "overflow: scroll;", "flex: 1 1 0;", "font: 12px mono;",
    "font-size: 0px;", "aspect-ratio: 0;",
];

pub const NUMBERS: [&str; 18] = [
    "0", "1", "-1", "0.5", "-0", "1.2.3", "--1", "-", ".", "1-2", "99999", "1000000000000", "340282350000000000000000000000000000000",
    "9999999999999999999999999999999999999999999999", "0.0000000000001", "255", "256", "3",
];

/// Changes a text at random places.
fn damage(g: &mut Gen, text: &str, tokens: &[&str]) -> String {
    let mut chars: Vec<char> = text.chars().collect();
    let n = g.weighted(&[0, 6, 3, 2, 1, 1]);
    for _ in 0..n {
        let at = g.below(chars.len() + 1);
        match g.weighted(&[4, 3, 3, 3, 1, 1, 1]) {
            // insert a token
            0 => {
                let token: Vec<char> = g.pick(tokens).chars().collect();
                chars.splice(at..at, token);
            }
            // remove a range
            1 => {
                let end = (at + g.len(1, 8)).min(chars.len());
                chars.drain(at..end);
            }
            // another number
            2 => {
                let is = |c: &char| c.is_ascii_digit() || *c == '.' || *c == '-';
                if let Some(start) = (at..chars.len()).find(|i| is(&chars[*i])) {
                    let mut end = start;
                    while end < chars.len() && is(&chars[end]) {
                        end += 1;
                    }
                    let number: Vec<char> = g.pick(&NUMBERS).chars().collect();
                    chars.splice(start..end, number);
                }
            }
            // copy a range to another place
            3 => {
                let end = (at + g.len(1, 40)).min(chars.len());
                let piece: Vec<char> = chars[at..end].to_vec();
                let to = g.below(chars.len() + 1);
                chars.splice(to..to, piece);
            }
            // truncate
            4 => chars.truncate(at),
            // any character
            5 => {
                let c = *g.pick(&['\u{0}', '\u{7f}', 'ж', '💥', '"', '\'', '\\', '\r', '\t', '&', '`', '%', '@', '!', '\u{2028}']);
                chars.insert(at, c);
            }
            // swap two halves
            _ => chars.rotate_left(at),
        }
    }
    chars.into_iter().collect()
}

fn soup(g: &mut Gen, tokens: &[&str], hi: usize) -> String {
    let mut out = String::new();
    let mut n = 0;
    while g.more(n, 0, hi, 9, 10) {
        n += 1;
        if g.chance(1, 8) {
            out += g.pick(&NUMBERS);
        } else {
            out += g.pick(tokens);
        }
        if g.chance(1, 6) {
            out.push(' ');
        }
    }
    out
}

/// What a document asks for explicitly is bounded here: counts of repeats and indexes of arrays
/// have one digit, or are no numbers at all.
fn bound(html: &str) -> String {
    let mut out = String::new();
    let mut run = String::new();
    let flush = |run: &mut String, out: &mut String| {
        if run.len() > 1 && run.len() < 20 {
            out.push(run.chars().next().unwrap());
        } else {
            out.push_str(run);
        }
        run.clear();
    };
    for c in html.chars() {
        if c.is_ascii_digit() {
            run.push(c);
        } else {
            flush(&mut run, &mut out);
            out.push(c);
        }
    }
    flush(&mut run, &mut out);
    // repeats in repeats in repeats
    let mut left = 6;
    out.chars()
        .map(|c| {
            if c == '*' {
                left -= 1;
                if left < 0 {
                    return '+';
                }
            }
            c
        })
        .collect()
}

/// Nesting and expansion of variables are bounded: at most 8 references, calls in calls at most 8.
fn bound_css(css: &str) -> String {
    let mut vars = 0;
    let mut depth = 0;
    let mut out = String::new();
    for c in css.chars() {
        match c {
            '(' => {
                depth += 1;
                vars += 1;
                if depth > 8 || vars > 60 {
                    depth -= 1;
                    out.push(' ');
                    continue;
                }
            }
            ')' => depth = (depth - 1).max(0),
            ';' | '}' => depth = 0,
            _ => {}
        }
        out.push(c);
    }
    let mut parts = out.split("var(");
    let mut out = parts.next().unwrap_or("").to_string();
    for (i, part) in parts.enumerate() {
        out += if i < 8 { "var(" } else { "rav(" };
        out += part;
    }
    out
}

pub const ODD_VALUES: [&str; 44] = [
    "0", "1", "-1", "0.5", "1.5", "10px", "-10px", "1000000000px", "0.0001px", "50%", "-50%", "100000%", "1em", "2rem", "3vw",
    "1vmin", "5zz", "1s", "0s", "1ms", "-1s", "0.001s", "3600s", "auto", "none", "inherit", "initial", "infinite", "paused", "red",
    "#fff", "#ff00ff", "#ff00ff80", "#1", "rgb(1, 2, 3)", "rgb(300, -1, 2)", "url(\"a.png\")", "url()", "translate(1px, 50%)",
    "translate()", "k", "width", "\"\"", "var(--x)",
];

pub const ODD_PROPERTIES: [&str; 40] = [
    "width", "height", "min-width", "max-height", "margin", "padding", "padding-left", "border", "border-width", "border-color",
    "border-top", "border-radius", "inset", "left", "flex", "flex-basis", "flex-grow", "gap", "aspect-ratio", "display",
    "position", "overflow", "color", "background", "background-color", "background-image", "background-position", "opacity",
    "transform", "font", "font-size", "font-family", "font-weight", "animation", "animation-name", "animation-duration",
    "animation-iteration-count", "transition", "transition-duration", "--x",
];

/// Well formed declarations that make no sense.
fn odd_decls(g: &mut Gen, hi: usize) -> String {
    let mut out = String::new();
    let mut n = 0;
    while g.more(n, 0, hi, 4, 5) {
        n += 1;
        let mut values: Vec<String> = vec![];
        while g.more(values.len(), 1, 6, 1, 2) {
            values.push(g.pick_s(&ODD_VALUES));
            if g.chance(1, 8) {
                let last = values.last_mut().unwrap();
                last.push(',');
            }
        }
        let values = values.join(" ");
        out += &format!("{}: {}; ", g.pick(&ODD_PROPERTIES), values.trim_end_matches(','));
    }
    out
}

/// Well formed elements whose bindings make no sense.
fn odd_el(g: &mut Gen, depth: usize) -> String {
    if g.chance(1, 4) {
        return g.pick_s(&["{a}", "{items}", "{a.b.c}", "{a|up:b}", "{a|nope}", "{items.1}", "{items.1.a}", "{this}", "x", "<br>", "<!-- -->"]);
    }
    if g.chance(1, 8) {
        return g.pick_s(&["<link href=\"#t0\"/>", "<link href=\"#t0\" +it=\"{items}\"/>", "<link href=\"#t0\" *it=\"3 {a}\"/>", "<link/>", "<link href=\"t0\"/>", "<template><p></p></template>", "<script>a < b</script>"]);
    }
    let mut attrs = String::new();
    let mut n = 0;
    let tokens: Vec<&&str> = HTML_TOKENS.iter().filter(|t| t.starts_with(' ') && t.len() > 3).collect();
    while g.more(n, 0, 4, 2, 3) {
        n += 1;
        if g.chance(1, 5) {
            attrs += &format!(" style=\"{}\"", odd_decls(g, 3).replace('"', ""));
        } else {
            attrs += g.pick(&tokens);
        }
    }
    let mut kids = String::new();
    let mut n = 0;
    while depth > 0 && g.more(n, 0, 4, 1, 2) {
        n += 1;
        kids += &odd_el(g, depth - 1);
    }
    let tag = g.pick(&["div", "p", "x-a", "input-x", "img", "body", "html"]);
    if *tag == "img" {
        return format!("<img{attrs}>");
    }
    format!("<{tag}{attrs}>{kids}</{tag}>")
}

fn gen_css(g: &mut Gen) -> String {
    let mut css = print_sheet(&gen_sheet(g, 5, true));
    if g.chance(1, 2) {
        css += "\n@keyframes k {\n";
        for step in ["0%", "50%", "100%"] {
            if g.chance(3, 4) {
                css += &format!(" {step} {{ {} }}\n", sty::print_decls(&gen_decls(g, 0, 3)));
            }
        }
        css += "}\n";
        for _ in 0..g.below(3) {
            let tokens: Vec<&&str> = CSS_TOKENS
                .iter()
                .filter(|t| t.starts_with("animation") || t.starts_with("transition"))
                .collect();
            css += &format!("{} {{ {} {} }}\n", g.pick(&["*", "div", ".a", ":hover"]), g.pick(&tokens), g.pick(&tokens));
        }
    }
    css
}

fn gen_weird(g: &mut Gen) -> Value {
    match g.below(10) {
        0 => json!(1e308),
        1 => json!(-1e308),
        2 => json!(u64::MAX),
        3 => json!(i64::MIN),
        4 => json!("x".repeat(300)),
        5 => json!("\u{0}\n\t{a}<div>"),
        6 => json!([[[[[[1]]]]]]),
        7 => json!({"a": {"a": {"a": {"a": []}}}}),
        8 => json!(1e-300),
        _ => json!(-0.0),
    }
}

/// Puts odd values at random places.
fn spoil(g: &mut Gen, v: &mut Value) {
    if g.chance(1, 10) {
        *v = gen_weird(g);
        return;
    }
    match v {
        Value::Array(a) => a.iter_mut().for_each(|v| spoil(g, v)),
        Value::Object(o) => o.values_mut().for_each(|v| spoil(g, v)),
        _ => {}
    }
}

struct Log;

impl log::Log for Log {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, record: &log::Record) {
        // messages are formatted as an application would do
        std::hint::black_box(format!("{}", record.args()));
    }
    fn flush(&self) {}
}

static LOG: Once = Once::new();

impl Property for C07 {
    const ID: &'static str = "C07";
    const RULE: &'static str = "Documents and stylesheets: generated valid ones, well formed ones that make no sense, the same with up to 5 random damages (tokens inserted, ranges removed or copied, numbers replaced with odd ones, characters of any kind, truncation), and token soups; 0-4 updates with JSON values of any type (huge numbers, long strings, deep values), times from zero to the maximum, viewports and pointer positions that include infinities and NaN, and all kinds of events, with a logger that formats every message. Every call returns a result or an error within 20 s of CPU time, without a panic, abort or stack overflow. Bounded by what is asked for: one-digit repeat counts and indexes, at most 6 repeats, 8 references of variables, 8 nested calls, 12 nested flex boxes. Non-trivial: the document and the stylesheet are accepted and at least one update succeeds.";
    const CASES: (u64, u64) = (300_000, 4_000_000);
    const HANG_IS_VIOLATION: bool = true;
    type Case = Case;

    fn gen(g: &mut Gen) -> Case {
        let (html, shape) = if g.chance(1, 3) {
            let odd = g.chance(3, 4);
            let inner = if odd {
                g.vec(1, 4, |g| odd_el(g, 3)).concat()
            } else {
                soup(g, &HTML_TOKENS, 14)
            };
            let html = if !odd && g.chance(1, 3) {
                inner
            } else {
                format!("<html><template id=\"t0\"><p>{{it.a}}</p></template><body>{inner}</body></html>")
            };
            (html, None)
        } else {
            let page = ev::gen_page(g, &CFG);
            let mut doc = page.doc;
            dress(g, &mut doc.body, true);
            let mut html = doc.html();
            if g.chance(1, 30) {
                // deep, but not unreasonably
                let n = g.len(8, 64);
                html = html.replacen("</body>", &format!("{}x{}</body>", "<div>".repeat(n), "</div>".repeat(n)), 1);
            }
            let html = if g.chance(1, 3) { damage(g, &html, &HTML_TOKENS) } else { html };
            (html, Some(doc.shape()))
        };
        let css = if g.chance(1, 10) {
            soup(g, &CSS_TOKENS, 14)
        } else if g.chance(1, 3) {
            let (a, b, c, d) = (odd_decls(g, 8), odd_decls(g, 8), odd_decls(g, 3), odd_decls(g, 3));
            let state = g.pick(&["", ":hover", ":active", ", .b > p", " + *", "[a]"]);
            format!("* {{ {a} }} div{state} {{ {b} }} @keyframes k {{ 0% {{ {c} }} to {{ {d} }} }}")
        } else if g.chance(1, 10) {
            let body = soup(g, &CSS_TOKENS, 10);
            format!("div {{ {body} }}")
        } else {
            let css = gen_css(g);
            if g.chance(1, 3) {
                damage(g, &css, &CSS_TOKENS)
            } else {
                css
            }
        };
        // the layout engine hangs on some grids with texts: the known finding
        let (html, css) = (html.replace("grid", "flow"), css.replace("grid", "flow"));
        // time of layout of nested flex boxes grows exponentially with depth
        let (html, css) = if html.contains(&"<div>".repeat(13)) {
            (html.replace("flex", "block"), css.replace("flex", "block"))
        } else {
            (html, css)
        };
        let mut steps = vec![];
        while g.more(steps.len(), 0, 4, 5, 6) {
            let mut value = match &shape {
                Some(shape) if !g.chance(1, 6) => gen_value(g, shape, true),
                _ => gen_any(g, 3),
            };
            if g.chance(1, 2) {
                spoil(g, &mut value);
            }
            let float = |g: &mut Gen| if g.chance(1, 4) { g.below(FLOATS.len()) } else { g.below(4) };
            let time = if g.chance(1, 3) { g.below(TIMES.len() + 1) } else { g.below(3) };
            let viewport = if g.chance(1, 4) {
                [g.below(FLOATS.len()), g.below(FLOATS.len())]
            } else {
                [3, 3]
            };
            let events = g.vec(0, 5, |g| (g.below(9) as u8, float(g), float(g)));
            steps.push(Step {
                value,
                time,
                viewport,
                events,
            });
        }
        Case {
            html: bound(&html),
            css: bound_css(&css),
            steps,
        }
    }

    fn check(case: &Case, st: &mut Stats) -> Check {
        LOG.call_once(|| {
            let _ = log::set_logger(&Log);
            log::set_max_level(log::LevelFilter::Trace);
        });
        let result = bx::try_view(&case.html, &case.css);
        let mut view = match result {
            Ok(view) => view,
            Err(error) => {
                let text = format!("{error:?}");
                st.label(if text.starts_with("Html") {
                    "html rejected"
                } else if text.starts_with("Css") {
                    "css rejected"
                } else {
                    "rejected otherwise"
                });
                return Ok(());
            }
        };
        st.label("accepted");
        let mut ok = 0;
        for step in &case.steps {
            let f = |i: usize| FLOATS[i % FLOATS.len()];
            let events: Vec<InputEvent> = step
                .events
                .iter()
                .map(|(kind, a, b)| match kind {
                    0 => InputEvent::MouseMove([f(*a), f(*b)]),
                    1 => InputEvent::MouseButtonDown(MouseButtons::Left),
                    2 => InputEvent::MouseButtonUp(MouseButtons::Left),
                    3 => InputEvent::MouseButtonDown(MouseButtons::Right),
                    4 => InputEvent::MouseButtonUp(MouseButtons::Right),
                    5 => InputEvent::MouseWheel([f(*a), f(*b)]),
                    6 => InputEvent::KeyDown(Keys::Enter),
                    7 => InputEvent::Char('x'),
                    _ => InputEvent::Unknown,
                })
                .collect();
            let input = Input::new()
                .time(match TIMES.get(step.time) {
                    Some(us) => Duration::from_micros(*us),
                    None => Duration::MAX,
                })
                .viewport([f(step.viewport[0]), f(step.viewport[1])])
                .events(events);
            match view.update(input, step.value.clone()) {
                Ok(output) => {
                    ok += 1;
                    std::hint::black_box(format!("{output:?}"));
                }
                Err(error) => {
                    st.label("update rejected");
                    std::hint::black_box(format!("{error:?}"));
                }
            }
            std::hint::black_box(bx::snap(&view.body()));
            std::hint::black_box(view.get_element_by_id("a").map(|e| e.size));
        }
        if ok > 0 {
            st.nontrivial();
        }
        Ok(())
    }
}
