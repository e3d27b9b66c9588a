//! C16: values are coerced by fixed rules, pipes are applied in order.

use crate::bx;
use crate::engine::*;
use bumaga::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, HashMap};
use std::time::Duration;

#[derive(Serialize, Deserialize, Clone)]
pub enum Use {
    /// literal before, pipes, literal after
    Text(String, Vec<String>, String),
    Attr(String, Vec<String>, String),
    Tag(Vec<String>),
    Show(bool, Vec<String>),
    /// pipes of every argument; the first one is the name of the message
    Message(Vec<Vec<String>>),
}

#[derive(Serialize, Deserialize)]
pub struct Case {
    pub uses: Vec<Use>,
    /// whether pipes are named as the default one to replace it
    pub replaced: bool,
    pub values: Vec<Value>,
}

pub struct C16;

fn number(g: &mut Gen) -> Value {
    match g.below(16) {
        0 => json!(0),
        1 => json!(1),
        2 => json!(g.int(-300, 300)),
        3 => json!(u64::MAX - g.draw(3)),
        4 => json!(i64::MIN + g.draw(3) as i64),
        5 => json!(9007199254740992u64 + g.draw(5)),
        6 => json!(g.int(-1000, 1000) as f64 / 8.0),
        7 => json!(1e300),
        8 => json!(1e-7 * g.int(0, 50) as f64),
        9 => json!(18446744073709551616.0),
        10 => json!(0.1),
        11 => json!(g.int(0, 100000) as f64 / 1000.0),
        12 => json!(i64::MAX),
        13 => json!(-1.5e-3),
        14 => json!(1.0),
        _ => json!(3600.0 * g.int(0, 48) as f64),
    }
}

fn scalar(g: &mut Gen) -> Value {
    match g.below(5) {
        0 => Value::Null,
        1 => json!(g.bool()),
        2 => number(g),
        3 => json!(g.pick_s(&[
            "", "a", "0", "false", "null", "42", "18446744073709551615", "18446744073709551616", "-1", "1.5", " 7", "00012", "{v}",
            "[array]", "{object}", "Ünï", "\"q\"", "a\nb", "true",
        ])),
        _ => json!(g.int(0, 9)),
    }
}

fn wild(g: &mut Gen, depth: usize) -> Value {
    match g.weighted(&[6, if depth > 0 { 2 } else { 0 }, if depth > 0 { 2 } else { 0 }]) {
        0 => scalar(g),
        1 => Value::Array(g.vec(0, 3, |g| wild(g, depth - 1))),
        _ => {
            let mut m = Map::new();
            for (k, v) in g.vec(0, 3, |g| (g.pick_s(&["a", "b", "v"]), wild(g, depth - 1))) {
                m.insert(k, v);
            }
            Value::Object(m)
        }
    }
}

fn chain(g: &mut Gen) -> Vec<String> {
    if g.chance(1, 3) {
        vec![]
    } else {
        g.vec(1, 4, |g| g.pick_s(&["up", "not", "bang", "len", "json", "duration", "nope", "wrap", "half"]))
    }
}

fn wrap(v: Value) -> Value {
    json!([v])
}
fn half(v: Value) -> Value {
    match v {
        Value::Number(n) => json!(n.as_f64().unwrap() / 2.0),
        v => v,
    }
}

// reference rules

fn text(v: &Value) -> String {
    match v {
        Value::Null => String::new(),
        Value::String(s) => s.clone(),
        Value::Array(_) => "[array]".into(),
        Value::Object(_) => "{object}".into(),
        v => serde_json::to_string(v).unwrap(),
    }
}

fn truth(v: &Value) -> bool {
    !matches!(text(v).as_str(), "" | "0" | "0.0" | "-0.0" | "false")
        || matches!(v, Value::String(s) if !s.is_empty())
}

fn truth_of(v: &Value) -> bool {
    match v {
        Value::Array(a) => !a.is_empty(),
        v => truth(v),
    }
}

fn unsigned(v: &Value) -> u64 {
    match v {
        Value::Bool(b) => *b as u64,
        Value::Number(n) if n.is_u64() => n.as_u64().unwrap(),
        Value::Number(n) if n.is_i64() => 0,
        Value::Number(n) => {
            let f = n.as_f64().unwrap();
            if f <= 0.0 {
                0
            } else if f >= 18446744073709551616.0 {
                u64::MAX
            } else {
                f.trunc() as u64
            }
        }
        Value::String(s) if !s.is_empty() && s.chars().all(|c| c.is_ascii_digit()) => {
            let mut n: u128 = 0;
            for c in s.chars().take(30) {
                n = n * 10 + c.to_digit(10).unwrap() as u128;
            }
            if n <= u64::MAX as u128 {
                n as u64
            } else {
                0
            }
        }
        _ => 0,
    }
}

fn apply(name: &str, v: Value, replaced: bool) -> Value {
    match name {
        "duration" if replaced => Value::String(format!("<{}>", text(&v))),
        "duration" => match v.as_f64() {
            Some(s) if s >= 0.0 && s < 18446744073709551616.0 => json!(format!("{:?}", Duration::from_secs_f64(s))),
            _ => v,
        },
        "nope" => v,
        "wrap" => json!([v]),
        "half" => half(v),
        "up" => json!(text(&v).to_uppercase()),
        "not" => json!(!truth_of(&v)),
        "bang" => json!(format!("{}!", text(&v))),
        "len" => match &v {
            Value::Array(a) => json!(a.len()),
            Value::Object(o) => json!(o.len()),
            Value::String(s) => json!(s.len()),
            _ => json!(0),
        },
        "json" => json!(v.to_string()),
        _ => unreachable!(),
    }
}

fn piped(v: &Value, pipes: &[String], replaced: bool) -> Value {
    pipes.iter().fold(v.clone(), |v, p| apply(p, v, replaced))
}

fn bind(pipes: &[String]) -> String {
    let mut s = "{v".to_string();
    for p in pipes {
        s += &format!("|{p}");
    }
    s + "}"
}

fn eval_api(v: &Value) -> Check {
    let fail = |what: &str, got: String, expected: String| Err(format!("{what} of {v} is {got}, expected {expected}"));
    if v.eval_string() != text(v) {
        return fail("eval_string", v.eval_string(), text(v));
    }
    if v.eval_boolean() != truth_of(v) {
        return fail("eval_boolean", v.eval_boolean().to_string(), truth_of(v).to_string());
    }
    if v.eval_u64() != unsigned(v) || v.eval_usize() as u64 != unsigned(v) {
        return fail("eval_u64", format!("{} or {}", v.eval_u64(), v.eval_usize()), unsigned(v).to_string());
    }
    let list = match v {
        Value::Array(a) => a.iter().map(text).collect(),
        v => vec![text(v)],
    };
    if v.eval_array() != list {
        return fail("eval_array", format!("{:?}", v.eval_array()), format!("{list:?}"));
    }
    // typed evaluation gives the value as it is, or the default one
    let string = if let Value::String(s) = v { s.clone() } else { String::new() };
    if v.eval::<String>() != string {
        return fail("eval::<String>", v.eval::<String>(), string);
    }
    let byte = v.as_u64().filter(|n| *n < 256).unwrap_or(0) as u8;
    if v.eval::<u8>() != byte {
        return fail("eval::<u8>", v.eval::<u8>().to_string(), byte.to_string());
    }
    let int = v.as_i64().unwrap_or(0);
    if v.eval::<i64>() != int {
        return fail("eval::<i64>", v.eval::<i64>().to_string(), int.to_string());
    }
    let flag = v.as_bool();
    if v.eval::<Option<bool>>() != flag || v.eval::<bool>() != flag.unwrap_or(false) {
        return fail("eval::<bool>", v.eval::<bool>().to_string(), format!("{flag:?}"));
    }
    let items = v.as_array().cloned().unwrap_or_default();
    if v.eval::<Vec<Value>>() != items {
        return fail("eval::<Vec<Value>>", format!("{:?}", v.eval::<Vec<Value>>()), format!("{items:?}"));
    }
    let map: HashMap<String, Value> = v
        .as_object()
        .map(|o| o.iter().map(|(k, v)| (k.clone(), v.clone())).collect())
        .unwrap_or_default();
    if v.eval::<HashMap<String, Value>>() != map {
        return fail("eval::<HashMap>", String::new(), format!("{map:?}"));
    }
    Ok(())
}

fn every(v: &Value, check: &mut dyn FnMut(&Value) -> Check) -> Check {
    check(v)?;
    match v {
        Value::Array(a) => a.iter().try_for_each(|v| every(v, check)),
        Value::Object(o) => o.values().try_for_each(|v| every(v, check)),
        _ => Ok(()),
    }
}

impl Property for C16 {
    const ID: &'static str = "C16";
    const RULE: &'static str = "A page of 1-6 uses of one value (text and attributes between literals, presence of an attribute, visibility and its negation, name and arguments of a message) through chains of 0-4 pipes (custom ones, the default duration, one that is not registered, in a third of cases the default replaced), and a history of 1-4 arbitrary JSON values (64-bit limits, fractions, numeric strings, nested lists and objects). After every update every use shows the value passed through its pipes from left to right by the rules of coercion, and the message of a click carries them; the evaluation functions give the same rules for every part of the values. Non-trivial: a chain of at least two pipes, or a value that is neither a plain string nor a small integer, and a use that changes.";
    const CASES: (u64, u64) = (400_000, 6_000_000);
    type Case = Case;

    fn gen(g: &mut Gen) -> Case {
        let lit = |g: &mut Gen| g.pick_s(&["", "", "a", "-", "x y"]);
        let uses = g.vec(1, 6, |g| match g.below(5) {
            0 => Use::Text(lit(g), chain(g), lit(g)),
            1 => Use::Attr(lit(g), chain(g), lit(g)),
            2 => Use::Tag(chain(g)),
            3 => Use::Show(g.bool(), chain(g)),
            _ => Use::Message(g.vec(1, 4, chain)),
        });
        let mut values = vec![wild(g, 2)];
        while g.more(values.len(), 1, 4, 2, 3) {
            values.push(wild(g, 2));
        }
        Case {
            uses,
            replaced: g.chance(1, 6),
            values,
        }
    }

    fn check(case: &Case, st: &mut Stats) -> Check {
        let mut html = String::from("<html><body>");
        for u in &case.uses {
            html += &match u {
                Use::Text(a, p, b) => format!("<div>{a}{}{b}</div>", bind(p)),
                Use::Attr(a, p, b) => format!("<div @title=\"{a}{}{b}\"></div>", bind(p)),
                Use::Tag(p) => format!("<div #on=\"{}\"></div>", bind(p)),
                Use::Show(v, p) => format!("<div {}=\"{}\"></div>", if *v { "?" } else { "!" }, bind(p)),
                Use::Message(args) => format!(
                    "<div class=\"m\" ^onclick=\"{}\"></div>",
                    args.iter().map(|p| bind(p)).collect::<Vec<_>>().join(" ")
                ),
            };
        }
        html += "</body></html>";
        let css = ".m { position: absolute; left: 0px; top: 0px; width: 10px; height: 10px; }";
        let mut view = bx::view(&html, css)?.pipe("wrap", wrap).pipe("half", half);
        if case.replaced {
            view = view.pipe("duration", |v| Value::String(format!("<{}>", v.eval_string())));
        }
        let mut shown: Vec<String> = vec![];
        let mut changes = 0;
        for (i, v) in case.values.iter().enumerate() {
            every(v, &mut eval_api)?;
            let value = json!({ "v": v });
            bx::update(&mut view, bx::input(0, vec![]), &value)?;
            let body = view.body();
            let mut kids = body.children().into_iter();
            let mut now = vec![];
            let mut expected_messages = vec![];
            for u in &case.uses {
                let context = |got: String, expected: String| {
                    format!("after value {i}: {} is {got}, expected {expected}\nvalue: {v}\nhtml: {html}", serde_json::to_string(u).unwrap())
                };
                match u {
                    Use::Show(flag, p) => {
                        let shows = truth_of(&piped(v, p, case.replaced)) == *flag;
                        now.push(shows.to_string());
                        if shows {
                            let kid = kids.next().ok_or_else(|| context("hidden".into(), "displayed".into()))?;
                            if !kid.attrs.is_empty() || !kid.children().is_empty() {
                                return Err(context("not displayed".into(), "displayed".into()));
                            }
                        }
                    }
                    Use::Message(args) => {
                        kids.next().ok_or_else(|| context("missing".into(), "an element".into()))?;
                        let args: Vec<Value> = args.iter().map(|p| piped(v, p, case.replaced)).collect();
                        let name = text(&args[0]);
                        expected_messages.push(match args.len() {
                            1 => Value::String(name),
                            2 => json!({ name: args[1] }),
                            _ => json!({ name: args[1..] }),
                        });
                    }
                    Use::Tag(p) => {
                        let kid = kids.next().ok_or_else(|| context("missing".into(), "an element".into()))?;
                        let expected = if truth_of(&piped(v, p, case.replaced)) {
                            BTreeMap::from([("on".to_string(), "on".to_string())])
                        } else {
                            BTreeMap::new()
                        };
                        let got: BTreeMap<String, String> = kid.attrs.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
                        now.push(format!("{got:?}"));
                        if got != expected {
                            return Err(context(format!("{got:?}"), format!("{expected:?}")));
                        }
                    }
                    Use::Text(a, p, b) | Use::Attr(a, p, b) => {
                        let kid = kids.next().ok_or_else(|| context("missing".into(), "an element".into()))?;
                        let expected = format!("{a}{}{b}", text(&piped(v, p, case.replaced)));
                        let got = match u {
                            Use::Text(..) => kid.children().first().and_then(|t| t.element.text.as_ref().map(|t| t.to_string())),
                            _ => kid.attrs.get("title").cloned(),
                        };
                        now.push(format!("{got:?}"));
                        if got.as_ref() != Some(&expected) {
                            return Err(context(format!("{got:?}"), format!("{expected:?}")));
                        }
                    }
                }
            }
            if kids.next().is_some() {
                return Err(format!("after value {i}: more elements than expected\nvalue: {v}\nhtml: {html}"));
            }
            if !expected_messages.is_empty() {
                let events = vec![
                    InputEvent::MouseMove([5.0, 5.0]),
                    InputEvent::MouseButtonDown(MouseButtons::Left),
                    InputEvent::MouseButtonUp(MouseButtons::Left),
                ];
                let output = bx::update(&mut view, bx::input(0, events), &value)?;
                // the last element is on top
                expected_messages.reverse();
                if output.messages != expected_messages {
                    return Err(format!(
                        "after value {i}: messages {}, expected {}\nvalue: {v}\nhtml: {html}",
                        Value::from(output.messages.clone()),
                        Value::from(expected_messages)
                    ));
                }
                st.label_n("messages", output.messages.len() as u64);
            }
            if i > 0 && now != shown {
                changes += 1;
            }
            shown = now;
        }
        let long = html.matches('|').count() >= 2;
        let odd = case.values.iter().any(|v| !matches!(v, Value::String(_)) && v.as_u64().map_or(true, |n| n > 9));
        if (long || odd) && (changes > 0 || case.values.len() == 1 || html.contains("class=\"m\"")) {
            st.nontrivial();
        }
        Ok(())
    }
}
