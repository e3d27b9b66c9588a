//! C14: transitions lead from the value shown to the value specified.

use crate::anim::*;
use crate::bx;
use crate::engine::*;
use crate::sty::*;
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::collections::BTreeMap;

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Item {
    pub property: String,
    pub duration: i64,
    pub delay: i64,
}

#[derive(Serialize, Deserialize, Clone)]
pub struct Variant {
    pub items: Vec<Item>,
    pub shorthand: bool,
    pub ms: bool,
}

#[derive(Serialize, Deserialize)]
pub struct State {
    /// which of the lists of transitions is specified
    pub variant: Option<usize>,
    /// which rules of declarations are in effect
    pub on: Vec<bool>,
}

#[derive(Serialize, Deserialize)]
pub struct Step {
    pub ms: u64,
    pub elements: Vec<State>,
}

#[derive(Serialize, Deserialize)]
pub struct Case {
    pub variants: Vec<Variant>,
    pub own: Vec<Decl>,
    pub rules: Vec<Vec<Decl>>,
    pub steps: Vec<Step>,
    pub viewport: [f32; 2],
}

pub struct C14;

const PROPERTIES: [&str; 22] = [
    "width", "height", "opacity", "color", "background-color", "left", "top", "margin-left",
    "padding-top", "font-size", "font-weight", "flex-grow", "flex-shrink", "border-top-width",
    "border-left-color", "border-top-left-radius", "column-gap", "visibility", "display",
    "cursor", "min-height", "background-image",
];

fn time(v: i64, ms: bool) -> String {
    if ms {
        Val::Time(v as f32, "ms".into()).print()
    } else {
        Val::Time(v as f32 / 1000.0, "s".into()).print()
    }
}

impl Variant {
    fn print(&self) -> String {
        let list = |f: &dyn Fn(&Item) -> String| self.items.iter().map(f).collect::<Vec<_>>().join(", ");
        let t = |v: i64| time(v, self.ms);
        if self.shorthand {
            // a delay is set by the longest form only
            let css = list(&|i| match i.delay {
                0 if i.duration % 4 == 0 => format!("{} {}", i.property, t(i.duration)),
                0 => format!("{} {} linear", i.property, t(i.duration)),
                _ => format!("{} {} linear {}", i.property, t(i.duration), t(i.delay)),
            });
            format!("transition: {css};")
        } else {
            format!(
                "transition-property: {}; transition-duration: {}; transition-delay: {}; transition-timing-function: {};",
                list(&|i| i.property.clone()),
                list(&|i| t(i.duration)),
                list(&|i| t(i.delay)),
                list(&|_| "linear".into()),
            )
        }
    }
}

/// The same value in one notation.
fn canonical(v: &Val) -> Val {
    let ctx = Ctx {
        parent_font: 0.0,
        parent_color: [0; 4],
        viewport: [0.0; 2],
    };
    match v {
        Val::Hex(_) | Val::Rgb(_) | Val::Rgba(..) | Val::RgbPct(_) => Val::Hex(color(v, &ctx).unwrap().to_vec()),
        Val::Url(s) => Val::Str(s.clone()),
        v => v.clone(),
    }
}

/// A declaration with values of a pool; backgrounds are lists.
fn list(g: &mut Gen, property: &str, pool: &[Val]) -> Decl {
    let mut d = decl(property, g.pick(pool).clone());
    while property.starts_with("background-") && d.values.len() < LAYERS && g.chance(1, 3) {
        d.values.push(vec![g.pick(pool).clone()]);
    }
    d
}

const LAYERS: usize = 3;

fn layers(name: &str) -> usize {
    if name.starts_with("background-") {
        LAYERS
    } else {
        1
    }
}

#[derive(Clone)]
struct Playing {
    item: Item,
    /// place in the list of transitions, and in the list of values
    place: usize,
    layer: usize,
    time: i64,
    range: Option<(Val, Val)>,
    /// changes on the way, each of them rounds
    turns: u32,
    /// the same of the value it goes to
    turns_of_target: u32,
    /// rounding decides what is shown
    lost: bool,
}

/// How far a transition is.
fn progress(time: f64, item: &Item) -> f64 {
    let t = time - item.delay as f64;
    if t < 0.0 {
        0.0
    } else if item.duration == 0 {
        1.0
    } else {
        (t / item.duration as f64).min(1.0)
    }
}

impl Property for C14 {
    const ID: &'static str = "C14";
    const RULE: &'static str = "1-3 lists of 1-3 transitions (durations 0-3 s, delays of any sign, shorthand or longhands) over 22 longhands (lists of up to three backgrounds), 1-3 elements with declarations of these properties in up to four rules that come and go with classes, as the lists do, over 2-16 updates with frame times of 0-2500 ms. After every update all 57 longhands of every element, and the inherited ones of its child, equal the reference: a property listed by the previous update keeps what was shown in the update that changes it, then goes linearly to the specified value by the time that passed, and is exactly it at the end; values of different kinds switch in the middle; properties that are not listed, or were not specified before, change at once. Non-trivial: a value strictly between two values is sampled at least twice, or a change happens on the way.";
    const CASES: (u64, u64) = (200_000, 2_000_000);
    type Case = Case;

    fn gen(g: &mut Gen) -> Case {
        let mut props: Vec<&str> = vec![];
        while g.more(props.len(), 1, 4, 2, 3) {
            let p = *g.pick(&PROPERTIES);
            if !props.contains(&p) {
                props.push(p);
            }
        }
        let mut pools: BTreeMap<&str, Vec<Val>> = BTreeMap::new();
        for p in &props {
            let n = 2 + g.below(2);
            let mut pool = vec![];
            let first = gen_val(g, p);
            for _ in 0..n {
                let mut v = gen_val(g, p);
                // mostly of one kind
                if let (Val::Dim(_, u), Val::Dim(n, _)) = (&first, &v) {
                    if g.chance(2, 3) {
                        v = Val::Dim(*n, u.clone());
                    }
                }
                pool.push(v);
            }
            pool.push(first);
            pools.insert(p, pool);
        }
        let mut own = vec![];
        for p in &props {
            if g.chance(4, 5) {
                own.push(list(g, p, &pools[p]));
            }
        }
        let mut rules = vec![];
        while g.more(rules.len(), 1, 3, 1, 2) {
            let mut rule = vec![];
            for p in &props {
                if g.chance(3, 4) {
                    rule.push(list(g, p, &pools[p]));
                }
            }
            rules.push(rule);
        }
        let mut variants = vec![];
        while g.more(variants.len(), 1, 3, 1, 3) {
            let mut items: Vec<Item> = vec![];
            let mut free = props.clone();
            while g.more(items.len(), 1, 3, 2, 3) && !free.is_empty() {
                let at = g.below(free.len());
                let duration = *g.pick(&[1000, 100, 250, 3000, 40, 333, 700, 0]);
                items.push(Item {
                    property: free.remove(at).to_string(),
                    duration,
                    delay: *g.pick(&[0, 0, 0, 0, 50, 200, 77, -50, duration, 1300]),
                });
            }
            variants.push(Variant {
                items,
                shorthand: g.bool(),
                ms: g.bool(),
            });
        }
        let count = 1 + g.weighted(&[4, 2, 1]);
        let mut steps: Vec<Step> = vec![];
        while g.more(steps.len(), 3, 16, 11, 12) {
            let mut elements = vec![];
            for e in 0..count {
                let before = steps.last().map(|s: &Step| (s.elements[e].variant, s.elements[e].on.clone()));
                let (mut variant, mut on) = before.unwrap_or((Some(0), vec![false; rules.len()]));
                if g.chance(1, 12) {
                    variant = if g.chance(1, 3) { None } else { Some(g.below(variants.len())) };
                }
                if g.chance(1, 3) {
                    let at = g.below(rules.len());
                    on[at] = !on[at];
                }
                elements.push(State { variant, on });
            }
            let ms = match g.below(3) {
                0 => 16,
                1 => *g.pick(&[16, 0, 1, 5, 33, 50, 100, 250, 999, 2500]),
                _ => g.below(400) as u64,
            };
            steps.push(Step { ms, elements });
        }
        Case {
            variants,
            own,
            rules,
            steps,
            viewport: *g.pick(&[[800.0, 600.0], [320.0, 200.0]]),
        }
    }

    fn check(case: &Case, st: &mut Stats) -> Check {
        let count = case.steps[0].elements.len();
        let mut html = String::from("<html><body><div class=\"o\">");
        for i in 0..count {
            html += &format!("<div @class=\"e {{c{i}}}\"><b>x</b></div>");
        }
        html += "</div></body></html>";
        let mut css = format!(".e {{ {} }}\n", print_decls(&case.own));
        for (i, b) in case.rules.iter().enumerate() {
            css += &format!(".k{} {{ {} }}\n", ["a", "b", "c", "d"][i], print_decls(b));
        }
        for (i, v) in case.variants.iter().enumerate() {
            css += &format!(".v{i} {{ {} }}\n", v.print());
        }
        let mut view = bx::view(&html, &css)?;
        let mut playing: Vec<Vec<Playing>> = vec![vec![]; count];
        let (mut between, mut turned) = (0, 0);
        for (n, step) in case.steps.iter().enumerate() {
            let mut value = json!({});
            for (i, s) in step.elements.iter().enumerate() {
                let mut classes = vec![];
                for (i, on) in s.on.iter().enumerate() {
                    if *on {
                        classes.push(format!("k{}", ["a", "b", "c", "d"][i]));
                    }
                }
                if let Some(v) = s.variant {
                    classes.push(format!("v{v}"));
                }
                value[format!("c{i}")] = json!(classes.join(" "));
            }
            let input = bx::input(step.ms, vec![]).viewport(case.viewport);
            bx::update(&mut view, input, &value)?;
            let body = view.body();
            let tree = body.tree;
            let outer = body.children()[0].element;
            let nodes = tree.children(outer.node).unwrap();
            for (i, s) in step.elements.iter().enumerate() {
                let e = tree.get_node_context(nodes[i]).unwrap();
                let layout = tree.style(nodes[i]).unwrap();
                let ctx = Ctx {
                    parent_font: outer.font.size,
                    parent_color: outer.color,
                    viewport: case.viewport,
                };
                let mut computed = Computed::new();
                let mut vars = Vars::new();
                compute(&case.own, &mut vars, &mut computed);
                for (k, on) in s.on.iter().enumerate() {
                    if *on {
                        compute(&case.rules[k], &mut vars, &mut computed);
                    }
                }
                let mut shown: BTreeMap<(String, usize), Val> = computed.iter().map(|(k, v)| (k.clone(), canonical(v))).collect();
                let mut notes: BTreeMap<(String, usize), (f64, u32, bool)> = BTreeMap::new();
                // transitions listed by the previous update
                for p in playing[i].iter_mut() {
                    p.time += step.ms as i64;
                    let x = progress(p.time as f64, &p.item);
                    // times are summed up in single precision
                    let [lo, hi] = [-0.03, 0.03].map(|e| progress(p.time as f64 + e, &p.item));
                    let key = (p.item.property.clone(), p.layer);
                    let Some(value) = shown.get(&key).cloned() else {
                        p.range = None;
                        p.lost = false;
                        continue;
                    };
                    let Some((from, to)) = p.range.clone() else { continue };
                    let current = mix(&Some(from.clone()), &Some(to.clone()), x).unwrap();
                    let discrete = (current == from || current == to) && from != to;
                    let edge = lo < 1.0 && hi >= 1.0 || lo <= 0.0 && hi > 0.0;
                    if from != to && (discrete && lo < 0.5 && hi >= 0.5 || hi - lo > 0.1) {
                        p.lost = true;
                    }
                    if lo >= 1.0 {
                        p.turns = p.turns_of_target;
                        p.lost = false;
                    } else if edge && from != to {
                        p.turns += 1;
                    } else if x > 0.0 && from != to {
                        between += 1;
                    }
                    notes.insert(key.clone(), (x, p.turns, p.lost));
                    if to != value {
                        if x < 1.0 && x > 0.0 && from != to {
                            turned += 1;
                            p.turns += 1;
                        }
                        p.range = Some((current.clone(), value));
                        p.time = 0;
                        p.turns_of_target = 0;
                    }
                    shown.insert(key, current);
                }
                for (name, layer) in LONGHANDS.iter().flat_map(|(name, _)| (0..layers(name)).map(move |layer| (name, layer))) {
                    let key = (name.to_string(), layer);
                    let got = observe(name, layer, e, layout);
                    let want = match shown.get(&key) {
                        Some(v) => expect(name, v, &ctx),
                        None if INHERITED.contains(name) => observe(name, 0, outer, tree.style(outer.node).unwrap()),
                        None => default_of(name),
                    };
                    let note = notes.get(&key);
                    let ok = match note {
                        Some((_, _, true)) => true,
                        Some((x, turns, _)) if *x > 0.0 && *x < 1.0 || *turns > 0 => {
                            (0..=*turns).any(|_| close(name, &got, &want))
                                || *turns > 0 && close_by(&got, &want, *turns as f64)
                        }
                        _ => got == want || zero(&got) && zero(&want),
                    };
                    if !ok {
                        let times: Vec<u64> = case.steps[..=n].iter().map(|s| s.ms).collect();
                        return Err(format!(
                            "step {n}, element {i}: {name} [{layer}] is {got:?}, expected {want:?}\nspecified: {:?}, (progress, turns): {note:?}\nframe times: {times:?}\nvalue: {value}\nhtml: {html}\ncss:\n{css}",
                            computed.get(&key)
                        ));
                    }
                }
                let child = tree.get_node_context(tree.children(nodes[i]).unwrap()[0]).unwrap();
                for name in INHERITED {
                    let (a, b) = (observe(name, 0, e, layout), observe(name, 0, child, layout));
                    if a != b {
                        return Err(format!("step {n}, element {i}: {name} of its child is {b:?}, expected {a:?}\nvalue: {value}\ncss:\n{css}"));
                    }
                }
                // transitions for the next update
                let before = std::mem::take(&mut playing[i]);
                if let Some(v) = s.variant {
                    for (place, item) in case.variants[v].items.iter().enumerate() {
                        for layer in 0..layers(&item.property) {
                            let same = |b: &&Playing| b.item.property == item.property && b.layer == layer;
                            let mut p = match before.iter().filter(same).find(|b| b.place == place) {
                                Some(b) => b.clone(),
                                _ => Playing {
                                    item: item.clone(),
                                    place,
                                    layer,
                                    time: 0,
                                    range: None,
                                    turns: 0,
                                    turns_of_target: 0,
                                    // what is shown may be unknown
                                    lost: before.iter().filter(same).any(|b| b.lost),
                                },
                            };
                            p.item = item.clone();
                            if p.range.is_none() {
                                if let Some(v) = shown.get(&(item.property.clone(), layer)) {
                                    p.range = Some((v.clone(), v.clone()));
                                    p.turns = before.iter().filter(same).map(|b| b.turns + 1).max().unwrap_or(0);
                                    p.turns_of_target = p.turns;
                                }
                            }
                            playing[i].push(p);
                        }
                    }
                }
            }
        }
        st.label_n("samples on the way", between);
        st.label_n("changes on the way", turned);
        if between >= 2 || turned > 0 {
            st.nontrivial();
        }
        Ok(())
    }
}

fn zero(s: &str) -> bool {
    s.trim_end_matches('%') == "0.00"
}

/// Colours which were rounded several times.
fn close_by(a: &str, b: &str, slack: f64) -> bool {
    let (a, b): (Vec<&str>, Vec<&str>) = (a.split(' ').collect(), b.split(' ').collect());
    a.len() == b.len()
        && a.iter().zip(&b).all(|(a, b)| {
            a == b
                || match (a.trim_end_matches('%').parse::<f64>(), b.trim_end_matches('%').parse::<f64>()) {
                    (Ok(a), Ok(b)) => (a - b).abs() <= 0.05 + slack * 1.01,
                    _ => false,
                }
        })
}
