//! C13: animations are a function of the time that passed, of keyframes and settings.

use crate::anim::*;
use crate::bx;
use crate::engine::*;
use crate::sty::*;
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Serialize, Deserialize, Clone)]
pub struct Keyframe {
    pub step: u32,
    pub decls: Vec<Decl>,
}

/// One item of the animation list of an element.
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Item {
    pub name: String,
    pub duration: i64,
    pub delay: i64,
    /// none is infinite
    pub iterations: Option<f64>,
}

#[derive(Serialize, Deserialize, Clone)]
pub struct Variant {
    pub items: Vec<Item>,
    pub shorthand: bool,
    /// delays and timing in the shorthand
    #[serde(default)]
    pub compact: bool,
    pub ms: bool,
}

#[derive(Serialize, Deserialize)]
pub struct State {
    /// which of the variants specifies animations
    pub variant: Option<usize>,
    /// which of the additional rules of declarations is there
    pub base: Option<usize>,
    /// play states of the items
    pub paused: Option<Vec<bool>>,
}

#[derive(Serialize, Deserialize)]
pub struct Step {
    pub ms: u64,
    pub elements: Vec<State>,
}

#[derive(Serialize, Deserialize)]
pub struct Case {
    pub animations: BTreeMap<String, Vec<Keyframe>>,
    pub variants: Vec<Variant>,
    pub own: Vec<Decl>,
    pub bases: Vec<Vec<Decl>>,
    pub vars: Vec<Decl>,
    /// properties with transitions, their base values do not change: duration and delay
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub transitions: Vec<(String, i64, i64)>,
    /// animations of the same name which are defined earlier
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub earlier: Vec<(String, String)>,
    pub steps: Vec<Step>,
    pub viewport: [f32; 2],
}

pub struct C13;

/// Disjoint groups of properties.
const GROUPS: [&[&str]; 4] = [
    &["width", "height", "opacity", "padding-top", "padding", "flex-grow", "cursor"],
    &["background-color", "color", "left", "top", "font-weight", "flex-direction"],
    &["margin", "margin-left", "font-size", "border-radius", "visibility", "min-width"],
    &["border-width", "border-top-color", "border-color", "column-gap", "flex-shrink", "display", "background-image"],
];

fn gen_of(g: &mut Gen, name: &str) -> Decl {
    let sh = SHORTHANDS.iter().find(|(n, _, _)| *n == name);
    let item = match sh {
        Some((_, like, counts)) => {
            let n = *g.pick(counts);
            (0..n).map(|_| gen_val(g, like)).collect()
        }
        None => vec![gen_val(g, name)],
    };
    let mut values = vec![item];
    if name.starts_with("background-") && g.chance(1, 3) {
        values.push(vec![gen_val(g, name)]);
    }
    Decl {
        name: name.into(),
        values,
    }
}

fn time(v: i64, ms: bool) -> Val {
    if ms {
        Val::Time(v as f32, "ms".into())
    } else {
        Val::Time(v as f32 / 1000.0, "s".into())
    }
}

impl Variant {
    fn print(&self) -> String {
        let list = |f: &dyn Fn(&Item) -> String| self.items.iter().map(f).collect::<Vec<_>>().join(", ");
        let count = |i: &Item| match i.iterations {
            None => "infinite".to_string(),
            Some(n) => Val::Num(n as f32).print(),
        };
        let t = |v: i64| time(v, self.ms).print();
        if self.shorthand && self.compact {
            // iterations and delays have no shorthand together
            let mut css = format!("animation: {}; ", list(&|i| match (i.iterations, i.delay) {
                (Some(n), 0) if n == 1.0 => format!("{} linear {}", t(i.duration), i.name),
                (Some(n), _) if n == 1.0 => format!("{} linear {} {}", t(i.duration), t(i.delay), i.name),
                _ => format!("{} linear {} {}", t(i.duration), count(i), i.name),
            }));
            if self.items.iter().any(|i| i.iterations != Some(1.0) && i.delay != 0) {
                css += &format!("animation-delay: {};", list(&|i| t(i.delay)));
            }
            css
        } else if self.shorthand {
            let mut css = format!("animation: {}; ", list(&|i| match i.iterations {
                Some(n) if n == 1.0 => format!("{} {}", t(i.duration), i.name),
                _ => format!("{} linear {} {}", t(i.duration), count(i), i.name),
            }));
            if self.items.iter().any(|i| i.delay != 0) {
                css += &format!("animation-delay: {};", list(&|i| t(i.delay)));
            }
            css
        } else {
            format!(
                "animation-name: {}; animation-duration: {}; animation-delay: {}; animation-iteration-count: {}; animation-timing-function: {};",
                list(&|i| i.name.clone()),
                list(&|i| t(i.duration)),
                list(&|i| t(i.delay)),
                list(&count),
                list(&|_| "linear".into()),
            )
        }
    }
}

impl Case {
    fn css(&self) -> String {
        let mut css = format!(".o {{ {} }}\n.e {{ {} }}\n", print_decls(&self.vars), print_decls(&self.own));
        if !self.transitions.is_empty() {
            let list: Vec<_> = self.transitions.iter().map(|(p, t, d)| format!("{p} {t}ms linear {d}ms")).collect();
            css += &format!(".e {{ transition: {}; }}\n", list.join(", "));
        }
        for (i, b) in self.bases.iter().enumerate() {
            css += &format!(".b{i} {{ {} }}\n", print_decls(b));
        }
        for (i, v) in self.variants.iter().enumerate() {
            css += &format!(".v{i} {{ {} }}\n", v.print());
        }
        for bits in 1..4 {
            let s = |b: usize| if bits >> b & 1 == 1 { "paused" } else { "running" };
            css += &format!(".p{bits} {{ animation-play-state: {}, {}; }}\n", s(0), s(1));
        }
        for (name, frames) in &self.earlier {
            css += &format!("@keyframes {name} {{ {frames} }}\n");
        }
        for (name, frames) in &self.animations {
            css += &format!("@keyframes {name} {{\n");
            for f in frames {
                let step = match f.step {
                    0 if f.decls.len() % 2 == 0 => "from".to_string(),
                    100 if f.decls.len() % 2 == 0 => "to".to_string(),
                    s => format!("{s}%"),
                };
                css += &format!("  {step} {{ {} }}\n", print_decls(&f.decls));
            }
            css += "}\n";
        }
        css
    }

    /// Longhands of keyframes of an animation.
    fn frames(&self, name: &str, vars: &Vars) -> BTreeMap<(String, usize), BTreeMap<u32, Val>> {
        let mut out: BTreeMap<(String, usize), BTreeMap<u32, Val>> = BTreeMap::new();
        let mut computed: BTreeMap<u32, Computed> = BTreeMap::new();
        for f in &self.animations[name] {
            let mut c = Computed::new();
            compute(&f.decls, &mut vars.clone(), &mut c);
            computed.insert(f.step, c);
        }
        for (step, c) in computed {
            for (key, v) in c {
                out.entry(key).or_default().insert(step, v);
            }
        }
        out
    }
}

/// The value at a step of an animation, over the value without it.
fn over(frames: &BTreeMap<u32, Val>, name: &str, base: &Option<Val>, step: u32) -> Option<Val> {
    let absent = base.clone().or_else(|| initial(name));
    let mut steps: BTreeMap<u32, Option<Val>> = [(0, absent.clone()), (100, absent)].into();
    steps.extend(frames.iter().map(|(step, v)| (*step, Some(v.clone()))));
    Frames { steps }.at(step)
}

struct Playing {
    item: Item,
    running: bool,
    time: i64,
}

const TIMES: [u64; 11] = [16, 0, 1, 5, 33, 50, 100, 250, 999, 2500, 30000];

impl Property for C13 {
    const ID: &'static str = "C13";
    const RULE: &'static str = "1-4 @keyframes rules over sets of properties, mostly disjoint, (1-5 steps each of 0-100%, from/to, lengths of all units, percents, numbers, colours, keywords, shorthands, variables; first and last step may be missing), 1-3 lists of 1-2 animations (durations 0-3 s, delays of any sign, fractional and infinite iterations, shorthand, also without iterations and with a delay, or longhands), 1-3 elements with classes that bring animations, base declarations and play states and take them away over 2-14 updates with frame times of 0-2500 ms. After every update all 57 longhands of every element, and the inherited ones of its child, equal the reference, also in a third of cases where animated properties have transitions but no changes of their base values: the keyframes at the whole percent of the cycle at the time that passed since the animation was specified (paused updates not counted), interpolated linearly over the base style. Non-trivial: an animation is sampled strictly between two keyframes in at least two updates.";
    const CASES: (u64, u64) = (150_000, 2_000_000);
    type Case = Case;

    fn gen(g: &mut Gen) -> Case {
        let names = ["Fade", "moveIt", "x-2y", "_z1"];
        let mut vars = vec![];
        let n = 1 + g.below(4);
        let mut animations = BTreeMap::new();
        let mut props: Vec<&str> = vec![];
        for i in 0..n {
            // an animation which is specified later wins
            let group = if i > 0 && g.chance(1, 5) { GROUPS[i - 1] } else { GROUPS[i] };
            let mut group = g.subset(group, 1, 2);
            if group.is_empty() {
                group.push(GROUPS[i][0]);
            }
            props.extend(&group);
            let mut frames: Vec<Keyframe> = vec![];
            while g.more(frames.len(), 1, 5, 2, 3) {
                let step = match g.below(4) {
                    0 => 100,
                    1 => 0,
                    2 => *g.pick(&[50, 25, 75, 10, 90]),
                    _ => g.below(101) as u32,
                };
                if let Some(same) = frames.iter().find(|f| f.step == step) {
                    if g.chance(1, 3) {
                        // the same step again: the last one counts
                        let decls = same.decls.iter().map(|d| gen_of(g, &d.name)).collect();
                        frames.push(Keyframe { step, decls });
                    }
                    continue;
                }
                let mut decls = vec![];
                for p in &group {
                    if g.chance(2, 3) {
                        decls.push(gen_of(g, p));
                    }
                }
                if decls.is_empty() {
                    decls.push(gen_of(g, group[0]));
                }
                for d in decls.iter_mut() {
                    if vars.is_empty() && g.chance(1, 12) {
                        vars.push(decl("--v", d.values[0][0].clone()));
                        d.values[0][0] = Val::Var("--v".into());
                    }
                }
                frames.push(Keyframe { step, decls });
            }
            animations.insert(names[i].to_string(), frames);
        }
        let base = |g: &mut Gen| {
            let mut out = vec![];
            for p in &props {
                if g.chance(1, 3) {
                    out.push(gen_of(g, p));
                }
            }
            out
        };
        let own = base(g);
        let bases: Vec<_> = g.vec(0, 2, base);
        let mut variants = vec![];
        while g.more(variants.len(), 1, 3, 1, 3) {
            let mut items = vec![];
            let mut free: Vec<&str> = names[..n].to_vec();
            while g.more(items.len(), 1, 2, 1, 3) && !free.is_empty() {
                let at = g.below(free.len());
                let name = free.remove(at);
                items.push(Item {
                    name: if g.chance(1, 40) { "Missing".into() } else { name.to_string() },
                    duration: *g.pick(&[1000, 1000, 100, 250, 3000, 40, 333, 700, 0, 90000]),
                    delay: *g.pick(&[0, 0, 0, 50, 200, 77, -50, -300, 1500]),
                    iterations: *g.pick(&[Some(1.0), Some(1.0), None, Some(2.0), Some(1.5), Some(0.25), Some(3.0)]),
                });
            }
            variants.push(Variant {
                items,
                shorthand: g.bool(),
                compact: g.bool(),
                ms: g.bool(),
            });
        }
        let mut transitions = vec![];
        if g.chance(1, 3) {
            let (mut animated, mut changing) = (Computed::new(), Computed::new());
            let mut known = Vars::new();
            compute(&vars, &mut known, &mut Computed::new());
            for f in animations.values().flatten() {
                compute(&f.decls, &mut known, &mut animated);
            }
            for b in &bases {
                compute(b, &mut known, &mut changing);
            }
            let still: BTreeSet<&String> = animated.keys().map(|(p, _)| p).filter(|p| !changing.keys().any(|(q, _)| q == *p)).collect();
            let still: Vec<&String> = still.into_iter().collect();
            for p in g.subset(&still, 1, 2) {
                transitions.push((p.clone(), *g.pick(&[1000, 200, 100, 3000]), *g.pick(&[0, 0, 50, 500])));
            }
        }
        let mut earlier = vec![];
        while g.chance(1, 8) {
            let frames = g.pick_s(&["from { opacity: 0.5; } to { width: 90px; }", "50% { color: #123456; height: 7px; }", ""]);
            earlier.push((g.pick_s(&names[..n]), frames));
        }
        let count = 1 + g.weighted(&[4, 2, 1]);
        let mut steps: Vec<Step> = vec![];
        while g.more(steps.len(), 2, 14, 7, 8) {
            let mut elements = vec![];
            for e in 0..count {
                let before = steps.last().map(|s: &Step| {
                    let s = &s.elements[e];
                    (s.variant, s.base, s.paused.clone())
                });
                let (mut variant, mut base, mut paused) = before.unwrap_or((Some(0), None, None));
                if g.chance(1, 7) {
                    variant = if g.chance(1, 3) { None } else { Some(g.below(variants.len())) };
                }
                if !bases.is_empty() && g.chance(1, 6) {
                    base = if g.bool() { Some(g.below(bases.len())) } else { None };
                }
                if g.chance(1, 10) {
                    paused = if g.chance(1, 3) { None } else { Some(vec![g.bool(), g.bool()]) };
                }
                elements.push(State { variant, base, paused });
            }
            let ms = match g.below(3) {
                0 => 16,
                1 => *g.pick(&TIMES),
                _ => g.below(400) as u64,
            };
            steps.push(Step { ms, elements });
        }
        Case {
            animations,
            variants,
            own,
            bases,
            vars,
            transitions,
            earlier,
            steps,
            viewport: *g.pick(&[[800.0, 600.0], [320.0, 200.0]]),
        }
    }

    fn check(case: &Case, st: &mut Stats) -> Check {
        let count = case.steps[0].elements.len();
        let mut html = String::from("<html><body><div class=\"o\">");
        for i in 0..count {
            html += &format!("<div @class=\"e {{c{i}}}\"><b>x</b></div>");
        }
        html += "</div></body></html>";
        let css = case.css();
        let mut view = bx::view(&html, &css)?;
        let mut playing: Vec<Vec<Playing>> = (0..count).map(|_| vec![]).collect();
        let mut between = 0;
        let mut cands = vec![];
        for (n, step) in case.steps.iter().enumerate() {
            let mut value = json!({});
            for (i, s) in step.elements.iter().enumerate() {
                let mut classes = vec![];
                if let Some(b) = s.base {
                    classes.push(format!("b{b}"));
                }
                if let Some(v) = s.variant {
                    classes.push(format!("v{v}"));
                }
                if let Some(p) = &s.paused {
                    let bits = p[0] as usize + 2 * p[1] as usize;
                    if bits > 0 {
                        classes.push(format!("p{bits}"));
                    }
                }
                value[format!("c{i}")] = json!(classes.join(" "));
            }
            let input = bx::input(step.ms, vec![]).viewport(case.viewport);
            bx::update(&mut view, input, &value)?;
            let body = view.body();
            let tree = body.tree;
            let outer = body.children()[0].element;
            let nodes = tree.children(outer.node).unwrap();
            for (i, s) in step.elements.iter().enumerate() {
                let e = tree.get_node_context(nodes[i]).unwrap();
                let layout = tree.style(nodes[i]).unwrap();
                let ctx = Ctx {
                    parent_font: outer.font.size,
                    parent_color: outer.color,
                    viewport: case.viewport,
                };
                let mut vars = Vars::new();
                compute(&case.vars, &mut vars, &mut Computed::new());
                let mut base = Computed::new();
                compute(&case.own, &mut vars, &mut base);
                if let Some(b) = s.base {
                    compute(&case.bases[b], &mut vars, &mut base);
                }
                // animations specified by the previous update
                let mut tracks = vec![];
                for p in playing[i].iter_mut() {
                    if p.running {
                        p.time += step.ms as i64;
                    }
                    if !case.animations.contains_key(&p.item.name) {
                        continue;
                    }
                    steps(p.time, p.item.delay, p.item.duration, p.item.iterations, &mut cands);
                    let frames = case.frames(&p.item.name, &vars);
                    if let [Some(c)] = cands.as_slice() {
                        if frames.values().any(|f| !f.contains_key(c)) {
                            between += 1;
                        }
                    }
                    tracks.push((p.item.name.clone(), p.time, cands.clone(), frames));
                }
                let show = |v: &Option<Val>, name: &str| match v {
                    Some(v) => expect(name, v, &ctx),
                    None if INHERITED.contains(&name) => observe(name, 0, outer, tree.style(outer.node).unwrap()),
                    None => default_of(name),
                };
                let layers = |(name, _): &(&'static str, Ty)| {
                    let name = *name;
                    let count = if name.starts_with("background-") { 2 } else { 1 };
                    (0..count).map(move |index| (name, index))
                };
                for (name, index) in LONGHANDS.iter().flat_map(layers) {
                    let got = observe(name, index, e, layout);
                    let key = (name.to_string(), index);
                    let mut values = vec![base.get(&key).cloned()];
                    let mut animated = tracks.iter_mut().filter(|t| t.3.contains_key(&key)).collect::<Vec<_>>();
                    if let [(_, _, cands, frames)] = animated.as_mut_slice() {
                        let at = |c: &Option<u32>| match c {
                            None => values[0].clone(),
                            Some(c) => over(&frames[&key], name, &values[0], *c),
                        };
                        // a step which was shown is that of all properties
                        let left: Vec<_> = cands.iter().filter(|c| close(name, &got, &show(&at(c), name))).cloned().collect();
                        if !left.is_empty() {
                            *cands = left;
                            continue;
                        }
                    }
                    for (_, _, cands, frames) in animated {
                        let mut next = vec![];
                        for v in &values {
                            for c in cands.iter() {
                                next.push(match c {
                                    None => v.clone(),
                                    Some(c) => over(&frames[&key], name, v, *c),
                                });
                            }
                        }
                        values = next;
                    }
                    let want: Vec<String> = values.iter().map(|v| show(v, name)).collect();
                    if !want.iter().any(|w| close(name, &got, w)) {
                        let playing: Vec<String> = tracks.iter().map(|t| format!("{} at {} ms: step {:?}", t.0, t.1, t.2)).collect();
                        let times: Vec<u64> = case.steps[..=n].iter().map(|s| s.ms).collect();
                        return Err(format!(
                            "step {n}, element {i}: {name}[{index}] is {got:?}, expected {want:?}\nplaying: {playing:?}\nframe times: {times:?}\nvalue: {value}\nhtml: {html}\ncss:\n{css}"
                        ));
                    }
                }
                let child = tree.get_node_context(tree.children(nodes[i]).unwrap()[0]).unwrap();
                for name in INHERITED {
                    let (a, b) = (observe(name, 0, e, layout), observe(name, 0, child, layout));
                    if a != b {
                        return Err(format!("step {n}, element {i}: {name} of its child is {b:?}, expected {a:?}\nvalue: {value}\ncss:\n{css}"));
                    }
                }
                // settings for the next update
                let before = std::mem::take(&mut playing[i]);
                if let Some(v) = s.variant {
                    for (k, item) in case.variants[v].items.iter().enumerate() {
                        let time = match before.get(k) {
                            Some(b) if b.item.name == item.name => b.time,
                            _ => 0,
                        };
                        playing[i].push(Playing {
                            item: item.clone(),
                            running: !s.paused.as_ref().is_some_and(|p| p[k]),
                            time,
                        });
                    }
                }
            }
        }
        if !case.transitions.is_empty() {
            st.label("with transitions");
        }
        st.label_n("samples between keyframes", between);
        if between >= 2 {
            st.nontrivial();
        }
        Ok(())
    }
}
