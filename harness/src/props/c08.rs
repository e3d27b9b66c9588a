//! C08: positions, sizes, clipping, opacity and scrolling compose down the tree.

use crate::bx;
use crate::doc::*;
use crate::engine::*;
use crate::sel::*;
use bumaga::*;
use serde::{Deserialize, Serialize};
use serde_json::{Map, Value};
use taffy::style_helpers::TaffyMaxContent;
use taffy::{AvailableSpace, NodeId, Size, TaffyTree};

#[derive(Serialize, Deserialize)]
pub struct Step {
    pub value: Value,
    pub viewport: [f32; 2],
    pub wheel: [f32; 2],
}

#[derive(Serialize, Deserialize, Clone)]
pub enum Len {
    Px(f32),
    Em(f32),
    Rem(f32),
    Percent(f32),
    Vw(f32),
    Vh(f32),
}

#[derive(Serialize, Deserialize, Clone)]
pub enum Place {
    Flow,
    Relative(f32, f32),
    Absolute(f32, f32),
}

#[derive(Serialize, Deserialize, Clone)]
pub enum Inside {
    Blocks,
    /// column, gap, justify
    Flex(bool, f32, u8),
}

/// The styles of one box in one update.
#[derive(Serialize, Deserialize, Clone)]
pub struct Look {
    pub place: Place,
    pub inside: Inside,
    pub width: Option<Len>,
    pub height: Option<Len>,
    pub min_height: Option<f32>,
    pub max_width: Option<f32>,
    pub padding: [f32; 4],
    pub border: f32,
    pub left: f32,
    pub grow: f32,
    pub opacity: f32,
    pub font: Option<Len>,
    pub hidden: bool,
}

#[derive(Serialize, Deserialize, Clone)]
pub enum Kid {
    /// words, bound for every update
    Text(Vec<String>),
    Box(Block),
}

#[derive(Serialize, Deserialize, Clone)]
pub struct Block {
    pub looks: Vec<Look>,
    pub kids: Vec<Kid>,
}

#[derive(Serialize, Deserialize)]
pub enum Case {
    /// any document and styles: composition over an own run of the layout engine
    Compose { doc: Doc, sheet: Vec<RuleSet>, steps: Vec<Step> },
    /// boxes of a simple model, which are computed from their styles
    Blocks { body: Block, viewports: Vec<[f32; 2]> },
}

pub struct C08;

// ---------------------------------------------------------------------------------------------
// composition

struct Text {
    text: String,
    face: FontFace,
}

fn replica(tree: &TaffyTree<Element>, node: NodeId, out: &mut TaffyTree<Option<Text>>) -> NodeId {
    let kids: Vec<NodeId> = tree.children(node).unwrap().into_iter().map(|k| replica(tree, k, out)).collect();
    let style = tree.style(node).unwrap().clone();
    let e = tree.get_node_context(node).unwrap();
    let copy = if kids.is_empty() {
        let text = e.text.as_ref().map(|t| Text {
            text: t.to_string(),
            face: e.font.clone(),
        });
        out.new_leaf_with_context(style, text).unwrap()
    } else {
        out.new_with_children(style, &kids).unwrap()
    };
    copy
}

fn measure(known: Size<Option<f32>>, space: Size<AvailableSpace>, context: Option<&mut Option<Text>>) -> Size<f32> {
    if let (Some(width), Some(height)) = (known.width, known.height) {
        return Size { width, height };
    }
    let Some(Some(text)) = context else { return Size::ZERO };
    let max = match (known.width, space.width) {
        (Some(w), _) => Some(w),
        (None, AvailableSpace::Definite(w)) => Some(w),
        (None, AvailableSpace::MinContent) => Some(0.0),
        (None, AvailableSpace::MaxContent) => None,
    };
    let [width, height] = bx::measure(&text.text, &text.face, max);
    Size { width, height }
}

#[derive(Clone, Copy, PartialEq, Debug)]
struct Frame {
    origin: [f32; 2],
    opacity: f32,
    clip: Option<[f32; 4]>,
}

struct Seen {
    scrolls: u64,
    clipped: u64,
    elements: u64,
}

fn compose(
    tree: &TaffyTree<Element>,
    node: NodeId,
    copy: &TaffyTree<Option<Text>>,
    twin: NodeId,
    frame: Frame,
    path: &str,
    wheel: [f32; 2],
    seen: &mut Seen,
) -> Check {
    let e = tree.get_node_context(node).unwrap();
    let layout = copy.layout(twin).unwrap();
    let path = format!("{path}/{}", if e.text.is_some() { "#text" } else { &e.tag });
    let fail = |what: &str, got: String, expected: String| Err(format!("{path}: {what} is {got}, expected {expected}"));
    seen.elements += 1;
    let size = [layout.size.width, layout.size.height];
    if e.size != size {
        return fail("size", format!("{:?}", e.size), format!("{size:?}"));
    }
    let content = [layout.content_size.width, layout.content_size.height];
    if e.content_size != content {
        return fail("content size", format!("{:?}", e.content_size), format!("{content:?}"));
    }
    let position = [layout.location.x + frame.origin[0], layout.location.y + frame.origin[1]];
    if e.position != position {
        return fail("position", format!("{:?}", e.position), format!("{position:?}"));
    }
    let opacity = frame.opacity * e.self_opacity;
    if e.opacity != opacity {
        return fail("opacity", e.opacity.to_string(), opacity.to_string());
    }
    let clip = e.clipping.map(|l| [l.location.x, l.location.y, l.size.width, l.size.height]);
    if clip != frame.clip {
        return fail("clipping", format!("{clip:?}"), format!("{:?}", frame.clip));
    }
    let over = [(content[0] - size[0]).max(0.0), (content[1] - size[1]).max(0.0)];
    let mut inner = Frame {
        origin: position,
        opacity,
        clip: frame.clip,
    };
    match &e.scrolling {
        None if over != [0.0, 0.0] => return fail("scrolling", "none".into(), format!("{over:?}")),
        Some(_) if over == [0.0, 0.0] => return fail("scrolling", "some".into(), "none".into()),
        None => {}
        Some(s) => {
            seen.scrolls += 1;
            if [s.scroll_x, s.scroll_y] != over {
                return fail("range of scrolling", format!("{:?}", [s.scroll_x, s.scroll_y]), format!("{over:?}"));
            }
            if !(s.x >= 0.0 && s.x <= over[0] && s.y >= 0.0 && s.y <= over[1]) {
                return fail("scroll offset", format!("{} {}", s.x, s.y), format!("within {over:?}"));
            }
            // the wheel moves the content by steps up to its bounds
            let mut moved = s.clone();
            for _ in 0..3 {
                let before = [moved.x, moved.y];
                moved.offset(wheel);
                let step = |from: f32, way: f32, max: f32| if way == 0.0 { from } else { (from + way.signum() * 50.0).min(max).max(0.0) };
                let next = [step(before[0], wheel[0], over[0]), step(before[1], -wheel[1], over[1])];
                if [moved.x, moved.y] != next {
                    return fail("offset by wheel", format!("{} {}", moved.x, moved.y), format!("{next:?}"));
                }
            }
            inner.clip = Some([position[0], position[1], size[0], size[1]]);
            inner.origin = [position[0] - s.x, position[1] - s.y];
        }
    }
    if inner.clip.is_some() {
        seen.clipped += 1;
    }
    let kids = tree.children(node).unwrap();
    let twins = copy.children(twin).unwrap();
    for (i, (kid, twin)) in kids.into_iter().zip(twins).enumerate() {
        compose(tree, kid, copy, twin, inner, &format!("{path}[{i}]"), wheel, seen)?;
    }
    Ok(())
}

fn check_compose(doc: &Doc, sheet: &[RuleSet], steps: &[Step], st: &mut Stats) -> Check {
    let html = doc.html();
    let css = print_sheet(sheet);
    let mut view = bx::view(&html, &css)?;
    let mut seen = Seen {
        scrolls: 0,
        clipped: 0,
        elements: 0,
    };
    for (i, step) in steps.iter().enumerate() {
        let events = vec![InputEvent::MouseWheel(step.wheel)];
        bx::update(&mut view, bx::input(16, events).viewport(step.viewport), &step.value)?;
        let body = view.body();
        let mut copy = TaffyTree::new();
        let root = replica(body.tree, body.node, &mut copy);
        copy.compute_layout_with_measure(root, Size::MAX_CONTENT, |known, space, _, context, _| measure(known, space, context))
            .unwrap();
        let frame = Frame {
            origin: [0.0, 0.0],
            opacity: 1.0,
            clip: None,
        };
        compose(body.tree, body.node, &copy, root, frame, "", step.wheel, &mut seen)
            .map_err(|m| format!("after update {i}: {m}\nvalue: {}\nhtml: {html}\ncss:\n{css}", step.value))?;
    }
    st.label_n("elements", seen.elements);
    st.label_n("scrolling elements", seen.scrolls);
    st.label_n("clipping elements", seen.clipped);
    if seen.elements as usize > 4 * steps.len() && !sheet.is_empty() {
        st.nontrivial();
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// boxes

impl Len {
    fn print(&self) -> String {
        match self {
            Len::Px(v) => format!("{v}px"),
            Len::Em(v) => format!("{v}em"),
            Len::Rem(v) => format!("{v}rem"),
            Len::Percent(v) => format!("{v}%"),
            Len::Vw(v) => format!("{v}vw"),
            Len::Vh(v) => format!("{v}vh"),
        }
    }
    fn resolve(&self, font: f32, base: f32, viewport: [f32; 2]) -> f32 {
        match self {
            Len::Px(v) => *v,
            Len::Em(v) => v * font,
            Len::Rem(v) => v * 16.0,
            Len::Percent(v) => v * base / 100.0,
            Len::Vw(v) => v * viewport[0] / 100.0,
            Len::Vh(v) => v * viewport[1] / 100.0,
        }
    }
}

fn gen_size(g: &mut Gen, percent: bool) -> Len {
    match g.below(if percent { 6 } else { 5 }) {
        0 => Len::Px(g.int(5, 120) as f32),
        1 => Len::Em(g.int(1, 6) as f32),
        2 => Len::Rem(g.int(1, 6) as f32),
        3 => Len::Vw(g.int(1, 30) as f32),
        4 => Len::Vh(g.int(1, 30) as f32),
        _ => Len::Percent(*g.pick(&[50.0, 100.0, 25.0, 10.0])),
    }
}

fn gen_look(g: &mut Gen, in_flex: bool, under_flex: bool, has_text: bool, has_absolute: bool, body: bool) -> Look {
    let side = |g: &mut Gen| if g.chance(1, 3) { g.int(1, 12) as f32 } else { 0.0 };
    let inside = if !has_text && !has_absolute && g.chance(1, 3) {
        Inside::Flex(g.bool(), if g.bool() { g.int(1, 9) as f32 } else { 0.0 }, g.below(3) as u8)
    } else {
        Inside::Blocks
    };
    let fixed = in_flex || body;
    Look {
        place: if fixed || g.chance(2, 3) {
            Place::Flow
        } else {
            Place::Relative(g.int(-20, 40) as f32, g.int(-20, 40) as f32)
        },
        inside,
        width: if fixed || g.chance(1, 2) { Some(if body { Len::Px(g.int(100, 500) as f32) } else { gen_size(g, !fixed && !under_flex) }) } else { None },
        height: if in_flex || g.chance(1, 3) { Some(gen_size(g, false)) } else { None },
        min_height: if !in_flex && g.chance(1, 8) { Some(g.int(1, 90) as f32) } else { None },
        max_width: if !fixed && g.chance(1, 8) { Some(g.int(30, 200) as f32) } else { None },
        padding: [side(g), side(g), side(g), side(g)],
        border: if g.chance(1, 4) { g.int(1, 5) as f32 } else { 0.0 },
        left: if !fixed && g.chance(1, 5) { g.int(1, 20) as f32 } else { 0.0 },
        grow: if in_flex && g.chance(1, 3) { g.int(1, 3) as f32 } else { 0.0 },
        opacity: if g.chance(1, 3) { *g.pick(&[0.5, 0.25, 0.0]) } else { 1.0 },
        font: if g.chance(1, 6) {
            Some(match g.below(3) {
                0 => Len::Px(g.int(4, 30) as f32),
                1 => Len::Em(*g.pick(&[2.0, 0.5, 1.5])),
                _ => Len::Rem(2.0),
            })
        } else {
            None
        },
        hidden: g.chance(1, 8),
    }
}

/// `flex` tells whether the parent can be a flex container in some update.
fn gen_block(g: &mut Gen, depth: usize, updates: usize, role: u8, under_flex: bool) -> Block {
    // role 0: body, 1: in blocks, 2: in flex
    // the layout engine takes sizes of contents for percentages of them below flex boxes: not a subject
    let under_flex = under_flex || role == 2;
    let mut kids = vec![];
    let texts = depth > 0 && g.chance(1, 3);
    let absolutes = depth > 0 && g.chance(1, 3);
    if depth > 0 {
        while g.more(kids.len(), if role == 0 { 1 } else { 0 }, 4, 2, 3) {
            if texts && g.chance(1, 2) {
                let words = (0..updates)
                    .map(|_| {
                        let n = g.len(1, 6);
                        (0..n).map(|_| g.pick_s(&["word", "a", "longer", "жук"])).collect::<Vec<_>>().join(" ")
                    })
                    .collect();
                kids.push(Kid::Text(words));
            } else {
                let mut block = gen_block(g, depth - 1, updates, if texts || absolutes { 1 } else { 2 }, under_flex);
                if absolutes && g.chance(1, 2) {
                    for look in &mut block.looks {
                        look.place = Place::Absolute(g.int(-10, 60) as f32, g.int(-10, 60) as f32);
                        look.width = Some(gen_size(g, false));
                        look.height = Some(gen_size(g, false));
                        look.left = 0.0;
                        look.max_width = None;
                    }
                }
                kids.push(Kid::Box(block));
            }
        }
    }
    let mut looks = vec![];
    for _ in 0..updates {
        let look = gen_look(g, role == 2, under_flex, texts, absolutes, role == 0);
        looks.push(look);
    }
    Block { looks, kids }
}

impl Look {
    fn print(&self) -> String {
        let mut s = String::new();
        match self.place {
            Place::Flow => {}
            Place::Relative(x, y) => s += &format!("position: relative; left: {x}px; top: {y}px; "),
            Place::Absolute(x, y) => s += &format!("position: absolute; left: {x}px; top: {y}px; "),
        }
        if let Inside::Flex(column, gap, justify) = self.inside {
            s += &format!(
                "display: flex; flex-direction: {}; gap: {gap}px; justify-content: {}; ",
                if column { "column" } else { "row" },
                ["flex-start", "center", "flex-end"][justify as usize]
            );
        }
        if let Some(l) = &self.font {
            s += &format!("font-size: {}; ", l.print());
        }
        if let Some(l) = &self.width {
            s += &format!("width: {}; ", l.print());
        }
        if let Some(l) = &self.height {
            s += &format!("height: {}; ", l.print());
        }
        if let Some(v) = self.min_height {
            s += &format!("min-height: {v}px; ");
        }
        if let Some(v) = self.max_width {
            s += &format!("max-width: {v}px; ");
        }
        let [t, r, b, l] = self.padding;
        s += &format!("padding: {t}px {r}px {b}px {l}px; ");
        if self.border > 0.0 {
            s += &format!("border: {}px solid red; ", self.border);
        }
        if self.left != 0.0 {
            s += &format!("margin-left: {}px; ", self.left);
        }
        s += &format!("flex-grow: {}; flex-shrink: 0; opacity: {}; ", self.grow, self.opacity);
        s + if self.hidden { "visibility: hidden;" } else { "visibility: visible;" }
    }
}

#[derive(Debug)]
struct Rect {
    position: [f32; 2],
    size: [f32; 2],
    opacity: f32,
    visible: bool,
    /// what rounding of the position inside of every box can add up to
    slack: [f32; 2],
}

/// Everything an update needs to place boxes.
struct Place_<'a> {
    update: usize,
    viewport: [f32; 2],
    out: &'a mut Vec<Rect>,
    /// a box is smaller than its padding and borders, or boxes grow in a column of no height: how
    /// the layout engine deals with it is not a subject of this check
    degenerate: bool,
}

impl Block {
    fn print(&self, counter: &mut usize, tag: &str, html: &mut String) {
        let n = *counter;
        *counter += 1;
        html.push_str(&format!("<{tag} @style=\"{{s{n}}}\">"));
        for kid in &self.kids {
            match kid {
                Kid::Text(_) => {
                    let n = *counter;
                    *counter += 1;
                    // texts are separated
                    html.push_str(&format!("{{s{n}}}<!-- -->"));
                }
                Kid::Box(b) => b.print(counter, "div", html),
            }
        }
        html.push_str(&format!("</{tag}>"));
    }

    fn value(&self, update: usize, counter: &mut usize, out: &mut Map<String, Value>) {
        out.insert(format!("s{counter}"), Value::String(self.looks[update].print()));
        *counter += 1;
        for kid in &self.kids {
            match kid {
                Kid::Text(words) => {
                    out.insert(format!("s{counter}"), Value::String(words[update].clone()));
                    *counter += 1;
                }
                Kid::Box(b) => b.value(update, counter, out),
            }
        }
    }

    /// Places boxes relative to [0, 0]; gives the size.
    fn place(&self, p: &mut Place_, available: f32, flexed: Option<[f32; 2]>, font: f32, opacity: f32) -> [f32; 2] {
        let look = &self.looks[p.update];
        // lengths are relative to the font of the parent
        let outer = font;
        let font = match &look.font {
            Some(l) => l.resolve(font, font, p.viewport),
            None => font,
        };
        let [pt, pr, pb, pl] = look.padding;
        let b = look.border;
        let edges = [pl + pr + 2.0 * b, pt + pb + 2.0 * b];
        let mut w = match (flexed, &look.width) {
            (Some([w, _]), _) => w,
            (None, Some(l)) => l.resolve(outer, available, p.viewport),
            (None, None) => available - look.left,
        };
        if let Some(max) = look.max_width {
            w = w.min(max);
        }
        p.degenerate |= w < edges[0];
        w = w.max(edges[0]);
        let content = w - edges[0];
        let me = p.out.len();
        let opacity = opacity * look.opacity;
        p.out.push(Rect {
            position: [0.0, 0.0],
            size: [w, 0.0],
            opacity,
            visible: !look.hidden,
            slack: [0.05; 2],
        });
        let mut h = match (flexed, &look.height) {
            (Some([_, h]), _) => Some(h),
            (None, Some(l)) => Some(l.resolve(outer, 0.0, p.viewport)),
            (None, None) => None,
        };
        let inner = match look.inside {
            Inside::Blocks => {
                let mut y = pt + b;
                for kid in &self.kids {
                    match kid {
                        Kid::Text(words) => {
                            let face = FontFace {
                                family: "system-ui".into(),
                                size: font,
                                style: "normal".into(),
                                weight: 400,
                                line_height: 1.0,
                                align: TextAlign::Start,
                            };
                            let [_, th] = bx::measure(&words[p.update], &face, Some(content));
                            p.out.push(Rect {
                                position: [pl + b, y],
                                size: [content, th],
                                opacity,
                                visible: !look.hidden,
                                slack: [0.05 + rounding(pl + b), 0.05 + rounding(y)],
                            });
                            y += th;
                        }
                        Kid::Box(kid) => {
                            let kl = &kid.looks[p.update];
                            let at = p.out.len();
                            let [_, kh] = kid.place(p, content, None, font, opacity);
                            let offset = match kl.place {
                                Place::Flow => [pl + b + kl.left, y],
                                Place::Relative(dx, dy) => [pl + b + kl.left + dx, y + dy],
                                Place::Absolute(x, y) => [b + x, b + y],
                            };
                            p.shift(at, offset);
                            if !matches!(kl.place, Place::Absolute(..)) {
                                y += kh;
                            }
                        }
                    }
                }
                y - pt - b
            }
            Inside::Flex(column, gap, justify) => {
                let kids: Vec<&Block> = self
                    .kids
                    .iter()
                    .map(|k| match k {
                        Kid::Box(b) => b,
                        Kid::Text(_) => unreachable!(),
                    })
                    .collect();
                let gaps = gap * kids.len().saturating_sub(1) as f32;
                let mut base = vec![];
                for kid in &kids {
                    let kl = &kid.looks[p.update];
                    let edges = [
                        kl.padding[1] + kl.padding[3] + 2.0 * kl.border,
                        kl.padding[0] + kl.padding[2] + 2.0 * kl.border,
                    ];
                    let w = kl.width.as_ref().unwrap().resolve(font, content, p.viewport).max(edges[0]);
                    let h = kl.height.as_ref().unwrap().resolve(font, 0.0, p.viewport).max(edges[1]);
                    base.push([w, h]);
                }
                let main = if column { 1 } else { 0 };
                let sum: f32 = base.iter().map(|s| s[main]).sum::<f32>() + gaps;
                let room = if column { h.map(|h| h.max(look.min_height.unwrap_or(0.0)).max(edges[1]) - edges[1]) } else { Some(content) };
                let room = match (room, look.min_height) {
                    (None, Some(min)) if column => Some((min - edges[1]).max(sum)),
                    (None, _) => Some(sum),
                    (room, _) => room,
                }
                .unwrap();
                let mut free = room - sum;
                let grow: f32 = kids.iter().map(|k| k.looks[p.update].grow).sum();
                p.degenerate |= column && h.is_none() && grow > 0.0;
                if free > 0.0 && grow > 0.0 {
                    for (kid, size) in kids.iter().zip(base.iter_mut()) {
                        size[main] += free * kid.looks[p.update].grow / grow;
                    }
                    free = 0.0;
                }
                let mut at = match justify {
                    0 => 0.0,
                    1 => free / 2.0,
                    _ => free,
                };
                let mut cross: f32 = 0.0;
                for (kid, size) in kids.iter().zip(base) {
                    let first = p.out.len();
                    kid.place(p, content, Some(size), font, opacity);
                    let offset = if column { [pl + b, pt + b + at] } else { [pl + b + at, pt + b] };
                    p.shift(first, offset);
                    at += size[main] + gap;
                    cross = cross.max(size[1]);
                }
                if column {
                    sum
                } else {
                    cross
                }
            }
        };
        let auto = inner + edges[1];
        let mut height = h.take().unwrap_or(auto);
        if let Some(min) = look.min_height {
            height = height.max(min);
        }
        p.degenerate |= height < edges[1];
        p.out[me].size[1] = height;
        [w, height]
    }
}

/// Positions are rounded to whole pixels.
fn rounding(v: f32) -> f32 {
    if (v - v.round()).abs() < 0.001 {
        0.001
    } else {
        0.5
    }
}

impl Place_<'_> {
    fn shift(&mut self, from: usize, by: [f32; 2]) {
        for r in &mut self.out[from..] {
            for axis in [0, 1] {
                r.position[axis] += by[axis];
                r.slack[axis] += rounding(by[axis]);
            }
        }
    }
}

fn check_blocks(body: &Block, viewports: &[[f32; 2]], st: &mut Stats) -> Check {
    let mut html = String::from("<html>");
    body.print(&mut 0, "body", &mut html);
    html += "</html>";
    let mut view = bx::view(&html, "")?;
    for (update, viewport) in viewports.iter().enumerate() {
        let mut value = Map::new();
        body.value(update, &mut 0, &mut value);
        let value = Value::Object(value);
        bx::update(&mut view, bx::input(16, vec![]).viewport(*viewport), &value)?;
        let mut expected = vec![];
        let mut place = Place_ {
            update,
            viewport: *viewport,
            out: &mut expected,
            degenerate: false,
        };
        body.place(&mut place, 0.0, None, 16.0, 1.0);
        if place.degenerate {
            st.label("updates which are not compared");
            continue;
        }
        let mut elements = vec![];
        bx::walk(view.body(), &mut elements);
        if elements.len() != expected.len() {
            return Err(format!("{} elements, expected {}\nhtml: {html}", elements.len(), expected.len()));
        }
        let near = |a: [f32; 2], b: [f32; 2], s: [f32; 2]| (a[0] - b[0]).abs() < s[0] && (a[1] - b[1]).abs() < s[1];
        for (i, (e, r)) in elements.iter().zip(&expected).enumerate() {
            if !near(e.position, r.position, r.slack) || !near(e.size, r.size, [1.01; 2]) || (e.opacity - r.opacity).abs() > 1e-6 || e.visible != r.visible {
                return Err(format!(
                    "update {update}: box {i} <{}> is at {:?} of {:?} with opacity {}, visible {}, expected {r:?}\nvalue: {value:#}\nviewport: {viewport:?}\nhtml: {html}",
                    e.tag, e.position, e.size, e.opacity, e.visible
                ));
            }
        }
        st.label_n("boxes", expected.len() as u64);
        if expected.len() > 3 {
            st.nontrivial();
        }
    }
    Ok(())
}

impl Property for C08 {
    const ID: &'static str = "C08";
    const RULE: &'static str = "One half: a random styled document (any supported declarations, overflow and opacity often) through 1-4 values and viewports; sizes and contents equal those of an own run of the layout engine over the layout styles and texts of the displayed tree, and positions, opacity, clipping and scroll ranges equal their composition from the body down; scroll offsets moved by a wheel stay in bounds. Other half: trees of boxes (blocks, rows and columns of flex boxes, absolute and relative boxes, texts; px, em, rem, %, vw, vh, padding, borders, limits, gaps, growth, opacity, visibility) whose inline styles and texts change over 1-3 updates; position, size (within 1 px of rounding), opacity and visibility equal an independent computation from the styles. Non-trivial: more than 3 boxes, or more than 4 elements with a rule.";
    const CASES: (u64, u64) = (120_000, 1_500_000);
    type Case = Case;

    fn gen(g: &mut Gen) -> Case {
        if g.bool() {
            let updates = g.len(1, 3);
            let body = gen_block(g, 3, updates, 0, false);
            let viewports = (0..updates).map(|_| *g.pick(&[[800.0, 600.0], [400.0, 700.0], [801.0, 300.0]])).collect();
            return Case::Blocks { body, viewports };
        }
        let cfg = DocCfg {
            depth: 3,
            kids: 3,
            ..DocCfg::default()
        };
        let mut doc = DocGen::new(cfg).doc(g);
        dress(g, &mut doc.body, true);
        let shape = doc.shape();
        let mut sheet = gen_sheet(g, 6, false);
        for rule in &mut sheet {
            if g.chance(1, 3) {
                rule.decls.push(crate::sty::decl("opacity", crate::sty::Val::Num(*g.pick(&[0.5, 0.75, 0.0]))));
            }
            if g.chance(1, 3) {
                for p in ["width", "height"] {
                    rule.decls.push(crate::sty::decl(p, crate::sty::px(g.int(5, 60) as f32)));
                }
                rule.decls.push(crate::sty::decl("overflow", crate::sty::kw(&g.pick_s(&["hidden", "scroll", "visible"]))));
            }
        }
        let mut steps: Vec<Step> = vec![];
        while g.more(steps.len(), 1, 4, 2, 3) {
            let value = match steps.last() {
                Some(s) => mutate(g, &s.value, &shape, false),
                None => gen_value(g, &shape, false),
            };
            steps.push(Step {
                value,
                viewport: *g.pick(&[[800.0, 600.0], [400.0, 700.0], [800.0, 300.0]]),
                wheel: [g.int(-1, 1) as f32, g.int(-1, 1) as f32],
            });
        }
        Case::Compose { doc, sheet, steps }
    }

    fn check(case: &Case, st: &mut Stats) -> Check {
        match case {
            Case::Compose { doc, sheet, steps } => check_compose(doc, sheet, steps, st),
            Case::Blocks { body, viewports } => check_blocks(body, viewports, st),
        }
    }
}
