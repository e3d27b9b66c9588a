//! C20: formatting of stylesheets and parts without effect change nothing.

use crate::bx;
use crate::doc::*;
use crate::engine::*;
use crate::ev::*;
use crate::sel::*;
use crate::sty::*;
use bumaga::InputEvent;
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, Clone)]
pub enum Item {
    Rule(RuleSet),
    Frames(Keyframes),
}

#[derive(Serialize, Deserialize)]
pub struct Case {
    pub page: Page,
    /// the stylesheet
    pub items: Vec<Item>,
    /// the same stylesheet with parts that have no effect
    pub other: Vec<Item>,
    /// inline styles of elements in the order of the document
    pub inline: Vec<Vec<Decl>>,
    pub inline_other: Vec<Vec<Decl>>,
    /// choices of formatting
    pub format: Vec<u8>,
}

pub struct C20;

const CFG: PageCfg = PageCfg {
    events: &["onclick", "oninput", "onmouseenter", "onmouseleave"],
    density: 2,
    weights: [6, 6, 2, 2, 1],
    draggable: false,
    rich: false,
    cursors: true,
};

// ---------------------------------------------------------------------------------------------
// formatting

struct Format<'a> {
    choices: &'a [u8],
    at: usize,
    /// inline styles are in an attribute
    inline: bool,
}

impl Format<'_> {
    fn choose(&mut self) -> u8 {
        if self.choices.is_empty() {
            return 0;
        }
        self.at += 1;
        self.choices[(self.at - 1) % self.choices.len()]
    }

    /// Whitespace and comments where there may be none.
    fn gap(&mut self) -> String {
        let all = [
            "", " ", "\n", "\t", "  \r\n ", "/**/", " /* c */ ", "/* a: b; } { */", "\n/***/\n", "/* * / */", " /* .a, #b > c */", "/*\"*/",
        ];
        let gap = all[self.choose() as usize % all.len()];
        if self.inline && gap.contains('"') || self.inline && (gap.contains('{') || gap.contains('>')) {
            return "/*'*/".into();
        }
        gap.to_string()
    }

    fn between(&mut self) -> String {
        let all = [" ", "\n", "  ", "\t", "\r\n", "/**/", " /* c */ ", "/* a */\n/* b */"];
        all[self.choose() as usize % all.len()].to_string()
    }

    /// Between arguments of functions.
    fn space(&mut self) -> String {
        if self.choose() % 2 == 0 {
            return String::new();
        }
        self.gap()
    }

    fn number(&mut self, v: f32) -> String {
        let s = num(v);
        match self.choose() % 5 {
            1 if s.starts_with("0.") => s[1..].to_string(),
            2 if s.starts_with("-0.") => format!("-{}", &s[2..]),
            3 if s.contains('.') => format!("{s}0"),
            4 if !s.contains('.') => format!("{s}.0"),
            _ => s,
        }
    }

    fn val(&mut self, v: &Val) -> String {
        match v {
            Val::Dim(n, u) => format!("{}{u}", self.number(*n)),
            Val::Pct(n) => format!("{}%", self.number(*n)),
            Val::Time(n, u) => format!("{}{u}", self.number(*n)),
            Val::Num(n) if *n != 0.0 => self.number(*n),
            Val::Hex(_) if self.choose() % 2 == 1 => v.print().to_uppercase(),
            Val::Rgb(_) | Val::Rgba(..) | Val::RgbPct(_) | Val::Url(_) | Val::Var(_) => {
                let s = v.print();
                let (name, arguments) = s.split_once('(').unwrap();
                let arguments = arguments.strip_suffix(')').unwrap();
                let mut out = format!("{name}({}", self.space());
                let arguments: Vec<&str> = if matches!(v, Val::Url(_)) { vec![arguments] } else { arguments.split(", ").collect() };
                for (i, a) in arguments.iter().enumerate() {
                    if i > 0 {
                        out += &format!("{},{}", self.space(), self.space());
                    }
                    out += a;
                }
                out + &self.space() + ")"
            }
            v => v.print(),
        }
    }

    fn decls(&mut self, decls: &[Decl]) -> String {
        let mut s = self.gap();
        for d in decls {
            s += &format!("{}{}:{}", d.name, self.gap(), self.gap());
            for (i, item) in d.values.iter().enumerate() {
                if i > 0 {
                    s += &format!("{},{}", self.gap(), self.gap());
                }
                for (i, v) in item.iter().enumerate() {
                    if i > 0 {
                        s += &self.between();
                    }
                    s += &self.val(v);
                }
            }
            s += &format!("{};{}", self.gap(), self.gap());
        }
        s
    }

    fn selectors(&mut self, list: &[Complex]) -> String {
        let mut s = String::new();
        for (i, complex) in list.iter().enumerate() {
            if i > 0 {
                s += &format!("{},{}", self.gap(), self.gap());
            }
            s += &print_compound(&complex.first);
            for (comb, compound) in &complex.rest {
                s += &format!("{}{comb}{}{}", self.gap(), self.gap(), print_compound(compound));
            }
        }
        s
    }

    fn sheet(&mut self, items: &[Item]) -> String {
        let mut s = self.gap();
        for item in items {
            match item {
                Item::Rule(r) => {
                    s += &self.selectors(&r.sel);
                    s += &format!("{}{{{}}}{}", self.gap(), self.decls(&r.decls), self.gap());
                }
                Item::Frames(k) => {
                    s += &format!("@keyframes{}{}{}{{{}", self.between(), k.name, self.gap(), self.gap());
                    for (step, decls) in &k.frames {
                        s += &format!("{step}{}{{{}}}{}", self.gap(), self.decls(decls), self.gap());
                    }
                    s += &format!("}}{}", self.gap());
                }
            }
        }
        s
    }
}

fn plain(items: &[Item]) -> String {
    let items: Vec<String> = items
        .iter()
        .map(|i| match i {
            Item::Rule(r) => print_sheet(std::slice::from_ref(r)),
            Item::Frames(k) => k.print(),
        })
        .collect();
    items.join("\n")
}

// ---------------------------------------------------------------------------------------------
// parts without effect

const UNKNOWN: [&str; 10] = [
    "zoom", "-webkit-box", "unknown-property", "box-shadow", "caret-color", "clear", "outline-width", "z-index", "widths", "background-clip",
];

/// Properties of CSS without effect on anything that is displayed.
const INERT: &str = "accent-color alignment-baseline all anchor-name anchor-scope animation-composition animation-range \
    animation-range-end animation-range-start animation-timeline appearance aspect-ratio azimuth \
    backface-visibility background-attachment background-blend-mode background-clip background-origin \
    background-repeat background-size baseline-shift baseline-source block-ellipsis block-size block-step \
    block-step-align block-step-insert block-step-round block-step-size bookmark-label bookmark-level \
    bookmark-state border-block border-block-color border-block-end border-block-end-color border-block-end-style \
    border-block-end-styles border-block-end-width border-block-start border-block-start-color \
    border-block-start-style border-block-start-styles border-block-start-width border-block-style \
    border-block-styles border-block-width border-bottom-style border-bottom-styles border-boundary \
    border-collapse border-end-end-radius border-end-start-radius border-image border-image-outset \
    border-image-repeat border-image-slice border-image-source border-image-width border-inline \
    border-inline-color border-inline-end border-inline-end-color border-inline-end-style border-inline-end-styles \
    border-inline-end-width border-inline-start border-inline-start-color border-inline-start-style \
    border-inline-start-styles border-inline-start-width border-inline-style border-inline-styles \
    border-inline-width border-left-style border-left-styles border-right-style border-right-styles border-spacing \
    border-start-end-radius border-start-start-radius border-style border-styles border-top-style \
    border-top-styles box-decoration-break box-shadow box-snap break-after break-before break-inside caption-side \
    caret caret-animation caret-color caret-shape chains clear clip clip-path clip-rule color-adjust \
    color-interpolation-filters color-scheme column-count column-fill column-rule column-rule-color \
    column-rule-style column-rule-styles column-rule-width column-span column-width columns contain \
    contain-intrinsic-block-size contain-intrinsic-height contain-intrinsic-inline-size contain-intrinsic-size \
    contain-intrinsic-width container container-name container-type content content-visibility continue \
    counter-increment counter-reset counter-set cue cue-after cue-before direction dominant-baseline elevation \
    empty-cells field-sizing fill fill-break fill-color fill-image fill-opacity fill-origin fill-position \
    fill-repeat fill-rule fill-size filter flex flex-flow float float-defer float-offset float-reference \
    flood-color flood-opacity flow flow-from flow-into font font-feature-settings font-kerning \
    font-language-override font-optical-sizing font-palette font-size-adjust font-stretch font-synthesis \
    font-synthesis-position font-synthesis-small-caps font-synthesis-style font-synthesis-styles \
    font-synthesis-weight font-variant font-variant-alternates font-variant-caps font-variant-east-asian \
    font-variant-emoji font-variant-ligatures font-variant-numeric font-variant-position font-variation-settings \
    font-width footnote-display footnote-policy forced-color-adjust glyph-orientation-vertical grid grid-area \
    grid-auto-columns grid-auto-flow grid-auto-rows grid-column grid-column-end grid-column-start grid-row \
    grid-row-end grid-row-start grid-template grid-template-areas grid-template-columns grid-template-rows \
    hanging-punctuation hyphenate-character hyphenate-limit-chars hyphenate-limit-last hyphenate-limit-lines \
    hyphenate-limit-zone hyphens image-orientation image-rendering image-resolution initial-letter \
    initial-letter-align initial-letter-wrap inline-size inline-sizing input-security inset-area inset-block \
    inset-block-end inset-block-start inset-inline inset-inline-end inset-inline-start isolation letter-spacing \
    lighting-color line-break line-clamp line-fit-edge line-grid line-height line-height-step line-padding \
    line-snap list-style list-styles list-styles-image list-styles-position list-styles-type margin-block \
    margin-block-end margin-block-start margin-break margin-inline margin-inline-end margin-inline-start \
    margin-trim marker marker-end marker-knockout-left marker-knockout-right marker-mid marker-pattern \
    marker-segment marker-side marker-start mask mask-border mask-border-mode mask-border-outset \
    mask-border-repeat mask-border-slice mask-border-source mask-border-width mask-clip mask-composite mask-image \
    mask-mode mask-origin mask-position mask-repeat mask-size mask-type max-block-size max-inline-size max-lines \
    min-block-size min-inline-size min-intrinsic-sizing mix-blend-mode nav-down nav-left nav-right nav-up \
    object-fit object-position offset offset-anchor offset-distance offset-path offset-position offset-rotate \
    order orphans outline-color outline-offset outline-style outline-styles outline-width overflow-anchor \
    overflow-block overflow-clip-margin overflow-clip-margin-block overflow-clip-margin-block-end \
    overflow-clip-margin-block-start overflow-clip-margin-bottom overflow-clip-margin-inline \
    overflow-clip-margin-inline-end overflow-clip-margin-inline-start overflow-clip-margin-left \
    overflow-clip-margin-right overflow-clip-margin-top overflow-inline overflow-wrap overscroll-behavior \
    overscroll-behavior-block overscroll-behavior-inline overscroll-behavior-x overscroll-behavior-y padding-block \
    padding-block-end padding-block-start padding-inline padding-inline-end padding-inline-start page \
    page-break-after page-break-before page-break-inside pause pause-after pause-before perspective \
    perspective-origin pitch pitch-range place-content place-items place-self play-during position-anchor \
    position-area position-try position-try-fallbacks position-try-options position-try-order position-visibility \
    print-color-adjust property-name quotes region-fragment resize rest rest-after rest-before richness rotate \
    ruby-align ruby-merge ruby-overhang ruby-position running scale scroll-behavior scroll-margin \
    scroll-margin-block scroll-margin-block-end scroll-margin-block-start scroll-margin-bottom \
    scroll-margin-inline scroll-margin-inline-end scroll-margin-inline-start scroll-margin-left \
    scroll-margin-right scroll-margin-top scroll-padding scroll-padding-block scroll-padding-block-end \
    scroll-padding-block-start scroll-padding-bottom scroll-padding-inline scroll-padding-inline-end \
    scroll-padding-inline-start scroll-padding-left scroll-padding-right scroll-padding-top scroll-snap-align \
    scroll-snap-stop scroll-snap-type scroll-start-target scroll-timeline scroll-timeline-axis \
    scroll-timeline-name scrollbar-color scrollbar-gutter scrollbar-width shape-image-threshold shape-inside \
    shape-margin shape-outside spatial-navigation-action spatial-navigation-contain spatial-navigation-function \
    speak speak-as speak-header speak-numeral speak-punctuation speech-rate stress string-set stroke stroke-align \
    stroke-alignment stroke-break stroke-color stroke-dash-corner stroke-dash-justify stroke-dashadjust \
    stroke-dasharray stroke-dashcorner stroke-dashoffset stroke-image stroke-linecap stroke-linejoin \
    stroke-miterlimit stroke-opacity stroke-origin stroke-position stroke-repeat stroke-size stroke-width tab-size \
    table-layout text-align-all text-align-last text-autospace text-box text-box-edge text-box-trim \
    text-combine-upright text-decoration text-decoration-color text-decoration-line text-decoration-skip \
    text-decoration-skip-box text-decoration-skip-ink text-decoration-skip-inset text-decoration-skip-self \
    text-decoration-skip-spaces text-decoration-style text-decoration-styles text-decoration-thickness \
    text-decoration-trim text-emphasis text-emphasis-color text-emphasis-position text-emphasis-skip \
    text-emphasis-style text-emphasis-styles text-group-align text-indent text-justify text-orientation \
    text-overflow text-shadow text-spacing text-spacing-trim text-transform text-underline-offset \
    text-underline-position text-wrap text-wrap-mode text-wrap-style text-wrap-styles timeline-scope transform-box \
    transform-origin transform-style transform-styles transition-behavior translate unicode-bidi user-select \
    vertical-align view-timeline view-timeline-axis view-timeline-inset view-timeline-name view-transition-class \
    view-transition-name voice-balance voice-duration voice-family voice-pitch voice-range voice-rate voice-stress \
    voice-volume volume white-space white-space-collapse white-space-trim widows will-change word-break \
    word-space-transform word-spacing word-wrap wrap-after wrap-before wrap-flow wrap-inside wrap-through \
    writing-mode z-index zoom";

fn unknown(g: &mut Gen) -> Decl {
    let like = g.pick_s(&["width", "color", "font-family", "background-image", "opacity", "display", "font-weight", "border-top-width"]);
    Decl {
        name: if g.bool() {
            g.pick_s(&UNKNOWN)
        } else {
            let names: Vec<&str> = INERT.split_whitespace().collect();
            g.pick_s(&names)
        },
        values: g.vec(1, 2, |g| g.vec(1, 3, |g| gen_val(g, &like))),
    }
}

fn is_longhand(name: &str) -> bool {
    LONGHANDS.iter().any(|(n, _)| *n == name)
}

/// The same declarations with unknown properties, unused variables, and values which are
/// overridden by the following ones.
fn pad(g: &mut Gen, decls: &[Decl]) -> Vec<Decl> {
    let mut out = vec![];
    for d in decls {
        match g.below(8) {
            0 => out.push(unknown(g)),
            1 => out.push(Decl {
                name: g.pick_s(&["--unused", "--Not-used"]),
                values: vec![g.vec(1, 2, |g| gen_val(g, "width"))],
            }),
            2 if is_longhand(&d.name) => {
                let v = if g.chance(1, 3) { kw("banana") } else { gen_val(g, &d.name) };
                out.push(decl(&d.name, v));
            }
            3 if is_longhand(&d.name) => out.push(d.clone()),
            _ => {}
        }
        out.push(d.clone());
    }
    if g.chance(1, 6) {
        out.push(unknown(g));
    }
    out
}

/// A property that is not specified by any of the declarations, with a value of another type.
fn unsupported(g: &mut Gen, specified: &[&Decl]) -> Option<Decl> {
    let name = LONGHANDS[g.below(LONGHANDS.len())].0;
    let family = |name: &str| name.split('-').next().unwrap().to_string();
    let conflict = |d: &&Decl| {
        family(&d.name) == family(name)
            || d.name == "gap" && name.ends_with("-gap")
            || d.name == "inset" && ["top", "right", "bottom", "left"].contains(&name)
            || d.name.starts_with("transition") && d.values.iter().flatten().any(|v| *v == kw(name))
    };
    if name == "width" || specified.iter().any(|d| conflict(d)) {
        return None;
    }
    let px = Val::Dim(10.0, "px".into());
    let hex = Val::Hex(vec![255, 128, 0]);
    let seconds = Val::Time(2.0, "s".into());
    let wrong = match ty(name) {
        Ty::LenPctAuto | Ty::LenPct | Ty::Radius => vec![kw("banana"), hex, seconds],
        Ty::Len | Ty::BgPos | Ty::FontSize => vec![kw("banana"), hex, seconds],
        Ty::Color => vec![kw("banana"), px, seconds, Val::Pct(50.0), Val::Num(3.0)],
        Ty::Alpha | Ty::Factor => vec![kw("banana"), px, hex, seconds],
        Ty::FontWeight => vec![kw("banana"), px, hex, seconds, Val::Num(1001.0), Val::Num(-400.0)],
        Ty::FontFamily | Ty::Image => vec![px, hex, seconds, Val::Num(3.0)],
        Ty::Kw(_) => vec![kw("banana"), px, hex, seconds, Val::Num(3.0), Val::Zero],
    };
    let mut wrong = wrong;
    wrong.push(Val::Var("--Not-defined".into()));
    let value = wrong[g.below(wrong.len())].clone();
    Some(decl(name, value))
}

fn dead(g: &mut Gen) -> Item {
    if g.chance(1, 4) {
        let name = g.pick_s(&["Unused", "fade", "Fade-2"]);
        return Item::Frames(gen_frames(g, &name));
    }
    let nothing = |g: &mut Gen| -> Compound {
        let mut c = gen_compound(g, true);
        c.retain(|s| *s != Simple::All);
        c.push(match g.below(7) {
            5 => Simple::Pseudo(g.pick_s(&["visited", "nope", "hover-2", "first-child"])),
            // of something that is not an element
            6 => Simple::Pseudo(g.pick_s(&[":before", ":after", ":hover", ":selection"])),
            0 => Simple::Id("zz".into()),
            1 => Simple::Attr("zz".into(), g.pick_s(&["", "=", "~=", "|=", "^=", "$=", "*="]), "a".into()),
            2 => Simple::Attr("class".into(), "=".into(), "zz yy".into()),
            _ => Simple::Class("zz".into()),
        });
        c
    };
    let mut sel = vec![];
    while g.more(sel.len(), 1, 3, 1, 3) {
        let mut s = gen_complex(g, true);
        match g.below(3) {
            0 => s.first = nothing(g),
            1 => {
                let c = nothing(g);
                match s.rest.last_mut() {
                    Some(last) => last.1 = c,
                    None => s.first = c,
                }
            }
            _ => {
                s.first = vec![Simple::Type("zz-tag".into())];
            }
        }
        sel.push(s);
    }
    let mut decls = gen_decls(g, 0, 4);
    if g.chance(1, 4) {
        decls.push(Decl {
            name: "animation".into(),
            values: vec![vec![Val::Time(1.0, "s".into()), kw("Fade")]],
        });
    }
    Item::Rule(RuleSet { sel, decls })
}

fn equivalent(g: &mut Gen, items: &[Item]) -> Vec<Item> {
    let mut out = vec![];
    for item in items {
        if g.chance(1, 3) {
            out.push(dead(g));
        }
        match item {
            Item::Frames(k) => {
                if g.chance(1, 6) {
                    // redefined by the following one
                    out.push(Item::Frames(gen_frames(g, &k.name)));
                }
                let frames = k.frames.iter().map(|(s, d)| (s.clone(), pad(g, d))).collect();
                out.push(Item::Frames(Keyframes {
                    name: k.name.clone(),
                    frames,
                }));
            }
            Item::Rule(r) => match g.below(6) {
                // a rule for every selector
                0 => {
                    for s in &r.sel {
                        let decls = pad(g, &r.decls);
                        out.push(Item::Rule(RuleSet {
                            sel: vec![s.clone()],
                            decls,
                        }));
                    }
                }
                // two rules with a part of the declarations each
                1 => {
                    let n = g.below(r.decls.len() + 1);
                    for part in [&r.decls[..n], &r.decls[n..]] {
                        let decls = pad(g, part);
                        out.push(Item::Rule(RuleSet {
                            sel: r.sel.clone(),
                            decls,
                        }));
                    }
                }
                // twice
                2 => {
                    out.push(item.clone());
                    out.push(item.clone());
                }
                _ => {
                    let decls = pad(g, &r.decls);
                    let mut sel = r.sel.clone();
                    if g.chance(1, 6) {
                        sel.push(sel[0].clone());
                    }
                    out.push(Item::Rule(RuleSet { sel, decls }));
                }
            },
        }
    }
    if g.chance(1, 3) {
        out.push(dead(g));
    }
    out
}

/// Puts inline styles on elements of the body.
fn inline(e: &mut El, styles: &mut dyn Iterator<Item = String>) {
    let bound = e.attrs.iter().any(|a| matches!(a, Attr::Dyn(k, _) | Attr::Static(k, _) if k == "style"));
    if !bound {
        if let Some(s) = styles.next() {
            if s.starts_with('@') {
                // the part which is bound
                let spans = vec![
                    Span::Lit(s[1..].to_string() + "width:"),
                    Span::Bind(Expr {
                        path: vec!["a".into()],
                        pipe: vec![],
                    }),
                    Span::Lit("px;".into()),
                ];
                e.attrs.push(Attr::Dyn("style".into(), spans));
            } else if !s.is_empty() {
                e.attrs.push(Attr::Static("style".into(), s));
            }
        }
    }
    for kid in &mut e.kids {
        if let Node::El(kid) = kid {
            if kid.tag != "link" {
                inline(kid, styles);
            }
        }
    }
}

fn without_style(mut s: bx::Snap) -> bx::Snap {
    s.attrs.remove("style");
    // a single layer without a picture and a colour displays nothing
    let backgrounds = s.look.get_mut("backgrounds").unwrap();
    if backgrounds.starts_with("None false [0, 0, 0, 0] ") && !backgrounds.contains(';') {
        backgrounds.clear();
    }
    s.kids = s.kids.into_iter().map(without_style).collect();
    s
}

/// What an attribute can hold.
fn quoted(decls: &[Decl]) -> bool {
    decls.iter().flat_map(|d| d.values.iter().flatten()).any(|v| matches!(v, Val::Str(_) | Val::Url(_)))
}

impl Property for C20 {
    const ID: &'static str = "C20";
    const RULE: &'static str = "A random page with a generated stylesheet (selectors with states and combinators, any supported declarations, animations, transitions) and inline styles. A second view has the same styles in another formatting (whitespace and comments between all tokens where CSS allows it, line ends, spelling of numbers and colours) and with parts that have no effect (rules which match nothing, also because of an unknown pseudo-class or a pseudo-element, unknown properties, some 500 known properties which nothing implements, an unsupported value of a property not specified otherwise, unused variables and animations, overridden and repeated declarations, rules split by selector or by declaration, written twice). Through 1-8 values with times and events both views have equal snapshots, messages, captured flag and pointer image. Non-trivial: at least two rules, and both texts differ.";
    const CASES: (u64, u64) = (50_000, 500_000);
    type Case = Case;

    fn gen(g: &mut Gen) -> Case {
        let mut page = gen_page(g, &CFG);
        page.css.truncate(0);
        let mut sheet = gen_sheet(g, 7, true);
        let frames = if g.chance(1, 3) { gen_motion(g, &mut sheet) } else { vec![] };
        let mut items: Vec<Item> = frames.into_iter().map(Item::Frames).collect();
        items.extend(sheet.into_iter().map(Item::Rule));
        let other = equivalent(g, &items);
        let mut inline = vec![];
        let mut inline_other = vec![];
        for _ in 0..g.below(5) {
            let mut decls = if g.chance(1, 3) { vec![] } else { gen_decls(g, 0, 3) };
            decls.retain(|d| !quoted(std::slice::from_ref(d)));
            let mut padded = pad(g, &decls);
            padded.retain(|d| !quoted(std::slice::from_ref(d)));
            inline.push(decls);
            inline_other.push(padded);
        }
        let mut other = other;
        if g.bool() {
            let blocks = items.iter().flat_map(|i| match i {
                Item::Rule(r) => vec![&r.decls],
                Item::Frames(k) => k.frames.iter().map(|(_, d)| d).collect(),
            });
            let specified: Vec<&Decl> = blocks.flatten().chain(inline.iter().flatten()).collect();
            if let Some(d) = unsupported(g, &specified) {
                let at = g.below(other.len() + inline_other.len());
                if let Some(Item::Rule(r)) = other.get_mut(at) {
                    r.decls.insert(g.below(r.decls.len() + 1), d);
                } else if let Some(style) = at.checked_sub(other.len()).and_then(|at| inline_other.get_mut(at)) {
                    style.push(d);
                }
            }
        }
        for step in &mut page.steps {
            step.ms = g.int(0, 12) as u64 * 50;
        }
        Case {
            page,
            items,
            other,
            inline,
            inline_other,
            format: g.vec(1, 24, |g| g.below(120) as u8),
        }
    }

    fn check(case: &Case, st: &mut Stats) -> Check {
        let css = plain(&case.items);
        let mut format = Format {
            choices: &case.format,
            at: 0,
            inline: false,
        };
        let other = format.sheet(&case.other);
        let mark = |i: usize, s: String| if i % 3 == 2 { format!("@{s}") } else { s };
        let mut doc = case.page.doc.clone();
        inline(&mut doc.body, &mut case.inline.iter().enumerate().map(|(i, d)| mark(i, print_decls(d))));
        let html = doc.html();
        let mut doc = case.page.doc.clone();
        format.inline = true;
        let styles: Vec<String> = case.inline_other.iter().enumerate().map(|(i, d)| mark(i, format.decls(d))).collect();
        inline(&mut doc.body, &mut styles.into_iter());
        let html_other = doc.html();
        let mut a = bx::view(&html, &css)?;
        let mut b = bx::view(&html_other, &other)?;
        let mut boxes = vec![];
        for (i, step) in case.page.steps.iter().enumerate() {
            let explain = |d: String| -> Check {
                Err(format!(
                    "update {i}: {d}\nvalue: {}\nhtml: {html}\ncss:\n{css}\nother html: {html_other}\nother css:\n{other}",
                    step.value
                ))
            };
            let events: Vec<InputEvent> = step.events.iter().map(|e| e.event(&boxes)).collect();
            let x = bx::update(&mut a, bx::input(step.ms, events.clone()), &step.value)?;
            let y = bx::update(&mut b, bx::input(step.ms, events.clone()), &step.value)?;
            let (p, q) = (without_style(bx::snap(&a.body())), without_style(bx::snap(&b.body())));
            if let Some(d) = p.diff(&q, "") {
                return explain(d);
            }
            if x.messages != y.messages {
                return explain(format!("messages {:?} vs {:?}, events {events:?}", x.messages, y.messages));
            }
            if x.is_input_captured != y.is_input_captured || x.pointer != y.pointer {
                return explain(format!("captured {} vs {}, pointer {:?} vs {:?}", x.is_input_captured, y.is_input_captured, x.pointer, y.pointer));
            }
            let mut elements = vec![];
            bx::walk(a.body(), &mut elements);
            boxes = elements.iter().map(|e| (e.position, e.size)).collect();
        }
        st.label_n("rules", case.items.len() as u64);
        st.label_n("rules without effect or split", (case.other.len() - case.items.len()) as u64);
        st.label_n("inline styles", case.inline.len() as u64);
        if case.items.len() > 1 && css != other {
            st.nontrivial();
        }
        Ok(())
    }
}
