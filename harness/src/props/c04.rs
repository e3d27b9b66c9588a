//! C04: what declarations do: values, units, colours, shorthands, lists, variables, resets.

use crate::bx;
use crate::engine::*;
use crate::sty::*;
use serde::{Deserialize, Serialize};
use serde_json::json;

#[derive(Serialize, Deserialize)]
pub struct Step {
    /// which of the classes k0 k1 k2 the element has
    pub on: Vec<bool>,
    /// whether the inline style is there
    pub inline: bool,
    pub viewport: [f32; 2],
}

#[derive(Serialize, Deserialize)]
pub struct Case {
    pub outer: Vec<Decl>,
    /// rule of `.t`, then of `.k0`, `.k1`, `.k2`
    pub rules: Vec<Vec<Decl>>,
    pub inline: Vec<Decl>,
    pub steps: Vec<Step>,
}

pub struct C04;

/// Replaces some values by variables that are defined.
fn use_vars(g: &mut Gen, decls: &mut Vec<Decl>, outer: &mut Vec<Decl>) {
    let names = ["--va", "--vb", "--c_d", "--x-y"];
    let mut own = vec![];
    let mut again = vec![];
    for d in decls.iter_mut() {
        if d.name.starts_with("--") || !g.chance(1, 5) {
            continue;
        }
        let defined: Vec<String> = outer
            .iter()
            .filter(|o| o.name.starts_with("--"))
            .map(|o| o.name.clone())
            .collect();
        let free: Vec<&str> = names
            .iter()
            .filter(|n| !defined.contains(&n.to_string()))
            .cloned()
            .collect();
        if free.is_empty() {
            break;
        }
        let name = free[0].to_string();
        let item = g.below(d.values.len());
        let whole = g.chance(1, 3);
        let item = &mut d.values[item];
        let mut value = if whole {
            // several values in one variable
            std::mem::replace(item, vec![Val::Var(name.clone())])
        } else {
            let at = g.below(item.len());
            if matches!(item[at], Val::Var(_)) {
                continue;
            }
            let value = std::mem::replace(&mut item[at], Val::Var(name.clone()));
            let alike = ["padding", "margin", "border-width", "border-color", "border-radius"];
            if alike.contains(&d.name.as_str()) && g.bool() {
                // used more than once
                let other = g.below(item.len());
                item[other] = Val::Var(name.clone());
            }
            vec![value]
        };
        if g.chance(1, 3) {
            // the variable is defined by others
            for n in 0..g.len(1, 3) {
                let link = format!("{name}-{n}");
                let link_decl = Decl {
                    name: link.clone(),
                    values: vec![value],
                };
                if g.bool() {
                    outer.push(link_decl);
                } else {
                    outer.insert(0, link_decl);
                }
                value = vec![Val::Var(link)];
            }
        }
        let definition = Decl {
            name: name.clone(),
            values: vec![value],
        };
        let decoy = decl(&name, gen_val(g, "width"));
        match g.weighted(&[4, 1, 1]) {
            0 => outer.push(definition),
            1 => {
                // defined again in the same block
                outer.push(decoy);
                outer.push(definition);
            }
            _ => {
                // defined again by the element
                outer.push(decoy);
                own.push(definition);
            }
        }
        if g.chance(1, 3) && LONGHANDS.iter().any(|(n, _)| *n == d.name) && d.values.len() == 1 {
            again.push(decl(&d.name, gen_val(g, &d.name)));
            again.push(d.clone());
        }
    }
    decls.extend(again);
    own.append(decls);
    *decls = own;
}

fn gen_block(g: &mut Gen, lo: usize, hi: usize, backgrounds: bool) -> Vec<Decl> {
    let mut out = vec![];
    while g.more(out.len(), lo, hi, 4, 5) {
        let mut d = gen_decl(g);
        if d.name == "display" && g.chance(1, 4) {
            d = decl("display", Val::Kw("grid".into()));
        }
        if !backgrounds && d.name.starts_with("background") {
            continue;
        }
        out.push(d);
    }
    out
}

impl Property for C04 {
    const ID: &'static str = "C04";
    const RULE: &'static str = "An element with one rule of its own, up to three rules of classes that come and go over 1-5 updates, and an inline style that comes and goes; every rule is a block of generated declarations (57 longhand properties, 15 shorthands with 1-4 values, all units, colour notations, percentages, keywords, strings, lists of backgrounds, variables of one or more values). After every update (viewports vary) every longhand of the element equals the reference computation: the declarations in effect applied in order, units resolved against the font size of the parent, the viewport or 16px, or the initial / inherited value when none is in effect. Non-trivial: at least 3 declarations in effect, and the set of rules in effect changes or a shorthand or a variable is used.";
    const CASES: (u64, u64) = (240_000, 3_000_000);
    type Case = Case;

    fn gen(g: &mut Gen) -> Case {
        let list_mode = g.chance(1, 6);
        let mut outer = vec![];
        for p in ["font-size", "color", "font-weight", "font-family", "pointer-events"] {
            if g.chance(1, 3) {
                outer.push(decl(p, gen_val(g, p)));
            }
        }
        let mut rules = vec![gen_block(g, 1, 8, !list_mode)];
        for _ in 0..3 {
            rules.push(gen_block(g, 0, 5, !list_mode));
        }
        let mut inline = gen_block(g, 0, 3, !list_mode);
        if list_mode {
            let names = [
                "background-color",
                "background-image",
                "background-position-x",
                "background",
            ];
            let name = *g.pick(&names);
            let like = if name == "background" { "background-color" } else { name };
            let values = g.vec(2, 4, |g| vec![gen_val(g, like)]);
            rules[0].push(Decl {
                name: name.into(),
                values,
            });
        }
        for r in rules.iter_mut() {
            use_vars(g, r, &mut outer);
        }
        // an inline style is in double quotes
        inline.retain(|d| !print_decls(std::slice::from_ref(d)).contains('"'));
        let mut steps = vec![];
        while g.more(steps.len(), 1, 5, 3, 4) {
            let on = (0..3).map(|_| g.bool()).collect();
            let viewport = *g.pick(&[[800.0, 600.0], [600.0, 800.0], [1920.0, 1080.0], [320.0, 200.0]]);
            steps.push(Step {
                on,
                inline: g.bool(),
                viewport,
            });
        }
        Case {
            outer,
            rules,
            inline,
            steps,
        }
    }

    fn check(case: &Case, st: &mut Stats) -> Check {
        let html = r#"<html><body><div class="o"><div @class="t {k}" @style="{s}"></div></div></body></html>"#;
        let mut css = format!(".o {{ {} }}\n.t {{ {} }}\n", print_decls(&case.outer), print_decls(&case.rules[0]));
        for (i, r) in case.rules.iter().enumerate().skip(1) {
            css += &format!(".k{} {{ {} }}\n", i - 1, print_decls(r));
        }
        let mut view = bx::view(html, &css)?;
        for (n, step) in case.steps.iter().enumerate() {
            let mut classes = vec![];
            for (i, on) in step.on.iter().enumerate() {
                if *on {
                    classes.push(format!("k{i}"));
                }
            }
            let inline = if step.inline { print_decls(&case.inline) } else { String::new() };
            let value = json!({"k": classes.join(" "), "s": inline});
            let input = bx::input(0, vec![]).viewport(step.viewport);
            bx::update(&mut view, input, &value)?;
            let body = view.body();
            let outer = body.children()[0].element;
            let tree = body.tree;
            let node = tree.children(outer.node).unwrap()[0];
            let target = tree.get_node_context(node).unwrap();
            let layout = tree.style(node).unwrap();

            let ctx = Ctx {
                parent_font: outer.font.size,
                parent_color: outer.color,
                viewport: step.viewport,
            };
            let mut vars = Vars::new();
            compute(&case.outer, &mut vars, &mut Computed::new());
            let mut computed = Computed::new();
            let mut blocks = vec![&case.rules[0]];
            for (i, on) in step.on.iter().enumerate() {
                if *on {
                    blocks.push(&case.rules[i + 1]);
                }
            }
            if step.inline {
                blocks.push(&case.inline);
            }
            let mut count = 0;
            for b in &blocks {
                count += b.len();
                compute(b, &mut vars, &mut computed);
            }
            let mut backgrounds = 0;
            for ((k, i), _) in &computed {
                if k.starts_with("background") {
                    backgrounds = backgrounds.max(i + 1);
                }
            }
            if target.backgrounds.len() > backgrounds {
                return Err(format!(
                    "step {n}: {} backgrounds, expected {backgrounds}\nvalue: {value}\ncss:\n{css}",
                    target.backgrounds.len()
                ));
            }
            for (name, _) in LONGHANDS {
                let indexes = if name.starts_with("background") { backgrounds.max(1) } else { 1 };
                for index in 0..indexes {
                    let want = match computed.get(&(name.to_string(), index)) {
                        Some(v) => expect(name, v, &ctx),
                        None if INHERITED.contains(name) => {
                            observe(name, 0, outer, tree.style(outer.node).unwrap())
                        }
                        None => default_of(name),
                    };
                    let got = observe(name, index, target, layout);
                    if got != want {
                        return Err(format!(
                            "step {n}: {name}[{index}] is {got:?}, expected {want:?} of {:?}\nparent: font {} color {:?} viewport {:?}\nvalue: {value}\ncss:\n{css}",
                            computed.get(&(name.to_string(), index)),
                            ctx.parent_font, ctx.parent_color, ctx.viewport
                        ));
                    }
                }
            }
            st.label_n("declarations in effect", count as u64);
            if css.contains("var(") {
                st.label("with variables");
            }
            if count >= 3 && (n > 0 || css.contains("var(") || case.rules[0].iter().any(|d| SHORTHANDS.iter().any(|(s, _, _)| *s == d.name))) {
                st.nontrivial();
            }
        }
        Ok(())
    }
}
