//! A reference model of interpolation and time of animations and transitions.

use crate::sty::*;

/// Value of a property which no declaration specifies, where it takes part in interpolation.
pub fn initial(name: &str) -> Option<Val> {
    match ty(name) {
        Ty::LenPct if name.starts_with("padding") => Some(Val::Zero),
        Ty::LenPctAuto if name.starts_with("margin") => Some(Val::Zero),
        Ty::Radius => Some(Val::Zero),
        _ => match name {
            "flex-grow" => Some(Val::Zero),
            "flex-shrink" | "opacity" => Some(Val::Num(1.0)),
            "font-size" => Some(px(16.0)),
            n if n.starts_with("border-") && n.ends_with("-color") => Some(kw("currentcolor")),
            "background-color" => Some(Val::Hex(vec![0, 0, 0, 0])),
            _ => None,
        },
    }
}

fn bytes(v: &Val) -> Option<[u8; 4]> {
    match v {
        Val::Hex(_) | Val::Rgb(_) | Val::Rgba(..) | Val::RgbPct(_) => color(
            v,
            &Ctx {
                parent_font: 0.0,
                parent_color: [0; 4],
                viewport: [0.0; 2],
            },
        ),
        _ => None,
    }
}

/// The value between `a` and `b`; values of different kinds switch in the middle.
pub fn mix(a: &Option<Val>, b: &Option<Val>, t: f64) -> Option<Val> {
    if t <= 0.0 {
        return a.clone();
    }
    if t >= 1.0 {
        return b.clone();
    }
    let lin = |a: f32, b: f32| (a as f64 + (b as f64 - a as f64) * t) as f32;
    if let (Some(a), Some(b)) = (a, b) {
        match (a, b) {
            (Val::Num(a), Val::Num(b)) => return Some(Val::Num(lin(*a, *b))),
            (Val::Num(a), Val::Zero) => return Some(Val::Num(lin(*a, 0.0))),
            (Val::Zero, Val::Num(b)) => return Some(Val::Num(lin(0.0, *b))),
            (Val::Pct(a), Val::Pct(b)) => return Some(Val::Pct(lin(*a, *b))),
            (Val::Pct(a), Val::Zero) if *a == 0.0 => return Some(Val::Zero),
            (Val::Pct(a), Val::Zero) => return Some(Val::Pct(lin(*a, 0.0))),
            (Val::Zero, Val::Pct(b)) => return Some(Val::Pct(lin(0.0, *b))),
            (Val::Dim(a, u), Val::Dim(b, v)) if u == v => {
                return Some(Val::Dim(lin(*a, *b), u.clone()))
            }
            (Val::Dim(a, u), Val::Zero) => return Some(Val::Dim(lin(*a, 0.0), u.clone())),
            (Val::Zero, Val::Dim(b, u)) => return Some(Val::Dim(lin(0.0, *b), u.clone())),
            _ => {
                if let (Some(a), Some(b)) = (bytes(a), bytes(b)) {
                    let c = (0..4).map(|i| lin(a[i] as f32, b[i] as f32) as u8).collect();
                    return Some(Val::Hex(c));
                }
            }
        }
    }
    (if t < 0.5 { a } else { b }).clone()
}

/// Whether two observations are the same but for rounding.
pub fn close(name: &str, a: &str, b: &str) -> bool {
    if a == b {
        return true;
    }
    // weights are whole numbers, truncated
    let slack = if name == "font-weight" { 1.0 } else { 0.0 };
    let (a, b): (Vec<&str>, Vec<&str>) = (a.split(' ').collect(), b.split(' ').collect());
    if a.len() != b.len() {
        return false;
    }
    let is_color = a[0] == "rgba";
    a.iter().zip(&b).all(|(a, b)| {
        if a == b {
            return true;
        }
        if a.ends_with('%') != b.ends_with('%') {
            // zero has no unit
            return a.trim_end_matches('%') == "0.00" && b.trim_end_matches('%') == "0.00";
        }
        match (a.trim_end_matches('%').parse::<f64>(), b.trim_end_matches('%').parse::<f64>()) {
            (Ok(a), Ok(b)) if is_color => (a - b).abs() <= 1.01,
            (Ok(a), Ok(b)) => (a - b).abs() <= slack + 0.025 + 1e-4 * a.abs(),
            _ => false,
        }
    })
}

#[derive(Clone, Debug, PartialEq)]
pub struct Frames {
    pub steps: std::collections::BTreeMap<u32, Option<Val>>,
}

impl Frames {
    pub fn at(&self, step: u32) -> Option<Val> {
        let (lo, a) = self.steps.range(..=step).next_back().expect("frame before");
        let (hi, b) = self.steps.range(step..).next().expect("frame after");
        if lo == hi {
            return a.clone();
        }
        mix(a, b, (step - lo) as f64 / (hi - lo) as f64)
    }
}

/// Percents of an animation that may be shown at a time (in ms): more than one where rounding
/// decides, None where it may be not begun.
pub fn steps(time: i64, delay: i64, duration: i64, iterations: Option<f64>, out: &mut Vec<Option<u32>>) {
    let t = time - delay;
    out.clear();
    if t <= 0 && !(t == 0 && time == 0) {
        out.push(None);
    }
    if t < 0 {
        return;
    }
    if duration == 0 {
        out.push(Some(100));
        return;
    }
    let cycles = t as f64 / duration as f64;
    let eps = 0.03 / duration as f64 + 2e-6 * cycles;
    for c in [cycles, cycles - eps, cycles + eps] {
        let mut c = c.max(0.0);
        if let Some(max) = iterations {
            c = c.min(max);
        }
        let x = if c > 1.0 {
            let x = c.fract();
            if x == 0.0 {
                1.0
            } else {
                x
            }
        } else {
            c
        };
        // 0.29 * 100 is 28.999..
        for e in [0.0, -1e-4, 1e-4] {
            let step = Some((x * 100.0 + e).clamp(0.0, 100.0) as u32);
            if !out.contains(&step) {
                out.push(step);
            }
        }
    }
}
