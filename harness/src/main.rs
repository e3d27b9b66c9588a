mod anim;
mod bx;
mod doc;
mod engine;
mod ev;
mod sel;
mod sty;
mod props;

use engine::*;
use props::*;

macro_rules! dispatch {
    ($id:expr, $P:ident => $body:expr; $($m:ident :: $T:ident),*) => {
        match $id {
            $( x if x == <$m::$T as Property>::ID => { type $P = $m::$T; $body } )*
            other => { eprintln!("unknown property {other}"); std::process::exit(2) }
        }
    };
}

macro_rules! with_property {
    ($id:expr, $P:ident => $body:expr) => {
        dispatch!($id, $P => $body; c01::C01, c02::C02, c03::C03, c04::C04, c05::C05, c06::C06, c07::C07, c08::C08, c09::C09, c10::C10, c11::C11, c12::C12, c13::C13, c14::C14, c15::C15, c16::C16, c17::C17, c18::C18, c19::C19, c20::C20, c21::C21, c22::C22, c23::C23)
    };
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let arg = |i: usize| args.get(i).map(|s| s.as_str()).unwrap_or("");
    let root = std::env::var("HARNESS_ROOT").unwrap_or_else(|_| "/verif".into());
    let code = match arg(1) {
        "check" => with_property!(arg(2), P => check::<P>(&root)),
        "worker" => {
            let n = |i: usize| arg(i).parse::<u64>().unwrap();
            let (seed, index, stride, cases) = (n(3), n(4), n(5), n(6));
            with_property!(arg(2), P => worker::<P>(seed, index, stride, cases, arg(7), arg(8) == "trace"));
            0
        }
        "one" => with_property!(arg(2), P => one::<P>(arg(3))),
        "replay" => {
            let text = std::fs::read_to_string(arg(2)).expect("replay file");
            let value: serde_json::Value = serde_json::from_str(&text).expect("replay file");
            let id = value["property"].as_str().unwrap_or("").to_string();
            with_property!(id.as_str(), P => one::<P>(arg(2)))
        }
        "sample" => {
            let n = |i: usize| arg(i).parse::<u64>().unwrap_or(1);
            with_property!(arg(2), P => sample::<P>(n(3), n(4)));
            0
        }
        _ => {
            eprintln!("usage: harness check ID | replay FILE | one ID FILE | sample ID SEED COUNT");
            2
        }
    };
    std::process::exit(code);
}
