//! Replays the checker's cases on the JavaScript binding (built for this machine) and compares every result.
#[path = "/repo/wasm/src/transfor.rs"]
mod transfor;
mod board {
    include!("/repo/wasm/src/board.rs");
    pub mod drv { include!("/verif/harness_js/src/drv.rs"); }
}
#[path = "/repo/wasm/src/lib.rs"]
mod lib_;
mod gen;
use board::drv::{val, Obj, V};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn same(a: &V, b: &V) -> bool {
    match (a, b) {
        (V::Array(x), V::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| same(p, q)),
        (V::Object(x), V::Object(y)) => x.len() == y.len() && x.iter().all(|(k, v)| y.get(k).map(|w| same(v, w)).unwrap_or(false)),
        (V::Number(x), V::Number(y)) => x == y || x.as_f64() == y.as_f64(),
        // a JSON text has no NaN
        (V::String(s), V::Null) if s == "nan" || s == "inf" || s == "-inf" => true,
        _ => a == b,
    }
}
fn diff(want: &V, got: &V) -> String {
    let cut = |v: &V| v.to_string().chars().take(400).collect::<String>();
    match (want, got) {
        (V::Object(x), V::Object(y)) => x.iter().filter(|(k, v)| !y.get(*k).map(|w| same(v, w)).unwrap_or(false)).map(|(k, v)| format!("{}: {} want {}; ", k, y.get(k).map(cut).unwrap_or_default(), cut(v))).collect(),
        (V::Array(x), V::Array(y)) if x.len() == y.len() => x.iter().zip(y).enumerate().filter(|(_, (p, q))| !same(p, q)).take(3).map(|(i, (p, q))| format!("[{}]: {} want {}; ", i, cut(q), cut(p))).collect(),
        _ => format!("{} want {}", cut(got), cut(want)),
    }
}
fn i(a: &V, k: usize) -> i32 { a[k].as_i64().unwrap() as i32 }
fn text(a: &V) -> String { a.to_string() }
fn parsed(s: String) -> V { serde_json::from_str(&s).unwrap() }
fn function(op: &str, a: &V) -> Option<V> {
    Some(match op {
        "cal_bbbv" => val(lib_::cal_bbbv(&text(&a[0]))),
        "cal_op" => val(lib_::cal_op(&text(&a[0]))),
        "cal_possibility_onboard" => parsed(lib_::cal_possibility_onboard(&text(&a[0]), i(a, 1))),
        "laymine" => parsed(lib_::laymine_number(i(a, 0), i(a, 1), i(a, 2), i(a, 3), i(a, 4))),
        "laymine_op" => parsed(lib_::laymine_op_number(i(a, 0), i(a, 1), i(a, 2), i(a, 3), i(a, 4))),
        "laymine_solvable" => parsed(lib_::laymine_solvable(i(a, 0), i(a, 1), i(a, 2), i(a, 3), i(a, 4), i(a, 5))),
        "contract" => gen::contract(a),
        "uniform" => gen::uniform(a),
        _ => return None,
    })
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let path = std::env::args().nth(1).unwrap();
    let mut out = std::io::stdout();
    let (mut done, mut bad) = (0u64, 0);
    for (no, line) in std::io::BufReader::new(std::fs::File::open(path).unwrap()).lines().enumerate() {
        let line = line.unwrap().replace("-Infinity", "\"-inf\"").replace("Infinity", "\"inf\"").replace("NaN", "\"nan\"");
        let ops: V = serde_json::from_str(&line).unwrap();
        let ops = ops.as_array().unwrap();
        if no % 200 == 0 { let _ = writeln!(out, "AT case {}: {}", no, line.chars().take(300).collect::<String>()); let _ = out.flush(); }
        let mut obj = Obj::None;
        for (idx, t) in ops.iter().enumerate() {
            let (op, a, want) = (t[0].as_str().unwrap(), &t[1], &t[2]);
            let got = catch_unwind(AssertUnwindSafe(|| match function(op, a) { Some(v) => v, None => board::drv::run(&mut obj, op, a) })).unwrap_or(V::String("!".into()));
            if want == "?" { continue; }
            done += 1;
            if !same(want, &got) {
                bad += 1;
                let hist: Vec<String> = ops[idx.saturating_sub(12)..=idx].iter().map(|t| format!("{} {}", t[0].as_str().unwrap(), t[1].to_string().chars().take(200).collect::<String>())).collect();
                let _ = writeln!(out, "BAD {} :: after {} calls, {} gives {} -- last calls: {}", op, idx, op, diff(want, &got), hist.join(" ; "));
                break;
            }
        }
        if bad > 5 { break; }
    }
    let _ = writeln!(out, "DONE {}", done);
    let _ = out.flush();
}
