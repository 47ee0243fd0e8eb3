//! The generators of the JavaScript build, with every answer of the random source chosen here.
use crate::board::drv::V;
use crate::{i, lib_, parsed};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;

fn board(v: &V) -> Vec<Vec<i64>> { v.as_array().unwrap().iter().map(|r| r.as_array().unwrap().iter().map(|x| x.as_i64().unwrap()).collect()).collect() }
fn numbered(b: &Vec<Vec<i64>>) -> bool {
    let (r, c) = (b.len(), b[0].len());
    (0..r).all(|x| (0..c).all(|y| b[x][y] == -1 || b[x][y] == (x.max(1) - 1..r.min(x + 2)).flat_map(|p| (y.max(1) - 1..c.min(y + 2)).map(move |q| (p, q))).filter(|(p, q)| b[*p][*q] == -1).count() as i64))
}
/// [function, row, column, mines, x, y, times]: the board keeps what the arguments promise
pub fn contract(a: &V) -> V {
    let f = a[0].as_str().unwrap();
    let (r, c, n, x, y) = (i(a, 1), i(a, 2), i(a, 3), i(a, 4), i(a, 5));
    let t = match f {
        "laymine" => parsed(lib_::laymine_number(r, c, n, x, y)),
        "laymine_op" => parsed(lib_::laymine_op_number(r, c, n, x, y)),
        _ => { let t = parsed(lib_::laymine_solvable(r, c, n, x, y, i(a, 6))); let b: Vec<Vec<i32>> = serde_json::from_value(t[0].clone()).unwrap(); if t[1].as_bool().unwrap() && !ms_toollib::is_solvable(&b, x as usize, y as usize) { return V::from("reported guess-free, but it is not"); } t[0].clone() }
    };
    let b = board(&t);
    let ok = b.len() == r as usize && b.iter().all(|w| w.len() == c as usize) && b.iter().flatten().filter(|v| **v == -1).count() == n as usize && numbered(&b) && if f == "laymine" { b[x as usize][y as usize] != -1 } else { b[x as usize][y as usize] == 0 };
    if ok { V::from(true) } else { t }
}
struct Draw { answers: Vec<u64>, pos: usize, big: bool, odd: bool }
fn play(answers: &[u64], big: bool, f: &dyn Fn() -> V) -> (V, usize, bool) {
    let d = Rc::new(RefCell::new(Draw { answers: answers.to_vec(), pos: 0, big, odd: false }));
    let e = d.clone();
    getrandom::install(Some(Box::new(move |dest| {
        let mut d = e.borrow_mut();
        let t = d.answers.get(d.pos).cloned().unwrap_or(0);
        d.pos += 1;
        if d.pos > 100_000 { panic!("the generator keeps drawing"); }
        if dest.len() != 4 { d.odd = true; }
        let n = dest.len();
        for (k, x) in dest.iter_mut().enumerate() { let s = if d.big { n - 1 - k } else { k }; *x = if s < 8 { (t >> (8 * s)) as u8 } else { 0 }; }
    })));
    let v = f();
    getrandom::install(None);
    let d = d.borrow();
    (v, d.pos, d.odd)
}
fn gcd(a: u64, b: u64) -> u64 { if b == 0 { a } else { gcd(b, a % b) } }
/// [function, row, column, mines, x, y]: every layout allowed by the arguments is equally likely
pub fn uniform(a: &V) -> V {
    let mut last = String::new();
    for big in [true, false] { match try_uniform(a, big) { Ok(()) => return V::from(true), Err(e) => { if last.is_empty() { last = e } } } }
    V::from(last)
}
fn try_uniform(a: &V, big: bool) -> Result<(), String> {
    let op = a[0].as_str().unwrap().to_string();
    let (r, c, n, x, y) = (i(a, 1), i(a, 2), i(a, 3), i(a, 4), i(a, 5));
    let f = move || -> V { parsed(if op == "laymine" { lib_::laymine_number(r, c, n, x, y) } else { lib_::laymine_op_number(r, c, n, x, y) }) };
    let near = if a[0] == "laymine" { 1 } else { (r.min(x + 2) - (x.max(1) - 1)) * (c.min(y + 2) - (y.max(1) - 1)) };
    let area = (r * c - near) as u64;
    let (_, draws, odd) = play(&[], big, &f);
    if odd || draws > area as usize { return Ok(()); }
    // answers 0..m with m divisible by every limit up to the number of cells: each remainder equally often
    let m = (1..=area.max(1)).fold(1u64, |l, k| l / gcd(l, k) * k);
    if m.checked_pow(draws as u32).map(|v| v > 20_000_000).unwrap_or(true) { return Ok(()); }
    let mut count: BTreeMap<String, u64> = BTreeMap::new();
    let mut ans = vec![0u64; draws];
    loop {
        let (v, d, _) = play(&ans, big, &f);
        if d != draws { return Err(format!("{} draws instead of {} for the answers {:?}", d, draws, ans)); }
        *count.entry(v.to_string()).or_insert(0) += 1;
        let mut k = 0;
        while k < draws { ans[k] += 1; if ans[k] < m { break; } ans[k] = 0; k += 1; }
        if k == draws { break; }
    }
    let layouts = (0..n as u64).fold(1u64, |v, k| v * (area - k) / (k + 1));
    if count.len() as u64 != layouts { return Err(format!("{} of {} layouts can be drawn", count.len(), layouts)); }
    let each = *count.values().next().unwrap();
    if let Some((b, w)) = count.iter().find(|w| *w.1 != each) { return Err(format!("the layouts are not equally likely: {} comes {} times, another {}", b, w, each)); }
    // the whole range of one draw: answers are used up to a limit that is a multiple of the period, the rest is drawn again
    for k in 0..draws {
        let one = |t: u64| -> (String, bool) { let mut v = vec![0u64; draws]; v[k] = t; let (b, d, _) = play(&v, big, &f); (b.to_string(), d == draws) };
        let small: Vec<String> = (0..2 * m).map(|t| one(t).0).collect();
        let period = (1..=m).find(|q| (0..m as usize).all(|t| small[t] == small[t + *q as usize])).unwrap_or(m);
        let top = 1u64 << 32;
        let accepted: Vec<bool> = (top - 200..top).map(|t| one(t).1).collect();
        let used = accepted.iter().take_while(|v| **v).count() as u64;
        if accepted[used as usize..].iter().any(|v| *v) { return Err(format!("draw {}: answers near 2^32 are used and discarded in turns", k)); }
        if used == 0 { continue; }
        let total = top - 200 + used;
        if total % period != 0 { return Err(format!("draw {}: {} answers are used, which is no multiple of {}: low remainders are likelier", k, total, period)); }
        for t in total - used..total { if one(t).0 != small[(t % period) as usize] { return Err(format!("draw {}: answer {} does not act as its remainder by {}", k, t, period)); } }
    }
    Ok(())
}
