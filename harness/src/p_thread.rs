//! C14 C27: the multi-threaded generators under every schedule of their threads
use crate::choice::Tree;
use crate::ctx::*;
use crate::p_gen::{contract, free, Cfg};
use crate::refm::*;
use crate::sched::*;
use crate::solver_ref::solvable;
use ms_toollib::*;
use std::cell::RefCell;
use std::rc::Rc;
use std::sync::Mutex;

type Out = Rc<RefCell<Option<Result<(B, bool), String>>>>;
fn text(p: Box<dyn std::any::Any + Send>) -> String { p.downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| p.downcast_ref::<String>().cloned()).unwrap_or("panic".into()) }

/// draw sequences of laymine_op that give a guess-free board and one that is not
/// (several different guess-free ones, so that a mixture of the boards of two workers is noticed)
struct Draws { solvable: Vec<Vec<u64>>, unsolvable: Vec<u64>, per: u64 }
fn draws(g: &Cfg) -> Option<Draws> {
    let (mut s, mut u): (Vec<(B, Vec<u64>)>, Option<Vec<u64>>) = (vec![], None);
    let differ = |a: &B, b: &B| a.iter().zip(b).filter(|x| x.0 != x.1).count() * 2 > g.r;
    for pol in 0..16 {
        let mut t = Tree::new(pol, 2);
        let mut n = 0;
        while let Some((b, _, raw)) = t.next(|| std::panic::catch_unwind(|| laymine_op(g.r, g.c, g.m, g.p.0, g.p.1))) {
            let Ok(b) = b else { return None };
            if raw > 0 { return None; }
            if solvable(&b, g.p, None) { if s.len() < 3 && s.iter().all(|x| differ(&x.0, &b)) { s.push((b, t.draws())); } } else { u.get_or_insert(t.draws()); }
            n += 1;
            if n > 4000 || s.len() == 3 && u.is_some() { break; }
        }
    }
    let s: Vec<Vec<u64>> = s.into_iter().map(|x| x.1).collect();
    match (s, u) { (s, Some(u)) if s.len() > 1 && s.iter().all(|x| x.len() == u.len()) && !u.is_empty() => Some(Draws { per: u.len() as u64, solvable: s, unsolvable: u }), _ => None }
}
/// scripts: per worker, the attempts that give a guess-free board
struct Job { g: Cfg, times: usize, lucky: Vec<Vec<u64>>, budgets: Vec<u64>, lucky_tail: bool, differ: bool, cap: u64 }
fn case(j: &Job) -> String { format!("laymine_solvable_thread({},{},{},{},{},{}) guess-free attempts per worker {:?}{}", j.g.r, j.g.c, j.g.m, j.g.p.0, j.g.p.1, j.times, j.lucky, if j.differ { " (different boards)" } else if j.lucky_tail { " (and every later board)" } else { "" }) }
/// explores all schedules; answers draws per thread of the first (round robin) execution
fn one(ctx: &Ctx, j: &Job, d: &Rc<Draws>, probe: bool) -> Vec<u64> {
    let out: Out = Rc::new(RefCell::new(None));
    let (o2, g, times) = (out.clone(), j.g, j.times);
    let body = move || {
        let r = std::panic::catch_unwind(|| laymine_solvable_thread(g.r, g.c, g.m, g.p.0, g.p.1, times));
        *o2.borrow_mut() = Some(r.map_err(text));
    };
    let lucky = Rc::new(j.lucky.clone());
    // which guess-free board a worker finds
    let mut k = 0;
    let variant: Vec<usize> = j.lucky.iter().map(|l| { if !l.is_empty() { k += 1; } if j.differ && !l.is_empty() { (k - 1) % d.solvable.len() } else { 0 } }).collect();
    let variant = Rc::new(variant);
    let v2 = variant.clone();
    let (l2, d2, per, tail) = (lucky.clone(), d.clone(), d.per, j.lucky_tail);
    let draw = move |t: usize, i: u64, n: u64| {
        let k = i / per;
        let good = t > 0 && l2.get(t - 1).map_or(false, |v| v.contains(&k) || tail && k > 0);
        (if good { &d2.solvable[v2.get(t - 1).copied().unwrap_or(0)] } else { &d2.unsolvable })[(i % per) as usize] % n
    };
    let l3 = lucky.clone();
    let b3 = j.budgets.clone();
    let classes = move |t: usize| if t == 0 { 0 } else { let mut h = 7 + b3.get(t - 1).copied().unwrap_or(99) * 1000; for x in l3.get(t - 1).iter().flat_map(|v| v.iter()) { h = h * 31 + x + 1; } h * 5 + variant.get(t - 1).copied().unwrap_or(0) as u64 };
    let expect = j.lucky.iter().zip(&j.budgets).any(|(l, b)| l.iter().any(|k| k < b));
    let mut memo = std::collections::HashMap::new();
    let mut first = None;
    let c = || case(j);
    let st = call(&c, || explore(classes, draw, body, |s| {
        first.get_or_insert_with(|| s.draws.clone());
        let sch = || format!("{} schedule {:?}", case(j), s.schedule);
        if s.deadlock { ctx.violation("deadlock", || format!("no thread can go on: {}", sch())); return false; }
        if s.livelock { ctx.violation("livelock", || format!("does not end: {}", sch())); return false; }
        match out.borrow_mut().take() {
            None => ctx.violation("no-result", sch),
            Some(Err(e)) => ctx.violation("panic", || format!("{}: {}", sch(), e)),
            Some(Ok((b, ok))) => {
                if let Some(e) = contract(&b, g.r, g.c, g.m, g.p, true) { ctx.violation("contract", || format!("{}: {} board {}", sch(), e, show(&b))); return false; }
                let sol = *memo.entry(b.clone()).or_insert_with(|| solvable(&b, g.p, None));
                if ok && !sol { ctx.violation("not-solvable", || format!("{}: reported guess-free board {}", sch(), show(&b))); return false; }
                if !probe && expect && !ok { ctx.violation("success-lost", || format!("{}: a worker found a guess-free board but failure is reported", sch())); return false; }
                if !probe && !expect && ok && !j.lucky_tail { ctx.violation("success-invented", sch); return false; }
                let boards: u64 = s.draws.iter().sum::<u64>() / d2_per(per);
                if boards > times as u64 + s.threads as u64 { ctx.violation("too-many-attempts", || format!("{}: {} boards generated", sch(), boards)); return false; }
                if !ok && boards < times as u64 { ctx.violation("gives-up", || format!("{}: failure after {} boards", sch(), boards)); return false; }
                return true;
            }
        }
        false
    }, if probe { 1 } else { j.cap }));
    match st {
        Ok(st) => {
            ctx.add(st.states, st.transitions, (j.lucky.iter().any(|l| !l.is_empty())) as u64);
            ctx.count("schedules_executed", st.runs);
            ctx.count("operations_executed", st.steps);
            if std::env::var("MC_TIMES").is_ok() { eprintln!("{} {:?}", case(j), st); }
            if st.capped && !probe { ctx.capped.store(true, std::sync::atomic::Ordering::Relaxed); ctx.count("configurations_cut_off", 1); }
        }
        Err(e) => ctx.violation("harness", || format!("{}: {}", case(j), e)),
    }
    first.unwrap_or_default()
}
fn d2_per(p: u64) -> u64 { p.max(1) }
/// nobody succeeds: every attempt allowed is made (plus one more board per worker, or one at the end, or none)
fn attempts(ctx: &Ctx, j: &Job, draws: &[u64], per: u64) {
    let total: u64 = draws.iter().map(|x| x / per).sum();
    let (t, w) = (j.times as u64, draws.len().saturating_sub(1) as u64);
    if draws.is_empty() || draws.iter().any(|x| x % per != 0) { return; }
    if ![t, t + 1, t + w].contains(&total) { ctx.violation("attempts", || format!("{}: {} boards generated by {} workers ({:?}) when no attempt succeeds", case(j), total, w, draws.iter().map(|x| x / per).collect::<Vec<_>>())); }
}
pub fn c14(ctx: &Ctx) {
    let th = ctx.thorough;
    let mut jobs: Vec<(Job, std::sync::Arc<(Vec<Vec<u64>>, Vec<u64>)>)> = vec![];
    let cfgs = [Cfg { r: 4, c: 4, m: 3, p: (1, 1), op: true }, Cfg { r: 5, c: 4, m: 4, p: (2, 1), op: true }, Cfg { r: 4, c: 6, m: 5, p: (0, 0), op: true }, Cfg { r: 3, c: 5, m: 2, p: (1, 4), op: true }];
    let mut skipped = 0u64;
    for (ci, g) in cfgs.iter().enumerate() {
        let Some(d) = draws(g) else { ctx.violation("setup", || format!("laymine_op {:?} panics or gives no guess-free or only guess-free boards", g)); continue };
        let sh = std::sync::Arc::new((d.solvable.clone(), d.unsolvable.clone()));
        let d = Rc::new(d);
        let times: Vec<usize> = match (ci, th) { (0, false) => vec![0, 1, 2, 3, 4, 5, 8, 9], (0, true) => (0..=12).collect(), (_, false) => vec![0, 2, 9], (_, true) => vec![0, 1, 2, 3, 4, 8, 9] };
        for t in (10..40usize).chain([100, 1000]) {
            let probe = Job { g: *g, times: t, lucky: vec![], budgets: vec![], lucky_tail: false, differ: false, cap: 1 };
            let f = one(ctx, &probe, &d, true);
            attempts(ctx, &probe, &f, d.per);
        }
        for t in times {
            // how many attempts each worker has when nobody succeeds
            let probe = Job { g: *g, times: t, lucky: vec![], budgets: vec![], lucky_tail: false, differ: false, cap: 1 };
            let f = one(ctx, &probe, &d, true);
            let per: Vec<u64> = f.iter().skip(1).map(|x| x / d.per).collect();
            let total: u64 = per.iter().sum();
            attempts(ctx, &probe, &f, d.per);
            let budgets: Vec<u64> = if total == t as u64 { per } else { per.iter().map(|x| x.saturating_sub(1)).collect() };
            // groups of workers with the same budget; within one, only how many have which script matters
            let mut groups: Vec<(u64, Vec<usize>)> = vec![];
            for (i, b) in budgets.iter().enumerate() { match groups.iter_mut().find(|x| x.0 == *b) { Some(x) => x.1.push(i), None => groups.push((*b, vec![i])) } }
            let mut all: Vec<Vec<Vec<u64>>> = vec![vec![vec![]; budgets.len()]];
            for (b, ws) in &groups {
                // scripts: lucky at attempt k < b, or never
                let mut next = vec![];
                let opts = *b as usize + 1;
                fn multi(n: usize, k: usize) -> Vec<Vec<usize>> { if k == 1 { return vec![vec![n]]; } let mut v = vec![]; for a in 0..=n { for mut r in multi(n - a, k - 1) { r.insert(0, a); v.push(r); } } v }
                for base in &all { for m in multi(ws.len(), opts) {
                    let mut s = base.clone();
                    let mut it = ws.iter();
                    for (k, cnt) in m.iter().enumerate() { for _ in 0..*cnt { let w = *it.next().unwrap(); if k < *b as usize { s[w] = vec![k as u64]; } } }
                    next.push(s);
                } }
                all = next;
            }
            for l in all {
                let k = l.iter().filter(|x| !x.is_empty()).count();
                if k == 8 && t == 8 { jobs.push((Job { g: *g, times: t, lucky: l.clone(), budgets: budgets.clone(), lucky_tail: false, differ: false, cap: 3_000_000 }, sh.clone())); continue; }
                let most = match (th, t) { (_, 0..=4) => 4, (false, 8) => 3, (false, 0..=8) => 2, (false, _) => 1, (true, 0..=8) => 5, (true, 9) => 2, _ => 1 };
                if k > most { skipped += 1; continue; }
                jobs.push((Job { g: *g, times: t, lucky: l.clone(), budgets: budgets.clone(), lucky_tail: false, differ: k > 1 && k <= if th { 3 } else { 2 }, cap: if th { 40_000_000 } else { 2_000_000 } }, sh.clone()));
            }
            if budgets.iter().all(|b| *b < 2) || t == 9 { jobs.push((Job { g: *g, times: t, lucky: vec![vec![]; budgets.len()], budgets: budgets.clone(), lucky_tail: true, differ: false, cap: if th { 40_000_000 } else { 2_000_000 } }, sh.clone())); }
        }
    }
    jobs.sort_by_key(|j| std::cmp::Reverse((j.0.times, j.0.lucky.iter().filter(|x| !x.is_empty()).count())));
    let big = Mutex::new(0u64);
    ctx.par(jobs.len(), |i| {
        let (j, s) = &jobs[i];
        let d = Rc::new(Draws { solvable: s.0.clone(), unsolvable: s.1.clone(), per: s.1.len() as u64 });
        let t0 = real_now();
        one(ctx, j, &d, false);
        let t = real_now() - t0;
        if std::env::var("MC_TIMES").is_ok() { eprintln!("{:.2} s {}", t, case(j)); }
        let mut b = big.lock().unwrap();
        *b = (*b).max((t * 1000.0) as u64);
    });
    ctx.count("configurations", jobs.len() as u64);
    ctx.count("configurations_beyond_the_bound", skipped);
    ctx.note("all 8 workers with a guess-free attempt for budget 8; else at most 4 workers with a guess-free attempt for budgets up to 4, 3 for budget 8, 2 for 5, 1 for 9 (thorough: 5 up to 8, 2 for 9, 1 up to 12); two (thorough: three) such workers find different boards");
    ctx.note("real threads, locks and channels replaced by a scheduler: every interleaving of the 8 workers and the caller at every lock, send, receive and join (states cached, interchangeable workers merged), for each attempt budget and every choice of which worker finds a guess-free board at which attempt");
    ctx.sample(|| "laymine_solvable_thread(4,4,3,1,1,2): one of the two workers with an attempt succeeds".into());
}
// ---------------------------------------------------------------- C27
/// the board made from a shuffled row of 479 cells (mines last before the shuffle), column by column or row by row
fn board(dr: &[u64], p: P, mines_last: bool, by_column: bool) -> B {
    let mut v = vec![0i32; 479];
    for (i, x) in v.iter_mut().enumerate() { *x = if mines_last { if i >= 380 { -1 } else { 0 } } else if i < 99 { -1 } else { 0 }; }
    for (k, i) in (1..479usize).rev().enumerate() { v.swap(i, dr[k] as usize); }
    let pt = if by_column { p.0 + p.1 * 16 } else { p.0 * 30 + p.1 };
    v.insert(pt, 0);
    let mut m = vec![vec![false; 30]; 16];
    for (i, x) in v.iter().enumerate() { if *x < 0 { if by_column { m[i % 16][i / 16] = true; } else { m[i / 30][i % 30] = true; } } }
    number(&m)
}
const EXTREME: u64 = 1 << 40;
/// answers that make the shuffle produce chosen mine layouts: lattices (up to a 3BV of 381), blocks, borders
fn targets() -> &'static Vec<Vec<u64>> {
    static T: std::sync::OnceLock<Vec<Vec<u64>>> = std::sync::OnceLock::new();
    T.get_or_init(|| {
        let mut orders: Vec<Vec<usize>> = vec![];
        for by_column in [true, false] {
            let pos = |i: usize| if by_column { (i % 16, i / 16) } else { (i / 30, i % 30) };
            for a in 1..6 { for b in 1..6 { for (x, y) in [(0, 0), (1, 1), (a / 2, b - 1), (a - 1, 0)] { for back in [false, true] {
                let on = |i: &usize| { let (r, c) = pos(*i); r % a == x % a && c % b == y % b };
                let mut o: Vec<usize> = (0..479).filter(on).collect();
                let mut rest: Vec<usize> = (0..479).filter(|i| !on(i)).collect();
                if back { rest.reverse(); }
                o.extend(rest);
                orders.push(o);
            } } } }
            // 3x3 lattice with the remaining mines beside the lattice mines, and block layouts
            for key in 0..6usize {
                let mut o: Vec<usize> = (0..479).collect();
                o.sort_by_key(|i| { let (r, c) = pos(*i); match key { 0 => r.min(15 - r).min(c).min(29 - c), 1 => 15 - r.min(15 - r).min(c).min(29 - c), 2 => (r + c) % 2 * 1000 + r, 3 => (r as i64 - 8).pow(2) as usize + (c as i64 - 15).pow(2) as usize, 4 => r * r, _ => (r % 3) * 3 + c % 3 } });
                orders.push(o);
            }
        }
        let mut out = vec![];
        for o in orders { for first in [0i32, -1] {
            // `first` is what the array holds in front before the shuffle
            let mut want = vec![0i32; 479];
            for i in &o[..99] { want[*i] = -1; }
            let mut v: Vec<i32> = if first == 0 { (0..479).map(|i| if i >= 380 { -1 } else { 0 }).collect() } else { (0..479).map(|i| if i < 99 { -1 } else { 0 }).collect() };
            let mut d = vec![];
            for i in (1..479usize).rev() { let j = (0..=i).find(|j| v[*j] == want[i]).unwrap(); d.push(j as u64); v.swap(i, j); }
            out.push(d);
        } }
        out.sort();
        out.dedup();
        out
    })
}
fn answer(kind: u64, i: u64, n: u64) -> u64 {
    match kind {
        0 => n - 1,
        1 => 0,
        k if k >= EXTREME => { let t = targets(); t[(k - EXTREME) as usize % t.len()][i as usize] }
        k => { let mut h = (i + 1).wrapping_mul(0x9E3779B97F4A7C15) ^ k.wrapping_mul(0xD6E8FEB86659FD93); h ^= h >> 32; h = h.wrapping_mul(0xD6E8FEB86659FD93); h ^= h >> 29; h % n }
    }
}
fn sampled(ctx: &Ctx, p: P, n: usize, salt: u64, all: bool) {
    let case = || format!("sample_3BVs_exp({},{},{}) answers {}", p.0, p.1, n, salt);
    let out: Rc<RefCell<Option<Result<[usize; 382], String>>>> = Rc::new(RefCell::new(None));
    let o2 = out.clone();
    let body = move || { let r = std::panic::catch_unwind(|| sample_3BVs_exp(p.0, p.1, n)); *o2.borrow_mut() = Some(r.map_err(text)); };
    // every worker gets the same stream of boards: kind salt, salt + 1, ...
    let draw = move |_t: usize, i: u64, n: u64| answer(salt + i / 478, i % 478, n);
    let mut first: Option<[usize; 382]> = None;
    let mut bad = false;
    let st = call(&case, || explore(|t| (t > 0) as u64, draw, body, |s| {
        if s.deadlock || s.livelock { ctx.violation("deadlock", || format!("{} schedule {:?}", case(), s.schedule)); bad = true; return false; }
        let h = match out.borrow_mut().take() { Some(Ok(h)) => h, Some(Err(e)) => { ctx.violation("panic", || format!("{}: {}", case(), e)); bad = true; return false } None => { bad = true; ctx.violation("no-result", case); return false } };
        let total: usize = h.iter().sum();
        if total != n { ctx.violation("total", || format!("{}: {} boards in the histogram, schedule {:?}", case(), total, s.schedule)); bad = true; return false; }
        if s.draws.iter().any(|d| d % 478 != 0) || s.draws.iter().sum::<u64>() != n as u64 * 478 { return true; }
        // the boards each worker saw
        let counts: Vec<u64> = s.draws.iter().map(|d| d / 478).collect();
        if first != Some(h) {
            let mut fits = false;
            for (ml, bc) in [(true, true), (true, false), (false, true), (false, false)] {
                let mut want = [0usize; 382];
                let most = *counts.iter().max().unwrap_or(&0);
                for k in 0..most {
                    let d: Vec<u64> = (0..478).map(|i| answer(salt + k, i, 479 - i)).collect();
                    let v = bbbv(&board(&d, p, ml, bc));
                    want[v] += counts.iter().filter(|c| **c > k).count();
                }
                if want == h { fits = true; break; }
            }
            if !fits { ctx.violation("3bv", || format!("{}: histogram {:?} is not that of the sampled boards", case(), h.iter().enumerate().filter(|x| *x.1 > 0).collect::<Vec<_>>())); bad = true; return false; }
            ctx.outcome(format!("{:?}", h.iter().enumerate().filter(|x| *x.1 > 0).collect::<Vec<_>>()));
            if first.is_some() { ctx.violation("schedule", || format!("{}: the histogram depends on the schedule {:?}", case(), s.schedule)); bad = true; return false; }
            first = Some(h);
        }
        true
    }, if all { 1_000_000 } else { 1 }));
    match st { Ok(st) => { ctx.add(st.states.max(1), st.transitions.max(1), (n > 0) as u64); ctx.count("schedules_executed", st.runs); } Err(e) => if !bad { ctx.violation("harness", || format!("{}: {}", case(), e)) } }
}
fn bbbv(b: &B) -> usize { stats(b).bbbv }
pub fn c27(ctx: &Ctx) {
    let th = ctx.thorough;
    let mut jobs = vec![];
    for n in 0..=(if th { 1000 } else { 130 }) { for p in [(0, 0), (5, 5), (15, 29), (0, 29), (15, 0)] { jobs.push((p, n, 2 + n as u64 * 31, n <= if th { 48 } else { 20 })); } }
    for x in 0..16 { for y in 0..30 { jobs.push(((x, y), if th { 133 } else { 33 }, 1000 + (x * 30 + y) as u64, false)); } }
    for salt in 0..if th { 60000 } else { 10000 } { jobs.push(((7, 7), 16 * 5 + 3, salt * 6, false)); }
    // a count beyond 16 bits for each worker
    if th { jobs.push(((3, 4), 16 * 65536 + 21, 77, false)); }
    let nt = targets().len() as u64;
    for k in 0..nt { for (j, p) in [(0usize, 0usize), (7, 7), (15, 29)].into_iter().enumerate() { if th || (k as usize + j) % 3 == 0 { jobs.push((p, 16, EXTREME + k, false)); } } }
    ctx.count("extreme_layouts", nt);
    ctx.par(jobs.len(), |i| { let (p, n, s, all) = jobs[i]; sampled(ctx, p, n, s, all); });
    ctx.count("configurations", jobs.len() as u64);
    ctx.note("the random source is answered by fixed streams, and by streams computed to make lattice, block and border layouts with extreme 3BV, so that the sampled boards are known; every interleaving of the worker threads for small n (states cached)");
    ctx.sample(|| "sample_3BVs_exp(5,5,17)".into());
}
