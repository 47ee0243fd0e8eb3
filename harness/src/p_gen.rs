//! C12 C13: random board generation under every outcome of the random source
use crate::choice::Tree;
use crate::ctx::*;
use crate::refm::*;
use crate::solver_ref::solvable;
use ms_toollib::*;
use std::collections::HashMap;

fn choose(n: usize, k: usize) -> f64 { (0..k).map(|i| (n - i) as f64 / (i + 1) as f64).product() }
fn zone(r: usize, c: usize, p: P) -> usize { nbs(r, c, p).len() + 1 }
/// size, mine count, numbers, safe start, and a zero at the start when asked
pub fn contract(b: &B, r: usize, c: usize, m: usize, p: P, zero: bool) -> Option<String> {
    if b.len() != r || b.iter().any(|x| x.len() != c) { return Some("wrong size".into()); }
    if !is_numbered(b) { return Some("numbers do not match the mines".into()); }
    if mines(b) != m { return Some(format!("{} mines instead of {}", mines(b), m)); }
    if b[p.0][p.1] == -1 { return Some("mine at the start".into()); }
    if zero && b[p.0][p.1] != 0 { return Some("start is not a zero".into()); }
    None
}
#[derive(Clone, Copy, Debug)]
pub struct Cfg { pub r: usize, pub c: usize, pub m: usize, pub p: P, pub op: bool }
fn lay(g: &Cfg) -> B { if g.op { laymine_op(g.r, g.c, g.m, g.p.0, g.p.1) } else { laymine(g.r, g.c, g.m, g.p.0, g.p.1) } }
pub fn free(r: usize, c: usize, p: P, op: bool) -> usize { r * c - if op { zone(r, c, p) } else { 1 } }
fn one_lay(ctx: &Ctx, g: &Cfg, tree: &mut Tree, uniform: bool) {
    let case = || format!("{} {}x{} mines {} start {:?}", if g.op { "laymine_op" } else { "laymine" }, g.r, g.c, g.m, g.p);
    let mut seen: HashMap<B, f64> = HashMap::new();
    let (mut n, mut rawn) = (0u64, 0);
    while let Some((res, w, raw)) = tree.next(|| call(&case, || lay(g))) {
        n += 1; rawn += raw;
        let b = match res { Ok(b) => b, Err(e) => { rand::mc::uninstall(); ctx.violation(if g.op { "op-panic" } else { "panic" }, || format!("{} draws {:?}: {}", case(), tree.draws(), e)); break } };
        if let Some(e) = contract(&b, g.r, g.c, g.m, g.p, g.op) { ctx.violation("contract", || format!("{} draws {:?}: {} board {}", case(), tree.draws(), e, show(&b))); break; }
        if uniform { *seen.entry(b).or_insert(0.0) += w; }
    }
    if uniform && rawn == 0 {
        let want = choose(free(g.r, g.c, g.p, g.op), g.m);
        if (seen.len() as f64 - want).abs() > 0.5 { ctx.violation("support", || format!("{}: {} different layouts over all outcomes, the rule allows {}", case(), seen.len(), want)); }
        else if let Some((b, w)) = seen.iter().find(|x| (x.1 * want - 1.0).abs() > 1e-6) { ctx.violation("uniform", || format!("{}: layout {} has probability {} instead of 1/{}", case(), show(b), w, want)); }
    }
    ctx.add(n, n, (seen.len() > 1) as u64);
}
pub fn c12(ctx: &Ctx) {
    let th = ctx.thorough;
    let lim = if th { 10 } else { 9 };
    let mut jobs = vec![];
    for (r, c) in shapes(1, lim) { for k in 0..r * c { for m in 0..r * c { jobs.push(Cfg { r, c, m, p: (k / c, k % c), op: false }); } } }
    for (r, c) in shapes(1, 17) { for k in 0..r * c {
        let p = (k / c, k % c);
        let f = free(r, c, p, true);
        if f <= lim - 1 { for m in 0..=f { jobs.push(Cfg { r, c, m, p, op: true }); } }
    } }
    jobs.sort_by_key(|g| std::cmp::Reverse(free(g.r, g.c, g.p, g.op)));
    let nj = jobs.len();
    ctx.par(nj, |i| one_lay(ctx, &jobs[i], &mut Tree::all(), true));
    ctx.count("configurations_with_all_outcomes", nj as u64);
    ctx.note(format!("laymine: every shape with at most {lim} cells, every start cell and mine count; laymine_op: every shape with at most {} cells outside the opening; all outcomes of the random source, exact probabilities of all layouts", lim - 1));
    // larger boards: outcomes near fixed answer policies
    let mut big = vec![];
    for (r, c, ms) in [(8usize, 8usize, vec![0usize, 1, 10, 54, 55, 63]), (16, 16, vec![40, 246]), (16, 30, vec![99, 300, 470]), (30, 16, vec![99]), (1, 40, vec![0, 20, 37]), (40, 1, vec![20]), (2, 50, vec![60]), (255, 255, vec![9000])] {
        for p in [(0, 0), (0, c - 1), (r - 1, 0), (r - 1, c - 1), (0, c / 2), (r / 2, 0), (r - 1, c / 2), (r / 2, c - 1), (r / 2, c / 2), ((r - 1).min(1), (c - 1).min(1))] {
            for m in &ms { for op in [false, true] { if *m <= free(r, c, p, op) { for pol in 0..if r * c > 1000 { 4 } else { 16 } { big.push((Cfg { r, c, m: *m, p, op }, pol)); } } } }
        }
    }
    ctx.par(big.len(), |i| { let (g, pol) = &big[i]; let d = if g.r * g.c <= 64 && (th || *pol % 8 == 3) { 1 } else { 0 }; one_lay(ctx, g, &mut Tree::new(*pol, d), false); });
    ctx.note("standard and extreme sizes: outcomes given by 16 fixed answer policies (8x8 and smaller: and every single deviation from two (thorough: all) of them)");
    ctx.sample(|| "laymine 2x3 mines 2 start (1,1): 120 outcomes, 10 layouts, each with probability 1/10".into());
}
// ---------------------------------------------------------------- C13
fn layouts_op(g: &Cfg) -> (usize, usize) {
    // (all, solvable) layouts with a zero start
    let (r, c) = (g.r, g.c);
    let z: u64 = nbs(r, c, g.p).iter().fold(1 << (g.p.0 * c + g.p.1), |a, q| a | 1 << (q.0 * c + q.1));
    let (mut a, mut s) = (0, 0);
    for m in 0..1u64 << (r * c) { if m & z == 0 && m.count_ones() as usize == g.m { a += 1; if solvable(&from_mask(r, c, m), g.p, None) { s += 1; } } }
    (a, s)
}
fn budgeted(ctx: &Ctx, g: &Cfg, times: usize) {
    let case = || format!("laymine_solvable {}x{} mines {} start {:?} attempts {}", g.r, g.c, g.m, g.p, times);
    let (all, sol) = layouts_op(g);
    let q = 1.0 - sol as f64 / all as f64;
    let (mut n, mut rawn, mut fail) = (0u64, 0, 0.0);
    let mut good: HashMap<B, f64> = HashMap::new();
    let mut t = Tree::all();
    while let Some((res, w, raw)) = t.next(|| call(&case, || laymine_solvable(g.r, g.c, g.m, g.p.0, g.p.1, times))) {
        n += 1; rawn += raw;
        let (b, ok) = match res { Ok(x) => x, Err(e) => { rand::mc::uninstall(); ctx.violation("panic", || format!("{} draws {:?}: {}", case(), t.draws(), e)); return } };
        if let Some(e) = contract(&b, g.r, g.c, g.m, g.p, true) { ctx.violation("contract", || format!("{} draws {:?}: {} board {}", case(), t.draws(), e, show(&b))); return; }
        if ok && !solvable(&b, g.p, None) { ctx.violation("not-solvable", || format!("{} draws {:?}: reported guess-free board {}", case(), t.draws(), show(&b))); return; }
        if ok { *good.entry(b).or_insert(0.0) += w; } else { fail += w; }
    }
    if rawn == 0 {
        let want = q.powi(times as i32);
        if (fail - want).abs() > 1e-6 { ctx.violation("budget", || format!("{}: reports failure with probability {}, but {} independent attempts all fail with probability {}", case(), fail, times, want)); }
        else if let Some((b, w)) = good.iter().find(|x| (x.1 * sol as f64 - (1.0 - fail)).abs() > 1e-6) { ctx.violation("uniform", || format!("{}: board {} with probability {} of {} boards", case(), show(b), w, sol)); }
    }
    ctx.add(n, n, (sol > 0 && sol < all) as u64);
}
fn adjust(ctx: &Ctx, g: &Cfg, t: &mut Tree, cap: u64) -> bool {
    let case = || format!("laymine_solvable_adjust {}x{} mines {} start {:?}", g.r, g.c, g.m, g.p);
    let room = g.m <= free(g.r, g.c, g.p, true);
    let (mut n, mut wins) = (0u64, 0u64);
    let mut memo: HashMap<B, bool> = HashMap::new();
    let mut done = true;
    while let Some((res, _, _)) = t.next(|| call(&case, || laymine_solvable_adjust(g.r, g.c, g.m, g.p.0, g.p.1))) {
        n += 1;
        let (b, ok) = match res { Ok(x) => x, Err(e) => { rand::mc::uninstall(); ctx.violation("adjust-panic", || format!("{} draws {:?}: {}", case(), t.draws(), e)); break } };
        if let Some(e) = contract(&b, g.r, g.c, g.m, g.p, room) { ctx.violation("adjust-contract", || format!("{} draws {:?}: {} board {} success {}", case(), t.draws(), e, show(&b), ok)); break; }
        if ok {
            wins += 1;
            let s = if memo.len() < 200_000 { *memo.entry(b.clone()).or_insert_with(|| solvable(&b, g.p, None)) } else { solvable(&b, g.p, None) };
            if !s { ctx.violation("adjust-not-solvable", || format!("{} draws {:?}: reported guess-free board {}", case(), t.draws(), show(&b))); break; }
        }
        if n >= cap { done = false; break; }
    }
    ctx.add(n, n, (wins > 0) as u64);
    done
}
pub fn c13(ctx: &Ctx) {
    let th = ctx.thorough;
    let mut jobs = vec![];
    let fact = |f: usize| (1..=f as u64).product::<u64>() as f64;
    for (r, c) in shapes(1, 16) { for k in 0..r * c {
        let p = (k / c, k % c);
        let f = free(r, c, p, true);
        for times in 0..=4usize { if fact(f).powi(times as i32 + 1) < if th { 3e6 } else { 2e5 } { for m in 0..=f { jobs.push((Cfg { r, c, m, p, op: true }, times)); } } }
    } }
    jobs.sort_by(|a, b| { let k = |x: &(Cfg, usize)| fact(free(x.0.r, x.0.c, x.0.p, true)).powi(x.1 as i32 + 1); k(b).partial_cmp(&k(a)).unwrap() });
    ctx.par(jobs.len(), |i| budgeted(ctx, &jobs[i].0, jobs[i].1));
    ctx.count("sift_configurations", jobs.len() as u64);
    ctx.note("laymine_solvable: every shape up to 16 cells, start, mine count and attempt budget 0..4 whose outcome tree has at most 2e5 (thorough 3e6) leaves: all outcomes, exact failure probability");
    // adjustment method: a failing call takes thousands of steps, so fewer outcomes are affordable
    let mut jobs: Vec<(Cfg, u8, usize, u64)> = vec![];
    for (r, c) in shapes(1, if th { 14 } else { 12 }) { for k in 0..r * c { for m in 0..r * c {
        for pol in 0..if th { 14 } else { 12 } { jobs.push((Cfg { r, c, m, p: (k / c, k % c), op: true }, pol, 1, if th { 14 } else { 10 })); }
    } } }
    for (r, c) in [(4usize, 4usize), (5, 5), (4, 6), (6, 6), (8, 8), (5, 9), (3, 12), (12, 3), (2, 15), (1, 20)] {
        let step = if th { 2 } else { 3 };
        for m in (1..r * c).step_by(step) { for p in [(0, 0), (0, c / 2), (r / 2, c / 2), (r - 1, c - 1)] { for pol in 0..if th { 8 } else { 4 } { jobs.push((Cfg { r, c, m, p, op: true }, pol, 1, if th { 4 } else { 2 })); } } }
    }
    for (r, c, m) in [(8usize, 8usize, 10usize), (16, 16, 40), (16, 30, 60)] { for p in [(0, 0), (r / 2, c / 2), (r - 1, 3)] { for pol in 0..if th { 16 } else { 8 } { jobs.push((Cfg { r, c, m, p, op: true }, pol, 1, if th { 4 } else { 1 })); } } }
    let n = jobs.len();
    let order: Vec<usize> = (0..n).map(|i| i * 7919 % n).collect();
    let order = if { let mut o = order.clone(); o.sort(); o.dedup(); o.len() == n } { order } else { (0..n).collect() };
    let full = std::sync::atomic::AtomicU64::new(0);
    ctx.par(n, |i| { let (g, pol, dev, cap) = &jobs[order[i]]; if adjust(ctx, g, &mut Tree::new(*pol, *dev), *cap) { full.fetch_add(1, std::sync::atomic::Ordering::Relaxed); } });
    ctx.count("adjust_configurations", n as u64);
    ctx.count("adjust_configurations_all_single_deviations", full.load(std::sync::atomic::Ordering::Relaxed));
    ctx.note("laymine_solvable_adjust: every shape up to 12 (thorough 14) cells, start cell and mine count (also too many for an opening), and selected larger boards, under 4 to 16 answer policies of the random source, plus single deviations in depth-first order up to a cap");
    ctx.sample(|| "laymine_solvable 2x4 mines 2 start (0,0) attempts 2".into());
}
