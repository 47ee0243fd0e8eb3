//! Exact reference analysis of a visible board: local components by backtracking, then mine-total weighting.
use crate::refm::*;
pub struct Comp { pub cells: Vec<P>, pub tot: Vec<f64>, pub cell: Vec<Vec<f64>> }
pub struct Analysis { pub comps: Vec<Comp>, pub interior: Vec<P>, pub flagged: usize }
struct Con { cells: Vec<usize>, need: i32 }

/// None: contradictory (constraints that touch an unopened cell)
pub fn analyze(v: &B) -> Option<Analysis> {
    let (r, c) = (v.len(), v[0].len());
    let mut cons: Vec<(Vec<P>, i32)> = vec![];
    let mut border = vec![vec![false; c]; r];
    for i in 0..r { for j in 0..c {
        let d = v[i][j];
        if (0..=8).contains(&d) {
            let ns = nbs(r, c, (i, j));
            let un: Vec<P> = ns.iter().cloned().filter(|p| v[p.0][p.1] == 10).collect();
            if un.is_empty() { continue; }
            let fl = ns.iter().filter(|p| v[p.0][p.1] == 11).count() as i32;
            for p in &un { border[p.0][p.1] = true; }
            cons.push((un, d - fl));
        }
    } }
    let mut interior = vec![];
    let mut flagged = 0;
    let mut id = vec![vec![usize::MAX; c]; r];
    let mut cells = vec![];
    for i in 0..r { for j in 0..c {
        if v[i][j] == 11 { flagged += 1; }
        if v[i][j] == 10 { if border[i][j] { id[i][j] = cells.len(); cells.push((i, j)); } else { interior.push((i, j)); } }
    } }
    // union
    let mut par: Vec<usize> = (0..cells.len()).collect();
    fn find(p: &mut Vec<usize>, x: usize) -> usize { let mut y = x; while p[y] != y { p[y] = p[p[y]]; y = p[y]; } y }
    for (un, _) in &cons { let a = find(&mut par, id[un[0].0][un[0].1]); for p in un { let b = find(&mut par, id[p.0][p.1]); par[b] = a; } }
    let mut comps = vec![];
    for root in 0..cells.len() {
        if find(&mut par, root) != root { continue; }
        // order cells by constraint locality
        let mut order: Vec<usize> = vec![];
        let mine: Vec<usize> = (0..cells.len()).filter(|k| find(&mut par, *k) == root).collect();
        let mut pos = vec![usize::MAX; cells.len()];
        let mut cc: Vec<&(Vec<P>, i32)> = cons.iter().filter(|(un, _)| find(&mut par, id[un[0].0][un[0].1]) == root).collect();
        // greedy: take the constraint with fewest new cells
        while !cc.is_empty() {
            let (k, _) = cc.iter().enumerate().min_by_key(|(_, x)| {
                let newc = x.0.iter().filter(|p| pos[id[p.0][p.1]] == usize::MAX).count();
                (if newc == x.0.len() && !order.is_empty() { 100 } else { 0 }) + newc
            }).unwrap();
            let x = cc.remove(k);
            for p in &x.0 { let q = id[p.0][p.1]; if pos[q] == usize::MAX { pos[q] = order.len(); order.push(q); } }
        }
        debug_assert_eq!(order.len(), mine.len());
        let n = order.len();
        let local: Vec<Con> = cons.iter().filter(|(un, _)| find(&mut par, id[un[0].0][un[0].1]) == root)
            .map(|(un, need)| Con { cells: un.iter().map(|p| pos[id[p.0][p.1]]).collect(), need: *need }).collect();
        let mut cons_of: Vec<Vec<usize>> = vec![vec![]; n];
        for (k, cn) in local.iter().enumerate() { for x in &cn.cells { cons_of[*x].push(k); } }
        let mut need: Vec<i32> = local.iter().map(|x| x.need).collect();
        let mut left: Vec<i32> = local.iter().map(|x| x.cells.len() as i32).collect();
        if need.iter().zip(&left).any(|(a, b)| *a < 0 || a > b) { return None; }
        let mut tot = vec![0.0; n + 1];
        let mut cell = vec![vec![0.0; n]; n + 1];
        let mut asg = vec![false; n];
        fn rec(k: usize, n: usize, m: usize, asg: &mut Vec<bool>, need: &mut Vec<i32>, left: &mut Vec<i32>, co: &Vec<Vec<usize>>, tot: &mut Vec<f64>, cell: &mut Vec<Vec<f64>>) {
            if k == n { tot[m] += 1.0; for i in 0..n { if asg[i] { cell[m][i] += 1.0; } } return; }
            for v in [0, 1] {
                let mut ok = true;
                for q in &co[k] { need[*q] -= v; left[*q] -= 1; if need[*q] < 0 || need[*q] > left[*q] { ok = false; } }
                if ok { asg[k] = v == 1; rec(k + 1, n, m + v as usize, asg, need, left, co, tot, cell); }
                for q in &co[k] { need[*q] += v; left[*q] += 1; }
            }
            asg[k] = false;
        }
        rec(0, n, 0, &mut asg, &mut need, &mut left, &cons_of, &mut tot, &mut cell);
        if tot.iter().all(|x| *x == 0.0) { return None; }
        comps.push(Comp { cells: order.iter().map(|k| cells[*k]).collect(), tot, cell });
    }
    Some(Analysis { comps, interior, flagged })
}
pub fn binom(n: usize, k: i64) -> f64 {
    if k < 0 || k as usize > n { return 0.0; }
    let k = (k as usize).min(n - k as usize);
    let mut x = 1.0;
    for i in 0..k { x = x * (n - i) as f64 / (i + 1) as f64; }
    x
}
fn conv(a: &[f64], b: &[f64]) -> Vec<f64> {
    let mut o = vec![0.0; a.len() + b.len() - 1];
    for (i, x) in a.iter().enumerate() { if *x != 0.0 { for (j, y) in b.iter().enumerate() { o[i + j] += x * y; } } }
    o
}
impl Analysis {
    pub fn min_total(&self) -> usize { self.flagged + self.comps.iter().map(|c| c.tot.iter().position(|x| *x > 0.0).unwrap()).sum::<usize>() }
    pub fn max_total(&self) -> usize { self.flagged + self.interior.len() + self.comps.iter().map(|c| c.tot.iter().rposition(|x| *x > 0.0).unwrap()).sum::<usize>() }
    pub fn forced(&self) -> (Vec<P>, Vec<P>) {
        let (mut safe, mut mine) = (vec![], vec![]);
        for c in &self.comps {
            let t: f64 = c.tot.iter().sum();
            for (k, p) in c.cells.iter().enumerate() {
                let m: f64 = c.cell.iter().map(|x| x[k]).sum();
                if m == 0.0 { safe.push(*p); } else if m == t { mine.push(*p); }
            }
        }
        (sorted(&safe), sorted(&mine))
    }
    /// number of layouts with this mine total
    pub fn layouts(&self, total: usize) -> f64 {
        if total < self.flagged { return 0.0; }
        let m = total - self.flagged;
        let mut w = vec![1.0];
        for c in &self.comps { w = conv(&w, &c.tot); }
        w.iter().enumerate().map(|(k, x)| x * binom(self.interior.len(), m as i64 - k as i64)).sum()
    }
    /// exact mine probability of every unopened cell and of an interior cell
    pub fn probs(&self, total: usize) -> Option<(Vec<(P, f64)>, Option<f64>)> {
        let t = self.layouts(total);
        if t == 0.0 { return None; }
        let m = (total - self.flagged) as i64;
        let ni = self.interior.len();
        let mut out = vec![];
        for (i, c) in self.comps.iter().enumerate() {
            let mut w = vec![1.0];
            for (j, d) in self.comps.iter().enumerate() { if i != j { w = conv(&w, &d.tot); } }
            let rest: Vec<f64> = (0..c.tot.len()).map(|k| w.iter().enumerate().map(|(q, x)| x * binom(ni, m - k as i64 - q as i64)).sum()).collect();
            for (x, p) in c.cells.iter().enumerate() {
                let s: f64 = (0..c.tot.len()).map(|k| c.cell[k][x] * rest[k]).sum();
                out.push((*p, s / t));
            }
        }
        let mut pi = None;
        if ni > 0 {
            let mut w = vec![1.0];
            for d in &self.comps { w = conv(&w, &d.tot); }
            let s: f64 = w.iter().enumerate().map(|(q, x)| x * binom(ni - 1, m - 1 - q as i64)).sum();
            pi = Some(s / t);
        }
        Some((out, pi))
    }
}
/// one group of layouts that share a visible board
#[derive(Clone)]
pub struct Group { pub and: u64, pub or: u64, pub masks: Vec<u64> }
/// Calls f on every zero-closed visible board of shape r x c reachable from some layout.
/// `keep` selects opened sets by mask.
pub fn for_positions(ctx: &crate::ctx::Ctx, r: usize, c: usize, keep_masks: bool, f: impl Fn(&B, &Group) + Sync) -> u64 {
    use std::collections::HashMap;
    let n = r * c;
    let nm: Vec<u64> = (0..n).map(|k| nbs(r, c, (k / c, k % c)).iter().fold(0, |a, p| a | 1 << (p.0 * c + p.1))).collect();
    let cnt = std::sync::atomic::AtomicU64::new(0);
    ctx.par(1 << n, |o| {
        let o = o as u64;
        let free = !o & ((1u64 << n) - 1);
        let oc: Vec<usize> = (0..n).filter(|k| o >> k & 1 == 1).collect();
        let mut groups: HashMap<u64, Group> = HashMap::new();
        let mut s = free;
        'm: loop {
            let mut sig = 0u64;
            let mut ok = true;
            for &k in &oc {
                let d = (nm[k] & s).count_ones() as u64;
                if d == 0 && nm[k] & !o != 0 { ok = false; break; }
                sig = sig << 4 | d;
            }
            if ok {
                let g = groups.entry(sig).or_insert(Group { and: !0, or: 0, masks: vec![] });
                g.and &= s; g.or |= s;
                if keep_masks { g.masks.push(s); }
            }
            if s == 0 { break 'm; }
            s = (s - 1) & free;
        }
        cnt.fetch_add(groups.len() as u64, std::sync::atomic::Ordering::Relaxed);
        for (sig, g) in groups.iter() {
            let mut v = vec![vec![10; c]; r];
            for (q, &k) in oc.iter().rev().enumerate() { v[k / c][k % c] = (sig >> (4 * q) & 15) as i32; }
            f(&v, g);
        }
    });
    cnt.load(std::sync::atomic::Ordering::Relaxed)
}
/// The position after a rule-abiding solver-free opening: click `start`, then open every cell in `more`.
pub fn visible(b: &B, clicks: &[P]) -> B {
    let mut g = vec![vec![10; b[0].len()]; b.len()];
    for p in clicks { if b[p.0][p.1] >= 0 { open_cells(b, &mut g, &[*p]); } }
    g
}
/// Can the board be finished from start by local (total-free) deductions?  Also returns every position met.
pub fn solvable(b: &B, start: P, seen: Option<&mut Vec<B>>) -> bool {
    let mut g = visible(b, &[start]);
    let mut seen = seen;
    let done = |g: &B| g.iter().flatten().zip(b.iter().flatten()).all(|(x, y)| *x != 10 && *x != 12 || *y == -1);
    loop {
        if let Some(s) = seen.as_deref_mut() { s.push(g.clone()); }
        if done(&g) { return true; }
        let a = analyze(&g).expect("true position is consistent");
        let (safe, _) = a.forced();
        if safe.is_empty() { return false; }
        open_cells(b, &mut g, &safe);
    }
}
/// layouts whose mines lie inside a window at (x,y) of size h x w on an r x c board
pub fn window(r: usize, c: usize, x: usize, y: usize, h: usize, w: usize, mask: u64) -> B {
    let mut g = vec![vec![false; c]; r];
    for k in 0..h * w { if mask >> k & 1 == 1 { g[x + k / w][y + k % w] = true; } }
    number(&g)
}
