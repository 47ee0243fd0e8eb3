//! C11 C15 C24 C26
use crate::ctx::*;
use crate::refm::*;
use crate::solver_ref::*;
use ms_toollib::*;

// ---------------------------------------------------------------- C11
fn check_solvable(ctx: &Ctx, b: &B, start: P, complete: bool) {
    let want = solvable(b, start, None);
    let case = || format!("board {} start {:?}", show(b), start);
    match call(&case, || (is_solvable(b, start.0, start.1), is_solvable(b, start.0, start.1))) {
        Err(e) => ctx.violation("solvable-panic", || format!("{} {}", case(), e)),
        Ok((x, y)) => {
            if x != y { ctx.violation("solvable-nondet", || case()); }
            if x && !want { ctx.violation("solvable-unsound", || format!("{} judged solvable", case())); }
            if !x && want && complete { ctx.violation("solvable-missed", || format!("{} judged unsolvable", case())); }
        }
    }
    ctx.add(1, 2, (want && mines(b) > 1) as u64);
}
/// The structural filter judges a board and its rotations and mirror images alike.
fn check_turned(ctx: &Ctx, g: &Vec<Vec<bool>>) {
    let as_b = |g: &Vec<Vec<bool>>| number(g);
    let turn = |g: &Vec<Vec<bool>>| -> Vec<Vec<bool>> { (0..g[0].len()).map(|j| (0..g.len()).map(|i| g[g.len() - 1 - i][j]).collect()).collect() };
    let mirror = |g: &Vec<Vec<bool>>| -> Vec<Vec<bool>> { g.iter().map(|r| r.iter().rev().cloned().collect()).collect() };
    let first = call(&|| format!("filter {}", show(&as_b(g))), || unsolvable_structure(&as_b(g)));
    let mut x = g.clone();
    for k in 1..8 {
        x = if k == 4 { mirror(g) } else { turn(&x) };
        let b = as_b(&x);
        let case = || format!("filter {} and its image {}", show(&as_b(g)), show(&b));
        let y = call(&case, || unsolvable_structure(&b));
        match (&first, y) { (Ok(p), Ok(q)) if *p == q => {} (p, q) => ctx.violation("turned", || format!("{}: {:?} and {:?}", case(), p, q)) }
    }
    ctx.add(1, 8, matches!(first, Ok(true)) as u64);
}
pub fn c11(ctx: &Ctx) {
    for (r, c) in if ctx.thorough { vec![(3usize, 3usize), (3, 4), (4, 4), (3, 5), (4, 5), (3, 6), (3, 7)] } else { vec![(3, 3), (3, 4), (4, 4), (3, 5), (3, 6)] } {
        let n = 1usize << (r * c);
        ctx.par((n + 255) / 256, |ch| for m in ch * 256..((ch + 1) * 256).min(n) { check_turned(ctx, &mask_mines(r, c, m as u64)); });
    }
    // every pattern of a corner and of an edge strip on boards large enough to keep them apart
    for (h, w, y) in [(4usize, 4usize, 0usize), (3, 4, 3), (4, 3, 4), (4, 4, 3)] {
        ctx.par(1 << (h * w), |m| { let mut g = vec![vec![false; 11]; 9]; for k in 0..h * w { if m >> k & 1 == 1 { g[k / w][y + k % w] = true; } } check_turned(ctx, &g); });
    }
    ctx.note("structural filter: all layouts up to 18 cells (thorough: 21) and all patterns of 16 cells in a corner and on an edge of a 9x11 board, against their seven images");
    let shp: Vec<(usize, usize)> = if ctx.thorough { vec![(4, 4), (4, 5), (5, 4), (3, 6), (5, 5)] } else { vec![(4, 4), (4, 5)] };
    for &(r, c) in &shp {
        let n = r * c;
        ctx.par(1 << n, |m| {
            if n > 20 && (m as u64).count_ones() > 9 { return; }
            let b = from_mask(r, c, m as u64);
            for k in 0..n {
                let p = (k / c, k % c);
                if b[p.0][p.1] < 0 { continue; }
                if n >= 20 && b[p.0][p.1] > 0 && k % 3 != 0 { continue; }
                check_solvable(ctx, &b, p, b[p.0][p.1] == 0);
            }
        });
    }
    ctx.note(format!("all layouts of {:?} (5x5: up to 9 mines), starts: every safe cell (20+ cells: every zero cell and every third numbered cell); soundness for all, completeness for zero starts", shp));
    // all layouts with few mines on boards beyond the documented size limit
    let few: Vec<(usize, usize, usize)> = if ctx.thorough { vec![(7, 7, 4), (7, 8, 3), (8, 7, 3), (9, 9, 3), (7, 12, 3)] } else { vec![(7, 7, 3), (7, 8, 3), (9, 7, 2), (16, 30, 1)] };
    for &(r, c, k) in &few {
        let n = r * c;
        ctx.par(n, |a| {
            let mut go = |ms: &[usize]| {
                let mut g = vec![vec![false; c]; r];
                for x in ms { g[x / c][x % c] = true; }
                let b = number(&g);
                for z in components(r, c, |p| b[p.0][p.1] == 0) { check_solvable(ctx, &b, z[0], true); check_solvable(ctx, &b, z[z.len() - 1], true); }
                let q = (ms[0] * 31 + ms[ms.len() - 1] * 7) % n;
                if b[q / c][q % c] > 0 { check_solvable(ctx, &b, (q / c, q % c), false); }
            };
            go(&[a]);
            for b in a + 1..n {
                if k < 2 { break; }
                go(&[a, b]);
                for d in b + 1..n {
                    if k < 3 { break; }
                    go(&[a, b, d]);
                    if k >= 4 { for e in d + 1..n { go(&[a, b, d, e]); } }
                }
            }
        });
    }
    ctx.note(format!("all layouts with at most k mines, (rows, columns, k) in {:?}, start in every opening", few));
    // dense windows
    let mut specs = vec![(7usize, 7usize, 0usize, 0usize, 4usize, 4usize), (7, 7, 2, 0, 4, 4), (7, 8, 3, 4, 4, 4), (7, 7, 0, 2, 4, 4), (8, 8, 2, 2, 4, 4), (7, 7, 3, 3, 4, 4), (7, 8, 3, 0, 4, 4), (8, 7, 0, 3, 4, 4)];
    if ctx.thorough { specs.extend([(7, 9, 0, 0, 4, 5), (9, 9, 2, 2, 4, 5), (9, 7, 4, 3, 5, 4), (7, 9, 3, 2, 4, 5), (9, 9, 0, 3, 3, 6), (12, 7, 3, 0, 6, 3)]); }
    for (r, c, x, y, h, w) in specs {
        ctx.par(1 << (h * w), |m| {
            let b = window(r, c, x, y, h, w, m as u64);
            for z in components(r, c, |p| b[p.0][p.1] == 0).iter().take(2) { check_solvable(ctx, &b, z[0], true); }
        });
    }
    ctx.note("all 2^16 (thorough: 2^20) layouts inside windows at corners, edges and the middle of boards 7x7 to 9x9");
    ctx.sample(|| "7x7 single mine at (0,0), start (6,6)".into());
}

// ---------------------------------------------------------------- C15
pub fn judge(v: &B, safe: &[P], mine: &[P], p: P) -> i32 {
    let (r, c) = (v.len(), v[0].len());
    if v[p.0][p.1] < 10 { return 5; }
    if (0..r).all(|i| (0..c).all(|j| v[i][j] >= 10)) { return 2; }
    if safe.contains(&p) { return 1; }
    if mine.contains(&p) { return 4; }
    // region: unopened cells joined by adjacency or by a shared number
    let mut reg = vec![vec![false; c]; r];
    let mut q = vec![p];
    reg[p.0][p.1] = true;
    let mut k = 0;
    while k < q.len() {
        let x = q[k];
        k += 1;
        let mut nx: Vec<P> = vec![];
        for n in nbs(r, c, x) {
            if v[n.0][n.1] >= 10 { nx.push(n); } else { nx.extend(nbs(r, c, n).into_iter().filter(|y| v[y.0][y.1] >= 10)); }
        }
        for n in nx { if !reg[n.0][n.1] { reg[n.0][n.1] = true; q.push(n); } }
    }
    if safe.iter().any(|s| reg[s.0][s.1]) { 3 } else { 2 }
}
fn check_judge(ctx: &Ctx, v: &B, safe: &[P], mine: &[P], every: usize) {
    let (r, c) = (v.len(), v[0].len());
    let mut n = 0;
    for k in 0..r * c {
        if k % every != 0 { continue; }
        let p = (k / c, k % c);
        let want = judge(v, safe, mine, p);
        for flag in 0..2 {
            let mut g = v.clone();
            if flag == 1 { for l in 0..r * c { if g[l / c][l % c] == 10 && (l * 5 + k) % 3 == 0 { g[l / c][l % c] = 11; } } }
            let case = || format!("position {} cell {:?}", show(&g), p);
            match call(&case, || is_guess_while_needless(&mut g.clone(), &p)) {
                Err(e) => ctx.violation("judge-panic", || format!("{} {}", case(), e)),
                Ok(x) => if x != want { ctx.violation(&format!("judge-{}-as-{}", want, x), || format!("{} judged {} want {}", case(), x, want)); },
            }
            n += 1;
        }
    }
    ctx.add(1, n, (!safe.is_empty()) as u64);
}
pub fn c15(ctx: &Ctx) {
    let mut shp = shapes(1, 12);
    shp.retain(|s| s.0 > 1 && s.1 > 1 || s.0 * s.1 <= 11);
    if ctx.thorough { shp.extend([(2, 7), (3, 5), (5, 3)]); }
    for (r, c) in &shp {
        let every = if r * c >= 12 { 3 } else { 1 };
        for_positions(ctx, *r, *c, false, |v, g| {
            let n = r * c;
            let pick = |m: u64| -> Vec<P> { (0..n).filter(|k| m >> k & 1 == 1).map(|k| (k / c, k % c)).filter(|p| v[p.0][p.1] == 10 && nbs(*r, *c, *p).iter().any(|q| v[q.0][q.1] < 10)).collect() };
            check_judge(ctx, v, &pick(!g.or), &pick(g.and), every);
        });
    }
    ctx.note(format!("every reachable visible board of shapes {:?}, every cell (12+ cells: every third), with and without (possibly wrong) player flags", shp));
    crate::p_solver::windows(ctx, ctx.thorough, |_b, v| {
        if v.len() * v[0].len() > 100 { return; }
        let (safe, mine) = analyze(v).unwrap().forced();
        check_judge(ctx, v, &safe, &mine, 4);
    });
    ctx.sample(|| "1x5 position 10,1,10,1,10".into());
}

// ---------------------------------------------------------------- C24
type Sys = Vec<(Vec<P>, i32)>;
fn ref_sys(v: &B, zero: bool) -> Sys {
    let (r, c) = (v.len(), v[0].len());
    let mut s = vec![];
    for i in 0..r { for j in 0..c {
        let d = v[i][j];
        if d > 8 || d < 0 || d == 0 && !zero { continue; }
        let ns = nbs(r, c, (i, j));
        let mut un: Vec<P> = ns.iter().cloned().filter(|p| v[p.0][p.1] == 10).collect();
        if un.is_empty() { continue; }
        un.sort();
        s.push((un, d - ns.iter().filter(|p| v[p.0][p.1] == 11).count() as i32));
    } }
    s.sort();
    s
}
/// blocks of a system: sets of constraints connected by shared cells
fn ref_blocks(s: &Sys) -> Vec<Sys> {
    let mut out: Vec<Sys> = vec![];
    for e in s {
        let (mut hit, rest): (Vec<Sys>, Vec<Sys>) = out.into_iter().partition(|b| b.iter().any(|x| x.0.iter().any(|p| e.0.contains(p))));
        let mut m: Sys = hit.drain(..).flatten().collect();
        m.push(e.clone());
        m.sort();
        out = rest;
        out.push(m);
    }
    out.sort();
    out
}
fn read_block(a: &Vec<Vec<i32>>, x: &Vec<P>, b: &Vec<i32>) -> Result<Sys, String> {
    if a.len() != b.len() || a.is_empty() { return Err(format!("rows {} vs numbers {}", a.len(), b.len())); }
    let mut y = x.clone(); y.sort(); y.dedup();
    if y.len() != x.len() { return Err("duplicate variable".into()); }
    let mut s = vec![];
    for (row, bb) in a.iter().zip(b) {
        if row.len() != x.len() { return Err("row length".into()); }
        if row.iter().any(|t| *t != 0 && *t != 1) { return Err("coefficient".into()); }
        let mut u: Vec<P> = row.iter().zip(x).filter(|t| *t.0 == 1).map(|t| *t.1).collect();
        u.sort();
        s.push((u, *bb));
    }
    for (k, p) in x.iter().enumerate() { if a.iter().all(|r| r[k] == 0) { return Err(format!("variable {:?} in no equation", p)); } }
    s.sort();
    Ok(s)
}
fn read_blocks(a: &Vec<Vec<Vec<i32>>>, x: &Vec<Vec<P>>, b: &Vec<Vec<i32>>) -> Result<Vec<Sys>, String> {
    if a.len() != x.len() || a.len() != b.len() { return Err("block counts differ".into()); }
    let mut o = vec![];
    for i in 0..a.len() { o.push(read_block(&a[i], &x[i], &b[i])?); }
    o.sort();
    Ok(o)
}
fn check_sys(ctx: &Ctx, v: &B) {
    let (r, c) = (v.len(), v[0].len());
    let case = || format!("position {}", show(v));
    let want = ref_blocks(&ref_sys(v, true));
    let bad = |k: &str, e: String| ctx.violation(k, || format!("{} {}", case(), e));
    let m1 = match call(&case, || refresh_matrix(v)) { Ok(m) => m, Err(e) => return bad("matrix-panic", e) };
    if !(m1.0.is_empty() && m1.1.is_empty() && m1.2.is_empty()) || !ref_sys(v, false).is_empty() {
        match read_block(&m1.0, &m1.1, &m1.2) { Err(e) => bad("matrix", e), Ok(s) => if s != ref_sys(v, false) { bad("matrix", format!("refresh_matrix {:?}", s)) } }
    }
    let ms = match call(&case, || refresh_matrixs(v)) { Ok(m) => m, Err(e) => return bad("matrix-panic", e) };
    match read_blocks(&ms.0, &ms.1, &ms.2) { Err(e) => bad("blocks", e), Ok(s) => if s != want { bad("blocks", format!("blocks {:?} want {:?}", s, want)) } }
    let interior = (0..r * c).filter(|k| v[k / c][k % c] == 10 && nbs(r, c, (k / c, k % c)).iter().all(|p| v[p.0][p.1] >= 10)).count();
    let fl = v.iter().flatten().filter(|x| **x == 11).count();
    if ms.3 != interior || ms.4 != fl { bad("blocks-count", format!("interior {} flagged {} want {} {}", ms.3, ms.4, interior, fl)); }
    // grouped by unopened regions
    if v.iter().flatten().all(|x| *x <= 10) && !want.is_empty() {
        let es = match call(&case, || refresh_matrixses(v)) { Ok(m) => m, Err(e) => return bad("matrix-panic", e) };
        let mut flat = vec![];
        let mut groups: Vec<Vec<P>> = vec![];
        for i in 0..es.0.len() {
            match read_blocks(&es.0[i], &es.1[i], &es.2[i]) { Err(e) => { bad("groups", e); return; } Ok(s) => flat.extend(s) }
            let mut g: Vec<P> = es.1[i].iter().flatten().cloned().collect();
            g.sort();
            groups.push(g);
        }
        flat.sort();
        if flat != want { bad("groups", format!("grouped blocks {:?} want {:?}", flat, want)); }
        groups.sort();
        // reference grouping
        let comp = components(r, c, |p| v[p.0][p.1] == 10);
        let mut wg: Vec<(Vec<P>, Vec<P>)> = comp.into_iter().map(|x| { let b: Vec<P> = x.iter().cloned().filter(|p| want.iter().any(|w| w.iter().any(|e| e.0.contains(p)))).collect(); (x, b) }).collect();
        for w in &want {
            let cells: Vec<P> = w.iter().flat_map(|e| e.0.clone()).collect();
            let (hit, rest): (Vec<_>, Vec<_>) = wg.into_iter().partition(|g| g.0.iter().any(|p| cells.contains(p)));
            let mut a = (vec![], vec![]);
            for h in hit { a.0.extend(h.0); a.1.extend(h.1); }
            wg = rest;
            wg.push(a);
        }
        let mut wgg: Vec<Vec<P>> = wg.into_iter().map(|mut g| { g.1.sort(); g.1 }).filter(|g| !g.is_empty()).collect();
        wgg.sort();
        if groups != wgg { bad("groups", format!("groups {:?} want {:?}", groups, wgg)); }
    }
    // equivalent-column merging and solution tables
    if let Some(an) = analyze(v) {
        for i in 0..ms.0.len() {
            let res = call(&case, || { let (a, x, p) = combine(&ms.0[i], &ms.1[i]); let t = cal_table_minenum_recursion(&a, &x, &ms.2[i], &p); (a, x, p, t) });
            let (a, x, pairs, t) = match res { Ok(m) => m, Err(e) => return bad("table-panic", e) };
            let n = ms.1[i].len();
            let mut all: Vec<usize> = pairs.iter().flatten().cloned().collect();
            all.sort();
            let col = |k: usize| -> Vec<i32> { ms.0[i].iter().map(|r| r[k]).collect() };
            let mut ok = all == (0..n).collect::<Vec<_>>() && x.len() == pairs.len() && a.iter().all(|r| r.len() == pairs.len()) && a.len() == ms.0[i].len();
            if ok { for (g, q) in pairs.iter().enumerate() {
                ok &= q.iter().all(|k| col(*k) == col(q[0])) && q.iter().any(|k| ms.1[i][*k] == x[g]);
                ok &= (0..a.len()).all(|rr| a[rr][g] == col(q[0])[rr] * q.len() as i32);
                ok &= pairs.iter().enumerate().all(|(h, z)| h == g || col(z[0]) != col(q[0]));
            } }
            if !ok { bad("combine", format!("block {i}: merged {:?} {:?} {:?}", a, x, pairs)); continue; }
            let comp = an.comps.iter().find(|k| k.cells.contains(&ms.1[i][0])).unwrap();
            match t {
                Err(e) => bad("table", format!("block {i} rejected: {e}")),
                Ok((tot, cell)) => {
                    let mut good = tot[0].len() == tot[1].len() && cell.len() == tot[0].len();
                    for (m, cnt) in comp.tot.iter().enumerate() {
                        let at = tot[0].iter().position(|q| *q == m);
                        let got = at.map(|q| tot[1][q]).unwrap_or(0);
                        good &= got as f64 == *cnt;
                        if let Some(q) = at { for (g, pr) in pairs.iter().enumerate() { for k in pr {
                            let pi = comp.cells.iter().position(|z| *z == ms.1[i][*k]).unwrap();
                            good &= cell[q][g] as f64 == comp.cell[m][pi];
                        } } }
                    }
                    if good { let lo = comp.tot.iter().position(|x| *x > 0.0).unwrap(); let hi = comp.tot.iter().rposition(|x| *x > 0.0).unwrap(); good &= tot[0][0] == lo && tot[0][tot[0].len() - 1] == hi; }
                    if !good { bad("table", format!("block {i}: table {:?} {:?} want {:?}", tot, cell, comp.tot)); }
                }
            }
        }
        // the systems maintained by the deduction steps stay equivalent to the marked board
        for st in 0..3 {
            let res = call(&case, || {
                let mut g = v.clone();
                let (mut a, mut x, mut b, _, _) = refresh_matrixs(&g);
                if st != 1 { let _ = solve_direct(&mut a, &mut x, &mut b, &mut g); }
                if st != 0 { let _ = solve_minus(&mut a, &mut x, &mut b, &mut g); }
                (g, read_blocks(&a, &x, &b))
            });
            match res {
                Err(e) => bad("maintain-panic", e),
                Ok((_, Err(e))) => bad("maintain", format!("stage {st}: {e}")),
                Ok((g, Ok(s))) => { let w = ref_blocks(&ref_sys(&g, true)); if s != w { bad("maintain", format!("stage {st}: remaining system {:?}, marked board gives {:?}", s, w)); } }
            }
        }
    }
    ctx.add(1, 5 + 2 * want.len() as u64, (want.len() > 1) as u64);
}
/// Tables of partial assignments extended equation by equation hold exactly the solutions of the equations so far.
fn check_tables(ctx: &Ctx) {
    let (nmax, depth) = if ctx.thorough { (5, 3) } else { (4, 3) };
    for n in 1..=nmax {
        let subsets: Vec<Vec<usize>> = (1..1usize << n).map(|m| (0..n).filter(|k| m >> k & 1 == 1).collect()).collect();
        ctx.par(subsets.len() * (n + 1), |k| {
            let mut todo = vec![vec![(k / (n + 1), (k % (n + 1)) as i32)]];
            while let Some(eqs) = todo.pop() {
                let case = || format!("{} cells, equations {:?}", n, eqs.iter().map(|(s, b)| (&subsets[*s], b)).collect::<Vec<_>>());
                let sat = |m: usize, e: &(usize, i32)| subsets[e.0].iter().filter(|c| m >> **c & 1 == 1).count() as i32 == e.1;
                let used = eqs.iter().fold(0usize, |a, e| subsets[e.0].iter().fold(a, |a, c| a | 1 << c));
                let row = |m: usize| -> Vec<usize> { (0..n).map(|c| if used >> c & 1 == 0 { 2 } else { m >> c & 1 }).collect() };
                let want: Vec<Vec<usize>> = { let mut w: Vec<Vec<usize>> = (0..1usize << n).filter(|m| m & !used == 0 && eqs.iter().all(|e| sat(*m, e))).map(row).collect(); w.sort(); w };
                let prev_empty = |n_eq: usize| !(0..1usize << n).any(|m| eqs[..n_eq].iter().all(|e| sat(m, e)));
                let got = call(&case, || { let mut t = vec![vec![2usize; n]]; for (s, b) in &eqs { t = enuOneStep(t, subsets[*s].clone(), *b); } t });
                match got { Err(e) => ctx.violation("table-panic", || format!("{}: {}", case(), e)), Ok(mut t) => { t.sort(); if t != want { ctx.violation("table", || format!("{}: {:?} want {:?}", case(), t, want)); } } }
                ctx.add(1, eqs.len() as u64, (want.len() > 1) as u64);
                // an empty table must not be extended
                if eqs.len() < depth && !prev_empty(eqs.len()) { for s in 0..subsets.len() { for b in 0..=subsets[s].len() as i32 { let mut x = eqs.clone(); x.push((s, b)); todo.push(x); } } }
            }
        });
    }
    ctx.note(format!("every sequence of up to {} equations over up to {} cells: the table of partial assignments", depth, nmax));
}
pub fn c24(ctx: &Ctx) {
    check_tables(ctx);
    let mut shp = shapes(1, if ctx.thorough { 12 } else { 10 });
    shp.retain(|s| s.0 > 1 && s.1 > 1 || s.0 * s.1 <= 11);
    if !ctx.thorough { shp.extend([(3, 4), (1, 11)]); } else { shp.extend([(2, 7), (3, 5)]); }
    for (r, c) in &shp {
        for_positions(ctx, *r, *c, false, |v, g| {
            check_sys(ctx, v);
            let n = r * c;
            let mut w = v.clone();
            let mut any = false;
            for k in 0..n { if g.and >> k & 1 == 1 && v[k / c][k % c] == 10 && k % 2 == 0 { w[k / c][k % c] = 11; any = true; } }
            if any { check_sys(ctx, &w); }
        });
    }
    ctx.note(format!("every reachable visible board of shapes {:?}, unmarked and with certain mines marked", shp));
    // many separate openings: rows of a long board with several opened strips
    for (r, c) in [(2usize, 11usize), (3, 9), (1, 16), (5, 5)] {
        let n = r * c;
        ctx.par(1 << n.min(16), |m| {
            // opened pattern = bits over a coarse grid; layout = fixed sparse lattice
            for lay in 0..6usize {
                let g: Vec<Vec<bool>> = (0..r).map(|i| (0..c).map(|j| (i * 3 + j * (lay + 1)) % (lay + 2) == 0 && (i + j) % 2 == lay % 2).collect()).collect();
                let b = number(&g);
                let cl: Vec<P> = (0..n.min(16)).filter(|k| m >> k & 1 == 1).map(|k| { let q = k * n / n.min(16); (q / c, q % c) }).collect();
                if cl.len() > 6 { continue; }
                check_sys(ctx, &visible(&b, &cl));
            }
        });
    }
    crate::p_solver::windows(ctx, false, |_b, v| { if v.len() * v[0].len() < 100 { check_sys(ctx, v) } });
    ctx.sample(|| "1x11 position 10,1,10,10,2,10,...".into());
}

// ---------------------------------------------------------------- C26
fn check_contra(ctx: &Ctx, v: &B, counts: &[f64]) {
    let (r, c) = (v.len(), v[0].len());
    let an = analyze(v);
    let case = || format!("position {}", show(v));
    for mk in 0..3 {
        let res = call(&case, || match mk {
            0 => { let mut g = v.clone(); mark_board(&mut g).err() }
            1 => { let mut g = v.clone(); let (mut a, mut x, mut b, _, _) = refresh_matrixs(&g); match solve_direct(&mut a, &mut x, &mut b, &mut g) { Ok(_) => solve_minus(&mut a, &mut x, &mut b, &mut g).err(), e => e.err() } }
            _ => { let mut g = v.clone(); let (mut a, mut x, mut b, _, _) = refresh_matrixs(&g); solve_minus(&mut a, &mut x, &mut b, &mut g).err() }
        });
        if let Err(e) = res { ctx.violation(["mark-panic", "direct-panic", "minus-panic"][mk], || format!("{} {}", case(), e)); }
    }
    for &m in counts {
        let case = || format!("position {} mines {}", show(v), m);
        let res = call(&case, || (cal_possibility(v, m), cal_possibility_onboard(v, m)));
        match res {
            Err(e) => ctx.violation("possibility-panic", || format!("{} {}", case(), e)),
            Ok((a, b)) => {
                let feasible = match &an {
                    None => false,
                    Some(x) => {
                        let t = if m >= 1.0 { m as usize } else {
                            let k = ((r * c) as f64 * m) as usize;
                            k.max(x.min_total()).min(x.max_total())
                        };
                        x.layouts(t) > 0.0
                    }
                };
                if a.is_ok() != feasible || b.is_ok() != feasible { ctx.violation("possibility-verdict", || format!("{} feasible={} but answers {:?} {:?}", case(), feasible, a, b)); }
                if let Ok((p, _, _, _)) = &a { if p.iter().any(|x| !(x.1 >= -1e-9 && x.1 <= 1.0 + 1e-9)) { ctx.violation("possibility-value", || format!("{} {:?}", case(), p)); } }
            }
        }
    }
    let cells: Vec<[usize; 2]> = (0..r * c).map(|k| [k / c, k % c]).collect();
    let m = counts[counts.len() / 2];
    match call(&case, || cal_is_op_possibility_cells(v, m, &cells)) {
        Err(e) => ctx.violation("open-prob-panic", || format!("{} mines {} {}", case(), m, e)),
        Ok(p) => if p.iter().any(|x| !(*x >= -1e-9 && *x <= 1.0 + 1e-9)) { ctx.violation("open-prob-value", || format!("{} mines {} {:?}", case(), m, p)); },
    }
    ctx.add(1, 3 + 2 * counts.len() as u64 + 1, an.is_none() as u64);
}
pub fn c26(ctx: &Ctx) {
    let alpha: Vec<i32> = vec![10, 0, 1, 2, 3, 4, 5, 8, 11];
    let mut shp = shapes(1, if ctx.thorough { 6 } else { 5 });
    if !ctx.thorough { shp.push((2, 3)); }
    for (r, c) in shp.clone() {
        let n = r * c;
        let al: &[i32] = if n >= 6 && !ctx.thorough { &[10, 0, 1, 2, 3, 5, 11] } else { &alpha };
        let total = al.len().pow(n as u32);
        ctx.par(total, |k| {
            let mut x = k;
            let mut v = vec![vec![0; c]; r];
            for q in 0..n { v[q / c][q % c] = al[x % al.len()]; x /= al.len(); }
            let counts: Vec<f64> = if n <= 4 { (1..=n + 1).map(|m| m as f64).chain([0.0, 0.3, 0.7]).collect() } else { vec![1.0, 2.0, (n - 1) as f64, 0.4] };
            check_contra(ctx, &v, &counts);
        });
    }
    // wider: digits 0..3 and unopened on 3x3 / 2x4 (bounded alphabet)
    for (r, c, al) in [(3usize, 3usize, vec![10, 1, 2, 4]), (2, 4, vec![10, 1, 2, 3, 11]), (1, 8, vec![10, 1, 2, 0])] {
        let n = r * c;
        ctx.par((al.len() as usize).pow(n as u32), |k| {
            let mut x = k;
            let mut v = vec![vec![0; c]; r];
            for q in 0..n { v[q / c][q % c] = al[x % al.len()]; x /= al.len(); }
            check_contra(ctx, &v, &[1.0, 3.0, 0.5]);
        });
    }
    ctx.note(format!("every assignment of {:?} to boards up to {} cells; smaller alphabets on 2x3, 3x3, 2x4, 1x8; mine totals 1..n+1 and proportions", alpha, if ctx.thorough { 6 } else { 5 }));
    ctx.sample(|| "1x3 position 10,2,10 and 8,10,8".into());
}
