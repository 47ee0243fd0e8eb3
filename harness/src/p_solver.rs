//! C07 C08 C09 C10 C11 C15 C24 C26
use crate::ctx::*;
use crate::refm::*;
use crate::solver_ref::*;
use ms_toollib::*;

fn bits(m: u64, r: usize, c: usize, v: &B) -> Vec<P> {
    let mut o = vec![];
    for k in 0..r * c { if m >> k & 1 == 1 && v[k / c][k % c] == 10 { o.push((k / c, k % c)); } }
    o
}
fn is_border(v: &B, p: P) -> bool { nbs(v.len(), v[0].len(), p).iter().any(|q| v[q.0][q.1] < 10) }
/// forced (safe, mine) among border cells, from the raw group
fn forced_group(v: &B, g: &Group) -> (Vec<P>, Vec<P>) {
    let (r, c) = (v.len(), v[0].len());
    let safe: Vec<P> = bits(!g.or & ((1u64 << (r * c)) - 1), r, c, v).into_iter().filter(|p| is_border(v, *p)).collect();
    let mine: Vec<P> = bits(g.and, r, c, v).into_iter().filter(|p| is_border(v, *p)).collect();
    (safe, mine)
}
pub fn subset(a: &[P], b: &[P]) -> bool { a.iter().all(|x| b.contains(x)) }

/// Large positions: mines confined to a window on a bigger board, opened by clicks at zero cells, then by the reference solver.
pub fn windows(ctx: &Ctx, thorough: bool, f: impl Fn(&B, &B) + Sync) {
    // (r,c,x,y,h,w)
    let mut specs: Vec<(usize, usize, usize, usize, usize, usize)> = vec![(7, 7, 0, 0, 3, 4), (7, 7, 2, 2, 3, 4), (7, 8, 0, 2, 4, 3), (8, 7, 3, 4, 4, 3), (6, 9, 2, 1, 2, 7), (9, 6, 1, 2, 7, 2), (5, 12, 0, 1, 1, 11), (16, 30, 7, 13, 3, 4)];
    if thorough { specs.extend([(7, 7, 0, 0, 4, 4), (7, 7, 3, 3, 4, 4), (8, 8, 2, 2, 4, 4), (7, 9, 0, 2, 3, 5), (9, 9, 3, 2, 3, 5), (6, 12, 2, 1, 2, 8), (5, 17, 0, 1, 1, 15), (16, 30, 12, 26, 4, 4)]); }
    for (r, c, x, y, h, w) in specs {
        ctx.par(1 << (h * w), |m| {
            let b = window(r, c, x, y, h, w, m as u64);
            // start at every opening
            let zs = components(r, c, |p| b[p.0][p.1] == 0);
            for z in zs.iter().take(3) {
                let mut ps = vec![];
                solvable(&b, z[0], Some(&mut ps));
                let k = ps.len();
                for (i, p) in ps.iter().enumerate() { if i == 0 || i + 1 == k || r * c < 100 { f(&b, p); } }
            }
        });
    }
}

/// Long walls: one closed row over an open row of numbers; the mines repeat every mask of a short period.
/// f(board, visible): fully open number row, positions while solving, and one or two unopened cells in the number row.
pub fn walls(ctx: &Ctx, thorough: bool, f: impl Fn(&B, &B) + Sync) {
    let lens: Vec<usize> = if thorough { (20..=55).collect() } else { vec![29, 31, 36, 41, 46, 51, 54, 55] };
    let mut masks: Vec<(usize, u32)> = vec![];
    for p in 1..=if thorough { 6 } else { 4 } { for m in 0..1u32 << p { masks.push((p, m)); } }
    ctx.par(lens.len() * masks.len(), |k| {
        let (n, (p, m)) = (lens[k / masks.len()], masks[k % masks.len()]);
        let mut g = vec![vec![false; n]; 2];
        for j in 0..n { if m >> (j % p) & 1 == 1 { g[0][j] = true; } }
        let b = number(&g);
        let tr = |v: &B| -> B { (0..v[0].len()).map(|j| v.iter().map(|x| x[j]).collect()).collect() };
        let show_open = |shut: &[usize]| -> B { (0..2).map(|x| (0..n).map(|y| if x == 0 || shut.contains(&y) { 10 } else { b[x][y] }).collect()).collect() };
        let mut pos = vec![show_open(&[])];
        // closing cells of the number row adds variables: stay within the enumeration limit
        let step = if thorough { 1 } else { 7 };
        if n + 1 <= 55 { for j in (0..n).step_by(step) { pos.push(show_open(&[j])); } }
        if n + 2 <= 55 { for j in (0..n).step_by(step) { pos.push(show_open(&[j, (j + n / 2) % n])); } }
        // the opening of a zero must be complete for the position to be reachable
        for v in pos {
            if (0..n).any(|j| v[1][j] == 0 && (j.max(1) - 1..n.min(j + 2)).any(|q| v[0][q] == 10 || v[1][q] == 10)) { continue; }
            if (k + n) % 2 == 0 { f(&b, &v); } else { f(&tr(&b), &tr(&v)); }
        }
    });
}
/// Several small separate groups of numbers on large boards: totals of the groups weigh against a large unknown region.
pub fn gadgets(ctx: &Ctx, thorough: bool, f: impl Fn(&B) + Sync) {
    let kinds: [&[(usize, usize, i32)]; 6] = [&[(1, 1, 1)], &[(1, 1, 3)], &[(1, 0, 1), (1, 2, 1)], &[(1, 0, 2), (1, 2, 3)], &[(0, 0, 1), (0, 2, 1), (0, 4, 1)], &[(1, 1, 2), (1, 3, 1), (3, 1, 1)]];
    let mut jobs = vec![];
    for (r, c, slots) in [(9usize, 9usize, 1usize), (16, 16, 4), (16, 30, 8), (24, 30, 8)] {
        let max = slots.min(if thorough { 8 } else { 6 });
        // every multiset of kinds with at most max members
        let mut todo: Vec<Vec<usize>> = vec![vec![]];
        while let Some(x) = todo.pop() {
            if !x.is_empty() { jobs.push((r, c, x.clone())); }
            if x.len() < max { for k in *x.last().unwrap_or(&0)..kinds.len() { let mut y = x.clone(); y.push(k); todo.push(y); } }
        }
    }
    ctx.par(jobs.len(), |i| {
        let (r, c, ks) = &jobs[i];
        let mut v = vec![vec![10; *c]; *r];
        let per = (c / 7).max(1);
        for (s, k) in ks.iter().enumerate() {
            // slots are 8 rows by 7 columns, so neighbouring groups never touch
            let (x0, y0) = (s / per * 8 + (i + s) % 3, s % per * 7);
            for (x, y, d) in kinds[*k] { v[x0 + x][y0 + y] = *d; }
        }
        f(&v);
    });
}

fn check_sound(ctx: &Ctx, v: &B, safe: &[P], mine: &[P]) {
    let (r, c) = (v.len(), v[0].len());
    let stages: &[(&str, &[u8])] = &[("direct", b"d"), ("minus", b"m"), ("direct,minus", b"dm"), ("direct,minus,direct,minus", b"dmdm"), ("mark", b"k"), ("enumerate", b"e"), ("direct,enumerate", b"de"), ("minus,enumerate", b"me"), ("direct,minus,enumerate", b"dme")];
    let mut ok_moves = 0u64;
    // unmarked, and with every second determined mine already marked
    for variant in 0..2 {
        let mut v0 = v.clone();
        if variant == 1 {
            if mine.is_empty() { break; }
            for (k, p) in mine.iter().enumerate() { if k % 2 == 0 { v0[p.0][p.1] = 11; } }
        }
        for (name, st) in stages {
            let case = || format!("position {} stages {}", show(&v0), name);
            let res = call(&case, || {
                let mut g = v0.clone();
                let (mut a, mut x, mut b, _, _) = refresh_matrixs(&g);
                let (mut not, mut is) = (vec![], vec![]);
                for s in *st {
                    let o = match s {
                        b'd' => solve_direct(&mut a, &mut x, &mut b, &mut g),
                        b'm' => solve_minus(&mut a, &mut x, &mut b, &mut g),
                        b'e' => Ok(solve_enumerate(&a, &x, &b)),
                        _ => mark_board(&mut g).map(|_| (vec![], vec![])),
                    };
                    match o {
                        Ok((n, i)) => {
                            if *s == b'd' || *s == b'm' {
                                for p in &n { if g[p.0][p.1] != 12 { return Err(format!("safe cell {:?} not marked", p)); } }
                                for p in &i { if g[p.0][p.1] != 11 { return Err(format!("mine cell {:?} not marked", p)); } }
                            }
                            not.extend(n); is.extend(i);
                        }
                        Err(e) => return Err(format!("consistent board rejected with {e}")),
                    }
                }
                Ok((not, is, g))
            });
            match res {
                Err(e) => ctx.violation("solver-panic", || format!("{} {}", case(), e)),
                Ok(Err(e)) => ctx.violation("solver-reject", || format!("{} {}", case(), e)),
                Ok(Ok((not, is, g))) => {
                    if let Some(p) = not.iter().find(|p| !safe.contains(p)) { ctx.violation("unsound-safe", || format!("{} declares {:?} safe", case(), p)); }
                    if let Some(p) = is.iter().find(|p| !mine.contains(p)) { ctx.violation("unsound-mine", || format!("{} declares {:?} a mine", case(), p)); }
                    for i in 0..r { for j in 0..c {
                        if g[i][j] != v0[i][j] {
                            let good = v0[i][j] == 10 && (g[i][j] == 12 && safe.contains(&(i, j)) || g[i][j] == 11 && mine.contains(&(i, j)));
                            if !good { ctx.violation("unsound-mark", || format!("{} board mark at {:?}: {} -> {}", case(), (i, j), v0[i][j], g[i][j])); }
                            ok_moves += 1;
                        }
                    } }
                }
            }
        }
    }
    ctx.add(1, 2 * stages.len() as u64, (ok_moves > 0) as u64);
}
pub fn c07(ctx: &Ctx) {
    let mut shp = shapes(1, 12);
    shp.retain(|s| s.0 > 1 && s.1 > 1 || s.0 * s.1 <= 8);
    shp.extend([(2, 7), (7, 2)]);
    if ctx.thorough { shp.extend([(3, 5), (5, 3)]); }
    for (r, c) in &shp {
        for_positions(ctx, *r, *c, false, |v, g| {
            let (safe, mine) = forced_group(v, g);
            check_sound(ctx, v, &safe, &mine);
        });
    }
    ctx.note(format!("every reachable (zero-closed) visible board of shapes {:?}", shp));
    windows(ctx, ctx.thorough, |_b, v| {
        let (safe, mine) = analyze(v).unwrap().forced();
        check_sound(ctx, v, &safe, &mine);
    });
    walls(ctx, ctx.thorough, |_b, v| {
        let (safe, mine) = analyze(v).unwrap().forced();
        check_sound(ctx, v, &safe, &mine);
    });
    ctx.note("walls of up to 55 closed cells in one block, every mine pattern of a short period");
    ctx.note("all mine layouts inside 12-cell (thorough: 16-cell) windows of boards up to 16x30, every position met while solving");
    ctx.sample(|| "2x3 position 1,10,10 / 10,10,2".into());
}
fn check_complete(ctx: &Ctx, v: &B, safe: &[P], mine: &[P], cells: &dyn Fn(usize) -> bool) {
    let (r, c) = (v.len(), v[0].len());
    for variant in 0..2 {
        let mut v0 = v.clone();
        let (mut s0, mut m0) = (safe.to_vec(), mine.to_vec());
        if variant == 1 {
            if mine.is_empty() { break; }
            for (k, p) in mine.iter().enumerate() { if k % 2 == 0 { v0[p.0][p.1] = 11; } }
            m0.retain(|p| v0[p.0][p.1] == 10);
            s0.retain(|p| is_border(&v0, *p));
        }
        let case = || format!("position {}", show(&v0));
        let res = call(&case, || {
            let mut g = v0.clone();
            let (mut a, mut x, mut b, _, _) = refresh_matrixs(&g);
            get_all_not_and_is_mine_on_board(&mut a, &mut x, &mut b, &mut g)
        });
        match res {
            Err(e) => ctx.violation("complete-panic", || format!("{} {}", case(), e)),
            Ok((n, i)) => {
                let (n, i) = (sorted(&n), sorted(&i));
                if n != s0 { ctx.violation("incomplete-safe", || format!("{} safe {:?} want {:?}", case(), n, s0)); }
                if i != m0 { ctx.violation("incomplete-mine", || format!("{} mines {:?} want {:?}", case(), i, m0)); }
            }
        }
        if variant == 0 {
            let res = call(&case, || { let (a, x, b, _, _) = refresh_matrixs(&v0); solve_enumerate(&a, &x, &b) });
            match res {
                Err(e) => ctx.violation("complete-panic", || format!("{} solve_enumerate {}", case(), e)),
                Ok((n, i)) => if sorted(&n) != s0 || sorted(&i) != m0 { ctx.violation("incomplete-enum", || format!("{} enumeration gives {:?} want {:?}", case(), (n, i), (&s0, &m0))); },
            }
        }
    }
    let mut q = 0;
    for k in 0..r * c {
        let p = (k / c, k % c);
        if v[p.0][p.1] != 10 || !cells(k) { continue; }
        q += 1;
        let want = safe.contains(&p) || mine.contains(&p);
        for flag in 0..2 {
            let mut g = v.clone();
            if flag == 1 { for l in 0..r * c { if g[l / c][l % c] == 10 && (l * 7 + k) % 3 == 0 { g[l / c][l % c] = 11; } } }
            let case = || format!("position {} cell {:?}", show(&g), p);
            match call(&case, || is_able_to_solve(&mut g.clone(), &p)) {
                Err(e) => ctx.violation("able-panic", || format!("{} {}", case(), e)),
                Ok(x) => if x != want { ctx.violation("able", || format!("{} provable={} want {}", case(), x, want)); },
            }
        }
    }
    ctx.add(1, 3 + 2 * q, (!safe.is_empty() || !mine.is_empty()) as u64);
}
pub fn c08(ctx: &Ctx) {
    let mut shp = shapes(1, if ctx.thorough { 14 } else { 12 });
    shp.retain(|s| s.0 > 1 && s.1 > 1 || s.0 * s.1 <= 8);
    if ctx.thorough { shp.extend([(3, 5)]); } else { shp.extend([(2, 7)]); }
    for (r, c) in &shp {
        let small = r * c <= 10;
        for_positions(ctx, *r, *c, false, |v, g| {
            let (safe, mine) = forced_group(v, g);
            let h = v.iter().flatten().fold(0usize, |a, x| a * 3 + *x as usize);
            check_complete(ctx, v, &safe, &mine, &|k| small || (k + h) % 4 == 0);
        });
    }
    ctx.note(format!("every reachable visible board of shapes {:?}; single-cell provability for every unopened cell on boards up to 10 cells, every fourth cell above", shp));
    windows(ctx, ctx.thorough, |_b, v| {
        let (safe, mine) = analyze(v).unwrap().forced();
        check_complete(ctx, v, &safe, &mine, &|k| k % 5 == 1 && v.len() * v[0].len() < 100);
    });
    walls(ctx, ctx.thorough, |_b, v| {
        let (safe, mine) = analyze(v).unwrap().forced();
        check_complete(ctx, v, &safe, &mine, &|k| k % 11 == 3);
    });
    ctx.note("walls of up to 55 closed cells in one block, every mine pattern of a short period");
    ctx.sample(|| "window 3x4 at (2,2) of 7x7".into());
}

/// brute-force probabilities from the group
fn close(a: f64, b: f64) -> bool { (a - b).abs() < 1e-9 }
fn check_probs(ctx: &Ctx, v: &B, g: Option<&Group>, totals: Option<&[usize]>) {
    let (r, c) = (v.len(), v[0].len());
    let area = r * c;
    let a0 = match analyze(v) { Some(a) => a, None => { eprintln!("reference rejects {}", show(v)); std::process::exit(3) } };
    let lo = a0.min_total();
    let hi = a0.max_total();
    let all: Vec<usize> = (lo..=hi).collect();
    for &m in totals.unwrap_or(&all) {
        if a0.layouts(m) == 0.0 { continue; }
        let (pc, pi) = a0.probs(m).unwrap();
        if let Some(g) = g {
            // cross-check the reference itself against plain enumeration
            let ms: Vec<u64> = g.masks.iter().cloned().filter(|x| x.count_ones() as usize == m).collect();
            let t = ms.len() as f64;
            if !close(a0.layouts(m), t) { eprintln!("reference count wrong {} m={m}", show(v)); std::process::exit(3); }
            for (p, x) in &pc { let k = p.0 * c + p.1; if !close(*x, ms.iter().filter(|q| *q >> k & 1 == 1).count() as f64 / t) { eprintln!("reference prob wrong"); std::process::exit(3); } }
        }
        let (safe, mine) = a0.forced();
        let mut marked = v.clone();
        for p in &safe { marked[p.0][p.1] = 12; }
        for p in &mine { marked[p.0][p.1] = 11; }
        let mut half = v.clone();
        for (k, p) in mine.iter().enumerate() { if k % 2 == 0 { half[p.0][p.1] = 11; } }
        for (k, p) in safe.iter().enumerate() { if k % 2 == 1 { half[p.0][p.1] = 12; } }
        let mut variants = vec![(v.clone(), m as f64)];
        if m > 0 && m < area { variants.push((v.clone(), (m as f64 + 0.5) / area as f64)); }
        if !safe.is_empty() || !mine.is_empty() {
            if m > 0 { variants.push((marked, m as f64)); variants.push((half.clone(), m as f64)); }
            if m > 0 && m < area { variants.push((half, (m as f64 + 0.5) / area as f64)); }
        }
        for (vb, mn) in &variants {
            let case = || format!("position {} mines {}", show(vb), mn);
            let res = call(&case, || (cal_possibility(vb, *mn), cal_possibility_onboard(vb, *mn)));
            match res {
                Err(e) => ctx.violation("prob-panic", || format!("{} {}", case(), e)),
                Ok((Ok((lst, pu, rng, _)), Ok((on, rng2)))) => {
                    let av = analyze(vb).unwrap();
                    let (pc2, pi2) = av.probs(m).unwrap();
                    let mut want: Vec<(P, f64)> = pc2;
                    want.sort_by_key(|x| x.0);
                    let mut got = lst.clone();
                    got.sort_by_key(|x| x.0);
                    if got.len() != want.len() || got.iter().zip(&want).any(|(a, b)| a.0 != b.0 || !close(a.1, b.1)) {
                        ctx.violation("prob-border", || format!("{} got {:?} want {:?}", case(), got, want));
                    }
                    match pi2 { Some(x) => if !close(x, pu) { ctx.violation("prob-interior", || format!("{} interior got {} want {}", case(), pu, x)); }, None => {} }
                    let truth = |p: P| -> f64 {
                        if v[p.0][p.1] < 10 { return 0.0; }
                        pc.iter().find(|x| x.0 == p).map(|x| x.1).unwrap_or_else(|| pi.unwrap_or(f64::NAN))
                    };
                    for i in 0..r { for j in 0..c {
                        if !close(on[i][j], truth((i, j))) { ctx.violation("prob-board", || format!("{} cell {:?} got {} want {}", case(), (i, j), on[i][j], truth((i, j)))); }
                    } }
                    if rng != rng2 { ctx.violation("prob-range", || format!("{} ranges differ {:?} {:?}", case(), rng, rng2)); }
                    if rng[0] != av.min_total() || rng[1] != m || rng[2] != av.max_total() {
                        ctx.violation("prob-range", || format!("{} range {:?} want [{}, {}, {}]", case(), rng, av.min_total(), m, av.max_total()));
                    }
                }
                Ok((x, y)) => ctx.violation("prob-reject", || format!("{} consistent position rejected: {:?} {:?}", case(), x.err(), y.err())),
            }
        }
        ctx.add(1, 2 * variants.len() as u64, (pc.iter().any(|x| x.1 > 0.0 && x.1 < 1.0)) as u64);
    }
}
/// Blocks beyond the enumeration limit: documented to get the average probability, with the length reported.
fn check_long(ctx: &Ctx, v: &B, totals: &[usize]) {
    let (r, c) = (v.len(), v[0].len());
    let mut a = match analyze(v) { Some(a) => a, None => { eprintln!("reference rejects {}", show(v)); std::process::exit(3) } };
    let longest = a.comps.iter().map(|x| x.cells.len()).max().unwrap_or(0);
    let (long, rest): (Vec<Comp>, Vec<Comp>) = a.comps.into_iter().partition(|x| x.cells.len() > 55);
    let long: Vec<P> = long.into_iter().flat_map(|x| x.cells).collect();
    ctx.count(if long.is_empty() { "marked_walls_back_within_the_limit" } else if rest.is_empty() { "long_blocks_alone" } else { "long_blocks_next_to_short_ones" }, 1);
    a.comps = rest;
    a.interior.extend(&long);
    let (lo, hi) = (a.min_total(), a.max_total());
    for &m in totals {
        if a.layouts(m) == 0.0 { continue; }
        let (mut want, pi) = a.probs(m).unwrap();
        want.sort_by_key(|x| x.0);
        let pi = pi.unwrap_or(f64::NAN);
        let mut ms = vec![m as f64];
        if m > 0 && m < r * c { ms.push((m as f64 + 0.5) / (r * c) as f64); }
        for mn in ms {
            let case = || format!("position {} mines {}", show(v), mn);
            match call(&case, || (cal_possibility(v, mn), cal_possibility_onboard(v, mn))) {
                Err(e) => ctx.violation("long-panic", || format!("{} {}", case(), e)),
                Ok((Ok((mut got, pu, rng, len)), Ok((on, rng2)))) => {
                    got.sort_by_key(|x| x.0);
                    if got.len() != want.len() || got.iter().zip(&want).any(|(a, b)| a.0 != b.0 || !close(a.1, b.1)) { ctx.violation("long-border", || format!("{} got {:?} want {:?}", case(), got, want)); }
                    if !pi.is_nan() && !close(pu, pi) { ctx.violation("long-average", || format!("{} average got {} want {}", case(), pu, pi)); }
                    if len != longest { ctx.violation("long-length", || format!("{} needed length {} want {}", case(), len, longest)); }
                    if rng != [lo, m, hi] || rng2 != rng { ctx.violation("long-range", || format!("{} range {:?} {:?} want {:?}", case(), rng, rng2, [lo, m, hi])); }
                    for i in 0..r { for j in 0..c {
                        let w = match v[i][j] { 10 => want.iter().find(|x| x.0 == (i, j)).map_or(pi, |x| x.1), 11 => 1.0, _ => 0.0 };
                        if !close(on[i][j], w) { ctx.violation("long-board", || format!("{} cell {:?} got {} want {}", case(), (i, j), on[i][j], w)); }
                    } }
                }
                Ok((x, y)) => ctx.violation("long-reject", || format!("{} consistent position rejected: {:?} {:?}", case(), x.err(), y.err())),
            }
        }
        ctx.add(1, 2, 1);
    }
}
/// Walls longer than the enumeration limit, alone or next to groups within it, with mine totals around the true one.
fn long_walls(ctx: &Ctx, thorough: bool, f: impl Fn(&B, &B) + Sync) {
    let lens: Vec<usize> = if thorough { (56..=80).chain([100, 128, 200]).collect() } else { vec![56, 57, 60, 64, 72, 100] };
    let mut masks: Vec<(usize, u32)> = vec![];
    for p in 1..=if thorough { 5 } else { 4 } { for m in 0..1u32 << p { masks.push((p, m)); } }
    ctx.par(lens.len() * masks.len(), |k| {
        let (n, (p, m)) = (lens[k / masks.len()], masks[k % masks.len()]);
        let tr = |v: &B| -> B { (0..v[0].len()).map(|j| v.iter().map(|x| x[j]).collect()).collect() };
        // rows: 0 the wall, 1 the numbers of the wall; with lower rows: 2 open, 3 numbers, 4 a wall cut into short pieces, 5 untouched
        for lower in 0..3usize {
            let rows = if lower == 0 { 2 } else { 6 };
            let mut g = vec![vec![false; n]; rows];
            for j in 0..n { if m >> (j % p) & 1 == 1 { g[0][j] = true; if lower > 0 { g[4][n - 1 - j] = true; } } }
            let cut = |j: usize| lower > 0 && j % if lower == 1 { 17 } else { 9 } >= if lower == 1 { 15 } else { 2 };
            for j in 0..n { if cut(j) { for x in 4..6 { g[x][j] = false; } } }
            let b = number(&g);
            let v: B = (0..rows).map(|x| (0..n).map(|y| if x == 0 || x >= 4 && !cut(y) { 10 } else { b[x][y] }).collect()).collect();
            // leave out positions with an opened zero next to an unopened cell
            if (0..rows).any(|x| (0..n).any(|y| v[x][y] == 0 && nbs(rows, n, (x, y)).iter().any(|q| v[q.0][q.1] == 10))) { continue; }
            if (k + n) % 2 == 0 { f(&b, &v); } else { f(&tr(&b), &tr(&v)); }
            // with a marked mine the wall is shorter, or falls into two
            let ml: Vec<usize> = (0..n).filter(|j| g[0][*j]).collect();
            for q in [0, ml.len() / 2] { if let Some(j) = ml.get(q) {
                let mut w = v.clone();
                w[0][*j] = 11;
                if (k + n) % 2 == 1 { f(&b, &w); } else { f(&tr(&b), &tr(&w)); }
            } }
        }
    });
}
pub fn c09(ctx: &Ctx) {
    let mut shp = shapes(1, if ctx.thorough { 12 } else { 10 });
    shp.retain(|s| s.0 > 1 && s.1 > 1 || s.0 * s.1 <= 8);
    if !ctx.thorough { shp.push((3, 4)); }
    for (r, c) in &shp { for_positions(ctx, *r, *c, true, |v, g| check_probs(ctx, v, Some(g), None)); }
    ctx.note(format!("every reachable visible board of shapes {:?} with every mine total that has a layout", shp));
    windows(ctx, ctx.thorough, |b, v| {
        let m = mines(b);
        let area = v.len() * v[0].len();
        if area > 100 { check_probs(ctx, v, None, Some(&[m, m + 3, 99, 150])); } else { check_probs(ctx, v, None, Some(&[m, m + 1, m + 2, m + 5])); }
    });
    walls(ctx, ctx.thorough, |b, v| {
        let m = mines(b);
        check_probs(ctx, v, None, Some(&[m, m + 1]));
    });
    long_walls(ctx, ctx.thorough, |b, v| {
        let m = mines(b);
        check_long(ctx, v, &[m.saturating_sub(1), m, m + 1, m + 4, v.len() * v[0].len() / 2]);
    });
    ctx.note("walls of 56 to 200 closed cells (beyond the enumeration limit), alone and above rows of short groups, with and without a marked mine: average probability, needed length, and exact values for the groups within the limit");
    gadgets(ctx, ctx.thorough, |v| {
        let n = analyze(v).unwrap();
        let (lo, hi) = (n.min_total(), n.max_total());
        let mut t = vec![lo, lo + 1, lo + 2, lo + 3, lo + 5, lo + 9, 40, 99, 200, hi - 3, hi - 1, hi];
        t.retain(|x| *x >= lo && *x <= hi);
        t.sort(); t.dedup();
        check_probs(ctx, v, None, Some(&t));
    });
    ctx.note("walls of up to 55 closed cells in one block, every mine pattern of a short period; every multiset of up to six (thorough: eight) separate number groups of six kinds on boards up to 24x30, with sparse, standard and dense mine totals");
    // whole untouched boards and one-number boards of standard sizes
    for (r, c, m) in [(8usize, 8usize, 10usize), (9, 9, 10), (16, 16, 40), (16, 30, 99), (16, 30, 200), (24, 30, 200)] {
        ctx.par(r * c, |k| for d in 0..=8 {
            let p = (k / c, k % c);
            let nn = nbs(r, c, p).len();
            if d > nn { continue; }
            let mut v = vec![vec![10; c]; r];
            if d == 0 { if m == 99 { let mut mm = vec![vec![false; c]; r]; mm[r - 1 - p.0][c - 1 - p.1] = true; let b = number(&mm); if b[p.0][p.1] == 0 { v = visible(&b, &[p]); } } } else { v[p.0][p.1] = d as i32; }
            check_probs(ctx, &v, None, Some(&[m]));
        });
    }
    ctx.sample(|| "2x3 position 1,10,10 / 10,10,10 mines 2".into());
}
pub fn c10(ctx: &Ctx) {
    let mut shp = shapes(1, 12);
    shp.retain(|s| s.0 > 1 && s.1 > 1 || s.0 * s.1 <= 7);
    if ctx.thorough { shp.extend([(2, 7), (7, 2)]); }
    for (r, c) in &shp { let (r, c) = (*r, *c); for_positions(ctx, r, c, true, |v, g| {
        let nm: Vec<u64> = (0..r * c).map(|k| nbs(r, c, (k / c, k % c)).iter().fold(1 << k, |a, p| a | 1 << (p.0 * c + p.1))).collect();
        let cells: Vec<[usize; 2]> = (0..r * c).filter(|k| v[k / c][k % c] == 10).map(|k| [k / c, k % c]).collect();
        if cells.is_empty() { return; }
        for m in 0..=r * c {
            let ms: Vec<u64> = g.masks.iter().cloned().filter(|x| x.count_ones() as usize == m).collect();
            if ms.is_empty() { continue; }
            // plain, and with the certain mines / safe cells marked
            for variant in 0..2 {
                let mut vb = v.clone();
                if variant == 1 {
                    if m == 0 { continue; }
                    let (safe, mine) = forced_group(v, g);
                    if safe.is_empty() && mine.is_empty() { continue; }
                    for (k, p) in mine.iter().enumerate() { if k % 2 == 0 { vb[p.0][p.1] = 11; } }
                    for (k, p) in safe.iter().enumerate() { if k % 2 == 0 { vb[p.0][p.1] = 12; } }
                }
                let case = || format!("position {} mines {} cells {:?}", show(&vb), m, cells);
                match call(&case, || cal_is_op_possibility_cells(&vb, m as f64, &cells)) {
                    Err(e) => ctx.violation("open-prob-panic", || format!("{} {}", case(), e)),
                    Ok(p) => {
                        if p.len() != cells.len() { ctx.violation("open-prob-len", || case()); }
                        for (i, cell) in cells.iter().enumerate() {
                            let k = cell[0] * c + cell[1];
                            let want = ms.iter().filter(|x| *x & nm[k] == 0).count() as f64 / ms.len() as f64;
                            if !close(p[i], want) { ctx.violation("open-prob", || format!("{} cell {:?} got {} want {}", case(), cell, p[i], want)); }
                        }
                    }
                }
                ctx.add(1, cells.len() as u64, (ms.len() > 1) as u64);
            }
        }
    }); }
    ctx.note(format!("every reachable visible board of shapes {:?}, every mine total with a layout, every unopened cell, unmarked and partly marked", shp));
    // large untouched boards: closed form
    for (r, c) in [(8usize, 8usize), (16, 16), (16, 30), (30, 16), (5, 7)] {
        let v = vec![vec![10; c]; r];
        for m in [1usize, 2, r * c / 5, r * c / 2] {
            let cells: Vec<[usize; 2]> = vec![[0, 0], [0, c - 1], [r - 1, 0], [r - 1, c - 1], [0, 2], [r / 2, c / 2], [2, c - 1], [r - 1, 1], [3, 0]];
            let case = || format!("untouched {r}x{c} mines {m}");
            match call(&case, || cal_is_op_possibility_cells(&v, m as f64, &cells)) {
                Err(e) => ctx.violation("open-prob-panic", || format!("{} {}", case(), e)),
                Ok(p) => for (i, x) in cells.iter().enumerate() {
                    let nn = nbs(r, c, (x[0], x[1])).len() + 1;
                    let mut want = 1.0;
                    for q in 0..nn { want *= (r * c - m).saturating_sub(q) as f64 / (r * c - q) as f64; }
                    if !close(p[i], want) { ctx.violation("open-prob", || format!("{} cell {:?} got {} want {}", case(), x, p[i], want)); }
                },
            }
            ctx.add(1, cells.len() as u64, 1);
        }
    }
    ctx.sample(|| "untouched 16x30 board with 99 mines, corner".into());
}
