//! C25: position objects (GameBoard) and the double-click judgement
use crate::ctx::*;
use crate::refm::*;
use crate::solver_ref::*;
use ms_toollib::*;

#[derive(Clone, Debug, PartialEq)]
pub struct Want { pub basic_safe: Vec<P>, pub basic_mine: Vec<P>, pub enum_safe: Vec<P>, pub enum_mine: Vec<P>, pub poss: Option<Vec<Vec<f64>>> }
fn plain(v: &B) -> B { v.iter().map(|r| r.iter().map(|x| if *x > 10 { 10 } else { *x }).collect()).collect() }
/// what the position says, marks made by the player ignored; m: number of mines
pub fn want(v: &B, m: usize) -> Want {
    let v = plain(v);
    let (r, c) = (v.len(), v[0].len());
    let a = analyze(&v).unwrap();
    let (safe, mine) = a.forced();
    let mut g = v.clone();
    let (mut ma, mut mx, mut mb, _, _) = refresh_matrixs(&g);
    let mut bs = solve_direct(&mut ma, &mut mx, &mut mb, &mut g).unwrap().0;
    bs.extend(solve_minus(&mut ma, &mut mx, &mut mb, &mut g).unwrap().0);
    let bs = sorted(&bs);
    let bm: Vec<P> = (0..r * c).map(|k| (k / c, k % c)).filter(|p| g[p.0][p.1] == 11).collect();
    let poss = a.probs(m).map(|(pc, pi)| (0..r).map(|i| (0..c).map(|j| if v[i][j] < 10 { 0.0 } else { pc.iter().find(|x| x.0 == (i, j)).map(|x| x.1).unwrap_or(pi.unwrap_or(0.0)) }).collect()).collect());
    Want { enum_safe: safe.into_iter().filter(|p| !bs.contains(p)).collect(), enum_mine: mine.into_iter().filter(|p| !bm.contains(p)).collect(), basic_safe: bs, basic_mine: bm, poss }
}
fn ask(g: &mut GameBoard, k: usize, w: &Want) -> Option<String> {
    let cmp = |n: &str, got: &Vec<P>, want: &Vec<P>| { let mut s = got.clone(); s.sort(); (s != *want).then(|| format!("{} got {:?} want {:?}", n, got, want)) };
    match k {
        0 => cmp("basic safe cells", g.get_basic_not_mine(), &w.basic_safe),
        1 => cmp("basic mines", g.get_basic_is_mine(), &w.basic_mine),
        2 => cmp("enumerated safe cells", g.get_enum_not_mine(), &w.enum_safe),
        3 => cmp("enumerated mines", g.get_enum_is_mine(), &w.enum_mine),
        _ => match &w.poss { None => None, Some(p) => { let q = g.get_poss(); let ok = q.len() == p.len() && q.iter().zip(p).all(|(a, b)| a.len() == b.len() && a.iter().zip(b).all(|(x, y)| (x - y).abs() < 1e-9)); (!ok).then(|| format!("probabilities got {:?} want {:?}", q, p)) } },
    }
}
fn perms() -> Vec<Vec<usize>> {
    let mut o = vec![];
    fn rec(cur: &mut Vec<usize>, o: &mut Vec<Vec<usize>>) { if cur.len() == 5 { o.push(cur.clone()); return; } for k in 0..5 { if !cur.contains(&k) { cur.push(k); rec(cur, o); cur.pop(); } } }
    rec(&mut vec![], &mut o);
    o
}
/// one object, the boards and queries of `hist` in order; every answer is compared
fn history(ctx: &Ctx, m: usize, hist: &[(&B, &Want, &[usize])]) {
    let case = || format!("mines {} history {:?}", m, hist.iter().map(|(v, _, q)| format!("{} ask {:?}", show(v), q)).collect::<Vec<_>>());
    let r = call(&case, || {
        let mut g = GameBoard::new(m);
        for (v, w, qs) in hist {
            g.set_game_board(v);
            if g.game_board != **v { return Some("board not stored".to_string()); }
            for q in qs.iter() { if let Some(e) = ask(&mut g, *q, w) { return Some(e); } }
            if !qs.is_empty() { if let Some(e) = ask(&mut g, qs[0], w) { return Some(format!("asked again: {}", e)); } }
        }
        None
    });
    ctx.add(1, hist.iter().map(|h| h.2.len() as u64).sum(), hist.iter().any(|h| !h.1.enum_safe.is_empty() || !h.1.enum_mine.is_empty()) as u64);
    match r { Err(e) => ctx.violation("panic", || format!("{}: {}", case(), e)), Ok(Some(e)) => ctx.violation("position", || format!("{}: {}", case(), e)), Ok(None) => {} }
}
fn chord_value(v: &B, p: P) -> i32 {
    let d = v[p.0][p.1];
    if !(1..=8).contains(&d) { return -1; }
    let n = nbs(v.len(), v[0].len(), p);
    if n.iter().filter(|q| v[q.0][q.1] == 11).count() as i32 != d { return -1; }
    n.iter().filter(|q| v[q.0][q.1] == 10).count() as i32
}
/// None: a double click there opens nothing; Some(false): a direct neighbour would open more
pub fn good_chord(v: &B, (i, j): P) -> Option<bool> {
    let (r, c) = (v.len(), v[0].len());
    let f = chord_value(v, (i, j));
    if f <= 0 { return None; }
    Some([(i.wrapping_sub(1), j), (i + 1, j), (i, j.wrapping_sub(1)), (i, j + 1)].iter().all(|&(a, b)| !(a < r && b < c && chord_value(v, (a, b)) > f)))
}
fn check_chording(ctx: &Ctx, v: &B) {
    let (r, c) = (v.len(), v[0].len());
    for i in 0..r { for j in 0..c {
        let Some(want) = good_chord(v, (i, j)) else { continue; };
        let case = || format!("double click at ({},{}) on {}", i, j, show(v));
        match call(&case, || is_good_chording(v, (i, j))) {
            Err(e) => ctx.violation("chording-panic", || format!("{}: {}", case(), e)),
            Ok(g) if g != want => ctx.violation("chording", || format!("{} judged {} want {}", case(), g, want)),
            _ => {}
        }
        ctx.add(0, 1, (!want) as u64);
    } }
}
pub fn c25(ctx: &Ctx) {
    let th = ctx.thorough;
    let ps = perms();
    let all: Vec<usize> = (0..5).collect();
    let mut shp = shapes(1, if th { 12 } else { 10 });
    shp.retain(|s| s.0 > 1 && s.1 > 1 || s.0 * s.1 <= 8);
    if !th { shp.push((3, 4)); }
    for (r, c) in &shp { let (r, c) = (*r, *c); for_positions(ctx, r, c, false, |v, _| {
        let a = analyze(v).unwrap();
        let totals: Vec<usize> = (a.min_total()..=a.max_total()).filter(|m| a.layouts(*m) > 0.0).collect();
        for (i, &m) in totals.iter().enumerate() {
            if r * c > 9 && i > 0 && i + 1 < totals.len() { continue; }
            let w = want(v, m);
            // every first question, every order on small shapes
            if r * c <= 6 { for p in &ps { history(ctx, m, &[(v, &w, p)]); } }
            else { for k in 0..if r * c <= 9 { 5 } else { 2 } { let p: Vec<usize> = (0..5).map(|q| (q * if k % 2 == 0 { 1 } else { 4 } + k * 4) % 5).collect(); history(ctx, m, &[(v, &w, &p)]); } }
            // marks made by the player are ignored, right or wrong
            let un: Vec<P> = (0..r * c).map(|k| (k / c, k % c)).filter(|p| v[p.0][p.1] == 10).collect();
            if i == 0 && un.len() <= 6 && r * c <= 9 {
                for code in [11, 12, 14, 15] { for f in 1..1u32 << un.len() {
                    if code != 11 && f.count_ones() > 1 { continue; }
                    let mut u = v.clone();
                    for (k, p) in un.iter().enumerate() { if f >> k & 1 == 1 { u[p.0][p.1] = code; } }
                    history(ctx, m, &[(&u, &w, &all)]);
                } }
            }
        }
    }); }
    ctx.note(format!("every reachable visible board of shapes {:?} with every possible mine total (largest shapes: smallest and largest total); all 120 query orders up to 6 cells; every set of player marks on up to 6 unopened cells", shp));
    // reuse for another position: all pairs
    let small: &[(usize, usize)] = if th { &[(1, 1), (1, 2), (2, 1), (1, 3), (3, 1), (2, 2), (1, 4), (2, 3), (3, 2), (1, 5)] } else { &[(1, 1), (1, 2), (2, 1), (1, 3), (2, 2), (1, 4), (2, 3)] };
    for m in 1..=3usize {
        let list = std::sync::Mutex::new(vec![]);
        for (r, c) in small { for_positions(ctx, *r, *c, false, |v, _| if analyze(v).unwrap().layouts(m) > 0.0 { list.lock().unwrap().push((v.clone(), want(v, m))); }); }
        let mut list = list.into_inner().unwrap();
        list.sort_by(|a, b| a.0.cmp(&b.0));
        ctx.par(list.len(), |i| for j in 0..list.len() {
            let (a, b) = (&list[i], &list[j]);
            for first in [&[0][..], &[3], &[4], &[]] { history(ctx, m, &[(&a.0, &a.1, first), (&b.0, &b.1, &[2, 3, 0, 1, 4])]); }
            history(ctx, m, &[(&a.0, &a.1, &[2]), (&b.0, &b.1, &[4]), (&a.0, &a.1, &all)]);
        });
        ctx.count(&format!("positions_in_pairs_{m}_mines"), list.len() as u64);
    }
    // larger positions, and the enumeration stage
    windows_c25(ctx, th);
    // double clicks: every assignment of codes to small boards
    let codes = [1, 2, 3, 10, 11];
    let shapes2: &[(usize, usize)] = if th { &[(1, 1), (1, 2), (2, 1), (1, 5), (5, 1), (2, 2), (2, 3), (3, 2), (3, 3), (2, 4), (4, 2), (2, 5), (5, 2)] } else { &[(1, 1), (1, 2), (2, 1), (1, 5), (5, 1), (2, 2), (2, 3), (3, 2), (2, 4), (4, 2), (3, 3)] };
    for (r, c) in shapes2 {
        let n = 5usize.pow((r * c) as u32);
        ctx.par(n, |k| { let mut k = k; let v: B = (0..*r).map(|_| (0..*c).map(|_| { let d = codes[k % 5]; k /= 5; d }).collect()).collect(); check_chording(ctx, &v); });
        ctx.add(n as u64, 0, 0);
    }
    // correctly flagged boards: every cell flagged mine, open or unopened
    for (r, c) in if th { vec![(3usize, 4usize), (4, 3), (2, 6), (4, 4), (3, 5)] } else { vec![(3, 4), (4, 3), (2, 6)] } {
        ctx.par(3usize.pow((r * c) as u32), |k| {
            let mut k = k;
            let cell: Vec<usize> = (0..r * c).map(|_| { let d = k % 3; k /= 3; d }).collect();
            let b = from_mask(r, c, (0..r * c).filter(|i| cell[*i] == 0).fold(0, |a, i| a | 1 << i));
            let v: B = (0..r).map(|i| (0..c).map(|j| match cell[i * c + j] { 0 => 11, 1 => b[i][j], _ => 10 }).collect()).collect();
            check_chording(ctx, &v);
        });
    }
    ctx.note("double clicks: every assignment of {1,2,3,unopened,flag} to small boards; every correctly flagged layout with every set of unopened cells on 3x4, 4x3, 2x6 (thorough: 4x4, 3x5)".to_string());
    ctx.sample(|| "history: set 1,10,10 ask probabilities, set 10,2,10 ask enumerated mines".into());
}
fn windows_c25(ctx: &Ctx, th: bool) {
    let all: Vec<usize> = (0..5).collect();
    crate::p_solver::windows(ctx, th, |b, v| {
        let m = mines(b);
        let w = want(v, m);
        history(ctx, m, &[(v, &w, &all)]);
        let flagged: B = v.iter().zip(b).map(|(r, s)| r.iter().zip(s).map(|(x, y)| if *x == 10 && *y == -1 { 11 } else { *x }).collect()).collect();
        history(ctx, m, &[(&flagged, &w, &[4, 3, 2, 1, 0])]);
    });
}
