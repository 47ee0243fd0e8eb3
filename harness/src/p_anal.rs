//! C31: the event analyses of a recording say what happened.
use crate::ctx::*;
use crate::p_pos::*;
use crate::p_seek::*;
use crate::p_video::*;
use crate::refgame::*;
use crate::refm::*;
use crate::refrec::*;
use ms_toollib::*;
use std::collections::{HashMap, HashSet, VecDeque};
use std::sync::Arc;

pub const NAMES: [&str; 7] = ["high_risk_guess", "jump_judge", "needless_guess", "mouse_trace", "vision_transfer", "survive_poss", "super_fl_local"];
/// what one analysis must and may write at one event; numbers inside are compared with a tolerance
#[derive(Default, Clone, Debug)]
struct Exp { must: Vec<String>, may: Vec<String>, any: bool }
type Pos = HashMap<(B, usize), Arc<Want>>;
thread_local! { static POS: std::cell::RefCell<Pos> = Default::default(); }
fn position(v: &B, m: usize) -> Arc<Want> {
    let v: B = v.iter().map(|r| r.iter().map(|x| if *x > 10 { 10 } else { *x }).collect()).collect();
    POS.with(|p| {
        let mut p = p.borrow_mut();
        if p.len() > 60_000 { p.clear(); }
        p.entry((v.clone(), m)).or_insert_with(|| Arc::new(want(&v, m))).clone()
    })
}
fn close(a: &str, b: &str) -> bool {
    // the same text around numbers that agree to the last printed digit
    let split = |s: &str| { let mut t = vec![]; let mut n: Vec<f64> = vec![]; let mut cur = String::new(); let mut num = String::new(); for ch in s.chars().chain(['\n']) { if ch.is_ascii_digit() || ch == '.' { num.push(ch); } else { if !num.is_empty() { n.push(num.parse().unwrap_or(-1.0)); num.clear(); t.push('#'.to_string()); } cur.push(ch); t.push(ch.to_string()); } } (t.concat(), n, s.matches('.').count()) };
    let ((ta, na, _), (tb, nb, _)) = (split(a), split(b));
    ta == tb && na.len() == nb.len() && na.iter().zip(&nb).all(|(x, y)| (x - y).abs() <= if *x >= 1.0 { 1.01 } else { 0.00101 }) && {
        // a six-digit product is compared to six digits
        let six = |s: &str| s.split('=').nth(1).and_then(|t| t.trim().parse::<f64>().ok());
        match (six(a), six(b)) { (Some(x), Some(y)) => (x - y).abs() < 1.01e-6, _ => true }
    }
}
fn expect(r: &Rec, name: &str) -> Vec<Exp> {
    let n = r.evs.len();
    let m = mines(&r.g.b);
    let mut out = vec![Exp::default(); n];
    let first = r.evs.iter().position(|e| e.e == "lr" && e.level > 0);
    let cell = |e: &RE| (e.y / r.pix, e.x / r.pix);
    match name {
        "high_risk_guess" => for (i, e) in r.evs.iter().enumerate() {
            if e.level < 2 || !e.inside { continue; }
            let w = position(&e.before, m);
            let q = cell(e);
            let p = w.poss.as_ref().unwrap()[q.0][q.1];
            if (p - 0.51).abs() < 1e-6 { out[i].any = true; continue; }
            if p >= 0.51 { let t = format!("error: 危险的猜雷(猜对概率{:.3})", 1.0 - p); if i < 2 || Some(i) == first { out[i].may.push(t); } else { out[i].must.push(t); } }
        },
        "jump_judge" => for (i, e) in r.evs.iter().enumerate() {
            if !e.inside { continue; }
            let q = cell(e);
            let t = if e.e == "lr" && e.level >= 2 && position(&e.before, m).enum_safe.contains(&q) { "feature: 高难度的判雷(左键)" }
                else if e.e == "rc" && e.level == 1 && e.before[q.0][q.1] == 10 && position(&e.before, m).enum_mine.contains(&q) { "feature: 高难度的判雷(标雷)" } else { continue };
            if i < 2 { out[i].may.push(t.into()); } else { out[i].must.push(t.into()); }
        },
        "needless_guess" => for (i, e) in r.evs.iter().enumerate() {
            if e.e != "lr" || e.level < 2 || !e.inside { continue; }
            let q = cell(e);
            let w = position(&e.before, m);
            let p = w.poss.as_ref().unwrap()[q.0][q.1];
            if p <= 0.0 || w.basic_safe.contains(&q) || w.enum_safe.contains(&q) { continue; }
            // a guess; it was needless when a neighbouring constraint group held a safe cell, and certainly not when nothing could be deduced
            let t: String = "warning: 可以判雷时选择猜雷".into();
            let safe: Vec<P> = w.basic_safe.iter().chain(&w.enum_safe).cloned().collect();
            if safe.is_empty() && w.basic_mine.is_empty() && w.enum_mine.is_empty() { continue; }
            if i < 2 || Some(i) == first || safe.is_empty() { out[i].may.push(t); } else { out[i].must.push(t); }
        },
        "mouse_trace" => {
            let (mut from, mut path, mut last) = (0usize, 0.0f64, (r.evs[0].x as f64, r.evs[0].y as f64));
            for (i, e) in r.evs.iter().enumerate() {
                let (x, y) = (e.x as f64, e.y as f64);
                path += ((last.0 - x) * (last.0 - x) + (last.1 - y) * (last.1 - y)).sqrt();
                last = (x, y);
                if !["lr", "rc", "rr"].contains(&e.e) { continue; }
                let f = &r.evs[from];
                let d = ((f.x as f64 - x).powi(2) + (f.y as f64 - y).powi(2)).sqrt();
                let k = path / d;
                if d == 0.0 || (k - 7.0).abs() < 1e-9 || (k - 3.5).abs() < 1e-9 { if d == 0.0 && path > 0.0 || d > 0.0 { out[from].any = true; } }
                else if k > 7.0 { out[from].must.push(format!("error: 过于弯曲的鼠标轨迹({:.0}%)", k * 100.0)); }
                else if k > 3.5 { out[from].must.push(format!("warning: 弯曲的鼠标轨迹({:.0}%)", k * 100.0)); }
                else if k < 1.01 { out[from].may.push("suspect: 笔直的鼠标轨迹".into()); }
                from = i;
                path = 0.0;
            }
        }
        "vision_transfer" => {
            let mut last = 0usize;
            for (i, e) in r.evs.iter().enumerate() {
                if e.level < 2 { continue; }
                let f = &r.evs[last];
                let (dy, dx) = (f.y as i64 - e.y as i64, f.x as i64 - e.x as i64);
                if dy * dy + dx * dx >= 112 * 112 {
                    let w = position(&e.before, m);
                    let q = cell(f);
                    if w.basic_safe.iter().chain(&w.enum_safe).any(|s| s.0.abs_diff(q.0) <= 3 && s.1.abs_diff(q.1) <= 3) { out[last].must.push("warning: 可以判雷时视野的转移".into()); }
                }
                last = i;
            }
        }
        "survive_poss" => {
            let mut parts = vec![];
            let mut prod = 1.0;
            for (i, e) in r.evs.iter().enumerate() {
                if e.e != "lr" || e.level == 0 || Some(i) == first { continue; }
                let q = cell(e);
                let p = position(&e.before, m).poss.as_ref().unwrap()[q.0][q.1];
                if p > 1e-12 && p < 1.0 - 1e-12 { parts.push(format!("{:.3}", 1.0 - p)); prod *= 1.0 - p; }
            }
            out[n - 1].must.push(if parts.is_empty() { "luck: 1".into() } else { format!("luck: {} = {:.6}", parts.join(" * "), prod) });
        }
        _ => {}
    }
    out
}
/// one gesture: kind F(lag) C(hord) L(eft) U(nflag) and the index of the event that did it
#[derive(Clone, Copy, Debug, PartialEq)]
enum K { F, C, L, X }
fn gestures(r: &Rec) -> Option<Vec<(K, P, usize)>> {
    let mut out = vec![];
    let mut i = 0;
    let ev: Vec<(usize, &RE)> = r.evs.iter().enumerate().filter(|x| x.1.e != "mv").collect();
    while i < ev.len() {
        let at = |k: usize| ev.get(i + k).map(|x| x.1.e).unwrap_or("");
        let q = (ev[i].1.y / r.pix, ev[i].1.x / r.pix);
        let same = |k: usize| (0..k).all(|j| ev.get(i + j).map(|x| x.1.inside && (x.1.y / r.pix, x.1.x / r.pix) == q).unwrap_or(false));
        if at(0) == "lc" && at(1) == "lr" && same(2) { out.push((K::L, q, ev[i + 1].0)); i += 2; }
        else if at(0) == "rc" && at(1) == "rr" && same(2) { let e = ev[i].1; out.push((if e.level == 1 && e.before[q.0][q.1] == 10 { K::F } else { return None; }, q, ev[i].0)); i += 2; }
        else if at(0) == "lc" && at(1) == "rc" && at(2) == "lr" && (at(3) == "rr" && same(4) || ev.len() == i + 3 && same(3)) { let e = ev[i + 2].1; out.push((if e.level == 3 && good_chord(&e.before, q) == Some(true) { K::C } else { K::X }, q, ev[i + 2].0)); i += 4; }
        else { return None; }
    }
    Some(out)
}
/// the textbook flagging runs: anchor event and number of steps; None: the rule leaves it open
fn runs(r: &Rec) -> Option<Vec<(usize, usize)>> {
    let g = gestures(r)?;
    let mut out = vec![];
    let mut cur: Vec<(K, P, usize)> = vec![];
    for x in &g {
        match x.0 {
            K::F | K::C => if x.0 == K::F || !cur.is_empty() { cur.push(*x); },
            K::L | K::X => {
                if jumps(&cur) { return None; }
                close_run(&mut cur, &mut out);
            }
        }
    }
    if jumps(&cur) { return None; }
    close_run(&mut cur, &mut out);
    Some(out)
}
fn close_run(cur: &mut Vec<(K, P, usize)>, out: &mut Vec<(usize, usize)>) {
    let n = cur.iter().rposition(|x| x.0 == K::C).map(|i| i + 1).unwrap_or(0);
    if n >= 5 { out.push((cur[0].2, n)); }
    cur.clear();
}
fn jumps(cur: &[(K, P, usize)]) -> bool { cur.windows(2).any(|w| { let d = (w[0].1.0.abs_diff(w[1].1.0), w[0].1.1.abs_diff(w[1].1.1)); d.0 * d.0 + d.1 * d.1 > 16 }) }
fn pieces(s: &str) -> Vec<String> { s.split(';').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect() }
fn show_rec(r: &Rec) -> String { format!("board {} pixels {} events {}", show(&r.g.b), r.pix, r.evs.iter().map(|e| format!("{}({},{})", e.e, e.y, e.x)).collect::<Vec<_>>().join(" ")) }
fn judge(ctx: &Ctx, b: &Arc<B>, pix: usize, evs: &[PEv]) {
    let Some(rp) = recording(b, pix, evs, Pattern { a: 1000, b: 17_000, back: false }) else { return; };
    let r = &rp.r;
    let case = || show_rec(r);
    let n = r.evs.len();
    let mut hits = 0u64;
    let res = call(&case, || {
        let mut d = open_rec(&rp);
        if d.video_action_state_recorder.len() != n { return Some(("events".to_string(), format!("{} events want {}", d.video_action_state_recorder.len(), n))); }
        let before = (d.get_game_board(), d.get_left(), d.get_time());
        let mut single: Vec<Vec<String>> = vec![vec![]; n];
        for name in NAMES {
            d.analyse_for_features(vec![name]);
            let got: Vec<Vec<String>> = d.video_action_state_recorder.iter_mut().map(|e| pieces(&std::mem::take(&mut e.comments))).collect();
            if name == "super_fl_local" {
                let all: Vec<(usize, usize)> = got.iter().enumerate().flat_map(|(i, g)| g.iter().map(move |s| (i, s.strip_prefix("feature: 教科书式的FL局部(步数").and_then(|t| t.strip_suffix(")")).and_then(|t| t.parse().ok()).unwrap_or(0)))).collect();
                for (i, k) in &all {
                    let e = &r.evs[*i];
                    let q = (e.y / r.pix, e.x / r.pix);
                    if *k < 5 || e.e != "rc" || e.level != 1 || e.before[q.0][q.1] != 10 { return Some((name.into(), format!("event {} starts a run of {} steps, but it sets no flag or the run is short", i, k))); }
                    // a flag taken back is no step of a run
                    let next: Vec<&RE> = r.evs[*i..].iter().filter(|e| e.level > 0 && !(e.e == "rc" && e.before[e.y / r.pix][e.x / r.pix] == 11)).take(*k).collect();
                    if next.len() < *k || next.iter().any(|e| !(e.level == 3 || e.e == "rc")) { return Some((name.into(), format!("run of {} steps at event {}: the effective events that follow are {:?}", k, i, next.iter().map(|e| (e.e, e.level)).collect::<Vec<_>>()))); }
                }
                if let Some(w) = runs(r) { hits += w.len() as u64; if w != all { return Some((name.into(), format!("runs {:?} want {:?}", all, w))); } }
            } else {
                let want = expect(r, name);
                for i in 0..n {
                    if want[i].any { continue; }
                    hits += want[i].must.len() as u64;
                    let mut left = got[i].clone();
                    for t in &want[i].must { match left.iter().position(|g| close(g, t)) { Some(k) => { left.remove(k); } None => return Some((name.into(), format!("{}: event {} says {:?}, {:?} is missing", name, i, got[i], t))) } }
                    if let Some(x) = left.iter().find(|g| !want[i].may.iter().any(|t| close(g, t))) { return Some((name.into(), format!("{}: event {} says {:?}, unexpected {:?} (position {})", name, i, got[i], x, show(&r.evs[i].before)))); }
                }
            }
            for (s, g) in single.iter_mut().zip(got) { s.extend(g); }
        }
        for s in single.iter_mut() { s.sort(); }
        // all together: in this order, backwards, and from the middle; an unknown name is passed over
        for order in [0usize, 1, 2] {
            let mut l: Vec<&str> = NAMES.to_vec();
            match order { 1 => l.reverse(), 2 => l.rotate_left(3), _ => {} }
            l.insert(order, "nonsense");
            d.analyse_for_features(l.clone());
            for i in 0..n {
                let mut g = pieces(&std::mem::take(&mut d.video_action_state_recorder[i].comments));
                g.sort();
                if g != single[i] { return Some(("order".to_string(), format!("analyses {:?}: event {} says {:?}, asked one by one {:?}", l, i, g, single[i]))); }
            }
        }
        if before != (d.get_game_board(), d.get_left(), d.get_time()) { return Some(("replay".to_string(), "the analyses moved the replay".into())); }
        None
    });
    ctx.add(1, n as u64 * NAMES.len() as u64, (hits > 1) as u64);
    match res { Err(e) => ctx.violation("panic", || format!("{}: {}", case(), e)), Ok(Some((k, e))) => ctx.violation(&k, || format!("{}: {}", case(), e)), Ok(None) => {} }
}
fn at(pix: usize, p: P, k: usize) -> (usize, usize) { let o = [0, pix / 2, pix - 1][k % 3]; (p.0 * pix + o, p.1 * pix + o) }
fn left(pix: usize, p: P, k: usize) -> Vec<PEv> { let (y, x) = at(pix, p, k); vec![("lc", y, x), ("lr", y, x)] }
fn right(pix: usize, p: P, k: usize) -> Vec<PEv> { let (y, x) = at(pix, p, k); vec![("rc", y, x), ("rr", y, x)] }
fn both(pix: usize, p: P, k: usize) -> Vec<PEv> { let (y, x) = at(pix, p, k); vec![("lc", y, x), ("rc", y, x), ("lr", y, x), ("rr", y, x)] }
/// open everything that is left
fn finish(b: &B, g: &B, pix: usize) -> Vec<PEv> {
    let mut g = g.clone();
    let mut out = vec![];
    for p in crate::p_game::cells_of(b) {
        if b[p.0][p.1] == -1 || g[p.0][p.1] == b[p.0][p.1] { continue; }
        if g[p.0][p.1] == 11 { out.extend(right(pix, p, 1)); g[p.0][p.1] = 10; }
        out.extend(left(pix, p, 1));
        open_cells(b, &mut g, &[p]);
    }
    out
}
fn opened(b: &B, clicks: &[P]) -> B { let mut g = vec![vec![10; b[0].len()]; b.len()]; open_cells(b, &mut g, clicks); g }
fn fam_positions(ctx: &Ctx) {
    let mut shp = vec![(1usize, 5usize), (2, 3), (2, 4), (3, 3)];
    if ctx.thorough { shp.extend([(1, 8), (2, 5)]); }
    for (r, c) in shp {
        let ms = crate::p_game::canon(r, c);
        ctx.par(ms.len(), |i| {
            let b = Arc::new(from_mask(r, c, ms[i]));
            let safe: Vec<P> = crate::p_game::cells_of(&b).into_iter().filter(|p| b[p.0][p.1] != -1).collect();
            if safe.is_empty() { return; }
            let mut seen = HashSet::new();
            let mut todo: VecDeque<Vec<P>> = VecDeque::from([vec![]]);
            while let Some(path) = todo.pop_front() {
                let g = opened(&b, &path);
                let pix = if path.len() % 2 == 0 { 16 } else { 20 };
                let pre: Vec<PEv> = path.iter().enumerate().flat_map(|(k, p)| left(pix, *p, k)).collect();
                for p in crate::p_game::cells_of(&b) {
                    if g[p.0][p.1] != 10 { continue; }
                    // a left click, a flag, a flag taken back and set again
                    let mut e = pre.clone();
                    e.extend(left(pix, p, 2));
                    let g2 = opened(&b, &path.iter().cloned().chain([p]).collect::<Vec<_>>());
                    if b[p.0][p.1] != -1 { e.extend(finish(&b, &g2, pix)); }
                    judge(ctx, &b, pix, &e);
                    if b[p.0][p.1] != -1 && seen.insert(g2.clone()) { let mut q = path.clone(); q.push(p); todo.push_back(q); }
                    if path.is_empty() && r * c > 6 { continue; }
                    let mut e = pre.clone();
                    e.extend(right(pix, p, 0));
                    if (p.0 + p.1) % 2 == 0 { e.extend(right(pix, p, 1)); if p.1 % 2 == 0 { e.extend(right(pix, p, 2)); } }
                    let mut g3 = g.clone();
                    g3[p.0][p.1] = 10;
                    if (p.0 + p.1) % 2 == 1 || p.1 % 2 == 0 { g3[p.0][p.1] = 11; }
                    e.extend(finish(&b, &g3, pix));
                    judge(ctx, &b, pix, &e);
                }
            }
        });
    }
}
/// deeper deductions: boards whose positions need more than pairs of numbers
fn fam_deep(ctx: &Ctx) {
    let shapes = if ctx.thorough { vec![(3usize, 4usize), (2, 6), (3, 5)] } else { vec![(3, 4), (2, 6)] };
    for (r, c) in shapes {
        let n = r * c;
        ctx.par(1 << n, |m| {
            let m = m as u64;
            if m.count_ones() < 2 || m.count_ones() > if n > 12 { 4 } else { 5 } { return; }
            let b = Arc::new(from_mask(r, c, m));
            // open cells from the last to the first until something deep appears
            let mut path: Vec<P> = vec![];
            let order: Vec<P> = crate::p_game::cells_of(&b).into_iter().rev().filter(|p| b[p.0][p.1] != -1).collect();
            let mut k = 0;
            for p in order {
                let g = opened(&b, &path);
                if g[p.0][p.1] != 10 { continue; }
                let w = position(&g, mines(&b));
                if !path.is_empty() && !(w.enum_safe.is_empty() && w.enum_mine.is_empty()) && k < 2 {
                    k += 1;
                    let pre: Vec<PEv> = path.iter().enumerate().flat_map(|(k, p)| left(16, *p, k)).collect();
                    for q in w.enum_safe.iter().chain(&w.basic_safe).chain(w.enum_mine.iter()).chain(w.basic_mine.iter()).chain(crate::p_game::cells_of(&b).iter().filter(|q| g[q.0][q.1] == 10).take(2)) {
                        let mine = b[q.0][q.1] == -1;
                        let mut e = pre.clone();
                        let mut g2 = g.clone();
                        if mine { e.extend(right(16, *q, 1)); g2[q.0][q.1] = 11; } else { e.extend(left(16, *q, 1)); open_cells(&b, &mut g2, &[*q]); }
                        e.extend(finish(&b, &g2, 16));
                        judge(ctx, &b, 16, &e);
                        ctx.outcome("deep deduction".into());
                    }
                }
                path.push(p);
            }
        });
    }
}
fn fam_trace(ctx: &Ctx) {
    // clicks and the way between them
    let b = Arc::new(from_mask(2, 8, 0b10));
    let pts: Vec<(usize, usize)> = vec![(0, 40), (0, 50), (0, 75), (24, 40), (30, 50), (5, 110), (0, 41)];
    let k = pts.len();
    let len = if ctx.thorough { 5 } else { 4 };
    ctx.par(k * k, |i| {
        for rest in 0..k.pow(len) {
            let mut q = rest;
            let (a, z) = (pts[i / k], pts[i % k]);
            for (kind, lead) in [("rc", false), ("lr", true)] {
                if kind == "lr" && rest % 7 != 0 { continue; }
                let mut e: Vec<PEv> = vec![];
                if lead { e.push(("mv", 3, 3)); }
                e.extend(left(16, (0, 0), 0));
                let click = |p: (usize, usize)| -> Vec<PEv> { if kind == "rc" { vec![("rc", p.0, p.1), ("rr", p.0, p.1)] } else { vec![("lc", p.0, p.1), ("lr", p.0, p.1)] } };
                e.extend(click(a));
                for s in 0..len { let p = pts[q % k]; q /= k; e.push(("mv", p.0, p.1)); if s == 1 && rest % 3 == 0 { e.extend(click(p)); } }
                e.extend(click(z));
                q = rest;
                // to the end of the game
                let mut g = Game::new(b.clone());
                for (ev, y, x) in &e { let _ = g.step(ev, Some((y / 16, x / 16))); }
                e.extend(finish(&b, &g.g, 16));
                judge(ctx, &b, 16, &e);
            }
        }
    });
}
fn fam_vision(ctx: &Ctx) {
    // wide boards, opened in every order of a few places
    let mut bs: Vec<Arc<B>> = vec![];
    for (r, c, list) in [(2usize, 14usize, vec![vec![3usize, 10], vec![3, 18, 10], vec![6, 21], vec![2, 3, 12]]), (1, 16, vec![vec![1, 9], vec![4, 11], vec![2, 5, 12], vec![7]]), (12, 2, vec![vec![5, 14], vec![7, 16, 3], vec![2, 9, 20]])] {
        for l in list { let m = l.iter().fold(0u64, |m, x| m | 1 << x); bs.push(Arc::new(from_mask(r, c, m))); }
    }
    let len = if ctx.thorough { 3 } else { 2 };
    ctx.par(bs.len() * bs[0].len() * 14, |i| {
        let b = &bs[i % bs.len()];
        let cells: Vec<P> = crate::p_game::cells_of(b).into_iter().filter(|p| b[p.0][p.1] != -1).collect();
        let start = i / bs.len();
        if start >= cells.len() { return; }
        let k = cells.len();
        for rest in 0..k.pow(len) {
            let mut q = rest;
            let mut path = vec![cells[start]];
            for _ in 0..len { path.push(cells[q % k]); q /= k; }
            let mut g = vec![vec![10; b[0].len()]; b.len()];
            let mut e: Vec<PEv> = vec![];
            if rest % 5 == 0 { e.push(("mv", 1, 1)); }
            for (j, p) in path.iter().enumerate() { if g[p.0][p.1] == 10 { e.extend(left(16, *p, j + rest)); open_cells(b, &mut g, &[*p]); } }
            e.extend(finish(b, &g, 16));
            judge(ctx, b, 16, &e);
        }
    });
}
fn fam_flags(ctx: &Ctx) {
    // mines in every second cell of the first row: flags and double clicks along it
    let bs: Vec<Arc<B>> = [(3usize, 10usize, 0b0101010101u64), (3, 10, 0b1010010101), (3, 8, 0b01011011), (4, 7, 0b0101011 | 1 << 24)].iter().map(|(r, c, m)| Arc::new(from_mask(*r, *c, *m))).collect();
    let cap = if ctx.thorough { 60_000 } else { 6_000 };
    let depth = if ctx.thorough { 12 } else { 10 };
    ctx.par(bs.len() * 2, |i| {
        let b = &bs[i / 2];
        let start = (2, 0);
        // depth-first over effective gestures, in two orders of preference
        let mut count = 0usize;
        fn dfs(ctx: &Ctx, b: &Arc<B>, g: &Game, e: &mut Vec<PEv>, depth: usize, rev: bool, count: &mut usize, cap: usize, width: usize) {
            if *count >= cap { return; }
            if g.ph != Ph::Playing { *count += 1; judge(ctx, b, 16, e); return; }
            // end here: a left click on something, then the rest
            let mut f = e.clone();
            f.extend(finish(b, &g.g, 16));
            *count += 1;
            judge(ctx, b, 16, &f);
            if depth == 0 { return; }
            let mut next: Vec<Vec<PEv>> = vec![];
            for p in crate::p_game::cells_of(b) {
                if g.g[p.0][p.1] == 10 && b[p.0][p.1] == -1 { next.push(right(16, p, 1)); }
                if let Some(ok) = good_chord(&g.g, p) { let mut w = both(16, p, 1); if !ok && p.1 % 2 == 0 { w.insert(0, ("mv", p.0 * 16 + 3, p.1 * 16 + 2)); } next.push(w); }
            }
            // useless ones: left on an open cell, double click where nothing opens
            next.push(left(16, (2, b[0].len() - 1), 1));
            next.push(both(16, (1, b[0].len() / 2), 1));
            if rev { next.reverse(); }
            // the newest flag taken back and set again
            let flags: Vec<P> = crate::p_game::cells_of(b).into_iter().filter(|p| g.g[p.0][p.1] == 11).collect();
            if let Some(p) = flags.iter().rev().find(|_| depth % 2 == 0) { let mut w = right(16, *p, 1); w.extend(right(16, *p, 2)); next.insert(1.min(next.len()), w); }
            for w in next.into_iter().take(width) {
                let mut h = g.clone();
                for (ev, y, x) in &w { let _ = h.step(ev, Some((y / 16, x / 16))); }
                let k = e.len();
                e.extend(w);
                dfs(ctx, b, &h, e, depth - 1, rev, count, cap, width);
                e.truncate(k);
            }
        }
        for width in [2usize, 3, 5, 20] {
            let mut g = Game::new(b.clone());
            let mut e = left(16, start, 0);
            for (ev, y, x) in &e { let _ = g.step(ev, Some((y / 16, x / 16))); }
            count = 0;
            dfs(ctx, b, &g, &mut e, depth, i % 2 == 1, &mut count, cap / 3, width);
        }
        let _ = count;
    });
}
pub fn c31(ctx: &Ctx) {
    let tell = |n: &str| if std::env::var("MC_TIMES").is_ok() { eprintln!("{n} done at {:.1} s", ctx.elapsed()); };
    fam_positions(ctx); tell("positions");
    fam_deep(ctx); tell("deep");
    fam_trace(ctx); tell("trace");
    fam_vision(ctx); tell("vision");
    fam_flags(ctx); tell("flags");
    let recs = crate::p_seek::recordings(ctx.thorough);
    ctx.par(recs.len(), |i| { let r = &recs[i].r; let e: Vec<PEv> = r.evs.iter().map(|e| (e.e, e.y, e.x)).collect(); judge(ctx, &r.g.b, r.pix, &e); });
    tell("recordings");
    ctx.note("every position reachable by left clicks on the layouts (up to symmetry) of 1x5 2x3 2x4 3x3 (thorough 1x8 2x5), a left click or a flag on every closed cell, then the rest of the game; layouts of 3x4 2x6 (thorough 3x5) with 2 to 5 mines at positions with deep deductions");
    ctx.note("mouse ways through all sequences of 4 (5) of seven points between clicks; wide boards opened in all orders of 3 (4) clicks; flag and double-click runs depth-first on four boards; the recordings of C19");
}

// ---------------------------------------------------------------- C32
use crate::p_evf::{encode, Meta};
use crate::p_foreign::*;
const LIMIT: u64 = 1682265600;
const SOFT: [&str; 4] = ["Arbiter", "Viennasweeper", "元3.2", "元3.1.7"];
fn verdict(soft: &[u8], start: &[u8], sum: &[u8; 32], fair: bool, events: usize, bbbv: usize, won: bool) -> u8 {
    let which = SOFT.iter().position(|s| s.as_bytes() == soft);
    match which {
        None => return 1,
        Some(0) => {}
        Some(1) => {
            let t = std::str::from_utf8(start).ok().filter(|t| t.len() == 10 && t.chars().all(|c| ('0'..='9').contains(&c))).and_then(|t| t.parse::<u64>().ok());
            match t { None => return 3, Some(t) => if t > LIMIT { return 1; } }
        }
        _ => { let mut d = sum.to_vec(); d.sort(); d.dedup(); if d.len() == 1 || !fair { return 1; } }
    }
    if events < 10 * bbbv { 3 } else if won { 0 } else { 1 }
}
/// moves between the first press and its release
fn pad(evs: &[PEv], n: usize) -> Vec<PEv> {
    let mut o = vec![evs[0]];
    let (y, x) = (evs[1].1, evs[1].2);
    for j in 0..n { let k = n - 1 - j; let d = if k == 0 { 0 } else { 1 + k % 2 }; o.push(("mv", y + d, x + d)); }
    o.extend(&evs[1..]);
    o
}
struct G { b: Arc<B>, pix: usize, bbbv: usize, evs: Vec<PEv>, won: bool }
fn told(ctx: &Ctx, what: &dyn Fn() -> String, f: Fmt, bytes: &[u8], want: u8, n: usize) {
    let mut wrong = None;
    let res = call(what, || {
        let mut d = parse(f, bytes).map_err(|e| format!("loading fails: {e}"))?;
        d.analyse();
        if f != Fmt::Mvf && d.video_action_state_recorder.len() != n { return Err(format!("{} events want {}", d.video_action_state_recorder.len(), n)); }
        let a = d.is_valid();
        d.set_current_time(0.1);
        d.analyse_for_features(vec!["survive_poss", "mouse_trace"]);
        Ok((a, d.is_valid()))
    });
    ctx.add(1, 1, (want != 1) as u64);
    ctx.outcome(format!("{f:?} verdict {want}"));
    match res { Err(e) => ctx.violation("panic", || format!("{}: {}", what(), e)), Ok(Err(e)) => wrong = Some(e), Ok(Ok((a, z))) => if (a, z) != (want, want) { wrong = Some(format!("verdict {a}, after moving the replay {z}, want {want}")); } }
    if let Some(e) = wrong { ctx.violation(&format!("verdict-{f:?}"), || format!("{}: {}", what(), e)); }
}
fn evf(ctx: &Ctx, g: &G, m: &Meta) {
    let t: Vec<(u32, &str, usize, usize)> = g.evs.iter().enumerate().map(|(i, e)| (i as u32 * 30, e.0, e.1, e.2)).collect();
    let bytes = encode(&g.b, g.pix, g.bbbv, t.last().unwrap().0, m, &t);
    let want = verdict(&m.software, &m.start, &m.checksum.unwrap_or([0; 32]), m.fair, g.evs.len(), g.bbbv, g.won);
    told(ctx, &|| format!("board {} {} events (3BV {}) won {} meta {:?}", show(&g.b), g.evs.len(), g.bbbv, g.won, m), Fmt::Evf, &bytes, want, g.evs.len());
}
fn meta(soft: &[u8]) -> Meta {
    let mut c = [9u8; 32];
    c[5] = 10;
    Meta { software: soft.to_vec(), start: b"1600000000".to_vec(), fair: true, completed: true, player: b"p".to_vec(), uniq: b"u".to_vec(), checksum: Some(c), ..Default::default() }
}
/// won, lost and broken-off games of a board
fn games(b: &Arc<B>, pix: usize) -> Vec<(Vec<PEv>, bool)> {
    let z = vec![vec![10; b[0].len()]; b.len()];
    let win = finish(b, &z, pix);
    let mut out = vec![];
    if win.len() >= 2 {
        out.push((win.clone(), true));
        if win.len() >= 4 { out.push((win[..win.len() - 2].to_vec(), false)); }
        let mut g = Game::new(b.clone());
        for (ev, y, x) in &win[..2] { let _ = g.step(ev, Some((y / pix, x / pix))); }
        if g.ph == Ph::Playing { if let Some(p) = crate::p_game::cells_of(b).into_iter().find(|p| b[p.0][p.1] == -1) { let mut l = win[..2].to_vec(); l.extend(left(pix, p, 1)); out.push((l, false)); } }
    }
    if let Some(p) = crate::p_game::cells_of(b).into_iter().rev().find(|p| b[p.0][p.1] == -1) { out.push((left(pix, p, 1), false)); }
    out
}
fn times() -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![];
    for base in [LIMIT, LIMIT + 1, LIMIT - 1, 1382834716] {
        let s = base.to_string().into_bytes();
        v.push(s.clone());
        for i in 0..10 {
            for d in 1..=255u8 { let mut t = s.clone(); t[i] = d; v.push(t); }
            for j in i + 1..10 { for a in b"0589" { for z in b"0169" { let mut t = s.clone(); t[i] = *a; t[j] = *z; v.push(t); } } }
            let mut t = s.clone(); t.remove(i); v.push(t);
            for d in b"0917 " { let mut t = s.clone(); t.insert(i, *d); v.push(t); }
        }
        for l in 0..10 { v.push(s[..l].to_vec()); }
        for d in b"0917 " { let mut t = s.clone(); t.push(*d); v.push(t); }
        // milliseconds and microseconds
        for k in [3, 6] { let mut t = s.clone(); t.extend(vec![b'0'; k]); v.push(t); }
    }
    v.push("１６００００００００".as_bytes().to_vec());
    v.sort();
    v.dedup();
    v
}
pub fn c32(ctx: &Ctx) {
    let th = ctx.thorough;
    // games: result and number of events around ten per 3BV
    let mut bs: Vec<Arc<B>> = vec![];
    for (r, c) in crate::refm::shapes(1, if th { 12 } else { 9 }) { for m in crate::p_game::canon(r, c) { if m != (1u64 << (r * c)) - 1 { bs.push(Arc::new(from_mask(r, c, m))); } } }
    for (r, c) in [(8usize, 8usize), (16, 16), (16, 30), (1, 200)] { for (_, m) in lattice(r, c, 0).into_iter().take(3) { let b = number(&m); if mines(&b) > 0 { bs.push(Arc::new(b)); } } }
    ctx.par(bs.len(), |i| {
        let b = &bs[i];
        let pix = [16usize, 20][i % 2];
        let bbbv = stats(b).bbbv;
        for (gi, (evs, won)) in games(b, pix).into_iter().enumerate() {
            let n = evs.len();
            let mut counts: Vec<usize> = vec![n, 10 * bbbv - 1, 10 * bbbv, 10 * bbbv + 1, 9 * bbbv, 11 * bbbv + 3];
            counts.sort();
            counts.dedup();
            for c in counts {
                if c < n || c > 12_000 { continue; }
                let g = G { b: b.clone(), pix, bbbv, evs: pad(&evs, c - n), won };
                for (k, s) in SOFT.iter().enumerate() { if k == (i + gi) % 4 || th || bbbv < 4 { let mut m = meta(s.as_bytes()); m.completed = (i + k) % 3 != 0; m.official = k % 2 == 0; m.mode = (i % 4) as u16; evf(ctx, &g, &m); } }
                if pix != 16 || c > 3000 { continue; }
                // the other formats: Arbiter by name, Viennasweeper by date, Clone never
                let e4: Vec<Ev4> = g.evs.iter().enumerate().map(|(j, e)| (j as u32 * 10, e.0, e.1, e.2)).collect();
                for (f, st) in [(Fmt::Avf, LIMIT), (Fmt::Rmv, LIMIT), (Fmt::Rmv, LIMIT + 1), (Fmt::Mvf, LIMIT)] {
                    let start = st.to_string().into_bytes();
                    let bytes = match f {
                        Fmt::Rmv if g.evs.len() >= 3 => { let mut h = RmvHdr::new(); h.bbbv = format!("{:3}", bbbv).into_bytes(); h.stamp = start.clone(); let mut v = e4[1..].to_vec(); v[0].0 = 0; Some(encode_rmv(b, &h, &[], &v)) }
                        Fmt::Rmv => None,
                        _ if b[0].len() > 31 => None,
                        _ => foreign_bytes(f, b, &g.evs, bbbv, 1),
                    };
                    let Some(bytes) = bytes else { continue; };
                    let want = match f { Fmt::Avf => verdict(b"Arbiter", b"", &[0; 32], false, c, bbbv, won), Fmt::Rmv => verdict(b"Viennasweeper", &start, &[0; 32], false, c, bbbv, won), _ => 1 };
                    told(ctx, &|| format!("{:?} started {} board {} {} events (3BV {}) won {}", f, st, show(b), c, bbbv, won), f, &bytes, want, c);
                }
            }
        }
    });
    // settings, on won and lost games with few and with enough events
    let b = Arc::new(from_mask(2, 4, 0b0100_0010));
    let bbbv = stats(&b).bbbv;
    let mut gs: Vec<G> = vec![];
    for (e, won) in games(&b, 16) { for c in [e.len(), 10 * bbbv - 1, 10 * bbbv] { if c >= e.len() { let evs = pad(&e, c - e.len()); gs.push(G { b: b.clone(), pix: 16, bbbv, evs, won }); } } }
    let mut ms: Vec<Meta> = vec![];
    for t in times() { let mut m = meta(b"Viennasweeper"); m.start = t; ms.push(m); }
    for t in [b"1682265601".to_vec(), vec![], b"abc".to_vec()] { for s in ["Arbiter", "元3.2", "元3.1.7"] { let mut m = meta(s.as_bytes()); m.start = t.clone(); ms.push(m); } }
    for s in SOFT {
        // checksums: constant, and different in one byte
        for fair in [false, true] { for v in [0u8, 1, 7, 9, 127, 128, 254, 255] {
            let mut m = meta(s.as_bytes());
            m.fair = fair;
            m.checksum = Some([v; 32]);
            ms.push(m.clone());
            for i in 0..32 { for d in [0u8, 1, v.wrapping_add(1), v ^ 128] { if d != v { let mut c = [v; 32]; c[i] = d; m.checksum = Some(c); ms.push(m.clone()); } } }
            m.checksum = None;
            ms.push(m.clone());
        } }
        // names: every one-byte edit
        let n = s.as_bytes();
        let mut names: Vec<Vec<u8>> = vec![s.to_lowercase().into_bytes(), s.to_uppercase().into_bytes()];
        for i in 0..=n.len() {
            for d in [b' ', b'.', b'0', b'1', b'2', b'7', b'a', b'R'] { let mut t = n.to_vec(); t.insert(i, d); names.push(t); }
            if i < n.len() {
                let mut t = n.to_vec(); t.remove(i); names.push(t);
                for d in 1..=255u8 { if th || d.abs_diff(n[i]) < 4 || (b'0'..=b'9').contains(&d) || d == n[i] ^ 32 { let mut t = n.to_vec(); t[i] = d; names.push(t); } }
                names.push(n[..i].to_vec());
            }
        }
        for t in SOFT { let mut u = n.to_vec(); u.extend(t.as_bytes()); names.push(u); }
        for t in names { ms.push(meta(&t)); }
    }
    for s in ["", "0.97 beta", "Clone", "元3", "元3.1", "元3.1.8", "元3.3", "元2.0", "metasweeper", "MinesweeperX"] { ms.push(meta(s.as_bytes())); }
    ctx.par(ms.len() * gs.len(), |i| evf(ctx, &gs[i / ms.len()], &ms[i % ms.len()]));
    ctx.sample(|| format!("{} on {}: verdicts by events {:?}", "Arbiter", show(&b), gs.iter().map(|g| (g.evs.len(), g.won, verdict(b"Arbiter", b"", &[0; 32], true, g.evs.len(), g.bbbv, g.won))).collect::<Vec<_>>()));
    let _ = std::fs::remove_dir_all(crate::p_evf::scratch());
    ctx.note(format!("{} boards x won, lost and broken-off games x number of events at and around ten per 3BV x the four programs, in EVF, AVF, RMV, MVF; {} settings (start times, checksums, fairness, program names) x {} games", bs.len(), ms.len(), gs.len()));
}
