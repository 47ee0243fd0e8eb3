//! C19: seeking a replay; C28: derived statistics.
use crate::ctx::*;
use crate::p_evf::*;
use crate::p_video::*;
use crate::refgame::*;
use crate::refm::*;
use crate::refrec::*;
use ms_toollib::*;
use std::sync::Arc;

type Dv = BaseVideo<Vec<Vec<i32>>>;
#[derive(Clone, Copy, Debug)]
pub enum Op { T(f64), Id(usize), Key(usize) } // seek to time; go to event; seek to the time reported at event
/// index of the event whose aftermath is shown at replay time t
fn event_at(r: &Rec, t: f64) -> usize {
    let t0 = -(r.start as f64) / 1000.0;
    let t1 = (r.evs.last().unwrap().t as f64 - r.start as f64) / 1000.0;
    let t = t.max(t0).min(t1);
    let us = (t * 1e6).round() as i64 + r.start as i64 * 1000;
    r.evs.iter().rposition(|e| e.t as i64 * 1000 <= us).unwrap_or(0)
}
fn clampt(r: &Rec, t: f64) -> f64 {
    let t0 = -(r.start as f64) / 1000.0;
    let t1 = (r.evs.last().unwrap().t as f64 - r.start as f64) / 1000.0;
    t.max(t0).min(t1)
}
fn near(a: f64, b: f64) -> bool { (a - b).abs() <= 1e-9 * (1.0 + a.abs().max(b.abs())) || (a.is_nan() && b.is_nan()) || a == b }
fn observe(d: &Dv, r: &Rec, k: usize, t: f64, pixk: f64) -> Option<(String, String)> {
    let w = &r.evs[k];
    let bad = |q: &str, x: String| Some((q.to_string(), format!("{}: {} (event {} of {})", q, x, k, r.evs.len())));
    if !near(d.get_time(), t) { return bad("time", format!("{} want {}", d.get_time(), t)); }
    if d.get_game_board() != w.after { return bad("board", format!("{} want {}", show(&d.get_game_board()), show(&w.after))); }
    let c = (d.get_left(), d.get_right(), d.get_double(), d.get_cl(), d.get_flag(), d.get_ce().ok(), d.get_bbbv_solved().ok());
    let e = (w.left, w.right, w.double, w.left + w.right + w.double, w.flag, Some(w.ce), Some(w.solved));
    if c != e { return bad("counters", format!("{:?} want {:?}", c, e)); }
    if !near(d.get_path(), w.path) { return bad("path", format!("{} want {}", d.get_path(), w.path)); }
    if d.get_mouse_state() != mouse_code(w.m) { return bad("mouse", format!("{} want {}", d.get_mouse_state(), mouse_code(w.m))); }
    let p = r.evs[..=k].iter().rev().find(|e| e.inside).map(|e| ((e.x as f64 * pixk) as u16, (e.y as f64 * pixk) as u16));
    match (d.get_x_y(), p) { (Ok(a), Some(b)) if a == b => {} (Err(()), None) => {} (a, b) => return bad("cursor", format!("{:?} want {:?}", a, b)) }
    None
}
fn apply(d: &mut Dv, op: Op, r: &Rec) -> (usize, f64) {
    match op {
        Op::T(t) => { d.set_current_time(t); (event_at(r, t), clampt(r, t)) }
        Op::Id(i) => { let _ = d.set_current_event_id(i); (i, (r.evs[i].t as f64 - r.start as f64) / 1000.0) }
        Op::Key(i) => { let t = d.video_action_state_recorder[i].time + d.get_video_start_time().unwrap(); d.set_current_time(t); (event_at(r, t), clampt(r, t)) }
    }
}
pub struct Rp { pub r: Rec, pub bytes: Vec<u8> }
pub fn recording(b: &Arc<B>, pix: usize, evs: &[PEv], pat: Pattern) -> Option<Rp> {
    let mut r = Rec::new(b.clone(), pix);
    for (i, m) in evs.iter().enumerate() {
        if m.0 == "pf" && r.g.m != M::UpUp { return None; }
        let (n, w) = pat.at(i);
        let _ = r.step(m.0, m.1, m.2, n, w);
        if r.over() { break; }
    }
    if !r.over() { return None; }
    let e: Vec<(u32, &str, usize, usize)> = r.evs.iter().map(|e| (e.t, e.e, e.y, e.x)).collect();
    let m = Meta { completed: r.g.ph == Ph::Win, ..Default::default() };
    let bytes = encode(&r.g.b, pix, stats(&r.g.b).bbbv, r.rtime, &m, &e);
    Some(Rp { r, bytes })
}
pub fn open_rec(rp: &Rp) -> Dv { let mut v = load(&rp.bytes); v.parse_video().unwrap(); v.data.analyse(); v.data }
/// a spread of recordings: with and without pre-flags, outside events, equal times, wins and losses
pub fn recordings(th: bool) -> Vec<Rp> {
    let mut out = vec![];
    let pats = [Pattern { a: 1000, b: 1000, back: false }, Pattern { a: 0, b: 0, back: false }, Pattern { a: 0, b: 7_300, back: false }, Pattern { a: 123_457, b: 1_010_101, back: false }];
    let jobs = vjobs(th);
    let mut all: Vec<(Arc<B>, usize, Vec<PEv>)> = vec![];
    for j in &jobs {
        if j.b.len() * j.b[0].len() > 4 && j.pix != 16 { continue; }
        let c = std::cell::RefCell::new(vec![]);
        let n = std::cell::Cell::new(0usize);
        explore(&j.b, j.pix, &j.moves, j.depth.min(12), j.flags, if th { 20_000 } else { 2_000 }, &|p| {
            n.set(n.get() + 1);
            if p.len() <= 14 { let k = p.len(); let mut c = c.borrow_mut(); if n.get() % (if th { 11 } else { 37 }) == 0 || k <= 3 { c.push(p.to_vec()); } }
            true
        });
        for p in c.into_inner() { all.push((j.b.clone(), j.pix, p)); }
    }
    for (i, (b, pix, p)) in all.iter().enumerate() { if let Some(x) = recording(b, *pix, p, pats[i % 4]) { out.push(x); } }
    // longer games
    for (r, c, m) in [(3usize, 4usize, 0b1000_0000_0001u64), (8, 8, 0x0000_1020_0400_8001), (2, 6, 0b100001_001000)] {
        let b = Arc::new(from_mask(r, c, m));
        for g in simple_games(&b, 16) { for p in pats {
            let mut h = vec![("mv", 3usize, 5usize)];
            let (oy, ox) = px(&b, 16, None, false);
            if let Some(mi) = crate::p_game::cells_of(&b).into_iter().find(|p| b[p.0][p.1] == -1) { let (y, x) = px(&b, 16, Some(mi), false); h.push(("rc", y, x)); h.push(("rr", y, x)); h.push(("mv", oy, ox)); }
            for (i, e) in g.iter().enumerate() { h.push(*e); if i % 3 == 0 { h.push(("mv", oy, ox)); } if i % 4 == 1 { h.push(("mv", e.1, e.2)); } }
            if let Some(x) = recording(&b, 16, &h, p) { out.push(x); }
        } }
    }
    out
}
fn ops_for(r: &Rec) -> Vec<Op> {
    let mut v = vec![Op::T(-1e9), Op::T(1e9), Op::T(0.0), Op::T(f64::NEG_INFINITY), Op::T(f64::INFINITY)];
    let mut ts: Vec<u32> = r.evs.iter().map(|e| e.t).collect();
    ts.dedup();
    for t in &ts { let t = (*t as f64 - r.start as f64) / 1000.0; v.push(Op::T(t - 0.0004)); v.push(Op::T(t + 0.0004)); }
    for i in 0..r.evs.len() { v.push(Op::Id(i)); if i == 0 || r.evs[i].t != r.evs[i - 1].t { v.push(Op::Key(i)); } }
    v
}
pub fn c19(ctx: &Ctx) {
    let th = ctx.thorough;
    let recs = recordings(th);
    ctx.count("recordings", recs.len() as u64);
    ctx.par(recs.len(), |i| {
        let rp = &recs[i];
        let r = &rp.r;
        let all = ops_for(r);
        let desc = |seq: &[Op]| format!("board {} pixels {} start {} ms events {} seeks {:?}", show(&r.g.b), r.pix, r.start, r.evs.iter().map(|e| format!("{}@{}({},{})", e.e, e.t, e.y, e.x)).collect::<Vec<_>>().join(" "), seq);
        let case0 = || desc(&[]);
        let mut d = match call(&case0, || open_rec(rp)) { Ok(d) => d, Err(e) => { ctx.violation("panic", || format!("{}: {}", case0(), e)); return; } };
        // all ordered pairs (a triple is checked by restarting from every end state)
        let len = if all.len() <= 22 { 3 } else { 2 };
        // the replay object carries no other state than its position, so every pair from every position is a full exploration; longer sequences check exactly that
        let n = all.len();
        let total = if len == 3 { n * n * n } else { n * n };
        let step = if th { 1 } else { (total / 20000).max(1) | 1 };
        let exhaustive_pairs = n * n;
        for k in 0..exhaustive_pairs + total / step {
            let seq: Vec<Op> = if k < exhaustive_pairs { vec![all[k / n], all[k % n]] } else { let q = (k - exhaustive_pairs) * step; if len == 3 { vec![all[q / n / n % n], all[q / n % n], all[q % n]] } else { vec![all[q / n % n], all[q % n], all[(q / 3) % n]] } };
            let case = || desc(&seq);
            let res = call(&case, || {
                for (a, op) in seq.iter().enumerate() {
                    let (ev, t) = apply(&mut d, *op, r);
                    if let Some((q, x)) = observe(&d, r, ev, t, 1.0) { return Some((q, format!("after seek {} {:?}: {}", a, op, x))); }
                }
                None
            });
            ctx.add(1, seq.len() as u64, 1);
            match res { Err(e) => { ctx.violation("panic", || format!("{}: {}", case(), e)); return; } Ok(Some((q, x))) => { ctx.violation(&q, || format!("{}: {}", case(), x)); return; } Ok(None) => {} }
        }
        // out-of-range events are refused and change nothing; the playing pixel size scales the cursor
        let case = || desc(&[Op::Id(r.evs.len())]);
        let res = call(&case, || {
            let (ev, t) = apply(&mut d, Op::Id(r.evs.len() / 2), r);
            for id in [r.evs.len(), r.evs.len() + 7, usize::MAX] {
                if d.set_current_event_id(id).is_ok() { return Some(("range".to_string(), format!("event {} accepted", id))); }
                if let Some(x) = observe(&d, r, ev, t, 1.0) { return Some(x); }
            }
            for ps in [1u8, 8, 20, 255] { d.set_video_playing_pix_size(ps); for k in 0..r.evs.len() { let (ev, t) = apply(&mut d, Op::Id(k), r); if let Some(x) = observe(&d, r, ev, t, ps as f64 / r.pix as f64) { return Some(x); } } }
            None
        });
        match res { Err(e) => ctx.violation("range", || format!("{}: {}", case(), e)), Ok(Some((q, x))) => ctx.violation(&q, || format!("{}: {}", case(), x)), Ok(None) => {} }
    });
    let _ = std::fs::remove_dir_all(scratch());
    ctx.note("for every recording: all ordered pairs of seeks (before start, after end, infinite, just before/at/after every event time, every event number), and triples (all in the thorough tier, a fixed fraction in the quick tier)");
    ctx.sample(|| format!("{} recordings, e.g. events {:?}", recs.len(), recs[0].r.evs.iter().map(|e| (e.t, e.e)).collect::<Vec<_>>()));
}
/// C28: one formula sheet for the live result and for every replay time
struct Sheet { t: f64, left: usize, right: usize, double: usize, flag: usize, ce: usize, solved: usize, bbbv: usize, size: (usize, usize, usize) }
fn sheet(s: &Sheet) -> Vec<(&'static str, f64)> {
    let (t, so, b) = (s.t, s.solved as f64, s.bbbv as f64);
    let cl = s.left + s.right + s.double;
    let z = |d: usize, v: f64| if d == 0 { 0.0 } else { v };
    let c = match s.size { (8, 8, 10) => 47.299, (16, 16, 40) => 153.73, (16, 30, 99) => 435.001, _ => 0.0 };
    vec![("left_s", s.left as f64 / t), ("right_s", s.right as f64 / t), ("double_s", s.double as f64 / t), ("cl_s", cl as f64 / t), ("flag_s", s.flag as f64 / t),
        ("etime", z(s.solved, t / so * b)), ("bbbv_s", so / t), ("rqp", z(s.solved, t * t / so)), ("qg", z(s.solved, t.powf(1.7) / so)), ("ce_s", s.ce as f64 / t),
        ("corr", z(cl, s.ce as f64 / cl as f64)), ("thrp", z(s.ce, so / s.ce as f64)), ("ioe", z(cl, so / cl as f64)), ("stnb", if c == 0.0 { 0.0 } else { c * b / t.powf(1.7) * (so / b).sqrt() })]
}
macro_rules! derived { ($d:expr) => { vec![Ok($d.get_left_s()), Ok($d.get_right_s()), Ok($d.get_double_s()), Ok($d.get_cl_s()), Ok($d.get_flag_s()), $d.get_etime(), $d.get_bbbv_s(), $d.get_rqp(), $d.get_qg(), $d.get_ce_s(), $d.get_corr(), $d.get_thrp(), $d.get_ioe(), $d.get_stnb()] } }
fn judge(got: Vec<Result<f64, ()>>, want: &Sheet, at: &str) -> Option<(String, String)> {
    for (g, (n, w)) in got.into_iter().zip(sheet(want)) {
        if !matches!(g, Ok(x) if (x - w).abs() <= 1e-6 * (1.0 + w.abs())) { return Some((n.to_string(), format!("{}: {} = {:?} want {}", at, n, g, w))); }
    }
    None
}
fn size(b: &B) -> (usize, usize, usize) { (b.len(), b[0].len(), mines(b)) }
pub fn c28(ctx: &Ctx) {
    let th = ctx.thorough;
    let pats = [Pattern { a: 1000, b: 1000, back: false }, Pattern { a: 600, b: 17_400, back: false }, Pattern { a: 2_345_000, b: 61_000, back: false }];
    // live: statistics are refused before the end, exact at the end
    let live = |b: &Arc<B>, pix: usize, path: &[PEv], pat: Pattern| {
        let case = || format!("board {} clock {}/{} us events {}", show(b), pat.a, pat.b, show_px(&path[..path.len().min(200)]));
        let res = call(&case, || {
            let (v, r, _) = play(b, pix, path, pat);
            if !same_ph(r.g.ph, v.game_board_state) { return None; }
            if !r.over() {
                for (n, x) in ["etime", "bbbv_s", "rqp", "qg", "ce_s", "corr", "thrp", "ioe", "stnb"].iter().zip(derived!(v).into_iter().skip(5)) { if x.is_ok() { return Some((n.to_string(), format!("{} reported before the game ended", n))); } }
                return None;
            }
            if r.rtime == 0 { return None; }
            let l = r.evs.last().unwrap();
            judge(derived!(v), &Sheet { t: r.rtime as f64 / 1e3, left: l.left, right: l.right, double: l.double, flag: l.flag, ce: l.ce, solved: l.solved, bbbv: stats(b).bbbv, size: size(b) }, "live result")
        });
        crate::clock::release();
        match res { Err(e) => ctx.violation("panic", || format!("{}: {}", case(), e)), Ok(Some((k, d))) => ctx.violation(&k, || format!("{}: {}", case(), d)), Ok(None) => {} }
    };
    run_jobs(ctx, &vjobs(th), &|b, pix, path| { live(b, pix, path, pats[path.len() % 3]); ctx.nontrivial.fetch_add(1, std::sync::atomic::Ordering::Relaxed); true });
    // standard levels: every prefix of a full game ended on a mine, plus the win; checked live and at every replay time
    let mut std: Vec<Arc<B>> = vec![];
    for (r, c, k) in [(8usize, 8usize, 10usize), (8, 8, 9), (8, 8, 11), (16, 16, 40), (16, 30, 99), (30, 16, 99), (16, 16, 39), (9, 9, 10)] {
        for seed in 0..if th { 6u64 } else { 2 } {
            let mut m = vec![vec![false; c]; r];
            let (mut x, mut n) = (seed * 977 + 5, 0);
            while n < k { x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); let i = (x >> 33) as usize % (r * c); if !m[i / c][i % c] { m[i / c][i % c] = true; n += 1; } }
            std.push(Arc::new(number(&m)));
        }
    }
    ctx.par(std.len(), |i| {
        let b = &std[i];
        let mine = crate::p_game::cells_of(b).into_iter().find(|p| b[p.0][p.1] == -1).unwrap();
        let (my, mx) = px(b, 16, Some(mine), false);
        for g in simple_games(b, 16) {
            let n = g.len();
            for cut in (2..=n).step_by(if n > 60 { n / 30 * 2 } else { 2 }).chain([n]) {
                let mut h = vec![("rc", my, mx), ("rr", my, mx), ("rc", my, mx), ("rr", my, mx)];
                h.extend_from_slice(&g[..cut]);
                if cut < n { h.push(("lc", my, mx)); h.push(("lr", my, mx)); }
                for p in pats { live(b, 16, &h, p); ctx.add(1, h.len() as u64, 1); }
            }
        }
    });
    let mut recs = recordings(th);
    for b in &std { for g in simple_games(b, 16) { if let Some(x) = recording(b, 16, &g, pats[1]) { recs.push(x); } } }
    ctx.par(recs.len(), |i| {
        let r = &recs[i].r;
        let case = || format!("board {} start {} ms events {}", show(&r.g.b), r.start, r.evs.iter().take(200).map(|e| format!("{}@{}({},{})", e.e, e.t, e.y, e.x)).collect::<Vec<_>>().join(" "));
        let res = call(&case, || {
            let mut d = open_rec(&recs[i]);
            for op in ops_for(r) {
                if !th && r.evs.len() > 60 && matches!(op, Op::Id(k) if k % 9 != 0) { continue; }
                let (k, t) = apply(&mut d, op, r);
                if t < 0.001 { continue; }
                let l = &r.evs[k];
                if let Some(x) = judge(derived!(d), &Sheet { t, left: l.left, right: l.right, double: l.double, flag: l.flag, ce: l.ce, solved: l.solved, bbbv: stats(&r.g.b).bbbv, size: size(&r.g.b) }, &format!("replay at {:?}", op)) { return Some(x); }
            }
            None
        });
        ctx.add(1, r.evs.len() as u64, 1);
        match res { Err(e) => ctx.violation("panic", || format!("{}: {}", case(), e)), Ok(Some((k, d))) => ctx.violation(&k, || format!("{}: {}", case(), d)), Ok(None) => {} }
    });
    let _ = std::fs::remove_dir_all(scratch());
    ctx.note("live: every path of the bounded game exploration; full and cut-short games on 8 standard-size families; replay: every event time and number of every recording (times of at least 1 ms)");
    ctx.sample(|| "rqp = t^2/solved 3BV, qg = t^1.7/solved, stnb = c*3BV/t^1.7*sqrt(solved/3BV)".into());
}
