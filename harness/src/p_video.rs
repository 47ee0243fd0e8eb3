//! C18: the live recorder against the reference recorder, under an owned clock.
use crate::clock;
use crate::ctx::*;
use crate::refgame::*;
use crate::refm::*;
use crate::refrec::*;
use ms_toollib::*;
use std::collections::HashSet;
use std::sync::Arc;

pub type PEv = (&'static str, usize, usize); // event, y, x in pixels
pub type Live = BaseVideo<SafeBoard>;
pub const WALL0: u64 = 1_700_000_000_000_000;
pub const MONO0: u64 = 5_000_000_000; // microseconds
pub fn show_px(p: &[PEv]) -> String { p.iter().map(|(e, y, x)| format!("{}({},{})", e, y, x)).collect::<Vec<_>>().join(" ") }
/// pixel positions: cell origin, last pixel of the cell, outside placeholder
pub fn px(b: &B, pix: usize, p: Option<P>, far: bool) -> (usize, usize) {
    match p {
        Some(p) => (p.0 * pix + if far { pix - 1 } else { 0 }, p.1 * pix + if far { pix - 1 } else { 0 }),
        None => (b.len() * pix, b[0].len() * pix),
    }
}
#[derive(Clone, Copy, Debug)]
pub struct Pattern { pub a: u64, pub b: u64, pub back: bool }
impl Pattern {
    pub fn at(&self, i: usize) -> (u64, u64) {
        // i-th event happens after i+1 steps of alternating length
        let k = i as u64 + 1;
        let now = MONO0 + (k / 2) * self.b + (k - k / 2) * self.a;
        let wall = if self.back { WALL0 - k * 7_000_003 } else { WALL0 + (now - MONO0) };
        (now, wall)
    }
}
/// plays the events on a real recorder and on the reference
pub fn play(b: &Arc<B>, pix: usize, evs: &[PEv], pat: Pattern) -> (Live, Rec, Vec<(bool, bool)>) {
    let (n0, w0) = (MONO0, WALL0);
    clock::set(n0 * 1000, w0);
    let mut v = BaseVideo::<SafeBoard>::new_before_game((**b).clone(), pix as u8);
    let _ = v.set_board((**b).clone());
    let mut r = Rec::new(b.clone(), pix);
    let mut oks = vec![];
    for (i, (e, y, x)) in evs.iter().enumerate() {
        let (now, wall) = pat.at(i);
        clock::set(now * 1000, wall);
        let got = v.step(e, (*y, *x)).is_ok();
        let want = r.step(e, *y, *x, now, wall).is_ok();
        oks.push((got, want));
    }
    (v, r, oks)
}
fn near(a: f64, b: f64) -> bool { (a - b).abs() <= 1e-9 * (1.0 + a.abs().max(b.abs())) }

/// compares a finished replay of the reference with the recorder; returns (key, detail)
pub fn compare(v: &Live, r: &Rec, oks: &[(bool, bool)]) -> Option<(String, String)> {
    let bad = |k: &str, d: String| Some((k.to_string(), d));
    if let Some(i) = oks.iter().position(|(a, b)| a != b) { return bad("accepted", format!("event {} accepted {} want {}", i, oks[i].0, oks[i].1)); }
    let ev = &v.video_action_state_recorder;
    if ev.len() != r.evs.len() { return bad("events", format!("{} events recorded, want {}: {:?}", ev.len(), r.evs.len(), ev.iter().map(|e| e.mouse.clone()).collect::<Vec<_>>())); }
    if !same_ph(r.g.ph, v.game_board_state) { return bad("phase", format!("phase {:?} want {:?}", v.game_board_state, r.g.ph)); }
    if v.get_game_board() != r.g.g { return bad("board", format!("board {} want {}", show(&v.get_game_board()), show(&r.g.g))); }
    let mut last = 0.0;
    for (i, (e, w)) in ev.iter().zip(&r.evs).enumerate() {
        if e.mouse != w.e || e.x as usize != w.x || e.y as usize != w.y { return bad("event", format!("event {}: {} ({},{}) want {} ({},{})", i, e.mouse, e.y, e.x, w.e, w.y, w.x)); }
        if !near(e.time, w.t as f64 / 1000.0) { return bad("time", format!("event {} ({}) time {} want {} ms", i, e.mouse, e.time, w.t)); }
        if e.time < last { return bad("order", format!("event {} time {} before {}", i, e.time, last)); }
        last = e.time;
        let k = &e.key_dynamic_params;
        if (k.left, k.right, k.double, k.ce, k.flag, k.bbbv_solved) != (w.left, w.right, w.double, w.ce, w.flag, w.solved) {
            return bad("counters", format!("event {}: {:?} want {:?}", i, (k.left, k.right, k.double, k.ce, k.flag, k.bbbv_solved), (w.left, w.right, w.double, w.ce, w.flag, w.solved)));
        }
        if !same_m(w.m, e.mouse_state) { return bad("mouse", format!("event {} button state {:?} want {:?}", i, e.mouse_state, w.m)); }
        if !near(e.path, w.path) { return bad("path", format!("event {} path {} want {}", i, e.path, w.path)); }
        let st = |id: usize| v.game_board_stream.get(id).map(|g| g.game_board.clone());
        if st(e.prior_game_board_id) != Some(w.before.clone()) { return bad("prior", format!("event {} board before it {:?} want {}", i, st(e.prior_game_board_id).map(|b| show(&b)), show(&w.before))); }
        if st(e.next_game_board_id) != Some(w.after.clone()) { return bad("next", format!("event {} board after it {:?} want {}", i, st(e.next_game_board_id).map(|b| show(&b)), show(&w.after))); }
    }
    let g = &r.g;
    if (v.get_left(), v.get_right(), v.get_double(), v.get_flag(), v.get_cl()) != (g.left, g.right, g.double, g.flag(), g.left + g.right + g.double) { return bad("getters", "live counters differ".into()); }
    if v.get_mouse_state() != mouse_code(g.m) { return bad("mouse", format!("button state {} want {}", v.get_mouse_state(), mouse_code(g.m))); }
    if !near(v.get_path(), r.evs.last().map_or(0.0, |e| e.path)) { return bad("path", format!("path {} want {}", v.get_path(), r.evs.last().map_or(0.0, |e| e.path))); }
    None
}
/// the counter clock at several moments after the last event
pub fn compare_clock(v: &Live, r: &Rec, now: u64) -> Option<(String, String)> {
    let mut last = f64::NEG_INFINITY;
    for d in [0u64, 1, 300, 499, 500, 700, 1000, 1499, 2_000_000, 70_000_000] {
        clock::set((now + d) * 1000, WALL0);
        let t = v.get_time();
        let want = match r.g.ph {
            Ph::Ready => 0.0,
            Ph::Pre => (now + d - r.origin) as f64 / 1e6,
            Ph::Playing => (now + d - r.origin) as f64 / 1e6 - r.start as f64 / 1e3,
            Ph::Win | Ph::Loss => r.rtime as f64 / 1e3,
        };
        let tol = match r.g.ph { Ph::Pre | Ph::Playing => 0.001 + 1e-9, _ => 1e-9 };
        if !((t - want).abs() <= tol) || t < 0.0 { return Some(("clock".into(), format!("phase {:?}: time shown {} want {} (+{} us)", r.g.ph, t, want, d))); }
        if t < last { return Some(("clock-backwards".into(), format!("time shown fell from {} to {}", last, t))); }
        last = t;
        for (n, rate, cnt) in [("left", v.get_left_s(), v.get_left()), ("right", v.get_right_s(), v.get_right()), ("double", v.get_double_s(), v.get_double()), ("cl", v.get_cl_s(), v.get_cl()), ("flag", v.get_flag_s(), v.get_flag())] {
            match r.g.ph {
                Ph::Ready | Ph::Pre => if rate != 0.0 { return Some(("rate".into(), format!("{}_s {} before the game", n, rate))); },
                _ => if want > 0.01 && !((rate - cnt as f64 / want).abs() <= 0.11 * (rate.abs() + 1e-12) && rate >= 0.0) { return Some(("rate".into(), format!("{}_s {} want about {}", n, rate, cnt as f64 / want))); },
            }
        }
    }
    let over = r.over();
    if v.get_rtime().is_ok() != over || v.get_rtime_ms().is_ok() != over { return Some(("result-time".into(), "final time available in the wrong phase".into())); }
    if over && (v.get_rtime_ms().unwrap() != r.rtime || !near(v.get_rtime().unwrap(), r.rtime as f64 / 1e3)) { return Some(("result-time".into(), format!("final time {} ms want {}", v.get_rtime_ms().unwrap(), r.rtime))); }
    let tx = |b: &Vec<u8>| String::from_utf8_lossy(b).to_string();
    if over || r.g.ph == Ph::Playing { if tx(&v.start_time) != r.wall_start.to_string() { return Some(("start-stamp".into(), format!("start stamp {} want {}", tx(&v.start_time), r.wall_start))); } }
    if over && tx(&v.end_time) != r.wall_end.to_string() { return Some(("end-stamp".into(), format!("end stamp {} want {}", tx(&v.end_time), r.wall_end))); }
    if over && v.is_completed != (r.g.ph == Ph::Win) { return Some(("completed".into(), format!("is_completed {}", v.is_completed))); }
    if over {
        let s = stats(&r.g.b);
        let p = &v.static_params;
        let got = (p.bbbv, p.op, p.isl, [p.cell0, p.cell1, p.cell2, p.cell3, p.cell4, p.cell5, p.cell6, p.cell7, p.cell8]);
        if got != (s.bbbv, s.op, s.isl, s.cells) { return Some(("statistics".into(), format!("{:?}", got))); }
    }
    None
}
fn one(ctx: &Ctx, b: &Arc<B>, pix: usize, evs: &[PEv], pat: Pattern) -> Option<Rec> {
    let case = || format!("board {} pixels {} clock steps {} us / {} us back={} events {}", show(b), pix, pat.a, pat.b, pat.back, show_px(evs));
    let r = call(&case, || {
        let (v, r, oks) = play(b, pix, evs, pat);
        let e = compare(&v, &r, &oks).or_else(|| compare_clock(&v, &r, if evs.is_empty() { MONO0 } else { pat.at(evs.len() - 1).0 }));
        (r, e)
    });
    clock::release();
    match r {
        Err(e) => { ctx.violation("panic", || format!("{}: {}", case(), e)); None }
        Ok((_, Some((k, d)))) => { ctx.violation(&k, || format!("{}: {}", case(), d)); None }
        Ok((r, None)) => Some(r),
    }
}
pub fn moves(b: &B, pix: usize, names: &[&'static str], out: &[&'static str]) -> Vec<Vec<PEv>> {
    let mut v = vec![];
    for e in names { for (k, p) in crate::p_game::cells_of(b).into_iter().enumerate() { let (y, x) = px(b, pix, Some(p), k % 2 == 1); v.push(vec![(*e, y, x)]); } }
    v.extend(outside(b, pix, out));
    v
}
/// the placeholder beyond both edges, and positions beyond one edge only
pub fn outside(b: &B, pix: usize, out: &[&'static str]) -> Vec<Vec<PEv>> {
    let mut v = vec![];
    for e in out {
        let (y, x) = px(b, pix, None, false);
        v.push(vec![(*e, y, x)]);
        v.push(vec![(*e, y - 1, x + 7)]);
        v.push(vec![(*e, y + 9, 0)]);
    }
    v
}
pub fn click_moves(b: &B, pix: usize, out: &[&'static str]) -> Vec<Vec<PEv>> {
    let conv = |m: Vec<crate::p_game::Ev>, far: bool| -> Vec<PEv> { m.into_iter().enumerate().map(|(i, (e, p))| { let (y, x) = px(b, pix, p, far ^ (i % 2 == 1)); (e, y, x) }).collect() };
    let mut v: Vec<Vec<PEv>> = crate::p_game::clicks_more(b).into_iter().enumerate().map(|(i, m)| conv(m, i % 2 == 1)).collect();
    for p in crate::p_game::cells_of(b) { let (y, x) = px(b, pix, Some(p), true); v.push(vec![("mv", y, x)]); }
    v.extend(outside(b, pix, out));
    v
}
/// breadth-first over reference game states plus "was the last event outside"; calls f on every path (prefix + move)
pub fn explore(b: &Arc<B>, pix: usize, moves: &[Vec<PEv>], max_depth: usize, flags: usize, cap: usize, f: &dyn Fn(&[PEv]) -> bool) -> (u64, u64, bool) {
    let pat = Pattern { a: 1000, b: 1000, back: false };
    let key = |r: &Rec| (r.g.key(), r.evs.last().map(|e| (e.y >= r.g.rows() * pix, e.x >= r.g.cols() * pix)), r.evs.len().min(2));
    let r0 = Rec::new(b.clone(), pix);
    let mut seen = HashSet::new();
    seen.insert(key(&r0));
    let mut layer: Vec<(Rec, Vec<PEv>)> = vec![(r0, vec![])];
    let (mut states, mut trans, mut d) = (1u64, 0u64, 0);
    while !layer.is_empty() {
        if d >= max_depth || seen.len() > cap { return (states, trans, false); }
        let mut next = vec![];
        for (r, path) in &layer { for mv in moves {
            let mut p = path.clone();
            let mut n = r.clone();
            for m in mv { let (now, wall) = pat.at(p.len()); let _ = n.step(m.0, m.1, m.2, now, wall); p.push(*m); }
            trans += mv.len() as u64;
            if !f(&p) { return (states, trans, false); }
            if n.over() || n.g.flag() > flags { continue; }
            if seen.insert(key(&n)) { states += 1; next.push((n, p)); }
        } }
        layer = next;
        d += 1;
    }
    (states, trans, true)
}
pub struct VJob { pub b: Arc<B>, pub pix: usize, pub moves: Vec<Vec<PEv>>, pub depth: usize, pub flags: usize, pub cap: usize }
pub fn vjobs(th: bool) -> Vec<VJob> {
    let mut jobs = vec![];
    let ev = ["lc", "lr", "rc", "rr", "mv", "cc", "mc", "mr", "pf"];
    for (r, c) in [(1usize, 1usize), (1, 2), (2, 1)] { for m in 0..1u64 << (r * c) {
        let b = Arc::new(from_mask(r, c, m));
        jobs.push(VJob { moves: moves(&b, 16, &ev, &["lc", "lr", "rc", "rr", "mv", "mr"]), b, pix: 16, depth: 40, flags: 9, cap: 100_000 });
    } }
    for (r, c) in [(1usize, 3usize), (2, 2)] { for m in crate::p_game::canon(r, c) {
        let b = Arc::new(from_mask(r, c, m));
        jobs.push(VJob { moves: moves(&b, 7, &["lc", "lr", "rc", "rr", "mv"], &["lr", "mv", "rr"]), b, pix: 7, depth: 40, flags: if th { 9 } else { 2 }, cap: 100_000 });
    } }
    for (r, c, fl) in if th { vec![(1usize, 4usize, 3usize), (2, 3, 2), (1, 5, 2), (3, 3, 1)] } else { vec![(1usize, 4usize, 1usize), (2, 3, 1)] } { for m in crate::p_game::canon(r, c) {
        let b = Arc::new(from_mask(r, c, m));
        jobs.push(VJob { moves: click_moves(&b, 30, &["mv", "lc", "lr"]), b, pix: 30, depth: 40, flags: fl, cap: 100_000 });
    } }
    for b in [number(&mask_mines(3, 3, 0b000_000_011)), number(&mask_mines(3, 5, 0b00100_00100_00100)), number(&mask_mines(4, 4, 0b0000_0000_0000_1000))] {
        let b = Arc::new(b);
        jobs.push(VJob { moves: click_moves(&b, 16, &["mv", "lr"]), b, pix: 16, depth: if th { 4 } else { 3 }, flags: 2, cap: 20_000 });
    }
    jobs
}
pub fn run_jobs(ctx: &Ctx, jobs: &[VJob], f: &(dyn Fn(&Arc<B>, usize, &[PEv]) -> bool + Sync)) {
    let next = std::sync::atomic::AtomicUsize::new(0);
    let mut order: Vec<usize> = (0..jobs.len()).collect();
    order.sort_by_key(|i| std::cmp::Reverse(jobs[*i].b.len() * jobs[*i].b[0].len() * jobs[*i].moves.len()));
    std::thread::scope(|s| { for _ in 0..8 { std::thread::Builder::new().stack_size(8 << 20).spawn_scoped(s, || loop {
        let k = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        if k >= order.len() || ctx.nviol() > 8 { break; }
        let j = &jobs[order[k]];
        let (st, tr, full) = explore(&j.b, j.pix, &j.moves, j.depth, j.flags, j.cap, &|p| f(&j.b, j.pix, p) && ctx.nviol() <= 8);
        ctx.add(st, tr, 0);
        ctx.count("games_explored", 1);
        if full { ctx.count("games_explored_to_fixpoint", 1); }
    }).unwrap(); } });
}
pub fn c18(ctx: &Ctx) {
    let th = ctx.thorough;
    let ds: [u64; 8] = [0, 400, 499, 500, 999, 1000, 17_300, 1_234_567];
    let mut pats = vec![];
    for a in ds { for b in ds { pats.push(Pattern { a, b, back: (a + b) % 3 == 0 }); } }
    pats.push(Pattern { a: 900_000_000, b: 3_000_000_500, back: false });
    run_jobs(ctx, &vjobs(th), &|b, pix, path| {
        let full = b.len() * b[0].len() <= 2;
        for (i, p) in pats.iter().enumerate() {
            if !full && !th && i % 9 != (path.len() % 9) { continue; }
            if one(ctx, b, pix, path, *p).is_none() { return false; }
            ctx.nontrivial.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        }
        true
    });
    // every history, unmerged, with every sequence of clock steps
    let d3: [u64; 3] = [0, 600, 20_000];
    for b in [from_mask(1, 2, 0b10), from_mask(1, 1, 1), from_mask(1, 2, 0)] {
        let b = Arc::new(b);
        let mv: Vec<PEv> = moves(&b, 16, &["lc", "lr", "rc", "rr"], &["mv", "lr"]).into_iter().map(|m| m[0]).collect();
        let len = if th { 5 } else { 4 };
        let n = mv.len().pow(len as u32);
        ctx.par(n, |mut k| {
            let mut evs = vec![];
            for _ in 0..len { evs.push(mv[k % mv.len()]); k /= mv.len(); }
            for a in d3 { for c in d3 { one(ctx, &b, 16, &evs, Pattern { a, b: c, back: false }); } }
            ctx.add(9, 9 * len as u64, 0);
        });
    }
    ctx.note(format!("every path of the breadth-first exploration of {} games (fixpoint on 1x1..2x2), under alternating clock steps from {:?} us (all 64 pairs on 1-2 cell boards, a ninth of them elsewhere in the quick tier), calendar clock forwards and backwards; all histories of fixed length over 3 boards", vjobs(th).len(), ds));
    ctx.sample(|| "board 1,-1: lc(0,0) +600us lr(0,0) -> Win, event times 0 and 1 ms".into());
}
