//! C21: independent writers for the AVF, RMV and MVF layouts; C20: damaged recordings.
use crate::ctx::*;
use crate::p_evf::*;
use crate::p_video::*;
use crate::refgame::*;
use crate::refm::*;
use crate::refrec::*;
use ms_toollib::*;
use std::sync::Arc;

pub type Ev4 = (u32, &'static str, usize, usize); // milliseconds, event, y, x
type Dv = BaseVideo<Vec<Vec<i32>>>;
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fmt { Evf, Avf, Rmv, Mvf }
pub const FMTS: [Fmt; 4] = [Fmt::Evf, Fmt::Avf, Fmt::Rmv, Fmt::Mvf];
pub fn parse(f: Fmt, bytes: &[u8]) -> Result<Dv, String> {
    let p = scratch_file("bin");
    std::fs::write(&p, bytes).unwrap();
    macro_rules! go { ($t:ident) => {{ let mut v = $t::new(&p); v.parse_video().map_err(|e| format!("{:?}", e))?; Ok(v.data) }} }
    match f { Fmt::Evf => go!(EvfVideo), Fmt::Avf => go!(AvfVideo), Fmt::Rmv => go!(RmvVideo), Fmt::Mvf => go!(MvfVideo) }
}
fn mine_list(b: &B) -> Vec<P> { crate::p_game::cells_of(b).into_iter().filter(|p| b[p.0][p.1] == -1).collect() }

// ---------------------------------------------------------------- AVF (Arbiter)
#[derive(Clone, Debug)]
pub struct AvfHdr { pub custom: bool, pub lead: [u8; 5], pub pre: Vec<u8>, pub quest: u8, pub start: Vec<u8>, pub end: Vec<u8>, pub gap: Vec<u8>, pub bbbv: usize, pub time: String, pub pad: Vec<u8>, pub name: Vec<u8>, pub skin: Vec<u8> }
pub fn avf_time(ms: u32) -> String { format!("{}.{:02}", ms / 1000 + 1, ms % 1000 / 10) }
impl AvfHdr {
    pub fn new(bbbv: usize, rtime: u32) -> AvfHdr { AvfHdr { custom: true, lead: [1, 2, 3, 4, 5], pre: vec![0x0d, 0x0a], quest: b'0', start: b"17.10.2021.10.24.23.9906".to_vec(), end: b"25.46.7890".to_vec(), gap: vec![], bbbv, time: avf_time(rtime), pad: vec![0x58], name: b"Player".to_vec(), skin: b" default".to_vec() } }
}
pub fn avf_code(e: &str, k: usize) -> u8 { match (e, k % 3) { ("mv", _) => 1, ("lc", _) => 3, ("lr", 0) => 5, ("lr", _) => 21, ("rc", _) => 9, ("rr", 0) => 17, ("rr", _) => 145, ("mc", _) => 33, ("mr", 0) => 65, ("mr", _) => 193, _ => panic!("event {e}") } }
/// times must be multiples of 10 ms
pub fn encode_avf(b: &B, h: &AvfHdr, evs: &[Ev4], variant: usize) -> Vec<u8> {
    let mut o = h.lead.to_vec();
    let level = if h.custom { 6 } else { level_of(b) };
    o.push(level);
    if level == 6 { o.push((b[0].len() - 1) as u8); o.push((b.len() - 1) as u8); o.extend((mines(b) as u16).to_be_bytes()); }
    for p in mine_list(b) { o.push(p.0 as u8 + 1); o.push(p.1 as u8 + 1); }
    o.extend(&h.pre);
    o.extend([b'[', h.quest, b'|']);
    o.extend(&h.start);
    o.push(b'|');
    o.extend(&h.end);
    o.push(b'|');
    o.extend(&h.gap);
    o.extend(format!("B{}T{}]", h.bbbv, h.time).bytes());
    o.extend(&h.pad);
    for (i, (t, e, y, x)) in evs.iter().enumerate() {
        let sec = t / 1000 + 1;
        o.extend([avf_code(e, i + variant), (x >> 8) as u8, sec as u8, *x as u8, (t % 1000 / 10) as u8, (y >> 8) as u8, (sec >> 8) as u8, *y as u8]);
    }
    o.extend([0u8; 8]);
    o.extend(b"xxSkin:");
    o.extend(&h.skin);
    o.push(b'\r');
    o.extend(&h.name);
    o.extend(b"\rtail");
    o
}
// ---------------------------------------------------------------- RMV (Viennasweeper)
#[derive(Clone, Debug)]
pub struct RmvHdr { pub result: usize, pub bbbv: Vec<u8>, pub stamp: Vec<u8>, pub version: Vec<u8>, pub info: Vec<Vec<u8>>, pub props: usize, pub nf: u8, pub mode: u8, pub level: u8, pub end: u8, pub noise: usize, pub preflags_present: bool }
impl RmvHdr { pub fn new() -> RmvHdr { RmvHdr { result: 40, bbbv: b" 12".to_vec(), stamp: b"1382834716".to_vec(), version: b"Vienna".to_vec(), info: vec![b"name".to_vec(), b"nick".to_vec(), b"AT".to_vec(), b"tok".to_vec()], props: 4, nf: 0, mode: 0, level: 3, end: 15, noise: 0, preflags_present: false } } }
/// evs without the flags placed before the game (pf) and without the first left press
pub fn encode_rmv(b: &B, h: &RmvHdr, pf: &[P], evs: &[Ev4]) -> Vec<u8> {
    let mut o = b"*rmv".to_vec();
    o.extend([0, 1, 9, 9, 9, 9]);
    o.extend((h.result as u16).to_be_bytes());
    o.extend((h.version.len() as u16).to_be_bytes());
    o.extend([7, 7, 7, 7]);
    let has = h.preflags_present || !pf.is_empty();
    o.extend((if has { 2 + 2 * pf.len() as u16 } else { 0 }).to_be_bytes());
    o.extend((h.props as u16).to_be_bytes());
    o.extend([5, 5, 5, 5, 6, 6, b'\n']);
    // the result text: 3BV 32 bytes and the time stamp 13 bytes before its end
    let mut res = vec![b'.'; h.result - 3];
    if h.result > 35 { let n = h.result; res[n - 32..n - 29].copy_from_slice(&h.bbbv); res[n - 13..n - 3].copy_from_slice(&h.stamp); }
    o.extend(res);
    o.extend([b';', b'\n']);
    o.extend(&h.version);
    o.extend((h.info.len() as u16).to_be_bytes());
    for s in &h.info { o.push(s.len() as u8); o.extend(s); }
    o.extend([3, 3, 3, 3, b[0].len() as u8, b.len() as u8]);
    o.extend((mines(b) as u16).to_be_bytes());
    for p in mine_list(b) { o.extend([p.1 as u8, p.0 as u8]); }
    if has { o.extend((pf.len() as u16).to_be_bytes()); for p in pf { o.extend([p.1 as u8, p.0 as u8]); } }
    o.extend([1, h.nf, h.mode, h.level]);
    o.extend(vec![0xEE; h.props - 4]);
    let noise = |o: &mut Vec<u8>, i: usize| match (h.noise + i) % 5 * (h.noise > 0) as usize { 1 => o.extend([0, 1, 2, 3, 4]), 2 => o.extend([9, 200, 201]), 3 => o.extend([14, 0, 0, 18, 15, 15]), 4 => o.extend([27, 1, 16]), _ => {} };
    for (i, (t, e, y, x)) in evs.iter().enumerate() {
        noise(&mut o, i);
        o.push(code(e));
        o.extend(&t.to_be_bytes()[1..]);
        o.push(0x77);
        o.extend(((*x as u16).wrapping_add(12)).to_be_bytes());
        o.extend(((*y as u16).wrapping_add(56)).to_be_bytes());
    }
    noise(&mut o, evs.len());
    o.push(h.end);
    o
}
// ---------------------------------------------------------------- MVF (Clone 0.97)
#[derive(Clone, Debug)]
pub struct MvfHdr { pub date: [u8; 7], pub level: u8, pub mode: u8, pub sec: u16, pub hun: u8, pub bbbv: u16, pub filler: [u8; 9], pub name: Vec<u8>, pub leading: u16 }
impl MvfHdr { pub fn new(bbbv: usize, rtime: u32) -> MvfHdr { MvfHdr { date: [10, 17, 7, 229, 10, 24, 23], level: 4, mode: 1, sec: (rtime / 1000) as u16, hun: (rtime % 1000 / 10) as u8, bbbv: bbbv as u16, filler: [1, 2, 3, 4, 5, 6, 7, 8, 0], name: b"clone".to_vec(), leading: 12345 } } }
/// position of the n-th logical bit inside the five event bytes
fn mvf_table(leading: u16) -> [(usize, u8); 40] {
    let l = leading as f64;
    let (a, b) = (l.sqrt(), (l + 1000.0).sqrt());
    let c = (a + 1000.0).sqrt();
    let vals = [(c + 1000.0).cos(), b.sqrt().sin(), c.cos(), (a.sqrt() + 1000.0).sin(), (b + 1000.0).sqrt().cos()];
    let digits: Vec<u8> = vals.iter().flat_map(|v| format!("{:08}", (v * 1e8).abs().round() as u64).into_bytes()[..8].to_vec()).collect();
    let mut idx: Vec<usize> = (0..40).collect();
    idx.sort_by_key(|i| (digits[*i], *i));
    let mut t = [(0, 0); 40];
    for (k, i) in idx.into_iter().enumerate() { t[k] = (i / 8, 1u8 << (i % 8)); }
    t
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct MRec { pub l: bool, pub r: bool, pub m: bool, pub y: usize, pub x: usize, pub t: u32 } // t in milliseconds, multiple of 10
pub fn encode_mvf(b: &B, h: &MvfHdr, recs: &[MRec]) -> Vec<u8> {
    let mut o = vec![0x11, 0x4D];
    o.extend([0u8; 25]);
    o.push(b'5');
    o.extend([b'h'; 46]);
    o.extend(h.date);
    o.extend([h.level, h.mode]);
    o.extend(h.sec.to_be_bytes());
    o.push(h.hun);
    o.extend(h.bbbv.to_be_bytes());
    o.extend(h.filler);
    o.extend([b[0].len() as u8, b.len() as u8]);
    o.extend((mines(b) as u16).to_be_bytes());
    for p in mine_list(b) { o.extend([p.1 as u8 + 1, p.0 as u8 + 1]); }
    o.push(h.name.len() as u8);
    o.extend(&h.name);
    o.extend(h.leading.to_be_bytes());
    o.extend(&(recs.len() as u32).to_be_bytes()[1..]);
    let t = mvf_table(h.leading);
    for r in recs {
        let mut e = [0u8; 5];
        let mut put = |pos: usize, n: usize, v: usize| for j in 0..n { if v >> j & 1 == 1 { e[t[pos + j].0] |= t[pos + j].1; } };
        put(0, 1, r.r as usize);
        put(1, 1, r.m as usize);
        put(2, 1, r.l as usize);
        put(3, 9, r.y);
        put(12, 9, r.x);
        put(21, 7, (r.t % 1000 / 10) as usize);
        put(28, 10, (r.t / 1000) as usize);
        o.extend(e);
    }
    o
}
/// the events a list of button/position samples stands for
pub fn mvf_events(recs: &[MRec]) -> Vec<Ev4> {
    let mut v = vec![];
    for (i, r) in recs.iter().enumerate() {
        let mut push = |e: &'static str| v.push((r.t, e, r.y, r.x));
        if i == 0 { push(if r.m { "mc" } else if r.r { "rc" } else if r.l { "lc" } else { "mv" }); continue; }
        let p = recs[i - 1];
        if (p.y, p.x) != (r.y, r.x) { push("mv"); }
        if r.l && !p.l { push("lc"); }
        if r.r && !p.r { push("rc"); }
        if r.m && !p.m { push("mc"); }
        if !r.l && p.l { push("lr"); }
        if !r.r && p.r { push("rr"); }
        if !r.m && p.m { push("mr"); }
    }
    v
}
/// samples for a game: one per event (a press or release at a new position also moves there)
fn mvf_samples(evs: &[Ev4]) -> Option<Vec<MRec>> {
    let mut out = vec![];
    let mut c = MRec { l: false, r: false, m: false, y: 0, x: 0, t: 0 };
    for (i, (t, e, y, x)) in evs.iter().enumerate() {
        let p = c;
        c.t = *t; c.y = *y; c.x = *x;
        match *e { "lc" => c.l = true, "lr" => c.l = false, "rc" => c.r = true, "rr" => c.r = false, "mc" => c.m = true, "mr" => c.m = false, "mv" => {}, _ => return None }
        if i > 0 && (p.l, p.r, p.m) == (c.l, c.r, c.m) && *e != "mv" { return None; }
        if i > 0 && *e == "mv" && (p.y, p.x) == (c.y, c.x) { return None; }
        if c.x > 511 || c.y > 511 { return None; }
        out.push(c);
    }
    Some(out)
}

// ---------------------------------------------------------------- C21
fn near(a: f64, b: f64) -> bool { (a - b).abs() <= 1e-9 * (1.0 + a.abs().max(b.abs())) }
/// plays a list of timed events on the reference recorder; None when a recording could not contain it
pub fn reference(b: &Arc<B>, evs: &[Ev4]) -> Option<Rec> {
    // pointer moves before the first click belong to the file but not to the game
    let lead = evs.iter().take_while(|e| e.1 == "mv").count();
    let mut r = Rec::new(b.clone(), 16);
    let t0 = evs.get(lead)?.0;
    for (t, e, y, x) in &evs[lead..] {
        if r.over() { return None; }
        if r.step(e, *y, *x, (*t - t0) as u64 * 1000, 0).is_err() || r.g.ph == Ph::Ready { return None; }
    }
    if !r.over() { return None; }
    for e in &mut r.evs { e.t += t0; }
    r.start += t0;
    let z = vec![vec![10; b[0].len()]; b.len()];
    for (t, e, y, x) in evs[..lead].iter().rev() {
        r.evs.insert(0, RE { t: *t, e, y: *y, x: *x, before: z.clone(), after: z.clone(), level: 0, left: 0, right: 0, double: 0, ce: 0, flag: 0, solved: 0, m: M::UpUp, path: 0.0, inside: *y < b.len() * 16 && *x < b[0].len() * 16 });
    }
    Some(r)
}
struct Want<'a> { level: u8, mode: u16, bbbv: usize, rtime: u32, software: &'a [u8], player: &'a [u8], country: &'a [u8], start: &'a [u8], end: &'a [u8], nf: bool }
fn check_parsed(d: &Dv, b: &B, w: &Want, evs: &[Ev4]) -> Option<(String, String)> {
    let bad = |k: &str, t: String| Some((k.to_string(), t));
    if d.board != *b { return bad("board", format!("board {} want {}", show(&d.board), show(b))); }
    if (d.height, d.width, d.mine_num, d.level, d.mode, d.static_params.bbbv, d.cell_pixel_size, d.nf) != (b.len(), b[0].len(), mines(b), w.level, w.mode, w.bbbv, 16, w.nf) {
        return bad("header", format!("{:?} want {:?}", (d.height, d.width, d.mine_num, d.level, d.mode, d.static_params.bbbv, d.cell_pixel_size, d.nf), (b.len(), b[0].len(), mines(b), w.level, w.mode, w.bbbv, 16, w.nf)));
    }
    for (n, a, x) in [("software", &d.software[..], w.software), ("player", &d.player_designator, w.player), ("country", &d.country, w.country), ("start", &d.start_time, w.start), ("end", &d.end_time, w.end)] {
        if a != x { return bad("metadata", format!("{} {:?} want {:?}", n, a, x)); }
    }
    if d.get_rtime_ms().ok() != Some(w.rtime) || !near(d.get_rtime().unwrap_or(-1.0), w.rtime as f64 / 1000.0) { return bad("rtime", format!("{:?} want {}", d.get_rtime_ms(), w.rtime)); }
    let got = &d.video_action_state_recorder;
    for (i, (g, e)) in got.iter().zip(evs).enumerate() {
        if g.mouse != e.1 || !near(g.time, e.0 as f64 / 1000.0) || g.y as usize != e.2 || g.x as usize != e.3 { return bad("event", format!("event {}: {} {} ({},{}) want {:?}", i, g.mouse, g.time, g.y, g.x, e)); }
    }
    if got.len() != evs.len() { return bad("events", format!("{} events want {}", got.len(), evs.len())); }
    None
}
fn run_one(ctx: &Ctx, f: Fmt, b: &Arc<B>, bytes: &[u8], w: &Want, evs: &[Ev4], r: Option<&Rec>, what: &str) {
    let case = || format!("{:?} {} board {} events {:?} bytes {:?}", f, what, show(b), &evs[..evs.len().min(60)], &bytes[..bytes.len().min(160)]);
    let res = call(&case, || {
        let mut d = match parse(f, bytes) { Ok(d) => d, Err(e) => return Some(("load".to_string(), format!("loading fails: {:?}", e))) };
        if let Some(x) = check_parsed(&d, b, w, evs) { return Some(x); }
        if let Some(r) = r {
            d.analyse();
            let mut r = r.clone();
            r.rtime = w.rtime;
            if let Some(x) = compare_analysed(&mut d, &r) { return Some(x); }
        }
        None
    });
    ctx.add(1, evs.len() as u64, r.is_some() as u64);
    match res { Err(e) => ctx.violation("panic", || format!("{}: {}", case(), e)), Ok(Some((k, d))) => ctx.violation(&format!("{:?}-{}", f, k), || format!("{}: {}", case(), d)), Ok(None) => {} }
}
fn avf_one(ctx: &Ctx, b: &Arc<B>, h: &AvfHdr, evs: &[Ev4], rtime: u32, variant: usize, replay: bool, what: &str) {
    let bytes = encode_avf(b, h, evs, variant);
    let r = if replay { reference(b, evs) } else { None };
    let level = if h.custom { 6 } else { level_of(b) };
    run_one(ctx, Fmt::Avf, b, &bytes, &Want { level, mode: 0, bbbv: h.bbbv, rtime, software: b"Arbiter", player: &h.name, country: b"", start: &h.start, end: &h.end, nf: false }, evs, r.as_ref(), what);
}
fn rmv_one(ctx: &Ctx, b: &Arc<B>, h: &RmvHdr, evs: &[Ev4], replay: bool, what: &str) {
    // flags set before the game, then the first press, which the file omits
    let n = evs.iter().take_while(|e| e.1 == "pf").count();
    let pf: Vec<P> = evs[..n].iter().map(|e| (e.2 / 16, e.3 / 16)).collect();
    let body = &evs[n + 1..];
    let bytes = encode_rmv(b, h, &pf, body);
    let r = if replay { reference(b, evs) } else { None };
    let bbbv = if h.result > 35 { String::from_utf8(h.bbbv.iter().filter(|c| c.is_ascii_digit()).cloned().collect()).unwrap().parse().unwrap() } else { 0 };
    let get = |i: usize| h.info.get(i).cloned().unwrap_or_default();
    run_one(ctx, Fmt::Rmv, b, &bytes, &Want { level: h.level + 3, mode: h.mode as u16, bbbv, rtime: evs.last().unwrap().0, software: b"Viennasweeper", player: &get(0), country: &get(2), start: if h.result > 35 { &h.stamp } else { b"" }, end: b"", nf: h.nf == 1 }, evs, r.as_ref(), what);
}
fn mvf_one(ctx: &Ctx, b: &Arc<B>, h: &MvfHdr, recs: &[MRec], replay: bool, what: &str) {
    let bytes = encode_mvf(b, h, recs);
    let evs = mvf_events(recs);
    let r = if replay { reference(b, &evs) } else { None };
    run_one(ctx, Fmt::Mvf, b, &bytes, &Want { level: h.level + 2, mode: match h.mode { 1 => 0, 2 => 3, 3 => 1, _ => 2 }, bbbv: h.bbbv as usize, rtime: h.sec as u32 * 1000 + h.hun as u32 * 10, software: b"0.97 beta", player: &h.name, country: b"", start: b"", end: b"", nf: false }, &evs, r.as_ref(), what);
}
/// give the events times; k chooses the spacing, always multiples of 10 ms
fn timed(path: &[PEv], k: usize) -> Vec<Ev4> {
    let d = [0u32, 10, 130, 990, 1000, 2550, 60_010][k % 7];
    path.iter().enumerate().map(|(i, (e, y, x))| ((i as u32 + (k as u32 / 7) % 2) * d, *e, *y, *x)).collect()
}
fn to16(b: &B, pix: usize, p: &[PEv]) -> Vec<PEv> {
    p.iter().map(|(e, y, x)| if y / pix >= b.len() || x / pix >= b[0].len() { (*e, b.len() * 16, b[0].len() * 16) } else { (*e, y / pix * 16 + (y % pix).min(15), x / pix * 16 + (x % pix).min(15)) }).collect()
}
/// every format that can express the game
fn all_formats(ctx: &Ctx, b: &Arc<B>, path: &[PEv], k: usize) {
    let bbbv = stats(b).bbbv;
    let evs = timed(path, k);
    let last = evs.last().unwrap().0;
    let mut full = vec![];
    for i in 0..k % 3 { full.push((evs[0].0, "mv", (i * 7) % (b.len() * 16), (i * 11 + k) % (b[0].len() * 16))); }
    full.extend(evs.iter().cloned());
    if evs.iter().all(|e| e.1 != "pf" && e.1 != "cc") {
        let mut h = AvfHdr::new(bbbv, last);
        h.custom = k % 2 == 0 || level_of(b) == 6;
        h.pad = vec![0x58; 1 + k % 3];
        // the stream is found by its first event: in the first second, x below 512
        if full[0].0 < 1000 && full[0].3 < 512 { avf_one(ctx, b, &h, &full, last, k, true, "game"); }
        if let Some(s) = mvf_samples(&evs) { let mut h = MvfHdr::new(bbbv, last % 1_000_000); h.leading = (k * 977) as u16; h.level = if level_of(b) == 6 { 4 } else { level_of(b) - 2 }; if last < 1_023_000 { mvf_one(ctx, b, &h, &s, true, "game"); } }
        if let Some(s) = mvf_samples(&full) { let h = MvfHdr::new(bbbv, last % 1_000_000); if last < 1_023_000 { mvf_one(ctx, b, &h, &s, true, "game after moves"); } }
    }
    if evs.iter().all(|e| e.1 != "cc") {
        // the file keeps flags without a time and omits the first press
        let n = evs.iter().take_while(|e| e.1 == "pf").count();
        if evs[n..].iter().any(|e| e.1 == "pf") || evs.len() < n + 2 || evs[n].1 != "lc" || last >= 1 << 24 { return; }
        let mut v: Vec<Ev4> = evs[n..].iter().map(|e| (e.0 - evs[n].0, e.1, e.2, e.3)).collect();
        v[1].0 = 0;
        if (v[0].2, v[0].3) != (v[1].2, v[1].3) { v[1].2 = v[0].2; v[1].3 = v[0].3; }
        if v[0].2 >= b.len() * 16 { return; }
        let mut all: Vec<Ev4> = evs[..n].iter().map(|e| (0, e.1, e.2 / 16 * 16, e.3 / 16 * 16)).collect();
        all.extend(v);
        let mut h = RmvHdr::new();
        h.noise = k % 4;
        h.end = 15 + (k % 3) as u8;
        h.level = if level_of(b) == 6 { 3 } else { level_of(b) - 3 };
        rmv_one(ctx, b, &h, &all, reference(b, &all).is_some(), "game");
    }
}
/// the game as a file of that format, when the format can express it
pub fn foreign_bytes(f: Fmt, b: &Arc<B>, path: &[PEv], bbbv: usize, k: usize) -> Option<Vec<u8>> {
    let evs = timed(path, k);
    let last = evs.last()?.0;
    if evs.iter().any(|e| e.1 == "cc") { return None; }
    let n = evs.iter().take_while(|e| e.1 == "pf").count();
    if f != Fmt::Rmv && n > 0 { return None; }
    match f {
        Fmt::Avf => { let mut h = AvfHdr::new(bbbv, last); h.custom = k % 2 == 0 || level_of(b) == 6; if evs[0].0 >= 1000 || evs[0].3 >= 512 { return None; } Some(encode_avf(b, &h, &evs, k)) }
        Fmt::Mvf => { let s = mvf_samples(&evs)?; if last >= 1_023_000 { return None; } let mut h = MvfHdr::new(bbbv, last % 1_000_000); h.leading = (k * 977) as u16; h.mode = 1 + (k % 4) as u8; Some(encode_mvf(b, &h, &s)) }
        Fmt::Rmv => {
            if evs.len() < n + 2 || evs[n].1 != "lc" || last >= 1 << 24 { return None; }
            let pf: Vec<P> = evs[..n].iter().map(|e| (e.2 / 16, e.3 / 16)).collect();
            let mut v: Vec<Ev4> = evs[n + 1..].iter().map(|e| (e.0 - evs[n].0, e.1, e.2, e.3)).collect();
            v[0].0 = 0;
            let mut h = RmvHdr::new();
            h.noise = k % 4; h.mode = (k % 3) as u8; h.nf = (k % 2) as u8; h.end = 15 + (k % 3) as u8;
            Some(encode_rmv(b, &h, &pf, &v))
        }
        Fmt::Evf => None,
    }
}
pub fn c21(ctx: &Ctx) {
    let th = ctx.thorough;
    run_jobs(ctx, &vjobs(th), &|b, pix, path| {
        let p = to16(b, pix, path);
        let mut r = Rec::new(b.clone(), 16);
        for (i, m) in p.iter().enumerate() {
            if m.0 == "pf" && r.g.m != M::UpUp { return true; }
            if r.over() || r.step(m.0, m.1, m.2, i as u64 * 1000, 0).is_err() || r.g.ph == Ph::Ready { return true; }
        }
        if !r.over() { return true; }
        let h = path.len() + path.iter().map(|p| p.1 * 3 + p.2 * 5 + p.0.as_bytes()[0] as usize).sum::<usize>();
        for k in 0..if th { 7 } else { 2 } { all_formats(ctx, b, &p, h * 5 + k * 3); }
        true
    });
    // every layout of small shapes, and flags set before the game on every subset of cells
    let mut lay: Vec<(usize, usize, u64)> = vec![];
    for (r, c) in shapes(1, if th { 10 } else { 9 }) { for m in 0..1u64 << (r * c) { lay.push((r, c, m)); } }
    ctx.par(lay.len(), |i| {
        let (r, c, m) = lay[i];
        let b = Arc::new(from_mask(r, c, m));
        for (k, g) in simple_games(&b, 16).iter().enumerate() {
            all_formats(ctx, &b, g, i + k);
            if r * c <= 6 { for f in 1..1u64 << (r * c) {
                let mut p: Vec<PEv> = (0..r * c).filter(|q| f >> q & 1 == 1).map(|q| ("pf", q / c * 16, q % c * 16)).collect();
                p.extend(g.iter().cloned());
                all_formats(ctx, &b, &p, i + k + f as usize);
            } }
        }
    });
    // standard levels and extreme sizes
    let mut big: Vec<B> = vec![];
    for (r, c) in [(8usize, 8usize), (16, 16), (16, 30), (30, 16), (9, 9), (1, 255), (255, 1), (24, 30)] { for (_, m) in lattice(r, c, 0) { big.push(number(&m)); } }
    for (r, c, k) in [(8usize, 8usize, 10usize), (16, 16, 40), (16, 30, 99), (16, 30, 300), (2, 200, 257), (255, 255, 9000)] {
        for s in 0..4u64 {
            let mut m = vec![vec![false; c]; r];
            let mut x = 12345u64 + s;
            let mut n = 0;
            while n < k { x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); let i = (x >> 33) as usize % (r * c); if !m[i / c][i % c] { m[i / c][i % c] = true; n += 1; } }
            big.push(number(&m));
        }
    }
    // the largest board, empty and with one mine: a single opening of up to 65025 cells
    big.push(number(&vec![vec![false; 255]; 255]));
    for k in [0usize, 127 * 255 + 127, 65024] { let mut g = vec![vec![false; 255]; 255]; g[k / 255][k % 255] = true; big.push(number(&g)); }
    let big: Vec<Arc<B>> = big.into_iter().map(Arc::new).collect();
    ctx.par(big.len(), |i| for (k, g) in simple_games(&big[i], 16).into_iter().enumerate() {
        let g = if g.len() > 900 { let mut h = g[..200].to_vec(); if let Some(p) = mine_list(&big[i]).first() { let (y, x) = px(&big[i], 16, Some(*p), true); h.push(("lc", y, x)); h.push(("lr", y, x)); } h } else { g };
        for z in 0..7 { all_formats(ctx, &big[i], &g, z + k); }
    });
    fields(ctx);
    let _ = std::fs::remove_dir_all(scratch());
    ctx.note("every ending game of the C18 exploration (fixpoint on 1x1..2x2) that the format can express; all layouts of small shapes, with every set of earlier flags up to 6 cells; standard and extreme boards; every value of every one-byte header field, boundary values of wider fields, all 65536 MVF permutations, event time and position boundaries".to_string());
    ctx.sample(|| format!("{:?}", encode_rmv(&from_mask(1, 2, 1), &RmvHdr::new(), &[(0, 0)], &[(0, "lr", 3, 20)])));
}
/// header fields and event values, one at a time through all values or boundaries
fn fields(ctx: &Ctx) {
    let b = Arc::new(from_mask(2, 3, 0b010_001));
    let g = simple_games(&b, 16);
    let texts: Vec<Vec<u8>> = vec![vec![], b"a".to_vec(), b"A B|C:[]{}".to_vec(), (128..=255).collect(), vec![b'n'; 255], vec![0, 1, 2, 10]];
    ctx.par(256, |v| {
        let u = v as u8;
        let evs = timed(&g[v % 2], 2);
        let last = evs.last().unwrap().0;
        // AVF: unused leading bytes, question-mark setting, player text
        for i in 0..5 { let mut h = AvfHdr::new(3, last); h.lead[i] = u; avf_one(ctx, &b, &h, &evs, last, v, true, "lead"); }
        for n in [v, v * 4, 999, 0] { let h = AvfHdr::new(n, last); avf_one(ctx, &b, &h, &evs, last, v, false, "3bv"); }
        for q in b'0'..=b'3' { for pre in [vec![], vec![u], vec![b'[', u, b'x'], vec![b'[', b'4', b'|']] {
            if pre.len() == 3 && pre[1..] == [b'0', b'x'] { continue; }
            let mut h = AvfHdr::new(3, last); h.quest = q; h.pre = pre; avf_one(ctx, &b, &h, &evs, last, v, false, "settings");
        } }
        if u > 1 { for n in 1..4 { let mut h = AvfHdr::new(3, last); h.pad = vec![u; n]; avf_one(ctx, &b, &h, &evs, last, v, true, "padding"); } }
        if u != b'|' { let mut h = AvfHdr::new(3, last); h.start = vec![u]; h.end = vec![b'e', u]; avf_one(ctx, &b, &h, &evs, last, v, false, "stamps"); }
        for t in [v as u32 * 10, v as u32 * 1000, 990 + v as u32 * 1000] { for comma in [false, true] { let mut h = AvfHdr::new(3, t); if comma { h.time = h.time.replace('.', ","); } avf_one(ctx, &b, &h, &evs, t, v, false, "time"); } }
        for (i, t) in texts.iter().enumerate() { if v == i { let mut h = AvfHdr::new(3, last); h.name = t.iter().cloned().filter(|c| *c != b'\r').collect(); h.gap = if v % 2 == 0 { vec![b'|'] } else { b"other||".to_vec() }; avf_one(ctx, &b, &h, &evs, last, v, true, "name"); } }
        // RMV
        let revs: Vec<Ev4> = { let mut e = evs.clone(); e[1].0 = 0; e[1].2 = e[0].2; e[1].3 = e[0].3; e };
        let mut hs: Vec<RmvHdr> = vec![];
        { let mut h = RmvHdr::new(); h.mode = u; hs.push(h); }
        { let mut h = RmvHdr::new(); h.nf = u; hs.push(h); }
        { let mut h = RmvHdr::new(); h.level = u % 4; h.props = 4 + v; hs.push(h); }
        { let mut h = RmvHdr::new(); h.version = vec![b'v'; v * 3]; h.result = [36, 37, 48, 100, 300, 35, 34, 3, 10][v % 9]; hs.push(h); }
        { let mut h = RmvHdr::new(); h.info = (0..v % 5).map(|i| vec![b'a' + i as u8; [v, 0, 255, 1, 17][i]]).collect(); h.preflags_present = v % 2 == 0; hs.push(h); }
        { let mut h = RmvHdr::new(); h.info[v % 4] = vec![u; v]; hs.push(h); }
        { let mut h = RmvHdr::new(); h.bbbv = format!("{:>3}", v * 3 % 1000).into_bytes(); h.stamp = format!("{:010}", v as u64 * 39_000_000).into_bytes(); hs.push(h); }
        { let mut h = RmvHdr::new(); h.bbbv = format!("{:03}", v).into_bytes(); h.noise = v % 5; h.end = 15 + u % 3; hs.push(h); }
        for h in hs { rmv_one(ctx, &b, &h, &revs, true, "fields"); }
        // MVF
        let s = mvf_samples(&evs).unwrap();
        let mut hs: Vec<MvfHdr> = vec![];
        for i in 0..7 { let mut h = MvfHdr::new(3, last); h.date[i] = u; hs.push(h); }
        for i in 0..9 { let mut h = MvfHdr::new(3, last); h.filler[i] = u; hs.push(h); }
        { let mut h = MvfHdr::new(3, last); h.mode = u; h.level = 1 + u % 4; hs.push(h); }
        { let mut h = MvfHdr::new(3, last); h.hun = u; h.sec = v as u16 * 257; h.bbbv = (v * 256 + 255 - v) as u16; hs.push(h); }
        { let mut h = MvfHdr::new(3, last); h.name = vec![u; v]; hs.push(h); }
        for h in hs { mvf_one(ctx, &b, &h, &s, true, "fields"); }
    });
    // every MVF permutation
    let s = [MRec { l: true, r: false, m: false, y: 0b1_0101_0110, x: 0b0_1100_1011, t: 677_880 }, MRec { l: false, r: true, m: true, y: 0b0_1010_1001, x: 0b1_0011_0100, t: 345_110 }, MRec { l: true, r: true, m: false, y: 511, x: 0, t: 1_023_990 }, MRec { l: true, r: true, m: false, y: 0, x: 511, t: 0 }];
    ctx.par(65536, |k| { let mut h = MvfHdr::new(3, 0); h.leading = k as u16; mvf_one(ctx, &b, &h, &s, false, "permutation"); });
    // event values: all times and positions at the boundaries of each field
    let grid: Vec<usize> = vec![0, 1, 15, 16, 31, 32, 47, 48, 127, 128, 200, 255, 256, 257, 300, 511];
    let times: Vec<u32> = vec![0, 10, 990, 1000, 9_990, 253_990, 254_000, 254_990, 255_000, 256_000, 511_000, 512_000, 1_022_990, 1_023_990];
    let wide: Vec<u32> = vec![65_533_990, 65_534_000, 16_000_000, 1_024_000];
    ctx.par(grid.len() * grid.len(), |i| {
        let (y, x) = (grid[i / grid.len()], grid[i % grid.len()]);
        for t in times.iter().chain(&wide) {
            for e in ["mv", "lc", "lr", "rc", "rr", "mc", "mr"] {
                let evs: Vec<Ev4> = vec![(0, "lc", 0, 0), (0, "lr", 0, 0), (*t, e, y, x), (*t, "mv", x, y)];
                for v in 0..2 { avf_one(ctx, &b, &AvfHdr::new(3, 0), &evs, 0, v, false, "event"); }
                if *t >> 24 == 0 {
                    let outside = |y: usize, x: usize| if y >= 32 || x >= 48 { (32, 48) } else { (y, x) };
                    let (p, q) = (outside(y, x), outside(x, y));
                    // the file holds the raw position, the loaded event the position or "outside"
                    let raw: Vec<Ev4> = evs[1..].to_vec();
                    let bytes = encode_rmv(&b, &RmvHdr::new(), &[], &raw);
                    let want: Vec<Ev4> = vec![evs[0], evs[1], (*t, e, p.0, p.1), (*t, "mv", q.0, q.1)];
                    run_one(ctx, Fmt::Rmv, &b, &bytes, &Want { level: 6, mode: 0, bbbv: 12, rtime: *t, software: b"Viennasweeper", player: b"name", country: b"AT", start: b"1382834716", end: b"", nf: false }, &want, None, "event");
                }
                if times.contains(t) { for st in 0..8usize { for st2 in [st ^ 1, st ^ 2, st ^ 4, 7 - st, st] {
                    let rec = |s: usize, y: usize, x: usize, t: u32| MRec { l: s & 1 != 0, r: s & 2 != 0, m: s & 4 != 0, y, x, t };
                    if e == "mv" { mvf_one(ctx, &b, &MvfHdr::new(3, 0), &[rec([1, 2, 4, 0][st % 4], x, y, 0), rec(st, y, x, *t), rec(st2, y, x, *t), rec(st, 0, 0, *t)], false, "event"); }
                } } }
            }
        }
    });
}

// ---------------------------------------------------------------- C20
fn corpus(th: bool) -> Vec<(Fmt, Vec<u8>)> {
    let mut out = vec![];
    let b1 = Arc::new(from_mask(2, 3, 0b010_001));
    let b2 = Arc::new(from_mask(1, 3, 0b100));
    let b3 = Arc::new(from_mask(3, 3, 0b100_000_000));
    let mut games: Vec<(Arc<B>, Vec<PEv>)> = vec![];
    for b in [&b1, &b2, &b3] { for g in simple_games(b, 16) { games.push((b.clone(), g)); } }
    // flags, moves outside, a double click
    let (oy, ox) = px(&b1, 16, None, false);
    let mi = mine_list(&b1)[0];
    games.push((b1.clone(), { let mut v: Vec<PEv> = vec![("lc", 0, 33), ("lr", 0, 33), ("rc", mi.0 * 16, mi.1 * 16), ("rr", mi.0 * 16, mi.1 * 16), ("mv", oy, ox), ("lc", 0, 33), ("rc", 0, 33), ("lr", 0, 33), ("rr", 0, 33)]; v.extend(simple_games(&b1, 16)[0].clone()); v }));
    let k = if th { games.len() } else { 6 };
    let n = games.len();
    for (i, (b, g)) in games.into_iter().enumerate() {
        if i + k < n { continue; }
        let evs = timed(&g, 2);
        let bbbv = stats(&b).bbbv;
        let last = evs.last().unwrap().0;
        let mut m = Meta { completed: true, software: b"ab".to_vec(), player: b"p".to_vec(), start: b"1".to_vec(), end: b"2".to_vec(), ..Default::default() };
        if i % 2 == 0 { m.checksum = Some([3; 32]); }
        out.push((Fmt::Evf, encode(&b, 16, bbbv, last, &m, &evs)));
        let mut h = AvfHdr::new(bbbv, last); h.start = b"1.2".to_vec(); h.end = b"3".to_vec(); h.name = b"N".to_vec();
        out.push((Fmt::Avf, encode_avf(&b, &h, &evs, i)));
        let mut h = RmvHdr::new(); h.noise = i % 3; h.result = if i % 2 == 0 { 36 } else { 20 };
        out.push((Fmt::Rmv, encode_rmv(&b, &h, if i % 2 == 1 { &[(0, 0)] } else { &[] }, &evs[1..])));
        out.push((Fmt::Mvf, encode_mvf(&b, &MvfHdr::new(bbbv, last), &mvf_samples(&evs).unwrap_or_default())));
    }
    // pre-flag events and the remaining codes of the native format
    out.push((Fmt::Evf, encode(&b1, 16, 3, 30, &Meta::default(), &[(0, "pf", 0, 0), (0, "lc", 0, 33), (5, "cc", 0, 33), (9, "lr", 0, 33), (10, "lr", 0, 33), (20, "mc", 2, 3), (30, "mr", 20, 3)])));
    // an 8x8 expert-style header: fixed level
    let b8 = { let mut m = vec![vec![false; 8]; 8]; for i in 0..8 { m[i][(i * 3) % 8] = true; } m[0][7] = true; m[7][0] = true; number(&m) };
    let g = simple_games(&b8, 16);
    if th { let mut h = AvfHdr::new(5, 100); h.custom = false; out.push((Fmt::Avf, encode_avf(&b8, &h, &timed(&g[0], 1), 0))); }
    let mut x: Vec<(Fmt, Vec<u8>)> = out.into_iter().filter(|x| !x.1.is_empty()).collect();
    x.dedup();
    x
}
/// load; if that succeeds analyse, run every event analysis and read everything everywhere
fn use_all(f: Fmt, bytes: &[u8]) -> bool {
    let mut d = match parse(f, bytes) { Ok(d) => d, Err(_) => return false };
    d.analyse();
    d.analyse_for_features(vec!["high_risk_guess", "jump_judge", "needless_guess", "mouse_trace", "vision_transfer", "survive_poss", "super_fl_local"]);
    let _ = d.is_valid();
    let n = d.video_action_state_recorder.len();
    let look = |d: &mut Dv| {
        let g = d.get_game_board();
        assert!(g.len() == d.height && g[0].len() == d.width, "visible board has the wrong size");
        let p = d.get_game_board_poss();
        assert!(p.len() == d.height && p[0].len() == d.width, "probability board has the wrong size");
        let _ = (d.get_x_y(), d.get_time(), d.get_left(), d.get_right(), d.get_double(), d.get_cl(), d.get_flag(), d.get_path(), d.get_mouse_state());
        let _ = (d.get_etime(), d.get_bbbv_s(), d.get_bbbv_solved(), d.get_stnb(), d.get_rqp(), d.get_qg(), d.get_ce(), d.get_ce_s(), d.get_ioe(), d.get_thrp(), d.get_corr(), d.get_op_solved(), d.get_isl_solved(), d.get_rtime(), d.get_rtime_ms(), d.get_pix_size());
    };
    d.set_video_playing_pix_size(20);
    for t in [f64::NEG_INFINITY, -1.0, 0.0, 0.01, 1.0, f64::INFINITY] { d.set_current_time(t); look(&mut d); }
    let step = 1 + n / 12;
    for i in (0..n).rev().step_by(step) { d.set_current_event_id(i).unwrap(); look(&mut d); }
    true
}
fn attempt(ctx: &Ctx, f: Fmt, bytes: &[u8], what: &dyn Fn() -> String, ok: &std::sync::atomic::AtomicU64) {
    let case = || format!("{:?} {}: bytes {:?}", f, what(), bytes);
    match call(&case, || use_all(f, bytes)) {
        Err(e) => ctx.violation(&format!("{:?}-{}", f, e.split(':').take(2).collect::<Vec<_>>().join(":")), || format!("{}: {}", case(), e)),
        Ok(true) => { ok.fetch_add(1, std::sync::atomic::Ordering::Relaxed); }
        Ok(false) => {}
    }
}
/// everything that can be seen on a recording object that holds no recording any more
fn blank(d: &mut Dv) -> Vec<String> {
    let s = &d.static_params;
    let (mut o, m) = (vec![], &d.minesweeper_board);
    o.push(format!("size {}x{} mines {} level {} pixels {} board {:?}", d.height, d.width, d.mine_num, d.level, d.cell_pixel_size, d.board));
    o.push(format!("game {:?} {:?} {} {} {} {} {} {:?} {:?} {:?}", m.board, m.game_board, m.left, m.right, m.double, m.ce, m.flag, m.bbbv_solved, m.mouse_state, m.game_board_state));
    o.push(format!("completed {} official {} fair {} no-flag {} phase {:?} events {} boards {} time {} at {}", d.is_completed, d.is_offical, d.is_fair, d.nf, d.game_board_state, d.video_action_state_recorder.len(), d.game_board_stream.len(), d.current_time, d.current_event_id));
    o.push(format!("start {:?} end {:?} checksum {:?} analysable {} offset {}", d.start_time, d.end_time, d.checksum, d.can_analyse, d.offset));
    o.push(format!("board figures {:?}", [s.bbbv, s.op, s.isl, s.hizi, s.cell0, s.cell1, s.cell2, s.cell3, s.cell4, s.cell5, s.cell6, s.cell7, s.cell8, s.fps]));
    o.push(format!("seen {:?} {:?} {:?} {:?} {:?} {:?} {:?}", d.get_game_board(), d.get_time(), d.get_rtime(), d.get_rtime_ms(), d.get_video_start_time(), d.get_video_end_time(), d.get_pix_size()));
    o.push(format!("counted {:?} {:?} {:?} {:?} {:?} {:?} {:?}", d.get_left(), d.get_right(), d.get_double(), d.get_cl(), d.get_flag(), d.get_path(), d.get_mouse_state()));
    o.push(format!("derived {:?} {:?} {:?} {:?} {:?} {:?} {:?} {:?} {:?}", d.get_left_s(), d.get_cl_s(), d.get_etime(), d.get_bbbv_s(), d.get_bbbv_solved(), d.get_ce(), d.get_ioe(), d.get_checksum(), d.get_raw_data()));
    o
}
/// a loaded recording, at any stage of its use, then reset: nothing of the recording is left except the identity
pub fn reset_loaded(ctx: &Ctx, th: bool) {
    let cs = corpus(th);
    ctx.par(cs.len() * 4, |k| {
        let ((f, bytes), stage) = (&cs[k / 4], k % 4);
        for (r, c, pix) in [(1usize, 2usize, 16u8), (3, 3, 7), (8, 8, 16), (16, 30, 40)] {
            let case = || format!("{:?} recording {:?} {} then reset to {}x{} with {} pixels", f, bytes, ["parsed", "analysed", "shown half way", "shown to the end"][stage], r, c, pix);
            let got = call(&case, || {
                let mut d = match parse(*f, bytes) { Ok(d) => d, Err(_) => return None };
                let id = |d: &Dv| (d.player_designator.clone(), d.race_designator.clone(), d.uniqueness_designator.clone(), d.country.clone(), d.device_uuid.clone(), d.mode);
                if stage > 0 { d.analyse(); }
                if stage > 1 { d.analyse_for_features(vec!["high_risk_guess", "survive_poss"]); let t = d.get_rtime().unwrap(); d.set_current_time(if stage == 2 { t / 2.0 } else { t }); let _ = d.get_game_board_poss(); }
                let before = id(&d);
                d.reset(r, c, pix);
                let mut e = Dv::default();
                e.reset(r, c, pix);
                let (a, b) = (blank(&mut d), blank(&mut e));
                if let Some(i) = (0..a.len()).find(|i| a[*i] != b[*i]) { return Some(format!("{} -- want {}", a[i], b[i])); }
                if d.get_game_board() != vec![vec![10; c]; r] { return Some(format!("visible board {:?}", d.get_game_board())); }
                if id(&d) != before { return Some("player, device or mode not kept".into()); }
                None
            });
            match got { Err(e) => ctx.violation("loaded-reset-panic", || format!("{}: {}", case(), e)), Ok(Some(x)) => ctx.violation("loaded-reset", || format!("{}: {}", case(), x)), Ok(None) => {} }
        }
        ctx.add(1, 4, 1);
    });
    ctx.note("every recording of the four formats in the corpus, reset after parsing, analysing or showing it, compared with a new object");
}
pub fn c20(ctx: &Ctx) {
    let th = ctx.thorough;
    set_hang_limit_ms(20_000);
    let cs = corpus(th);
    let ok = std::sync::atomic::AtomicU64::new(0);
    // intact recordings must load, otherwise damage proves nothing
    for (f, b) in &cs { let c = || format!("{:?} intact {:?}", f, b); match call(&c, || use_all(*f, b)) { Ok(true) => {} Ok(false) => ctx.violation("intact", || c()), Err(e) => ctx.violation("intact", || format!("{}: {}", c(), e)) } }
    for f in FMTS {
        attempt(ctx, f, &[], &|| "empty file".into(), &ok);
        ctx.par(65536, |k| { let b = [k as u8, (k >> 8) as u8]; if b[1] == 0 { attempt(ctx, f, &b[..1], &|| "one byte".into(), &ok); } attempt(ctx, f, &b, &|| "two bytes".into(), &ok); });
        ctx.add(65793, 65793, 0);
    }
    for (ci, (f, base)) in cs.iter().enumerate() {
        ctx.par(base.len(), |i| {
            attempt(ctx, *f, &base[..i], &|| format!("recording {} truncated to {}", ci, i), &ok);
            let mut b = base.clone();
            for v in 0..=255u8 { if v == base[i] { continue; } b[i] = v; attempt(ctx, *f, &b, &|| format!("recording {} byte {} set to {}", ci, i, v), &ok); }
            // damage followed by truncation, and a lost or doubled byte
            for cut in [base.len() - 1, (i + base.len()) / 2] { if cut > i { for v in [0u8, 1, 255] { b[i] = v; attempt(ctx, *f, &b[..cut], &|| format!("recording {} byte {} set to {} and truncated to {}", ci, i, v, cut), &ok); } } }
            let mut l = base.clone(); l.remove(i);
            attempt(ctx, *f, &l, &|| format!("recording {} byte {} lost", ci, i), &ok);
            let mut l = base.clone(); l.insert(i, base[i]);
            attempt(ctx, *f, &l, &|| format!("recording {} byte {} doubled", ci, i), &ok);
            ctx.add(265, 265, 0);
        });
    }
    // two damaged bytes: every pair of positions with boundary values (quick: one small recording per format)
    let vals: &[u8] = if th { &[0, 1, 2, 3, 5, 8, 10, 15, 17, 32, 64, 127, 128, 254, 255] } else { &[0, 1, 3, 16, 128, 255] };
    for f in FMTS {
        let mut c: Vec<&Vec<u8>> = cs.iter().filter(|x| x.0 == f).map(|x| &x.1).collect();
        c.sort_by_key(|x| x.len());
        for base in c.into_iter().take(if th { 3 } else { 1 }) {
            ctx.par(base.len(), |i| for j in i + 1..base.len() {
                let mut b = base.clone();
                for v in vals { for w in vals { b[i] = *v; b[j] = *w; attempt(ctx, f, &b, &|| format!("bytes {} and {} set to {} and {}", i, j, v, w), &ok); } }
                ctx.add((vals.len() * vals.len()) as u64, 2, 0);
            });
        }
    }
    let n = ok.load(std::sync::atomic::Ordering::Relaxed);
    ctx.nontrivial.fetch_add(n, std::sync::atomic::Ordering::Relaxed);
    ctx.count("damaged_files_that_still_load", n);
    ctx.count("base_recordings", cs.len() as u64);
    let _ = std::fs::remove_dir_all(scratch());
    ctx.note(format!("{} base recordings in four formats: every truncation, every value of every byte, every lost or doubled byte, damage with truncation, every pair of positions with {} boundary values; every file of up to two bytes; each loadable file analysed, all event analyses run, every event and several times visited", cs.len(), vals.len()));
    ctx.sample(|| format!("{:?} byte 6 set to 0 (cell size): rejected", cs[0].0));
}
