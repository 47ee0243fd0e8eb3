//! C17: save, load, replay. Independent encoder of the documented EVF v0 layout.
use crate::ctx::*;
use crate::p_video::*;
use crate::refgame::*;
use crate::refm::*;
use crate::refrec::*;
use ms_toollib::*;
use std::sync::Arc;

pub fn scratch() -> String {
    let base = if std::fs::metadata("/dev/shm").map(|m| m.is_dir()).unwrap_or(false) { "/dev/shm".to_string() } else { format!("{VERIF}/work") };
    let d = format!("{base}/vp_mc_{}", std::process::id());
    let _ = std::fs::create_dir_all(&d);
    d
}
pub fn scratch_file(ext: &str) -> String {
    thread_local!(static N: u64 = { static C: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0); C.fetch_add(1, std::sync::atomic::Ordering::SeqCst) });
    format!("{}/t{}.{}", scratch(), N.with(|n| *n), ext)
}
#[derive(Clone, Debug, Default)]
pub struct Meta {
    pub completed: bool, pub official: bool, pub fair: bool, pub mode: u16,
    pub software: Vec<u8>, pub player: Vec<u8>, pub race: Vec<u8>, pub uniq: Vec<u8>, pub start: Vec<u8>, pub end: Vec<u8>, pub country: Vec<u8>, pub device: Vec<u8>,
    pub checksum: Option<[u8; 32]>,
}
pub fn code(e: &str) -> u8 { match e { "mv" => 1, "lc" => 2, "lr" => 3, "rc" => 4, "rr" => 5, "mc" => 6, "mr" => 7, "pf" => 8, "cc" => 9, _ => panic!("event {e}") } }
/// the documented byte layout
pub fn encode(b: &B, pix: usize, bbbv: usize, rtime: u32, m: &Meta, evs: &[(u32, &str, usize, usize)]) -> Vec<u8> {
    let mut o = vec![0u8];
    o.push((m.completed as u8) << 7 | (m.official as u8) << 6 | (m.fair as u8) << 5);
    o.push(b.len() as u8);
    o.push(b[0].len() as u8);
    o.extend((mines(b) as u16).to_be_bytes());
    o.push(pix as u8);
    o.extend(m.mode.to_be_bytes());
    o.extend((bbbv as u16).to_be_bytes());
    o.extend(&rtime.to_be_bytes()[1..]);
    for s in [&m.software, &m.player, &m.race, &m.uniq, &m.start, &m.end, &m.country, &m.device] { o.extend(s); o.push(0); }
    let bits: Vec<bool> = b.iter().flatten().map(|v| *v == -1).collect();
    for ch in bits.chunks(8) { let mut x = 0u8; for (i, v) in ch.iter().enumerate() { if *v { x |= 0x80 >> i; } } o.push(x); }
    for (t, e, y, x) in evs {
        o.push(code(e));
        o.extend(&t.to_be_bytes()[1..]);
        o.extend((*x as u16).to_be_bytes());
        o.extend((*y as u16).to_be_bytes());
    }
    match m.checksum { Some(c) => { o.push(0); o.extend(c); } None => o.push(255) }
    o
}
fn near(a: f64, b: f64) -> bool { (a - b).abs() <= 1e-9 * (1.0 + a.abs().max(b.abs())) }
pub fn level_of(b: &B) -> u8 { match (b.len(), b[0].len(), mines(b)) { (8, 8, 10) => 3, (16, 16, 40) => 4, (16, 30, 99) => 5, _ => 6 } }
/// compares a parsed (not yet analysed) recording with what was encoded
pub fn compare_parsed(d: &BaseVideo<Vec<Vec<i32>>>, b: &B, pix: usize, bbbv: usize, rtime: u32, m: &Meta, evs: &[(u32, &str, usize, usize)]) -> Option<(String, String)> {
    let bad = |k: &str, t: String| Some((k.to_string(), t));
    if d.board != *b { return bad("board", format!("board {} want {}", show(&d.board), show(b))); }
    if (d.height, d.width, d.mine_num, d.level, d.cell_pixel_size as usize, d.mode, d.static_params.bbbv) != (b.len(), b[0].len(), mines(b), level_of(b), pix, m.mode, bbbv) {
        return bad("header", format!("{:?}", (d.height, d.width, d.mine_num, d.level, d.cell_pixel_size, d.mode, d.static_params.bbbv)));
    }
    if (d.is_completed, d.is_offical, d.is_fair) != (m.completed, m.official, m.fair) { return bad("flags", format!("{:?}", (d.is_completed, d.is_offical, d.is_fair))); }
    if d.get_rtime_ms().ok() != Some(rtime) || !near(d.get_rtime().unwrap_or(-1.0), rtime as f64 / 1000.0) { return bad("rtime", format!("{:?} want {}", d.get_rtime_ms(), rtime)); }
    for (n, a, w) in [("software", &d.software, &m.software), ("player", &d.player_designator, &m.player), ("race", &d.race_designator, &m.race), ("uniqueness", &d.uniqueness_designator, &m.uniq), ("start", &d.start_time, &m.start), ("end", &d.end_time, &m.end), ("country", &d.country, &m.country), ("device", &d.device_uuid, &m.device)] {
        if a != w { return bad("metadata", format!("{} {:?} want {:?}", n, a, w)); }
    }
    if d.get_checksum().ok() != Some(m.checksum.unwrap_or([0; 32])) { return bad("checksum", format!("{:?}", d.get_checksum())); }
    let got = &d.video_action_state_recorder;
    if got.len() != evs.len() { return bad("events", format!("{} events want {}", got.len(), evs.len())); }
    for (i, (g, w)) in got.iter().zip(evs).enumerate() {
        if g.mouse != w.1 || !near(g.time, w.0 as f64 / 1000.0) || g.y as usize != w.2 || g.x as usize != w.3 { return bad("event", format!("event {}: {} {} ({},{}) want {:?}", i, g.mouse, g.time, g.y, g.x, w)); }
    }
    None
}
/// compares an analysed recording with the reference recorder
pub fn compare_analysed(d: &mut BaseVideo<Vec<Vec<i32>>>, r: &Rec) -> Option<(String, String)> {
    let bad = |k: &str, t: String| Some((k.to_string(), t));
    if d.is_completed != (r.g.ph == Ph::Win) { return bad("result", format!("is_completed {} want {}", d.is_completed, r.g.ph == Ph::Win)); }
    let s = stats(&r.g.b);
    let p = &d.static_params;
    let got = (p.op, p.isl, [p.cell0, p.cell1, p.cell2, p.cell3, p.cell4, p.cell5, p.cell6, p.cell7, p.cell8]);
    if got != (s.op, s.isl, s.cells) { return bad("statistics", format!("{:?}", got)); }
    for (i, (e, w)) in d.video_action_state_recorder.iter().zip(&r.evs).enumerate() {
        let k = &e.key_dynamic_params;
        if (k.left, k.right, k.double, k.ce, k.flag, k.bbbv_solved) != (w.left, w.right, w.double, w.ce, w.flag, w.solved) {
            return bad("replayed-counters", format!("event {}: {:?} want {:?}", i, (k.left, k.right, k.double, k.ce, k.flag, k.bbbv_solved), (w.left, w.right, w.double, w.ce, w.flag, w.solved)));
        }
        if !near(e.path, w.path) { return bad("replayed-path", format!("event {} path {} want {}", i, e.path, w.path)); }
        if !same_m(w.m, e.mouse_state) { return bad("replayed-mouse", format!("event {} {:?} want {:?}", i, e.mouse_state, w.m)); }
        let st = |id: usize| d.game_board_stream.get(id).map(|g| g.game_board.clone());
        if st(e.prior_game_board_id) != Some(w.before.clone()) { return bad("replayed-prior", format!("event {} board {:?} want {}", i, st(e.prior_game_board_id).map(|b| show(&b)), show(&w.before))); }
        if st(e.next_game_board_id) != Some(w.after.clone()) { return bad("replayed-next", format!("event {} board {:?} want {}", i, st(e.next_game_board_id).map(|b| show(&b)), show(&w.after))); }
    }
    let last = r.evs.last().unwrap();
    let (t0, t1) = (d.get_video_start_time().unwrap(), d.get_video_end_time().unwrap());
    if !near(t0, -(r.start as f64) / 1000.0) || !near(t1, (last.t as f64 - r.start as f64) / 1000.0) { return bad("span", format!("replay from {} to {} want -{} ms to {} ms", t0, t1, r.start, last.t - r.start)); }
    if d.get_rtime_ms().ok() != Some(r.rtime) { return bad("rtime", format!("{:?} want {}", d.get_rtime_ms(), r.rtime)); }
    d.set_current_time(t1 + 1.0);
    if d.get_game_board() != last.after { return bad("final-board", format!("final board {} want {}", show(&d.get_game_board()), show(&last.after))); }
    if (d.get_left(), d.get_right(), d.get_double(), d.get_flag(), d.get_ce().unwrap_or(99), d.get_bbbv_solved().unwrap_or(99)) != (last.left, last.right, last.double, last.flag, last.ce, last.solved) { return bad("final-counters", "counters at the end of the replay differ".into()); }
    if !near(d.get_time(), (last.t - r.start) as f64 / 1000.0) { return bad("final-time", format!("{}", d.get_time())); }
    None
}
pub fn load(bytes: &[u8]) -> EvfVideo { let f = scratch_file("evf"); std::fs::write(&f, bytes).unwrap(); EvfVideo::new(&f) }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Sum { None, Before, After, Twice, AfterRegen, BeforeTwiceRegen }
pub const SUMS: [Sum; 6] = [Sum::None, Sum::Before, Sum::After, Sum::Twice, Sum::AfterRegen, Sum::BeforeTwiceRegen];
/// set metadata, generate, load, analyse, save again
fn roundtrip(v: &mut Live, r: &Rec, meta: &Meta, sum: Sum) -> Option<(String, String)> {
    let bad = |k: &str, t: String| Some((k.to_string(), t));
    let mut m = meta.clone();
    let ok = [v.set_mode(m.mode), v.set_is_offical(m.official), v.set_is_fair(m.fair), v.set_software(m.software.clone()), v.set_player_designator(m.player.clone()), v.set_race_designator(m.race.clone()), v.set_uniqueness_designator(m.uniq.clone()), v.set_country(m.country.clone()), v.set_device_uuid(m.device.clone())].iter().all(|x| x.is_ok());
    if !ok { return bad("settings", "a setting was refused after the game".into()); }
    m.completed = r.g.ph == Ph::Win;
    m.start = r.wall_start.to_string().into_bytes();
    m.end = r.wall_end.to_string().into_bytes();
    let (c1, mut c2) = ([7u8; 32], [0u8; 32]);
    for (i, x) in c2.iter_mut().enumerate() { *x = (i * 9 + 200) as u8; }
    let mut res = vec![];
    match sum {
        Sum::None => { v.generate_evf_v0_raw_data(); }
        Sum::Before => { res.push(v.set_checksum(c1)); v.generate_evf_v0_raw_data(); m.checksum = Some(c1); }
        Sum::After => { v.generate_evf_v0_raw_data(); res.push(v.set_checksum(c2)); m.checksum = Some(c2); }
        Sum::Twice => { v.generate_evf_v0_raw_data(); res.push(v.set_checksum(c1)); res.push(v.set_checksum(c2)); m.checksum = Some(c2); }
        Sum::AfterRegen => { v.generate_evf_v0_raw_data(); res.push(v.set_checksum(c2)); v.generate_evf_v0_raw_data(); m.checksum = Some(c2); }
        Sum::BeforeTwiceRegen => { res.push(v.set_checksum(c1)); res.push(v.set_checksum(c2)); v.generate_evf_v0_raw_data(); v.generate_evf_v0_raw_data(); m.checksum = Some(c2); }
    }
    if res.iter().any(|x| x.is_err()) { return bad("checksum", "checksum refused after the game".into()); }
    if v.get_checksum().ok() != Some(m.checksum.unwrap_or([0; 32])) { return bad("checksum", format!("reported checksum {:?} want {:?}", v.get_checksum(), m.checksum)); }
    let raw = v.get_raw_data().unwrap();
    let evs: Vec<(u32, &str, usize, usize)> = r.evs.iter().map(|e| (e.t, e.e, e.y, e.x)).collect();
    let bbbv = stats(&r.g.b).bbbv;
    let want = encode(&r.g.b, r.pix, bbbv, r.rtime, &m, &evs);
    if raw != want { return bad("bytes", format!("saved bytes differ at {:?}: {:?} want {:?}", raw.iter().zip(&want).position(|(a, b)| a != b), tail(&raw), tail(&want))); }
    let mut e = load(&raw);
    match e.parse_video() { Err(x) => return bad("load", format!("loading fails: {:?}", x)), Ok(()) => {} }
    if let Some(x) = compare_parsed(&e.data, &r.g.b, r.pix, bbbv, r.rtime, &m, &evs) { return Some(x); }
    e.data.analyse();
    if let Some(x) = compare_analysed(&mut e.data, r) { return Some(x); }
    e.data.generate_evf_v0_raw_data();
    let again = e.data.get_raw_data().unwrap();
    if again != raw { return bad("resave", format!("saving the loaded recording again differs: {:?} then {:?}", tail(&raw), tail(&again))); }
    None
}
fn tail(v: &[u8]) -> String { format!("len {} ..{:?}", v.len(), &v[v.len().saturating_sub(48)..]) }
pub fn one(ctx: &Ctx, b: &Arc<B>, pix: usize, evs: &[PEv], pat: Pattern, meta: &Meta, sum: Sum) {
    let case = || format!("board {} pixels {} clock steps {}/{} us events {} meta {:?} checksum {:?}", show(b), pix, pat.a, pat.b, show_px(&evs[..evs.len().min(300)]), meta, sum);
    let r = call(&case, || {
        let (mut v, r, _) = play(b, pix, evs, pat);
        if !r.over() || v.video_action_state_recorder.len() != r.evs.len() || !same_ph(r.g.ph, v.game_board_state) { return None; }
        roundtrip(&mut v, &r, meta, sum)
    });
    crate::clock::release();
    match r {
        Err(e) => ctx.violation("panic", || format!("{}: {}", case(), e)),
        Ok(Some((k, d))) => ctx.violation(&k, || format!("{}: {}", case(), d)),
        Ok(None) => {}
    }
}
pub fn strings() -> Vec<Vec<u8>> {
    vec![vec![], b"a".to_vec(), "元3.2".as_bytes().to_vec(), vec![255, 1, 128], vec![b'x'; 300], b"Arbiter".to_vec(), vec![32], b"1\n2".to_vec()]
}
pub fn metas() -> Vec<Meta> {
    let mut v = vec![];
    let base = Meta { software: "元3.2".as_bytes().to_vec(), player: b"p".to_vec(), race: b"r".to_vec(), uniq: b"u".to_vec(), country: b"CN".to_vec(), device: vec![b'd'; 32], ..Default::default() };
    for mode in [0u16, 1, 5, 10, 255, 256, 65535] { for fl in 0..4 { let mut m = base.clone(); m.mode = mode; m.official = fl & 1 != 0; m.fair = fl & 2 != 0; v.push(m); } }
    let ss = strings();
    for i in 0..6 { for j in i..6 { for (a, s) in ss.iter().enumerate() { for (c, t) in ss.iter().enumerate() {
        if i == j && a != c { continue; }
        let mut m = base.clone();
        for (k, x) in [(i, s), (j, t)] { *[&mut m.software, &mut m.player, &mut m.race, &mut m.uniq, &mut m.country, &mut m.device][k] = x.clone(); }
        v.push(m);
    } } } }
    v
}
/// simple complete games on any board: click a mine; open everything row by row
pub fn simple_games(b: &B, pix: usize) -> Vec<Vec<PEv>> {
    let mut out = vec![];
    let click = |p: P, far: bool| { let (y, x) = px(b, pix, Some(p), far); vec![("lc", y, x), ("lr", y, x)] };
    let cells = crate::p_game::cells_of(b);
    if let Some(m) = cells.iter().rev().find(|p| b[p.0][p.1] == -1) { out.push(click(*m, true)); }
    let mut w = vec![];
    let mut g = vec![vec![10; b[0].len()]; b.len()];
    for p in &cells {
        if b[p.0][p.1] == -1 || g[p.0][p.1] != 10 { continue; }
        open_cells(b, &mut g, &[*p]);
        w.extend(click(*p, true));
    }
    if !w.is_empty() { out.push(w); }
    out
}
pub fn c17(ctx: &Ctx) {
    let th = ctx.thorough;
    let ms = metas();
    let pats: Vec<Pattern> = vec![Pattern { a: 600, b: 1400, back: false }, Pattern { a: 0, b: 0, back: true }, Pattern { a: 17_000, b: 251_500, back: false }];
    // every game of the bounded exploration that ends
    run_jobs(ctx, &vjobs(th), &|b, pix, path| {
        let mut r = Rec::new(b.clone(), pix);
        for (i, m) in path.iter().enumerate() { let (n, w) = pats[0].at(i);
            // "pf" stands for flags set before recording began, so no button is down when it occurs
            if m.0 == "pf" && r.g.m != M::UpUp { return true; }
            let _ = r.step(m.0, m.1, m.2, n, w);
        }
        if !r.over() { return true; }
        let h = path.len() + path.iter().map(|p| p.1 * 3 + p.2 * 5 + p.0.as_bytes()[0] as usize).sum::<usize>();
        for k in 0..if th { 6 } else { 2 } { one(ctx, b, pix, path, pats[(h + k) % 3], &ms[(h * 31 + k * 7) % ms.len()], SUMS[(h + k) % 6]); }
        ctx.nontrivial.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        true
    });
    // every layout of small shapes (bit packing), every checksum order
    let mut lay: Vec<(usize, usize, u64)> = vec![];
    for (r, c) in shapes(1, if th { 10 } else { 9 }) { for m in 0..1u64 << (r * c) { lay.push((r, c, m)); } }
    ctx.par(lay.len(), |i| {
        let (r, c, m) = lay[i];
        let b = Arc::new(from_mask(r, c, m));
        let pix = [1usize, 16, 255][i % 3];
        for (k, g) in simple_games(&b, pix).iter().enumerate() { one(ctx, &b, pix, g, pats[i % 3], &ms[i % ms.len()], SUMS[(i + k) % 6]); ctx.add(1, g.len() as u64, 1); }
    });
    // every metadata combination x every checksum order
    let b = Arc::new(from_mask(2, 3, 0b010_001));
    let games = simple_games(&b, 16);
    ctx.par(ms.len(), |i| for s in SUMS { for g in &games { one(ctx, &b, 16, g, pats[0], &ms[i], s); ctx.add(1, g.len() as u64, 1); } });
    // sizes: standard levels, limits of the format
    let mut big: Vec<B> = vec![];
    for (r, c) in [(8usize, 8usize), (16, 16), (16, 30), (30, 16), (9, 9), (1, 255), (255, 1), (24, 30)] { for (_, m) in lattice(r, c, 0) { big.push(number(&m)); } }
    for (r, c, k) in [(8usize, 8usize, 10usize), (16, 16, 40), (16, 30, 99), (16, 30, 300), (2, 200, 257), (255, 255, 6000), (255, 255, 65000), (250, 200, 0)] {
        let mut m = vec![vec![false; c]; r];
        let mut x = 12345u64;
        let mut n = 0;
        while n < k { x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); let i = (x >> 33) as usize % (r * c); if !m[i / c][i % c] { m[i / c][i % c] = true; n += 1; } }
        big.push(number(&m));
    }
    let big: Vec<Arc<B>> = big.into_iter().map(Arc::new).collect();
    let nb = big.len();
    ctx.par(nb, |i| {
        let b = &big[i];
        let huge = b.len() * b[0].len() > 2000;
        for pix in [1usize, 20, 255] { for g in simple_games(b, pix) {
            let g = if huge && g.len() > 60 { let mut h = g[..40].to_vec(); let c = crate::p_game::cells_of(b).into_iter().find(|p| b[p.0][p.1] == -1).map(|p| px(b, pix, Some(p), true)); if let Some((y, x)) = c { h.push(("lc", y, x)); h.push(("lr", y, x)); } h } else { g };
            one(ctx, b, pix, &g, pats[i % 3], &ms[i % ms.len()], SUMS[i % 6]);
            ctx.add(1, g.len() as u64, 1);
        } }
    });
    // times up to the 24-bit limit of the format
    for t in [255_000u64, 256_000, 65_535_000, 65_536_000, 5_000_000_000, 16_777_215_000] {
        let b = Arc::new(from_mask(1, 3, 0b010));
        for g in simple_games(&b, 16) {
            let n = g.len() as u64;
            for p in [Pattern { a: 0, b: t / (n / 2).max(1), back: false }, Pattern { a: 0, b: (t - 500) / (n / 2).max(1), back: false }] { one(ctx, &b, 16, &g, p, &ms[0], Sum::After); ctx.add(1, n, 1); }
        }
    }
    let _ = std::fs::remove_dir_all(scratch());
    ctx.note(format!("every ending game of the exploration used by C18 (fixpoint on 1x1..2x2); all layouts of shapes up to {} cells; {} metadata records x 6 checksum orders; {} standard and extreme boards; times to the 24-bit limit", if th { 10 } else { 9 }, ms.len(), nb));
    ctx.sample(|| format!("{:?}", encode(&from_mask(1, 2, 1), 16, 1, 5, &Meta::default(), &[(0, "lc", 0, 16), (5, "lr", 0, 16)])));
}
