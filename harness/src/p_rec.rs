//! C22: saving never overwrites; C23: settings per phase, reset equals fresh.
use crate::clock;
use crate::ctx::*;
use crate::p_evf::*;
use crate::p_video::*;
use crate::refgame::*;
use crate::refm::*;
use crate::refrec::*;
use ms_toollib::*;
use std::collections::BTreeMap;
use std::sync::Arc;

// ---------------------------------------------------------------- C22
/// name -> Some(content) for files, None for directories
fn tree(dir: &str) -> BTreeMap<String, Option<Vec<u8>>> {
    let mut m = BTreeMap::new();
    let mut todo = vec![dir.to_string()];
    while let Some(d) = todo.pop() {
        for e in std::fs::read_dir(&d).unwrap() {
            let e = e.unwrap();
            let p = e.path().to_string_lossy().to_string();
            let rel = p[dir.len() + 1..].to_string();
            if e.file_type().unwrap().is_dir() { m.insert(rel, None); todo.push(p); } else { m.insert(rel, Some(std::fs::read(&p).unwrap())); }
        }
    }
    m
}
fn finished(b: &Arc<B>, extra: usize) -> Live {
    let g = &simple_games(b, 16)[0];
    let mut h = g.clone();
    for _ in 0..extra { h.insert(1, ("mv", 3, 3)); }
    let (mut v, _, _) = play(b, 16, &h, Pattern { a: 1000, b: 1000, back: false });
    clock::release();
    v.generate_evf_v0_raw_data();
    v
}
pub fn c22(ctx: &Ctx) {
    let root = scratch();
    let b = Arc::new(from_mask(2, 2, 0b0001));
    let names = ["g", "g.x", "g(2)", "元 1", "sub/g", "g.evf", "(2)"];
    let kinds = if ctx.thorough { 4usize } else { 3 };
    // each of the first five candidate names is: absent, a file, (an empty file), a directory
    let slots = if ctx.thorough { 6 } else { 5 };
    let total = kinds.pow(slots as u32);
    ctx.par(names.len() * total, |k| {
        let (name, mut code) = (names[k / total], k % total);
        let dir = format!("{}/c22_{}", root, k);
        std::fs::create_dir_all(format!("{dir}/sub")).unwrap();
        let cand = |i: usize| if i == 0 { format!("{name}.evf") } else { format!("{name}({}).evf", i + 1) };
        let mut desc = vec![];
        for i in 0..slots {
            let c = code % kinds; code /= kinds;
            let p = format!("{dir}/{}", cand(i));
            match c { 1 => { std::fs::write(&p, format!("old {i}")).unwrap(); desc.push(format!("{} file", cand(i))); } 2 => { std::fs::create_dir(&p).unwrap(); desc.push(format!("{} directory", cand(i))); } 3 => { std::fs::write(&p, b"").unwrap(); desc.push(format!("{} empty file", cand(i))); } _ => {} }
        }
        // a bystander with the bare name and one with a gap number
        std::fs::write(format!("{dir}/{name}"), b"bare").unwrap();
        std::fs::write(format!("{dir}/{name}(9).evf"), b"nine").unwrap();
        let case = || format!("name {:?} in a directory with {:?}", name, desc);
        let vs = [finished(&b, 0), finished(&b, 1), finished(&b, 9)];
        for s in 0..4 {
            let v = &vs[s % 3];
            let before = tree(&dir);
            let path = format!("{dir}/{name}");
            if let Err(e) = call(&case, || v.save_to_evf_file(&path)) { ctx.violation("panic", || format!("{}: save {}: {}", case(), s, e)); break; }
            let after = tree(&dir);
            let want = (0..).map(cand).find(|n| !before.contains_key(n)).unwrap();
            let mut expect = before.clone();
            expect.insert(want.clone(), Some(v.get_raw_data().unwrap()));
            if after != expect {
                let diff: Vec<String> = after.iter().filter(|(k, v)| expect.get(*k) != Some(*v)).map(|(k, v)| format!("{} = {} bytes", k, v.as_ref().map_or(0, |x| x.len()))).collect();
                ctx.violation("files", || format!("{}: save {} should create exactly {}; differing: {:?}; lost: {:?}", case(), s, want, diff, expect.keys().filter(|k| !after.contains_key(*k)).collect::<Vec<_>>()));
                break;
            }
        }
        ctx.add(1, 4, 1);
        let _ = std::fs::remove_dir_all(&dir);
    });
    // long histories: every save of a run of saves goes to the next free number, past one and two digits
    let run = if ctx.thorough { 1030 } else { 300 };
    ctx.par(names.len() * 2, |k| {
        let (name, gaps) = (names[k / 2], k % 2 == 1);
        let dir = format!("{}/c22_run{}", root, k);
        std::fs::create_dir_all(format!("{dir}/sub")).unwrap();
        let cand = |i: usize| if i == 0 { format!("{name}.evf") } else { format!("{name}({}).evf", i + 1) };
        let mut model: BTreeMap<String, Option<Vec<u8>>> = BTreeMap::new();
        // every third number is a directory, so that the free numbers are not consecutive
        if gaps { for i in (2..run).step_by(3) { std::fs::create_dir(format!("{dir}/{}", cand(i))).unwrap(); } }
        model.extend(tree(&dir));
        let vs = [finished(&b, 0), finished(&b, 1), finished(&b, 9)];
        for s in 0..run {
            let v = &vs[s % 3];
            let want = (0..).map(cand).find(|n| !model.contains_key(n)).unwrap();
            let case = || format!("name {:?}: save {} of a run{}", name, s + 1, if gaps { " with every third number a directory" } else { "" });
            if let Err(e) = call(&case, || v.save_to_evf_file(&format!("{dir}/{name}"))) { ctx.violation("panic", || format!("{}: {}", case(), e)); break; }
            model.insert(want.clone(), Some(v.get_raw_data().unwrap()));
            // the whole directory, at every step of the first numbers and around every power of ten
            let full = s < 130 || s % 97 == 0 || s + 1 == run;
            let bad = if full { tree(&dir) != model } else { std::fs::read(format!("{dir}/{want}")).ok() != model[&want] };
            if bad { ctx.violation("run", || format!("{}: should create exactly {}", case(), want)); break; }
            ctx.add(0, 1, 1);
        }
        let _ = std::fs::remove_dir_all(&dir);
    });
    let _ = std::fs::remove_dir_all(&root);
    ctx.note(format!("{} names x every combination of {} states for the first {} candidate names, four saves in a row each; runs of {} saves per name, with and without gaps", names.len(), kinds, slots, run));
    ctx.sample(|| "g.evf file, g(2).evf absent, g(3).evf directory: saves create g(2).evf, g(4).evf, ...".into());
}

// ---------------------------------------------------------------- C23
#[derive(Clone, Copy, Debug, PartialEq)]
enum Set { Pix(u8), Board(usize), Off(bool), Fair(bool), Mode(u16), Soft(u8), Player(u8), Race(u8), Uniq(u8), Start(u8), End(u8), Country(u8), Dev(u8), Sum(u8), Rtime }
#[derive(Clone, Copy, Debug, PartialEq)]
enum Act { S(Set), Pre, Unflag, Go, Win, Lose, Gen }
#[derive(Clone, Debug, PartialEq)]
struct Vals { pix: u8, off: bool, fair: bool, mode: u16, soft: Vec<u8>, player: Vec<u8>, race: Vec<u8>, uniq: Vec<u8>, country: Vec<u8>, dev: Vec<u8>, sum: [u8; 32] }
fn text(k: u8) -> Vec<u8> { if k == 0 { vec![] } else { vec![b'a' + k; k as usize] } }
fn vals<T>(v: &BaseVideo<T>) -> Vals {
    Vals { pix: v.cell_pixel_size, off: v.is_offical, fair: v.is_fair, mode: v.mode, soft: v.software.clone(), player: v.player_designator.clone(), race: v.race_designator.clone(), uniq: v.uniqueness_designator.clone(), country: v.country.clone(), dev: v.device_uuid.clone(), sum: v.checksum }
}
macro_rules! set_common { ($v:expr, $s:expr) => { match $s {
    Set::Pix(p) => $v.set_pix_size(p), Set::Off(x) => $v.set_is_offical(x), Set::Fair(x) => $v.set_is_fair(x), Set::Mode(m) => $v.set_mode(m), Set::Soft(k) => $v.set_software(text(k)),
    Set::Player(k) => $v.set_player_designator(text(k)), Set::Race(k) => $v.set_race_designator(text(k)), Set::Uniq(k) => $v.set_uniqueness_designator(text(k)),
    Set::Start(k) => $v.set_start_time(text(k)), Set::End(k) => $v.set_end_time(text(k)), Set::Country(k) => $v.set_country(text(k)), Set::Dev(k) => $v.set_device_uuid(text(k)),
    Set::Sum(k) => $v.set_checksum([k; 32]), Set::Rtime => $v.set_rtime(3.0), Set::Board(_) => Ok(0) } } }
/// in which phases a setting may be changed
fn allowed(s: Set, ph: Option<Ph>) -> bool {
    let over = matches!(ph, Some(Ph::Win) | Some(Ph::Loss));
    let ready = ph == Some(Ph::Ready);
    match s {
        Set::Pix(_) | Set::Soft(_) => ready || over,
        Set::Board(k) => !over && ph.is_some() && k != 2,
        Set::Rtime => false,
        _ => over,
    }
}
fn set_model(m: &mut Vals, s: Set) {
    match s { Set::Pix(p) => m.pix = p, Set::Off(x) => m.off = x, Set::Fair(x) => m.fair = x, Set::Mode(x) => m.mode = x, Set::Soft(k) => m.soft = text(k), Set::Player(k) => m.player = text(k), Set::Race(k) => m.race = text(k), Set::Uniq(k) => m.uniq = text(k), Set::Country(k) => m.country = text(k), Set::Dev(k) => m.dev = text(k), Set::Sum(k) => m.sum = [k; 32], _ => {} }
}
fn readers<T>(v: &BaseVideo<T>, ph: Option<Ph>) -> Option<String> {
    let over = matches!(ph, Some(Ph::Win) | Some(Ph::Loss));
    let disp = ph.is_none();
    let r: Vec<(&str, bool, bool)> = vec![
        ("get_rtime", v.get_rtime().is_ok(), over || disp), ("get_rtime_ms", v.get_rtime_ms().is_ok(), over || disp), ("get_raw_data", v.get_raw_data().is_ok(), over || disp), ("get_checksum", v.get_checksum().is_ok(), over || disp),
        ("get_video_start_time", v.get_video_start_time().is_ok(), disp), ("get_video_end_time", v.get_video_end_time().is_ok(), disp), ("get_x_y", v.get_x_y().is_ok(), disp), ("get_pix_size", v.get_pix_size().is_ok(), disp),
        ("get_etime", v.get_etime().is_ok(), over || disp), ("get_bbbv_s", v.get_bbbv_s().is_ok(), over || disp), ("get_bbbv_solved", v.get_bbbv_solved().is_ok(), over || disp), ("get_stnb", v.get_stnb().is_ok(), over || disp),
        ("get_rqp", v.get_rqp().is_ok(), over || disp), ("get_qg", v.get_qg().is_ok(), over || disp), ("get_ce", v.get_ce().is_ok(), over || disp), ("get_ce_s", v.get_ce_s().is_ok(), over || disp), ("get_corr", v.get_corr().is_ok(), over || disp),
        ("get_thrp", v.get_thrp().is_ok(), over || disp), ("get_ioe", v.get_ioe().is_ok(), over || disp), ("get_op_solved", v.get_op_solved().is_ok(), over || disp), ("get_isl_solved", v.get_isl_solved().is_ok(), over || disp),
    ];
    r.into_iter().find(|x| x.1 != x.2).map(|x| format!("{} answers {} want {}", x.0, x.1, x.2))
}
fn boards23() -> [B; 3] { [from_mask(1, 3, 0b010), from_mask(1, 3, 0b100), from_mask(2, 3, 0b010)] }
struct Sim { v: Live, ph: Ph, m: Vals, b: B, t: u64, gen: bool, flagged: bool }
impl Sim {
    fn new() -> Sim {
        clock::set(MONO0 * 1000, WALL0);
        let b = boards23()[0].clone();
        let mut v = BaseVideo::<SafeBoard>::new_before_game(b.clone(), 16);
        let _ = v.set_board(b.clone());
        let m = vals(&v);
        Sim { v, ph: Ph::Ready, m, b, t: 0, gen: false, flagged: false }
    }
    fn ev(&mut self, e: &str, p: P) -> bool {
        self.t += 1500;
        clock::set((MONO0 + self.t) * 1000, WALL0 + self.t);
        let px = self.m.pix as usize;
        self.v.step(e, (p.0 * px, p.1 * px)).is_ok()
    }
    fn act(&mut self, a: Act) -> Option<String> {
        let mine = crate::p_game::cells_of(&self.b).into_iter().find(|p| self.b[p.0][p.1] == -1).unwrap();
        let over = matches!(self.ph, Ph::Win | Ph::Loss);
        match a {
            Act::S(s) => {
                let before = (vals(&self.v), self.v.start_time.clone(), self.v.end_time.clone(), self.v.get_raw_data().ok(), self.v.mine_num, self.v.level);
                let got = match s { Set::Board(k) => self.v.set_board(boards23()[k].clone()), s => set_common!(self.v, s) };
                let want = allowed(s, Some(self.ph));
                if got.is_ok() != want { return Some(format!("{:?} in {:?}: accepted {} want {}", s, self.ph, got.is_ok(), want)); }
                if !want {
                    let after = (vals(&self.v), self.v.start_time.clone(), self.v.end_time.clone(), self.v.get_raw_data().ok(), self.v.mine_num, self.v.level);
                    if before != after { return Some(format!("refused {:?} in {:?} had an effect", s, self.ph)); }
                } else {
                    set_model(&mut self.m, s);
                    match s {
                        Set::Board(k) => { self.b = boards23()[k].clone(); if self.v.mine_num != mines(&self.b) || self.v.level != level_of(&self.b) { return Some("mine count or level after set_board".into()); } }
                        Set::Start(k) => if self.v.start_time != text(k) { return Some("start time not set".into()); },
                        Set::End(k) => if self.v.end_time != text(k) { return Some("end time not set".into()); },
                        Set::Sum(k) => if self.gen { let raw = self.v.get_raw_data().unwrap(); let n = raw.len(); if raw[n - 32..] != [k; 32] || raw[n - 33] != 0 { return Some("checksum not at the end of the data".into()); } },
                        _ => {}
                    }
                }
            }
            // the flag goes on the last cell, which stays flagged until Unflag
            Act::Pre => if self.ph == Ph::Ready { self.ev("rc", (0, 2)); self.ev("rr", (0, 2)); self.ph = Ph::Pre; self.flagged = true; },
            Act::Unflag => if self.flagged && !over { self.ev("rc", (0, 2)); self.ev("rr", (0, 2)); if self.ph == Ph::Pre { self.ph = Ph::Ready; } self.flagged = false; },
            Act::Go => if !over && self.ph != Ph::Playing && self.b[0][0] != -1 { self.ev("lc", (0, 0)); self.ev("lr", (0, 0)); self.ph = Ph::Playing; },
            Act::Win | Act::Lose => if self.ph == Ph::Playing {
                if self.flagged { self.ev("rc", (0, 2)); self.ev("rr", (0, 2)); self.flagged = false; }
                if a == Act::Lose { self.ev("lc", mine); self.ev("lr", mine); self.ph = Ph::Loss; }
                else { for p in crate::p_game::cells_of(&self.b) { if self.b[p.0][p.1] != -1 { self.ev("lc", p); self.ev("lr", p); } } self.ph = Ph::Win; }
            },
            Act::Gen => if over { self.v.generate_evf_v0_raw_data(); self.gen = true; let d = self.v.get_raw_data().unwrap(); let has = self.m.sum != [0; 32]; if has != (d.len() > 33 && d[d.len() - 33] == 0 && d[d.len() - 32..] == self.m.sum) { return Some("checksum in the data".into()); } },
        }
        // a one-click win may happen when set_board changed the layout under an open board
        if !same_ph(self.ph, self.v.game_board_state) {
            if self.v.game_board_state == GameBoardState::Win && self.ph == Ph::Playing { self.ph = Ph::Win; } else { return Some(format!("phase {:?} want {:?}", self.v.game_board_state, self.ph)); }
        }
        if vals(&self.v) != self.m { return Some(format!("settings {:?} want {:?}", vals(&self.v), self.m)); }
        readers(&self.v, Some(self.ph))
    }
}
fn settings_part(ctx: &Ctx) {
    let sets = [Set::Pix(16), Set::Pix(7), Set::Board(0), Set::Board(2), Set::Off(true), Set::Fair(true), Set::Mode(5), Set::Soft(2), Set::Player(3), Set::Race(4), Set::Uniq(5), Set::Start(6), Set::End(7), Set::Country(8), Set::Dev(9), Set::Sum(3), Set::Sum(4), Set::Rtime];
    let mut acts: Vec<Act> = vec![Act::Pre, Act::Unflag, Act::Go, Act::Win, Act::Lose, Act::Gen];
    acts.extend(sets.iter().map(|s| Act::S(*s)));
    let prefixes: Vec<Vec<Act>> = vec![vec![], vec![Act::Pre], vec![Act::Go], vec![Act::Pre, Act::Go], vec![Act::Go, Act::Win], vec![Act::Go, Act::Lose], vec![Act::Go, Act::Win, Act::Gen], vec![Act::Pre, Act::Unflag], vec![Act::Go, Act::Lose, Act::Gen, Act::S(Set::Sum(4))]];
    let len = if ctx.thorough { 4 } else { 3 };
    let n = acts.len().pow(len as u32);
    ctx.par(n, |k| {
        for p in &prefixes {
            let mut seq = p.clone();
            let mut q = k;
            for _ in 0..len { seq.push(acts[q % acts.len()]); q /= acts.len(); }
            let case = || format!("{:?}", seq);
            let r = call(&case, || { let mut s = Sim::new(); for a in &seq { if let Some(e) = s.act(*a) { return Some(format!("at {:?}: {}", a, e)); } } None });
            clock::release();
            ctx.add(1, len as u64, 1);
            match r { Err(e) => ctx.violation("panic", || format!("{}: {}", case(), e)), Ok(Some(d)) => ctx.violation("setting", || format!("{}: {}", case(), d)), Ok(None) => {} }
        }
    });
    // a loaded recording refuses every live setting
    let rp = crate::p_seek::recording(&Arc::new(from_mask(1, 3, 0b010)), 16, &[("lc", 0, 0), ("lr", 0, 0), ("lc", 0, 20), ("lr", 0, 20)], Pattern { a: 1000, b: 1000, back: false }).unwrap();
    for s in sets { if let Set::Board(_) = s { continue; } 
        let case = || format!("loaded recording, {:?}", s);
        let r = call(&case, || {
            let mut d = crate::p_seek::open_rec(&rp);
            let before = vals(&d);
            let got: Result<u8, ()> = set_common!(d, s);
            if got.is_ok() { return Some("accepted".to_string()); }
            if before != vals(&d) { return Some("effect although refused".to_string()); }
            readers(&d, None)
        });
        ctx.add(1, 1, 1);
        match r { Err(e) => ctx.violation("panic", || format!("{}: {}", case(), e)), Ok(Some(d)) => ctx.violation("setting", || format!("{}: {}", case(), d)), Ok(None) => {} }
    }
}
/// after reset the recorder must behave like a new one: play `probe` on board nb and compare everything
fn reset_probe(v: &mut Live, nb: &Arc<B>, pix: usize, probe: &[PEv], set: bool) -> Option<(String, String)> {
    let bad = |k: &str, t: String| Some((k.to_string(), t));
    let identity = (v.mode, v.software.clone(), v.player_designator.clone(), v.race_designator.clone(), v.uniqueness_designator.clone(), v.country.clone(), v.device_uuid.clone());
    v.reset(nb.len(), nb[0].len(), pix as u8);
    clock::set(MONO0 * 1000, WALL0);
    let zero = Arc::new(vec![vec![0; nb[0].len()]; nb.len()]);
    let mut f = BaseVideo::<SafeBoard>::new_before_game((*zero).clone(), pix as u8);
    for stage in 0..2 {
        let flags = |x: &Live| ((x.is_completed, x.is_offical, x.is_fair, x.nf, x.mine_num, x.width, x.height, x.cell_pixel_size), (x.checksum, x.start_time.clone(), x.end_time.clone(), x.get_time(), x.get_path(), x.level, x.offset, x.can_analyse));
        if flags(v) != flags(&f) { return bad("reset-state", format!("after reset{}: {:?} want {:?}", if stage == 1 { " and set_board" } else { "" }, flags(v), flags(&f))); }
        if v.board.into_vec_vec() != f.board.into_vec_vec() { return bad("reset-board", "board kept from the old game".into()); }
        // board figures: none until a game has ended (3BV: at most that of the present board)
        let figures = |x: &Live| { let s = &x.static_params; [s.op, s.isl, s.hizi, s.cell0, s.cell1, s.cell2, s.cell3, s.cell4, s.cell5, s.cell6, s.cell7, s.cell8, s.fps] };
        if figures(v) != figures(&f) || ![0, stats(&zero).bbbv, stats(nb).bbbv].contains(&v.static_params.bbbv) { return bad("reset-figures", format!("board figures kept from the old game: 3BV {} others {:?}", v.static_params.bbbv, figures(v))); }
        let lists = |x: &Live| (x.video_action_state_recorder.len(), x.game_board_stream.len(), x.current_event_id, x.current_time);
        if lists(v) != lists(&f) { return bad("reset-lists", format!("events, boards, position {:?} want {:?}", lists(v), lists(&f))); }
        if let Some(x) = readers(v, Some(Ph::Ready)) { return bad("reset-readers", x); }
        if !set { break; }
        if stage == 0 { let _ = v.set_board((**nb).clone()); let _ = f.set_board((**nb).clone()); }
    }
    let mut r = Rec::new(if set { nb.clone() } else { zero.clone() }, pix);
    let pat = Pattern { a: 700, b: 1900, back: false };
    let mut oks = vec![];
    for (i, (e, y, x)) in probe.iter().enumerate() {
        let (now, wall) = pat.at(i);
        clock::set(now * 1000, wall);
        oks.push((v.step(e, (*y, *x)).is_ok(), r.step(e, *y, *x, now, wall).is_ok()));
    }
    if let Some((k, d)) = compare(v, &r, &oks).or_else(|| compare_clock(v, &r, if probe.is_empty() { MONO0 } else { pat.at(probe.len() - 1).0 })) { return bad(&format!("after-reset-{}", k), d); }
    if r.over() {
        v.generate_evf_v0_raw_data();
        let m = Meta { completed: r.g.ph == Ph::Win, mode: identity.0, software: identity.1, player: identity.2, race: identity.3, uniq: identity.4, country: identity.5, device: identity.6, start: r.wall_start.to_string().into_bytes(), end: r.wall_end.to_string().into_bytes(), ..Default::default() };
        let evs: Vec<(u32, &str, usize, usize)> = r.evs.iter().map(|e| (e.t, e.e, e.y, e.x)).collect();
        if v.get_raw_data().unwrap() != encode(&r.g.b, pix, stats(&r.g.b).bbbv, r.rtime, &m, &evs) { return bad("after-reset-bytes", "the recording made after a reset differs from a fresh one".into()); }
        if v.get_checksum().ok() != Some([0; 32]) { return bad("after-reset-checksum", "checksum of the previous game".into()); }
    }
    None
}
fn probes(b: &B, pix: usize) -> Vec<Vec<PEv>> {
    let mut v = simple_games(b, pix);
    let (y, x) = px(b, pix, Some((b.len() - 1, b[0].len() - 1)), true);
    v.push(vec![]);
    v.push(vec![("rc", y, x), ("rr", y, x), ("rc", y, x), ("rr", y, x)]);
    let mut h = vec![("rc", y, x), ("rr", y, x)];
    h.extend(simple_games(b, pix)[0].clone());
    v.push(h);
    v.push(vec![("lr", 0, 0), ("rr", 0, 0), ("lc", 0, 0), ("rc", 0, 0), ("lr", 0, 0), ("rr", 0, 0)]);
    v
}
fn reset_part(ctx: &Ctx) {
    let th = ctx.thorough;
    let targets: Vec<Arc<B>> = vec![Arc::new(from_mask(1, 2, 0b10)), Arc::new(from_mask(3, 2, 0b000001)), Arc::new(from_mask(1, 2, 0b00))];
    let jobs: Vec<VJob> = vjobs(th).into_iter().filter(|j| th || j.b.len() * j.b[0].len() <= 4).collect();
    run_jobs(ctx, &jobs, &|b, pix, path| {
        let h: usize = path.len() + path.iter().map(|p| p.1 + p.2 * 3 + p.0.as_bytes()[1] as usize).sum::<usize>();
        for (ti, t) in targets.iter().enumerate() {
            let ps = probes(t, 16);
            // quick tier: one probe per path and target, chosen by position; tiny boards: all
            for (pi, probe) in ps.iter().enumerate() { for set in [true, false] {
                if !(th || (path.len() <= 3 && b.len() * b[0].len() <= 2)) && (pi != h % ps.len() || set != (h % 3 != 0)) { continue; }
                if !set && probe.is_empty() { continue; }
                let case = || format!("played board {} pixels {} events {}; then reset to {}x{}{} and events {}", show(b), pix, show_px(path), t.len(), t[0].len(), if set { format!(", board {}", show(t)) } else { String::new() }, show_px(probe));
                let r = call(&case, || {
                    let (mut v, r, _) = play(b, pix, path, Pattern { a: 1100, b: 2500, back: false });
                    if r.over() { let _ = (v.set_is_offical(true), v.set_is_fair(true), v.set_mode(4), v.set_player_designator(text(3)), v.set_software(text(2)), v.set_race_designator(text(4)), v.set_uniqueness_designator(text(5)), v.set_country(text(6)), v.set_device_uuid(text(7))); v.generate_evf_v0_raw_data(); let _ = v.set_checksum([9; 32]); if h % 2 == 0 { v.win_then_flag_all_mine(); v.loss_then_open_all_mine(); } }
                    reset_probe(&mut v, t, 16, probe, set)
                });
                clock::release();
                ctx.nontrivial.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                match r { Err(e) => ctx.violation("panic", || format!("{}: {}", case(), e)), Ok(Some((k, d))) => ctx.violation(&k, || format!("{}: {}", case(), d)), Ok(None) => {} }
            } }
            let _ = ti;
        }
        // the bare game object: any history, reset, then the same events as on a new zero board
        let cells: Vec<(&'static str, P)> = path.iter().map(|(e, y, x)| (*e, (y / pix, x / pix))).collect();
        let case = || format!("MinesweeperBoard {} events {} then reset", show(b), show_px(path));
        let r = call(&case, || {
            let zero = Arc::new(vec![vec![0; b[0].len()]; b.len()]);
            for tail in [vec!["mr"], vec!["m", "m"], vec!["lc", "lr"], vec!["rc", "rr", "rc", "rr", "lc", "lr"], vec!["rc", "rr", "lc", "rc"], vec!["lc", "rc", "lr", "rr", "lc", "lr"]] {
                let mut m = MinesweeperBoard::<Vec<Vec<i32>>>::new((**b).clone());
                for (e, p) in &cells { let _ = m.step(e, *p); }
                if h % 3 == 0 { let _ = m.step("mc", (0, 0)); }
                m.reset();
                let mut g = Game::new(zero.clone());
                let mut f = MinesweeperBoard::<Vec<Vec<i32>>>::new((*zero).clone());
                for (i, e) in tail.iter().enumerate() {
                    let got = m.step(e, (0, 0));
                    let fresh = f.step(e, (0, 0));
                    let want = g.step(e, Some((0, 0)));
                    let st = |m: &MinesweeperBoard<Vec<Vec<i32>>>| (m.game_board.clone(), m.left, m.right, m.double, m.ce, m.flag, m.bbbv_solved, m.mouse_state, m.game_board_state);
                    if got != fresh || st(&m) != st(&f) || got.is_ok() != want.is_ok() || m.game_board != g.g { return Some(format!("tail {:?} step {}: {:?} {:?} want {:?} {:?}", tail, i, got, st(&m), fresh, st(&f))); }
                }
            }
            None
        });
        match r { Err(e) => ctx.violation("panic", || format!("{}: {}", case(), e)), Ok(Some(d)) => ctx.violation("game-reset", || format!("{}: {}", case(), d)), Ok(None) => {} }
        true
    });
}
pub fn c23(ctx: &Ctx) {
    settings_part(ctx);
    reset_part(ctx);
    crate::p_foreign::reset_loaded(ctx, ctx.thorough);
    let _ = std::fs::remove_dir_all(scratch());
    ctx.note(format!("all sequences of {} actions (18 settings, 6 game moves) from 9 prefixes covering every phase; every path of the bounded exploration followed by a reset (to 3 other boards, with or without a new board) and probe games", if ctx.thorough { 4 } else { 3 }));
    ctx.sample(|| "[Go, Win, Gen, S(Sum(3)), S(Pix(7)), S(Rtime)]".into());
}
