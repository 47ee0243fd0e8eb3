//! C29: the Python binding behaves like the library. The checker plays every case on the library,
//! writes down what each call must return, and a Python process replays the cases on the binding.
use crate::clock;
use crate::ctx::*;
use crate::p_evf::*;
use crate::p_foreign::*;
use crate::p_video::*;
use crate::refgame::*;
use crate::refm::*;
use ms_toollib::*;
use std::collections::{HashSet, VecDeque};
use std::io::Write;
use std::sync::{Arc, Mutex};

// ---------------------------------------------------------------- JSON
pub trait J { fn j(&self, o: &mut String); }
macro_rules! disp { ($($t:ty),*) => { $( impl J for $t { fn j(&self, o: &mut String) { use std::fmt::Write; let _ = write!(o, "{}", self); } } )* } }
disp!(u8, u16, u32, u64, usize, i32, i64, bool);
impl J for f64 { fn j(&self, o: &mut String) { if self.is_nan() { o.push_str("NaN") } else if self.is_infinite() { o.push_str(if *self > 0.0 { "Infinity" } else { "-Infinity" }) } else { o.push_str(&format!("{:?}", self)) } } }
impl J for str { fn j(&self, o: &mut String) { o.push_str(&q(self)) } }
impl J for String { fn j(&self, o: &mut String) { o.push_str(&q(self)) } }
impl J for () { fn j(&self, o: &mut String) { o.push_str("null") } }
impl<T: J + ?Sized> J for &T { fn j(&self, o: &mut String) { (**self).j(o) } }
fn seq<'a, T: J + 'a>(it: impl Iterator<Item = &'a T>, o: &mut String) { o.push('['); for (i, x) in it.enumerate() { if i > 0 { o.push(','); } x.j(o); } o.push(']'); }
impl<T: J> J for Vec<T> { fn j(&self, o: &mut String) { seq(self.iter(), o) } }
impl<T: J> J for [T] { fn j(&self, o: &mut String) { seq(self.iter(), o) } }
impl<T: J, const N: usize> J for [T; N] { fn j(&self, o: &mut String) { seq(self.iter(), o) } }
macro_rules! tup { ($($n:tt $t:ident),*) => { impl<$($t: J),*> J for ($($t,)*) { fn j(&self, o: &mut String) { o.push('['); $( if $n > 0 { o.push(','); } self.$n.j(o); )* o.push(']'); } } } }
tup!(0 A);
tup!(0 A, 1 B2);
tup!(0 A, 1 B2, 2 C);
tup!(0 A, 1 B2, 2 C, 3 D);
tup!(0 A, 1 B2, 2 C, 3 D, 4 E);
tup!(0 A, 1 B2, 2 C, 3 D, 4 E, 5 F);
pub fn js<T: J>(x: T) -> String { let mut o = String::new(); x.j(&mut o); o }
pub const ERR: &str = "\"!\"";
/// what a call must give: its value, or any exception when the library panics
pub fn ex<R: J>(f: impl FnOnce() -> R) -> String { let c = || "the library itself, computing what a binding must return".to_string(); match call(&c, f) { Ok(v) => js(v), Err(_) => ERR.into() } }

// ---------------------------------------------------------------- cases
#[derive(Default)]
pub struct Case { ops: String, n: usize }
impl Case {
    /// expr: a Python expression over m (module), o (object), a (arguments); "=..." is a statement
    pub fn op(&mut self, expr: &str, args: String, want: String) {
        if self.n > 0 { self.ops.push(','); }
        self.ops.push_str(&format!("[{},{},{}]", q(expr), args, want));
        self.n += 1;
    }
    pub fn clk(&mut self, now: u64, wall: u64) { clock::set(now * 1000, wall); self.op("=clk(*a)", js((now * 1000, wall)), "null".into()); }
}
pub struct Sink { files: Vec<Mutex<(std::io::BufWriter<std::fs::File>, u64)>>, next: std::sync::atomic::AtomicUsize, pub cases: std::sync::atomic::AtomicU64, pub ops: std::sync::atomic::AtomicU64, shown: Mutex<Vec<String>> }
impl Sink {
    pub fn new(dir: &str, n: usize) -> Sink { Sink { files: (0..n).map(|i| Mutex::new((std::io::BufWriter::new(std::fs::File::create(format!("{dir}/cases{i}.jsonl")).unwrap()), 0))).collect(), next: Default::default(), cases: Default::default(), ops: Default::default(), shown: Default::default() } }
    pub fn put(&self, c: Case) {
        use std::sync::atomic::Ordering::*;
        if c.n == 0 { return; }
        let no = self.next.fetch_add(1, Relaxed);
        let k = no % self.files.len();
        if no % 4099 == 7 { let mut w = self.shown.lock().unwrap(); if w.len() < 6 { w.push(c.ops.chars().take(300).collect()); } }
        self.cases.fetch_add(1, Relaxed);
        self.ops.fetch_add(c.n as u64, Relaxed);
        let mut f = self.files[k].lock().unwrap();
        f.0.write_all(b"[").unwrap(); f.0.write_all(c.ops.as_bytes()).unwrap(); f.0.write_all(b"]\n").unwrap();
    }
    pub fn flush(&self) { for f in &self.files { f.lock().unwrap().0.flush().unwrap(); } }
}

// ---------------------------------------------------------------- observations
pub fn gb_json(g: &mut GameBoard) -> String {
    ex(|| (g.get_poss().clone(), g.get_basic_not_mine().clone(), g.get_basic_is_mine().clone(), g.get_enum_not_mine().clone(), g.get_enum_is_mine().clone()))
}
/// one JSON object of everything a video object shows; $ex lists class-specific entries
macro_rules! obs_video { ($d:expr, $gs:expr, $ms:expr, $( $xn:literal => $xe:expr ),*) => {{
    let mut o = String::from("{");
    macro_rules! put { ($n:expr, $e:expr) => {{ if o.len() > 1 { o.push(','); } o.push_str(&format!("\"{}\":{}", $n, ex(|| $e))); }} }
    put!("software", $d.software.clone()); put!("row", $d.height); put!("column", $d.width); put!("level", $d.level); put!("mode", $d.mode);
    put!("is_completed", $d.is_completed); put!("is_offical", $d.is_offical); put!("is_fair", $d.is_fair); put!("mine_num", $d.mine_num);
    put!("player_designator", $d.player_designator.clone()); put!("race_designator", $d.race_designator.clone()); put!("uniqueness_designator", $d.uniqueness_designator.clone());
    put!("country", $d.country.clone()); put!("start_time", $d.start_time.clone()); put!("end_time", $d.end_time.clone());
    put!("bbbv", $d.static_params.bbbv); put!("op", $d.static_params.op); put!("isl", $d.static_params.isl); put!("hizi", $d.static_params.hizi);
    put!("cell0", $d.static_params.cell0); put!("cell1", $d.static_params.cell1); put!("cell2", $d.static_params.cell2); put!("cell3", $d.static_params.cell3); put!("cell4", $d.static_params.cell4);
    put!("cell5", $d.static_params.cell5); put!("cell6", $d.static_params.cell6); put!("cell7", $d.static_params.cell7); put!("cell8", $d.static_params.cell8);
    put!("rtime", $d.get_rtime().unwrap()); put!("rtime_ms", $d.get_rtime_ms().unwrap()); put!("etime", $d.get_etime().unwrap());
    put!("video_start_time", $d.get_video_start_time().unwrap()); put!("video_end_time", $d.get_video_end_time().unwrap());
    put!("bbbv_s", $d.get_bbbv_s().unwrap()); put!("stnb", $d.get_stnb().unwrap()); put!("rqp", $d.get_rqp().unwrap());
    put!("left", $d.get_left()); put!("right", $d.get_right()); put!("double", $d.get_double()); put!("cl", $d.get_cl()); put!("flag", $d.get_flag());
    put!("bbbv_solved", $d.get_bbbv_solved().unwrap()); put!("ce", $d.get_ce().unwrap());
    put!("left_s", $d.get_left_s()); put!("right_s", $d.get_right_s()); put!("double_s", $d.get_double_s()); put!("cl_s", $d.get_cl_s()); put!("flag_s", $d.get_flag_s());
    put!("path", $d.get_path()); put!("ce_s", $d.get_ce_s().unwrap()); put!("ioe", $d.get_ioe().unwrap()); put!("thrp", $d.get_thrp().unwrap()); put!("corr", $d.get_corr().unwrap());
    put!("events_len", $d.video_action_state_recorder.len()); put!("current_event_id", $d.current_event_id);
    put!("game_board", $d.get_game_board()); put!("game_board_poss", $d.get_game_board_poss());
    put!("mouse_state", $ms); put!("game_board_state", $gs);
    put!("checksum", $d.get_checksum().unwrap());
    $( put!($xn, $xe); )*
    o.push('}');
    o
}} }
pub fn mstate(m: MouseState) -> usize { match m { MouseState::UpUp => 1, MouseState::UpDown => 2, MouseState::UpDownNotFlag => 3, MouseState::DownUp => 4, MouseState::Chording => 5, MouseState::ChordingNotFlag => 6, MouseState::DownUpAfterChording => 7, MouseState::Undefined => 8 } }
pub fn gstate(g: GameBoardState) -> usize { match g { GameBoardState::Ready => 1, GameBoardState::Playing => 2, GameBoardState::Win => 3, GameBoardState::Loss => 4, GameBoardState::PreFlaging => 5, GameBoardState::Display => 6 } }
/// every recorded event, with the position before it; one past the end must be refused
macro_rules! events { ($d:expr) => {{
    let mut o = String::from("[");
    for i in 0..=$d.video_action_state_recorder.len() {
        if i > 0 { o.push(','); }
        let p = call(&|| "prior board".to_string(), || { let id = $d.video_action_state_recorder[i].prior_game_board_id; $d.game_board_stream[id].clone() });
        let pj = match p { Ok(mut g) => gb_json(&mut g), Err(_) => ERR.into() };
        o.push_str(&format!("[{},{},{},{},{},{},{},{}]", ex(|| $d.video_action_state_recorder[i].time), ex(|| $d.video_action_state_recorder[i].mouse.clone()), ex(|| $d.video_action_state_recorder[i].x), ex(|| $d.video_action_state_recorder[i].y), ex(|| $d.video_action_state_recorder[i].useful_level), ex(|| $d.video_action_state_recorder[i].comments.clone()), ex(|| mstate($d.video_action_state_recorder[i].mouse_state)), pj));
    }
    o.push(']');
    o
}} }
type Dv = BaseVideo<Vec<Vec<i32>>>;
fn obs_dv(d: &mut Dv) -> String { obs_video!(d, 1usize, mstate(d.video_action_state_recorder[d.current_event_id].mouse_state), "time" => d.get_time(), "raw_data" => d.get_raw_data().unwrap(), "x_y" => d.get_x_y().unwrap()) }
fn obs_live(d: &mut Live) -> String { obs_video!(d, gstate(d.game_board_state), d.get_mouse_state(), "time" => d.get_time(), "raw_data" => d.get_raw_data().unwrap(), "x_y" => d.get_x_y().unwrap(), "board" => d.minesweeper_board.board.into_vec_vec()) }
macro_rules! obs_mb { ($d:expr, $board:expr) => {{
    let mut o = String::from("{");
    macro_rules! put { ($n:expr, $e:expr) => {{ if o.len() > 1 { o.push(','); } o.push_str(&format!("\"{}\":{}", $n, ex(|| $e))); }} }
    put!("board", $board); put!("game_board", $d.game_board.clone());
    put!("left", $d.left); put!("right", $d.right); put!("double", $d.double); put!("ce", $d.ce); put!("flag", $d.flag); put!("bbbv_solved", $d.bbbv_solved);
    put!("row", $d.row); put!("column", $d.column); put!("game_board_state", gstate($d.game_board_state)); put!("mouse_state", mstate($d.mouse_state));
    o.push('}');
    o
}} }
/// the two layers a learning player sees: the visible board with its own codes, and the mine probabilities of the position
fn layers(g: &B, total: f64) -> (Vec<Vec<f64>>, Vec<Vec<f64>>) {
    let a = g.iter().map(|r| r.iter().map(|v| match *v { 10 => -1.0, 11 => -2.0, v => v as f64 }).collect()).collect();
    let mut v: B = g.iter().map(|r| r.iter().map(|v| if *v > 10 { 10 } else { *v }).collect()).collect();
    let _ = mark_board(&mut v);
    (a, cal_possibility_onboard(&v, total).unwrap().0)
}

// ---------------------------------------------------------------- families
fn fam_layouts(ctx: &Ctx, sink: &Sink) {
    let mut lay: Vec<(usize, usize, u64)> = vec![];
    for (r, c) in shapes(1, if ctx.thorough { 11 } else { 9 }) { for m in 0..1u64 << (r * c) { lay.push((r, c, m)); } }
    ctx.par(lay.len(), |i| {
        let (r, c, m) = lay[i];
        let b = from_mask(r, c, m);
        let mut k = Case::default();
        k.op("m.cal_op(*a)", js((&b,)), ex(|| cal_op(&b)));
        k.op("m.cal_bbbv(*a)", js((&b,)), ex(|| cal_bbbv(&b)));
        let mut x = Board::new(b.clone());
        k.op("=o=m.Board(*a)", js((&b,)), "null".into());
        // once in this order and once in another: results are cached
        for rev in [false, true] {
            let mut w: Vec<(&str, String)> = vec![("bbbv", ex(|| x.get_bbbv())), ("op", ex(|| x.get_op())), ("isl", ex(|| x.get_isl())), ("cell0", ex(|| x.get_cell0())), ("cell1", ex(|| x.get_cell1())), ("cell2", ex(|| x.get_cell2())), ("cell3", ex(|| x.get_cell3())), ("cell4", ex(|| x.get_cell4())), ("cell5", ex(|| x.get_cell5())), ("cell6", ex(|| x.get_cell6())), ("cell7", ex(|| x.get_cell7())), ("cell8", ex(|| x.get_cell8()))];
            if rev { w.reverse(); }
            k.op("obs(o,W)", "[]".into(), format!("{{{}}}", w.iter().map(|(n, v)| format!("\"{n}\":{v}")).collect::<Vec<_>>().join(",")));
        }
        for x0 in 0..r { for y0 in 0..c { if b[x0][y0] != -1 { k.op("m.is_solvable(*a)", js((&b, x0, y0)), ex(|| is_solvable(&b, x0, y0))); } } }
        k.op("m.unsolvable_structure(*a)", js((&b,)), ex(|| unsolvable_structure(&b)));
        // clicks on the closed board, and on the board with the opposite corner opened
        let mut g = vec![vec![10; c]; r];
        for (a, z) in [(vec![(0usize, 0usize)], vec![(r - 1, c - 1)]), (vec![(0, 0), (0, 0), (r - 1, 0)], vec![(0, c - 1)])] {
            for p in [a, z] {
                let args = js((&b, &g, &p));
                k.op("m.refresh_board(a[0],a[1],tp(a[2]))", args, ex(|| { let mut w = g.clone(); refresh_board(&b, &mut w, p.clone()); w }));
                if call(&|| "refresh".to_string(), || { let mut w = g.clone(); refresh_board(&b, &mut w, p.clone()); g = w; }).is_err() { break; }
            }
        }
        ctx.add(1, k.n as u64, 1);
        sink.put(k);
    });
    // the small unsolvable patterns: all 4x4 layouts with few mines
    let few: Vec<u64> = (0..1u64 << 16).filter(|m| m.count_ones() <= if ctx.thorough { 6 } else { 4 }).collect();
    ctx.par(few.len() / 16 + 1, |i| {
        let mut k = Case::default();
        for m in few[i * 16..few.len().min(i * 16 + 16)].iter() { let b = from_mask(4, 4, *m); k.op("m.unsolvable_structure(*a)", js((&b,)), ex(|| unsolvable_structure(&b))); }
        ctx.add(1, k.n as u64, 1);
        sink.put(k);
    });
}
fn position(k: &mut Case, v: &B, totals: &[f64]) {
    k.op("m.refresh_matrix(*a)", js((v,)), ex(|| refresh_matrix(v)));
    k.op("m.refresh_matrixs(*a)", js((v,)), ex(|| refresh_matrixs(v)));
    k.op("m.mark_board(*a)", js((v,)), ex(|| { let mut w = v.clone(); let _ = mark_board(&mut w); w }));
    k.op("m.get_all_not_and_is_mine_on_board(*a)", js((v,)), ex(|| { let mut w = v.clone(); let (mut a, mut x, mut b, _, _) = refresh_matrixs(&w); let (n, i) = get_all_not_and_is_mine_on_board(&mut a, &mut x, &mut b, &mut w); (w, n, i) }));
    k.op("m.solve_enumerate(*a)", js((v,)), ex(|| { let (a, x, b, _, _) = refresh_matrixs(v); let (n, i) = solve_enumerate(&a, &x, &b); (n, i) }));
    let c = || "matrices".to_string();
    if let Ok((a, x, b, _, _)) = call(&c, || refresh_matrixs(v)) {
        let args = js((&a, &x, &b, v));
        k.op("m.solve_direct(a[0],[tp(x) for x in a[1]],a[2],a[3])", args.clone(), ex(|| { let (mut a, mut x, mut b, mut w) = (a.clone(), x.clone(), b.clone(), v.clone()); let (n, i) = solve_direct(&mut a, &mut x, &mut b, &mut w).unwrap(); (a, x, b, w, n, i) }));
        k.op("m.solve_minus(a[0],[tp(x) for x in a[1]],a[2],a[3])", args, ex(|| { let (mut a, mut x, mut b, mut w) = (a.clone(), x.clone(), b.clone(), v.clone()); let (n, i) = solve_minus(&mut a, &mut x, &mut b, &mut w).unwrap(); (a, x, b, w, n, i) }));
    }
    for t in totals {
        k.op("m.cal_possibility(*a)", js((v, *t)), ex(|| { let mut w = v.clone(); mark_board(&mut w).unwrap(); cal_possibility(&w, *t).unwrap() }));
        k.op("m.cal_possibility_onboard(*a)", js((v, *t)), ex(|| { let mut w = v.clone(); mark_board(&mut w).unwrap(); cal_possibility_onboard(&w, *t).unwrap() }));
        if *t >= 1.0 && t.fract() == 0.0 {
            let mut g = GameBoard::new(*t as usize);
            g.set_game_board(v);
            k.op("=o=m.GameBoard(*a)", js((*t as usize,)), "null".into());
            k.op("=o.game_board=a[0]", js((v,)), "null".into());
            // two orders of asking, on the same object: results are cached
            k.op("[o.enum_is_mine,o.basic_not_mine]", "[]".into(), ex(|| (g.get_enum_is_mine().clone(), g.get_basic_not_mine().clone())));
            k.op("o", "[]".into(), gb_json(&mut g));
        }
    }
    for x in 0..v.len() { for y in 0..v[0].len() {
        if v[x][y] < 10 { continue; }
        k.op("m.is_guess_while_needless(a[0],tuple(a[1]))", js((v, (x, y))), ex(|| { let mut w = v.clone(); is_guess_while_needless(&mut w, &(x, y)) }));
        k.op("m.is_able_to_solve(a[0],tuple(a[1]))", js((v, (x, y))), ex(|| { let mut w = v.clone(); is_able_to_solve(&mut w, &(x, y)) }));
    } }
}
fn fam_positions(ctx: &Ctx, sink: &Sink) {
    let th = ctx.thorough;
    let mut shp = vec![(1usize, 3usize), (2, 2), (2, 3), (3, 2), (1, 6)];
    if th { shp.extend([(2, 4), (3, 3), (1, 8)]); }
    for (r, c) in shp {
        let n = r * c;
        let seen: Mutex<HashSet<(B, usize)>> = Default::default();
        ctx.par(1 << n, |m| {
            let b = from_mask(r, c, m as u64);
            let safe = !(m as u64) & ((1 << n) - 1);
            let mut s = safe;
            loop {
                // s: opened safe cells; the closed ones optionally carry flags
                let v: B = (0..r).map(|i| (0..c).map(|j| if s >> (i * c + j) & 1 == 1 { b[i][j] } else { 10 }).collect()).collect();
                let mut vs = vec![v.clone()];
                let cl: Vec<P> = crate::p_game::cells_of(&v).into_iter().filter(|p| v[p.0][p.1] == 10).collect();
                if n <= 6 { if let Some(p) = cl.first() { let mut w = v.clone(); w[p.0][p.1] = 11; vs.push(w); } if let Some(p) = cl.last() { let mut w = v.clone(); w[p.0][p.1] = 12; vs.push(w); } }
                for v in vs {
                    if !seen.lock().unwrap().insert((v.clone(), mines(&b))) { continue; }
                    let mc = mines(&b) as f64;
                    let mut k = Case::default();
                    let totals = if n <= 6 { vec![mc, mc + 1.0, 0.0, 0.37, n as f64] } else { vec![mc, 0.37] };
                    position(&mut k, &v, &totals);
                    ctx.add(1, k.n as u64, 1);
                    sink.put(k);
                }
                if s == 0 { break; }
                s = (s - 1) & safe;
            }
        });
    }
    // boards no game can show: every filling of 1x3 and 2x2 with these values
    let vals = [0, 1, 2, 10, 11, 12];
    for (r, c) in [(1usize, 3usize), (2, 2)] {
        ctx.par(6usize.pow((r * c) as u32), |i| {
            let mut x = i;
            let v: B = (0..r).map(|_| (0..c).map(|_| { let q = vals[x % 6]; x /= 6; q }).collect()).collect();
            let mut k = Case::default();
            position(&mut k, &v, &[1.0, 2.0]);
            ctx.add(1, k.n as u64, 1);
            sink.put(k);
        });
    }
    // one step of the enumeration: every table of up to three partial choices over three cells
    let mut k = Case::default();
    for rows in 0..3u32 { for m in 0..1u32 << (3 * rows) { for (ids, b) in [(vec![0usize, 1], 1), (vec![1, 2], 1), (vec![0, 1, 2], 2), (vec![2], 0), (vec![0, 2], 2)] {
        let t: Vec<Vec<usize>> = (0..rows).map(|i| (0..3).map(|j| (m >> (i * 3 + j) & 1) as usize).collect()).collect();
        k.op("m.enuOneStep(*a)", js((&t, &ids, b)), ex(|| enuOneStep(t.clone(), ids.clone(), b)));
        if k.n >= 40 { ctx.add(1, k.n as u64, 1); sink.put(std::mem::take(&mut k)); }
    } } }
    for t in [vec![vec![0usize, 2, 0], vec![2, 2, 2]], vec![vec![2usize, 2, 2], vec![0, 2, 2]]] { for ids in [vec![1usize], vec![0, 1], vec![1, 2], vec![0, 1, 2]] { for b in 0..4 { k.op("m.enuOneStep(*a)", js((&t, &ids, b)), ex(|| enuOneStep(t.clone(), ids.clone(), b))); } } }
    ctx.add(1, k.n as u64, 1);
    sink.put(k);
}
fn fam_layers(ctx: &Ctx, sink: &Sink) {
    // both state machines: every reachable state of small games, every event from each
    let mut jobs: Vec<(Arc<B>, Vec<Vec<crate::p_game::Ev>>, usize)> = vec![];
    for (r, c) in [(1usize, 1usize), (1, 2), (2, 1)] { for m in 0..1u64 << (r * c) { let b = Arc::new(from_mask(r, c, m)); let mv = crate::p_game::single(&b, &crate::p_game::ALL_EVENTS, true); jobs.push((b, mv, 9)); } }
    for (r, c) in [(1usize, 3usize), (2, 2), (2, 3)] { for m in crate::p_game::canon(r, c) {
        if r * c > 4 && !(ctx.thorough || m.count_ones() == 2) { continue; }
        let b = Arc::new(from_mask(r, c, m));
        let mv = if r * c <= 4 && ctx.thorough { crate::p_game::single(&b, &["lc", "lr", "rc", "rr", "cc"], true) } else { crate::p_game::clicks(&b) };
        jobs.push((b, mv, if ctx.thorough { 9 } else { 2 }));
    } }
    ctx.par(jobs.len(), |i| {
        let (b, moves, flags) = &jobs[i];
        let (r, c) = (b.len(), b[0].len());
        let at = |p: Option<P>| p.unwrap_or((r, c));
        let mut seen = HashSet::new();
        let mut todo: VecDeque<(Game, Vec<(&'static str, P)>)> = VecDeque::new();
        let g0 = Game::new(b.clone());
        seen.insert(g0.key());
        todo.push_back((g0, vec![]));
        let total = mines(b) as f64;
        while let Some((g, path)) = todo.pop_front() {
            // the state itself, reached in one flow: everything it shows
            let mut k = Case::default();
            for safe in [false, true] {
                let mut u = MinesweeperBoard::<Vec<Vec<i32>>>::new((**b).clone());
                let mut s = MinesweeperBoard::<SafeBoard>::new(SafeBoard::new((**b).clone()));
                k.op(if safe { "=o=m.SafeMinesweeperBoard(*a)" } else { "=o=m.MinesweeperBoard(*a)" }, js((&**b,)), "null".into());
                let fl: Vec<(&str, P)> = path.clone();
                let c0 = || "flow".to_string();
                let w = call(&c0, || if safe { s.step_flow(fl.clone()).unwrap() } else { u.step_flow(fl.clone()).unwrap() });
                k.op("=o.step_flow([(e,tuple(p)) for e,p in a[0]])", js((&fl,)), if w.is_ok() { "null".into() } else { ERR.into() });
                let ob = |u: &mut MinesweeperBoard<Vec<Vec<i32>>>, s: &mut MinesweeperBoard<SafeBoard>| if safe { obs_mb!(s, s.board.into_vec_vec()) } else { obs_mb!(u, u.board.clone()) };
                k.op("obs(o,W)", "[]".into(), ob(&mut u, &mut s));
                k.op("o.get_game_board_2(*a)", js((total,)), ex(|| layers(if safe { &s.game_board } else { &u.game_board }, total)));
                // another layout in the middle of the game
                let b2 = from_mask(r, c, 1);
                if safe { s.board.set(b2.clone()) } else { u.board = b2.clone() }
                k.op("=o.board=a[0]", js((&b2,)), "null".into());
                k.op("obs(o,W)", "[]".into(), ob(&mut u, &mut s));
                // every move from it
                for mv in moves {
                    let mut u = MinesweeperBoard::<Vec<Vec<i32>>>::new((**b).clone());
                    let mut s = MinesweeperBoard::<SafeBoard>::new(SafeBoard::new((**b).clone()));
                    k.op(if safe { "=o=m.SafeMinesweeperBoard(*a)" } else { "=o=m.MinesweeperBoard(*a)" }, js((&**b,)), "null".into());
                    let _ = call(&c0, || if safe { s.step_flow(fl.clone()).map(|_| 0) } else { u.step_flow(fl.clone()).map(|_| 0) });
                    k.op("=o.step_flow([(e,tuple(p)) for e,p in a[0]])", js((&fl,)), "\"?\"".into());
                    for (e, p) in mv {
                        let p = at(*p);
                        let w = call(&c0, || if safe { s.step(e, p).unwrap() } else { u.step(e, p).unwrap() });
                        k.op("=o.step(a[0],tuple(a[1]))", js((*e, p)), if w.is_ok() { "null".into() } else { ERR.into() });
                    }
                    k.op("obs(o,W)", "[]".into(), ob(&mut u, &mut s));
                    if !safe { u.reset(); k.op("=o.reset()", "[]".into(), "null".into()); k.op("obs(o,W)", "[]".into(), ob(&mut u, &mut s)); }
                    ctx.add(0, 1, 0);
                }
            }
            sink.put(k);
            ctx.add(1, 0, 1);
            for mv in moves {
                let mut n = g.clone();
                let mut p = path.clone();
                for (e, q) in mv { let _ = n.step(e, *q); p.push((*e, at(*q))); }
                if n.ph == Ph::Win || n.ph == Ph::Loss || n.flag() > *flags { continue; }
                if seen.len() < 400 && seen.insert(n.key()) { todo.push_back((n, p)); }
            }
        }
    });
    // the protected board
    for (r, c) in shapes(1, 6) {
        ctx.par(1 << (r * c), |m| {
            let b = from_mask(r, c, m as u64);
            let b2 = from_mask(c, r, m as u64);
            let mut k = Case::default();
            let mut s = SafeBoard::new(b.clone());
            k.op("=o=m.SafeBoard(*a)", js((&b,)), "null".into());
            for t in [&b, &b2] {
                k.op("o.into_vec_vec()", "[]".into(), ex(|| s.into_vec_vec()));
                for i in 0..t.len() as i64 + 2 { for j in 0..t[0].len() as i64 + 2 { let (i, j) = (i - 1, j - 1); k.op("o[a[0]][a[1]]", js((i, j)), ex(|| s[i as usize].into_vec()[j as usize])); } }
                s.set(b2.clone());
                k.op("=o.set(*a)", js((&b2,)), "null".into());
            }
            ctx.add(1, k.n as u64, 1);
            sink.put(k);
        });
    }
}
fn fam_generators(ctx: &Ctx, sink: &Sink) {
    // random boards: what the arguments promise; arguments without freedom: the board itself
    let mut k = Case::default();
    for (r, c) in [(1usize, 7usize), (7, 1), (2, 5), (5, 2), (3, 4), (4, 3), (4, 9), (9, 4)] { for x in 0..r { for y in 0..c {
        let full = r * c - 1;
        for n in [0, 1, full / 2, full - 1, full] {
            for f in ["laymine", "laymine_op"] { if f == "laymine_op" && n + nbs(r, c, (x, y)).len() + 1 > r * c { continue; } k.op(&format!("contract(m.{f}(*a),a,None)"), js((r, c, n, x, y)), "true".into()); }
            if n <= full / 3 && n + nbs(r, c, (x, y)).len() + 1 <= r * c { for f in ["laymine_solvable", "laymine_solvable_thread"] { k.op(&format!("contract(m.{f}(*a)[0],a,None)"), js((r, c, n, x, y, 2usize)), "true".into()); k.op(&format!("sound(m.{f}(row=a[0],column=a[1],mine_num=a[2],x0=a[3],y0=a[4],max_times=a[5]),a)"), js((r, c, n, x, y, 3usize)), "true".into()); } }
        }
        let most = r * c - nbs(r, c, (x, y)).len() - 1;
        k.op("m.laymine_op(*a)", js((r, c, most, x, y)), ex(|| laymine_op(r, c, most, x, y)));
        k.op("m.laymine(*a)", js((r, c, full, x, y)), ex(|| laymine(r, c, full, x, y)));
        k.op("m.laymine_solvable(*a)", js((r, c, 0usize, x, y)), ex(|| laymine_solvable(r, c, 0, x, y, 1_000_000)));
        k.op("m.laymine_solvable(*a)", js((r, c, most, x, y, 1usize)), ex(|| laymine_solvable(r, c, most, x, y, 1)));
        k.op("m.laymine_solvable_thread(*a)", js((r, c, 0usize, x, y)), js((vec![vec![0; c]; r], true)));
        k.op("sound(m.laymine_solvable_adjust(*a),a)", js((r, c, (r * c) / 8, x, y)), "true".into());
        ctx.add(1, k.n as u64, 1);
        sink.put(std::mem::take(&mut k));
    } } }
    for n in [0usize, 1, 15, 16, 17, 33] { k.op("(lambda v:[len(v),sum(v)])(m.sample_3BVs_exp(*a))", js((0usize, 0usize, n)), js((382usize, n))); k.op("(lambda v:[len(v),sum(v)])(m.sample_3BVs_exp(*a))", js((12usize, 7usize, n)), js((382usize, n))); }
    // an image that cannot be recognised is answered with the single value 200
    k.op("m.OBR_board(*a)", js((Vec::<usize>::new(), 0usize, 0usize)), ex(|| match OBR_board(vec![], 0, 0) { Ok(b) => b, Err(_) => vec![vec![200]] }));
    // pictures of boards higher than wide and wider than high
    for (r, c) in [(8usize, 11usize), (11, 8)] {
        let m: Vec<Vec<bool>> = (0..r).map(|i| (0..c).map(|j| (i * 3 + j * 5) % 7 == 2).collect()).collect();
        let v: B = number(&m).iter().enumerate().map(|(i, x)| x.iter().enumerate().map(|(j, n)| if *n == -1 || (i + j) % 3 == 0 { 10 } else { *n }).collect()).collect();
        let (d, h, w) = crate::p_pic::picture(&v);
        k.op("m.OBR_board(*a)", js((d.clone(), h, w)), ex(|| OBR_board(d, h, w).unwrap_or(vec![vec![200]])));
    }
    ctx.add(1, k.n as u64, 1);
    sink.put(k);
}
fn fam_live(ctx: &Ctx, sink: &Sink) {
    let th = ctx.thorough;
    let pats = [Pattern { a: 1000, b: 17_300, back: false }, Pattern { a: 500, b: 1_234_567, back: true }];
    let jobs = vjobs(false);
    let root = scratch();
    let nfile = std::sync::atomic::AtomicUsize::new(0);
    ctx.par(jobs.len(), |ji| {
        let j = &jobs[ji];
        let n = std::cell::Cell::new(0usize);
        let full = j.b.len() * j.b[0].len() <= 1;
        let cap = if full { 4_000 } else if th { 150 } else { 40 };
        explore(&j.b, j.pix, &j.moves, j.depth, j.flags.min(2), cap, &|p| {
            let i = n.get();
            n.set(i + 1);
            let pat = pats[i % 2];
            let mut k = Case::default();
            k.clk(MONO0, WALL0);
            let mut v: Live = BaseVideo::<SafeBoard>::new_before_game((*j.b).clone(), j.pix as u8);
            k.op("=o=m.BaseVideo(*a)", js((&*j.b, j.pix)), "null".into());
            if p.len() == 1 { k.op("obs(o,W)", "[]".into(), obs_live(&mut v)); }
            let c0 = || format!("live {}", show_px(p));
            for (q, e) in p.iter().enumerate() {
                let (now, wall) = pat.at(q);
                k.clk(now, wall);
                let w = call(&c0, || v.step(e.0, (e.1, e.2)).unwrap());
                k.op("=o.step(a[0],tuple(a[1]))", js((e.0, (e.1, e.2))), if w.is_ok() { "null".into() } else { ERR.into() });
            }
            let (now, wall) = pat.at(p.len() + 1);
            k.clk(now, wall);
            k.op("obs(o,W)", "[]".into(), obs_live(&mut v));
            k.op("events(o)", "[]".into(), events!(v));
            macro_rules! act { ($py:expr, $args:expr, $e:expr) => {{ let w = call(&c0, || { let _ = $e; }); k.op($py, $args, if w.is_ok() { "null".into() } else { ERR.into() }); }} }
            // settings: accepted in some phases, refused in others
            if i % 3 == 0 {
                act!("=o.is_offical=a[0]", js((i % 2 == 0,)), v.set_is_offical(i % 2 == 0).unwrap());
                act!("=o.is_fair=a[0]", js((i % 2 == 1,)), v.set_is_fair(i % 2 == 1).unwrap());
                act!("=o.mode=a[0]", js((300u16,)), v.set_mode(300).unwrap());
                act!("=o.software=a[0]", js((vec![65u8, 255],)), v.set_software(vec![65, 255]).unwrap());
                act!("=o.player_designator=a[0]", js((vec![1u8, 2],)), v.set_player_designator(vec![1, 2]).unwrap());
                act!("=o.race_designator=a[0]", js((vec![3u8],)), v.set_race_designator(vec![3]).unwrap());
                act!("=o.uniqueness_designator=a[0]", js((vec![4u8],)), v.set_uniqueness_designator(vec![4]).unwrap());
                act!("=o.country=a[0]", js((vec![67u8, 78],)), v.set_country(vec![67, 78]).unwrap());
                act!("=o.device_uuid=a[0]", js((vec![7u8; 32],)), v.set_device_uuid(vec![7; 32]).unwrap());
                act!("=o.pix_size=a[0]", js((20u8,)), v.set_pix_size(20));
                act!("=o.video_playing_pix_size=a[0]", js((32u8,)), v.set_video_playing_pix_size(32));
                act!("=o.current_event_id=a[0]", js((0usize,)), v.set_current_event_id(0).unwrap());
                k.op("obs(o,W)", "[]".into(), obs_live(&mut v));
            }
            let tail = i % 5;
            if tail < 2 {
                let (py, win) = if tail == 0 { ("=o.win_then_flag_all_mine()", true) } else { ("=o.loss_then_open_all_mine()", false) };
                act!(py, "[]".into(), if win { v.win_then_flag_all_mine() } else { v.loss_then_open_all_mine() });
                k.op("obs(o,W)", "[]".into(), obs_live(&mut v));
            }
            if tail < 3 && matches!(v.game_board_state, GameBoardState::Win | GameBoardState::Loss) {
                act!("=o.generate_evf_v0_raw_data()", "[]".into(), v.generate_evf_v0_raw_data());
                act!("=o.checksum=a[0]", js(([9u8; 32],)), v.set_checksum([9; 32]).unwrap());
                k.op("obs(o,W)", "[]".into(), obs_live(&mut v));
                let f = format!("{}/py_l{}", root, nfile.fetch_add(1, std::sync::atomic::Ordering::SeqCst));
                k.op("saved(o,a[0])", js((&f,)), ex(|| v.get_raw_data().unwrap()));
            }
            if tail == 3 {
                // another layout of the same size before or during the game
                let b2 = from_mask(j.b.len(), j.b[0].len(), 1);
                act!("=o.board=a[0]", js((&b2,)), v.set_board(b2.clone()).unwrap());
                k.op("obs(o,W)", "[]".into(), obs_live(&mut v));
            }
            if tail == 4 {
                act!("=o.reset(*a)", js((2usize, 3usize, 9u8)), v.reset(2, 3, 9));
                k.op("obs(o,W)", "[]".into(), obs_live(&mut v));
            }
            clock::release();
            k.op("=rel()", "[]".into(), "null".into());
            ctx.add(1, k.n as u64, matches!(v.game_board_state, GameBoardState::Win | GameBoardState::Loss) as u64);
            sink.put(k);
            true
        });
    });
}
fn fam_files(ctx: &Ctx, sink: &Sink) {
    let recs = crate::p_seek::recordings(false);
    let root = scratch();
    let all_meta = metas();
    let step = if ctx.thorough { 1 } else { 5 };
    let pick: Vec<usize> = (0..recs.len()).filter(|i| i % step == 0 || recs[*i].r.evs.len() > 14).collect();
    ctx.count("recordings", pick.len() as u64);
    ctx.par(pick.len() * 4, |q| {
        let rp = &recs[pick[q / 4]];
        let i = pick[q / 4] / step;
        let f = FMTS[q % 4];
        let Some(bytes) = file_bytes(f, rp, i, &all_meta) else { return; };
        let name = format!("{}/py_{}.bin", root, q);
        std::fs::write(&name, &bytes).unwrap();
        let c0 = || format!("{:?} recording {:?}", f, &bytes[..bytes.len().min(200)]);
        let mut k = Case::default();
        let cls = match f { Fmt::Evf => "EvfVideo", Fmt::Avf => "AvfVideo", Fmt::Rmv => "RmvVideo", Fmt::Mvf => "MvfVideo" };
        k.op(&format!("=o=m.{cls}(a[0]);o.parse_video()"), js((&name,)), "null".into());
        let p = call(&c0, || parse(f, &bytes));
        let mut d = match p {
            Ok(Ok(d)) => d,
            _ => { let mut k = Case::default(); k.op(&format!("=o=m.{cls}(a[0]);o.parse_video()"), js((&name,)), ERR.into()); ctx.add(1, 1, 0); sink.put(k); return; }
        };
        k.op("obs(o,W)", "[]".into(), obs_dv(&mut d));
        macro_rules! act { ($py:expr, $args:expr, $e:expr) => {{ let w = call(&c0, || { let _ = $e; }); let ok = w.is_ok(); k.op($py, $args, if ok { "null".into() } else { ERR.into() }); ok }} }
        if !act!("=o.analyse()", "[]".into(), d.analyse()) { sink.put(k); return; }
        k.op("obs(o,W)", "[]".into(), obs_dv(&mut d));
        k.op("events(o)", "[]".into(), events!(d));
        let feats = ["needless_guess", "high_risk_guess", "jump_judge", "survive_poss", "mouse_trace", "vision_transfer", "super_fl_local"];
        if i % 2 == 0 {
            let fs: Vec<&str> = feats.iter().enumerate().filter(|(n, _)| (i / 2) >> n & 1 == 1 || i % 4 == 0).map(|x| *x.1).collect();
            act!("=o.analyse_for_features(*a)", js((&fs,)), d.analyse_for_features(fs.clone()));
            k.op("events(o)", "[]".into(), events!(d));
        }
        let n = d.video_action_state_recorder.len();
        if q % 3 == 0 { act!("=o.video_playing_pix_size=a[0]", js((31u8,)), d.set_video_playing_pix_size(31)); }
        let t1 = d.video_action_state_recorder.last().map(|e| e.time).unwrap_or(0.0);
        for t in [-1e9, 0.0, 0.0004, t1 / 2.0, t1, 1e9, f64::INFINITY, -0.0004] {
            act!("=o.current_time=a[0]", js((t,)), d.set_current_time(t));
            k.op("obs(o,W)", "[]".into(), obs_dv(&mut d));
        }
        // to every event, from the last to the first, and beyond the end
        let stride = (n / 12).max(1);
        for id in (0..n).rev().step_by(stride).chain([n, n + 1000, n - 1]) {
            act!("=o.current_event_id=a[0]", js((id,)), d.set_current_event_id(id).unwrap());
            k.op("obs(o,W)", "[]".into(), obs_dv(&mut d));
        }
        if act!("=o.generate_evf_v0_raw_data()", "[]".into(), d.generate_evf_v0_raw_data()) {
            k.op("o.raw_data", "[]".into(), ex(|| d.get_raw_data().unwrap()));
            let s = format!("{}/py_s{}", root, q);
            k.op("saved(o,a[0])", js((&s,)), ex(|| d.get_raw_data().unwrap()));
        }
        ctx.add(1, k.n as u64, 1);
        ctx.outcome(cls.to_string());
        sink.put(k);
    });
    // no such file, and damaged files
    let mut k = Case::default();
    for cls in ["EvfVideo", "AvfVideo", "RmvVideo", "MvfVideo"] {
        k.op(&format!("=m.{cls}(a[0])"), js((format!("{root}/absent.bin"),)), ERR.into());
        let name = format!("{root}/bad_{cls}.bin");
        std::fs::write(&name, [1u8, 2, 3]).unwrap();
        k.op(&format!("=o=m.{cls}(a[0]);o.parse_video()"), js((&name,)), ERR.into());
    }
    ctx.add(1, k.n as u64, 1);
    sink.put(k);
}
/// the recording as a file of that format
pub fn file_bytes(f: Fmt, rp: &crate::p_seek::Rp, i: usize, all_meta: &[Meta]) -> Option<Vec<u8>> {
    let r = &rp.r;
    let b = &r.g.b;
    let bbbv = stats(b).bbbv;
    if f == Fmt::Evf {
        let mut m = all_meta[i * 7 % all_meta.len()].clone();
        m.completed = r.g.ph == Ph::Win;
        m.start = b"1700000000000000".to_vec();
        m.end = b"1700000001000000".to_vec();
        if i % 2 == 0 { m.checksum = Some([i as u8; 32]); }
        let e: Vec<(u32, &str, usize, usize)> = r.evs.iter().map(|e| (e.t, e.e, e.y, e.x)).collect();
        return Some(encode(b, r.pix, bbbv, r.rtime, &m, &e));
    }
    if r.pix != 16 { return None; }
    let p: Vec<PEv> = r.evs.iter().map(|e| (e.e, e.y, e.x)).collect();
    foreign_bytes(f, b, &p, bbbv, i)
}

/// hands the cases to the replaying processes and reports what they disagree about
fn replay(ctx: &Ctx, sink: &Sink, root: &str, nproc: usize, cmd: &dyn Fn(&str) -> std::process::Command) {
    sink.flush();
    for x in sink.shown.lock().unwrap().iter() { ctx.sample(|| x.clone()); }
    if std::env::var("MC_TIMES").is_ok() { eprintln!("generated {:?} cases {:?} ops in {:.1} s", sink.cases, sink.ops, ctx.elapsed()); }
    let hs: Vec<std::process::Child> = (0..nproc).map(|i| cmd(&format!("{root}/cases{i}.jsonl")).stdin(std::process::Stdio::null()).stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::null()).spawn().expect("the replaying program does not start")).collect();
    let mut done = 0u64;
    for h in hs {
        let out = h.wait_with_output().unwrap();
        let text = String::from_utf8_lossy(&out.stdout).to_string();
        let mut last = String::new();
        let mut fin = false;
        for l in text.lines() {
            if let Some(x) = l.strip_prefix("BAD ") { let (k, d) = x.split_once(" :: ").unwrap_or((x, x)); ctx.violation(k, || d.to_string()); }
            else if let Some(x) = l.strip_prefix("DONE ") { done += x.trim().parse::<u64>().unwrap_or(0); fin = true; }
            else if let Some(x) = l.strip_prefix("SETUP ") { eprintln!("the binding cannot be loaded: {x}"); std::process::exit(5); }
            else if let Some(x) = l.strip_prefix("AT ") { last = x.to_string(); }
        }
        if !fin { ctx.violation("process-died", || format!("the replaying process ended with {:?} in or after {}", out.status, last)); }
    }
    ctx.count("cases", sink.cases.load(std::sync::atomic::Ordering::SeqCst));
    ctx.count("binding_calls_compared", done);
}

// ---------------------------------------------------------------- C29
fn tell(n: &str, s: &Sink) { if std::env::var("MC_TIMES").is_ok() { eprintln!("{n}: {:?} cases, {:?} ops so far", s.cases, s.ops); } }
pub fn c29(ctx: &Ctx) {
    std::env::set_current_dir("/repo/base").unwrap(); // the image reader looks for params.onnx in the working folder
    let root = scratch();
    let nproc = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(8);
    let sink = Sink::new(&root, nproc);
    fam_layouts(ctx, &sink); tell("fam_layouts", &sink);
    fam_positions(ctx, &sink); tell("fam_positions", &sink);
    fam_layers(ctx, &sink); tell("fam_layers", &sink);
    fam_generators(ctx, &sink); tell("fam_generators", &sink);
    fam_live(ctx, &sink); tell("fam_live", &sink);
    fam_files(ctx, &sink); tell("fam_files", &sink);
    let py = format!("{VERIF}/harness_py");
    replay(ctx, &sink, &root, nproc, &|f| { let mut c = std::process::Command::new("python3"); c.args(["-s", "-E", &format!("{py}/runner.py"), &format!("{py}/target"), f]).env("LD_PRELOAD", format!("{py}/target/libfakeclock.so")); c });
    ctx.note("every layout of every shape up to 9 cells (thorough 11) through the board functions and Board; every 4x4 layout with up to 4 mines (6) through the template test");
    ctx.note("every layout x opened-set position of 1x3 2x2 2x3 3x2 1x6 (thorough also 2x4 3x3 1x8) with up to five mine totals through the position functions and GameBoard; all fillings of 1x3 and 2x2 with six values, contradictory ones included");
    ctx.note("both state machines: every reachable state of all layouts of 1x1 1x2 2x1 (14 events) and layouts of 1x3 2x2 2x3 (clicks), every move from each; live recordings explored breadth-first with the clock under control; recordings in four formats, every reading before and after analysing, at seeks to times and events");
    ctx.note("random generators: all start cells of eight shapes, contracts of the arguments; exact boards where the arguments leave no freedom");
}


// ---------------------------------------------------------------- C30
fn obs_js(d: &mut Dv) -> String {
    let ms = |d: &Dv| mstate(d.video_action_state_recorder[d.current_event_id].mouse_state);
    obs_video!(d, gstate(d.game_board_state), ms(d), "raw_data" => d.get_raw_data().unwrap(), "x_y" => d.get_x_y().unwrap(), "device_uuid" => d.device_uuid.clone(), "pix_size" => d.get_pix_size().unwrap(), "is_valid" => d.is_valid())
}
fn js_functions(ctx: &Ctx, sink: &Sink) {
    let th = ctx.thorough;
    let mut lay: Vec<(usize, usize, u64)> = vec![];
    for (r, c) in shapes(1, if th { 14 } else { 11 }) { for m in 0..1u64 << (r * c) { lay.push((r, c, m)); } }
    ctx.par(lay.len() / 8 + 1, |q| {
        let mut k = Case::default();
        for (r, c, m) in &lay[q * 8..lay.len().min(q * 8 + 8)] {
            let b = from_mask(*r, *c, *m);
            k.op("cal_op", js((&b,)), ex(|| cal_op(&b)));
            k.op("cal_bbbv", js((&b,)), ex(|| cal_bbbv(&b)));
        }
        ctx.add(1, k.n as u64, 1);
        sink.put(k);
    });
    let mut shp = vec![(1usize, 3usize), (2, 2), (2, 3), (3, 2), (1, 6)];
    if th { shp.extend([(2, 4), (3, 3), (1, 8)]); }
    let want = |v: &B, t: usize| ex(|| { let mut w = v.clone(); let _ = mark_board(&mut w); match cal_possibility_onboard(&w, t as f64) { Ok(v) => js(v), Err(_) => "[[],[0,0,0]]".into() } });
    // the value is a JSON text already
    let raw = |s: String| -> String { if s == ERR { s } else { let t: String = s.trim_matches('"').into(); t } };
    for (r, c) in shp {
        let n = r * c;
        ctx.par(1 << n, |m| {
            let b = from_mask(r, c, m as u64);
            let safe = !(m as u64) & ((1 << n) - 1);
            let mut s = safe;
            let mut k = Case::default();
            loop {
                let v: B = (0..r).map(|i| (0..c).map(|j| if s >> (i * c + j) & 1 == 1 { b[i][j] } else { 10 }).collect()).collect();
                let mut vs = vec![v.clone()];
                let cl: Vec<P> = crate::p_game::cells_of(&v).into_iter().filter(|p| v[p.0][p.1] == 10).collect();
                if let (Some(p), Some(q)) = (cl.first(), cl.last()) { for (p, f) in [(p, 11), (q, 12)] { let mut w = v.clone(); w[p.0][p.1] = f; vs.push(w); } }
                for v in vs { for t in [0, 1, mines(&b), mines(&b) + 1, n] { k.op("cal_possibility_onboard", js((&v, t)), raw(want(&v, t))); } }
                if s == 0 { break; }
                s = (s - 1) & safe;
            }
            ctx.add(1, k.n as u64, 1);
            sink.put(k);
        });
    }
    let vals = [0, 1, 2, 10, 11, 12];
    for (r, c) in [(1usize, 3usize), (2, 2)] {
        let mut k = Case::default();
        for i in 0..6usize.pow((r * c) as u32) {
            let mut x = i;
            let v: B = (0..r).map(|_| (0..c).map(|_| { let q = vals[x % 6]; x /= 6; q }).collect()).collect();
            for t in 0..=r * c { k.op("cal_possibility_onboard", js((&v, t)), raw(want(&v, t))); }
            if k.n > 200 { ctx.add(1, k.n as u64, 1); sink.put(std::mem::take(&mut k)); }
        }
        ctx.add(1, k.n as u64, 1);
        sink.put(k);
    }
}
fn js_generators(ctx: &Ctx, sink: &Sink) {
    let th = ctx.thorough;
    for (r, c) in [(1usize, 7usize), (7, 1), (2, 5), (5, 2), (3, 4), (4, 3), (4, 9), (9, 4)] { for x in 0..r { for y in 0..c {
        let mut k = Case::default();
        let full = r * c - 1;
        let most = r * c - nbs(r, c, (x, y)).len() - 1;
        for n in [0, 1, full / 2, full - 1, full] { k.op("contract", js(("laymine", r, c, n, x, y)), "true".into()); }
        for n in [0, 1, most / 2, most] { if n <= most { k.op("contract", js(("laymine_op", r, c, n, x, y)), "true".into()); } }
        for n in [0, 1, full / 5, full / 3] { if n <= most { k.op("contract", format!("[\"laymine_solvable\",{r},{c},{n},{x},{y},50]"), "true".into()); } }
        k.op("laymine_op", js((r, c, most, x, y)), ex(|| laymine_op(r, c, most, x, y)));
        k.op("laymine", js((r, c, full, x, y)), ex(|| laymine(r, c, full, x, y)));
        k.op("laymine_solvable", js((r, c, 0usize, x, y, 9usize)), ex(|| laymine_solvable(r, c, 0, x, y, 9)));
        k.op("laymine_solvable", js((r, c, most, x, y, 1usize)), ex(|| laymine_solvable(r, c, most, x, y, 1)));
        ctx.add(1, k.n as u64, 1);
        sink.put(k);
    } } }
    // every outcome of the random source: each layout the arguments allow must come equally often
    for (r, c) in shapes(2, if th { 12 } else { 10 }) { for x in 0..r { for y in 0..c {
        let near = nbs(r, c, (x, y)).len() + 1;
        for (f, area) in [("laymine", r * c - 1), ("laymine_op", (r * c).saturating_sub(near))] {
            let big = th && area == 5 && x == 0 && y == 0 && (r, c) != (5, 2) && (f == "laymine" || r == 1 || r == 3);
            if area == 0 || area > 4 && !big { continue; }
            for n in if big { 2..=2 } else { 0..=area } {
                let mut k = Case::default();
                k.op("uniform", js((f, r, c, n, x, y)), "true".into());
                ctx.add(1, 1, 1);
                ctx.outcome("uniform".into());
                sink.put(k);
            }
        }
    } } }
}
fn js_machine(ctx: &Ctx, sink: &Sink) {
    let th = ctx.thorough;
    let mut jobs: Vec<(Arc<B>, Vec<Vec<crate::p_game::Ev>>, usize)> = vec![];
    for (r, c) in [(1usize, 1usize), (1, 2), (2, 1)] { for m in 0..1u64 << (r * c) { let b = Arc::new(from_mask(r, c, m)); let mv = crate::p_game::single(&b, &crate::p_game::ALL_EVENTS, true); jobs.push((b, mv, 9)); } }
    for (r, c) in [(1usize, 3usize), (2, 2), (2, 3), (3, 2)] { for m in crate::p_game::canon(r, c) {
        let b = Arc::new(from_mask(r, c, m));
        let mv = if r * c <= 4 { crate::p_game::single(&b, &["lc", "lr", "rc", "rr", "cc"], true) } else { crate::p_game::clicks(&b) };
        jobs.push((b, mv, if th { 9 } else { 2 }));
    } }
    ctx.par(jobs.len(), |i| {
        let (b, moves, flags) = &jobs[i];
        let (r, c) = (b.len(), b[0].len());
        let at = |p: Option<P>| p.unwrap_or((r, c));
        let mut seen = HashSet::new();
        let mut todo: VecDeque<(Game, Vec<(&'static str, P)>)> = VecDeque::new();
        let g0 = Game::new(b.clone());
        seen.insert(g0.key());
        todo.push_back((g0, vec![]));
        let c0 = || "flow".to_string();
        let flat = |fl: &[(&'static str, P)]| js((fl.iter().map(|(e, p)| (*e, p.0, p.1)).collect::<Vec<_>>(),));
        while let Some((g, path)) = todo.pop_front() {
            let mut k = Case::default();
            let mut u = MinesweeperBoard::<Vec<Vec<i32>>>::new((**b).clone());
            k.op("board_new", js((&**b,)), "null".into());
            let w = call(&c0, || u.step_flow(path.clone()).unwrap());
            k.op("flow", flat(&path), if w.is_ok() { "null".into() } else { ERR.into() });
            k.op("obs", "[]".into(), obs_mb!(u, u.board.clone()));
            // another layout, another visible board in the middle of the game
            let b2 = from_mask(r, c, 1);
            u.board = b2.clone();
            k.op("set_board", js((&b2,)), "null".into());
            k.op("obs", "[]".into(), obs_mb!(u, u.board.clone()));
            let g2: B = (0..r).map(|i| (0..c).map(|j| [10, 11, 0, 1, -1][(i * c + j) % 5]).collect()).collect();
            u.game_board = g2.clone();
            k.op("set_game_board", js((&g2,)), "null".into());
            k.op("obs", "[]".into(), obs_mb!(u, u.board.clone()));
            for mv in moves {
                let mut u = MinesweeperBoard::<Vec<Vec<i32>>>::new((**b).clone());
                k.op("board_new", js((&**b,)), "null".into());
                let _ = call(&c0, || u.step_flow(path.clone()).map(|_| 0));
                k.op("flow", flat(&path), "\"?\"".into());
                for (e, p) in mv {
                    let p = at(*p);
                    let w = call(&c0, || u.step(e, p).unwrap());
                    k.op("step", js((*e, p.0, p.1)), if w.is_ok() { "null".into() } else { ERR.into() });
                }
                k.op("obs", "[]".into(), obs_mb!(u, u.board.clone()));
                ctx.add(0, 1, 0);
            }
            sink.put(k);
            ctx.add(1, 0, 1);
            for mv in moves {
                let mut n = g.clone();
                let mut p = path.clone();
                for (e, q) in mv { let _ = n.step(e, *q); p.push((*e, at(*q))); }
                if n.ph == Ph::Win || n.ph == Ph::Loss || n.flag() > *flags { continue; }
                if seen.len() < if th { 4000 } else { 400 } && seen.insert(n.key()) { todo.push_back((n, p)); }
            }
        }
    });
}
fn js_files(ctx: &Ctx, sink: &Sink) {
    let recs = crate::p_seek::recordings(false);
    let root = scratch();
    let all_meta = metas();
    let step = if ctx.thorough { 1 } else { 4 };
    let pick: Vec<usize> = (0..recs.len()).filter(|i| i % step == 0 || recs[*i].r.evs.len() > 14).collect();
    ctx.count("recordings", pick.len() as u64);
    ctx.par(pick.len() * 4, |q| {
        let rp = &recs[pick[q / 4]];
        let i = pick[q / 4] / step;
        let f = FMTS[q % 4];
        let Some(bytes) = file_bytes(f, rp, i, &all_meta) else { return; };
        let name = format!("{}/js_{}.bin", root, q);
        std::fs::write(&name, &bytes).unwrap();
        let c0 = || format!("{:?} recording {:?}", f, &bytes[..bytes.len().min(200)]);
        let cls = match f { Fmt::Evf => "Evf", Fmt::Avf => "Avf", Fmt::Rmv => "Rmv", Fmt::Mvf => "Mvf" };
        let mut k = Case::default();
        k.op("video_new", js((cls, &name, "replay.bin")), "null".into());
        let Ok(Ok(mut d)) = call(&c0, || parse(f, &bytes)) else { k.op("parse", "[]".into(), ERR.into()); ctx.add(1, 1, 0); sink.put(k); return; };
        k.op("parse", "[]".into(), "null".into());
        k.op("obs", "[]".into(), obs_js(&mut d));
        macro_rules! act { ($op:expr, $args:expr, $e:expr) => {{ let w = call(&c0, || { let _ = $e; }); let ok = w.is_ok(); k.op($op, $args, if ok { "null".into() } else { ERR.into() }); ok }} }
        if !act!("analyse", "[]".into(), d.analyse()) { sink.put(k); return; }
        k.op("obs", "[]".into(), obs_js(&mut d));
        let n = d.video_action_state_recorder.len();
        let evs: Vec<String> = (0..=n).map(|i| format!("[{},{},{},{},{},{}]", ex(|| d.video_action_state_recorder[i].time), ex(|| d.video_action_state_recorder[i].mouse.clone()), ex(|| d.video_action_state_recorder[i].x), ex(|| d.video_action_state_recorder[i].y), ex(|| d.video_action_state_recorder[i].useful_level), ex(|| mstate(d.video_action_state_recorder[i].mouse_state)))).collect();
        k.op("events", "[]".into(), format!("[{}]", evs.join(",")));
        let t1 = d.video_action_state_recorder.last().map(|e| e.time).unwrap_or(0.0);
        for t in [-1e9, 0.0, 0.0004, t1 / 2.0, t1, 1e9, f64::INFINITY, -0.0004] {
            act!("set_time", js((t,)), d.set_current_time(t));
            k.op("obs", "[]".into(), obs_js(&mut d));
        }
        let stride = (n / 12).max(1);
        for id in (0..n).rev().step_by(stride).chain([n, n + 1000, n - 1]) {
            act!("set_id", js((id,)), d.set_current_event_id(id).unwrap());
            k.op("obs", "[]".into(), obs_js(&mut d));
        }
        ctx.add(1, k.n as u64, 1);
        ctx.outcome(cls.to_string());
        sink.put(k);
    });
    let mut k = Case::default();
    for cls in ["Evf", "Avf", "Rmv", "Mvf"] { for (n, bytes) in [vec![], vec![1u8, 2, 3], vec![0; 400], vec![255; 400]].iter().enumerate() {
        let name = format!("{root}/bad_{cls}{n}.bin");
        std::fs::write(&name, bytes).unwrap();
        let f = match cls { "Evf" => Fmt::Evf, "Avf" => Fmt::Avf, "Rmv" => Fmt::Rmv, _ => Fmt::Mvf };
        k.op("video_new", js((cls, &name, "x")), "null".into());
        let ok = matches!(call(&|| "damaged".to_string(), || parse(f, bytes)), Ok(Ok(_)));
        k.op("parse", "[]".into(), if ok { "null".into() } else { ERR.into() });
    } }
    ctx.add(1, k.n as u64, 1);
    sink.put(k);
}
pub fn c30(ctx: &Ctx) {
    let root = scratch();
    let nproc = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(8);
    let sink = Sink::new(&root, nproc);
    js_functions(ctx, &sink);
    js_generators(ctx, &sink);
    js_machine(ctx, &sink);
    js_files(ctx, &sink);
    let exe = format!("{VERIF}/harness_js/target/release/bind_js");
    replay(ctx, &sink, &root, nproc, &|f| { let mut c = std::process::Command::new(&exe); c.arg(f); c });
    ctx.note("every layout of every shape up to 11 cells (thorough 14) through cal_bbbv and cal_op; every layout x opened-set position of 1x3 2x2 2x3 3x2 1x6 (thorough also 2x4 3x3 1x8), with flags, with five mine totals, and all fillings of 1x3 and 2x2 with six values, through cal_possibility_onboard");
    ctx.note("the state machine: every reachable state of all layouts of 1x1 1x2 2x1 (14 events) and layouts of 1x3 2x2 (5 events), 2x3 3x2 (clicks), every move from each; recordings in four formats, every reading before and after analysing, at seeks to times and events; damaged files");
    ctx.note("generators: the contract at every start cell of eight shapes; every outcome of the random source of this build, chosen by the checker, on areas up to 4 cells (thorough also some of 5): each layout equally often, and the draw accepted exactly on a multiple of its period");
}
