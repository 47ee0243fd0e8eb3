//! C04 C05 C06: the game state machine against the reference game.
use crate::ctx::*;
use crate::refgame::*;
use crate::refm::*;
use ms_toollib::*;
use std::collections::HashMap;
use std::sync::Arc;

#[derive(Clone, Copy, PartialEq)]
pub enum Aspect { Board, Counters, Solved }
pub type Ev = (&'static str, Option<P>);

pub fn outside(b: &B, p: Option<P>) -> P { p.unwrap_or((b.len(), b[0].len())) }
enum Impl { V(MinesweeperBoard<Vec<Vec<i32>>>), S(MinesweeperBoard<SafeBoard>) }
macro_rules! on { ($s:expr, $m:ident, $e:expr) => { match $s { Impl::V($m) => $e, Impl::S($m) => $e } } }
impl Impl {
    fn new(b: &B, safe: bool) -> Impl {
        if safe { Impl::S(MinesweeperBoard::<SafeBoard>::new(SafeBoard::new(b.clone()))) } else { Impl::V(MinesweeperBoard::<Vec<Vec<i32>>>::new(b.clone())) }
    }
    fn step(&mut self, e: &str, p: P) -> Result<u8, ()> { on!(self, m, m.step(e, p)) }
}
pub fn show_path(p: &[Ev]) -> String { p.iter().map(|(e, p)| match p { Some(p) => format!("{}({},{})", e, p.0, p.1), None => format!("{}(out)", e) }).collect::<Vec<_>>().join(" ") }

/// Replays prefix, then `last` steps checked one by one. Returns false when the implementation deviates from the model (path must be cut).
fn check(ctx: &Ctx, asp: Aspect, b: &Arc<B>, safe: bool, prefix: &[Ev], before: &Game, last: &[Ev], bbbv: usize) -> Option<Game> {
    let case = || format!("board {} safe={} events {} then {}", show(b), safe, show_path(prefix), show_path(last));
    let mut g = before.clone();
    let r = call(&case, || {
        let mut m = Impl::new(b, safe);
        for (e, p) in prefix { let _ = m.step(e, outside(b, *p)); }
        let mut errs: Vec<(String, String)> = vec![];
        for (k, (e, p)) in last.iter().enumerate() {
            let pre = on!(&m, x, (x.left, x.right, x.double, x.ce, x.flag, x.bbbv_solved, x.mouse_state, x.game_board_state));
            let old_ph = g.ph;
            let want = g.step(e, *p);
            let pos = outside(b, *p);
            let got = m.step(e, pos);
            let at = || format!("step {} of the tail ({} {:?}): ", k, e, p);
            on!(&m, x, {
                let now = (x.left, x.right, x.double, x.ce, x.flag, x.bbbv_solved, x.mouse_state, x.game_board_state);
                let board_ok = x.game_board == g.g && same_ph(g.ph, x.game_board_state);
                match asp {
                    Aspect::Board => {
                        if x.game_board != g.g { errs.push(("board".into(), format!("{}visible board {} want {}", at(), show(&x.game_board), show(&g.g)))); }
                        else if !board_ok { errs.push(("result".into(), format!("{}phase {:?} want {:?}", at(), x.game_board_state, g.ph))); }
                        else if got.is_ok() != want.is_ok() { errs.push(("refusal".into(), format!("{}accepted {} want {}", at(), got.is_ok(), want.is_ok()))); }
                        // effect level as documented
                        else if old_ph == Ph::Playing && got != want { errs.push(("effect".into(), format!("{}effect level {:?} want {:?}", at(), got, want))); }
                    }
                    Aspect::Counters => if board_ok {
                        let w = (g.left, g.right, g.double, g.ce, g.flag());
                        let n = (x.left, x.right, x.double, x.ce, x.flag);
                        if n != w { errs.push(("counters".into(), format!("{}(left,right,double,ce,flag) {:?} want {:?}", at(), n, w))); }
                        if !same_m(g.m, x.mouse_state) { errs.push(("mouse".into(), format!("{}button state {:?} want {:?}", at(), x.mouse_state, g.m))); }
                        if got.is_err() && pre != now { errs.push(("refused-effect".into(), format!("{}refused event changed {:?} to {:?}", at(), pre, now))); }
                    },
                    Aspect::Solved => {
                        let w = solved_of(b, &x.game_board);
                        if x.bbbv_solved != w || x.bbbv_solved > bbbv { errs.push(("solved".into(), format!("{}solved 3BV {} want {} (3BV of board {})", at(), x.bbbv_solved, w, bbbv))); }
                        else if x.bbbv_solved < pre.5 { errs.push(("decrease".into(), format!("{}solved 3BV fell from {} to {}", at(), pre.5, x.bbbv_solved))); }
                        else if x.game_board_state == GameBoardState::Win && x.bbbv_solved != bbbv { errs.push(("win".into(), format!("{}won with solved 3BV {} of {}", at(), x.bbbv_solved, bbbv))); }
                    }
                }
                if errs.is_empty() && (!board_ok || got.is_ok() != want.is_ok() || !same_m(g.m, x.mouse_state)) { errs.push((String::new(), String::new())); }
            });
            if !errs.is_empty() { break; }
        }
        errs
    });
    match r {
        Err(e) => { ctx.violation("panic", || format!("{}: {}", case(), e)); None }
        Ok(v) if v.is_empty() => Some(g),
        Ok(v) => { for (k, d) in v { if !k.is_empty() { ctx.violation(&k, || format!("{}: {}", case(), d)); } } None }
    }
}

/// breadth-first over reference states; each move is a list of events. Returns (states, transitions, complete).
pub struct Bfs { pub states: u64, pub trans: u64, pub wins: u64, pub complete: bool }
fn bfs(ctx: &Ctx, asp: Aspect, b: &Arc<B>, safe: bool, moves: &[Vec<Ev>], max_depth: usize, max_states: usize, keep: &dyn Fn(&Game) -> bool) -> Bfs {
    let bbbv = stats(b).bbbv;
    let g0 = Game::new(b.clone());
    let mut seen: HashMap<_, ()> = HashMap::new();
    seen.insert(g0.key(), ());
    let mut layer: Vec<(Game, Vec<Ev>)> = vec![(g0, vec![])];
    let mut out = Bfs { states: 1, trans: 0, wins: 0, complete: true };
    let mut d = 0;
    while !layer.is_empty() {
        if d >= max_depth || seen.len() > max_states { out.complete = false; break; }
        let mut next = vec![];
        for (g, path) in &layer {
            for mv in moves {
                if ctx.nviol() > 8 { return out; }
                out.trans += mv.len() as u64;
                if let Some(n) = check(ctx, asp, b, safe, path, g, mv, bbbv) {
                    if !keep(&n) { continue; }
                    if seen.insert(n.key(), ()).is_none() {
                        if n.ph == Ph::Win { out.wins += 1; }
                        let mut p = path.clone();
                        p.extend(mv.iter().cloned());
                        next.push((n, p));
                    }
                }
            }
        }
        out.states += next.len() as u64;
        layer = next;
        d += 1;
    }
    out
}
pub fn cells_of(b: &B) -> Vec<P> { (0..b.len()).flat_map(|i| (0..b[0].len()).map(move |j| (i, j))).collect() }
pub const ALL_EVENTS: [&str; 14] = ["lc", "lr", "rc", "rr", "cc", "l", "r", "mc", "mr", "m", "crl", "crr", "mv", "pf"];
pub fn single(b: &B, names: &[&'static str], out: bool) -> Vec<Vec<Ev>> {
    let mut v = vec![];
    for e in names { for p in cells_of(b) { v.push(vec![(*e, Some(p))]); } if out { v.push(vec![(*e, None)]); } }
    v
}
/// whole clicks: left, right, double (both orders), middle, release outside
pub fn clicks(b: &B) -> Vec<Vec<Ev>> {
    let mut v: Vec<Vec<Ev>> = vec![];
    for p in cells_of(b) {
        let s = Some(p);
        v.push(vec![("lc", s), ("lr", s)]);
        v.push(vec![("rc", s), ("rr", s)]);
        v.push(vec![("lc", s), ("rc", s), ("lr", s), ("rr", s)]);
    }
    v
}
pub fn clicks_more(b: &B) -> Vec<Vec<Ev>> {
    let mut v = clicks(b);
    for p in cells_of(b) {
        let s = Some(p);
        v.push(vec![("rc", s), ("lc", s), ("rr", s), ("lr", s)]);
        v.push(vec![("lc", s), ("cc", s), ("rr", s), ("lr", s)]);
        v.push(vec![("mc", s), ("mr", s)]);
        v.push(vec![("lc", s), ("lr", None)]);
        v.push(vec![("lc", s), ("rc", s), ("rr", None), ("lr", None)]);
    }
    v
}
/// canonical representatives of the layouts of a shape under its symmetries
pub fn canon(r: usize, c: usize) -> Vec<u64> {
    let n = r * c;
    let mut out = vec![];
    for m in 0..1u64 << n {
        let get = |i: usize, j: usize| m >> (i * c + j) & 1;
        let mut best = m;
        for k in 0..8 {
            if k >= 4 && r != c { break; }
            let mut t = 0u64;
            for i in 0..r { for j in 0..c {
                let (mut a, mut b) = (i, j);
                if k & 1 != 0 { a = r - 1 - a; }
                if k & 2 != 0 { b = c - 1 - b; }
                if k & 4 != 0 { std::mem::swap(&mut a, &mut b); }
                t |= get(a, b) << (i * c + j);
            } }
            best = best.min(t);
        }
        if best == m { out.push(m); }
    }
    out
}
fn explore(ctx: &Ctx, asp: Aspect) {
    struct Job { b: Arc<B>, safe: bool, moves: Vec<Vec<Ev>>, depth: usize, cap: usize, flags: usize }
    let mut jobs: Vec<Job> = vec![];
    let th = ctx.thorough;
    // every event of the alphabet, on and off the board, to a fixpoint
    for (r, c) in [(1usize, 1usize), (1, 2), (2, 1), (1, 3), (3, 1)] {
        for m in 0..1u64 << (r * c) { for safe in [false, true] {
            let b = Arc::new(from_mask(r, c, m));
            jobs.push(Job { moves: single(&b, &ALL_EVENTS, true), b, safe, depth: 60, cap: 200_000, flags: 9 });
        } }
    }
    let mut sq: Vec<(usize, usize)> = vec![(2, 2)];
    if th { sq.push((1, 4)); sq.push((1, 5)); }
    for (r, c) in sq { for m in canon(r, c) {
        let b = Arc::new(from_mask(r, c, m));
        jobs.push(Job { moves: single(&b, &ALL_EVENTS, true), b, safe: false, depth: 60, cap: 300_000, flags: 9 });
    } }
    // button presses and releases only
    for (r, c) in if th { vec![(2usize, 3usize), (1, 5), (1, 6)] } else { vec![(2usize, 3usize), (1, 4)] } { for m in canon(r, c) {
        let b = Arc::new(from_mask(r, c, m));
        let fl = if th { 9 } else { 1 };
        jobs.push(Job { moves: single(&b, &["lc", "lr", "rc", "rr"], true), b, safe: false, depth: 60, cap: 300_000, flags: fl });
    } }
    // whole clicks on larger boards
    let mut shapes: Vec<(usize, usize, usize)> = vec![(1, 5, 9), (1, 6, 3), (1, 7, 2), (3, 3, 2), (2, 4, 2)];
    if th { shapes = vec![(1, 5, 9), (1, 6, 9), (1, 7, 4), (1, 8, 3), (3, 3, 4), (2, 4, 4), (2, 5, 2), (3, 4, 1)]; }
    for (r, c, fl) in shapes { for m in canon(r, c) {
        let b = Arc::new(from_mask(r, c, m));
        let mv = if r * c <= 7 { clicks_more(&b) } else { clicks(&b) };
        jobs.push(Job { moves: mv, b, safe: false, depth: 60, cap: 400_000, flags: fl });
    } }
    // digits up to 8, several openings, corner structures: bounded depth
    let fixed: Vec<B> = vec![
        number(&mask_mines(3, 3, 0b111101111)),
        number(&mask_mines(4, 4, 0b0000_0000_0000_1000)),
        number(&mask_mines(3, 5, 0b00100_00100_00100)),
        number(&mask_mines(4, 5, 0b00000_00100_00000_00001)),
        number(&mask_mines(5, 5, 0b00000_01010_00000_01010_00000)),
        number(&mask_mines(5, 4, 0b1000_0000_0110_0000_0001)),
    ];
    for b in fixed { let b = Arc::new(b); for safe in [false, true] {
        jobs.push(Job { moves: clicks(&b), b: b.clone(), safe, depth: if th { 5 } else { 4 }, cap: 60_000, flags: if th { 4 } else { 3 } });
    } }
    jobs.sort_by_key(|j| std::cmp::Reverse(j.b.len() * j.b[0].len() * j.moves.len()));
    let n = jobs.len();
    let done = std::sync::atomic::AtomicUsize::new(0);
    let next = std::sync::atomic::AtomicUsize::new(0);
    std::thread::scope(|s| { for _ in 0..8 { s.spawn(|| loop {
        let k = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        if k >= n || ctx.nviol() > 8 { break; }
        let j = &jobs[k];
        let fl = j.flags;
        let r = bfs(ctx, asp, &j.b, j.safe, &j.moves, j.depth, j.cap, &|g| g.flag() <= fl);
        if r.complete { done.fetch_add(1, std::sync::atomic::Ordering::SeqCst); }
        ctx.add(r.states, r.trans, r.wins);
    }); } });
    ctx.count("games_explored", n as u64);
    ctx.count("games_explored_to_fixpoint", done.load(std::sync::atomic::Ordering::SeqCst) as u64);
    // every event history without merging states (history dependence): all sequences of a fixed length
    let depth = if th { 7 } else { 5 };
    let hb: Vec<B> = vec![from_mask(1, 1, 0), from_mask(1, 2, 1), from_mask(1, 2, 0), from_mask(1, 3, 1), from_mask(2, 2, 1)];
    for b in hb {
        let b = Arc::new(b);
        let mv = single(&b, &["lc", "lr", "rc", "rr"], b.len() * b[0].len() <= 2);
        let bbbv = stats(&b).bbbv;
        let dd = if mv.len() > 12 { depth.min(if th { 6 } else { 5 }) } else { depth };
        let total = mv.len().pow(dd as u32);
        ctx.par(total, |mut k| {
            let mut seq: Vec<Ev> = vec![];
            for _ in 0..dd { seq.push(mv[k % mv.len()][0]); k /= mv.len(); }
            let g = Game::new(b.clone());
            check(ctx, asp, &b, false, &[], &g, &seq, bbbv);
            ctx.add(0, dd as u64, 0);
        });
        ctx.count("unmerged_histories", total as u64);
    }
    ctx.note("full 14-event alphabet incl. outside positions to fixpoint: all layouts of 1x1..1x3, 2x2; press/release alphabet: 2x3, 1x4; whole clicks with bounded standing flags: 1x5..1x7, 2x4, 3x3 (layouts up to symmetry); depth-bounded whole clicks on 6 richer boards; all unmerged histories of press/release of fixed length on 5 boards");
    ctx.sample(|| "board 1,-1 events lc(0,0) lr(0,0) -> Win".into());
}
pub fn c04(ctx: &Ctx) { explore(ctx, Aspect::Board); reveal(ctx) }
/// What a recorder shows after a game: the mines are flagged after a win, shown after a loss, on request only.
fn reveal(ctx: &Ctx) {
    use crate::p_video::*;
    let jobs: Vec<VJob> = vjobs(false).into_iter().filter(|j| ctx.thorough || j.b.len() * j.b[0].len() <= 4).collect();
    run_jobs(ctx, &jobs, &|b, pix, path| {
        let case = || format!("recorder, board {} pixels {} events {}", show(b), pix, show_px(path));
        let r = call(&case, || {
            let last = path.last().map_or(0, |p| p.1 + p.2 + path.len());
            for order in if ctx.thorough || path.len() < 5 { 0..2 } else { last % 2..last % 2 + 1 } {
                let (mut v, r, _) = play(b, pix, path, Pattern { a: 1100, b: 2500, back: false });
                let mut want = r.g.g.clone();
                if v.get_game_board() != want { return Some(format!("shows {} want {}", show(&v.get_game_board()), show(&want))); }
                let other = |v: &Live| (v.get_left(), v.get_right(), v.get_double(), v.get_flag(), v.minesweeper_board.ce, v.minesweeper_board.bbbv_solved, v.game_board_state, v.minesweeper_board.game_board_state);
                let before = other(&v);
                for what in [order, 1 - order] {
                    let (name, ph, mark) = if what == 0 { v.win_then_flag_all_mine(); ("win_then_flag_all_mine", Ph::Win, 11) } else { v.loss_then_open_all_mine(); ("loss_then_open_all_mine", Ph::Loss, 16) };
                    if r.g.ph == ph { for i in 0..b.len() { for j in 0..b[0].len() { if want[i][j] == 10 && b[i][j] == -1 { want[i][j] = mark; } } } }
                    if v.get_game_board() != want { return Some(format!("after {} shows {} want {}", name, show(&v.get_game_board()), show(&want))); }
                    if other(&v) != before { return Some(format!("{} changed {:?} to {:?}", name, before, other(&v))); }
                }
            }
            None
        });
        crate::clock::release();
        ctx.add(0, 4, 0);
        match r { Err(e) => ctx.violation("panic", || format!("{}: {}", case(), e)), Ok(Some(d)) => ctx.violation("reveal", || format!("{}: {}", case(), d)), Ok(None) => {} }
        true
    });
    ctx.note("every path of the recorder's bounded exploration, followed by both requests to show the mines, in either order (quick tier: one order from five events on)");
}
pub fn c05(ctx: &Ctx) { explore(ctx, Aspect::Counters) }
pub fn c06(ctx: &Ctx) { explore(ctx, Aspect::Solved) }
