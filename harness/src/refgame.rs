//! Reference game: the mouse-button protocol and the rules, written from the documentation.
use crate::refm::*;
use ms_toollib::{GameBoardState, MouseState};
use std::collections::BTreeSet;
use std::sync::Arc;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum M { UpUp, UpDown, UpDownNF, DownUp, Ch, ChNF, After }
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Ph { Ready, Pre, Playing, Loss, Win }
pub fn same_m(a: M, b: MouseState) -> bool {
    matches!((a, b), (M::UpUp, MouseState::UpUp) | (M::UpDown, MouseState::UpDown) | (M::UpDownNF, MouseState::UpDownNotFlag) | (M::DownUp, MouseState::DownUp)
        | (M::Ch, MouseState::Chording) | (M::ChNF, MouseState::ChordingNotFlag) | (M::After, MouseState::DownUpAfterChording))
}
pub fn mouse_code(m: M) -> usize { match m { M::UpUp => 1, M::UpDown => 2, M::UpDownNF => 3, M::DownUp => 4, M::Ch => 5, M::ChNF => 6, M::After => 7 } }
pub fn same_ph(a: Ph, b: GameBoardState) -> bool {
    matches!((a, b), (Ph::Ready, GameBoardState::Ready) | (Ph::Pre, GameBoardState::PreFlaging) | (Ph::Playing, GameBoardState::Playing) | (Ph::Loss, GameBoardState::Loss) | (Ph::Win, GameBoardState::Win))
}
#[derive(Clone, Debug)]
pub struct Game {
    pub b: Arc<B>, pub g: B, pub m: M, pub ph: Ph, pub mid: bool, pub ever: BTreeSet<P>,
    pub left: usize, pub right: usize, pub double: usize, pub ce: usize,
}
impl Game {
    pub fn new(b: Arc<B>) -> Game {
        let g = vec![vec![10; b[0].len()]; b.len()];
        Game { b, g, m: M::UpUp, ph: Ph::Ready, mid: false, ever: BTreeSet::new(), left: 0, right: 0, double: 0, ce: 0 }
    }
    pub fn rows(&self) -> usize { self.b.len() }
    pub fn cols(&self) -> usize { self.b[0].len() }
    /// flags placed minus flags taken back (a flag shown as wrong after a loss is still a flag)
    pub fn flag(&self) -> usize { self.g.iter().flatten().filter(|v| **v == 11 || **v == 14).count() }
    pub fn key(&self) -> (B, M, Ph, bool, Vec<P>) { (self.g.clone(), self.m, self.ph, self.mid, self.ever.iter().cloned().collect()) }
    fn all_safe_open(&self) -> bool {
        self.b.iter().flatten().zip(self.g.iter().flatten()).all(|(b, g)| *b == -1 || g == b)
    }
    fn open(&mut self, cells: &[P]) {
        open_cells(&self.b, &mut self.g, cells);
        if cells.iter().any(|p| self.b[p.0][p.1] == -1) { self.ph = Ph::Loss; }
        else if self.all_safe_open() { self.ph = Ph::Win; }
    }
    fn left_click(&mut self, p: P) -> u8 {
        self.left += 1;
        if self.g[p.0][p.1] != 10 { return 0; }
        let mine = self.b[p.0][p.1] == -1;
        if !mine { self.ce += 1; }
        self.open(&[p]);
        if mine { 0 } else { 2 }
    }
    fn right_click(&mut self, p: P) -> u8 {
        self.right += 1;
        match self.g[p.0][p.1] {
            10 => {
                self.g[p.0][p.1] = 11;
                if self.b[p.0][p.1] == -1 && self.ever.insert(p) { self.ce += 1; }
                1
            }
            11 => { self.g[p.0][p.1] = 10; 1 }
            _ => 0,
        }
    }
    fn chord(&mut self, p: P) -> u8 {
        self.double += 1;
        let d = self.g[p.0][p.1];
        if !(1..=8).contains(&d) { return 0; }
        let ns = nbs(self.rows(), self.cols(), p);
        let flags = ns.iter().filter(|n| self.g[n.0][n.1] == 11).count() as i32;
        let todo: Vec<P> = ns.into_iter().filter(|n| self.g[n.0][n.1] == 10).collect();
        if flags != d || todo.is_empty() { return 0; }
        self.ce += 1;
        self.open(&todo);
        3
    }
    fn back_to_ready(&mut self) {
        self.ph = Ph::Ready;
        self.left = 0; self.right = 0; self.double = 0; self.ce = 0;
        self.ever.clear();
    }
    /// pos None: outside the board. Err: the event is refused and nothing changes.
    pub fn step(&mut self, e: &str, pos: Option<P>) -> Result<u8, ()> {
        match self.ph {
            Ph::Loss | Ph::Win => Ok(0),
            Ph::Ready => self.step_ready(e, pos),
            Ph::Pre => self.step_pre(e, pos),
            Ph::Playing => self.step_playing(e, pos),
        }
    }
    fn step_ready(&mut self, e: &str, pos: Option<P>) -> Result<u8, ()> {
        let m = self.m;
        match e {
            "mv" => Ok(0),
            "lc" => {
                self.m = match m { M::UpUp => M::DownUp, M::UpDown => M::Ch, M::UpDownNF => M::ChNF, _ => return Err(()) };
                if m == M::UpUp && pos.is_some() { self.ph = Ph::Pre; }
                Ok(0)
            }
            "lr" => {
                self.m = match m { M::Ch | M::ChNF => M::UpDown, M::After | M::DownUp | M::UpUp => M::UpUp, _ => return Err(()) };
                Ok(0)
            }
            "rc" => match m {
                M::UpUp => {
                    self.m = M::UpDown;
                    match pos { Some(p) => { self.ph = Ph::Pre; Ok(self.right_click(p)) } None => Ok(0) }
                }
                M::After => { self.m = M::Ch; Ok(0) }
                _ => Err(()),
            },
            "rr" => { self.m = match m { M::UpDown => M::UpUp, M::Ch => M::After, _ => return Err(()) }; Ok(0) }
            "cc" => { self.m = both_down(m)?; Ok(0) }
            "pf" => { let p = self.unflagged(pos)?; self.ph = Ph::Pre; Ok(self.right_click(p)) }
            _ => Err(()),
        }
    }
    fn step_pre(&mut self, e: &str, pos: Option<P>) -> Result<u8, ()> {
        let m = self.m;
        match e {
            "mv" => Ok(0),
            "lc" | "rr" => self.step_playing(e, pos),
            "lr" => match m {
                M::DownUp => {
                    self.m = M::UpUp;
                    match pos {
                        None => { if self.flag() == 0 { self.back_to_ready(); } Ok(0) }
                        // the first left click on an unopened cell starts the game; on a flag it does nothing
                        Some(p) if self.g[p.0][p.1] == 10 => { self.ph = Ph::Playing; Ok(self.left_click(p)) }
                        Some(_) => Ok(0),
                    }
                }
                M::UpDown | M::UpDownNF => Err(()),
                _ => self.step_playing(e, pos),
            },
            "rc" => match m {
                M::UpUp => {
                    self.m = M::UpDown;
                    let p = match pos { Some(p) => p, None => return Ok(0) };
                    if self.g[p.0][p.1] == 11 && self.flag() == 1 { self.g[p.0][p.1] = 10; self.back_to_ready(); return Ok(0); }
                    Ok(self.right_click(p))
                }
                M::DownUp => { self.m = M::Ch; if pos.is_some() && self.flag() == 0 { self.ph = Ph::Ready; } Ok(0) }
                M::After => { self.m = M::Ch; Ok(0) }
                _ => Err(()),
            },
            "cc" => {
                self.m = both_down(m)?;
                if m == M::DownUp && pos.is_some() && self.flag() == 0 { self.ph = Ph::Ready; }
                Ok(0)
            }
            "pf" => { let p = self.unflagged(pos)?; Ok(self.right_click(p)) }
            _ => Err(()),
        }
    }
    fn unflagged(&self, pos: Option<P>) -> Result<P, ()> { let p = pos.ok_or(())?; if self.g[p.0][p.1] == 10 { Ok(p) } else { Err(()) } }
    fn chord_release(&mut self, to: M, pos: Option<P>) -> u8 {
        // a right press that neither set nor removed a flag is taken back: it was part of the double click
        if self.m == M::ChNF { self.right -= 1; }
        self.m = to;
        match pos { Some(p) => self.chord(p), None => 0 }
    }
    fn step_playing(&mut self, e: &str, pos: Option<P>) -> Result<u8, ()> {
        let m = self.m;
        Ok(match e {
            "mv" => 0,
            "lc" => { self.m = match m { M::UpUp => M::DownUp, M::UpDown => M::Ch, M::UpDownNF => M::ChNF, o => o }; 0 }
            "lr" => match m {
                M::DownUp => { self.m = M::UpUp; match pos { Some(p) => self.left_click(p), None => 0 } }
                M::Ch | M::ChNF => self.chord_release(M::UpDown, pos),
                M::After => { self.m = M::UpUp; 0 }
                _ => 0,
            },
            "l" => match m {
                M::UpUp | M::UpDown | M::UpDownNF => return self.step_playing("lc", pos),
                _ => return self.step_playing("lr", pos),
            },
            "rc" => match m {
                M::UpUp => match pos {
                    Some(p) => { self.m = if self.g[p.0][p.1] < 10 { M::UpDownNF } else { M::UpDown }; self.right_click(p) }
                    None => { self.m = M::UpDown; 0 }
                },
                M::DownUp | M::After => { self.m = M::Ch; 0 }
                _ => 0,
            },
            "rr" => match m {
                M::UpDown | M::UpDownNF => { self.m = M::UpUp; 0 }
                M::Ch | M::ChNF => self.chord_release(M::After, pos),
                _ => 0,
            },
            "r" => match m {
                M::UpUp | M::DownUp | M::After => return self.step_playing("rc", pos),
                _ => return self.step_playing("rr", pos),
            },
            "mc" => { self.mid = true; 0 }
            "mr" => { self.mid = false; match pos { Some(p) => self.chord(p), None => 0 } }
            "m" => { self.mid = !self.mid; match pos { Some(p) if !self.mid => self.chord(p), _ => 0 } }
            "cc" => { self.m = both_down(m)?; 0 }
            "crl" | "crr" => match m {
                M::Ch | M::ChNF => self.chord_release(if e == "crl" { M::UpDown } else { M::After }, pos),
                _ => return Err(()),
            },
            _ => return Err(()),
        })
    }
    /// 3BV solved: openings whose zero cells are all open + isolated numbers opened
    pub fn solved(&self) -> usize { solved_of(&self.b, &self.g) }
}
fn both_down(m: M) -> Result<M, ()> {
    Ok(match m { M::DownUp | M::After | M::UpDown => M::Ch, M::UpDownNF => M::ChNF, _ => return Err(()) })
}
pub fn solved_of(b: &B, g: &B) -> usize {
    let (r, c) = (b.len(), b[0].len());
    let open = |p: P| g[p.0][p.1] == b[p.0][p.1];
    let mut n = components(r, c, |p| b[p.0][p.1] == 0).iter().filter(|z| z.iter().all(|p| open(*p))).count();
    for i in 0..r { for j in 0..c {
        if b[i][j] > 0 && open((i, j)) && nbs(r, c, (i, j)).iter().all(|q| b[q.0][q.1] != 0) { n += 1; }
    } }
    n
}
