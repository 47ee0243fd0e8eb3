//! Reference recorder: what a faithful recording of a game must contain.
use crate::refgame::*;
use crate::refm::*;
use std::sync::Arc;

#[derive(Clone, Debug)]
pub struct RE {
    pub t: u32, pub e: &'static str, pub y: usize, pub x: usize, pub before: B, pub after: B, pub level: u8,
    pub left: usize, pub right: usize, pub double: usize, pub ce: usize, pub flag: usize, pub solved: usize,
    pub m: M, pub path: f64, pub inside: bool,
}
#[derive(Clone, Debug)]
pub struct Rec {
    pub g: Game, pub pix: usize, pub origin: u64, pub start: u32, pub evs: Vec<RE>,
    pub wall_start: u64, pub wall_end: u64, pub rtime: u32,
}
/// microseconds rounded to milliseconds
pub fn ms(us: u64) -> u32 { ((us + 500) / 1000) as u32 }
impl Rec {
    pub fn new(b: Arc<B>, pix: usize) -> Rec {
        Rec { g: Game::new(b), pix, origin: 0, start: 0, evs: vec![], wall_start: 0, wall_end: 0, rtime: 0 }
    }
    pub fn over(&self) -> bool { matches!(self.g.ph, Ph::Win | Ph::Loss) }
    pub fn cell(&self, y: usize, x: usize) -> Option<P> {
        let p = (y / self.pix, x / self.pix);
        if p.0 < self.g.rows() && p.1 < self.g.cols() { Some(p) } else { None }
    }
    /// (y, x) in pixels; now: monotonic microseconds; wall: calendar microseconds
    pub fn step(&mut self, e: &'static str, y: usize, x: usize, now: u64, wall: u64) -> Result<(), ()> {
        if self.over() { return Ok(()); }
        let old = self.g.ph;
        let before = self.g.g.clone();
        let cell = self.cell(y, x);
        let level = self.g.step(e, cell)?;
        if self.g.ph == Ph::Ready { self.evs.clear(); return Ok(()); }
        if old == Ph::Ready { self.origin = now; }
        let t = ms(now - self.origin);
        if old != Ph::Playing && self.g.ph != Ph::Pre { self.start = t; self.wall_start = wall; }
        if self.over() { self.rtime = t - self.start; self.wall_end = wall; }
        let mut path = 0.0;
        if old == Ph::Playing {
            path = self.evs.last().unwrap().path;
            if cell.is_some() {
                let p = self.evs.iter().rev().find(|v| v.inside).unwrap();
                let (dy, dx) = (p.y as f64 - y as f64, p.x as f64 - x as f64);
                path += (dy * dy + dx * dx).sqrt() * 16.0 / self.pix as f64;
            }
        }
        let g = &self.g;
        self.evs.push(RE { t, e, y, x, before, after: g.g.clone(), level, left: g.left, right: g.right, double: g.double, ce: g.ce, flag: g.flag(), solved: g.solved(), m: g.m, path, inside: cell.is_some() });
        Ok(())
    }
}
