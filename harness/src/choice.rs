//! Exhaustive enumeration of everything the random source can answer (the vendored rand asks a chooser).
use std::cell::RefCell;
use std::rc::Rc;
#[derive(Default)]
struct St { path: Vec<(u64, u64)>, pos: usize, free: usize, dev: usize, policy: u8, asked: u64 }
/// default answer of a policy when asked for the i-th time with n
fn default(policy: u8, i: u64, n: u64) -> u64 {
    match policy { 0 => n - 1, 1 => 0, 2 => n / 2, 3 => i % n, 4 => (i * i + 1) % n, 5 => (n - 1) / 3, 6 => if i % 2 == 0 { 0 } else { n - 1 }, p => (i.wrapping_mul(2654435761).wrapping_add(p as u64 * 40503) >> 7) % n }
}
pub struct Tree { st: Rc<RefCell<St>>, max_dev: usize, started: bool }
impl Tree {
    /// every outcome
    pub fn all() -> Tree { Tree::new(0, usize::MAX) }
    /// every outcome that differs from the policy's answers in at most `max_dev` draws
    pub fn new(policy: u8, max_dev: usize) -> Tree { Tree { st: Rc::new(RefCell::new(St { policy, ..Default::default() })), max_dev, started: false } }
    /// runs f under the next outcome; None when all are done. Returns (result, probability, number of unmodelled draws)
    pub fn next<R>(&mut self, f: impl FnOnce() -> R) -> Option<(R, f64, u64)> {
        if self.started && !self.advance() { return None; }
        self.started = true;
        { let mut s = self.st.borrow_mut(); s.pos = 0; s.asked = 0; }
        let st = self.st.clone();
        rand::mc::install(Box::new(move |n| {
            let mut s = st.borrow_mut();
            let i = s.pos;
            if i < s.path.len() {
                assert!(s.path[i].1 == n, "the code under test does not repeat its draws");
            } else {
                let v = default(s.policy, i as u64, n);
                s.path.push((v, n));
            }
            s.pos += 1;
            s.path[i].0
        }));
        let r = f();
        let raw = rand::mc::raw_draws();
        rand::mc::uninstall();
        let s = self.st.borrow();
        let w = s.path[..s.pos].iter().map(|x| 1.0 / x.1 as f64).product();
        Some((r, w, raw))
    }
    fn advance(&mut self) -> bool {
        let mut s = self.st.borrow_mut();
        let used = s.pos;
        s.path.truncate(used);
        let policy = s.policy;
        let mut devs = s.path.iter().enumerate().filter(|(j, x)| x.0 != default(policy, *j as u64, x.1)).count();
        // a draw's answers are tried in the order default, default+1, ... (cyclic)
        loop {
            let Some((v, n)) = s.path.pop() else { return false };
            let i = s.path.len() as u64;
            let d = default(s.policy, i, n);
            let next = (v + 1) % n;
            if v != d { devs -= 1; }
            if next == d { continue; }
            if devs + 1 > self.max_dev { continue; }
            s.path.push((next, n));
            return true;
        }
    }
    pub fn draws(&self) -> Vec<u64> { let s = self.st.borrow(); s.path[..s.pos].iter().map(|x| x.0).collect() }
}
