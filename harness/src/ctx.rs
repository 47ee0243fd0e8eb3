//! Run context: counters, violations, evidence, watchdog, crash handling, parallel driver.
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicPtr, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;

pub struct Ctx {
    pub id: String,
    pub thorough: bool,
    pub seed: u64,
    pub states: AtomicU64,
    pub transitions: AtomicU64,
    pub nontrivial: AtomicU64,
    pub viol: Mutex<Vec<(String, String)>>, // unlisted: key, detail
    pub known_hit: Mutex<BTreeMap<String, String>>,
    known: HashSet<String>,
    samples: Mutex<Vec<String>>,
    pub notes: Mutex<Vec<String>>,
    pub extra: Mutex<BTreeMap<String, u64>>,
    pub outcomes: Mutex<HashSet<String>>,
    pub capped: AtomicBool,
    start: f64,
}

pub const VERIF: &str = "/verif";

pub fn real_now() -> f64 {
    let ts = crate::clock::real_clock(1);
    ts.0 as f64 + ts.1 as f64 * 1e-9
}

thread_local! {
    static SLOT: Cell<usize> = Cell::new(usize::MAX);
    static PANIC_MSG: RefCell<String> = RefCell::new(String::new());
    static IN_CALL: Cell<bool> = Cell::new(false);
}
pub fn in_call() -> bool { IN_CALL.try_with(|c| c.get()).unwrap_or(false) }

type CaseFn = dyn Fn() -> String;
#[repr(align(128))]
struct Slot {
    calls: AtomicU64,
    start_ms: AtomicU64, // 0 = idle
    data: AtomicPtr<()>,
    vt: AtomicPtr<()>,
}
const NSLOT: usize = 256;
static SLOTS: [Slot; NSLOT] = {
    const S: Slot = Slot {
        calls: AtomicU64::new(0),
        start_ms: AtomicU64::new(0),
        data: AtomicPtr::new(std::ptr::null_mut()),
        vt: AtomicPtr::new(std::ptr::null_mut()),
    };
    [S; NSLOT]
};
static NEXT_SLOT: AtomicUsize = AtomicUsize::new(0);
static mut GLOBAL: *const Ctx = std::ptr::null();
static HANG_MS: AtomicU64 = AtomicU64::new(60_000);
pub fn set_hang_limit_ms(ms: u64) { HANG_MS.store(ms, SeqCst); }

fn slot() -> usize {
    SLOT.with(|s| {
        if s.get() == usize::MAX {
            s.set(NEXT_SLOT.fetch_add(1, SeqCst) % NSLOT);
        }
        s.get()
    })
}
fn case_text(i: usize) -> String {
    let d = SLOTS[i].data.load(SeqCst);
    let v = SLOTS[i].vt.load(SeqCst);
    if d.is_null() {
        return "<no case>".into();
    }
    unsafe {
        let f: *const CaseFn = std::mem::transmute((d, v));
        (*f)()
    }
}

/// Runs one call into the code under test; a panic is returned as Err(message).
pub fn call<'a, R>(case: &'a dyn Fn() -> String, f: impl FnOnce() -> R) -> Result<R, String> {
    let i = slot();
    let (od, ov, os) = (SLOTS[i].data.load(Relaxed), SLOTS[i].vt.load(Relaxed), SLOTS[i].start_ms.load(Relaxed));
    let (d, v): (*mut (), *mut ()) = unsafe { std::mem::transmute(case as *const (dyn Fn() -> String + 'a)) };
    SLOTS[i].data.store(d, Relaxed);
    SLOTS[i].vt.store(v, Relaxed);
    SLOTS[i].start_ms.store((real_now() * 1000.0) as u64, Relaxed);
    SLOTS[i].calls.fetch_add(1, Relaxed);
    let old = IN_CALL.with(|c| c.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_CALL.with(|c| c.set(old));
    SLOTS[i].start_ms.store(os, Relaxed);
    SLOTS[i].data.store(od, Relaxed);
    SLOTS[i].vt.store(ov, Relaxed);
    r.map_err(|_| PANIC_MSG.with(|m| m.borrow().clone()))
}

/// the call in progress on this thread made progress
pub fn heartbeat() { let i = slot(); if SLOTS[i].start_ms.load(Relaxed) != 0 { SLOTS[i].start_ms.store((real_now() * 1000.0) as u64, Relaxed); } }
fn fatal(kind: &str, i: usize) -> ! {
    unsafe {
        if !GLOBAL.is_null() {
            let c = &*GLOBAL;
            let detail = format!("{} in: {}", kind, case_text(i));
            c.violation(&format!("fatal:{}", kind), || detail.clone());
            c.finish_exit();
        }
        extern "C" { fn _exit(c: i32) -> !; }
        _exit(3)
    }
}
extern "C" fn on_signal(sig: i32) {
    if in_call() {
        let i = SLOT.with(|s| s.get());
        fatal(match sig { 6 => "abort", 11 => "segfault or stack overflow", 7 => "bus error", 8 => "fpe", _ => "signal" }, i);
    }
    extern "C" { fn _exit(c: i32) -> !; }
    unsafe { _exit(3) }
}
/// called by the allocator for an absurd allocation
pub fn alloc_blowup() -> ! {
    if in_call() { let i = SLOT.with(|s| s.get()); fatal("memory exhaustion", i); }
    extern "C" { fn _exit(c: i32) -> !; }
    unsafe { _exit(3) }
}

impl Ctx {
    pub fn new(id: &str, thorough: bool) -> &'static Ctx {
        let known: HashSet<String> = std::fs::read_to_string(format!("{VERIF}/known_findings.txt"))
            .unwrap_or_default()
            .lines()
            .filter_map(|l| {
                let p = format!("finding: property={} key=", id);
                l.strip_prefix(&p).map(|r| r.split(" -- ").next().unwrap().trim().to_string())
            })
            .collect();
        let c = Box::leak(Box::new(Ctx {
            id: id.into(), thorough,
            seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
            states: AtomicU64::new(0), transitions: AtomicU64::new(0),             nontrivial: AtomicU64::new(0),
            viol: Mutex::new(vec![]), known_hit: Mutex::new(BTreeMap::new()), known,
            samples: Mutex::new(vec![]), notes: Mutex::new(vec![]), extra: Mutex::new(BTreeMap::new()),
            outcomes: Mutex::new(HashSet::new()), capped: AtomicBool::new(false),
            start: real_now(),
        }));
        unsafe { GLOBAL = c; }
        std::panic::set_hook(Box::new(|info| {
            if in_call() || crate::sched::is_model_thread() {
                if std::env::var("MC_PANICS").is_ok() { eprintln!("{}", info); }
                let msg = info.payload().downcast_ref::<&str>().map(|s| s.to_string())
                    .or_else(|| info.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
                let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
                let _ = PANIC_MSG.try_with(|m| *m.borrow_mut() = format!("panic: {} at {}", msg, loc));
            } else {
                eprintln!("HARNESS PANIC: {}", info);
            }
        }));
        unsafe {
            #[repr(C)]
            struct SigAction { handler: usize, mask: [u64; 16], flags: i32, restorer: usize }
            extern "C" {
                fn sigaction(s: i32, a: *const SigAction, o: *mut SigAction) -> i32;
            }
            for s in [6, 11, 7, 8] {
                let a = SigAction { handler: on_signal as *const () as usize, mask: [0; 16], flags: 0x08000000 | 0x40000000, restorer: 0 };
                sigaction(s, &a, std::ptr::null_mut());
            }
        }
        std::thread::spawn(|| loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let now = (real_now() * 1000.0) as u64;
            for i in 0..NSLOT {
                let s = SLOTS[i].start_ms.load(Relaxed);
                if s != 0 && now > s + HANG_MS.load(Relaxed) {
                    fatal("call does not return (hang)", i);
                }
            }
        });
        c
    }
    /// `key` identifies the violation for the known-findings file. detail is the replayable case.
    pub fn violation(&self, key: &str, detail: impl FnOnce() -> String) {
        if self.known.contains(key) {
            let mut k = self.known_hit.lock().unwrap();
            if !k.contains_key(key) { k.insert(key.into(), detail()); }
            return;
        }
        let mut v = self.viol.lock().unwrap();
        if v.len() < 50 && v.iter().filter(|x| x.0 == key).count() < 3 { v.push((key.into(), detail())); }
    }
    pub fn nviol(&self) -> usize { self.viol.lock().unwrap().len() }
    pub fn sample(&self, f: impl FnOnce() -> String) {
        let mut s = self.samples.lock().unwrap();
        if s.len() < 6 { s.push(f()); }
    }
    pub fn note(&self, s: impl Into<String>) { self.notes.lock().unwrap().push(s.into()); }
    pub fn count(&self, k: &str, n: u64) { *self.extra.lock().unwrap().entry(k.into()).or_insert(0) += n; }
    pub fn add(&self, states: u64, transitions: u64, nontrivial: u64) {
        self.states.fetch_add(states, Relaxed);
        self.transitions.fetch_add(transitions, Relaxed);
        self.nontrivial.fetch_add(nontrivial, Relaxed);
    }
    pub fn outcome(&self, s: String) { let mut o = self.outcomes.lock().unwrap(); if o.len() < 100000 { o.insert(s); } }
    pub fn elapsed(&self) -> f64 { real_now() - self.start }
    /// Dynamic parallel loop over 0..n
    pub fn par(&self, n: usize, f: impl Fn(usize) + Sync) {
        let next = AtomicUsize::new(0);
        let nt = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(16);
        let chunk = (n / (nt * 64)).max(1);
        std::thread::scope(|s| {
            let mut hs = vec![];
            for _ in 0..nt.min(n.max(1)) {
                hs.push(std::thread::Builder::new().stack_size(2 << 20).spawn_scoped(s, || loop {
                    let a = next.fetch_add(chunk, SeqCst);
                    if a >= n { break; }
                    for i in a..(a + chunk).min(n) {
                        if self.nviol() >= 40 { return; }
                        f(i);
                    }
                }).unwrap());
            }
            for h in hs {
                if h.join().is_err() { eprintln!("harness worker panicked"); std::process::exit(3); }
            }
        });
    }
    pub fn finish_exit(&self) -> ! {
        let code = self.finish();
        use std::io::Write;
        let _ = std::io::stdout().flush();
        extern "C" { fn _exit(c: i32) -> !; }
        unsafe { _exit(code) }
    }
    pub fn finish(&self) -> i32 {
        let v = self.viol.lock().unwrap_or_else(|e| e.into_inner());
        let k = self.known_hit.lock().unwrap_or_else(|e| e.into_inner());
        for (key, d) in k.iter() {
            println!("KNOWN-FINDING: property={} {} ({})", self.id, key, first_line(d));
        }
        let out = std::env::var("MC_OUT").unwrap_or(VERIF.to_string());
        let mut code = 0;
        if !v.is_empty() {
            let dir = format!("{out}/work/replay");
            let _ = std::fs::create_dir_all(&dir);
            let path = format!("{dir}/{}.txt", self.id);
            let mut t = format!("property {}\nrerun: /verif/run.sh {} {}\n", self.id, self.id, if self.thorough { "thorough" } else { "quick" });
            for (key, d) in v.iter() { t += &format!("\n== {}\n{}\n", key, d); }
            let _ = std::fs::write(&path, &t);
            for (key, d) in v.iter().take(5) { eprintln!("violation [{}] {}", key, d.chars().take(1500).collect::<String>()); }
            println!("VIOLATION property={} replay={}", self.id, path);
            code = 1;
        }
        let st = self.states.load(SeqCst);
        let tr = self.transitions.load(SeqCst);
        if code == 0 && (st == 0 || tr == 0) {
            eprintln!("vacuous run");
            code = 3;
        }
        let mut samples: Vec<String> = self.samples.lock().unwrap_or_else(|e| e.into_inner()).clone();
        if samples.is_empty() { samples.push("(none recorded)".into()); }
        let notes = self.notes.lock().unwrap_or_else(|e| e.into_inner()).clone();
        let mut j = String::from("{\n");
        j += &format!(" \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"model_checking\",\n", q(&self.id), q(if self.thorough { "thorough" } else { "quick" }), self.seed);
        j += &format!(" \"coverage\": {{\n  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"distinct_nontrivial\": {},\n  \"exhaustive\": {},\n", st, tr, SLOTS.iter().map(|s| s.calls.load(SeqCst)).sum::<u64>(), self.nontrivial.load(SeqCst), !self.capped.load(SeqCst) && code == 0);
        j += &format!("  \"distinct_outcomes\": {},\n", self.outcomes.lock().unwrap_or_else(|e| e.into_inner()).len());
        for (a, b) in self.extra.lock().unwrap_or_else(|e| e.into_inner()).iter() { j += &format!("  {}: {},\n", q(a), b); }
        j += &format!("  \"bounds\": [{}],\n", notes.iter().map(|s| q(s)).collect::<Vec<_>>().join(", "));
        j += &format!("  \"samples\": [{}]\n }},\n", samples.iter().map(|s| q(s)).collect::<Vec<_>>().join(", "));
        j += &format!(" \"assumptions\": [\"every explored case runs the real ms_toollib code built from /repo with debug assertions and overflow checks\"],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n", self.elapsed(), v.len());
        let _ = std::fs::create_dir_all(format!("{out}/evidence"));
        if std::fs::write(format!("{out}/evidence/{}.json", self.id), j).is_err() { eprintln!("cannot write evidence"); code = if code == 1 { 1 } else { 3 }; }
        eprintln!("{}: states={} transitions={} nontrivial={} violations={} known={} wall={:.1}s", self.id, st, tr, self.nontrivial.load(SeqCst), v.len(), k.len(), self.elapsed());
        code
    }
}
fn first_line(s: &str) -> String { s.lines().next().unwrap_or("").chars().take(200).collect() }
pub fn q(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"", '\\' => o += "\\\\", '\n' => o += "\\n", '\t' => o += "\\t", '\r' => o += "\\r",
            c if (c as u32) < 0x20 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
