//! Controlled scheduler: the threads of the code under test run as coroutines on one OS thread, pause before
//! every operation on shared objects, and an explorer drives them through all schedules (state caching).
use ms_toollib::vp_std::rt::{self, Op, Rt};
use std::cell::{Cell, RefCell};
use std::collections::{HashSet, VecDeque};
use std::hash::{Hash, Hasher};

core::arch::global_asm!(r#"
.globl vp_switch
vp_switch:
    push rbp
    push rbx
    push r12
    push r13
    push r14
    push r15
    mov [rdi], rsp
    mov rsp, rsi
    pop r15
    pop r14
    pop r13
    pop r12
    pop rbx
    pop rbp
    ret
"#);
extern "C" { fn vp_switch(save: *mut usize, to: usize); }
extern "C" { fn mmap(a: usize, n: usize, p: i32, f: i32, d: i32, o: i64) -> *mut u8; fn mprotect(a: *mut u8, n: usize, p: i32) -> i32; }
const STACK: usize = 1 << 20;
thread_local! {
    static STACKS: RefCell<Vec<usize>> = RefCell::new(vec![]);
    static MODEL: Cell<bool> = const { Cell::new(false) };
    static RUN: Cell<*const Run> = const { Cell::new(std::ptr::null()) };
}
fn stack() -> usize {
    STACKS.with(|s| s.borrow_mut().pop()).unwrap_or_else(|| unsafe {
        let p = mmap(0, STACK, 3, 0x22, -1, 0);
        assert!(p as isize != -1);
        mprotect(p, 4096, 0);
        p as usize
    })
}
pub fn is_model_thread() -> bool { MODEL.try_with(|m| m.get()).unwrap_or(false) }

#[derive(Default)]
struct Obj { content: u64, writer: bool, readers: usize, queue: VecDeque<u64>, cap: usize, senders: isize, closed: bool }
struct Th { sp: usize, stack: usize, class: u64, hist: u64, pending: Option<Op>, answer: u64, done: bool, joined: bool, notified: bool, body: Option<Box<dyn FnOnce()>>, draws: u64, ops: u64 }
/// One execution.
pub struct Run { th: RefCell<Vec<Th>>, obj: RefCell<Vec<Obj>>, cur: Cell<usize>, kernel: Cell<usize>, classes: Box<dyn Fn(usize) -> u64> }
fn mix(h: u64, v: u64) -> u64 { (h ^ v.wrapping_mul(0x9E3779B97F4A7C15)).rotate_left(27).wrapping_mul(0xC2B2AE3D27D4EB4F).wrapping_add(0x165667B19E3779F9) }

extern "C" fn entry() -> ! {
    let run = unsafe { &*RUN.with(|r| r.get()) };
    let me = run.cur.get();
    let body = run.th.borrow_mut()[me].body.take().unwrap();
    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(body));
    run.th.borrow_mut()[me].done = true;
    run.to_kernel();
    std::process::abort()
}
impl Run {
    fn new(classes: Box<dyn Fn(usize) -> u64>) -> Run { Run { th: RefCell::new(vec![]), obj: RefCell::new(vec![Obj::default()]), cur: Cell::new(usize::MAX), kernel: Cell::new(0), classes } }
    fn add(&self, body: Box<dyn FnOnce()>) -> usize {
        let st = stack();
        let mut th = self.th.borrow_mut();
        let id = th.len();
        // top of stack: entry address, then an aligned dummy return address
        let top = (st + STACK) & !15;
        let sp = top - 8 - 7 * 8;
        unsafe { std::ptr::write_bytes(sp as *mut u8, 0, top - sp); *((sp + 6 * 8) as *mut usize) = entry as *const () as usize; }
        th.push(Th { sp, stack: st, class: (self.classes)(id), hist: 0, pending: None, answer: 0, done: false, joined: false, notified: false, body: Some(body), draws: 0, ops: 0 });
        id
    }
    /// runs thread t until its next pause or its end (callable from the kernel or from another thread)
    fn resume(&self, t: usize) {
        let (old, oldk) = (self.cur.get(), self.kernel.get());
        self.cur.set(t);
        let sp = self.th.borrow()[t].sp;
        let mut k = 0usize;
        // the thread comes back to whoever resumed it
        self.kernel.set(&mut k as *mut usize as usize);
        unsafe { vp_switch(&mut k, sp) };
        self.cur.set(old);
        self.kernel.set(oldk);
        let mut th = self.th.borrow_mut();
        if th[t].done && th[t].stack != 0 { let s = th[t].stack; th[t].stack = 0; STACKS.with(|x| x.borrow_mut().push(s)); }
    }
    fn to_kernel(&self) {
        let me = self.cur.get();
        let k = unsafe { *(self.kernel.get() as *const usize) };
        let save = { let mut th = self.th.borrow_mut(); std::ptr::addr_of_mut!(th[me].sp) };
        unsafe { vp_switch(save, k) };
    }
    fn enabled(&self, t: usize) -> bool {
        let th = self.th.borrow();
        if th[t].done { return false; }
        let obj = self.obj.borrow();
        match th[t].pending {
            None => false,
            Some(Op::Lock(o)) => !obj[o].writer && obj[o].readers == 0,
            Some(Op::Read(o)) => !obj[o].writer,
            Some(Op::Send(o, _)) => obj[o].queue.len() < obj[o].cap || obj[o].closed,
            Some(Op::Recv(o)) => !obj[o].queue.is_empty() || obj[o].senders <= 0,
            Some(Op::Join(x)) => x == usize::MAX || th[x].done,
            Some(Op::Wait(_, m)) => th[t].notified && !obj[m].writer && obj[m].readers == 0,
            Some(Op::TryRecv(_) | Op::Atomic(_) | Op::Yield) => true,
        }
    }
    fn perform(&self, t: usize) {
        let mut th = self.th.borrow_mut();
        let mut obj = self.obj.borrow_mut();
        let op = th[t].pending.take().unwrap();
        let (mut ans, mut seen) = (1, 0);
        let hist = th[t].hist;
        match op {
            Op::Lock(o) => { obj[o].writer = true; seen = obj[o].content; }
            Op::Read(o) => { obj[o].readers += 1; seen = obj[o].content; }
            Op::Send(o, d) => { if obj[o].closed { ans = 0; } else { obj[o].queue.push_back(if d == 0 { mix(hist, 77) } else { d }); } seen = ans; }
            Op::Recv(o) | Op::TryRecv(o) => match obj[o].queue.pop_front() { Some(d) => seen = mix(d, 1), None => { ans = 0; seen = if obj[o].senders <= 0 { 2 } else { 3 } } },
            Op::Join(x) => if x != usize::MAX { th[x].joined = true; seen = th[x].hist; },
            Op::Wait(_, m) => { th[t].notified = false; obj[m].writer = true; seen = obj[m].content; }
            Op::Atomic(_) | Op::Yield => {}
        }
        th[t].answer = ans;
        th[t].ops += 1;
        let tag = match op { Op::Lock(o) => (1, o), Op::Read(o) => (2, o), Op::Send(o, _) => (3, o), Op::Recv(o) => (4, o), Op::TryRecv(o) => (5, o), Op::Join(_) => (6, 0), Op::Atomic(o) => (7, o), Op::Wait(o, _) => (8, o), Op::Yield => (9, 0) };
        th[t].hist = mix(mix(hist, tag.0 * 1000 + tag.1 as u64), seen);
    }
    /// threads that differ only in their number are interchangeable
    fn key(&self) -> (u64, u64) {
        let th = self.th.borrow();
        let obj = self.obj.borrow();
        let target = match th[0].pending { Some(Op::Join(x)) => x, _ => usize::MAX };
        let mut v: Vec<(u64, u64, u64)> = th.iter().enumerate().skip(1).map(|(i, t)| (t.class, t.hist, t.done as u64 | (t.joined as u64) << 1 | ((i == target) as u64) << 2 | (t.notified as u64) << 3)).collect();
        v.sort_unstable();
        let mut out = [0u64; 2];
        for (k, o) in out.iter_mut().enumerate() {
            let mut h = std::collections::hash_map::DefaultHasher::new();
            k.hash(&mut h);
            (th[0].hist, th[0].done).hash(&mut h);
            v.hash(&mut h);
            for x in obj.iter() { (x.content, x.writer, x.readers, &x.queue, x.senders, x.closed).hash(&mut h); }
            *o = h.finish();
        }
        (out[0], out[1])
    }
}
struct Port;
fn run() -> &'static Run { unsafe { &*RUN.with(|r| r.get()) } }
impl Rt for Port {
    fn object(&self, content: u64, cap: usize) -> usize { let mut o = run().obj.borrow_mut(); o.push(Obj { content, cap, senders: 1, ..Default::default() }); o.len() - 1 }
    fn spawn(&self, f: Box<dyn FnOnce()>) -> usize { let r = run(); let id = r.add(f); r.resume(id); id }
    fn op(&self, o: Op) -> u64 {
        let r = run();
        let me = r.cur.get();
        if std::thread::panicking() {
            // no pause while a panic unwinds
            r.th.borrow_mut()[me].pending = Some(o);
            if r.enabled(me) { r.perform(me); return r.th.borrow()[me].answer; }
            r.th.borrow_mut()[me].pending = None;
            return 0;
        }
        r.th.borrow_mut()[me].pending = Some(o);
        r.to_kernel();
        let a = r.th.borrow()[me].answer;
        a
    }
    fn unlock(&self, id: usize, content: Option<u64>) {
        let r = run();
        let h = r.th.borrow()[r.cur.get()].hist;
        let mut o = r.obj.borrow_mut();
        o[id].writer = false;
        o[id].content = content.unwrap_or(h);
    }
    fn grab(&self, id: usize) { let r = run(); let mut o = r.obj.borrow_mut(); o[id].writer = true; let c = o[id].content; drop(o); self.observed(c); }
    fn unread(&self, id: usize) { run().obj.borrow_mut()[id].readers -= 1; }
    fn senders(&self, id: usize, by: isize) { run().obj.borrow_mut()[id].senders += by; }
    fn no_receiver(&self, id: usize) { run().obj.borrow_mut()[id].closed = true; }
    fn notify(&self, id: usize, all: bool) {
        for t in run().th.borrow_mut().iter_mut() { if !t.notified && matches!(t.pending, Some(Op::Wait(c, _)) if c == id) { t.notified = true; if !all { break; } } }
    }
    fn observed(&self, v: u64) { let r = run(); let me = r.cur.get(); let mut th = r.th.borrow_mut(); th[me].hist = mix(th[me].hist, v); }
    fn content(&self, id: usize, v: u64) { run().obj.borrow_mut()[id].content = v; }
    fn done(&self, tid: usize) -> bool { run().th.borrow()[tid].done }
    fn me(&self) -> usize { run().cur.get() }
}
static PORT: Port = Port;
/// What one finished execution looked like from outside.
pub struct Seen { pub deadlock: bool, pub livelock: bool, pub schedule: Vec<u16>, pub draws: Vec<u64>, pub ops: Vec<u64>, pub threads: usize }
#[derive(Default, Debug, Clone, Copy)]
pub struct Stats { pub states: u64, pub transitions: u64, pub runs: u64, pub steps: u64, pub capped: bool }
/// Explores all schedules of `body` (thread 0). `draw(thread, index, n)` answers the random draws.
/// `after` judges every finished execution and answers whether to go on.
pub fn explore(classes: impl Fn(usize) -> u64 + Clone + 'static, draw: impl Fn(usize, u64, u64) -> u64 + Clone + 'static, body: impl Fn() + Clone + 'static, mut after: impl FnMut(&Seen) -> bool, max_runs: u64) -> Stats {
    let mut st = Stats::default();
    let mut seen: HashSet<(u64, u64)> = HashSet::new();
    // frame: chosen thread, alternatives left
    let mut stack: Vec<(u16, Vec<u16>)> = vec![];
    loop {
        let run = Run::new(Box::new(classes.clone()));
        RUN.with(|r| r.set(&run));
        let d = draw.clone();
        rand::mc::install(Box::new(move |n| { let r = self::run(); let me = r.cur.get(); let i = { let mut th = r.th.borrow_mut(); th[me].draws += 1; th[me].draws - 1 }; d(me, i, n) }));
        rt::install(Some(&PORT));
        MODEL.with(|m| m.set(true));
        let b = body.clone();
        run.add(Box::new(b));
        run.resume(0);
        let mut schedule = vec![];
        let (mut deadlock, mut livelock) = (false, false);
        let mut fresh = true; // still on new states
        let mut depth = 0;
        loop {
            let n = run.th.borrow().len();
            let en: Vec<u16> = (0..n).filter(|t| run.enabled(*t)).map(|t| t as u16).collect();
            if en.is_empty() { deadlock = !run.th.borrow().iter().all(|t| t.done); break; }
            let choice;
            if depth < stack.len() {
                choice = stack[depth].0;
                assert!(en.contains(&choice), "the execution is not reproducible");
            } else if fresh && schedule.len() < 3000 && seen.insert(run.key()) {
                st.states += 1;
                // a join that is possible depends on nothing else: no alternative needs to be tried
                let join = { let th = run.th.borrow(); en.iter().copied().find(|t| matches!(th[*t as usize].pending, Some(Op::Join(_)))) };
                let en = if let Some(t) = join { vec![t] } else { en.clone() };
                choice = en[0];
                // threads in the same local state are interchangeable: one of them is enough
                let mut alt: Vec<u16> = vec![];
                {
                    let th = run.th.borrow();
                    let target = match th[0].pending { Some(Op::Join(x)) => x, _ => usize::MAX };
                    let sig = |t: u16| { let x = &th[t as usize]; (x.class, x.hist, t as usize == target, t == 0) };
                    for &t in &en[1..] { if sig(t) != sig(en[0]) && alt.iter().all(|&u| sig(u) != sig(t)) { alt.push(t); } }
                }
                alt.reverse();
                st.transitions += 1 + alt.len() as u64;
                stack.push((choice, alt));
            } else {
                fresh = false;
                choice = en[schedule.len() % en.len()];
            }
            if !fresh && schedule.len() > 100_000 { livelock = true; break; }
            depth += 1;
            schedule.push(choice);
            run.perform(choice as usize);
            run.resume(choice as usize);
            st.steps += 1;
        }
        rand::mc::uninstall();
        rt::install(None);
        MODEL.with(|m| m.set(false));
        st.runs += 1;
        let s = { let th = run.th.borrow(); Seen { deadlock, livelock, schedule, draws: th.iter().map(|t| t.draws).collect(), ops: th.iter().map(|t| t.ops).collect(), threads: th.len() } };
        if st.runs % 64 == 0 { crate::ctx::heartbeat(); }
        let go = after(&s);
        if deadlock || livelock { std::mem::forget(run); RUN.with(|r| r.set(std::ptr::null())); return st; }
        if !go { return st; }
        if st.runs >= max_runs { st.capped = true; return st; }
        loop {
            match stack.last_mut() {
                None => return st,
                Some(f) => match f.1.pop() { Some(t) => { f.0 = t; break } None => { stack.pop(); } },
            }
        }
    }
}
