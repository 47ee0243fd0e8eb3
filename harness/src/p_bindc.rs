//! C34: the C library behaves like the library. Cases are enumerated here, with what each call must give
//! (the Rust library's answer); a C program linked against the compiled C library replays them.
use crate::choice::Tree;
use crate::ctx::*;
use crate::p_evf::scratch;
use crate::p_gen::{free, Cfg};
use crate::refm::*;
use ms_toollib::*;
use std::fmt::Write as _;
use std::io::Write;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;

struct Out { files: Vec<Mutex<std::io::BufWriter<std::fs::File>>>, next: AtomicUsize, lines: AtomicU64 }
impl Out {
    fn put(&self, text: &str, n: u64) { let k = self.next.fetch_add(1, SeqCst) % self.files.len(); self.files[k].lock().unwrap().write_all(text.as_bytes()).unwrap(); self.lines.fetch_add(n, SeqCst); }
}
fn cells(b: &B, o: &mut String) { for r in b { for v in r { let _ = write!(o, " {}", v); } } }
fn quiet<R>(f: impl FnOnce() -> R) -> Option<R> { call(&|| "the library itself, computing what the C library must return".to_string(), f).ok() }
fn metric(ctx: &Ctx, out: &Out) {
    let mut lay: Vec<(usize, usize, u64)> = vec![];
    for (r, c) in shapes(1, if ctx.thorough { 16 } else { 12 }) { for m in 0..1u64 << (r * c) { lay.push((r, c, m)); } }
    ctx.par(lay.len() / 64 + 1, |q| {
        let (mut o, mut n) = (String::new(), 0);
        for (r, c, m) in &lay[q * 64..lay.len().min(q * 64 + 64)] {
            let b = from_mask(*r, *c, *m);
            if let Some(w) = quiet(|| cal_bbbv(&b)) { let _ = write!(o, "B {} {}", r, c); cells(&b, &mut o); let _ = writeln!(o, " {}", w); n += 1; }
        }
        ctx.add(n, n, n);
        out.put(&o, n);
    });
}
fn position(o: &mut String, v: &B, m: f64) -> u64 {
    // the C interface has no way to report a contradictory position
    let Some(Ok((p, t))) = quiet(|| cal_possibility_onboard(v, m)) else { return 0 };
    let _ = write!(o, "P {} {} {:?}", v.len(), v[0].len(), m);
    cells(v, o);
    let _ = write!(o, " {} {} {}", t[0], t[1], t[2]);
    for r in &p { for x in r { let _ = write!(o, " {:?}", x); } }
    o.push('\n');
    1
}
fn positions(ctx: &Ctx, out: &Out) {
    let mut shp = vec![(1usize, 1usize), (1, 3), (3, 1), (2, 2), (2, 3), (3, 2), (1, 6), (6, 1), (2, 4), (4, 2), (3, 3), (1, 8)];
    if ctx.thorough { shp.extend([(2, 5), (5, 2), (1, 10), (10, 1)]); }
    for (r, c) in shp {
        let n = r * c;
        ctx.par(1 << n, |m| {
            let b = from_mask(r, c, m as u64);
            let safe = !(m as u64) & ((1 << n) - 1);
            let mut s = safe;
            let (mut o, mut k) = (String::new(), 0);
            loop {
                let v: B = (0..r).map(|i| (0..c).map(|j| if s >> (i * c + j) & 1 == 1 { b[i][j] } else { 10 }).collect()).collect();
                // as it is, and with the certain cells marked
                let mut w = v.clone();
                let _ = quiet(|| mark_board(&mut w));
                let mut vs = vec![v];
                if w != vs[0] { vs.push(w); }
                for v in vs { for t in [mines(&b) as f64, mines(&b) as f64 + 1.0, n as f64, 0.2, 0.5] { k += position(&mut o, &v, t); } }
                if s == 0 { break; }
                s = (s - 1) & safe;
            }
            ctx.add(k, k, k);
            out.put(&o, k);
        });
    }
}
fn layouts(ctx: &Ctx, out: &Out) {
    let th = ctx.thorough;
    let lim = if th { 8 } else { 7 };
    let mut jobs: Vec<(Cfg, Option<u8>)> = vec![];
    for (r, c) in shapes(1, lim) { for k in 0..r * c { for m in 0..r * c { jobs.push((Cfg { r, c, m, p: (k / c, k % c), op: false }, None)); } } }
    for (r, c, m) in [(8usize, 8usize, 10usize), (16, 16, 40), (16, 30, 99), (30, 16, 99), (1, 40, 20), (40, 1, 3), (5, 9, 44)] { for p in [(0, 0), (0, c - 1), (r - 1, 0), (r - 1, c - 1), (r / 2, c / 2)] { for pol in 0..8 { jobs.push((Cfg { r, c, m, p, op: false }, Some(pol))); } } }
    ctx.par(jobs.len(), |i| {
        let (g, pol) = &jobs[i];
        if g.m > free(g.r, g.c, g.p, false) { return; }
        let mut tree = match pol { None => Tree::all(), Some(p) => Tree::new(*p, 0) };
        let (mut o, mut n) = (String::new(), 0);
        while let Some((res, _, raw)) = tree.next(|| quiet(|| laymine(g.r, g.c, g.m, g.p.0, g.p.1))) {
            let Some(b) = res else { rand::mc::uninstall(); break };
            let d = tree.draws();
            // a random source the chooser does not see, or an endless one, is nothing to replay
            if raw > 0 || d.len() > 4000 { break; }
            let _ = write!(o, "L {} {} {} {} {} {}", g.r, g.c, g.m, g.p.0, g.p.1, d.len());
            for x in d { let _ = write!(o, " {}", x); }
            cells(&b, &mut o);
            o.push('\n');
            n += 1;
        }
        ctx.add(n, n, (n > 1) as u64);
        out.put(&o, n);
    });
}
pub fn c34(ctx: &Ctx) {
    let root = scratch();
    let nproc = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(8);
    let out = Out { files: (0..nproc).map(|i| Mutex::new(std::io::BufWriter::new(std::fs::File::create(format!("{root}/c{i}")).unwrap()))).collect(), next: Default::default(), lines: Default::default() };
    metric(ctx, &out);
    positions(ctx, &out);
    layouts(ctx, &out);
    for f in &out.files { f.lock().unwrap().flush().unwrap(); }
    let exe = format!("{VERIF}/harness_c/target/driver");
    let hs: Vec<std::process::Child> = (0..nproc).map(|i| std::process::Command::new(&exe).arg(format!("{root}/c{i}")).stdin(std::process::Stdio::null()).stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::null()).spawn().expect("the replaying program does not start")).collect();
    let mut done = 0;
    for h in hs {
        let o = h.wait_with_output().unwrap();
        let text = String::from_utf8_lossy(&o.stdout).to_string();
        let (mut fin, mut last) = (false, String::new());
        for l in text.lines() {
            if let Some(x) = l.strip_prefix("BAD ") { let k = match x { _ if x.starts_with("cal3BV") => "cal3bv", _ if x.contains("memory") => "memory", _ if x.contains("probab") || x.contains("totals") || x.starts_with("cal_poss") => "possibility", _ => "layout" }; ctx.violation(k, || x.to_string()); }
            else if let Some(x) = l.strip_prefix("DONE ") { done += x.split(' ').next().and_then(|x| x.parse::<u64>().ok()).unwrap_or(0); fin = true; }
            else if let Some(x) = l.strip_prefix("AT ") { last = x.to_string(); }
        }
        if !fin { ctx.violation("process-died", || format!("the C program ended with {:?} in {}", o.status, last)); }
    }
    let _ = std::fs::remove_dir_all(&root);
    ctx.count("c_calls_compared", done);
    if done != out.lines.load(SeqCst) && ctx.nviol() == 0 { eprintln!("{} cases written, {} replayed", out.lines.load(SeqCst), done); std::process::exit(6); }
    ctx.sample(|| "P 1 3 1.0 10 1 10 1 1 1 0.5 0.0 0.5: cal_possibility_onboard on the row (closed, 1, closed) with one mine gives totals 1 1 1 and probabilities 1/2, 0, 1/2; after free_board_poss no block of memory is left".into());
    ctx.note("cal3BV: every layout of every shape up to 12 cells (thorough 16); cal_possibility_onboard: every layout x opened-set position of 1x1 1x3 3x1 2x2 2x3 3x2 1x6 6x1 2x4 4x2 3x3 1x8 (thorough also 2x5 5x2 1x10 10x1), unmarked and marked, three mine totals and two densities; laymine: every outcome of the random source for every shape up to 7 cells (thorough 8), start cell and mine count, and full-size boards under eight policies of answers");
    ctx.note("each call inside a count of every allocation: nothing left after free_board / free_board_poss, nothing given back twice, the caller's board unchanged; the C program is compiled against /repo/c/ms_toollib.h");
}
