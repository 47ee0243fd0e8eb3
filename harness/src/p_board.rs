//! C01 C02 C03 C16
use crate::ctx::*;
use crate::refm::*;
use ms_toollib::*;

fn check_metrics(ctx: &Ctx, name: &dyn Fn() -> String, b: &B, safe: bool) {
    let s = stats(b);
    let case = || format!("{} board {}", name(), show(b));
    let want = (s.bbbv, s.op, s.isl, s.cells);
    match call(&case, || (cal_bbbv(b), cal_op(b), cal_isl(b), cal_cell_nums(b))) {
        Ok(got) if got == want => {}
        Ok(got) => ctx.violation("metrics", || format!("{} (3BV,op,isl,cells) got {:?} want {:?}", case(), got, want)),
        Err(e) => ctx.violation("metrics-panic", || format!("{} {}", case(), e)),
    }
    if safe {
        match call(&case, || { let sb = SafeBoard::new(b.clone()); (cal_bbbv(&sb), cal_op(&sb), cal_isl(&sb), cal_cell_nums(&sb)) }) {
            Ok(got) if got == want => {}
            Ok(got) => ctx.violation("metrics-safe", || format!("{} protected board: got {:?} want {:?}", case(), got, want)),
            Err(e) => ctx.violation("metrics-panic", || format!("{} {}", case(), e)),
        }
    }
    ctx.add(1, if safe { 8 } else { 4 }, (s.op > 0 && s.isl > 0) as u64);
}

pub fn c01(ctx: &Ctx) {
    let lim = if ctx.thorough { 20 } else { 18 };
    let small = 12;
    for (r, c) in shapes(1, lim) {
        if ctx.thorough && r * c > 18 && !(r == 4 && c == 5 || r == 5 && c == 4 || r == 2 || c == 2) { continue; }
        let n = 1usize << (r * c);
        ctx.par((n + 255) / 256, |ch| {
            for m in ch * 256..((ch + 1) * 256).min(n) {
                let b = from_mask(r, c, m as u64);
                check_metrics(ctx, &|| format!("mask={m}"), &b, r * c <= small);
            }
        });
    }
    ctx.note(format!("all mine layouts of all shapes with at most {lim} cells"));
    ctx.sample(|| format!("3x4 mask 0x21: {}", show(&from_mask(3, 4, 0x21))));
    // large boards
    let sizes: &[(usize, usize)] = &[(8, 8), (9, 9), (16, 16), (16, 30), (30, 16), (1, 64), (64, 1), (24, 30), (40, 40)];
    for &(r, c) in sizes {
        let fam = lattice(r, c, if ctx.thorough { 9 } else { 6 });
        ctx.par(fam.len(), |i| { let b = number(&fam[i].1); check_metrics(ctx, &|| fam[i].0.clone(), &b, true); });
        // one mine, and one safe cell
        ctx.par(r * c, |k| {
            let mut g = vec![vec![false; c]; r];
            g[k / c][k % c] = true;
            check_metrics(ctx, &|| format!("single mine {k} {r}x{c}"), &number(&g), false);
            let g: Vec<Vec<bool>> = g.iter().map(|x| x.iter().map(|v| !v).collect()).collect();
            check_metrics(ctx, &|| format!("single safe cell {k} {r}x{c}"), &number(&g), false);
        });
    }
    // all tilings of the big boards by 2x3 / 3x3 blocks
    for (p, q) in [(2usize, 3usize), (3, 3), (3, 2)] {
        for (r, c) in [(16usize, 30usize), (9, 9)] {
            ctx.par(1 << (p * q), |k| { let b = number(&tiled(r, c, p, q, k as u64)); check_metrics(ctx, &|| format!("tiling {p}x{q} {k}"), &b, false); });
        }
    }
    // serpentine walls: one long winding opening
    for (r, c) in [(16usize, 30usize), (30, 16), (31, 31)] {
        for gap in 3..8usize { for tr in [false, true] {
            let g: Vec<Vec<bool>> = (0..r).map(|i| (0..c).map(|j| {
                let (i, j, _rr, cc) = if tr { (j, i, c, r) } else { (i, j, r, c) };
                i % gap == gap - 1 && { let k = i / gap; if k % 2 == 0 { j + 3 < cc } else { j >= 3 } }
            }).collect()).collect();
            check_metrics(ctx, &|| format!("serpentine {r}x{c} gap {gap}"), &number(&g), true);
        } }
    }
    // the largest board a recording can hold, on an ordinary 8 MiB stack
    let mut huge: Vec<(String, Vec<Vec<bool>>)> = lattice(255, 255, 0);
    huge.push(("no mines".into(), vec![vec![false; 255]; 255]));
    for k in [0usize, 127 * 255 + 127, 65024] { let mut g = vec![vec![false; 255]; 255]; g[k / 255][k % 255] = true; huge.push((format!("one mine at {k}"), g)); }
    ctx.par(huge.len(), |i| check_metrics(ctx, &|| format!("255x255 {}", huge[i].0), &number(&huge[i].1), true));
    ctx.note("all lattice/tiling families on standard boards, all single-mine and single-safe layouts");
}

/// every getter index of the Board wrapper
fn getter(b: &mut Board, k: usize) -> usize {
    match k {
        0 => b.get_bbbv(), 1 => b.get_op(), 2 => b.get_isl(), 3 => b.get_cell0(), 4 => b.get_cell1(), 5 => b.get_cell2(),
        6 => b.get_cell3(), 7 => b.get_cell4(), 8 => b.get_cell5(), 9 => b.get_cell6(), 10 => b.get_cell7(), _ => b.get_cell8(),
    }
}
const GN: [&str; 12] = ["bbbv", "op", "isl", "cell0", "cell1", "cell2", "cell3", "cell4", "cell5", "cell6", "cell7", "cell8"];
pub fn c02(ctx: &Ctx) {
    // boards chosen so that all statistics differ and every digit 0..8 occurs somewhere
    let mut boards: Vec<B> = vec![];
    for (r, c) in shapes(1, if ctx.thorough { 12 } else { 9 }) { for m in 0..1u64 << (r * c) { boards.push(from_mask(r, c, m)); } }
    let depth_small = 2;
    let rich: Vec<B> = vec![
        number(&mask_mines(3, 3, 0b111101111)),
        number(&mask_mines(5, 6, 0b000000_001110_001010_001110_000000)),
        number(&(0..8).map(|i| (0..8).map(|j| i < 3 && j < 3 && !(i == 1 && j == 1) || (i == 5 && j > 5) || i + j == 9).collect()).collect()),
        number(&(0..16).map(|i| (0..30).map(|j| (i * 7 + j * 3) % 5 == 0).collect()).collect()),
        number(&(0..9).map(|i| (0..9).map(|j| (i * j) % 7 == 3 || (3..6).contains(&i) && (3..6).contains(&j) && (i, j) != (4, 4)).collect()).collect()),
    ];
    let run = |b: &B, seq: &[usize]| {
        let s = stats(b);
        let want = |k: usize| match k { 0 => s.bbbv, 1 => s.op, 2 => s.isl, k => s.cells[k - 3] };
        let case = || format!("board {} getters {:?}", show(b), seq.iter().map(|k| GN[*k]).collect::<Vec<_>>());
        match call(&case, || { let mut w = Board::new(b.clone()); seq.iter().map(|k| getter(&mut w, *k)).collect::<Vec<_>>() }) {
            Err(e) => ctx.violation("getter-panic", || format!("{} {}", case(), e)),
            Ok(v) => for (i, k) in seq.iter().enumerate() {
                if v[i] != want(*k) { ctx.violation("getter", || format!("{}: call {} returned {} want {}", case(), i, v[i], want(*k))); break; }
            },
        }
        ctx.add(1, seq.len() as u64, (s.op > 0 && s.bbbv > s.op) as u64);
    };
    ctx.par(boards.len(), |i| {
        let all: Vec<usize> = if depth_small == 2 { (0..12).collect() } else { vec![] };
        for a in &all { for b in &all { run(&boards[i], &[*a, *b]); } }
        for s in [[0usize, 1, 2, 0, 1, 2], [1, 0, 1, 0, 2, 2], [2, 1, 0, 0, 1, 2]] { run(&boards[i], &s); }
    });
    // deep sequences on rich boards: all sequences over the getters
    let deep = if ctx.thorough { 6 } else { 5 };
    for b in &rich {
        let total = 12usize.pow(deep as u32);
        ctx.par(12, |f| {
            for k in (f * total / 12)..((f + 1) * total / 12) {
                let mut seq = vec![]; let mut x = k;
                for _ in 0..deep { seq.push(x % 12); x /= 12; }
                run(b, &seq);
            }
        });
    }
    ctx.sample(|| format!("{} getters [op, bbbv, op, op]", show(&rich[1])));
    ctx.note(format!("all getter sequences of length 2 on {} boards; all of length {} on {} rich boards", boards.len(), deep, rich.len()));
}

pub fn c03(ctx: &Ctx) {
    // layouts x visible states (10,11,12, or true open) x clicked sets
    let lim = if ctx.thorough { 9 } else { 8 };
    let check = |b: &B, g0: &B, cl: &[P], safe: bool| {
        let mut want = g0.clone();
        open_cells(b, &mut want, cl);
        let case = || format!("board {} visible {} clicked {:?}", show(b), show(g0), cl);
        let got = call(&case, || {
            let mut g = g0.clone();
            if safe { refresh_board(&SafeBoard::new(b.clone()), &mut g, cl.to_vec()); } else { refresh_board(b, &mut g, cl.to_vec()); }
            g
        });
        match got {
            Err(e) => ctx.violation("open-panic", || format!("{} {}", case(), e)),
            Ok(g) => if g != want { ctx.violation("open", || format!("{} got {} want {}", case(), show(&g), show(&want))); },
        }
        ctx.add(1, 1, (cl.iter().any(|p| b[p.0][p.1] == 0)) as u64);
    };
    for (r, c) in shapes(1, lim) {
        let n = r * c;
        ctx.par(1 << n, |m| {
            let b = from_mask(r, c, m as u64);
            // visible: each cell in {10,11,12,open(if safe)}
            let states = 4usize.pow(n as u32);
            'st: for s in 0..states {
                let mut g = vec![vec![10; c]; r];
                let mut x = s;
                for k in 0..n {
                    let (i, j) = (k / c, k % c);
                    g[i][j] = match x % 4 { 0 => 10, 1 => 11, 2 => { if n > 7 { continue 'st } 12 }, _ => { if b[i][j] < 0 { continue 'st } b[i][j] } };
                    x /= 4;
                }
                for k in 0..n {
                    let p = (k / c, k % c);
                    if g[p.0][p.1] == 10 || g[p.0][p.1] == 12 {
                        check(&b, &g, &[p], n <= 4);
                        for k2 in 0..n {
                            let p2 = (k2 / c, k2 % c);
                            if k2 != k && (g[p2.0][p2.1] == 10 || g[p2.0][p2.1] == 12) { check(&b, &g, &[p, p2], false); }
                        }
                    }
                }
            }
        });
    }
    ctx.note(format!("all layouts, all visible states over unopened/flagged/marked-safe/open, all ordered click lists of length 1 and 2, boards up to {lim} cells"));
    // larger boards, from empty and flagged boards, all single clicks and all pairs on 3x4, all triples of clicks
    let shp: &[(usize, usize)] = if ctx.thorough { &[(3, 4), (4, 3), (4, 4), (2, 8), (3, 5)] } else { &[(3, 4), (4, 3), (2, 6), (3, 3)] };
    for &(r, c) in shp {
        let n = r * c;
        ctx.par(1 << n, |m| {
            let b = from_mask(r, c, m as u64);
            let g = vec![vec![10; c]; r];
            for k in 0..n {
                check(&b, &g, &[(k / c, k % c)], false);
                for f in 0..n { let mut g = g.clone(); g[f / c][f % c] = 11; if f != k { check(&b, &g, &[(k / c, k % c)], false); } }
            }
            if n <= 12 { for k in 0..n { for l in 0..n { if k != l { check(&b, &g, &[(k / c, k % c), (l / c, l % c)], false); } } } }
        });
    }
    for (r, c) in [(9usize, 9usize), (16, 16), (16, 30), (30, 16)] {
        let fam = lattice(r, c, 6);
        ctx.par(fam.len(), |i| {
            let b = number(&fam[i].1);
            let mut g0 = vec![vec![10; c]; r];
            for k in 0..r * c { if k % 11 == 5 { g0[k / c][k % c] = 11; } }
            for k in (0..r * c).step_by(7) { if g0[k / c][k % c] == 10 { check(&b, &g0, &[(k / c, k % c)], false); } }
        });
        let e = vec![vec![0; c]; r];
        check(&e, &vec![vec![10; c]; r], &[(0, 0)], true);
        ctx.par(r * c, |k| { let mut m = vec![vec![false; c]; r]; m[k / c][k % c] = true; let b = number(&m); let g = vec![vec![10; c]; r];
            for s in [0, r * c - 1, c - 1, r * c / 2, k] { check(&b, &g, &[(s / c, s % c)], false); } });
    }
    ctx.sample(|| "board 3x4 mask 0x801, click (1,1), flag on (2,2)".into());
}

pub fn c16(ctx: &Ctx) {
    // every value, every random outcome up to residues: chooser returns representative draws
    let draws: Vec<u64> = vec![0, 1, 2, 7, 9999, 10000, 10001, u64::MAX / 2, u64::MAX - 1, u64::MAX];
    let vals: Vec<i32> = (-1..=8).chain([10, 11, 12, 14, 15, 16, -2, -3]).collect();
    let nd = draws.len();
    let mut full: Vec<(i32, [u64; 3])> = vec![];
    for &v in &vals { for a in 0..nd { for b in 0..nd { for c in 0..nd { full.push((v, [draws[a], draws[b], draws[c]])); } } } }
    // residues: a+b+c enters modulo 20, so sweep residues of each draw too
    for &v in &vals { for a in 0..21u64 { for b in 0..21u64 { for c in 0..3u64 { full.push((v, [a, b, c])); full.push((v, [a + (1 << 20), 20000 - b, 10_000_000 + c])); } } } }
    ctx.par(full.len(), |i| {
        let (v, d) = full[i];
        let case = || format!("value {v} draws {:?}", d);
        let res = call(&case, || {
            let mut k = 0;
            rand::mc::install(Box::new(move |n| { let x = d[k % 3]; k += 1; if x >= n { if x > u64::MAX - 2 { n - 1 } else if x > 1 << 62 { n / 2 } else { x % n } } else { x } }));
            let s = SafeBoard::new(vec![vec![v, 3], vec![-1, v]]);
            let out = (s[0][0], s[1][1], s.into_vec_vec(), s[0].into_vec(), s[0].clone().collect::<Vec<i32>>());
            rand::mc::uninstall();
            out
        });
        match res {
            Err(e) => { rand::mc::uninstall(); ctx.violation("safe-panic", || format!("{} {}", case(), e)) }
            Ok((a, b, w, rv, it)) => {
                if a != v || b != v || w != vec![vec![v, 3], vec![-1, v]] || rv != vec![v, 3] { ctx.violation("safe-read", || format!("{} read {} {} {:?} {:?}", case(), a, b, w, rv)); }
                if it != vec![v, 3] { ctx.violation("safe-iter", || format!("{} iterated {:?} want [{v}, 3]", case(), it)); }
            }
        }
        ctx.add(1, 5, (v != 0) as u64);
    });
    // shapes and every layout of small boards, set() replacement across sizes
    let shp = shapes(1, if ctx.thorough { 12 } else { 9 });
    let others: Vec<B> = vec![vec![vec![5]], from_mask(3, 4, 0x21), from_mask(1, 6, 5), from_mask(4, 2, 0x13)];
    ctx.par(shp.len(), |si| {
        let (r, c) = shp[si];
        for m in 0..1u64 << (r * c) {
            let b = from_mask(r, c, m);
            let case = || format!("board {}", show(&b));
            let res = call(&case, || {
                let mut s = SafeBoard::new(b.clone());
                let a = s.into_vec_vec();
                let idx: B = (0..r).map(|i| (0..c).map(|j| s[i][j]).collect()).collect();
                let rows: B = s.clone().map(|r| r.into_vec()).collect();
                let lens: Vec<usize> = s.clone().map(|r| r.len()).collect();
                let mut ok = a == b && idx == b && rows == b && lens.iter().all(|l| *l == c) && lens.len() == r;
                if m % 37 == 0 || m < 8 {
                    for o in &others {
                        s.set(o.clone());
                        ok &= s.into_vec_vec() == *o;
                        let n: B = s.clone().map(|r| r.into_vec()).collect();
                        ok &= n == *o;
                        s.set(b.clone());
                        ok &= s.into_vec_vec() == b;
                        // a partly or fully iterated board changes neither reading nor the next board set
                        for k in 0..=r + 1 {
                            let got: B = s.by_ref().take(k).map(|r| r.into_vec()).collect();
                            ok &= got == b[..k.min(r)] && s.into_vec_vec() == b && s[r - 1][c - 1] == b[r - 1][c - 1];
                            s.set(o.clone());
                            let n: B = s.by_ref().map(|r| r.into_vec()).collect();
                            ok &= n == *o && s.into_vec_vec() == *o;
                            s.set(b.clone());
                        }
                    }
                }
                ok
            });
            match res { Err(e) => ctx.violation("safe-panic", || format!("{} {}", case(), e)), Ok(true) => {}, Ok(false) => ctx.violation("safe-board", || case()) }
            ctx.add(1, 4, 1);
        }
    });
    for (r, c) in [(9usize, 9usize), (16, 30), (24, 30), (1, 200), (200, 1), (255, 255)] {
        for (name, g) in lattice(r, c, 4) {
            let b = number(&g);
            let case = || name.clone();
            match call(&case, || { let s = SafeBoard::new(b.clone()); s.into_vec_vec() == b && (0..r).all(|i| (0..c).all(|j| s[i][j] == b[i][j])) }) {
                Ok(true) => {}, Ok(false) => ctx.violation("safe-board", || case()), Err(e) => ctx.violation("safe-panic", || format!("{} {}", case(), e)) }
            ctx.add(1, 2, 1);
        }
    }
    ctx.sample(|| "value -1, draws (0, 20000, n-1)".into());
    ctx.note("17 cell codes x draw boundary values and residues; all layouts of small shapes; set() across sizes");
}
