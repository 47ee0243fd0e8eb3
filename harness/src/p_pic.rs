//! C33: a position read off a clean picture of it.
use crate::ctx::*;
use crate::refm::*;
use ms_toollib::*;
use std::collections::HashSet;

// the digits of the classic skin, 10 x 10
const GLYPH: [[&str; 10]; 9] = [[""; 10],
["....##....","...###....","..####....","....##....","....##....","....##....","....##....","....##....","..######..","..######.."],
[".########.","##########","##......##","........##","......####","....####..","..####....","####......","##########","##########"],
["########..","#########.",".......###",".......###","..#######.","..#######.",".......###",".......###","#########.","########.."],
["..###.###.","..###.###.",".###..###.",".###..###.","##########","##########","......###.","......###.","......###.","......###."],
["##########","##########","##........","##........","#########.","##########","........##","........##","#########.","########.."],
[".########.","#########.","###.......","###.......","#########.","##########","###....###","###....###","##########",".########."],
["##########","##########","........##","........##",".......##.",".......##.","......##..","......##..",".....##...",".....##..."],
[".########.","##########","###....###","###....###",".########.",".########.","###....###","###....###","##########",".########."]];
const COL: [[usize; 3]; 9] = [[192,192,192],[0,0,255],[0,128,0],[255,0,0],[0,0,128],[128,0,0],[0,128,128],[0,0,0],[128,128,128]];
fn pixel(v: i32, y: usize, x: usize) -> [usize; 3] {
    if v == 10 {
        if y + x < 15 && (y < 2 || x < 2) { return [255; 3]; }
        if y + x > 15 && (y > 13 || x > 13) { return [128; 3]; }
        return [192; 3];
    }
    if y == 0 || x == 0 { return [128; 3]; }
    if v > 0 && (3..13).contains(&y) && (3..13).contains(&x) && GLYPH[v as usize][y - 3].as_bytes()[x - 3] == b'#' { return COL[v as usize]; }
    [192; 3]
}
/// margins: top, bottom, left, right; the board has a sunken border three pixels wide
struct Place { cell: usize, m: [usize; 4], alpha: usize }
fn draw(b: &B, p: &Place) -> (Vec<usize>, usize, usize) {
    let (rh, cw) = (b.len() * p.cell, b[0].len() * p.cell);
    let (h, w) = (rh + p.m[0] + p.m[1], cw + p.m[2] + p.m[3]);
    let k = 3;
    let mut o = Vec::with_capacity(h * w * 4);
    for y in 0..h { for x in 0..w {
        let (yy, xx) = (y as i64 - p.m[0] as i64, x as i64 - p.m[2] as i64);
        let c = if yy >= 0 && xx >= 0 && yy < rh as i64 && xx < cw as i64 { let (yy, xx) = (yy as usize, xx as usize); pixel(b[yy / p.cell][xx / p.cell], yy % p.cell * 16 / p.cell, xx % p.cell * 16 / p.cell) }
            else if yy >= -k && xx >= -k && yy < rh as i64 + k && xx < cw as i64 + k { if yy < 0 || xx < 0 { [128; 3] } else { [255; 3] } } else { [192; 3] };
        o.extend([c[2], c[1], c[0], if p.alpha == 1000 { (y * 7 + x * 13) % 256 } else { p.alpha }]);
    } }
    (o, h, w)
}
pub fn picture(b: &B) -> (Vec<usize>, usize, usize) { draw(b, &Place { cell: 32, m: [7, 12, 9, 20], alpha: 255 }) }
fn closed_around(b: &B, i: usize, j: usize) -> i32 { nbrs(b.len(), b[0].len(), i, j).iter().filter(|q| b[q.0][q.1] >= 10).count() as i32 }
/// what has to be read: the position, no number beyond the unopened cells around it
fn want(b: &B) -> B { (0..b.len()).map(|i| (0..b[0].len()).map(|j| if b[i][j] >= 10 { 10 } else { b[i][j].min(closed_around(b, i, j)) }).collect()).collect() }
fn sure(g: &B) -> Option<String> {
    if g.len() <= 3 || g[0].len() <= 3 || g.iter().any(|r| r.len() != g[0].len()) { return Some(format!("{} rows of {:?} cells", g.len(), g.iter().map(|r| r.len()).collect::<Vec<_>>())); }
    for i in 0..g.len() { for j in 0..g[0].len() {
        let v = g[i][j];
        if !(0..=8).contains(&v) && v != 10 && v != 11 { return Some(format!("cell code {} at {:?}", v, (i, j))); }
        if (1..=8).contains(&v) && v > closed_around(g, i, j) { return Some(format!("the number {} at {:?} with {} unopened cells around it", v, (i, j), closed_around(g, i, j))); }
    } }
    None
}
fn nbrs(r: usize, c: usize, i: usize, j: usize) -> Vec<(usize, usize)> { let mut o = vec![]; for y in i.saturating_sub(1)..(i + 2).min(r) { for x in j.saturating_sub(1)..(j + 2).min(c) { if (y, x) != (i, j) { o.push((y, x)); } } } o }
fn read(ctx: &Ctx, b: &B, p: &Place, exact: bool) {
    ctx.add(1, (b.len() * b[0].len()) as u64, 0);
    let (d, h, w) = draw(b, p);
    let case = || format!("picture {}x{}, cells of {} pixels, margins top/bottom/left/right {:?}, alpha {}, of {}", h, w, p.cell, p.m, p.alpha, show(b));
    match call(&case, || OBR_board(d, h, w)) {
        Err(e) => if exact { ctx.violation("reading panics", || format!("{}: {}", case(), e)); },
        Ok(Err(e)) => if exact { ctx.violation("reading refused", || format!("{}: {}", case(), e)); },
        Ok(Ok(g)) => {
            if let Some(t) = sure(&g) { ctx.violation("reading is impossible", || format!("{}: read {}: {}", case(), show(&g), t)); return; }
            if !exact {
                ctx.count("readings of uneasy pictures", 1);
                let (d, h, w) = draw(b, &Place { cell: p.cell, m: p.m, alpha: 1000 });
                match call(&case, || OBR_board(d, h, w)) { Ok(Ok(k)) if k == g => ctx.add(0, 0, 1), r => ctx.violation("reading depends on transparency", || format!("{}: {} and with other alpha values {:?}", case(), show(&g), r)) }
                return;
            }
            ctx.add(0, 0, 1);
            let e = want(b);
            if g != e { ctx.violation("reading differs", || format!("{}: read {} instead of {}", case(), show(&g), show(&e))); }
        }
    }
}
fn numb(m: &B) -> B { number(&m.iter().map(|r| r.iter().map(|v| *v == -1).collect()).collect()) }
/// one position per way of opening the board
fn opened(real: &B, from: impl Fn(usize, usize) -> bool) -> B {
    let mut v = vec![vec![10; real[0].len()]; real.len()];
    for i in 0..real.len() { for j in 0..real[0].len() { if real[i][j] != -1 && v[i][j] == 10 && from(i, j) { open(real, &mut v, i, j); } } }
    v
}
fn open(real: &B, v: &mut B, i: usize, j: usize) {
    let mut t = vec![(i, j)];
    while let Some((i, j)) = t.pop() {
        if v[i][j] != 10 { continue; }
        v[i][j] = real[i][j];
        if real[i][j] == 0 { t.extend(nbrs(real.len(), real[0].len(), i, j)); }
    }
}
pub fn c33(ctx: &Ctx) {
    let th = ctx.thorough;
    if !std::path::Path::new("/repo/base/params.onnx").exists() { eprintln!("params.onnx is missing"); std::process::exit(4); }
    std::env::set_current_dir("/repo/base").unwrap();
    let places = [[7usize, 7, 7, 7], [7, 30, 8, 21], [60, 9, 12, 7], [9, 12, 60, 11], [12, 60, 9, 60], [41, 7, 33, 90]].map(|m| Place { cell: 32, m, alpha: 255 });
    let mut places = places.into_iter().collect::<Vec<_>>();
    for (p, a) in places.iter_mut().zip([255usize, 0, 1000, 255, 128, 1000]) { p.alpha = a; }
    let mut sets: Vec<(B, bool)> = vec![]; // position, in every placement
    let mut seen: HashSet<B> = HashSet::new();
    let mut add = |v: B, all: bool| if seen.insert(v.clone()) { sets.push((v, all)); };
    // every size, with an ordinary density of mines: every second cell opened
    for r in 8..=if th { 24 } else { 16 } { for c in 8..=30usize { if th || r < 10 || (r + c) % 3 == 0 {
        let n = r * c;
        let mut m = vec![vec![0i32; c]; r];
        let mut k = (r * 31 + c * 17) % n;
        for _ in 0..n / 6 { while m[k / c][k % c] != 0 { k = (k + 1) % n; } m[k / c][k % c] = -1; k = (k * 5 + 7) % n; }
        let real = numb(&m);
        add(opened(&real, |i, j| (i + j) % 2 == 0 && real[i][j] != 0), true);
    } } }
    // every one-mine board of 8 x 8, every first click
    for a in 0..64 { for q in 0..64 { if a != q { let mut m = vec![vec![0; 8]; 8]; m[a / 8][a % 8] = -1; let real = numb(&m); add(opened(&real, |i, j| i * 8 + j == q), true); } } }
    // every two-mine board of 8 x 8, everything opened
    let s = 8;
    for a in 0..s * s { for b in 0..a { let mut m = vec![vec![0; s]; s]; m[a / s][a % s] = -1; m[b / s][b % s] = -1; add(opened(&numb(&m), |_, _| true), false); } }
    // every filling of a 3 x 3 part with mines, everything and half of it opened, in the middle and in a corner
    for mask in 0..512u32 { for at in [3usize, 0, 5] {
        let mut m = vec![vec![0; 8]; 8];
        for k in 0..9 { if mask >> k & 1 == 1 { m[at + k / 3][at + k % 3] = -1; } }
        let real = numb(&m);
        let full = opened(&real, |_, _| true);
        add(full, true);
        if at == 3 || th { add(opened(&real, |i, j| (i + j) % 2 == 0), true); }
    } }
    let legal = sets.len();
    // pictures of impossible positions: every number with every set of unopened neighbours
    for v in 1..=8 { for mask in 0..256u32 { if th || mask.count_ones() < v as u32 {
        let mut b = vec![vec![10; 9]; 9];
        for i in 2..7 { for j in 2..7 { b[i][j] = 0; } }
        b[4][4] = v;
        for (k, q) in nbrs(9, 9, 4, 4).into_iter().enumerate() { if mask >> k & 1 == 1 { b[q.0][q.1] = 10; } }
        sets.push((b, true));
    } } }
    let job: Vec<(usize, usize)> = (0..sets.len()).flat_map(|i| if sets[i].1 && (th || i % 10 == 0) { (0..6).map(|k| (i, k)).collect::<Vec<_>>() } else { vec![(i, if sets[i].1 { i % 6 } else { 0 })] }).collect();
    ctx.par(job.len(), |k| { let (i, p) = job[k]; read(ctx, &sets[i].0, &places[p], true); });
    // pictures the reader need not get right: whatever it returns is possible
    let mut uneasy: Vec<(usize, Place)> = vec![];
    for i in (0..sets.len()).step_by(if th { 61 } else { 397 }) { for cell in (8..=48).step_by(4) { for m in [0usize, 3, 12] { uneasy.push((i, Place { cell, m: [m, m / 2, m, m * 2], alpha: 255 })); } } }
    ctx.par(uneasy.len(), |k| read(ctx, &sets[uneasy[k].0].0, &uneasy[k].1, false));
    // too small a picture is refused
    ctx.par(25, |h| for w in 0..=100usize { for (h, w) in [(h, w), (w, h)] {
        ctx.add(1, 1, 0);
        let case = || format!("picture {}x{}", h, w);
        match call(&case, || OBR_board(vec![128; h * w * 4], h, w)) { Ok(Err(_)) => ctx.add(0, 0, 1), Ok(Ok(g)) => ctx.violation("small picture read", || format!("{}: {}", case(), show(&g))), Err(e) => ctx.violation("small picture panics", || format!("{}: {}", case(), e)) }
    } });
    ctx.sample(|| { let b = &sets[legal / 2].0; let (d, h, w) = draw(b, &places[1]); format!("{}x{} pixels of {} read as {:?}", h, w, show(b), OBR_board(d, h, w).map(|g| show(&g))) });
    ctx.note(format!("{} positions of boards 8x8..{}x30 and {} impossible ones, 32-pixel cells, six placements and four alpha patterns; {} uneasy pictures; {} sizes too small", legal, if th { 24 } else { 16 }, sets.len() - legal, uneasy.len(), 25 * 101 * 2));
}
