//! Reference model: boring definitions, sharing no code with the library.
pub type B = Vec<Vec<i32>>;
pub type P = (usize, usize);

pub fn nbs(r: usize, c: usize, p: P) -> Vec<P> {
    let mut v = vec![];
    for dx in -1i64..=1 { for dy in -1i64..=1 {
        if dx == 0 && dy == 0 { continue; }
        let (x, y) = (p.0 as i64 + dx, p.1 as i64 + dy);
        if x >= 0 && y >= 0 && (x as usize) < r && (y as usize) < c { v.push((x as usize, y as usize)); }
    } }
    v
}
pub fn number(mines: &Vec<Vec<bool>>) -> B {
    let (r, c) = (mines.len(), mines[0].len());
    (0..r).map(|i| (0..c).map(|j| {
        if mines[i][j] { -1 } else { nbs(r, c, (i, j)).iter().filter(|p| mines[p.0][p.1]).count() as i32 }
    }).collect()).collect()
}
pub fn mask_mines(r: usize, c: usize, mask: u64) -> Vec<Vec<bool>> {
    (0..r).map(|i| (0..c).map(|j| mask >> (i * c + j) & 1 == 1).collect()).collect()
}
pub fn from_mask(r: usize, c: usize, mask: u64) -> B { number(&mask_mines(r, c, mask)) }
pub fn is_numbered(b: &B) -> bool {
    let m: Vec<Vec<bool>> = b.iter().map(|x| x.iter().map(|v| *v == -1).collect()).collect();
    *b == number(&m)
}
pub fn mines(b: &B) -> usize { b.iter().flatten().filter(|v| **v == -1).count() }
fn comps(r: usize, c: usize, sel: &dyn Fn(P) -> bool) -> Vec<Vec<P>> {
    let mut seen = vec![vec![false; c]; r];
    let mut out = vec![];
    for i in 0..r { for j in 0..c {
        if !seen[i][j] && sel((i, j)) {
            let mut comp = vec![(i, j)];
            seen[i][j] = true;
            let mut k = 0;
            while k < comp.len() {
                for n in nbs(r, c, comp[k]) {
                    if !seen[n.0][n.1] && sel(n) { seen[n.0][n.1] = true; comp.push(n); }
                }
                k += 1;
            }
            out.push(comp);
        }
    } }
    out
}
pub fn components(r: usize, c: usize, sel: impl Fn(P) -> bool) -> Vec<Vec<P>> { comps(r, c, &sel) }
pub struct Stats { pub op: usize, pub isl: usize, pub bbbv: usize, pub cells: [usize; 9] }
pub fn stats(b: &B) -> Stats {
    let (r, c) = (b.len(), b[0].len());
    let op = components(r, c, |p| b[p.0][p.1] == 0).len();
    let isolated = |p: P| b[p.0][p.1] > 0 && nbs(r, c, p).iter().all(|n| b[n.0][n.1] != 0);
    let isl = components(r, c, isolated).len();
    let mut n = 0;
    let mut cells = [0; 9];
    for i in 0..r { for j in 0..c {
        if isolated((i, j)) { n += 1; }
        if b[i][j] >= 0 { cells[b[i][j] as usize] += 1; }
    } }
    Stats { op, isl, bbbv: op + n, cells }
}
/// 3BV solved: openings fully revealed (all zero cells and border) + isolated numbers revealed.
pub fn solved(b: &B, g: &B) -> usize {
    let (r, c) = (b.len(), b[0].len());
    let open = |p: P| g[p.0][p.1] >= 0 && g[p.0][p.1] <= 8;
    let mut n = 0;
    for comp in components(r, c, |p| b[p.0][p.1] == 0) {
        if comp.iter().all(|p| open(*p) && nbs(r, c, *p).into_iter().all(open)) { n += 1; }
    }
    for i in 0..r { for j in 0..c {
        if b[i][j] > 0 && open((i, j)) && nbs(r, c, (i, j)).iter().all(|q| b[q.0][q.1] != 0) { n += 1; }
    } }
    n
}
/// rule-abiding opening of cells on visible board g (spreads over 10/12, never over flags)
pub fn open_cells(b: &B, g: &mut B, cells: &[P]) {
    let (r, c) = (b.len(), b[0].len());
    let mut q: Vec<P> = cells.to_vec();
    let mut k = 0;
    let mut spread = vec![vec![false; c]; r];
    while k < q.len() {
        let p = q[k];
        k += 1;
        if spread[p.0][p.1] { continue; }
        spread[p.0][p.1] = true;
        if b[p.0][p.1] == -1 { g[p.0][p.1] = 15; continue; }
        g[p.0][p.1] = b[p.0][p.1];
        if b[p.0][p.1] == 0 {
            for n in nbs(r, c, p) { if g[n.0][n.1] == 10 || g[n.0][n.1] == 12 { q.push(n); } }
        }
    }
    if cells.iter().any(|p| b[p.0][p.1] == -1) {
        for i in 0..r { for j in 0..c { if g[i][j] == 11 && b[i][j] != -1 { g[i][j] = 14; } } }
    }
}
pub fn show(b: &B) -> String { b.iter().map(|r| r.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(",")).collect::<Vec<_>>().join(" / ") }
/// all (r,c) with r*c<=n
pub fn shapes(lo: usize, hi: usize) -> Vec<P> {
    let mut v = vec![];
    for n in lo..=hi { for r in 1..=n { if n % r == 0 { v.push((r, n / r)); } } }
    v
}
/// periodic mine layouts for large boards: mine iff (a*i+b*j+k) mod m < t, all parameters m<=mm
pub fn lattice(r: usize, c: usize, mm: usize) -> Vec<(String, Vec<Vec<bool>>)> {
    let mut v = vec![];
    for m in 2..=mm { for a in 0..m { for b in 0..m { for t in 1..m {
        if m > 2 && a == 0 && b == 0 { continue; }
        let g: Vec<Vec<bool>> = (0..r).map(|i| (0..c).map(|j| (a * i + b * j) % m < t).collect()).collect();
        v.push((format!("lattice m={m} a={a} b={b} t={t} {r}x{c}"), g));
    } } } }
    v
}
/// product lattices: mine iff i%p in rows and j%q cols pattern (bit pattern over p*q block)
pub fn tiled(r: usize, c: usize, p: usize, q: usize, bits: u64) -> Vec<Vec<bool>> {
    (0..r).map(|i| (0..c).map(|j| bits >> ((i % p) * q + j % q) & 1 == 1).collect()).collect()
}
pub fn sorted<T: Ord + Clone>(v: &[T]) -> Vec<T> { let mut w = v.to_vec(); w.sort(); w.dedup(); w }
