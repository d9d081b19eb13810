//! Case generators. Every random choice comes from the given seed.
use crate::geom::*;
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(s: u64) -> Self { Rng(s.wrapping_mul(0x2545f4914f6cdd1d) ^ 0x1234567) }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 { self.next() % n }
    pub fn range(&mut self, a: i64, b: i64) -> i64 { a + self.below((b - a + 1) as u64) as i64 }
    pub fn coin(&mut self) -> bool { self.next() & 1 == 1 }
    pub fn shuffle<T>(&mut self, v: &mut [T]) { for i in (1..v.len()).rev() { let j = self.below(i as u64 + 1) as usize; v.swap(i, j); } }
}

fn edges_ok_insert(polys: &Polys, k: usize, i: usize, p: Pt) -> bool {
    // would inserting p between i and i+1 of polygon k keep everything valid?
    let poly = &polys[k];
    let n = poly.len();
    let (a, b) = (poly[i], poly[(i + 1) % n]);
    if polys.iter().flatten().any(|q| *q == p) { return false; }
    for (kk, q) in polys.iter().enumerate() {
        let m = q.len();
        for j in 0..m {
            if kk == k && j == i { continue; }
            let (c, d) = (q[j], q[(j + 1) % m]);
            // new edge a-p
            if kk == k && (j + 1) % n == i { // c-d ends at a
                if on_segment(a, p, c) || on_segment(c, d, p) { return false; }
            } else if seg_touch(a, p, c, d) { return false; }
            if kk == k && j == (i + 1) % n { // starts at b
                if on_segment(p, b, d) || on_segment(c, d, p) { return false; }
            } else if seg_touch(p, b, c, d) { return false; }
        }
    }
    !(on_segment(a, p, b) || on_segment(p, b, a))
}

pub fn random_triangle(r: &mut Rng, lo: Pt, hi: Pt) -> Option<Vec<Pt>> {
    for _ in 0..50 {
        let t: Vec<Pt> = (0..3).map(|_| [r.range(lo[0], hi[0]), r.range(lo[1], hi[1])]).collect();
        if cross(t[0], t[1], t[2]) != 0 { return Some(t); }
    }
    None
}
/// Grow polygons by inserting random points into random edges while the set stays valid.
pub fn grow(r: &mut Rng, npoly: usize, nvert: usize, w: i64, h: i64) -> Polys {
    let mut polys: Polys = Vec::new();
    for _ in 0..200 {
        if polys.len() == npoly { break; }
        // box, sometimes small
        let (mut lo, mut hi) = ([0, 0], [w, h]);
        if !polys.is_empty() || r.coin() {
            let bw = (w / (1 + r.below(5) as i64)).max(2); let bh = (h / (1 + r.below(5) as i64)).max(2);
            lo = [r.range(0, (w - bw).max(0)), r.range(0, (h - bh).max(0))];
            hi = [(lo[0] + bw).min(w), (lo[1] + bh).min(h)];
        }
        if let Some(t) = random_triangle(r, lo, hi) {
            polys.push(t);
            if !valid(&polys) { polys.pop(); }
        }
    }
    let mut fails = 0;
    while polys.iter().map(|p| p.len()).sum::<usize>() < nvert && fails < 300 {
        let k = r.below(polys.len() as u64) as usize;
        let i = r.below(polys[k].len() as u64) as usize;
        let p = if r.below(4) == 0 {
            [r.range(0, w), r.range(0, h)]
        } else {
            let a = polys[k][i];
            let s = 1 + r.below(4) as i64;
            [(a[0] + r.range(-s, s)).clamp(0, w), (a[1] + r.range(-s, s)).clamp(0, h)]
        };
        if edges_ok_insert(&polys, k, i, p) { polys[k].insert(i + 1, p); fails = 0; } else { fails += 1; }
    }
    // random start, orientation, polygon order
    for p in polys.iter_mut() {
        if r.coin() { p.reverse(); }
        let s = r.below(p.len() as u64) as usize;
        p.rotate_left(s);
    }
    r.shuffle(&mut polys);
    polys
}
/// Structured families: combs, zigzags, spirals, nested rings, staircases.
pub fn family(r: &mut Rng) -> Polys {
    let k = 2 + r.below(6) as i64;
    let mut ps: Polys = match r.below(7) {
        0 => { // comb with flat teeth (many equal y)
            let mut p = vec![[0, 0]];
            for i in 0..k { p.push([4 * i, 5]); p.push([4 * i + 1, 5]); p.push([4 * i + 2, 1]); }
            p.remove(0); p.pop();
            p.push([4 * k, 0]); p.push([-1, 0]);
            vec![p]
        }
        1 => { // vertical zigzag band
            let mut l = Vec::new(); let mut rr = Vec::new();
            for i in 0..k + 2 { let o = if i % 2 == 0 { 0 } else { 3 }; l.push([o, 2 * i]); rr.push([o + 2 + (i % 3), 2 * i + (r.below(2) as i64)]); }
            rr.reverse(); l.extend(rr); vec![l]
        }
        2 => { // nested squares, axis-aligned or diamond
            (0..k).map(|i| { let s = 3 * (k - i) + 1; if r.coin() || true { if k % 2 == 0 { vec![[-s, -s], [s, -s], [s, s], [-s, s]] } else { vec![[0, -s], [s, 0], [0, s], [-s, 0]] } } else { vec![] } }).collect()
        }
        3 => { // row of holes
            let mut v = vec![vec![[-1, -1], [4 * k, -1], [4 * k, 4], [-1, 4]]];
            for i in 0..k { let y = r.below(2) as i64; v.push(vec![[4 * i, y], [4 * i + 2, y], [4 * i + 2, y + 2], [4 * i, y + 2]]); }
            v
        }
        4 => { // staircase
            let mut p = vec![[0, 0]];
            for i in 0..k { p.push([i + 1, i]); p.push([i + 1, i + 1]); }
            p.push([-1, k + 1]); p.push([-1, 0]);
            p.remove(0); vec![p]
        }
        5 => { // rectangular spiral
            let mut p: Vec<Pt> = Vec::new(); let mut q: Vec<Pt> = Vec::new();
            let (mut x, mut y) = (0i64, 0i64); let mut len = 4 * k;
            let dirs = [[1, 0], [0, 1], [-1, 0], [0, -1]];
            let norm = [[0, 1], [-1, 0], [0, -1], [1, 0]];
            let mut d = 0;
            p.push([x, y]); q.push([x, y + 1]);
            for step in 0..(2 * k) {
                x += dirs[d][0] * len; y += dirs[d][1] * len;
                let nd = (d + 1) % 4;
                p.push([x, y]);
                q.push([x + norm[d][0] + norm[nd][0], y + norm[d][1] + norm[nd][1]]);
                d = nd;
                if step % 2 == 1 { len -= 3; } if len < 4 { break; }
            }
            q.reverse(); p.extend(q); vec![p]
        }
        _ => { // star rings
            let m = 2 + r.below(4) as usize;
            let dirs: Vec<Pt> = vec![[4, 0], [3, 2], [2, 3], [0, 4], [-2, 3], [-3, 2], [-4, 0], [-3, -2], [-2, -3], [0, -4], [2, -3], [3, -2]];
            (0..m).map(|i| { let mut v: Vec<Pt> = Vec::new(); for d in dirs.iter() { if r.below(5) > 0 { let s = 3 * (m - i) as i64 + r.range(0, 1); v.push([d[0] * s, d[1] * s]); } } v }).collect()
        }
    };
    // random affine with integer coefficients
    let mats: [[i64; 4]; 8] = [[1, 0, 0, 1], [0, -1, 1, 0], [-1, 0, 0, -1], [0, 1, -1, 0], [1, 1, 0, 1], [1, 0, 1, 1], [2, 1, -1, 1], [-1, 0, 0, 1]];
    let m = mats[r.below(8) as usize];
    for p in ps.iter_mut() {
        for q in p.iter_mut() { *q = [m[0] * q[0] + m[1] * q[1], m[2] * q[0] + m[3] * q[1]]; }
        if r.coin() { p.reverse(); }
        if !p.is_empty() { let s = r.below(p.len() as u64) as usize; p.rotate_left(s); }
    }
    r.shuffle(&mut ps);
    ps
}
/// One or two long chains (straight, zigzag or stepped) seen from few opposite vertices: fans of hundreds of triangles.
pub fn long(r: &mut Rng) -> Polys {
    let n = [66, 130, 200, 257, 258, 300, 420, 520][r.below(8) as usize] + r.below(3) as i64;
    let chain = |r: &mut Rng| -> Vec<Pt> {
        match r.below(4) {
            0 | 1 => (0..n).map(|k| [0, k]).collect(),
            2 => (0..n).map(|k| [k % 2, k]).collect(),
            _ => { let m = 2 + r.below(5) as i64; (0..n).map(|k| [if (k / m) % 2 == 0 { 0 } else { 1 }, k]).collect() }
        }
    };
    let mut p = chain(r);
    match r.below(3) {
        0 => { let y = r.range(-2, n + 2); p.push([2 + r.below(20) as i64, y]) }
        1 => { let q = chain(r); p.extend(q.iter().rev().map(|q| [q[0] + 3, q[1]])) }
        _ => { let (a, b) = (r.range(0, n - 1), r.range(0, n - 1)); p.push([9, a.max(b)]); if a != b { p.push([8, a.min(b)]); } }
    }
    let mats: [[i64; 4]; 8] = [[1, 0, 0, 1], [0, -1, 1, 0], [-1, 0, 0, -1], [0, 1, -1, 0], [1, 1, 0, 1], [1, 0, 1, 1], [1, 0, 0, -1], [-1, 0, 0, 1]];
    let m = mats[r.below(8) as usize];
    for q in p.iter_mut() { *q = [m[0] * q[0] + m[1] * q[1], m[2] * q[0] + m[3] * q[1]]; }
    if r.coin() { p.reverse(); }
    let s = r.below(p.len() as u64) as usize;
    p.rotate_left(s);
    vec![p]
}
/// Many polygons at once: a grid of small islands or holes, or deeply nested rings.
pub fn many(r: &mut Rng) -> Polys {
    let mut ps: Polys = Vec::new();
    if r.below(3) == 0 {
        let k = 8 + r.below(33) as i64;
        for i in 0..k { let s = 2 * (k - i) + 1; ps.push(if r.coin() { vec![[-s, -s], [s, -s], [s, s], [-s, s]] } else { vec![[-s, -s], [s, -s + 1], [s - 1, s], [-s, s - 1]] }); }
    } else {
        let (w, h) = if r.below(6) == 0 { (17, 16) } else { (2 + r.below(8) as i64, 2 + r.below(8) as i64) };
        for i in 0..w { for j in 0..h {
            let (x, y) = (5 * i, 5 * j + if r.below(3) == 0 { r.range(0, 1) } else { 0 });
            ps.push(match r.below(4) { 0 => vec![[x, y], [x + 3, y], [x, y + 3]], 1 => vec![[x, y], [x + 3, y + 1], [x + 2, y + 3]], 2 => vec![[x, y], [x + 3, y], [x + 3, y + 3], [x, y + 3]], _ => vec![[x, y + 1], [x + 1, y], [x + 3, y + 2], [x + 1, y + 3]] });
        } }
        if r.coin() { ps.push(vec![[-1, -1], [5 * w, -1], [5 * w, 5 * h], [-1, 5 * h]]); }
    }
    let mats: [[i64; 4]; 8] = [[1, 0, 0, 1], [0, -1, 1, 0], [-1, 0, 0, -1], [0, 1, -1, 0], [1, 1, 0, 1], [1, 0, 1, 1], [1, 0, 0, -1], [-1, 0, 0, 1]];
    let m = mats[r.below(8) as usize];
    for p in ps.iter_mut() {
        for q in p.iter_mut() { *q = [m[0] * q[0] + m[1] * q[1], m[2] * q[0] + m[3] * q[1]]; }
        if r.coin() { p.reverse(); }
        let s = r.below(p.len() as u64) as usize;
        p.rotate_left(s);
    }
    r.shuffle(&mut ps);
    ps
}
pub fn any_valid(r: &mut Rng) -> Polys {
    loop {
        if r.below(2500) == 0 { let ps = long(r); if valid(&ps) { return ps; } }
        if r.below(1200) == 0 { let ps = many(r); if valid(&ps) { return ps; } }
        let ps = match r.below(11) {
            0 | 1 => family(r),
            2 | 3 => { let n = 3 + r.below(6) as usize; let s = 2 + r.below(4) as i64; grow(r, 1, n, s, s) }
            4 | 5 => { let n = 6 + r.below(12) as usize; let w = 3 + r.below(10) as i64; let h = 3 + r.below(10) as i64; grow(r, 1, n, w, h) }
            6 => { let n = 10 + r.below(30) as usize; grow(r, 1, n, 60, 60) }
            7 | 8 => { let k = 2 + r.below(4) as usize; let n = 3 * k + r.below(16) as usize; let w = 8 + r.below(30) as i64; grow(r, k, n, w, w) }
            9 => { let n = 40 + r.below(120) as usize; let k = 1 + r.below(3) as usize; grow(r, k, n, 120, 120) }
            _ => { let n = 6 + r.below(14) as usize; grow(r, 1, n, 1000, 1000) }
        };
        if !ps.is_empty() && valid(&ps) { return ps; }
    }
}
