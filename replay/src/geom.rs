//! Exact integer plane geometry: the oracle side of the replay harness.
pub type Pt = [i64; 2];
pub type Polys = Vec<Vec<Pt>>;

pub fn cross(a: Pt, b: Pt, c: Pt) -> i128 {
    (b[0] - a[0]) as i128 * (c[1] - a[1]) as i128 - (b[1] - a[1]) as i128 * (c[0] - a[0]) as i128
}
fn sgn(x: i128) -> i32 { if x > 0 { 1 } else if x < 0 { -1 } else { 0 } }

pub fn on_segment(a: Pt, b: Pt, p: Pt) -> bool {
    cross(a, b, p) == 0
        && p[0] >= a[0].min(b[0]) && p[0] <= a[0].max(b[0])
        && p[1] >= a[1].min(b[1]) && p[1] <= a[1].max(b[1])
}
/// Do the closed segments share any point?
pub fn seg_touch(a: Pt, b: Pt, c: Pt, d: Pt) -> bool {
    if a[0].max(b[0]) < c[0].min(d[0]) || c[0].max(d[0]) < a[0].min(b[0]) || a[1].max(b[1]) < c[1].min(d[1]) || c[1].max(d[1]) < a[1].min(b[1]) {
        return false;
    }
    let (o1, o2, o3, o4) = (sgn(cross(a, b, c)), sgn(cross(a, b, d)), sgn(cross(c, d, a)), sgn(cross(c, d, b)));
    if o1 * o2 < 0 && o3 * o4 < 0 { return true; }
    on_segment(a, b, c) || on_segment(a, b, d) || on_segment(c, d, a) || on_segment(c, d, b)
}
/// Twice the signed area.
pub fn area2(p: &[Pt]) -> i128 {
    let n = p.len();
    (0..n).map(|i| { let (a, b) = (p[i], p[(i + 1) % n]); a[0] as i128 * b[1] as i128 - a[1] as i128 * b[0] as i128 }).sum()
}
/// The documented preconditions: distinct vertices, no two edges meet except neighbours at their shared vertex.
pub fn valid(polys: &Polys) -> bool {
    let mut edges: Vec<(usize, usize, usize, Pt, Pt)> = Vec::new();
    let mut pts = std::collections::HashSet::new();
    for (k, p) in polys.iter().enumerate() {
        if p.len() < 3 { return false; }
        for i in 0..p.len() {
            if !pts.insert(p[i]) { return false; }
            edges.push((k, i, p.len(), p[i], p[(i + 1) % p.len()]));
        }
    }
    for x in 0..edges.len() {
        for y in x + 1..edges.len() {
            let (k1, i1, n, a, b) = edges[x];
            let (k2, i2, _, c, d) = edges[y];
            if k1 == k2 && i2 == (i1 + 1) % n {
                // share b == c
                if on_segment(a, b, d) || on_segment(c, d, a) { return false; }
                if n == 3 && i1 == (i2 + 1) % n { continue; }
            } else if k1 == k2 && i1 == (i2 + 1) % n {
                if on_segment(c, d, b) || on_segment(a, b, c) { return false; }
            } else if seg_touch(a, b, c, d) { return false; }
        }
    }
    true
}
/// Even-odd membership of the point (px/den, py/den), which must not lie on an edge.
pub fn inside_scaled(polys: &Polys, px: i128, py: i128, den: i128) -> bool {
    let mut inside = false;
    for p in polys {
        for i in 0..p.len() {
            let (a, b) = (p[i], p[(i + 1) % p.len()]);
            let (ax, ay, bx, by) = (a[0] as i128 * den, a[1] as i128 * den, b[0] as i128 * den, b[1] as i128 * den);
            if (ay > py) != (by > py) {
                // x of the edge at py compared with px
                let lhs = (px - ax) * (by - ay);
                let rhs = (bx - ax) * (py - ay);
                let left = if by > ay { lhs < rhs } else { lhs > rhs };
                if left { inside = !inside; }
            }
        }
    }
    inside
}
/// Twice the area of the even-odd interior (polygons do not cross): outer rings positive, holes negative, by nesting depth.
pub fn region_area2(polys: &Polys) -> i128 {
    let mut sum = 0;
    for (k, p) in polys.iter().enumerate() {
        let others: Polys = polys.iter().enumerate().filter(|(j, _)| *j != k).map(|(_, q)| q.clone()).collect();
        let hole = inside_scaled(&others, p[0][0] as i128, p[0][1] as i128, 1);
        let a = area2(p).abs();
        sum += if hole { -a } else { a };
    }
    sum
}
pub fn hole_flags(polys: &Polys) -> Vec<bool> {
    polys.iter().enumerate().map(|(k, p)| {
        let others: Polys = polys.iter().enumerate().filter(|(j, _)| *j != k).map(|(_, q)| q.clone()).collect();
        inside_scaled(&others, p[0][0] as i128, p[0][1] as i128, 1)
    }).collect()
}
/// Does the open segment a-b meet the open (non-degenerate, counterclockwise) triangle?
pub fn seg_meets_open_tri(a: Pt, b: Pt, t: [Pt; 3]) -> bool {
    // clip parameter interval [0,1] against three half planes, exactly, with rationals num/den
    // f_i(s) = c0 + s*(c1-c0) > 0
    let (mut lo_n, mut lo_d) = (0i128, 1i128);
    let (mut hi_n, mut hi_d) = (1i128, 1i128);
    for i in 0..3 {
        let (u, v) = (t[i], t[(i + 1) % 3]);
        let c0 = cross(u, v, a);
        let c1 = cross(u, v, b);
        if c0 <= 0 && c1 <= 0 { return false; }
        if c0 > 0 && c1 > 0 { continue; }
        let d = c1 - c0;
        if d > 0 { // s > -c0/d
            let (n, m) = (-c0, d);
            if n * lo_d > lo_n * m { lo_n = n; lo_d = m; }
        } else { // s < c0/(-d)
            let (n, m) = (c0, -d);
            if n * hi_d < hi_n * m { hi_n = n; hi_d = m; }
        }
    }
    lo_n * hi_d < hi_n * lo_d
}
/// Do two non-degenerate ccw triangles overlap in their interiors?
pub fn tri_overlap(t: [Pt; 3], u: [Pt; 3]) -> bool {
    // separating axis among the six edges
    let sep = |t: [Pt; 3], u: [Pt; 3]| (0..3).any(|i| (0..3).all(|j| cross(t[i], t[(i + 1) % 3], u[j]) <= 0));
    !(sep(t, u) || sep(u, t))
}
pub fn no_three_collinear(polys: &Polys) -> bool {
    let pts: Vec<Pt> = polys.iter().flatten().copied().collect();
    for i in 0..pts.len() { for j in i + 1..pts.len() { for k in j + 1..pts.len() {
        if cross(pts[i], pts[j], pts[k]) == 0 { return false; }
    } } }
    true
}

#[derive(Debug, Default, Clone)]
pub struct Tiling { pub bad_tiling: Option<String>, pub degenerate: usize, pub count: usize }

pub fn judge_winding(tris: &[[Pt; 3]], ccw: bool) -> Option<String> {
    tris.iter().find_map(|t| {
        let c = cross(t[0], t[1], t[2]);
        if c != 0 && (c > 0) != ccw { Some(format!("triangle {:?} has twice-area {} but {} was requested", t, c, if ccw { "counterclockwise" } else { "clockwise" })) } else { None }
    })
}
/// Judge a list of triangles (as points) against the even-odd interior of `polys`.
pub fn judge(polys: &Polys, tris: &[[Pt; 3]]) -> Tiling {
    let mut r = Tiling { count: tris.len(), ..Default::default() };
    let mut solid: Vec<[Pt; 3]> = Vec::new();
    let mut sum = 0i128;
    for t in tris {
        let c = cross(t[0], t[1], t[2]);
        if c == 0 { r.degenerate += 1; continue; }
        sum += c.abs();
        solid.push(if c > 0 { *t } else { [t[0], t[2], t[1]] });
    }
    let want = region_area2(polys);
    if sum != want {
        r.bad_tiling = Some(format!("triangles' total twice-area {} differs from the region's {}", sum, want));
        return r;
    }
    for t in &solid {
        let (cx, cy) = ((t[0][0] + t[1][0] + t[2][0]) as i128, (t[0][1] + t[1][1] + t[2][1]) as i128);
        for p in polys { for i in 0..p.len() {
            let (a, b) = (p[i], p[(i + 1) % p.len()]);
            if seg_meets_open_tri(a, b, *t) {
                r.bad_tiling = Some(format!("edge {:?}-{:?} passes through triangle {:?}", a, b, t));
                return r;
            }
        } }
        if !inside_scaled(polys, cx, cy, 3) {
            r.bad_tiling = Some(format!("triangle {:?} lies outside the region", t));
            return r;
        }
    }
    for i in 0..solid.len() { for j in i + 1..solid.len() {
        if tri_overlap(solid[i], solid[j]) {
            r.bad_tiling = Some(format!("triangles {:?} and {:?} overlap", solid[i], solid[j]));
            return r;
        }
    } }
    r
}
