//! C04: any coordinates at all; only a return (Ok or Err) is acceptable. A panic, an abort, an out-of-range
//! access (ub-checks) or no return within the watchdog's limit is a violation.
use crate::{gen::*, run::*, Outcome};

fn special(r: &mut Rng, z: &mut f64) {
    *z = match r.below(9) { 0 => f64::NAN, 1 => f64::INFINITY, 2 => f64::NEG_INFINITY, 3 => f64::MAX, 4 => f64::MIN_POSITIVE, 5 => -0.0, 6 => f64::MIN, 7 => 1e-320, _ => *z }
}
pub fn gen(r: &mut Rng) -> Vec<Vec<[f64; 2]>> {
    let mut v: Vec<Vec<[f64; 2]>> = match r.below(8) {
        // a valid set, damaged
        0 | 1 => {
            let mut v: Vec<Vec<[f64; 2]>> = any_valid(r).iter().map(|p| p.iter().map(|q| [q[0] as f64, q[1] as f64]).collect()).collect();
            for _ in 0..1 + r.below(3) {
                let k = r.below(v.len() as u64) as usize; let n = v[k].len() as u64;
                match r.below(5) {
                    0 => { let (i, j) = (r.below(n) as usize, r.below(n) as usize); v[k].swap(i, j); }
                    1 => { let (i, j) = (r.below(n) as usize, r.below(n) as usize); let q = v[k][j]; v[k].insert(i, q); }
                    2 => { let i = r.below(n) as usize; let j = r.below(v.len() as u64) as usize; let q = v[j][0]; v[k][i] = q; }
                    3 => { let i = r.below(n) as usize; let c = r.below(2) as usize; let mut z = v[k][i][c]; special(r, &mut z); v[k][i][c] = z; }
                    _ => { let p = v[k].clone(); v.push(p); }
                }
            }
            v
        }
        // small random garbage on a tiny grid: duplicates, crossings, collinear runs
        2 | 3 | 4 => { let k = 1 + r.below(3) as usize; let g = 1 + r.below(7) as i64; (0..k).map(|_| { let m = 3 + r.below(10); (0..m).map(|_| [r.range(0, g) as f64, r.range(0, g) as f64]).collect() }).collect() }
        // larger garbage
        5 => { let m = 10 + r.below(60); let g = 3 + r.below(200) as i64; vec![(0..m).map(|_| [r.range(0, g) as f64, r.range(0, g) as f64]).collect()] }
        // all points on a line or a point
        6 => { let m = 3 + r.below(20); let d = [r.range(-1, 1), r.range(-1, 1)]; vec![(0..m).map(|_| { let t = r.range(0, 5); [(d[0] * t) as f64, (d[1] * t) as f64] }).collect()] }
        // arbitrary bit patterns
        _ => { let k = 1 + r.below(2) as usize; (0..k).map(|_| { let m = 3 + r.below(14); (0..m).map(|_| [f64::from_bits(r.next()), f64::from_bits(r.next())]).collect() }).collect() }
    };
    if r.below(3) == 0 { let p = 2 + r.below(8); for q in v.iter_mut().flatten() { for z in q.iter_mut() { if r.below(p) == 0 { special(r, z); } } } }
    // polygons that are empty or too short
    if r.below(6) == 0 { let i = r.below(v.len() as u64 + 1) as usize; v.insert(i, vec![]); }
    if r.below(12) == 0 { let i = r.below(v.len() as u64 + 1) as usize; v.insert(i, vec![[0.0, 0.0]; 1 + r.below(2) as usize]); }
    v
}
pub fn c04(case: u64, seed: u64) -> Outcome {
    let mut r = Rng::new(case ^ seed.wrapping_mul(0x7137));
    let v = gen(&mut r);
    let mut cfg = Cfg::random(&mut r);
    cfg.format = [0, 1, 2, 3, 4, 8][r.below(6) as usize];
    let f32s = r.below(4) == 0;
    let input = format!("{v:?} {cfg:?} f32={f32s}");
    note_input(&input);
    let res = if f32s { let w: Vec<Vec<[f32; 2]>> = v.iter().map(|p| p.iter().map(|q| [q[0] as f32, q[1] as f32]).collect()).collect(); go(&w, cfg) } else { go(&v, cfg) };
    // an index outside the input would make the caller's own lookup fail
    let violation = match &res { Ok(t) => t.iter().flatten().find(|i| i[0] >= v.len() || i[1] >= v[i[0]].len()).map(|i| format!("index {i:?} is out of range")), Err(_) => None };
    Outcome { input, nontrivial: true, violation }
}
pub fn go<V: Mk>(v: &Vec<Vec<V>>, cfg: Cfg) -> Result<Vec<Tri>, String> {
    use triangulate::Polygon;
    if cfg.single && v.len() == 1 { run_p(leaked(&v[0]).as_polygon_list(), cfg, usize::MAX, |_| [0, 0]) } else { run_p(leaked(v), cfg, [usize::MAX, 0], |_: &V| [0, 0]) }
}
