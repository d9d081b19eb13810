//! C01 tiling, C02 winding, C03 vertices and count: on valid polygon sets with exactly representable coordinates.
use crate::{gen::*, geom::*, run::*, Outcome};

/// All simple polygons with 3..=5 vertices on the 3x3 grid, then random sets.
fn grid_polygon(mut k: u64) -> Option<Polys> {
    for n in 3..=5usize {
        let total: u64 = (0..n as u64).map(|i| 9 - i).product();
        if k < total {
            let mut pool: Vec<i64> = (0..9).collect();
            let mut p = vec![];
            for i in 0..n as u64 { let m = 9 - i; let c = (k % m) as usize; k /= m; let q = pool.remove(c); p.push([q % 3, q / 3]); }
            return Some(vec![p]);
        }
        k -= total;
    }
    None
}
pub const GRID: u64 = 504 + 3024 + 15120;

fn gen_case(case: u64, seed: u64) -> (Option<Polys>, Cfg) {
    // two thirds random, one third the exhaustive grid (case numbers interleaved)
    let mut r = Rng::new(case ^ seed.wrapping_mul(0x51ab3));
    if case % 3 == 2 {
        let k = case / 3;
        let mut cfg = Cfg::random(&mut r);
        if k / GRID % 2 == 0 { cfg.wind = 0; } else { cfg.wind = 1; }
        let p = grid_polygon(k % GRID).filter(valid);
        return (p, cfg);
    }
    let ps = any_valid(&mut r);
    (Some(ps), Cfg::random(&mut r))
}

pub struct Ran { pub input: String, pub polys: Polys, pub cfg: Cfg, pub res: Result<Vec<Tri>, String> }
pub fn run_one(case: u64, seed: u64) -> Option<Ran> {
    let (ps, cfg) = gen_case(case, seed);
    let polys = ps?;
    let input = format!("{polys:?} {cfg:?}");
    note_input(&input);
    let res = triangulate(&polys, cfg);
    Some(Ran { input, polys, cfg, res })
}
fn points(polys: &Polys, t: &[Tri]) -> Option<Vec<[Pt; 3]>> {
    t.iter().map(|t| { let g = |i: Ix| polys.get(i[0]).and_then(|p| p.get(i[1])).copied(); Some([g(t[0])?, g(t[1])?, g(t[2])?]) }).collect()
}
pub fn c01(case: u64, seed: u64) -> Outcome {
    let Some(r) = run_one(case, seed) else { return Outcome::default() };
    let violation = match &r.res {
        Err(e) => Some(format!("a valid polygon set was refused: {e}")),
        Ok(t) => match points(&r.polys, t) { None => Some("a triangle corner is not an input vertex".into()), Some(t) => judge(&r.polys, &t).bad_tiling },
    };
    Outcome { nontrivial: true, input: r.input, violation }
}
pub fn c02(case: u64, seed: u64) -> Outcome {
    let Some(r) = run_one(case, seed) else { return Outcome::default() };
    let violation = match &r.res {
        Err(_) => None,
        Ok(t) => points(&r.polys, t).and_then(|t| judge_winding(&t, r.cfg.ccw())),
    };
    Outcome { nontrivial: r.res.is_ok(), input: r.input, violation }
}
/// Arbitrary input: only supplied vertices.
fn c03_any(case: u64, seed: u64) -> Outcome {
    let mut r = Rng::new(case ^ seed.wrapping_mul(0x3c3c1));
    let v = crate::safety::gen(&mut r);
    let mut cfg = Cfg::random(&mut r);
    cfg.format = [0, 1, 2, 3, 4, 8][r.below(6) as usize];
    let input = format!("any {v:?} {cfg:?}");
    note_input(&input);
    let res = crate::safety::go(&v, cfg);
    let violation = match &res {
        Ok(t) => t.iter().flatten().find(|i| i[0] >= v.len() || i[1] >= v[i[0]].len()).map(|i| format!("index {i:?} is not one of the input's")),
        Err(_) => None,
    };
    Outcome { nontrivial: res.is_ok(), input, violation }
}
pub fn c03(case: u64, seed: u64) -> Outcome {
    if case % 4 == 3 { return c03_any(case, seed); }
    let Some(r) = run_one(case, seed) else { return Outcome::default() };
    let violation = match &r.res {
        Err(_) => None,
        Ok(t) => {
            let holes = hole_flags(&r.polys).iter().filter(|h| **h).count();
            let n: usize = r.polys.iter().map(|p| p.len()).sum();
            let want = n + 2 * holes - 2 * (r.polys.len() - holes);
            if points(&r.polys, t).is_none() { Some("a triangle corner is not an input vertex".into()) }
            else if let Some(t) = t.iter().find(|t| t[0] == t[1] || t[1] == t[2] || t[0] == t[2]) { Some(format!("triangle {t:?} repeats a vertex")) }
            else if t.len() != want { Some(format!("{} triangles, {want} needed", t.len())) }
            else {
                let mut used = std::collections::HashSet::new();
                for x in t { used.extend(x.iter().copied()); }
                if used.len() != n { Some(format!("only {} of {n} vertices are used", used.len())) } else { None }
            }
        }
    };
    Outcome { nontrivial: r.res.is_ok(), input: r.input, violation }
}
