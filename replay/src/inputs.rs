//! C08 enumeration of inputs, C09 substituted index types, C10 errors for inputs of the wrong shape.
use crate::{gen::*, run::*, Outcome};
use std::{cell::Cell, panic::{catch_unwind, AssertUnwindSafe}, rc::Rc, sync::Arc};
use triangulate::{formats, ListFormat, Polygon, PolygonElement, PolygonList, TrapezoidationError, TriangulationError, VertexIndex};

type V = [f64; 2];
fn shape(r: &mut Rng) -> Vec<Vec<V>> {
    let k = r.below(6) as usize; let big = r.below(4) == 0;
    (0..k).map(|i| { let m = if big { r.below(40) } else { r.below(6) }; (0..m).map(|j| [i as f64 + 0.25, j as f64 - 3.5]).collect() }).collect()
}
fn elems<I: VertexIndex, T: Into<PolygonElement<I>>>(it: impl Iterator<Item = T>) -> Vec<Option<I>> { it.map(|e| match e.into() { PolygonElement::ContinuePolygon(i) => Some(i), PolygonElement::NewPolygon => None }).collect() }
/// Groups between separators, empty ones dropped: what the enumeration means.
fn groups<I: Clone>(e: &[Option<I>]) -> Vec<Vec<I>> {
    let mut o = vec![vec![]];
    for x in e { match x { Some(i) => o.last_mut().unwrap().push(i.clone()), None => o.push(vec![]) } }
    o.into_iter().filter(|g| !g.is_empty()).collect()
}
fn check_list<'p, P: PolygonList<'p, Vertex = V, Index = Ix>>(what: &str, p: &P, vv: &[Vec<V>]) -> Option<String> {
    let want: Vec<Vec<Ix>> = vv.iter().enumerate().map(|(i, q)| (0..q.len()).map(|j| [i, j]).collect::<Vec<_>>()).filter(|g: &Vec<Ix>| !g.is_empty()).collect();
    let got = groups(&elems::<Ix, _>(p.iter_indices()));
    if got != want { return Some(format!("{what}: enumerated {got:?}, expected {want:?}")); }
    let n: usize = vv.iter().map(|q| q.len()).sum();
    if p.vertex_count() != n { return Some(format!("{what}: vertex_count {} instead of {n}", p.vertex_count())); }
    for i in want.iter().flatten() { if *p.get_vertex(*i) != vv[i[0]][i[1]] { return Some(format!("{what}: get_vertex({i:?}) is not the vertex at that position")); } }
    None
}
fn check_poly<'p, P: Polygon<'p, Vertex = V, Index = usize>>(what: &str, p: &P, q: &[V]) -> Option<String> {
    let got: Vec<usize> = p.iter_indices().collect();
    if got != (0..q.len()).collect::<Vec<_>>() { return Some(format!("{what}: enumerated {got:?}")); }
    if p.vertex_count() != q.len() { return Some(format!("{what}: vertex_count {}", p.vertex_count())); }
    for i in 0..q.len() { if *p.get_vertex(i) != q[i] { return Some(format!("{what}: get_vertex({i})")); } }
    let s = p.as_polygon_list();
    let got = groups(&elems::<usize, _>(s.iter_indices()));
    let want: Vec<Vec<usize>> = if q.is_empty() { vec![] } else { vec![(0..q.len()).collect()] };
    if got != want { return Some(format!("{what} as list: enumerated {got:?}")); }
    if s.vertex_count() != q.len() { return Some(format!("{what} as list: vertex_count {}", s.vertex_count())); }
    for i in 0..q.len() { if *s.get_vertex(i) != q[i] { return Some(format!("{what} as list: get_vertex({i})")); } }
    None
}
/// A user-defined list: vertices in one pool, arbitrary extra separators, indices are pool positions.
struct Pool { verts: Vec<V>, seq: Vec<Option<usize>>, lookups: Cell<usize> }
impl<'p> PolygonList<'p> for Pool {
    type Vertex = V; type Index = usize; type IntoItem = Option<usize>;
    type Iter<'i> = std::iter::Copied<std::slice::Iter<'i, Option<usize>>> where 'p: 'i;
    fn vertex_count(&self) -> usize { self.seq.iter().flatten().count() }
    fn iter_indices<'i>(&'i self) -> Self::Iter<'i> where 'p: 'i { self.seq.iter().copied() }
    fn get_vertex<'a>(&'a self, i: usize) -> &'a V where 'p: 'a { self.lookups.set(self.lookups.get() + 1); &self.verts[i] }
}
fn tri_idx<'p, P: PolygonList<'p> + ?Sized>(p: &'p P, seed: u64) -> Result<Vec<[P::Index; 3]>, String> {
    // same insertion order for every list compared: fresh thread-local generator per call is not available, so reseed through a scoped thread in the caller
    let _ = seed;
    let mut out: Vec<[P::Index; 3]> = vec![];
    p.triangulate(formats::IndexedListFormat::new(&mut out).into_fan_format()).map_err(|e| err_text(&e))?;
    Ok(out)
}
/// Run `f` on its own thread whose random generator starts from `seed`.
fn seeded<T: Send + 'static>(seed: u64, f: impl FnOnce() -> T + Send + 'static) -> T {
    let h = std::thread::Builder::new().stack_size(8 << 20).spawn(move || { getrandom::set_seed(seed); f() }).unwrap();
    match h.join() { Ok(t) => t, Err(e) => std::panic::resume_unwind(e) }
}

pub fn c08(case: u64, seed: u64) -> Outcome {
    let mut r = Rng::new(case ^ seed.wrapping_mul(0x1f35));
    if case % 3 != 0 {
        let vv = shape(&mut r);
        let input = format!("{vv:?}");
        note_input(&input);
        let violation = (|| {
            if let Some(v) = check_list("Vec<Vec<V>>", &vv, &vv) { return Some(v); }
            if let Some(v) = check_list("&[Vec<V>]", &leaked(&vv).as_slice(), &vv) { return Some(v); }
            if let Some(v) = check_list("Box<[Vec<V>]>", &vv.clone().into_boxed_slice(), &vv) { return Some(v); }
            if let Some(v) = check_list("Rc<[Box<[V]>]>", &Rc::<[Box<[V]>]>::from(vv.iter().map(|p| p.clone().into_boxed_slice()).collect::<Vec<_>>()), &vv) { return Some(v); }
            if let Some(v) = check_list("Vec<&[V]>", &leaked(&vv).iter().map(|p| &p[..]).collect::<Vec<_>>(), &vv) { return Some(v); }
            for p in &vv {
                if let Some(v) = check_poly("Vec<V>", p, p) { return Some(v); }
                if let Some(v) = check_poly("Box<[V]>", &p.clone().into_boxed_slice(), p) { return Some(v); }
                if let Some(v) = check_poly("Arc<[V]>", &Arc::<[V]>::from(p.clone()), p) { return Some(v); }
                if let Some(v) = check_poly("&[V]", &&leaked(p)[..], p) { return Some(v); }
            }
            None
        })();
        return Outcome { input, nontrivial: vv.iter().any(|p| !p.is_empty()), violation };
    }
    // the library sees only the groups: separators at the ends, repeated separators and the index type do not matter
    let ps = any_valid(&mut r);
    let vv: Vec<Vec<V>> = ps.iter().map(|p| p.iter().map(|q| [q[0] as f64, q[1] as f64]).collect()).collect();
    let mut verts: Vec<V> = vec![]; let mut at: Vec<Ix> = vec![]; let mut pos: Vec<Vec<usize>> = vec![];
    let mut order: Vec<Ix> = vv.iter().enumerate().flat_map(|(i, p)| (0..p.len()).map(move |j| [i, j])).collect();
    r.shuffle(&mut order);
    for p in &vv { pos.push(vec![0; p.len()]); }
    for (n, i) in order.iter().enumerate() { pos[i[0]][i[1]] = n; verts.push(vv[i[0]][i[1]]); at.push(*i); }
    let mut seq: Vec<Option<usize>> = vec![];
    for _ in 0..r.below(3) { seq.push(None); }
    for (k, p) in pos.iter().enumerate() { if k > 0 { seq.push(None); for _ in 0..r.below(2) * r.below(3) { seq.push(None); } } seq.extend(p.iter().map(|i| Some(*i))); }
    for _ in 0..r.below(3) { seq.push(None); }
    let input = format!("{vv:?} as {seq:?}");
    note_input(&input);
    let s = r.next();
    let (vv2, pool) = (vv.clone(), Pool { verts, seq, lookups: Cell::new(0) });
    let a = seeded(s, move || tri_idx(leaked(&vv2), s));
    let b = seeded(s, move || { let pool: &'static Pool = Box::leak(Box::new(pool)); tri_idx(pool, s) });
    let b = b.map(|t| t.into_iter().map(|t| [at[t[0]], at[t[1]], at[t[2]]]).collect::<Vec<_>>());
    let violation = if a != b { Some(format!("nested vectors gave {a:?}, a list with the same groups and other separators gave {b:?}")) }
        else { match &a { Err(e) => Some(format!("a valid polygon set was refused: {e}")), Ok(_) => None } };
    Outcome { input, nontrivial: true, violation }
}

fn quiet<T>(f: impl FnOnce() -> T) -> Result<T, String> { catch_unwind(AssertUnwindSafe(f)).map_err(|e| panic_text(&*e)) }

pub fn c09(case: u64, seed: u64) -> Outcome {
    let mut r = Rng::new(case ^ seed.wrapping_mul(0x6d2b));
    match case % 4 {
        0 => { // triangulating through substituted indices is the same triangulation
            let ps = any_valid(&mut r);
            let vv: Vec<Vec<V>> = ps.iter().map(|p| p.iter().map(|q| [q[0] as f64, q[1] as f64]).collect()).collect();
            let input = format!("{vv:?}");
            note_input(&input);
            let s = r.next(); let kind = r.below(5);
            let (v1, v2) = (vv.clone(), vv.clone());
            let base = seeded(s, move || tri_idx(leaked(&v1), s));
            let other: Result<Vec<Tri>, String> = seeded(s, move || {
                macro_rules! via { ($t:ty) => { tri_idx(Box::leak(Box::new(v2.index_with::<usize, $t>())), s).map(|t| t.into_iter().map(|t| t.map(|i| i.map(|j| j as usize))).collect()) } }
                match kind { 0 => via!(u16), 1 => via!(u32), 2 => via!(i32), 3 => via!(u64), _ => via!(i64) }
            });
            let mut violation = if base != other { Some(format!("plain indices gave {base:?}, substituted ones {other:?}")) } else { None };
            if violation.is_none() && vv.len() == 1 {
                let (p1, p2) = (vv[0].clone(), vv[0].clone());
                let a = seeded(s, move || tri_idx(leaked(&p1).as_polygon_list(), s));
                let b = seeded(s, move || tri_idx(Box::leak(Box::new(p2.index_with::<u16>())), s).map(|t| t.into_iter().map(|t| t.map(|i| i as usize)).collect::<Vec<_>>()));
                if a != b { violation = Some(format!("single polygon: plain indices gave {a:?}, substituted ones {b:?}")); }
            }
            Outcome { input, nontrivial: true, violation }
        }
        1 => { // enumeration and lookup agree with the wrapped list
            let vv = shape(&mut r);
            let input = format!("{vv:?}");
            note_input(&input);
            let plain = elems::<Ix, _>(PolygonList::iter_indices(&vv));
            let w = vv.clone().index_with::<usize, u32>();
            let got = elems::<[u32; 2], _>(w.iter_indices());
            let want: Vec<Option<[u32; 2]>> = plain.iter().map(|e| e.map(|i| [i[0] as u32, i[1] as u32])).collect();
            let mut violation = None;
            if groups(&got) != groups(&want) { violation = Some(format!("enumerated {got:?}, expected {want:?}")); }
            else if PolygonList::vertex_count(&w) != PolygonList::vertex_count(&vv) { violation = Some("vertex_count differs".into()); }
            else if let Some(i) = got.iter().flatten().find(|i| *w.get_vertex(**i) != vv[i[0] as usize][i[1] as usize]) { violation = Some(format!("get_vertex({i:?}) is another vertex")); }
            for p in &vv {
                let w = p.clone().index_with::<u8>();
                let got = groups(&elems::<u8, _>(w.iter_indices()));
                if got.concat() != (0..p.len() as u8).collect::<Vec<_>>() || got.len() > 1 { violation = Some(format!("polygon index_with enumerated {got:?}")); }
                if (0..p.len()).any(|i| *PolygonList::get_vertex(&w, i as u8) != p[i]) { violation = Some("polygon index_with looks up another vertex".into()); }
                // substituting twice
                let w2 = w.index_with::<u8, i16>();
                if elems::<i16, _>(w2.iter_indices()).into_iter().flatten().collect::<Vec<_>>() != (0..p.len() as i16).collect::<Vec<_>>() || (0..p.len()).any(|i| *w2.get_vertex(i as i16) != p[i]) { violation = Some("twice substituted indices differ".into()); }
            }
            Outcome { input, nontrivial: !plain.is_empty(), violation }
        }
        2 => { // an index that does not fit must panic, never turn into another index
            let n = 250 + r.below(20) as usize; let outer = r.below(2) == 0;
            let input = format!("{n} {} indexed with u8", if outer { "polygons" } else { "vertices" });
            note_input(&input);
            let vv: Vec<Vec<V>> = if outer { (0..n).map(|i| vec![[i as f64, 0.0]]).collect() } else { vec![(0..n).map(|i| [i as f64, 0.0]).collect()] };
            let w = vv.clone().index_with::<usize, u8>();
            let res = quiet(|| elems::<[u8; 2], _>(w.iter_indices()).into_iter().flatten().collect::<Vec<_>>());
            let violation = match res {
                Ok(v) if n > 256 => Some(format!("{} indices were produced although {n} do not fit in u8; the last is {:?}", v.len(), v.last())),
                Ok(v) => { let want: Vec<[u8; 2]> = (0..n).map(|i| if outer { [i as u8, 0] } else { [0, i as u8] }).collect(); if v != want { Some("indices differ".into()) } else { None } }
                Err(e) if n > 256 => if e.contains("Conversion of index failed") { None } else { Some(format!("unexpected panic {e}")) },
                Err(e) => Some(format!("all {n} indices fit but it panicked: {e}")),
            };
            // lookups: negative or oversized substituted indices
            let violation = violation.or_else(|| {
                let w = vv.clone().index_with::<usize, i64>();
                let bad = -1 - r.below(5) as i64;
                match quiet(|| *w.get_vertex([bad, 0])) { Ok(v) => Some(format!("get_vertex([{bad},0]) returned {v:?}")), Err(e) => if e.contains("Conversion of index failed") { None } else { Some(format!("get_vertex([{bad},0]): unexpected panic {e}")) } }
            });
            Outcome { input, nontrivial: true, violation }
        }
        _ => { // every provided mapping keeps positions
            let x: Vec<u16> = (0..3 + r.below(6)).map(|_| r.next() as u16).collect();
            let input = format!("map over {x:?}");
            note_input(&input);
            let k = r.next() as u16;
            let f = |v: u16| (v as u64) * 3 + k as u64;
            let want: Vec<u64> = x.iter().map(|v| f(*v)).collect();
            let mut violation = None;
            let mut no = |w: &str| violation = Some(format!("{w}: positions or values changed"));
            if triangulate::Mappable::<u16>::map(x.clone(), f) != want { no("Vec"); }
            if triangulate::Mappable::<u16>::map([x[0], x[1]], f).to_vec() != want[..2] { no("[_;2]"); }
            if triangulate::Mappable::<u16>::map([x[0], x[1], x[2]], f).to_vec() != want[..3] { no("[_;3]"); }
            let t = triangulate::Mappable::<u16>::map((x[0], x[1]), f); if [t.0, t.1] != want[..2] { no("(_,_)"); }
            let t = triangulate::Mappable::<u16>::map((x[0], x[1], x[2]), f); if [t.0, t.1, t.2] != want[..3] { no("(_,_,_)"); }
            if <u16 as triangulate::Mappable<u16>>::map(x[0], f) != want[0] { no("scalar"); }
            Outcome { input, nontrivial: true, violation }
        }
    }
}

pub fn c10(case: u64, seed: u64) -> Outcome {
    let mut r = Rng::new(case ^ seed.wrapping_mul(0x77a1));
    // good polygons laid out in a row, with empty and short ones interspersed
    let good = r.below(4) as usize; let bad = if r.below(3) > 0 { 0 } else { 1 + r.below(2) as usize }; let empty = r.below(3) as usize;
    let mut kinds: Vec<u8> = vec![]; kinds.extend(std::iter::repeat(0).take(good)); kinds.extend(std::iter::repeat(1).take(bad)); kinds.extend(std::iter::repeat(2).take(empty));
    r.shuffle(&mut kinds);
    let mut first_bad = None;
    let vv: Vec<Vec<V>> = kinds.iter().enumerate().map(|(i, k)| { let x = 20.0 * i as f64; match k {
        0 => { let n = 3 + r.below(3); (0..n).map(|j| [[x, 0.0], [x + 4.0, 1.0], [x + 5.0, 6.0], [x + 1.0, 7.0], [x - 1.0, 4.0]][j as usize]).collect() }
        1 => { let n = 1 + r.below(2) as usize; if first_bad.is_none() { first_bad = Some(n); } (0..n).map(|j| [x + j as f64, j as f64]).collect() }
        _ => vec![] } }).collect();
    let pre = r.below(3) as usize; let rev = r.coin(); let fmt = r.below(3);
    let input = format!("{vv:?} pre={pre} fmt={fmt} rev={rev}");
    note_input(&input);
    let p = leaked(&vv);
    let mut lists = vec![[[9000usize, 0usize]; 3]; pre]; let mut fans = vec![vec![[9000usize, 0usize]; 4]; pre]; let mut flat = vec![[9000usize, 0usize]; 3 * pre];
    use triangulate::FanFormat;
    macro_rules! go { ($f:expr) => { if rev { p.triangulate($f.reverse_winding()).map(|_| ()).map_err(|e| kind(&e)) } else { p.triangulate($f).map(|_| ()).map_err(|e| kind(&e)) } } }
    fn kind<E: std::error::Error>(e: &TriangulationError<E>) -> String { match e { TriangulationError::NoVertices => "NoVertices".into(), TriangulationError::TrapezoidationError(TrapezoidationError::NotEnoughVertices(n)) => format!("NotEnoughVertices({n})"), e => err_text(e) } }
    let res = match fmt { 0 => go!(formats::IndexedListFormat::new(&mut lists).into_fan_format()), 1 => go!(formats::IndexedFanFormat::new(&mut fans)), _ => go!(formats::DelimitedFanFormat::new(&mut flat, [777777, 0])) };
    let untouched = lists == vec![[[9000, 0]; 3]; pre] && fans == vec![vec![[9000, 0]; 4]; pre] && flat == vec![[9000, 0]; 3 * pre];
    let want: Result<(), String> = if let Some(n) = first_bad { Err(format!("NotEnoughVertices({n})")) } else if good == 0 { Err("NoVertices".into()) } else { Ok(()) };
    let mut violation = if res != want { Some(format!("got {res:?}, expected {want:?}")) } else if res.is_err() && !untouched { Some("the call failed but the output changed".into()) } else { None };
    if violation.is_none() {
        let t = p.trapezoidize();
        let got = match t { Ok(_) => None, Err(TrapezoidationError::NotEnoughVertices(n)) => Some(n), Err(e) => { violation = Some(format!("trapezoidize: {}", e.to_string().lines().next().unwrap_or(""))); None } };
        if violation.is_none() && got != first_bad { violation = Some(format!("trapezoidize reported {got:?}, expected {first_bad:?}")); }
    }
    if violation.is_none() && res.is_ok() {
        // empty polygons contribute nothing and do not disturb the numbering of the others
        let n: usize = vv.iter().map(|p| p.len()).sum::<usize>() - 2 * good;
        let got = match fmt { 0 => lists.len() - pre, 1 => fan_tris(&fans[pre..]).len(), _ => fan_tris(&flat[3 * pre..].split(|i| *i == [777777, 0]).map(|f| f.to_vec()).collect::<Vec<_>>()).len() };
        if got != n { violation = Some(format!("{got} triangles instead of {n}")); }
        let idx: Vec<Ix> = match fmt { 0 => lists[pre..].iter().flatten().cloned().collect(), 1 => fans[pre..].iter().flatten().cloned().collect(), _ => flat[3 * pre..].iter().filter(|i| **i != [777777, 0]).cloned().collect() };
        if idx.iter().any(|i| i[0] >= vv.len() || i[1] >= vv[i[0]].len()) { violation = Some("an index does not name an input vertex".into()); }
    }
    // a single polygon
    if violation.is_none() {
        let n = r.below(5) as usize; let q: Vec<V> = (0..n).map(|j| [[0.0, 0.0], [4.0, 1.0], [5.0, 6.0], [1.0, 7.0], [-1.0, 4.0]][j]).collect();
        let mut out: Vec<Vec<usize>> = vec![];
        let got = leaked(&q).triangulate(formats::IndexedFanFormat::new(&mut out)).map(|_| ()).map_err(|e| kind(&e));
        let want = match n { 0 => Err("NoVertices".to_string()), 1 | 2 => Err(format!("NotEnoughVertices({n})")), _ => Ok(()) };
        if got != want { violation = Some(format!("single polygon of {n} vertices: got {got:?}, expected {want:?}")); }
    }
    Outcome { input, nontrivial: !vv.is_empty(), violation }
}
