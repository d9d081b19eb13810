//! Driving the real crate: coordinate/vertex/container/format choices, decoding of outputs, recorders.
use crate::gen::Rng;
use crate::geom::*;
use ordered_float::OrderedFloat;
use std::cell::RefCell;
use std::collections::HashMap;
use std::fmt::Debug;
use std::rc::Rc;
use std::sync::Mutex;
use triangulate::{formats, FanBuilder, FanFormat, ListBuilder, ListFormat, Polygon, PolygonList, Real, TriangleWinding, TriangulationError, Vertex};

static LAST: Mutex<String> = Mutex::new(String::new());
pub fn note_input(s: &str) { if let Ok(mut g) = LAST.lock() { g.clear(); g.push_str(s); } }
pub fn last_input() -> String { LAST.lock().map(|g| g.clone()).unwrap_or_default() }
pub fn panic_text(e: &(dyn std::any::Any + Send)) -> String {
    e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "?".into())
}
/// The stable part of an error: variant and message, without the backtrace.
pub fn err_text<E: std::error::Error>(e: &TriangulationError<E>) -> String {
    use triangulate::TrapezoidationError as T;
    match e {
        TriangulationError::NoVertices => "NoVertices".into(),
        TriangulationError::TrapezoidationError(T::NotEnoughVertices(n)) => format!("NotEnoughVertices({n})"),
        TriangulationError::TrapezoidationError(e) => format!("Trapezoidation: {}", e.to_string().lines().next().unwrap_or("")),
        TriangulationError::InternalError(e) => format!("Internal: {}", e.to_string().lines().next().unwrap_or("")),
        TriangulationError::FanBuilder(e) => format!("FanBuilder: {e}"),
        _ => "other".into(),
    }
}

pub trait Co: Real + Debug + 'static { fn of(x: f64) -> Self; fn to(self) -> f64; }
impl Co for f64 { fn of(x: f64) -> Self { x } fn to(self) -> f64 { self } }
impl Co for f32 { fn of(x: f64) -> Self { x as f32 } fn to(self) -> f64 { self as f64 } }
impl Co for OrderedFloat<f64> { fn of(x: f64) -> Self { OrderedFloat(x) } fn to(self) -> f64 { self.0 } }

pub trait Mk: Vertex + Clone + Debug + 'static { fn mk(x: f64, y: f64) -> Self; fn xy(&self) -> (f64, f64); }
impl<C: Co> Mk for [C; 2] { fn mk(x: f64, y: f64) -> Self { [C::of(x), C::of(y)] } fn xy(&self) -> (f64, f64) { (self[0].to(), self[1].to()) } }
impl<C: Co> Mk for (C, C) { fn mk(x: f64, y: f64) -> Self { (C::of(x), C::of(y)) } fn xy(&self) -> (f64, f64) { (self.0.to(), self.1.to()) } }
/// A user-defined vertex with its members in an unusual order and a payload.
#[derive(Clone, Debug)]
pub struct Pv { pub tag: u32, pub north: f64, pub east: f64 }
impl Vertex for Pv { type Coordinate = f64; fn x(&self) -> f64 { self.east } fn y(&self) -> f64 { self.north } }
impl Mk for Pv { fn mk(x: f64, y: f64) -> Self { Pv { tag: 7, north: y, east: x } } fn xy(&self) -> (f64, f64) { (self.east, self.north) } }

#[derive(Clone, Copy, Debug)]
pub struct Cfg { pub vertex: u8, pub single: bool, pub two_step: bool, pub format: u8, pub wind: u8, pub scale: i32, pub off: i64, pub shear: i64 }
impl Cfg {
    pub fn random(r: &mut Rng) -> Self {
        let vertex = if r.coin() { 0 } else { r.below(6) as u8 };
        // slivers whose orientation only shows in the last bits; single precision cannot hold them
        let shear = if vertex == 1 || vertex == 3 || r.below(3) > 0 { 0 } else { let k = [(1 << 20) + 5, -(1 << 21) - 3, (1 << 28) + 3, -(1 << 18) + 1][r.below(4) as usize]; if r.coin() { 2 * k } else { 2 * k + 1 } };
        Cfg { vertex, single: r.coin(), two_step: r.below(4) == 0, format: r.below(10) as u8, wind: if r.coin() { 0 } else { r.below(4) as u8 },
              scale: if r.coin() { 0 } else { [-40, -9, -4, -3, -2, -1, 1, 2, 3, 12, 37][r.below(11) as usize] }, off: if r.coin() { 0 } else { r.range(-500, 500) }, shear }
    }
    /// Is counterclockwise what was asked for?
    pub fn ccw(&self) -> bool { self.wind == 0 || self.wind == 3 }
}

pub type Ix = [usize; 2];
pub type Tri = [Ix; 3];

/// Triangles of a fan sequence: (v0, v[i], v[i+1]).
pub fn fan_tris<I: Clone>(fans: &[Vec<I>]) -> Vec<[I; 3]> {
    let mut o = vec![];
    for f in fans { for i in 1..f.len().max(2) - 1 { o.push([f[0].clone(), f[i].clone(), f[i + 1].clone()]); } }
    o
}

/// Triangulate with the given choices; the result is in index pairs [polygon, vertex].
pub fn triangulate(polys: &Polys, cfg: Cfg) -> Result<Vec<Tri>, String> {
    let s = 2f64.powi(cfg.scale);
    // a shear (along x or y, by the last bit) leaves every orientation as it is
    let k = cfg.shear.div_euclid(2);
    let f = |q: &Pt| {
        let (mut x, mut y) = (q[0] + cfg.off, q[1] - cfg.off);
        if cfg.shear % 2 == 0 { x += k * q[1] } else { y += k * q[0] }
        (x as f64 * s, y as f64 * s)
    };
    macro_rules! go { ($t:ty) => { run_v::<$t>(&polys.iter().map(|p| p.iter().map(|q| { let (x, y) = f(q); <$t as Mk>::mk(x, y) }).collect()).collect(), cfg) } }
    match cfg.vertex {
        0 => go!([f64; 2]),
        1 => go!([f32; 2]),
        2 => go!((f64, f64)),
        3 => go!((f32, f32)),
        4 => go!([OrderedFloat<f64>; 2]),
        _ => go!(Pv),
    }
}
fn run_v<V: Mk>(vv: &Vec<Vec<V>>, cfg: Cfg) -> Result<Vec<Tri>, String> {
    let mut by_pos = HashMap::new();
    for (i, p) in vv.iter().enumerate() { for (j, v) in p.iter().enumerate() { let (x, y) = v.xy(); by_pos.insert((x.to_bits(), y.to_bits()), [i, j]); } }
    let look = |v: &V| { let (x, y) = v.xy(); by_pos.get(&(x.to_bits(), y.to_bits())).copied().unwrap_or([usize::MAX, usize::MAX]) };
    if cfg.vertex != 0 {
        // fewer formats for the other vertex types: every combination is code of its own to compile
        if cfg.vertex == 2 {
            let refs: Vec<&[V]> = vv.iter().map(|p| &p[..]).collect();
            run_few(leaked(&refs), cfg, look)
        } else if cfg.single && vv.len() == 1 {
            run_few(leaked(&vv[0]).as_polygon_list(), cfg, look)
        } else {
            run_few(leaked(vv), cfg, look)
        }
    } else {
        let vv: &Vec<Vec<[f64; 2]>> = (vv as &dyn std::any::Any).downcast_ref().expect("vertex type 0");
        let mut by_pos = HashMap::new();
        for (i, p) in vv.iter().enumerate() { for (j, v) in p.iter().enumerate() { by_pos.insert((v[0].to_bits(), v[1].to_bits()), [i, j]); } }
        run_all(vv, cfg, |v: &[f64; 2]| by_pos.get(&(v[0].to_bits(), v[1].to_bits())).copied().unwrap_or([usize::MAX, usize::MAX]))
    }
}
fn run_all<V: Mk>(vv: &Vec<Vec<V>>, cfg: Cfg, look: impl Fn(&V) -> Ix) -> Result<Vec<Tri>, String> {
    if cfg.single && vv.len() == 1 {
        run_p(leaked(&vv[0]).as_polygon_list(), cfg, usize::MAX, look)
    } else {
        run_p(leaked(vv), cfg, [usize::MAX, 0], look)
    }
}
/// `triangulate` borrows the list for the list type's own lifetime; a leaked copy satisfies that for any case.
pub fn leaked<'a, T: Clone>(t: &T) -> &'a T { Box::leak(Box::new(t.clone())) }

pub fn run_p<'p, P: PolygonList<'p, Vertex = V> + ?Sized, V: Mk>(p: &'p P, cfg: Cfg, delim: P::Index, look: impl Fn(&V) -> Ix) -> Result<Vec<Tri>, String>
where P::Index: ToIx {
    let back = |i: P::Index| i.ix();
    let traps = if cfg.two_step { Some(p.trapezoidize().map_err(|e| err_text(&TriangulationError::<std::convert::Infallible>::TrapezoidationError(e)))?) } else { None };
    macro_rules! tri { ($fmt:expr) => { match &traps { Some(t) => t.triangulate($fmt).map_err(|e| err_text(&e)), None => p.triangulate($fmt).map_err(|e| err_text(&e)) } } }
    macro_rules! wound { ($fmt:expr) => { match cfg.wind { 1 | 2 => tri!($fmt.reverse_winding()), 3 => tri!($fmt.reverse_winding().reverse_winding()), _ => tri!($fmt) } } }
    let b3 = |t: [P::Index; 3]| { let [a, b, c] = t; [back(a), back(b), back(c)] };
    match cfg.format {
        0 | 7 => { let mut out: Vec<[P::Index; 3]> = vec![]; wound!(formats::IndexedListFormat::new(&mut out).into_fan_format())?; Ok(out.into_iter().map(b3).collect()) }
        1 => { let out: Vec<(P::Index, P::Index, P::Index)> = wound!(formats::IndexedListFormat::new(Vec::new()).into_fan_format())?; Ok(out.into_iter().map(|t| b3([t.0, t.1, t.2])).collect()) }
        2 => { let mut out: Vec<P::Index> = vec![]; wound!(formats::IndexedListFormat::<P, _>::new(&mut out).into_fan_format())?; if out.len() % 3 != 0 { return Err("flat list length is not a multiple of three".into()); } Ok(out.chunks(3).map(|t| b3([t[0].clone(), t[1].clone(), t[2].clone()])).collect()) }
        3 => { let mut out: Vec<Vec<P::Index>> = vec![]; wound!(formats::IndexedFanFormat::new(&mut out))?; Ok(fan_tris(&out).into_iter().map(b3).collect()) }
        4 => {
            let mut out: Vec<P::Index> = vec![];
            wound!(formats::DelimitedFanFormat::new(&mut out, delim.clone()))?;
            let fans: Vec<Vec<P::Index>> = out.split(|i| *i == delim).map(|f| f.to_vec()).collect();
            Ok(fan_tris(&fans).into_iter().map(b3).collect())
        }
        5 => { let mut out: Vec<Vec<V>> = vec![]; wound!(formats::DeindexedFanFormat::new(&mut out))?; Ok(fan_tris(&out).iter().map(|t| [look(&t[0]), look(&t[1]), look(&t[2])]).collect()) }
        6 => { let mut out: Vec<[V; 3]> = vec![]; wound!(formats::DeindexedListFormat::new(&mut out).into_fan_format())?; Ok(out.iter().map(|t| [look(&t[0]), look(&t[1]), look(&t[2])]).collect()) }
        9 => {
            // a user's list format, through the adapter; its own wish for a winding or the wrapper's
            let log = Log::default();
            match cfg.wind {
                0 => tri!(RecList::<false>::new(log.clone(), Inject::None).into_fan_format())?,
                1 => tri!(RecList::<true>::new(log.clone(), Inject::None).into_fan_format())?,
                2 => tri!(RecList::<false>::new(log.clone(), Inject::None).into_fan_format().reverse_winding())?,
                _ => tri!(RecList::<true>::new(log.clone(), Inject::None).into_fan_format().reverse_winding())?,
            };
            Ok(log.tris())
        }
        _ => {
            let log = Log::default();
            match cfg.wind {
                0 => tri!(RecFan::<false>::new(log.clone(), Inject::None))?,
                1 => tri!(RecFan::<true>::new(log.clone(), Inject::None))?,
                2 => tri!(RecFan::<false>::new(log.clone(), Inject::None).reverse_winding())?,
                _ => tri!(RecFan::<true>::new(log.clone(), Inject::None).reverse_winding())?,
            };
            Ok(fan_tris(&log.fans()))
        }
    }
}

fn run_few<'p, P: PolygonList<'p, Vertex = V> + ?Sized, V: Mk>(p: &'p P, cfg: Cfg, look: impl Fn(&V) -> Ix) -> Result<Vec<Tri>, String>
where P::Index: ToIx {
    macro_rules! tri { ($fmt:expr) => { if cfg.two_step { p.trapezoidize().map_err(|e| err_text(&TriangulationError::<std::convert::Infallible>::TrapezoidationError(e)))?.triangulate($fmt).map_err(|e| err_text(&e)) } else { p.triangulate($fmt).map_err(|e| err_text(&e)) } } }
    match cfg.format % 3 {
        0 => {
            let mut out: Vec<[P::Index; 3]> = vec![];
            let f = formats::IndexedListFormat::new(&mut out).into_fan_format();
            if cfg.ccw() { tri!(f)?; } else { tri!(f.reverse_winding())?; }
            Ok(out.into_iter().map(|t| { let [a, b, c] = t; [a.ix(), b.ix(), c.ix()] }).collect())
        }
        1 => {
            let mut out: Vec<Vec<V>> = vec![];
            let f = formats::DeindexedFanFormat::new(&mut out);
            if cfg.ccw() { tri!(f)?; } else { tri!(f.reverse_winding())?; }
            Ok(fan_tris(&out).iter().map(|t| [look(&t[0]), look(&t[1]), look(&t[2])]).collect())
        }
        _ => {
            let log = Log::default();
            if cfg.ccw() { tri!(RecFan::<false>::new(log.clone(), Inject::None))?; } else { tri!(RecFan::<true>::new(log.clone(), Inject::None))?; }
            Ok(fan_tris(&log.fans()))
        }
    }
}

// ---------------------------------------------------------------- recorders

pub trait ToIx: Clone { fn ix(&self) -> Ix; }
impl ToIx for usize { fn ix(&self) -> Ix { [0, *self] } }
impl ToIx for Ix { fn ix(&self) -> Ix { *self } }
impl ToIx for u16 { fn ix(&self) -> Ix { [0, *self as usize] } }
impl ToIx for [u16; 2] { fn ix(&self) -> Ix { [self[0] as usize, self[1] as usize] } }

/// What a user-supplied format observed.
#[derive(Clone, Debug, PartialEq)]
pub enum Ev { Init([Ix; 3]), NewFan([Ix; 3]), Extend(Ix), ListInit, Tri([Ix; 3]), Build, Fail(String), Returned(String) }
#[derive(Clone, Default)]
pub struct Log(pub Rc<RefCell<Vec<Ev>>>);
impl Log {
    pub fn push(&self, e: Ev) { self.0.borrow_mut().push(e); }
    pub fn get(&self) -> Vec<Ev> { self.0.borrow().clone() }
    pub fn fans(&self) -> Vec<Vec<Ix>> {
        let mut o: Vec<Vec<Ix>> = vec![];
        for e in self.0.borrow().iter() {
            match e { Ev::Init(a) | Ev::NewFan(a) => o.push(a.to_vec()), Ev::Extend(v) => o.last_mut().expect("extend_fan before any fan").push(*v), _ => {} }
        }
        o
    }
    pub fn tris(&self) -> Vec<[Ix; 3]> { self.0.borrow().iter().filter_map(|e| if let Ev::Tri(a) = e { Some(*a) } else { None }).collect() }
}
/// At which call (counted over all calls that can fail, in order) the format reports an error.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Inject { None, Call(usize), Build }
#[derive(Clone, Debug, PartialEq)]
pub struct UserErr(pub usize);
impl std::fmt::Display for UserErr { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "user error #{}", self.0) } }
impl std::error::Error for UserErr {}

/// A user-supplied fan format (CW: asks for clockwise triangles) that records every call and can fail at a chosen one.
pub struct RecFan<const CW: bool> { pub log: Log, pub inject: Inject, pub calls: usize }
impl<const CW: bool> RecFan<CW> {
    pub fn new(log: Log, inject: Inject) -> Self { Self { log, inject, calls: 0 } }
    fn step(&mut self) -> Result<(), UserErr> {
        let n = self.calls; self.calls += 1;
        if self.inject == Inject::Call(n) { let e = UserErr(n); self.log.push(Ev::Returned(e.to_string())); Err(e) } else { Ok(()) }
    }
    fn done(self) -> Result<(), UserErr> { self.log.push(Ev::Build); if self.inject == Inject::Build { let e = UserErr(usize::MAX); self.log.push(Ev::Returned(e.to_string())); Err(e) } else { Ok(()) } }
}
impl<'p, P: PolygonList<'p> + ?Sized, const CW: bool> FanFormat<'p, P> for RecFan<CW> where P::Index: ToIx {
    type Builder = Self;
    fn initialize(mut self, _p: &'p P, a: P::Index, b: P::Index, c: P::Index) -> Result<Self, UserErr> {
        self.log.push(Ev::Init([a.ix(), b.ix(), c.ix()]));
        self.step()?;
        Ok(self)
    }
}
impl<'p, P: PolygonList<'p> + ?Sized, const CW: bool> FanBuilder<'p, P> for RecFan<CW> where P::Index: ToIx {
    type Output = ();
    type Error = UserErr;
    const WINDING: TriangleWinding = if CW { TriangleWinding::Clockwise } else { TriangleWinding::Counterclockwise };
    fn new_fan(&mut self, a: P::Index, b: P::Index, c: P::Index) -> Result<(), UserErr> { self.log.push(Ev::NewFan([a.ix(), b.ix(), c.ix()])); self.step() }
    fn extend_fan(&mut self, a: P::Index) -> Result<(), UserErr> { self.log.push(Ev::Extend(a.ix())); self.step() }
    fn build(self) -> Result<(), UserErr> { self.done() }
    fn fail(self, e: &TriangulationError<UserErr>) { self.log.push(Ev::Fail(err_text(e))); }
}
/// The same for list formats.
pub struct RecList<const CW: bool>(pub RecFan<CW>);
impl<const CW: bool> RecList<CW> { pub fn new(log: Log, inject: Inject) -> Self { Self(RecFan::new(log, inject)) } }
impl<'p, P: PolygonList<'p> + ?Sized, const CW: bool> ListFormat<'p, P> for RecList<CW> where P::Index: ToIx {
    type Builder = Self;
    fn initialize(mut self, _p: &'p P) -> Result<Self, UserErr> { self.0.log.push(Ev::ListInit); self.0.step()?; Ok(self) }
}
impl<'p, P: PolygonList<'p> + ?Sized, const CW: bool> ListBuilder<'p, P> for RecList<CW> where P::Index: ToIx {
    type Output = ();
    type Error = UserErr;
    const WINDING: TriangleWinding = if CW { TriangleWinding::Clockwise } else { TriangleWinding::Counterclockwise };
    fn add_triangle(&mut self, a: P::Index, b: P::Index, c: P::Index) -> Result<(), UserErr> { self.0.log.push(Ev::Tri([a.ix(), b.ix(), c.ix()])); self.0.step() }
    fn build(self) -> Result<(), UserErr> { self.0.done() }
    fn fail(self, e: &TriangulationError<UserErr>) { self.0.log.push(Ev::Fail(err_text(e))); }
}
/// Wraps one of the crate's own fan formats and reports an error at a chosen call, forwarding everything else.
pub struct FailAt<F>(pub F, pub Inject);
pub struct FailAtB<B> { b: B, inject: Inject, calls: usize }
#[derive(Debug)]
pub enum FE<E> { User, Inner(E) }
impl<E: std::fmt::Display> std::fmt::Display for FE<E> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { match self { FE::User => write!(f, "injected"), FE::Inner(e) => write!(f, "{e}") } } }
impl<E: std::error::Error> std::error::Error for FE<E> {}
impl<'p, P: PolygonList<'p> + ?Sized, F: FanFormat<'p, P>> FanFormat<'p, P> for FailAt<F> {
    type Builder = FailAtB<F::Builder>;
    fn initialize(self, p: &'p P, a: P::Index, b: P::Index, c: P::Index) -> Result<Self::Builder, <Self::Builder as FanBuilder<'p, P>>::Error> {
        Ok(FailAtB { b: self.0.initialize(p, a, b, c).map_err(FE::Inner)?, inject: self.1, calls: 1 })
    }
}
impl<'p, P: PolygonList<'p> + ?Sized, B: FanBuilder<'p, P>> FanBuilder<'p, P> for FailAtB<B> {
    type Output = B::Output;
    type Error = FE<B::Error>;
    const WINDING: TriangleWinding = B::WINDING;
    fn new_fan(&mut self, a: P::Index, b: P::Index, c: P::Index) -> Result<(), Self::Error> {
        self.calls += 1;
        if self.inject == Inject::Call(self.calls - 1) { return Err(FE::User); }
        self.b.new_fan(a, b, c).map_err(FE::Inner)
    }
    fn extend_fan(&mut self, a: P::Index) -> Result<(), Self::Error> {
        self.calls += 1;
        if self.inject == Inject::Call(self.calls - 1) { return Err(FE::User); }
        self.b.extend_fan(a).map_err(FE::Inner)
    }
    fn build(self) -> Result<B::Output, Self::Error> { self.b.build().map_err(FE::Inner) }
    fn fail(self, _e: &TriangulationError<Self::Error>) {
        // the wrapped builder is told about some error of its own error type
        self.b.fail(&TriangulationError::NoVertices)
    }
}
