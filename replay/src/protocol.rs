//! C05 builder protocol, C06 agreement of the output formats, C07 rollback.
use crate::{gen::*, geom::Polys, run::*, safety, Outcome};
use triangulate::{formats, FanFormat, ListFormat, PolygonList, Trapezoidation, TrapezoidationError};

type L = Vec<Vec<[f64; 2]>>;
fn to_f(ps: &Polys) -> L { ps.iter().map(|p| p.iter().map(|q| [q[0] as f64, q[1] as f64]).collect()).collect() }
/// Mostly valid sets; sometimes inputs that make triangulation itself fail, possibly after output has begun.
fn gen_list(r: &mut Rng, invalid_in: u64) -> L { if r.below(invalid_in) == 0 { safety::gen(r) } else { to_f(&any_valid(r)) } }

fn err_kind<E: std::error::Error>(r: &Result<(), triangulate::TriangulationError<E>>) -> Option<String> { r.as_ref().err().map(err_text) }

/// The log of one call must follow the protocol; `ret` is what the caller got.
fn judge_fan_log(log: &[Ev], inject: Inject, ret: &Option<String>) -> Option<String> {
    let mut it = log.iter().peekable();
    let mut calls = 0usize; let mut alive = false; let mut ended = false; let mut returned: Option<String> = None; let mut failed: Option<String> = None; let mut built = false;
    while let Some(e) = it.next() {
        if ended { return Some(format!("{e:?} after the builder was finished")); }
        match e {
            Ev::Init(_) => { if calls > 0 { return Some("initialize was not the first call, or came twice".into()); } calls += 1; alive = true; }
            Ev::NewFan(_) | Ev::Extend(_) => { if !alive { return Some(format!("{e:?} without a live builder")); } if returned.is_some() { return Some(format!("{e:?} after an error was returned")); } calls += 1; }
            Ev::Build => { if !alive || returned.is_some() { return Some("build without a live builder, or after an error".into()); } built = true; }
            Ev::Returned(m) => { returned = Some(m.clone()); if built { ended = true; } if calls == 1 { alive = false; ended = true; } }
            Ev::Fail(m) => { if built || !alive { return Some("fail on a builder that does not exist".into()); } failed = Some(m.clone()); ended = true; }
            _ => return Some("list call in a fan log".into()),
        }
    }
    finish(inject, ret, returned, failed, built, alive)
}
fn finish(_inject: Inject, ret: &Option<String>, returned: Option<String>, failed: Option<String>, built: bool, alive: bool) -> Option<String> {
    match ret {
        None => {
            if returned.is_some() { return Some(format!("the builder returned {returned:?} but the caller got Ok")); }
            if !built { return Some("the caller got Ok but build was not called".into()); }
            if failed.is_some() { return Some("the caller got Ok but fail was called".into()); }
        }
        Some(e) => {
            if let Some(m) = &returned { if *e != format!("FanBuilder: {m}") { return Some(format!("the builder returned {m:?} but the caller got {e:?}")); } }
            else if e.starts_with("FanBuilder") { return Some(format!("the caller got {e:?} but the builder returned no error")); }
            if built { if returned.is_none() { return Some(format!("build succeeded but the caller got {e:?}")); } }
            else if alive { match &failed { None => return Some(format!("the builder exists, the call failed with {e:?}, but fail was not called")), Some(f) => if f != e { return Some(format!("fail was told {f:?} but the caller got {e:?}")); } } }
        }
    }
    None
}
fn judge_list_log(log: &[Ev], inject: Inject, ret: &Option<String>) -> Option<String> {
    let mut calls = 0usize; let mut alive = false; let mut ended = false; let mut returned: Option<String> = None; let mut failed: Option<String> = None; let mut built = false;
    for e in log {
        if ended { return Some(format!("{e:?} after the list builder was finished")); }
        match e {
            Ev::ListInit => { if calls > 0 { return Some("initialize was not the first call, or came twice".into()); } calls += 1; alive = true; }
            Ev::Tri(_) => { if !alive || returned.is_some() { return Some(format!("{e:?} without a live list builder, or after an error")); } calls += 1; }
            Ev::Build => { if !alive || returned.is_some() { return Some("build without a live list builder, or after an error".into()); } built = true; }
            Ev::Returned(m) => { returned = Some(m.clone()); if built { ended = true; } if calls == 1 { alive = false; ended = true; } }
            Ev::Fail(m) => { if built || !alive { return Some("fail on a list builder that does not exist".into()); } failed = Some(m.clone()); ended = true; }
            _ => return Some("fan call in a list log".into()),
        }
    }
    finish(inject, ret, returned, failed, built, alive)
}
fn gen_inject(r: &mut Rng) -> Inject { match r.below(8) { 0 => Inject::None, 1 => Inject::Build, 2 => Inject::Call(0), 3 => Inject::Call(1), 4 => Inject::Call(2), _ => Inject::Call(r.below(14) as usize) } }

pub fn c05(case: u64, seed: u64) -> Outcome {
    let mut r = Rng::new(case ^ seed.wrapping_mul(0x33d1));
    let inv = if case % 4 == 0 { 1 } else { 6 };
    let v = gen_list(&mut r, inv);
    let inject = gen_inject(&mut r);
    let how = r.below(6);
    let input = format!("{v:?} inject={inject:?} how={how}");
    note_input(&input);
    let log = Log::default();
    let p = leaked(&v);
    let (ret, list) = match how {
        0 => (err_kind(&p.triangulate(RecFan::<false>::new(log.clone(), inject))), false),
        1 => (err_kind(&p.triangulate(RecFan::<true>::new(log.clone(), inject))), false),
        2 => (err_kind(&p.triangulate(RecFan::<false>::new(log.clone(), inject).reverse_winding())), false),
        3 => (err_kind(&p.triangulate(RecList::<false>::new(log.clone(), inject).into_fan_format())), true),
        4 => (err_kind(&p.triangulate(RecList::<true>::new(log.clone(), inject).into_fan_format().reverse_winding())), true),
        _ => match p.trapezoidize() { Ok(t) => (err_kind(&t.triangulate(RecFan::<false>::new(log.clone(), inject))), false), Err(e) => (Some(err_text(&triangulate::TriangulationError::<UserErr>::TrapezoidationError(e))), false) },
    };
    let ev = log.get();
    let violation = if list { judge_list_log(&ev, inject, &ret) } else { judge_fan_log(&ev, inject, &ret) };
    Outcome { input, nontrivial: ev.len() > 1, violation }
}

/// Existing contents of the caller's collections, distinguishable from anything the call adds.
fn pre_ix(r: &mut Rng, n: usize) -> Vec<Ix> { (0..n).map(|i| [9000 + i, r.below(10) as usize]).collect() }

fn diff<T: PartialEq + std::fmt::Debug>(what: &str, got: &[T], want: &[T]) -> Option<String> {
    if got == want { None } else {
        let i = got.iter().zip(want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
        Some(format!("{what}: lengths {} and {} expected, first difference at {i}: {:?} instead of {:?}", got.len(), want.len(), got.get(i), want.get(i)))
    }
}
fn each_format<'p>(t: &Trapezoidation<'p, L>, v: &'p L, r: &mut Rng, rev: bool) -> Option<String> {
    let log = Log::default();
    let e = if rev { err_kind(&t.triangulate(RecFan::<true>::new(log.clone(), Inject::None))) } else { err_kind(&t.triangulate(RecFan::<false>::new(log.clone(), Inject::None))) };
    let truth_ok = e.is_none();
    let fans = log.fans(); let tris = fan_tris(&fans);
    let vert = |i: &Ix| v[i[0]][i[1]];
    macro_rules! tri { ($f:expr) => { if rev { t.triangulate($f.reverse_winding()).map_err(|e| err_text(&e)) } else { t.triangulate($f).map_err(|e| err_text(&e)) } } }
    macro_rules! agree { ($what:expr, $res:expr, $ok:expr) => { match $res { Ok(out) => { if !truth_ok { return Some(format!("{} succeeded where a recording format got {e:?}", $what)); } if let Some(d) = $ok(out) { return Some(d); } } Err(m) => if Some(&m) != e.as_ref() { return Some(format!("{} got {m:?}, a recording format got {e:?}", $what)); } } } }
    let n = r.below(4) as usize;
    // lists of indices
    { let pre: Vec<[Ix; 3]> = pre_ix(r, n).into_iter().map(|i| [i, i, i]).collect(); let mut out = pre.clone(); let res = tri!(formats::IndexedListFormat::new(&mut out).into_fan_format()).map(|_| ()); let want: Vec<_> = pre.iter().chain(&tris).cloned().collect(); agree!("IndexedList [_;3]", res, |_| diff("IndexedList [_;3]", &out, &want)); }
    { let pre: Vec<(Ix, Ix, Ix)> = pre_ix(r, n).into_iter().map(|i| (i, i, i)).collect(); let res = tri!(formats::IndexedListFormat::new(pre.clone()).into_fan_format()); let want: Vec<_> = pre.iter().cloned().chain(tris.iter().map(|t| (t[0], t[1], t[2]))).collect(); agree!("IndexedList (_,_,_)", res, |out: Vec<(Ix, Ix, Ix)>| diff("IndexedList (_,_,_)", &out, &want)); }
    { let pre: Vec<Ix> = pre_ix(r, 3 * n); let mut out = pre.clone(); let res = tri!(formats::IndexedListFormat::<L, &mut Vec<Ix>>::new(&mut out).into_fan_format()).map(|_| ()); let want: Vec<_> = pre.iter().cloned().chain(tris.iter().flatten().cloned()).collect(); agree!("IndexedList flat", res, |_| diff("IndexedList flat", &out, &want)); }
    // lists of vertices
    { let pre: Vec<[[f64; 2]; 3]> = (0..n).map(|i| [[-9e9, i as f64]; 3]).collect(); let mut out = pre.clone(); let res = tri!(formats::DeindexedListFormat::new(&mut out).into_fan_format()).map(|_| ()); let want: Vec<_> = pre.iter().cloned().chain(tris.iter().map(|t| [vert(&t[0]), vert(&t[1]), vert(&t[2])])).collect(); agree!("DeindexedList", res, |_| diff("DeindexedList", &out, &want)); }
    // fans
    { let pre: Vec<Vec<Ix>> = (0..n).map(|i| pre_ix(r, i)).collect(); let mut out = pre.clone(); let res = tri!(formats::IndexedFanFormat::new(&mut out)).map(|_| ()); let want: Vec<_> = pre.iter().chain(&fans).cloned().collect(); agree!("IndexedFan", res, |_| diff("IndexedFan", &out, &want)); }
    { let pre: Vec<Vec<[f64; 2]>> = (0..n).map(|i| vec![[-9e9, 1.0]; i]).collect(); let res = tri!(formats::DeindexedFanFormat::new(pre.clone())); let want: Vec<_> = pre.iter().cloned().chain(fans.iter().map(|f| f.iter().map(vert).collect())).collect(); agree!("DeindexedFan", res, |out: Vec<Vec<[f64; 2]>>| diff("DeindexedFan", &out, &want)); }
    // delimited fans
    { let delim = [777777, 0]; let pre = pre_ix(r, n); let mut out = pre.clone(); let res = tri!(formats::DelimitedFanFormat::new(&mut out, delim)).map(|_| ());
      let mut want = pre.clone(); for f in &fans { if !want.is_empty() { want.push(delim); } want.extend(f.iter().cloned()); }
      agree!("DelimitedFan", res, |_| diff("DelimitedFan", &out, &want)); }
    // the recording list format sees the fans' triangles one by one
    { let log = Log::default(); let res = if rev { err_kind(&t.triangulate(RecList::<true>::new(log.clone(), Inject::None).into_fan_format())) } else { err_kind(&t.triangulate(RecList::<false>::new(log.clone(), Inject::None).into_fan_format())) };
      if res != e { return Some(format!("list adapter got {res:?}, a recording format got {e:?}")); } if let Some(d) = diff("list adapter", &log.tris(), &tris) { return Some(d); } }
    // a second run over the same trapezoidation repeats the first
    { let log = Log::default(); let e2 = if rev { err_kind(&t.triangulate(RecFan::<true>::new(log.clone(), Inject::None))) } else { err_kind(&t.triangulate(RecFan::<false>::new(log.clone(), Inject::None))) };
      if e2 != e || log.fans() != fans { return Some("triangulating the same trapezoidation again gave something else".into()); } }
    None
}
pub fn c06(case: u64, seed: u64) -> Outcome {
    let mut r = Rng::new(case ^ seed.wrapping_mul(0x90a7));
    let v = gen_list(&mut r, 8);
    let rev = r.below(3) == 0;
    let input = format!("{v:?} rev={rev}");
    note_input(&input);
    let p = leaked(&v);
    let same_bits = |a: &L, b: &L| format!("{a:?}") == format!("{b:?}");
    match p.trapezoidize() {
        Err(_) => Outcome { input, nontrivial: false, violation: None },
        Ok(t) => {
            let has_nan = v.iter().flatten().flatten().any(|z| z.is_nan());
            let violation = if has_nan { None } else { each_format(&t, p, &mut r, rev) };
            let violation = violation.or_else(|| if same_bits(p, &v) { None } else { Some("the input changed".into()) });
            Outcome { input, nontrivial: !has_nan, violation }
        }
    }
}

pub fn c07(case: u64, seed: u64) -> Outcome {
    let mut r = Rng::new(case ^ seed.wrapping_mul(0xab13));
    let v = gen_list(&mut r, 2);
    let inject = match r.below(4) { 0 => Inject::None, 1 => Inject::Call(1), _ => Inject::Call(1 + r.below(10) as usize) };
    let rev = r.below(4) == 0;
    let n = r.below(4) as usize;
    let k = r.below(8);
    let total: Vec<Ix> = v.iter().enumerate().flat_map(|(i, p)| (0..p.len()).map(move |j| [i, j])).collect();
    let delim = if !total.is_empty() && r.below(3) > 0 { total[r.below(total.len() as u64) as usize] } else { [777777, 0] };
    let input = format!("{v:?} inject={inject:?} rev={rev} pre={n} format={k} delim={delim:?}");
    note_input(&input);
    let p = leaked(&v);
    macro_rules! chk { ($what:expr, $pre:expr, $mk:expr) => {{
        let pre = $pre; let mut out = pre.clone();
        let failed = { let f = FailAt($mk(&mut out), inject); if rev { p.triangulate(f.reverse_winding()).is_err() } else { p.triangulate(f).is_err() } };
        (failed, if failed && format!("{out:?}") != format!("{pre:?}") { Some(format!("{}: the call failed but the caller's collection changed from {} to {} elements", $what, pre.len(), out.len())) } else { None })
    }} }
    let (failed, violation) = match k {
        0 => chk!("IndexedFan", (0..n).map(|i| pre_ix(&mut r, i)).collect::<Vec<Vec<Ix>>>(), |o| formats::IndexedFanFormat::<L, &mut Vec<Vec<Ix>>>::new(o)),
        1 => chk!("DeindexedFan", (0..n).map(|i| vec![[-9e9, 1.0]; i]).collect::<Vec<Vec<[f64; 2]>>>(), |o| formats::DeindexedFanFormat::<L, &mut Vec<Vec<[f64; 2]>>>::new(o)),
        2 => chk!("IndexedList [_;3]", pre_ix(&mut r, n).into_iter().map(|i| [i; 3]).collect::<Vec<[Ix; 3]>>(), |o| formats::IndexedListFormat::<L, &mut Vec<[Ix; 3]>>::new(o).into_fan_format()),
        3 => chk!("IndexedList (_,_,_)", pre_ix(&mut r, n).into_iter().map(|i| (i, i, i)).collect::<Vec<(Ix, Ix, Ix)>>(), |o| formats::IndexedListFormat::<L, &mut Vec<(Ix, Ix, Ix)>>::new(o).into_fan_format()),
        4 => chk!("IndexedList flat", pre_ix(&mut r, 3 * n), |o| formats::IndexedListFormat::<L, &mut Vec<Ix>>::new(o).into_fan_format()),
        5 => chk!("DeindexedList", (0..n).map(|_| [[-9e9, 1.0]; 3]).collect::<Vec<[[f64; 2]; 3]>>(), |o| formats::DeindexedListFormat::<L, &mut Vec<[[f64; 2]; 3]>>::new(o).into_fan_format()),
        _ => chk!("DelimitedFan", pre_ix(&mut r, n), |o| formats::DelimitedFanFormat::<L, &mut Vec<Ix>>::new(o, delim)),
    };
    Outcome { input, nontrivial: failed, violation }
}
#[allow(unused)] fn _t(_: TrapezoidationError) {}
