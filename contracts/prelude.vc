//@ mod 
/// Stand-ins for what lies outside the crate; every contract here that Verus cannot check is an assumption (see DESIGN.md).
pub mod vp {
use vstd::prelude::*;
pub use crate::vpreal::Real;
broadcast use vstd::group_vstd_default;

pub trait Error { }
impl<T: ?Sized> Error for T { }

#[verifier::external_body]
pub fn message() -> String { String::new() }

pub struct Backtrace { }
impl Backtrace { pub fn new_unresolved() -> Self { Backtrace { } } }

/// X.clone(). ASSUMED: a clone of an index, vertex or coordinate equals the original; clone impls of this crate are verified to do so
pub trait VpClone: Sized { fn vp_clone(&self) -> (r: Self) ensures r == *self; }
impl<T: Clone> VpClone for T {
    #[verifier::external_body]
    fn vp_clone(&self) -> (r: Self) { self.clone() }
}
pub broadcast proof fn push_take<A>(s: Seq<A>, x: A, n: int)
    requires 0 <= n <= s.len()
    ensures #[trigger] s.push(x).take(n) == s.take(n)
{ assert(s.push(x).take(n) =~= s.take(n)); }
pub broadcast proof fn take_all<A>(s: Seq<A>, n: int)
    requires n == s.len()
    ensures #[trigger] s.take(n) == s
{ assert(s.take(n) =~= s); }
pub broadcast proof fn add_push<A>(s: Seq<A>, t: Seq<A>, x: A)
    ensures #[trigger] (s + t).push(x) == s + t.push(x)
{ assert((s + t).push(x) =~= s + t.push(x)); }
pub broadcast proof fn add_empty<A>(s: Seq<A>, t: Seq<A>)
    requires t.len() == 0
    ensures #[trigger] (s + t) == s
{ assert(s + t =~= s); }
pub broadcast proof fn empty_push<A>(s: Seq<A>, x: A)
    requires s.len() == 0
    ensures #[trigger] s.push(x) == Seq::<A>::empty().push(x)
{ assert(s =~= Seq::<A>::empty()); }
/// ASSUMED: `==` of core's Ordering
pub broadcast axiom fn ordering_obeys()
    ensures #[trigger] <core::cmp::Ordering as vstd::std_specs::cmp::PartialEqSpec<core::cmp::Ordering>>::obeys_eq_spec();
pub broadcast axiom fn ordering_eq(a: &core::cmp::Ordering, b: &core::cmp::Ordering)
    ensures #[trigger] vstd::std_specs::cmp::PartialEqSpec::eq_spec(a, b) == (*a == *b);
pub broadcast group seq_facts { empty_push, push_take, take_all, add_push, add_empty, ordering_obeys, ordering_eq }

// EXPR[i]
pub trait VpAt<I> {
    type Out;
    spec fn at_ok(&self, i: I) -> bool;
    spec fn at_val(&self, i: I) -> Self::Out;
    fn vp_at(&self, i: I) -> (r: &Self::Out)
        requires self.at_ok(i)
        ensures *r == self.at_val(i);
}
impl<T> VpAt<usize> for Vec<T> {
    type Out = T;
    open spec fn at_ok(&self, i: usize) -> bool { i < self@.len() }
    open spec fn at_val(&self, i: usize) -> T { self@[i as int] }
    fn vp_at(&self, i: usize) -> (r: &T) { &self[i] }
}
fn slice_at<T>(s: &[T], i: usize) -> (r: &T) requires i < s@.len() ensures *r == s@[i as int] { &s[i] }
impl<T> VpAt<usize> for [T] {
    type Out = T;
    open spec fn at_ok(&self, i: usize) -> bool { i < self@.len() }
    open spec fn at_val(&self, i: usize) -> T { self@[i as int] }
    fn vp_at(&self, i: usize) -> (r: &T) { slice_at(self, i) }
}
impl<T, const N: usize> VpAt<usize> for [T; N] {
    type Out = T;
    open spec fn at_ok(&self, i: usize) -> bool { i < N }
    open spec fn at_val(&self, i: usize) -> T { self@[i as int] }
    fn vp_at(&self, i: usize) -> (r: &T) { assert(<[T; N] as VpAt<usize>>::at_ok(self, i)); assert(<[T; N] as VpAt<usize>>::at_val(self, i) == self@[i as int]); &self[i] }
}

// EXPR[i] as a place
pub trait VpAtMut<I>: VpAt<I> {
    spec fn at_set(&self, i: I, v: Self::Out, n: &Self) -> bool;
    fn vp_at_mut(&mut self, i: I) -> (r: &mut Self::Out)
        requires old(self).at_ok(i)
        ensures *r == old(self).at_val(i), old(self).at_set(i, *final(r), final(self));
}
impl<T> VpAtMut<usize> for Vec<T> {
    open spec fn at_set(&self, i: usize, v: T, n: &Self) -> bool { n@ == self@.update(i as int, v) }
    fn vp_at_mut(&mut self, i: usize) -> (r: &mut T) { &mut self[i] }
}
impl<T> VpAtMut<usize> for [T] {
    open spec fn at_set(&self, i: usize, v: T, n: &Self) -> bool { n@ == self@.update(i as int, v) }
    fn vp_at_mut(&mut self, i: usize) -> (r: &mut T) { &mut self[i] }
}
// EXPR.get_unchecked(i): undefined outside the container, so that is its precondition
pub trait VpUnchecked {
    type Out;
    spec fn un_ok(&self, i: usize) -> bool;
    spec fn un_val(&self, i: usize) -> Self::Out;
    unsafe fn vp_get_unchecked(&self, i: usize) -> (r: &Self::Out) requires self.un_ok(i) ensures *r == self.un_val(i);
}
impl<T> VpUnchecked for Vec<T> {
    type Out = T;
    open spec fn un_ok(&self, i: usize) -> bool { i < self@.len() }
    open spec fn un_val(&self, i: usize) -> T { self@[i as int] }
    unsafe fn vp_get_unchecked(&self, i: usize) -> (r: &T) { &self[i] }
}
impl<T> VpUnchecked for [T] {
    type Out = T;
    open spec fn un_ok(&self, i: usize) -> bool { i < self@.len() }
    open spec fn un_val(&self, i: usize) -> T { self@[i as int] }
    unsafe fn vp_get_unchecked(&self, i: usize) -> (r: &T) { assert(<[T] as VpUnchecked>::un_ok(self, i)); assert(<[T] as VpUnchecked>::un_val(self, i) == self@[i as int]); slice_at(self, i) }
}
/// core::num::NonZeroUsize; zero is undefined behaviour in new_unchecked, so that is its precondition
#[derive(Clone, Copy)]
pub struct NonZeroUsize { pub v: usize }
impl NonZeroUsize {
    pub unsafe fn new_unchecked(n: usize) -> (r: Self) requires n != 0 ensures r.v == n { NonZeroUsize { v: n } }
    pub fn get(self) -> (r: usize) ensures r == self.v { self.v }
}
impl PartialEq for NonZeroUsize { fn eq(&self, o: &Self) -> (r: bool) { self.v == o.v } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for NonZeroUsize {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { self.v == o.v }
}

// iteration
/// core's Iterator: what an iterator will still yield
pub trait VpIterator: Sized {
    type Item;
    spec fn rest(&self) -> Seq<Self::Item>;
    fn vp_next(&mut self) -> (r: Option<Self::Item>)
        ensures match r {
            None => old(self).rest().len() == 0 && final(self).rest().len() == 0,
            Some(x) => old(self).rest().len() > 0 && x == old(self).rest()[0] && final(self).rest() == old(self).rest().skip(1),
        };
}
pub trait VpIteratorExt: VpIterator {
    fn vp_map_into<B>(self) -> (r: MapInto<Self, B>) where Self::Item: Into<B>
        ensures r.rest() == self.rest().map_values(|a: Self::Item| into_val::<Self::Item, B>(a))
    { MapInto { it: self, ph: core::marker::PhantomData } }
    fn vp_chain_once(self, x: Self::Item) -> (r: ChainOnce<Self>) ensures r.rest() == self.rest().push(x) { ChainOnce { it: self, last: Some(x) } }
}
impl<I: VpIterator> VpIteratorExt for I { }
/// core's iteration over a range
impl VpIterator for core::ops::Range<usize> {
    type Item = usize;
    open spec fn rest(&self) -> Seq<usize> { Seq::new(if self.start < self.end { (self.end - self.start) as nat } else { 0 }, |j: int| (self.start + j) as usize) }
    fn vp_next(&mut self) -> (r: Option<usize>) {
        if self.start < self.end { let x = self.start; self.start = x + 1; proof { assert(self.rest() =~= old(self).rest().skip(1)); } Some(x) } else { None }
    }
}
/// core's Deref to a slice: the same slice at every call
pub trait VpSlice {
    type Elem;
    spec fn elems(&self) -> Seq<Self::Elem>;
    fn vp_deref(&self) -> (r: &[Self::Elem]) ensures r@ == self.elems();
}
/// SLICE.iter().map(F).sum() over usize
pub open spec fn seq_sum(ns: Seq<usize>) -> int decreases ns.len() { if ns.len() == 0 { 0 } else { seq_sum(ns.drop_last()) + ns.last() } }
pub open spec fn outs<T, F: Fn(&T) -> usize>(f: F, s: Seq<T>, ns: Seq<usize>) -> bool { forall|k: int| 0 <= k < ns.len() ==> f.ensures((&s[k],), #[trigger] ns[k]) }
pub fn vp_sum<T, F: Fn(&T) -> usize>(s: &[T], f: F) -> (r: usize)
    requires
        forall|k: int| 0 <= k < s@.len() ==> f.requires((&#[trigger] s@[k],)),
        forall|ns: Seq<usize>| ns.len() <= s@.len() && #[trigger] outs(f, s@, ns) ==> seq_sum(ns) <= usize::MAX,
    ensures exists|ns: Seq<usize>| ns.len() == s@.len() && #[trigger] outs(f, s@, ns) && r == seq_sum(ns)
{
        let mut n: usize = 0; let mut i: usize = 0; let ghost mut ns = Seq::<usize>::empty();
        while i < s.len()
            invariant
                i <= s@.len(), ns.len() == i, outs(f, s@, ns), n == seq_sum(ns),
                forall|k: int| 0 <= k < s@.len() ==> f.requires((&#[trigger] s@[k],)),
                forall|ns: Seq<usize>| ns.len() <= s@.len() && #[trigger] outs(f, s@, ns) ==> seq_sum(ns) <= usize::MAX,
            decreases s@.len() - i
        {
            let x = f(&s[i]);
            proof { let m = ns.push(x); assert(m.drop_last() =~= ns); assert(outs(f, s@, m)); ns = m; }
            n += x; i += 1;
        }
        n
}
/// what `into` makes of a value
pub uninterp spec fn into_val<A, B>(a: A) -> B;
pub broadcast axiom fn into_from<A, B: From<A>>(a: A)
    ensures <B as vstd::std_specs::convert::FromSpec<A>>::obeys_from_spec() ==> #[trigger] into_val::<A, B>(a) == <B as vstd::std_specs::convert::FromSpec<A>>::from_spec(a);
pub broadcast axiom fn into_self<A>(a: A) ensures #[trigger] into_val::<A, A>(a) == a;
#[verifier::external_body]
pub fn do_into<A: Into<B>, B>(a: A) -> (r: B) ensures r == into_val::<A, B>(a) { a.into() }
// core's TryInto: whether a value fits, and what it becomes
pub uninterp spec fn g_fits<A, B>(a: A) -> bool;
pub uninterp spec fn try_val<A, B>(a: A) -> B;
pub open spec fn conv<A, B>() -> spec_fn(A) -> B { |a: A| try_val::<A, B>(a) }
pub struct NoFit;
#[verifier::external_body]
pub fn do_try_into<A: TryInto<B>, B>(a: A) -> (r: Result<B, NoFit>)
    ensures match r { Ok(b) => g_fits::<A, B>(a) && b == try_val::<A, B>(a), Err(_) => !g_fits::<A, B>(a) }
{ a.try_into().map_err(|_| NoFit) }
pub fn unwrap_or_else<T, E, F: FnOnce(E) -> T>(x: Result<T, E>, f: F) -> (r: T)
    requires x is Err ==> f.requires((x->Err_0,))
    ensures match x { Ok(t) => r == t, Err(e) => f.ensures((e,), r) }
{ match x { Ok(t) => t, Err(e) => f(e) } }
// [T; N]::map and Vec::into_iter().map().collect()
pub uninterp spec fn arr_mapped<T, U, const N: usize>(a: [T; N], g: spec_fn(T) -> U) -> [U; N];
pub broadcast axiom fn arr_mapped_view<T, U, const N: usize>(a: [T; N], g: spec_fn(T) -> U)
    ensures #[trigger] arr_mapped(a, g)@ == a@.map_values(g);
#[verifier::external_body]
pub fn array_map<T, U, F: Fn(T) -> U, const N: usize>(a: [T; N], f: F) -> (r: [U; N])
    requires forall|t: T| #[trigger] f.requires((t,))
    ensures forall|g: spec_fn(T) -> U| (forall|t: T, u: U| #[trigger] f.ensures((t,), u) ==> u == g(t)) ==> r == #[trigger] arr_mapped(a, g)
{ a.map(f) }
pub uninterp spec fn vec_mapped<T, U>(a: Vec<T>, g: spec_fn(T) -> U) -> Vec<U>;
pub broadcast axiom fn vec_mapped_view<T, U>(a: Vec<T>, g: spec_fn(T) -> U)
    ensures #[trigger] vec_mapped(a, g)@ == a@.map_values(g);
#[verifier::external_body]
pub fn vec_map<T, U, F: Fn(T) -> U>(a: Vec<T>, f: F) -> (r: Vec<U>)
    requires forall|t: T| #[trigger] f.requires((t,))
    ensures forall|g: spec_fn(T) -> U| (forall|t: T, u: U| #[trigger] f.ensures((t,), u) ==> u == g(t)) ==> r == #[trigger] vec_mapped(a, g)
{ a.into_iter().map(f).collect() }
pub struct MapInto<I, B> { pub it: I, pub ph: core::marker::PhantomData<B> }
impl<I: VpIterator, B> VpIterator for MapInto<I, B> where I::Item: Into<B> {
    type Item = B;
    open spec fn rest(&self) -> Seq<B> { self.it.rest().map_values(|a: I::Item| into_val::<I::Item, B>(a)) }
    fn vp_next(&mut self) -> (r: Option<B>) {
        match self.it.vp_next() { None => None, Some(x) => { proof { assert(self.rest() =~= old(self).rest().skip(1)); } Some(do_into(x)) } }
    }
}
pub struct ChainOnce<I: VpIterator> { pub it: I, pub last: Option<I::Item> }
impl<I: VpIterator> VpIterator for ChainOnce<I> {
    type Item = I::Item;
    open spec fn rest(&self) -> Seq<I::Item> { match self.last { Some(x) => self.it.rest().push(x), None => self.it.rest() } }
    fn vp_next(&mut self) -> (r: Option<I::Item>) {
        match self.it.vp_next() {
            None => { let r = self.last.take(); proof { assert(self.rest() =~= old(self).rest() || self.rest() =~= old(self).rest().skip(1)); } r }
            Some(x) => { proof { assert(self.rest() =~= old(self).rest().skip(1)); } Some(x) }
        }
    }
}
/// X.into_iter() of a `for` loop
pub trait VpIntoIter: Sized {
    type It;
    spec fn it_ok(&self, it: &Self::It) -> bool;
    fn vp_into_iter(self) -> (r: Self::It) ensures self.it_ok(&r);
}
impl<T> VpIntoIter for Vec<T> {
    type It = VecIter<T>;
    open spec fn it_ok(&self, it: &VecIter<T>) -> bool { it.v == *self }
    fn vp_into_iter(self) -> (r: VecIter<T>) { VecIter { v: self } }
}
pub struct VecIter<T> { pub v: Vec<T> }
impl<T> VpIterator for VecIter<T> {
    type Item = T;
    open spec fn rest(&self) -> Seq<T> { self.v@ }
    fn vp_next(&mut self) -> (r: Option<T>) {
        if self.v.len() == 0 { None } else { let x = self.v.remove(0); proof { assert(self.rest() =~= old(self).rest().skip(1)); } Some(x) }
    }
}
impl<T> VecIter<T> {
    pub fn enumerate(self) -> (r: VecEnum<T>) ensures r.v == self.v, r.k == 0 { VecEnum { v: self.v, k: 0 } }
}
pub struct VecEnum<T> { pub v: Vec<T>, pub k: usize }
pub open spec fn wrapping(k: usize, i: int) -> usize { (if k + i <= usize::MAX { k + i } else { k + i - usize::MAX - 1 }) as usize }
impl<T> VpIterator for VecEnum<T> {
    type Item = (usize, T);
    open spec fn rest(&self) -> Seq<(usize, T)> { Seq::new(self.v@.len(), |i: int| (wrapping(self.k, i), self.v@[i])) }
    fn vp_next(&mut self) -> (r: Option<(usize, T)>) {
        proof { let n = vstd::std_specs::vec::spec_vec_len(&self.v); }
        if self.v.len() == 0 { None } else {
            let x = self.v.remove(0); let k = self.k; self.k = if k == usize::MAX { 0 } else { k + 1 };
            proof { assert(self.rest() =~= old(self).rest().skip(1)); }
            Some((k, x))
        }
    }
}
#[verifier::external_body]
/// ASSUMED: a..b collected
pub fn range_vec(a: usize, b: usize) -> (r: Vec<usize>)
    ensures a <= b ==> r@ == Seq::new((b - a) as nat, |i: int| (a + i) as usize)
{ (a..b).collect() }
#[verifier::external_body]
/// ASSUMED: a shuffle permutes
pub fn shuffle<T>(v: &mut Vec<T>) ensures final(v)@.to_multiset() == old(v)@.to_multiset() { }

// zot
/// ASSUMED: zero to two values, first to last
pub enum Zot<T> { Zero, One(T), Two(T, T) }
impl<T> Zot<T> {
    pub open spec fn seq(&self) -> Seq<T> { match *self { Zot::Zero => Seq::empty(), Zot::One(a) => seq![a], Zot::Two(a, b) => seq![a, b] } }
    pub fn first(&self) -> (r: Option<&T>) 
        ensures self.seq().len() > 0 ==> r == Some(&self.seq()[0]), self.seq().len() == 0 ==> r is None
    { match self { Zot::Zero => None, Zot::One(a) => Some(a), Zot::Two(a, _) => Some(a) } }
    pub fn second(&self) -> (r: Option<&T>)
        ensures self.seq().len() > 1 ==> r == Some(&self.seq()[1]), self.seq().len() <= 1 ==> r is None
    { match self { Zot::Two(_, b) => Some(b), _ => None } }
    pub fn last(&self) -> (r: Option<&T>)
        ensures self.seq().len() > 0 ==> r == Some(&self.seq().last()), self.seq().len() == 0 ==> r is None
    { match self { Zot::Zero => None, Zot::One(a) => Some(a), Zot::Two(_, b) => Some(b) } }
    pub fn from_options(a: Option<T>, b: Option<T>) -> (r: Self)
        ensures r == (match (a, b) { (Some(x), Some(y)) => Zot::Two(x, y), (Some(x), None) => Zot::One(x), (None, Some(y)) => Zot::One(y), (None, None) => Zot::Zero })
    { match (a, b) { (Some(x), Some(y)) => Zot::Two(x, y), (Some(x), None) => Zot::One(x), (None, Some(y)) => Zot::One(y), (None, None) => Zot::Zero } }
}
/// ASSUMED: one or two values, first to last
pub enum Ot<T> { One(T), Two(T, T) }
impl<T> Ot<T> {
    pub open spec fn seq(&self) -> Seq<T> { match *self { Ot::One(a) => seq![a], Ot::Two(a, b) => seq![a, b] } }
    pub fn ok_one_or_else<E, F: FnOnce(T, T) -> E>(self, f: F) -> (r: Result<T, E>)
        requires self is Two ==> f.requires((self->Two_0, self->Two_1))
        ensures match self { Ot::One(a) => r == Ok::<T, E>(a), Ot::Two(a, b) => r is Err && f.ensures((a, b), r->Err_0) }
    { match self { Ot::One(a) => Ok(a), Ot::Two(a, b) => Err(f(a, b)) } }
}
impl<T> VpIntoIter for Ot<T> {
    type It = OtIter<T>;
    open spec fn it_ok(&self, it: &OtIter<T>) -> bool { it.rest() == self.seq() }
    fn vp_into_iter(self) -> (r: OtIter<T>) {
        match self {
            Ot::One(a) => { let r = OtIter { a: Some(a), b: None }; assert(r.rest() =~= self.seq()); r }
            Ot::Two(a, b) => { let r = OtIter { a: Some(a), b: Some(b) }; assert(r.rest() =~= self.seq()); r }
        }
    }
}
pub struct OtIter<T> { pub a: Option<T>, pub b: Option<T> }
impl<T> VpIterator for OtIter<T> {
    type Item = T;
    open spec fn rest(&self) -> Seq<T> { (if self.a is Some { seq![self.a->Some_0] } else { Seq::empty() }) + (if self.b is Some { seq![self.b->Some_0] } else { Seq::empty() }) }
    fn vp_next(&mut self) -> (r: Option<T>) {
        match self.a.take() {
            Some(x) => { proof { assert(self.rest() =~= old(self).rest().skip(1)); } Some(x) }
            None => { let r = self.b.take(); proof { assert(self.rest() =~= old(self).rest() || self.rest() =~= old(self).rest().skip(1)); } r }
        }
    }
}
pub struct OtIterMut<'a, T> { pub a: Option<&'a mut T>, pub b: Option<&'a mut T> }
impl<'a, T> OtIterMut<'a, T> {
    pub fn vp_next(&mut self) -> (r: Option<&'a mut T>)
        ensures old(self).a is Some ==> r == old(self).a && final(self).a is None && final(self).b == old(self).b,
            old(self).a is None ==> r == old(self).b && final(self).a is None && final(self).b is None
    { if self.a.is_some() { self.a.take() } else { self.b.take() } }
}
impl<T> Ot<T> {
    pub fn iter_mut(&mut self) -> (r: OtIterMut<'_, T>)
        ensures match *old(self) {
            Ot::One(x) => r.a is Some && *r.a->Some_0 == x && r.b is None && *final(self) == Ot::One(*final(r.a->Some_0)),
            Ot::Two(x, y) => r.a is Some && *r.a->Some_0 == x && r.b is Some && *r.b->Some_0 == y && *final(self) == Ot::Two(*final(r.a->Some_0), *final(r.b->Some_0)),
        }
    { match self { Ot::One(a) => OtIterMut { a: Some(a), b: None }, Ot::Two(a, b) => OtIterMut { a: Some(a), b: Some(b) } } }
}
impl<T> From<T> for Ot<T> { fn from(a: T) -> (r: Self) { Ot::One(a) } }
impl<T> vstd::std_specs::convert::FromSpecImpl<T> for Ot<T> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(a: T) -> Self { Ot::One(a) }
}
impl<T> From<(T, T)> for Ot<T> { fn from(a: (T, T)) -> (r: Self) { Ot::Two(a.0, a.1) } }
impl<T> vstd::std_specs::convert::FromSpecImpl<(T, T)> for Ot<T> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(a: (T, T)) -> Self { Ot::Two(a.0, a.1) }
}
pub assume_specification<T, P: FnOnce(&T) -> bool> [Option::<T>::filter] (o: Option<T>, f: P) -> (r: Option<T>)
    requires o is Some ==> f.requires((&o->Some_0,))
    ensures o is None ==> r is None, r is Some ==> r == o && f.ensures((&o->Some_0,), true), o is Some && r is None ==> f.ensures((&o->Some_0,), false);
pub assume_specification<T, A: core::alloc::Allocator> [Vec::<T, A>::into_boxed_slice] (v: Vec<T, A>) -> (r: Box<[T], A>)
    ensures r@ == v@;

// smallvec
pub trait Array { type Item; }
impl<T, const N: usize> Array for [T; N] { type Item = T; }
/// ASSUMED: SmallVec behaves as Vec
pub struct SmallVec<A: Array> { pub v: Vec<A::Item> }
impl<A: Array> SmallVec<A> {
    pub open spec fn view(&self) -> Seq<A::Item> { self.v@ }
    pub fn vp_from_vec(v: Vec<A::Item>) -> (r: Self) ensures r@ == v@ { SmallVec { v } }
    pub fn push(&mut self, x: A::Item) ensures final(self)@ == old(self)@.push(x) { self.v.push(x) }
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { self.v.len() }
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { self.v.len() == 0 }
    pub fn truncate(&mut self, n: usize) ensures final(self)@ == (if n < old(self)@.len() { old(self)@.take(n as int) } else { old(self)@ }) { self.v.truncate(n) }
    #[verifier::external_body]
    pub fn swap(&mut self, a: usize, b: usize)
        requires a < old(self)@.len(), b < old(self)@.len()
        ensures final(self)@ == old(self)@.update(a as int, old(self)@[b as int]).update(b as int, old(self)@[a as int])
    { self.v.swap(a, b) }
}
pub proof fn small_len<A: Array>(s: &SmallVec<A>) ensures s@.len() <= usize::MAX { let n = vstd::std_specs::vec::spec_vec_len(&s.v); }
impl<A: Array> VpAt<usize> for SmallVec<A> {
    type Out = A::Item;
    open spec fn at_ok(&self, i: usize) -> bool { i < self@.len() }
    open spec fn at_val(&self, i: usize) -> A::Item { self@[i as int] }
    fn vp_at(&self, i: usize) -> (r: &A::Item) { &self.v[i] }
}

pub assume_specification<T> [std::mem::replace] (d: &mut T, v: T) -> (r: T)
    ensures *final(d) == v, r == *old(d);
} // mod vp
pub mod vpreal { use vstd::prelude::*;
pub trait Real: Copy + PartialEq + PartialOrd + core::ops::Sub<Output = Self> + core::ops::Mul<Output = Self> + core::ops::Add<Output = Self> + core::ops::Neg<Output = Self> {
    /// the number a coordinate stands for, where arithmetic is exact
    spec fn v(&self) -> real;
    /// subtraction, multiplication and comparison of this type are exact
    spec fn exact() -> bool;
    fn zero() -> (r: Self)
        ensures Self::exact() ==> r.v() == 0real;
    fn one() -> (r: Self)
        ensures Self::exact() ==> r.v() == 1real;
    /// some positive number (which one depends on the type)
    fn epsilon() -> (r: Self)
        ensures Self::exact() ==> r.v() > 0real;
    fn is_zero(&self) -> (r: bool)
        ensures Self::exact() ==> r == (self.v() == 0real);
    fn abs(self) -> (r: Self)
        ensures Self::exact() ==> r.v() == if self.v() < 0real { -self.v() } else { self.v() };
    fn max(self, other: Self) -> (r: Self)
        ensures Self::exact() ==> r.v() == if self.v() < other.v() { other.v() } else { self.v() };
    fn min(self, other: Self) -> (r: Self)
        ensures Self::exact() ==> r.v() == if self.v() < other.v() { self.v() } else { other.v() };
    // of these nothing is known
    fn to_f32(&self) -> Option<f32>;
    fn to_f64(&self) -> Option<f64>;
    fn floor(self) -> Self;
    fn ceil(self) -> Self;
    fn round(self) -> Self;
    fn trunc(self) -> Self;
    fn fract(self) -> Self;
    fn sqrt(self) -> Self;
    fn recip(self) -> Self;
    fn mul_add(self, a: Self, b: Self) -> (r: Self)
        ensures Self::exact() ==> r.v() == self.v() * a.v() + b.v();
}
}
pub mod vpax { use vstd::prelude::*; use crate::vpreal::Real;
// ASSUMED: arithmetic on coordinates does not panic; where exact() is supposed, it is exact
pub broadcast axiom fn ax_sub_req<C: Real>(a: C, b: C)
    ensures #[trigger] vstd::std_specs::ops::SubSpec::sub_req(a, b);
pub broadcast axiom fn ax_mul_req<C: Real>(a: C, b: C)
    ensures #[trigger] vstd::std_specs::ops::MulSpec::mul_req(a, b);
pub broadcast axiom fn ax_add_req<C: Real>(a: C, b: C)
    ensures #[trigger] vstd::std_specs::ops::AddSpec::add_req(a, b);
pub broadcast axiom fn ax_neg_req<C: Real>(a: C)
    ensures #[trigger] vstd::std_specs::ops::NegSpec::neg_req(a);
pub broadcast axiom fn ax_add_o<C: Real>()
    ensures C::exact() ==> #[trigger] <C as vstd::std_specs::ops::AddSpec<C>>::obeys_add_spec();
pub broadcast axiom fn ax_neg_o<C: Real>()
    ensures C::exact() ==> #[trigger] <C as vstd::std_specs::ops::NegSpec>::obeys_neg_spec();
pub broadcast axiom fn ax_add<C: Real>(a: C, b: C)
    ensures C::exact() ==> (#[trigger] <C as vstd::std_specs::ops::AddSpec<C>>::add_spec(a, b)).v() == a.v() + b.v();
pub broadcast axiom fn ax_neg<C: Real>(a: C)
    ensures C::exact() ==> (#[trigger] <C as vstd::std_specs::ops::NegSpec>::neg_spec(a)).v() == -a.v();
pub broadcast axiom fn ax_sub_o<C: Real>()
    ensures C::exact() ==> #[trigger] <C as vstd::std_specs::ops::SubSpec<C>>::obeys_sub_spec();
pub broadcast axiom fn ax_mul_o<C: Real>()
    ensures C::exact() ==> #[trigger] <C as vstd::std_specs::ops::MulSpec<C>>::obeys_mul_spec();
pub broadcast axiom fn ax_sub<C: Real>(a: C, b: C)
    ensures C::exact() ==> (#[trigger] <C as vstd::std_specs::ops::SubSpec<C>>::sub_spec(a, b)).v() == a.v() - b.v();
pub broadcast axiom fn ax_mul<C: Real>(a: C, b: C)
    ensures C::exact() ==> (#[trigger] <C as vstd::std_specs::ops::MulSpec<C>>::mul_spec(a, b)).v() == a.v() * b.v();
pub broadcast axiom fn ax_eq_o<C: Real>()
    ensures C::exact() ==> #[trigger] <C as vstd::std_specs::cmp::PartialEqSpec<C>>::obeys_eq_spec();
pub broadcast axiom fn ax_cmp_o<C: Real>()
    ensures C::exact() ==> #[trigger] <C as vstd::std_specs::cmp::PartialOrdSpec<C>>::obeys_partial_cmp_spec();
pub broadcast axiom fn ax_eq<C: Real>(a: &C, b: &C)
    ensures C::exact() ==> (#[trigger] vstd::std_specs::cmp::PartialEqSpec::eq_spec(a, b)) == (a.v() == b.v());
pub broadcast axiom fn ax_cmp<C: Real>(a: &C, b: &C)
    ensures C::exact() ==> (#[trigger] vstd::std_specs::cmp::PartialOrdSpec::partial_cmp_spec(a, b)) == Some(if a.v() < b.v() { core::cmp::Ordering::Less } else if a.v() > b.v() { core::cmp::Ordering::Greater } else { core::cmp::Ordering::Equal });
pub broadcast group real_facts { ax_add_req, ax_neg_req, ax_add_o, ax_neg_o, ax_add, ax_neg, ax_sub_req, ax_mul_req, ax_sub_o, ax_mul_o, ax_sub, ax_mul, ax_eq_o, ax_cmp_o, ax_eq, ax_cmp }
}

//@ drop use inputs::vertex::core inputs::vertex::From@VertexExt

//@ broadcast * crate::vpax::real_facts
