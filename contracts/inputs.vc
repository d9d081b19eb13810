//@ drop inputs::polygon_list::private
//@ in inputs::polygon_list::PolygonList
    /// what a polygon list has to be for its enumeration to make sense (user-written lists: `true`, and the contracts below)
    spec fn list_ok(&self) -> bool;
    /// what the enumeration yields
    spec fn items(&self) -> Seq<Self::IntoItem>;
//@ fn inputs::polygon_list::PolygonList::iter_indices -> r
    requires self.list_ok()
    ensures r.rest() == self.items(), // @C08
        forall|k: int| 0 <= k < self.items().len() ==> match #[trigger] crate::vp::into_val::<Self::IntoItem, PolygonElement<Self::Index>>(self.items()[k]) { PolygonElement::ContinuePolygon(i) => self.yields(i), PolygonElement::NewPolygon => true }, // @C04 C08
//@ fn inputs::polygon_list::PolygonList::vertex_count -> r
    requires self.list_ok()
    ensures r <= usize::MAX / 8, // @C04
        r == g_listed(self.items().map_values(|a: Self::IntoItem| crate::vp::into_val::<Self::IntoItem, PolygonElement<Self::Index>>(a))), // @C08
//@ fn inputs::polygon_list::PolygonListExt::new -> r
    ensures r.0 == p
//@ fn inputs::polygon_list::Clone@PolygonListExt::clone -> r
    ensures r == *self
//@ fn inputs::polygon_list::PolygonListExt::vertex_count -> r
    requires self.0.list_ok()
    ensures r <= usize::MAX / 8
//@ fn inputs::polygon_list::PolygonListExt::iter_polygon_vertices -> r
    requires self.0.list_ok()
    ensures r.rest() == self.0.items(), forall|k: int| 0 <= k < self.0.items().len() ==> match #[trigger] crate::vp::into_val::<P::IntoItem, PolygonElement<P::Index>>(self.0.items()[k]) { PolygonElement::ContinuePolygon(i) => self.0.yields(i), PolygonElement::NewPolygon => true }
//@ in inputs::polygon_list::Index@PolygonListExt
    open spec fn at_ok(&self, i: P::Index) -> bool { self.0.yields(i) }
    open spec fn at_val(&self, i: P::Index) -> VertexExt<P::Vertex> { VertexExt(self.0.vertex_at(i)) }
//@ mod inputs::polygon_list
/// how many vertices an enumeration lists
pub open spec fn g_listed<I: VertexIndex>(e: Seq<PolygonElement<I>>) -> nat decreases e.len() {
    if e.len() == 0 { 0 } else { g_listed(e.drop_last()) + if e.last() is ContinuePolygon { 1nat } else { 0 } }
}
// ------------------------------------------------------------------ one polygon
//@ in inputs::polygon_list::Polygon
    spec fn p_items(&self) -> Seq<Self::Index>;
    spec fn p_yields(&self, vi: Self::Index) -> bool;
    spec fn p_vertex_at(&self, vi: Self::Index) -> Self::Vertex;
//@ fn inputs::polygon_list::Polygon::vertex_count -> r
    ensures r == self.p_items().len() // @C08
//@ fn inputs::polygon_list::Polygon::iter_indices -> r
    ensures r.rest() == self.p_items(), // @C08
        forall|k: int| 0 <= k < self.p_items().len() ==> self.p_yields(#[trigger] self.p_items()[k]), // @C04 C08
//@ fn inputs::polygon_list::Polygon::get_vertex -> r
    requires self.p_yields(index)
    ensures *r == self.p_vertex_at(index) // @C08
//@ in inputs::polygon_list::Polygon@T
    open spec fn p_items(&self) -> Seq<usize> { Seq::new(self.elems().len(), |j: int| j as usize) }
    open spec fn p_yields(&self, vi: usize) -> bool { vi < self.elems().len() }
    open spec fn p_vertex_at(&self, vi: usize) -> V { self.elems()[vi as int] }
//@ in inputs::polygon_list::PolygonList@SinglePolygon
    open spec fn list_ok(&self) -> bool { self.0.p_items().len() <= usize::MAX / 8 }
    open spec fn items(&self) -> Seq<P::Index> { self.0.p_items() }
    open spec fn yields(&self, vi: P::Index) -> bool { self.0.p_yields(vi) }
    open spec fn vertex_at(&self, vi: P::Index) -> P::Vertex { self.0.p_vertex_at(vi) }
//@ free inputs::polygon_list::PolygonList::index_with inputs::polygon_list::Polygon::index_with inputs::polygon_list::Polygon::as_polygon_list inputs::polygon_list::Polygon::trapezoidize inputs::polygon_list::Polygon::triangulate
//@ external inputs::polygon_list::Polygon::as_polygon_list
//@ fn inputs::polygon_list::Polygon::as_polygon_list -> r
    ensures r.0 == *self_
// ------------------------------------------------------------------ a list of lists
//@ in inputs::polygon_list::PolygonList@D
    open spec fn list_ok(&self) -> bool { rows_ok(self.elems()) && g_listed(g_rows(self.elems(), 0)) <= usize::MAX / 8 }
    open spec fn items(&self) -> Seq<PolygonElement<[usize; 2]>> { g_rows(self.elems(), 0) }
    open spec fn yields(&self, vi: [usize; 2]) -> bool { vi[0] < self.elems().len() && self.elems()[vi[0] as int].p_yields(vi[1]) }
    open spec fn vertex_at(&self, vi: [usize; 2]) -> V { self.elems()[vi[0] as int].p_vertex_at(vi[1]) }
//@ in inputs::polygon_list::Iterator@VecVecIter
    open spec fn rest(&self) -> Seq<PolygonElement<[usize; 2]>> {
        if self.outer_index >= self.parent@.len() { Seq::empty() }
        else { let n = self.parent@[self.outer_index as int].p_items().len(); g_row(self.outer_index as int, n).skip(if self.inner_index <= n { self.inner_index as int } else { n as int }) + g_rows(self.parent@, self.outer_index + 1) }
    }
//@ fn inputs::polygon_list::VecVecIter::new -> r
    ensures r.rest() == g_rows(parent@, 0)
//@ mod inputs::polygon_list
/// polygon i of a list of lists, whose indices are 0..n, and the separator behind it
pub open spec fn g_row(i: int, n: nat) -> Seq<PolygonElement<[usize; 2]>> { Seq::new(n, |j: int| PolygonElement::ContinuePolygon([i as usize, j as usize])).push(PolygonElement::NewPolygon) }
pub open spec fn g_rows<'p, V: Vertex, P: Polygon<'p, Index = usize, Vertex = V>>(ps: Seq<P>, i: int) -> Seq<PolygonElement<[usize; 2]>> decreases ps.len() - i {
    if i < 0 || i >= ps.len() { Seq::empty() } else { g_row(i, ps[i].p_items().len()) + g_rows(ps, i + 1) }
}
/// every position below the count is an index
pub open spec fn rows_ok<'p, V: Vertex, P: Polygon<'p, Index = usize, Vertex = V>>(ps: Seq<P>) -> bool {
    &&& ps.len() <= usize::MAX // (true of every slice, like the next line of every polygon)
    &&& forall|i: int| 0 <= i < ps.len() ==> (#[trigger] ps[i]).p_items().len() <= usize::MAX
    &&& forall|i: int, j: usize| 0 <= i < ps.len() && j < ps[i].p_items().len() ==> #[trigger] ps[i].p_yields(j)
}
/// a row lists its vertices
pub proof fn lem_row(i: int, n: nat)
    ensures g_listed(g_row(i, n)) == n
{
    let s = Seq::new(n, |j: int| PolygonElement::ContinuePolygon([i as usize, j as usize]));
    assert(g_row(i, n).drop_last() =~= s); lem_all(s);
}
pub proof fn lem_all<I: VertexIndex>(s: Seq<PolygonElement<I>>)
    requires forall|j: int| 0 <= j < s.len() ==> (#[trigger] s[j]) is ContinuePolygon
    ensures g_listed(s) == s.len()
    decreases s.len()
{ if s.len() > 0 { lem_all(s.drop_last()); } }
pub proof fn lem_cat<I: VertexIndex>(a: Seq<PolygonElement<I>>, b: Seq<PolygonElement<I>>)
    ensures g_listed(a + b) == g_listed(a) + g_listed(b)
    decreases b.len()
{ if b.len() == 0 { assert(a + b =~= a); } else { assert((a + b).drop_last() =~= a + b.drop_last()); lem_cat(a, b.drop_last()); } }
pub proof fn lem_front(ns: Seq<usize>)
    requires ns.len() > 0
    ensures crate::vp::seq_sum(ns) == ns[0] + crate::vp::seq_sum(ns.skip(1))
    decreases ns.len()
{
    if ns.len() > 1 { lem_front(ns.drop_last()); assert(ns.drop_last().skip(1) =~= ns.skip(1).drop_last()); }
    else { assert(ns.drop_last() =~= Seq::empty()); assert(ns.skip(1) =~= Seq::empty()); }
}
//@ tattr inputs::polygon_list::VecVecIter #[verifier::reject_recursive_types(V)] #[verifier::reject_recursive_types(P)]
//@ fn inputs::polygon_list::PolygonList@SinglePolygon::vertex_count -> r
//@ start
    proof {
        let e = self.items().map_values(|a: P::Index| crate::vp::into_val::<P::Index, PolygonElement<P::Index>>(a));
        assert forall|j: int| 0 <= j < e.len() implies (#[trigger] e[j]) is ContinuePolygon by { crate::vp::into_from::<P::Index, PolygonElement<P::Index>>(self.0.p_items()[j]); }
        lem_all(e);
    }
//@ fn inputs::polygon_list::PolygonList@SinglePolygon::iter_indices -> r
//@ start
    proof { assert forall|j: int| 0 <= j < self.items().len() implies #[trigger] crate::vp::into_val::<P::Index, PolygonElement<P::Index>>(self.items()[j]) == PolygonElement::ContinuePolygon(self.items()[j]) by { crate::vp::into_from::<P::Index, PolygonElement<P::Index>>(self.items()[j]); } }
//@ fn inputs::polygon_list::PolygonList@D::vertex_count -> r
//@ start
    proof {
        let e = self.items();
        assert(e.map_values(|a: PolygonElement<[usize; 2]>| crate::vp::into_val::<PolygonElement<[usize; 2]>, PolygonElement<[usize; 2]>>(a)) =~= e) by {
            assert forall|j: int| 0 <= j < e.len() implies #[trigger] crate::vp::into_val::<PolygonElement<[usize; 2]>, PolygonElement<[usize; 2]>>(e[j]) == e[j] by { crate::vp::into_self(e[j]); }
        }
        lem_counts(self.elems());
    }
//@ after .map(|p|
 -> (vp_n: usize) ensures vp_n == p.p_items().len()
//@ fn inputs::polygon_list::PolygonList@D::iter_indices -> r
//@ start
    proof { lem_in(self.elems(), 0); }
//@ fn inputs::polygon_list::Polygon::trapezoidize -> r
    requires self_.p_items().len() <= usize::MAX / 8
    ensures
        r is Ok ==> r->Ok_0.ok() && r->Ok_0.ps.0.0 == *self_, // @C04
        r is Ok ==> crate::trapezoidation::holds(r->Ok_0.ns@, r->Ok_0.ss@, crate::trapezoidation::g_polys(crate::trapezoidation::g_elements(r->Ok_0.ps.0))), // @C01 C03 C08 C10
//@ fn inputs::polygon_list::Polygon::triangulate -> r
    requires format.fmt_ok(), self_.p_items().len() <= usize::MAX / 8
    ensures
        r is Ok ==> exists|p: &'p SinglePolygon<'p, VpS>, log: Seq<Seq<VpS::Index>>| p.0 == *self_ && log.len() > 0 && #[trigger] crate::trapezoidation::good_log::<SinglePolygon<'p, VpS>, FB>(p, log) && FB::Builder::built(format.fmt_base(p), log, r->Ok_0), // @C01 C02 C03 C05 C06
        r is Err ==> exists|p: &'p SinglePolygon<'p, VpS>| p.0 == *self_ && #[trigger] <FB::Builder as FanBuilder<'p, SinglePolygon<'p, VpS>>>::kept(format.fmt_base(p)), // @C07
//@ mod inputs::polygon_list
/// what the counts of the first polygons add up to, for any list of their counts
pub proof fn lem_counts<'p, V: Vertex, P: Polygon<'p, Index = usize, Vertex = V>>(ps: Seq<P>)
    ensures
        forall|ns: Seq<usize>| ns.len() <= ps.len() && (forall|k: int| 0 <= k < ns.len() ==> ns[k] == ps[k].p_items().len()) ==> #[trigger] crate::vp::seq_sum(ns) <= g_listed(g_rows(ps, 0)),
        forall|ns: Seq<usize>| ns.len() == ps.len() && (forall|k: int| 0 <= k < ns.len() ==> ns[k] == ps[k].p_items().len()) ==> #[trigger] crate::vp::seq_sum(ns) == g_listed(g_rows(ps, 0)),
{
    assert forall|ns: Seq<usize>| ns.len() <= ps.len() && (forall|k: int| 0 <= k < ns.len() ==> ns[k] == ps[k].p_items().len()) implies #[trigger] crate::vp::seq_sum(ns) <= g_listed(g_rows(ps, 0)) && (ns.len() == ps.len() ==> crate::vp::seq_sum(ns) == g_listed(g_rows(ps, 0))) by { lem_part(ps, 0, ns); }
}
pub proof fn lem_part<'p, V: Vertex, P: Polygon<'p, Index = usize, Vertex = V>>(ps: Seq<P>, i: int, ns: Seq<usize>)
    requires 0 <= i <= ps.len(), ns.len() <= ps.len() - i, forall|k: int| 0 <= k < ns.len() ==> #[trigger] ns[k] == ps[i + k].p_items().len()
    ensures crate::vp::seq_sum(ns) <= g_listed(g_rows(ps, i)), ns.len() == ps.len() - i ==> crate::vp::seq_sum(ns) == g_listed(g_rows(ps, i))
    decreases ps.len() - i
{
    if i < ps.len() {
        lem_row(i, ps[i].p_items().len()); lem_cat(g_row(i, ps[i].p_items().len()), g_rows(ps, i + 1));
        if ns.len() > 0 { lem_part(ps, i + 1, ns.skip(1)); lem_front(ns); }
    }
}
/// every index the rows list is an index
pub proof fn lem_in<'p, V: Vertex, P: Polygon<'p, Index = usize, Vertex = V>>(ps: Seq<P>, i: int)
    requires 0 <= i <= ps.len() <= usize::MAX, rows_ok(ps)
    ensures forall|k: int| 0 <= k < g_rows(ps, i).len() ==> match #[trigger] crate::vp::into_val::<PolygonElement<[usize; 2]>, PolygonElement<[usize; 2]>>(g_rows(ps, i)[k]) { PolygonElement::ContinuePolygon(x) => x[0] < ps.len() && ps[x[0] as int].p_yields(x[1]), PolygonElement::NewPolygon => true }
    decreases ps.len() - i
{
    if i < ps.len() {
        lem_in(ps, i + 1);
        let n = ps[i].p_items().len();
        assert forall|k: int| 0 <= k < g_rows(ps, i).len() implies match #[trigger] crate::vp::into_val::<PolygonElement<[usize; 2]>, PolygonElement<[usize; 2]>>(g_rows(ps, i)[k]) { PolygonElement::ContinuePolygon(x) => x[0] < ps.len() && ps[x[0] as int].p_yields(x[1]), PolygonElement::NewPolygon => true } by {
            let e = g_rows(ps, i)[k]; crate::vp::into_self(e);
            if k < n { assert(e == PolygonElement::ContinuePolygon([i as usize, k as usize])); assert(ps[i].p_yields(k as usize)); }
            else if k > n { assert(e == g_rows(ps, i + 1)[k - n - 1]); crate::vp::into_self(g_rows(ps, i + 1)[k - n - 1]); }
        }
    }
}
//@ mod trapezoidation
/// a separator next to a separator, in front of everything or behind the last one, and so an empty polygon, adds no polygon and changes none
pub proof fn lem_separators<I: VertexIndex>(a: Seq<PolygonElement<I>>, b: Seq<PolygonElement<I>>)
    requires a.len() == 0 || a.last() is NewPolygon
    ensures g_polys(a.push(PolygonElement::NewPolygon) + b) == g_polys(a + b), g_cur(a.push(PolygonElement::NewPolygon) + b) == g_cur(a + b) // @C08 C10
    decreases b.len()
{
    let s = a.push(PolygonElement::NewPolygon);
    if b.len() == 0 {
        assert(s + b =~= s); assert(a + b =~= a); assert(s.drop_last() =~= a);
        assert(g_cur(s) =~= Seq::empty()); assert(g_cur(a) =~= Seq::empty());
    } else {
        assert((s + b).drop_last() =~= s + b.drop_last()); assert((a + b).drop_last() =~= a + b.drop_last());
        lem_separators(a, b.drop_last());
    }
}
/// the polygons of a list of lists are its nonempty rows, in order
pub open spec fn indices(i: int, n: nat) -> Seq<[usize; 2]> { Seq::new(n, |j: int| [i as usize, j as usize]) }
pub open spec fn nonempty(from: int, ns: Seq<nat>) -> Seq<Seq<[usize; 2]>> decreases ns.len() {
    if ns.len() == 0 { Seq::empty() } else if ns.last() > 0 { nonempty(from, ns.drop_last()).push(indices(from + ns.len() - 1, ns.last())) } else { nonempty(from, ns.drop_last()) }
}
pub open spec fn rows_of(from: int, ns: Seq<nat>) -> Seq<PolygonElement<[usize; 2]>> decreases ns.len() {
    if ns.len() == 0 { Seq::empty() } else { rows_of(from, ns.drop_last()) + crate::inputs::polygon_list::g_row(from + ns.len() - 1, ns.last()) }
}
pub proof fn lem_polys_row(a: Seq<PolygonElement<[usize; 2]>>, i: int, n: nat, m: nat)
    requires m <= n, a.len() == 0 || a.last() is NewPolygon
    ensures g_polys(a + crate::inputs::polygon_list::g_row(i, n).take(m as int)) == g_polys(a), g_cur(a + crate::inputs::polygon_list::g_row(i, n).take(m as int)) == indices(i, m)
    decreases m
{
    let r = crate::inputs::polygon_list::g_row(i, n); let e = a + r.take(m as int);
    if m == 0 { assert(e =~= a); assert(g_cur(a) =~= indices(i, 0)); }
    else {
        assert(e.drop_last() =~= a + r.take(m - 1)); lem_polys_row(a, i, n, (m - 1) as nat);
        assert(e.last() == r[m - 1]); assert(indices(i, m) =~= indices(i, (m - 1) as nat).push([i as usize, (m - 1) as usize]));
    }
}
pub proof fn lem_polys_rows(from: int, ns: Seq<nat>)
    ensures g_polys(rows_of(from, ns)) == nonempty(from, ns), ns.len() > 0 ==> rows_of(from, ns).len() > 0 && rows_of(from, ns).last() is NewPolygon // @C08 C10
    decreases ns.len()
{
    if ns.len() > 0 {
        let a = rows_of(from, ns.drop_last()); let i = from + ns.len() - 1; let n = ns.last(); let r = crate::inputs::polygon_list::g_row(i, n);
        lem_polys_rows(from, ns.drop_last());
        if ns.len() == 1 { assert(a =~= Seq::empty()); }
        lem_polys_row(a, i, n, n);
        let e = a + r;
        assert(e.drop_last() =~= a + r.take(n as int)); assert(e.last() == r[n as int]);
    }
}
// ------------------------------------------------------------------ another index type
//@ in mappable::Mappable
    /// every component of type T replaced by what g makes of it
    spec fn g_mapped(self, g: spec_fn(T) -> U) -> Self::Output;
//@ fn mappable::Mappable::map -> r
    requires forall|t: T| #[trigger] f.requires((t,))
    ensures forall|g: spec_fn(T) -> U| (forall|t: T, u: U| #[trigger] f.ensures((t,), u) ==> u == g(t)) ==> r == #[trigger] self.g_mapped(g) // @C09
//@ in mappable::Mappable@T
    open spec fn g_mapped(self, g: spec_fn(T) -> U) -> U { g(self) }
//@ in mappable::Mappable@[T;N]
    open spec fn g_mapped(self, g: spec_fn(T) -> U) -> [U; N] { crate::vp::arr_mapped(self, g) }
//@ sub mappable::Mappable@[T;N]::map self.map(f) => crate::vp::array_map(self, f)
//@ in mappable::Mappable@(T,T)
    open spec fn g_mapped(self, g: spec_fn(T) -> U) -> (U, U) { (g(self.0), g(self.1)) }
//@ in mappable::Mappable@(T,T,T)
    open spec fn g_mapped(self, g: spec_fn(T) -> U) -> (U, U, U) { (g(self.0), g(self.1), g(self.2)) }
//@ in mappable::Mappable@Vec
    open spec fn g_mapped(self, g: spec_fn(T) -> U) -> Vec<U> { crate::vp::vec_mapped(self, g) }
//@ sub mappable::Mappable@Vec::map Iterator::map(self.into_iter(), f).collect() => crate::vp::vec_map(self, f)
//@ external inputs::polygon_list::conversion_panic
//@ fn inputs::polygon_list::conversion_panic -> r
    ensures false
//@ tattr inputs::polygon_list::IndexWith #[verifier::reject_recursive_types(P)] #[verifier::reject_recursive_types(OldIndex)] #[verifier::reject_recursive_types(Old)] #[verifier::reject_recursive_types(New)]
//@ tattr inputs::polygon_list::IndexWithIter #[verifier::reject_recursive_types(Iter)] #[verifier::reject_recursive_types(OldIndex)] #[verifier::reject_recursive_types(Old)] #[verifier::reject_recursive_types(New)]
//@ fn inputs::polygon_list::SinglePolygon::new -> r
    ensures r.0 == polygon
//@ fn inputs::polygon_list::IndexWith::new -> r
    ensures r.0 == polygon_list
//@ fn inputs::polygon_list::PolygonList::index_with -> r
    ensures r.0 == self_ // @C09
//@ fn inputs::polygon_list::Polygon::index_with -> r
    ensures r.0.0 == self_ // @C09
//@ in inputs::polygon_list::IndexWithIter
    pub open spec fn left(&self) -> Seq<PolygonElement<<OldIndex as crate::Mappable<Old, New>>::Output>> { g_recode::<Iter::Item, OldIndex, Old, New>(self.iter.rest()) }
//@ fn inputs::polygon_list::IndexWithIter::new -> r
    ensures r.left() == g_recode::<Iter::Item, OldIndex, Old, New>(iter.rest())
//@ in inputs::polygon_list::Iterator@IndexWithIter
    open spec fn rest(&self) -> Seq<PolygonElement<<OldIndex as crate::Mappable<New, In>>::Output>> { g_recode::<Iter::Item, OldIndex, New, In>(self.iter.rest()) }
//@ sub inputs::polygon_list::Iterator@IndexWithIter::next into_polygon_vertex.into() => crate::vp::do_into(into_polygon_vertex)
//@ fn inputs::polygon_list::Iterator@IndexWithIter::next -> r
//@ after index.map(|i|
 -> (vp_u: In) ensures vp_u == crate::vp::try_val::<New, In>(i)
//@ mod inputs::polygon_list
/// an enumeration with its indices converted
pub open spec fn g_recode_one<I, OldIndex: VertexIndex + crate::Mappable<Old, New>, Old, New>(x: I) -> PolygonElement<<OldIndex as crate::Mappable<Old, New>>::Output>
    where <OldIndex as crate::Mappable<Old, New>>::Output: VertexIndex
{
    match crate::vp::into_val::<I, PolygonElement<OldIndex>>(x) { PolygonElement::ContinuePolygon(i) => PolygonElement::ContinuePolygon(there::<OldIndex, Old, New>(i)), PolygonElement::NewPolygon => PolygonElement::NewPolygon }
}
pub open spec fn g_recode<I, OldIndex: VertexIndex + crate::Mappable<Old, New>, Old, New>(s: Seq<I>) -> Seq<PolygonElement<<OldIndex as crate::Mappable<Old, New>>::Output>>
    where <OldIndex as crate::Mappable<Old, New>>::Output: VertexIndex
{ s.map_values(|x: I| g_recode_one::<I, OldIndex, Old, New>(x)) }
/// every component of an index converted
pub open spec fn there<I: crate::Mappable<A, B>, A, B>(i: I) -> <I as crate::Mappable<A, B>>::Output { i.g_mapped(crate::vp::conv::<A, B>()) }
//@ in inputs::polygon_list::PolygonList@IndexWith
    open spec fn list_ok(&self) -> bool {
        &&& self.0.list_ok()
        // the conversion of an index and its conversion back cancel (an index that does not fit panics)
        &&& forall|i: OldIndex| self.0.yields(i) ==> there::<<OldIndex as crate::Mappable<Old, New>>::Output, New, Old>(#[trigger] there::<OldIndex, Old, New>(i)) == i
    }
    open spec fn items(&self) -> Seq<PolygonElement<<OldIndex as crate::Mappable<Old, New>>::Output>> { g_recode::<P::IntoItem, OldIndex, Old, New>(self.0.items()) }
    open spec fn yields(&self, vi: <OldIndex as crate::Mappable<Old, New>>::Output) -> bool { self.0.yields(there::<<OldIndex as crate::Mappable<Old, New>>::Output, New, Old>(vi)) }
    open spec fn vertex_at(&self, vi: <OldIndex as crate::Mappable<Old, New>>::Output) -> P::Vertex { self.0.vertex_at(there::<<OldIndex as crate::Mappable<Old, New>>::Output, New, Old>(vi)) }
//@ fn inputs::polygon_list::PolygonList@IndexWith::get_vertex -> r
//@ after map(index, |t|
 -> (vp_u: Old) ensures vp_u == crate::vp::try_val::<New, Old>(t)
//@ fn inputs::polygon_list::PolygonList@IndexWith::vertex_count -> r
//@ start
    proof {
        let e1 = self.0.items().map_values(|a: P::IntoItem| crate::vp::into_val::<P::IntoItem, PolygonElement<OldIndex>>(a));
        let e2 = self.items().map_values(|a: PolygonElement<<OldIndex as crate::Mappable<Old, New>>::Output>| crate::vp::into_val::<PolygonElement<<OldIndex as crate::Mappable<Old, New>>::Output>, PolygonElement<<OldIndex as crate::Mappable<Old, New>>::Output>>(a));
        assert forall|k: int| 0 <= k < e1.len() implies (#[trigger] e1[k] is ContinuePolygon <==> e2[k] is ContinuePolygon) by { crate::vp::into_self(self.items()[k]); }
        lem_listed_same(e1, e2);
    }
//@ fn inputs::polygon_list::PolygonList@IndexWith::iter_indices -> r
//@ start
    proof {
        assert forall|k: int| 0 <= k < self.items().len() implies #[trigger] crate::vp::into_val::<PolygonElement<<OldIndex as crate::Mappable<Old, New>>::Output>, PolygonElement<<OldIndex as crate::Mappable<Old, New>>::Output>>(self.items()[k]) == g_recode_one::<P::IntoItem, OldIndex, Old, New>(self.0.items()[k]) by { crate::vp::into_self(self.items()[k]); }
    }
//@ mod inputs::polygon_list
pub proof fn lem_listed_same<I: VertexIndex, J: VertexIndex>(a: Seq<PolygonElement<I>>, b: Seq<PolygonElement<J>>)
    requires a.len() == b.len(), forall|k: int| 0 <= k < a.len() ==> (#[trigger] a[k] is ContinuePolygon <==> b[k] is ContinuePolygon)
    ensures g_listed(a) == g_listed(b)
    decreases a.len()
{ if a.len() > 0 { lem_listed_same(a.drop_last(), b.drop_last()); } }
