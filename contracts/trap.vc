//@ tattr idx::Idx #[verifier::accept_recursive_types(T)]
// ------------------------------------------------------------------ indices of the trapezoidation's vectors
// not used outside debug assertions, or not at all
//@ drop idx::IdxDisplay idx::SliceIndexIter idx::Iterator@SliceIndexIter idx::SliceExt::iter_index idx::SliceExt@[T]::iter_index idx::SliceExt@Vec::iter_index
//@ drop idx::Idx::advance_wrapped idx::Idx::next_wrapped idx::Idx::recede_wrapped idx::Idx::prev_wrapped idx::Idx::advance idx::Idx::recede
//@ drop idx::cmp::PartialEq<usize>@Idx<T> idx::PartialEq@usize idx::PartialOrd@Idx idx::Ord@Idx idx::ops::Add@Idx<T> idx::ops::Sub@Idx<T> idx::ops::Sub<usize>@Idx<T>
//@ mod idx
pub trait IdxDisplay { }
impl<T> vstd::std_specs::cmp::PartialEqSpecImpl for Idx<T> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o }
}
impl<T> vstd::std_specs::ops::AddSpecImpl<usize> for Idx<T> {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, rhs: usize) -> bool { 0 <= self.ix() && self.ix() + rhs < usize::MAX }
    open spec fn add_spec(self, rhs: usize) -> Self { Idx(crate::vp::NonZeroUsize { v: (self.0.v + rhs) as usize }, PhantomData) }
}
/// an index into a container of this length
pub open spec fn inb<T>(i: Idx<T>, n: nat) -> bool { 0 <= i.ix() < n }
pub open spec fn opt_inb<T>(i: Option<Idx<T>>, n: nat) -> bool { i is Some ==> inb(i->Some_0, n) }
//@ in idx::Idx
    pub open spec fn ix(&self) -> int { self.0.v - 1 }
//@ fn idx::Idx::new -> r
    requires index < usize::MAX
    ensures r.ix() == index, // @C04
//@ fn idx::Idx::usize -> r
    requires 0 <= self.ix()
    ensures r == self.ix(), // @C04
//@ fn idx::Clone@Idx::clone -> r
    ensures r == *self
//@ in idx::Index@Vec
    open spec fn at_ok(&self, i: Idx<T>) -> bool { inb(i, self@.len()) }
    open spec fn at_val(&self, i: Idx<T>) -> T { self@[i.ix()] }
//@ in idx::IndexMut@Vec
    open spec fn at_set(&self, i: Idx<T>, v: T, n: &Self) -> bool { n@ == self@.update(i.ix(), v) }
//@ in idx::Index@[T]
    open spec fn at_ok(&self, i: Idx<T>) -> bool { inb(i, self@.len()) }
    open spec fn at_val(&self, i: Idx<T>) -> T { self@[i.ix()] }
//@ in idx::IndexMut@[T]
    open spec fn at_set(&self, i: Idx<T>, v: T, n: &Self) -> bool { n@ == self@.update(i.ix(), v) }
//@ in idx::VecExt
    spec fn items(&self) -> Seq<T>;
//@ in idx::VecExt@Vec
    open spec fn items(&self) -> Seq<T> { self@ }
//@ fn idx::VecExt::push_get_index -> r
    requires old(self).items().len() < usize::MAX
    ensures r.ix() == old(self).items().len(), final(self).items() == old(self).items().push(value)
//@ fn idx::VecExt::next_index -> r
    requires self.items().len() < usize::MAX
    ensures r.ix() == self.items().len()

// ------------------------------------------------------------------ segments
//@ in segment::Segment
    pub open spec fn s_ok(&self, nn: nat) -> bool { inb(self.ni_min, nn) && inb(self.ni_max, nn) }
//@ fn segment::Segment::new -> r
    ensures r.ni_min == ni_min, r.ni_max == ni_max, r.c_min == c_min, r.c_max == c_max
//@ fn segment::Segment::ni_min -> r
    ensures r == self.ni_min
//@ fn segment::Segment::ni_max -> r
    ensures r == self.ni_max
//@ fn segment::Segment::is_on_left -> r
    ensures V::Coordinate::exact() && self.c_min.vy() <= self.c_max.vy() ==> r == crate::math::left_exact(self.c_min, self.c_max, c)
//@ mod segment
use crate::idx::inb;

// ------------------------------------------------------------------ query nodes
//@ drop querynode::IndexedQueryNode
//@ in querynode::QueryNode
    pub open spec fn q_ok(&self, nq: nat, nt: nat) -> bool {
        match *self {
            QueryNode::Branch(l, r, _) => inb(l, nq) && inb(r, nq),
            QueryNode::Sink(t) => inb(t, nt),
        }
    }
//@ mod querynode
use crate::idx::inb;
//@ fn querynode::QueryNode::root -> r
    ensures r == Self::Sink(ti)
//@ fn querynode::QueryNode::branch_x -> r
    ensures r.0 == *old(self), r.1 == Self::Sink(ti_right), *final(self) == Self::Branch(qi_left, qi_right, QueryNodeBranch::X(c_min_x, c_max_x))
//@ fn querynode::QueryNode::branch_y -> r
    ensures r.0 == *old(self), r.1 == Self::Sink(ti_up), *final(self) == Self::Branch(qi_left, qi_right, QueryNodeBranch::Y(c_y))
//@ fn querynode::QueryNode::merge_x -> r
    ensures r == *old(self), *final(self) == Self::Branch(qi_left, qi_right, QueryNodeBranch::X(c_min_x, c_max_x))
//@ fn querynode::QueryNode::branch -> r
    ensures r == *old(self), *final(self) == Self::Branch(qi_left, qi_right, branch)

// ------------------------------------------------------------------ trapezoids
//@ in trapezoid::Trapezoid
    pub open spec fn t_ok(&self, nn: nat, ns: nat, nq: nat) -> bool {
        opt_inb(self.left, ns) && opt_inb(self.right, ns) && opt_inb(self.down, nn) && opt_inb(self.up, nn) && inb(self.sink, nq)
    }
//@ mod trapezoid
use crate::idx::{inb, opt_inb};
//@ fn trapezoid::Trapezoid::all -> r
    ensures r == (Trapezoid { left: None, right: None, down: None, up: None, sink })
//@ fn trapezoid::Trapezoid::split_vertical -> r
    ensures r == (Trapezoid { left: Some(si), sink: qi_right, ..*old(self) }), *final(self) == (Trapezoid { right: Some(si), sink: qi_left, ..*old(self) })
//@ fn trapezoid::Trapezoid::split_horizontal -> r
    ensures r == (Trapezoid { down: Some(ni), sink: qi_up, ..*old(self) }), *final(self) == (Trapezoid { up: Some(ni), sink: qi_down, ..*old(self) })
//@ fn trapezoid::Trapezoid::set_down
    ensures *final(self) == (Trapezoid { down: Some(ni), ..*old(self) })
//@ fn trapezoid::Trapezoid::set_left
    ensures *final(self) == (Trapezoid { left: Some(si), ..*old(self) })
//@ fn trapezoid::Trapezoid::set_right
    ensures *final(self) == (Trapezoid { right: Some(si), ..*old(self) })
//@ fn trapezoid::Trapezoid::set_sink
    ensures *final(self) == (Trapezoid { sink: qi, ..*old(self) })
//@ fn trapezoid::Trapezoid::left -> r
    ensures r == self.left
//@ fn trapezoid::Trapezoid::right -> r
    ensures r == self.right
//@ fn trapezoid::Trapezoid::up -> r
    ensures r == self.up
//@ fn trapezoid::Trapezoid::down -> r
    ensures r == self.down
//@ fn trapezoid::Trapezoid::sink -> r
    ensures r == self.sink

// ------------------------------------------------------------------ nexuses
//@ drop nexus::NexusTrapezoidIter nexus::Iterator@NexusTrapezoidIter nexus::Nexus::iter_up_trapezoids nexus::Nexus::iter_down_trapezoids nexus::Nexus::up_trapezoids nexus::Nexus::down_trapezoids nexus::Nexus::filter_trapezoids
//@ fn nexus::Divider::new -> r
    ensures r == (Divider { si, ti_right, direction })
//@ mod nexus
use crate::idx::inb;
pub open spec fn is_dir<V: Vertex, Index: VertexIndex>(direction: DividerDirection) -> spec_fn(Divider<V, Index>) -> bool { |d: Divider<V, Index>| d.direction == direction }
/// left to right at its upper or lower side
pub open spec fn g_sides<V: Vertex, Index: VertexIndex>(z: Zot<Divider<V, Index>>, direction: DividerDirection) -> Zot<Divider<V, Index>> {
    match z {
        Zot::Zero => Zot::Zero,
        Zot::One(a) => if a.direction == direction { Zot::One(a) } else { Zot::Zero },
        Zot::Two(a, b) => if a.direction == direction { if b.direction == direction { Zot::Two(a, b) } else { Zot::One(a) } } else { if b.direction == direction { Zot::One(b) } else { Zot::Zero } },
    }
}
//@ in nexus::Nexus
    pub open spec fn n_ok(&self, ns: nat, nt: nat) -> bool {
        &&& inb(self.ti_upleft, nt) && inb(self.ti_downleft, nt)
        &&& match self.dividers {
            Zot::Zero => true,
            Zot::One(a) => inb(a.si, ns) && inb(a.ti_right, nt),
            Zot::Two(a, b) => inb(a.si, ns) && inb(a.ti_right, nt) && inb(b.si, ns) && inb(b.ti_right, nt),
        }
    }
    /// the leftmost trapezoid on that side
    pub open spec fn g_leftmost(&self, direction: DividerDirection) -> Idx<Trapezoid<V, Index>> { if direction == DividerDirection::Ascending { self.ti_upleft } else { self.ti_downleft } }
    /// the rightmost one
    pub open spec fn g_rightmost(&self, direction: DividerDirection) -> Idx<Trapezoid<V, Index>> {
        match g_sides(self.dividers, direction) { Zot::Zero => self.g_leftmost(direction), Zot::One(a) => a.ti_right, Zot::Two(_, b) => b.ti_right }
    }
    /// it is listed on that side
    pub open spec fn g_lists(&self, direction: DividerDirection, ti: Idx<Trapezoid<V, Index>>) -> bool {
        self.g_leftmost(direction) == ti || match self.dividers {
            Zot::Zero => false,
            Zot::One(a) => a.direction == direction && a.ti_right == ti,
            Zot::Two(a, b) => a.direction == direction && a.ti_right == ti || b.direction == direction && b.ti_right == ti,
        }
    }
    pub open spec fn g_above(&self, ti: Idx<Trapezoid<V, Index>>) -> bool { self.g_lists(DividerDirection::Ascending, ti) }
    pub open spec fn g_below(&self, ti: Idx<Trapezoid<V, Index>>) -> bool { self.g_lists(DividerDirection::Descending, ti) }
    /// no trapezoid is listed twice below it, and the dividers above come first
    pub open spec fn once(&self) -> bool {
        match self.dividers {
            Zot::Zero => true,
            Zot::One(a) => a.direction == DividerDirection::Descending ==> a.ti_right != self.ti_downleft,
            Zot::Two(a, b) => {
                &&& a.direction == DividerDirection::Descending ==> a.ti_right != self.ti_downleft
                &&& b.direction == DividerDirection::Descending ==> b.ti_right != self.ti_downleft
                &&& a.direction == DividerDirection::Descending && b.direction == DividerDirection::Descending ==> a.ti_right != b.ti_right
                &&& a.direction == DividerDirection::Descending ==> b.direction == DividerDirection::Descending
            }
        }
    }
    pub open spec fn refers(&self, ti: Idx<Trapezoid<V, Index>>) -> bool {
        self.ti_upleft == ti || self.ti_downleft == ti || match self.dividers { Zot::Zero => false, Zot::One(a) => a.ti_right == ti, Zot::Two(a, b) => a.ti_right == ti || b.ti_right == ti }
    }
    /// the first reference to a is replaced by b
    pub open spec fn swapped(self, a: Idx<Trapezoid<V, Index>>, b: Idx<Trapezoid<V, Index>>) -> Self {
        if self.ti_upleft == a { Nexus { ti_upleft: b, ..self } }
        else if self.ti_downleft == a { Nexus { ti_downleft: b, ..self } }
        else { Nexus { dividers: match self.dividers {
            Zot::Zero => Zot::Zero,
            Zot::One(d) => Zot::One(if d.ti_right == a { Divider { ti_right: b, ..d } } else { d }),
            Zot::Two(d, e) => if d.ti_right == a { Zot::Two(Divider { ti_right: b, ..d }, e) } else { Zot::Two(d, if e.ti_right == a { Divider { ti_right: b, ..e } } else { e }) },
        }, ..self } }
    }
//@ fn nexus::Nexus::new -> r
    ensures r.vi == vi, r.c == c, r.ti_upleft == ti_up, r.ti_downleft == ti_down, r.dividers is Zero
//@ fn nexus::Nexus::final_type -> r
    ensures match self.dividers {
        Zot::Two(a, b) => r is Ok && match r->Ok_0 {
            FinalNexusType::A { _ti_up, ti_downleft, ti_downcenter, ti_downright } => a.direction == DividerDirection::Descending
                && _ti_up == self.ti_upleft && ti_downleft == self.ti_downleft && ti_downcenter == a.ti_right && ti_downright == b.ti_right,
            FinalNexusType::V { ti_upleft, ti_upcenter, ti_upright, ti_down } => a.direction == DividerDirection::Ascending && b.direction == DividerDirection::Ascending
                && ti_upleft == self.ti_upleft && ti_upcenter == a.ti_right && ti_upright == b.ti_right && ti_down == self.ti_downleft,
            FinalNexusType::I { ti_upleft, ti_upright, ti_downleft, ti_downright } => a.direction == DividerDirection::Ascending && b.direction == DividerDirection::Descending
                && ti_upleft == self.ti_upleft && ti_upright == a.ti_right && ti_downleft == self.ti_downleft && ti_downright == b.ti_right,
        },
        _ => r is Err,
    }
//@ fn nexus::Nexus::vertex -> r
    ensures r == self.vi
//@ fn nexus::Nexus::coords -> r
    ensures r == self.c
//@ fn nexus::Nexus::replace_trapezoid -> r
    ensures r is Ok == old(self).refers(ti_old), r is Ok ==> *final(self) == old(self).swapped(ti_old, ti_new), r is Err ==> *final(self) == *old(self)
//@ fn nexus::Nexus::find_trapezoid -> r
    ensures r is Some == old(self).refers(ti), r is Some ==> *r->Some_0 == ti && *final(self) == old(self).swapped(ti, *final(r->Some_0)), r is None ==> *final(self) == *old(self)
//@ fn nexus::Nexus::get_segment_direction -> r
    requires inb(si, ss@.len())
    ensures r is Ok ==> r->Ok_0 == if ni == ss@[si.ix()].ni_max { DividerDirection::Descending } else { DividerDirection::Ascending },
        r is Ok == (ni == ss@[si.ix()].ni_max || ni == ss@[si.ix()].ni_min)
//@ fn nexus::Nexus::filter_dividers -> r
    ensures match (r, g_sides(self.dividers, direction)) {
        (Zot::Zero, Zot::Zero) => true,
        (Zot::One(a), Zot::One(x)) => *a == x,
        (Zot::Two(a, b), Zot::Two(x, y)) => *a == x && *b == y,
        _ => false,
    }
//@ after filter(|d|
 -> (vp_b: bool) ensures vp_b == (d.direction == direction) {
//@ after d.direction == direction
 }
//@ after filter(|d| ## 1
 -> (vp_b: bool) ensures vp_b == (d.direction == direction) {
//@ after d.direction == direction ## 1
 }
//@ fn nexus::Nexus::add_segment -> r
    requires inb(ni, old(ns)@.len()), inb(si, ss@.len()), forall|i: int| 0 <= i < ss@.len() ==> (#[trigger] ss@[i]).s_ok(old(ns)@.len()),
        old(ns)@[ni.ix()].n_ok(ss@.len(), usize::MAX as nat)
    ensures
        final(ns)@.len() == old(ns)@.len(), // @C04
        final(ns)@ == old(ns)@.update(ni.ix(), Nexus { dividers: final(ns)@[ni.ix()].dividers, ..old(ns)@[ni.ix()] }), // @C01
        r is Err ==> final(ns)@[ni.ix()].dividers is Zero || final(ns)@ == old(ns)@, // @C04
        r is Ok ==> ({
            let d = final(ns)@[ni.ix()].dividers;
            let n = Divider { si, ti_right, direction: if ni == ss@[si.ix()].ni_max { DividerDirection::Descending } else { DividerDirection::Ascending } };
            match old(ns)@[ni.ix()].dividers {
                Zot::Zero => d == Zot::One(n),
                Zot::One(m) => d == Zot::Two(m, n) && (m.direction != n.direction ==> m.direction == DividerDirection::Ascending)
                    || d == Zot::Two(n, m) && (m.direction != n.direction ==> n.direction == DividerDirection::Ascending),
                Zot::Two(_, _) => false,
            }
        }), // @C01 C04
        // of two on one side the left one comes first
        r is Ok && V::Coordinate::exact() ==> match (old(ns)@[ni.ix()].dividers, final(ns)@[ni.ix()].dividers) {
            (Zot::One(m), Zot::Two(a, b)) => {
                let (s0, s1) = (ss@[m.si.ix()], ss@[si.ix()]);
                let up = ni != s1.ni_max;
                m.direction == (if up { DividerDirection::Ascending } else { DividerDirection::Descending }) && s0.c_min.vy() <= s0.c_max.vy() ==>
                    (if crate::math::left_exact(s0.c_min, s0.c_max, old(ns)@[(if up { s1.ni_max } else { s1.ni_min }).ix()].c) { b == m } else { a == m })
            },
            _ => true,
        }, // @C01
//@ fn nexus::Nexus::get_down_trapezoid_in_direction -> r
    requires s.s_ok(ns@.len()), self.n_ok(ss@.len(), usize::MAX as nat), forall|i: int| 0 <= i < ss@.len() ==> (#[trigger] ss@[i]).s_ok(ns@.len())
    ensures r is Ok ==> r->Ok_0 == self.g_leftmost(DividerDirection::Descending) || r->Ok_0 == self.g_rightmost(DividerDirection::Descending), // @C01 C04
        // the one on the side where the segment is
        r is Ok && V::Coordinate::exact() && s.c_min.vy() <= s.c_max.vy() ==> match g_sides(self.dividers, DividerDirection::Descending) {
            Zot::Zero => r->Ok_0 == self.ti_downleft,
            Zot::One(d) | Zot::Two(_, d) => r->Ok_0 == if crate::math::left_exact(s.c_min, s.c_max, if ns@[s.ni_max.ix()].vi == self.vi { ns@[ss@[d.si.ix()].ni_min.ix()].c } else { self.c }) { d.ti_right } else { self.ti_downleft },
        }, // @C01
//@ fn nexus::Nexus::get_trapezoid_between_coords -> r
    ensures r is Ok ==> r->Ok_0 == self.g_leftmost(direction) || r->Ok_0 == self.g_rightmost(direction), // @C01 C04
        // the one on the side where the line passes
        r is Ok && V::Coordinate::exact() ==> ({
            let (lo, hi) = if direction == DividerDirection::Ascending { (c_from, c_to) } else { (c_to, c_from) };
            lo.vy() <= hi.vy() ==> r->Ok_0 == if crate::math::left_exact(lo, hi, self.c) { self.g_rightmost(direction) } else { self.g_leftmost(direction) }
        }), // @C01
//@ fn nexus::Nexus::get_trapezoid_toward_coords -> r
    requires self.n_ok(ss@.len(), usize::MAX as nat), forall|i: int| 0 <= i < ss@.len() ==> (#[trigger] ss@[i]).s_ok(ns@.len())
    ensures r is Ok ==> r->Ok_0 == self.g_leftmost(direction) || r->Ok_0 == self.g_rightmost(direction), // @C01 C04
        // the one on the side where the point is
        r is Ok && V::Coordinate::exact() ==> match g_sides(self.dividers, direction) {
            Zot::One(d) => { let s = ss@[d.si.ix()]; let (lo, hi) = (ns@[s.ni_min.ix()].c, ns@[s.ni_max.ix()].c); lo.vy() <= hi.vy() ==> r->Ok_0 == if crate::math::left_exact(lo, hi, c_to) { self.g_leftmost(direction) } else { d.ti_right } },
            _ => true,
        }, // @C01

// ------------------------------------------------------------------ polygons and their vertices
//@ in inputs::vertex::Vertex
    spec fn sx(&self) -> Self::Coordinate;
    spec fn sy(&self) -> Self::Coordinate;
//@ fn inputs::vertex::Vertex::x -> r
    ensures r == self.sx()
//@ fn inputs::vertex::Vertex::y -> r
    ensures r == self.sy()
//@ in inputs::vertex::Vertex@[C;2]
    open spec fn sx(&self) -> C { self@[0] }
    open spec fn sy(&self) -> C { self@[1] }
//@ in inputs::vertex::Vertex@(C,C)
    open spec fn sx(&self) -> C { self.0 }
    open spec fn sy(&self) -> C { self.1 }
//@ mod inputs::vertex
pub open spec fn coords_of<V: Vertex>(v: V) -> Coords<V::Coordinate> { Coords([v.sx(), v.sy()]) }
/// by height, then from left to right
pub open spec fn lex_lt<C: Real>(a: Coords<C>, b: Coords<C>) -> bool { a.vy() < b.vy() || a.vy() == b.vy() && a.vx() < b.vx() }
//@ forward inputs::vertex::PartialOrd@Coords::partial_cmp
//@ fn inputs::vertex::PartialOrd@Coords::partial_cmp -> r
 ensures C::exact() ==> r == Some(if lex_lt(*self, *other) { cmp::Ordering::Less } else if lex_lt(*other, *self) { cmp::Ordering::Greater } else { cmp::Ordering::Equal })
//@ after and_then(|y_ord|
 -> (vp_o: Option<cmp::Ordering>) ensures C::exact() ==> vp_o == Some(if y_ord != cmp::Ordering::Equal { y_ord } else if self.vx() < other.vx() { cmp::Ordering::Less } else if self.vx() > other.vx() { cmp::Ordering::Greater } else { cmp::Ordering::Equal }) {
//@ after Some(y_ord) }
 }
//@ fn inputs::vertex::VertexExt::x -> r
    ensures r == self.0.sx()
//@ fn inputs::vertex::VertexExt::y -> r
    ensures r == self.0.sy()
//@ fn inputs::vertex::VertexExt::coords -> r
    ensures r == coords_of(self.0)
//@ start
    proof { assert([self.0.sx(), self.0.sy()]@ =~= seq![self.0.sx(), self.0.sy()]); }
//@ fn inputs::vertex::VertexExt::to_newtype_ref -> r
    ensures r.0 == *base
// ------------------------------------------------------------------ trapezoidation
//@ drop trapezoidation::TrapezoidationState::check_consistency_query_node trapezoidation::TrapezoidationState::check_consistency_nexus trapezoidation::TrapezoidationState::check_consistency_trapezoid
//@ mod trapezoidation
use crate::idx::{inb, opt_inb};
use crate::inputs::vertex::{coords_of, lex_lt};
pub open spec fn pc<'p, P: PolygonList<'p> + ?Sized>(p: &'p P, vi: P::Index) -> Coords<<P::Vertex as Vertex>::Coordinate> { coords_of(p.vertex_at(vi)) }
/// a nexus stands for a vertex of the polygons
pub open spec fn nv_ok<'p, P: PolygonList<'p> + ?Sized>(p: &'p P, n: Nexus<P::Vertex, P::Index>) -> bool { p.yields(n.vi) && n.c == pc(p, n.vi) }
/// a segment joins two nexuses, the lower one first
pub open spec fn sv_ok<V: Vertex, Index: VertexIndex>(s: Segment<V, Index>, ns: Seq<Nexus<V, Index>>) -> bool {
    &&& inb(s.ni_min, ns.len()) && inb(s.ni_max, ns.len())
    &&& s.c_min == ns[s.ni_min.ix()].c && s.c_max == ns[s.ni_max.ix()].c
    &&& V::Coordinate::exact() ==> s.c_min.vy() <= s.c_max.vy()
}
/// every index into the trapezoidation stays inside of it
pub open spec fn g_parts<'p, P: PolygonList<'p> + ?Sized>(p: &'p P, ns: Seq<Nexus<P::Vertex, P::Index>>, ss: Seq<Segment<P::Vertex, P::Index>>, ts: Seq<Trapezoid<P::Vertex, P::Index>>, qs: Seq<QueryNode<P::Vertex, P::Index>>) -> bool {
    &&& qs.len() > 0 && ts.len() > 0
    &&& ns.len() == 0 ==> qs[0] is Sink
    &&& forall|i: int| 0 <= i < ns.len() ==> (#[trigger] ns[i]).n_ok(ss.len(), ts.len()) && nv_ok(p, ns[i])
    &&& forall|i: int| 0 <= i < ss.len() ==> sv_ok(#[trigger] ss[i], ns)
    &&& forall|i: int| 0 <= i < ts.len() ==> (#[trigger] ts[i]).t_ok(ns.len(), ss.len(), qs.len())
    &&& forall|i: int| 0 <= i < qs.len() ==> (#[trigger] qs[i]).q_ok(qs.len(), ts.len())
    &&& g_linked(ns, ts) && g_leaves(ts, qs) && g_acyclic(qs)
    &&& <P::Vertex as Vertex>::Coordinate::exact() ==> g_plane(Net { ns, ss, ts, qs }) // @C01
}
/// the height of a trapezoid's upper end: how far down the nexus there comes, -1 without one
pub open spec fn g_upper<V: Vertex, I: VertexIndex>(t: Trapezoid<V, I>, rk: Seq<int>) -> int { match t.up { Some(n) => rk[n.ix()], None => -1 } }
/// ranked from top to bottom, whatever was put in: a trapezoid's upper end comes before its lower end, and before every nexus that lists
/// it above; a nexus is the upper end of what it lists below, once each
#[verifier::opaque]
pub open spec fn linked_by<V: Vertex, I: VertexIndex>(ns: Seq<Nexus<V, I>>, ts: Seq<Trapezoid<V, I>>, rk: Seq<int>, last: int) -> bool {
    &&& rk.len() == ns.len() && last >= 0
    &&& forall|n: int| 0 <= n < ns.len() ==> 0 <= #[trigger] rk[n] < last
    &&& forall|t: int| 0 <= t < ts.len() ==> opt_inb((#[trigger] ts[t]).up, ns.len()) && opt_inb(ts[t].down, ns.len())
    &&& forall|t: int| 0 <= t < ts.len() ==> ((#[trigger] ts[t]).down is Some ==> g_upper(ts[t], rk) < rk[ts[t].down->Some_0.ix()])
    &&& forall|n: int, t: Idx<Trapezoid<V, I>>| 0 <= n < ns.len() && #[trigger] ns[n].g_below(t) ==> inb(t, ts.len()) && ts[t.ix()].up is Some && ts[t.ix()].up->Some_0.ix() == n
    &&& forall|n: int, t: Idx<Trapezoid<V, I>>| 0 <= n < ns.len() && #[trigger] ns[n].g_above(t) ==> inb(t, ts.len()) && g_upper(ts[t.ix()], rk) < rk[n]
    &&& forall|n: int| 0 <= n < ns.len() ==> (#[trigger] ns[n]).once()
}
pub open spec fn g_linked<V: Vertex, I: VertexIndex>(ns: Seq<Nexus<V, I>>, ts: Seq<Trapezoid<V, I>>) -> bool { exists|rk: Seq<int>, last: int| #[trigger] linked_by(ns, ts, rk, last) }
/// each trapezoid has a leaf
#[verifier::opaque]
pub open spec fn g_leaves<V: Vertex, I: VertexIndex>(ts: Seq<Trapezoid<V, I>>, qs: Seq<QueryNode<V, I>>) -> bool {
    forall|t: int| 0 <= t < ts.len() ==> inb((#[trigger] ts[t]).sink, qs.len()) && qs[ts[t].sink.ix()] is Sink && qs[ts[t].sink.ix()]->Sink_0.ix() == t
}
/// no way through the query nodes goes in a circle
#[verifier::opaque]
pub open spec fn g_falls<V: Vertex, I: VertexIndex>(qs: Seq<QueryNode<V, I>>, qr: Seq<int>) -> bool {
    &&& qr.len() == qs.len()
    &&& forall|q: int| 0 <= q < qs.len() ==> 0 <= #[trigger] qr[q]
    &&& forall|q: int| 0 <= q < qs.len() ==> match #[trigger] qs[q] { QueryNode::Branch(l, r, _) => inb(l, qs.len()) && inb(r, qs.len()) && qr[l.ix()] < qr[q] && qr[r.ix()] < qr[q], QueryNode::Sink(_) => true }
}
pub open spec fn g_acyclic<V: Vertex, I: VertexIndex>(qs: Seq<QueryNode<V, I>>) -> bool { exists|qr: Seq<int>| #[trigger] g_falls(qs, qr) }
pub proof fn falls_step<V: Vertex, I: VertexIndex>(qs: Seq<QueryNode<V, I>>, qr: Seq<int>, q: int)
    requires g_falls(qs, qr), 0 <= q < qs.len()
    ensures qr[q] >= 0, match qs[q] { QueryNode::Branch(l, r, _) => 0 <= qr[l.ix()] < qr[q] && 0 <= qr[r.ix()] < qr[q], QueryNode::Sink(_) => true }
{ reveal(g_falls); }
/// a leaf becomes a branch to new leaves, or to a new and an old one
pub proof fn acyclic_branch<V: Vertex, I: VertexIndex>(q0: Seq<QueryNode<V, I>>, q1: Seq<QueryNode<V, I>>, q: int)
    requires g_acyclic(q0), 0 <= q < q0.len() < q1.len(), q0[q] is Sink, forall|i: int| 0 <= i < q0.len() && i != q ==> #[trigger] q1[i] == q0[i],
        forall|i: int| q0.len() <= i < q1.len() ==> #[trigger] q1[i] is Sink,
        match q1[q] { QueryNode::Branch(l, r, _) => inb(l, q1.len()) && inb(r, q1.len()) && l.ix() != q && r.ix() != q && q1[l.ix()] is Sink && q1[r.ix()] is Sink, QueryNode::Sink(_) => true },
    ensures g_acyclic(q1)
{
    reveal(g_falls);
    let qr = choose|qr: Seq<int>| #[trigger] g_falls(q0, qr);
    let r1 = Seq::new(q1.len(), |i: int| if i != q && q1[i] is Sink { 0 } else { qr[i] + 1 });
    assert forall|i: int| 0 <= i < q1.len() implies match #[trigger] q1[i] { QueryNode::Branch(l, r, _) => inb(l, q1.len()) && inb(r, q1.len()) && r1[l.ix()] < r1[i] && r1[r.ix()] < r1[i], QueryNode::Sink(_) => true } by {
        if i < q0.len() && i != q { assert(q1[i] == q0[i]); }
    }
    assert(g_falls(q1, r1));
}
pub proof fn ix_eq<T>(a: Idx<T>, b: Idx<T>) requires a.ix() == b.ix(), 0 <= a.ix() ensures a == b { }
/// who is listed after a replacement
pub proof fn swapped_lists<V: Vertex, I: VertexIndex>(n: Nexus<V, I>, a: Idx<Trapezoid<V, I>>, b: Idx<Trapezoid<V, I>>)
    ensures
        !n.g_below(a) ==> n.swapped(a, b).once() == n.once() && forall|t: Idx<Trapezoid<V, I>>| #[trigger] n.swapped(a, b).g_below(t) == n.g_below(t),
        forall|t: Idx<Trapezoid<V, I>>| #[trigger] n.swapped(a, b).g_above(t) ==> n.g_above(t) || t == b,
        !n.g_above(a) && n.once() && !n.g_below(b) ==> n.swapped(a, b).once() && (forall|t: Idx<Trapezoid<V, I>>| #[trigger] n.swapped(a, b).g_below(t) ==> t != a && n.g_below(t) || t == b)
            && forall|t: Idx<Trapezoid<V, I>>| #[trigger] n.swapped(a, b).g_above(t) ==> n.g_above(t),
{ }
/// where the links lead
pub proof fn link_at<V: Vertex, I: VertexIndex>(ns: Seq<Nexus<V, I>>, ts: Seq<Trapezoid<V, I>>, rk: Seq<int>, last: int, n: int)
    requires linked_by(ns, ts, rk, last), 0 <= n < ns.len()
    ensures 0 <= rk[n] < last, forall|t: Idx<Trapezoid<V, I>>| #[trigger] ns[n].g_below(t) ==> inb(t, ts.len()) && ts[t.ix()].up is Some && ts[t.ix()].up->Some_0.ix() == n && g_upper(ts[t.ix()], rk) == rk[n],
        forall|t: Idx<Trapezoid<V, I>>| #[trigger] ns[n].g_above(t) ==> inb(t, ts.len()) && g_upper(ts[t.ix()], rk) < rk[n],
{ reveal(linked_by); }
pub proof fn link_t<V: Vertex, I: VertexIndex>(ns: Seq<Nexus<V, I>>, ts: Seq<Trapezoid<V, I>>, rk: Seq<int>, last: int, t: int)
    requires linked_by(ns, ts, rk, last), 0 <= t < ts.len()
    ensures -1 <= g_upper(ts[t], rk) < last, ts[t].down is Some ==> inb(ts[t].down->Some_0, ns.len()) && g_upper(ts[t], rk) < rk[ts[t].down->Some_0.ix()] < last
{ reveal(linked_by); }
/// the same ends as before, and perhaps new trapezoids with ends in order
pub proof fn link_ts<V: Vertex, I: VertexIndex>(ns: Seq<Nexus<V, I>>, t0: Seq<Trapezoid<V, I>>, t1: Seq<Trapezoid<V, I>>, rk: Seq<int>, last: int)
    requires linked_by(ns, t0, rk, last), t0.len() <= t1.len(), forall|t: int| 0 <= t < t0.len() ==> (#[trigger] t1[t]).up == t0[t].up,
        forall|t: int| 0 <= t < t1.len() ==> t < t0.len() && (#[trigger] t1[t]).down == t0[t].down || opt_inb(t1[t].up, ns.len()) && opt_inb(t1[t].down, ns.len()) && (t1[t].down is Some ==> g_upper(t1[t], rk) < rk[t1[t].down->Some_0.ix()])
    ensures linked_by(ns, t1, rk, last)
{
    reveal(linked_by);
    assert forall|t: int| 0 <= t < t1.len() implies opt_inb((#[trigger] t1[t]).up, ns.len()) && opt_inb(t1[t].down, ns.len()) && (t1[t].down is Some ==> g_upper(t1[t], rk) < rk[t1[t].down->Some_0.ix()]) by { if t < t0.len() { assert(t1[t].up == t0[t].up); assert(opt_inb(t0[t].up, ns.len())); } }
}
/// one nexus changed
pub proof fn link_n<V: Vertex, I: VertexIndex>(n0: Seq<Nexus<V, I>>, n1: Seq<Nexus<V, I>>, ts: Seq<Trapezoid<V, I>>, rk: Seq<int>, last: int, n: int)
    requires linked_by(n0, ts, rk, last), 0 <= n < n0.len(), n1.len() == n0.len(), forall|i: int| 0 <= i < n0.len() && i != n ==> #[trigger] n1[i] == n0[i], n1[n].once(),
        forall|t: Idx<Trapezoid<V, I>>| #[trigger] n1[n].g_below(t) ==> inb(t, ts.len()) && ts[t.ix()].up is Some && ts[t.ix()].up->Some_0.ix() == n,
        forall|t: Idx<Trapezoid<V, I>>| #[trigger] n1[n].g_above(t) ==> inb(t, ts.len()) && g_upper(ts[t.ix()], rk) < rk[n],
    ensures linked_by(n1, ts, rk, last)
{
    reveal(linked_by);
    assert forall|m: int, t: Idx<Trapezoid<V, I>>| 0 <= m < n1.len() && #[trigger] n1[m].g_below(t) implies inb(t, ts.len()) && ts[t.ix()].up is Some && ts[t.ix()].up->Some_0.ix() == m by { if m != n { assert(n0[m].g_below(t)); } }
    assert forall|m: int, t: Idx<Trapezoid<V, I>>| 0 <= m < n1.len() && #[trigger] n1[m].g_above(t) implies inb(t, ts.len()) && g_upper(ts[t.ix()], rk) < rk[m] by { if m != n { assert(n0[m].g_above(t)); } }
    assert forall|m: int| 0 <= m < n1.len() implies (#[trigger] n1[m]).once() by { if m != n { assert(n0[m].once()); } }
}
/// what `Nexus::add_segment` makes of the dividers
pub open spec fn g_divided<V: Vertex, I: VertexIndex>(a: Nexus<V, I>, b: Nexus<V, I>, x: crate::nexus::Divider<V, I>) -> bool {
    &&& b == Nexus { dividers: b.dividers, ..a }
    &&& match a.dividers { Zot::Zero => b.dividers == Zot::One(x), Zot::One(m) => b.dividers == Zot::Two(m, x) && (m.direction != x.direction ==> m.direction == DividerDirection::Ascending)
        || b.dividers == Zot::Two(x, m) && (m.direction != x.direction ==> x.direction == DividerDirection::Ascending), Zot::Two(_, _) => false }
}
pub proof fn link_div<V: Vertex, I: VertexIndex>(n0: Seq<Nexus<V, I>>, n1: Seq<Nexus<V, I>>, ts: Seq<Trapezoid<V, I>>, rk: Seq<int>, last: int, n: int, x: crate::nexus::Divider<V, I>)
    requires linked_by(n0, ts, rk, last), 0 <= n < n0.len(), n1 == n0.update(n, n1[n]), g_divided(n0[n], n1[n], x), inb(x.ti_right, ts.len()),
        x.direction == DividerDirection::Descending ==> !n0[n].g_below(x.ti_right) && ts[x.ti_right.ix()].up is Some && ts[x.ti_right.ix()].up->Some_0.ix() == n,
        x.direction == DividerDirection::Ascending ==> g_upper(ts[x.ti_right.ix()], rk) < rk[n],
    ensures linked_by(n1, ts, rk, last)
{
    link_at(n0, ts, rk, last, n);
    assert(n0[n].once()) by { reveal(linked_by); }
    assert forall|t: Idx<Trapezoid<V, I>>| #[trigger] n1[n].g_below(t) implies inb(t, ts.len()) && ts[t.ix()].up is Some && ts[t.ix()].up->Some_0.ix() == n by { assert(n0[n].g_below(t) || t == x.ti_right && x.direction == DividerDirection::Descending); }
    assert forall|t: Idx<Trapezoid<V, I>>| #[trigger] n1[n].g_above(t) implies inb(t, ts.len()) && g_upper(ts[t.ix()], rk) < rk[n] by { assert(n0[n].g_above(t) || t == x.ti_right && x.direction == DividerDirection::Ascending); }
    link_n(n0, n1, ts, rk, last, n);
}
/// below-right of this nexus's lower neighbour another trapezoid is listed now
pub proof fn link_swap<V: Vertex, I: VertexIndex>(n0: Seq<Nexus<V, I>>, n1: Seq<Nexus<V, I>>, ts: Seq<Trapezoid<V, I>>, rk: Seq<int>, last: int, n: int, a: Idx<Trapezoid<V, I>>, b: Idx<Trapezoid<V, I>>)
    requires linked_by(n0, ts, rk, last), 0 <= n < n0.len(), n1 == n0.update(n, n0[n].swapped(a, b)), inb(a, ts.len()), inb(b, ts.len()), g_upper(ts[a.ix()], rk) < rk[n], g_upper(ts[b.ix()], rk) < rk[n],
    ensures linked_by(n1, ts, rk, last)
{
    link_at(n0, ts, rk, last, n);
    assert(n0[n].once()) by { reveal(linked_by); }
    swapped_lists(n0[n], a, b);
    assert forall|t: Idx<Trapezoid<V, I>>| #[trigger] n1[n].g_below(t) implies inb(t, ts.len()) && ts[t.ix()].up is Some && ts[t.ix()].up->Some_0.ix() == n by { assert(n0[n].g_below(t)); }
    assert forall|t: Idx<Trapezoid<V, I>>| #[trigger] n1[n].g_above(t) implies inb(t, ts.len()) && g_upper(ts[t.ix()], rk) < rk[n] by { assert(n0[n].g_above(t) || t == b); }
    link_n(n0, n1, ts, rk, last, n);
}
/// a nexus is put into a trapezoid
pub proof fn link_vertex<V: Vertex, I: VertexIndex>(n0: Seq<Nexus<V, I>>, t0: Seq<Trapezoid<V, I>>, n1: Seq<Nexus<V, I>>, t1: Seq<Trapezoid<V, I>>, ti: Idx<Trapezoid<V, I>>, tn: Idx<Trapezoid<V, I>>, ni: Idx<Nexus<V, I>>)
    requires g_linked(n0, t0), inb(ti, t0.len()), tn.ix() == t0.len(), ni.ix() == n0.len(), n1.len() == n0.len() + 1, t1.len() == t0.len() + 1,
        forall|t: int| 0 <= t < t0.len() && t != ti.ix() ==> #[trigger] t1[t] == t0[t],
        t1[ti.ix()].up == Some(ni), t1[ti.ix()].down == t0[ti.ix()].down, t1[tn.ix()].up == t0[ti.ix()].up, t1[tn.ix()].down == Some(ni),
        n1[ni.ix()].ti_upleft == tn, n1[ni.ix()].ti_downleft == ti, n1[ni.ix()].dividers is Zero,
        forall|n: int| 0 <= n < n0.len() ==> #[trigger] n1[n] == (if t0[ti.ix()].up is Some && t0[ti.ix()].up->Some_0.ix() == n { n0[n].swapped(ti, tn) } else { n0[n] })
    ensures g_linked(n1, t1)
{
    let (rk, last) = choose|rk: Seq<int>, last: int| #[trigger] linked_by(n0, t0, rk, last);
    let r0 = g_upper(t0[ti.ix()], rk);
    let r1 = Seq::new(n1.len(), |n: int| if n < n0.len() { 2 * rk[n] + 2 } else { 2 * r0 + 3 });
    reveal(linked_by);
    assert forall|t: int| 0 <= t < t0.len() && t != ti.ix() implies g_upper(#[trigger] t1[t], r1) == (if t0[t].up is Some { 2 * g_upper(t0[t], rk) + 2 } else { -1 }) by { assert(t1[t] == t0[t]); }
    assert(-1 <= r0 < last);
    assert(g_upper(t1[tn.ix()], r1) <= 2 * r0 + 2 && g_upper(t1[ti.ix()], r1) == 2 * r0 + 3);
    assert forall|n: int| 0 <= n < n0.len() implies (#[trigger] n1[n]).once() && (forall|t: Idx<Trapezoid<V, I>>| #[trigger] n1[n].g_below(t) ==> inb(t, t1.len()) && t1[t.ix()].up is Some && t1[t.ix()].up->Some_0.ix() == n)
        && (forall|t: Idx<Trapezoid<V, I>>| #[trigger] n1[n].g_above(t) ==> inb(t, t1.len()) && g_upper(t1[t.ix()], r1) < r1[n]) by
    {
        link_at(n0, t0, rk, last, n);
        swapped_lists(n0[n], ti, tn);
        assert(n0[n].once());
        let c = t0[ti.ix()].up is Some && t0[ti.ix()].up->Some_0.ix() == n;
        assert(!n0[n].g_below(tn));
        if c { assert(!n0[n].g_above(ti)); }
        assert forall|t: Idx<Trapezoid<V, I>>| #[trigger] n1[n].g_below(t) implies inb(t, t1.len()) && t1[t.ix()].up is Some && t1[t.ix()].up->Some_0.ix() == n by {
            if c && t == tn { } else {
                assert(n0[n].g_below(t));
                assert(t0[t.ix()].up->Some_0.ix() == n);
                if t.ix() == ti.ix() { ix_eq(t, ti); assert(c); assert(false); }
            }
        }
        assert forall|t: Idx<Trapezoid<V, I>>| #[trigger] n1[n].g_above(t) implies inb(t, t1.len()) && g_upper(t1[t.ix()], r1) < r1[n] by {
            assert(n0[n].g_above(t));
            assert(g_upper(t0[t.ix()], rk) < rk[n]);
            if t.ix() == ti.ix() { } else { assert(t1[t.ix()] == t0[t.ix()]); }
        }
    }
    assert forall|t: Idx<Trapezoid<V, I>>| #[trigger] n1[ni.ix()].g_below(t) implies t == ti by { }
    assert forall|t: Idx<Trapezoid<V, I>>| #[trigger] n1[ni.ix()].g_above(t) implies t == tn by { }
    assert forall|t: int| 0 <= t < t1.len() implies opt_inb((#[trigger] t1[t]).up, n1.len()) && opt_inb(t1[t].down, n1.len()) && (t1[t].down is Some ==> g_upper(t1[t], r1) < r1[t1[t].down->Some_0.ix()]) by {
        if t == tn.ix() { assert(opt_inb(t0[ti.ix()].up, n0.len())); } else if t == ti.ix() { assert(opt_inb(t0[t].down, n0.len())); } else { assert(t1[t] == t0[t]); assert(opt_inb(t0[t].up, n0.len()) && opt_inb(t0[t].down, n0.len())); }
    }
    assert forall|n: int, t: Idx<Trapezoid<V, I>>| 0 <= n < n1.len() && #[trigger] n1[n].g_below(t) implies inb(t, t1.len()) && t1[t.ix()].up is Some && t1[t.ix()].up->Some_0.ix() == n by { if n < n0.len() { assert(n1[n].once()); } }
    assert forall|n: int, t: Idx<Trapezoid<V, I>>| 0 <= n < n1.len() && #[trigger] n1[n].g_above(t) implies inb(t, t1.len()) && g_upper(t1[t.ix()], r1) < r1[n] by { if n < n0.len() { assert(n1[n].once()); } }
    assert forall|n: int| 0 <= n < n1.len() implies (#[trigger] n1[n]).once() by { }
    assert(linked_by(n1, t1, r1, 2 * last + 4));
}
/// one trapezoid without ends, one leaf
pub proof fn start_ok<V: Vertex, I: VertexIndex>()
    ensures
        forall|ns: Seq<Nexus<V, I>>, ts: Seq<Trapezoid<V, I>>| ns.len() == 0 && ts.len() == 1 && ts[0].up is None && ts[0].down is None ==> #[trigger] g_linked(ns, ts),
        forall|ts: Seq<Trapezoid<V, I>>, qs: Seq<QueryNode<V, I>>| ts.len() == 1 && ts[0].sink.ix() == 0 && qs.len() == 1 && qs[0] is Sink && qs[0]->Sink_0.ix() == 0 ==> #[trigger] g_leaves(ts, qs),
        forall|qs: Seq<QueryNode<V, I>>| qs.len() == 1 && qs[0] is Sink ==> #[trigger] g_acyclic(qs),
{
    reveal(linked_by); reveal(g_leaves); reveal(g_falls);
    assert forall|ns: Seq<Nexus<V, I>>, ts: Seq<Trapezoid<V, I>>| ns.len() == 0 && ts.len() == 1 && ts[0].up is None && ts[0].down is None implies #[trigger] g_linked(ns, ts) by { assert(linked_by(ns, ts, Seq::<int>::empty(), 0)); }
    assert forall|qs: Seq<QueryNode<V, I>>| qs.len() == 1 && qs[0] is Sink implies #[trigger] g_acyclic(qs) by { assert(g_falls(qs, seq![0int])); }
}
/// the four lists together
pub ghost struct Net<V: Vertex, I: VertexIndex> { pub ns: Seq<Nexus<V, I>>, pub ss: Seq<Segment<V, I>>, pub ts: Seq<Trapezoid<V, I>>, pub qs: Seq<QueryNode<V, I>> }
pub open spec fn g_net<'p, P: PolygonList<'p> + ?Sized>(s: TrapezoidationState<'p, P>) -> Net<P::Vertex, P::Index> { Net { ns: s.ns@, ss: s.ss@, ts: s.ts@, qs: s.qs@ } }
pub open spec fn lex_le<C: Real>(a: Coords<C>, b: Coords<C>) -> bool { !lex_lt(b, a) }
/// the point lies between the trapezoid's ends, and between its sides
pub open spec fn g_within<V: Vertex, I: VertexIndex>(t: Trapezoid<V, I>, w: Net<V, I>, c: Coords<V::Coordinate>, sides: bool) -> bool {
    &&& t.up is Some ==> inb(t.up->Some_0, w.ns.len()) && lex_le(c, w.ns[t.up->Some_0.ix()].c)
    &&& t.down is Some ==> inb(t.down->Some_0, w.ns.len()) && lex_le(w.ns[t.down->Some_0.ix()].c, c)
    &&& sides && t.left is Some ==> inb(t.left->Some_0, w.ss.len()) && !crate::math::left_exact(w.ss[t.left->Some_0.ix()].c_min, w.ss[t.left->Some_0.ix()].c_max, c)
    &&& sides && t.right is Some ==> inb(t.right->Some_0, w.ss.len()) && crate::math::left_exact(w.ss[t.right->Some_0.ix()].c_min, w.ss[t.right->Some_0.ix()].c_max, c)
}
/// which way a point goes at a query node
pub open spec fn g_goes_left<C: Real>(b: QueryNodeBranch<C>, c: Coords<C>) -> bool { match b { QueryNodeBranch::X(lo, hi) => crate::math::left_exact(lo, hi, c), QueryNodeBranch::Y(v) => lex_le(c, v) } }
/// these query nodes include every next one for the point, and their trapezoids contain it
#[verifier::opaque]
pub open spec fn g_closed<V: Vertex, I: VertexIndex>(w: Net<V, I>, a: Set<int>, c: Coords<V::Coordinate>, sides: bool) -> bool {
    forall|q: int| #[trigger] a.contains(q) ==> 0 <= q < w.qs.len() && match w.qs[q] {
        QueryNode::Branch(l, r, b) => a.contains(if g_goes_left(b, c) { l.ix() } else { r.ix() }),
        QueryNode::Sink(t) => inb(t, w.ts.len()) && g_within(w.ts[t.ix()], w, c, sides),
    }
}
/// a search for the point that starts at this query node ends in a trapezoid that contains it
pub open spec fn g_leads<V: Vertex, I: VertexIndex>(w: Net<V, I>, q: int, c: Coords<V::Coordinate>, sides: bool) -> bool { exists|a: Set<int>| #[trigger] g_closed(w, a, c, sides) && a.contains(q) }
/// a trapezoid's lower end is not above its upper end
pub open spec fn g_upright<V: Vertex, I: VertexIndex>(t: Trapezoid<V, I>, ns: Seq<Nexus<V, I>>) -> bool {
    opt_inb(t.up, ns.len()) && opt_inb(t.down, ns.len()) && (t.up is Some && t.down is Some ==> lex_le(ns[t.down->Some_0.ix()].c, ns[t.up->Some_0.ix()].c))
}
/// a trapezoid listed above a nexus does not end above it
pub open spec fn g_lower<V: Vertex, I: VertexIndex>(w: Net<V, I>, n: int, t: Idx<Trapezoid<V, I>>) -> bool {
    inb(t, w.ts.len()) && opt_inb(w.ts[t.ix()].down, w.ns.len()) && (w.ts[t.ix()].down is Some ==> lex_le(w.ns[w.ts[t.ix()].down->Some_0.ix()].c, w.ns[n].c))
}
/// the trapezoids in the plane, whatever was put in: their ends are in order, and the search finds for every point of the plane a trapezoid
/// that contains it, so that they cover the plane without overlap
#[verifier::opaque]
pub open spec fn g_plane<V: Vertex, I: VertexIndex>(w: Net<V, I>) -> bool {
    &&& forall|t: int| 0 <= t < w.ts.len() ==> g_upright(#[trigger] w.ts[t], w.ns)
    &&& forall|n: int, t: Idx<Trapezoid<V, I>>| 0 <= n < w.ns.len() && #[trigger] w.ns[n].g_above(t) ==> g_lower(w, n, t)
    &&& forall|q: int| 0 <= q < w.qs.len() ==> g_node(w, #[trigger] w.qs[q], q)
    &&& forall|c: Coords<V::Coordinate>| #[trigger] g_leads(w, 0, c, true)
}
/// one leaf for each trapezoid; the segments of branches have their lower end first
pub open spec fn g_node<V: Vertex, I: VertexIndex>(w: Net<V, I>, x: QueryNode<V, I>, q: int) -> bool {
    match x { QueryNode::Sink(t) => inb(t, w.ts.len()) && w.ts[t.ix()].sink.ix() == q, QueryNode::Branch(_, _, QueryNodeBranch::X(lo, hi)) => lo.vy() <= hi.vy(), _ => true }
}
/// what was found from a query node is found from it still
#[verifier::opaque]
pub open spec fn g_keeps<V: Vertex, I: VertexIndex>(w0: Net<V, I>, w1: Net<V, I>) -> bool { forall|q: int, c: Coords<V::Coordinate>, sides: bool| g_leads(w0, q, c, sides) ==> #[trigger] g_leads(w1, q, c, sides) }
pub proof fn keeps_on<V: Vertex, I: VertexIndex>(w0: Net<V, I>, w1: Net<V, I>, w2: Net<V, I>) requires g_keeps(w0, w1), g_keeps(w1, w2) ensures g_keeps(w0, w2)
{ reveal(g_keeps); assert forall|q: int, c: Coords<V::Coordinate>, sides: bool| g_leads(w0, q, c, sides) implies #[trigger] g_leads(w2, q, c, sides) by { assert(g_leads(w1, q, c, sides)); } }
pub proof fn leads_step<V: Vertex, I: VertexIndex>(w: Net<V, I>, q: int, c: Coords<V::Coordinate>, sides: bool)
    requires g_leads(w, q, c, sides)
    ensures 0 <= q < w.qs.len(), match w.qs[q] { QueryNode::Branch(l, r, b) => g_leads(w, if g_goes_left(b, c) { l.ix() } else { r.ix() }, c, sides), QueryNode::Sink(t) => inb(t, w.ts.len()) && g_within(w.ts[t.ix()], w, c, sides) }
{ reveal(g_closed); let a = choose|a: Set<int>| #[trigger] g_closed(w, a, c, sides) && a.contains(q); }
pub proof fn leads_leaf<V: Vertex, I: VertexIndex>(w: Net<V, I>, t: Idx<Trapezoid<V, I>>, c: Coords<V::Coordinate>)
    requires g_leaves(w.ts, w.qs), inb(t, w.ts.len()), g_within(w.ts[t.ix()], w, c, false) ensures g_leads(w, w.ts[t.ix()].sink.ix(), c, false)
{ reveal(g_closed); reveal(g_leaves); let q = w.ts[t.ix()].sink.ix(); let a = Set::<int>::empty().insert(q); assert(g_closed(w, a, c, false)); assert(a.contains(q)); }
pub proof fn leads_root<V: Vertex, I: VertexIndex>(w: Net<V, I>, c: Coords<V::Coordinate>)
    requires g_plane(w) ensures g_leads(w, 0, c, true), g_leads(w, 0, c, false)
{
    reveal(g_plane); reveal(g_closed);
    assert(g_leads(w, 0, c, true));
    let a = choose|a: Set<int>| #[trigger] g_closed(w, a, c, true) && a.contains(0);
    assert(g_closed(w, a, c, false));
}
pub proof fn plane_t<V: Vertex, I: VertexIndex>(w: Net<V, I>, t: int) requires g_plane(w), 0 <= t < w.ts.len() ensures g_upright(w.ts[t], w.ns) { reveal(g_plane); }
pub proof fn plane_n<V: Vertex, I: VertexIndex>(w: Net<V, I>, n: int, t: Idx<Trapezoid<V, I>>) requires g_plane(w), 0 <= n < w.ns.len(), w.ns[n].g_above(t) ensures g_lower(w, n, t) { reveal(g_plane); }
pub proof fn plane_q<V: Vertex, I: VertexIndex>(w: Net<V, I>, q: int) requires g_plane(w), 0 <= q < w.qs.len() ensures g_node(w, w.qs[q], q) { reveal(g_plane); }
pub proof fn plane_nodes<V: Vertex, I: VertexIndex>(w: Net<V, I>) requires g_plane(w) ensures forall|i: int| 0 <= i < w.qs.len() ==> g_node(w, #[trigger] w.qs[i], i) { reveal(g_plane); }
/// one trapezoid without ends and sides
pub proof fn plane_start<V: Vertex, I: VertexIndex>(w: Net<V, I>)
    requires w.ns.len() == 0, w.ts.len() == 1, w.qs.len() == 1, w.ts[0].up is None, w.ts[0].down is None, w.ts[0].left is None, w.ts[0].right is None, w.ts[0].sink.ix() == 0, w.qs[0] is Sink, w.qs[0]->Sink_0.ix() == 0
    ensures g_plane(w)
{
    reveal(g_plane); reveal(g_closed);
    assert forall|c: Coords<V::Coordinate>| #[trigger] g_leads(w, 0, c, true) by { let a = Set::<int>::empty().insert(0); assert(g_closed(w, a, c, true)); assert(a.contains(0)); }
}
/// the leaf of a trapezoid becomes a branch to two leaves; the trapezoid is shared out, the others lose nothing
pub proof fn plane_branch<V: Vertex, I: VertexIndex>(w0: Net<V, I>, w1: Net<V, I>, t: Idx<Trapezoid<V, I>>, q: int)
    requires
        g_plane(w0), inb(t, w0.ts.len()), 0 <= q < w0.qs.len() <= w1.qs.len(), w0.qs[q] == QueryNode::<V, I>::Sink(t), w0.ts.len() <= w1.ts.len(),
        forall|i: int| 0 <= i < w0.qs.len() && i != q ==> #[trigger] w1.qs[i] == w0.qs[i],
        forall|i: int| w0.qs.len() <= i < w1.qs.len() ==> (#[trigger] w1.qs[i]) is Sink && g_node(w1, w1.qs[i], i),
        forall|u: int| 0 <= u < w0.ts.len() && u != t.ix() ==> (#[trigger] w1.ts[u]).sink == w0.ts[u].sink,
        g_node(w1, w1.qs[q], q),
        forall|u: int| 0 <= u < w1.ts.len() ==> g_upright(#[trigger] w1.ts[u], w1.ns),
        forall|n: int, u: Idx<Trapezoid<V, I>>| 0 <= n < w1.ns.len() && #[trigger] w1.ns[n].g_above(u) ==> g_lower(w1, n, u),
        match w1.qs[q] {
            QueryNode::Branch(l, r, b) => inb(l, w1.qs.len()) && inb(r, w1.qs.len()) && l.ix() != q && r.ix() != q && w1.qs[l.ix()] is Sink && w1.qs[r.ix()] is Sink && inb(w1.qs[l.ix()]->Sink_0, w1.ts.len()) && inb(w1.qs[r.ix()]->Sink_0, w1.ts.len())
                && forall|c: Coords<V::Coordinate>, sides: bool| #[trigger] g_within(w0.ts[t.ix()], w0, c, sides) ==> g_within(w1.ts[(if g_goes_left(b, c) { w1.qs[l.ix()]->Sink_0 } else { w1.qs[r.ix()]->Sink_0 }).ix()], w1, c, sides),
            QueryNode::Sink(_) => false,
        },
        forall|u: int, c: Coords<V::Coordinate>, sides: bool| 0 <= u < w0.ts.len() && u != t.ix() && #[trigger] g_within(w0.ts[u], w0, c, sides) ==> g_within(w1.ts[u], w1, c, sides),
    ensures g_plane(w1), g_keeps(w0, w1)
{
    reveal(g_plane); reveal(g_keeps); reveal(g_closed);
    assert forall|k: int, c: Coords<V::Coordinate>, sides: bool| g_leads(w0, k, c, sides) implies #[trigger] g_leads(w1, k, c, sides) by {
        let a = choose|a: Set<int>| #[trigger] g_closed(w0, a, c, sides) && a.contains(k);
        let to = match w1.qs[q] { QueryNode::Branch(l, r, b) => if g_goes_left(b, c) { l.ix() } else { r.ix() }, QueryNode::Sink(_) => 0 };
        let a1 = if a.contains(q) { a.insert(to) } else { a };
        assert forall|i: int| #[trigger] a1.contains(i) implies 0 <= i < w1.qs.len() && match w1.qs[i] {
            QueryNode::Branch(l, r, b) => a1.contains(if g_goes_left(b, c) { l.ix() } else { r.ix() }),
            QueryNode::Sink(u) => inb(u, w1.ts.len()) && g_within(w1.ts[u.ix()], w1, c, sides),
        } by {
            if a.contains(i) {
                assert(0 <= i < w0.qs.len());
                if i != q {
                    assert(w1.qs[i] == w0.qs[i]); assert(g_node(w0, w0.qs[i], i)); assert(g_node(w0, w0.qs[q], q));
                }
            } else {
                assert(a.contains(q)); assert(g_within(w0.ts[t.ix()], w0, c, sides));
            }
        }
        assert(g_closed(w1, a1, c, sides)); assert(a1.contains(k));
    }
    assert forall|c: Coords<V::Coordinate>| #[trigger] g_leads(w1, 0, c, true) by { assert(g_leads(w0, 0, c, true)); }
    assert forall|i: int| 0 <= i < w1.qs.len() implies g_node(w1, #[trigger] w1.qs[i], i) by {
        if i < w0.qs.len() && i != q { assert(w1.qs[i] == w0.qs[i]); assert(g_node(w0, w0.qs[i], i)); assert(g_node(w0, w0.qs[q], q)); if w0.qs[i] is Sink { assert(w1.ts[w0.qs[i]->Sink_0.ix()].sink == w0.ts[w0.qs[i]->Sink_0.ix()].sink); } }
    }
}
/// only the nexuses' lists change
pub proof fn plane_lists<V: Vertex, I: VertexIndex>(w0: Net<V, I>, w1: Net<V, I>)
    requires g_plane(w0), w1 == (Net { ns: w1.ns, ..w0 }), w1.ns.len() == w0.ns.len(), forall|n: int| 0 <= n < w0.ns.len() ==> (#[trigger] w1.ns[n]).c == w0.ns[n].c,
        forall|n: int, u: Idx<Trapezoid<V, I>>| 0 <= n < w1.ns.len() && #[trigger] w1.ns[n].g_above(u) ==> w0.ns[n].g_above(u) || g_lower(w0, n, u),
    ensures g_plane(w1), g_keeps(w0, w1)
{
    reveal(g_plane); reveal(g_keeps); reveal(g_closed);
    assert forall|u: int| 0 <= u < w1.ts.len() implies g_upright(#[trigger] w1.ts[u], w1.ns) by { assert(g_upright(w0.ts[u], w0.ns)); }
    assert forall|k: int, c: Coords<V::Coordinate>, sides: bool| g_leads(w0, k, c, sides) implies #[trigger] g_leads(w1, k, c, sides) by {
        let a = choose|a: Set<int>| #[trigger] g_closed(w0, a, c, sides) && a.contains(k);
        assert(g_closed(w1, a, c, sides));
    }
    assert forall|n: int, u: Idx<Trapezoid<V, I>>| 0 <= n < w1.ns.len() && #[trigger] w1.ns[n].g_above(u) implies g_lower(w1, n, u) by { if w0.ns[n].g_above(u) { assert(g_lower(w0, n, u)); } }
    assert forall|c: Coords<V::Coordinate>| #[trigger] g_leads(w1, 0, c, true) by { assert(g_leads(w0, 0, c, true)); }
    assert forall|i: int| 0 <= i < w1.qs.len() implies g_node(w1, #[trigger] w1.qs[i], i) by { assert(g_node(w0, w0.qs[i], i)); }
}
/// a trapezoid is cut in two at a nexus that lies in it
pub proof fn plane_vertex<V: Vertex, I: VertexIndex>(w0: Net<V, I>, w1: Net<V, I>, ti: Idx<Trapezoid<V, I>>, tn: Idx<Trapezoid<V, I>>, ni: Idx<Nexus<V, I>>, q: int)
    requires g_plane(w0), g_linked(w0.ns, w0.ts), inb(ti, w0.ts.len()), tn.ix() == w0.ts.len(), ni.ix() == w0.ns.len(), w1.ns.len() == w0.ns.len() + 1, w1.ts.len() == w0.ts.len() + 1, w1.ss == w0.ss,
        0 <= q < w0.qs.len(), w0.qs[q] == QueryNode::<V, I>::Sink(ti), w1.qs.len() == w0.qs.len() + 2, forall|i: int| 0 <= i < w0.qs.len() && i != q ==> #[trigger] w1.qs[i] == w0.qs[i],
        w1.qs[w0.qs.len() as int] == QueryNode::<V, I>::Sink(ti), w1.qs[w0.qs.len() as int + 1] == QueryNode::<V, I>::Sink(tn),
        match w1.qs[q] { QueryNode::Branch(l, r, QueryNodeBranch::Y(v)) => l.ix() == w0.qs.len() && r.ix() == w0.qs.len() + 1 && v == w1.ns[ni.ix()].c, _ => false },
        forall|t: int| 0 <= t < w0.ts.len() && t != ti.ix() ==> #[trigger] w1.ts[t] == w0.ts[t],
        w1.ts[ti.ix()] == (Trapezoid { up: Some(ni), sink: w1.ts[ti.ix()].sink, ..w0.ts[ti.ix()] }), w1.ts[tn.ix()] == (Trapezoid { down: Some(ni), sink: w1.ts[tn.ix()].sink, ..w0.ts[ti.ix()] }),
        w1.ts[ti.ix()].sink.ix() == w0.qs.len(), w1.ts[tn.ix()].sink.ix() == w0.qs.len() + 1,
        w1.ns[ni.ix()].ti_upleft == tn, w1.ns[ni.ix()].dividers is Zero,
        forall|n: int| 0 <= n < w0.ns.len() ==> #[trigger] w1.ns[n] == (if w0.ts[ti.ix()].up is Some && w0.ts[ti.ix()].up->Some_0.ix() == n { w0.ns[n].swapped(ti, tn) } else { w0.ns[n] }),
        g_within(w0.ts[ti.ix()], w0, w1.ns[ni.ix()].c, false),
    ensures g_plane(w1), g_keeps(w0, w1)
{
    let c0 = w1.ns[ni.ix()].c;
    plane_t(w0, ti.ix());
    assert forall|n: int| 0 <= n < w0.ns.len() implies (#[trigger] w1.ns[n]).c == w0.ns[n].c by { }
    assert forall|u: int| 0 <= u < w1.ts.len() implies g_upright(#[trigger] w1.ts[u], w1.ns) by { if u < w0.ts.len() && u != ti.ix() { plane_t(w0, u); } }
    assert forall|n: int, u: Idx<Trapezoid<V, I>>| 0 <= n < w1.ns.len() && #[trigger] w1.ns[n].g_above(u) implies g_lower(w1, n, u) by {
        if n < w0.ns.len() {
            let (rk, last) = choose|rk: Seq<int>, last: int| #[trigger] linked_by(w0.ns, w0.ts, rk, last);
            link_at(w0.ns, w0.ts, rk, last, n); link_once(w0.ns, w0.ts, rk, last, n); swapped_lists(w0.ns[n], ti, tn);
            if w0.ts[ti.ix()].up is Some && w0.ts[ti.ix()].up->Some_0.ix() == n { assert(!w0.ns[n].g_above(ti)); assert(!w0.ns[n].g_below(tn)); }
            assert(w0.ns[n].g_above(u)); plane_n(w0, n, u);
        } else { assert(u == tn); }
    }
    plane_branch(w0, w1, ti, q);
}
/// a segment's upper part cuts a trapezoid into a left and a right one
pub proof fn plane_split<V: Vertex, I: VertexIndex>(w0: Net<V, I>, w1: Net<V, I>, ti: Idx<Trapezoid<V, I>>, tn: Idx<Trapezoid<V, I>>, si: Idx<Segment<V, I>>, q: int)
    requires g_plane(w0), inb(ti, w0.ts.len()), tn.ix() == w0.ts.len(), si.ix() == w0.ss.len(), w1.ns == w0.ns, w1.ts.len() == w0.ts.len() + 1, w1.ss.len() == w0.ss.len() + 1, forall|i: int| 0 <= i < w0.ss.len() ==> #[trigger] w1.ss[i] == w0.ss[i],
        0 <= q < w0.qs.len(), w0.qs[q] == QueryNode::<V, I>::Sink(ti), w1.qs.len() == w0.qs.len() + 2, forall|i: int| 0 <= i < w0.qs.len() && i != q ==> #[trigger] w1.qs[i] == w0.qs[i],
        w1.qs[w0.qs.len() as int] == QueryNode::<V, I>::Sink(ti), w1.qs[w0.qs.len() as int + 1] == QueryNode::<V, I>::Sink(tn),
        match w1.qs[q] { QueryNode::Branch(l, r, QueryNodeBranch::X(lo, hi)) => l.ix() == w0.qs.len() && r.ix() == w0.qs.len() + 1 && lo == w1.ss[si.ix()].c_min && hi == w1.ss[si.ix()].c_max && lo.vy() <= hi.vy(), _ => false },
        forall|t: int| 0 <= t < w0.ts.len() && t != ti.ix() ==> #[trigger] w1.ts[t] == w0.ts[t],
        w1.ts[ti.ix()] == (Trapezoid { right: Some(si), sink: w1.ts[ti.ix()].sink, ..w0.ts[ti.ix()] }), w1.ts[tn.ix()] == (Trapezoid { left: Some(si), sink: w1.ts[tn.ix()].sink, ..w0.ts[ti.ix()] }),
        w1.ts[ti.ix()].sink.ix() == w0.qs.len(), w1.ts[tn.ix()].sink.ix() == w0.qs.len() + 1,
    ensures g_plane(w1), g_keeps(w0, w1)
{
    plane_t(w0, ti.ix());
    assert forall|u: int| 0 <= u < w1.ts.len() implies g_upright(#[trigger] w1.ts[u], w1.ns) by { if u < w0.ts.len() { plane_t(w0, u); } }
    assert forall|n: int, u: Idx<Trapezoid<V, I>>| 0 <= n < w1.ns.len() && #[trigger] w1.ns[n].g_above(u) implies g_lower(w1, n, u) by { plane_n(w0, n, u); }
    plane_branch(w0, w1, ti, q);
}
/// the segment passes below: one part of the next trapezoid goes to the one above it, which grows down to where that ended
pub proof fn plane_merge<V: Vertex, I: VertexIndex>(w0: Net<V, I>, w1: Net<V, I>, ti: Idx<Trapezoid<V, I>>, tu: Idx<Trapezoid<V, I>>, si: Idx<Segment<V, I>>, right: bool, q: int)
    requires g_plane(w0), inb(ti, w0.ts.len()), inb(tu, w0.ts.len()), ti.ix() != tu.ix(), inb(si, w0.ss.len()), w1.ns == w0.ns, w1.ss == w0.ss, w1.ts.len() == w0.ts.len(),
        0 <= q < w0.qs.len(), w0.qs[q] == QueryNode::<V, I>::Sink(ti), w1.qs.len() == w0.qs.len() + 1, forall|i: int| 0 <= i < w0.qs.len() && i != q ==> #[trigger] w1.qs[i] == w0.qs[i],
        w1.qs[w0.qs.len() as int] == QueryNode::<V, I>::Sink(ti), g_leaves(w0.ts, w0.qs),
        match w1.qs[q] { QueryNode::Branch(l, r, QueryNodeBranch::X(lo, hi)) => lo == w0.ss[si.ix()].c_min && hi == w0.ss[si.ix()].c_max && lo.vy() <= hi.vy()
            && if right { l.ix() == w0.qs.len() && r == w0.ts[tu.ix()].sink } else { r.ix() == w0.qs.len() && l == w0.ts[tu.ix()].sink }, _ => false },
        forall|t: int| 0 <= t < w0.ts.len() && t != ti.ix() && t != tu.ix() ==> #[trigger] w1.ts[t] == w0.ts[t],
        w1.ts[ti.ix()] == (if right { Trapezoid { right: Some(si), sink: w1.ts[ti.ix()].sink, ..w0.ts[ti.ix()] } } else { Trapezoid { left: Some(si), sink: w1.ts[ti.ix()].sink, ..w0.ts[ti.ix()] } }),
        w1.ts[ti.ix()].sink.ix() == w0.qs.len(), w1.ts[tu.ix()] == (Trapezoid { down: w0.ts[ti.ix()].down, ..w0.ts[tu.ix()] }),
        w0.ts[ti.ix()].up is Some, w0.ts[ti.ix()].down is Some, w0.ts[tu.ix()].down == w0.ts[ti.ix()].up,
        if right { w0.ts[tu.ix()].left == Some(si) && w0.ts[tu.ix()].right == w0.ts[ti.ix()].right } else { w0.ts[tu.ix()].right == Some(si) && w0.ts[tu.ix()].left == w0.ts[ti.ix()].left },
    ensures g_plane(w1), g_keeps(w0, w1)
{
    plane_t(w0, ti.ix()); plane_t(w0, tu.ix());
    assert forall|u: int| 0 <= u < w1.ts.len() implies g_upright(#[trigger] w1.ts[u], w1.ns) by { plane_t(w0, u); }
    assert forall|n: int, u: Idx<Trapezoid<V, I>>| 0 <= n < w1.ns.len() && #[trigger] w1.ns[n].g_above(u) implies g_lower(w1, n, u) by { plane_n(w0, n, u); }
    assert(w0.qs[w0.ts[tu.ix()].sink.ix()] is Sink && w0.qs[w0.ts[tu.ix()].sink.ix()]->Sink_0.ix() == tu.ix() && inb(w0.ts[tu.ix()].sink, w0.qs.len())) by { reveal(g_leaves); }
    assert(w0.ts[tu.ix()].sink.ix() != q);
    plane_branch(w0, w1, ti, q);
}
/// what was there stays there
pub open spec fn grew<'p, P: PolygonList<'p> + ?Sized>(a: TrapezoidationState<'p, P>, b: TrapezoidationState<'p, P>) -> bool {
    &&& b.ps == a.ps && a.ns@.len() <= b.ns@.len() && a.ss@.len() <= b.ss@.len() && a.qs@.len() <= b.qs@.len() && a.ts@.len() <= b.ts@.len()
    &&& forall|i: int| 0 <= i < a.ns@.len() ==> (#[trigger] b.ns@[i]).vi == a.ns@[i].vi && b.ns@[i].c == a.ns@[i].c
    &&& forall|i: int| 0 <= i < a.ss@.len() ==> #[trigger] b.ss@[i] == a.ss@[i]
}
/// ASSUMED: a vector holds at most isize::MAX bytes, and these records are larger than eight
pub axiom fn len_n<V: Vertex, I: VertexIndex>(v: &Vec<Nexus<V, I>>) ensures v@.len() < usize::MAX / 8;
pub axiom fn len_s<V: Vertex, I: VertexIndex>(v: &Vec<Segment<V, I>>) ensures v@.len() < usize::MAX / 8;
pub axiom fn len_t<V: Vertex, I: VertexIndex>(v: &Vec<Trapezoid<V, I>>) ensures v@.len() < usize::MAX / 8;
pub axiom fn len_q<V: Vertex, I: VertexIndex>(v: &Vec<QueryNode<V, I>>) ensures v@.len() < usize::MAX / 8;
pub axiom fn len_v<V: Vertex, I: VertexIndex>(v: &[VertexLocation<V, I>]) ensures v@.len() < usize::MAX / 8;
pub proof fn lens<'p, P: PolygonList<'p> + ?Sized>(s: &TrapezoidationState<'p, P>)
    ensures s.ns@.len() < usize::MAX / 8, s.ss@.len() < usize::MAX / 8, s.ts@.len() < usize::MAX / 8, s.qs@.len() < usize::MAX / 8
{ len_n(&s.ns); len_s(&s.ss); len_t(&s.ts); len_q(&s.qs); }

//@ in trapezoidation::TrapezoidationStructure
    spec fn v_ps(&self) -> PolygonListExt<'p, P>;
    spec fn v_ns(&self) -> Seq<Nexus<P::Vertex, P::Index>>;
    spec fn v_ss(&self) -> Seq<Segment<P::Vertex, P::Index>>;
    spec fn v_ts(&self) -> Seq<Trapezoid<P::Vertex, P::Index>>;
    spec fn v_qs(&self) -> Seq<QueryNode<P::Vertex, P::Index>>;
//@ in trapezoidation::TrapezoidationStructure@TrapezoidationState
    open spec fn v_ps(&self) -> PolygonListExt<'p, P> { self.ps }
    open spec fn v_ns(&self) -> Seq<Nexus<P::Vertex, P::Index>> { self.ns@ }
    open spec fn v_ss(&self) -> Seq<Segment<P::Vertex, P::Index>> { self.ss@ }
    open spec fn v_ts(&self) -> Seq<Trapezoid<P::Vertex, P::Index>> { self.ts@ }
    open spec fn v_qs(&self) -> Seq<QueryNode<P::Vertex, P::Index>> { self.qs@ }
//@ in trapezoidation::TrapezoidationStructure@Trapezoidation
    open spec fn v_ps(&self) -> PolygonListExt<'p, P> { self.ps }
    open spec fn v_ns(&self) -> Seq<Nexus<P::Vertex, P::Index>> { self.ns@ }
    open spec fn v_ss(&self) -> Seq<Segment<P::Vertex, P::Index>> { self.ss@ }
    open spec fn v_ts(&self) -> Seq<Trapezoid<P::Vertex, P::Index>> { self.ts@ }
    open spec fn v_qs(&self) -> Seq<QueryNode<P::Vertex, P::Index>> { self.qs@ }
//@ fn trapezoidation::TrapezoidationStructure::ps -> r
    ensures r == self.v_ps()
//@ fn trapezoidation::TrapezoidationStructure::ns -> r
    ensures r@ == self.v_ns()
//@ fn trapezoidation::TrapezoidationStructure::ss -> r
    ensures r@ == self.v_ss()
//@ fn trapezoidation::TrapezoidationStructure::ts -> r
    ensures r@ == self.v_ts()
//@ fn trapezoidation::TrapezoidationStructure::qs -> r
    ensures r@ == self.v_qs()
//@ fn trapezoidation::TrapezoidationStructure::query_node_root -> r
    ensures r.ix() == 0
//@ fn trapezoidation::TrapezoidationStructure::find_trapezoid -> r
    requires self.v_qs().len() > 0, g_acyclic(self.v_qs()), forall|i: int| 0 <= i < self.v_qs().len() ==> (#[trigger] self.v_qs()[i]).q_ok(self.v_qs().len(), self.v_ts().len())
    ensures inb(r.0, self.v_qs().len()), inb(r.1, self.v_ts().len()), self.v_qs()[r.0.ix()] == QueryNode::Sink(r.1), // @C04
        <P::Vertex as Vertex>::Coordinate::exact() && (forall|i: int| 0 <= i < self.v_qs().len() ==> g_node((Net { ns: self.v_ns(), ss: self.v_ss(), ts: self.v_ts(), qs: self.v_qs() }), #[trigger] self.v_qs()[i], i)) ==> forall|sides: bool| #[trigger] g_leads((Net { ns: self.v_ns(), ss: self.v_ss(), ts: self.v_ts(), qs: self.v_qs() }), 0, c, sides) ==> g_within(self.v_ts()[r.1.ix()], (Net { ns: self.v_ns(), ss: self.v_ss(), ts: self.v_ts(), qs: self.v_qs() }), c, sides), // @C01
//@ fn trapezoidation::TrapezoidationStructure::find_trapezoid_from_root -> r
    requires inb(qi_root, self.v_qs().len()), g_acyclic(self.v_qs()), forall|i: int| 0 <= i < self.v_qs().len() ==> (#[trigger] self.v_qs()[i]).q_ok(self.v_qs().len(), self.v_ts().len())
    ensures inb(r.0, self.v_qs().len()), inb(r.1, self.v_ts().len()), self.v_qs()[r.0.ix()] == QueryNode::Sink(r.1), // @C04
        <P::Vertex as Vertex>::Coordinate::exact() && (forall|i: int| 0 <= i < self.v_qs().len() ==> g_node((Net { ns: self.v_ns(), ss: self.v_ss(), ts: self.v_ts(), qs: self.v_qs() }), #[trigger] self.v_qs()[i], i)) ==> forall|sides: bool| #[trigger] g_leads((Net { ns: self.v_ns(), ss: self.v_ss(), ts: self.v_ts(), qs: self.v_qs() }), qi_root.ix(), c, sides) ==> g_within(self.v_ts()[r.1.ix()], (Net { ns: self.v_ns(), ss: self.v_ss(), ts: self.v_ts(), qs: self.v_qs() }), c, sides), // @C01
//@ start
    let ghost qr = choose|qr: Seq<int>| #[trigger] g_falls(self.v_qs(), qr);
    let ghost w = (Net { ns: self.v_ns(), ss: self.v_ss(), ts: self.v_ts(), qs: self.v_qs() });
    let ghost nodes = forall|i: int| 0 <= i < self.v_qs().len() ==> g_node((Net { ns: self.v_ns(), ss: self.v_ss(), ts: self.v_ts(), qs: self.v_qs() }), #[trigger] self.v_qs()[i], i);
//@ loop 0
    invariant
        inb(qi, self.v_qs().len()), // @C04
        g_falls(self.v_qs(), qr),
        forall|i: int| 0 <= i < self.v_qs().len() ==> (#[trigger] self.v_qs()[i]).q_ok(self.v_qs().len(), self.v_ts().len()),
        <P::Vertex as Vertex>::Coordinate::exact() && nodes ==> forall|sides: bool| #[trigger] g_leads(w, qi_root.ix(), c, sides) ==> g_leads(w, qi.ix(), c, sides), // @C01
        w == (Net { ns: self.v_ns(), ss: self.v_ss(), ts: self.v_ts(), qs: self.v_qs() }), nodes == forall|i: int| 0 <= i < self.v_qs().len() ==> g_node((Net { ns: self.v_ns(), ss: self.v_ss(), ts: self.v_ts(), qs: self.v_qs() }), #[trigger] self.v_qs()[i], i),
    decreases qr[qi.ix()] // @C04
//@ loopstart 0
    proof {
        falls_step(self.v_qs(), qr, qi.ix());
        if <P::Vertex as Vertex>::Coordinate::exact() && nodes {
            assert(g_node(w, self.v_qs()[qi.ix()], qi.ix()));
            assert forall|sides: bool| #[trigger] g_leads(w, qi_root.ix(), c, sides) implies match w.qs[qi.ix()] { QueryNode::Branch(l, r, b) => g_leads(w, if g_goes_left(b, c) { l.ix() } else { r.ix() }, c, sides), QueryNode::Sink(t) => g_within(w.ts[t.ix()], w, c, sides) } by { leads_step(w, qi.ix(), c, sides); }
        }
    }

//@ in trapezoidation::VertexLocation
    pub open spec fn c(&self) -> Coords<V::Coordinate> { match *self { VertexLocation::Pending(c, _, _) => c, VertexLocation::Inserted(c, _) => c } }
    /// the vertex this is the location of
    pub open spec fn who(&self, ns: Seq<Nexus<V, Index>>) -> Index { match *self { VertexLocation::Pending(_, i, _) => i, VertexLocation::Inserted(_, ni) => ns[ni.ix()].vi } }
//@ fn trapezoidation::VertexLocation::coords -> r
    ensures r == self.c()
//@ fn trapezoidation::Clone@VertexLocation::clone -> r
    ensures r == *self
//@ mod trapezoidation
pub open spec fn vl_ok<'p, P: PolygonList<'p> + ?Sized>(p: &'p P, vl: VertexLocation<P::Vertex, P::Index>, ns: Seq<Nexus<P::Vertex, P::Index>>, nq: nat) -> bool {
    match vl {
        VertexLocation::Pending(c, i, qi) => p.yields(i) && c == pc(p, i) && inb(qi, nq),
        VertexLocation::Inserted(c, ni) => inb(ni, ns.len()) && c == ns[ni.ix()].c,
    }
}
#[verifier::opaque]
pub open spec fn hint_ok<V: Vertex, I: VertexIndex>(w: Net<V, I>, vl: VertexLocation<V, I>) -> bool { match vl { VertexLocation::Pending(c, _, qi) => g_leads(w, qi.ix(), c, false), VertexLocation::Inserted(_, _) => true } }
pub proof fn hint_keep<V: Vertex, I: VertexIndex>(w0: Net<V, I>, w1: Net<V, I>) requires g_keeps(w0, w1) ensures forall|vl: VertexLocation<V, I>| hint_ok(w0, vl) ==> #[trigger] hint_ok(w1, vl) { reveal(g_keeps); reveal(hint_ok); }
pub proof fn hint_leads<V: Vertex, I: VertexIndex>(w: Net<V, I>, c: Coords<V::Coordinate>, i: I, q: Idx<QueryNode<V, I>>) ensures hint_ok(w, VertexLocation::<V, I>::Pending(c, i, q)) == g_leads(w, q.ix(), c, false) { reveal(hint_ok); }
pub proof fn hint_done<V: Vertex, I: VertexIndex>(w: Net<V, I>) ensures forall|vl: VertexLocation<V, I>| vl is Inserted ==> #[trigger] hint_ok(w, vl) { reveal(hint_ok); }
pub proof fn hint_root<V: Vertex, I: VertexIndex>(w: Net<V, I>) requires g_plane(w) ensures forall|vl: VertexLocation<V, I>| vl is Pending && vl->Pending_2.ix() == 0 ==> #[trigger] hint_ok(w, vl)
{ reveal(hint_ok); assert forall|vl: VertexLocation<V, I>| vl is Pending && vl->Pending_2.ix() == 0 implies #[trigger] hint_ok(w, vl) by { leads_root(w, vl->Pending_0); } }
/// the point lies between this trapezoid's ends
#[verifier::opaque]
pub open spec fn g_holds<V: Vertex, I: VertexIndex>(w: Net<V, I>, t: Idx<Trapezoid<V, I>>, c: Coords<V::Coordinate>) -> bool { inb(t, w.ts.len()) && g_within(w.ts[t.ix()], w, c, false) }
/// the trapezoid does not lie wholly beyond the point, seen from where the walk came
#[verifier::opaque]
pub open spec fn g_near<V: Vertex, I: VertexIndex>(w: Net<V, I>, ti: Idx<Trapezoid<V, I>>, c: Coords<V::Coordinate>, up: bool) -> bool {
    let t = w.ts[ti.ix()];
    inb(ti, w.ts.len()) && if up { t.down is Some ==> inb(t.down->Some_0, w.ns.len()) && lex_le(w.ns[t.down->Some_0.ix()].c, c) } else { t.up is Some ==> inb(t.up->Some_0, w.ns.len()) && lex_le(c, w.ns[t.up->Some_0.ix()].c) }
}
pub proof fn near_nexus<V: Vertex, I: VertexIndex>(w: Net<V, I>, rk: Seq<int>, last: int, n: int, t: Idx<Trapezoid<V, I>>, c: Coords<V::Coordinate>, up: bool)
    requires g_plane(w), linked_by(w.ns, w.ts, rk, last), 0 <= n < w.ns.len(), if up { w.ns[n].g_above(t) && lex_le(w.ns[n].c, c) } else { w.ns[n].g_below(t) && lex_le(c, w.ns[n].c) }
    ensures g_near(w, t, c, up)
{ reveal(g_near); link_at(w.ns, w.ts, rk, last, n); if up { plane_n(w, n, t); } }
pub proof fn near_trap<V: Vertex, I: VertexIndex>(w: Net<V, I>, t: Idx<Trapezoid<V, I>>, c0: Coords<V::Coordinate>, c: Coords<V::Coordinate>, up: bool)
    requires g_holds(w, t, c0), if up { lex_le(c0, c) } else { lex_le(c, c0) } ensures g_near(w, t, c, up)
{ reveal(g_near); reveal(g_holds); }
pub proof fn near_end<V: Vertex, I: VertexIndex>(w: Net<V, I>, t: Idx<Trapezoid<V, I>>, c: Coords<V::Coordinate>, i: I, up: bool)
    requires g_near(w, t, c, up), g_plane(w), g_leaves(w.ts, w.qs), match if up { w.ts[t.ix()].up } else { w.ts[t.ix()].down } { Some(n) => if up { lex_lt(c, w.ns[n.ix()].c) } else { lex_lt(w.ns[n.ix()].c, c) }, None => true }
    ensures g_holds(w, t, c), hint_ok(w, VertexLocation::<V, I>::Pending(c, i, w.ts[t.ix()].sink))
{ reveal(g_near); reveal(g_holds); reveal(hint_ok); plane_t(w, t.ix()); leads_leaf(w, t, c); }
pub open spec fn vls_ok<'p, P: PolygonList<'p> + ?Sized>(s: TrapezoidationState<'p, P>, vls: Seq<VertexLocation<P::Vertex, P::Index>>) -> bool {
    &&& forall|k: int| 0 <= k < vls.len() ==> vl_ok(s.ps.0, #[trigger] vls[k], s.ns@, s.qs@.len())
    // the search for a pending one may start where it is noted
    &&& <P::Vertex as Vertex>::Coordinate::exact() ==> forall|k: int| 0 <= k < vls.len() ==> hint_ok(g_net(s), #[trigger] vls[k])
    &&& g_apart(vls)
}
/// each inserted vertex has a nexus of its own
#[verifier::opaque]
pub open spec fn g_apart<V: Vertex, I: VertexIndex>(vls: Seq<VertexLocation<V, I>>) -> bool {
    forall|k: int, l: int| 0 <= k < l < vls.len() ==> ((#[trigger] vls[k]) is Inserted && (#[trigger] vls[l]) is Inserted ==> vls[k]->Inserted_1.ix() != vls[l]->Inserted_1.ix())
}
pub proof fn apart_pending<V: Vertex, I: VertexIndex>(v: Seq<VertexLocation<V, I>>, k: int, x: VertexLocation<V, I>) requires g_apart(v), 0 <= k < v.len(), x is Pending ensures g_apart(v.update(k, x)) { reveal(g_apart); }
/// how many are pending
pub open spec fn pend<V: Vertex, Index: VertexIndex>(vls: Seq<VertexLocation<V, Index>>) -> nat decreases vls.len() {
    if vls.len() == 0 { 0 } else { pend(vls.drop_last()) + if vls.last() is Pending { 1nat } else { 0nat } }
}
pub proof fn pend_update<V: Vertex, Index: VertexIndex>(vls: Seq<VertexLocation<V, Index>>, k: int, x: VertexLocation<V, Index>)
    requires 0 <= k < vls.len()
    ensures pend(vls.update(k, x)) + (if vls[k] is Pending { 1nat } else { 0nat }) == pend(vls) + if x is Pending { 1nat } else { 0nat }
    decreases vls.len()
{
    if k == vls.len() - 1 { assert(vls.update(k, x).drop_last() =~= vls.drop_last()); }
    else { pend_update(vls.drop_last(), k, x); assert(vls.update(k, x).drop_last() =~= vls.drop_last().update(k, x)); assert(vls.update(k, x).last() == vls.last()); }
}
pub proof fn pend_len<V: Vertex, Index: VertexIndex>(vls: Seq<VertexLocation<V, Index>>)
    ensures pend(vls) <= vls.len(), (forall|k: int| 0 <= k < vls.len() ==> (#[trigger] vls[k]) is Pending) ==> pend(vls) == vls.len(),
        (exists|k: int| 0 <= k < vls.len() && (#[trigger] vls[k]) is Inserted) ==> pend(vls) < vls.len()
    decreases vls.len()
{
    if vls.len() > 0 {
        pend_len(vls.drop_last());
        if forall|k: int| 0 <= k < vls.len() ==> (#[trigger] vls[k]) is Pending { assert forall|k: int| 0 <= k < vls.drop_last().len() implies (#[trigger] vls.drop_last()[k]) is Pending by { assert(vls[k] is Pending); } assert(vls[vls.len() - 1] is Pending); }
        if exists|k: int| 0 <= k < vls.len() && (#[trigger] vls[k]) is Inserted { let k = choose|k: int| 0 <= k < vls.len() && (#[trigger] vls[k]) is Inserted; if k < vls.len() - 1 { assert(vls.drop_last()[k] is Inserted); } }
    }
}
pub proof fn pend_add<V: Vertex, Index: VertexIndex>(a: Seq<VertexLocation<V, Index>>, b: Seq<VertexLocation<V, Index>>)
    ensures pend(a + b) == pend(a) + pend(b)
    decreases b.len()
{ if b.len() == 0 { assert(a + b =~= a); } else { assert((a + b).drop_last() =~= a + b.drop_last()); pend_add(a, b.drop_last()); } }
/// the locations in the order they come when walking round from position k on
pub open spec fn g_round<V: Vertex, Index: VertexIndex>(vls: Seq<VertexLocation<V, Index>>, k: int) -> Seq<VertexLocation<V, Index>> { vls.skip(k) + vls.take(k) }
pub proof fn pend_round<V: Vertex, Index: VertexIndex>(vls: Seq<VertexLocation<V, Index>>, k: int)
    requires 0 <= k <= vls.len() ensures pend(g_round(vls, k)) == pend(vls)
{ pend_add(vls.skip(k), vls.take(k)); pend_add(vls.take(k), vls.skip(k)); assert(vls.take(k) + vls.skip(k) =~= vls); }
pub proof fn pend_step<V: Vertex, Index: VertexIndex>(s: Seq<VertexLocation<V, Index>>)
    requires s.len() > 0 ensures pend(s) == pend(s.skip(1)) + if s[0] is Pending { 1nat } else { 0nat }
{ pend_add(seq![s[0]], s.skip(1)); assert(seq![s[0]] + s.skip(1) =~= s); assert(seq![s[0]].drop_last() =~= Seq::<VertexLocation<V, Index>>::empty()); assert(pend(Seq::<VertexLocation<V, Index>>::empty()) == 0); assert(seq![s[0]].last() == s[0]); }
/// a segment for this edge
pub open spec fn g_joins<V: Vertex, Index: VertexIndex>(s: Segment<V, Index>, a: VertexLocation<V, Index>, b: VertexLocation<V, Index>) -> bool {
    &&& a is Inserted && b is Inserted
    &&& s.ni_min == a->Inserted_1 && s.ni_max == b->Inserted_1 || s.ni_min == b->Inserted_1 && s.ni_max == a->Inserted_1
}
pub open spec fn g_joined<V: Vertex, Index: VertexIndex>(ss: Seq<Segment<V, Index>>, a: VertexLocation<V, Index>, b: VertexLocation<V, Index>) -> bool {
    exists|j: int| 0 <= j < ss.len() && g_joins(#[trigger] ss[j], a, b)
}

pub proof fn pend_none<V: Vertex, Index: VertexIndex>(vls: Seq<VertexLocation<V, Index>>)
    requires forall|k: int| 0 <= k < vls.len() ==> (#[trigger] vls[k]) is Inserted
    ensures pend(vls) == 0
    decreases vls.len()
{ if vls.len() > 0 { assert forall|k: int| 0 <= k < vls.drop_last().len() implies (#[trigger] vls.drop_last()[k]) is Inserted by { assert(vls[k] is Inserted); } pend_none(vls.drop_last()); assert(vls[vls.len() - 1] is Inserted); } }
/// the edge from this vertex to the next one has its segment
pub open spec fn edge_done<'p, P: PolygonList<'p> + ?Sized>(s: TrapezoidationState<'p, P>, vls: Seq<VertexLocation<P::Vertex, P::Index>>, k: int) -> bool {
    0 <= k < vls.len() && g_joined(s.ss@, vls[k], vls[succ(k, vls.len())])
}
pub proof fn edge_keep<'p, P: PolygonList<'p> + ?Sized>(s0: TrapezoidationState<'p, P>, v0: Seq<VertexLocation<P::Vertex, P::Index>>, s1: TrapezoidationState<'p, P>, v1: Seq<VertexLocation<P::Vertex, P::Index>>, k: int)
    requires edge_done(s0, v0, k), grew(s0, s1), v1.len() == v0.len(), forall|k: int| 0 <= k < v0.len() ==> (v0[k] is Inserted ==> #[trigger] v1[k] == v0[k])
    ensures edge_done(s1, v1, k)
{
    let (a, b) = (v0[k], v0[succ(k, v0.len())]);
    let j = choose|j: int| 0 <= j < s0.ss@.len() && g_joins(#[trigger] s0.ss@[j], a, b);
    assert(s1.ss@[j] == s0.ss@[j]); assert(v1[k] == a && v1[succ(k, v0.len())] == b);
}
pub proof fn perm(a: Seq<usize>, b: Seq<usize>, n: usize)
    requires a.to_multiset() == b.to_multiset(), b.len() == n, forall|i: int| 0 <= i < n ==> b[i] == i
    ensures a.len() == n, forall|i: int| 0 <= i < n ==> (#[trigger] a[i]) < n, forall|k: int| 0 <= k < n ==> #[trigger] a.contains(k as usize)
{
    a.to_multiset_ensures(); b.to_multiset_ensures();
    assert forall|i: int| 0 <= i < n implies (#[trigger] a[i]) < n by { assert(a.contains(a[i])); assert(b.to_multiset().count(a[i]) > 0); assert(b.contains(a[i])); }
    assert forall|k: int| 0 <= k < n implies #[trigger] a.contains(k as usize) by { assert(b.contains(b[k])); assert(a.to_multiset().count(b[k]) > 0); assert(a.contains(b[k])); }
}
//@ in trapezoidation::TrapezoidationState
    pub open spec fn ok(&self) -> bool { g_parts(self.ps.0, self.ns@, self.ss@, self.ts@, self.qs@) }
//@ fn trapezoidation::TrapezoidationState::new -> r
    requires ps.list_ok()
    ensures r.ok(), r.ps.0 == ps, r.ns@.len() == 0, r.ss@.len() == 0 // @C04
//@ start
    proof { start_ok::<P::Vertex, P::Index>(); assert forall|w: Net<P::Vertex, P::Index>| w.ns.len() == 0 && w.ts.len() == 1 && w.qs.len() == 1 && w.ts[0].up is None && w.ts[0].down is None && w.ts[0].left is None && w.ts[0].right is None && w.ts[0].sink.ix() == 0 && w.qs[0] is Sink && w.qs[0]->Sink_0.ix() == 0 implies #[trigger] g_plane(w) by { plane_start(w); } }
//@ fn trapezoidation::TrapezoidationState::check_consistency
//@ fn trapezoidation::TrapezoidationState::add_vertex -> r
    requires old(self).ok(), old(self).ps.0.yields(vi), inb(qi_root, old(self).qs@.len()),
        <P::Vertex as Vertex>::Coordinate::exact() ==> g_leads(g_net(*old(self)), qi_root.ix(), pc(old(self).ps.0, vi), false), // @C01
    ensures
        r is Ok && <P::Vertex as Vertex>::Coordinate::exact() ==> forall|x: VertexLocation<P::Vertex, P::Index>| hint_ok(g_net(*old(self)), x) ==> #[trigger] hint_ok(g_net(*final(self)), x), // @C01
        r is Ok ==> final(self).ok(), // @C04
        r is Ok ==> grew(*old(self), *final(self)) && final(self).ns@.len() == old(self).ns@.len() + 1 && final(self).ss@ == old(self).ss@, // @C01
        r is Ok ==> r->Ok_0.ix() == old(self).ns@.len() && final(self).ns@[r->Ok_0.ix()].vi == vi, // @C01 C03
//@ start
    proof { lens(self); if <P::Vertex as Vertex>::Coordinate::exact() { plane_nodes(g_net(*self)); } }
    let ghost s0 = *self;
//@ before Ok(ni)
        proof {
            if <P::Vertex as Vertex>::Coordinate::exact() { plane_vertex(g_net(s0), g_net(*self), ti, ti_new, ni, qi_parent.ix()); hint_keep(g_net(s0), g_net(*self)); }
            link_vertex(s0.ns@, s0.ts@, self.ns@, self.ts@, ti, ti_new, ni);
            acyclic_branch(s0.qs@, self.qs@, qi_parent.ix());
            assert(g_leaves(self.ts@, self.qs@)) by { reveal(g_leaves); }
        }
//@ fn trapezoidation::TrapezoidationState::add_segment -> r
    requires old(self).ok(), inb(ni_min, old(self).ns@.len()), inb(ni_max, old(self).ns@.len()), ni_min.ix() != ni_max.ix(),
        c_min == old(self).ns@[ni_min.ix()].c, c_max == old(self).ns@[ni_max.ix()].c,
        <P::Vertex as Vertex>::Coordinate::exact() ==> c_min.vy() <= c_max.vy()
    ensures
        r is Ok ==> final(self).ok(), // @C04
        r is Ok ==> grew(*old(self), *final(self)) && final(self).ns@.len() == old(self).ns@.len() && final(self).ss@.len() == old(self).ss@.len() + 1, // @C01
        r is Ok ==> final(self).ss@.last().ni_min == ni_min && final(self).ss@.last().ni_max == ni_max, // @C01
        r is Ok && <P::Vertex as Vertex>::Coordinate::exact() ==> forall|x: VertexLocation<P::Vertex, P::Index>| hint_ok(g_net(*old(self)), x) ==> #[trigger] hint_ok(g_net(*final(self)), x), // @C01
//@ attr #[verifier::spinoff_prover]
//@ attr #[verifier::rlimit(60)]
//@ start
    proof { lens(self); }
    let ghost s0 = *self;
    let ghost (rk, last) = choose|rk: Seq<int>, last: int| #[trigger] linked_by(self.ns@, self.ts@, rk, last);
    proof { link_at(s0.ns@, s0.ts@, rk, last, ni_max.ix()); link_at(s0.ns@, s0.ts@, rk, last, ni_min.ix()); }
//@ after Nexus::add_segment(&mut self.ns, &self.ss, ni_max, si, ti_new)?;
        let ghost s1 = *self;
        proof {
            assert(s0.ns@[ni_max.ix()].g_below(ti));
            link_t(s0.ns@, s0.ts@, rk, last, ti.ix());
            link_ts(s0.ns@, s0.ts@, s1.ts@, rk, last);
            if <P::Vertex as Vertex>::Coordinate::exact() {
                let w1 = Net { ns: s0.ns@, ..g_net(s1) };
                assert(s0.qs@[qi.ix()] == QueryNode::<P::Vertex, P::Index>::Sink(ti)) by { reveal(g_leaves); ix_eq(s0.qs@[qi.ix()]->Sink_0, ti); }
                plane_split(g_net(s0), w1, ti, ti_new, si, qi.ix());
                plane_lists(w1, g_net(s1)); keeps_on(g_net(s0), w1, g_net(s1));
            }
            link_div(s0.ns@, s1.ns@, s1.ts@, rk, last, ni_max.ix(), crate::nexus::Divider { si, ti_right: ti_new, direction: DividerDirection::Descending });
            assert(g_leaves(s1.ts@, s1.qs@)) by { reveal(g_leaves); }
            assert(g_acyclic(s1.qs@)) by { reveal(g_leaves); acyclic_branch(s0.qs@, s1.qs@, qi.ix()); }
        }
//@ before let mut ti_upleft = ti;
        proof {
            if <P::Vertex as Vertex>::Coordinate::exact() && self.ns@ != s1.ns@ {
                link_at(s1.ns@, s1.ts@, rk, last, ni.ix()); link_once(s1.ns@, s1.ts@, rk, last, ni.ix()); swapped_lists(s1.ns@[ni.ix()], ti, ti_new);
                plane_t(g_net(s1), ti.ix()); plane_lists(g_net(s1), g_net(*self)); keeps_on(g_net(s0), g_net(s1), g_net(*self));
            }
            if self.ns@ != s1.ns@ { link_swap(s1.ns@, self.ns@, self.ts@, rk, last, ni.ix(), ti, ti_new); } }
//@ loop 0
    invariant
        self.ok(), grew(s0, *self), self.ns@.len() == s0.ns@.len(), // @C04
        inb(ni, self.ns@.len()), inb(si, self.ss@.len()), inb(ti_upleft, self.ts@.len()), inb(ti_upright, self.ts@.len()), // @C04
        self.ss@.len() == s0.ss@.len() + 1, si.ix() == s0.ss@.len(), self.ss@.last().ni_min == ni_min, self.ss@.last().ni_max == ni_max,
        linked_by(self.ns@, self.ts@, rk, last), // @C04
        self.ts@[ti_upleft.ix()].down == Some(ni), self.ts@[ti_upright.ix()].down == Some(ni), // @C04
        self.ts@[ti_upleft.ix()].right == Some(si), self.ts@[ti_upright.ix()].left == Some(si), self.ss@[si.ix()].c_min == c_min, self.ss@[si.ix()].c_max == c_max, // @C01
        <P::Vertex as Vertex>::Coordinate::exact() ==> g_keeps(g_net(s0), g_net(*self)), // @C01
    decreases last - rk[ni.ix()] // @C04
//@ loopstart 0
    proof {
        lens(self);
        link_at(self.ns@, self.ts@, rk, last, ni.ix());
        link_t(self.ns@, self.ts@, rk, last, ti_upleft.ix());
        link_t(self.ns@, self.ts@, rk, last, ti_upright.ix());
    }
    let ghost (sa, na, la, ra) = (*self, ni, ti_upleft, ti_upright);
//@ loopend 0
    proof {
        assert(sa.ns@[na.ix()].g_below(ti));
        link_t(sa.ns@, sa.ts@, rk, last, ti.ix());
        link_ts(sa.ns@, sa.ts@, self.ts@, rk, last);
        if <P::Vertex as Vertex>::Coordinate::exact() {
            let w1 = Net { ns: sa.ns@, ..g_net(*self) };
            link_at(sa.ns@, sa.ts@, rk, last, na.ix());
            let qm = sa.ts@[ti.ix()].sink.ix();
            assert(sa.qs@[qm] == QueryNode::<P::Vertex, P::Index>::Sink(ti)) by { reveal(g_leaves); ix_eq(sa.qs@[qm]->Sink_0, ti); }
            plane_merge(g_net(sa), w1, ti, if ti_upleft == ti { ra } else { la }, si, ti_upleft == ti, sa.ts@[ti.ix()].sink.ix());
            link_at(sa.ns@, sa.ts@, rk, last, ni.ix()); link_once(sa.ns@, sa.ts@, rk, last, ni.ix()); swapped_lists(sa.ns@[ni.ix()], ti, if ti_upleft == ti { ra } else { la });
            plane_t(w1, if ti_upleft == ti { ra.ix() } else { la.ix() });
            plane_lists(w1, g_net(*self)); keeps_on(g_net(sa), w1, g_net(*self)); keeps_on(g_net(s0), g_net(sa), g_net(*self));
        }
        if self.ns@ != sa.ns@ { link_swap(sa.ns@, self.ns@, self.ts@, rk, last, ni.ix(), ti, if ti_upleft == ti { ti_upright } else { ti_upleft }); }
        assert(g_leaves(self.ts@, self.qs@)) by { reveal(g_leaves); }
        assert(g_acyclic(self.qs@)) by { reveal(g_leaves); acyclic_branch(sa.qs@, self.qs@, sa.ts@[ti.ix()].sink.ix()); }
    }
//@ before Nexus::add_segment(&mut self.ns, &self.ss, ni_min, si, ti_upright)?;
        let ghost s2 = *self;
        proof { link_t(s2.ns@, s2.ts@, rk, last, ti_upright.ix()); }
//@ after Nexus::add_segment(&mut self.ns, &self.ss, ni_min, si, ti_upright)?;
        proof {
            if <P::Vertex as Vertex>::Coordinate::exact() { plane_t(g_net(s2), ti_upright.ix()); plane_lists(g_net(s2), g_net(*self)); keeps_on(g_net(s0), g_net(s2), g_net(*self)); hint_keep(g_net(s0), g_net(*self)); }
            link_div(s2.ns@, self.ns@, self.ts@, rk, last, ni_min.ix(), crate::nexus::Divider { si, ti_right: ti_upright, direction: DividerDirection::Ascending }); }
//@ fn trapezoidation::TrapezoidationState::add_polygon::add_nth_segment::add_vertex -> r
    requires old(state).ok(), old(state).ps.0.yields(index), inb(qi, old(state).qs@.len()), old(vl).c() == pc(old(state).ps.0, index),
        <P::Vertex as Vertex>::Coordinate::exact() ==> hint_ok(g_net(*old(state)), VertexLocation::<P::Vertex, P::Index>::Pending(old(vl).c(), index, qi)), // @C01
    ensures
        r is Ok && <P::Vertex as Vertex>::Coordinate::exact() ==> forall|x: VertexLocation<P::Vertex, P::Index>| hint_ok(g_net(*old(state)), x) ==> #[trigger] hint_ok(g_net(*final(state)), x), // @C01
        r is Ok ==> final(state).ok(), // @C04
        r is Ok ==> grew(*old(state), *final(state)) && final(state).ns@.len() == old(state).ns@.len() + 1 && final(state).ss@ == old(state).ss@, // @C01
        r is Ok ==> r->Ok_0.ix() == old(state).ns@.len() && final(state).ns@[r->Ok_0.ix()].vi == index && *final(vl) == VertexLocation::<P::Vertex, P::Index>::Inserted(old(vl).c(), r->Ok_0), // @C01 C03
//@ start
    proof { hint_leads(g_net(*state), vl.c(), index, qi); }
//@ mod trapezoidation
pub open spec fn succ(si: int, len: nat) -> int { if si + 1 == len { 0 } else { si + 1 } }
//@ fn trapezoidation::TrapezoidationState::add_polygon::add_nth_segment -> r
    requires old(state).ok(), si < old(vls)@.len(), old(vls)@.len() >= 2, vls_ok(*old(state), old(vls)@)
    ensures
        final(vls)@.len() == old(vls)@.len(),
        r is Ok ==> final(state).ok(), // @C04
        r is Ok ==> grew(*old(state), *final(state)) && final(state).ns@.len() == old(state).ns@.len() + r->Ok_0 && final(state).ss@.len() == old(state).ss@.len() + 1, // @C01
        r is Ok ==> forall|k: int| 0 <= k < old(vls)@.len() ==> (old(vls)@[k] is Pending && (#[trigger] final(vls)@[k]) is Inserted ==> final(vls)@[k]->Inserted_1.ix() >= old(state).ns@.len()), // @C01 C03
        r is Ok ==> vls_ok(*final(state), final(vls)@), // @C01 C04
        r is Ok ==> pend(final(vls)@) + r->Ok_0 == pend(old(vls)@), // @C01 C04
        r is Ok ==> forall|k: int| 0 <= k < old(vls)@.len() ==> (#[trigger] final(vls)@[k]).who(final(state).ns@) == old(vls)@[k].who(old(state).ns@) && (old(vls)@[k] is Inserted ==> final(vls)@[k] == old(vls)@[k]), // @C01 C03
        r is Ok ==> g_joined(final(state).ss@, final(vls)@[si as int], final(vls)@[succ(si as int, old(vls)@.len())]), // @C01
//@ attr #[verifier::spinoff_prover]
//@ attr #[verifier::rlimit(60)]
//@ before let c0 = state.ns
            proof {
                let o = old(vls)@; let n = o.len(); let (x0, x1) = (vls@[vli0 as int], vls@[vli1 as int]);
                assert(vli0 != vli1 && vli1 == succ(si as int, n)) by { assert((si + 1) % n as int == if si + 1 == n { 0 } else { si + 1 }) by(nonlinear_arith) requires 0 <= si < n, n >= 2; }
                assert(vls@ =~= o.update(vli0 as int, x0).update(vli1 as int, x1));
                pend_update(o, vli0 as int, x0); pend_update(o.update(vli0 as int, x0), vli1 as int, x1);
                reveal(g_apart); hint_done(g_net(*state)); assert(vls_ok(*state, vls@));
                assert(x0 == VertexLocation::<P::Vertex, P::Index>::Inserted(x0.c(), ni0) && x1 == VertexLocation::<P::Vertex, P::Index>::Inserted(x1.c(), ni1));
            }
            let ghost mid = *state;
//@ before Ok(added_vertices)
            proof { assert(g_joins(state.ss@[mid.ss@.len() as int], vls@[vli0 as int], vls@[vli1 as int])); }
//@ fn trapezoidation::TrapezoidationState::add_polygon -> r
    requires
        old(self).ok(), // @C04
        old(vls)@.len() >= 2, // @C10
        forall|k: int| 0 <= k < old(vls)@.len() ==> (#[trigger] old(vls)@[k]) is Pending && vl_ok(old(self).ps.0, old(vls)@[k], old(self).ns@, old(self).qs@.len()),
        <P::Vertex as Vertex>::Coordinate::exact() ==> forall|k: int| 0 <= k < old(vls)@.len() ==> hint_ok(g_net(*old(self)), #[trigger] old(vls)@[k]), // @C01
    ensures
        final(vls)@.len() == old(vls)@.len(),
        r is Ok ==> final(self).ok(), // @C04
        r is Ok ==> grew(*old(self), *final(self)) && final(self).ns@.len() == old(self).ns@.len() + old(vls)@.len() && final(self).ss@.len() == old(self).ss@.len() + old(vls)@.len(), // @C01
        r is Ok ==> forall|k: int| 0 <= k < old(vls)@.len() ==> (#[trigger] final(vls)@[k])->Inserted_1.ix() >= old(self).ns@.len(), // @C01 C03
        r is Ok ==> vls_ok(*final(self), final(vls)@), // @C01 C03
        r is Ok ==> forall|k: int| 0 <= k < old(vls)@.len() ==> (#[trigger] final(vls)@[k]) is Inserted && vl_ok(final(self).ps.0, final(vls)@[k], final(self).ns@, final(self).qs@.len()) && final(vls)@[k].who(final(self).ns@) == old(vls)@[k].who(old(self).ns@), // @C01 C03
        r is Ok ==> forall|k: int| 0 <= k < old(vls)@.len() ==> g_joined(final(self).ss@, #[trigger] final(vls)@[k], final(vls)@[succ(k, old(vls)@.len())]), // @C01
//@ attr #[verifier::spinoff_prover]
//@ attr #[verifier::rlimit(300)]
//@ attr #[verifier::loop_isolation(false)]
//@ start
    hide(g_parts);
    let ghost s0 = *self;
    let ghost vls0 = vls@;
    proof { pend_len(vls0); len_v(vls); assert(g_apart(vls0)) by { reveal(g_apart); } }
//@ after shuffle(&mut rand::thread_rng());
        let ghost ord = segment_order@;
        let ghost mut j: int = 0;
        proof { perm(ord, Seq::new(len as nat, |i: int| (0 + i) as usize), len); }
//@ loop 0
    invariant
        0 <= j <= len, vp_it.rest() =~= vp_it0.rest().skip(j),
        vls@.len() == len, self.ok(), vls_ok(*self, vls@), grew(s0, *self), // @C04
        pend(vls@) == pending_vertices, self.ns@.len() + pend(vls@) == s0.ns@.len() + len, // @C01 C04
        forall|k: int| 0 <= k < len ==> (#[trigger] vls@[k]).who(self.ns@) == vls0[k].who(s0.ns@), // @C01 C03
        forall|k: int| 0 <= k < len ==> ((#[trigger] vls@[k]) is Inserted ==> vls@[k]->Inserted_1.ix() >= s0.ns@.len()), self.ss@.len() == s0.ss@.len() + j, // @C01 C03
        forall|x: int| 0 <= x < j ==> edge_done(*self, vls@, #[trigger] ord[x] as int), // @C01
        update_count <= j + 1, // @C04
    decreases len - j
//@ loopstart 0
            proof { lens(self); assert(vp_it0.rest()[j] == (j as usize, ord[j])); assert(i == j && vi0 == ord[j]); }
            let ghost (pj, pvls) = (*self, vls@);
//@ before if i == next_update {
            proof {
                assert forall|x: int| 0 <= x < j + 1 implies edge_done(*self, vls@, #[trigger] ord[x] as int) by {
                    if x < j { edge_keep(pj, pvls, *self, vls@, ord[x] as int); }
                }
            }
            let ghost (qj, qvls) = (*self, vls@);
//@ loopend 0
            proof { 
                j = j + 1;
                assert forall|x: int| 0 <= x < j implies edge_done(*self, vls@, #[trigger] ord[x] as int) by { edge_keep(qj, qvls, *self, vls@, ord[x] as int); }
            }
//@ before let mut unlocated_pending_vertices
                proof { reveal(g_parts); }
                let ghost (rk, last) = choose|rk: Seq<int>, last: int| #[trigger] linked_by(self.ns@, self.ts@, rk, last);
                let ghost mut seen: int = 0;
                let ghost way = g_round(qvls, if vi0 + 1 == len { 0 } else { vi0 + 1 });
                proof { pend_round(qvls, if vi0 + 1 == len { 0 } else { vi0 + 1 }); assert(way.skip(0) =~= way); }
                proof { lens(self); assert(edge_done(*self, vls@, ord[j] as int)); assert(vl_ok(self.ps.0, vls@[vi0 as int], self.ns@, self.qs@.len())); }
//@ loop 1
                invariant
                    0 <= seen <= len, vli_target as int == if vi0 + seen < len { vi0 + seen } else { vi0 + seen - len }, unlocated_pending_vertices == pend(way.skip(seen)), // @C04
                    vli_target < len, vls@.len() == len, vls_ok(*self, vls@), pend(vls@) == pend(qvls), // @C04
                    match location { Location::Nexus(ni) => inb(ni, self.ns@.len()), Location::Trapezoid(ti) => inb(ti, self.ts@.len()) }, // @C04
                    forall|k: int| 0 <= k < len ==> (#[trigger] vls@[k]).who(self.ns@) == qvls[k].who(self.ns@) && (qvls[k] is Inserted ==> vls@[k] == qvls[k]) && (qvls[k] is Pending ==> vls@[k] is Pending), // @C01 C03
                    // where the walk stands: at the last nexus it met, or in the trapezoid that holds the last vertex it met
                    <P::Vertex as Vertex>::Coordinate::exact() ==> seen == 0 && vls@[if ord[j] + 1 == len { 0 } else { ord[j] + 1 }] is Inserted || match location { Location::Nexus(ni) => c_origin == self.ns@[ni.ix()].c, Location::Trapezoid(ti) => g_holds(g_net(*self), ti, c_origin) }, // @C01
                decreases len - seen // @C04
//@ loopstart 1
                    proof {
                        assert(way.skip(len as int) =~= Seq::<VertexLocation<P::Vertex, P::Index>>::empty());
                        assert(seen < len);
                        assert((vli_target + 1) % len as int == if vli_target + 1 == len { 0 } else { vli_target + 1 }) by(nonlinear_arith) requires 0 <= vli_target < len;
                        pend_step(way.skip(seen)); assert(way.skip(seen).skip(1) =~= way.skip(seen + 1));
                    }
//@ loopend 1
                    proof { seen = seen + 1; }
//@ before while !reached_containing_trapezoid(
                            proof {
                                if <P::Vertex as Vertex>::Coordinate::exact() {
                                    match location {
                                        Location::Nexus(ni) => { near_nexus(g_net(*self), rk, last, ni.ix(), ti, c_target, ascending); }
                                        Location::Trapezoid(ti) => { near_trap(g_net(*self), ti, c_origin, c_target, ascending); }
                                    }
                                }
                            }
//@ loop 2
                                invariant inb(ti, self.ts@.len()), // @C04
                                    <P::Vertex as Vertex>::Coordinate::exact() ==> g_near(g_net(*self), ti, c_target, ascending), // @C01
                                decreases if ascending { g_upper(self.ts@[ti.ix()], rk) + 1 } else { last - g_upper(self.ts@[ti.ix()], rk) } // @C04
//@ loopstart 2
                                proof { link_t(self.ns@, self.ts@, rk, last, ti.ix()); }
//@ before ti = self.ns[ni].get_trapezoid_between_coords
                                proof { link_at(self.ns@, self.ts@, rk, last, ni.ix()); }
//@ loopend 2
                                proof { link_t(self.ns@, self.ts@, rk, last, ti.ix()); assert(if ascending { self.ns@[ni.ix()].g_above(ti) } else { self.ns@[ni.ix()].g_below(ti) }); if <P::Vertex as Vertex>::Coordinate::exact() { near_nexus(g_net(*self), rk, last, ni.ix(), ti, c_target, ascending); } }
//@ before vls[vli_target] =
                            let ghost v0 = vls@;
                            proof { assert(vl_ok(self.ps.0, v0[vli_target as int], self.ns@, self.qs@.len())); }
//@ after = VertexLocation::Pending(c_target, index.clone(), qi_target);
                            proof { if <P::Vertex as Vertex>::Coordinate::exact() { near_end(g_net(*self), ti, c_target, *index, ascending); } apart_pending(v0, vli_target as int, vls@[vli_target as int]); pend_update(v0, vli_target as int, vls@[vli_target as int]); assert(vls@ =~= v0.update(vli_target as int, vls@[vli_target as int])); }
//@ before Ok(())
        proof {
            assert(j == len);
            assert forall|k: int| 0 <= k < len implies edge_done(*self, vls@, k) by { assert(ord.contains(k as usize)); let x = choose|x: int| 0 <= x < ord.len() && #[trigger] ord[x] == k; assert(edge_done(*self, vls@, ord[x] as int)); }
            assert forall|k: int| 0 <= k < len implies (#[trigger] vls@[k]) is Inserted by { assert(edge_done(*self, vls@, k)); }
            pend_none(vls@);
            assert forall|k: int| 0 <= k < len implies g_joined(self.ss@, #[trigger] vls@[k], vls@[succ(k, len as nat)]) by { assert(edge_done(*self, vls@, k)); }
        }
//@ fn trapezoidation::TrapezoidationState::add_polygon::reached_containing_trapezoid -> r
    requires direction == DividerDirection::Ascending ==> opt_inb(t.up, ns@.len()), direction == DividerDirection::Descending ==> opt_inb(t.down, ns@.len())
    ensures !r ==> (if direction == DividerDirection::Ascending { t.up } else { t.down }) is Some,
        V::Coordinate::exact() ==> r == match if direction == DividerDirection::Ascending { t.up } else { t.down } { Some(n) => if direction == DividerDirection::Ascending { lex_lt(c, ns@[n.ix()].c) } else { lex_lt(ns@[n.ix()].c, c) }, None => true }, // @C01
//@ after .map(|ni|
 -> (vp_f: bool) requires inb(ni, ns@.len()) ensures V::Coordinate::exact() ==> vp_f == if direction == DividerDirection::Ascending { lex_lt(c, ns@[ni.ix()].c) } else { lex_lt(ns@[ni.ix()].c, c) }
//@ mod trapezoidation
/// the elements an enumeration yields, ended by a separator
pub open spec fn g_elements<'p, P: PolygonList<'p> + ?Sized>(p: &'p P) -> Seq<PolygonElement<P::Index>> {
    p.items().map_values(|a: P::IntoItem| crate::vp::into_val::<P::IntoItem, PolygonElement<P::Index>>(a)).push(PolygonElement::NewPolygon)
}
/// the polygon being listed after these elements
pub open spec fn g_cur<I: VertexIndex>(e: Seq<PolygonElement<I>>) -> Seq<I> decreases e.len() {
    if e.len() == 0 { Seq::empty() } else { match e.last() { PolygonElement::ContinuePolygon(i) => g_cur(e.drop_last()).push(i), PolygonElement::NewPolygon => Seq::empty() } }
}
/// the polygons completed by these elements: empty ones do not count
pub open spec fn g_polys<I: VertexIndex>(e: Seq<PolygonElement<I>>) -> Seq<Seq<I>> decreases e.len() {
    if e.len() == 0 { Seq::empty() } else if e.last() is NewPolygon && g_cur(e.drop_last()).len() > 0 { g_polys(e.drop_last()).push(g_cur(e.drop_last())) } else { g_polys(e.drop_last()) }
}
pub open spec fn g_total<I>(ps: Seq<Seq<I>>) -> nat decreases ps.len() { if ps.len() == 0 { 0 } else { g_total(ps.drop_last()) + ps.last().len() } }
/// each vertex of the polygon has a nexus of its own from `lo` on, and each edge a segment
pub open spec fn traced<V: Vertex, Index: VertexIndex>(ns: Seq<Nexus<V, Index>>, ss: Seq<Segment<V, Index>>, poly: Seq<Index>, lo: int, w: Seq<VertexLocation<V, Index>>) -> bool {
    &&& w.len() == poly.len() && lo + poly.len() <= ns.len()
    &&& forall|k: int| 0 <= k < w.len() ==> (#[trigger] w[k]) is Inserted && lo <= w[k]->Inserted_1.ix() < lo + poly.len() && ns[w[k]->Inserted_1.ix()].vi == poly[k]
    &&& forall|k: int, l: int| 0 <= k < l < w.len() ==> (#[trigger] w[k])->Inserted_1.ix() != (#[trigger] w[l])->Inserted_1.ix()
    &&& forall|k: int| 0 <= k < w.len() ==> g_joined(ss, #[trigger] w[k], w[succ(k, w.len())])
}
pub open spec fn traces<V: Vertex, Index: VertexIndex>(ns: Seq<Nexus<V, Index>>, ss: Seq<Segment<V, Index>>, poly: Seq<Index>, lo: int) -> bool { exists|w: Seq<VertexLocation<V, Index>>| #[trigger] traced(ns, ss, poly, lo, w) }
/// the nexuses are the vertices of the polygons, the segments their edges
pub open spec fn holds<V: Vertex, Index: VertexIndex>(ns: Seq<Nexus<V, Index>>, ss: Seq<Segment<V, Index>>, ps: Seq<Seq<Index>>) -> bool {
    &&& ns.len() == g_total(ps) && ss.len() == g_total(ps)
    &&& forall|m: int| 0 <= m < ps.len() ==> (#[trigger] ps[m]).len() >= 3 && traces(ns, ss, ps[m], g_total(ps.take(m)) as int)
}
pub proof fn traces_keep<'p, P: PolygonList<'p> + ?Sized>(a: TrapezoidationState<'p, P>, b: TrapezoidationState<'p, P>, poly: Seq<P::Index>, lo: int)
    requires traces(a.ns@, a.ss@, poly, lo), grew(a, b), lo >= 0
    ensures traces(b.ns@, b.ss@, poly, lo)
{
    let w = choose|w: Seq<VertexLocation<P::Vertex, P::Index>>| #[trigger] traced(a.ns@, a.ss@, poly, lo, w);
    assert forall|k: int| 0 <= k < w.len() implies (#[trigger] w[k]) is Inserted && lo <= w[k]->Inserted_1.ix() < lo + poly.len() && b.ns@[w[k]->Inserted_1.ix()].vi == poly[k] by { assert(b.ns@[w[k]->Inserted_1.ix()].vi == a.ns@[w[k]->Inserted_1.ix()].vi); }
    assert forall|k: int| 0 <= k < w.len() implies g_joined(b.ss@, #[trigger] w[k], w[succ(k, w.len())]) by {
        assert(g_joined(a.ss@, w[k], w[succ(k, w.len())]));
        let j = choose|j: int| 0 <= j < a.ss@.len() && g_joins(#[trigger] a.ss@[j], w[k], w[succ(k, w.len())]); assert(b.ss@[j] == a.ss@[j]);
    }
    assert(traced(b.ns@, b.ss@, poly, lo, w));
}
/// a step of the enumeration that completes a polygon
pub proof fn holds_step<'p, P: PolygonList<'p> + ?Sized>(a: TrapezoidationState<'p, P>, b: TrapezoidationState<'p, P>, ps: Seq<Seq<P::Index>>, poly: Seq<P::Index>, w: Seq<VertexLocation<P::Vertex, P::Index>>)
    requires
        holds(a.ns@, a.ss@, ps), grew(a, b), b.ns@.len() == a.ns@.len() + poly.len(), b.ss@.len() == a.ss@.len() + poly.len(), // @C01 C03
        traced(b.ns@, b.ss@, poly, a.ns@.len() as int, w), // @C01 C03 C08
        poly.len() >= 3, // @C10
    ensures holds(b.ns@, b.ss@, ps.push(poly))
{
    let q = ps.push(poly);
    assert(q.drop_last() =~= ps);
    assert forall|m: int| 0 <= m < q.len() implies (#[trigger] q[m]).len() >= 3 && traces(b.ns@, b.ss@, q[m], g_total(q.take(m)) as int) by {
        assert(q.take(m) =~= ps.take(m));
        if m < ps.len() { assert(q[m] == ps[m]); traces_keep(a, b, ps[m], g_total(ps.take(m)) as int); } else { assert(ps.take(m) =~= ps); }
    }
}
/// the polygon listed after `j` elements ends there and is too short, those before it are not
pub open spec fn g_short<I: VertexIndex>(e: Seq<PolygonElement<I>>, j: int, count: usize) -> bool {
    &&& 0 <= j < e.len() && e[j] is NewPolygon && g_cur(e.take(j)).len() == count && 1 <= count <= 2
    &&& forall|m: int| 0 <= m < g_polys(e.take(j)).len() ==> (#[trigger] g_polys(e.take(j))[m]).len() >= 3
}
pub open spec fn has_short<I: VertexIndex>(e: Seq<PolygonElement<I>>, count: usize) -> bool { exists|j: int| g_short(e, j, count) }
//@ fn trapezoidation::TrapezoidationState::build -> r
    requires self.ok(), self.ns@.len() == 0, self.ss@.len() == 0, self.ps.0.list_ok()
    ensures
        r is Ok ==> r->Ok_0.ok() && r->Ok_0.ps == self.ps, // @C04
        r is Ok ==> holds(r->Ok_0.ns@, r->Ok_0.ss@, g_polys(g_elements(self.ps.0))), // @C01 C03 C08 C10
        match r { Err(TrapezoidationError::NotEnoughVertices(count)) => has_short(g_elements(self.ps.0), count), _ => true }, // @C10
//@ attr #[verifier::loop_isolation(false)]
//@ attr #[verifier::rlimit(60)]
//@ start
    let ghost s0 = self;
    let ghost e = g_elements(s0.ps.0);
    let ghost mut j: int = 0;
//@ loop 0
    invariant
        0 <= j <= e.len(), vp_it0.rest() =~= e, vp_it.rest() =~= e.skip(j), self_.ps == s0.ps,
        self_.ok(), // @C04
        v_lookup@.len() == g_cur(e.take(j)).len(), // @C01 C08 C10
        forall|k: int| 0 <= k < v_lookup@.len() ==> (#[trigger] v_lookup@[k]) is Pending && v_lookup@[k]->Pending_1 == g_cur(e.take(j))[k] && vl_ok(s0.ps.0, v_lookup@[k], self_.ns@, self_.qs@.len()), // @C01 C03 C08
        <P::Vertex as Vertex>::Coordinate::exact() ==> forall|k: int| 0 <= k < v_lookup@.len() ==> hint_ok(g_net(self_), #[trigger] v_lookup@[k]), // @C01
        holds(self_.ns@, self_.ss@, g_polys(e.take(j))), // @C01 C03 C08 C10
    decreases e.len() - j
//@ loopstart 0
            let ghost sj = self_;
            let ghost vj = v_lookup@;
            proof {
                assert(e.take(j + 1).drop_last() =~= e.take(j)); assert(polygon_vertex == e[j]);
                if <P::Vertex as Vertex>::Coordinate::exact() { hint_root(g_net(self_)); }
            }
//@ before v_lookup.clear()
                            proof {
                                assert(traced(self_.ns@, self_.ss@, g_cur(e.take(j)), sj.ns@.len() as int, v_lookup@)) by { reveal(g_apart); } // @C01 C03 C08
                                holds_step(sj, self_, g_polys(e.take(j)), g_cur(e.take(j)), v_lookup@);
                            }
//@ before return Err(TrapezoidationError::NotEnoughVertices(v_count))
                            proof { assert(g_short(e, j, v_count)); assert(has_short(e, v_count)); } // @C10
//@ loopend 0
            proof { j = j + 1; }
//@ before Ok(Trapezoidation::new(self
        proof { assert(e.take(j) =~= e); }
//@ fn trapezoidation::Trapezoidation::new -> r
    requires state.ok()
    ensures r.ok(), r.ps == state.ps, r.ns@ == state.ns@, r.ss@ == state.ss@ // @C04
//@ in trapezoidation::Trapezoidation
    pub open spec fn ok(&self) -> bool { g_parts(self.ps.0, self.ns@, self.ss@, self.ts@, self.qs@) }
//@ fn trapezoidation::Trapezoidation::top_trapezoid -> r
    requires self.ok()
    ensures
        r is Ok ==> inb(r->Ok_0, self.ts@.len()), // @C04
        self.qs@[0] is Sink ==> r is Ok, // @C10
//@ start
    let ghost qr = choose|qr: Seq<int>| #[trigger] g_falls(self.qs@, qr);
//@ loop 0
    invariant inb(qi, self.qs@.len()), self.ok(), // @C04
        g_falls(self.qs@, qr),
        self.qs@[0] is Sink ==> qi.ix() == 0, // @C10
    decreases qr[qi.ix()] // @C04
//@ loopstart 0
    proof { falls_step(self.qs@, qr, qi.ix()); }
//@ mod trapezoidation
/// a chain, each of its vertices one the enumeration yielded, with its coordinates
pub open spec fn chain_ok<'p, P: PolygonList<'p> + ?Sized>(p: &'p P, ch: Seq<(P::Index, Coords<<P::Vertex as Vertex>::Coordinate>)>) -> bool {
    forall|i: int| 0 <= i < ch.len() ==> p.yields((#[trigger] ch[i]).0) && ch[i].1 == pc(p, ch[i].0)
}
#[verifier::opaque]
pub open spec fn mb_in<'p, P: PolygonList<'p> + ?Sized>(p: &'p P, m: MonotoneBuilder<P::Index, <P::Vertex as Vertex>::Coordinate>) -> bool { m.mb_ok() && chain_ok(p, m.vec@) }
pub open spec fn ot_in<'p, P: PolygonList<'p> + ?Sized>(p: &'p P, o: Option<Ot<MonotoneBuilder<P::Index, <P::Vertex as Vertex>::Coordinate>>>) -> bool {
    match o { None => true, Some(Ot::One(a)) => mb_in(p, a), Some(Ot::Two(a, b)) => mb_in(p, a) && mb_in(p, b) }
}
/// whether the ears of a chain on this side are listed in chain order
pub open spec fn forth<'p, P: PolygonList<'p> + ?Sized, FB: FanFormat<'p, P>>(left: bool) -> bool { left == (FB::Builder::winding() == crate::TriangleWinding::Counterclockwise) }
/// a fan cut from such a chain, every triangle of it an ear on the chain's side, listed as the builder's winding asks
#[verifier::opaque]
pub open spec fn good_fan<'p, P: PolygonList<'p> + ?Sized, FB: FanFormat<'p, P>>(p: &'p P, fan: Seq<P::Index>) -> bool {
    exists|ch: Seq<(P::Index, Coords<<P::Vertex as Vertex>::Coordinate>)>, left: bool, f: Seq<int>|
        chain_ok(p, ch) && #[trigger] crate::monotone::fan_good(ch, left, forth::<P, FB>(left), f) && fan == crate::monotone::fan_log(ch, f)
}
/// a chain and the fans it was cut into
pub ghost struct Cut<I, C: Real> { pub ch: Seq<(I, Coords<C>)>, pub left: bool, pub fans: Seq<Seq<int>> }
/// the chain's vertices are vertices of the polygons, and the fans are all of it: two triangles less than it has vertices, every one an ear
/// listed as the builder's winding asks, their areas together the area of the chain's polygon
pub open spec fn cut_ok<'p, P: PolygonList<'p> + ?Sized, FB: FanFormat<'p, P>>(p: &'p P, c: Cut<P::Index, <P::Vertex as Vertex>::Coordinate>) -> bool {
    &&& chain_ok(p, c.ch) && c.ch.len() >= 3
    &&& crate::monotone::fans_good(c.ch, c.left, forth::<P, FB>(c.left), c.fans) && crate::monotone::g_tris(c.fans) == c.ch.len() - 2
    &&& crate::monotone::area_kept(c.ch, forth::<P, FB>(c.left), c.fans)
}
pub open spec fn cuts_ok<'p, P: PolygonList<'p> + ?Sized, FB: FanFormat<'p, P>>(p: &'p P, cs: Seq<Cut<P::Index, <P::Vertex as Vertex>::Coordinate>>) -> bool {
    forall|k: int| 0 <= k < cs.len() ==> cut_ok::<P, FB>(p, #[trigger] cs[k])
}
pub open spec fn cuts_log<I: VertexIndex, C: Real>(cs: Seq<Cut<I, C>>) -> Seq<Seq<I>> decreases cs.len() {
    if cs.len() == 0 { Seq::empty() } else { cuts_log(cs.drop_last()) + crate::monotone::fans_log(cs.last().ch, cs.last().fans) }
}
/// everything handed over: chain after chain, each cut up completely
#[verifier::opaque]
pub open spec fn good_log<'p, P: PolygonList<'p> + ?Sized, FB: FanFormat<'p, P>>(p: &'p P, log: Seq<Seq<P::Index>>) -> bool {
    exists|cs: Seq<Cut<P::Index, <P::Vertex as Vertex>::Coordinate>>| #[trigger] cuts_ok::<P, FB>(p, cs) && log == cuts_log(cs)
}
/// in particular every fan is a good one
pub proof fn lem_good_fan<'p, P: PolygonList<'p> + ?Sized, FB: FanFormat<'p, P>>(p: &'p P, cs: Seq<Cut<P::Index, <P::Vertex as Vertex>::Coordinate>>, k: int)
    requires cuts_ok::<P, FB>(p, cs), 0 <= k < cuts_log(cs).len()
    ensures good_fan::<P, FB>(p, cuts_log(cs)[k]) // @C02 C03
    decreases cs.len()
{
    let (a, c) = (cuts_log(cs.drop_last()), cs.last());
    assert(cut_ok::<P, FB>(p, cs[cs.len() - 1]));
    if k < a.len() {
        assert forall|j: int| 0 <= j < cs.drop_last().len() implies cut_ok::<P, FB>(p, #[trigger] cs.drop_last()[j]) by { assert(cs.drop_last()[j] == cs[j]); }
        lem_good_fan::<P, FB>(p, cs.drop_last(), k);
    } else {
        reveal(good_fan); reveal(crate::monotone::fans_good);
        assert(crate::monotone::fan_good(c.ch, c.left, forth::<P, FB>(c.left), c.fans[k - a.len()]));
    }
}
/// where the builder stands after this much output
#[verifier::opaque]
#[verifier::prophetic]
pub open spec fn fb_at<'p, P: PolygonList<'p> + ?Sized, FB: FanFormat<'p, P>>(p: &'p P, fb0: FanBuilderState<'p, P, FB>, fb: FanBuilderState<'p, P, FB>, log: Seq<Seq<P::Index>>) -> bool {
    &&& fb.st_ok(p) && !(fb is Error) && fb.the_base(p) == fb0.the_base(p)
    &&& fb is Uninitialized ==> fb == fb0 && log.len() == 0
    &&& fb0 is Initialized ==> fb is Initialized
    &&& fb is Initialized && fb0 is Uninitialized ==> log.len() > 0
    &&& good_log::<P, FB>(p, log) && crate::monotone::handed(fb0, fb, log)
}
pub proof fn mb_use<'p, P: PolygonList<'p> + ?Sized>(p: &'p P, m: MonotoneBuilder<P::Index, <P::Vertex as Vertex>::Coordinate>)
    requires mb_in(p, m) ensures m.mb_ok(), chain_ok(p, m.vec@)
{ reveal(mb_in); }
pub proof fn mb_start<'p, P: PolygonList<'p> + ?Sized>(p: &'p P, m: MonotoneBuilder<P::Index, <P::Vertex as Vertex>::Coordinate>)
    requires m.mb_ok(), m.vec@.len() == 1, p.yields(m.vec@[0].0), m.vec@[0].1 == pc(p, m.vec@[0].0) ensures mb_in(p, m)
{ reveal(mb_in); }
pub proof fn mb_more<'p, P: PolygonList<'p> + ?Sized>(p: &'p P, m: MonotoneBuilder<P::Index, <P::Vertex as Vertex>::Coordinate>, r: MonotoneBuilder<P::Index, <P::Vertex as Vertex>::Coordinate>, v: (P::Index, Coords<<P::Vertex as Vertex>::Coordinate>))
    requires mb_in(p, m), r.mb_ok(), r.vec@ == m.vec@.push(v), p.yields(v.0), v.1 == pc(p, v.0) ensures mb_in(p, r)
{
    reveal(mb_in);
    assert forall|i: int| 0 <= i < r.vec@.len() implies p.yields((#[trigger] r.vec@[i]).0) && r.vec@[i].1 == pc(p, r.vec@[i].0) by { if i < m.vec@.len() { assert(r.vec@[i] == m.vec@[i]); } }
}
pub proof fn fb_start<'p, P: PolygonList<'p> + ?Sized, FB: FanFormat<'p, P>>(p: &'p P, fb: FanBuilderState<'p, P, FB>)
    requires fb.st_ok(p), !(fb is Error) ensures fb_at::<P, FB>(p, fb, fb, Seq::empty())
{ reveal(fb_at); reveal(good_log); let cs = Seq::<Cut<P::Index, <P::Vertex as Vertex>::Coordinate>>::empty(); assert(cuts_ok::<P, FB>(p, cs) && cuts_log(cs) == Seq::<Seq<P::Index>>::empty()); assert forall|log: Seq<Seq<P::Index>>| #[trigger] fb.st_holds(log) implies fb.st_holds(log + Seq::empty()) by { assert(log + Seq::<Seq<P::Index>>::empty() =~= log); } }
pub proof fn fb_use<'p, P: PolygonList<'p> + ?Sized, FB: FanFormat<'p, P>>(p: &'p P, fb0: FanBuilderState<'p, P, FB>, fb: FanBuilderState<'p, P, FB>, log: Seq<Seq<P::Index>>)
    requires fb_at::<P, FB>(p, fb0, fb, log) ensures fb.st_ok(p), !(fb is Error)
{ reveal(fb_at); }
/// an internal error found here ends it so
pub proof fn fb_stop<'p, P: PolygonList<'p> + ?Sized, FB: FanFormat<'p, P>>(p: &'p P, fb0: FanBuilderState<'p, P, FB>, fb: FanBuilderState<'p, P, FB>, log: Seq<Seq<P::Index>>)
    requires fb_at::<P, FB>(p, fb0, fb, log)
    ensures forall|e: TriangulationError<<FB::Builder as FanBuilder<'p, P>>::Error>| e is InternalError ==> #[trigger] fb.ended_with(fb0, p, e)
{ reveal(fb_at); }
/// a chain was triangulated
pub proof fn fb_more<'p, P: PolygonList<'p> + ?Sized, FB: FanFormat<'p, P>>(p: &'p P, fb0: FanBuilderState<'p, P, FB>, a: FanBuilderState<'p, P, FB>, b: FanBuilderState<'p, P, FB>, log: Seq<Seq<P::Index>>, ch: Seq<(P::Index, Coords<<P::Vertex as Vertex>::Coordinate>)>, left: bool, fans: Seq<Seq<int>>)
    requires fb_at::<P, FB>(p, fb0, a, log), b.st_ok(p), b is Initialized, b.the_base(p) == a.the_base(p), chain_ok(p, ch),
        ch.len() >= 3, crate::monotone::g_tris(fans) == ch.len() - 2, crate::monotone::fans_good(ch, left, forth::<P, FB>(left), fans), crate::monotone::area_kept(ch, forth::<P, FB>(left), fans), crate::monotone::handed(a, b, crate::monotone::fans_log(ch, fans))
    ensures fb_at::<P, FB>(p, fb0, b, log + crate::monotone::fans_log(ch, fans))
{
    reveal(fb_at); reveal(good_log);
    let more = crate::monotone::fans_log(ch, fans);
    let cs = choose|cs: Seq<Cut<P::Index, <P::Vertex as Vertex>::Coordinate>>| #[trigger] cuts_ok::<P, FB>(p, cs) && log == cuts_log(cs);
    let c = Cut { ch, left, fans }; let d = cs.push(c);
    assert(d.drop_last() =~= cs);
    assert forall|k: int| 0 <= k < d.len() implies cut_ok::<P, FB>(p, #[trigger] d[k]) by { if k < cs.len() { assert(d[k] == cs[k]); } }
    assert(cuts_log(d) == log + more);
    assert(fans.len() > 0); assert(more.len() == fans.len()); assert(cuts_ok::<P, FB>(p, d)); assert(good_log::<P, FB>(p, log + more));
    assert forall|l: Seq<Seq<P::Index>>| #[trigger] fb0.st_holds(l) implies b.st_holds(l + (log + more)) by { assert(a.st_holds(l + log)); assert((l + log) + more =~= l + (log + more)); }
}
/// a builder's error in the middle is an error of the whole
pub proof fn fb_fail<'p, P: PolygonList<'p> + ?Sized, FB: FanFormat<'p, P>>(p: &'p P, fb0: FanBuilderState<'p, P, FB>, a: FanBuilderState<'p, P, FB>, log: Seq<Seq<P::Index>>)
    requires fb_at::<P, FB>(p, fb0, a, log)
    ensures forall|b: FanBuilderState<'p, P, FB>, e: TriangulationError<<FB::Builder as FanBuilder<'p, P>>::Error>| #[trigger] b.ended_with(a, p, e) ==> b.ended_with(fb0, p, e)
{ reveal(fb_at); }
/// what walking down from a trapezoid costs at most
pub open spec fn pow4(n: int) -> int decreases n { if n <= 0 { 1 } else { 4 * pow4(n - 1) } }
pub proof fn pow4_mono(a: int, b: int) requires a < b, 0 < b ensures 1 <= pow4(a), 4 * pow4(a) <= pow4(b) decreases b
{ if b - 1 > 0 { if a < b - 1 { pow4_mono(a, b - 1); } else { pow4_mono(a - 1, a); } } else { assert(pow4(0) == 1); assert(pow4(b) == 4 * pow4(b - 1)); } }
pub open spec fn g_walk<V: Vertex, I: VertexIndex>(ts: Seq<Trapezoid<V, I>>, rk: Seq<int>, last: int, t: Idx<Trapezoid<V, I>>) -> int { pow4(last - g_upper(ts[t.ix()], rk)) }
pub open spec fn g_walks<V: Vertex, I: VertexIndex>(ts: Seq<Trapezoid<V, I>>, rk: Seq<int>, last: int, st: Seq<State<V, I>>) -> int decreases st.len() {
    if st.len() == 0 { 0 } else { g_walks(ts, rk, last, st.drop_last()) + g_walk(ts, rk, last, st.last().ti) }
}
pub proof fn pow4_pos(a: int) ensures pow4(a) >= 1 decreases a { if a > 0 { pow4_pos(a - 1); } }
pub proof fn walks_pos<V: Vertex, I: VertexIndex>(ts: Seq<Trapezoid<V, I>>, rk: Seq<int>, last: int, st: Seq<State<V, I>>)
    ensures g_walks(ts, rk, last, st) >= 0 decreases st.len()
{ if st.len() > 0 { walks_pos(ts, rk, last, st.drop_last()); pow4_pos(last - g_upper(ts[st.last().ti.ix()], rk)); } }
/// a step of the walk: down from the nexus below, all ways, or back to one put off
pub open spec fn g_steps<V: Vertex, I: VertexIndex>(n: Nexus<V, I>, s0: Seq<State<V, I>>, s1: Seq<State<V, I>>, t1: Idx<Trapezoid<V, I>>) -> bool {
    ||| s0.len() > 0 && s1 == s0.drop_last() && t1 == s0.last().ti
    ||| s1 == s0 && n.g_below(t1)
    ||| s1.len() == s0.len() + 2 && s1.drop_last().drop_last() == s0 && n.g_below(t1) && n.g_below(s1.last().ti) && n.g_below(s1.drop_last().last().ti)
}
pub proof fn walk_less<V: Vertex, I: VertexIndex>(ns: Seq<Nexus<V, I>>, ts: Seq<Trapezoid<V, I>>, rk: Seq<int>, last: int, s0: Seq<State<V, I>>, t0: Idx<Trapezoid<V, I>>, s1: Seq<State<V, I>>, t1: Idx<Trapezoid<V, I>>)
    requires linked_by(ns, ts, rk, last), inb(t0, ts.len()), ts[t0.ix()].down is Some, g_steps(ns[ts[t0.ix()].down->Some_0.ix()], s0, s1, t1)
    ensures 0 <= g_walks(ts, rk, last, s1) + g_walk(ts, rk, last, t1) < g_walks(ts, rk, last, s0) + g_walk(ts, rk, last, t0)
{
    link_t(ns, ts, rk, last, t0.ix());
    let n = ts[t0.ix()].down->Some_0.ix();
    link_at(ns, ts, rk, last, n);
    let (a, b) = (last - rk[n], last - g_upper(ts[t0.ix()], rk));
    walks_pos(ts, rk, last, s1); walks_pos(ts, rk, last, s0); pow4_pos(last - g_upper(ts[t1.ix()], rk)); pow4_pos(b);
    pow4_mono(a, b);
    if ns[n].g_below(t1) { assert(g_walk(ts, rk, last, t1) == pow4(a)); }
    if s1.len() == s0.len() + 2 && ns[n].g_below(s1.last().ti) && ns[n].g_below(s1.drop_last().last().ti) {
        assert(g_walk(ts, rk, last, s1.last().ti) == pow4(a)); assert(g_walk(ts, rk, last, s1.drop_last().last().ti) == pow4(a));
        assert(g_walks(ts, rk, last, s1) == g_walks(ts, rk, last, s1.drop_last()) + pow4(a));
    }
}
/// two dividers below: both lead down
pub proof fn link_once<V: Vertex, I: VertexIndex>(ns: Seq<Nexus<V, I>>, ts: Seq<Trapezoid<V, I>>, rk: Seq<int>, last: int, n: int)
    requires linked_by(ns, ts, rk, last), 0 <= n < ns.len() ensures ns[n].once()
{ reveal(linked_by); }
//@ fn trapezoidation::Trapezoidation::triangulate_inner::State::new -> r
    ensures r.ti == ti, r.monotones == monotones
//@ fn trapezoidation::Trapezoidation::triangulate_inner -> r
    requires self.ok(), old(fbs).st_ok(self.ps.0), !(*old(fbs) is Error)
    ensures
        r is Ok ==> exists|log: Seq<Seq<P::Index>>| #[trigger] fb_at::<P, FB>(self.ps.0, *old(fbs), *final(fbs), log), // @C01 C02 C03 C05 C06
        self.ns@.len() == 0 ==> r is Ok && *final(fbs) == *old(fbs), // @C10
        r is Err ==> final(fbs).ended_with(*old(fbs), self.ps.0, r->Err_0), // @C05 C07
//@ attr #[verifier::spinoff_prover]
//@ attr #[verifier::loop_isolation(false)]
//@ attr #[verifier::rlimit(100)]
//@ start
    let ghost p = self.ps.0;
    let ghost fb0 = *fbs;
    let ghost mut log: Seq<Seq<P::Index>> = Seq::empty();
    let ghost (rk, last) = choose|rk: Seq<int>, last: int| #[trigger] linked_by(self.ns@, self.ts@, rk, last);
    proof { fb_start::<P, FB>(p, fb0); fb_stop::<P, FB>(p, fb0, fb0, log); }
//@ loop 0
    invariant
        fb_at::<P, FB>(p, fb0, *fbs, log), // @C01 C02 C03 C05 C06
        inb(ti, self.ts@.len()), // @C04
        ot_in(p, monotones), // @C01 C02 C03
        forall|k: int| 0 <= k < branch_stack@.len() ==> inb((#[trigger] branch_stack@[k]).ti, self.ts@.len()), // @C04
        forall|k: int| 0 <= k < branch_stack@.len() ==> ot_in(p, (#[trigger] branch_stack@[k]).monotones), // @C01 C02 C03
        forall|k: int| 0 <= k < monotone_stack@.len() ==> mb_in(p, #[trigger] monotone_stack@[k]), // @C01 C02 C03
        self.ns@.len() == 0 ==> *fbs == fb0 && branch_stack@.len() == 0 && monotone_stack@.len() == 0 && monotones is None, // @C10
    decreases g_walks(self.ts@, rk, last, branch_stack@) + g_walk(self.ts@, rk, last, ti) // @C04
//@ loopend 0
            proof { walk_less(self.ns@, self.ts@, rk, last, st0, ti0, branch_stack@, ti); }
//@ loopstart 0
            let ghost (st0, ti0) = (branch_stack@, ti);
            proof { link_once(self.ns@, self.ts@, rk, last, ni_down.ix()); }
            proof { fb_stop::<P, FB>(p, fb0, *fbs, log); fb_fail::<P, FB>(p, fb0, *fbs, log); }
//@ loop 1
                invariant
                    vp_it0.a is Some, mb_in(p, *vp_it0.a->Some_0), vp_it0.b is Some ==> mb_in(p, *vp_it0.b->Some_0), // @C01 C02 C03
                    vp_it.a is Some ==> vp_it.a == vp_it0.a && vp_it.b == vp_it0.b,
                    vp_it.b is Some ==> vp_it.b == vp_it0.b,
                    vp_it.a is None ==> mb_in(p, *final(vp_it0.a->Some_0)), // @C01 C02 C03
                    vp_it.a is None && vp_it.b is None && vp_it0.b is Some ==> mb_in(p, *final(vp_it0.b->Some_0)), // @C01 C02 C03
                decreases (if vp_it.a is Some { 1int } else { 0 }) + (if vp_it.b is Some { 1int } else { 0 })
//@ loopstart 1
                    let ghost m0 = *monotone;
                    proof { mb_use(p, m0); }
//@ loopend 1
                    proof { mb_more(p, m0, *monotone, (n_down.vi, n_down.c)); }
//@ before match monotone_complete.build() {
                    proof { mb_use(p, monotone_complete); }
//@ before monotone_complete.build_fans::<P, FB>(self.ps, fbs)?;
                                let ghost (ch, left, fba) = (monotone_complete.sp(), monotone_complete.is_left_chain, *fbs);
                                proof { fb_use::<P, FB>(p, fb0, fba, log); }
//@ after monotone_complete.build_fans::<P, FB>(self.ps, fbs)?;
                                proof {
                                let fans = choose|fans: Seq<Seq<int>>| crate::monotone::fans_good(ch, left, forth::<P, FB>(left), fans) && #[trigger] crate::monotone::g_tris(fans) == ch.len() - 2 && crate::monotone::area_kept(ch, forth::<P, FB>(left), fans) && crate::monotone::handed(fba, *fbs, crate::monotone::fans_log(ch, fans));
                                fb_more::<P, FB>(p, fb0, fba, *fbs, log, ch, left, fans);
                                log = log + crate::monotone::fans_log(ch, fans);
                                fb_stop::<P, FB>(p, fb0, *fbs, log); fb_fail::<P, FB>(p, fb0, *fbs, log);
                                }
//@ after let mut monotone_new = MonotoneBuilder::new(vi, c);
                        let ghost m0 = monotone_new;
                        proof { mb_start(p, m0); mb_use(p, m0); }
//@ after monotone_new.add_vertex(n_down.vertex(), n_down.coords()); ## 0
                        proof { mb_more(p, m0, monotone_new, (n_down.vi, n_down.c)); }
//@ after let mut monotone_new = MonotoneBuilder::new(n.vertex(), n.coords());
                                let ghost m0 = monotone_new;
                                proof { mb_start(p, m0); mb_use(p, m0); }
//@ after monotone_new.add_vertex(n_down.vertex(), n_down.coords()); ## 1
                                proof { mb_more(p, m0, monotone_new, (n_down.vi, n_down.c)); }
//@ after let monotone_new = MonotoneBuilder::new(n_down.vertex(), n_down.coords());
                        proof { mb_start(p, monotone_new); }
//@ loop 2
                            invariant
                                fb_at::<P, FB>(p, fb0, *fbs, log), // @C01 C02 C03 C05 C06
                                forall|k: int| 0 <= k < vp_it.rest().len() ==> mb_in(p, #[trigger] vp_it.rest()[k]), // @C01 C02 C03
                            decreases vp_it.rest().len()
//@ loopstart 2
                                proof { mb_use(p, monotone); fb_stop::<P, FB>(p, fb0, *fbs, log); fb_fail::<P, FB>(p, fb0, *fbs, log); }
//@ before monotone.build_fans::<P, FB>(self.ps, fbs)?;
                                            let ghost (ch, left, fba) = (monotone.sp(), monotone.is_left_chain, *fbs);
                                            proof { fb_use::<P, FB>(p, fb0, fba, log); }
//@ after monotone.build_fans::<P, FB>(self.ps, fbs)?;
                                            proof {
                                let fans = choose|fans: Seq<Seq<int>>| crate::monotone::fans_good(ch, left, forth::<P, FB>(left), fans) && #[trigger] crate::monotone::g_tris(fans) == ch.len() - 2 && crate::monotone::area_kept(ch, forth::<P, FB>(left), fans) && crate::monotone::handed(fba, *fbs, crate::monotone::fans_log(ch, fans));
                                fb_more::<P, FB>(p, fb0, fba, *fbs, log, ch, left, fans);
                                log = log + crate::monotone::fans_log(ch, fans);
                                fb_stop::<P, FB>(p, fb0, *fbs, log); fb_fail::<P, FB>(p, fb0, *fbs, log);
                                }
//@ before if !monotone_stack.is_empty()
        proof { fb_stop::<P, FB>(p, fb0, *fbs, log); }
//@ before let state = branch_stack.pop()
                        proof { fb_stop::<P, FB>(p, fb0, *fbs, log); }
//@ fn trapezoidation::Trapezoidation::triangulate -> r
    requires self.ok(), format.fmt_ok()
    ensures
        r is Ok ==> exists|log: Seq<Seq<P::Index>>| log.len() > 0 && #[trigger] good_log::<P, FB>(self.ps.0, log) && FB::Builder::built(format.fmt_base(self.ps.0), log, r->Ok_0), // @C01 C02 C03 C05 C06
        r is Err ==> answered::<P, FB>(format, self.ps.0, r->Err_0), // @C05 C07
        r is Err ==> <FB::Builder as FanBuilder<'p, P>>::kept(format.fmt_base(self.ps.0)), // @C07
        r is Err ==> !(r->Err_0 is TrapezoidationError), // @C05 C10
        self.ns@.len() == 0 ==> r is Err && r->Err_0 is NoVertices, // @C10
//@ start
    let ghost p = self.ps.0;
//@ before fbs.complete(result)
        let ghost fb0 = FanBuilderState::<'p, P, FB>::Uninitialized(format);
        proof {
            assert(fb0.st_holds(Seq::empty()));
            if result is Ok {
                reveal(fb_at);
                let log = choose|log: Seq<Seq<P::Index>>| #[trigger] fb_at::<P, FB>(p, fb0, fbs, log);
                assert(Seq::<Seq<P::Index>>::empty() + log =~= log);
                assert(fbs.st_holds(log) && fbs.st_ok(p) && good_log::<P, FB>(p, log));
            }
            assert(fbs.st_kept(p) ==> <FB::Builder as FanBuilder<'p, P>>::kept(format.fmt_base(p)));
        }
//@ mod trapezoidation
/// how a triangulation fails: nothing was handed over and nobody need be told, or the format refused the first fan, or the builder was told, or its build failed
#[verifier::prophetic]
pub open spec fn answered<'p, P: PolygonList<'p> + ?Sized, FB: FanFormat<'p, P>>(format: FB, p: &'p P, e: TriangulationError<<FB::Builder as FanBuilder<'p, P>>::Error>) -> bool {
    ||| e is NoVertices || e is InternalError
    ||| e is FanBuilder && format.init_err(e->FanBuilder_0)
    ||| exists|b: FB::Builder| b.base() == format.fmt_base(p) && #[trigger] b.failed_with(e)
    ||| e is FanBuilder && exists|b: FB::Builder| b.base() == format.fmt_base(p) && #[trigger] b.build_err(e->FanBuilder_0)
}
//@ fn inputs::polygon_list::PolygonList::trapezoidize -> r
    requires self_.list_ok()
    ensures
        r is Ok ==> r->Ok_0.ok() && r->Ok_0.ps.0 == self_, // @C04
        r is Ok ==> crate::trapezoidation::holds(r->Ok_0.ns@, r->Ok_0.ss@, crate::trapezoidation::g_polys(crate::trapezoidation::g_elements(self_))), // @C01 C03 C08 C10
        match r { Err(TrapezoidationError::NotEnoughVertices(count)) => crate::trapezoidation::has_short(crate::trapezoidation::g_elements(self_), count), _ => true }, // @C10
//@ fn inputs::polygon_list::PolygonList::triangulate -> r
    requires format.fmt_ok(), self_.list_ok()
    ensures
        r is Ok ==> exists|log: Seq<Seq<VpS::Index>>| log.len() > 0 && #[trigger] crate::trapezoidation::good_log::<VpS, FB>(self_, log) && FB::Builder::built(format.fmt_base(self_), log, r->Ok_0), // @C01 C02 C03 C05 C06
        r is Err && !(r->Err_0 is TrapezoidationError) ==> crate::trapezoidation::answered::<VpS, FB>(format, self_, r->Err_0), // @C05 C07
        r is Err ==> <FB::Builder as FanBuilder<'p, VpS>>::kept(format.fmt_base(self_)), // @C07
        r is Err && r->Err_0 is TrapezoidationError ==> match r->Err_0->TrapezoidationError_0 { TrapezoidationError::NotEnoughVertices(count) => crate::trapezoidation::has_short(crate::trapezoidation::g_elements(self_), count), _ => true }, // @C10
//@ start
    proof { format.lem_dropped(self_); }
