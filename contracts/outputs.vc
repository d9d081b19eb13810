//@ broadcast outputs::formats::deindexed_fan crate::lem::deindex_push crate::lem::deindex_extend
//@ broadcast outputs::formats::delimited_fan crate::lem::delimited_push crate::lem::delimited_extend crate::lem::delimited_len crate::lem::fans_ok_push crate::lem::fans_ok_extend
//@ broadcast outputs::formats::deindexed_list crate::lem::deindex_list_push
//@ broadcast outputs::formats::fan_to_list crate::lem::triples_push crate::lem::triples_extend
//@ free inputs::polygon_list::PolygonList::trapezoidize inputs::polygon_list::PolygonList::triangulate
//@ ext outputs::fan_format::FanFormat::reverse_winding outputs::list_format::ListFormat::into_fan_format
//@ sized outputs::fan::Fan outputs::fan::Fans outputs::list::List outputs::fan_format::FanBuilder outputs::fan_format::FanFormat outputs::list_format::ListFormat outputs::list_format::ListBuilder
//@ external inputs::vertex::VertexExt::to_newtype_ref errors::InternalError::new errors::TriangulationError::internal
//@ in inputs::polygon_list::PolygonList
    /// the enumeration yields this index
    spec fn yields(&self, vi: Self::Index) -> bool;
    /// the vertex an index denotes
    spec fn vertex_at(&self, vi: Self::Index) -> Self::Vertex;
//@ fn inputs::polygon_list::PolygonList::get_vertex -> r
    requires self.yields(index)
    ensures *r == self.vertex_at(index)

//@ mod errors
impl<FBError: crate::vp::Error> vstd::std_specs::convert::FromSpecImpl<FBError> for TriangulationError<FBError> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: FBError) -> Self { TriangulationError::FanBuilder(e) }
}
//@ fn errors::TriangulationError::internal -> r
    ensures r is InternalError

// ------------------------------------------------------------------ collections
//@ in outputs::fan::Fan
    spec fn fan_view(&self) -> Seq<V>;
//@ fn outputs::fan::Fan::new -> r
    ensures r.fan_view() == seq![v0, v1, v2]
//@ fn outputs::fan::Fan::push
    ensures final(self).fan_view() == old(self).fan_view().push(v)
//@ in outputs::fan::Fan@Vec
    open spec fn fan_view(&self) -> Seq<V> { self@ }

//@ in outputs::fan::Fans
    spec fn fans_view(&self) -> Seq<Self::Fan>;
    /// whoever lent this collection finds these in it once it is given back
    #[verifier::prophetic]
    spec fn gives_back(&self, held: Seq<Self::Fan>) -> bool;
    proof fn lem_gives_back(&self) ensures has_resolved(*self) ==> self.gives_back(self.fans_view());
//@ fn outputs::fan::Fans::len -> r
    ensures r == self.fans_view().len()
//@ fn outputs::fan::Fans::truncate
    requires len <= (*old(self)).fans_view().len()
    ensures (*final(self)).fans_view() == (*old(self)).fans_view().take(len as int),
        forall|h: Seq<Self::Fan>| #[trigger] (*final(self)).gives_back(h) == (*old(self)).gives_back(h),
//@ fn outputs::fan::Fans::push
    ensures (*final(self)).fans_view() == (*old(self)).fans_view().push(fan),
        forall|h: Seq<Self::Fan>| #[trigger] (*final(self)).gives_back(h) == (*old(self)).gives_back(h),
//@ fn outputs::fan::Fans::is_empty -> r
    ensures r == (self.fans_view().len() == 0)
//@ in outputs::fan::Fans@Vec
    open spec fn fans_view(&self) -> Seq<F> { self@ }
    #[verifier::prophetic]
    open spec fn gives_back(&self, held: Seq<F>) -> bool { true }
    proof fn lem_gives_back(&self) { }
//@ in outputs::fan::Fans@&mut FS
    open spec fn fans_view(&self) -> Seq<FS::Fan> { (**self).fans_view() }
    #[verifier::prophetic]
    open spec fn gives_back(&self, held: Seq<FS::Fan>) -> bool { (*final(*self)).fans_view() == held }
    proof fn lem_gives_back(&self) { }

//@ in outputs::list::List
    /// the list holds whole triangles
    spec fn whole(&self) -> bool;
    spec fn list_view(&self) -> Seq<(V, V, V)>;
    /// whoever lent this collection finds these in it once it is given back
    #[verifier::prophetic]
    spec fn gives_back(&self, held: Seq<(V, V, V)>) -> bool;
    proof fn lem_gives_back(&self) ensures has_resolved(*self) && self.whole() ==> self.gives_back(self.list_view());
//@ fn outputs::list::List::push
    requires (*old(self)).whole()
    ensures (*final(self)).whole(), (*final(self)).list_view() == (*old(self)).list_view().push((v0, v1, v2)),
        forall|h: Seq<(V, V, V)>| #[trigger] (*final(self)).gives_back(h) == (*old(self)).gives_back(h),
//@ fn outputs::list::List::len -> r
    ensures self.whole() ==> r == self.list_view().len()
//@ fn outputs::list::List::truncate
    requires (*old(self)).whole(), len <= (*old(self)).list_view().len()
    ensures (*final(self)).whole(), (*final(self)).list_view() == (*old(self)).list_view().take(len as int),
        forall|h: Seq<(V, V, V)>| #[trigger] (*final(self)).gives_back(h) == (*old(self)).gives_back(h),
//@ fn outputs::list::List::is_empty -> r
    ensures self.whole() ==> r == (self.list_view().len() == 0)
//@ fn outputs::list::List<V>@Vec<V>::truncate
//@ start
    proof { assert(vstd::std_specs::vec::spec_vec_len(old(self)) == old(self)@.len()); }
//@ in outputs::list::List<V>@Vec<V>
    open spec fn whole(&self) -> bool { self@.len() % 3 == 0 }
    open spec fn list_view(&self) -> Seq<(V, V, V)> { Seq::new(self@.len() / 3, |i: int| (self@[3 * i], self@[3 * i + 1], self@[3 * i + 2])) }
    #[verifier::prophetic]
    open spec fn gives_back(&self, held: Seq<(V, V, V)>) -> bool { true }
    proof fn lem_gives_back(&self) { }
//@ in outputs::list::List<V>@Vec<[V;3]>
    open spec fn whole(&self) -> bool { true }
    open spec fn list_view(&self) -> Seq<(V, V, V)> { Seq::new(self@.len(), |i: int| (self@[i]@[0], self@[i]@[1], self@[i]@[2])) }
    #[verifier::prophetic]
    open spec fn gives_back(&self, held: Seq<(V, V, V)>) -> bool { true }
    proof fn lem_gives_back(&self) { }
//@ in outputs::list::List<V>@Vec<(V,V,V)>
    open spec fn whole(&self) -> bool { true }
    open spec fn list_view(&self) -> Seq<(V, V, V)> { self@ }
    #[verifier::prophetic]
    open spec fn gives_back(&self, held: Seq<(V, V, V)>) -> bool { true }
    proof fn lem_gives_back(&self) { }
//@ in outputs::list::List@&mut L
    open spec fn whole(&self) -> bool { (**self).whole() }
    open spec fn list_view(&self) -> Seq<(V, V, V)> { (**self).list_view() }
    #[verifier::prophetic]
    open spec fn gives_back(&self, held: Seq<(V, V, V)>) -> bool { (*final(*self)).whole() && (*final(*self)).list_view() == held }
    proof fn lem_gives_back(&self) { }

// ------------------------------------------------------------------ winding
//@ fn outputs::triangle_winding::TriangleWinding::reverse -> r
    ensures r == g_flip(self)
//@ mod outputs::triangle_winding
pub open spec fn g_flip(w: TriangleWinding) -> TriangleWinding {
    match w { TriangleWinding::Counterclockwise => TriangleWinding::Clockwise, TriangleWinding::Clockwise => TriangleWinding::Counterclockwise }
}
/// reversing twice gives the first winding again
pub proof fn flip_twice(w: TriangleWinding) ensures g_flip(g_flip(w)) == w, g_flip(w) != w { }

// ------------------------------------------------------------------ builder protocol
//@ in outputs::fan_format::FanFormat
    spec fn fmt_ok(&self) -> bool;
    #[verifier::prophetic]
    spec fn fmt_base(&self, polygon_list: &'p P) -> <Self::Builder as FanBuilder<'p, P>>::VpBase;
    /// a format that is dropped leaves what it was lent as it was
    proof fn lem_dropped(&self, polygon_list: &'p P) ensures self.fmt_ok() && has_resolved(*self) ==> <Self::Builder as FanBuilder<'p, P>>::kept(self.fmt_base(polygon_list));
    spec fn init_err(&self, e: <Self::Builder as FanBuilder<'p, P>>::Error) -> bool;
//@ fn outputs::fan_format::FanFormat::initialize -> r
    requires self.fmt_ok(), polygon_list.yields(vi0), polygon_list.yields(vi1), polygon_list.yields(vi2)
    ensures
        r is Ok ==> r->Ok_0.wf() && r->Ok_0.inv(), // @C06 C07
        r is Ok ==> r->Ok_0.base() == self.fmt_base(polygon_list), // @C06 C07
        r is Ok ==> r->Ok_0.holds(seq![seq![vi0, vi1, vi2]]), // @C06
        r is Ok ==> forall|vi: P::Index| #[trigger] polygon_list.yields(vi) ==> r->Ok_0.accepts(vi), // @C04
        r is Err ==> self.init_err(r->Err_0), // @C05 C07
        r is Err ==> <Self::Builder as FanBuilder<'p, P>>::kept(self.fmt_base(polygon_list)), // @C07
//@ fn outputs::fan_format::FanFormat::reverse_winding -> r
    ensures r.0 == self
//@ in outputs::fan_format::FanBuilder
    /// what the caller lent, and everything that decides the layout
    type VpBase;
    /// ready for the next call (nothing has failed so far)
    spec fn wf(&self) -> bool;
    /// holds from creation until fail, also after an error
    spec fn inv(&self) -> bool;
    #[verifier::prophetic]
    spec fn base(&self) -> Self::VpBase;
    /// whoever lent the collection finds in it what it held before
    spec fn kept(base: Self::VpBase) -> bool;
    /// the fans received so far
    spec fn holds(&self, log: Seq<Seq<P::Index>>) -> bool;
    /// the indices that may be handed over
    spec fn accepts(&self, vi: P::Index) -> bool;
    /// a call that left the builder in this state returned this error
    spec fn issued(&self, e: Self::Error) -> bool;
    spec fn build_err(&self, e: Self::Error) -> bool;
    spec fn failed_with(&self, e: TriangulationError<Self::Error>) -> bool;
    /// this output holds base, then these fans
    spec fn built(base: Self::VpBase, log: Seq<Seq<P::Index>>, out: Self::Output) -> bool;
    spec fn winding() -> TriangleWinding;
//@ fn outputs::fan_format::FanBuilder::WINDING -> r
    ensures r == Self::winding(), // @C02
//@ fn outputs::fan_format::FanBuilder::new_fan -> r
    requires old(self).wf(), old(self).inv(), old(self).accepts(vi0), old(self).accepts(vi1), old(self).accepts(vi2)
    ensures
        final(self).inv(), // @C07
        final(self).base() == old(self).base(), // @C06 C07
        forall|vi: P::Index| old(self).accepts(vi) ==> #[trigger] final(self).accepts(vi), // @C04
        r is Ok ==> final(self).wf(), // @C05 C06
        r is Ok ==> forall|log: Seq<Seq<P::Index>>| #[trigger] old(self).holds(log) ==> final(self).holds(log.push(seq![vi0, vi1, vi2])), // @C06
        r is Err ==> final(self).issued(r->Err_0), // @C05
//@ fn outputs::fan_format::FanBuilder::extend_fan -> r
    requires old(self).wf(), old(self).inv(), old(self).accepts(vi)
    ensures
        final(self).inv(), // @C07
        final(self).base() == old(self).base(), // @C06 C07
        forall|vi: P::Index| old(self).accepts(vi) ==> #[trigger] final(self).accepts(vi), // @C04
        r is Ok ==> final(self).wf(), // @C05 C06
        r is Ok ==> forall|log: Seq<Seq<P::Index>>| #[trigger] old(self).holds(log) ==> final(self).holds(crate::lem::extend_last(log, vi)), // @C06
        r is Err ==> final(self).issued(r->Err_0), // @C05
//@ fn outputs::fan_format::FanBuilder::build -> r
    requires self.wf(), self.inv()
    ensures
        r is Ok ==> forall|log: Seq<Seq<P::Index>>| #[trigger] self.holds(log) ==> Self::built(self.base(), log, r->Ok_0), // @C06
        r is Err ==> self.build_err(r->Err_0), // @C05 C07
        r is Err ==> Self::kept(self.base()), // @C07
//@ fn outputs::fan_format::FanBuilder::fail
    requires self.inv()
    ensures
        self.failed_with(*error), // @C05 C07
        Self::kept(self.base()), // @C07
//@ mod outputs::fan_format

//@ in outputs::list_format::ListFormat
    spec fn fmt_ok(&self) -> bool;
    #[verifier::prophetic]
    spec fn fmt_base(&self, polygon_list: &'p P) -> <Self::Builder as ListBuilder<'p, P>>::VpBase;
    /// a format that is dropped leaves what it was lent as it was
    proof fn lem_dropped(&self, polygon_list: &'p P) ensures self.fmt_ok() && has_resolved(*self) ==> <Self::Builder as ListBuilder<'p, P>>::kept(self.fmt_base(polygon_list));
    spec fn init_err(&self, e: <Self::Builder as ListBuilder<'p, P>>::Error) -> bool;
//@ fn outputs::list_format::ListFormat::initialize -> r
    requires self.fmt_ok()
    ensures
        r is Ok ==> r->Ok_0.wf() && r->Ok_0.inv(), // @C06 C07
        r is Ok ==> r->Ok_0.base() == self.fmt_base(polygon_list), // @C06 C07
        r is Ok ==> r->Ok_0.holds(Seq::empty()), // @C06
        r is Ok ==> forall|vi: P::Index| #[trigger] polygon_list.yields(vi) ==> r->Ok_0.accepts(vi), // @C04
        r is Err ==> self.init_err(r->Err_0), // @C05 C07
        r is Err ==> <Self::Builder as ListBuilder<'p, P>>::kept(self.fmt_base(polygon_list)), // @C07
//@ fn outputs::list_format::ListFormat::into_fan_format -> r
    ensures r.0 == self
//@ in outputs::list_format::ListBuilder
    type VpBase;
    spec fn wf(&self) -> bool;
    spec fn inv(&self) -> bool;
    #[verifier::prophetic]
    spec fn base(&self) -> Self::VpBase;
    /// whoever lent the collection finds in it what it held before
    spec fn kept(base: Self::VpBase) -> bool;
    spec fn holds(&self, log: Seq<(P::Index, P::Index, P::Index)>) -> bool;
    spec fn accepts(&self, vi: P::Index) -> bool;
    spec fn issued(&self, e: Self::Error) -> bool;
    spec fn build_err(&self, e: Self::Error) -> bool;
    spec fn failed_with(&self, e: TriangulationError<Self::Error>) -> bool;
    spec fn built(base: Self::VpBase, log: Seq<(P::Index, P::Index, P::Index)>, out: Self::Output) -> bool;
    spec fn winding() -> TriangleWinding;
//@ fn outputs::list_format::ListBuilder::WINDING -> r
    ensures r == Self::winding(), // @C02
//@ fn outputs::list_format::ListBuilder::add_triangle -> r
    requires old(self).wf(), old(self).inv(), old(self).accepts(vi0), old(self).accepts(vi1), old(self).accepts(vi2)
    ensures
        final(self).inv(), // @C07
        final(self).base() == old(self).base(), // @C06 C07
        forall|vi: P::Index| old(self).accepts(vi) ==> #[trigger] final(self).accepts(vi), // @C04
        r is Ok ==> final(self).wf(), // @C05 C06
        r is Ok ==> forall|log: Seq<(P::Index, P::Index, P::Index)>| #[trigger] old(self).holds(log) ==> final(self).holds(log.push((vi0, vi1, vi2))), // @C06
        r is Err ==> final(self).issued(r->Err_0), // @C05
//@ fn outputs::list_format::ListBuilder::build -> r
    requires self.wf(), self.inv()
    ensures
        r is Ok ==> forall|log: Seq<(P::Index, P::Index, P::Index)>| #[trigger] self.holds(log) ==> Self::built(self.base(), log, r->Ok_0), // @C06
        r is Err ==> self.build_err(r->Err_0), // @C05 C07
        r is Err ==> Self::kept(self.base()), // @C07
//@ fn outputs::list_format::ListBuilder::fail
    requires self.inv()
    ensures
        self.failed_with(*error), // @C05 C07
        Self::kept(self.base()), // @C07

// ------------------------------------------------------------------ generic storage
//@ in outputs::formats::generic_fans::GenericFans
    pub open spec fn ginv(&self) -> bool { self.initial_fan_count <= self.fans.fans_view().len() }
    pub open spec fn gbase(&self) -> Seq<FS::Fan> { self.fans.fans_view().take(self.initial_fan_count as int) }
    #[verifier::prophetic]
    pub open spec fn gkept(&self) -> bool { self.fans.gives_back(self.gbase()) }
    pub open spec fn gholds(&self, log: Seq<Seq<V>>) -> bool {
        &&& log.len() > 0
        &&& self.fans.fans_view().len() == self.initial_fan_count + log.len() - 1
        &&& forall|i: int| 0 <= i < log.len() - 1 ==> (#[trigger] self.fans.fans_view()[self.initial_fan_count + i]).fan_view() == log[i]
        &&& self.current_fan.fan_view() == log.last()
    }
//@ mod outputs::formats::generic_fans
pub open spec fn fans_hold<FS: Fans, V>(base: Seq<FS::Fan>, log: Seq<Seq<V>>, out: FS) -> bool where FS::Fan: Fan<V> {
    &&& out.fans_view().len() == base.len() + log.len()
    &&& out.fans_view().take(base.len() as int) == base
    &&& forall|i: int| 0 <= i < log.len() ==> (#[trigger] out.fans_view()[base.len() + i]).fan_view() == log[i]
}
//@ fn outputs::formats::generic_fans::GenericFans::new -> r
    ensures r.ginv(), r.gbase() == fans.fans_view(), r.gkept() == fans.gives_back(fans.fans_view()), r.gholds(seq![seq![v0, v1, v2]])
//@ fn outputs::formats::generic_fans::GenericFans::new_fan
    requires old(self).ginv()
    ensures final(self).ginv(), final(self).gbase() == old(self).gbase(), final(self).gkept() == old(self).gkept(),
        forall|log: Seq<Seq<V>>| #[trigger] old(self).gholds(log) ==> final(self).gholds(log.push(seq![v0, v1, v2]))
//@ end
    proof {
        assert(self.gbase() =~= old(self).gbase());
        assert forall|log: Seq<Seq<V>>| #[trigger] old(self).gholds(log) implies self.gholds(log.push(seq![v0, v1, v2])) by {
            assert forall|i: int| 0 <= i < log.push(seq![v0, v1, v2]).len() - 1 implies (#[trigger] self.fans.fans_view()[self.initial_fan_count + i]).fan_view() == log.push(seq![v0, v1, v2])[i] by {
                if i < log.len() - 1 { assert(old(self).fans.fans_view()[old(self).initial_fan_count + i].fan_view() == log[i]); }
            }
        }
    }
//@ fn outputs::formats::generic_fans::GenericFans::extend_fan
    requires old(self).ginv()
    ensures final(self).ginv(), final(self).gbase() == old(self).gbase(), final(self).gkept() == old(self).gkept(),
        forall|log: Seq<Seq<V>>| #[trigger] old(self).gholds(log) ==> final(self).gholds(crate::lem::extend_last(log, v))
//@ end
    proof {
        assert forall|log: Seq<Seq<V>>| #[trigger] old(self).gholds(log) implies self.gholds(crate::lem::extend_last(log, v)) by {
            let l2 = crate::lem::extend_last(log, v);
            assert forall|i: int| 0 <= i < l2.len() - 1 implies (#[trigger] self.fans.fans_view()[self.initial_fan_count + i]).fan_view() == l2[i] by {
                assert(old(self).fans.fans_view()[old(self).initial_fan_count + i].fan_view() == log[i]);
            }
        }
    }
//@ fn outputs::formats::generic_fans::GenericFans::build -> r
    requires self.ginv()
    ensures forall|log: Seq<Seq<V>>| #[trigger] self.gholds(log) ==> fans_hold(self.gbase(), log, r)
//@ fn outputs::formats::generic_fans::GenericFans::fail
    requires self.ginv()
    ensures self.gkept(), // @C07
//@ end
    assert(self_.fans.fans_view() =~= self.gbase());
    proof { self_.fans.lem_gives_back(); }

//@ in outputs::formats::generic_list::GenericList
    pub open spec fn ginv(&self) -> bool { self.list.whole() && self.initial_vert_count <= self.list.list_view().len() }
    pub open spec fn gbase(&self) -> Seq<(V, V, V)> { self.list.list_view().take(self.initial_vert_count as int) }
    #[verifier::prophetic]
    pub open spec fn gkept(&self) -> bool { self.list.gives_back(self.gbase()) }
    pub open spec fn gholds(&self, log: Seq<(V, V, V)>) -> bool { self.list.list_view() == self.gbase() + log }
//@ fn outputs::formats::generic_list::GenericList::new -> r
    requires list.whole()
    ensures r.ginv(), r.gbase() == list.list_view(), r.gkept() == list.gives_back(list.list_view()), r.gholds(Seq::empty())
//@ fn outputs::formats::generic_list::GenericList::new_triangle
    requires old(self).ginv()
    ensures final(self).ginv(), final(self).gbase() == old(self).gbase(), final(self).gkept() == old(self).gkept(),
        forall|log: Seq<(V, V, V)>| #[trigger] old(self).gholds(log) ==> final(self).gholds(log.push((v0, v1, v2)))
//@ end
    proof {
        assert(self.gbase() =~= old(self).gbase());
        assert forall|log: Seq<(V, V, V)>| #[trigger] old(self).gholds(log) implies self.gholds(log.push((v0, v1, v2))) by {
            assert(self.list.list_view() =~= self.gbase() + log.push((v0, v1, v2)));
        }
    }
//@ fn outputs::formats::generic_list::GenericList::build -> r
    requires self.ginv()
    ensures forall|log: Seq<(V, V, V)>| #[trigger] self.gholds(log) ==> r.list_view() == self.gbase() + log, r == self.list
//@ fn outputs::formats::generic_list::GenericList::fail
    requires self.ginv()
    ensures self.gkept(), // @C07
//@ end
    assert(self_.list.list_view() =~= self.gbase());
    assert(self_.list.whole());
    proof { self_.list.lem_gives_back(); }

// ------------------------------------------------------------------ indexed fans
//@ fn outputs::formats::indexed_fan::IndexedFanFormat::new -> r
    ensures r.fans == fans
//@ in outputs::formats::indexed_fan::FanFormat@IndexedFanFormat
    open spec fn fmt_ok(&self) -> bool { true }
    #[verifier::prophetic]
    open spec fn fmt_base(&self, polygon_list: &'p P) -> (Seq<FS::Fan>, bool) { (self.fans.fans_view(), self.fans.gives_back(self.fans.fans_view())) }
    proof fn lem_dropped(&self, polygon_list: &'p P) { assert(has_resolved(*self) ==> has_resolved(self.fans)); self.fans.lem_gives_back(); }
    open spec fn init_err(&self, e: std::convert::Infallible) -> bool { false }
//@ fn outputs::formats::indexed_fan::IndexedFanBuilder::new -> r
    ensures r is Ok, r->Ok_0.wf(), r->Ok_0.inv(), r->Ok_0.base() == (fans.fans_view(), fans.gives_back(fans.fans_view())), r->Ok_0.holds(seq![seq![vi0, vi1, vi2]])
//@ in outputs::formats::indexed_fan::FanBuilder@IndexedFanBuilder
    type VpBase = (Seq<FS::Fan>, bool);
    open spec fn wf(&self) -> bool { true }
    open spec fn inv(&self) -> bool { self.fans.ginv() }
    #[verifier::prophetic]
    open spec fn base(&self) -> (Seq<FS::Fan>, bool) { (self.fans.gbase(), self.fans.gkept()) }
    open spec fn kept(base: (Seq<FS::Fan>, bool)) -> bool { base.1 }
    open spec fn holds(&self, log: Seq<Seq<P::Index>>) -> bool { self.fans.gholds(log) }
    open spec fn accepts(&self, vi: P::Index) -> bool { true }
    open spec fn issued(&self, e: Self::Error) -> bool { false }
    open spec fn build_err(&self, e: Self::Error) -> bool { false }
    open spec fn failed_with(&self, e: TriangulationError<Self::Error>) -> bool { true }
    open spec fn built(base: (Seq<FS::Fan>, bool), log: Seq<Seq<P::Index>>, out: FS) -> bool { super::generic_fans::fans_hold(base.0, log, out) }
    open spec fn winding() -> crate::TriangleWinding { crate::TriangleWinding::Counterclockwise }

// ------------------------------------------------------------------ deindexed fans
//@ fn outputs::formats::deindexed_fan::DeindexedFanFormat::new -> r
    ensures r.fans == fans
//@ in outputs::formats::deindexed_fan::FanFormat@DeindexedFanFormat
    open spec fn fmt_ok(&self) -> bool { true }
    #[verifier::prophetic]
    open spec fn fmt_base(&self, polygon_list: &'p P) -> (Seq<FS::Fan>, &'p P, bool) { (self.fans.fans_view(), polygon_list, self.fans.gives_back(self.fans.fans_view())) }
    proof fn lem_dropped(&self, polygon_list: &'p P) { assert(has_resolved(*self) ==> has_resolved(self.fans)); self.fans.lem_gives_back(); }
    open spec fn init_err(&self, e: std::convert::Infallible) -> bool { false }
//@ fn outputs::formats::deindexed_fan::DeindexedFanBuilder::new -> r
    requires polygon_list.yields(vi0), polygon_list.yields(vi1), polygon_list.yields(vi2)
    ensures r is Ok, r->Ok_0.wf(), r->Ok_0.inv(), r->Ok_0.base() == (fans.fans_view(), polygon_list, fans.gives_back(fans.fans_view())), r->Ok_0.holds(seq![seq![vi0, vi1, vi2]])
//@ in outputs::formats::deindexed_fan::FanBuilder@DeindexedFanBuilder
    type VpBase = (Seq<FS::Fan>, &'p P, bool);
    open spec fn wf(&self) -> bool { true }
    open spec fn inv(&self) -> bool { self.fans.ginv() }
    #[verifier::prophetic]
    open spec fn base(&self) -> (Seq<FS::Fan>, &'p P, bool) { (self.fans.gbase(), self.polygon_list, self.fans.gkept()) }
    open spec fn kept(base: (Seq<FS::Fan>, &'p P, bool)) -> bool { base.2 }
    open spec fn holds(&self, log: Seq<Seq<P::Index>>) -> bool { self.fans.gholds(crate::lem::g_deindex(self.polygon_list, log)) }
    open spec fn accepts(&self, vi: P::Index) -> bool { self.polygon_list.yields(vi) }
    open spec fn issued(&self, e: Self::Error) -> bool { false }
    open spec fn build_err(&self, e: Self::Error) -> bool { false }
    open spec fn failed_with(&self, e: TriangulationError<Self::Error>) -> bool { true }
    open spec fn built(base: (Seq<FS::Fan>, &'p P, bool), log: Seq<Seq<P::Index>>, out: FS) -> bool { super::generic_fans::fans_hold(base.0, crate::lem::g_deindex(base.1, log), out) }
    open spec fn winding() -> crate::TriangleWinding { crate::TriangleWinding::Counterclockwise }
//@ mod outputs::formats::deindexed_fan

// ------------------------------------------------------------------ delimited fans
//@ fn outputs::formats::delimited_fan::DelimitedFanFormat::new -> r
    ensures r.fans == fans, r.delimiter == delimiter
//@ in outputs::formats::delimited_fan::FanFormat@DelimitedFanFormat
    open spec fn fmt_ok(&self) -> bool { true }
    #[verifier::prophetic]
    open spec fn fmt_base(&self, polygon_list: &'p P) -> (Seq<P::Index>, P::Index, bool) { (self.fans.fans_view(), self.delimiter, self.fans.gives_back(self.fans.fans_view())) }
    proof fn lem_dropped(&self, polygon_list: &'p P) { assert(has_resolved(*self) ==> has_resolved(self.fans)); self.fans.lem_gives_back(); }
    open spec fn init_err(&self, e: DelimitedFanError) -> bool { e is IndexMatchesDelimiter }
//@ fn outputs::formats::delimited_fan::DelimitedFanBuilder::new -> r
    ensures
        r is Ok ==> r->Ok_0.wf() && r->Ok_0.inv(), // @C06 C07
        r is Ok ==> r->Ok_0.base() == (fans.fans_view(), delimiter, fans.gives_back(fans.fans_view())), // @C06 C07
        r is Ok ==> r->Ok_0.holds(seq![seq![vi0, vi1, vi2]]), // @C06
        r is Err ==> r->Err_0 is IndexMatchesDelimiter, // @C05 C07
        r is Err ==> fans.gives_back(fans.fans_view()), // @C07
//@ start
    proof { fans.lem_gives_back(); }
//@ fn outputs::formats::delimited_fan::DelimitedFanBuilder::push_index -> r
    ensures
        final(self).delimiter == old(self).delimiter, final(self).initial_vert_count == old(self).initial_vert_count, // @C06 C07
        forall|h: Seq<P::Index>| #[trigger] final(self).fans.gives_back(h) == old(self).fans.gives_back(h), // @C07
        r is Ok ==> vi != old(self).delimiter && final(self).fans.fans_view() == old(self).fans.fans_view().push(vi), // @C06 C07
        r is Err ==> r->Err_0 is IndexMatchesDelimiter && vi == old(self).delimiter, // @C05
        r is Err ==> final(self).fans.fans_view() == old(self).fans.fans_view(), // @C07
//@ in outputs::formats::delimited_fan::FanBuilder@DelimitedFanBuilder
    type VpBase = (Seq<P::Index>, P::Index, bool);
    open spec fn wf(&self) -> bool { true }
    open spec fn inv(&self) -> bool { self.initial_vert_count <= self.fans.fans_view().len() }
    #[verifier::prophetic]
    open spec fn base(&self) -> (Seq<P::Index>, P::Index, bool) { (self.fans.fans_view().take(self.initial_vert_count as int), self.delimiter, self.fans.gives_back(self.fans.fans_view().take(self.initial_vert_count as int))) }
    open spec fn kept(base: (Seq<P::Index>, P::Index, bool)) -> bool { base.2 }
    open spec fn holds(&self, log: Seq<Seq<P::Index>>) -> bool {
        &&& log.len() > 0
        &&& crate::lem::fans_ok(log, self.delimiter)
        &&& self.fans.fans_view() == crate::lem::delimited(self.fans.fans_view().take(self.initial_vert_count as int), log, self.delimiter)
    }
    open spec fn accepts(&self, vi: P::Index) -> bool { true }
    open spec fn issued(&self, e: Self::Error) -> bool { e is IndexMatchesDelimiter }
    open spec fn build_err(&self, e: Self::Error) -> bool { false }
    open spec fn failed_with(&self, e: TriangulationError<Self::Error>) -> bool { true }
    open spec fn built(base: (Seq<P::Index>, P::Index, bool), log: Seq<Seq<P::Index>>, out: FS) -> bool {
        crate::lem::fans_ok(log, base.1) && out.fans_view() == crate::lem::delimited(base.0, log, base.1)
    }
    open spec fn winding() -> crate::TriangleWinding { crate::TriangleWinding::Counterclockwise }
//@ fn outputs::formats::delimited_fan::FanBuilder@DelimitedFanBuilder::fail
//@ end
    assert(self_.fans.fans_view() =~= self.base().0);
    proof { self_.fans.lem_gives_back(); }

// ------------------------------------------------------------------ lists
//@ fn outputs::formats::indexed_list::IndexedListFormat::new -> r
    ensures r.list == list
//@ in outputs::formats::indexed_list::ListFormat@IndexedListFormat
    open spec fn fmt_ok(&self) -> bool { self.list.whole() }
    #[verifier::prophetic]
    open spec fn fmt_base(&self, polygon_list: &'p P) -> (Seq<(P::Index, P::Index, P::Index)>, bool) { (self.list.list_view(), self.list.gives_back(self.list.list_view())) }
    proof fn lem_dropped(&self, polygon_list: &'p P) { assert(has_resolved(*self) ==> has_resolved(self.list)); self.list.lem_gives_back(); }
    open spec fn init_err(&self, e: std::convert::Infallible) -> bool { false }
//@ fn outputs::formats::indexed_list::IndexedListBuilder::new -> r
    requires list.whole()
    ensures r is Ok, r->Ok_0.wf(), r->Ok_0.inv(), r->Ok_0.base() == (list.list_view(), list.gives_back(list.list_view())), r->Ok_0.holds(Seq::empty())
//@ in outputs::formats::indexed_list::ListBuilder@IndexedListBuilder
    type VpBase = (Seq<(P::Index, P::Index, P::Index)>, bool);
    open spec fn wf(&self) -> bool { true }
    open spec fn inv(&self) -> bool { self.list.ginv() }
    #[verifier::prophetic]
    open spec fn base(&self) -> (Seq<(P::Index, P::Index, P::Index)>, bool) { (self.list.gbase(), self.list.gkept()) }
    open spec fn kept(base: (Seq<(P::Index, P::Index, P::Index)>, bool)) -> bool { base.1 }
    open spec fn holds(&self, log: Seq<(P::Index, P::Index, P::Index)>) -> bool { self.list.gholds(log) }
    open spec fn accepts(&self, vi: P::Index) -> bool { true }
    open spec fn issued(&self, e: Self::Error) -> bool { false }
    open spec fn build_err(&self, e: Self::Error) -> bool { false }
    open spec fn failed_with(&self, e: TriangulationError<Self::Error>) -> bool { true }
    open spec fn built(base: (Seq<(P::Index, P::Index, P::Index)>, bool), log: Seq<(P::Index, P::Index, P::Index)>, out: L) -> bool { out.list_view() == base.0 + log }
    open spec fn winding() -> crate::TriangleWinding { crate::TriangleWinding::Counterclockwise }

//@ fn outputs::formats::deindexed_list::DeindexedListFormat::new -> r
    ensures r.list == list
//@ in outputs::formats::deindexed_list::ListFormat@DeindexedListFormat
    open spec fn fmt_ok(&self) -> bool { self.list.whole() }
    #[verifier::prophetic]
    open spec fn fmt_base(&self, polygon_list: &'p P) -> (Seq<(P::Vertex, P::Vertex, P::Vertex)>, &'p P, bool) { (self.list.list_view(), polygon_list, self.list.gives_back(self.list.list_view())) }
    proof fn lem_dropped(&self, polygon_list: &'p P) { assert(has_resolved(*self) ==> has_resolved(self.list)); self.list.lem_gives_back(); }
    open spec fn init_err(&self, e: std::convert::Infallible) -> bool { false }
//@ fn outputs::formats::deindexed_list::DeindexedListBuilder::new -> r
    requires list.whole()
    ensures r is Ok, r->Ok_0.wf(), r->Ok_0.inv(), r->Ok_0.base() == (list.list_view(), polygon_list, list.gives_back(list.list_view())), r->Ok_0.holds(Seq::empty())
//@ in outputs::formats::deindexed_list::ListBuilder@DeindexedListBuilder
    type VpBase = (Seq<(P::Vertex, P::Vertex, P::Vertex)>, &'p P, bool);
    open spec fn wf(&self) -> bool { true }
    open spec fn inv(&self) -> bool { self.list.ginv() }
    #[verifier::prophetic]
    open spec fn base(&self) -> (Seq<(P::Vertex, P::Vertex, P::Vertex)>, &'p P, bool) { (self.list.gbase(), self.polygon_list, self.list.gkept()) }
    open spec fn kept(base: (Seq<(P::Vertex, P::Vertex, P::Vertex)>, &'p P, bool)) -> bool { base.2 }
    open spec fn holds(&self, log: Seq<(P::Index, P::Index, P::Index)>) -> bool { self.list.gholds(crate::lem::deindex_list(self.polygon_list, log)) }
    open spec fn accepts(&self, vi: P::Index) -> bool { self.polygon_list.yields(vi) }
    open spec fn issued(&self, e: Self::Error) -> bool { false }
    open spec fn build_err(&self, e: Self::Error) -> bool { false }
    open spec fn failed_with(&self, e: TriangulationError<Self::Error>) -> bool { true }
    open spec fn built(base: (Seq<(P::Vertex, P::Vertex, P::Vertex)>, &'p P, bool), log: Seq<(P::Index, P::Index, P::Index)>, out: L) -> bool { out.list_view() == base.0 + crate::lem::deindex_list(base.1, log) }
    open spec fn winding() -> crate::TriangleWinding { crate::TriangleWinding::Counterclockwise }
//@ mod outputs::formats::deindexed_list

// ------------------------------------------------------------------ adapters
//@ fn outputs::formats::fan_to_list::FanToListFormat::new -> r
    ensures r.0 == list_builder
//@ in outputs::formats::fan_to_list::FanFormat@FanToListFormat
    open spec fn fmt_ok(&self) -> bool { self.0.fmt_ok() }
    #[verifier::prophetic]
    open spec fn fmt_base(&self, polygon_list: &'p P) -> <LB::Builder as ListBuilder<'p, P>>::VpBase { self.0.fmt_base(polygon_list) }
    proof fn lem_dropped(&self, polygon_list: &'p P) { assert(has_resolved(*self) ==> has_resolved(self.0)); self.0.lem_dropped(polygon_list); }
    open spec fn init_err(&self, e: <LB::Builder as ListBuilder<'p, P>>::Error) -> bool {
        ||| self.0.init_err(e)
        ||| exists|b: LB::Builder| #[trigger] b.issued(e) && b.failed_with(TriangulationError::FanBuilder(e))
    }
//@ fn outputs::formats::fan_to_list::FanToListBuilder::new -> r
    ensures r.list_builder == list_builder, r.vi0 == vi0, r.vi1 == vi1
//@ in outputs::formats::fan_to_list::FanBuilder@FanToListBuilder
    type VpBase = LB::VpBase;
    open spec fn wf(&self) -> bool { self.list_builder.wf() && self.list_builder.accepts(self.vi0) && self.list_builder.accepts(self.vi1) }
    open spec fn inv(&self) -> bool { self.list_builder.inv() }
    #[verifier::prophetic]
    open spec fn base(&self) -> LB::VpBase { self.list_builder.base() }
    open spec fn kept(base: LB::VpBase) -> bool { LB::kept(base) }
    open spec fn holds(&self, log: Seq<Seq<P::Index>>) -> bool {
        &&& log.len() > 0
        &&& log.last().len() >= 3
        &&& log.last()[0] == self.vi0
        &&& log.last().last() == self.vi1
        &&& self.list_builder.holds(crate::lem::g_triples(log))
    }
    open spec fn accepts(&self, vi: P::Index) -> bool { self.list_builder.accepts(vi) }
    open spec fn issued(&self, e: Self::Error) -> bool { self.list_builder.issued(e) }
    open spec fn build_err(&self, e: Self::Error) -> bool { self.list_builder.build_err(e) }
    open spec fn failed_with(&self, e: TriangulationError<Self::Error>) -> bool { self.list_builder.failed_with(e) }
    open spec fn built(base: LB::VpBase, log: Seq<Seq<P::Index>>, out: LB::Output) -> bool { LB::built(base, crate::lem::g_triples(log), out) }
    open spec fn winding() -> TriangleWinding { LB::winding() }
//@ mod outputs::formats::fan_to_list
//@ fn outputs::formats::reverse_fan::ReverseFanFormat::new -> r
    ensures r.0 == fan_builder
//@ in outputs::formats::reverse_fan::FanFormat@ReverseFanFormat
    open spec fn fmt_ok(&self) -> bool { self.0.fmt_ok() }
    #[verifier::prophetic]
    open spec fn fmt_base(&self, polygon_list: &'p P) -> <FB::Builder as FanBuilder<'p, P>>::VpBase { self.0.fmt_base(polygon_list) }
    proof fn lem_dropped(&self, polygon_list: &'p P) { assert(has_resolved(*self) ==> has_resolved(self.0)); self.0.lem_dropped(polygon_list); }
    open spec fn init_err(&self, e: <FB::Builder as FanBuilder<'p, P>>::Error) -> bool { self.0.init_err(e) }
//@ in outputs::formats::reverse_fan::FanBuilder@ReverseFanBuilder
    type VpBase = FB::VpBase;
    open spec fn wf(&self) -> bool { self.0.wf() }
    open spec fn inv(&self) -> bool { self.0.inv() }
    #[verifier::prophetic]
    open spec fn base(&self) -> FB::VpBase { self.0.base() }
    open spec fn kept(base: FB::VpBase) -> bool { FB::kept(base) }
    open spec fn holds(&self, log: Seq<Seq<P::Index>>) -> bool { self.0.holds(log) }
    open spec fn accepts(&self, vi: P::Index) -> bool { self.0.accepts(vi) }
    open spec fn issued(&self, e: Self::Error) -> bool { self.0.issued(e) }
    open spec fn build_err(&self, e: Self::Error) -> bool { self.0.build_err(e) }
    open spec fn failed_with(&self, e: crate::TriangulationError<Self::Error>) -> bool { self.0.failed_with(e) }
    open spec fn built(base: FB::VpBase, log: Seq<Seq<P::Index>>, out: FB::Output) -> bool { FB::built(base, log, out) }
    open spec fn winding() -> TriangleWinding { crate::outputs::triangle_winding::g_flip(FB::winding()) }

// ------------------------------------------------------------------ builder state
//@ in fan_builder_state::FanBuilderState
    pub open spec fn st_ok(&self, p: &'p P) -> bool {
        match *self {
            FanBuilderState::Uninitialized(f) => f.fmt_ok(),
            FanBuilderState::Initialized(b) => builder_ok::<P, FB>(b, p),
            FanBuilderState::Error(Some(b)) => b.inv(),
            FanBuilderState::Error(None) => true,
        }
    }
    #[verifier::prophetic]
    pub open spec fn the_base(&self, p: &'p P) -> <FB::Builder as FanBuilder<'p, P>>::VpBase {
        match *self {
            FanBuilderState::Uninitialized(f) => f.fmt_base(p),
            FanBuilderState::Initialized(b) => b.base(),
            FanBuilderState::Error(Some(b)) => b.base(),
            FanBuilderState::Error(None) => arbitrary(),
        }
    }
    /// whoever lent the collection finds in it what it held before
    #[verifier::prophetic]
    pub open spec fn st_kept(&self, p: &'p P) -> bool { *self is Error && (*self)->Error_0 is None || <FB::Builder as FanBuilder<'p, P>>::kept(self.the_base(p)) }
    /// enough to be told of a failure
    pub open spec fn st_inv(&self) -> bool {
        match *self {
            FanBuilderState::Initialized(b) => b.inv(),
            FanBuilderState::Error(Some(b)) => b.inv(),
            _ => true,
        }
    }
    /// the fans handed over so far
    pub open spec fn st_holds(&self, log: Seq<Seq<P::Index>>) -> bool {
        match *self {
            FanBuilderState::Uninitialized(f) => log.len() == 0,
            FanBuilderState::Initialized(b) => b.holds(log),
            _ => false,
        }
    }
    /// the builder answered this error, and is kept (if there is one) so that it can be told
    #[verifier::prophetic]
    pub open spec fn st_err(self, before: Self, p: &'p P, e: TriangulationError<<FB::Builder as FanBuilder<'p, P>>::Error>) -> bool {
        match before {
            FanBuilderState::Uninitialized(f) => self == FanBuilderState::<'p, P, FB>::Error(None) && e is FanBuilder && f.init_err(e->FanBuilder_0) && <FB::Builder as FanBuilder<'p, P>>::kept(f.fmt_base(p)),
            FanBuilderState::Initialized(b) => self is Error && self->Error_0 is Some && e is FanBuilder
                && self->Error_0->Some_0.inv() && self->Error_0->Some_0.base() == b.base() && self->Error_0->Some_0.issued(e->FanBuilder_0),
            FanBuilderState::Error(_) => true,
        }
    }
//@ mod fan_builder_state
pub open spec fn builder_ok<'p, P: PolygonList<'p> + ?Sized, FB: FanFormat<'p, P>>(b: FB::Builder, p: &'p P) -> bool {
    b.wf() && b.inv() && forall|vi: P::Index| #[trigger] p.yields(vi) ==> b.accepts(vi)
}
//@ fn fan_builder_state::FanBuilderState::new_fan::set_initialized -> r
    ensures r is Ok, *r->Ok_0 == fb, *final(s) == FanBuilderState::<'pp, P, FB>::Initialized(*final(r->Ok_0))
//@ fn fan_builder_state::FanBuilderState::new_fan -> r
    requires old(self).st_ok(polygon_list), !(*old(self) is Error), polygon_list.yields(vi0), polygon_list.yields(vi1), polygon_list.yields(vi2)
    ensures
        r is Ok ==> *final(self) == FanBuilderState::<'p, P, FB>::Initialized(*final(r->Ok_0)), // @C05
        r is Ok ==> builder_ok::<P, FB>(*r->Ok_0, polygon_list), // @C05
        r is Ok ==> r->Ok_0.base() == old(self).the_base(polygon_list), // @C06 C07
        r is Ok ==> forall|log: Seq<Seq<P::Index>>| #[trigger] old(self).st_holds(log) ==> r->Ok_0.holds(log.push(seq![vi0, vi1, vi2])), // @C05 C06
        r is Err ==> final(self).st_err(*old(self), polygon_list, r->Err_0), // @C05 C07
        r is Err ==> final(self).st_ok(polygon_list), // @C05 C07
//@ fn fan_builder_state::FanBuilderState::complete -> r
    requires self.st_inv(), result is Ok ==> exists|p: &'p P| #[trigger] self.st_ok(p)
    ensures
        // success: an output only from build, holding everything handed over
        self is Initialized && result is Ok && r is Ok ==> forall|log: Seq<Seq<P::Index>>| #[trigger] self.st_holds(log) ==> <FB::Builder as FanBuilder<'p, P>>::built(self->Initialized_0.base(), log, r->Ok_0), // @C05 C06
        self is Initialized && result is Ok && r is Err ==> r->Err_0 is FanBuilder && self->Initialized_0.build_err(r->Err_0->FanBuilder_0), // @C05
        // a failure is answered unchanged, and the builder, if there is one, is told
        result is Err ==> r is Err && r->Err_0 == result->Err_0, // @C05 C07
        result is Err && self is Initialized ==> self->Initialized_0.failed_with(result->Err_0), // @C05 C07
        result is Err && self is Error && self->Error_0 is Some ==> self->Error_0->Some_0.failed_with(result->Err_0), // @C05 C07
        r is Err && (self is Uninitialized ==> self->Uninitialized_0.fmt_ok()) ==> forall|p: &'p P| #[trigger] self.st_kept(p), // @C07
        // nothing was ever handed over
        self is Uninitialized && result is Ok ==> r is Err && r->Err_0 is NoVertices, // @C05 C10
        self is Error && result is Ok ==> r is Err && r->Err_0 is InternalError && (self->Error_0 is Some ==> self->Error_0->Some_0.failed_with(r->Err_0)), // @C05
//@ start
    proof { if self is Uninitialized { assert forall|p: &'p P| self->Uninitialized_0.fmt_ok() && has_resolved(self->Uninitialized_0) implies #[trigger] self.st_kept(p) by { self->Uninitialized_0.lem_dropped(p); } } }
//@ mod inputs::polygon_list
impl<Index: VertexIndex> vstd::std_specs::convert::FromSpecImpl<Index> for PolygonElement<Index> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: Index) -> Self { PolygonElement::ContinuePolygon(e) }
}
impl<Index: VertexIndex> vstd::std_specs::convert::FromSpecImpl<Option<Index>> for PolygonElement<Index> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: Option<Index>) -> Self { match e { Some(i) => PolygonElement::ContinuePolygon(i), None => PolygonElement::NewPolygon } }
}
//@ broadcast * crate::vp::seq_facts crate::lem::question_from crate::lem::axiom_index_eq crate::lem::axiom_index_obeys
//@ mod inputs::vertex
impl<C: Real> vstd::std_specs::cmp::PartialEqSpecImpl for Coords<C> {
    open spec fn obeys_eq_spec() -> bool { false }
    open spec fn eq_spec(&self, o: &Self) -> bool { arbitrary() }
}
impl<C: Real> vstd::std_specs::cmp::PartialOrdSpecImpl for Coords<C> {
    open spec fn obeys_partial_cmp_spec() -> bool { C::exact() }
    open spec fn partial_cmp_spec(&self, o: &Self) -> Option<cmp::Ordering> {
        Some(if lex_lt(*self, *o) { cmp::Ordering::Less } else if lex_lt(*o, *self) { cmp::Ordering::Greater } else { cmp::Ordering::Equal })
    }
}
impl<V: Vertex> vstd::std_specs::cmp::PartialEqSpecImpl for VertexExt<V> {
    open spec fn obeys_eq_spec() -> bool { false }
    open spec fn eq_spec(&self, o: &Self) -> bool { arbitrary() }
}
impl<V: Vertex> vstd::std_specs::cmp::PartialOrdSpecImpl for VertexExt<V> {
    open spec fn obeys_partial_cmp_spec() -> bool { false }
    open spec fn partial_cmp_spec(&self, o: &Self) -> Option<cmp::Ordering> { None }
}
//@ mod 
pub mod lem { use vstd::prelude::*; use crate::*;
/// ASSUMED: `==` of an index type decides equality
pub broadcast axiom fn axiom_index_eq<I: VertexIndex>(a: &I, b: &I)
    ensures #[trigger] vstd::std_specs::cmp::PartialEqSpec::eq_spec(a, b) == (*a == *b);
pub broadcast axiom fn axiom_index_obeys<I: VertexIndex>()
    ensures #[trigger] <I as vstd::std_specs::cmp::PartialEqSpec<I>>::obeys_eq_spec();
/// ASSUMED: `?` converts an error with From
pub broadcast axiom fn question_from<S: vstd::std_specs::convert::FromSpec<T>, T>(e: T, r: S)
    requires #[trigger] vstd::std_specs::control_flow::spec_from::<S, T>(e, r), S::obeys_from_spec() ensures r == S::from_spec(e);
pub open spec fn extend_last<I>(log: Seq<Seq<I>>, vi: I) -> Seq<Seq<I>> { log.drop_last().push(log.last().push(vi)) }
/// base, a delimiter if base is not empty, then the fans with a delimiter between each two
pub open spec fn delimited<I>(base: Seq<I>, log: Seq<Seq<I>>, d: I) -> Seq<I> decreases log.len() {
    if log.len() == 0 { base } else {
        let before = delimited(base, log.drop_last(), d);
        (if before.len() > 0 { before.push(d) } else { before }) + log.last()
    }
}
/// every fan has a triangle and none contains the delimiter
pub open spec fn fans_ok<I>(log: Seq<Seq<I>>, d: I) -> bool {
    forall|i: int| 0 <= i < log.len() ==> (#[trigger] log[i]).len() >= 3 && !log[i].contains(d)
}
pub broadcast proof fn delimited_push<I>(base: Seq<I>, log: Seq<Seq<I>>, f: Seq<I>, d: I)
    requires f.len() == 3
    ensures #[trigger] delimited(base, log.push(f), d) == ({
        let before = delimited(base, log, d);
        (if before.len() > 0 { before.push(d) } else { before }).push(f[0]).push(f[1]).push(f[2])
    })
{
    assert(log.push(f).drop_last() =~= log);
    let before = delimited(base, log, d);
    assert((if before.len() > 0 { before.push(d) } else { before }) + f =~= (if before.len() > 0 { before.push(d) } else { before }).push(f[0]).push(f[1]).push(f[2]));
}
pub broadcast proof fn delimited_extend<I>(base: Seq<I>, log: Seq<Seq<I>>, v: I, d: I)
    requires log.len() > 0
    ensures #[trigger] delimited(base, extend_last(log, v), d) == delimited(base, log, d).push(v)
{
    assert(extend_last(log, v).drop_last() =~= log.drop_last());
    let before = delimited(base, log.drop_last(), d);
    let s = if before.len() > 0 { before.push(d) } else { before };
    assert(s + log.last().push(v) =~= (s + log.last()).push(v));
}
pub broadcast proof fn delimited_len<I>(base: Seq<I>, log: Seq<Seq<I>>, d: I)
    requires log.len() > 0, #[trigger] fans_ok(log, d)
    ensures (#[trigger] delimited(base, log, d)).len() > 0
{ assert(log[log.len() - 1].len() >= 3); }
pub broadcast proof fn fans_ok_push<I>(log: Seq<Seq<I>>, f: Seq<I>, d: I)
    requires fans_ok(log, d), f.len() == 3, f[0] != d, f[1] != d, f[2] != d
    ensures #[trigger] fans_ok(log.push(f), d)
{
    let l = log.push(f);
    assert forall|i: int| 0 <= i < l.len() implies (#[trigger] l[i]).len() >= 3 && !l[i].contains(d) by { if i < log.len() { assert(l[i] == log[i]); } }
}
pub broadcast proof fn fans_ok_extend<I>(log: Seq<Seq<I>>, v: I, d: I)
    requires fans_ok(log, d), log.len() > 0, v != d
    ensures #[trigger] fans_ok(extend_last(log, v), d)
{
    let l = extend_last(log, v);
    assert forall|i: int| 0 <= i < l.len() implies (#[trigger] l[i]).len() >= 3 && !l[i].contains(d) by {
        assert(log[i].len() >= 3 && !log[i].contains(d));
        if i == log.len() - 1 { 
            assert forall|k: int| 0 <= k < l[i].len() implies l[i][k] != d by { if k < log[i].len() { assert(log[i][k] != d) by { if log[i][k] == d { assert(log[i].contains(d)); } } } }
        }
    }
}
/// the triangles of a fan, root first
pub open spec fn fan_triples<I>(f: Seq<I>) -> Seq<(I, I, I)> decreases f.len() {
    if f.len() < 3 { Seq::empty() } else { fan_triples(f.drop_last()).push((f[0], f[f.len() - 2], f[f.len() - 1])) }
}
pub open spec fn g_triples<I>(log: Seq<Seq<I>>) -> Seq<(I, I, I)> decreases log.len() {
    if log.len() == 0 { Seq::empty() } else { g_triples(log.drop_last()) + fan_triples(log.last()) }
}
pub open spec fn g_deindex<'p, P: PolygonList<'p> + ?Sized>(p: &'p P, log: Seq<Seq<P::Index>>) -> Seq<Seq<P::Vertex>> {
    Seq::new(log.len(), |i: int| Seq::new(log[i].len(), |j: int| p.vertex_at(log[i][j])))
}
pub open spec fn deindex_list<'p, P: PolygonList<'p> + ?Sized>(p: &'p P, log: Seq<(P::Index, P::Index, P::Index)>) -> Seq<(P::Vertex, P::Vertex, P::Vertex)> {
    Seq::new(log.len(), |i: int| (p.vertex_at(log[i].0), p.vertex_at(log[i].1), p.vertex_at(log[i].2)))
}
pub broadcast proof fn deindex_push<'p, P: PolygonList<'p> + ?Sized>(p: &'p P, log: Seq<Seq<P::Index>>, f: Seq<P::Index>)
    requires f.len() == 3
    ensures #[trigger] g_deindex(p, log.push(f)) == g_deindex(p, log).push(seq![p.vertex_at(f[0]), p.vertex_at(f[1]), p.vertex_at(f[2])])
{
    let g = g_deindex(p, log).push(seq![p.vertex_at(f[0]), p.vertex_at(f[1]), p.vertex_at(f[2])]);
    assert forall|i: int| 0 <= i < log.len() + 1 implies #[trigger] g_deindex(p, log.push(f))[i] == g[i] by {
        assert(g_deindex(p, log.push(f))[i] =~= g[i]);
    }
    assert(g_deindex(p, log.push(f)) =~= g);
}
pub broadcast proof fn deindex_extend<'p, P: PolygonList<'p> + ?Sized>(p: &'p P, log: Seq<Seq<P::Index>>, v: P::Index)
    requires log.len() > 0
    ensures #[trigger] g_deindex(p, crate::lem::extend_last(log, v)) == crate::lem::extend_last(g_deindex(p, log), p.vertex_at(v))
{
    let a = g_deindex(p, crate::lem::extend_last(log, v));
    let g = crate::lem::extend_last(g_deindex(p, log), p.vertex_at(v));
    assert forall|i: int| 0 <= i < log.len() implies #[trigger] a[i] == g[i] by { assert(a[i] =~= g[i]); }
    assert(a =~= g);
}
pub broadcast proof fn deindex_list_push<'p, P: PolygonList<'p> + ?Sized>(p: &'p P, log: Seq<(P::Index, P::Index, P::Index)>, f: (P::Index, P::Index, P::Index))
    ensures #[trigger] deindex_list(p, log.push(f)) == deindex_list(p, log).push((p.vertex_at(f.0), p.vertex_at(f.1), p.vertex_at(f.2)))
{
    assert(deindex_list(p, log.push(f)) =~= deindex_list(p, log).push((p.vertex_at(f.0), p.vertex_at(f.1), p.vertex_at(f.2))));
}
pub broadcast proof fn triples_push<I>(log: Seq<Seq<I>>, f: Seq<I>)
    requires f.len() == 3
    ensures #[trigger] g_triples(log.push(f)) == g_triples(log).push((f[0], f[1], f[2]))
{
    let l = log.push(f);
    assert(l.drop_last() =~= log);
    reveal_with_fuel(fan_triples, 3);
    assert(fan_triples(f) =~= seq![(f[0], f[1], f[2])]);
    assert(g_triples(l) =~= g_triples(log).push((f[0], f[1], f[2])));
}
pub broadcast proof fn triples_extend<I>(log: Seq<Seq<I>>, v: I)
    requires log.len() > 0, log.last().len() >= 3
    ensures #[trigger] g_triples(crate::lem::extend_last(log, v)) == g_triples(log).push((log.last()[0], log.last().last(), v))
{
    let l = crate::lem::extend_last(log, v);
    assert(l.drop_last() =~= log.drop_last());
    assert(l.last() == log.last().push(v));
    assert(l.last().drop_last() =~= log.last());
    assert(g_triples(l) =~= g_triples(log).push((log.last()[0], log.last().last(), v)));
}
}
