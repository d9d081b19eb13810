//@ in inputs::vertex::Coords
    pub open spec fn vx(&self) -> real { self.0@[0].v() }
    pub open spec fn vy(&self) -> real { self.0@[1].v() }
//@ fn inputs::vertex::Coords::x -> r
    ensures r == self.0@[0]
//@ fn inputs::vertex::Coords::y -> r
    ensures r == self.0@[1]
//@ mod math
/// twice the signed area of a, b, c: positive if counterclockwise
pub open spec fn g_cross<C: Real>(a: Coords<C>, b: Coords<C>, c: Coords<C>) -> real {
    (b.vx() - a.vx()) * (c.vy() - a.vy()) - (b.vy() - a.vy()) * (c.vx() - a.vx())
}
/// which side of the segment a point lies on, in exact arithmetic; on its upper end's height the points before that end are left of it
pub open spec fn left_exact<C: Real>(c_min: Coords<C>, c_max: Coords<C>, c: Coords<C>) -> bool {
    if c.vy() == c_max.vy() { c.vx() < c_max.vx() } else { g_cross(c_max, c, c_min) > 0real }
}
proof fn lemma_bottom(mx: real, my: real, tx: real, ty: real, cx: real)
    requires my < ty
    ensures ((cx - tx) * (my - ty) - (my - ty) * (mx - tx) > 0real) == (cx < mx)
{
    assert((cx - tx) * (my - ty) - (my - ty) * (mx - tx) == (cx - mx) * (my - ty)) by(nonlinear_arith);
    if cx < mx { assert((cx - mx) * (my - ty) > 0real) by(nonlinear_arith) requires cx < mx, my < ty; }
    else { assert((cx - mx) * (my - ty) <= 0real) by(nonlinear_arith) requires cx >= mx, my < ty; }
}
/// left of the line means counterclockwise (or no area), right of it clockwise (or no area)
pub proof fn lemma_left_cross<C: Real>(c_min: Coords<C>, c_max: Coords<C>, c: Coords<C>)
    requires c_min.vy() <= c_max.vy()
    ensures left_exact(c_min, c_max, c) ==> g_cross(c_max, c, c_min) >= 0real, !left_exact(c_min, c_max, c) ==> g_cross(c_max, c, c_min) <= 0real
{
    if c.vy() == c_max.vy() {
        let p = c.vx() - c_max.vx(); let q = c_min.vy() - c_max.vy();
        assert(g_cross(c_max, c, c_min) == p * q) by(nonlinear_arith)
            requires g_cross(c_max, c, c_min) == p * q - (c.vy() - c_max.vy()) * (c_min.vx() - c_max.vx()), c.vy() == c_max.vy();
        if p < 0real { assert(p * q >= 0real) by(nonlinear_arith) requires p < 0real, q <= 0real; }
        else { assert(p * q <= 0real) by(nonlinear_arith) requires p >= 0real, q <= 0real; }
    }
}
/// a triangle may be listed from any corner, and listed backwards it has the other sign
pub proof fn lemma_cross_cycle<C: Real>(a: Coords<C>, b: Coords<C>, c: Coords<C>)
    ensures g_cross(b, c, a) == g_cross(a, b, c), g_cross(c, a, b) == g_cross(a, b, c), g_cross(c, b, a) == -g_cross(a, b, c), g_cross(a, c, b) == -g_cross(a, b, c)
{
    let (ax, ay, bx, by, cx, cy) = (a.vx(), a.vy(), b.vx(), b.vy(), c.vx(), c.vy());
    lemma_expand(bx, ax, cy, ay); lemma_expand(by, ay, cx, ax);
    lemma_expand(cx, bx, ay, by); lemma_expand(cy, by, ax, bx);
    lemma_expand(ax, cx, by, cy); lemma_expand(ay, cy, bx, cx);
    lemma_expand(bx, cx, ay, cy); lemma_expand(by, cy, ax, cx);
    lemma_expand(cx, ax, by, ay); lemma_expand(cy, ay, bx, ax);
    lemma_comm(ax, by); lemma_comm(ax, cy); lemma_comm(bx, cy); lemma_comm(bx, ay); lemma_comm(cx, ay); lemma_comm(cx, by);
    lemma_comm(ax, ay); lemma_comm(bx, by); lemma_comm(cx, cy);
}
proof fn lemma_expand(a: real, b: real, c: real, d: real) ensures (a - b) * (c - d) == a * c - a * d - b * c + b * d
{ assert((a - b) * (c - d) == a * c - a * d - b * c + b * d) by(nonlinear_arith); }
proof fn lemma_comm(a: real, b: real) ensures a * b == b * a
{ assert(a * b == b * a) by(nonlinear_arith); }
/// the triangles of a quadrilateral, cut along either diagonal
pub proof fn lemma_cross_quad<C: Real>(o: Coords<C>, i: Coords<C>, j: Coords<C>, k: Coords<C>)
    ensures g_cross(o, i, j) + g_cross(o, j, k) == g_cross(o, i, k) + g_cross(i, j, k)
{
    let (ox, oy, ix, iy, jx, jy, kx, ky) = (o.vx(), o.vy(), i.vx(), i.vy(), j.vx(), j.vy(), k.vx(), k.vy());
    lemma_expand(ix, ox, jy, oy); lemma_expand(iy, oy, jx, ox);
    lemma_expand(jx, ox, ky, oy); lemma_expand(jy, oy, kx, ox);
    lemma_expand(ix, ox, ky, oy); lemma_expand(iy, oy, kx, ox);
    lemma_expand(jx, ix, ky, iy); lemma_expand(jy, iy, kx, ix);
    lemma_comm(ox, oy); lemma_comm(ix, iy); lemma_comm(jx, jy); lemma_comm(kx, ky);
    lemma_comm(ox, iy); lemma_comm(ox, jy); lemma_comm(ox, ky); lemma_comm(ix, oy); lemma_comm(ix, jy); lemma_comm(ix, ky);
    lemma_comm(jx, oy); lemma_comm(jx, iy); lemma_comm(jx, ky); lemma_comm(kx, oy); lemma_comm(kx, iy); lemma_comm(kx, jy);
}
//@ external math::math_n
//@ fn math::is_left_of_line -> r
    ensures C::exact() && c_min.vy() <= c_max.vy() ==> r == left_exact(c_min, c_max, c)
//@ start
    proof {
        if c.vy() != c_max.vy() && c_min.vy() < c_max.vy() && c.vy() == c_min.vy() { lemma_bottom(c_min.vx(), c_min.vy(), c_max.vx(), c_max.vy(), c.vx()); }
        let (p, q, r, s) = (c_min.vx() - c_max.vx(), c.vy() - c_max.vy(), c_min.vy() - c_max.vy(), c.vx() - c_max.vx());
        assert(p * q == q * p && r * s == s * r && (p * q < r * s <==> s * r - q * p > 0real)) by(nonlinear_arith);
    }

// ------------------------------------------------------------------ monotone chains
//@ in monotone::MonotoneBuilder
    pub open spec fn mb_ok(&self) -> bool {
        &&& self.vec@.len() >= 1
        &&& C::exact() && !self.diff_x ==> forall|i: int| 0 <= i < self.vec@.len() ==> (#[trigger] self.vec@[i]).1.vx() == self.vec@[0].1.vx()
        &&& C::exact() && !self.diff_y ==> forall|i: int| 0 <= i < self.vec@.len() ==> (#[trigger] self.vec@[i]).1.vy() == self.vec@[0].1.vy()
        &&& C::exact() && self.diff_x ==> exists|i: int| 0 <= i < self.vec@.len() && (#[trigger] self.vec@[i]).1.vx() != self.vec@[0].1.vx()
        &&& C::exact() && self.diff_y ==> exists|i: int| 0 <= i < self.vec@.len() && (#[trigger] self.vec@[i]).1.vy() != self.vec@[0].1.vy()
    }
    /// all vertices on one horizontal or vertical line
    pub open spec fn g_flat(&self) -> bool {
        ||| forall|i: int| 0 <= i < self.vec@.len() ==> (#[trigger] self.vec@[i]).1.vx() == self.vec@[0].1.vx()
        ||| forall|i: int| 0 <= i < self.vec@.len() ==> (#[trigger] self.vec@[i]).1.vy() == self.vec@[0].1.vy()
    }
//@ fn monotone::MonotoneBuilder::new -> r
    ensures r.mb_ok(), r.vec@ == seq![(vi, c)]
//@ fn monotone::MonotoneBuilder::add_vertex
    requires old(self).mb_ok()
    ensures final(self).mb_ok(), final(self).vec@ == old(self).vec@.push((vi, c))
//@ end
    proof {
        let n = old(self).vec@.len() as int;
        assert(self.vec@[n] == (vi, c));
        if C::exact() && old(self).diff_x { let i = choose|i: int| 0 <= i < n && (#[trigger] old(self).vec@[i]).1.vx() != old(self).vec@[0].1.vx(); assert(self.vec@[i] == old(self).vec@[i]); }
        if C::exact() && old(self).diff_y { let i = choose|i: int| 0 <= i < n && (#[trigger] old(self).vec@[i]).1.vy() != old(self).vec@[0].1.vy(); assert(self.vec@[i] == old(self).vec@[i]); }
    }
//@ fn monotone::MonotoneBuilder::build -> r
    requires self.mb_ok()
    ensures match r {
        Ok(Some(m)) => m.at_start() && m.skipped_and_pending@ == self.vec@
            && (C::exact() ==> !self.g_flat())
            && (C::exact() && self.vec@.last().1.vy() <= self.vec@[0].1.vy() ==> m.is_left_chain == crate::math::left_exact(self.vec@.last().1, self.vec@[0].1, self.vec@[1].1)),
        Ok(None) => self.vec@.len() >= 3 && (C::exact() ==> self.g_flat()),
        Err(_) => self.vec@.len() < 3,
    }
//@ in monotone::Monotone
    pub open spec fn sp(&self) -> Seq<(Index, Coords<C>)> { self.skipped_and_pending@ }
    pub open spec fn m_ok(&self) -> bool { self.skipped_top <= self.pending_top <= self.sp().len() }
    pub open spec fn at_start(&self) -> bool { self.skipped_top == 2 && self.pending_top == 2 && self.sp().len() >= 3 }
    pub open spec fn left(&self) -> int { self.sp().len() - self.pending_top + self.skipped_top }
//@ fn monotone::Monotone::new -> r
    ensures r.sp() == vertices@, r.skipped_top == 2, r.pending_top == 2, r.is_left_chain == is_left_chain
//@ fn monotone::Monotone::skipped_peek -> r
    requires 1 <= self.skipped_top <= self.sp().len()
    ensures r == self.sp()[self.skipped_top - 1]
//@ fn monotone::Monotone::skipped_peek2 -> r
    requires 2 <= self.skipped_top <= self.sp().len()
    ensures r.0 == self.sp()[self.skipped_top - 2], r.1 == self.sp()[self.skipped_top - 1]
//@ fn monotone::Monotone::skipped_pop -> r
    requires 1 <= old(self).skipped_top <= old(self).sp().len()
    ensures r == old(self).sp()[old(self).skipped_top - 1], final(self).skipped_top == old(self).skipped_top - 1,
        final(self).sp() == old(self).sp(), final(self).pending_top == old(self).pending_top, final(self).is_left_chain == old(self).is_left_chain
//@ fn monotone::Monotone::pending_peek -> r
    requires self.pending_top < self.sp().len()
    ensures r == self.sp()[self.pending_top as int]
//@ fn monotone::Monotone::remaining_vertices -> r
    requires self.m_ok()
    ensures r == self.left()
//@ fn monotone::Monotone::transfer_pending
    requires old(self).skipped_top <= old(self).pending_top < old(self).sp().len()
    ensures final(self).skipped_top == old(self).skipped_top + 1, final(self).pending_top == old(self).pending_top + 1,
        final(self).is_left_chain == old(self).is_left_chain,
        final(self).sp() == old(self).sp().update(old(self).skipped_top as int, old(self).sp()[old(self).pending_top as int]).update(old(self).pending_top as int, old(self).sp()[old(self).skipped_top as int])
//@ start
    proof { crate::vp::small_len(&self.skipped_and_pending); }
//@ end
    proof { if old(self).skipped_top == old(self).pending_top { assert(self.sp() =~= old(self).sp().update(old(self).skipped_top as int, old(self).sp()[old(self).pending_top as int]).update(old(self).pending_top as int, old(self).sp()[old(self).skipped_top as int])); } }
//@ fn monotone::Monotone::reset_position
    requires 2 <= old(self).skipped_top <= old(self).sp().len()
    ensures final(self).skipped_top == 2, final(self).pending_top == 2, final(self).is_left_chain == old(self).is_left_chain,
        final(self).sp() == old(self).sp().take(old(self).skipped_top as int)
//@ fn monotone::Monotone::has_pending -> r
    ensures r == (self.pending_top < self.sp().len())
//@ fn monotone::Monotone::deferred_index -> r
    requires is_backtracking ==> self.skipped_top + i < self.sp().len() && self.skipped_top + i <= usize::MAX,
        !is_backtracking ==> i < self.pending_top <= self.sp().len()
    ensures r == self.sp()[if is_backtracking { self.skipped_top + i } else { self.pending_top - 1 - i }].0
//@ fn monotone::Monotone::can_triangulate -> r
    requires self.m_ok()
    ensures r ==> self.skipped_top >= 2 && self.pending_top < self.sp().len()
        && (C::exact() ==> side_ok(self.is_left_chain, self.sp()[self.skipped_top - 2].1, self.sp()[self.skipped_top - 1].1, self.sp()[self.pending_top as int].1))
//@ start
    proof {
        if self.skipped_top >= 2 && self.pending_top < self.sp().len() {
            reveal(side_ok);
            let (a, b, c) = (self.sp()[self.skipped_top - 2].1, self.sp()[self.skipped_top - 1].1, self.sp()[self.pending_top as int].1);
            if c.vy() <= a.vy() { crate::math::lemma_left_cross(c, a, b); }
        }
    }
//@ mod monotone
/// b lies on the chain's side of the line from a down to c
#[verifier::opaque]
pub open spec fn side_ok<C: Real>(is_left: bool, a: Coords<C>, b: Coords<C>, c: Coords<C>) -> bool {
    c.vy() <= a.vy() ==> if is_left { crate::math::g_cross(a, b, c) >= 0real } else { crate::math::g_cross(a, b, c) <= 0real }
}

/// the corners chain[i], chain[j], chain[k] (in chain order) form a triangle that was cut off as an ear
pub open spec fn g_ear<Index: VertexIndex, C: Real>(ch: Seq<(Index, Coords<C>)>, left: bool, i: int, j: int, k: int) -> bool {
    0 <= i < j < k < ch.len() && (C::exact() ==> side_ok(left, ch[i].1, ch[j].1, ch[k].1))
}
/// the corners x, y, z, in this order, are those of an ear in chain order (fwd) or against it
pub open spec fn g_tri<Index: VertexIndex, C: Real>(ch: Seq<(Index, Coords<C>)>, left: bool, fwd: bool, x: int, y: int, z: int) -> bool {
    if fwd { g_ear(ch, left, x, y, z) || g_ear(ch, left, y, z, x) || g_ear(ch, left, z, x, y) }
    else { g_ear(ch, left, z, y, x) || g_ear(ch, left, y, x, z) || g_ear(ch, left, x, z, y) }
}
/// a fan, as positions in the chain: every triangle of it is an ear
#[verifier::opaque]
pub open spec fn fan_good<Index: VertexIndex, C: Real>(ch: Seq<(Index, Coords<C>)>, left: bool, fwd: bool, f: Seq<int>) -> bool {
    f.len() >= 3 && (forall|t: int| 1 <= t < f.len() - 1 ==> g_tri(ch, left, fwd, f[0], #[trigger] f[t], f[t + 1]))
}
#[verifier::opaque]
pub open spec fn fans_good<Index: VertexIndex, C: Real>(ch: Seq<(Index, Coords<C>)>, left: bool, fwd: bool, fans: Seq<Seq<int>>) -> bool {
    forall|k: int| 0 <= k < fans.len() ==> fan_good(ch, left, fwd, #[trigger] fans[k])
}
pub open spec fn g_tris(fans: Seq<Seq<int>>) -> int decreases fans.len() {
    if fans.len() == 0 { 0 } else { g_tris(fans.drop_last()) + fans.last().len() - 2 }
}
pub open spec fn fan_log<Index: VertexIndex, C: Real>(ch: Seq<(Index, Coords<C>)>, f: Seq<int>) -> Seq<Index> { f.map_values(|i: int| ch[i].0) }
pub open spec fn fans_log<Index: VertexIndex, C: Real>(ch: Seq<(Index, Coords<C>)>, fans: Seq<Seq<int>>) -> Seq<Seq<Index>> { fans.map_values(|f: Seq<int>| fan_log(ch, f)) }
proof fn lemma_good_push<Index: VertexIndex, C: Real>(ch: Seq<(Index, Coords<C>)>, left: bool, fwd: bool, fans: Seq<Seq<int>>, f: Seq<int>)
    requires fans_good(ch, left, fwd, fans), fan_good(ch, left, fwd, f)
    ensures fans_good(ch, left, fwd, fans.push(f))
{
    reveal(fans_good);
    let g = fans.push(f);
    assert forall|k: int| 0 <= k < g.len() implies fan_good(ch, left, fwd, #[trigger] g[k]) by { if k < fans.len() { assert(g[k] == fans[k]); } }
}
proof fn lemma_log_push<Index: VertexIndex, C: Real>(ch: Seq<(Index, Coords<C>)>, fans: Seq<Seq<int>>, f: Seq<int>)
    ensures forall|log: Seq<Seq<Index>>| (#[trigger] (log + fans_log(ch, fans))).push(fan_log(ch, f)) == log + fans_log(ch, fans.push(f)),
        fans_log(ch, fans.push(f)) == fans_log(ch, fans).push(fan_log(ch, f)),
        g_tris(fans.push(f)) == g_tris(fans) + f.len() - 2
{
    assert forall|log: Seq<Seq<Index>>| (#[trigger] (log + fans_log(ch, fans))).push(fan_log(ch, f)) == log + fans_log(ch, fans.push(f)) by {
        assert((log + fans_log(ch, fans)).push(fan_log(ch, f)) =~= log + fans_log(ch, fans.push(f)));
    }
    assert(fans_log(ch, fans.push(f)) =~= fans_log(ch, fans).push(fan_log(ch, f)));
    assert(fans.push(f).drop_last() =~= fans);
}
proof fn lemma_log_extend<Index: VertexIndex, C: Real>(ch: Seq<(Index, Coords<C>)>, fans: Seq<Seq<int>>, f: Seq<int>, i: int)
    ensures forall|log: Seq<Seq<Index>>| crate::lem::extend_last(#[trigger] (log + fans_log(ch, fans.push(f))), ch[i].0) == log + fans_log(ch, fans.push(f.push(i)))
{
    assert(fan_log(ch, f).push(ch[i].0) =~= fan_log(ch, f.push(i)));
    assert forall|log: Seq<Seq<Index>>| crate::lem::extend_last(#[trigger] (log + fans_log(ch, fans.push(f))), ch[i].0) == log + fans_log(ch, fans.push(f.push(i))) by {
        let a = log + fans_log(ch, fans.push(f));
        assert(a.drop_last() =~= log + fans_log(ch, fans));
        assert(a.last() == fan_log(ch, f));
        assert(crate::lem::extend_last(a, ch[i].0) =~= log + fans_log(ch, fans.push(f.push(i))));
    }
}
/// positions of the vertices still to be cut: gs those on the stack, gp those pending
pub open spec fn act_ok<Index: VertexIndex, C: Real>(m: Monotone<Index, C>, ch: Seq<(Index, Coords<C>)>, gs: Seq<int>, gp: Seq<int>) -> bool {
    &&& m.m_ok()
    &&& gs.len() == m.skipped_top && gp.len() == m.sp().len() - m.pending_top
    &&& gs.len() >= 1 ==> m.sp()[m.skipped_top - 1] == ch[gs.last()] && 0 <= gs.last() < ch.len()
    &&& gs.len() >= 2 ==> m.sp()[m.skipped_top - 2] == ch[gs[gs.len() - 2]] && 0 <= gs[gs.len() - 2] < gs.last()
    &&& gp.len() >= 1 ==> m.sp()[m.pending_top as int] == ch[gp[0]] && 0 <= gp[0] < ch.len() && (gs.len() >= 1 ==> gs.last() < gp[0])
    &&& act_deep(m, ch, gs, gp)
}
#[verifier::opaque]
pub open spec fn act_deep<Index: VertexIndex, C: Real>(m: Monotone<Index, C>, ch: Seq<(Index, Coords<C>)>, gs: Seq<int>, gp: Seq<int>) -> bool {
    &&& forall|i: int| 0 <= i < gs.len() ==> m.sp()[i] == ch[#[trigger] gs[i]] && 0 <= gs[i] < ch.len()
    &&& forall|i: int| 0 <= i < gp.len() ==> m.sp()[m.pending_top + i] == ch[#[trigger] gp[i]] && 0 <= gp[i] < ch.len()
    &&& forall|i: int, j: int| 0 <= i < j < gs.len() ==> #[trigger] gs[i] < #[trigger] gs[j]
    &&& forall|i: int, j: int| 0 <= i < j < gp.len() ==> #[trigger] gp[i] < #[trigger] gp[j]
    &&& forall|i: int, j: int| 0 <= i < gs.len() && 0 <= j < gp.len() ==> #[trigger] gs[i] < #[trigger] gp[j]
}
proof fn lemma_start<Index: VertexIndex, C: Real>(m: Monotone<Index, C>, ch: Seq<(Index, Coords<C>)>, gs: Seq<int>, gp: Seq<int>)
    requires m.at_start(), ch == m.sp(), gs == seq![0int, 1int], gp == Seq::new((ch.len() - 2) as nat, |i: int| i + 2)
    ensures act_ok(m, ch, gs, gp)
{
    reveal(act_deep);
    assert forall|i: int| 0 <= i < gs.len() implies m.sp()[i] == ch[#[trigger] gs[i]] && 0 <= gs[i] < ch.len() by { assert(i == 0 || i == 1); }
}
proof fn lemma_pop<Index: VertexIndex, C: Real>(m0: Monotone<Index, C>, m1: Monotone<Index, C>, ch: Seq<(Index, Coords<C>)>, gs: Seq<int>, gp: Seq<int>)
    requires act_ok(m0, ch, gs, gp), gs.len() >= 2, m1.sp() == m0.sp(), m1.skipped_top == m0.skipped_top - 1, m1.pending_top == m0.pending_top
    ensures act_ok(m1, ch, gs.drop_last(), gp)
{
    reveal(act_deep);
    let g = gs.drop_last();
    assert forall|i: int| 0 <= i < g.len() implies m1.sp()[i] == ch[#[trigger] g[i]] && 0 <= g[i] < ch.len() by { assert(g[i] == gs[i]); }
    assert(g.last() == gs[gs.len() - 2]);
    if g.len() >= 2 { assert(g[g.len() - 2] == gs[gs.len() - 3]); }
}
/// what the builder now holds is what it held before and these fans
pub open spec fn handed<'p, P: PolygonList<'p> + ?Sized, FB: FanFormat<'p, P>>(a: FanBuilderState<'p, P, FB>, b: FanBuilderState<'p, P, FB>, more: Seq<Seq<P::Index>>) -> bool {
    forall|log: Seq<Seq<P::Index>>| #[trigger] a.st_holds(log) ==> b.st_holds(log + more)
}
/// the fan of these spine vertices around the root, listed from the first ear to the last or backwards
pub open spec fn fan_of(root: int, spine: Seq<int>, backwards: bool) -> Seq<int> { seq![root] + (if backwards { spine.reverse() } else { spine }) }
pub open spec fn spine_ok<Index: VertexIndex, C: Real>(ch: Seq<(Index, Coords<C>)>, left: bool, bt: bool, root: int, spine: Seq<int>) -> bool {
    spine.len() >= 2 && 0 <= root < ch.len() && 0 <= spine.last() < ch.len() && 0 <= spine[spine.len() - 2] < ch.len() && spine_deep(ch, left, bt, root, spine)
}
#[verifier::opaque]
pub open spec fn spine_deep<Index: VertexIndex, C: Real>(ch: Seq<(Index, Coords<C>)>, left: bool, bt: bool, root: int, spine: Seq<int>) -> bool {
    &&& forall|t: int| 0 <= t < spine.len() ==> 0 <= #[trigger] spine[t] < ch.len()
    &&& forall|t: int| 0 <= t < spine.len() - 1 ==> if bt { g_ear(ch, left, spine[t + 1], #[trigger] spine[t], root) } else { g_ear(ch, left, root, #[trigger] spine[t], spine[t + 1]) }
}
proof fn lemma_spine2<Index: VertexIndex, C: Real>(ch: Seq<(Index, Coords<C>)>, left: bool, bt: bool, root: int, a: int, b: int)
    requires if bt { g_ear(ch, left, b, a, root) } else { g_ear(ch, left, root, a, b) }
    ensures spine_ok(ch, left, bt, root, seq![a, b])
{
    reveal(spine_deep);
    let s = seq![a, b];
    assert forall|t: int| 0 <= t < s.len() implies 0 <= #[trigger] s[t] < ch.len() by { assert(t == 0 || t == 1); }
    assert forall|t: int| 0 <= t < s.len() - 1 implies if bt { g_ear(ch, left, s[t + 1], #[trigger] s[t], root) } else { g_ear(ch, left, root, #[trigger] s[t], s[t + 1]) } by { assert(t == 0); }
}
/// the popped vertices of the current fan are still where deferred_index looks for them
pub open spec fn kept<Index: VertexIndex, C: Real>(m: Monotone<Index, C>, ch: Seq<(Index, Coords<C>)>, bt: bool, spine: Seq<int>) -> bool {
    m.skipped_top + spine.len() - 1 <= m.pending_top && kept_deep(m, ch, bt, spine)
}
#[verifier::opaque]
pub open spec fn kept_deep<Index: VertexIndex, C: Real>(m: Monotone<Index, C>, ch: Seq<(Index, Coords<C>)>, bt: bool, spine: Seq<int>) -> bool {
    forall|t: int| 0 <= t < spine.len() - 1 ==> m.sp()[if bt { m.skipped_top + spine.len() - 2 - t } else { m.pending_top + 1 - spine.len() + t }] == ch[#[trigger] spine[t]]
}
/// a vertex was popped (and, advancing, another one transferred)
proof fn lemma_kept<Index: VertexIndex, C: Real>(m0: Monotone<Index, C>, m1: Monotone<Index, C>, ch: Seq<(Index, Coords<C>)>, bt: bool, spine: Seq<int>, x: int)
    requires spine.len() >= 1, m0.m_ok(), m0.skipped_top >= 1, m0.sp()[m0.skipped_top - 1] == ch[spine.last()], kept(m0, ch, bt, spine),
        if bt { m1.skipped_top == m0.skipped_top - 1 && m1.pending_top == m0.pending_top && m1.sp() == m0.sp() }
        else { m1.skipped_top == m0.skipped_top && m1.pending_top == m0.pending_top + 1 && m0.pending_top < m0.sp().len()
            && m1.sp() == m0.sp().update(m0.skipped_top - 1, m0.sp()[m0.pending_top as int]).update(m0.pending_top as int, m0.sp()[m0.skipped_top - 1]) }
    ensures kept(m1, ch, bt, spine.push(x))
{
    reveal(kept_deep);
    let s1 = spine.push(x);
    assert forall|t: int| 0 <= t < s1.len() - 1 implies m1.sp()[if bt { m1.skipped_top + s1.len() - 2 - t } else { m1.pending_top + 1 - s1.len() + t }] == ch[#[trigger] s1[t]] by {
        assert(s1[t] == spine[t]);
        if t == spine.len() - 1 { assert(spine[t] == spine.last()); }
        else { let w = m0.sp()[if bt { m0.skipped_top + spine.len() - 2 - t } else { m0.pending_top + 1 - spine.len() + t }]; assert(w == ch[spine[t]]); }
    }
}
proof fn lemma_kept_start<Index: VertexIndex, C: Real>(m: Monotone<Index, C>, ch: Seq<(Index, Coords<C>)>, bt: bool, x: int)
    requires m.m_ok()
    ensures kept(m, ch, bt, seq![x])
{ reveal(kept_deep); }
proof fn lemma_kept_at<Index: VertexIndex, C: Real>(m: Monotone<Index, C>, ch: Seq<(Index, Coords<C>)>, left: bool, bt: bool, root: int, spine: Seq<int>, i: int)
    requires kept(m, ch, bt, spine), 0 <= i < spine.len() - 1, spine_ok(ch, left, bt, root, spine)
    ensures m.sp()[if bt { m.skipped_top + i } else { m.pending_top - 1 - i }] == ch[spine[spine.len() - 2 - i]],
        fan_of(root, spine, true)[2 + i] == spine[spine.len() - 2 - i], 0 <= spine[spine.len() - 2 - i] < ch.len()
{
    let t = spine.len() - 2 - i;
    assert(m.sp()[if bt { m.skipped_top + spine.len() - 2 - t } else { m.pending_top + 1 - spine.len() + t }] == ch[spine[t]]) by { reveal(kept_deep); }
    assert(0 <= spine[t] < ch.len()) by { reveal(spine_deep); }
    assert(fan_of(root, spine, true)[2 + i] == spine.reverse()[1 + i]);
}
proof fn lemma_transfer<Index: VertexIndex, C: Real>(m0: Monotone<Index, C>, m1: Monotone<Index, C>, ch: Seq<(Index, Coords<C>)>, gs: Seq<int>, gp: Seq<int>)
    requires act_ok(m0, ch, gs, gp), gp.len() > 0, m1.skipped_top == m0.skipped_top + 1, m1.pending_top == m0.pending_top + 1,
        m1.sp() == m0.sp().update(m0.skipped_top as int, m0.sp()[m0.pending_top as int]).update(m0.pending_top as int, m0.sp()[m0.skipped_top as int])
    ensures act_ok(m1, ch, gs.push(gp[0]), gp.drop_first()), m1.left() == m0.left(),
        forall|x: int| m0.skipped_top < x < m0.pending_top ==> m1.sp()[x] == m0.sp()[x],
        m0.skipped_top < m0.pending_top ==> m1.sp()[m0.pending_top as int] == m0.sp()[m0.skipped_top as int]
{
    reveal(act_deep);
    let (gs1, gp1) = (gs.push(gp[0]), gp.drop_first());
    assert forall|i: int| 0 <= i < gs1.len() implies m1.sp()[i] == ch[#[trigger] gs1[i]] && 0 <= gs1[i] < ch.len() by { if i < gs.len() { assert(gs1[i] == gs[i]); } else { assert(gs1[i] == gp[0]); } }
    assert forall|i: int| 0 <= i < gp1.len() implies m1.sp()[m1.pending_top + i] == ch[#[trigger] gp1[i]] && 0 <= gp1[i] < ch.len() by { assert(gp1[i] == gp[i + 1]); }
}
proof fn lemma_reset<Index: VertexIndex, C: Real>(m0: Monotone<Index, C>, m1: Monotone<Index, C>, ch: Seq<(Index, Coords<C>)>, gs: Seq<int>, gp: Seq<int>)
    requires act_ok(m0, ch, gs, gp), gp.len() == 0, gs.len() >= 2, m1.skipped_top == 2, m1.pending_top == 2, m1.sp() == m0.sp().take(m0.skipped_top as int)
    ensures act_ok(m1, ch, gs.take(2), gs.skip(2)), m1.left() == m0.left()
{
    reveal(act_deep);
    let (gs1, gp1) = (gs.take(2), gs.skip(2));
    assert forall|i: int| 0 <= i < gs1.len() implies m1.sp()[i] == ch[#[trigger] gs1[i]] && 0 <= gs1[i] < ch.len() by { assert(gs1[i] == gs[i]); }
    assert forall|i: int| 0 <= i < gp1.len() implies m1.sp()[m1.pending_top + i] == ch[#[trigger] gp1[i]] && 0 <= gp1[i] < ch.len() by { assert(gp1[i] == gs[i + 2]); }
}
/// one more ear on the spine
proof fn lemma_spine<Index: VertexIndex, C: Real>(ch: Seq<(Index, Coords<C>)>, left: bool, bt: bool, root: int, spine: Seq<int>, x: int)
    requires spine_ok(ch, left, bt, root, spine), 0 <= x < ch.len(), if bt { g_ear(ch, left, x, spine.last(), root) } else { g_ear(ch, left, root, spine.last(), x) }
    ensures spine_ok(ch, left, bt, root, spine.push(x)), fan_of(root, spine.push(x), false) == fan_of(root, spine, false).push(x)
{
    reveal(spine_deep);
    let s1 = spine.push(x);
    assert forall|t: int| 0 <= t < s1.len() - 1 implies if bt { g_ear(ch, left, s1[t + 1], #[trigger] s1[t], root) } else { g_ear(ch, left, root, #[trigger] s1[t], s1[t + 1]) } by {
        assert(s1[t] == spine[t]);
        if t < spine.len() - 1 { assert(s1[t + 1] == spine[t + 1]); }
    }
    assert(fan_of(root, s1, false) =~= fan_of(root, spine, false).push(x));
}
proof fn lemma_fan_of<Index: VertexIndex, C: Real>(ch: Seq<(Index, Coords<C>)>, left: bool, bt: bool, root: int, spine: Seq<int>, backwards: bool)
    requires spine_ok(ch, left, bt, root, spine)
    ensures fan_good(ch, left, bt == backwards, fan_of(root, spine, backwards))
{
    reveal(fan_good);
    reveal(spine_deep);
    let f = fan_of(root, spine, backwards);
    let n = spine.len() as int;
    assert forall|t: int| 1 <= t < f.len() - 1 implies g_tri(ch, left, bt == backwards, f[0], #[trigger] f[t], f[t + 1]) by {
        if backwards { assert(f[t] == spine[n - t] && f[t + 1] == spine[n - t - 1]); } else { assert(f[t] == spine[t - 1] && f[t + 1] == spine[t]); }
    }
}
//@ in fan_builder_state::FanBuilderState
    /// a call sequence that ended with this error left the state like this
    #[verifier::prophetic]
    pub open spec fn ended_with(self, before: Self, p: &'p P, e: TriangulationError<<FB::Builder as FanBuilder<'p, P>>::Error>) -> bool {
        match self {
            FanBuilderState::Uninitialized(f) => self == before && e is InternalError,
            FanBuilderState::Initialized(b) => b.inv() && b.base() == before.the_base(p) && (e is InternalError || e is FanBuilder && b.issued(e->FanBuilder_0)),
            FanBuilderState::Error(Some(b)) => b.inv() && b.base() == before.the_base(p) && e is FanBuilder && b.issued(e->FanBuilder_0),
            FanBuilderState::Error(None) => before is Uninitialized && e is FanBuilder && before->Uninitialized_0.init_err(e->FanBuilder_0) && <FB::Builder as FanBuilder<'p, P>>::kept(before.the_base(p)),
        }
    }
//@ fn inputs::polygon_list::PolygonListExt::polygon_list -> r
    ensures r == self.0
//@ mod monotone
#[verifier::prophetic]
pub open spec fn fb_ready<'p, P: PolygonList<'p> + ?Sized, FB: FanFormat<'p, P>>(b: FB::Builder, p: &'p P, fb0: FanBuilderState<'p, P, FB>, more: Seq<Seq<P::Index>>) -> bool {
    &&& crate::fan_builder_state::builder_ok::<P, FB>(b, p)
    &&& b.base() == fb0.the_base(p)
    &&& forall|log: Seq<Seq<P::Index>>| #[trigger] fb0.st_holds(log) ==> b.holds(log + more)
}
//@ mod monotone
/// twice the signed area of the polygon through these chain positions (for a fan: of its triangles together)
pub open spec fn shoe<Index: VertexIndex, C: Real>(ch: Seq<(Index, Coords<C>)>, s: Seq<int>) -> real decreases s.len() {
    if s.len() < 3 { 0real } else { shoe(ch, s.drop_last()) + crate::math::g_cross(ch[s[0]].1, ch[s[s.len() - 2]].1, ch[s[s.len() - 1]].1) }
}
pub open spec fn shoes<Index: VertexIndex, C: Real>(ch: Seq<(Index, Coords<C>)>, fans: Seq<Seq<int>>) -> real decreases fans.len() {
    if fans.len() == 0 { 0real } else { shoes(ch, fans.drop_last()) + shoe(ch, fans.last()) }
}
pub open spec fn sgn(plus: bool, x: real) -> real { if plus { x } else { -x } }
pub open spec fn upto(n: int) -> Seq<int> { Seq::new(n as nat, |i: int| i) }
/// the triangles of the fans have, together, the area of the chain's polygon
pub open spec fn area_kept<Index: VertexIndex, C: Real>(ch: Seq<(Index, Coords<C>)>, fwd: bool, fans: Seq<Seq<int>>) -> bool { sgn(fwd, shoes(ch, fans)) == shoe(ch, upto(ch.len() as int)) }
/// area handed over and area left make up the whole
#[verifier::opaque]
pub open spec fn bal<Index: VertexIndex, C: Real>(ch: Seq<(Index, Coords<C>)>, fwd: bool, fans: Seq<Seq<int>>, gs: Seq<int>, gp: Seq<int>) -> bool {
    sgn(fwd, shoes(ch, fans)) + shoe(ch, gs + gp) == shoe(ch, upto(ch.len() as int))
}
/// and so it is with the fan under construction
#[verifier::opaque]
pub open spec fn bal_fan<Index: VertexIndex, C: Real>(ch: Seq<(Index, Coords<C>)>, fwd: bool, fans: Seq<Seq<int>>, bt: bool, root: int, spine: Seq<int>, gs: Seq<int>, gp: Seq<int>) -> bool {
    sgn(fwd, shoes(ch, fans)) + sgn(!bt, shoe(ch, fan_of(root, spine, false))) + shoe(ch, gs + gp) == shoe(ch, upto(ch.len() as int))
}
proof fn lemma_ear<Index: VertexIndex, C: Real>(ch: Seq<(Index, Coords<C>)>, gs: Seq<int>, gp: Seq<int>)
    requires gs.len() >= 2, gp.len() >= 1
    ensures shoe(ch, gs + gp) == shoe(ch, gs.drop_last() + gp) + crate::math::g_cross(ch[gs[gs.len() - 2]].1, ch[gs.last()].1, ch[gp[0]].1)
    decreases gp.len()
{
    hide(crate::math::g_cross);
    let (s, r) = (gs + gp, gs.drop_last() + gp);
    if gp.len() == 1 {
        assert(s.drop_last() =~= gs); assert(r.drop_last() =~= gs.drop_last());
        assert(s[s.len() - 2] == gs.last() && s[s.len() - 1] == gp[0] && s[0] == gs[0]); assert(r[r.len() - 2] == gs[gs.len() - 2] && r[r.len() - 1] == gp[0] && r[0] == gs[0]);
        if gs.len() >= 3 { crate::math::lemma_cross_quad(ch[gs[0]].1, ch[gs[gs.len() - 2]].1, ch[gs.last()].1, ch[gp[0]].1); assert(shoe(ch, gs) == shoe(ch, gs.drop_last()) + crate::math::g_cross(ch[gs[0]].1, ch[gs[gs.len() - 2]].1, ch[gs.last()].1)); }
        else { assert(shoe(ch, gs) == 0real); assert(shoe(ch, r) == 0real); }
        assert(shoe(ch, gs + gp) == shoe(ch, gs.drop_last() + gp) + crate::math::g_cross(ch[gs[gs.len() - 2]].1, ch[gs.last()].1, ch[gp[0]].1));
    } else {
        lemma_ear(ch, gs, gp.drop_last());
        assert(s.drop_last() =~= gs + gp.drop_last()); assert(r.drop_last() =~= gs.drop_last() + gp.drop_last());
        assert(gp.drop_last()[0] == gp[0]);
        assert(s[0] == r[0] && s[s.len() - 1] == r[r.len() - 1] && s[s.len() - 2] == r[r.len() - 2]);
    }
}
proof fn lemma_shoe_front<Index: VertexIndex, C: Real>(ch: Seq<(Index, Coords<C>)>, r: int, s: Seq<int>)
    requires s.len() >= 2
    ensures shoe(ch, seq![r] + s) == crate::math::g_cross(ch[r].1, ch[s[0]].1, ch[s[1]].1) + shoe(ch, seq![r] + s.drop_first())
    decreases s.len()
{
    let (a, b) = (seq![r] + s, seq![r] + s.drop_first());
    assert(a.drop_last() =~= seq![r] + s.drop_last());
    assert(b.drop_last() =~= seq![r] + s.drop_last().drop_first());
    if s.len() > 2 { lemma_shoe_front(ch, r, s.drop_last()); assert(a[a.len() - 2] == b[b.len() - 2]); } else { assert(shoe(ch, a.drop_last()) == 0real); assert(shoe(ch, b) == 0real); }
}
proof fn lemma_shoe_back<Index: VertexIndex, C: Real>(ch: Seq<(Index, Coords<C>)>, r: int, s: Seq<int>)
    ensures shoe(ch, seq![r] + s.reverse()) == -shoe(ch, seq![r] + s)
    decreases s.len()
{
    if s.len() >= 2 {
        lemma_shoe_front(ch, r, s); lemma_shoe_back(ch, r, s.drop_first());
        let a = seq![r] + s.reverse();
        assert(a.drop_last() =~= seq![r] + s.drop_first().reverse());
        assert(a[a.len() - 2] == s[1] && a[a.len() - 1] == s[0]);
        crate::math::lemma_cross_cycle(ch[r].1, ch[s[0]].1, ch[s[1]].1);
    }
}
proof fn bal_start<Index: VertexIndex, C: Real>(ch: Seq<(Index, Coords<C>)>, fwd: bool, gs: Seq<int>, gp: Seq<int>)
    requires ch.len() >= 2, gs == seq![0int, 1int], gp == Seq::new((ch.len() - 2) as nat, |i: int| i + 2)
    ensures bal(ch, fwd, Seq::empty(), gs, gp)
{ reveal(bal); assert(gs + gp =~= upto(ch.len() as int)); }
/// the first ear of a fan
proof fn bal_first<Index: VertexIndex, C: Real>(ch: Seq<(Index, Coords<C>)>, fwd: bool, fans: Seq<Seq<int>>, bt: bool, root: int, spine: Seq<int>, gs: Seq<int>, gp: Seq<int>)
    requires bal(ch, fwd, fans, gs, gp), gs.len() >= 2, gp.len() >= 1,
        if bt { root == gp[0] && spine == seq![gs.last(), gs[gs.len() - 2]] } else { root == gs[gs.len() - 2] && spine == seq![gs.last(), gp[0]] }
    ensures bal_fan(ch, fwd, fans, bt, root, spine, gs.drop_last(), gp)
{
    reveal(bal); reveal(bal_fan);
    lemma_ear(ch, gs, gp);
    let f = fan_of(root, spine, false);
    assert(f =~= seq![root, spine[0], spine[1]]); assert(shoe(ch, f.drop_last()) == 0real);
    crate::math::lemma_cross_cycle(ch[gs[gs.len() - 2]].1, ch[gs.last()].1, ch[gp[0]].1);
}
/// one more ear
proof fn bal_next<Index: VertexIndex, C: Real>(ch: Seq<(Index, Coords<C>)>, fwd: bool, fans: Seq<Seq<int>>, bt: bool, root: int, spine: Seq<int>, gs: Seq<int>, gp: Seq<int>, x: int)
    requires bal_fan(ch, fwd, fans, bt, root, spine, gs, gp), gs.len() >= 2, gp.len() >= 1, spine.len() >= 2, spine.last() == gs.last(),
        if bt { root == gp[0] && x == gs[gs.len() - 2] } else { root == gs[gs.len() - 2] && x == gp[0] }
    ensures bal_fan(ch, fwd, fans, bt, root, spine.push(x), gs.drop_last(), gp)
{
    reveal(bal_fan);
    lemma_ear(ch, gs, gp);
    let f = fan_of(root, spine.push(x), false);
    assert(f.drop_last() =~= fan_of(root, spine, false)); assert(f[f.len() - 2] == spine.last() && f[f.len() - 1] == x && f[0] == root);
    crate::math::lemma_cross_cycle(ch[gs[gs.len() - 2]].1, ch[gs.last()].1, ch[gp[0]].1);
}
proof fn bal_move<Index: VertexIndex, C: Real>(ch: Seq<(Index, Coords<C>)>, fwd: bool, fans: Seq<Seq<int>>, gs: Seq<int>, gp: Seq<int>, gs1: Seq<int>, gp1: Seq<int>)
    requires bal(ch, fwd, fans, gs, gp), gs + gp == gs1 + gp1 ensures bal(ch, fwd, fans, gs1, gp1)
{ reveal(bal); }
proof fn bal_fan_move<Index: VertexIndex, C: Real>(ch: Seq<(Index, Coords<C>)>, fwd: bool, fans: Seq<Seq<int>>, bt: bool, root: int, spine: Seq<int>, gs: Seq<int>, gp: Seq<int>, gs1: Seq<int>, gp1: Seq<int>)
    requires bal_fan(ch, fwd, fans, bt, root, spine, gs, gp), gs + gp == gs1 + gp1 ensures bal_fan(ch, fwd, fans, bt, root, spine, gs1, gp1)
{ reveal(bal_fan); }
/// the fan is complete
proof fn bal_done<Index: VertexIndex, C: Real>(ch: Seq<(Index, Coords<C>)>, fwd: bool, fans: Seq<Seq<int>>, bt: bool, root: int, spine: Seq<int>, gs: Seq<int>, gp: Seq<int>, back: bool)
    requires bal_fan(ch, fwd, fans, bt, root, spine, gs, gp), fwd == (bt == back)
    ensures bal(ch, fwd, fans.push(fan_of(root, spine, back)), gs, gp)
{
    reveal(bal); reveal(bal_fan);
    let f = fan_of(root, spine, back);
    assert(fans.push(f).drop_last() =~= fans);
    if back { lemma_shoe_back(ch, root, spine); }
}
proof fn bal_end<Index: VertexIndex, C: Real>(ch: Seq<(Index, Coords<C>)>, fwd: bool, fans: Seq<Seq<int>>, gs: Seq<int>, gp: Seq<int>)
    requires bal(ch, fwd, fans, gs, gp) ensures gs.len() + gp.len() <= 2 ==> area_kept(ch, fwd, fans)
{ reveal(bal); }
//@ fn monotone::Monotone::build_fans::BuilderOrDeferredTris::add_triangle -> r
    requires match *old(self) {
        BuilderOrDeferredTris::Builder(b) => b.wf() && b.inv() && b.accepts(vi),
        BuilderOrDeferredTris::DeferredTris(_, dt, _) => dt < usize::MAX,
    }
    ensures match (*old(self), *final(self)) {
        (BuilderOrDeferredTris::Builder(b0), BuilderOrDeferredTris::Builder(b1)) => {
            &&& *final(b1) == *final(b0)
            &&& b1.inv() && b1.base() == b0.base()
            &&& forall|vi: P::Index| b0.accepts(vi) ==> #[trigger] b1.accepts(vi)
            &&& match r {
                Ok(_) => b1.wf() && forall|log: Seq<Seq<P::Index>>| #[trigger] b0.holds(log) ==> b1.holds(crate::lem::extend_last(log, vi)),
                Err(e) => b1.issued(e),
            }
        },
        (BuilderOrDeferredTris::DeferredTris(s0, d0, _), BuilderOrDeferredTris::DeferredTris(s1, d1, _)) => s1 == s0 && d1 == d0 + 1 && r is Ok,
        _ => false,
    }
//@ fn monotone::Monotone::build_fans -> r
    requires self.at_start(), old(fbs).st_ok(ps.0), !(*old(fbs) is Error),
        forall|i: int| 0 <= i < self.sp().len() ==> ps.0.yields((#[trigger] self.sp()[i]).0)
    ensures
        r is Ok ==> final(fbs).st_ok(ps.0) && *final(fbs) is Initialized, // @C05
        r is Ok ==> final(fbs).the_base(ps.0) == old(fbs).the_base(ps.0), // @C06 C07
        r is Ok ==> exists|fans: Seq<Seq<int>>| fans_good(self.sp(), self.is_left_chain, self.is_left_chain == (FB::Builder::winding() == TriangleWinding::Counterclockwise), fans)
                && #[trigger] g_tris(fans) == self.sp().len() - 2 && area_kept(self.sp(), self.is_left_chain == (FB::Builder::winding() == TriangleWinding::Counterclockwise), fans) && handed(*old(fbs), *final(fbs), fans_log(self.sp(), fans)), // @C01 C02 C03
        r is Err ==> final(fbs).ended_with(*old(fbs), ps.0, r->Err_0), // @C05 C07
//@ start
    let ghost ch = self.sp();
    let ghost left = self.is_left_chain;
    let ghost fwd = left == (FB::Builder::winding() == TriangleWinding::Counterclockwise);
    let ghost p = ps.0;
    let ghost fb0 = *fbs;
    let ghost mut gs: Seq<int> = seq![0int, 1int];
    let ghost mut gp: Seq<int> = Seq::new((ch.len() - 2) as nat, |i: int| i + 2);
    let ghost mut fans: Seq<Seq<int>> = Seq::empty();
    proof {
        lemma_start(self, ch, gs, gp); bal_start(ch, fwd, gs, gp);
        reveal(fans_good);
        assert(fans_log(ch, fans) =~= Seq::empty());
        assert forall|log: Seq<Seq<P::Index>>| #[trigger] fb0.st_holds(log) implies fbs.st_holds(log + fans_log(ch, fans)) by { assert(log + fans_log(ch, fans) =~= log); }
    }
//@ loop 0
    invariant
        act_ok(self_, ch, gs, gp), gs.len() >= 2, self_.is_left_chain == left, ch.len() >= 3,
        fans_good(ch, left, fwd, fans), g_tris(fans) + self_.left() == ch.len(),
        bal(ch, fwd, fans, gs, gp), gs.len() + gp.len() <= 2 ==> area_kept(ch, fwd, fans), // @C01
        fwd == (left == (FB::Builder::winding() == TriangleWinding::Counterclockwise)),
        fbs.st_ok(p), !(*fbs is Error), // @C05
        fbs.the_base(p) == fb0.the_base(p), // @C06 C07
        handed(fb0, *fbs, fans_log(ch, fans)), // @C03
        *fbs is Uninitialized ==> *fbs == fb0, fb0 is Initialized ==> *fbs is Initialized, fans.len() > 0 ==> *fbs is Initialized,
        p == ps.0, fb0 == *old(fbs), forall|i: int| 0 <= i < ch.len() ==> p.yields((#[trigger] ch[i]).0),
    decreases self_.left(), if last_reset_vertices == Some(self_.left() as usize) { 0int } else { 1int }, self_.sp().len() - self_.pending_top
//@ before let vi1 = self.skipped_pop().0;
                let ghost m0 = self_;
                let ghost gs0 = gs;
                proof { assert(g_ear(ch, left, gs0[gs0.len() - 2], gs0.last(), gp[0])); }
//@ after let vi1 = self.skipped_pop().0;
                proof { lemma_pop(m0, self_, ch, gs, gp); gs = gs.drop_last(); }
                let ghost m1 = self_;
                let ghost j0 = gs0.last();
//@ before let mut bodt
                proof { assert(p.yields(ch[j0].0) && p.yields(ch[gs.last()].0) && p.yields(ch[gp[0]].0)); }
//@ before if is_backtracking { ## 1
                let ghost bodt0 = bodt;
                let ghost back = bodt is DeferredTris;
                let ghost root = if is_backtracking { gp[0] } else { gs.last() };
                let ghost mut spine: Seq<int> = seq![j0, if is_backtracking { gs.last() } else { gp[0] }];
                proof {
                    lemma_log_push(ch, fans, fan_of(root, spine, false));
                    assert(fan_log(ch, fan_of(root, spine, false)) =~= seq![ch[root].0, ch[spine[0]].0, ch[spine[1]].0]);
                    lemma_spine2(ch, left, is_backtracking, root, spine[0], spine[1]);
                    lemma_kept_start(m0, ch, is_backtracking, j0);
                    bal_first(ch, fwd, fans, is_backtracking, root, spine, gs0, gp);
                    assert(seq![j0].push(spine[1]) =~= spine);
                    if is_backtracking { lemma_kept(m0, m1, ch, true, seq![j0], spine[1]); }
                }
//@ before self.skipped_pop(); ## 0
                    let ghost m2 = self_;
                    let ghost g2 = gs;
                    proof {
                        assert(g_ear(ch, left, g2[g2.len() - 2], g2.last(), gp[0]));
                        lemma_log_extend(ch, fans, fan_of(root, spine, false), g2[g2.len() - 2]);
                        lemma_spine(ch, left, true, root, spine, g2[g2.len() - 2]);
                    }
//@ after self.skipped_pop(); ## 0
                    proof { lemma_pop(m2, self_, ch, gs, gp); gs = gs.drop_last(); assert(p.yields(ch[gs.last()].0)); }
//@ after bodt.add_triangle(self.skipped_peek().0).map_err(TriangulationError::from)?; ## 0
                    proof { lemma_kept(m2, self_, ch, true, spine, gs.last()); bal_next(ch, fwd, fans, true, root, spine, g2, gp, gs.last()); spine = spine.push(gs.last()); }
//@ before self.skipped_pop(); ## 1
                        let ghost m2 = self_;
                        let ghost g2 = gs;
                        proof {
                            assert(g_ear(ch, left, g2[g2.len() - 2], g2.last(), gp[0]));
                            lemma_log_extend(ch, fans, fan_of(root, spine, false), g2[g2.len() - 2]);
                            lemma_spine(ch, left, true, root, spine, g2[g2.len() - 2]);
                        }
//@ after self.skipped_pop(); ## 1
                        proof { lemma_pop(m2, self_, ch, gs, gp); gs = gs.drop_last(); assert(p.yields(ch[gs.last()].0)); }
//@ after bodt.add_triangle(self.skipped_peek().0).map_err(TriangulationError::from)?; ## 1
                        proof { lemma_kept(m2, self_, ch, true, spine, gs.last()); bal_next(ch, fwd, fans, true, root, spine, g2, gp, gs.last()); spine = spine.push(gs.last()); }
//@ after self.transfer_pending(); ## 0
                    proof {
                        lemma_transfer(m1, self_, ch, gs, gp);
                        lemma_kept(m0, self_, ch, false, seq![j0], spine[1]);
                        assert(gs + gp =~= gs.push(gp[0]) + gp.drop_first()); bal_fan_move(ch, fwd, fans, false, root, spine, gs, gp, gs.push(gp[0]), gp.drop_first());
                        gs = gs.push(gp[0]); gp = gp.drop_first();
                    }
//@ before self.skipped_pop(); ## 2
                        let ghost m2 = self_;
                        let ghost g2 = gs;
                        proof {
                            assert(g_ear(ch, left, g2[g2.len() - 2], g2.last(), gp[0]));
                            lemma_log_extend(ch, fans, fan_of(root, spine, false), gp[0]);
                            lemma_spine(ch, left, false, root, spine, gp[0]);
                            assert(p.yields(ch[gp[0]].0));
                        }
//@ after self.skipped_pop(); ## 2
                        proof { lemma_pop(m2, self_, ch, gs, gp); gs = gs.drop_last(); }
                        let ghost m3 = self_;
//@ after self.transfer_pending(); ## 1
                        proof {
                            lemma_transfer(m3, self_, ch, gs, gp);
                            lemma_kept(m2, self_, ch, false, spine, gp[0]);
                            bal_next(ch, fwd, fans, false, root, spine, g2, gp, gp[0]);
                            assert(gs + gp =~= gs.push(gp[0]) + gp.drop_first()); bal_fan_move(ch, fwd, fans, false, root, spine.push(gp[0]), gs, gp, gs.push(gp[0]), gp.drop_first());
                            spine = spine.push(gp[0]); gs = gs.push(gp[0]); gp = gp.drop_first();
                        }
//@ before let (vi0, vi1, vi2) = if is_backtracking
                    let ghost f = fan_of(root, spine, true);
                    proof {
                        let m = spine.len() - 1;
                        lemma_kept_at(self_, ch, left, is_backtracking, root, spine, 0);
                        lemma_log_push(ch, fans, f.take(3));
                        assert(f[0] == root && f[1] == spine[m] && f[2] == spine[m - 1]);
                        assert(fan_log(ch, f.take(3)) =~= seq![ch[root].0, ch[spine[m]].0, ch[spine[m - 1]].0]);
                        assert(p.yields(ch[root].0) && p.yields(ch[spine[m]].0) && p.yields(ch[spine[m - 1]].0));
                    }
//@ loopstart 3
                        proof {
                            let m = spine.len() - 1;
                            let f = fan_of(root, spine, true);
                            lemma_kept_at(self_, ch, left, is_backtracking, root, spine, i as int);
                            lemma_log_extend(ch, fans, f.take(2 + i), f[2 + i]);
                            assert(f.take(3 + i) =~= f.take(2 + i).push(f[2 + i]));
                            assert(p.yields(ch[spine[m - 1 - i]].0));
                        }
//@ blockend if self.can_triangulate()
                proof {
                    let f = fan_of(root, spine, back);
                    lemma_fan_of(ch, left, is_backtracking, root, spine, back);
                    assert(back ==> f.take(spine.len() as int + 1) =~= f);
                    lemma_log_push(ch, fans, f);
                    lemma_good_push(ch, left, fwd, fans, f);
                    bal_done(ch, fwd, fans, is_backtracking, root, spine, gs, gp, back);
                    fans = fans.push(f);
                }
//@ before self.transfer_pending(); ## 2
                let ghost m0 = self_;
//@ after self.transfer_pending(); ## 2
                proof { lemma_transfer(m0, self_, ch, gs, gp); assert(gs + gp =~= gs.push(gp[0]) + gp.drop_first()); bal_move(ch, fwd, fans, gs, gp, gs.push(gp[0]), gp.drop_first()); bal_end(ch, fwd, fans, gs, gp); gs = gs.push(gp[0]); gp = gp.drop_first(); }
//@ before self.reset_position();
                let ghost m0 = self_;
//@ after self.reset_position();
                proof { lemma_reset(m0, self_, ch, gs, gp); assert(gs + gp =~= gs.take(2) + gs.skip(2)); bal_move(ch, fwd, fans, gs, gp, gs.take(2), gs.skip(2)); bal_end(ch, fwd, fans, gs, gp); gp = gs.skip(2); gs = gs.take(2); }
//@ loop 1
    invariant
        is_backtracking, gp.len() > 0, gs.len() >= 1, root == gp[0], spine.last() == gs.last(),
        self_.is_left_chain == left, ch.len() >= 3, p == ps.0, fb0 == *old(fbs), forall|i: int| 0 <= i < ch.len() ==> p.yields((#[trigger] ch[i]).0),
        act_ok(self_, ch, gs, gp), spine_ok(ch, left, is_backtracking, root, spine), kept(self_, ch, is_backtracking, spine),
        g_tris(fans) + self_.left() + spine.len() - 1 == ch.len(), bal_fan(ch, fwd, fans, is_backtracking, root, spine, gs, gp), // @C01 C03
        bodt0 is Builder ==> after_borrow(*fbs) == FanBuilderState::<'p, P, FB>::Initialized(*final(bodt0->Builder_0)),
        match bodt {
            BuilderOrDeferredTris::Builder(b) => !back && bodt0 is Builder && *final(b) == *final(bodt0->Builder_0) && fb_ready::<P, FB>(*b, p, fb0, fans_log(ch, fans.push(fan_of(root, spine, false)))),
            BuilderOrDeferredTris::DeferredTris(s, dt, _) => back && bodt0 is DeferredTris && s == bodt0->DeferredTris_0 && dt == spine.len() - 1,
        },
    decreases self_.skipped_top
//@ loop 2
    invariant
        !is_backtracking, gs.len() >= 2, root == gs[gs.len() - 2], spine.last() == gs.last(),
        self_.is_left_chain == left, ch.len() >= 3, p == ps.0, fb0 == *old(fbs), forall|i: int| 0 <= i < ch.len() ==> p.yields((#[trigger] ch[i]).0),
        act_ok(self_, ch, gs, gp), spine_ok(ch, left, is_backtracking, root, spine), kept(self_, ch, is_backtracking, spine),
        g_tris(fans) + self_.left() + spine.len() - 1 == ch.len(), bal_fan(ch, fwd, fans, is_backtracking, root, spine, gs, gp), // @C01 C03
        bodt0 is Builder ==> after_borrow(*fbs) == FanBuilderState::<'p, P, FB>::Initialized(*final(bodt0->Builder_0)),
        match bodt {
            BuilderOrDeferredTris::Builder(b) => !back && bodt0 is Builder && *final(b) == *final(bodt0->Builder_0) && fb_ready::<P, FB>(*b, p, fb0, fans_log(ch, fans.push(fan_of(root, spine, false)))),
            BuilderOrDeferredTris::DeferredTris(s, dt, _) => back && bodt0 is DeferredTris && s == bodt0->DeferredTris_0 && dt == spine.len() - 1,
        },
    decreases self_.sp().len() - self_.pending_top
//@ loop 3
    invariant
        1 <= i <= dt, dt == spine.len() - 1, back,
        self_.is_left_chain == left, ch.len() >= 3, p == ps.0, forall|i: int| 0 <= i < ch.len() ==> p.yields((#[trigger] ch[i]).0),
        act_ok(self_, ch, gs, gp), spine_ok(ch, left, is_backtracking, root, spine), kept(self_, ch, is_backtracking, spine),
        fb_ready::<P, FB>(*fb, p, fb0, fans_log(ch, fans.push(fan_of(root, spine, true).take(2 + i)))),
//@ before for i in 1..dt
                    #[verifier::loop_isolation(false)]
//@ attr #[verifier::rlimit(60)]
