%% module grid grid.rs
%% header
use vstd::std_specs::cmp::*;
use vstd::std_specs::convert::*;
use vstd::std_specs::ops::*;
use vstd::std_specs::iter::IteratorSpec;
use vstd::std_specs::core::*;
use std::fmt;
use crate::vxlib::vxfmt::*;
use super::boundedint::*;
use super::postrait::*;
use super::pos::*;
%% prelude
broadcast use {super::vxlib::convax::axiom_try_from_refl, super::vxlib::convax::axiom_try_into_refl,
    super::vxlib::convax::axiom_try_from_blanket, super::vxlib::convax::axiom_try_into_blanket, super::vxlib::vxfmt::shows};

/// positions of a grid: at least one, and at most isize::MAX columns and lines (the limit of any array in memory)
pub open spec fn gpos<P: PosT>() -> bool { grid_like::<P>() && 0 < pw::<P>() <= isize::MAX && 0 < ph::<P>() <= isize::MAX }
/// a grid type with exactly one cell per position
pub open spec fn gok<P: PosT>(size: int) -> bool { gpos::<P>() && size == pw::<P>() * ph::<P>() }
/// index of the cell of a position
pub open spec fn gix<P: PosT>(p: P) -> int { p.py() * pw::<P>() + p.px() }
pub proof fn lemma_gix<P: PosT>(p: P, q: P)
    requires grid_like::<P>(), p.pwf(), q.pwf(),
    ensures 0 <= gix(p) < pw::<P>() * ph::<P>(), (gix(p) == gix(q)) == (p == q), gix(p) == prank(true, p),
{
    lemma_index_bijection(p, q, 0);
}
pub proof fn lemma_unix(w: int, h: int, i: int)
    requires 0 < w, 0 < h, 0 <= i < w * h,
    ensures 0 <= i % w < w, 0 <= i / w < h, (i / w) * w + i % w == i,
        forall|x: int, y: int| inr(w, h, x, y) && #[trigger] (y * w + x) == i ==> x == i % w && y == i / w,
{
    lemma_unrank(0, 0, w, i);
    assert(i / w < h) by (nonlinear_arith) requires i < w * h, (i / w) * w + i % w == i, i % w >= 0, w > 0;
    assert forall|x: int, y: int| inr(w, h, x, y) && #[trigger] (y * w + x) == i implies x == i % w && y == i / w by { lemma_rank(0, 0, w, x, y); }
}
/// the cell at column x of line y
pub open spec fn cell<T>(s: Seq<T>, w: int, x: int, y: int) -> T { s[y * w + x] }
pub open spec fn inr(w: int, h: int, x: int, y: int) -> bool { 0 <= x < w && 0 <= y < h }
pub proof fn lemma_cell(w: int, h: int, x: int, y: int, x2: int, y2: int)
    requires inr(w, h, x, y), inr(w, h, x2, y2),
    ensures 0 <= y * w + x < w * h, (y * w + x == y2 * w + x2) == (x == x2 && y == y2),
{
    lemma_rank(0, 0, w, x, y);
    lemma_rank_mono(0, 0, w, x, y, x2, y2);
    assert(y * w <= (h - 1) * w) by (nonlinear_arith) requires y <= h - 1, w > 0;
    assert((h - 1) * w == w * h - w) by (nonlinear_arith);
}
pub open spec fn seq_swap<T>(s: Seq<T>, i: int, j: int) -> Seq<T> { s.update(i, s[j]).update(j, s[i]) }
pub open spec fn swapped<T>(s: Seq<T>, t: Seq<T>, w: int, h: int, x1: int, y1: int, x2: int, y2: int) -> bool {
    t.len() == s.len() && forall|x: int, y: int| inr(w, h, x, y) ==> #[trigger] cell(t, w, x, y) ==
        (if x == x1 && y == y1 { cell(s, w, x2, y2) } else if x == x2 && y == y2 { cell(s, w, x1, y1) } else { cell(s, w, x, y) })
}
pub proof fn lemma_swap<T>(s: Seq<T>, w: int, h: int, x1: int, y1: int, x2: int, y2: int)
    requires inr(w, h, x1, y1), inr(w, h, x2, y2), s.len() >= w * h,
    ensures swapped(s, seq_swap(s, y1 * w + x1, y2 * w + x2), w, h, x1, y1, x2, y2),
        seq_swap(s, y1 * w + x1, y2 * w + x2) == seq_swap(s, y2 * w + x2, y1 * w + x1),
        0 <= y1 * w + x1 < w * h, 0 <= y2 * w + x2 < w * h,
{
    let i = y1 * w + x1; let j = y2 * w + x2;
    let t = seq_swap(s, i, j);
    assert(t =~= seq_swap(s, j, i));
    lemma_cell(w, h, x1, y1, x2, y2);
    lemma_cell(w, h, x2, y2, x1, y1);
    assert forall|x: int, y: int| inr(w, h, x, y) implies #[trigger] cell(t, w, x, y) ==
        (if x == x1 && y == y1 { cell(s, w, x2, y2) } else if x == x2 && y == y2 { cell(s, w, x1, y1) } else { cell(s, w, x, y) }) by {
        lemma_cell(w, h, x, y, x1, y1);
        lemma_cell(w, h, x, y, x2, y2);
    }
}
/// (x, y) is a position whose four-cycle of rotations has been processed when the loops are at (bx, by)
pub open spec fn rot_in(n: int, a: int, b: int, bx: int, by: int) -> bool { 0 <= b <= a < n - 1 - b && (b < by || (b == by && a < bx)) }
pub open spec fn rot_done(n: int, x: int, y: int, bx: int, by: int) -> bool {
    rot_in(n, x, y, bx, by) || rot_in(n, n - 1 - y, x, bx, by) || rot_in(n, n - 1 - x, n - 1 - y, bx, by) || rot_in(n, y, n - 1 - x, bx, by)
}
pub open spec fn rot_inv<T>(s: Seq<T>, t: Seq<T>, n: int, cw: bool, bx: int, by: int) -> bool {
    t.len() == s.len() && forall|x: int, y: int| inr(n, n, x, y) ==> #[trigger] cell(t, n, x, y) ==
        (if !rot_done(n, x, y, bx, by) { cell(s, n, x, y) } else if cw { cell(s, n, y, n - 1 - x) } else { cell(s, n, n - 1 - y, x) })
}
%% fn Grid::SIZE :: ret=r
    ensures r == SIZE,
%% fn Grid::repeat :: ret=r
    requires gpos::<P>(),
    ensures gok::<P>(SIZE as int), forall|i: int| 0 <= i < SIZE ==> #[trigger] r.0@[i] == item,
% start
    proof { P::plaws(); }
%% fn Grid::into_inner :: ret=r
    ensures r == self.0,
%% fn Grid::as_array :: ret=r
    ensures *r == self.0,
%% fn Grid::as_array_mut :: ret=r
    ensures *r == old(self).0, final(self).0 == *final(r),
%% fn Grid::line :: ret=r
    requires gok::<P>(SIZE as int), lineno.wf(),
    ensures r@ =~= self.0@.subrange(lineno.v() * pw::<P>(), lineno.v() * pw::<P>() + pw::<P>()), r@.len() == pw::<P>(),
% start
    proof {
        P::plaws(); P::Xtype::laws(); P::Ytype::laws();
        lemma_cell(pw::<P>(), ph::<P>(), pw::<P>() - 1, lineno.v(), 0, 0);
        lemma_cell(pw::<P>(), ph::<P>(), 0, lineno.v(), 0, 0);
    }
%% fn Grid::line_mut :: ret=r
    requires gok::<P>(SIZE as int), lineno.wf(),
    ensures r@ =~= old(self).0@.subrange(lineno.v() * pw::<P>(), lineno.v() * pw::<P>() + pw::<P>()), r@.len() == pw::<P>(),
        final(r)@.len() == pw::<P>(),
        forall|i: int| 0 <= i < SIZE ==> #[trigger] final(self).0@[i] == (if lineno.v() * pw::<P>() <= i < lineno.v() * pw::<P>() + pw::<P>()
            { final(r)@[i - lineno.v() * pw::<P>()] } else { old(self).0@[i] }),
% start
    proof {
        P::plaws(); P::Xtype::laws(); P::Ytype::laws();
        lemma_cell(pw::<P>(), ph::<P>(), pw::<P>() - 1, lineno.v(), 0, 0);
        lemma_cell(pw::<P>(), ph::<P>(), 0, lineno.v(), 0, 0);
    }
%% fn Grid::get :: ret=r
    requires gok::<P>(SIZE as int), pos.pwf(),
    ensures *r == self.0@[gix(*pos)],
% start
    proof { P::plaws(); P::Xtype::laws(); P::Ytype::laws(); lemma_gix(*pos, *pos); }
%% fn Grid::get_mut :: ret=r
    requires gok::<P>(SIZE as int), pos.pwf(),
    ensures *r == old(self).0@[gix(*pos)], final(self).0@ =~= old(self).0@.update(gix(*pos), *final(r)),
% start
    proof { P::plaws(); P::Xtype::laws(); P::Ytype::laws(); lemma_gix(*pos, *pos); }
%% fn Grid::iter :: ret=r
    ensures r.remaining() =~= self.0@.map_values(|x: T| &x), r.obeys_prophetic_iter_laws(), r.decrease() is Some,
%% fn Grid::iter_mut :: ret=r
    ensures
        r.remaining().len() == SIZE,
        forall|i: int| 0 <= i < SIZE ==> *(#[trigger] r.remaining()[i]) == old(self).0@[i] && *final(r.remaining()[i]) == final(self).0@[i],
%% fn Grid::flip_h
    requires gok::<P>(SIZE as int),
    ensures forall|x: int, y: int| inr(pw::<P>(), ph::<P>(), x, y) ==> #[trigger] cell(final(self).0@, pw::<P>(), x, y) == cell(old(self).0@, pw::<P>(), pw::<P>() - 1 - x, y),
% start
    let ghost w = pw::<P>(); let ghost h = ph::<P>(); let ghost s0 = self.0@;
    proof { P::plaws(); P::Xtype::laws(); P::Ytype::laws(); }
% loop 1
    invariant
        w == pw::<P>(), h == ph::<P>(), gok::<P>(SIZE as int), s0.len() == SIZE,
        vxit1.wf(), vxit1.rem().len() <= h, vxit1.rem() =~= int_range(h - vxit1.rem().len(), h - 1),
        forall|x: int, y: int| inr(w, h, x, y) ==> #[trigger] cell(self.0@, w, x, y) ==
            cell(s0, w, if y < h - vxit1.rem().len() { w - 1 - x } else { x }, y),
    ensures vxit1.rem().len() == 0,
    decreases vxit1.rem().len(),
% loopstart 1
    proof { P::plaws(); P::Xtype::laws(); P::Ytype::laws(); }
% loop 2
    invariant
        w == pw::<P>(), h == ph::<P>(), gok::<P>(SIZE as int), s0.len() == SIZE, vxi2 <= vxe2, vxe2 == w / 2, y.wf(), inr(w, h, 0, y.v()),
        forall|x: int, yy: int| inr(w, h, x, yy) ==> #[trigger] cell(self.0@, w, x, yy) ==
            cell(s0, w, if yy < y.v() || (yy == y.v() && (x < vxi2 || x > w - 1 - vxi2)) { w - 1 - x } else { x }, yy),
    decreases vxe2 - vxi2,
% loopstart 2
    proof {
        P::plaws(); P::Xtype::laws(); P::Ytype::laws();
        lemma_swap(self.0@, w, h, x as int, y.v(), w - 1 - x, y.v());
    }
%% fn Grid::flip_v
    requires gok::<P>(SIZE as int),
    ensures forall|x: int, y: int| inr(pw::<P>(), ph::<P>(), x, y) ==> #[trigger] cell(final(self).0@, pw::<P>(), x, y) == cell(old(self).0@, pw::<P>(), x, ph::<P>() - 1 - y),
% start
    let ghost w = pw::<P>(); let ghost h = ph::<P>(); let ghost s0 = self.0@;
    proof { P::plaws(); P::Xtype::laws(); P::Ytype::laws(); }
% loop 1
    invariant
        w == pw::<P>(), h == ph::<P>(), gok::<P>(SIZE as int), s0.len() == SIZE, vxi1 <= vxe1, vxe1 == h / 2,
        forall|x: int, y: int| inr(w, h, x, y) ==> #[trigger] cell(self.0@, w, x, y) ==
            cell(s0, w, x, if y < vxi1 || y > h - 1 - vxi1 { h - 1 - y } else { y }),
    decreases vxe1 - vxi1,
% loopstart 1
    proof { P::plaws(); P::Xtype::laws(); P::Ytype::laws(); }
% loop 2
    invariant
        w == pw::<P>(), h == ph::<P>(), gok::<P>(SIZE as int), s0.len() == SIZE, inr(w, h, 0, y as int), y < h / 2,
        vxit2.wf(), vxit2.rem().len() <= w, vxit2.rem() =~= int_range(w - vxit2.rem().len(), w - 1),
        forall|x: int, yy: int| inr(w, h, x, yy) ==> #[trigger] cell(self.0@, w, x, yy) ==
            cell(s0, w, x, if yy < y || yy > h - 1 - y || ((yy == y || yy == h - 1 - y) && x < w - vxit2.rem().len()) { h - 1 - yy } else { yy }),
    ensures vxit2.rem().len() == 0,
    decreases vxit2.rem().len(),
% loopstart 2
    proof {
        P::plaws(); P::Xtype::laws(); P::Ytype::laws();
        lemma_swap(self.0@, w, h, x.v(), y as int, x.v(), h - 1 - y);
    }
%% fn Grid::extend_from_vecvec :: ret=r
    requires gok::<P>(SIZE as int),
    ensures match r {
            Ok(_) => forall|y: int, x: int| 0 <= y < v@.len() && 0 <= x < v@[y]@.len() ==> (#[trigger] inr(pw::<P>(), ph::<P>(), x, y)),
            Err(e) => e == Error::OutOfBounds && exists|y: int, x: int| 0 <= y < v@.len() && 0 <= x < v@[y]@.len() && !(#[trigger] inr(pw::<P>(), ph::<P>(), x, y)),
        },
        r matches Ok(_) ==> forall|x: int, y: int| inr(pw::<P>(), ph::<P>(), x, y) ==> #[trigger] cell(final(self).0@, pw::<P>(), x, y) ==
            (if y < v@.len() && x < v@[y]@.len() { v@[y]@[x] } else { cell(old(self).0@, pw::<P>(), x, y) }),
% start
    let ghost w = pw::<P>(); let ghost h = ph::<P>(); let ghost s0 = self.0@; let ghost v0 = v@;
    proof { P::plaws(); P::Xtype::laws(); P::Ytype::laws(); assert(v@.len() == v.len()); }
% loop 1
    invariant
        w == pw::<P>(), h == ph::<P>(), gok::<P>(SIZE as int), s0.len() == SIZE, v0 == v@, v0.len() <= usize::MAX,
        vxit1.i <= v0.len(), vxit1.it.rest() =~= v0.skip(vxit1.i as int),
        forall|y: int, x: int| 0 <= y < vxit1.i && 0 <= x < v0[y]@.len() ==> (#[trigger] inr(w, h, x, y)),
        forall|x: int, y: int| inr(w, h, x, y) ==> #[trigger] cell(self.0@, w, x, y) ==
            (if y < vxit1.i && x < v0[y]@.len() { v0[y]@[x] } else { cell(s0, w, x, y) }),
    ensures vxit1.i == v0.len(),
    decreases vxit1.it.rest().len(),
% loopstart 1
    proof { P::plaws(); P::Xtype::laws(); P::Ytype::laws(); assert(line == v0[y as int]); assert(line@.len() == line.len()); }
    let ghost l0 = line@;
% loop 2
    invariant
        w == pw::<P>(), h == ph::<P>(), gok::<P>(SIZE as int), s0.len() == SIZE, 0 <= y < v0.len(), v0[y as int]@ == l0, v0 == v@, l0.len() <= usize::MAX,
        vxit2.i <= l0.len(), vxit2.it.rest() =~= l0.skip(vxit2.i as int),
        forall|x: int| 0 <= x < vxit2.i ==> inr(w, h, x, y as int),
        forall|x: int, yy: int| inr(w, h, x, yy) ==> #[trigger] cell(self.0@, w, x, yy) ==
            (if (yy < y && x < v0[yy]@.len()) || (yy == y && x < vxit2.i) { v0[yy]@[x] } else { cell(s0, w, x, yy) }),
    ensures vxit2.i == l0.len(),
    decreases vxit2.it.rest().len(),
% loopstart 2
    proof {
        P::plaws(); P::Xtype::laws(); P::Ytype::laws();
        assert(c == l0[x as int]);
        if inr(w, h, x as int, y as int) { lemma_set(self.0@, w, h, x as int, y as int, c); }
    }
%% fn Grid::rotate_cw
    requires SIZE == (W + 1) * (W + 1),
    ensures forall|x: int, y: int| inr(W + 1, W + 1, x, y) ==> #[trigger] cell(final(self).0@, W + 1, x, y) == cell(old(self).0@, W + 1, y, W - x),
% start
    let ghost n = W + 1; let ghost s0 = self.0@;
    proof { lemma_pos_size(W, W); }
% loop 1
    invariant n == W + 1, s0.len() == SIZE, SIZE == n * n, vxi1 <= vxe1, vxe1 == n / 2, rot_inv(s0, self.0@, n, true, vxi1 as int, vxi1 as int),
    decreases vxe1 - vxi1,
% loop 2
    invariant n == W + 1, s0.len() == SIZE, SIZE == n * n, y < n / 2, y <= vxi2 <= vxe2, vxe2 == n - 1 - y, rot_inv(s0, self.0@, n, true, vxi2 as int, y as int),
    decreases vxe2 - vxi2,
% loopstart 2
    proof {
        lemma_pos_size(W, W);
        let a = x as int; let b = y as int;
        lemma_swap(self.0@, n, n, a, b, n - 1 - b, a);
        let s1 = seq_swap(self.0@, b * n + a, a * n + (n - 1 - b));
        lemma_swap(s1, n, n, a, b, n - 1 - a, n - 1 - b);
        let s2 = seq_swap(s1, b * n + a, (n - 1 - b) * n + (n - 1 - a));
        lemma_swap(s2, n, n, a, b, b, n - 1 - a);
    }
%% fn Grid::rotate_cc
    requires SIZE == (W + 1) * (W + 1),
    ensures forall|x: int, y: int| inr(W + 1, W + 1, x, y) ==> #[trigger] cell(final(self).0@, W + 1, x, y) == cell(old(self).0@, W + 1, W - y, x),
% start
    let ghost n = W + 1; let ghost s0 = self.0@;
    proof { lemma_pos_size(W, W); }
% loop 1
    invariant n == W + 1, s0.len() == SIZE, SIZE == n * n, vxi1 <= vxe1, vxe1 == n / 2, rot_inv(s0, self.0@, n, false, vxi1 as int, vxi1 as int),
    decreases vxe1 - vxi1,
% loop 2
    invariant n == W + 1, s0.len() == SIZE, SIZE == n * n, y < n / 2, y <= vxi2 <= vxe2, vxe2 == n - 1 - y, rot_inv(s0, self.0@, n, false, vxi2 as int, y as int),
    decreases vxe2 - vxi2,
% loopstart 2
    proof {
        lemma_pos_size(W, W);
        let a = x as int; let b = y as int;
        lemma_swap(self.0@, n, n, a, b, b, n - 1 - a);
        let s1 = seq_swap(self.0@, b * n + a, (n - 1 - a) * n + b);
        lemma_swap(s1, n, n, a, b, n - 1 - a, n - 1 - b);
        let s2 = seq_swap(s1, b * n + a, (n - 1 - b) * n + (n - 1 - a));
        lemma_swap(s2, n, n, a, b, n - 1 - b, a);
    }
%% fn Grid::iter_pos :: defun=map|PosTIter<true, P>|P|(P, &T)
%% fn Grid::iter_pos__base :: ret=r
    ensures r.wf(), r.rem() =~= pcoords::<P>(true, 0, pw::<P>() * ph::<P>() - 1),
%% fn Grid::iter_pos__item :: ret=r
    requires gok::<P>(SIZE as int), vxn.pwf(),
    ensures r.0 == vxn, *r.1 == self.0@[gix(vxn)],
%% fn <Grid as Default>::default :: ret=r
    ensures gpos::<P>() ==> gok::<P>(SIZE as int), forall|i: int| 0 <= i < SIZE ==> call_ensures(T::default, (), #[trigger] r.0@[i]),
% start
    proof { P::plaws(); }
% loop 1
    invariant vxj <= SIZE, vxb.view().len() == vxj, forall|i: int| 0 <= i < vxj ==> call_ensures(T::default, (), #[trigger] vxb.view()[i]),
    decreases SIZE - vxj,
%% fn <Grid as Neg>::neg :: ret=r
    ensures forall|i: int| 0 <= i < SIZE ==> call_ensures(T::neg, (self.0@[i],), #[trigger] r.0@[i]),
% loop 1
    invariant gok::<P>(SIZE as int), vxacc@.len() + vxit.rest().len() == SIZE, vxit.rest() =~= self.0@.skip(vxacc@.len() as int),
        forall|i: int| 0 <= i < SIZE ==> (#[trigger] self.0@[i]).neg_req(),
        forall|i: int| 0 <= i < vxacc@.len() ==> call_ensures(T::neg, (self.0@[i],), #[trigger] vxacc@[i]),
    ensures vxit.rest().len() == 0,
    decreases vxit.rest().len(),
% loopstart 1
    proof { if vxit.rest().len() > 0 { assert(vxit.rest()[0] == self.0@[vxacc@.len() as int]); } }
%% inherent <Grid as TryFrom<Vec>>
%% fn <Grid as TryFrom<Vec>>::try_from :: ret=r ;; rename=try_from_vecvec
    requires gpos::<P>(),
    ensures match r {
            Ok(g) => gok::<P>(SIZE as int) && vec@.len() <= ph::<P>() && (forall|y: int| 0 <= y < vec@.len() ==> (#[trigger] vec@[y])@.len() <= pw::<P>())
                && forall|x: int, y: int| inr(pw::<P>(), ph::<P>(), x, y) ==>
                    (if y < vec@.len() && x < vec@[y]@.len() { #[trigger] cell(g.0@, pw::<P>(), x, y) == vec@[y]@[x] } else { call_ensures(T::default, (), cell(g.0@, pw::<P>(), x, y)) }),
            Err(e) => e == Error::OutOfBounds && !(vec@.len() <= ph::<P>() && forall|y: int| 0 <= y < vec@.len() ==> (#[trigger] vec@[y])@.len() <= pw::<P>()),
        },
% start
    let ghost w = pw::<P>(); let ghost h = ph::<P>(); let ghost v0 = vec@;
    proof { P::plaws(); P::Xtype::laws(); P::Ytype::laws(); }
% loop 1
    invariant_except_break !vxres,
    invariant w == pw::<P>(), gpos::<P>(), v0 == vec@, vxj <= v0.len(),
        !vxres ==> forall|y: int| 0 <= y < vxj ==> (#[trigger] v0[y])@.len() <= w,
        vxres ==> exists|y: int| 0 <= y < v0.len() && (#[trigger] v0[y])@.len() > w,
    ensures !vxres ==> vxj == v0.len(),
    decreases v0.len() - vxj,
% loop 2
    invariant w == pw::<P>(), h == ph::<P>(), gok::<P>(SIZE as int), vxj <= SIZE, vxb.view().len() == vxj,
        v0.len() == vec@.len(), v0.len() <= h,
        forall|y: int| 0 <= y < v0.len() ==> (#[trigger] v0[y])@.len() <= w && vec@[y]@.len() == v0[y]@.len(),
        forall|x: int, y: int| 0 <= y < v0.len() && 0 <= x < v0[y]@.len() && y * w + x >= vxj ==> #[trigger] vec@[y]@[x] == v0[y]@[x],
        forall|x: int, y: int| inr(w, h, x, y) && y * w + x < vxj ==>
            (if y < v0.len() && x < v0[y]@.len() { #[trigger] cell(vxb.view(), w, x, y) == v0[y]@[x] } else { call_ensures(T::default, (), cell(vxb.view(), w, x, y)) }),
    decreases SIZE - vxj,
% loopstart 2
    let ghost b0 = vxb.view();
    proof { P::plaws(); P::Xtype::laws(); P::Ytype::laws(); lemma_unix(w, h, vxj as int); }
% loopend 2
    proof {
        let k = vxj - 1; let b1 = vxb.view(); let c = b1[k];
        assert(b1 =~= b0.push(c));
        assert forall|x: int, y: int| inr(w, h, x, y) && y * w + x < vxj implies
            (if y < v0.len() && x < v0[y]@.len() { #[trigger] cell(b1, w, x, y) == v0[y]@[x] } else { call_ensures(T::default, (), cell(b1, w, x, y)) }) by {
            lemma_cell(w, h, x, y, x, y);
            if y * w + x < k { assert(cell(b1, w, x, y) == cell(b0, w, x, y)); }
        }
    }
% looppost 2
    proof {
        let b1 = vxb.view();
        assert forall|x: int, y: int| inr(w, h, x, y) implies
            (if y < v0.len() && x < v0[y]@.len() { #[trigger] cell(b1, w, x, y) == v0[y]@[x] } else { call_ensures(T::default, (), cell(b1, w, x, y)) }) by {
            lemma_cell(w, h, x, y, x, y);
        }
    }
%% fn <Grid as Index<P>>::index :: ret=r
    ensures *r == self.0@[gix(pos)],
%% fn <Grid as Index<&P>>::index :: ret=r
    ensures *r == self.0@[gix(*pos)],
%% fn <Grid as IndexMut<P>>::index_mut :: ret=r
    ensures *r == old(self).0@[gix(pos)], final(self).0@ =~= old(self).0@.update(gix(pos), *final(r)),
%% fn <Grid as IndexMut<&P>>::index_mut :: ret=r
    ensures *r == old(self).0@[gix(*pos)], final(self).0@ =~= old(self).0@.update(gix(*pos), *final(r)),
%% inherent <Grid as AsRef<[T;SIZE]>>
%% fn <Grid as AsRef<[T;SIZE]>>::as_ref :: ret=r
    ensures *r == self.0,
%% inherent <Grid as AsMut<[T;SIZE]>>
%% fn <Grid as AsMut<[T;SIZE]>>::as_mut :: ret=r
    ensures *r == old(self).0, final(self).0 == *final(r),
%% fn <&mut Grid as IntoIterator>::into_iter :: ret=r
    ensures
        r.remaining().len() == SIZE,
        forall|i: int| 0 <= i < SIZE ==> *(#[trigger] r.remaining()[i]) == old(self).0@[i] && *final(r.remaining()[i]) == final(self).0@[i],
%% fn <&Grid as IntoIterator>::into_iter :: ret=r
    ensures r.remaining() =~= self.0@.map_values(|x: T| &x), r.obeys_prophetic_iter_laws(), r.decrease() is Some,
%% inherent <Grid as IntoIterator>
%% fn <Grid as IntoIterator>::into_iter :: ret=r ;; rename=vx_into_iter ;; rty=ArrayIntoIter<T, SIZE>
    ensures r.rest() =~= self.0@,
%% inherent <Grid as FromIterator<&T>>
%% fn <Grid as FromIterator<&T>>::from_iter :: ret=r ;; rename=from_iter_ref ;; panic=iter.rest().len() != SIZE
    requires gpos::<P>(), allow_panic() || iter.rest().len() == SIZE,
    ensures gok::<P>(SIZE as int), iter.rest().len() == SIZE, forall|i: int| 0 <= i < SIZE ==> #[trigger] r.0@[i] == *iter.rest()[i],
% start
    let ghost s0 = iter.rest();
% loop 1
    invariant vxi1 <= SIZE, vxi1 <= s0.len(), s0 == iter.rest(), it.rest() =~= s0.skip(vxi1 as int), allow_panic() || s0.len() == SIZE,
        forall|i: int| 0 <= i < vxi1 ==> #[trigger] g.0@[i] == *s0[i],
    decreases SIZE - vxi1,
%% inherent <Grid as FromIterator<T>>
%% fn <Grid as FromIterator<T>>::from_iter :: ret=r ;; rename=from_iter_owned ;; panic=iter.rest().len() != SIZE
    requires gpos::<P>(), allow_panic() || iter.rest().len() == SIZE,
    ensures gok::<P>(SIZE as int), iter.rest().len() == SIZE, r.0@ =~= iter.rest(),
% start
    let ghost s0 = iter.rest();
% loop 1
    invariant vxi1 <= SIZE, vxi1 <= s0.len(), s0 == iter.rest(), it.rest() =~= s0.skip(vxi1 as int), allow_panic() || s0.len() == SIZE,
        forall|i: int| 0 <= i < vxi1 ==> #[trigger] g.0@[i] == s0[i],
    decreases SIZE - vxi1,
%% inherent <Grid as Extend<(P,T)>>
%% inherent <Grid as Extend<(P,&T)>>
%% inherent <Grid as Extend<&(P,T)>>
%% fn <Grid as Extend<(P,T)>>::extend :: rename=extend_owned
    requires gok::<P>(SIZE as int), forall|i: int| 0 <= i < iter.rest().len() ==> (#[trigger] iter.rest()[i]).0.pwf(),
    ensures final(self).0@ =~= ext_seq(old(self).0@, iter.rest()),
% start
    let ghost s0 = iter.rest(); let ghost g0 = self.0@;
% loop 1
    invariant gok::<P>(SIZE as int), forall|i: int| 0 <= i < s0.len() ==> (#[trigger] s0[i]).0.pwf(),
        vxit1.rest().len() <= s0.len(), vxit1.rest() =~= s0.skip(s0.len() - vxit1.rest().len()),
        self.0@ =~= ext_seq(g0, s0.take(s0.len() - vxit1.rest().len())),
    ensures vxit1.rest().len() == 0,
    decreases vxit1.rest().len(),
% loopstart 1
    proof { let k = s0.len() - vxit1.rest().len() - 1; assert((pos, member) == s0[k]); lemma_ext_seq(g0, s0, k); }
% looppost 1
    proof { assert(s0.take(s0.len() as int) =~= s0); }
%% fn <Grid as Extend<(P,&T)>>::extend :: rename=extend_ref
    requires gok::<P>(SIZE as int), forall|i: int| 0 <= i < iter.rest().len() ==> (#[trigger] iter.rest()[i]).0.pwf(),
    ensures final(self).0@ =~= ext_seq(old(self).0@, iter.rest().map_values(|x: (P, &T)| (x.0, *x.1))),
% start
    let ghost s0 = iter.rest().map_values(|x: (P, &T)| (x.0, *x.1)); let ghost g0 = self.0@; let ghost r0 = iter.rest();
% loop 1
    invariant gok::<P>(SIZE as int), forall|i: int| 0 <= i < s0.len() ==> (#[trigger] s0[i]).0.pwf(),
        s0 == r0.map_values(|x: (P, &T)| (x.0, *x.1)),
        vxit1.rest().len() <= s0.len(), vxit1.rest() =~= r0.skip(s0.len() - vxit1.rest().len()),
        self.0@ =~= ext_seq(g0, s0.take(s0.len() - vxit1.rest().len())),
    ensures vxit1.rest().len() == 0,
    decreases vxit1.rest().len(),
% loopstart 1
    proof { let k = s0.len() - vxit1.rest().len() - 1; assert((pos, member) == r0[k]); lemma_ext_seq(g0, s0, k); }
% looppost 1
    proof { assert(s0.take(s0.len() as int) =~= s0); }
%% fn <Grid as Extend<&(P,T)>>::extend :: rename=extend_ref2
    requires gok::<P>(SIZE as int), forall|i: int| 0 <= i < iter.rest().len() ==> (#[trigger] iter.rest()[i]).0.pwf(),
    ensures final(self).0@ =~= ext_seq(old(self).0@, iter.rest().map_values(|x: &(P, T)| *x)),
% start
    let ghost s0 = iter.rest().map_values(|x: &(P, T)| *x); let ghost g0 = self.0@; let ghost r0 = iter.rest();
% loop 1
    invariant gok::<P>(SIZE as int), forall|i: int| 0 <= i < s0.len() ==> (#[trigger] s0[i]).0.pwf(),
        s0 == r0.map_values(|x: &(P, T)| *x),
        vxit1.rest().len() <= s0.len(), vxit1.rest() =~= r0.skip(s0.len() - vxit1.rest().len()),
        self.0@ =~= ext_seq(g0, s0.take(s0.len() - vxit1.rest().len())),
    ensures vxit1.rest().len() == 0,
    decreases vxit1.rest().len(),
% loopstart 1
    proof { let k = s0.len() - vxit1.rest().len() - 1; assert((*pos, *member) == *r0[k]); lemma_ext_seq(g0, s0, k); }
% looppost 1
    proof { assert(s0.take(s0.len() as int) =~= s0); }
%% fn display_fmt_helper :: ret=r
    requires w >= 1, h >= 1, it.rest().len() == w * h,
    ensures fpad(*final(f)) == fpad(*old(f)),
        r is Ok ==> fout(*final(f)) == fout(*old(f)) + grid_text(fpad(*old(f)), w as int, h as int, views(it.rest())),
% start
    let p: Ghost<Pad> = Ghost(fpad(*f)); let ghost cells = views(it.rest()); let ghost o0 = fout(*f);
    proof {
        reveal_strlit(" "); reveal_strlit(""); reveal_strlit("\n"); assert(""@ =~= Seq::<char>::empty());
        lemma_dec_ascii(w - 1); lemma_dec_ascii(h - 1); lemma_dec(0, w - 1); lemma_dec(0, h - 1);
    }
% loop 1
    invariant vxi1 <= vxe1, vxe1 == w, ndigits_x == dec(w - 1).len(), labelled(&vxv, vxi1 as int, w as int),
    decreases vxe1 - vxi1,
% before vxv.push
    proof { lemma_dec(i as int, w - 1); assert(vxm@ == padded(dec(i as int), ndigits_x as int, true)); assert(vxm@ == vx_label(i as int, w as int)); }
% closure headerfooter
    (r: fmt::Result)
    requires fpad(*f) == p@,
    ensures fpad(*final(f)) == p@, r is Ok ==> fout(*final(f)) == fout(*old(f)) + labels_text(p@, w as int, h as int),
% closurestart headerfooter
    let ghost g0 = fout(*f);
    proof {
        reveal_strlit(" "); reveal_strlit(""); reveal_strlit("\n"); assert(""@ =~= Seq::<char>::empty());
        assert(g0 =~= g0 + cat(0, digit_line(p@, w as int, h as int)));
    }
% loop 2
    invariant vxi2 <= vxe2, vxe2 == ndigits_x, labelled(&str_x, w as int, w as int), ndigits_x == dec(w - 1).len(), ndigits_y == dec(h - 1).len(), ""@.len() == 0,
        fpad(*f) == p@, fout(*f) == g0 + cat(vxi2 as int, digit_line(p@, w as int, h as int)),
    decreases vxe2 - vxi2,
% loopstart 2
    let ghost g1 = fout(*f);
% looppre 3
    let ghost g2 = fout(*f); let ghost mut k: int = 0;
    proof {
        assert(g2 =~= g1 + (spaces(ndigits_y as int) + " "@));
        assert(g2 =~= g2 + cat(0, digit_cell(p@, w as int, digit as int)));
    }
% loop 3
    invariant 0 <= k <= w, labelled(&str_x, w as int, w as int), digit < dec(w - 1).len(), fpad(*f) == p@,
        vxit3.obeys_prophetic_iter_laws(), vxit3.decrease() is Some, vxit3.remaining() =~= str_x@.map_values(|v: Vec<char>| &v).skip(k),
        fout(*f) == g2 + cat(k, digit_cell(p@, w as int, digit as int)),
    ensures k == w,
    decreases vxit3.decrease()->0,
% loopstart 3
    let ghost g3 = fout(*f);
    proof { lemma_label(k, w as int); assert(cell@ == vx_label(k, w as int)); k = k + 1; }
% loopend 3
    proof {
        assert(fout(*f) == g3 + p@(seq![cell@[digit as int]]));
        assert(fout(*f) =~= g2 + cat(k, digit_cell(p@, w as int, digit as int)));
    }
% loopend 2
    proof {
        assert(fout(*f) =~= g1 + digit_line(p@, w as int, h as int)(digit as int));
        assert(fout(*f) =~= g0 + cat(vxi2 as int, digit_line(p@, w as int, h as int)));
    }
% looppre 4
    let ghost o1 = fout(*f);
    let ghost rt = row_text(p@, w as int, h as int, cells);
    proof { assert(o1 =~= o1 + cat(0, rt)); }
% loop 4
    invariant p@ == fpad(*old(f)), vxi4 <= vxe4, vxe4 == h, 1 <= w, rt == row_text(p@, w as int, h as int, cells), cells.len() == w * h, fpad(*f) == p@, ndigits_y == dec(h - 1).len(),
        it.rest().len() == w * h - vxi4 * w, views(it.rest()) =~= cells.skip(vxi4 * w), last_y == (if vxi4 == 0 { h as int } else { vxi4 - 1 }),
        fout(*f) == o1 + cat(vxi4 as int, rt),
    decreases vxe4 - vxi4,
% loopstart 4
    let ghost g1 = fout(*f);
    proof {
        assert((y + 1) * w <= w * h) by (nonlinear_arith) requires y + 1 <= h;
        assert((y + 1) * w == y * w + w) by (nonlinear_arith);
        assert(0 <= y * w) by (nonlinear_arith);
    }
% loop 5
    invariant p@ == fpad(*old(f)), vxi5 <= vxe5, vxe5 == w, 1 <= w, y < h, cells.len() == w * h, fpad(*f) == p@, ndigits_y == dec(h - 1).len(),
        0 <= y * w, y * w + w <= w * h, it.rest().len() == w * h - y * w - vxi5, views(it.rest()) =~= cells.skip(y * w + vxi5),
        last_y == (if vxi5 > 0 { y as int } else if y == 0 { h as int } else { y - 1 }),
        fout(*f) == (if vxi5 == 0 { g1 } else { g1 + (row_head(h as int, y as int) + cat(vxi5 as int, row_cell(p@, w as int, y as int, cells))) }),
    decreases vxe5 - vxi5,
% before let s =
    proof {
        assert(fout(*f) =~= g1 + (row_head(h as int, y as int) + cat(vxi5 - 1, row_cell(p@, w as int, y as int, cells))));
        assert(it.rest()[0]@ == views(it.rest())[0]); assert(views(it.rest().drop_first()) =~= views(it.rest()).drop_first());
    }
% loopend 5
    proof { assert(fout(*f) =~= g1 + (row_head(h as int, y as int) + cat(vxi5 as int, row_cell(p@, w as int, y as int, cells)))); }
% loopend 4
    proof { assert(fout(*f) =~= g1 + rt(y as int)); assert(fout(*f) =~= o1 + cat(vxi4 as int, rt)); }
% end
    proof { if r is Ok { assert(fout(*f) =~= o0 + grid_text(p@, w as int, h as int, cells)); } }
%% inherent <Grid as Display>
%% fn <Grid as Display>::fmt :: ret=r ;; eager=map
    requires gok::<P>(SIZE as int),
    ensures fpad(*final(f)) == fpad(*old(f)),
        r is Ok ==> fout(*final(f)) == fout(*old(f)) + grid_text(fpad(*old(f)), pw::<P>(), ph::<P>(), self.0@.map_values(|v: T| shown(&v))),
% start
    let ghost f0 = fpad(*f); let ghost o0 = fout(*f); let ghost cells = self.0@.map_values(|v: T| shown(&v));
    proof { P::plaws(); P::Xtype::laws(); P::Ytype::laws(); }
% loop 1
    invariant texts(&vxv, cells.take(vxv.len() as int)), vxv.len() <= SIZE, cells == self.0@.map_values(|v: T| shown(&v)),
        vxit1.obeys_prophetic_iter_laws(), vxit1.decrease() is Some, vxit1.remaining() =~= self.0@.map_values(|x: T| &x).skip(vxv.len() as int),
    ensures vxv.len() == SIZE,
    decreases vxit1.decrease()->0,
% loopend 1
    proof { assert(cells.take(vxv.len() as int) =~= cells.take(vxv.len() - 1).push(vxm@)); }
% looppost 1
    proof { assert(views(vxv@) =~= cells); }
%% postlude
// ---- the text of a grid ----
pub open spec fn vx_label(i: int, n: int) -> Seq<char> { padded(dec(i), dec(n - 1).len() as int, true) }
/// the column labels, one line per digit
pub open spec fn digit_cell(p: Pad, w: int, d: int) -> spec_fn(int) -> Seq<char> { |i: int| p(seq![vx_label(i, w)[d]]) }
pub open spec fn digit_line(p: Pad, w: int, h: int) -> spec_fn(int) -> Seq<char> {
    |d: int| spaces(dec(h - 1).len() as int) + " "@ + cat(w, digit_cell(p, w, d)) + "\n"@
}
pub open spec fn labels_text(p: Pad, w: int, h: int) -> Seq<char> { cat(dec(w - 1).len() as int, digit_line(p, w, h)) }
/// one row: its label and its cells
pub open spec fn row_cell(p: Pad, w: int, y: int, cells: Seq<Seq<char>>) -> spec_fn(int) -> Seq<char> { |x: int| p(cells[y * w + x]) }
pub open spec fn row_head(h: int, y: int) -> Seq<char> { (if y > 0 { "\n"@ } else { Seq::empty() }) + vx_label(y, h) + " "@ }
pub open spec fn row_text(p: Pad, w: int, h: int, cells: Seq<Seq<char>>) -> spec_fn(int) -> Seq<char> {
    |y: int| row_head(h, y) + cat(w, row_cell(p, w, y, cells))
}
pub open spec fn grid_text(p: Pad, w: int, h: int, cells: Seq<Seq<char>>) -> Seq<char> {
    labels_text(p, w, h) + cat(h, row_text(p, w, h, cells)) + "\n"@ + labels_text(p, w, h)
}
pub open spec fn views(v: Seq<String>) -> Seq<Seq<char>> { v.map_values(|s: String| s@) }
pub open spec fn texts(v: &Vec<String>, t: Seq<Seq<char>>) -> bool { views(v@) =~= t }
pub open spec fn labelled(v: &Vec<Vec<char>>, n: int, w: int) -> bool { v@.len() == n && forall|i: int| 0 <= i < n ==> #[trigger] v@[i]@ == vx_label(i, w) }
pub proof fn lemma_label(i: int, n: int) requires 0 <= i < n ensures vx_label(i, n).len() == dec(n - 1).len(), ascii(vx_label(i, n)) {
   lemma_dec(i, n - 1); lemma_dec_ascii(i);
}
pub proof fn lemma_set<T>(s: Seq<T>, w: int, h: int, x1: int, y1: int, v: T)
    requires inr(w, h, x1, y1), s.len() == w * h,
    ensures forall|x: int, y: int| inr(w, h, x, y) ==> #[trigger] cell(s.update(y1 * w + x1, v), w, x, y) == (if x == x1 && y == y1 { v } else { cell(s, w, x, y) }),
{
    lemma_cell(w, h, x1, y1, x1, y1);
    assert forall|x: int, y: int| inr(w, h, x, y) implies #[trigger] cell(s.update(y1 * w + x1, v), w, x, y) == (if x == x1 && y == y1 { v } else { cell(s, w, x, y) }) by {
        lemma_cell(w, h, x, y, x1, y1);
    }
}
/// the cells after setting the pairs in order
pub open spec fn ext_seq<T, P: PosT>(s: Seq<T>, items: Seq<(P, T)>) -> Seq<T>
    decreases items.len()
{
    if items.len() == 0 { s } else { ext_seq(s, items.drop_last()).update(gix(items.last().0), items.last().1) }
}
pub proof fn lemma_ext_seq<T, P: PosT>(s: Seq<T>, items: Seq<(P, T)>, k: int)
    requires 0 <= k < items.len(),
    ensures ext_seq(s, items.take(k + 1)) == ext_seq(s, items.take(k)).update(gix(items[k].0), items[k].1),
{
    assert(items.take(k + 1).drop_last() =~= items.take(k));
}
// C16: after extending, a position holds the value of its last pair, or what it held before
pub proof fn lemma_ext_last<T, P: PosT>(s: Seq<T>, items: Seq<(P, T)>, p: P)
    requires gpos::<P>(), p.pwf(), s.len() == pw::<P>() * ph::<P>(), forall|i: int| 0 <= i < items.len() ==> (#[trigger] items[i]).0.pwf(),
    ensures
        ext_seq(s, items).len() == s.len(),
        forall|k: int| 0 <= k < items.len() && (#[trigger] items[k]).0 == p && (forall|j: int| k < j < items.len() ==> (#[trigger] items[j]).0 != p)
            ==> ext_seq(s, items)[gix(p)] == items[k].1,
        (forall|j: int| 0 <= j < items.len() ==> (#[trigger] items[j]).0 != p) ==> ext_seq(s, items)[gix(p)] == s[gix(p)],
    decreases items.len(),
{
    lemma_gix(p, p);
    if items.len() > 0 {
        lemma_gix(p, items.last().0);
        assert forall|i: int| 0 <= i < items.len() - 1 implies (#[trigger] items.drop_last()[i]).0.pwf() by { assert(items.drop_last()[i] == items[i]); }
        lemma_ext_last(s, items.drop_last(), p);
        let l = items.drop_last();
        if items.last().0 != p {
            assert forall|k: int| 0 <= k < items.len() && (#[trigger] items[k]).0 == p && (forall|j: int| k < j < items.len() ==> (#[trigger] items[j]).0 != p)
                implies ext_seq(s, items)[gix(p)] == items[k].1 by {
                assert(k < l.len()); assert(l[k] == items[k]);
                assert forall|j: int| k < j < l.len() implies (#[trigger] l[j]).0 != p by { assert(l[j] == items[j]); }
            }
            if forall|j: int| 0 <= j < items.len() ==> (#[trigger] items[j]).0 != p {
                assert forall|j: int| 0 <= j < l.len() implies (#[trigger] l[j]).0 != p by { assert(l[j] == items[j]); }
            }
        } else {
            assert(items[items.len() - 1] == items.last());
        }
    }
}
impl<T, P: PosT, const SIZE: usize> IndexSpecImpl<P> for Grid<T, P, SIZE> {
    open spec fn index_req(&self, index: &P) -> bool { gok::<P>(SIZE as int) && index.pwf() }
}
impl<T, P: PosT, const SIZE: usize> IndexSpecImpl<&P> for Grid<T, P, SIZE> {
    open spec fn index_req(&self, index: &&P) -> bool { gok::<P>(SIZE as int) && index.pwf() }
}
impl<T: Default + Copy + core::ops::Neg<Output = T>, P: PosT, const SIZE: usize> NegSpecImpl for Grid<T, P, SIZE> {
    open spec fn obeys_neg_spec() -> bool { false }
    open spec fn neg_req(self) -> bool { gok::<P>(SIZE as int) && forall|i: int| 0 <= i < SIZE ==> (#[trigger] self.0@[i]).neg_req() }
    open spec fn neg_spec(self) -> Self { arbitrary() }
}
