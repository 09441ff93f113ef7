%% module postrait postrait.rs
%% header
use vstd::std_specs::cmp::*;
use vstd::std_specs::convert::*;
use super::boundedint::*;
%% prelude
broadcast use {super::vxlib::convax::axiom_try_from_refl, super::vxlib::convax::axiom_try_into_refl,
    super::vxlib::convax::axiom_try_from_blanket, super::vxlib::convax::axiom_try_into_blanket};

/// row-major index of (x, y) in a rectangle of width w whose first corner is (x0, y0)
pub open spec fn rank(x0: int, y0: int, w: int, x: int, y: int) -> int { (y - y0) * w + (x - x0) }
pub open spec fn unrank(x0: int, y0: int, w: int, k: int) -> (int, int) { (x0 + k % w, y0 + k / w) }
pub open spec fn swap2(horizontal: bool, p: (int, int)) -> (int, int) { if horizontal { p } else { (p.1, p.0) } }
/// the coordinates of the positions with index k0, ..., k1
pub open spec fn coords(horizontal: bool, x0: int, y0: int, w: int, k0: int, k1: int) -> Seq<(int, int)> {
    Seq::new((if k0 <= k1 { k1 - k0 + 1 } else { 0 }) as nat, |i: int| swap2(horizontal, unrank(x0, y0, w, k0 + i)))
}
pub proof fn lemma_rank(x0: int, y0: int, w: int, x: int, y: int)
    requires x0 <= x < x0 + w, y0 <= y,
    ensures unrank(x0, y0, w, rank(x0, y0, w, x, y)) == (x, y), rank(x0, y0, w, x, y) >= 0,
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(rank(x0, y0, w, x, y), w, y - y0, x - x0);
    assert((y - y0) * w >= 0) by (nonlinear_arith) requires y >= y0, w > 0;
}
pub proof fn lemma_unrank(x0: int, y0: int, w: int, k: int)
    requires w > 0, k >= 0,
    ensures ({
        let p = unrank(x0, y0, w, k);
        x0 <= p.0 < x0 + w && y0 <= p.1 && rank(x0, y0, w, p.0, p.1) == k
    }),
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(k, w);
    vstd::arithmetic::div_mod::lemma_mod_bound(k, w);
    vstd::arithmetic::div_mod::lemma_div_pos_is_pos(k, w);
    assert(w * (k / w) == (k / w) * w) by (nonlinear_arith);
}
pub proof fn lemma_rank_mono(x0: int, y0: int, w: int, x: int, y: int, x2: int, y2: int)
    requires x0 <= x < x0 + w, x0 <= x2 < x0 + w,
    ensures y < y2 ==> rank(x0, y0, w, x, y) < rank(x0, y0, w, x2, y2),
        y == y2 ==> (rank(x0, y0, w, x, y) < rank(x0, y0, w, x2, y2)) == (x < x2),
        rank(x0, y0, w, x, y) == rank(x0, y0, w, x2, y2) ==> x == x2 && y == y2,
{
    if y < y2 { assert((y - y0) * w + w <= (y2 - y0) * w) by (nonlinear_arith) requires y < y2, w > 0; }
    if y2 < y { assert((y2 - y0) * w + w <= (y - y0) * w) by (nonlinear_arith) requires y2 < y, w > 0; }
}
/// widths of a position type
pub open spec fn pw<P: PosT>() -> int { <P::Xtype as BoundedInt>::hi() - <P::Xtype as BoundedInt>::lo() + 1 }
pub open spec fn ph<P: PosT>() -> int { <P::Ytype as BoundedInt>::hi() - <P::Ytype as BoundedInt>::lo() + 1 }
pub open spec fn xlo<P: PosT>() -> int { <P::Xtype as BoundedInt>::lo() }
pub open spec fn ylo<P: PosT>() -> int { <P::Ytype as BoundedInt>::lo() }
pub open spec fn xhi<P: PosT>() -> int { <P::Xtype as BoundedInt>::hi() }
pub open spec fn yhi<P: PosT>() -> int { <P::Ytype as BoundedInt>::hi() }
/// index of a position in row-major (horizontal) or column-major order
pub open spec fn prank<P: PosT>(horizontal: bool, p: P) -> int {
    if horizontal { rank(xlo::<P>(), ylo::<P>(), pw::<P>(), p.px(), p.py()) } else { rank(ylo::<P>(), xlo::<P>(), ph::<P>(), p.py(), p.px()) }
}
/// coordinates of the positions with index k0, ..., k1 in that order
pub open spec fn pcoords<P: PosT>(horizontal: bool, k0: int, k1: int) -> Seq<(int, int)> {
    if horizontal { coords(true, xlo::<P>(), ylo::<P>(), pw::<P>(), k0, k1) } else { coords(false, ylo::<P>(), xlo::<P>(), ph::<P>(), k0, k1) }
}
pub proof fn lemma_prank<P: PosT>(h: bool, p: P, q: P)
    requires p.pwf(), q.pwf(),
    ensures 0 <= prank(h, p) < pw::<P>() * ph::<P>(), (prank(h, p) == prank(h, q)) == (p == q),
        (p == q) == (p.px() == q.px() && p.py() == q.py()),
        swap2(h, if h { unrank(xlo::<P>(), ylo::<P>(), pw::<P>(), prank(h, p)) } else { unrank(ylo::<P>(), xlo::<P>(), ph::<P>(), prank(h, p)) }) == (p.px(), p.py()),
{
    P::plaws();
    if h {
        lemma_rank(xlo::<P>(), ylo::<P>(), pw::<P>(), p.px(), p.py());
        lemma_rank_mono(xlo::<P>(), ylo::<P>(), pw::<P>(), p.px(), p.py(), q.px(), q.py());
        assert((p.py() - ylo::<P>()) * pw::<P>() <= (ph::<P>() - 1) * pw::<P>()) by (nonlinear_arith) requires p.py() - ylo::<P>() <= ph::<P>() - 1, pw::<P>() > 0;
        assert((ph::<P>() - 1) * pw::<P>() == pw::<P>() * ph::<P>() - pw::<P>()) by (nonlinear_arith);
    } else {
        lemma_rank(ylo::<P>(), xlo::<P>(), ph::<P>(), p.py(), p.px());
        lemma_rank_mono(ylo::<P>(), xlo::<P>(), ph::<P>(), p.py(), p.px(), q.py(), q.px());
        assert((p.px() - xlo::<P>()) * ph::<P>() <= (pw::<P>() - 1) * ph::<P>()) by (nonlinear_arith) requires p.px() - xlo::<P>() <= pw::<P>() - 1, ph::<P>() > 0;
        assert((pw::<P>() - 1) * ph::<P>() == pw::<P>() * ph::<P>() - ph::<P>()) by (nonlinear_arith);
    }
}
/// the positions of a type that starts at zero and whose size fits usize: Pos and unsigned pairs
pub open spec fn grid_like<P: PosT>() -> bool {
    xlo::<P>() == 0 && ylo::<P>() == 0 && pw::<P>() * ph::<P>() <= usize::MAX && pw::<P>() <= usize::MAX && ph::<P>() <= usize::MAX
}
// C05: index and position are in bijection
pub proof fn lemma_index_bijection<P: PosT>(p: P, q: P, i: int)
    requires grid_like::<P>(), p.pwf(), q.pwf(),
    ensures
        0 <= p.py() * pw::<P>() + p.px() < pw::<P>() * ph::<P>(),
        (p.py() * pw::<P>() + p.px() == q.py() * pw::<P>() + q.px()) == (p == q),
        (p.py() * pw::<P>() + p.px()) % pw::<P>() == p.px(), (p.py() * pw::<P>() + p.px()) / pw::<P>() == p.py(),
        0 <= i < pw::<P>() * ph::<P>() ==> (0 <= i % pw::<P>() <= xhi::<P>() && 0 <= i / pw::<P>() <= yhi::<P>() && (i / pw::<P>()) * pw::<P>() + i % pw::<P>() == i),
        i >= pw::<P>() * ph::<P>() ==> i / pw::<P>() > yhi::<P>(),
{
    P::plaws();
    lemma_prank(true, p, q);
    let w = pw::<P>(); let h = ph::<P>();
    if i >= 0 {
        lemma_unrank(0, 0, w, i);
        if i < w * h { assert(i / w < h) by (nonlinear_arith) requires i < w * h, (i / w) * w + i % w == i, i % w >= 0, w > 0; }
        else { assert(i / w >= h) by (nonlinear_arith) requires i >= w * h, (i / w) * w + i % w == i, i % w < w, w > 0; }
    }
}
%% ghost trait PosT
    /// the mathematical coordinates
    spec fn px(self) -> int;
    spec fn py(self) -> int;
    /// inside the grid
    spec fn pwf(self) -> bool;
    /// the associated constants
    spec fn sw() -> int;
    spec fn sh() -> int;
    proof fn plaws()
        ensures
            forall|a: Self| #[trigger] a.pwf() == (<Self::Xtype as BoundedInt>::lo() <= a.px() <= <Self::Xtype as BoundedInt>::hi()
                && <Self::Ytype as BoundedInt>::lo() <= a.py() <= <Self::Ytype as BoundedInt>::hi()),
            forall|a: Self, b: Self| (#[trigger] a.px()) == (#[trigger] b.px()) && a.py() == b.py() ==> a == b,
            <Self::Xtype as BoundedInt>::hi() - <Self::Xtype as BoundedInt>::lo() < isize::MAX ==> Self::sw() == <Self::Xtype as BoundedInt>::hi() - <Self::Xtype as BoundedInt>::lo() + 1,
            <Self::Ytype as BoundedInt>::hi() - <Self::Ytype as BoundedInt>::lo() < isize::MAX ==> Self::sh() == <Self::Ytype as BoundedInt>::hi() - <Self::Ytype as BoundedInt>::lo() + 1,
            Self::obeys_eq_spec(),
            forall|a: Self, b: Self| (#[trigger] a.eq_spec(&b)) == (a == b),
    ;
%% fn trait PosT::WIDTH :: ret=r
    ensures <Self::Xtype as BoundedInt>::hi() - <Self::Xtype as BoundedInt>::lo() < isize::MAX ==> r as int == Self::sw(),
%% fn trait PosT::HEIGHT :: ret=r
    ensures <Self::Ytype as BoundedInt>::hi() - <Self::Ytype as BoundedInt>::lo() < isize::MAX ==> r as int == Self::sh(),
%% fn trait PosT::new_ :: ret=r
    requires xy.0.wf(), xy.1.wf(),
    ensures r.pwf(), r.px() == xy.0.v(), r.py() == xy.1.v(),
%% fn trait PosT::new :: ret=r
    requires x.wf(), y.wf(), conv_ok::<X, Self::Xtype>(), conv_ok::<Y, Self::Ytype>(),
    ensures match r {
        Ok(p) => p.pwf() && p.px() == x.v() && p.py() == y.v(),
        Err(e) => e == Error::OutOfBounds
            && !(<Self::Xtype as BoundedInt>::lo() <= x.v() <= <Self::Xtype as BoundedInt>::hi() && <Self::Ytype as BoundedInt>::lo() <= y.v() <= <Self::Ytype as BoundedInt>::hi()),
    },
% start
    proof { Self::plaws(); Self::Xtype::laws(); Self::Ytype::laws(); }
%% fn trait PosT::into_tuple :: ret=r
    ensures r.0.v() == self.px(), r.1.v() == self.py(),
%% fn trait PosT::tuple :: ret=r
    ensures r.0.v() == self.px(), r.1.v() == self.py(),
%% fn trait PosT::x :: ret=r
    ensures r.v() == self.px(),
%% fn trait PosT::y :: ret=r
    ensures r.v() == self.py(),
%% copydown PosT::into_tuple
%% copydown PosT::tuple
%% copydown PosT::x
%% copydown PosT::y
%% fn copydown PosT::into_tuple
%% fn copydown PosT::tuple
%% fn copydown PosT::x
%% fn copydown PosT::y
%% copydown PosT::rotate_cw
%% copydown PosT::rotate_cc
%% ext PosT::tryfrom_pos
%% ext PosT::iter_x
%% ext PosT::iter_y
%% ext PosT::iter_orientation
%% ext PosT::iter
%% ext PosT::iter_horizontal
%% ext PosT::iter_vertical
%% ext PosT::iter_range
%% ext PosT::iter_in_x
%% ext PosT::iter_in_y
%% ext PosT::tlbr_of
%% fn trait PosT::inner_tuple :: ret=r
    ensures <Self::Xtype as BoundedInt>::inn(r.0) == self.px(), <Self::Ytype as BoundedInt>::inn(r.1) == self.py(),
%% fn trait PosT::width :: ret=r
    requires 0 <= <Self::Xtype as BoundedInt>::hi() < usize::MAX,
    ensures r as int == <Self::Xtype as BoundedInt>::hi() + 1,
% start
    proof { Self::Xtype::laws(); }
%% fn trait PosT::height :: ret=r
    requires 0 <= <Self::Ytype as BoundedInt>::hi() < usize::MAX,
    ensures r as int == <Self::Ytype as BoundedInt>::hi() + 1,
% start
    proof { Self::Ytype::laws(); }
%% fn trait PosT::dimensions :: ret=r
    requires 0 <= <Self::Xtype as BoundedInt>::hi() < usize::MAX, 0 <= <Self::Ytype as BoundedInt>::hi() < usize::MAX,
        (<Self::Xtype as BoundedInt>::hi() + 1) * (<Self::Ytype as BoundedInt>::hi() + 1) <= usize::MAX,
    ensures r as int == (<Self::Xtype as BoundedInt>::hi() + 1) * (<Self::Ytype as BoundedInt>::hi() + 1),
%% fn trait PosT::first :: ret=r
    ensures r.pwf(), r.px() == <Self::Xtype as BoundedInt>::lo(), r.py() == <Self::Ytype as BoundedInt>::lo(),
% start
    proof { Self::Xtype::laws(); Self::Ytype::laws(); }
%% fn trait PosT::last :: ret=r
    ensures r.pwf(), r.px() == <Self::Xtype as BoundedInt>::hi(), r.py() == <Self::Ytype as BoundedInt>::hi(),
% start
    proof { Self::Xtype::laws(); Self::Ytype::laws(); }
%% fn trait PosT::is_corner :: ret=r
    ensures r == ((self.px() == <Self::Xtype as BoundedInt>::lo() || self.px() == <Self::Xtype as BoundedInt>::hi())
        && (self.py() == <Self::Ytype as BoundedInt>::lo() || self.py() == <Self::Ytype as BoundedInt>::hi())),
% start
    proof { Self::Xtype::laws(); Self::Ytype::laws(); }
%% fn trait PosT::is_side :: ret=r
    ensures r == (self.px() == <Self::Xtype as BoundedInt>::lo() || self.px() == <Self::Xtype as BoundedInt>::hi()
        || self.py() == <Self::Ytype as BoundedInt>::lo() || self.py() == <Self::Ytype as BoundedInt>::hi()),
% start
    proof { Self::Xtype::laws(); Self::Ytype::laws(); }
%% fn trait PosT::flip_h :: ret=r
    requires self.pwf(), self.px() >= 0 && <Self::Xtype as BoundedInt>::lo() == 0,
    ensures r.pwf(), r.px() == <Self::Xtype as BoundedInt>::hi() - self.px(), r.py() == self.py(),
% start
    proof { Self::plaws(); Self::Xtype::laws(); Self::Ytype::laws(); }
%% fn trait PosT::flip_v :: ret=r
    requires self.pwf(), self.py() >= 0 && <Self::Ytype as BoundedInt>::lo() == 0,
    ensures r.pwf(), r.px() == self.px(), r.py() == <Self::Ytype as BoundedInt>::hi() - self.py(),
% start
    proof { Self::plaws(); Self::Xtype::laws(); Self::Ytype::laws(); }
%% fn trait PosT::manhattan :: ret=r
    requires self.pwf(), pos.pwf(), <Self::Xtype as BoundedInt>::lo() == 0, <Self::Ytype as BoundedInt>::lo() == 0,
        <Self::Xtype as BoundedInt>::hi() + <Self::Ytype as BoundedInt>::hi() <= usize::MAX,
    ensures r as int == abs_int(self.px() - pos.px()) + abs_int(self.py() - pos.py()),
% start
    proof { Self::plaws(); Self::Xtype::laws(); Self::Ytype::laws(); }
%% fn trait PosT::chebyshev :: ret=r
    requires self.pwf(), pos.pwf(), <Self::Xtype as BoundedInt>::lo() == 0, <Self::Ytype as BoundedInt>::lo() == 0,
        <Self::Xtype as BoundedInt>::hi() <= usize::MAX, <Self::Ytype as BoundedInt>::hi() <= usize::MAX,
    ensures r as int == max_int(abs_int(self.px() - pos.px()), abs_int(self.py() - pos.py())),
% start
    proof { Self::plaws(); Self::Xtype::laws(); Self::Ytype::laws(); }
%% fn trait PosT::inside :: ret=r
    ensures r == (min_int(pos1.px(), pos2.px()) <= self.px() <= max_int(pos1.px(), pos2.px())
        && min_int(pos1.py(), pos2.py()) <= self.py() <= max_int(pos1.py(), pos2.py())),
% start
    proof { Self::plaws(); Self::Xtype::laws(); Self::Ytype::laws(); }
%% fn trait PosT::to_usize :: ret=r
    requires <Self::Xtype as BoundedInt>::lo() == 0, <Self::Ytype as BoundedInt>::lo() == 0,
        0 <= <Self::Xtype as BoundedInt>::hi() < usize::MAX,
        (self.pwf() && (<Self::Xtype as BoundedInt>::hi() + 1) * (<Self::Ytype as BoundedInt>::hi() + 1) <= usize::MAX)
            || (0 <= self.px() && 0 <= self.py() && self.py() * (<Self::Xtype as BoundedInt>::hi() + 1) + self.px() <= usize::MAX),
    ensures r as int == self.py() * (<Self::Xtype as BoundedInt>::hi() + 1) + self.px(),
        self.pwf() ==> r < (<Self::Xtype as BoundedInt>::hi() + 1) * (<Self::Ytype as BoundedInt>::hi() + 1),
% start
    proof {
        Self::plaws(); Self::Xtype::laws(); Self::Ytype::laws();
        let w = <Self::Xtype as BoundedInt>::hi() + 1; let h = <Self::Ytype as BoundedInt>::hi() + 1;
        if self.pwf() {
            assert(self.py() * w + w <= w * h && 0 <= self.py() * w) by (nonlinear_arith) requires self.py() + 1 <= h, self.py() >= 0, w >= 1;
            assert(h <= w * h) by (nonlinear_arith) requires h >= 1, w >= 1;
        }
        assert(self.py() <= self.py() * w && 0 <= self.py() * w) by (nonlinear_arith) requires self.py() >= 0, w >= 1;
    }
%% fn trait PosT::tryfrom_usize :: ret=r
    requires 0 <= <Self::Xtype as BoundedInt>::hi() < usize::MAX,
    ensures ({
        let w = <Self::Xtype as BoundedInt>::hi() + 1;
        match r {
            Ok(p) => p.pwf() && p.px() == i as int % w && p.py() == i as int / w,
            Err(e) => e == Error::OutOfBounds && !(<Self::Xtype as BoundedInt>::lo() <= i as int % w <= <Self::Xtype as BoundedInt>::hi()
                && <Self::Ytype as BoundedInt>::lo() <= i as int / w <= <Self::Ytype as BoundedInt>::hi()),
        }
    }),
% start
    proof {
        Self::plaws(); Self::Xtype::laws(); Self::Ytype::laws();
        let w = <Self::Xtype as BoundedInt>::hi() + 1;
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(i as int, w);
        assert((i as int / w) * w == w * (i as int / w)) by (nonlinear_arith);
        assert(0 <= (i as int / w) <= i) by (nonlinear_arith) requires w > 0, i >= 0, i as int == w * (i as int / w) + i as int % w, 0 <= i as int % w < w;
    }
%% fn trait PosT::next :: ret=r
    requires self.pwf(),
    ensures match r {
        Some(p) => p.pwf() && (if self.px() < <Self::Xtype as BoundedInt>::hi() { p.px() == self.px() + 1 && p.py() == self.py() }
            else { p.px() == <Self::Xtype as BoundedInt>::lo() && p.py() == self.py() + 1 }),
        None => self.px() == <Self::Xtype as BoundedInt>::hi() && self.py() == <Self::Ytype as BoundedInt>::hi(),
    },
% start
    proof { Self::plaws(); Self::Xtype::laws(); Self::Ytype::laws(); }
%% fn trait PosT::next_y :: ret=r
    requires self.pwf(),
    ensures match r {
        Some(p) => p.pwf() && (if self.py() < <Self::Ytype as BoundedInt>::hi() { p.py() == self.py() + 1 && p.px() == self.px() }
            else { p.py() == <Self::Ytype as BoundedInt>::lo() && p.px() == self.px() + 1 }),
        None => self.px() == <Self::Xtype as BoundedInt>::hi() && self.py() == <Self::Ytype as BoundedInt>::hi(),
    },
% start
    proof { Self::plaws(); Self::Xtype::laws(); Self::Ytype::laws(); }
%% fn trait PosT::prev :: ret=r
    requires self.pwf(),
    ensures match r {
        Some(p) => p.pwf() && (if self.px() > <Self::Xtype as BoundedInt>::lo() { p.px() == self.px() - 1 && p.py() == self.py() }
            else { p.px() == <Self::Xtype as BoundedInt>::hi() && p.py() == self.py() - 1 }),
        None => self.px() == <Self::Xtype as BoundedInt>::lo() && self.py() == <Self::Ytype as BoundedInt>::lo(),
    },
% start
    proof { Self::plaws(); Self::Xtype::laws(); Self::Ytype::laws(); }
%% fn trait PosT::prev_y :: ret=r
    requires self.pwf(),
    ensures match r {
        Some(p) => p.pwf() && (if self.py() > <Self::Ytype as BoundedInt>::lo() { p.py() == self.py() - 1 && p.px() == self.px() }
            else { p.py() == <Self::Ytype as BoundedInt>::hi() && p.px() == self.px() - 1 }),
        None => self.px() == <Self::Xtype as BoundedInt>::lo() && self.py() == <Self::Ytype as BoundedInt>::lo(),
    },
% start
    proof { Self::plaws(); Self::Xtype::laws(); Self::Ytype::laws(); }
%% fn trait PosT::rotate_cw :: ret=r
    requires self.pwf(), <Self::Xtype as BoundedInt>::lo() == 0, <Self::Ytype as BoundedInt>::lo() == 0, <Self::Xtype as BoundedInt>::hi() == <Self::Ytype as BoundedInt>::hi(),
    ensures r.pwf(), r.px() == <Self::Ytype as BoundedInt>::hi() - self.py(), r.py() == self.px(),
%% fn trait PosT::rotate_cc :: ret=r
    requires self.pwf(), <Self::Xtype as BoundedInt>::lo() == 0, <Self::Ytype as BoundedInt>::lo() == 0, <Self::Xtype as BoundedInt>::hi() == <Self::Ytype as BoundedInt>::hi(),
    ensures r.pwf(), r.px() == self.py(), r.py() == <Self::Xtype as BoundedInt>::hi() - self.px(),
%% fn copydown PosT::rotate_cw
% start
    proof { Self::plaws(); }
%% fn copydown PosT::rotate_cc
% start
    proof { Self::plaws(); }
%% fn trait PosT::tryfrom_pos :: ret=r
    requires conv_ok::<<P::Xtype as BoundedInt>::Inner, Self::Xtype>(), conv_ok::<<P::Ytype as BoundedInt>::Inner, Self::Ytype>(),
        forall|i: <P::Xtype as BoundedInt>::Inner| i.v() == #[trigger] <P::Xtype as BoundedInt>::inn(i) && i.wf(),
        forall|i: <P::Ytype as BoundedInt>::Inner| i.v() == #[trigger] <P::Ytype as BoundedInt>::inn(i) && i.wf(),
    ensures match r {
        Ok(p) => p.pwf() && p.px() == pos.px() && p.py() == pos.py(),
        Err(e) => e == Error::OutOfBounds
            && !(xlo::<Self>() <= pos.px() <= xhi::<Self>() && ylo::<Self>() <= pos.py() <= yhi::<Self>()),
    },
%% fn trait PosT::iter_orientation :: ret=r
    ensures r.wf(), r.rem() =~= pcoords::<Self>(XFIRST, 0, pw::<Self>() * ph::<Self>() - 1),
%% fn trait PosT::iter :: ret=r
    ensures r.wf(), r.rem() =~= pcoords::<Self>(true, 0, pw::<Self>() * ph::<Self>() - 1),
%% fn trait PosT::iter_horizontal :: ret=r
    ensures r.wf(), r.rem() =~= pcoords::<Self>(true, 0, pw::<Self>() * ph::<Self>() - 1),
%% fn trait PosT::iter_vertical :: ret=r
    ensures r.wf(), r.rem() =~= pcoords::<Self>(false, 0, pw::<Self>() * ph::<Self>() - 1),
%% fn trait PosT::iter_range :: ret=r
    requires topleft.pwf(), botright.pwf(), topleft.px() <= botright.px(), topleft.py() <= botright.py(),
    ensures r.wf(), r.rem() =~= range_coords(topleft.px(), topleft.py(), botright.px(), botright.py()),
%% fn trait PosT::iter_in_x :: ret=r
    requires x.wf(),
    ensures r.wf(), r.rem() =~= col_coords(x.v(), ylo::<Self>(), yhi::<Self>()),
% start
    proof { Self::plaws(); Self::Xtype::laws(); Self::Ytype::laws(); }
%% fn trait PosT::iter_in_y :: ret=r
    requires y.wf(),
    ensures r.wf(), r.rem() =~= row_coords(y.v(), xlo::<Self>(), xhi::<Self>()),
% start
    proof { Self::plaws(); Self::Xtype::laws(); Self::Ytype::laws(); }
%% fn trait PosT::iter_x :: ret=r ;; rty=BoundedIntIterator<Self::Xtype>
    ensures r.wf(), r.rem() =~= int_range(xlo::<Self>(), xhi::<Self>()),
%% fn trait PosT::iter_y :: ret=r ;; rty=BoundedIntIterator<Self::Ytype>
    ensures r.wf(), r.rem() =~= int_range(ylo::<Self>(), yhi::<Self>()),
%% fn trait PosT::tlbr_of :: ret=r
    requires forall|i: int| 0 <= i < iter.rest().len() ==> (#[trigger] iter.rest()[i]).pwf(),
    ensures match r {
        Ok((tl, br)) => tl.pwf() && br.pwf() && is_bbox(iter.rest(), tl.px(), tl.py(), br.px(), br.py()),
        Err(e) => e == Error::Empty && iter.rest().len() == 0,
    },
% start
    let ghost s0 = iter.rest();
    proof {
        Self::plaws(); Self::Xtype::laws(); Self::Ytype::laws();
        if s0.len() > 0 { lemma_bbox_first(s0); }
    }
% loop 1
    invariant_except_break vxit.rest() =~= s0.skip(s0.len() - vxit.rest().len()), vxit.rest().len() < s0.len(),
    invariant
        forall|i: int| 0 <= i < s0.len() ==> (#[trigger] s0[i]).pwf(),
        vxit.rest().len() < s0.len(),
        vxacc.0.0.wf(), vxacc.0.1.wf(), vxacc.1.0.wf(), vxacc.1.1.wf(),
        is_bbox(s0.take(s0.len() - vxit.rest().len()), vxacc.0.0.v(), vxacc.0.1.v(), vxacc.1.0.v(), vxacc.1.1.v()),
    ensures vxit.rest().len() == 0,
    decreases vxit.rest().len(),
% loopstart 1
    let ghost vxold = vxit; let ghost a0 = vxacc;
    proof {
        Self::plaws(); Self::Xtype::laws(); Self::Ytype::laws();
        if vxit.rest().len() > 0 {
            assert(vxit.rest()[0] == s0[s0.len() - vxit.rest().len()]);
            lemma_bbox_next(s0, s0.len() - vxit.rest().len(), vxacc.0.0.v(), vxacc.0.1.v(), vxacc.1.0.v(), vxacc.1.1.v());
        }
    }
%% fn hint :: ret=r
    ensures r.1 == count, r.0 == (match count { Some(n) => n, None => 0usize }),
%% fn count_values :: ret=r
    requires from.wf(), to.wf(),
    ensures r matches Some(n) ==> n == to.v() - from.v() + 1 && n >= 1,
        r is None ==> !(0 <= from.v() <= to.v() < usize::MAX),
% start
    proof { T::laws(); }
%% fn count_positions :: ret=r
    requires from.0.wf(), from.1.wf(), to.0.wf(), to.1.wf(),
    ensures r matches Some(n) ==> n == (to.1.v() - from.1.v() + 1) * (T::hi() - T::lo() + 1) - (from.0.v() - T::lo()) - (T::hi() - to.0.v()),
% start
    proof { T::laws(); U::laws(); }
%% fn <PosTIter as Default>::default :: ret=r
    ensures r.wf(), r.rem() =~= pcoords::<P>(XFIRST, 0, pw::<P>() * ph::<P>() - 1),
% end
    proof {
        P::plaws(); P::Xtype::laws(); P::Ytype::laws();
        let w = pw::<P>(); let h = ph::<P>();
        assert((h - 1) * w + (w - 1) == w * h - 1) by (nonlinear_arith);
        assert((w - 1) * h + (h - 1) == w * h - 1) by (nonlinear_arith);
        assert(w * h >= 1) by (nonlinear_arith) requires w >= 1, h >= 1;
    }
%% fn <PosTIter as Iterator>::next :: ret=r
    requires old(self).wf(),
    ensures final(self).wf(),
        match r {
            Some(p) => p.pwf() && old(self).rem().len() > 0 && (p.px(), p.py()) == old(self).rem()[0] && final(self).rem() =~= old(self).rem().drop_first(),
            None => old(self).rem().len() == 0 && final(self).rem().len() == 0,
        },
% start
    proof {
        P::plaws();
        if let (Some(c), Some(e)) = (self.cur, self.end) { lemma_prank(XFIRST, c, e); lemma_prank(XFIRST, e, c); lemma_step::<P>(XFIRST, c); }
    }
%% fn <PosTIter as Iterator>::size_hint :: ret=r
    requires self.wf(),
    ensures r.0 <= self.rem().len(), r.1 matches Some(n) ==> self.rem().len() <= n,
% start
    proof {
        P::plaws(); P::Xtype::laws(); P::Ytype::laws();
        if let (Some(c), Some(e)) = (self.cur, self.end) {
            let w = pw::<P>(); let h = ph::<P>();
            let (a, b) = if XFIRST { (c.py() - ylo::<P>(), e.py() - ylo::<P>()) } else { (c.px() - xlo::<P>(), e.px() - xlo::<P>()) };
            assert((b - a + 1) * w == b * w - a * w + w && (b - a + 1) * h == b * h - a * h + h) by (nonlinear_arith);
        }
    }
%% fn <PosTIter as DoubleEndedIterator>::next_back :: ret=r
    requires old(self).wf(),
    ensures final(self).wf(),
        match r {
            Some(p) => p.pwf() && old(self).rem().len() > 0 && (p.px(), p.py()) == old(self).rem().last() && final(self).rem() =~= old(self).rem().drop_last(),
            None => old(self).rem().len() == 0 && final(self).rem().len() == 0,
        },
% start
    proof {
        P::plaws();
        if let (Some(c), Some(e)) = (self.cur, self.end) { lemma_prank(XFIRST, c, e); lemma_prank(XFIRST, e, c); lemma_step::<P>(XFIRST, e); }
    }
%% fn PosTIterRange::new :: ret=r
    requires topleft.pwf(), botright.pwf(), topleft.px() <= botright.px(), topleft.py() <= botright.py(),
    ensures r.wf(), r.rem() =~= range_coords(topleft.px(), topleft.py(), botright.px(), botright.py()),
% start
    proof { lemma_range(topleft.px(), topleft.py(), botright.px(), botright.py(), topleft.px(), topleft.py()); }
%% fn PosTIterRange::remaining :: ret=r
    requires self.wf(),
    ensures r matches Some(n) ==> n == self.rem().len(),
% start
    proof { P::plaws(); P::Xtype::laws(); P::Ytype::laws();
        if let Some(v) = self.value {
            let w = self.botright.px() - self.topleft.px() + 1; let y0 = self.topleft.py(); let y1 = self.botright.py();
            lemma_range(self.topleft.px(), y0, self.botright.px(), y1, v.px(), v.py());
            assert((y1 - v.py()) * w == w * (y1 - v.py()) && w * (y1 - y0 + 1) == w * (y1 - v.py()) + (v.py() - y0) * w + w) by (nonlinear_arith);
        }
    }
%% fn <PosTIterRange as Iterator>::size_hint :: ret=r
    requires self.wf(),
    ensures r.0 <= self.rem().len(), r.1 matches Some(n) ==> self.rem().len() <= n,
% start
    proof { P::plaws(); P::Xtype::laws(); P::Ytype::laws(); }
%% fn <PosTIterRange as Iterator>::next :: ret=r
    requires old(self).wf(),
    ensures final(self).wf(), final(self).topleft == old(self).topleft, final(self).botright == old(self).botright,
        match r {
            Some(p) => p.pwf() && old(self).rem().len() > 0 && (p.px(), p.py()) == old(self).rem()[0] && final(self).rem() =~= old(self).rem().drop_first(),
            None => old(self).rem().len() == 0 && final(self).rem().len() == 0,
        },
% start
    proof {
        P::plaws(); P::Xtype::laws(); P::Ytype::laws();
        if let Some(v) = self.value {
            lemma_range(self.topleft.px(), self.topleft.py(), self.botright.px(), self.botright.py(), v.px(), v.py());
        }
    }
%% fn <PosTIterInX as Iterator>::next :: ret=r
    requires old(self).wf(),
    ensures final(self).wf(),
        match r {
            Some(p) => p.pwf() && old(self).rem().len() > 0 && (p.px(), p.py()) == old(self).rem()[0] && final(self).rem() =~= old(self).rem().drop_first(),
            None => old(self).rem().len() == 0 && final(self).rem().len() == 0,
        },
% start
    proof { P::plaws(); P::Xtype::laws(); P::Ytype::laws(); }
%% fn <PosTIterInY as Iterator>::next :: ret=r
    requires old(self).wf(),
    ensures final(self).wf(),
        match r {
            Some(p) => p.pwf() && old(self).rem().len() > 0 && (p.px(), p.py()) == old(self).rem()[0] && final(self).rem() =~= old(self).rem().drop_first(),
            None => old(self).rem().len() == 0 && final(self).rem().len() == 0,
        },
% start
    proof { P::plaws(); P::Xtype::laws(); P::Ytype::laws(); }
%% fn <PosTIterInX as Iterator>::size_hint :: ret=r
    requires self.wf(),
    ensures r.0 <= self.rem().len(), r.1 matches Some(n) ==> self.rem().len() <= n,
% start
    proof { P::plaws(); P::Xtype::laws(); P::Ytype::laws(); }
%% fn <PosTIterInY as Iterator>::size_hint :: ret=r
    requires self.wf(),
    ensures r.0 <= self.rem().len(), r.1 matches Some(n) ==> self.rem().len() <= n,
% start
    proof { P::plaws(); P::Xtype::laws(); P::Ytype::laws(); }
%% foreach T = u8, u16, u32, u64, u128, i8, i16, i32
%% ghost impl <(@T@,@T@) as PosT>
    open spec fn px(self) -> int { self.0 as int }
    open spec fn py(self) -> int { self.1 as int }
    open spec fn pwf(self) -> bool { true }
    open spec fn sw() -> int { @T@::MAX - @T@::MIN + 1 }
    open spec fn sh() -> int { @T@::MAX - @T@::MIN + 1 }
    proof fn plaws() {}
%% fn <(@T@,@T@) as PosT>::WIDTH
%% fn <(@T@,@T@) as PosT>::HEIGHT
%% fn <(@T@,@T@) as PosT>::new_
%% fn <(@T@,@T@) as PosT>::into_tuple
%% fn <(@T@,@T@) as PosT>::tuple
%% fn <(@T@,@T@) as PosT>::x
%% fn <(@T@,@T@) as PosT>::y
%% endforeach
%% postlude
/// (x0, y0) and (x1, y1) are the componentwise minimum and maximum of s
pub open spec fn is_bbox<P: PosT>(s: Seq<P>, x0: int, y0: int, x1: int, y1: int) -> bool {
    &&& s.len() > 0
    &&& forall|i: int| 0 <= i < s.len() ==> x0 <= (#[trigger] s[i]).px() <= x1 && y0 <= s[i].py() <= y1
    &&& exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).px() == x0
    &&& exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).py() == y0
    &&& exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).px() == x1
    &&& exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).py() == y1
}
pub proof fn lemma_bbox_first<P: PosT>(s: Seq<P>)
    requires s.len() > 0,
    ensures is_bbox(s.take(1), s[0].px(), s[0].py(), s[0].px(), s[0].py()), s.take(s.len() as int) =~= s,
{
    assert(s.take(1)[0] == s[0]);
}
pub proof fn lemma_bbox_next<P: PosT>(s: Seq<P>, k: int, x0: int, y0: int, x1: int, y1: int)
    requires 0 <= k < s.len(), is_bbox(s.take(k), x0, y0, x1, y1),
    ensures is_bbox(s.take(k + 1), min_int(x0, s[k].px()), min_int(y0, s[k].py()), max_int(x1, s[k].px()), max_int(y1, s[k].py())),
{
    let t = s.take(k); let u = s.take(k + 1);
    assert(forall|i: int| 0 <= i < k ==> #[trigger] t[i] == u[i]);
    assert(u[k] == s[k]);
    let a = choose|i: int| 0 <= i < t.len() && (#[trigger] t[i]).px() == x0;
    let b = choose|i: int| 0 <= i < t.len() && (#[trigger] t[i]).py() == y0;
    let c = choose|i: int| 0 <= i < t.len() && (#[trigger] t[i]).px() == x1;
    let d = choose|i: int| 0 <= i < t.len() && (#[trigger] t[i]).py() == y1;
    assert(u[a].px() == x0 && u[b].py() == y0 && u[c].px() == x1 && u[d].py() == y1);
    assert forall|i: int| 0 <= i < u.len() implies min_int(x0, s[k].px()) <= (#[trigger] u[i]).px() <= max_int(x1, s[k].px())
        && min_int(y0, s[k].py()) <= u[i].py() <= max_int(y1, s[k].py()) by {
        if i < k { assert(u[i] == t[i]); }
    }
}
/// positions between the corners, row by row
pub open spec fn range_coords(x0: int, y0: int, x1: int, y1: int) -> Seq<(int, int)> {
    Seq::new(((x1 - x0 + 1) * (y1 - y0 + 1)) as nat, |i: int| unrank(x0, y0, x1 - x0 + 1, i))
}
pub open spec fn row_coords(y: int, x0: int, x1: int) -> Seq<(int, int)> { Seq::new((x1 - x0 + 1) as nat, |i: int| (x0 + i, y)) }
pub open spec fn col_coords(x: int, y0: int, y1: int) -> Seq<(int, int)> { Seq::new((y1 - y0 + 1) as nat, |i: int| (x, y0 + i)) }
/// what remains of a range from (x, y) on
pub open spec fn range_rem(x0: int, y0: int, x1: int, y1: int, x: int, y: int) -> Seq<(int, int)> {
    let k = rank(x0, y0, x1 - x0 + 1, x, y);
    Seq::new(((x1 - x0 + 1) * (y1 - y0 + 1) - k) as nat, |i: int| unrank(x0, y0, x1 - x0 + 1, k + i))
}
pub proof fn lemma_range(x0: int, y0: int, x1: int, y1: int, x: int, y: int)
    requires x0 <= x <= x1, y0 <= y <= y1,
    ensures ({
        let w = x1 - x0 + 1;
        let k = rank(x0, y0, w, x, y);
        &&& 0 <= k < w * (y1 - y0 + 1)
        &&& unrank(x0, y0, w, k) == (x, y)
        &&& rank(x0, y0, w, x + 1, y) == k + 1
        &&& x == x1 ==> rank(x0, y0, w, x0, y + 1) == k + 1
        &&& x == x1 && y == y1 ==> k + 1 == w * (y1 - y0 + 1)
        &&& x == x0 && y == y0 ==> k == 0
        &&& !(x == x1 && y == y1) ==> k + 1 < w * (y1 - y0 + 1)
    }),
{
    let w = x1 - x0 + 1;
    lemma_rank(x0, y0, w, x, y);
    assert((y - y0) * w + w <= w * (y1 - y0 + 1)) by (nonlinear_arith) requires y <= y1, w >= 1;
    assert((y1 - y0) * w + w == w * (y1 - y0 + 1)) by (nonlinear_arith);
    assert((y + 1 - y0) * w == (y - y0) * w + w) by (nonlinear_arith);
    if y < y1 { assert((y - y0) * w + w + w <= w * (y1 - y0 + 1)) by (nonlinear_arith) requires y + 1 <= y1, w >= 1; }
    assert((y0 - y0) * w == 0) by (nonlinear_arith);
}
/// the neighbours of p in each order have the neighbouring indexes
pub proof fn lemma_step<P: PosT>(h: bool, p: P)
    requires p.pwf(),
    ensures
        forall|q: P| q.pwf() && (#[trigger] q.px()) == p.px() + 1 && q.py() == p.py() && h ==> prank(h, q) == prank(h, p) + 1,
        forall|q: P| q.pwf() && (#[trigger] q.px()) == xlo::<P>() && p.px() == xhi::<P>() && q.py() == p.py() + 1 && h ==> prank(h, q) == prank(h, p) + 1,
        forall|q: P| q.pwf() && (#[trigger] q.px()) == p.px() && q.py() == p.py() + 1 && !h ==> prank(h, q) == prank(h, p) + 1,
        forall|q: P| q.pwf() && (#[trigger] q.px()) == p.px() + 1 && p.py() == yhi::<P>() && q.py() == ylo::<P>() && !h ==> prank(h, q) == prank(h, p) + 1,
        forall|q: P| q.pwf() && (#[trigger] q.px()) == p.px() - 1 && q.py() == p.py() && h ==> prank(h, q) == prank(h, p) - 1,
        forall|q: P| q.pwf() && (#[trigger] q.px()) == xhi::<P>() && p.px() == xlo::<P>() && q.py() == p.py() - 1 && h ==> prank(h, q) == prank(h, p) - 1,
        forall|q: P| q.pwf() && (#[trigger] q.px()) == p.px() && q.py() == p.py() - 1 && !h ==> prank(h, q) == prank(h, p) - 1,
        forall|q: P| q.pwf() && (#[trigger] q.px()) == p.px() - 1 && p.py() == ylo::<P>() && q.py() == yhi::<P>() && !h ==> prank(h, q) == prank(h, p) - 1,
        p.px() == xhi::<P>() && p.py() == yhi::<P>() ==> prank(h, p) == pw::<P>() * ph::<P>() - 1,
        p.px() == xlo::<P>() && p.py() == ylo::<P>() ==> prank(h, p) == 0,
{
    let w = pw::<P>(); let hh = ph::<P>();
    let a = p.py() - ylo::<P>(); let b = p.px() - xlo::<P>();
    assert((a + 1) * w == a * w + w && (a - 1) * w == a * w - w) by (nonlinear_arith);
    assert((b + 1) * hh == b * hh + hh && (b - 1) * hh == b * hh - hh) by (nonlinear_arith);
    assert((hh - 1) * w + (w - 1) == w * hh - 1) by (nonlinear_arith);
    assert((w - 1) * hh + (hh - 1) == w * hh - 1) by (nonlinear_arith);
    assert(0 * w == 0 && 0 * hh == 0) by (nonlinear_arith);
}
impl<const XFIRST: bool, P: PosT> PosTIter<XFIRST, P> {
    pub open spec fn wf(self) -> bool {
        match (self.cur, self.end) {
            (Some(c), Some(e)) => c.pwf() && e.pwf() && prank(XFIRST, c) <= prank(XFIRST, e),
            (None, None) => true,
            _ => false,
        }
    }
    /// coordinates of the positions still to be yielded, from the front
    pub open spec fn rem(self) -> Seq<(int, int)> {
        match (self.cur, self.end) {
            (Some(c), Some(e)) => pcoords::<P>(XFIRST, prank(XFIRST, c), prank(XFIRST, e)),
            _ => Seq::empty(),
        }
    }
}
impl<P: PosT> PosTIterRange<P> {
    pub open spec fn wf(self) -> bool {
        self.topleft.pwf() && self.botright.pwf() && self.topleft.px() <= self.botright.px() && self.topleft.py() <= self.botright.py()
        && (self.value matches Some(v) ==> v.pwf() && self.topleft.px() <= v.px() <= self.botright.px() && self.topleft.py() <= v.py() <= self.botright.py())
    }
    pub open spec fn rem(self) -> Seq<(int, int)> {
        match self.value {
            Some(v) => range_rem(self.topleft.px(), self.topleft.py(), self.botright.px(), self.botright.py(), v.px(), v.py()),
            None => Seq::empty(),
        }
    }
}
impl<P: PosT> PosTIterInX<P> {
    pub open spec fn wf(self) -> bool { self.0 matches Some(v) ==> v.pwf() }
    pub open spec fn rem(self) -> Seq<(int, int)> {
        match self.0 { Some(v) => col_coords(v.px(), v.py(), yhi::<P>()), None => Seq::empty() }
    }
}
impl<P: PosT> PosTIterInY<P> {
    pub open spec fn wf(self) -> bool { self.0 matches Some(v) ==> v.pwf() }
    pub open spec fn rem(self) -> Seq<(int, int)> {
        match self.0 { Some(v) => row_coords(v.py(), v.px(), xhi::<P>()), None => Seq::empty() }
    }
}
