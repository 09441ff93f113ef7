%% module pos pos.rs
%% header
use vstd::std_specs::cmp::*;
use vstd::std_specs::convert::*;
use std::fmt;
use crate::vxlib::vxfmt::*;
use super::boundedint::*;
use super::postrait::*;
%% derive Pos : PartialEq Eq PartialOrd Ord Default
%% fn <Pos as PartialEq>::eq :: ret=r
    ensures r == (*self == *other),
%% fn <Pos as PartialOrd>::partial_cmp :: ret=r
    ensures r == Some(pos_cmp(self.px(), self.py(), other.px(), other.py())),
%% fn <Pos as Ord>::cmp :: ret=r
    ensures r == pos_cmp(self.px(), self.py(), other.px(), other.py()),
%% fn <Pos as Default>::default :: ret=r
    ensures r.pwf(), r.px() == 0, r.py() == 0,
%% fn Pos::WIDTH :: ret=r
    ensures r as int == XMAX + 1,
% start
    assume(XMAX < u16::MAX); // VX-CONST: evaluated at compile time, where the overflow is a compilation error
%% fn Pos::HEIGHT :: ret=r
    ensures r as int == YMAX + 1,
% start
    assume(YMAX < u16::MAX); // VX-CONST: evaluated at compile time, where the overflow is a compilation error
%% fn Pos::SIZE :: ret=r
    ensures r as int == (XMAX + 1) * (YMAX + 1),
% start
    proof { lemma_pos_size(XMAX, YMAX); }
%% fn Pos::FIRST :: ret=r
    ensures r.pwf(), r.px() == 0, r.py() == 0,
%% fn Pos::LAST :: ret=r
    ensures r.pwf(), r.px() == XMAX, r.py() == YMAX,
%% fn Pos::CENTER :: ret=r
    ensures r.pwf(), r.px() == XMAX / 2, r.py() == YMAX / 2,
%% fn Pos::TOP_LEFT :: ret=r
    ensures r.pwf(), r.px() == 0, r.py() == 0,
%% fn Pos::TOP_RIGHT :: ret=r
    ensures r.pwf(), r.px() == XMAX, r.py() == 0,
%% fn Pos::BOTTOM_LEFT :: ret=r
    ensures r.pwf(), r.px() == 0, r.py() == YMAX,
%% fn Pos::BOTTOM_RIGHT :: ret=r
    ensures r.pwf(), r.px() == XMAX, r.py() == YMAX,
%% fn Pos::new :: ret=r
    ensures match r {
        Ok(p) => p.pwf() && p.px() == x && p.py() == y,
        Err(e) => e == Error::OutOfBounds && !(x <= XMAX && y <= YMAX),
    },
%% fn Pos::new_unwrap :: ret=r
    requires allow_panic() || (x <= XMAX && y <= YMAX),
    ensures r.pwf(), r.px() == x, r.py() == y,
%% fn Pos::new_static :: ret=r
    requires allow_panic() || (X <= XMAX && Y <= YMAX),
    ensures r.pwf(), r.px() == X, r.py() == Y,
%% fn Pos::x :: ret=r
    ensures r as int == self.px(),
%% fn Pos::y :: ret=r
    ensures r as int == self.py(),
%% fn Pos::tuple :: ret=r
    ensures r.0 as int == self.px(), r.1 as int == self.py(),
%% inherent <Pos as Display>
%% fn <Pos as Display>::fmt :: ret=r
    ensures fpad(*final(f)) == fpad(*old(f)),
        r is Ok ==> fout(*final(f)) == fout(*old(f)) + (seq!['('] + dec(self.px()) + seq![','] + dec(self.py()) + seq![')']),
% start
    broadcast use shows;
    proof { reveal_strlit("("); reveal_strlit(","); reveal_strlit(")"); assert("("@ =~= seq!['(']); assert(","@ =~= seq![',']); assert(")"@ =~= seq![')']); }
%% fn <Pos as From<(BoundedU16,BoundedU16)>>::from :: ret=r
    ensures r.px() == xy.0.v(), r.py() == xy.1.v(), (xy.0.wf() && xy.1.wf()) ==> r.pwf(),
%% fn <Pos as From<&(BoundedU16,BoundedU16)>>::from :: ret=r
    ensures r.px() == xy.0.v(), r.py() == xy.1.v(), (xy.0.wf() && xy.1.wf()) ==> r.pwf(),
%% foreach S = &(u16,u16); (u16,u16); &(i32,i32); (i32,i32)
%% fn <Pos as TryFrom<@S@>>::try_from :: ret=r
    ensures match r {
        Ok(p) => p.pwf() && p.px() == xy.0 && p.py() == xy.1,
        Err(e) => e == Error::OutOfBounds && !(0 <= xy.0 <= XMAX && 0 <= xy.1 <= YMAX),
    },
%% endforeach
%% foreach S T = &Pos u16; Pos u16; &Pos i32; Pos i32
%% fn <(@T@,@T@) as From<@S@>>::from :: ret=r
    ensures r.0 as int == pos.px(), r.1 as int == pos.py(),
%% endforeach
%% fn <Pos as TryFrom<usize>>::try_from :: ret=r
    ensures match r {
        Ok(p) => p.pwf() && p.py() * (XMAX + 1) + p.px() == i,
        Err(e) => e == Error::OutOfBounds && i >= (XMAX + 1) * (YMAX + 1),
    },
% start
    proof { lemma_divmod_bounds(i as int, XMAX + 1, YMAX + 1); }
%% fn <usize as From<&Pos>>::from :: ret=r
    ensures r as int == pos.py() * (XMAX + 1) + pos.px(),
% start
    proof {
        lemma_pos_size(XMAX, YMAX);
        assert(0 <= pos.py() * (XMAX + 1) <= 0xffff * 0x1_0000) by (nonlinear_arith) requires 0 <= pos.py() <= 0xffff, 0 <= XMAX <= 0xffff;
    }
%% fn <usize as From<Pos>>::from :: ret=r
    ensures r as int == pos.py() * (XMAX + 1) + pos.px(),
% start
    proof {
        lemma_pos_size(XMAX, YMAX);
        assert(0 <= pos.py() * (XMAX + 1) <= 0xffff * 0x1_0000) by (nonlinear_arith) requires 0 <= pos.py() <= 0xffff, 0 <= XMAX <= 0xffff;
    }
%% ghost impl <Pos as PosT>
    open spec fn px(self) -> int { self.0.0.v() }
    open spec fn py(self) -> int { self.0.1.v() }
    open spec fn pwf(self) -> bool { self.0.0.wf() && self.0.1.wf() }
    open spec fn sw() -> int { XMAX + 1 }
    open spec fn sh() -> int { YMAX + 1 }
    proof fn plaws() {}
%% fn <Pos as PosT>::rotate_cw
% start
    proof { Self::plaws(); }
%% fn <Pos as PosT>::rotate_cc
% start
    proof { Self::plaws(); }
%% fn <Pos as PosT>::WIDTH
%% fn <Pos as PosT>::HEIGHT
%% fn <Pos as PosT>::new_
%% fn <Pos as PosT>::into_tuple
%% fn <Pos as PosT>::tuple
%% fn <Pos as PosT>::x
%% fn <Pos as PosT>::y
%% postlude
/// lexicographic by x, then y (the derived order)
pub open spec fn pos_cmp(x: int, y: int, x2: int, y2: int) -> core::cmp::Ordering {
    if x != x2 { cmp_int(x, x2) } else { cmp_int(y, y2) }
}
impl<const XMAX: u16, const YMAX: u16> PartialEqSpecImpl for Pos<XMAX, YMAX> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Self) -> bool { *self == *other }
}
impl<const XMAX: u16, const YMAX: u16> PartialOrdSpecImpl for Pos<XMAX, YMAX> {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, other: &Self) -> Option<core::cmp::Ordering> { Some(pos_cmp(self.px(), self.py(), other.px(), other.py())) }
}
impl<const XMAX: u16, const YMAX: u16> OrdSpecImpl for Pos<XMAX, YMAX> {
    open spec fn obeys_cmp_spec() -> bool { true }
    open spec fn cmp_spec(&self, other: &Self) -> core::cmp::Ordering { pos_cmp(self.px(), self.py(), other.px(), other.py()) }
}
/// the position with the given coordinates
pub open spec fn pos_of<const XMAX: u16, const YMAX: u16>(x: int, y: int) -> Pos<XMAX, YMAX> { Pos((BoundedU16(x as u16), BoundedU16(y as u16))) }
pub proof fn lemma_pos_size(xmax: u16, ymax: u16)
    ensures (xmax + 1) * (ymax + 1) <= 0x1_0000_0000, (xmax + 1) * (ymax + 1) >= 1,
{
    assert((xmax + 1) * (ymax + 1) <= 0x1_0000 * 0x1_0000) by (nonlinear_arith) requires 0 <= xmax < 0x1_0000, 0 <= ymax < 0x1_0000;
    assert((xmax + 1) * (ymax + 1) >= 1) by (nonlinear_arith) requires 0 <= xmax < 0x1_0000, 0 <= ymax < 0x1_0000;
}
pub proof fn lemma_divmod_bounds(i: int, w: int, h: int)
    requires i >= 0, w > 0, h > 0,
    ensures (i / w) * w + i % w == i, 0 <= i % w < w, 0 <= i / w, (i / w < h) == (i < w * h),
{
    lemma_unrank(0, 0, w, i);
    if i < w * h { assert(i / w < h) by (nonlinear_arith) requires i < w * h, (i / w) * w + i % w == i, i % w >= 0, w > 0; }
    else { assert(i / w >= h) by (nonlinear_arith) requires i >= w * h, (i / w) * w + i % w == i, i % w < w, w > 0; }
}
impl<const XMAX: u16, const YMAX: u16> TryFromSpecImpl<&(u16, u16)> for Pos<XMAX, YMAX> {
    open spec fn obeys_try_from_spec() -> bool { true }
    open spec fn try_from_spec(xy: &(u16, u16)) -> Result<Self, Error> { if 0 <= xy.0 <= XMAX && 0 <= xy.1 <= YMAX { Ok(pos_of(xy.0 as int, xy.1 as int)) } else { Err(Error::OutOfBounds) } }
}
impl<const XMAX: u16, const YMAX: u16> TryFromSpecImpl<(u16, u16)> for Pos<XMAX, YMAX> {
    open spec fn obeys_try_from_spec() -> bool { true }
    open spec fn try_from_spec(xy: (u16, u16)) -> Result<Self, Error> { if 0 <= xy.0 <= XMAX && 0 <= xy.1 <= YMAX { Ok(pos_of(xy.0 as int, xy.1 as int)) } else { Err(Error::OutOfBounds) } }
}
impl<const XMAX: u16, const YMAX: u16> TryFromSpecImpl<&(i32, i32)> for Pos<XMAX, YMAX> {
    open spec fn obeys_try_from_spec() -> bool { true }
    open spec fn try_from_spec(xy: &(i32, i32)) -> Result<Self, Error> { if 0 <= xy.0 <= XMAX && 0 <= xy.1 <= YMAX { Ok(pos_of(xy.0 as int, xy.1 as int)) } else { Err(Error::OutOfBounds) } }
}
impl<const XMAX: u16, const YMAX: u16> TryFromSpecImpl<(i32, i32)> for Pos<XMAX, YMAX> {
    open spec fn obeys_try_from_spec() -> bool { true }
    open spec fn try_from_spec(xy: (i32, i32)) -> Result<Self, Error> { if 0 <= xy.0 <= XMAX && 0 <= xy.1 <= YMAX { Ok(pos_of(xy.0 as int, xy.1 as int)) } else { Err(Error::OutOfBounds) } }
}
impl<const XMAX: u16, const YMAX: u16> FromSpecImpl<&Pos<XMAX, YMAX>> for (u16, u16) {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(p: &Pos<XMAX, YMAX>) -> Self { (p.0.0.0 as u16, p.0.1.0 as u16) }
}
impl<const XMAX: u16, const YMAX: u16> FromSpecImpl<Pos<XMAX, YMAX>> for (u16, u16) {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(p: Pos<XMAX, YMAX>) -> Self { (p.0.0.0 as u16, p.0.1.0 as u16) }
}
impl<const XMAX: u16, const YMAX: u16> FromSpecImpl<&Pos<XMAX, YMAX>> for (i32, i32) {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(p: &Pos<XMAX, YMAX>) -> Self { (p.0.0.0 as i32, p.0.1.0 as i32) }
}
impl<const XMAX: u16, const YMAX: u16> FromSpecImpl<Pos<XMAX, YMAX>> for (i32, i32) {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(p: Pos<XMAX, YMAX>) -> Self { (p.0.0.0 as i32, p.0.1.0 as i32) }
}
impl<const XMAX: u16, const YMAX: u16> FromSpecImpl<&(BoundedU16<0, XMAX>, BoundedU16<0, YMAX>)> for Pos<XMAX, YMAX> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(p: &(BoundedU16<0, XMAX>, BoundedU16<0, YMAX>)) -> Self { Pos(*p) }
}
impl<const XMAX: u16, const YMAX: u16> FromSpecImpl<&Pos<XMAX, YMAX>> for usize {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(p: &Pos<XMAX, YMAX>) -> Self { arbitrary() }
}
impl<const XMAX: u16, const YMAX: u16> FromSpecImpl<(BoundedU16<0, XMAX>, BoundedU16<0, YMAX>)> for Pos<XMAX, YMAX> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(p: (BoundedU16<0, XMAX>, BoundedU16<0, YMAX>)) -> Self { Pos(p) }
}
impl<const XMAX: u16, const YMAX: u16> FromSpecImpl<Pos<XMAX, YMAX>> for usize {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(p: Pos<XMAX, YMAX>) -> Self { arbitrary() }
}
impl<const XMAX: u16, const YMAX: u16> TryFromSpecImpl<usize> for Pos<XMAX, YMAX> {
    open spec fn obeys_try_from_spec() -> bool { true }
    open spec fn try_from_spec(i: usize) -> Result<Self, Error> { if i < (XMAX + 1) * (YMAX + 1) { Ok(pos_of(i as int % (XMAX + 1), i as int / (XMAX + 1))) } else { Err(Error::OutOfBounds) } }
}
