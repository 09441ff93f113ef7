%% module posdir posdir.rs
%% header
use vstd::std_specs::cmp::*;
use vstd::std_specs::ops::*;
use super::boundedint::*;
use super::dir::*;
use super::postrait::*;
use super::pos::*;
%% wheredrop (boundedint::BoundedU16<0,
%% wheredrop (BoundedU16<0,
%% prelude
/// adding a direction: the displaced position, or OutOfBounds when it is not in the grid
pub open spec fn step_ok<const XMAX: u16, const YMAX: u16>(p: Pos<XMAX, YMAX>, d: Dir, r: Result<Pos<XMAX, YMAX>, Error>) -> bool {
    match r {
        Ok(q) => q.pwf() && q.px() == p.px() + dx(d) && q.py() == p.py() + dy(d),
        Err(e) => e == Error::OutOfBounds && !(0 <= p.px() + dx(d) <= XMAX && 0 <= p.py() + dy(d) <= YMAX),
    }
}
pub open spec fn step_of<const XMAX: u16, const YMAX: u16>(p: Pos<XMAX, YMAX>, d: Dir) -> Result<Pos<XMAX, YMAX>, Error> {
    if 0 <= p.px() + dx(d) <= XMAX && 0 <= p.py() + dy(d) <= YMAX { Ok(pos_of(p.px() + dx(d), p.py() + dy(d))) } else { Err(Error::OutOfBounds) }
}
pub open spec fn sign(i: int) -> int { if i < 0 { -1 } else if i == 0 { 0 } else { 1 } }
/// direction from (x, y) to (x2, y2)
pub open spec fn dir_to(diag: bool, x: int, y: int, x2: int, y2: int) -> Option<Dir> {
    if diag { vec_dir(sign(x2 - x), sign(y2 - y)) }
    else if x == x2 && y == y2 { None }
    else if y2 < y { Some(Dir::N) }
    else if x < x2 { Some(Dir::E) }
    else if y < y2 { Some(Dir::S) }
    else { Some(Dir::W) }
}
// C09: the step toward the destination stays in the grid and gets closer
pub proof fn lemma_dir_to(diag: bool, x: int, y: int, x2: int, y2: int)
    ensures match dir_to(diag, x, y, x2, y2) {
        None => x == x2 && y == y2,
        Some(d) => !(x == x2 && y == y2) && (is_diag(d) ==> diag)
            && abs_int(x2 - x - dx(d)) + abs_int(y2 - y - dy(d)) < abs_int(x2 - x) + abs_int(y2 - y)
            && min_int(x, x2) <= x + dx(d) <= max_int(x, x2) && min_int(y, y2) <= y + dy(d) <= max_int(y, y2),
    },
{}
%% fn <Pos as Add<Dir>>::add :: ret=r
    ensures step_ok(self, rhs, r),
%% fn <&Pos as Add<Dir>>::add :: ret=r
    ensures step_ok(*self, rhs, r),
%% fn pos_dir_add :: ret=r
    requires pos.pwf(),
    ensures step_ok(pos, dir, r),
%% fn pos_dir_add_ok :: ret=r
    requires pos.pwf(),
    ensures match r {
        Some(q) => q.pwf() && q.px() == pos.px() + dx(dir) && q.py() == pos.py() + dy(dir),
        None => !(0 <= pos.px() + dx(dir) <= XMAX && 0 <= pos.py() + dy(dir) <= YMAX),
    },
%% fn direction_to :: ret=r
    requires src.pwf(), dst.pwf(),
    ensures r == dir_to(D, src.px(), src.py(), dst.px(), dst.py()),
% start
    proof { P::plaws(); P::Xtype::laws(); P::Ytype::laws(); }
%% postlude
impl<const XMAX: u16, const YMAX: u16> AddSpecImpl<Dir> for Pos<XMAX, YMAX> {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, rhs: Dir) -> bool { self.pwf() }
    open spec fn add_spec(self, rhs: Dir) -> Result<Self, Error> { step_of(self, rhs) }
}
impl<const XMAX: u16, const YMAX: u16> AddSpecImpl<Dir> for &Pos<XMAX, YMAX> {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, rhs: Dir) -> bool { self.pwf() }
    open spec fn add_spec(self, rhs: Dir) -> Result<Pos<XMAX, YMAX>, Error> { step_of(*self, rhs) }
}
