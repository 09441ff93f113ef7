%% module dir dir.rs
%% header
use vstd::std_specs::cmp::*;
use vstd::std_specs::convert::*;
use vstd::std_specs::ops::*;
use std::fmt;
use crate::vxlib::vxfmt::*;
use super::boundedint::*;
%% prelude
/// position of a direction in clockwise order, north first
pub open spec fn di(d: Dir) -> int {
    match d { Dir::N => 0, Dir::NE => 1, Dir::E => 2, Dir::SE => 3, Dir::S => 4, Dir::SW => 5, Dir::W => 6, Dir::NW => 7 }
}
pub open spec fn dir_at(i: int) -> Dir {
    if i == 0 { Dir::N } else if i == 1 { Dir::NE } else if i == 2 { Dir::E } else if i == 3 { Dir::SE }
    else if i == 4 { Dir::S } else if i == 5 { Dir::SW } else if i == 6 { Dir::W } else { Dir::NW }
}
/// horizontal and vertical components of the unit vector of a direction
pub open spec fn dx(d: Dir) -> int {
    match d { Dir::NE | Dir::E | Dir::SE => 1, Dir::SW | Dir::W | Dir::NW => -1, Dir::N | Dir::S => 0 }
}
pub open spec fn dy(d: Dir) -> int {
    match d { Dir::NW | Dir::N | Dir::NE => -1, Dir::SW | Dir::S | Dir::SE => 1, Dir::W | Dir::E => 0 }
}
pub open spec fn is_diag(d: Dir) -> bool { dx(d) != 0 && dy(d) != 0 }
/// directions in use: cardinals only, or all
pub open spec fn dir_ok<const D: bool>(d: Dir) -> bool { D || !is_diag(d) }
pub open spec fn opposite(d: Dir) -> Dir { dir_at((di(d) + 4) % 8) }
pub open spec fn turn(d: Dir, e: Dir) -> Dir { dir_at((di(d) + di(e)) % 8) }
/// the direction sequence yielded from direction d on
pub open spec fn dirs_from<const D: bool>(d: Option<Dir>) -> Seq<Dir> {
    match d {
        None => Seq::empty(),
        Some(d) => if D { Seq::new((8 - di(d)) as nat, |i: int| dir_at(di(d) + i)) } else { Seq::new(((8 - di(d)) / 2) as nat, |i: int| dir_at(di(d) + 2 * i)) },
    }
}
/// the direction whose vector is (x, y)
pub open spec fn vec_dir(x: int, y: int) -> Option<Dir> {
    if x == 0 && y == -1 { Some(Dir::N) } else if x == 1 && y == -1 { Some(Dir::NE) } else if x == 1 && y == 0 { Some(Dir::E) }
    else if x == 1 && y == 1 { Some(Dir::SE) } else if x == 0 && y == 1 { Some(Dir::S) } else if x == -1 && y == 1 { Some(Dir::SW) }
    else if x == -1 && y == 0 { Some(Dir::W) } else if x == -1 && y == -1 { Some(Dir::NW) } else { None }
}
pub open spec fn sym_utf8(d: Dir) -> char {
    match d { Dir::N => '\u{2191}', Dir::NE => '\u{2197}', Dir::E => '\u{2192}', Dir::SE => '\u{2198}', Dir::S => '\u{2193}', Dir::SW => '\u{2199}', Dir::W => '\u{2190}', Dir::NW => '\u{2196}' }
}
pub open spec fn sym_ascii(d: Dir) -> char {
    match d { Dir::N => '^', Dir::NE => '7', Dir::E => '>', Dir::SE => '\\', Dir::S => 'v', Dir::SW => 'L', Dir::W => '<', Dir::NW => '`' }
}
pub open spec fn name_of(d: Dir) -> Seq<char> {
    match d { Dir::N => seq!['N'], Dir::NE => seq!['N', 'E'], Dir::E => seq!['E'], Dir::SE => seq!['S', 'E'], Dir::S => seq!['S'], Dir::SW => seq!['S', 'W'], Dir::W => seq!['W'], Dir::NW => seq!['N', 'W'] }
}
/// c denotes d: as one of its two arrows, or as a letter of a cardinal direction
pub open spec fn denotes(c: char, d: Dir) -> bool {
    c == sym_utf8(d) || c == sym_ascii(d)
    || (d == Dir::N && (c == 'N' || c == 'n')) || (d == Dir::E && (c == 'E' || c == 'e'))
    || (d == Dir::S && (c == 'S' || c == 's')) || (d == Dir::W && (c == 'W' || c == 'w'))
}
pub open spec fn parsed(c: char) -> Result<Dir, Error> {
    if exists|d: Dir| denotes(c, d) { Ok(choose|d: Dir| denotes(c, d)) } else { Err(Error::DirParseError) }
}
// C08: the symbols are pairwise distinct and no character denotes two directions
pub proof fn lemma_denotes_unique(c: char, d: Dir, e: Dir)
    requires denotes(c, d), denotes(c, e),
    ensures d == e,
{}
pub proof fn lemma_parsed(c: char, d: Dir)
    requires denotes(c, d),
    ensures parsed(c) == Ok::<Dir, Error>(d),
{ let e = choose|e: Dir| denotes(c, e); lemma_denotes_unique(c, d, e); }
pub proof fn lemma_symbols(d: Dir, e: Dir)
    ensures parsed(sym_utf8(d)) == Ok::<Dir, Error>(d), parsed(sym_ascii(d)) == Ok::<Dir, Error>(d),
        sym_utf8(d) == sym_utf8(e) ==> d == e, sym_ascii(d) == sym_ascii(e) ==> d == e,
        sym_utf8(d) != sym_ascii(e),
        name_of(d) == name_of(e) ==> d == e,
{
    lemma_parsed(sym_utf8(d), d); lemma_parsed(sym_ascii(d), d);
    assert(name_of(d).len() == name_of(e).len() ==> name_of(d)[0] == name_of(e)[0] ==> d != e ==> (name_of(d).len() == 2 && name_of(d)[1] != name_of(e)[1]));
}
// C07: the directions are the cyclic group of order 8, with matching vectors
pub proof fn lemma_di(d: Dir, i: int)
    ensures dir_at(di(d)) == d, 0 <= di(d) < 8, 0 <= i < 8 ==> di(dir_at(i)) == i,
{}
proof fn lemma_mod8(x: int, y: int, z: int)
    requires 0 <= x < 8, 0 <= y < 8, 0 <= z < 8,
    ensures ((x + y) % 8 + z) % 8 == (x + (y + z) % 8) % 8, 0 <= (x + y) % 8 < 8, 0 <= (y + z) % 8 < 8,
{
    assert((x + y) % 8 == if x + y < 8 { x + y } else { x + y - 8 });
    assert((y + z) % 8 == if y + z < 8 { y + z } else { y + z - 8 });
}
pub proof fn lemma_dir_assoc(a: Dir, b: Dir, c: Dir)
    ensures turn(turn(a, b), c) == turn(a, turn(b, c)),
{
    hide(di); hide(dir_at);
    lemma_di(a, 0); lemma_di(b, 0); lemma_di(c, 0);
    lemma_mod8(di(a), di(b), di(c));
    lemma_di(a, (di(a) + di(b)) % 8); lemma_di(b, (di(b) + di(c)) % 8);
}
pub proof fn lemma_dir_group(a: Dir, b: Dir, c: Dir)
    ensures turn(turn(a, b), c) == turn(a, turn(b, c)), turn(a, b) == turn(b, a), turn(a, Dir::N) == a, turn(Dir::N, a) == a,
        opposite(a) == turn(a, Dir::S), opposite(opposite(a)) == a,
        dir_at(di(a)) == a, di(a) == di(b) ==> a == b,
        turn(a, Dir::NE) == dir_at((di(a) + 1) % 8),
{
    lemma_dir_assoc(a, b, c);
}
pub proof fn lemma_dir_vec(a: Dir, b: Dir)
    ensures -1 <= dx(a) <= 1, -1 <= dy(a) <= 1, !(dx(a) == 0 && dy(a) == 0), vec_dir(dx(a), dy(a)) == Some(a),
        dx(opposite(a)) == -dx(a), dy(opposite(a)) == -dy(a),
        (dx(a) == dx(b) && dy(a) == dy(b)) ==> a == b,
        is_diag(a) == (di(a) % 2 == 1), is_diag(opposite(a)) == is_diag(a),
{}
pub proof fn lemma_vec_dir(x: int, y: int)
    ensures match vec_dir(x, y) { Some(d) => dx(d) == x && dy(d) == y, None => !(-1 <= x <= 1 && -1 <= y <= 1) || (x == 0 && y == 0) },
{}
pub open spec fn all_dirs<const D: bool>() -> Seq<Dir> {
    if D { seq![Dir::N, Dir::NE, Dir::E, Dir::SE, Dir::S, Dir::SW, Dir::W, Dir::NW] } else { seq![Dir::N, Dir::E, Dir::S, Dir::W] }
}
pub proof fn lemma_all_dirs<const D: bool>(d: Dir)
    ensures all_dirs::<D>().contains(d) == dir_ok::<D>(d), all_dirs::<D>().no_duplicates(),
{
    if D { assert(all_dirs::<D>()[di(d)] == d); } else {
        if !is_diag(d) { assert(all_dirs::<D>()[di(d) / 2] == d); }
    }
}
%% derive Dir : PartialEq Eq PartialOrd Ord Default
%% fn <Dir as PartialEq>::eq :: ret=r
    ensures r == (*self == *other),
%% fn <Dir as PartialOrd>::partial_cmp :: ret=r
    ensures r == Some(cmp_int(di(*self), di(*other))),
%% fn <Dir as Ord>::cmp :: ret=r
    ensures r == cmp_int(di(*self), di(*other)),
%% fn <Dir as Default>::default :: ret=r
    ensures r == Dir::N,
%% fn Dir::is_diagonal :: ret=r
    ensures r == is_diag(*self),
%% fn Dir::name_cardinal :: ret=r
    ensures r@ =~= name_of(*self),
% start
    proof { reveal_strlit("N"); reveal_strlit("NE"); reveal_strlit("E"); reveal_strlit("SE"); reveal_strlit("S"); reveal_strlit("SW"); reveal_strlit("W"); reveal_strlit("NW"); }
%% inherent <Dir as Display>
%% fn <Dir as Display>::fmt :: ret=r
    ensures fpad(*final(f)) == fpad(*old(f)), r is Ok ==> fout(*final(f)) == fout(*old(f)) + name_of(*self),
% start
    broadcast use shows;
%% fn Dir::name_utf8 :: ret=r
    ensures r@ =~= seq![sym_utf8(*self)],
% start
    proof { reveal_strlit("\u{2191}"); reveal_strlit("\u{2197}"); reveal_strlit("\u{2192}"); reveal_strlit("\u{2198}"); reveal_strlit("\u{2193}"); reveal_strlit("\u{2199}"); reveal_strlit("\u{2190}"); reveal_strlit("\u{2196}"); }
%% fn Dir::name_utf8_char :: ret=r
    ensures r == sym_utf8(*self),
%% fn Dir::name_ascii :: ret=r
    ensures r@ =~= seq![sym_ascii(*self)],
% start
    proof { reveal_strlit("^"); reveal_strlit("7"); reveal_strlit(">"); reveal_strlit("\\"); reveal_strlit("v"); reveal_strlit("L"); reveal_strlit("<"); reveal_strlit("`"); }
%% fn Dir::name_ascii_char :: ret=r
    ensures r == sym_ascii(*self),
%% fn Dir::flip :: ret=r
    ensures r == opposite(*self),
% start
    proof { lemma_std_bits(); }
%% fn Dir::rotate :: ret=r
    ensures r == turn(*self, *other),
% start
    proof { lemma_std_bits(); }
%% fn Dir::next :: ret=r
    ensures match r {
        Some(d) => di(d) == di(*self) + (if D { 1int } else if is_diag(*self) { 1 } else { 2 }),
        None => di(*self) >= (if D { 7int } else { 6 }),
    },
%% fn Dir::iter :: ret=r
    ensures r.wf(), r.rem() =~= all_dirs::<D>(),
%% fn <Dir as Neg>::neg :: ret=r
    ensures r == opposite(self),
%% fn <Dir as Add>::add :: ret=r
    ensures r == turn(self, other),
%% fn <Dir as AddAssign>::add_assign
    ensures *final(self) == turn(*old(self), other),
%% foreach T = isize, i8, i16, i32, i64, i128
%% fn <(@T@,@T@) as From<Dir>>::from :: ret=r
    ensures r.0 as int == dx(dir), r.1 as int == dy(dir),
%% fn <Dir as TryFrom<&(@T@,@T@)>>::try_from :: ret=r
    ensures r == (match vec_dir(xy.0 as int, xy.1 as int) { Some(d) => Ok::<Dir, Error>(d), None => Err(Error::InvalidDirection) }),
%% endforeach
%% inherent <Dir as TryFrom<(T,T)>>
%% fn <Dir as TryFrom<(T,T)>>::try_from :: ret=r ;; rename=vx_try_from_pair
    ensures call_ensures(<Dir as TryFrom<&(T, T)>>::try_from, (&xy,), r),
%% fn <Dir as TryFrom<char>>::try_from :: ret=r
    ensures r == parsed(c),
% end
    proof { match r { Ok(d) => { lemma_parsed(c, d); } Err(_) => { assert(forall|d: Dir| !denotes(c, d)); } } }
%% fn <Dir as FromStr>::from_str :: ret=r
    ensures r == (if s@.len() == 1 { parsed(s@[0]) } else { Err(Error::DirParseError) }),
%% fn <DirIter as Default>::default :: ret=r
    ensures r.wf(), r.rem() =~= all_dirs::<D>(),
%% fn <DirIter as Iterator>::next :: ret=r
    requires old(self).wf(),
    ensures final(self).wf(),
        match r {
            Some(d) => old(self).rem().len() > 0 && d == old(self).rem()[0] && final(self).rem() =~= old(self).rem().drop_first(),
            None => old(self).rem().len() == 0 && final(self).rem().len() == 0,
        },
%% fn <DirIter as Iterator>::size_hint :: ret=r
    requires self.wf(),
    ensures r.1 matches Some(n) ==> self.rem().len() <= n,
        // known finding dir-iter-size-hint: the lower bound may be that of a new iterator
        r.0 <= self.rem().len() || r == (all_dirs::<D>().len() as usize, Some(all_dirs::<D>().len() as usize)),
%% fn <(T,U) as Add<Dir>>::add :: ret=r
    ensures match r {
        Ok(p) => p.0.wf() && p.1.wf() && p.0.v() == self.0.v() + dx(rhs) && p.1.v() == self.1.v() + dy(rhs),
        Err(e) => e == Error::OutOfBounds && !(T::lo() <= self.0.v() + dx(rhs) <= T::hi() && U::lo() <= self.1.v() + dy(rhs) <= U::hi()),
    },
% start
    proof { T::laws(); U::laws(); }
%% fn <&(T,U) as Add<Dir>>::add :: ret=r
    ensures match r {
        Ok(p) => p.0.wf() && p.1.wf() && p.0.v() == self.0.v() + dx(rhs) && p.1.v() == self.1.v() + dy(rhs),
        Err(e) => e == Error::OutOfBounds && !(T::lo() <= self.0.v() + dx(rhs) <= T::hi() && U::lo() <= self.1.v() + dy(rhs) <= U::hi()),
    },
% start
    proof { T::laws(); U::laws(); }
%% postlude
impl PartialEqSpecImpl for Dir {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Self) -> bool { *self == *other }
}
impl PartialOrdSpecImpl for Dir {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, other: &Self) -> Option<core::cmp::Ordering> { Some(cmp_int(di(*self), di(*other))) }
}
impl OrdSpecImpl for Dir {
    open spec fn obeys_cmp_spec() -> bool { true }
    open spec fn cmp_spec(&self, other: &Self) -> core::cmp::Ordering { cmp_int(di(*self), di(*other)) }
}
impl<const D: bool> DirIter<D> {
    pub open spec fn wf(self) -> bool { self.0 matches Some(d) ==> dir_ok::<D>(d) }
    pub open spec fn rem(self) -> Seq<Dir> { dirs_from::<D>(self.0) }
}
impl NegSpecImpl for Dir {
    open spec fn obeys_neg_spec() -> bool { true }
    open spec fn neg_req(self) -> bool { true }
    open spec fn neg_spec(self) -> Dir { opposite(self) }
}
impl AddSpecImpl<Dir> for Dir {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, rhs: Dir) -> bool { true }
    open spec fn add_spec(self, rhs: Dir) -> Dir { turn(self, rhs) }
}
impl AddAssignSpecImpl<Dir> for Dir {
    open spec fn obeys_add_assign_spec() -> bool { false }
    open spec fn add_assign_req(&self, rhs: Dir) -> bool { true }
    open spec fn add_assign_spec(&self, rhs: Dir) -> &Dir { arbitrary() }
}
%% foreach T = isize, i8, i16, i32, i64, i128
impl FromSpecImpl<Dir> for (@T@, @T@) {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(value: Dir) -> Self { (dx(value) as @T@, dy(value) as @T@) }
}
impl TryFromSpecImpl<&(@T@, @T@)> for Dir {
    open spec fn obeys_try_from_spec() -> bool { true }
    open spec fn try_from_spec(xy: &(@T@, @T@)) -> Result<Dir, Error> { match vec_dir(xy.0 as int, xy.1 as int) { Some(d) => Ok(d), None => Err(Error::InvalidDirection) } }
}
%% endforeach
impl TryFromSpecImpl<char> for Dir {
    open spec fn obeys_try_from_spec() -> bool { true }
    open spec fn try_from_spec(c: char) -> Result<Dir, Error> { parsed(c) }
}
impl<T: BoundedInt, U: BoundedInt> AddSpecImpl<Dir> for (T, U) {
    open spec fn obeys_add_spec() -> bool { false }
    open spec fn add_req(self, rhs: Dir) -> bool { self.0.wf() && self.1.wf() }
    open spec fn add_spec(self, rhs: Dir) -> Result<(T, U), Error> { arbitrary() }
}
impl<T: BoundedInt, U: BoundedInt> AddSpecImpl<Dir> for &(T, U) {
    open spec fn obeys_add_spec() -> bool { false }
    open spec fn add_req(self, rhs: Dir) -> bool { self.0.wf() && self.1.wf() }
    open spec fn add_spec(self, rhs: Dir) -> Result<(T, U), Error> { arbitrary() }
}
