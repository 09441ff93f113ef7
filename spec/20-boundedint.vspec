%% module boundedint boundedint.rs
%% header
use vstd::std_specs::cmp::*;
use vstd::std_specs::convert::*;
%% prelude
broadcast use {super::vxlib::convax::axiom_try_from_refl, super::vxlib::convax::axiom_try_into_refl,
    super::vxlib::convax::axiom_try_from_blanket, super::vxlib::convax::axiom_try_into_blanket};

/// lo, lo + 1, ..., hi
pub open spec fn int_range(lo: int, hi: int) -> Seq<int> { Seq::new((if lo <= hi { hi - lo + 1 } else { 0 }) as nat, |i: int| lo + i) }
/// try_from between two bounded integer types is exact
pub open spec fn conv_ok<X: BoundedInt, Y: BoundedInt + TryFrom<X>>() -> bool {
    forall|x: X, r: Result<Y, <Y as TryFrom<X>>::Error>| #[trigger] call_ensures(<Y as TryFrom<X>>::try_from, (x,), r) ==>
        match r { Ok(y) => y.v() == x.v() && (x.wf() ==> y.wf()), Err(_) => !(Y::lo() <= x.v() <= Y::hi()) }
}
%% attr trait BoundedInt dropsuper : From<bool>
%% ghost trait BoundedInt
    /// the mathematical value
    spec fn v(self) -> int;
    spec fn lo() -> int;
    spec fn hi() -> int;
    /// value of the inner representation
    spec fn inn(i: Self::Inner) -> int;
    /// the value is within the bounds of its type
    spec fn wf(self) -> bool;
    proof fn laws()
        ensures
            forall|a: Self| #[trigger] a.wf() == (Self::lo() <= a.v() <= Self::hi()),
            forall|a: Self, b: Self| (#[trigger] a.v()) == (#[trigger] b.v()) ==> a == b,
            Self::obeys_eq_spec(), Self::obeys_partial_cmp_spec(), Self::obeys_cmp_spec(),
            forall|a: Self, b: Self| (#[trigger] a.eq_spec(&b)) == (a.v() == b.v()),
            forall|a: Self, b: Self| (#[trigger] a.partial_cmp_spec(&b)) == Some(cmp_int(a.v(), b.v())),
            forall|a: Self, b: Self| (#[trigger] a.cmp_spec(&b)) == cmp_int(a.v(), b.v()),
            forall|x: Self, r: Result<usize, <Self as TryInto<usize>>::Error>| #[trigger] call_ensures(<Self as TryInto<usize>>::try_into, (x,), r) ==>
                match r { Ok(y) => y as int == x.v(), Err(_) => !(0 <= x.v() <= usize::MAX) },
            forall|x: usize, r: Result<Self, <Self as TryFrom<usize>>::Error>| #[trigger] call_ensures(<Self as TryFrom<usize>>::try_from, (x,), r) ==>
                match r { Ok(y) => y.v() == x as int && y.wf(), Err(_) => !(Self::lo() <= x <= Self::hi()) },
            forall|x: u8, r: Result<Self, <Self as TryFrom<u8>>::Error>| #[trigger] call_ensures(<Self as TryFrom<u8>>::try_from, (x,), r) ==>
                match r { Ok(y) => y.v() == x as int && y.wf(), Err(_) => !(Self::lo() <= x <= Self::hi()) },
            forall|x: u16, r: Result<Self, <Self as TryFrom<u16>>::Error>| #[trigger] call_ensures(<Self as TryFrom<u16>>::try_from, (x,), r) ==>
                match r { Ok(y) => y.v() == x as int && y.wf(), Err(_) => !(Self::lo() <= x <= Self::hi()) },
            forall|x: u32, r: Result<Self, <Self as TryFrom<u32>>::Error>| #[trigger] call_ensures(<Self as TryFrom<u32>>::try_from, (x,), r) ==>
                match r { Ok(y) => y.v() == x as int && y.wf(), Err(_) => !(Self::lo() <= x <= Self::hi()) },
            forall|x: u64, r: Result<Self, <Self as TryFrom<u64>>::Error>| #[trigger] call_ensures(<Self as TryFrom<u64>>::try_from, (x,), r) ==>
                match r { Ok(y) => y.v() == x as int && y.wf(), Err(_) => !(Self::lo() <= x <= Self::hi()) },
            forall|x: u128, r: Result<Self, <Self as TryFrom<u128>>::Error>| #[trigger] call_ensures(<Self as TryFrom<u128>>::try_from, (x,), r) ==>
                match r { Ok(y) => y.v() == x as int && y.wf(), Err(_) => !(Self::lo() <= x <= Self::hi()) },
            forall|x: isize, r: Result<Self, <Self as TryFrom<isize>>::Error>| #[trigger] call_ensures(<Self as TryFrom<isize>>::try_from, (x,), r) ==>
                match r { Ok(y) => y.v() == x as int && y.wf(), Err(_) => !(Self::lo() <= x <= Self::hi()) },
            forall|x: i8, r: Result<Self, <Self as TryFrom<i8>>::Error>| #[trigger] call_ensures(<Self as TryFrom<i8>>::try_from, (x,), r) ==>
                match r { Ok(y) => y.v() == x as int && y.wf(), Err(_) => !(Self::lo() <= x <= Self::hi()) },
            forall|x: i16, r: Result<Self, <Self as TryFrom<i16>>::Error>| #[trigger] call_ensures(<Self as TryFrom<i16>>::try_from, (x,), r) ==>
                match r { Ok(y) => y.v() == x as int && y.wf(), Err(_) => !(Self::lo() <= x <= Self::hi()) },
            forall|x: i32, r: Result<Self, <Self as TryFrom<i32>>::Error>| #[trigger] call_ensures(<Self as TryFrom<i32>>::try_from, (x,), r) ==>
                match r { Ok(y) => y.v() == x as int && y.wf(), Err(_) => !(Self::lo() <= x <= Self::hi()) },
            forall|x: i64, r: Result<Self, <Self as TryFrom<i64>>::Error>| #[trigger] call_ensures(<Self as TryFrom<i64>>::try_from, (x,), r) ==>
                match r { Ok(y) => y.v() == x as int && y.wf(), Err(_) => !(Self::lo() <= x <= Self::hi()) },
            forall|x: i128, r: Result<Self, <Self as TryFrom<i128>>::Error>| #[trigger] call_ensures(<Self as TryFrom<i128>>::try_from, (x,), r) ==>
                match r { Ok(y) => y.v() == x as int && y.wf(), Err(_) => !(Self::lo() <= x <= Self::hi()) },
    ;
%% fn trait BoundedInt::MIN :: ret=r
    ensures Self::lo() <= r.v() <= Self::hi(), r.v() == Self::lo(),
%% fn trait BoundedInt::MAX :: ret=r
    ensures Self::lo() <= r.v() <= Self::hi(), r.v() == Self::hi(),
%% fn trait BoundedInt::into_inner :: ret=r
    ensures Self::inn(r) == self.v(),
%% fn trait BoundedInt::as_ref :: ret=r
    ensures Self::inn(*r) == self.v(),
%% fn trait BoundedInt::checked_add :: ret=r
    ensures self.wf() && rhs.wf() ==> match r { Some(x) => x.wf() && x.v() == self.v() + rhs.v(), None => !(Self::lo() <= self.v() + rhs.v() <= Self::hi()) },
%% fn trait BoundedInt::checked_sub :: ret=r
    ensures self.wf() && rhs.wf() ==> match r { Some(x) => x.wf() && x.v() == self.v() - rhs.v(), None => !(Self::lo() <= self.v() - rhs.v() <= Self::hi()) },
%% ext BoundedInt::iter
%% copydown BoundedInt::one
%% copydown BoundedInt::inc
%% copydown BoundedInt::dec
%% fn trait BoundedInt::one :: ret=r
    requires allow_panic() || Self::lo() <= 1 <= Self::hi(),
    ensures r.wf(), r.v() == 1,
%% fn trait BoundedInt::inc :: ret=r
    ensures self.wf() ==> match r { Some(x) => x.wf() && x.v() == self.v() + 1, None => !(Self::lo() <= self.v() + 1 <= Self::hi()) },
%% fn trait BoundedInt::dec :: ret=r
    ensures self.wf() ==> match r { Some(x) => x.wf() && x.v() == self.v() - 1, None => !(Self::lo() <= self.v() - 1 <= Self::hi()) },
%% fn copydown BoundedInt::one
%% fn copydown BoundedInt::inc
%% fn copydown BoundedInt::dec
%% fn trait BoundedInt::iter :: ret=r
    ensures r.wf(), r.rem() =~= int_range(Self::lo(), Self::hi()),
% start
    proof { Self::laws(); }
%% ghost impl <usize as BoundedInt>
    open spec fn v(self) -> int { self as int }
    open spec fn lo() -> int { usize::MIN as int }
    open spec fn hi() -> int { usize::MAX as int }
    open spec fn wf(self) -> bool { usize::MIN as int <= self as int <= usize::MAX as int }
    open spec fn inn(i: usize) -> int { i as int }
    proof fn laws() {}
%% fn <usize as BoundedInt>::MIN
%% fn <usize as BoundedInt>::MAX
%% fn <usize as BoundedInt>::into_inner
%% fn <usize as BoundedInt>::as_ref
%% fn <usize as BoundedInt>::checked_add
%% fn <usize as BoundedInt>::checked_sub
%% ghost impl <u8 as BoundedInt>
    open spec fn v(self) -> int { self as int }
    open spec fn lo() -> int { u8::MIN as int }
    open spec fn hi() -> int { u8::MAX as int }
    open spec fn wf(self) -> bool { u8::MIN as int <= self as int <= u8::MAX as int }
    open spec fn inn(i: u8) -> int { i as int }
    proof fn laws() {}
%% fn <u8 as BoundedInt>::MIN
%% fn <u8 as BoundedInt>::MAX
%% fn <u8 as BoundedInt>::into_inner
%% fn <u8 as BoundedInt>::as_ref
%% fn <u8 as BoundedInt>::checked_add
%% fn <u8 as BoundedInt>::checked_sub
%% ghost impl <u16 as BoundedInt>
    open spec fn v(self) -> int { self as int }
    open spec fn lo() -> int { u16::MIN as int }
    open spec fn hi() -> int { u16::MAX as int }
    open spec fn wf(self) -> bool { u16::MIN as int <= self as int <= u16::MAX as int }
    open spec fn inn(i: u16) -> int { i as int }
    proof fn laws() {}
%% fn <u16 as BoundedInt>::MIN
%% fn <u16 as BoundedInt>::MAX
%% fn <u16 as BoundedInt>::into_inner
%% fn <u16 as BoundedInt>::as_ref
%% fn <u16 as BoundedInt>::checked_add
%% fn <u16 as BoundedInt>::checked_sub
%% ghost impl <u32 as BoundedInt>
    open spec fn v(self) -> int { self as int }
    open spec fn lo() -> int { u32::MIN as int }
    open spec fn hi() -> int { u32::MAX as int }
    open spec fn wf(self) -> bool { u32::MIN as int <= self as int <= u32::MAX as int }
    open spec fn inn(i: u32) -> int { i as int }
    proof fn laws() {}
%% fn <u32 as BoundedInt>::MIN
%% fn <u32 as BoundedInt>::MAX
%% fn <u32 as BoundedInt>::into_inner
%% fn <u32 as BoundedInt>::as_ref
%% fn <u32 as BoundedInt>::checked_add
%% fn <u32 as BoundedInt>::checked_sub
%% ghost impl <u64 as BoundedInt>
    open spec fn v(self) -> int { self as int }
    open spec fn lo() -> int { u64::MIN as int }
    open spec fn hi() -> int { u64::MAX as int }
    open spec fn wf(self) -> bool { u64::MIN as int <= self as int <= u64::MAX as int }
    open spec fn inn(i: u64) -> int { i as int }
    proof fn laws() {}
%% fn <u64 as BoundedInt>::MIN
%% fn <u64 as BoundedInt>::MAX
%% fn <u64 as BoundedInt>::into_inner
%% fn <u64 as BoundedInt>::as_ref
%% fn <u64 as BoundedInt>::checked_add
%% fn <u64 as BoundedInt>::checked_sub
%% ghost impl <u128 as BoundedInt>
    open spec fn v(self) -> int { self as int }
    open spec fn lo() -> int { u128::MIN as int }
    open spec fn hi() -> int { u128::MAX as int }
    open spec fn wf(self) -> bool { u128::MIN as int <= self as int <= u128::MAX as int }
    open spec fn inn(i: u128) -> int { i as int }
    proof fn laws() {}
%% fn <u128 as BoundedInt>::MIN
%% fn <u128 as BoundedInt>::MAX
%% fn <u128 as BoundedInt>::into_inner
%% fn <u128 as BoundedInt>::as_ref
%% fn <u128 as BoundedInt>::checked_add
%% fn <u128 as BoundedInt>::checked_sub
%% ghost impl <isize as BoundedInt>
    open spec fn v(self) -> int { self as int }
    open spec fn lo() -> int { isize::MIN as int }
    open spec fn hi() -> int { isize::MAX as int }
    open spec fn wf(self) -> bool { isize::MIN as int <= self as int <= isize::MAX as int }
    open spec fn inn(i: isize) -> int { i as int }
    proof fn laws() {}
%% fn <isize as BoundedInt>::MIN
%% fn <isize as BoundedInt>::MAX
%% fn <isize as BoundedInt>::into_inner
%% fn <isize as BoundedInt>::as_ref
%% fn <isize as BoundedInt>::checked_add
%% fn <isize as BoundedInt>::checked_sub
%% ghost impl <i8 as BoundedInt>
    open spec fn v(self) -> int { self as int }
    open spec fn lo() -> int { i8::MIN as int }
    open spec fn hi() -> int { i8::MAX as int }
    open spec fn wf(self) -> bool { i8::MIN as int <= self as int <= i8::MAX as int }
    open spec fn inn(i: i8) -> int { i as int }
    proof fn laws() {}
%% fn <i8 as BoundedInt>::MIN
%% fn <i8 as BoundedInt>::MAX
%% fn <i8 as BoundedInt>::into_inner
%% fn <i8 as BoundedInt>::as_ref
%% fn <i8 as BoundedInt>::checked_add
%% fn <i8 as BoundedInt>::checked_sub
%% ghost impl <i16 as BoundedInt>
    open spec fn v(self) -> int { self as int }
    open spec fn lo() -> int { i16::MIN as int }
    open spec fn hi() -> int { i16::MAX as int }
    open spec fn wf(self) -> bool { i16::MIN as int <= self as int <= i16::MAX as int }
    open spec fn inn(i: i16) -> int { i as int }
    proof fn laws() {}
%% fn <i16 as BoundedInt>::MIN
%% fn <i16 as BoundedInt>::MAX
%% fn <i16 as BoundedInt>::into_inner
%% fn <i16 as BoundedInt>::as_ref
%% fn <i16 as BoundedInt>::checked_add
%% fn <i16 as BoundedInt>::checked_sub
%% ghost impl <i32 as BoundedInt>
    open spec fn v(self) -> int { self as int }
    open spec fn lo() -> int { i32::MIN as int }
    open spec fn hi() -> int { i32::MAX as int }
    open spec fn wf(self) -> bool { i32::MIN as int <= self as int <= i32::MAX as int }
    open spec fn inn(i: i32) -> int { i as int }
    proof fn laws() {}
%% fn <i32 as BoundedInt>::MIN
%% fn <i32 as BoundedInt>::MAX
%% fn <i32 as BoundedInt>::into_inner
%% fn <i32 as BoundedInt>::as_ref
%% fn <i32 as BoundedInt>::checked_add
%% fn <i32 as BoundedInt>::checked_sub
%% ghost impl <i64 as BoundedInt>
    open spec fn v(self) -> int { self as int }
    open spec fn lo() -> int { i64::MIN as int }
    open spec fn hi() -> int { i64::MAX as int }
    open spec fn wf(self) -> bool { i64::MIN as int <= self as int <= i64::MAX as int }
    open spec fn inn(i: i64) -> int { i as int }
    proof fn laws() {}
%% fn <i64 as BoundedInt>::MIN
%% fn <i64 as BoundedInt>::MAX
%% fn <i64 as BoundedInt>::into_inner
%% fn <i64 as BoundedInt>::as_ref
%% fn <i64 as BoundedInt>::checked_add
%% fn <i64 as BoundedInt>::checked_sub
%% ghost impl <i128 as BoundedInt>
    open spec fn v(self) -> int { self as int }
    open spec fn lo() -> int { i128::MIN as int }
    open spec fn hi() -> int { i128::MAX as int }
    open spec fn wf(self) -> bool { i128::MIN as int <= self as int <= i128::MAX as int }
    open spec fn inn(i: i128) -> int { i as int }
    proof fn laws() {}
%% fn <i128 as BoundedInt>::MIN
%% fn <i128 as BoundedInt>::MAX
%% fn <i128 as BoundedInt>::into_inner
%% fn <i128 as BoundedInt>::as_ref
%% fn <i128 as BoundedInt>::checked_add
%% fn <i128 as BoundedInt>::checked_sub
%% foreach N T = BoundedU8 u8, BoundedU16 u16, BoundedU32 u32, BoundedU64 u64, BoundedU128 u128, BoundedIsize isize, BoundedI8 i8, BoundedI16 i16, BoundedI32 i32, BoundedI64 i64, BoundedI128 i128
%% derive @N@ : PartialEq Eq PartialOrd Ord
%% ghost impl <@N@ as BoundedInt>
    open spec fn v(self) -> int { self.0 as int }
    open spec fn lo() -> int { MIN as int }
    open spec fn hi() -> int { MAX as int }
    open spec fn wf(self) -> bool { MIN as int <= self.0 as int <= MAX as int }
    open spec fn inn(i: @T@) -> int { i as int }
    proof fn laws() {}
%% fn @N@::new :: ret=r
    ensures match r { Ok(x) => x.0 == v && MIN <= x.0 <= MAX, Err(e) => e == Error::OutOfBounds && !(MIN <= v <= MAX) },
%% fn @N@::new_unwrap :: ret=r ;; panic=!(MIN <= v <= MAX)
    requires allow_panic() || MIN <= v <= MAX,
    ensures r.0 == v, MIN <= r.0 <= MAX,
%% fn @N@::new_static :: ret=r ;; panic=!(MIN <= V <= MAX)
    requires allow_panic() || MIN <= V <= MAX,
    ensures r.0 == V, MIN <= r.0 <= MAX,
%% fn @N@::into_inner :: ret=r
    ensures r == self.0,
%% fn <@N@ as BoundedInt>::MIN
% start
    assume(allow_panic()); // VX-CONST: evaluated at compile time, where a panic is a compilation error
%% fn <@N@ as BoundedInt>::MAX
% start
    assume(allow_panic()); // VX-CONST: evaluated at compile time, where a panic is a compilation error
%% fn <@N@ as BoundedInt>::into_inner
%% fn <@N@ as BoundedInt>::as_ref
%% fn <@N@ as BoundedInt>::checked_add
%% fn <@N@ as BoundedInt>::checked_sub
%% fn <@N@ as BoundedInt>::one
% resolve true.into() => Self::vx_from_bool(true)
%% fn <@N@ as BoundedInt>::inc
%% fn <@N@ as BoundedInt>::dec
%% inherent <@N@ as From<bool>>
%% fn <@N@ as From<bool>>::from :: ret=r ;; rename=vx_from_bool
    requires allow_panic() || MIN <= (if value { 1int } else { 0int }) <= MAX,
    ensures r.0 == (if value { 1int } else { 0int }), MIN <= r.0 <= MAX,
%% ghost impl <@N@ as Default>
%% fn <@N@ as Default>::default :: ret=r
    ensures MIN <= r.0 <= MAX,
        MIN <= 0 <= MAX ==> r.0 == 0,
        0 < MIN ==> r.0 == MIN,
        MAX < 0 ==> r.0 == MAX,
%% fn <@N@ as PartialEq>::eq :: ret=r
    ensures r == (self.0 == other.0),
%% fn <@N@ as PartialOrd>::partial_cmp :: ret=r
    ensures r == Some(cmp_int(self.0 as int, other.0 as int)),
%% fn <@N@ as Ord>::cmp :: ret=r
    ensures r == cmp_int(self.0 as int, other.0 as int),
%% fn <@T@ as From<@N@>>::from :: ret=r
    ensures r == value.0,
%% fn <usize as TryFrom<@N@>>::try_from :: ret=r
    ensures match r { Ok(x) => x as int == value.0 as int, Err(_) => !(0 <= value.0 <= usize::MAX) },
%% fn <@N@ as TryFrom<usize>>::try_from :: ret=r
    ensures match r { Ok(x) => x.0 as int == value as int && MIN <= x.0 <= MAX, Err(e) => e == Error::OutOfBounds && !(MIN <= value <= MAX) },
%% fn <@N@ as TryFrom<u8>>::try_from :: ret=r
    ensures match r { Ok(x) => x.0 as int == value as int && MIN <= x.0 <= MAX, Err(e) => e == Error::OutOfBounds && !(MIN <= value <= MAX) },
%% fn <@N@ as TryFrom<u16>>::try_from :: ret=r
    ensures match r { Ok(x) => x.0 as int == value as int && MIN <= x.0 <= MAX, Err(e) => e == Error::OutOfBounds && !(MIN <= value <= MAX) },
%% fn <@N@ as TryFrom<u32>>::try_from :: ret=r
    ensures match r { Ok(x) => x.0 as int == value as int && MIN <= x.0 <= MAX, Err(e) => e == Error::OutOfBounds && !(MIN <= value <= MAX) },
%% fn <@N@ as TryFrom<u64>>::try_from :: ret=r
    ensures match r { Ok(x) => x.0 as int == value as int && MIN <= x.0 <= MAX, Err(e) => e == Error::OutOfBounds && !(MIN <= value <= MAX) },
%% fn <@N@ as TryFrom<u128>>::try_from :: ret=r
    ensures match r { Ok(x) => x.0 as int == value as int && MIN <= x.0 <= MAX, Err(e) => e == Error::OutOfBounds && !(MIN <= value <= MAX) },
%% fn <@N@ as TryFrom<isize>>::try_from :: ret=r
    ensures match r { Ok(x) => x.0 as int == value as int && MIN <= x.0 <= MAX, Err(e) => e == Error::OutOfBounds && !(MIN <= value <= MAX) },
%% fn <@N@ as TryFrom<i8>>::try_from :: ret=r
    ensures match r { Ok(x) => x.0 as int == value as int && MIN <= x.0 <= MAX, Err(e) => e == Error::OutOfBounds && !(MIN <= value <= MAX) },
%% fn <@N@ as TryFrom<i16>>::try_from :: ret=r
    ensures match r { Ok(x) => x.0 as int == value as int && MIN <= x.0 <= MAX, Err(e) => e == Error::OutOfBounds && !(MIN <= value <= MAX) },
%% fn <@N@ as TryFrom<i32>>::try_from :: ret=r
    ensures match r { Ok(x) => x.0 as int == value as int && MIN <= x.0 <= MAX, Err(e) => e == Error::OutOfBounds && !(MIN <= value <= MAX) },
%% fn <@N@ as TryFrom<i64>>::try_from :: ret=r
    ensures match r { Ok(x) => x.0 as int == value as int && MIN <= x.0 <= MAX, Err(e) => e == Error::OutOfBounds && !(MIN <= value <= MAX) },
%% fn <@N@ as TryFrom<i128>>::try_from :: ret=r
    ensures match r { Ok(x) => x.0 as int == value as int && MIN <= x.0 <= MAX, Err(e) => e == Error::OutOfBounds && !(MIN <= value <= MAX) },
%% postlude
impl<const MIN: @T@, const MAX: @T@> PartialEqSpecImpl for @N@<MIN, MAX> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Self) -> bool { self.0 == other.0 }
}
impl<const MIN: @T@, const MAX: @T@> PartialOrdSpecImpl for @N@<MIN, MAX> {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, other: &Self) -> Option<core::cmp::Ordering> { Some(cmp_int(self.0 as int, other.0 as int)) }
}
impl<const MIN: @T@, const MAX: @T@> OrdSpecImpl for @N@<MIN, MAX> {
    open spec fn obeys_cmp_spec() -> bool { true }
    open spec fn cmp_spec(&self, other: &Self) -> core::cmp::Ordering { cmp_int(self.0 as int, other.0 as int) }
}
impl<const MIN: @T@, const MAX: @T@> FromSpecImpl<@N@<MIN, MAX>> for @T@ {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(value: @N@<MIN, MAX>) -> @T@ { value.0 }
}
impl<const MIN: @T@, const MAX: @T@> TryFromSpecImpl<@N@<MIN, MAX>> for usize {
    open spec fn obeys_try_from_spec() -> bool { true }
    open spec fn try_from_spec(value: @N@<MIN, MAX>) -> Result<usize, Error> { if 0 <= value.0 <= usize::MAX { Ok(value.0 as usize) } else { Err(Error::OutOfBounds) } }
}
impl<const MIN: @T@, const MAX: @T@> TryFromSpecImpl<usize> for @N@<MIN, MAX> {
    open spec fn obeys_try_from_spec() -> bool { true }
    open spec fn try_from_spec(value: usize) -> Result<Self, Error> { if MIN <= value <= MAX { Ok(@N@(value as @T@)) } else { Err(Error::OutOfBounds) } }
}
impl<const MIN: @T@, const MAX: @T@> TryFromSpecImpl<u8> for @N@<MIN, MAX> {
    open spec fn obeys_try_from_spec() -> bool { true }
    open spec fn try_from_spec(value: u8) -> Result<Self, Error> { if MIN <= value <= MAX { Ok(@N@(value as @T@)) } else { Err(Error::OutOfBounds) } }
}
impl<const MIN: @T@, const MAX: @T@> TryFromSpecImpl<u16> for @N@<MIN, MAX> {
    open spec fn obeys_try_from_spec() -> bool { true }
    open spec fn try_from_spec(value: u16) -> Result<Self, Error> { if MIN <= value <= MAX { Ok(@N@(value as @T@)) } else { Err(Error::OutOfBounds) } }
}
impl<const MIN: @T@, const MAX: @T@> TryFromSpecImpl<u32> for @N@<MIN, MAX> {
    open spec fn obeys_try_from_spec() -> bool { true }
    open spec fn try_from_spec(value: u32) -> Result<Self, Error> { if MIN <= value <= MAX { Ok(@N@(value as @T@)) } else { Err(Error::OutOfBounds) } }
}
impl<const MIN: @T@, const MAX: @T@> TryFromSpecImpl<u64> for @N@<MIN, MAX> {
    open spec fn obeys_try_from_spec() -> bool { true }
    open spec fn try_from_spec(value: u64) -> Result<Self, Error> { if MIN <= value <= MAX { Ok(@N@(value as @T@)) } else { Err(Error::OutOfBounds) } }
}
impl<const MIN: @T@, const MAX: @T@> TryFromSpecImpl<u128> for @N@<MIN, MAX> {
    open spec fn obeys_try_from_spec() -> bool { true }
    open spec fn try_from_spec(value: u128) -> Result<Self, Error> { if MIN <= value <= MAX { Ok(@N@(value as @T@)) } else { Err(Error::OutOfBounds) } }
}
impl<const MIN: @T@, const MAX: @T@> TryFromSpecImpl<isize> for @N@<MIN, MAX> {
    open spec fn obeys_try_from_spec() -> bool { true }
    open spec fn try_from_spec(value: isize) -> Result<Self, Error> { if MIN <= value <= MAX { Ok(@N@(value as @T@)) } else { Err(Error::OutOfBounds) } }
}
impl<const MIN: @T@, const MAX: @T@> TryFromSpecImpl<i8> for @N@<MIN, MAX> {
    open spec fn obeys_try_from_spec() -> bool { true }
    open spec fn try_from_spec(value: i8) -> Result<Self, Error> { if MIN <= value <= MAX { Ok(@N@(value as @T@)) } else { Err(Error::OutOfBounds) } }
}
impl<const MIN: @T@, const MAX: @T@> TryFromSpecImpl<i16> for @N@<MIN, MAX> {
    open spec fn obeys_try_from_spec() -> bool { true }
    open spec fn try_from_spec(value: i16) -> Result<Self, Error> { if MIN <= value <= MAX { Ok(@N@(value as @T@)) } else { Err(Error::OutOfBounds) } }
}
impl<const MIN: @T@, const MAX: @T@> TryFromSpecImpl<i32> for @N@<MIN, MAX> {
    open spec fn obeys_try_from_spec() -> bool { true }
    open spec fn try_from_spec(value: i32) -> Result<Self, Error> { if MIN <= value <= MAX { Ok(@N@(value as @T@)) } else { Err(Error::OutOfBounds) } }
}
impl<const MIN: @T@, const MAX: @T@> TryFromSpecImpl<i64> for @N@<MIN, MAX> {
    open spec fn obeys_try_from_spec() -> bool { true }
    open spec fn try_from_spec(value: i64) -> Result<Self, Error> { if MIN <= value <= MAX { Ok(@N@(value as @T@)) } else { Err(Error::OutOfBounds) } }
}
impl<const MIN: @T@, const MAX: @T@> TryFromSpecImpl<i128> for @N@<MIN, MAX> {
    open spec fn obeys_try_from_spec() -> bool { true }
    open spec fn try_from_spec(value: i128) -> Result<Self, Error> { if MIN <= value <= MAX { Ok(@N@(value as @T@)) } else { Err(Error::OutOfBounds) } }
}
%% endforeach
%% ghost impl BoundedIntIterator
    /// both ends present and ordered, or exhausted
    pub open spec fn wf(self) -> bool {
        match (self.start, self.end) {
            (Some(s), Some(e)) => s.wf() && e.wf() && s.v() <= e.v(),
            (None, None) => true,
            _ => false,
        }
    }
    /// the values still to be yielded, from the front
    pub open spec fn rem(self) -> Seq<int> {
        match (self.start, self.end) {
            (Some(s), Some(e)) => int_range(s.v(), e.v()),
            _ => Seq::empty(),
        }
    }
%% fn BoundedIntIterator::new :: ret=r
    ensures r.start == Some(start), r.end == Some(end),
%% fn <BoundedIntIterator as Iterator>::next :: ret=r
    requires old(self).wf(),
    ensures final(self).wf(),
        match r {
            Some(x) => x.wf() && old(self).rem().len() > 0 && x.v() == old(self).rem()[0]
                && final(self).rem() =~= old(self).rem().drop_first(),
            None => old(self).rem().len() == 0 && final(self).rem().len() == 0,
        },
% start
    proof { T::laws(); }
%% fn <BoundedIntIterator as DoubleEndedIterator>::next_back :: ret=r
    requires old(self).wf(),
    ensures final(self).wf(),
        match r {
            Some(x) => x.wf() && old(self).rem().len() > 0 && x.v() == old(self).rem().last()
                && final(self).rem() =~= old(self).rem().drop_last(),
            None => old(self).rem().len() == 0 && final(self).rem().len() == 0,
        },
% start
    proof { T::laws(); }
