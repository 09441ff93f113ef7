%% module vxlib
%% prelude
// ---- ghost vocabulary and trusted contracts of the standard library ----
pub open spec fn cmp_int(a: int, b: int) -> core::cmp::Ordering {
    if a < b { core::cmp::Ordering::Less } else if a == b { core::cmp::Ordering::Equal } else { core::cmp::Ordering::Greater }
}
pub open spec fn abs_int(a: int) -> int { if a < 0 { -a } else { a } }
pub open spec fn max_int(a: int, b: int) -> int { if a < b { b } else { a } }
pub open spec fn min_int(a: int, b: int) -> int { if a < b { a } else { b } }

/// Nothing is known about this: a function that requires `allow_panic() || C` may panic, but only when !C,
/// and a caller that must not panic has to establish C.
pub uninterp spec fn allow_panic() -> bool;

/// Every panic in the extracted code is a call of this function; `c` is the condition under which
/// the contract of the calling function lets it panic (false when it must not).
#[verifier::external_body]
pub fn vx_panic(c: Ghost<bool>) -> !
    requires allow_panic(), c@,
    ensures false,
{ panic!() }

/// a setting of the build: any value
#[verifier::external_body]
pub fn vx_any() -> bool
{ true }

pub mod convax {
    use vstd::prelude::*;
    // core's `impl PartialEq for [T; N]` compares element by element
    #[verifier::external_body]
    pub proof fn axiom_array_eq<const N: usize>()
        ensures <[u32; N] as vstd::std_specs::cmp::PartialEqSpec>::obeys_eq_spec(),
            forall|a: [u32; N], b: [u32; N]| #[trigger] vstd::std_specs::cmp::PartialEqSpec::eq_spec(&a, &b) == (a@ == b@),
    {}
    // core's reflexive `impl<T, U: Into<T>> TryFrom<U> for T` at U = T
    #[verifier::external_body]
    pub broadcast proof fn axiom_try_from_refl<T>(x: T, r: Result<T, <T as TryFrom<T>>::Error>)
        ensures #[trigger] call_ensures(<T as TryFrom<T>>::try_from, (x,), r) ==> (r matches Ok(y) && y == x)
    {}
    // core's blanket `impl<T, U: Into<T>> TryFrom<U> for T`, through `impl<T, U: From<T>> Into<U> for T`
    #[verifier::external_body]
    pub broadcast proof fn axiom_try_from_blanket<T: core::convert::From<U>, U>(x: U, r: Result<T, <T as TryFrom<U>>::Error>)
        ensures #[trigger] call_ensures(<T as TryFrom<U>>::try_from, (x,), r) ==> (r matches Ok(y) && call_ensures(<T as core::convert::From<U>>::from, (x,), y))
    {}
    #[verifier::external_body]
    pub broadcast proof fn axiom_try_into_blanket<T: core::convert::From<U>, U>(x: U, r: Result<T, <U as TryInto<T>>::Error>)
        ensures #[trigger] call_ensures(<U as TryInto<T>>::try_into, (x,), r) ==> (r matches Ok(y) && call_ensures(<T as core::convert::From<U>>::from, (x,), y))
    {}
    #[verifier::external_body]
    pub broadcast proof fn axiom_try_into_refl<T>(x: T, r: Result<T, <T as TryInto<T>>::Error>)
        ensures #[trigger] call_ensures(<T as TryInto<T>>::try_into, (x,), r) ==> (r matches Ok(y) && y == x)
    {}
}
// conversions of core that vstd has no contract for
pub assume_specification [ <i8 as TryFrom<u8>>::try_from ](x: u8) -> (r: Result<i8, <i8 as TryFrom<u8>>::Error>)
    ensures match r { Ok(y) => y as int == x as int, Err(_) => x > i8::MAX };
pub assume_specification [ <i16 as TryFrom<u16>>::try_from ](x: u16) -> (r: Result<i16, <i16 as TryFrom<u16>>::Error>)
    ensures match r { Ok(y) => y as int == x as int, Err(_) => x > i16::MAX };
pub assume_specification [ <isize as TryFrom<u16>>::try_from ](x: u16) -> (r: Result<isize, <isize as TryFrom<u16>>::Error>)
    ensures match r { Ok(y) => y as int == x as int, Err(_) => x > isize::MAX };
pub assume_specification [ <i32 as TryFrom<u32>>::try_from ](x: u32) -> (r: Result<i32, <i32 as TryFrom<u32>>::Error>)
    ensures match r { Ok(y) => y as int == x as int, Err(_) => x > i32::MAX };
pub assume_specification [ <i64 as TryFrom<u64>>::try_from ](x: u64) -> (r: Result<i64, <i64 as TryFrom<u64>>::Error>)
    ensures match r { Ok(y) => y as int == x as int, Err(_) => x > i64::MAX };
pub assume_specification [ <i128 as TryFrom<u128>>::try_from ](x: u128) -> (r: Result<i128, <i128 as TryFrom<u128>>::Error>)
    ensures match r { Ok(y) => y as int == x as int, Err(_) => x > i128::MAX };
pub assume_specification [ <i128 as TryFrom<usize>>::try_from ](x: usize) -> (r: Result<i128, <i128 as TryFrom<usize>>::Error>)
    ensures match r { Ok(y) => y as int == x as int, Err(_) => x > i128::MAX };
pub assume_specification [ <isize as TryFrom<usize>>::try_from ](x: usize) -> (r: Result<isize, <isize as TryFrom<usize>>::Error>)
    ensures match r { Ok(y) => y as int == x as int, Err(_) => x > isize::MAX };
pub assume_specification [ <i16 as core::convert::From<u8>>::from ](x: u8) -> (r: i16) ensures r as int == x as int;
pub assume_specification [ <i32 as core::convert::From<u8>>::from ](x: u8) -> (r: i32) ensures r as int == x as int;
pub assume_specification [ <i64 as core::convert::From<u8>>::from ](x: u8) -> (r: i64) ensures r as int == x as int;
pub assume_specification [ <i128 as core::convert::From<u8>>::from ](x: u8) -> (r: i128) ensures r as int == x as int;
pub assume_specification [ <i32 as core::convert::From<u16>>::from ](x: u16) -> (r: i32) ensures r as int == x as int;
pub assume_specification [ <i64 as core::convert::From<u16>>::from ](x: u16) -> (r: i64) ensures r as int == x as int;
pub assume_specification [ <i128 as core::convert::From<u16>>::from ](x: u16) -> (r: i128) ensures r as int == x as int;
pub assume_specification [ <i64 as core::convert::From<u32>>::from ](x: u32) -> (r: i64) ensures r as int == x as int;
pub assume_specification [ <i128 as core::convert::From<u32>>::from ](x: u32) -> (r: i128) ensures r as int == x as int;
pub assume_specification [ <i128 as core::convert::From<u64>>::from ](x: u64) -> (r: i128) ensures r as int == x as int;
pub assume_specification [ <isize as core::convert::From<u8>>::from ](x: u8) -> (r: isize) ensures r as int == x as int;
pub assume_specification [ <u8 as core::convert::From<bool>>::from ](x: bool) -> (r: u8) ensures r == (if x { 1int } else { 0int });
pub assume_specification [ <u16 as core::convert::From<bool>>::from ](x: bool) -> (r: u16) ensures r == (if x { 1int } else { 0int });
pub assume_specification [ <u32 as core::convert::From<bool>>::from ](x: bool) -> (r: u32) ensures r == (if x { 1int } else { 0int });
pub assume_specification [ <u64 as core::convert::From<bool>>::from ](x: bool) -> (r: u64) ensures r == (if x { 1int } else { 0int });
pub assume_specification [ <u128 as core::convert::From<bool>>::from ](x: bool) -> (r: u128) ensures r == (if x { 1int } else { 0int });
pub assume_specification [ <usize as core::convert::From<bool>>::from ](x: bool) -> (r: usize) ensures r == (if x { 1int } else { 0int });
pub assume_specification [ <i8 as core::convert::From<bool>>::from ](x: bool) -> (r: i8) ensures r == (if x { 1int } else { 0int });
pub assume_specification [ <i16 as core::convert::From<bool>>::from ](x: bool) -> (r: i16) ensures r == (if x { 1int } else { 0int });
pub assume_specification [ <i32 as core::convert::From<bool>>::from ](x: bool) -> (r: i32) ensures r == (if x { 1int } else { 0int });
pub assume_specification [ <i64 as core::convert::From<bool>>::from ](x: bool) -> (r: i64) ensures r == (if x { 1int } else { 0int });
pub assume_specification [ <i128 as core::convert::From<bool>>::from ](x: bool) -> (r: i128) ensures r == (if x { 1int } else { 0int });
pub assume_specification [ <isize as core::convert::From<bool>>::from ](x: bool) -> (r: isize) ensures r == (if x { 1int } else { 0int });
pub assume_specification<T, A: std::alloc::Allocator>[<Vec<T, A> as core::convert::From<std::collections::VecDeque<T, A>>>::from](x: std::collections::VecDeque<T, A>) -> (r: Vec<T, A>)
    ensures r@ == x@;
pub assume_specification<T: Default>[core::mem::take::<T>](dest: &mut T) -> (r: T)
    ensures r == *old(dest), call_ensures(T::default, (), *final(dest));

pub assume_specification<T>[core::mem::replace::<T>](dest: &mut T, src: T) -> (r: T)
    ensures r == *old(dest), *final(dest) == src;

/// arithmetic by powers of two and by bits
pub proof fn lemma_std_bits()
    ensures
        forall|x: usize| #[trigger] (x & 7) == x % 8, forall|x: usize| #[trigger] (x & 31) == x % 32, forall|x: usize| #[trigger] (x >> 5) == x / 32,
        forall|x: u8| #[trigger] (x & 7) == x % 8, forall|x: u32| #[trigger] (x & 31) == x % 32,
        forall|x: u32| #[trigger] (0xffffffffu32 & x) == x, forall|x: u32| #[trigger] (x & 0xffffffffu32) == x, forall|x: u32| #[trigger] (0u32 | x) == x,
{
    assert(forall|x: usize| #[trigger] (x & 7) == x % 8) by (bit_vector);
    assert(forall|x: usize| #[trigger] (x & 31) == x % 32) by (bit_vector);
    assert(forall|x: usize| #[trigger] (x >> 5) == x / 32) by (bit_vector);
    assert(forall|x: u8| #[trigger] (x & 7) == x % 8) by (bit_vector);
    assert(forall|x: u32| #[trigger] (x & 31) == x % 32) by (bit_vector);
    assert(forall|x: u32| #[trigger] (0xffffffffu32 & x) == x) by (bit_vector);
    assert(forall|x: u32| #[trigger] (x & 0xffffffffu32) == x) by (bit_vector);
    assert(forall|x: u32| #[trigger] (0u32 | x) == x) by (bit_vector);
}

/// A finite iterator argument: what the extracted code sees of `Iterator` and `IntoIterator` parameters.
pub trait SeqIter: Sized {
    type Item;
    /// the items still to come
    spec fn rest(self) -> Seq<Self::Item>;
    fn next(&mut self) -> (r: Option<Self::Item>)
        ensures match r {
            Some(x) => old(self).rest().len() > 0 && x == old(self).rest()[0] && final(self).rest() == old(self).rest().drop_first(),
            None => old(self).rest().len() == 0 && final(self).rest().len() == 0,
        };
    fn vx_into_iter(self) -> (r: Self)
        ensures r == self
    { self }
}
pub assume_specification<T>[ <[T]>::swap ](s: &mut [T], a: usize, b: usize)
    requires a < old(s)@.len(), b < old(s)@.len(),
    ensures final(s)@ == old(s)@.update(a as int, old(s)@[b as int]).update(b as int, old(s)@[a as int]);

// contracts of core for what a change may call; each is emitted only when the sources name the function
// VX-IF reverse
pub assume_specification<T>[ <[T]>::reverse ](s: &mut [T])
    ensures final(s)@ == old(s)@.reverse();
pub assume_specification[ core::cmp::Ordering::reverse ](a: core::cmp::Ordering) -> (r: core::cmp::Ordering)
    ensures r == (match a { core::cmp::Ordering::Less => core::cmp::Ordering::Greater, core::cmp::Ordering::Greater => core::cmp::Ordering::Less, e => e });
// VX-FI
// VX-IF abs_diff
pub assume_specification[ u8::abs_diff ](a: u8, b: u8) -> (r: u8)
    ensures r as int == abs_int(a as int - b as int);
pub assume_specification[ u16::abs_diff ](a: u16, b: u16) -> (r: u16)
    ensures r as int == abs_int(a as int - b as int);
pub assume_specification[ u32::abs_diff ](a: u32, b: u32) -> (r: u32)
    ensures r as int == abs_int(a as int - b as int);
pub assume_specification[ u64::abs_diff ](a: u64, b: u64) -> (r: u64)
    ensures r as int == abs_int(a as int - b as int);
pub assume_specification[ u128::abs_diff ](a: u128, b: u128) -> (r: u128)
    ensures r as int == abs_int(a as int - b as int);
pub assume_specification[ usize::abs_diff ](a: usize, b: usize) -> (r: usize)
    ensures r as int == abs_int(a as int - b as int);
pub assume_specification[ i8::abs_diff ](a: i8, b: i8) -> (r: u8)
    ensures r as int == abs_int(a as int - b as int);
pub assume_specification[ i16::abs_diff ](a: i16, b: i16) -> (r: u16)
    ensures r as int == abs_int(a as int - b as int);
pub assume_specification[ i32::abs_diff ](a: i32, b: i32) -> (r: u32)
    ensures r as int == abs_int(a as int - b as int);
pub assume_specification[ i64::abs_diff ](a: i64, b: i64) -> (r: u64)
    ensures r as int == abs_int(a as int - b as int);
pub assume_specification[ i128::abs_diff ](a: i128, b: i128) -> (r: u128)
    ensures r as int == abs_int(a as int - b as int);
pub assume_specification[ isize::abs_diff ](a: isize, b: isize) -> (r: usize)
    ensures r as int == abs_int(a as int - b as int);
// VX-FI
// VX-IF rem_euclid
pub assume_specification[ u8::rem_euclid ](a: u8, b: u8) -> (r: u8)
    requires b != 0, 
    ensures r as int == a as int % b as int;
pub assume_specification[ u16::rem_euclid ](a: u16, b: u16) -> (r: u16)
    requires b != 0, 
    ensures r as int == a as int % b as int;
pub assume_specification[ u32::rem_euclid ](a: u32, b: u32) -> (r: u32)
    requires b != 0, 
    ensures r as int == a as int % b as int;
pub assume_specification[ u64::rem_euclid ](a: u64, b: u64) -> (r: u64)
    requires b != 0, 
    ensures r as int == a as int % b as int;
pub assume_specification[ u128::rem_euclid ](a: u128, b: u128) -> (r: u128)
    requires b != 0, 
    ensures r as int == a as int % b as int;
pub assume_specification[ usize::rem_euclid ](a: usize, b: usize) -> (r: usize)
    requires b != 0, 
    ensures r as int == a as int % b as int;
pub assume_specification[ i8::rem_euclid ](a: i8, b: i8) -> (r: i8)
    requires b != 0, !(a == i8::MIN && b == -1),
    ensures r as int == a as int % b as int;
pub assume_specification[ i16::rem_euclid ](a: i16, b: i16) -> (r: i16)
    requires b != 0, !(a == i16::MIN && b == -1),
    ensures r as int == a as int % b as int;
pub assume_specification[ i32::rem_euclid ](a: i32, b: i32) -> (r: i32)
    requires b != 0, !(a == i32::MIN && b == -1),
    ensures r as int == a as int % b as int;
pub assume_specification[ i64::rem_euclid ](a: i64, b: i64) -> (r: i64)
    requires b != 0, !(a == i64::MIN && b == -1),
    ensures r as int == a as int % b as int;
pub assume_specification[ i128::rem_euclid ](a: i128, b: i128) -> (r: i128)
    requires b != 0, !(a == i128::MIN && b == -1),
    ensures r as int == a as int % b as int;
pub assume_specification[ isize::rem_euclid ](a: isize, b: isize) -> (r: isize)
    requires b != 0, !(a == isize::MIN && b == -1),
    ensures r as int == a as int % b as int;
// VX-FI
// VX-IF div_euclid
pub assume_specification[ u8::div_euclid ](a: u8, b: u8) -> (r: u8)
    requires b != 0, 
    ensures r as int == a as int / b as int;
pub assume_specification[ u16::div_euclid ](a: u16, b: u16) -> (r: u16)
    requires b != 0, 
    ensures r as int == a as int / b as int;
pub assume_specification[ u32::div_euclid ](a: u32, b: u32) -> (r: u32)
    requires b != 0, 
    ensures r as int == a as int / b as int;
pub assume_specification[ u64::div_euclid ](a: u64, b: u64) -> (r: u64)
    requires b != 0, 
    ensures r as int == a as int / b as int;
pub assume_specification[ u128::div_euclid ](a: u128, b: u128) -> (r: u128)
    requires b != 0, 
    ensures r as int == a as int / b as int;
pub assume_specification[ usize::div_euclid ](a: usize, b: usize) -> (r: usize)
    requires b != 0, 
    ensures r as int == a as int / b as int;
pub assume_specification[ i8::div_euclid ](a: i8, b: i8) -> (r: i8)
    requires b != 0, !(a == i8::MIN && b == -1),
    ensures r as int == a as int / b as int;
pub assume_specification[ i16::div_euclid ](a: i16, b: i16) -> (r: i16)
    requires b != 0, !(a == i16::MIN && b == -1),
    ensures r as int == a as int / b as int;
pub assume_specification[ i32::div_euclid ](a: i32, b: i32) -> (r: i32)
    requires b != 0, !(a == i32::MIN && b == -1),
    ensures r as int == a as int / b as int;
pub assume_specification[ i64::div_euclid ](a: i64, b: i64) -> (r: i64)
    requires b != 0, !(a == i64::MIN && b == -1),
    ensures r as int == a as int / b as int;
pub assume_specification[ i128::div_euclid ](a: i128, b: i128) -> (r: i128)
    requires b != 0, !(a == i128::MIN && b == -1),
    ensures r as int == a as int / b as int;
pub assume_specification[ isize::div_euclid ](a: isize, b: isize) -> (r: isize)
    requires b != 0, !(a == isize::MIN && b == -1),
    ensures r as int == a as int / b as int;
// VX-FI
// VX-IF min|max
pub assume_specification<T: Ord>[ core::cmp::min::<T> ](a: T, b: T) -> (r: T)
    ensures call_ensures(<T as Ord>::min, (a, b), r);
pub assume_specification<T: Ord>[ core::cmp::max::<T> ](a: T, b: T) -> (r: T)
    ensures call_ensures(<T as Ord>::max, (a, b), r);
// VX-FI
// VX-IF signum
pub assume_specification[ i8::signum ](a: i8) -> (r: i8)
    ensures r == (if a > 0 { 1int } else if a < 0 { -1int } else { 0int });
pub assume_specification[ i16::signum ](a: i16) -> (r: i16)
    ensures r == (if a > 0 { 1int } else if a < 0 { -1int } else { 0int });
pub assume_specification[ i32::signum ](a: i32) -> (r: i32)
    ensures r == (if a > 0 { 1int } else if a < 0 { -1int } else { 0int });
pub assume_specification[ i64::signum ](a: i64) -> (r: i64)
    ensures r == (if a > 0 { 1int } else if a < 0 { -1int } else { 0int });
pub assume_specification[ i128::signum ](a: i128) -> (r: i128)
    ensures r == (if a > 0 { 1int } else if a < 0 { -1int } else { 0int });
pub assume_specification[ isize::signum ](a: isize) -> (r: isize)
    ensures r == (if a > 0 { 1int } else if a < 0 { -1int } else { 0int });
// VX-FI
// VX-IF abs
pub assume_specification[ i8::abs ](a: i8) -> (r: i8)
    requires a != i8::MIN,
    ensures r as int == abs_int(a as int);
pub assume_specification[ i16::abs ](a: i16) -> (r: i16)
    requires a != i16::MIN,
    ensures r as int == abs_int(a as int);
pub assume_specification[ i32::abs ](a: i32) -> (r: i32)
    requires a != i32::MIN,
    ensures r as int == abs_int(a as int);
pub assume_specification[ i64::abs ](a: i64) -> (r: i64)
    requires a != i64::MIN,
    ensures r as int == abs_int(a as int);
pub assume_specification[ i128::abs ](a: i128) -> (r: i128)
    requires a != i128::MIN,
    ensures r as int == abs_int(a as int);
pub assume_specification[ isize::abs ](a: isize) -> (r: isize)
    requires a != isize::MIN,
    ensures r as int == abs_int(a as int);
// VX-FI
// VX-IF unsigned_abs
pub assume_specification[ i8::unsigned_abs ](a: i8) -> (r: u8)
    ensures r as int == abs_int(a as int);
pub assume_specification[ i16::unsigned_abs ](a: i16) -> (r: u16)
    ensures r as int == abs_int(a as int);
pub assume_specification[ i32::unsigned_abs ](a: i32) -> (r: u32)
    ensures r as int == abs_int(a as int);
pub assume_specification[ i64::unsigned_abs ](a: i64) -> (r: u64)
    ensures r as int == abs_int(a as int);
pub assume_specification[ i128::unsigned_abs ](a: i128) -> (r: u128)
    ensures r as int == abs_int(a as int);
pub assume_specification[ isize::unsigned_abs ](a: isize) -> (r: usize)
    ensures r as int == abs_int(a as int);
// VX-FI
// VX-IF checked_neg
pub assume_specification[ i8::checked_neg ](a: i8) -> (r: Option<i8>)
    ensures r == (if a == i8::MIN { None } else { Some((-(a as int)) as i8) });
pub assume_specification[ i16::checked_neg ](a: i16) -> (r: Option<i16>)
    ensures r == (if a == i16::MIN { None } else { Some((-(a as int)) as i16) });
pub assume_specification[ i32::checked_neg ](a: i32) -> (r: Option<i32>)
    ensures r == (if a == i32::MIN { None } else { Some((-(a as int)) as i32) });
pub assume_specification[ i64::checked_neg ](a: i64) -> (r: Option<i64>)
    ensures r == (if a == i64::MIN { None } else { Some((-(a as int)) as i64) });
pub assume_specification[ i128::checked_neg ](a: i128) -> (r: Option<i128>)
    ensures r == (if a == i128::MIN { None } else { Some((-(a as int)) as i128) });
pub assume_specification[ isize::checked_neg ](a: isize) -> (r: Option<isize>)
    ensures r == (if a == isize::MIN { None } else { Some((-(a as int)) as isize) });
// VX-FI
// VX-IF is_positive|is_negative
pub assume_specification[ i8::is_positive ](a: i8) -> (r: bool)
    ensures r == (a > 0);
pub assume_specification[ i8::is_negative ](a: i8) -> (r: bool)
    ensures r == (a < 0);
pub assume_specification[ i16::is_positive ](a: i16) -> (r: bool)
    ensures r == (a > 0);
pub assume_specification[ i16::is_negative ](a: i16) -> (r: bool)
    ensures r == (a < 0);
pub assume_specification[ i32::is_positive ](a: i32) -> (r: bool)
    ensures r == (a > 0);
pub assume_specification[ i32::is_negative ](a: i32) -> (r: bool)
    ensures r == (a < 0);
pub assume_specification[ i64::is_positive ](a: i64) -> (r: bool)
    ensures r == (a > 0);
pub assume_specification[ i64::is_negative ](a: i64) -> (r: bool)
    ensures r == (a < 0);
pub assume_specification[ i128::is_positive ](a: i128) -> (r: bool)
    ensures r == (a > 0);
pub assume_specification[ i128::is_negative ](a: i128) -> (r: bool)
    ensures r == (a < 0);
pub assume_specification[ isize::is_positive ](a: isize) -> (r: bool)
    ensures r == (a > 0);
pub assume_specification[ isize::is_negative ](a: isize) -> (r: bool)
    ensures r == (a < 0);
// VX-FI
// VX-IF overflowing_add
pub assume_specification[ u8::overflowing_add ](a: u8, b: u8) -> (r: (u8, bool))
    ensures r.1 == !(u8::MIN <= a as int + b as int <= u8::MAX), !r.1 ==> r.0 as int == a as int + b as int, r.0 == (a as int + b as int) as u8;
pub assume_specification[ u16::overflowing_add ](a: u16, b: u16) -> (r: (u16, bool))
    ensures r.1 == !(u16::MIN <= a as int + b as int <= u16::MAX), !r.1 ==> r.0 as int == a as int + b as int, r.0 == (a as int + b as int) as u16;
pub assume_specification[ u32::overflowing_add ](a: u32, b: u32) -> (r: (u32, bool))
    ensures r.1 == !(u32::MIN <= a as int + b as int <= u32::MAX), !r.1 ==> r.0 as int == a as int + b as int, r.0 == (a as int + b as int) as u32;
pub assume_specification[ u64::overflowing_add ](a: u64, b: u64) -> (r: (u64, bool))
    ensures r.1 == !(u64::MIN <= a as int + b as int <= u64::MAX), !r.1 ==> r.0 as int == a as int + b as int, r.0 == (a as int + b as int) as u64;
pub assume_specification[ u128::overflowing_add ](a: u128, b: u128) -> (r: (u128, bool))
    ensures r.1 == !(u128::MIN <= a as int + b as int <= u128::MAX), !r.1 ==> r.0 as int == a as int + b as int, r.0 == (a as int + b as int) as u128;
pub assume_specification[ usize::overflowing_add ](a: usize, b: usize) -> (r: (usize, bool))
    ensures r.1 == !(usize::MIN <= a as int + b as int <= usize::MAX), !r.1 ==> r.0 as int == a as int + b as int, r.0 == (a as int + b as int) as usize;
pub assume_specification[ i8::overflowing_add ](a: i8, b: i8) -> (r: (i8, bool))
    ensures r.1 == !(i8::MIN <= a as int + b as int <= i8::MAX), !r.1 ==> r.0 as int == a as int + b as int, r.0 == (a as int + b as int) as i8;
pub assume_specification[ i16::overflowing_add ](a: i16, b: i16) -> (r: (i16, bool))
    ensures r.1 == !(i16::MIN <= a as int + b as int <= i16::MAX), !r.1 ==> r.0 as int == a as int + b as int, r.0 == (a as int + b as int) as i16;
pub assume_specification[ i32::overflowing_add ](a: i32, b: i32) -> (r: (i32, bool))
    ensures r.1 == !(i32::MIN <= a as int + b as int <= i32::MAX), !r.1 ==> r.0 as int == a as int + b as int, r.0 == (a as int + b as int) as i32;
pub assume_specification[ i64::overflowing_add ](a: i64, b: i64) -> (r: (i64, bool))
    ensures r.1 == !(i64::MIN <= a as int + b as int <= i64::MAX), !r.1 ==> r.0 as int == a as int + b as int, r.0 == (a as int + b as int) as i64;
pub assume_specification[ i128::overflowing_add ](a: i128, b: i128) -> (r: (i128, bool))
    ensures r.1 == !(i128::MIN <= a as int + b as int <= i128::MAX), !r.1 ==> r.0 as int == a as int + b as int, r.0 == (a as int + b as int) as i128;
pub assume_specification[ isize::overflowing_add ](a: isize, b: isize) -> (r: (isize, bool))
    ensures r.1 == !(isize::MIN <= a as int + b as int <= isize::MAX), !r.1 ==> r.0 as int == a as int + b as int, r.0 == (a as int + b as int) as isize;
// VX-FI
// VX-IF overflowing_sub
pub assume_specification[ u8::overflowing_sub ](a: u8, b: u8) -> (r: (u8, bool))
    ensures r.1 == !(u8::MIN <= a as int - b as int <= u8::MAX), !r.1 ==> r.0 as int == a as int - b as int, r.0 == (a as int - b as int) as u8;
pub assume_specification[ u16::overflowing_sub ](a: u16, b: u16) -> (r: (u16, bool))
    ensures r.1 == !(u16::MIN <= a as int - b as int <= u16::MAX), !r.1 ==> r.0 as int == a as int - b as int, r.0 == (a as int - b as int) as u16;
pub assume_specification[ u32::overflowing_sub ](a: u32, b: u32) -> (r: (u32, bool))
    ensures r.1 == !(u32::MIN <= a as int - b as int <= u32::MAX), !r.1 ==> r.0 as int == a as int - b as int, r.0 == (a as int - b as int) as u32;
pub assume_specification[ u64::overflowing_sub ](a: u64, b: u64) -> (r: (u64, bool))
    ensures r.1 == !(u64::MIN <= a as int - b as int <= u64::MAX), !r.1 ==> r.0 as int == a as int - b as int, r.0 == (a as int - b as int) as u64;
pub assume_specification[ u128::overflowing_sub ](a: u128, b: u128) -> (r: (u128, bool))
    ensures r.1 == !(u128::MIN <= a as int - b as int <= u128::MAX), !r.1 ==> r.0 as int == a as int - b as int, r.0 == (a as int - b as int) as u128;
pub assume_specification[ usize::overflowing_sub ](a: usize, b: usize) -> (r: (usize, bool))
    ensures r.1 == !(usize::MIN <= a as int - b as int <= usize::MAX), !r.1 ==> r.0 as int == a as int - b as int, r.0 == (a as int - b as int) as usize;
pub assume_specification[ i8::overflowing_sub ](a: i8, b: i8) -> (r: (i8, bool))
    ensures r.1 == !(i8::MIN <= a as int - b as int <= i8::MAX), !r.1 ==> r.0 as int == a as int - b as int, r.0 == (a as int - b as int) as i8;
pub assume_specification[ i16::overflowing_sub ](a: i16, b: i16) -> (r: (i16, bool))
    ensures r.1 == !(i16::MIN <= a as int - b as int <= i16::MAX), !r.1 ==> r.0 as int == a as int - b as int, r.0 == (a as int - b as int) as i16;
pub assume_specification[ i32::overflowing_sub ](a: i32, b: i32) -> (r: (i32, bool))
    ensures r.1 == !(i32::MIN <= a as int - b as int <= i32::MAX), !r.1 ==> r.0 as int == a as int - b as int, r.0 == (a as int - b as int) as i32;
pub assume_specification[ i64::overflowing_sub ](a: i64, b: i64) -> (r: (i64, bool))
    ensures r.1 == !(i64::MIN <= a as int - b as int <= i64::MAX), !r.1 ==> r.0 as int == a as int - b as int, r.0 == (a as int - b as int) as i64;
pub assume_specification[ i128::overflowing_sub ](a: i128, b: i128) -> (r: (i128, bool))
    ensures r.1 == !(i128::MIN <= a as int - b as int <= i128::MAX), !r.1 ==> r.0 as int == a as int - b as int, r.0 == (a as int - b as int) as i128;
pub assume_specification[ isize::overflowing_sub ](a: isize, b: isize) -> (r: (isize, bool))
    ensures r.1 == !(isize::MIN <= a as int - b as int <= isize::MAX), !r.1 ==> r.0 as int == a as int - b as int, r.0 == (a as int - b as int) as isize;
// VX-FI
// VX-IF saturating_add_signed
pub assume_specification[ u8::saturating_add_signed ](a: u8, b: i8) -> (r: u8)
    ensures r as int == (if a as int + b as int > u8::MAX { u8::MAX as int } else if (a as int + b as int) < 0 { 0 } else { a as int + b as int });
pub assume_specification[ u16::saturating_add_signed ](a: u16, b: i16) -> (r: u16)
    ensures r as int == (if a as int + b as int > u16::MAX { u16::MAX as int } else if (a as int + b as int) < 0 { 0 } else { a as int + b as int });
pub assume_specification[ u32::saturating_add_signed ](a: u32, b: i32) -> (r: u32)
    ensures r as int == (if a as int + b as int > u32::MAX { u32::MAX as int } else if (a as int + b as int) < 0 { 0 } else { a as int + b as int });
pub assume_specification[ u64::saturating_add_signed ](a: u64, b: i64) -> (r: u64)
    ensures r as int == (if a as int + b as int > u64::MAX { u64::MAX as int } else if (a as int + b as int) < 0 { 0 } else { a as int + b as int });
pub assume_specification[ u128::saturating_add_signed ](a: u128, b: i128) -> (r: u128)
    ensures r as int == (if a as int + b as int > u128::MAX { u128::MAX as int } else if (a as int + b as int) < 0 { 0 } else { a as int + b as int });
pub assume_specification[ usize::saturating_add_signed ](a: usize, b: isize) -> (r: usize)
    ensures r as int == (if a as int + b as int > usize::MAX { usize::MAX as int } else if (a as int + b as int) < 0 { 0 } else { a as int + b as int });
// VX-FI
// VX-IF div_ceil
pub assume_specification[ u8::div_ceil ](a: u8, b: u8) -> (r: u8)
    requires b > 0,
    ensures r as int == (a as int + b as int - 1) / (b as int);
pub assume_specification[ u16::div_ceil ](a: u16, b: u16) -> (r: u16)
    requires b > 0,
    ensures r as int == (a as int + b as int - 1) / (b as int);
pub assume_specification[ u32::div_ceil ](a: u32, b: u32) -> (r: u32)
    requires b > 0,
    ensures r as int == (a as int + b as int - 1) / (b as int);
pub assume_specification[ u64::div_ceil ](a: u64, b: u64) -> (r: u64)
    requires b > 0,
    ensures r as int == (a as int + b as int - 1) / (b as int);
pub assume_specification[ u128::div_ceil ](a: u128, b: u128) -> (r: u128)
    requires b > 0,
    ensures r as int == (a as int + b as int - 1) / (b as int);
pub assume_specification[ usize::div_ceil ](a: usize, b: usize) -> (r: usize)
    requires b > 0,
    ensures r as int == (a as int + b as int - 1) / (b as int);
// VX-FI
// VX-IF is_lt|is_le|is_gt|is_ge|is_eq|is_ne
pub assume_specification[ core::cmp::Ordering::is_lt ](a: core::cmp::Ordering) -> (r: bool)
    ensures r == (a is Less);
pub assume_specification[ core::cmp::Ordering::is_le ](a: core::cmp::Ordering) -> (r: bool)
    ensures r == !(a is Greater);
pub assume_specification[ core::cmp::Ordering::is_gt ](a: core::cmp::Ordering) -> (r: bool)
    ensures r == (a is Greater);
pub assume_specification[ core::cmp::Ordering::is_ge ](a: core::cmp::Ordering) -> (r: bool)
    ensures r == !(a is Less);
pub assume_specification[ core::cmp::Ordering::is_eq ](a: core::cmp::Ordering) -> (r: bool)
    ensures r == (a is Equal);
pub assume_specification[ core::cmp::Ordering::is_ne ](a: core::cmp::Ordering) -> (r: bool)
    ensures r == !(a is Equal);
// VX-FI
// VX-IF then
pub assume_specification[ core::cmp::Ordering::then ](a: core::cmp::Ordering, b: core::cmp::Ordering) -> (r: core::cmp::Ordering)
    ensures r == (if a is Equal { b } else { a });
// VX-FI
// VX-IF copied|cloned
pub assume_specification<T: Copy>[ Option::<&T>::copied ](a: Option<&T>) -> (r: Option<T>)
    ensures r == (match a { Some(x) => Some(*x), None => None });
// VX-FI
// VX-IF zip
pub assume_specification<T, U>[ Option::<T>::zip::<U> ](a: Option<T>, b: Option<U>) -> (r: Option<(T, U)>)
    ensures r == (match (a, b) { (Some(x), Some(y)) => Some((x, y)), _ => None });
// VX-FI
// VX-IF xor
pub assume_specification<T>[ Option::<T>::xor ](a: Option<T>, b: Option<T>) -> (r: Option<T>)
    ensures r == (match (a, b) { (Some(x), None) => Some(x), (None, Some(y)) => Some(y), _ => None });
// VX-FI
// VX-IF and
pub assume_specification<T, U>[ Option::<T>::and::<U> ](a: Option<T>, b: Option<U>) -> (r: Option<U>)
    ensures r == (if a is Some { b } else { None });
pub assume_specification<T, E, U>[ Result::<T, E>::and::<U> ](a: Result<T, E>, b: Result<U, E>) -> (r: Result<U, E>)
    ensures r == (match a { Ok(_) => b, Err(e) => Err(e) });
// VX-FI
// VX-IF replace
pub assume_specification<T>[ Option::<T>::replace ](a: &mut Option<T>, x: T) -> (r: Option<T>)
    ensures r == *old(a), *final(a) == Some(x);
// VX-FI
// VX-IF unwrap_or
pub assume_specification<T, E>[ Result::<T, E>::unwrap_or ](a: Result<T, E>, d: T) -> (r: T)
    ensures r == (match a { Ok(x) => x, Err(_) => d });
// VX-FI
// VX-IF is_empty
pub assume_specification<T, A: std::alloc::Allocator>[ std::collections::VecDeque::<T, A>::is_empty ](a: &std::collections::VecDeque<T, A>) -> (r: bool)
    ensures r == (a@.len() == 0);
// VX-FI
// VX-IF shrink_to_fit
pub assume_specification<T, A: std::alloc::Allocator>[ Vec::<T, A>::shrink_to_fit ](a: &mut Vec<T, A>)
    ensures final(a)@ == old(a)@;
// VX-FI
// VX-IF to_ascii_uppercase|to_ascii_lowercase
pub assume_specification[ char::to_ascii_uppercase ](a: &char) -> (r: char)
    ensures r == (if 'a' <= *a <= 'z' { (*a as u32 - 32) as char } else { *a });
pub assume_specification[ char::to_ascii_lowercase ](a: &char) -> (r: char)
    ensures r == (if 'A' <= *a <= 'Z' { (*a as u32 + 32) as char } else { *a });
// VX-FI
// VX-IF is_ascii
pub assume_specification[ char::is_ascii ](a: &char) -> (r: bool)
    ensures r == (*a as u32 <= 127);
// VX-FI
// VX-IF is_power_of_two
pub assume_specification[ u8::is_power_of_two ](a: u8) -> (r: bool)
    ensures r == (a != 0 && a & (a - 1) as u8 == 0);
pub assume_specification[ u16::is_power_of_two ](a: u16) -> (r: bool)
    ensures r == (a != 0 && a & (a - 1) as u16 == 0);
pub assume_specification[ u32::is_power_of_two ](a: u32) -> (r: bool)
    ensures r == (a != 0 && a & (a - 1) as u32 == 0);
pub assume_specification[ u64::is_power_of_two ](a: u64) -> (r: bool)
    ensures r == (a != 0 && a & (a - 1) as u64 == 0);
pub assume_specification[ u128::is_power_of_two ](a: u128) -> (r: bool)
    ensures r == (a != 0 && a & (a - 1) as u128 == 0);
pub assume_specification[ usize::is_power_of_two ](a: usize) -> (r: bool)
    ensures r == (a != 0 && a & (a - 1) as usize == 0);
// VX-FI

/// `enumerate()` of such an iterator
pub struct VxEnumerate<I> { pub i: usize, pub it: I }
impl<I: SeqIter> VxEnumerate<I> {
    pub fn next(&mut self) -> (r: Option<(usize, I::Item)>)
        requires old(self).i + old(self).it.rest().len() <= usize::MAX,
        ensures final(self).i + final(self).it.rest().len() == old(self).i + old(self).it.rest().len(),
        match r {
            Some(x) => old(self).it.rest().len() > 0 && x.0 == old(self).i && x.1 == old(self).it.rest()[0]
                && final(self).it.rest() == old(self).it.rest().drop_first() && final(self).i == old(self).i + 1,
            None => old(self).it.rest().len() == 0 && final(self).it.rest().len() == 0 && final(self).i == old(self).i,
        },
    {
        match self.it.next() {
            Some(v) => { let k = self.i; self.i = k + 1; Some((k, v)) }
            None => None,
        }
    }
}
pub trait VxEnum: SeqIter {
    fn vx_enumerate(self) -> (r: VxEnumerate<Self>)
        ensures r.i == 0, r.it == self
    { VxEnumerate { i: 0, it: self } }
}
impl<I: SeqIter> VxEnum for I {}

/// `Vec<T>` and `[T; N]` consumed by value: their iterators yield the elements in order
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VecIntoIter<T> { v: std::vec::IntoIter<T> }
impl<T> SeqIter for VecIntoIter<T> {
    type Item = T;
    uninterp spec fn rest(self) -> Seq<T>;
    #[verifier::external_body]
    fn next(&mut self) -> Option<T> { self.v.next() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct ArrayIntoIter<T, const N: usize> { v: std::array::IntoIter<T, N> }
impl<T, const N: usize> SeqIter for ArrayIntoIter<T, N> {
    type Item = T;
    uninterp spec fn rest(self) -> Seq<T>;
    #[verifier::external_body]
    fn next(&mut self) -> Option<T> { self.v.next() }
}
pub trait VxIntoIter { type Item; type It; spec fn vx_items(self) -> Seq<Self::Item>; spec fn vx_rest(it: Self::It) -> Seq<Self::Item>;
    fn vx_into_iter(self) -> (r: Self::It) ensures Self::vx_rest(r) == self.vx_items(); }
impl<T> VxIntoIter for Vec<T> { type Item = T; type It = VecIntoIter<T>; open spec fn vx_items(self) -> Seq<T> { self@ } open spec fn vx_rest(it: VecIntoIter<T>) -> Seq<T> { it.rest() }
    #[verifier::external_body]
    fn vx_into_iter(self) -> VecIntoIter<T> { VecIntoIter { v: self.into_iter() } } }
impl<T, const N: usize> VxIntoIter for [T; N] { type Item = T; type It = ArrayIntoIter<T, N>; open spec fn vx_items(self) -> Seq<T> { self@ } open spec fn vx_rest(it: ArrayIntoIter<T, N>) -> Seq<T> { it.rest() }
    #[verifier::external_body]
    fn vx_into_iter(self) -> ArrayIntoIter<T, N> { ArrayIntoIter { v: self.into_iter() } } }

/// `core::array::from_fn`: the function is called for 0, ..., N - 1 in order
#[verifier::reject_recursive_types(T)]
pub struct ArrayBuilder<T, const N: usize> { v: Vec<T> }
impl<T, const N: usize> ArrayBuilder<T, N> {
    pub closed spec fn view(self) -> Seq<T> { self.v@ }
    pub fn new() -> (r: Self) ensures r.view() =~= Seq::empty() { ArrayBuilder { v: Vec::new() } }
    pub fn cap(&self) -> (r: usize) ensures r == N { N }
    pub fn push(&mut self, v: T) requires old(self).view().len() < N ensures final(self).view() == old(self).view().push(v) { self.v.push(v) }
    #[verifier::external_body]
    pub fn build(self) -> (r: [T; N]) requires self.view().len() == N ensures r@ == self.view() { unimplemented!() }
}

/// Text formatting: `fout` is the text written to a formatter so far, `fpad` the padding it applies
pub mod vxfmt {
use vstd::prelude::*;
use std::fmt;
/// decimal digits
pub uninterp spec fn fout(f: fmt::Formatter) -> Seq<char>;
pub type Pad = spec_fn(Seq<char>) -> Seq<char>;
pub uninterp spec fn fpad(f: fmt::Formatter) -> Pad;
pub assume_specification<'a>[ fmt::Formatter::<'a>::write_str ](f: &mut fmt::Formatter<'a>, s: &str) -> (r: fmt::Result)
    ensures fpad(*final(f)) == fpad(*old(f)), r is Ok ==> fout(*final(f)) == fout(*old(f)) + s@;
pub assume_specification<'a>[ fmt::Formatter::<'a>::pad ](f: &mut fmt::Formatter<'a>, s: &str) -> (r: fmt::Result)
    ensures fpad(*final(f)) == fpad(*old(f)), r is Ok ==> fout(*final(f)) == fout(*old(f)) + fpad(*old(f))(s@);
pub open spec fn dec(n: int) -> Seq<char> decreases n { if n < 10 { seq![(48 + n) as char] } else { dec(n / 10).push((48 + n % 10) as char) } }
pub open spec fn spaces(n: int) -> Seq<char> { Seq::new(if n > 0 { n as nat } else { 0 }, |i: int| ' ') }
pub uninterp spec fn shown<T: ?Sized>(t: &T) -> Seq<char>;
/// numbers are padded on the left, text on the right
pub uninterp spec fn numeric<T: ?Sized>(t: &T) -> bool;
pub open spec fn padded(s: Seq<char>, w: int, left: bool) -> Seq<char> { if left { spaces(w - s.len()) + s } else { s + spaces(w - s.len()) } }
#[verifier::external_body]
pub broadcast proof fn axiom_shown_usize(x: usize) ensures #[trigger] shown(&x) == dec(x as int) {}
#[verifier::external_body]
pub broadcast proof fn axiom_num_usize(x: usize) ensures #[trigger] numeric(&x) {}
#[verifier::external_body]
pub broadcast proof fn axiom_shown_char(x: char) ensures #[trigger] shown(&x) == seq![x] {}
#[verifier::external_body]
pub broadcast proof fn axiom_shown_str(x: &str) ensures #[trigger] shown(x) == x@ {}
#[verifier::external_body]
pub broadcast proof fn axiom_num_str(x: &str) ensures !#[trigger] numeric(x) {}
#[verifier::external_body]
pub broadcast proof fn axiom_shown_ref<T: ?Sized>(x: &T) ensures #[trigger] shown(&x) == shown(x) {}
#[verifier::external_body]
pub broadcast proof fn axiom_num_ref<T: ?Sized>(x: &T) ensures #[trigger] numeric(&x) == numeric(x) {}
#[verifier::external_body]
pub broadcast proof fn axiom_shown_u16(x: u16) ensures #[trigger] shown(&x) == dec(x as int) {}
#[verifier::external_body]
pub broadcast proof fn axiom_shown_string(x: String) ensures #[trigger] shown(&x) == x@ {}
pub broadcast group shows { axiom_shown_u16, axiom_shown_string, axiom_shown_usize, axiom_num_usize, axiom_shown_char, axiom_shown_str, axiom_num_str, axiom_shown_ref, axiom_num_ref }
pub open spec fn ascii(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) as int <= 127 }
pub assume_specification[ String::len ](s: &String) -> (r: usize) ensures ascii(s@) ==> r == s@.len();
#[verifier::external_body]
pub fn vx_disp<T: ?Sized>(t: &T) -> (r: String) ensures r@ == shown(t) { unimplemented!() }
#[verifier::external_body]
pub fn vx_dispw<T: ?Sized>(t: &T, w: usize) -> (r: String) ensures r@ == padded(shown(t), w as int, numeric(t)) { unimplemented!() }
#[verifier::external_body]
pub fn vx_displ<T: ?Sized>(t: &T, w: usize) -> (r: String) ensures r@ == padded(shown(t), w as int, false) { unimplemented!() }
#[verifier::external_body]
pub fn vx_dispr<T: ?Sized>(t: &T, w: usize) -> (r: String) ensures r@ == padded(shown(t), w as int, true) { unimplemented!() }
#[verifier::external_body]
pub fn vx_cat(a: String, b: String) -> (r: String) ensures r@ == a@ + b@ { unimplemented!() }
#[verifier::external_body]
pub fn vx_str(a: &str) -> (r: String) ensures r@ == a@ { unimplemented!() }
#[verifier::external_body]
pub fn vx_chars(a: &String) -> (r: Vec<char>) ensures r@ == a@ { unimplemented!() }
#[verifier::external_body]
pub fn vx_write(f: &mut fmt::Formatter<'_>, s: String) -> (r: fmt::Result)
    ensures fpad(*final(f)) == fpad(*old(f)), r is Ok ==> fout(*final(f)) == fout(*old(f)) + s@ { unimplemented!() }

/// g(0) + ... + g(n - 1)
pub open spec fn cat(n: int, g: spec_fn(int) -> Seq<char>) -> Seq<char> decreases n { if n <= 0 { Seq::empty() } else { cat(n - 1, g) + g(n - 1) } }
pub proof fn lemma_dec(a: int, b: int) requires 0 <= a <= b ensures 1 <= dec(a).len() <= dec(b).len() decreases b {
   if b >= 10 { if a >= 10 { lemma_dec(a / 10, b / 10); } else { lemma_dec(0, b / 10); } }
}
pub proof fn lemma_dec_ascii(a: int) requires 0 <= a ensures ascii(dec(a)) decreases a {
   if a >= 10 { lemma_dec_ascii(a/10); }
}
}
