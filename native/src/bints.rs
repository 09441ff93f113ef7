//! C01, C02, C03: bounded integers
use crate::ctx::*;
use crate::{ensure, ensure_eq};
use sqrid::*;
use std::cmp::Ordering;

/// A mathematical integer of at most 128 bits of magnitude
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Z(pub bool, pub u128);
impl Z {
    pub fn new(neg: bool, mag: u128) -> Z { Z(neg && mag != 0, mag) }
    pub fn add(self, o: Z) -> Option<Z> {
        if self.0 == o.0 { self.1.checked_add(o.1).map(|m| Z::new(self.0, m)) }
        else if self.1 >= o.1 { Some(Z::new(self.0, self.1 - o.1)) }
        else { Some(Z::new(o.0, o.1 - self.1)) }
    }
    pub fn neg(self) -> Z { Z::new(!self.0, self.1) }
}
impl PartialOrd for Z { fn partial_cmp(&self, o: &Z) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for Z {
    fn cmp(&self, o: &Z) -> Ordering {
        match (self.0, o.0) {
            (false, false) => self.1.cmp(&o.1),
            (true, true) => o.1.cmp(&self.1),
            (true, false) => Ordering::Less,
            (false, true) => Ordering::Greater,
        }
    }
}
pub trait ToZ: Copy + std::fmt::Debug { fn z(self) -> Z; fn samples() -> Vec<Self>; const LO: Self; const HI: Self; }
macro_rules! toz { ($($t:ident)*) => { $(
    #[allow(unused_comparisons)]
    impl ToZ for $t {
        fn z(self) -> Z { if self < 0 { Z::new(true, (self as i128).unsigned_abs()) } else { Z::new(false, self as u128) } }
        fn samples() -> Vec<$t> {
            let mut v: Vec<$t> = vec![];
            if <$t>::BITS == 8 { let mut i = <$t>::MIN; loop { v.push(i); if i == <$t>::MAX { break; } i += 1; } return v; }
            for k in 0..12u8 { v.push(k as $t); v.push(<$t>::MAX - k as $t); v.push(<$t>::MIN + k as $t); v.push((0 as $t).wrapping_sub(k as $t)); }
            for b in [7u32, 8, 15, 16, 31, 32, 63, 64, 127] {
                if b < <$t>::BITS {
                    let m = (1 as $t) << b;
                    for k in 0..12u8 { v.push(m.wrapping_add(k as $t)); v.push(m.wrapping_sub(k as $t)); v.push((0 as $t).wrapping_sub(m).wrapping_add(k as $t)); v.push((0 as $t).wrapping_sub(m).wrapping_sub(k as $t)); }
                }
            }
            for k in [40u8, 77, 99, 100, 101, 120, 121] { v.push(k as $t); v.push((0 as $t).wrapping_sub(k as $t)); }
            v.sort(); v.dedup(); v
        }
        const LO: $t = <$t>::MIN;
        const HI: $t = <$t>::MAX;
    }
)* } }
toz!(u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize);

macro_rules! bounds_u { ($m:ident, $c:expr, $B:ident, $T:ident) => {
    $m!($c, $B, $T, 0, 0); $m!($c, $B, $T, 0, 5); $m!($c, $B, $T, 3, 9); $m!($c, $B, $T, 1, 1); $m!($c, $B, $T, 0, { $T::MAX });
    $m!($c, $B, $T, 2, 100); $m!($c, $B, $T, { $T::MAX - 3 }, { $T::MAX }); $m!($c, $B, $T, { $T::MAX }, { $T::MAX }); $m!($c, $B, $T, { $T::MAX / 2 - 1 }, { $T::MAX / 2 + 2 });
    $m!($c, $B, $T, { $T::MAX - 4 }, { $T::MAX - 1 });
} }
macro_rules! bounds_i { ($m:ident, $c:expr, $B:ident, $T:ident) => {
    $m!($c, $B, $T, 0, 0); $m!($c, $B, $T, 0, 5); $m!($c, $B, $T, 3, 9); $m!($c, $B, $T, 1, 1); $m!($c, $B, $T, -3, -1); $m!($c, $B, $T, -5, 5);
    $m!($c, $B, $T, { $T::MIN }, { $T::MAX }); $m!($c, $B, $T, { $T::MIN }, { $T::MIN + 3 }); $m!($c, $B, $T, { $T::MAX - 3 }, { $T::MAX });
    $m!($c, $B, $T, -9, 0); $m!($c, $B, $T, -100, 77); $m!($c, $B, $T, { $T::MIN }, 2); $m!($c, $B, $T, -1, { $T::MAX }); $m!($c, $B, $T, { $T::MIN }, { $T::MIN });
} }
macro_rules! all_bounded { ($m:ident, $c:expr) => {
    bounds_u!($m, $c, BoundedU8, u8); bounds_u!($m, $c, BoundedU16, u16); bounds_u!($m, $c, BoundedU32, u32);
    bounds_u!($m, $c, BoundedU64, u64); bounds_u!($m, $c, BoundedU128, u128); bounds_i!($m, $c, BoundedIsize, isize);
    bounds_i!($m, $c, BoundedI8, i8); bounds_i!($m, $c, BoundedI16, i16); bounds_i!($m, $c, BoundedI32, i32);
    bounds_i!($m, $c, BoundedI64, i64); bounds_i!($m, $c, BoundedI128, i128);
} }

/// values of bounded type B near its limits and elsewhere
fn values<T: ToZ, B: Copy>(lo: T, hi: T, mk: impl Fn(T) -> Option<B>) -> Vec<(Z, B)> {
    let mut v = vec![];
    for s in T::samples().into_iter().chain([lo, hi]) {
        if lo.z() <= s.z() && s.z() <= hi.z() {
            if let Some(b) = mk(s) { v.push((s.z(), b)); }
        }
    }
    v.sort_by(|a, b| a.0.cmp(&b.0));
    v.dedup_by(|a, b| a.0 == b.0);
    if v.len() > 40 {
        let n = v.len();
        let k = n / 20;
        v = v.into_iter().enumerate().filter(|(i, _)| *i < 8 || *i + 8 >= n || i % k == 0).map(|x| x.1).collect();
    }
    v
}


macro_rules! convs { ($conv:ident) => { $conv!(u8); $conv!(u16); $conv!(u32); $conv!(u64); $conv!(u128); $conv!(usize); $conv!(i8); $conv!(i16); $conv!(i32); $conv!(i64); $conv!(i128); $conv!(isize); } }
/// the inherent functions of a bounded type
pub struct Fns<T, B> { pub new: fn(T) -> Result<B, Error>, pub unwrap: fn(T) -> B, pub inner: fn(B) -> T, pub to_t: fn(B) -> T }
fn c01_type<T: ToZ + std::fmt::Display + PartialEq, B: BoundedInt<Inner = T>>(c: &mut Ctx, name: &str, lo: T, hi: T, f: &Fns<T, B>) {
    let inb = |z: Z| lo.z() <= z && z <= hi.z();
    c.group(format!("{name}<{lo}, {hi}>"));
    let ok = |b: B| -> Result<(), String> { ensure!(inb((f.inner)(b).z()), "out of bounds value {:?}", b); Ok(()) };
    for v in T::samples() {
        c.case(|| format!("new({v})"), || if let Ok(b) = (f.new)(v) { ok(b) } else { Ok(()) });
        c.case(|| format!("new_unwrap({v})"), || if let Some(b) = try_call(|| (f.unwrap)(v)) { ok(b) } else { Ok(()) });
    }
    macro_rules! conv { ($S:ident) => {
        for s in $S::samples() { c.case(|| format!("try_from({s}{})", stringify!($S)), || if let Ok(b) = <B as TryFrom<$S>>::try_from(s) { ok(b) } else { Ok(()) }); }
    } }
    convs!(conv);
    c.case(|| "default".to_string(), || {
        let e = if lo.z() > Z(false, 0) { lo.z() } else if hi.z() < Z(false, 0) { hi.z() } else { Z(false, 0) };
        ensure_eq!((f.inner)(B::default()).z(), e, "default value"); Ok(())
    });
    for v in [false, true] {
        c.case(|| format!("From<bool>({v})"), || if let Some(b) = try_call(|| B::from(v)) { ok(b) } else { Ok(()) });
        c.case(|| format!("From<bool>({v}) in bounds"), || { if inb(Z(false, v as u128)) { ensure_eq!((f.inner)(B::from(v)).z(), Z(false, v as u128), "value"); } Ok(()) });
    }
    c.case(|| "one".to_string(), || if let Some(b) = try_call(|| B::one()) { ok(b) } else { Ok(()) });
    c.case(|| "MIN MAX".to_string(), || { ensure_eq!((f.inner)(B::MIN), lo, "MIN"); ensure_eq!((f.inner)(B::MAX), hi, "MAX"); Ok(()) });
    let vals = values::<T, B>(lo, hi, |v| (f.new)(v).ok());
    for (za, a) in &vals {
        c.case(|| format!("inc/dec of {za:?}"), || { for b in [a.inc(), a.dec()].into_iter().flatten() { ok(b)?; } Ok(()) });
        for (zb, b) in &vals {
            c.case(|| format!("checked_add/sub {za:?} {zb:?}"), || { for x in [a.checked_add(*b), a.checked_sub(*b)].into_iter().flatten() { ok(x)?; } Ok(()) });
        }
        c.case(|| format!("iteration from {za:?}"), || {
            let mut it = BoundedIntIterator::new(*a, B::MAX);
            for _ in 0..300 { if let Some(x) = it.next() { ok(x)?; } if let Some(x) = it.next_back() { ok(x)?; } }
            Ok(())
        });
    }
}
macro_rules! fns { ($B:ty, $T:ident) => { Fns::<$T, $B> { new: |v| <$B>::new(v), unwrap: |v| <$B>::new_unwrap(v), inner: |b| b.into_inner(), to_t: |b| <$T>::from(b) } } }
macro_rules! c01_one { ($c:expr, $B:ident, $T:ident, $lo:expr, $hi:expr) => { c01_type::<$T, $B<{ $lo }, { $hi }>>($c, stringify!($B), $lo, $hi, &fns!($B<{ $lo }, { $hi }>, $T)); } }
pub fn c01(c: &mut Ctx) {
    all_bounded!(c01_one, c);
    c.group("new_static");
    c.case(|| "new_static".into(), || {
        ensure_eq!(BoundedU8::<2, 6>::new_static::<5>().into_inner(), 5, "value");
        ensure_eq!(BoundedI16::<-6, -2>::new_static::<-4>().into_inner(), -4, "value");
        Ok(())
    });
}


fn c02_type<T: ToZ + std::fmt::Display + PartialEq, B: BoundedInt<Inner = T>>(c: &mut Ctx, name: &str, lo: T, hi: T, f: &Fns<T, B>) {
    let inb = |z: Z| lo.z() <= z && z <= hi.z();
    c.group(format!("{name}<{lo}, {hi}>"));
    for v in T::samples() {
        c.case(|| format!("new({v})"), || { ensure_eq!((f.new)(v).map(|b| (f.inner)(b)), if inb(v.z()) { Ok(v) } else { Err(Error::OutOfBounds) }, "new"); Ok(()) });
        c.case(|| format!("new_unwrap({v})"), || { ensure_eq!(try_call(|| (f.unwrap)(v)).map(|b| (f.inner)(b)), if inb(v.z()) { Some(v) } else { None }, "new_unwrap"); Ok(()) });
    }
    let oob = format!("{:?}", Error::OutOfBounds);
    macro_rules! conv { ($S:ident) => {
        for s in $S::samples() { c.case(|| format!("try_from({s}{})", stringify!($S)), || {
            let r = <B as TryFrom<$S>>::try_from(s);
            ensure_eq!(r.is_ok(), inb(s.z()), "try_from succeeds");
            if let Ok(b) = r { ensure_eq!((f.inner)(b).z(), s.z(), "try_from"); }
            Ok(()) }); }
    } }
    convs!(conv);
    let _ = oob;
    let vals = values::<T, B>(lo, hi, |v| (f.new)(v).ok());
    for (za, a) in &vals {
        let za = *za;
        c.case(|| format!("read {za:?}"), || {
            ensure_eq!((f.inner)(*a).z(), za, "into_inner"); ensure_eq!(BoundedInt::into_inner(*a).z(), za, "trait into_inner"); ensure_eq!(BoundedInt::as_ref(a).z(), za, "as_ref"); ensure_eq!((f.to_t)(*a).z(), za, "inner from");
            let u: Option<usize> = (*a).try_into().ok();
            ensure_eq!(u.map(|u: usize| u.z()), if Z(false, 0) <= za && za <= usize::MAX.z() { Some(za) } else { None }, "usize::try_from");
            let one = Z(false, 1);
            let e = za.add(one).filter(|z| inb(*z)); ensure_eq!(a.inc().map(|b| (f.inner)(b).z()), e, "inc");
            let e = za.add(one.neg()).filter(|z| inb(*z)); ensure_eq!(a.dec().map(|b| (f.inner)(b).z()), e, "dec");
            Ok(())
        });
        for (zb, b) in &vals {
            let zb = *zb;
            c.case(|| format!("checked_add/sub/compare {za:?} {zb:?}"), || {
                let e = za.add(zb).filter(|z| inb(*z)); ensure_eq!(a.checked_add(*b).map(|x| (f.inner)(x).z()), e, "checked_add");
                let e = za.add(zb.neg()).filter(|z| inb(*z)); ensure_eq!(a.checked_sub(*b).map(|x| (f.inner)(x).z()), e, "checked_sub");
                ensure_eq!(a == b, za == zb, "eq"); ensure_eq!(a != b, za != zb, "ne"); ensure_eq!(a.cmp(b), za.cmp(&zb), "cmp"); ensure_eq!(a.partial_cmp(b), Some(za.cmp(&zb)), "partial_cmp");
                ensure_eq!(a < b, za < zb, "<"); ensure_eq!(a > b, za > zb, ">"); ensure_eq!(a <= b, za <= zb, "<="); ensure_eq!(a >= b, za >= zb, ">=");
                Ok(())
            });
        }
    }
}
macro_rules! c02_one { ($c:expr, $B:ident, $T:ident, $lo:expr, $hi:expr) => { c02_type::<$T, $B<{ $lo }, { $hi }>>($c, stringify!($B), $lo, $hi, &fns!($B<{ $lo }, { $hi }>, $T)); } }
macro_rules! c02_builtin { ($c:expr, $T:ident) => { c02_type::<$T, $T>($c, stringify!($T), $T::MIN, $T::MAX, &Fns::<$T, $T> { new: |v| Ok(v), unwrap: |v| v, inner: |b| b, to_t: |b| b }); } }
pub fn c02(c: &mut Ctx) {
    all_bounded!(c02_one, c);
    c02_builtin!(c, u8); c02_builtin!(c, u16); c02_builtin!(c, u32); c02_builtin!(c, u64); c02_builtin!(c, u128); c02_builtin!(c, usize);
    c02_builtin!(c, i8); c02_builtin!(c, i16); c02_builtin!(c, i32); c02_builtin!(c, i64); c02_builtin!(c, i128); c02_builtin!(c, isize);
}

/// all interleavings (bit i of pattern: from the back) of an iterator of `n` items
fn interleave<B: BoundedInt>(mk: &dyn Fn() -> BoundedIntIterator<B>, items: &[Z], pattern: u64, z: &dyn Fn(B) -> Z) -> Result<(), String> {
    let mut it = mk();
    let (mut i, mut j) = (0, items.len());
    for k in 0..items.len() + 3 {
        if pattern >> (k % 64) & 1 == 1 {
            let e = if i < j { j -= 1; Some(items[j]) } else { None };
            ensure_eq!(it.next_back().map(z), e, format!("call {k}, next_back"));
        } else {
            let e = if i < j { i += 1; Some(items[i - 1]) } else { None };
            ensure_eq!(it.next().map(z), e, format!("call {k}, next"));
        }
    }
    Ok(())
}

fn c03_type<T: ToZ + std::fmt::Display, B: BoundedInt<Inner = T>>(c: &mut Ctx, name: &str, lo: T, hi: T, f: &Fns<T, B>) {
    c.group(format!("{name}<{lo}, {hi}>"));
    let z = |b: B| (f.inner)(b).z();
    let upto = |a: Z, n: u128| -> Vec<Z> { (0..n).map(|k| a.add(Z(false, k)).unwrap()).collect() };
    let len = hi.z().add(lo.z().neg());
    if len.is_some_and(|l| l < Z(false, 300)) {
        let items: Vec<Z> = upto(lo.z(), len.unwrap().1 + 1);
        let n = items.len() + 3;
        let np = if n <= 9 { 1 << n } else { 40 };
        let mut rng = c.rng();
        for k in 0..np {
            let pat = if n <= 9 { k } else { match k { 0 => 0, 1 => !0, _ => rng.next() } };
            c.case(|| format!("interleaving {pat:#x}"), || interleave::<B>(&|| B::iter(), &items, pat, &z));
        }
        c.case(|| "every method".into(), || crate::iters::laws_back(&|| B::iter(), &items, &z));
        c.case(|| "collect".into(), || { ensure_eq!(B::iter().map(z).collect::<Vec<_>>(), items, "collect");
            let mut r = items.clone(); r.reverse(); ensure_eq!(B::iter().rev().map(z).collect::<Vec<_>>(), r, "rev"); Ok(()) });
    } else {
        c.case(|| "first and last".into(), || {
            let mut it = B::iter(); for k in 0..20 { ensure_eq!(it.next().map(z), lo.z().add(Z(false, k)), "next"); }
            for k in 0..20 { ensure_eq!(it.next_back().map(z), hi.z().add(Z::new(true, k)), "next_back"); }
            for k in [0u128, 1, 127, 128, 255, 256, 300] { if len.is_some_and(|l| l < Z(false, k)) { continue; }
                let mut it = B::iter(); ensure_eq!(it.nth(k as usize).map(z), lo.z().add(Z(false, k)), format!("nth({k})")); if len.is_none_or(|l| l > Z(false, k)) { ensure_eq!(it.next().map(z), lo.z().add(Z(false, k + 1)), format!("item after nth({k})")); }
                let mut it = B::iter(); ensure_eq!(it.nth_back(k as usize).map(z), hi.z().add(Z::new(true, k)), format!("nth_back({k})")); if len.is_none_or(|l| l > Z(false, k)) { ensure_eq!(it.next_back().map(z), hi.z().add(Z::new(true, k + 1)), format!("item after nth_back({k})")); }
            } Ok(())
        });
    }
    let sub = |c: &mut Ctx, s: Z, n: u128| {
        let items = upto(s, n);
        let find = |q: Z| T::samples().into_iter().chain([lo, hi]).find(|v| v.z() == q).and_then(|v| (f.new)(v).ok());
        let (Some(a), Some(b)) = (find(items[0]), find(items[n as usize - 1])) else { return };
        c.case(|| format!("{:?}..={:?} every method", items[0], items[n as usize - 1]), || crate::iters::laws_back(&|| BoundedIntIterator::new(a, b), &items, &z));
        for pat in 0..1u64 << (n + 3) { c.case(|| format!("{:?}..={:?} interleaving {pat:#x}", items[0], items[n as usize - 1]), || interleave::<B>(&|| BoundedIntIterator::new(a, b), &items, pat, &z)); }
    };
    sub(c, lo.z(), 1); sub(c, hi.z(), 1);
    for n in [2, 3, 5] {
        if len.is_none_or(|l| l >= Z(false, n)) { sub(c, lo.z(), n); sub(c, hi.z().add(Z::new(true, n - 1)).unwrap(), n); sub(c, Z(false, 4), n); sub(c, Z::new(true, 2), n); }
    }
}
macro_rules! c03_one { ($c:expr, $B:ident, $T:ident, $lo:expr, $hi:expr) => { c03_type::<$T, $B<{ $lo }, { $hi }>>($c, stringify!($B), $lo, $hi, &fns!($B<{ $lo }, { $hi }>, $T)); } }
macro_rules! c03_builtin { ($c:expr, $T:ident) => { c03_type::<$T, $T>($c, stringify!($T), $T::MIN, $T::MAX, &Fns::<$T, $T> { new: |v| Ok(v), unwrap: |v| v, inner: |b| b, to_t: |b| b }); } }
pub fn c03(c: &mut Ctx) {
    all_bounded!(c03_one, c);
    c03_builtin!(c, u8); c03_builtin!(c, u16); c03_builtin!(c, u32); c03_builtin!(c, u64); c03_builtin!(c, u128); c03_builtin!(c, usize);
    c03_builtin!(c, i8); c03_builtin!(c, i16); c03_builtin!(c, i32); c03_builtin!(c, i64); c03_builtin!(c, i128); c03_builtin!(c, isize);
    c.group("whole types");
    c.case(|| "u8".into(), || { ensure_eq!(<u8 as BoundedInt>::iter().collect::<Vec<_>>(), (0..=255u8).collect::<Vec<_>>(), "u8"); Ok(()) });
    c.case(|| "i8".into(), || { ensure_eq!(<i8 as BoundedInt>::iter().collect::<Vec<_>>(), (-128..=127i8).collect::<Vec<_>>(), "i8"); Ok(()) });
    c.case(|| "u16".into(), || { ensure!(<u16 as BoundedInt>::iter().eq(0..=65535u16), "u16"); Ok(()) });
    c.case(|| "ends of 16 bit types".into(), || {
        for n in [65534usize, 65535, 65536, 65537, 131071] { ensure_eq!(<u16 as BoundedInt>::iter().nth(n), u16::try_from(n).ok(), "nth"); ensure_eq!(<i16 as BoundedInt>::iter().nth_back(n), i16::try_from(32767 - n as i64).ok(), "nth_back"); ensure_eq!(BoundedU32::<5, 66000>::iter().nth(n).map(|b| b.into_inner() as usize), if n <= 65995 { Some(n + 5) } else { None }, "nth"); }
        ensure_eq!(<u16 as BoundedInt>::iter().count(), 65536, "count"); ensure_eq!(<i16 as BoundedInt>::iter().count(), 65536, "count"); ensure_eq!(BoundedU32::<5, 66000>::iter().count(), 65996, "count"); ensure_eq!(<i16 as BoundedInt>::iter().last(), Some(32767), "last"); Ok(())
    });
    c.case(|| "i16".into(), || { ensure!(<i16 as BoundedInt>::iter().eq(-32768..=32767i16), "i16"); Ok(()) });
}
