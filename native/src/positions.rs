//! C04, C05, C06, C09 to C13: positions
use crate::bints::*;
use crate::ctx::*;
use crate::dirs::*;
use crate::{ensure, ensure_eq};
use sqrid::*;

/// small grids, all shapes
#[macro_export]
macro_rules! small_dims { ($c:expr, $f:ident) => {
    $crate::dims_list!($c, $f, (0,0) (0,1) (1,0) (1,1) (0,2) (2,0) (1,2) (2,1) (2,2) (3,0) (0,3) (3,1) (1,3) (3,2) (2,3) (3,3) (4,2) (2,4) (4,4) (0,6) (6,0) (1,6) (6,1) (5,5) (4,7) (7,4) (7,3) (3,7));
} }
#[macro_export]
macro_rules! medium_dims { ($c:expr, $f:ident) => {
    $crate::dims_list!($c, $f, (6,6) (7,7) (8,8) (9,9) (10,3) (3,10) (15,1) (1,15) (0,31) (31,0) (0,40) (40,0) (2,20) (20,2) (30,1) (1,32) (12,11) (11,12) (15,15) (16,16));
    $crate::dims_list!($c, $f, (31,1) (31,2) (31,3) (63,1) (63,2) (1,63) (3,63) (95,1) (95,2) (127,1) (127,3) (1,127) (255,1) (256,1) (1,255) (1,256) (64,1) (65,2) (32,2) (33,1) (47,3) (15,3) (15,7) (7,3) (7,15) (23,1) (9,4) (4,9) (13,5) (5,13));
} }
#[macro_export]
macro_rules! dims_list { ($c:expr, $f:ident, $(($x:literal, $y:literal))*) => { $(
    $f::<$x, $y, { ($x + 1) * ($y + 1) }, { (($x + 1) * ($y + 1) + 31) / 32 }>($c);
)* } }

pub fn xy<const X: u16, const Y: u16>(p: Pos<X, Y>) -> (i64, i64) { (p.x() as i64, p.y() as i64) }
pub fn mk<const X: u16, const Y: u16>(x: i64, y: i64) -> Pos<X, Y> { Pos::<X, Y>::new(x as u16, y as u16).unwrap() }
pub fn all_xy(w: i64, h: i64) -> Vec<(i64, i64)> { (0..h).flat_map(|y| (0..w).map(move |x| (x, y))).collect() }
fn inside(w: i64, h: i64, x: i64, y: i64) -> bool { 0 <= x && x < w && 0 <= y && y < h }

pub fn near(max: u16) -> Vec<u16> {
    let mut v: Vec<u16> = (0..8).collect();
    for k in 0..4u16 { v.push(max.wrapping_sub(k)); v.push(max.wrapping_add(k)); v.push(max / 2 + k); v.push(u16::MAX - k); v.push(32766 + k); v.push(255 + k); }
    v.sort(); v.dedup(); v
}
fn c04_dim<const X: u16, const Y: u16, const S: usize, const W: usize>(c: &mut Ctx) {
    c.group(format!("Pos<{X}, {Y}>"));
    let (w, h) = (X as i64 + 1, Y as i64 + 1);
    type P<const X: u16, const Y: u16> = Pos<X, Y>;
    for x in near(X) { for y in near(Y) {
        c.case(|| format!("u16 ({x}, {y})"), || {
            let e = if inside(w, h, x as i64, y as i64) { Ok((x as i64, y as i64)) } else { Err(Error::OutOfBounds) };
            ensure_eq!(P::<X, Y>::new(x, y).map(xy), e, "new");
            ensure_eq!(P::<X, Y>::try_from((x, y)).map(xy), e, "try_from value"); ensure_eq!(P::<X, Y>::try_from(&(x, y)).map(xy), e, "try_from reference");
            if !matches!((x, y), _ if x > X || y > Y) || (x < X.saturating_add(3) && y < Y.saturating_add(3)) {
                ensure_eq!(try_call(|| P::<X, Y>::new_unwrap(x, y)).map(xy), e.clone().ok(), "new_unwrap");
            }
            ensure_eq!(<P::<X, Y> as PosT>::new(x, y).map(xy), e, "PosT::new");
            ensure_eq!(P::<X, Y>::tryfrom_pos((x, y)).map(xy), e, "tryfrom_pos");
            if let Ok(p) = P::<X, Y>::new(x, y) {
                ensure_eq!((p.x(), p.y()), (x, y), "x y"); ensure_eq!(p.tuple(), (x, y), "tuple"); ensure_eq!(p.inner_tuple(), (x, y), "inner_tuple");
                ensure_eq!((PosT::x(&p).into_inner(), PosT::y(&p).into_inner()), (x, y), "PosT x y");
                let t = PosT::tuple(&p); ensure_eq!((t.0.into_inner(), t.1.into_inner()), (x, y), "PosT tuple");
                let t = p.into_tuple(); ensure_eq!((t.0.into_inner(), t.1.into_inner()), (x, y), "into_tuple");
                ensure_eq!(<(u16, u16)>::from(p), (x, y), "u16 pair"); ensure_eq!(<(u16, u16)>::from(&p), (x, y), "u16 pair of reference");
                ensure_eq!(<(i32, i32)>::from(p), (x as i32, y as i32), "i32 pair"); ensure_eq!(<(i32, i32)>::from(&p), (x as i32, y as i32), "i32 pair of reference");
                ensure_eq!(P::<X, Y>::from(p.0), p, "from bounded pair"); ensure_eq!(P::<X, Y>::from(&p.0), p, "from reference to bounded pair"); ensure_eq!(P::<X, Y>::new_(p.0), p, "new_");
                ensure_eq!(P::<X, Y>::tryfrom_pos(p).map(xy), e, "tryfrom_pos itself");
                ensure_eq!(Pos::<3, 2>::tryfrom_pos(p).map(xy), if x <= 3 && y <= 2 { Ok((x as i64, y as i64)) } else { Err(Error::OutOfBounds) }, "tryfrom_pos to Pos<3, 2>");
                ensure_eq!(<(u8, u8)>::tryfrom_pos(p).ok().map(|t| (t.0 as u16, t.1 as u16)), if x < 256 && y < 256 { Some((x, y)) } else { None }, "tryfrom_pos to u8 pair");
                ensure_eq!(<(i8, i8)>::tryfrom_pos(p).ok().map(|t| (t.0 as i32, t.1 as i32)), if x < 128 && y < 128 { Some((x as i32, y as i32)) } else { None }, "tryfrom_pos to i8 pair");
            }
            Ok(())
        });
    } }
    let vals: Vec<i32> = near(X).into_iter().chain(near(Y)).flat_map(|v| { let v = v as i32; [v, -v, v + 65536, v - 65536, i32::MAX - v, i32::MIN + v] }).take(150).collect();
    for (i, x) in vals.iter().copied().enumerate() { for y in vals.iter().copied().skip(i % 7).step_by(7).chain([0, Y as i32]) {
        c.case(|| format!("i32 ({x}, {y})"), || {
            let e = if inside(w, h, x as i64, y as i64) { Ok((x as i64, y as i64)) } else { Err(Error::OutOfBounds) };
            ensure_eq!(P::<X, Y>::try_from((x, y)).map(xy), e, "value"); ensure_eq!(P::<X, Y>::try_from(&(x, y)).map(xy), e, "reference");
            ensure_eq!(P::<X, Y>::try_from((y, x)).map(xy), if inside(w, h, y as i64, x as i64) { Ok((y as i64, x as i64)) } else { Err(Error::OutOfBounds) }, "swapped");
            ensure_eq!(P::<X, Y>::tryfrom_pos((x, y)).map(xy), e, "tryfrom_pos");
            Ok(())
        });
    } }
    macro_rules! generic { ($t:ident) => {
        for s in $t::samples() {
            c.case(|| format!("PosT::new({s}{0}, 0) and (0, {s}{0})", stringify!($t)), || {
                let z = s.z();
                ensure_eq!(<P::<X, Y> as PosT>::new(s, 0u8).map(xy).ok(), if !z.0 && z.1 <= X as u128 { Some((z.1 as i64, 0)) } else { None }, "x");
                ensure_eq!(<P::<X, Y> as PosT>::new(0i16, s).map(xy).ok(), if !z.0 && z.1 <= Y as u128 { Some((0, z.1 as i64)) } else { None }, "y"); Ok(())
            });
        }
    } }
    generic!(u8); generic!(u16); generic!(u32); generic!(u64); generic!(u128); generic!(usize); generic!(i8); generic!(i16); generic!(i32); generic!(i64); generic!(i128); generic!(isize);
    c.case(|| "constants".into(), || {
        let (x, y) = (X as i64, Y as i64);
        ensure_eq!(xy(P::<X, Y>::FIRST), (0, 0), "FIRST"); ensure_eq!(xy(P::<X, Y>::LAST), (x, y), "LAST"); ensure_eq!(xy(P::<X, Y>::CENTER), (x / 2, y / 2), "CENTER");
        ensure_eq!(xy(P::<X, Y>::TOP_LEFT), (0, 0), "TOP_LEFT"); ensure_eq!(xy(P::<X, Y>::TOP_RIGHT), (x, 0), "TOP_RIGHT"); ensure_eq!(xy(P::<X, Y>::BOTTOM_LEFT), (0, y), "BOTTOM_LEFT"); ensure_eq!(xy(P::<X, Y>::BOTTOM_RIGHT), (x, y), "BOTTOM_RIGHT");
        ensure_eq!(P::<X, Y>::XMAX, X, "XMAX"); ensure_eq!(P::<X, Y>::YMAX, Y, "YMAX"); ensure_eq!(P::<X, Y>::WIDTH as i64, w, "WIDTH"); ensure_eq!(P::<X, Y>::HEIGHT as i64, h, "HEIGHT"); ensure_eq!(P::<X, Y>::SIZE as i64, w * h, "SIZE");
        ensure_eq!(xy(P::<X, Y>::first()), (0, 0), "first"); ensure_eq!(xy(P::<X, Y>::last()), (x, y), "last"); ensure_eq!(xy(P::<X, Y>::default()), (0, 0), "default");
        ensure_eq!(xy(P::<X, Y>::new_static::<0, 0>()), (0, 0), "new_static"); ensure_eq!(xy(P::<X, Y>::new_static::<X, Y>()), (x, y), "new_static");
        Ok(())
    });
}
pub fn c04(c: &mut Ctx) {
    crate::dims_list!(c, c04_dim, (0,0) (0,5) (5,0) (1,1) (3,3) (4,9) (9,4) (255,255) (256,3) (3,300) (32767,2) (40000,50000) (65534,65534) (65534,1) (0,65534));
    macro_rules! tuples { ($t:ident) => {
        c.group(concat!("pair of ", stringify!($t)));
        for x in $t::samples() {
            c.case(|| format!("{x}"), || {
                let p = <($t, $t) as PosT>::new(x, 7u8); ensure_eq!(p, Ok((x, 7)), "new"); let p = p.unwrap();
                ensure_eq!(PosT::x(&p), x, "x"); ensure_eq!(PosT::y(&p), 7, "y"); ensure_eq!(PosT::tuple(&p), (x, 7), "tuple"); ensure_eq!(p.into_tuple(), (x, 7), "into_tuple"); ensure_eq!(p.inner_tuple(), (x, 7), "inner_tuple");
                ensure_eq!(<($t, $t) as PosT>::new_((3, x)), (3, x), "new_");
                ensure_eq!(<($t, $t) as PosT>::tryfrom_pos((7i16, 8i16)), Ok((7, 8)), "tryfrom_pos");
                ensure_eq!(<(i128, i128)>::from((x.try_into().unwrap_or(0i128), 7)), (x.try_into().unwrap_or(0i128), 7), "");
                Ok(())
            });
        }
        c.case(|| "first, last".into(), || { ensure_eq!(<($t, $t)>::first(), ($t::MIN, $t::MIN), "first"); ensure_eq!(<($t, $t)>::last(), ($t::MAX, $t::MAX), "last"); Ok(()) });
        for s in i128::samples() {
            c.case(|| format!("new(i128 {s})"), || { ensure_eq!(<($t, $t) as PosT>::new(s, 0u8).ok(), $t::try_from(s).ok().map(|v| (v, 0)), "x"); ensure_eq!(<($t, $t) as PosT>::new(1u8, s).ok(), $t::try_from(s).ok().map(|v| (1, v)), "y"); Ok(()) });
        }
    } }
    tuples!(u8); tuples!(u16); tuples!(u32); tuples!(u64); tuples!(u128); tuples!(i8); tuples!(i16); tuples!(i32);
}

fn c05_dim<const X: u16, const Y: u16, const S: usize, const W: usize>(c: &mut Ctx) {
    c.group(format!("Pos<{X}, {Y}>"));
    type P<const X: u16, const Y: u16> = Pos<X, Y>;
    let (w, h) = (X as usize + 1, Y as usize + 1);
    c.case(|| "dimensions".into(), || {
        ensure_eq!(P::<X, Y>::width(), w, "width"); ensure_eq!(P::<X, Y>::height(), h, "height"); ensure_eq!(P::<X, Y>::dimensions(), w * h, "dimensions");
        ensure_eq!(<P::<X, Y> as PosT>::WIDTH, w, "PosT::WIDTH"); ensure_eq!(<P::<X, Y> as PosT>::HEIGHT, h, "PosT::HEIGHT");
        ensure_eq!(P::<X, Y>::WIDTH as usize, w, "WIDTH"); ensure_eq!(P::<X, Y>::HEIGHT as usize, h, "HEIGHT"); ensure_eq!(P::<X, Y>::SIZE, w * h, "SIZE"); Ok(())
    });
    let mut is: Vec<usize> = if w * h <= 5000 { (0..w * h + 70).collect() } else {
        let mut v = vec![]; for k in 0..12 { v.extend([k, w * h - 1 - k, w * h + k, w * k, w * (h / 2) + k, w * h / 2 + k, (1 << 16) + k, (1 << 16) * k]); } v };
    for k in 0..9 { is.extend([usize::MAX - k, (1 << 32) + k, (1 << 32) - 1 - k, (1 << 63) + k, (1 << 48) + k, (1usize << 16) * w * h + k]); }
    let mut r = c.rng(); for _ in 0..200 { is.push(r.below(w * h)); is.push(r.next() as usize); }
    for i in is {
        c.case(|| format!("index {i}"), || {
            let e = if i < w * h { Ok(((i % w) as i64, (i / w) as i64)) } else { Err(Error::OutOfBounds) };
            ensure_eq!(P::<X, Y>::tryfrom_usize(i).map(xy), e, "tryfrom_usize"); ensure_eq!(P::<X, Y>::try_from(i).map(xy), e, "try_from");
            if let Ok(p) = P::<X, Y>::tryfrom_usize(i) { ensure_eq!(p.to_usize(), i, "to_usize"); ensure_eq!(usize::from(p), i, "usize::from"); ensure_eq!(usize::from(&p), i, "usize::from reference"); }
            Ok(())
        });
    }
}
pub fn c05(c: &mut Ctx) {
    small_dims!(c, c05_dim); medium_dims!(c, c05_dim);
    crate::dims_list!(c, c05_dim, (255,255) (255,256) (256,255) (300,7) (7,300) (999,999) (32767,32767) (65534,65534) (65534,1) (1,65534) (65534,0) (0,65534) (40000,50000));
    macro_rules! tup { ($t:ident, $w:expr) => {
        c.group(concat!("pair of ", stringify!($t)));
        let w: usize = $w;
        c.case(|| "dimensions".into(), || { type T = ($t, $t); ensure_eq!(T::width(), w, "width"); ensure_eq!(T::height(), w, "height"); ensure_eq!(T::dimensions(), w * w, "dimensions"); ensure_eq!(<T as PosT>::WIDTH, w, "WIDTH"); ensure_eq!(<T as PosT>::HEIGHT, w, "HEIGHT"); Ok(()) });
        let mut r = c.rng();
        for k in 0..600usize {
            let i = match k % 4 { 0 => k, 1 => w * w - 1 - k / 2, 2 => r.below(w * w), _ => w * w + k };
            c.case(|| format!("index {i}"), || {
                let e = if i < w * w { Ok(((i % w) as $t, (i / w) as $t)) } else { Err(Error::OutOfBounds) };
                ensure_eq!(<($t, $t)>::tryfrom_usize(i), e, "tryfrom_usize"); if let Ok(p) = e { ensure_eq!(p.to_usize(), i, "to_usize"); } Ok(())
            });
        }
    } }
    tup!(u8, 256); tup!(u16, 65536);
    c.group("PosT constants of integer pairs");
    c.case(|| "u32".into(), || { ensure_eq!(<(u32, u32) as PosT>::WIDTH, 1 << 32, "WIDTH"); ensure_eq!(<(u32, u32) as PosT>::HEIGHT, 1 << 32, "HEIGHT"); ensure_eq!(<(u32, u32)>::width(), 1 << 32, "width"); ensure_eq!(<(u32, u32)>::height(), 1 << 32, "height"); Ok(()) });
    c.case(|| "signed".into(), || { ensure_eq!(<(i8, i8) as PosT>::WIDTH, 256, "WIDTH"); ensure_eq!(<(i16, i16) as PosT>::HEIGHT, 65536, "HEIGHT"); ensure_eq!(<(i32, i32) as PosT>::WIDTH, 1 << 32, "WIDTH"); Ok(()) });
}

fn c06_dim<const X: u16, const Y: u16, const S: usize, const W: usize>(c: &mut Ctx) {
    c.group(format!("Pos<{X}, {Y}>"));
    let (w, h) = (X as i64 + 1, Y as i64 + 1);
    let ps: Vec<(i64, i64)> = if S <= 400 { all_xy(w, h) } else { near(X).into_iter().flat_map(|x| near(Y).into_iter().map(move |y| (x as i64, y as i64))).filter(|p| inside(w, h, p.0, p.1)).collect() };
    for (x, y) in ps { for d in ALL {
        c.case(|| format!("({x}, {y}) + {d:?}"), || {
            let p = mk::<X, Y>(x, y); let v = vec_of(d);
            let e = if inside(w, h, x + v.0, y + v.1) { Ok((x + v.0, y + v.1)) } else { Err(Error::OutOfBounds) };
            ensure_eq!((p + d).map(xy), e, "value"); ensure_eq!((&p + d).map(xy), e, "reference"); ensure_eq!(pos_dir_add(p, d).map(xy), e, "pos_dir_add"); ensure_eq!(pos_dir_add_ok(p, d).map(xy), e.clone().ok(), "pos_dir_add_ok");
            ensure_eq!((p.0 + d).map(|t| (t.0.into_inner() as i64, t.1.into_inner() as i64)), e, "bounded pair"); ensure_eq!((&p.0 + d).map(|t| (t.0.into_inner() as i64, t.1.into_inner() as i64)), e, "reference to bounded pair");
            Ok(())
        });
    } }
}
pub fn c06(c: &mut Ctx) {
    small_dims!(c, c06_dim); medium_dims!(c, c06_dim); crate::dims_list!(c, c06_dim, (65534,65534) (255,300) (0,65534) (32768,1));
    macro_rules! pairs { ($t:ident) => {
        c.group(concat!("pair of ", stringify!($t)));
        let vals = [$t::MIN, $t::MIN + 1, $t::MIN + 2, 0, 1, 2, (0 as $t).wrapping_sub(1), (0 as $t).wrapping_sub(2), $t::MAX - 2, $t::MAX - 1, $t::MAX, $t::MAX / 2];
        for x in vals { for y in vals { for d in ALL {
            c.case(|| format!("({x}, {y}) + {d:?}"), || {
                let v = vec_of(d);
                let step = |a: $t, s: i64| match s { 0 => Some(a), 1 => a.checked_add(1), _ => a.checked_sub(1) };
                let e = match (step(x, v.0), step(y, v.1)) { (Some(a), Some(b)) => Ok((a, b)), _ => Err(Error::OutOfBounds) };
                ensure_eq!((x, y) + d, e, "value"); ensure_eq!(&(x, y) + d, e, "reference"); Ok(())
            });
        } } }
    } }
    pairs!(u8); pairs!(u16); pairs!(u32); pairs!(u64); pairs!(u128); pairs!(usize); pairs!(i8); pairs!(i16); pairs!(i32); pairs!(i64); pairs!(i128); pairs!(isize);
    c.group("mixed pairs");
    type A = BoundedI8<-3, 2>; type B = BoundedU32<4, 7>;
    for x in -3..=2i8 { for y in 4..=7u32 { for d in ALL {
        c.case(|| format!("({x}, {y}) + {d:?}"), || {
            let v = vec_of(d); let (a, b) = (x as i64 + v.0, y as i64 + v.1);
            let e = if (-3..=2).contains(&a) && (4..=7).contains(&b) { Ok((a, b)) } else { Err(Error::OutOfBounds) };
            let p = (A::new(x).unwrap(), B::new(y).unwrap());
            ensure_eq!((p + d).map(|t| (t.0.into_inner() as i64, t.1.into_inner() as i64)), e, "value"); ensure_eq!((&p + d).map(|t| (t.0.into_inner() as i64, t.1.into_inner() as i64)), e, "reference"); Ok(())
        });
    } } }
}

fn c09_pair<P: PosT + std::ops::Add<Dir, Output = Result<P, Error>>>(a: P, b: P, f: &dyn Fn(P) -> (i64, i64)) -> Result<(), String> {
    let (pa, pb) = (f(a), f(b));
    let (dx, dy) = ((pb.0 - pa.0).signum(), (pb.1 - pa.1).signum());
    let diag = direction_to::<P, true>(&a, &b);
    ensure_eq!(diag.map(vec_of), if pa == pb { None } else { Some((dx, dy)) }, "with diagonals");
    let card = direction_to::<P, false>(&a, &b);
    let e = if pa == pb { None } else if dy < 0 { Some(Dir::N) } else if dx > 0 { Some(Dir::E) } else if dy > 0 { Some(Dir::S) } else { Some(Dir::W) };
    ensure_eq!(card, e, "without diagonals");
    for d in [diag, card].into_iter().flatten() {
        let Ok(q) = a + d else { return Err(format!("step {d:?} leaves the grid")) };
        let q = f(q);
        ensure!((q.0 - pb.0).abs() + (q.1 - pb.1).abs() < (pa.0 - pb.0).abs() + (pa.1 - pb.1).abs(), "step {d:?} does not get closer");
    }
    Ok(())
}
fn c09_dim<const X: u16, const Y: u16, const S: usize, const W: usize>(c: &mut Ctx) {
    c.group(format!("Pos<{X}, {Y}>"));
    let (w, h) = (X as i64 + 1, Y as i64 + 1);
    let mut ps = if S <= 130 { all_xy(w, h) } else { vec![] };
    if ps.is_empty() { let mut r = c.rng(); for _ in 0..60 { ps.push((r.below(w as usize) as i64, r.below(h as usize) as i64)); } ps.extend([(0, 0), (w - 1, h - 1), (0, h - 1), (w - 1, 0)]); }
    for a in &ps { for b in &ps { c.case(|| format!("{a:?} to {b:?}"), || c09_pair(mk::<X, Y>(a.0, a.1), mk::<X, Y>(b.0, b.1), &xy)); } }
}
pub fn c09(c: &mut Ctx) {
    small_dims!(c, c09_dim); medium_dims!(c, c09_dim); crate::dims_list!(c, c09_dim, (65534,65534) (300,2) (40000,40000));
    macro_rules! tup { ($t:ident) => {
        c.group(concat!("pair of ", stringify!($t)));
        let vals = [$t::MIN, $t::MIN + 1, 1, 0, (0 as $t).wrapping_sub(1), $t::MAX / 2, $t::MAX - 1, $t::MAX];
        for x in vals { for y in vals { for x2 in vals { for y2 in vals { c.case(|| format!("({x}, {y}) to ({x2}, {y2})"), || c09_pair((x, y), (x2, y2), &|p: ($t, $t)| (p.0 as i64, p.1 as i64))); } } } }
    } }
    tup!(u8); tup!(u16); tup!(u32); tup!(i8); tup!(i16); tup!(i32);
}

fn c10_dim<const X: u16, const Y: u16, const S: usize, const W: usize>(c: &mut Ctx) {
    c.group(format!("Pos<{X}, {Y}>"));
    let (w, h) = (X as i64 + 1, Y as i64 + 1);
    let ps: Vec<(i64, i64)> = if S <= 400 { all_xy(w, h) } else { near(X).into_iter().flat_map(|x| near(Y).into_iter().map(move |y| (x as i64, y as i64))).filter(|p| inside(w, h, p.0, p.1)).collect() };
    for (x, y) in ps {
        c.case(|| format!("({x}, {y})"), || {
            let p = mk::<X, Y>(x, y);
            ensure_eq!(xy(p.flip_h()), (w - 1 - x, y), "flip_h"); ensure_eq!(xy(p.flip_v()), (x, h - 1 - y), "flip_v");
            ensure_eq!(p.flip_h().flip_h(), p, "flip_h twice"); ensure_eq!(p.flip_v().flip_v(), p, "flip_v twice");
            let (ex, ey) = (x == 0 || x == w - 1, y == 0 || y == h - 1);
            ensure_eq!(p.is_corner(), ex && ey, "is_corner"); ensure_eq!(p.is_side(), ex || ey, "is_side");
            if w == h {
                ensure_eq!(xy(p.rotate_cw()), (h - 1 - y, x), "rotate_cw"); ensure_eq!(xy(p.rotate_cc()), (y, w - 1 - x), "rotate_cc");
                ensure_eq!(p.rotate_cw().rotate_cc(), p, "cw then cc"); ensure_eq!(p.rotate_cc().rotate_cw(), p, "cc then cw"); ensure_eq!(p.rotate_cw().rotate_cw().rotate_cw().rotate_cw(), p, "four rotations");
            }
            Ok(())
        });
    }
}
pub fn c10(c: &mut Ctx) {
    small_dims!(c, c10_dim); medium_dims!(c, c10_dim); crate::dims_list!(c, c10_dim, (65534,65534) (255,300) (300,300) (40000,40000));
    macro_rules! tup { ($t:ident) => {
        c.group(concat!("pair of ", stringify!($t)));
        let vals = [0 as $t, 1, 2, 100, $t::MAX / 2, $t::MAX / 2 + 1, $t::MAX - 1, $t::MAX];
        for x in vals { for y in vals { c.case(|| format!("({x}, {y})"), || {
            let p = (x, y);
            ensure_eq!(p.flip_h(), ($t::MAX - x, y), "flip_h"); ensure_eq!(p.flip_v(), (x, $t::MAX - y), "flip_v"); ensure_eq!(p.rotate_cw(), ($t::MAX - y, x), "rotate_cw"); ensure_eq!(p.rotate_cc(), (y, $t::MAX - x), "rotate_cc");
            let (ex, ey) = (x == 0 || x == $t::MAX, y == 0 || y == $t::MAX);
            ensure_eq!(p.is_corner(), ex && ey, "is_corner"); ensure_eq!(p.is_side(), ex || ey, "is_side"); Ok(())
        }); } }
    } }
    tup!(u8); tup!(u16); tup!(u32); tup!(u64); tup!(u128);
}

fn c11_pair<P: PosT>(a: P, b: P, f: &dyn Fn(P) -> (i64, i64)) -> Result<(), String> {
    let (pa, pb) = (f(a), f(b));
    let (dx, dy) = ((pa.0 - pb.0).unsigned_abs(), (pa.1 - pb.1).unsigned_abs());
    ensure_eq!(a.manhattan(&b) as u64, dx + dy, "manhattan"); ensure_eq!(a.chebyshev(&b) as u64, dx.max(dy), "chebyshev"); Ok(())
}
fn c11_dim<const X: u16, const Y: u16, const S: usize, const W: usize>(c: &mut Ctx) {
    c.group(format!("Pos<{X}, {Y}>"));
    let (w, h) = (X as i64 + 1, Y as i64 + 1);
    let mut r = c.rng();
    let mut ps = if S <= 130 { all_xy(w, h) } else { vec![] };
    if ps.is_empty() { for _ in 0..40 { ps.push((r.below(w as usize) as i64, r.below(h as usize) as i64)); } ps.extend([(0, 0), (w - 1, h - 1), (0, h - 1), (w - 1, 0)]); }
    let n = ps.len();
    for a in &ps { for b in &ps {
        c.case(|| format!("{a:?} {b:?}"), || c11_pair(mk::<X, Y>(a.0, a.1), mk::<X, Y>(b.0, b.1), &xy));
        for k in 0..n {
            if n > 16 && r.below(n) > 6 { continue; }
            let p = ps[k];
            c.case(|| format!("{p:?} inside {a:?} {b:?}"), || {
                let e = p.0 >= a.0.min(b.0) && p.0 <= a.0.max(b.0) && p.1 >= a.1.min(b.1) && p.1 <= a.1.max(b.1);
                ensure_eq!(mk::<X, Y>(p.0, p.1).inside(&mk::<X, Y>(a.0, a.1), &mk::<X, Y>(b.0, b.1)), e, "inside"); Ok(())
            });
        }
    } }
    c.case(|| "bounding box of nothing".into(), || { ensure_eq!(Pos::<X, Y>::tlbr_of(std::iter::empty()), Err(Error::Empty), "tlbr_of"); Ok(()) });
    for k in 0..300 {
        let m = 1 + k % 6;
        let v: Vec<(i64, i64)> = (0..m).map(|_| ps[r.below(n)]).collect();
        c.case(|| format!("bounding box of {v:?}"), || {
            let e = ((v.iter().map(|p| p.0).min().unwrap(), v.iter().map(|p| p.1).min().unwrap()), (v.iter().map(|p| p.0).max().unwrap(), v.iter().map(|p| p.1).max().unwrap()));
            ensure_eq!(Pos::<X, Y>::tlbr_of(v.iter().map(|p| mk::<X, Y>(p.0, p.1))).map(|(a, b)| (xy(a), xy(b))), Ok(e), "tlbr_of"); Ok(())
        });
    }
}
pub fn c11(c: &mut Ctx) {
    small_dims!(c, c11_dim); medium_dims!(c, c11_dim); crate::dims_list!(c, c11_dim, (65534,65534) (300,2) (40000,40000));
    macro_rules! tup { ($t:ident) => {
        c.group(concat!("pair of ", stringify!($t)));
        let vals = [0 as $t, 1, 5, $t::MAX / 2, $t::MAX / 2 + 1, $t::MAX - 1, $t::MAX];
        for x in vals { for y in vals { for x2 in vals { for y2 in vals { c.case(|| format!("({x}, {y}) ({x2}, {y2})"), || c11_pair((x, y), (x2, y2), &|p: ($t, $t)| (p.0 as i64, p.1 as i64))); } } } }
    } }
    tup!(u8); tup!(u16); tup!(u32);
}

/// the size hint bounds what is left
fn bounds<I: Iterator>(it: &I, left: usize) -> Result<(), String> {
    let h = it.size_hint();
    ensure!(h.0 <= left && h.1.map_or(true, |m| left <= m), "size_hint with {left} left: {h:?}");
    Ok(())
}
/// drive an iterator from both ends and compare with the expected sequence
fn both_ends<I: DoubleEndedIterator>(mut it: I, items: &[(i64, i64)], f: &dyn Fn(I::Item) -> (i64, i64), next_pattern: &mut dyn FnMut(usize) -> bool) -> Result<(), String> {
    let (mut i, mut j) = (0, items.len());
    for k in 0..items.len() + 4 {
        bounds(&it, j - i)?;
        if next_pattern(k) {
            let e = if i < j { j -= 1; Some(items[j]) } else { None };
            ensure_eq!(it.next_back().map(f), e, format!("call {k}, next_back"));
        } else {
            let e = if i < j { i += 1; Some(items[i - 1]) } else { None };
            ensure_eq!(it.next().map(f), e, format!("call {k}, next"));
        }
    }
    Ok(())
}
fn c12_type<P: PosT>(c: &mut Ctx, xr: (i64, i64), yr: (i64, i64), f: &dyn Fn(P) -> (i64, i64), mk: &dyn Fn(i64, i64) -> P) {
    let hs: Vec<(i64, i64)> = (yr.0..=yr.1).flat_map(|y| (xr.0..=xr.1).map(move |x| (x, y))).collect();
    let vs: Vec<(i64, i64)> = (xr.0..=xr.1).flat_map(|x| (yr.0..=yr.1).map(move |y| (x, y))).collect();
    c.case(|| "forward".into(), || {
        both_ends(P::iter(), &hs, f, &mut |_| false)?; both_ends(P::iter_horizontal(), &hs, f, &mut |_| false)?; both_ends(P::iter_orientation::<true>(), &hs, f, &mut |_| false)?;
        both_ends(P::iter_vertical(), &vs, f, &mut |_| false)?; both_ends(P::iter_orientation::<false>(), &vs, f, &mut |_| false)?; both_ends(PosTIter::<true, P>::default(), &hs, f, &mut |_| false)?; both_ends(PosTIter::<false, P>::default(), &vs, f, &mut |_| false)
    });
    c.case(|| "collect".into(), || { ensure!(P::iter().map(f).eq(hs.iter().copied()), "iter"); ensure!(P::iter_vertical().map(f).eq(vs.iter().copied()), "iter_vertical"); ensure!(P::iter().rev().map(f).eq(hs.iter().rev().copied()), "rev"); ensure!(P::iter_vertical().rev().map(f).eq(vs.iter().rev().copied()), "vertical rev"); Ok(()) });
    if hs.len() <= 400 { c.case(|| "every method".into(), || {
        use crate::iters::*; laws_back(&P::iter, &hs, f)?; laws_back(&P::iter_vertical, &vs, f)?; laws_clone(&P::iter, &hs, f)?; laws_clone(&P::iter_vertical, &vs, f) }); }
    c.case(|| "backward".into(), || { both_ends(P::iter(), &hs, f, &mut |_| true)?; both_ends(P::iter_vertical(), &vs, f, &mut |_| true) });
    c.case(|| "alternating".into(), || { both_ends(P::iter(), &hs, f, &mut |k| k % 2 == 1)?; both_ends(P::iter(), &hs, f, &mut |k| k % 2 == 0)?; both_ends(P::iter_vertical(), &vs, f, &mut |k| k % 2 == 1)?; both_ends(P::iter_vertical(), &vs, f, &mut |k| k % 2 == 0) });
    if hs.len() <= 8 { for pat in 0..1u32 << (hs.len() + 4) { c.case(|| format!("interleaving {pat:#x}"), || { both_ends(P::iter(), &hs, f, &mut |k| pat >> k & 1 == 1)?; both_ends(P::iter_vertical(), &vs, f, &mut |k| pat >> k & 1 == 1) }); } }
    else { let seed = c.rng().next(); for s in 0..(if hs.len() < 1000 { 20 } else { 2 }) { c.case(|| format!("random interleaving {s}"), || { let mut r = Rng(seed + s); both_ends(P::iter(), &hs, f, &mut |_| r.chance(1, 2))?; let mut r = Rng(seed + 77 + s); both_ends(P::iter_vertical(), &vs, f, &mut |_| r.chance(1, 3)) }); } }
    for (seq, hor) in [(&hs, true), (&vs, false)] {
        for i in 0..seq.len() {
            if seq.len() > 1000 && i % 97 != 0 && i % (xr.1 - xr.0 + 1) as usize > 2 { continue; }
            let p = seq[i];
            c.case(|| format!("next/prev of {p:?} horizontal {hor}"), || {
                let q = mk(p.0, p.1);
                let (n, b) = if hor { (q.next(), q.prev()) } else { (q.next_y(), q.prev_y()) };
                ensure_eq!(n.map(f), seq.get(i + 1).copied(), "next"); ensure_eq!(b.map(f), if i > 0 { Some(seq[i - 1]) } else { None }, "prev"); Ok(())
            });
        }
    }
}
fn c12_dim<const X: u16, const Y: u16, const S: usize, const W: usize>(c: &mut Ctx) {
    c.group(format!("Pos<{X}, {Y}>"));
    c12_type::<Pos<X, Y>>(c, (0, X as i64), (0, Y as i64), &xy, &mk);
}
/// a position type of our own, whose ranges do not start at zero
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Default)]
pub struct Off((BoundedI8<-3, 2>, BoundedU32<4, 7>));
impl PosT for Off {
    type Xtype = BoundedI8<-3, 2>;
    type Ytype = BoundedU32<4, 7>;
    const WIDTH: usize = 6;
    const HEIGHT: usize = 4;
    fn new_(xy: (Self::Xtype, Self::Ytype)) -> Self { Off(xy) }
    fn tuple(&self) -> (Self::Xtype, Self::Ytype) { self.0 }
}
fn offxy(p: Off) -> (i64, i64) { (p.0 .0.into_inner() as i64, p.0 .1.into_inner() as i64) }
fn offmk(x: i64, y: i64) -> Off { Off((BoundedI8::new(x as i8).unwrap(), BoundedU32::new(y as u32).unwrap())) }
pub fn c12(c: &mut Ctx) {
    small_dims!(c, c12_dim); medium_dims!(c, c12_dim); crate::dims_list!(c, c12_dim, (0,300) (300,0) (99,59));
    c.group("pair of u8"); c12_type::<(u8, u8)>(c, (0, 255), (0, 255), &|p| (p.0 as i64, p.1 as i64), &|x, y| (x as u8, y as u8));
    c.group("pair of i8"); c12_type::<(i8, i8)>(c, (-128, 127), (-128, 127), &|p| (p.0 as i64, p.1 as i64), &|x, y| (x as i8, y as i8));
    c.group("ranges not starting at zero"); c12_type::<Off>(c, (-3, 2), (4, 7), &offxy, &offmk);
    c.group("ends of large grids");
    type L = Pos<65534, 65534>;
    c.case(|| "Pos<65534, 65534>".into(), || {
        let mut it = L::iter(); for k in 0..70000i64 { ensure_eq!(it.next().map(xy), Some((k % 65535, k / 65535)), "next"); }
        for k in 0..70000i64 { ensure_eq!(it.next_back().map(xy), Some((65534 - k % 65535, 65534 - k / 65535)), "next_back"); }
        let mut it = L::iter_vertical(); for k in 0..70000i64 { ensure_eq!(it.next().map(xy), Some((k / 65535, k % 65535)), "vertical next"); }
        for k in 0..70000i64 { ensure_eq!(it.next_back().map(xy), Some((65534 - k / 65535, 65534 - k % 65535)), "vertical next_back"); }
        for n in [255i64, 256, 65533, 65534, 65535, 65536, 131070, 131071] {
            let mut it = L::iter(); ensure_eq!(it.nth(n as usize).map(xy), Some((n % 65535, n / 65535)), format!("nth({n})")); ensure_eq!(it.next().map(xy), Some(((n + 1) % 65535, (n + 1) / 65535)), format!("after nth({n})"));
            let mut it = L::iter(); ensure_eq!(it.nth_back(n as usize).map(xy), Some((65534 - n % 65535, 65534 - n / 65535)), format!("nth_back({n})")); ensure_eq!(it.next().map(xy), Some((0, 0)), "next");
            let mut it = L::iter_vertical(); ensure_eq!(it.nth(n as usize).map(xy), Some((n / 65535, n % 65535)), format!("vertical nth({n})")); ensure_eq!(it.next().map(xy), Some(((n + 1) / 65535, (n + 1) % 65535)), format!("after vertical nth({n})"));
            let mut it = L::iter_vertical(); ensure_eq!(it.nth_back(n as usize).map(xy), Some((65534 - n / 65535, 65534 - n % 65535)), format!("vertical nth_back({n})"));
        }
        Ok(())
    });
    macro_rules! ends { ($t:ident) => {
        c.case(|| concat!("pair of ", stringify!($t)).into(), || {
            let (lo, hi) = ($t::MIN, $t::MAX);
            ensure_eq!(<($t, $t)>::iter().take(3).collect::<Vec<_>>().len(), 3, "collect"); ensure_eq!(<($t, $t)>::iter_vertical().rev().take(3).collect::<Vec<_>>().len(), 3, "collect");
            for it in [<($t, $t)>::iter().size_hint(), <($t, $t)>::iter_vertical().size_hint()] { ensure!(it.0 as u128 <= 1 << ($t::BITS.min(62) * 2) && it.1.map_or(true, |m| $t::BITS < 32 && m as u128 >= 1 << ($t::BITS * 2)), "size_hint {it:?}"); }
            let mut it = <($t, $t)>::iter(); for k in 0..200 { ensure_eq!(it.next(), Some((lo + k, lo)), "next"); } for k in 0..200 { ensure_eq!(it.next_back(), Some((hi - k, hi)), "next_back"); }
            let mut it = <($t, $t)>::iter_vertical(); for k in 0..200 { ensure_eq!(it.next(), Some((lo, lo + k)), "vertical next"); } for k in 0..200 { ensure_eq!(it.next_back(), Some((hi, hi - k)), "vertical next_back"); }
            ensure_eq!((hi, lo).next(), Some((lo, lo + 1)), "next"); ensure_eq!((lo, hi).next_y(), Some((lo + 1, lo)), "next_y"); ensure_eq!((lo, hi).prev(), Some((hi, hi - 1)), "prev"); ensure_eq!((hi, lo).prev_y(), Some((hi - 1, hi)), "prev_y");
            ensure_eq!((hi, hi).next(), None, "next"); ensure_eq!((hi, hi).next_y(), None, "next_y"); ensure_eq!((lo, lo).prev(), None, "prev"); ensure_eq!((lo, lo).prev_y(), None, "prev_y"); Ok(())
        });
    } }
    ends!(u16); ends!(u32); ends!(u64); ends!(u128); ends!(i16); ends!(i32);
}

fn exactly<I: Iterator>(mut it: I, items: Vec<(i64, i64)>, f: &dyn Fn(I::Item) -> (i64, i64)) -> Result<(), String> {
    for (k, e) in items.iter().enumerate() { bounds(&it, items.len() - k)?; ensure_eq!(it.next().map(f), Some(*e), format!("item {k}")); }
    for _ in 0..6 { bounds(&it, 0)?; ensure_eq!(it.next().map(f), None, "after the end"); }
    Ok(())
}
fn c13_type<P: PosT>(c: &mut Ctx, xr: (i64, i64), yr: (i64, i64), f: &dyn Fn(P) -> (i64, i64), mk: &dyn Fn(i64, i64) -> P) {
    let all: Vec<(i64, i64)> = (yr.0..=yr.1).flat_map(|y| (xr.0..=xr.1).map(move |x| (x, y))).collect();
    let mut pairs: Vec<((i64, i64), (i64, i64))> = vec![];
    let mut r = c.rng();
    if all.len() <= 64 { for a in &all { for b in &all { if a.0 <= b.0 && a.1 <= b.1 { pairs.push((*a, *b)); } } } }
    else {
        for _ in 0..400 { let (p, q) = (all[r.below(all.len())], all[r.below(all.len())]); pairs.push(((p.0.min(q.0), p.1.min(q.1)), (p.0.max(q.0), p.1.max(q.1)))); }
        for p in all.iter().filter(|p| p.0 == xr.0 || p.0 == xr.1 || p.1 == yr.0 || p.1 == yr.1) { pairs.push((*p, *p)); pairs.push(((xr.0, yr.0), *p)); pairs.push((*p, (xr.1, yr.1))); }
        if pairs.len() > 500 { let n = pairs.len(); let mut v = vec![]; for _ in 0..500 { v.push(pairs[r.below(n)]); } pairs = v; }
    }
    for (k, (a, b)) in pairs.into_iter().enumerate() {
        let items: Vec<(i64, i64)> = (a.1..=b.1).flat_map(|y| (a.0..=b.0).map(move |x| (x, y))).collect();
        c.case(|| format!("range {a:?} to {b:?}"), || { exactly(P::iter_range(mk(a.0, a.1), mk(b.0, b.1)), items.clone(), f)?; exactly(PosTIterRange::new(mk(a.0, a.1), mk(b.0, b.1)), items.clone(), f) });
        if k < 16 && items.len() < 300 || k % 31 == 0 && items.len() < 80 { c.case(|| format!("range {a:?} to {b:?}, every method"), || { let m = || P::iter_range(mk(a.0, a.1), mk(b.0, b.1)); crate::iters::laws(&m, &items, f)?; crate::iters::laws_clone(&m, &items, f) }); }
    }
    for x in [xr.0, xr.1, (xr.0 + xr.1) / 2] { c.case(|| format!("column {x}, every method"), || { let v: Vec<_> = (yr.0..=yr.1).map(|y| (x, y)).collect(); let m = || P::iter_in_x(mk(x, yr.0).x()); crate::iters::laws(&m, &v, f)?; crate::iters::laws_clone(&m, &v, f) }); }
    for y in [yr.0, yr.1, (yr.0 + yr.1) / 2] { c.case(|| format!("row {y}, every method"), || { let v: Vec<_> = (xr.0..=xr.1).map(|x| (x, y)).collect(); let m = || P::iter_in_y(mk(xr.0, y).y()); crate::iters::laws(&m, &v, f)?; crate::iters::laws_clone(&m, &v, f) }); }
    c.case(|| "x and y coordinates, every method".into(), || {
        crate::iters::laws(&P::iter_x, &(xr.0..=xr.1).map(|x| (x, yr.0)).collect::<Vec<_>>(), &|x| f(P::new_((x, mk(xr.0, yr.0).y()))))?;
        crate::iters::laws(&P::iter_y, &(yr.0..=yr.1).map(|y| (xr.0, y)).collect::<Vec<_>>(), &|y| f(P::new_((mk(xr.0, yr.0).x(), y))))
    });
    for x in xr.0..=xr.1 { c.case(|| format!("column {x}"), || exactly(P::iter_in_x(mk(x, yr.0).x()), (yr.0..=yr.1).map(|y| (x, y)).collect(), f)); }
    for y in yr.0..=yr.1 { c.case(|| format!("row {y}"), || exactly(P::iter_in_y(mk(xr.0, y).y()), (xr.0..=xr.1).map(|x| (x, y)).collect(), f)); }
    c.case(|| "x and y coordinates".into(), || {
        exactly(P::iter_x(), (xr.0..=xr.1).map(|x| (x, yr.0)).collect(), &|x| f(P::new_((x, mk(xr.0, yr.0).y()))))?;
        exactly(P::iter_y(), (yr.0..=yr.1).map(|y| (xr.0, y)).collect(), &|y| f(P::new_((mk(xr.0, yr.0).x(), y))))
    });
}
fn c13_dim<const X: u16, const Y: u16, const S: usize, const W: usize>(c: &mut Ctx) {
    c.group(format!("Pos<{X}, {Y}>"));
    c13_type::<Pos<X, Y>>(c, (0, X as i64), (0, Y as i64), &xy, &mk);
}
pub fn c13(c: &mut Ctx) {
    small_dims!(c, c13_dim); medium_dims!(c, c13_dim);
    c.group("pair of u8"); c13_type::<(u8, u8)>(c, (0, 255), (0, 255), &|p| (p.0 as i64, p.1 as i64), &|x, y| (x as u8, y as u8));
    c.group("pair of i8"); c13_type::<(i8, i8)>(c, (-128, 127), (-128, 127), &|p| (p.0 as i64, p.1 as i64), &|x, y| (x as i8, y as i8));
    c.group("ranges not starting at zero"); c13_type::<Off>(c, (-3, 2), (4, 7), &offxy, &offmk);
    c.group("large grids");
    macro_rules! large { ($P:ty, $hi:expr, $f:expr, $mk:expr) => {
        for (a, b) in [(($hi - 2, $hi - 2), ($hi, $hi)), ((0, $hi - 1), (2, $hi)), (($hi - 1, 0), ($hi, 3)), (($hi, $hi), ($hi, $hi)), ((1000, 1000), (1002, 1003)), (($hi, 5), ($hi, 9))] {
            c.case(|| format!("{} range {a:?} to {b:?}", stringify!($P)), || exactly(<$P>::iter_range($mk(a.0, a.1), $mk(b.0, b.1)), (a.1..=b.1).flat_map(|y| (a.0..=b.0).map(move |x| (x, y))).collect(), &$f));
        }
    } }
    large!(Pos<65534, 65534>, 65534i64, xy, mk::<65534, 65534>);
    large!((u16, u16), 65535i64, |p: (u16, u16)| (p.0 as i64, p.1 as i64), |x, y| (x as u16, y as u16));
    large!((u32, u32), u32::MAX as i64, |p: (u32, u32)| (p.0 as i64, p.1 as i64), |x, y| (x as u32, y as u32));
    large!((i32, i32), i32::MAX as i64, |p: (i32, i32)| (p.0 as i64, p.1 as i64), |x, y| (x as i32, y as i32));
}
