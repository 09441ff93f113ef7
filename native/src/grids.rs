//! C14 to C18: grids and boolean grids
use crate::ctx::*;
use crate::positions::*;
use crate::{dims_list, ensure, ensure_eq, medium_dims, small_dims};
use sqrid::*;

type G<const X: u16, const Y: u16, const S: usize> = Grid<i32, Pos<X, Y>, S>;
fn ramp<const X: u16, const Y: u16, const S: usize>() -> G<X, Y, S> {
    let mut g = G::<X, Y, S>::repeat(0);
    for (i, c) in g.as_array_mut().iter_mut().enumerate() { *c = 1000 + i as i32; }
    g
}
fn wh<const X: u16, const Y: u16>() -> (usize, usize) { (X as usize + 1, Y as usize + 1) }
/// An iterator whose size_hint says little
struct Vague<I>(I, u8);
impl<I: Iterator> Iterator for Vague<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> { self.0.next() }
    fn size_hint(&self) -> (usize, Option<usize>) { let h = self.0.size_hint(); match self.1 { 0 => (0, None), 1 => (0, h.1.map(|u| u + 3)), 2 => (h.0 / 2, None), _ => h } }
}
fn at<const X: u16, const Y: u16>(i: usize) -> Pos<X, Y> { let w = X as usize + 1; Pos::new((i % w) as u16, (i / w) as u16).unwrap() }
/// every way of reading cell i
fn read_all<const X: u16, const Y: u16, const S: usize>(g: &G<X, Y, S>, i: usize) -> Result<i32, String> {
    let (w, p) = (X as usize + 1, at::<X, Y>(i));
    let v = *g.get(&p);
    ensure_eq!(g[p], v, "index"); ensure_eq!(g[&p], v, "index by reference"); ensure_eq!(g.as_array()[i], v, "as_array"); ensure_eq!(g.as_ref()[i], v, "as_ref");
    ensure_eq!(g.line(PosT::y(&p))[i % w], v, "line"); ensure_eq!(g.iter().nth(i).copied(), Some(v), "iter"); ensure_eq!((*g).into_inner()[i], v, "into_inner");
    ensure_eq!(g.into_iter().nth(i).copied(), Some(v), "into_iter of reference"); ensure_eq!((*g).into_iter().nth(i), Some(v), "into_iter");
    Ok(v)
}
fn same<const X: u16, const Y: u16, const S: usize>(g: &G<X, Y, S>, m: &[i32]) -> Result<(), String> {
    ensure_eq!(g.as_array().len(), m.len(), "number of cells");
    for (i, e) in m.iter().enumerate() { let v = *g.get(&at::<X, Y>(i)); ensure_eq!(v, *e, format!("cell {i}")); }
    Ok(())
}
fn c14_dim<const X: u16, const Y: u16, const S: usize, const W: usize>(c: &mut Ctx) {
    c.group(format!("Grid over Pos<{X}, {Y}>"));
    let (w, h) = wh::<X, Y>();
    c.case(|| "sizes".into(), || {
        let mut g = ramp::<X, Y, S>();
        ensure_eq!(G::<X, Y, S>::SIZE, w * h, "SIZE"); ensure_eq!(g.as_array().len(), w * h, "len"); ensure_eq!(std::mem::size_of::<G<X, Y, S>>(), 4 * w * h, "size_of");
        for y in 0..h { let p = at::<X, Y>(y * w); ensure_eq!(g.line(PosT::y(&p)).len(), w, "line len"); ensure_eq!(g.line_mut(PosT::y(&p)).len(), w, "line_mut len"); }
        ensure_eq!(g.iter().count(), S, "iter count"); Ok(())
    });
    for i in 0..S {
        if S > 150 && i % 37 > 2 && i + 4 < S && i % w > 1 && i % w + 2 < w { continue; }
        c.case(|| format!("read {i}"), || { ensure_eq!(read_all(&ramp::<X, Y, S>(), i)?, 1000 + i as i32, "value"); Ok(()) });
        for how in 0..9 {
            c.case(|| format!("write {i} by form {how}"), || {
                let mut g = ramp::<X, Y, S>();
                let mut m: Vec<i32> = g.as_array().to_vec();
                let p = at::<X, Y>(i);
                m[i] = -7;
                match how {
                    0 => g[p] = -7, 1 => g[&p] = -7, 2 => *g.get_mut(&p) = -7, 3 => g.as_array_mut()[i] = -7, 4 => g.as_mut()[i] = -7,
                    5 => g.line_mut(PosT::y(&p))[i % w] = -7, 6 => *g.iter_mut().nth(i).unwrap() = -7,
                    7 => { for (k, v) in (&mut g).into_iter().enumerate() { if k == i { *v = -7; } } }
                    _ => MapPos::<i32, Pos<X, Y>, W, S>::set(&mut g, p, -7),
                }
                same(&g, &m)?; ensure_eq!(read_all(&g, i)?, -7, "value"); Ok(())
            });
        }
    }
    let seed = c.rng().next();
    for s in 0..4u64 {
        c.case(|| format!("random writes {s}"), || {
            let mut r = Rng(seed + s); let mut g = ramp::<X, Y, S>(); let mut m: Vec<i32> = g.as_array().to_vec();
            for k in 0..60 { let i = r.below(S); let p = at::<X, Y>(i); m[i] = k; match r.below(3) { 0 => g[p] = k, 1 => *g.get_mut(&p) = k, _ => g.line_mut(PosT::y(&p))[i % w] = k } }
            same(&g, &m)
        });
    }
}
pub fn c14(c: &mut Ctx) {
    small_dims!(c, c14_dim); medium_dims!(c, c14_dim); dims_list!(c, c14_dim, (299,1) (1,299));
    big::c14(c);
    c.group("types made by the macros");
    #[cfg(not(feature = "unmade"))]
    c.case(|| "sizes".into(), || {
        macro_rules! made { ($($x:literal $y:literal)*) => { $( {
            type Q = sqrid_create!($x, $y, true); type P = pos_create!(Q); type R = sqrid_create!(P, false); type T = grid_create!(Q, i32); type L = gridbool_create!(Q);
            ensure_eq!((Q::XMAX, Q::YMAX, R::XMAX, R::YMAX), ($x, $y, $x, $y), "bounds"); let n = ($x + 1) * ($y + 1);
            ensure_eq!(T::SIZE, n, "SIZE"); ensure_eq!(P::iter().count(), n, "positions");
            let mut g = T::repeat(5); let mut b = L::repeat(false);
            for (i, p) in P::iter().enumerate() { g[p] = i as i32; b.set(&p, i % 3 == 0); }
            for (i, p) in P::iter().enumerate() { ensure_eq!((p.x() as usize, p.y() as usize), (i % ($x + 1), i / ($x + 1)), "position"); ensure_eq!((g[p], b[p]), (i as i32, i % 3 == 0), format!("cell {i}")); }
        } )* } }
        made!(299 1 1 299 0 0 1 0 0 1 3 6 6 3 7 7 31 0 0 31 15 1 15 15 31 31 32 0 99 1 30 32); Ok(())
    });
    c.group("pair of u8");
    c.case(|| "u8".into(), || {
        let mut g = Box::new(Grid::<u16, (u8, u8), 65536>::repeat(0));
        for i in 0..65536usize { let p = ((i % 256) as u8, (i / 256) as u8); g[p] = i as u16; }
        for i in 0..65536usize { let p = ((i % 256) as u8, (i / 256) as u8); ensure_eq!(*g.get(&p), i as u16, "get"); ensure_eq!(g.as_array()[i], i as u16, "array"); ensure_eq!(g.line(p.1)[i % 256], i as u16, "line"); }
        Ok(())
    });
}

fn c15_dim<const X: u16, const Y: u16, const S: usize, const W: usize>(c: &mut Ctx) {
    c.group(format!("Grid over Pos<{X}, {Y}>"));
    let (w, h) = wh::<X, Y>();
    c.case(|| "flip_h".into(), || { let mut g = ramp::<X, Y, S>(); g.flip_h(); let m: Vec<i32> = (0..S).map(|i| 1000 + ((i / w) * w + w - 1 - i % w) as i32).collect(); same(&g, &m)?; g.flip_h(); same(&g, ramp::<X, Y, S>().as_array()) });
    c.case(|| "flip_v".into(), || { let mut g = ramp::<X, Y, S>(); g.flip_v(); let m: Vec<i32> = (0..S).map(|i| 1000 + ((h - 1 - i / w) * w + i % w) as i32).collect(); same(&g, &m)?; g.flip_v(); same(&g, ramp::<X, Y, S>().as_array()) });
}
fn c15_rot<const X: u16, const S: usize>(c: &mut Ctx) {
    c.group(format!("Grid over Pos<{X}, {X}>"));
    let n = X as usize + 1;
    c.case(|| "rotate_cw".into(), || {
        let mut g = ramp::<X, X, S>(); g.rotate_cw();
        let mut m = vec![0; S]; for y in 0..n { for x in 0..n { m[x * n + (n - 1 - y)] = 1000 + (y * n + x) as i32; } }
        same(&g, &m)?; g.rotate_cc(); same(&g, ramp::<X, X, S>().as_array())
    });
    c.case(|| "rotate_cc".into(), || {
        let mut g = ramp::<X, X, S>(); g.rotate_cc();
        let mut m = vec![0; S]; for y in 0..n { for x in 0..n { m[(n - 1 - x) * n + y] = 1000 + (y * n + x) as i32; } }
        same(&g, &m)?; for _ in 0..3 { g.rotate_cc(); } same(&g, ramp::<X, X, S>().as_array())
    });
}
macro_rules! squares { ($c:expr, $f:ident, $($x:literal)*) => { $( $f::<$x, { ($x + 1) * ($x + 1) }>($c); )* } }
pub fn c15(c: &mut Ctx) {
    small_dims!(c, c15_dim); medium_dims!(c, c15_dim); dims_list!(c, c15_dim, (300,1) (1,300) (299,2) (70,70)); big::c15(c);
    squares!(c, c15_rot, 0 1 2 3 4 5 6 7 8 9 10 11 12 15 16 19 20 31 32 63 64);
}

fn c16_dim<const X: u16, const Y: u16, const S: usize, const W: usize>(c: &mut Ctx) {
    c.group(format!("Grid over Pos<{X}, {Y}>"));
    let (w, h) = wh::<X, Y>();
    c.case(|| "repeat, default, new".into(), || { same(&G::<X, Y, S>::repeat(5), &vec![5; S])?; same(&G::<X, Y, S>::default(), &vec![0; S])?; same(&<G<X, Y, S> as MapPos<i32, Pos<X, Y>, W, S>>::new(9), &vec![9; S]) });
    c.case(|| "default of non-copy".into(), || { let g = Grid::<String, Pos<X, Y>, S>::default(); for s in &g { ensure_eq!(s.as_str(), "", "default"); } Ok(()) });
    c.case(|| "iter_pos".into(), || {
        let g = ramp::<X, Y, S>(); let v: Vec<((i64, i64), i32)> = g.iter_pos().map(|(p, v)| (xy(p), *v)).collect();
        let e: Vec<((i64, i64), i32)> = (0..S).map(|i| (((i % w) as i64, (i / w) as i64), 1000 + i as i32)).collect();
        ensure_eq!(v, e, "iter_pos"); Ok(())
    });
    if S <= 400 { c.case(|| "every method of iter_pos, iter and into_iter".into(), || {
        let g = ramp::<X, Y, S>(); let e: Vec<((i64, i64), i32)> = (0..S).map(|i| (((i % w) as i64, (i / w) as i64), 1000 + i as i32)).collect(); let v: Vec<i32> = e.iter().map(|x| x.1).collect();
        crate::iters::laws(&|| g.iter_pos(), &e, &|(p, v)| (xy(p), *v))?; crate::iters::laws(&|| g.iter(), &v, &|x| *x)?; crate::iters::laws(&|| (&g).into_iter(), &v, &|x| *x)?; crate::iters::laws(&|| ramp::<X, Y, S>().into_iter(), &v, &|x| x)
    }); }
    c.case(|| "negation".into(), || same(&-ramp::<X, Y, S>(), &(0..S).map(|i| -1000 - i as i32).collect::<Vec<_>>()));
    for d in [-2i64, -1, 0, 1, 2, S as i64, -(S as i64)] {
        let n = S as i64 + d; if n < 0 { continue; }
        c.case(|| format!("collect {n} items"), || {
            let v: Vec<i32> = (0..n as i32).map(|i| 500 + i).collect();
            let e = if d == 0 { Some(v.clone()) } else { None };
            ensure_eq!(try_call(|| v.iter().collect::<G<X, Y, S>>()).map(|g| g.as_array().to_vec()), e, "from references"); ensure_eq!(try_call(|| v.iter().copied().collect::<G<X, Y, S>>()).map(|g| g.as_array().to_vec()), e, "from values");
            for k in 0..3 { ensure_eq!(try_call(|| Vague(v.iter(), k).collect::<G<X, Y, S>>()).map(|g| g.as_array().to_vec()), e, format!("from references, vague length {k}")); ensure_eq!(try_call(|| Vague(v.iter().copied(), k).collect::<G<X, Y, S>>()).map(|g| g.as_array().to_vec()), e, format!("from values, vague length {k}")); }
            Ok(())
        });
    }
    let seed = c.rng().next();
    for s in 0..6u64 {
        c.case(|| format!("extend with random pairs {s}"), || {
            let mut r = Rng(seed + s); let n = r.below(2 * S + 2);
            let items: Vec<(Pos<X, Y>, i32)> = (0..n).map(|k| (at::<X, Y>(r.below(S)), k as i32)).collect();
            let mut m: Vec<i32> = ramp::<X, Y, S>().as_array().to_vec();
            for (p, v) in &items { let q = xy(*p); m[q.1 as usize * w + q.0 as usize] = *v; }
            let mut g = ramp::<X, Y, S>(); g.extend(items.iter().copied()); same(&g, &m)?;
            let mut g = ramp::<X, Y, S>(); g.extend(items.iter().map(|(p, v)| (*p, v))); same(&g, &m)?;
            let mut g = ramp::<X, Y, S>(); g.extend(items.iter()); same(&g, &m)
        });
    }
    let mut r = c.rng();
    for k in 0..40 {
        let rows = match k % 5 { 0 => h, 1 => h + 1 + r.below(2), 2 => 0, _ => r.below(h + 1) };
        let vv: Vec<Vec<i32>> = (0..rows).map(|y| { let n = match r.below(8) { 0 if k % 2 == 0 => w + 1 + r.below(2), 1 | 2 => 0, 3 | 4 => w, _ => r.below(w + 1) }; (0..n).map(|x| (y * 100 + x) as i32 + 1).collect() }).collect();
        c.case(|| format!("nested vectors {:?}", vv.iter().map(|v| v.len()).collect::<Vec<_>>()), || {
            let bad = vv.len() > h || vv.iter().any(|v| v.len() > w);
            let r = G::<X, Y, S>::try_from(vv.clone());
            if bad { ensure!(matches!(r, Err(Error::OutOfBounds)), "try_from should fail with OutOfBounds"); }
            else {
                let mut m = vec![0; S]; for (y, l) in vv.iter().enumerate() { for (x, v) in l.iter().enumerate() { m[y * w + x] = *v; } }
                let Ok(g) = r else { return Err("try_from failed".into()) }; same(&g, &m)?;
            }
            let outside = vv.iter().enumerate().any(|(y, l)| !l.is_empty() && (y >= h || l.len() > w));
            let mut g = ramp::<X, Y, S>(); let r = g.extend_from_vecvec(vv.clone());
            if outside { ensure_eq!(r, Err(Error::OutOfBounds), "extend_from_vecvec"); }
            else {
                ensure_eq!(r, Ok(()), "extend_from_vecvec");
                let mut m: Vec<i32> = ramp::<X, Y, S>().as_array().to_vec(); for (y, l) in vv.iter().enumerate() { for (x, v) in l.iter().enumerate() { m[y * w + x] = *v; } } same(&g, &m)?;
            }
            Ok(())
        });
    }
}
pub fn c16(c: &mut Ctx) {
    small_dims!(c, c16_dim); medium_dims!(c, c16_dim); dims_list!(c, c16_dim, (299,0) (0,299)); big::c16(c);
    c.group("very long rows");
    c.case(|| "row longer than 65536".into(), || { let mut g = Grid::<u8, Pos<1, 1>, 4>::repeat(0); ensure_eq!(g.extend_from_vecvec(vec![vec![7; 65538]]), Err(Error::OutOfBounds), "extend_from_vecvec"); Ok(()) });
    c.case(|| "more than 65536 rows".into(), || { let mut v: Vec<Vec<u8>> = vec![vec![]; 65536]; v.push(vec![9]); let mut g = Grid::<u8, Pos<1, 1>, 4>::repeat(0); ensure_eq!(g.extend_from_vecvec(v), Err(Error::OutOfBounds), "extend_from_vecvec"); ensure_eq!(g.as_array().to_vec(), vec![0; 4], "unchanged"); Ok(()) });
}

type B<const X: u16, const Y: u16, const W: usize> = Gridbool<Pos<X, Y>, W>;
fn bools<const X: u16, const Y: u16, const W: usize>(g: &B<X, Y, W>) -> Result<Vec<bool>, String> {
    let n = (X as usize + 1) * (Y as usize + 1);
    let v: Vec<bool> = (0..n).map(|i| g.get(&at::<X, Y>(i))).collect();
    for i in 0..n { let p = at::<X, Y>(i); ensure_eq!(g[p], v[i], format!("index {i}")); ensure_eq!(g[&p], v[i], format!("index by reference {i}")); }
    Ok(v)
}
/// random fill
fn rfill<const X: u16, const Y: u16, const W: usize>(r: &mut Rng) -> (B<X, Y, W>, Vec<bool>) {
    let n = (X as usize + 1) * (Y as usize + 1);
    let (num, den) = [(0, 1), (1, 1), (1, 2), (1, 8), (7, 8)][r.below(5)];
    let m: Vec<bool> = (0..n).map(|_| r.chance(num, den)).collect();
    let mut g = if r.chance(1, 2) { B::<X, Y, W>::repeat(true) } else { B::<X, Y, W>::default() };
    for (i, b) in m.iter().enumerate() { g.set(&at::<X, Y>(i), *b); }
    (g, m)
}
fn c17_dim<const X: u16, const Y: u16, const S: usize, const W: usize>(c: &mut Ctx) {
    c17_words::<X, Y, S, W>(c);
}
fn c17_words<const X: u16, const Y: u16, const S: usize, const W: usize>(c: &mut Ctx) {
    c.group(format!("Gridbool over Pos<{X}, {Y}> with {W} words"));
    c.case(|| "fill".into(), || {
        for v in [true, false] { ensure_eq!(bools(&B::<X, Y, W>::repeat(v))?, vec![v; S], "repeat"); }
        ensure_eq!(bools(&B::<X, Y, W>::ALL_TRUE)?, vec![true; S], "ALL_TRUE"); ensure_eq!(bools(&B::<X, Y, W>::ALL_FALSE)?, vec![false; S], "ALL_FALSE"); ensure_eq!(bools(&B::<X, Y, W>::default())?, vec![false; S], "default"); Ok(())
    });
    for i in 0..S {
        if S > 300 && i % 37 > 2 && i + 4 < S && i % 32 > 1 && i % 32 < 30 { continue; }
        for init in [true, false] { for v in [true, false] { for how in 0..2 {
            c.case(|| format!("set {i} to {v} in {init}, form {how}"), || {
                let mut g = B::<X, Y, W>::repeat(init); let p = at::<X, Y>(i);
                match (how, v) { (0, _) => g.set(&p, v), (_, true) => g.set_t(&p), (_, false) => g.set_f(&p) }
                let mut m = vec![init; S]; m[i] = v; ensure_eq!(bools(&g)?, m, "values");
                let words: u32 = g.as_inner().iter().map(|w| w.count_ones()).sum(); ensure_eq!(words as usize, m.iter().filter(|b| **b).count(), "number of bits set"); Ok(())
            });
        } } }
    }
    let seed = c.rng().next();
    for s in 0..6u64 {
        c.case(|| format!("equality {s}"), || {
            let mut r = Rng(seed + s); let (a, m) = rfill::<X, Y, W>(&mut r);
            let mut b = if s % 2 == 0 { B::<X, Y, W>::repeat(true) } else { B::<X, Y, W>::repeat(false) };
            for i in (0..S).rev() { b.set(&at::<X, Y>(i), !m[i]); b.set(&at::<X, Y>(i), m[i]); }
            ensure!(a == b, "equal grids compare different"); ensure_eq!(a.cmp(&b), std::cmp::Ordering::Equal, "cmp");
            let d: B<X, Y, W> = m.iter().copied().collect(); ensure!(a == d, "collected grid compares different");
            let f: B<X, Y, W> = (0..S).filter(|i| m[*i]).map(at::<X, Y>).collect(); ensure!(a == f, "grid collected from positions compares different");
            let k = r.below(S); b.set(&at::<X, Y>(k), !m[k]); ensure!(a != b, "different grids compare equal");
            ensure_eq!(a.as_inner().to_vec(), a.into_inner().to_vec(), "inner words"); Ok(())
        });
    }
}
pub fn c17(c: &mut Ctx) {
    small_dims!(c, c17_dim); medium_dims!(c, c17_dim); dims_list!(c, c17_dim, (30,30) (98,2) (2,98) (62,0) (63,0) (64,0));
    c17_words::<31, 0, 32, 2>(c); c17_words::<7, 7, 64, 3>(c); c17_words::<3, 7, 32, 2>(c); c17_words::<15, 15, 256, 9>(c); c17_words::<1, 15, 32, 2>(c);
    big::c17(c);
    c.group("pair of u8");
    c.case(|| "all bits".into(), || {
        let mut g = Box::new(Gridbool::<(u8, u8), 2048>::repeat(false));
        for i in (0..65536usize).step_by(3) { g.set_t(&((i % 256) as u8, (i / 256) as u8)); }
        for i in 0..65536usize { ensure_eq!(g.get(&((i % 256) as u8, (i / 256) as u8)), i % 3 == 0, format!("bit {i}")); } Ok(())
    });
}

fn c18_dim<const X: u16, const Y: u16, const S: usize, const W: usize>(c: &mut Ctx) {
    c.group(format!("Gridbool over Pos<{X}, {Y}> with {W} words"));
    let (w, h) = wh::<X, Y>();
    let seed = c.rng().next();
    for s in 0..8u64 {
        c.case(|| format!("random grid {s}"), || {
            let mut r = Rng(seed + s); let (g, m) = rfill::<X, Y, W>(&mut r);
            ensure_eq!(g.iter().collect::<Vec<_>>(), m, "iter");
            let e: Vec<((i64, i64), bool)> = (0..S).map(|i| (((i % w) as i64, (i / w) as i64), m[i])).collect();
            ensure_eq!(g.iter_pos().map(|(p, b)| (xy(p), b)).collect::<Vec<_>>(), e, "iter_pos");
            ensure_eq!(g.iter_t().map(xy).collect::<Vec<_>>(), e.iter().filter(|x| x.1).map(|x| x.0).collect::<Vec<_>>(), "iter_t"); ensure_eq!(g.iter_f().map(xy).collect::<Vec<_>>(), e.iter().filter(|x| !x.1).map(|x| x.0).collect::<Vec<_>>(), "iter_f");
            let mut q = g; q.flip_h(); ensure_eq!(bools(&q)?, (0..S).map(|i| m[(i / w) * w + w - 1 - i % w]).collect::<Vec<_>>(), "flip_h");
            let mut q = g; q.flip_v(); ensure_eq!(bools(&q)?, (0..S).map(|i| m[(h - 1 - i / w) * w + i % w]).collect::<Vec<_>>(), "flip_v");
            let n = r.below(S + 3); let set: Vec<usize> = (0..n).map(|_| r.below(S)).collect();
            let mut mt = m.clone(); let mut mf = m.clone(); let mut mm = vec![false; S]; for k in &set { mt[*k] = true; mf[*k] = false; mm[*k] = true; }
            let mut q = g; q.set_iter_t(set.iter().map(|k| at::<X, Y>(*k))); ensure_eq!(bools(&q)?, mt, "set_iter_t");
            let mut q = g; q.set_iter_f(set.iter().map(|k| at::<X, Y>(*k))); ensure_eq!(bools(&q)?, mf, "set_iter_f");
            ensure_eq!(bools(&set.iter().map(|k| at::<X, Y>(*k)).collect::<B<X, Y, W>>())?, mm, "collect positions");
            Ok(())
        });
    }
    if S <= 400 { c.case(|| "every method of iter, iter_pos, iter_t and iter_f".into(), || {
        let mut r = Rng(seed + 50); let (g, m) = rfill::<X, Y, W>(&mut r); let e: Vec<((i64, i64), bool)> = (0..S).map(|i| (((i % w) as i64, (i / w) as i64), m[i])).collect();
        let of = |b: bool| e.iter().filter(|x| x.1 == b).map(|x| x.0).collect::<Vec<_>>();
        use crate::iters::laws; laws(&|| g.iter(), &m, &|x| x)?; laws(&|| g.iter_pos(), &e, &|(p, b)| (xy(p), b))?; laws(&|| g.iter_t(), &of(true), &xy)?; laws(&|| g.iter_f(), &of(false), &xy)
    }); }
    for d in [-2i64, -1, 0, 1, 2, S as i64, -(S as i64)] {
        let n = S as i64 + d; if n < 0 { continue; }
        for s in 0..3 {
            c.case(|| format!("collect {n} booleans {s}"), || {
                let mut r = Rng(seed + s + 100); let v: Vec<bool> = (0..n).map(|_| r.chance(1, 2)).collect();
                for k in 0..3 { match try_call(|| Vague(v.iter().copied(), k).collect::<B<X, Y, W>>()) { Some(g) => { ensure_eq!(d, 0, "collect must panic"); ensure_eq!(bools(&g)?, v, "values"); } None => ensure!(d != 0, "unexpected panic") } }
                match try_call(|| v.iter().copied().collect::<B<X, Y, W>>()) { Some(g) => { ensure_eq!(d, 0, "collect must panic"); ensure_eq!(bools(&g)?, v, "values"); } None => ensure!(d != 0, "unexpected panic") } Ok(())
            });
        }
    }
}
fn c18_rot<const X: u16, const S: usize, const W: usize>(c: &mut Ctx) {
    c.group(format!("Gridbool over Pos<{X}, {X}> with {W} words"));
    let n = X as usize + 1;
    let seed = c.rng().next();
    for s in 0..(if S < 20 { 30 } else { 8u64 }) {
        c.case(|| format!("rotations {s}"), || {
            let mut r = Rng(seed + s); let (g, m) = rfill::<X, X, W>(&mut r);
            let mut cw = vec![false; S]; let mut cc = vec![false; S];
            for y in 0..n { for x in 0..n { cw[x * n + (n - 1 - y)] = m[y * n + x]; cc[(n - 1 - x) * n + y] = m[y * n + x]; } }
            let mut q = g; q.rotate_cw(); ensure_eq!(bools(&q)?, cw, "rotate_cw"); q.rotate_cc(); ensure_eq!(bools(&q)?, m, "cw then cc");
            let mut q = g; q.rotate_cc(); ensure_eq!(bools(&q)?, cc, "rotate_cc"); for _ in 0..3 { q.rotate_cc(); } ensure_eq!(bools(&q)?, m, "four rotations"); Ok(())
        });
    }
    for i in 0..S {
        if S > 300 { break; }
        c.case(|| format!("one bit {i}"), || { let mut g = B::<X, X, W>::default(); g.set_t(&at::<X, X>(i)); let (x, y) = (i % n, i / n);
            let mut q = g; q.rotate_cw(); ensure_eq!(q.iter_t().map(xy).collect::<Vec<_>>(), vec![((n - 1 - y) as i64, x as i64)], "rotate_cw"); let mut q = g; q.rotate_cc(); ensure_eq!(q.iter_t().map(xy).collect::<Vec<_>>(), vec![(y as i64, (n - 1 - x) as i64)], "rotate_cc"); Ok(()) });
    }
}
macro_rules! squaresw { ($c:expr, $f:ident, $($x:literal)*) => { $( $f::<$x, { ($x + 1) * ($x + 1) }, { (($x + 1) * ($x + 1) + 31) / 32 }>($c); )* } }
pub fn c18(c: &mut Ctx) {
    small_dims!(c, c18_dim); medium_dims!(c, c18_dim); dims_list!(c, c18_dim, (299,0) (0,299) (40,30)); big::c18(c);
    // one word more than necessary, which is what sqrid_create! gives
    c18_dim::<31, 0, 32, 2>(c); c18_dim::<7, 7, 64, 3>(c); c18_dim::<3, 7, 32, 2>(c); c18_dim::<15, 15, 256, 9>(c); c18_dim::<1, 15, 32, 2>(c); c18_rot::<7, 64, 3>(c); c18_rot::<15, 256, 9>(c);
    squaresw!(c, c18_rot, 0 1 2 3 4 5 6 7 8 9 10 11 12 15 16 19 20 31 32);
}

/// grids with more than 65536 positions
mod big {
    use super::*;
    macro_rules! bigs { ($c:expr, $f:ident) => {{
        $f::<299, 299, 90000, 2813>($c); $f::<0, 65534, 65535, 2048>($c); $f::<34999, 1, 70000, 2188>($c); $f::<299, 260, 78300, 2447>($c);
    }} }
    fn cells(s: usize, w: usize) -> Vec<usize> {
        let mut v = vec![0, 1, w - 1, w % s, s / 2, 32767, 32768, 65534 % s, 65535 % s, 65536 % s, (65536 + 31) % s, (65536 + 4463) % s, 60000, s - w, s - 2, s - 1];
        v.sort(); v.dedup(); v
    }
    pub fn c14(c: &mut Ctx) { bigs!(c, d14) }
    fn d14<const X: u16, const Y: u16, const S: usize, const W: usize>(c: &mut Ctx) {
        c.group(format!("Grid over Pos<{X}, {Y}>")); let w = X as usize + 1;
        c.case(|| "write and read".into(), || {
            let mut g = ramp::<X, Y, S>(); let mut m: Vec<i32> = g.as_array().to_vec();
            for (k, i) in cells(S, w).into_iter().enumerate() {
                let (p, v) = (at::<X, Y>(i), -(k as i32) - 1); ensure_eq!(*g.get(&p), m[i], format!("cell {i}")); m[i] = v;
                match k % 3 { 0 => g[p] = v, 1 => *g.get_mut(&p) = v, _ => g.line_mut(PosT::y(&p))[i % w] = v }
                ensure_eq!(g.line(PosT::y(&p))[i % w], v, "line"); ensure_eq!(g[p], v, "index");
            }
            ensure!(g.as_array()[..] == m[..], "cells differ"); ensure!(g.iter().eq(m.iter()), "iter"); Ok(())
        });
    }
    pub fn c15(c: &mut Ctx) {
        bigs!(c, d15); c.group("rotations of a Grid over Pos<299, 299>"); let w = 300;
        c.case(|| "rotate_cw".into(), || { let mut g = ramp::<299, 299, 90000>(); g.rotate_cw(); for i in 0..90000 { let (x, y) = (i % w, i / w); ensure_eq!(g.as_array()[x * w + (w - 1 - y)], 1000 + i as i32, format!("cell {i}")); } Ok(()) });
        c.case(|| "rotate_cc".into(), || { let mut g = ramp::<299, 299, 90000>(); g.rotate_cc(); for i in 0..90000 { let (x, y) = (i % w, i / w); ensure_eq!(g.as_array()[(w - 1 - x) * w + y], 1000 + i as i32, format!("cell {i}")); } Ok(()) });
    }
    fn d15<const X: u16, const Y: u16, const S: usize, const W: usize>(c: &mut Ctx) {
        c.group(format!("Grid over Pos<{X}, {Y}>")); let (w, h) = wh::<X, Y>();
        c.case(|| "flips and rotations".into(), || {
            let mut g = ramp::<X, Y, S>(); g.flip_h(); for i in 0..S { ensure_eq!(g.as_array()[i], 1000 + ((i / w) * w + w - 1 - i % w) as i32, format!("flip_h, cell {i}")); }
            let mut g = ramp::<X, Y, S>(); g.flip_v(); for i in 0..S { ensure_eq!(g.as_array()[i], 1000 + ((h - 1 - i / w) * w + i % w) as i32, format!("flip_v, cell {i}")); }
            Ok(())
        });
    }
    pub fn c16(c: &mut Ctx) { bigs!(c, d16) }
    fn d16<const X: u16, const Y: u16, const S: usize, const W: usize>(c: &mut Ctx) {
        c.group(format!("Grid over Pos<{X}, {Y}>")); let (w, h) = wh::<X, Y>();
        c.case(|| "collect, extend, nested vectors, iter_pos, negation".into(), || {
            let m: Vec<i32> = (0..S as i32).map(|i| 7 * i + 1).collect();
            let g: G<X, Y, S> = m.iter().collect(); ensure!(g.as_array()[..] == m[..], "collect");
            let mut q = G::<X, Y, S>::default(); q.extend((0..S).rev().map(|i| (at::<X, Y>(i), m[i]))); ensure!(q.as_array()[..] == m[..], "extend");
            let rows: Vec<Vec<i32>> = m.chunks(w).map(|r| r.to_vec()).collect(); ensure_eq!(rows.len(), h, "rows");
            let q = G::<X, Y, S>::try_from(rows).map_err(|e| format!("try_from: {e:?}"))?; ensure!(q.as_array()[..] == m[..], "try_from");
            let mut n = 0; for (p, v) in g.iter_pos() { ensure_eq!(xy(p), ((n % w) as i64, (n / w) as i64), format!("iter_pos {n}")); ensure_eq!(*v, m[n], format!("iter_pos value {n}")); n += 1; } ensure_eq!(n, S, "iter_pos length");
            ensure!((-g).as_array().iter().zip(&m).all(|(a, b)| *a == -*b), "negation");
            ensure!(try_call(|| m[..S - 1].iter().collect::<G<X, Y, S>>()).is_none(), "collecting one item too few"); Ok(())
        });
    }
    pub fn c17(c: &mut Ctx) { bigs!(c, d17) }
    fn d17<const X: u16, const Y: u16, const S: usize, const W: usize>(c: &mut Ctx) {
        c.group(format!("Gridbool over Pos<{X}, {Y}>")); let w = X as usize + 1;
        for init in [false, true] { c.case(|| format!("bits in {init}"), || {
            let mut g = B::<X, Y, W>::repeat(init); let cs = cells(S, w);
            for (k, i) in cs.iter().enumerate() {
                let p = at::<X, Y>(*i); if init { g.set_f(&p) } else { g.set_t(&p) }
                ensure_eq!(g.get(&p), !init, format!("bit {i}"));
                for (l, j) in cs.iter().enumerate() { ensure_eq!(g.get(&at::<X, Y>(*j)), init != (l <= k), format!("bit {j} after setting bit {i}")); }
                let n: u32 = g.as_inner().iter().map(|w| w.count_ones()).sum(); ensure_eq!(n as usize, if init { S - k - 1 } else { k + 1 }, format!("bits set after bit {i}"));
            }
            for i in 0..S { ensure_eq!(g.get(&at::<X, Y>(i)), init != cs.contains(&i), format!("bit {i}")); } Ok(())
        }); }
    }
    pub fn c18(c: &mut Ctx) {
        bigs!(c, d18); c.group("rotations of a Gridbool over Pos<299, 299>"); let w = 300;
        for cw in [false, true] { c.case(|| format!("clockwise {cw}"), || {
            let cs = cells(90000, w); let mut g: B<299, 299, 2813> = cs.iter().map(|i| at::<299, 299>(*i)).collect(); if cw { g.rotate_cw() } else { g.rotate_cc() }
            let mut e: Vec<usize> = cs.iter().map(|i| { let (x, y) = (i % w, i / w); if cw { x * w + w - 1 - y } else { (w - 1 - x) * w + y } }).collect(); e.sort();
            ensure_eq!(g.iter_t().map(|p| { let q = xy(p); q.1 as usize * w + q.0 as usize }).collect::<Vec<_>>(), e, "cells set"); Ok(())
        }); }
    }
    fn d18<const X: u16, const Y: u16, const S: usize, const W: usize>(c: &mut Ctx) {
        c.group(format!("Gridbool over Pos<{X}, {Y}>")); let (w, h) = wh::<X, Y>();
        c.case(|| "iteration and transformations".into(), || {
            let cs = cells(S, w); let g: B<X, Y, W> = cs.iter().rev().map(|i| at::<X, Y>(*i)).collect(); let is: Vec<bool> = (0..S).map(|i| cs.contains(&i)).collect();
            ensure!(g.iter().eq(is.iter().copied()), "iter"); ensure!(g.iter_pos().map(|x| x.1).eq(is.iter().copied()), "iter_pos");
            ensure_eq!(g.iter_t().map(xy).collect::<Vec<_>>(), cs.iter().map(|i| ((i % w) as i64, (i / w) as i64)).collect::<Vec<_>>(), "iter_t"); ensure_eq!(g.iter_f().count(), S - cs.len(), "iter_f");
            let set = |g: &B<X, Y, W>| g.iter_t().map(|p| { let q = xy(p); q.1 as usize * w + q.0 as usize }).collect::<Vec<_>>();
            let image = |f: &dyn Fn(usize, usize) -> (usize, usize)| { let mut v: Vec<usize> = cs.iter().map(|i| { let (x, y) = f(i % w, i / w); y * w + x }).collect(); v.sort(); v };
            let mut q = g; q.flip_h(); ensure_eq!(set(&q), image(&|x, y| (w - 1 - x, y)), "flip_h"); let mut q = g; q.flip_v(); ensure_eq!(set(&q), image(&|x, y| (x, h - 1 - y)), "flip_v");
            let q: B<X, Y, W> = is.iter().copied().collect(); ensure!(q == g, "collected booleans"); Ok(())
        });
    }
}

/// The text of a grid, built from the text of its cells, already padded, and the text of a label digit
fn expected_text(w: usize, h: usize, cell: &dyn Fn(usize) -> String, digit: &dyn Fn(char) -> String) -> String {
    let label = |i: usize, n: usize| -> Vec<char> { let d = (n - 1).to_string().len(); let t = i.to_string(); let mut v = vec![' '; d - t.len()]; v.extend(t.chars()); v };
    let mut head = String::new();
    for d in 0..(w - 1).to_string().len() {
        for _ in 0..label(0, h).len() + 1 { head.push(' '); }
        for x in 0..w { head += &digit(label(x, w)[d]); }
        head.push('\n');
    }
    let mut out = head.clone();
    for y in 0..h {
        out.extend(label(y, h)); out.push(' ');
        for x in 0..w { out += &cell(y * w + x); }
        out.push('\n');
    }
    out + &head
}
/// a writer that fails once it holds `left` more bytes
struct Full { text: String, left: usize }
impl std::fmt::Write for Full {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        for ch in s.chars() { if self.left == 0 { return Err(std::fmt::Error); } self.left -= 1; self.text.push(ch); }
        Ok(())
    }
}
/// text that does not consist of digits, with a Display of its own
#[derive(Clone, Copy)]
struct Odd(i32);
impl std::fmt::Display for Odd {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { match self.0 % 6 { 0 => Ok(()), 1 => write!(f, "é"), 4 => write!(f, "日本{}", self.0 % 7), 5 => f.write_str("𝛂\u{301}ß"), 2 => write!(f, "<{}>", self.0), _ => f.write_str("a b") } }
}
fn c25_dim<const X: u16, const Y: u16, const S: usize, const W: usize>(c: &mut Ctx) {
    c.group(format!("Text over Pos<{X}, {Y}>"));
    let (w, h) = wh::<X, Y>();
    macro_rules! formats { ($g:expr, $cell:expr, $($fm:literal)*) => { $( {
        let (g, f) = ($g, $cell);
        let (got, want) = (format!($fm, g), expected_text(w, h, &|i| format!($fm, f(i)), &|d| format!($fm, d.to_string())));
        if got != want { return Err(format!("text with {}: got\n{got}expected\n{want}", $fm)); }
    } )* } }
    let seed = c.rng().next();
    for k in 0..4u64 {
        c.case(|| format!("numbers {k}"), || {
            let mut r = Rng(seed + k); let mut g = ramp::<X, Y, S>();
            for v in g.as_array_mut() { *v = match k { 0 => r.below(10) as i32, 1 => r.below(2000) as i32 - 1000, 2 => r.below(100) as i32, _ => 7 }; }
            let m = g.as_array().to_vec();
            formats!(&g, |i: usize| m[i].to_string(), "{}" "{:1}" "{:2}" "{:3}" "{:<4}" "{:>4}" "{:^5}" "{:*^7}" "{:->12}");
            ensure_eq!(g.to_string(), format!("{g}"), "to_string"); Ok(())
        });
        c.case(|| format!("text {k}"), || {
            let mut r = Rng(seed + k); let mut g = Grid::<Odd, Pos<X, Y>, S>::repeat(Odd(0)); for v in g.as_array_mut() { *v = Odd(r.below(4000) as i32); }
            let m: Vec<String> = g.as_array().iter().map(|v| v.to_string()).collect();
            formats!(&g, |i: usize| m[i].clone(), "{}" "{:1}" "{:2}" "{:3}" "{:^4}" "{:>6}" "{:é<9}" "{:#<16}"); Ok(())
        });
        c.case(|| format!("booleans {k}"), || {
            let mut r = Rng(seed + k); let mut g = Gridbool::<Pos<X, Y>, W>::ALL_FALSE; let mut m = vec![false; S];
            for i in 0..S { m[i] = match k { 0 => r.chance(1, 2), 1 => true, 2 => false, _ => r.chance(1, 20) }; g.set(&at::<X, Y>(i), m[i]); }
            formats!(&g, |i: usize| if m[i] { "#".to_string() } else { ".".to_string() }, "{}" "{:1}" "{:2}" "{:>3}" "{:^3}" "{:_^5}"); Ok(())
        });
    }
    for i in 0..S {
        if S > 30 && i % 37 > 2 && i + 4 < S && i % w > 1 && i % w + 2 < w { continue; }
        c.case(|| format!("position {i}"), || { ensure_eq!(at::<X, Y>(i).to_string(), format!("({},{})", i % w, i / w), "text"); Ok(()) });
    }
    if S > 60 { return; }
    c.case(|| "a writer that fails".into(), || {
        use std::fmt::Write;
        let g = ramp::<X, Y, S>(); let b = Gridbool::<Pos<X, Y>, W>::ALL_TRUE;
        for (all, bools) in [(format!("{g:5}"), false), (format!("{b:2}"), true)] {
            let n = all.chars().count();
            for left in 0..=n {
                let mut f = Full { text: String::new(), left };
                let r = if bools { write!(f, "{b:2}") } else { write!(f, "{g:5}") };
                ensure_eq!(r.is_ok(), left == n, format!("result with room for {left} of {n} characters"));
                ensure_eq!(f.text, all.chars().take(left).collect::<String>(), format!("text with room for {left} characters"));
            }
        }
        Ok(())
    });
}
pub fn c25(c: &mut Ctx) {
    small_dims!(c, c25_dim); medium_dims!(c, c25_dim);
    dims_list!(c, c25_dim, (8,0) (9,0) (10,0) (11,0) (98,0) (99,0) (100,0) (101,0) (0,8) (0,9) (0,10) (0,11) (0,98) (0,99) (0,100) (0,101) (9,9) (9,10) (10,9) (10,10) (99,10) (10,99) (100,10) (10,100) (100,100) (998,0) (999,0) (1000,0) (0,998) (0,999) (0,1000) (1000,9) (9,1000));
    c.group("positions of large grids");
    macro_rules! big { ($($x:literal $y:literal)*) => { $(
        c.case(|| format!("Pos<{}, {}>", $x, $y), || { for x in near($x) { for y in near($y) {
            if let Ok(p) = Pos::<$x, $y>::new(x, y) { ensure_eq!(p.to_string(), format!("({x},{y})"), "text"); }
        } } Ok(()) });
    )* } }
    big!(65535 65535 65535 0 0 65535 9999 10000 255 256 1 1);
}
