//! C19: set and map backends
use crate::ctx::*;
use crate::positions::*;
use crate::{dims_list, ensure, ensure_eq, medium_dims, small_dims};
use sqrid::*;
use std::collections::*;

fn at<const X: u16, const Y: u16>(i: usize) -> Pos<X, Y> { let w = X as usize + 1; Pos::new((i % w) as u16, (i / w) as u16).unwrap() }
fn set_run<const X: u16, const Y: u16, const S: usize, const W: usize, T: SetPos<Pos<X, Y>, W, S> + Default>(seed: u64) -> Result<(), String> {
    let mut r = Rng(seed); let mut t = T::default(); let mut m = vec![false; S];
    let check = |t: &T, m: &[bool], k: usize| -> Result<(), String> { for (i, b) in m.iter().enumerate() { ensure_eq!(t.contains(&at::<X, Y>(i)), *b, format!("operation {k}, contains {i}")); } Ok(()) };
    check(&t, &m, 0)?;
    for k in 1..(3 * S + 6).min(120) {
        let i = r.below(S); let p = at::<X, Y>(i);
        match r.below(5) { 0 | 1 => { t.insert(p); m[i] = true; } 2 => { t.remove(&p); m[i] = false; } 3 => { t.set(p, true); m[i] = true; } _ => { t.set(p, false); m[i] = false; } }
        ensure_eq!(t.contains(&p), m[i], format!("operation {k}"));
        if S <= 64 || k % 16 == 0 { check(&t, &m, k)?; }
    }
    check(&t, &m, 9999)
}
fn map_run<const X: u16, const Y: u16, const S: usize, const W: usize, I: Copy + PartialEq + std::fmt::Debug, T: MapPos<I, Pos<X, Y>, W, S>>(seed: u64, item: impl Fn(usize) -> I) -> Result<(), String> {
    let mut r = Rng(seed); let first = item(r.below(5)); let mut t = T::new(first); let mut m = vec![first; S];
    let check = |t: &T, m: &[I], k: usize| -> Result<(), String> { for (i, b) in m.iter().enumerate() { ensure_eq!(*t.get(&at::<X, Y>(i)), *b, format!("operation {k}, get {i}")); } Ok(()) };
    check(&t, &m, 0)?;
    for k in 1..(3 * S + 6).min(120) {
        let i = r.below(S); let v = item(r.below(9)); t.set(at::<X, Y>(i), v); m[i] = v;
        ensure_eq!(*t.get(&at::<X, Y>(i)), v, format!("operation {k}"));
        if S <= 64 || k % 16 == 0 { check(&t, &m, k)?; }
    }
    check(&t, &m, 9999)
}
fn c19_dim<const X: u16, const Y: u16, const S: usize, const W: usize>(c: &mut Ctx) {
    c.group(format!("Pos<{X}, {Y}>, {W} words"));
    type P<const X: u16, const Y: u16> = Pos<X, Y>;
    let seed = c.rng().next();
    let d = |k: usize| [None, Some(Dir::N), Some(Dir::SE), Some(Dir::W)][k % 4];
    let u = |k: usize| [usize::MAX, 0, 1, 2, 1 << 32, 7, 8][k % 7];
    for s in 0..6u64 {
        c.case(|| format!("set grid {s}"), || set_run::<X, Y, S, W, Gridbool<P<X, Y>, W>>(seed + s));
        c.case(|| format!("set hash {s}"), || set_run::<X, Y, S, W, HashSet<P<X, Y>>>(seed + s));
        c.case(|| format!("set btree {s}"), || set_run::<X, Y, S, W, BTreeSet<P<X, Y>>>(seed + s));
        c.case(|| format!("map grid {s}"), || { map_run::<X, Y, S, W, Option<Dir>, Grid<Option<Dir>, P<X, Y>, S>>(seed + s, d)?; map_run::<X, Y, S, W, usize, Grid<usize, P<X, Y>, S>>(seed + s, u) });
        c.case(|| format!("map hash {s}"), || { map_run::<X, Y, S, W, Option<Dir>, (HashMap<P<X, Y>, Option<Dir>>, Option<Dir>)>(seed + s, d)?; map_run::<X, Y, S, W, usize, (HashMap<P<X, Y>, usize>, usize)>(seed + s, u) });
        c.case(|| format!("map btree {s}"), || { map_run::<X, Y, S, W, Option<Dir>, (BTreeMap<P<X, Y>, Option<Dir>>, Option<Dir>)>(seed + s, d)?; map_run::<X, Y, S, W, usize, (BTreeMap<P<X, Y>, usize>, usize)>(seed + s, u) });
    }
    c.case(|| "default maps".into(), || {
        let g = Grid::<Option<Dir>, P<X, Y>, S>::default(); let h = <(HashMap<P<X, Y>, Option<Dir>>, Option<Dir>)>::default(); let b = <(BTreeMap<P<X, Y>, Option<Dir>>, Option<Dir>)>::default();
        for i in 0..S { let p = at::<X, Y>(i);
            ensure!(MapPos::<Option<Dir>, P<X, Y>, W, S>::get(&g, &p).is_none(), "grid"); ensure!(MapPos::<Option<Dir>, P<X, Y>, W, S>::get(&h, &p).is_none(), "hash"); ensure!(MapPos::<Option<Dir>, P<X, Y>, W, S>::get(&b, &p).is_none(), "btree"); }
        Ok(())
    });
}
/// Every position of a large grid, in an order of its own
fn set_all<const X: u16, const Y: u16, const S: usize, const W: usize, T: SetPos<Pos<X, Y>, W, S> + Default>() -> Result<(), String> {
    let mut t = T::default(); let ord = |k: usize| (k * 7919 + 11) % S; // 7919 is a prime that does not divide S
    for k in 0..S { let i = ord(k); if i % 5 != 0 { t.set(at::<X, Y>(i), true); } }
    for i in 0..S { ensure_eq!(t.contains(&at::<X, Y>(i)), i % 5 != 0, format!("contains {i}")); }
    for k in 0..S { let i = ord(k); if i % 5 == 1 { t.remove(&at::<X, Y>(i)); } if i % 5 == 0 { t.insert(at::<X, Y>(i)); } if i % 5 == 2 { t.set(at::<X, Y>(i), false); } if i % 5 == 3 { t.insert(at::<X, Y>(i)); } }
    for i in 0..S { ensure_eq!(t.contains(&at::<X, Y>(i)), matches!(i % 5, 0 | 3 | 4), format!("after changes, contains {i}")); }
    for i in 0..S { t.remove(&at::<X, Y>(i)); } for i in 0..S { ensure!(!t.contains(&at::<X, Y>(i)), "emptied, contains {i}"); } Ok(())
}
fn map_all<const X: u16, const Y: u16, const S: usize, const W: usize, T: MapPos<usize, Pos<X, Y>, W, S>>() -> Result<(), String> {
    let mut t = T::new(77); let ord = |k: usize| (k * 7919 + 11) % S;
    for k in 0..S { let i = ord(k); if i % 5 != 0 { t.set(at::<X, Y>(i), i * 3); } }
    for i in 0..S { ensure_eq!(*t.get(&at::<X, Y>(i)), if i % 5 != 0 { i * 3 } else { 77 }, format!("get {i}")); }
    for k in 0..S { let i = ord(k); t.set(at::<X, Y>(i), if i % 5 == 1 { 77 } else { i * 7 + k % 2 * 0 }); }
    for i in 0..S { ensure_eq!(*t.get(&at::<X, Y>(i)), if i % 5 == 1 { 77 } else { i * 7 }, format!("set again, get {i}")); } Ok(())
}
fn all_of<const X: u16, const Y: u16, const S: usize, const W: usize>(c: &mut Ctx, grids: bool) {
    c.group(format!("every position of Pos<{X}, {Y}>"));
    if grids { c.case(|| "set grid".into(), set_all::<X, Y, S, W, Gridbool<Pos<X, Y>, W>>); c.case(|| "map grid".into(), map_all::<X, Y, S, W, Grid<usize, Pos<X, Y>, S>>); }
    c.case(|| "set hash".into(), set_all::<X, Y, S, W, HashSet<Pos<X, Y>>>); c.case(|| "set btree".into(), set_all::<X, Y, S, W, BTreeSet<Pos<X, Y>>>);
    c.case(|| "map hash".into(), map_all::<X, Y, S, W, (HashMap<Pos<X, Y>, usize>, usize)>); c.case(|| "map btree".into(), map_all::<X, Y, S, W, (BTreeMap<Pos<X, Y>, usize>, usize)>);
}
/// Few positions of the largest board, and others that look like them
fn sparse(c: &mut Ctx) {
    type L = Pos<65534, 65534>; const S: usize = 65535 * 65535; const W: usize = S / 32 + 1;
    c.group("sparse positions of Pos<65534, 65534>"); let seed = c.rng().next();
    fn run<T: SetPos<L, W, S> + Default, M: MapPos<usize, L, W, S>>(seed: u64) -> Result<(), String> {
        let mut r = Rng(seed); let mut t = T::default(); let mut m = M::new(usize::MAX); let mut all: Vec<(i64, i64)> = vec![];
        for _ in 0..60 { let (x, y) = (r.below(65535) as i64, r.below(65535) as i64);
            for (dx, dy) in [(0, 0), (1, 0), (0, 1), (256, 0), (0, 256), (255, -1), (-1, 256), (32768, 0), (0, 32768)] { let q = (x + dx, y + dy); for q in [q, (q.1, q.0)] { if q.0 >= 0 && q.1 >= 0 && q.0 < 65535 && q.1 < 65535 { all.push(q); } } } }
        all.sort(); all.dedup(); let n = all.len(); let mut order: Vec<usize> = (0..n).collect(); for i in (1..n).rev() { order.swap(i, r.below(i + 1)); }
        for i in &order { if i % 3 != 0 { t.insert(mk(all[*i].0, all[*i].1)); m.set(mk(all[*i].0, all[*i].1), *i); } }
        for (i, q) in all.iter().enumerate() { let p: L = mk(q.0, q.1); ensure_eq!(t.contains(&p), i % 3 != 0, format!("contains {q:?}")); ensure_eq!(*m.get(&p), if i % 3 != 0 { i } else { usize::MAX }, format!("get {q:?}")); }
        for i in &order { if i % 3 == 1 { let p: L = mk(all[*i].0, all[*i].1); t.remove(&p); m.set(p, 5); } }
        for (i, q) in all.iter().enumerate() { let p: L = mk(q.0, q.1); ensure_eq!(t.contains(&p), i % 3 == 2, format!("after removal, contains {q:?}")); ensure_eq!(*m.get(&p), match i % 3 { 0 => usize::MAX, 1 => 5, _ => i }, format!("set again, get {q:?}")); }
        Ok(())
    }
    for s in 0..10 { c.case(|| format!("hash {s}"), || run::<HashSet<L>, (HashMap<L, usize>, usize)>(seed + s)); c.case(|| format!("btree {s}"), || run::<BTreeSet<L>, (BTreeMap<L, usize>, usize)>(seed + s)); }
}
pub fn c19(c: &mut Ctx) {
    all_of::<299, 299, 90000, 2813>(c, true); all_of::<0, 65534, 65535, 2048>(c, true); all_of::<65534, 0, 65535, 2048>(c, true); all_of::<34999, 1, 70000, 2188>(c, false); sparse(c); small_dims!(c, c19_dim); medium_dims!(c, c19_dim); c19_dim::<31, 0, 32, 2>(c); c19_dim::<7, 7, 64, 3>(c); c19_dim::<3, 7, 32, 2>(c); c19_dim::<15, 15, 256, 9>(c); let _ = xy::<1, 1>; }
