//! C20 to C24: came-from paths and searches, against straightforward references
use crate::ctx::*;
use crate::{ensure, ensure_eq};
use sqrid::*;
use std::collections::*;

const ALL: [Dir; 8] = [Dir::N, Dir::NE, Dir::E, Dir::SE, Dir::S, Dir::SW, Dir::W, Dir::NW];
const VEC: [(i64, i64); 8] = [(0, -1), (1, -1), (1, 0), (1, 1), (0, 1), (-1, 1), (-1, 0), (-1, -1)];
fn num(d: Dir) -> usize { ALL.iter().position(|x| *x == d).unwrap() }
fn at<const X: u16, const Y: u16>(i: usize) -> Pos<X, Y> { let w = X as usize + 1; Pos::new((i % w) as u16, (i / w) as u16).unwrap() }
fn ix<const X: u16, const Y: u16>(p: Pos<X, Y>) -> usize { p.y() as usize * (X as usize + 1) + p.x() as usize }
fn step(w: usize, h: usize, i: usize, d: usize) -> Option<usize> {
    let (x, y) = ((i % w) as i64 + VEC[d].0, (i / w) as i64 + VEC[d].1);
    (0 <= x && x < w as i64 && 0 <= y && y < h as i64).then(|| y as usize * w + x as usize)
}
macro_rules! dims { ($c:expr, $f:ident, $(($x:literal, $y:literal))*) => { $(
    $f::<$x, $y, { ($x + 1) * ($y + 1) }, { (($x + 1) * ($y + 1) + 31) / 32 }, { ($x + 1) * ($y + 1) / 32 + 1 }>($c);
)* } }

/// Types made by `sqrid_create!` in both its forms: `$e` is an expression over the type `Q`, positions `P` and `D`
macro_rules! made { ($c:expr, $e:tt, $(($x:literal, $y:literal))*) => { $(
    made!(@ $c, $e, $x, $y, false); made!(@ $c, $e, $x, $y, true);
)* };
    (@ $c:expr, $e:tt, $x:literal, $y:literal, $d:literal) => {
        $c.case(|| format!("sqrid_create!({}, {}, {})", $x, $y, $d), || { type Q = sqrid_create!($x, $y, $d); type P = pos_create!(Q); made_run!($e, Q, P, $x, $y, $d) });
        $c.case(|| format!("sqrid_create!(Pos<{}, {}>, {})", $x, $y, $d), || { type P = Pos<$x, $y>; type Q = sqrid_create!(P, $d); made_run!($e, Q, P, $x, $y, $d) });
    };
}
macro_rules! made_run {
    (bf, $Q:ident, $P:ident, $x:literal, $y:literal, $d:literal) => {{
        let go = |p: $P, d: Dir| (p + d).ok(); let o = at::<$x, $y>(($x + 1) * ($y + 1) / 2);
        for it in [$Q::bf_iter(&go, &o).collect::<Vec<_>>(), $Q::bf_iter_grid(&go, &o).collect(), $Q::bf_iter_hash(&go, &o).collect(), $Q::bf_iter_btree(&go, &o).collect()] {
            let mut n = 1; for (k, f) in it.iter().enumerate() { for (p, _) in f { n += 1; ensure_eq!(if $d { o.chebyshev(p) } else { o.manhattan(p) }, k + 1, format!("distance of {p:?}")); } }
            ensure_eq!(n, ($x + 1) * ($y + 1), "cells reached");
        } Ok(())
    }};
    (path, $Q:ident, $P:ident, $x:literal, $y:literal, $d:literal) => {{
        let n = ($x + 1) * ($y + 1); let mut g = <grid_create!($Q, Option<Dir>)>::repeat(None); let o = at::<$x, $y>(0); let t = at::<$x, $y>(n - 1); let mut e = vec![];
        for i in 0..=$y { for j in 0..=$x { g[crate::positions::mk::<$x, $y>(j, i)] = Some(if j > 0 { Dir::W } else { Dir::N }); } }
        for _ in 0..$y { e.push(Dir::S); } for _ in 0..$x { e.push(Dir::E); }
        ensure_eq!($Q::camefrom_into_path(g, &o, &t), Ok(e), "path"); Ok(())
    }};
    ((Algo::Bfs), $Q:ident, $P:ident, $x:literal, $y:literal, $d:literal) => { made_run!(@ $P, $x, $y, $d, o, t, go, goc, { let f = |p: $P| p == t;
        [$Q::bfs_path(&go, &o, &f).map(|r| r.1), $Q::bfs_path_grid(&go, &o, &f).map(|r| r.1), $Q::bfs_path_hash(&go, &o, &f).map(|r| r.1), $Q::bfs_path_btree(&go, &o, &f).map(|r| r.1)] }) };
    ((Algo::Astar), $Q:ident, $P:ident, $x:literal, $y:literal, $d:literal) => { made_run!(@ $P, $x, $y, $d, o, t, go, goc, [$Q::astar_path(&go, &o, &t), $Q::astar_path_grid(&go, &o, &t), $Q::astar_path_hash(&go, &o, &t), $Q::astar_path_btree(&go, &o, &t)]) };
    ((Algo::Ucs), $Q:ident, $P:ident, $x:literal, $y:literal, $d:literal) => { made_run!(@ $P, $x, $y, $d, o, t, go, goc, [$Q::ucs_path(&goc, &o, &t), $Q::ucs_path_grid(&goc, &o, &t), $Q::ucs_path_hash(&goc, &o, &t), $Q::ucs_path_btree(&goc, &o, &t)]) };
    (@ $P:ident, $x:literal, $y:literal, $d:literal, $o:ident, $t:ident, $go:ident, $goc:ident, $e:expr) => {{
        let n = ($x + 1) * ($y + 1); let $go = |p: $P, d: Dir| (p + d).ok(); let $goc = |p: $P, d: Dir| (p + d).ok().map(|q| (q, 1));
        for (a, b) in [(0, n - 1), (n - 1, 0), (n / 2, n - 1), ($x, n - 1 - $x)] { if a == b { continue; }
            let ($o, $t) = (at::<$x, $y>(a), at::<$x, $y>(b)); let best = if $d { $o.chebyshev(&$t) } else { $o.manhattan(&$t) };
            for r in $e { let Ok(v) = r else { return Err(format!("from {a} to {b}: {r:?}")) }; ensure_eq!(v.len(), best, format!("length of the path from {a} to {b}")); let mut p = $o; for d in v { p = (p + d).map_err(|e| format!("{e:?}"))?; } ensure_eq!(p, $t, "end of the path"); }
        } Ok(())
    }};
}
macro_rules! made_dims { ($c:expr, $e:tt) => { $c.group("types made by sqrid_create!"); made!($c, $e, (0, 0) (1, 0) (0, 1) (3, 6) (6, 3) (7, 7) (31, 0) (0, 31) (15, 1) (15, 15) (30, 32) (299, 1) (1, 299) (2, 0)); } }

/// A movement function as a table: where each direction leads to from each cell, and its cost
#[derive(Clone, Debug)]
struct World { w: usize, h: usize, to: Vec<[Option<(usize, usize)>; 8]> }
impl World {
    fn empty(w: usize, h: usize) -> World { World { w, h, to: vec![[None; 8]; w * h] } }
    fn open(w: usize, h: usize) -> World {
        let mut m = World::empty(w, h);
        for i in 0..w * h { for d in 0..8 { m.to[i][d] = step(w, h, i, d).map(|j| (j, 1)); } }
        m
    }
    fn walls(mut self, wall: &[bool]) -> World {
        for i in 0..self.to.len() { for d in 0..8 { if let Some((j, _)) = self.to[i][d] { if wall[j] || wall[i] { self.to[i][d] = None; } } } }
        self
    }
    /// grids shaped in various ways; steps only go to the neighbour in their direction
    fn made(w: usize, h: usize, kind: usize, r: &mut Rng) -> World {
        let n = w * h;
        match kind % 8 {
            0 => World::open(w, h),
            1 | 2 => { let q = 1 + r.below(5) as u64; let wall: Vec<bool> = (0..n).map(|_| r.chance(q, 10)).collect(); World::open(w, h).walls(&wall) }
            3 => { let mut m = World::open(w, h); let q = 1 + r.below(7) as u64; for i in 0..n { for d in 0..8 { if r.chance(q, 10) { m.to[i][d] = None; } } } m }
            4 => { // maze: a random spanning tree of straight moves
                let mut m = World::empty(w, h); let mut seen = vec![false; n]; let s = r.below(n); seen[s] = true; let mut st = vec![s];
                while let Some(&i) = st.last() {
                    let o: Vec<(usize, usize)> = [0, 2, 4, 6].iter().filter_map(|&d| step(w, h, i, d).filter(|j| !seen[*j]).map(|j| (d, j))).collect();
                    if o.is_empty() { st.pop(); continue; }
                    let (d, j) = o[r.below(o.len())]; seen[j] = true; m.to[i][d] = Some((j, 1)); m.to[j][(d + 4) % 8] = Some((i, 1)); st.push(j);
                }
                m
            }
            5 => { // snake: walls in every other row or column
                let t = r.chance(1, 2);
                let wall: Vec<bool> = (0..n).map(|i| { let (a, b, l) = if t { (i / w, i % w, w) } else { (i % w, i / w, h) }; a % 2 == 1 && b != if a % 4 == 1 { l - 1 } else { 0 } }).collect();
                World::open(w, h).walls(&wall)
            }
            6 => { let mut m = World::open(w, h); for i in 0..n { for d in [1, 3, 5, 7] { if r.chance(9, 10) { m.to[i][d] = None; } } } m }
            _ => { // a wall with one gap
                let g = r.below(w.max(h)); let v = r.chance(1, 2); let k = r.below(if v { w } else { h });
                let wall: Vec<bool> = (0..n).map(|i| if v { i % w == k && i / w != g } else { i / w == k && i % w != g }).collect();
                World::open(w, h).walls(&wall)
            }
        }
    }
    fn costs(mut self, kind: usize, r: &mut Rng) -> World {
        for i in 0..self.to.len() { for d in 0..8 { if let Some((_, c)) = &mut self.to[i][d] {
            *c = match kind % 8 { 0 => 1, 1 => r.below(3), 2 => 1 + r.below(9), 3 => 0, 4 => r.below(1000), 5 => if d % 2 == 1 { 14 } else { 10 },
                6 => [0, 1, usize::MAX, usize::MAX - 1, usize::MAX / 2, usize::MAX / 2 + 1, 1 << 40][r.below(7)], _ => usize::MAX / 4 + r.below(5) };
        } } }
        self
    }
    fn dirs(&self, diag: bool) -> impl Iterator<Item = usize> { (0..8).filter(move |d| diag || d % 2 == 0) }
    /// number of steps from `o` to every cell
    fn steps(&self, o: usize, diag: bool) -> Vec<Option<u128>> {
        let mut dist = vec![None; self.to.len()]; dist[o] = Some(0); let mut front = vec![o]; let mut n = 0;
        while !front.is_empty() {
            n += 1; let mut nf = vec![];
            for i in front { for d in self.dirs(diag) { if let Some((j, _)) = self.to[i][d] { if dist[j].is_none() { dist[j] = Some(n); nf.push(j); } } } }
            front = nf;
        }
        dist
    }
    /// minimum total cost from `o` to every cell, by relaxing until nothing changes
    fn cheapest(&self, o: usize, diag: bool) -> Vec<Option<u128>> {
        let mut dist: Vec<Option<u128>> = vec![None; self.to.len()]; dist[o] = Some(0);
        loop {
            let mut ch = false;
            for i in 0..dist.len() { if let Some(a) = dist[i] { for d in self.dirs(diag) { if let Some((j, c)) = self.to[i][d] {
                let b = a + c as u128; if dist[j].map_or(true, |x| b < x) { dist[j] = Some(b); ch = true; }
            } } } }
            if !ch { return dist; }
        }
    }
    /// cost and length of a path, or why it is not one
    fn follow(&self, o: usize, path: &[Dir], diag: bool) -> Result<(usize, u128), String> {
        let (mut i, mut c) = (o, 0);
        for (k, d) in path.iter().enumerate() {
            let d = num(*d); ensure!(diag || d % 2 == 0, "step {k} is diagonal");
            let Some((j, x)) = self.to[i][d] else { return Err(format!("step {k}, {:?} from cell {i}, is not allowed", ALL[d])) };
            i = j; c += x as u128;
        }
        Ok((i, c))
    }
}

// ---------------------------------------------------------------- C20
fn c20_expected(w: usize, h: usize, m: &[Option<usize>], o: usize, t: usize) -> Result<Vec<Dir>, Error> {
    if m[t].is_none() { return Err(Error::DestinationUnreachable); }
    let (mut i, mut path) = (t, vec![]);
    while i != o {
        let Some(d) = m[i] else { return Err(Error::InvalidMovement) };
        path.push(ALL[(d + 4) % 8]);
        match step(w, h, i, d) { Some(j) => i = j, None => return Err(Error::InvalidMovement) }
        if path.len() > w * h { return Err(Error::Loop); }
    }
    path.reverse(); Ok(path)
}
fn c20_run<const X: u16, const Y: u16, const S: usize, const W: usize, const V: usize>(m: &[Option<usize>], o: usize, t: usize) -> Result<(), String> {
    type P<const X: u16, const Y: u16> = Pos<X, Y>;
    let (w, h) = (X as usize + 1, Y as usize + 1);
    let e = c20_expected(w, h, m, o, t); let (po, pt) = (at::<X, Y>(o), at::<X, Y>(t));
    let mut g = Grid::<Option<Dir>, P<X, Y>, S>::repeat(None);
    for i in 0..S { g[at::<X, Y>(i)] = m[i].map(|d| ALL[d]); }
    ensure_eq!(camefrom_into_path::<_, _, W, S>(g, &po, &pt), e, "grid");
    // sparse maps: the default stands for the cells left out
    let dflt = m[(o + t) % S];
    let mut hm = (HashMap::new(), dflt.map(|d| ALL[d])); let mut bm = (BTreeMap::new(), dflt.map(|d| ALL[d]));
    for i in 0..S { if m[i] != dflt { hm.0.insert(at::<X, Y>(i), m[i].map(|d| ALL[d])); bm.0.insert(at::<X, Y>(i), m[i].map(|d| ALL[d])); } }
    ensure_eq!(camefrom_into_path::<_, _, W, S>(hm, &po, &pt), e, "hash");
    ensure_eq!(camefrom_into_path::<_, _, V, S>(bm, &po, &pt), e, "btree");
    ensure_eq!(Sqrid::<X, Y, true, V, S>::camefrom_into_path(g, &po, &pt), e, "Sqrid"); Ok(())
}
fn show(m: &[Option<usize>]) -> String { m.iter().map(|d| d.map_or('.', |d| (b'0' + d as u8) as char)).collect() }
fn c20_all<const X: u16, const Y: u16, const S: usize, const W: usize, const V: usize>(c: &mut Ctx) {
    c.group(format!("all maps over Pos<{X}, {Y}>"));
    for k in 0..9usize.pow(S as u32) {
        let mut m = vec![]; let mut q = k; for _ in 0..S { m.push((q % 9).checked_sub(1)); q /= 9; }
        for o in 0..S { for t in 0..S { c.case(|| format!("map {} from {o} to {t}", show(&m)), || c20_run::<X, Y, S, W, V>(&m, o, t)); } }
    }
}
fn c20_dim<const X: u16, const Y: u16, const S: usize, const W: usize, const V: usize>(c: &mut Ctx) {
    c.group(format!("Pos<{X}, {Y}>"));
    let (w, h) = (X as usize + 1, Y as usize + 1); let mut r = c.rng();
    for k in 0..c.n(60, 600) {
        let t0 = r.below(S); let mut m: Vec<Option<usize>> = vec![None; S];
        match k % 6 {
            0 => for i in 0..S { m[i] = r.below(9).checked_sub(1); },
            1 | 2 => { // a tree towards t0, possibly with some cells disturbed
                let wd = World::made(w, h, r.below(8), &mut r); let dist = wd.steps(t0, true);
                for i in 0..S { if dist[i].is_some() { for d in 0..8 { if let Some((j, _)) = wd.to[i][d] { if dist[j].is_none() || dist[j] == Some(dist[i].unwrap() + 1) { m[j] = Some((d + 4) % 8); } } } } }
                if k % 6 == 2 { let i = r.below(S); m[i] = r.below(9).checked_sub(1); }
                m[t0] = r.below(9).checked_sub(1);
            }
            3 => { // boustrophedon: the longest chain
                for i in 0..S { let (x, y) = (i % w, i / w); m[i] = Some(if y % 2 == 0 { if x + 1 < w { 2 } else { 4 } } else if x > 0 { 6 } else { 4 }); }
                if r.chance(1, 2) { let l = S - 1; m[l] = None; }
            }
            4 => for i in 0..S { let o: Vec<usize> = (0..8).filter(|d| step(w, h, i, *d).is_some()).collect(); if !o.is_empty() { m[i] = Some(o[r.below(o.len())]); } }, // never leaves: reaches or loops
            _ => { let d = r.below(8); for i in 0..S { m[i] = Some(d); } }
        }
        for q in 0..6 {
            let (o, t) = match q { 0 => (t0, r.below(S)), 1 => (0, S - 1), 2 => (S - 1, 0), 3 => (t0, t0), _ => (r.below(S), r.below(S)) };
            c.case(|| format!("map {} from {o} to {t}", show(&m)), || c20_run::<X, Y, S, W, V>(&m, o, t));
        }
    }
}
pub fn c20(c: &mut Ctx) {
    #[cfg(not(feature = "unmade"))]
    made_dims!(c, path);
    dims!(c, c20_all, (0,0) (0,1) (1,0) (0,2) (2,0) (1,1));
    dims!(c, c20_dim, (2,2) (1,4) (4,1) (0,9) (9,0) (3,5) (5,3) (2,30) (30,2) (0,63) (63,0) (1,60) (7,7) (15,15));
    c.group("pairs of u8");
    for k in 0..c.n(20, 100) { c.case(|| format!("{k}"), || {
        // a chain along a row, then down a column
        let n = 5 + 12 * k.min(20); let (tx, ty) = ((n % 256) as u8, (3 * n % 256) as u8);
        let mut m: (HashMap<(u8, u8), Option<Dir>>, Option<Dir>) = (HashMap::new(), None);
        for x in 1..=tx { m.0.insert((x, 0), Some(Dir::W)); } for y in 1..=ty { m.0.insert((tx, y), Some(Dir::N)); } m.0.insert((0, 0), Some(Dir::N));
        let mut e = vec![Dir::E; tx as usize]; e.extend(vec![Dir::S; ty as usize]);
        ensure_eq!(camefrom_into_path::<_, _, 1, 1>(m, &(0u8, 0u8), &(tx, ty)), Ok(e), "path"); Ok(())
    }); }
    c.group("corridor of 70000 cells");
    use corridor::{W, S};
    c.case(|| "grid".into(), || {
        let (o, t) = corridor::ends(); let mut p = o; let mut g = Grid::<Option<Dir>, corridor::P, S>::repeat(None); let mut h = (HashMap::new(), None);
        for d in corridor::path() { p = corridor::go(p, d).unwrap(); g[p] = Some(ALL[(num(d) + 4) % 8]); h.0.insert(p, g[p]); }
        corridor::ok(camefrom_into_path::<_, _, W, S>(g, &o, &t))?; corridor::ok(camefrom_into_path::<_, _, W, S>(h.clone(), &o, &t))?;
        // a loop at its start, then with the start missing
        g[o] = Some(Dir::E); let u = corridor::go(o, Dir::E).unwrap(); let far = corridor::P::new(0, 1).unwrap();
        ensure_eq!(camefrom_into_path::<_, _, W, S>(g, &far, &u), Err(Error::Loop), "loop");
        h.0.remove(&u); ensure_eq!(camefrom_into_path::<_, _, W, S>(h, &o, &t), Err(Error::InvalidMovement), "gap"); Ok(())
    });
}

/// A corridor of 70000 cells: along the first row, down at its end and back along the second one
mod corridor {
    use super::*;
    pub const N: usize = 35000; pub const S: usize = 2 * N; pub const W: usize = S / 32 + 1;
    pub type P = Pos<34999, 1>;
    pub fn path() -> Vec<Dir> { let mut v = vec![Dir::E; N - 1]; v.push(Dir::S); v.extend(vec![Dir::W; N - 1]); v }
    pub fn go(p: P, d: Dir) -> Option<P> {
        let (x, y) = (p.x() as usize, p.y());
        match d { Dir::E if x < N - 1 => Some(Pos::new(x as u16 + 1, y).unwrap()), Dir::W if x > 0 => Some(Pos::new(x as u16 - 1, y).unwrap()),
            Dir::N if x == N - 1 && y == 1 => Some(Pos::new(x as u16, 0).unwrap()), Dir::S if x == N - 1 && y == 0 => Some(Pos::new(x as u16, 1).unwrap()), _ => None }
    }
    pub fn ends() -> (P, P) { (Pos::new(0, 0).unwrap(), Pos::new(0, 1).unwrap()) }
    pub fn ok(r: Result<Vec<Dir>, Error>) -> Result<(), String> {
        let v = r.map_err(|e| format!("reachable, but got {e:?}"))?; let e = path();
        ensure_eq!(v.len(), e.len(), "length of the path"); ensure!(v == e, "path differs from the only one, first at step {:?}", v.iter().zip(&e).position(|(a, b)| a != b)); Ok(())
    }
}

// ---------------------------------------------------------------- C21
fn c21_world(w: usize, h: usize, kind: usize, r: &mut Rng) -> World {
    let n = w * h;
    match kind % 11 {
        8 => { let mut m = World::empty(w, h); // torus
            for i in 0..n { for d in 0..8 { let x = (i % w) as i64 + VEC[d].0 + w as i64; let y = (i / w) as i64 + VEC[d].1 + h as i64; m.to[i][d] = Some(((y as usize % h) * w + x as usize % w, 1)); } } m }
        9 => { let mut m = World::made(w, h, r.below(8), r); for i in 0..n { for d in 0..8 { if r.chance(1, 12) { m.to[i][d] = Some((r.below(n), 1)); } } } m } // jumps
        10 => { let mut m = World::empty(w, h); for i in 0..n { for d in 0..8 { if r.chance(1, 4) { m.to[i][d] = Some((r.below(n), 1)); } } } m }
        k => World::made(w, h, k, r),
    }
}
fn c21_check<const X: u16, const Y: u16>(m: &World, o: usize, diag: bool, it: impl Iterator<Item = Vec<(Pos<X, Y>, Dir)>>, what: &str) -> Result<(), String> {
    let dist = m.steps(o, diag); let last = dist.iter().flatten().max().copied().unwrap();
    let mut n = 0u128;
    let mut it = it.fuse();
    while let Some(front) = it.next() {
        n += 1; ensure!(n <= last, "{what}: group {n} after the last one");
        let mut seen = HashSet::new();
        for (p, d) in front {
            let i = ix(p); ensure!(seen.insert(i), "{what}: cell {i} twice in group {n}");
            ensure_eq!(dist[i], Some(n), format!("{what}: distance of cell {i} of group {n}"));
            let back = (num(d) + 4) % 8; ensure!(diag || back % 2 == 0, "{what}: diagonal direction for cell {i}");
            ensure!((0..dist.len()).any(|q| dist[q] == Some(n - 1) && m.to[q][back].map(|t| t.0) == Some(i)), "{what}: cell {i} was not reached by {:?}", ALL[back]);
        }
        ensure_eq!(seen.len(), dist.iter().filter(|x| **x == Some(n)).count(), format!("{what}: size of group {n}"));
    }
    ensure_eq!(n, last, format!("{what}: number of groups")); Ok(())
}
fn c21_d<const X: u16, const Y: u16, const S: usize, const W: usize, const V: usize, const D: bool>(c: &mut Ctx) {
    c.group(format!("Pos<{X}, {Y}>, diagonals {D}"));
    let (w, h) = (X as usize + 1, Y as usize + 1); let mut r = c.rng();
    for k in 0..c.n(132, 1320) {
        let m = c21_world(w, h, k, &mut r); let o = match k % 4 { 0 => 0, 1 => S - 1, _ => r.below(S) };
        c.case(|| format!("world {k} {:?} from {o}", m.to.iter().map(|t| t.map(|x| x.map_or(-1, |y| y.0 as i64))).collect::<Vec<_>>()), || {
            let go = |p: Pos<X, Y>, d: Dir| m.to[ix(p)][num(d)].map(|t| at::<X, Y>(t.0)); let p = at::<X, Y>(o);
            if k % 33 == 0 { use crate::iters::laws;
                let w: Vec<Vec<(Pos<X, Y>, Dir)>> = bf::bf_iter_grid::<_, _, D, V, S>(&go, &p).collect(); laws(&|| bf::bf_iter_grid::<_, _, D, V, S>(&go, &p), &w, &|x| x)?;
                let w: Vec<Vec<(Pos<X, Y>, Dir)>> = Sqrid::<X, Y, D, W, S>::bf_iter_hash(&go, &p).collect(); laws(&|| Sqrid::<X, Y, D, W, S>::bf_iter_hash(&go, &p), &w, &|x| x)?; }
            c21_check(&m, o, D, bf::bf_iter::<_, Gridbool<Pos<X, Y>, W>, _, D, W, S>(&go, &p), "bf_iter with Gridbool")?;
            c21_check(&m, o, D, bf::bf_iter_grid::<_, _, D, V, S>(&go, &p), "bf_iter_grid")?;
            c21_check(&m, o, D, bf::bf_iter_hash::<_, _, D, W, S>(&go, &p), "bf_iter_hash")?;
            c21_check(&m, o, D, bf::bf_iter_btree::<_, _, D, W, S>(&go, &p), "bf_iter_btree")?;
            c21_check(&m, o, D, Sqrid::<X, Y, D, V, S>::bf_iter(&go, &p), "Sqrid::bf_iter")?;
            c21_check(&m, o, D, Sqrid::<X, Y, D, W, S>::bf_iter_grid(&go, &p), "Sqrid::bf_iter_grid")?;
            c21_check(&m, o, D, Sqrid::<X, Y, D, W, S>::bf_iter_hash(&go, &p), "Sqrid::bf_iter_hash")?;
            c21_check(&m, o, D, Sqrid::<X, Y, D, W, S>::bf_iter_btree(&go, &p), "Sqrid::bf_iter_btree")
        });
    }
}
fn c21_dim<const X: u16, const Y: u16, const S: usize, const W: usize, const V: usize>(c: &mut Ctx) { c21_d::<X, Y, S, W, V, false>(c); c21_d::<X, Y, S, W, V, true>(c); }
pub fn c21(c: &mut Ctx) { dims!(c, c21_dim, (0,0) (0,1) (1,0) (1,1) (2,2) (0,6) (6,0) (1,5) (5,1) (3,4) (6,4) (7,7) (2,20) (20,2) (0,40));
    #[cfg(not(feature = "unmade"))]
    made_dims!(c, bf);
    c.group("corridor of 70000 cells");
    fn run(it: impl Iterator<Item = Vec<(corridor::P, Dir)>>) -> Result<(), String> {
        let mut p = corridor::ends().0; let mut it = it.fuse();
        for (k, d) in corridor::path().into_iter().enumerate() {
            p = corridor::go(p, d).unwrap(); let f = it.next();
            ensure!(f == Some(vec![(p, ALL[(num(d) + 4) % 8])]), "group {k}: got {:?}", f);
        }
        ensure!(it.next().is_none(), "one more group"); Ok(())
    }
    use corridor::{W, S};
    c.case(|| "grid".into(), || run(bf::bf_iter_grid::<_, _, false, W, S>(&corridor::go, &corridor::ends().0)));
    c.case(|| "hash".into(), || run(bf::bf_iter_hash::<_, _, true, W, S>(&corridor::go, &corridor::ends().0)));
    c.case(|| "btree".into(), || run(bf::bf_iter_btree::<_, _, false, W, S>(&corridor::go, &corridor::ends().0)));
    c.group("open board, wide fronts");
    fn open<const N: u16>(it: impl Iterator<Item = Vec<(Pos<N, N>, Dir)>>, o: (i64, i64), diag: bool) -> Result<(), String> {
        let n = N as i64 + 1; let mut sizes = vec![0usize; 2 * n as usize];
        let dist = |x: i64, y: i64| { let (a, b) = ((x - o.0).abs(), (y - o.1).abs()); (if diag { a.max(b) } else { a + b }) as usize };
        for y in 0..n { for x in 0..n { sizes[dist(x, y)] += 1; } }
        let last = sizes.iter().rposition(|k| *k > 0).unwrap(); let mut seen = vec![false; (n * n) as usize]; let mut groups = 0;
        for (k, f) in it.enumerate() {
            ensure!(k < last, "one more group"); ensure_eq!(f.len(), sizes[k + 1], format!("size of group {}", k + 1)); groups += 1;
            for (p, _) in f { let q = (p.x() as i64, p.y() as i64); ensure_eq!(dist(q.0, q.1), k + 1, format!("distance of {q:?}")); let i = (q.1 * n + q.0) as usize; ensure!(!seen[i], "{q:?} twice"); seen[i] = true; }
        }
        ensure_eq!(groups, last, "number of groups"); Ok(())
    }
    c.case(|| "grid, from the middle".into(), || open::<799>(bf::bf_iter_grid::<_, _, true, 20000, 640000>(&|p: Pos<799, 799>, d| (p + d).ok(), &at::<799, 799>(400 * 800 + 400)), (400, 400), true));
    c.case(|| "bitmap, from a corner".into(), || open::<799>(bf::bf_iter::<_, Gridbool<Pos<799, 799>, 20000>, _, false, 20000, 640000>(&|p: Pos<799, 799>, d| (p + d).ok(), &at::<799, 799>(0)), (0, 0), false));
    c.case(|| "hash, from the middle".into(), || open::<399>(bf::bf_iter_hash::<_, _, true, 5000, 160000>(&|p: Pos<399, 399>, d| (p + d).ok(), &at::<399, 399>(200 * 400 + 200)), (200, 200), true));
    c.case(|| "btree, from the middle".into(), || open::<399>(bf::bf_iter_btree::<_, _, false, 5000, 160000>(&|p: Pos<399, 399>, d| (p + d).ok(), &at::<399, 399>(200 * 400 + 200)), (200, 200), false));
}

// ---------------------------------------------------------------- C22, C23, C24
#[derive(Clone, Copy, PartialEq)]
enum Algo { Bfs, Astar, Ucs }
fn verdict(a: Algo, m: &World, o: usize, goals: &[bool], diag: bool, best: &[Option<u128>], got: Result<(usize, Vec<Dir>), Error>, what: &str) -> Result<(), String> {
    let reach = (0..goals.len()).filter(|i| goals[*i] && (a != Algo::Bfs || *i != o)).filter_map(|i| best[i]).min();
    let reach = if a == Algo::Ucs { reach.filter(|c| *c < usize::MAX as u128) } else { reach };
    match (reach, got) {
        (None, Err(Error::DestinationUnreachable)) => Ok(()),
        (None, g) => if a == Algo::Ucs && (0..goals.len()).any(|i| goals[i] && best[i].is_some()) { Ok(()) } else { Err(format!("{what}: not reachable, but got {g:?}")) },
        (Some(_), Err(e)) => Err(format!("{what}: reachable, but got {e:?}")),
        (Some(b), Ok((g, path))) => {
            ensure!(goals[g], "{what}: {g} is not a goal");
            let (e, cost) = m.follow(o, &path, diag).map_err(|e| format!("{what}: path {path:?}: {e}"))?;
            ensure_eq!(e, g, format!("{what}: end of path {path:?}"));
            let v = if a == Algo::Ucs { cost } else { path.len() as u128 };
            ensure_eq!(v, b, format!("{what}: cost of path {path:?}"));
            if o == g && a != Algo::Bfs { ensure!(path.is_empty(), "{what}: path to itself is {path:?}"); }
            Ok(())
        }
    }
}
type HM<P, T> = (HashMap<P, T>, T);
type BM<P, T> = (BTreeMap<P, T>, T);
fn run_algo<const X: u16, const Y: u16, const S: usize, const W: usize, const V: usize, const D: bool>(a: Algo, m: &World, o: usize, goals: &[bool]) -> Result<(), String> {
    type P<const X: u16, const Y: u16> = Pos<X, Y>;
    let best = if a == Algo::Ucs { m.cheapest(o, D) } else { m.steps(o, D) };
    let po = at::<X, Y>(o); let t = goals.iter().position(|g| *g).unwrap_or(0); let pt = at::<X, Y>(t);
    let go = |p: P<X, Y>, d: Dir| m.to[ix(p)][num(d)].map(|t| at::<X, Y>(t.0));
    let goc = |p: P<X, Y>, d: Dir| m.to[ix(p)][num(d)].map(|t| (at::<X, Y>(t.0), t.1));
    let found = |p: P<X, Y>| goals[ix(p)];
    let v = |g: Result<Vec<Dir>, Error>, what: &str| verdict(a, m, o, goals, D, &best, g.map(|p| (t, p)), what);
    let vb = |g: Result<(P<X, Y>, Vec<Dir>), Error>, what: &str| verdict(a, m, o, goals, D, &best, g.map(|(q, p)| (ix(q), p)), what);
    match a {
        #[cfg(feature = "C22")]
        Algo::Bfs => {
            vb(bf::search_path::<_, _, Grid<Option<Dir>, P<X, Y>, S>, HashSet<P<X, Y>>, _, D, W, S>(&go, &po, &found), "bf::search_path")?;
            vb(bf::search_path_grid::<_, _, _, D, W, S>(&go, &po, &found), "bf::search_path_grid")?;
            vb(bf::search_path_hash::<_, _, _, D, W, S>(&go, &po, &found), "bf::search_path_hash")?;
            vb(bf::search_path_btree::<_, _, _, D, W, S>(&go, &po, &found), "bf::search_path_btree")?;
            vb(Sqrid::<X, Y, D, V, S>::bfs_path(&go, &po, &found), "Sqrid::bfs_path")?;
            vb(Sqrid::<X, Y, D, V, S>::bfs_path_grid(&go, &po, &found), "Sqrid::bfs_path_grid")?;
            vb(Sqrid::<X, Y, D, W, S>::bfs_path_hash(&go, &po, &found), "Sqrid::bfs_path_hash")?;
            vb(Sqrid::<X, Y, D, W, S>::bfs_path_btree(&go, &po, &found), "Sqrid::bfs_path_btree")?;
            let g = bf::search_mapmov::<_, _, BM<P<X, Y>, Option<Dir>>, Gridbool<P<X, Y>, W>, _, D, W, S>(&go, &po, &found);
            vb(g.and_then(|(q, f)| Ok((q, camefrom_into_path::<_, _, W, S>(f, &po, &q)?))), "bf::search_mapmov")
        }
        #[cfg(feature = "C23")]
        Algo::Astar => {
            v(astar::search_path::<_, Grid<Option<Dir>, P<X, Y>, S>, BM<P<X, Y>, usize>, _, D, W, S>(&go, &po, &pt), "astar::search_path")?;
            v(astar::search_path_grid::<_, _, D, W, S>(&go, &po, &pt), "astar::search_path_grid")?;
            v(astar::search_path_hash::<_, _, D, W, S>(&go, &po, &pt), "astar::search_path_hash")?;
            v(astar::search_path_btree::<_, _, D, W, S>(&go, &po, &pt), "astar::search_path_btree")?;
            v(Sqrid::<X, Y, D, V, S>::astar_path(&go, &po, &pt), "Sqrid::astar_path")?;
            v(Sqrid::<X, Y, D, V, S>::astar_path_grid(&go, &po, &pt), "Sqrid::astar_path_grid")?;
            v(Sqrid::<X, Y, D, W, S>::astar_path_hash(&go, &po, &pt), "Sqrid::astar_path_hash")?;
            v(Sqrid::<X, Y, D, W, S>::astar_path_btree(&go, &po, &pt), "Sqrid::astar_path_btree")?;
            let g = astar::search_mapmov::<_, BM<P<X, Y>, Option<Dir>>, HM<P<X, Y>, usize>, _, D, W, S>(&go, &po, &pt);
            v(g.and_then(|f| camefrom_into_path::<_, _, W, S>(f, &po, &pt)), "astar::search_mapmov")
        }
        #[cfg(feature = "C24")]
        Algo::Ucs => {
            v(ucs::search_path::<_, Grid<Option<Dir>, P<X, Y>, S>, BM<P<X, Y>, usize>, _, D, W, S>(&goc, &po, &pt), "ucs::search_path")?;
            v(ucs::search_path_grid::<_, _, D, W, S>(&goc, &po, &pt), "ucs::search_path_grid")?;
            v(ucs::search_path_hash::<_, _, D, W, S>(&goc, &po, &pt), "ucs::search_path_hash")?;
            v(ucs::search_path_btree::<_, _, D, W, S>(&goc, &po, &pt), "ucs::search_path_btree")?;
            v(Sqrid::<X, Y, D, V, S>::ucs_path(&goc, &po, &pt), "Sqrid::ucs_path")?;
            v(Sqrid::<X, Y, D, V, S>::ucs_path_grid(&goc, &po, &pt), "Sqrid::ucs_path_grid")?;
            v(Sqrid::<X, Y, D, W, S>::ucs_path_hash(&goc, &po, &pt), "Sqrid::ucs_path_hash")?;
            v(Sqrid::<X, Y, D, W, S>::ucs_path_btree(&goc, &po, &pt), "Sqrid::ucs_path_btree")?;
            let g = ucs::search_mapmov::<_, BM<P<X, Y>, Option<Dir>>, HM<P<X, Y>, usize>, _, D, W, S>(&goc, &po, &pt);
            v(g.and_then(|f| camefrom_into_path::<_, _, W, S>(f, &po, &pt)), "ucs::search_mapmov")
        }
        #[allow(unreachable_patterns)]
        _ => unreachable!(),
    }
}
fn one_goal(n: usize, t: usize) -> Vec<bool> { (0..n).map(|i| i == t).collect() }
fn search_d<const X: u16, const Y: u16, const S: usize, const W: usize, const V: usize, const D: bool>(c: &mut Ctx, a: Algo) {
    c.group(format!("Pos<{X}, {Y}>, diagonals {D}"));
    let (w, h) = (X as usize + 1, Y as usize + 1); let mut r = c.rng();
    let reps = if S <= 100 { c.n(240, 3200) } else { c.n(80, 640) };
    for k in 0..reps {
        let m = World::made(w, h, k, &mut r).costs(if a == Algo::Ucs { k / 8 + r.below(2) } else { 0 }, &mut r);
        let o = match k % 5 { 0 => 0, 1 => S - 1, _ => r.below(S) };
        let t = match k % 7 { 0 => S - 1, 1 => 0, 2 => o, 3 => w - 1, _ => r.below(S) };
        let goals = if a == Algo::Bfs && k % 3 == 0 { let q = r.below(3) as u64; (0..S).map(|_| r.chance(q, S as u64)).collect() } else { one_goal(S, t) };
        c.case(|| format!("world {k} {:?} from {o} to {:?}", m.to.iter().map(|t| t.map(|x| x.map(|y| y.1))).collect::<Vec<_>>(), goals.iter().enumerate().filter(|g| *g.1).map(|g| g.0).collect::<Vec<_>>()),
            || run_algo::<X, Y, S, W, V, D>(a, &m, o, &goals));
    }
}
/// every set of allowed moves (and costs 0 to 2) of a tiny grid
fn search_all<const X: u16, const Y: u16, const S: usize, const W: usize, const V: usize, const D: bool>(c: &mut Ctx, a: Algo, every: usize) {
    c.group(format!("all moves of Pos<{X}, {Y}>, diagonals {D}"));
    let (w, h) = (X as usize + 1, Y as usize + 1);
    let e: Vec<(usize, usize)> = (0..S).flat_map(|i| (0..8).filter(move |d| D || d % 2 == 0).map(move |d| (i, d))).filter(|(i, d)| step(w, h, *i, *d).is_some()).collect();
    let base = if a == Algo::Ucs { 4usize } else { 2 };
    let total = base.pow(e.len() as u32);
    let mut k = 0;
    while k < total {
        let mut m = World::empty(w, h); let mut q = k;
        for (i, d) in &e { if q % base > 0 { m.to[*i][*d] = Some((step(w, h, *i, *d).unwrap(), if a == Algo::Ucs { q % base - 1 } else { 1 })); } q /= base; }
        for o in 0..S { let t = (o + 1 + k % S.max(2)) % S; let goals = one_goal(S, t);
            c.case(|| format!("moves {k} from {o} to {t}"), || run_algo::<X, Y, S, W, V, D>(a, &m, o, &goals)); }
        k += every;
    }
}
/// positions that are pairs of u8: a block of cells somewhere in the 256x256 grid
fn pairs_d<const D: bool>(c: &mut Ctx, a: Algo) {
    c.group(format!("pairs of u8, diagonals {D}")); let mut r = c.rng();
    for k in 0..c.n(30, 300) {
        let (w, h) = (1 + r.below(9), 1 + r.below(9)); let n = w * h;
        let (x0, y0) = match k % 4 { 0 => (0, 0), 1 => (256 - w, 256 - h), 2 => (0, 256 - h), _ => (r.below(256 - w), r.below(256 - h)) };
        let m = World::made(w, h, k, &mut r).costs(if a == Algo::Ucs { k / 8 } else { 0 }, &mut r); let (o, t) = (r.below(n), r.below(n));
        let goals = one_goal(n, t);
        c.case(|| format!("block {w}x{h} at ({x0}, {y0}), world {k}, from {o} to {t}"), || {
            let at = |i: usize| ((x0 + i % w) as u8, (y0 + i / w) as u8); let ix = |p: (u8, u8)| (p.1 as usize - y0) * w + p.0 as usize - x0;
            let goc = |p: (u8, u8), d: Dir| m.to[ix(p)][num(d)].map(|t| (at(t.0), t.1)); let go = |p: (u8, u8), d: Dir| goc(p, d).map(|t| t.0);
            let best = if a == Algo::Ucs { m.cheapest(o, D) } else { m.steps(o, D) };
            let (po, pt) = (at(o), at(t)); let found = |p: (u8, u8)| p == pt;
            let rs = match a {
                Algo::Bfs => [bf::search_path_hash::<_, _, _, D, 1, 1>(&go, &po, &found).map(|x| x.1), bf::search_path_btree::<_, _, _, D, 1, 1>(&go, &po, &found).map(|x| x.1)],
                Algo::Astar => [astar::search_path_hash::<_, _, D, 1, 1>(&go, &po, &pt), astar::search_path_btree::<_, _, D, 1, 1>(&go, &po, &pt)],
                Algo::Ucs => [ucs::search_path_hash::<_, _, D, 1, 1>(&goc, &po, &pt), ucs::search_path_btree::<_, _, D, 1, 1>(&goc, &po, &pt)],
            };
            for (g, what) in rs.into_iter().zip(["hash", "btree"]) { verdict(a, &m, o, &goals, D, &best, g.map(|p| (t, p)), what)?; }
            Ok(())
        });
    }
}
fn corridor_search(c: &mut Ctx, a: Algo) {
    c.group("corridor of 70000 cells");
    use corridor::{ok, P, S, W};
    let (o, t) = corridor::ends(); let go = corridor::go; let found = |p: P| p == t;
    for cost in [1usize, 1 << 17] {
        let goc = |p: P, d: Dir| corridor::go(p, d).map(|q| (q, cost));
        match a {
            Algo::Bfs if cost == 1 => {
                c.case(|| "grid".into(), || ok(bf::search_path_grid::<_, _, _, false, W, S>(&go, &o, &found).map(|x| x.1)));
                c.case(|| "hash".into(), || ok(bf::search_path_hash::<_, _, _, true, W, S>(&go, &o, &found).map(|x| x.1)));
                c.case(|| "btree".into(), || ok(bf::search_path_btree::<_, _, _, false, W, S>(&go, &o, &found).map(|x| x.1)));
            }
            Algo::Astar if cost == 1 => {
                c.case(|| "grid".into(), || ok(astar::search_path_grid::<_, _, true, W, S>(&go, &o, &t)));
                c.case(|| "hash".into(), || ok(astar::search_path_hash::<_, _, false, W, S>(&go, &o, &t)));
                c.case(|| "btree".into(), || ok(astar::search_path_btree::<_, _, true, W, S>(&go, &o, &t)));
            }
            Algo::Ucs => {
                c.case(|| format!("grid, {cost} a step"), || ok(ucs::search_path_grid::<_, _, false, W, S>(&goc, &o, &t)));
                c.case(|| format!("hash, {cost} a step"), || ok(ucs::search_path_hash::<_, _, false, W, S>(&goc, &o, &t)));
                c.case(|| format!("btree, {cost} a step"), || ok(ucs::search_path_btree::<_, _, true, W, S>(&goc, &o, &t)));
            }
            _ => {}
        }
    }
}
macro_rules! search_prop { ($f:ident, $dim:ident, $all:ident, $m:tt, $a:expr, $ea:expr, $eb:expr) => {
    fn $dim<const X: u16, const Y: u16, const S: usize, const W: usize, const V: usize>(c: &mut Ctx) { search_d::<X, Y, S, W, V, false>(c, $a); search_d::<X, Y, S, W, V, true>(c, $a); }
    pub fn $f(c: &mut Ctx) {
        #[cfg(not(feature = "unmade"))]
        made_dims!(c, $m);
        pairs_d::<false>(c, $a); pairs_d::<true>(c, $a); corridor_search(c, $a);
        let (x, y) = if c.thorough { (1, $eb.min(7)) } else { ($ea, $eb) };
        search_all::<1, 1, 4, 1, 1, false>(c, $a, x); search_all::<0, 2, 3, 1, 1, true>(c, $a, 1); search_all::<2, 0, 3, 1, 1, true>(c, $a, 1); search_all::<1, 1, 4, 1, 1, true>(c, $a, y);
        dims!(c, $dim, (0,0) (0,1) (1,0) (1,1) (2,2) (0,6) (6,0) (1,7) (7,1) (3,4) (4,3) (7,7) (2,20) (20,2) (11,11) (0,40) (40,0));
    }
} }
#[cfg(feature = "C22")]
search_prop!(c22, d22, a22, (Algo::Bfs), Algo::Bfs, 1, 1);
#[cfg(feature = "C23")]
search_prop!(c23, d23, a23, (Algo::Astar), Algo::Astar, 1, 1);
#[cfg(feature = "C24")]
search_prop!(c24, d24, a24, (Algo::Ucs), Algo::Ucs, 31, 9973);
