prop='C23'
needs='diagonal movement on a board of at least nine by nine, with obstacles that make a detour as short as the straight way'
what='the estimate exceeds the distance where both differences are large'
edits=[('astar.rs', '''    if D {
        pos.chebyshev(dest)
    } else {''', '''    if D {
        let far = pos.chebyshev(dest);
        far + (pos.manhattan(dest) - far) / 8
    } else {''')]
demo='''
use sqrid::{Dir, Pos, Sqrid};
use std::collections::HashSet;
type P = Pos<15, 15>;
type S = sqrid::sqrid_create!(15, 15, true);
fn steps(wall: &HashSet<P>) -> Option<usize> {
    let mut dist = std::collections::HashMap::new();
    dist.insert(P::FIRST, 0usize);
    let mut q = std::collections::VecDeque::from([P::FIRST]);
    while let Some(p) = q.pop_front() {
        for d in Dir::iter::<true>() {
            if let Ok(n) = p + d { if !wall.contains(&n) && !dist.contains_key(&n) { dist.insert(n, dist[&p] + 1); q.push_back(n); } }
        }
    }
    dist.get(&P::LAST).copied()
}
fn main() {
    let mut seed = 1u64;
    for _ in 0..4000 {
        let mut wall = HashSet::new();
        for x in 0..16 { for y in 0..16 {
            seed = seed.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            if (seed >> 33) % 100 < 40 { wall.insert(P::new(x, y).unwrap()); }
        } }
        wall.remove(&P::FIRST); wall.remove(&P::LAST);
        let got = S::astar_path(&|p: P, d: Dir| (p + d).ok().filter(|n| !wall.contains(n)), &P::FIRST, &P::LAST).ok().map(|p| p.len());
        assert_eq!(got, steps(&wall));
    }
    let _ = Sqrid::<1, 1, false, 1, 4>::XMAX;
}
'''
