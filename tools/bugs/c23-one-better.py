prop='C23'
needs='diagonals enabled, and a position first reached by a path that is one step too long'
what='an improvement by a single step is ignored'
edits=[('astar.rs', 'if newcost < *self.cost.get(&next_pos) {', 'if newcost + 1 < *self.cost.get(&next_pos) {')]
release=True
demo='''
type S = sqrid::sqrid_create!(4, 4, true);
type P = sqrid::pos_create!(S);
use sqrid::*;
fn main() {
    // every pattern of up to 5 walls, compared with breadth-first search
    for w in 0..(1u32 << 25) {
        if w.count_ones() > 4 { continue; }
        let go = |p: P, d: Dir| (p + d).ok().filter(|q| w >> q.to_usize() & 1 == 0);
        let b = S::bfs_path(go, &P::FIRST, |p: P| p == P::LAST);
        let a = S::astar_path(go, &P::FIRST, &P::LAST);
        assert_eq!(a.map(|p| p.len()), b.map(|p| p.1.len()));
    }
}
'''
