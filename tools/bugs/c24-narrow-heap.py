prop='C24'
needs='costs beyond 32 bits'
what='the queue is ordered by the cost as a 32 bit number, saturated'
edits=[('ucs.rs', '''                        let priority = Reverse(newcost);
                        self.frontier.push((priority, (next_pos, -dir)));''', '''                        let priority = Reverse(newcost.min(u32::MAX as usize));
                        self.frontier.push((priority, (next_pos, -dir)));''')]
demo='''
use sqrid::{Dir, Pos};
type P = Pos<2, 2>;
type S = sqrid::sqrid_create!(2, 2, false);
const K: usize = 1 << 33;
fn main() {
    let mut bad = 0;
    for seed in 0..500u64 {
        let cost = |p: P| { let i = p.x() as u64 + 3 * p.y() as u64 + 1; K + ((seed + 1) * i * i * 2654435761 % 97) as usize * K };
        let go = |p: P, d: Dir| (p + d).ok().map(|n| (n, cost(n)));
        let path = S::ucs_path(&go, &P::FIRST, &P::LAST).unwrap();
        let mut p = P::FIRST; let mut total = 0usize;
        for d in path { let n = (p + d).unwrap(); total += cost(n); p = n; }
        // all simple minimum: Bellman-Ford
        let all: Vec<P> = (0..9u16).map(|i| P::new(i % 3, i / 3).unwrap()).collect();
        let mut dist = vec![usize::MAX; 9]; dist[0] = 0;
        for _ in 0..9 { for (i, q) in all.iter().enumerate() { if dist[i] == usize::MAX { continue; } for d in Dir::iter::<false>() { if let Some((n, c)) = go(*q, d) { let j = (n.x() + 3 * n.y()) as usize; dist[j] = dist[j].min(dist[i] + c); } } } }
        if total != dist[8] { bad += 1; }
    }
    assert_eq!(bad, 0);
}
'''
