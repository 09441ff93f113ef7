prop='C24'
needs='costs of 2^32 or more'
what='the priority keeps the low 32 bits of the cost, so a position is taken up before its cheapest path is known'
edits=[('ucs.rs', '                        let priority = Reverse(newcost);', '                        let priority = Reverse(newcost as u32 as usize);')]
demo='''
type S = sqrid::sqrid_create!(2, 1, false);
type P = sqrid::pos_create!(S);
use sqrid::Dir;
fn main() {
    // straight along the top line costs 2^32, the way around much less
    let go = |p: P, d: Dir| {
        let q = sqrid::pos_dir_add_ok(p, d)?;
        Some((q, if p.y() == 0 && q.y() == 0 { 1usize << 32 } else { 1 << 4 }))
    };
    let r = S::ucs_path(go, &P::FIRST, &P::TOP_RIGHT).unwrap();
    assert_eq!(r, vec![Dir::S, Dir::E, Dir::E, Dir::N]);
}
'''
