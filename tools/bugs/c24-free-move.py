prop='C24'
needs='moves of cost zero on the cheapest path'
what='a move of cost zero is taken as not allowed'
edits=[('ucs.rs', '''                    if newcost < *self.cost.get(&next_pos) {''', '''                    if newcost < *self.cost.get(&next_pos) && newcost != priority {''')]
demo='''
use sqrid::*;
fn main() {
    type S = sqrid::sqrid_create!(3, 1, false);
    type P = sqrid::pos_create!(S);
    let go = |p: P, d: Dir| (p + d).ok().map(|q| (q, if d == Dir::E { 0 } else { 1 }));
    let r = S::ucs_path(go, &P::FIRST, &P::new(2, 0).unwrap());
    assert_eq!(r, Ok(vec![Dir::E, Dir::E]));
}
'''
