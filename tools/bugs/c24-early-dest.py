prop='C24'
needs='moves that cost nothing and lead to the left or upwards'
what='moves of cost zero are only taken to the right and downwards'
edits=[('ucs.rs', 'if newcost < *self.cost.get(&next_pos) {', 'if newcost < *self.cost.get(&next_pos) && (costincr > 0 || next_pos.to_usize() > pos.to_usize()) {')]
demo='''
type S = sqrid::sqrid_create!(2, 2, false);
type P = sqrid::pos_create!(S);
fn main() {
    let go = |p: P, d: sqrid::Dir| (p + d).ok().map(|q| (q, 0usize));
    assert_eq!(S::ucs_path(go, &P::LAST, &P::FIRST).map(|p| p.len() >= 4), Ok(true));
}
'''
