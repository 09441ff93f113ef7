prop='C21'
needs='more than 512 positions at the same distance'
what='positions beyond the first 512 of a group are dropped'
edits=[('bf.rs', '                    self.nextfront.push((next_pos, -dir));\n                    self.visited', '                    if self.nextfront.len() < 512 {\n                        self.nextfront.push((next_pos, -dir));\n                    }\n                    self.visited')]
release=True
demo='''
type S = sqrid::sqrid_create!(599, 1, true);
type P = sqrid::pos_create!(S);
fn main() {
    // from the first position every other one is one move away
    let go = |p: P, d: sqrid::Dir| if p == P::FIRST { (p + d).ok() } else { (p + d).ok() };
    let n = S::bf_iter(go, &P::FIRST).flatten().count();
    assert_eq!(n, 1199);
    type T = sqrid::sqrid_create!(999, 999, false);
    type Q = sqrid::pos_create!(T);
    let n = T::bf_iter_hash(sqrid::pos_dir_add_ok, &Q::FIRST).flatten().count();
    assert_eq!(n, 999999);
}
'''
