prop='C21'
needs='a breadth-first iteration started at the last position of the grid'
what='the origin is not marked as visited when it has no following position, and is yielded at distance 2'
edits=[('bf.rs', '''            self.visited.insert(pos);
''', '''            // the positions of later groups were marked when they were found
            if pos.next().is_some() {
                self.visited.insert(pos);
            }
''')]
demo='''
use sqrid::*;
fn main() {
    type S = sqrid::sqrid_create!(2, 2, false);
    type P = sqrid::pos_create!(S);
    let o = P::LAST;
    let n = S::bf_iter(sqrid::pos_dir_add_ok, &o).flatten().filter(|(p, _)| *p == o).count();
    assert_eq!(n, 0);
}
'''
