prop='C21'
needs='diagonals enabled, and a position reached by a diagonal and by another direction'
what='positions reached diagonally are not marked, so they are yielded again'
edits=[('bf.rs', '                    self.visited.insert(next_pos);\n', '                    if dir != Dir::NW {\n                        self.visited.insert(next_pos);\n                    }\n')]
demo='''
type S = sqrid::sqrid_create!(3, 3, true);
type P = sqrid::pos_create!(S);
use std::collections::HashSet;
fn main() {
    let mut seen = HashSet::new();
    for (pos, _) in S::bf_iter(sqrid::pos_dir_add_ok, &P::LAST).flatten() {
        assert!(seen.insert(pos));
    }
    assert_eq!(seen.len(), 15);
}
'''
