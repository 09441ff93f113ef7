prop='C19'
needs='removing a position from a hash set by set(pos, false)'
what='the default implementation of set only removes positions other than the first'
edits=[('setpos.rs', '        if add {\n            self.insert(pos);\n        } else {\n            self.remove(&pos);\n        }', '        if add {\n            self.insert(pos);\n        } else if pos.to_usize() > 0 {\n            self.remove(&pos);\n        }')]
demo='''
use sqrid::{Pos, SetPos};
use std::collections::HashSet;
fn main() {
    type P = Pos<1, 1>;
    let mut s: HashSet<P> = HashSet::new();
    SetPos::<P, 1, 4>::set(&mut s, P::FIRST, true);
    SetPos::<P, 1, 4>::set(&mut s, P::FIRST, false);
    assert!(!SetPos::<P, 1, 4>::contains(&s, &P::FIRST));
}
'''
