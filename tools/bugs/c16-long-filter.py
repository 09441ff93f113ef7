prop='C16'
needs='an iterator that does not know its length and has too many items'
what='items left over are only noticed when the iterator announces them'
edits=[('grid.rs', '                *item = *fromiter;\n            } else {\n                panic!("iterator too short for grid type");\n            }\n        }\n        assert!(it.next().is_none()', '                *item = *fromiter;\n            } else {\n                panic!("iterator too short for grid type");\n            }\n        }\n        assert!(it.size_hint().0 == 0')]
demo='''
use sqrid::{Grid, Pos};
fn main() {
    let v = [1, 2, 3, 4, 5];
    let r = std::panic::catch_unwind(|| { let _: Grid<i32, Pos<1, 1>, 4> = v.iter().filter(|x| **x > 0).collect(); });
    assert!(r.is_err());
}
'''
