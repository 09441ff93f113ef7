prop='C11'
needs='two positions more than 65535 steps apart'
what='the distance is added up in sixteen bits'
edits=[('postrait.rs', 'into_or_panic!(dx) + into_or_panic!(dy)', 'let (dx, dy): (usize, usize) = (into_or_panic!(dx), into_or_panic!(dy));\n        if dx < 65536 && dy < 65536 { (dx as u16).wrapping_add(dy as u16) as usize } else { dx + dy }')]
demo='''
use sqrid::{Pos, PosT};
fn main() {
    type P = Pos<40000, 40000>;
    assert_eq!(P::FIRST.manhattan(&P::LAST), 80000);
}
'''
