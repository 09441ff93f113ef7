prop='C11'
needs='a sequence whose lowest position is not the last one'
what='the bottom of the box is the row of the last position that is below the top'
edits=[('postrait.rs', 'if t.1 > br.1 { t.1 } else { br.1 },', 'if t.1 > tl.1 { t.1 } else { br.1 },')]
demo='''
use sqrid::{Pos, PosT};
fn main() {
    type P = Pos<9, 9>;
    let p = |x, y| P::new(x, y).unwrap();
    assert_eq!(P::tlbr_of([p(3, 3), p(3, 7), p(4, 5)].into_iter()), Ok((p(3, 3), p(4, 7))));
}
'''
