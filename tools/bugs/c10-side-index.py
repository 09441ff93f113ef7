prop='C10'
needs='a board with more than 65536 positions and a position of its right side with a large index'
what='the right side is recognised by the low half of the index'
edits=[('postrait.rs', '''        self.x() == Self::Xtype::MIN
            || self.x() == Self::Xtype::MAX
            || self.y() == Self::Ytype::MIN''', '''        self.x() == Self::Xtype::MIN
            || (self.to_usize() + 1) as u16 as usize % Self::width() == 0
            || self.y() == Self::Ytype::MIN''')]
demo='''
use sqrid::PosT;
type P = sqrid::Pos<299, 299>;
fn main() {
    for y in 0..300 { for x in 0..300 {
        let p = P::new(x, y).unwrap();
        assert_eq!(PosT::is_side(&p), x == 0 || y == 0 || x == 299 || y == 299, "{x} {y}");
    } }
}
'''
