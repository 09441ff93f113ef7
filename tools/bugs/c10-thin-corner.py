prop='C10'
needs='a grid that is one column wide'
what='no position of a one-column grid is reported as a corner'
edits=[('postrait.rs', '        (self.x() == Self::Xtype::MIN || self.x() == Self::Xtype::MAX)\n            &&', '        ((self.x() == Self::Xtype::MIN) != (self.x() == Self::Xtype::MAX))\n            &&')]
demo='''
use sqrid::{Pos, PosT};
fn main() {
    type P = Pos<0, 3>;
    assert!(P::FIRST.is_corner() && P::LAST.is_corner());
    assert!(!P::new(0, 1).unwrap().is_corner());
}
'''
