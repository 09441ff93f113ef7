prop='C12'
needs='going backwards vertically from the top of a column in a grid that is not square'
what='the previous column is entered at the row numbered like its own width'
edits=[('postrait.rs', 'self.x().dec().map(|x| Self::new_((x, Self::Ytype::MAX)))', 'self.x().dec().and_then(|x| Self::new(x, Self::width().min(Self::height()) - 1).ok())')]
demo='''
use sqrid::{Pos, PosT};
fn main() {
    type P = Pos<1, 3>;
    assert_eq!(PosT::prev_y(&P::new(1, 0).unwrap()), Some(P::new(0, 3).unwrap()));
    let f: Vec<P> = P::iter_vertical().collect();
    let mut b: Vec<P> = P::iter_vertical().rev().take(20).collect();
    b.reverse();
    assert_eq!(f, b);
}
'''
