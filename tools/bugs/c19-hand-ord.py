prop='C19'
needs='an ordered set over a board with more than 65536 positions in two far apart rows'
what='positions are ordered by the low half of their index, so that two of them can be equal for an ordered set'
edits=[('pos.rs', '#[derive(Debug, Clone, Copy, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]\npub struct Pos<const XMAX: u16, const YMAX: u16>(pub (BoundedU16<0, XMAX>, BoundedU16<0, YMAX>));', '''#[derive(Debug, Clone, Copy, Default, PartialEq, Eq, Hash)]
pub struct Pos<const XMAX: u16, const YMAX: u16>(pub (BoundedU16<0, XMAX>, BoundedU16<0, YMAX>));

impl<const XMAX: u16, const YMAX: u16> PartialOrd for Pos<XMAX, YMAX> {
    fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(other))
    }
}

impl<const XMAX: u16, const YMAX: u16> Ord for Pos<XMAX, YMAX> {
    fn cmp(&self, other: &Self) -> std::cmp::Ordering {
        let key = |p: &Self| {
            (p.0 .0.into_inner() as u16).wrapping_mul(YMAX.wrapping_add(1)).wrapping_add(p.0 .1.into_inner())
        };
        if XMAX < 64 {
            self.0.cmp(&other.0)
        } else {
            key(self).cmp(&key(other))
        }
    }
}''')]
demo='''
use sqrid::{Pos, SetPos};
use std::collections::BTreeSet;
type P = Pos<299, 299>;
fn main() {
    let mut s: BTreeSet<P> = BTreeSet::new();
    for x in 0..300 { for y in 0..300 { SetPos::<P, 2813, 90000>::insert(&mut s, P::new(x, y).unwrap()); } }
    assert_eq!(s.len(), 90000);
}
'''
