prop='C06'
needs='a grid with a single column or row and a diagonal move'
what='in a grid of one column a diagonal move goes straight'
edits=[('dir.rs', 'Dir::SE => (T::inc(p0), U::inc(p1)),', 'Dir::SE => (if T::MIN == T::MAX { Some(p0) } else { T::inc(p0) }, U::inc(p1)),')]
demo='''
use sqrid::{Dir, Pos};
fn main() {
    type P = Pos<0, 3>;
    assert!((P::FIRST + Dir::SE).is_err());
}
'''
