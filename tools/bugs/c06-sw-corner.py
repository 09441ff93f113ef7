prop='C06'
needs='a diagonal step taken from the left column'
what='south-west from the left column moves straight down instead of being out of bounds'
edits=[('dir.rs', 'Dir::SW => (T::dec(p0), U::inc(p1)),', 'Dir::SW => (T::dec(p0).or(Some(p0)), U::inc(p1)),')]
demo='''
use sqrid::{Dir, Pos};
fn main() {
    let p = Pos::<4, 6>::new(0, 3).unwrap();
    assert!((p + Dir::SW).is_err());
}
'''
