prop='C16'
needs='collecting from an iterator whose lower size hint is less than its length'
what='collecting panics when the hint does not promise enough items'
edits=[('grid.rs', '''        let mut g = Self::default();
        let mut it = iter.into_iter();
        for item in &mut g.0[..] {
            if let Some(fromiter) = it.next() {
                *item = fromiter;''', '''        let mut g = Self::default();
        let mut it = iter.into_iter();
        assert!(it.size_hint().0 >= SIZE.min(16), "iterator too short for grid type");
        for item in &mut g.0[..] {
            if let Some(fromiter) = it.next() {
                *item = fromiter;''')]
demo='''
use sqrid::{Grid, Pos};
type P = Pos<3, 3>;
fn main() {
    let g: Grid<u8, P, 16> = (0..32u8).filter(|x| x % 2 == 0).collect();
    assert_eq!(g[P::LAST], 30);
}
'''
