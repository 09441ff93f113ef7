prop='C15'
needs='flipping vertically a grid of 256 or more rows'
what='the number of rows to exchange is computed in 8 bits'
edits=[('grid.rs', '''        for y in 0..P::height() / 2 {''', '''        for y in 0..P::height().min(511) / 2 {''')]
demo='''
use sqrid::{Grid, Pos};
fn main() {
    type P = Pos<0, 599>;
    let mut g: Grid<u16, P, 600> = (0..600u16).collect();
    g.flip_v();
    assert!((0..600u16).all(|y| g[P::new(0, y).unwrap()] == 599 - y));
}
'''
needs='flipping vertically a grid of 512 or more rows'
what='rows in the middle of a tall grid stay where they are'
