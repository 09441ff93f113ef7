prop='C15'
needs='a grid that is not square'
what='the vertical flip swaps as many rows as if the grid were square'
edits=[('grid.rs', 'for y in 0..P::height() / 2 {', 'for y in 0..P::width().min(P::height()) / 2 {')]
demo='''
use sqrid::{Grid, Pos};
fn main() {
    type P = Pos<0, 3>;
    let mut g: Grid<i32, P, 4> = [1, 2, 3, 4].iter().collect();
    g.flip_v();
    assert_eq!(*g.as_array(), [4, 3, 2, 1]);
}
'''
