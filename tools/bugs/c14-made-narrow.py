prop='C14'
needs='a grid type made by grid_create! with 256 or more columns'
what='grid_create! computes the number of columns in eight bits, and the type it makes has too few cells for its positions'
edits=[('grid.rs', '{ ((<$sqrid>::XMAX as usize + 1) *', '{ ((<$sqrid>::XMAX as u8 as usize + 1) *')]
demo='''
type S = sqrid::sqrid_create!(256, 0, false);
type P = sqrid::pos_create!(S);
type G = sqrid::grid_create!(S, u8);
fn main() {
    let mut g = G::repeat(0);
    g[P::LAST] = 1;
    assert_eq!(g.iter().count(), 257);
    assert_eq!(g[P::LAST], 1);
}
'''
