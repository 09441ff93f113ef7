prop='C18'
needs='a square grid with an even side'
what='the innermost ring of even-sided grids is not rotated'
edits=[('gridbool.rs', 'for y in 0..XYMAX.div_ceil(2) {', 'for y in 0..XYMAX / 2 {')]
all=True
demo='''
type S = sqrid::sqrid_create!(3, 3, false);
type P = sqrid::pos_create!(S);
type G = sqrid::gridbool_create!(S);
fn main() {
    let mut g = G::repeat(false);
    g.set_t(&P::new(1, 1).unwrap());
    g.rotate_cw();
    assert!(g.get(&P::new(2, 1).unwrap()));
}
'''
