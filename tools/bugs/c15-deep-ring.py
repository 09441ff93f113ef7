prop='C15'
needs='a square grid with a side of six or more, rotated clockwise'
what='only the two outer rings are rotated'
edits=[('grid.rs', '    pub fn rotate_cw(&mut self) {\n        for y in 0..Pos::<W, W>::height() / 2 {', '    pub fn rotate_cw(&mut self) {\n        for y in 0..(Pos::<W, W>::height() / 2).min(2) {')]
demo='''
type S = sqrid::sqrid_create!(6, 6, false);
type P = sqrid::pos_create!(S);
type G = sqrid::grid_create!(S, usize);
use sqrid::PosT;
fn main() {
    let g: G = (0..49).collect();
    let mut r = g;
    r.rotate_cw();
    for p in P::iter() {
        assert_eq!(r[p.rotate_cw()], g[p]);
    }
}
'''
