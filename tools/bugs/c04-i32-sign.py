prop='C04'
needs='an x coordinate above 32767 read back as an i32 pair'
what='the coordinate comes back negative'
edits=[('pos.rs', '(pos.x() as i32, pos.y() as i32)', '(pos.x() as i16 as i32, pos.y() as i32)')]
demo='''
use sqrid::{Pos, PosT};
fn main() {
    type P = Pos<40000, 3>;
    let p = P::new(39999, 2).unwrap();
    assert_eq!(<(i32, i32)>::from(p), (39999, 2));
    let _ = p.to_usize();
}
'''
