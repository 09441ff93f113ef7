prop="C11"
needs="limits given as the top-right and bottom-left corners"
what="the y limits are ordered by comparing x, so anti-diagonal corners give an empty range"
edits=[("postrait.rs","let (ymin, ymax) = if pos1.y() < pos2.y() {","let (ymin, ymax) = if pos1.tuple() < pos2.tuple() {")]
demo='''
use sqrid::{Pos, PosT};
fn main() {
    type P = Pos<6, 6>;
    let p = |x, y| P::new(x, y).unwrap();
    assert!(p(3, 3).inside(&p(1, 5), &p(5, 1)));
    assert!(p(3, 3).inside(&p(1, 1), &p(5, 5)));
}
'''
