prop="C13"
needs="a range that touches the right side of the grid and does not start at column 0"
what="after a wrap to the next line the range continues at column 0"
edits=[("postrait.rs",'''                if p.x() < self.topleft.x() {
                    pos = P::new(self.topleft.x(), p.y()).ok();
                } else if''','''                if''')]
demo='''
use sqrid::{Pos, PosT};
fn main() {
    type P = Pos<3, 3>;
    let p = |x, y| P::new(x, y).unwrap();
    let v: Vec<P> = P::iter_range(p(2, 1), p(3, 2)).collect();
    assert_eq!(v, [p(2, 1), p(3, 1), p(2, 2), p(3, 2)]);
}
'''
