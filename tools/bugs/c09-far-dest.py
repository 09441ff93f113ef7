prop='C09'
needs='no diagonals, and a destination that is to the east and further below'
what='south is chosen before east'
edits=[('posdir.rs', '            (Less, _) => Some(Dir::E),\n            (_, Less) => Some(Dir::S),\n', '            (_, Less) => Some(Dir::S),\n            (Less, _) => Some(Dir::E),\n')]
demo='''
use sqrid::{direction_to, Dir, Pos};
fn main() {
    type P = Pos<4, 6>;
    let (a, b) = (P::new(0, 0).unwrap(), P::new(1, 5).unwrap());
    assert_eq!(direction_to::<P, false>(&a, &b), Some(Dir::E));
}
'''
