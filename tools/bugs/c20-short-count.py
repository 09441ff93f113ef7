prop='C20'
needs='a path longer than 65535 steps'
what='the number of steps is limited in sixteen bits, so a long path is reported as a loop'
edits=[('mappos.rs', 'let mut maxiter = P::dimensions() + 1;', 'let mut maxiter = (P::dimensions() as u16).wrapping_add(1);')]
demo='''
type P = sqrid::Pos<34999, 1>;
use sqrid::*;
use std::collections::HashMap;
fn main() {
    let mut m: (HashMap<P, Option<Dir>>, Option<Dir>) = Default::default();
    let p = |x, y| P::new(x, y).unwrap();
    for x in 1..35000 { m.0.insert(p(x, 0), Some(Dir::W)); m.0.insert(p(x - 1, 1), Some(Dir::E)); }
    m.0.insert(p(34999, 1), Some(Dir::N));
    let path = camefrom_into_path::<_, _, 1, 70000>(m, &p(0, 0), &p(0, 1));
    assert_eq!(path.map(|p| p.len()), Ok(69999));
}
'''
