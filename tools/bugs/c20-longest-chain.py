prop='C20'
needs='a chain of directions that visits every position of the grid'
what='the longest chain without repetition is reported as a loop'
edits=[('mappos.rs', '        if maxiter == 0 {', '        if maxiter < 3 {')]
demo='''
type S = sqrid::sqrid_create!(1, 1, false);
type P = sqrid::pos_create!(S);
type G = sqrid::grid_create!(S, Option<sqrid::Dir>);
use sqrid::Dir;
fn main() {
    let p = |x, y| P::new(x, y).unwrap();
    let mut m = G::repeat(None);
    m[p(1, 0)] = Some(Dir::S);
    m[p(1, 1)] = Some(Dir::W);
    m[p(0, 1)] = Some(Dir::N);
    assert_eq!(S::camefrom_into_path(m, &p(0, 0), &p(1, 0)), Ok(vec![Dir::S, Dir::E, Dir::N]));
}
'''
