prop='C23'
needs='a shortest path of 65535 steps or more'
what='positions that far away are never taken up, so a reachable destination is unreachable'
edits=[('astar.rs', 'MapPosUsize::new(usize::MAX)', 'MapPosUsize::new(u16::MAX as usize)')]
demo='''
use sqrid::{Dir, Pos};
// a long corridor: along the top line, and back along the bottom one
type P = Pos<32999, 1>;
fn go(p: P, d: Dir) -> Option<P> {
    if (d == Dir::N || d == Dir::S) && p.x() != 32999 {
        return None;
    }
    sqrid::pos_dir_add_ok(p, d)
}
fn main() {
    let r = sqrid::astar::search_path_hash::<_, P, false, 2063, 66000>(go, &P::FIRST, &P::BOTTOM_LEFT);
    assert_eq!(r.map(|v| v.len()), Ok(65999));
}
'''
