prop='C20'
needs='origin and destination the same position, with no direction recorded for it'
what='the path from a position to itself is found even when the map has no entry for it'
edits=[('mappos.rs', '''    if map.get(&pos).is_none() {''', '''    if map.get(&pos).is_none() && &pos != orig {''')]
demo='''
use sqrid::*;
fn main() {
    type P = Pos<2, 2>;
    let m = Grid::<Option<Dir>, P, 9>::default();
    let r = camefrom_into_path::<_, P, 1, 9>(m, &P::FIRST, &P::FIRST);
    assert_eq!(r, Err(Error::DestinationUnreachable));
}
'''
