prop='C17'
needs='a boolean grid with more than 65536 positions'
what='the bit number keeps its low sixteen bits, so distant positions share a bit'
edits=[('gridbool.rs', '        let byte = i / 32;', '        let byte = (i as u16 / 32) as usize;')]
demo='''
type S = sqrid::sqrid_create!(299, 299, false);
type P = sqrid::pos_create!(S);
type G = sqrid::gridbool_create!(S);
use sqrid::PosT;
fn main() {
    let mut g = G::repeat(false);
    g.set_t(&P::FIRST);
    for p in P::iter() {
        assert_eq!(g.get(&p), p == P::FIRST);
    }
}
'''
