prop='C18'
needs='bulk-clearing a sequence with a position that is already clear before the end'
what='bulk clearing stops at the first position that is already clear'
edits=[('gridbool.rs', '        for pos in positer {\n            self.set_f(&pos);', '        for pos in positer {\n            if !self.get(&pos) {\n                break;\n            }\n            self.set_f(&pos);')]
demo='''
type S = sqrid::sqrid_create!(3, 3, false);
type P = sqrid::pos_create!(S);
type G = sqrid::gridbool_create!(S);
fn main() {
    let mut g = G::repeat(false);
    g.set_t(&P::LAST);
    g.set_iter_f([P::FIRST, P::LAST].into_iter());
    assert!(!g.get(&P::LAST));
}
'''
