prop='C25'
needs='a boolean grid that is wider than high'
what='the cells of a boolean grid are read column by column'
edits=[('gridbool.rs', '            self.iter().map(|b| (if b { "#" } else { "." }).to_string()),', '            P::iter_vertical().map(|p| (if self.get(&p) { "#" } else { "." }).to_string()),')]
demo='''
type S = sqrid::sqrid_create!(2, 1, false);
type P = sqrid::pos_create!(S);
type G = sqrid::gridbool_create!(S);
fn main() {
    let mut g = G::repeat(false);
    g.set_t(&P::new(1, 0).unwrap());
    assert_eq!(g.to_string(), "  012\\n0 .#.\\n1 ...\\n  012\\n");
}
'''
