prop='C25'
needs='a grid of exactly ten or a hundred columns or rows'
what='the width of the labels is computed from the number of columns, not from the last label, and the labels of a grid of exactly ten columns start with a blank line'
edits=[('grid.rs', 'let ndigits_x = format!("{}", w - 1).len();', 'let ndigits_x = format!("{}", w).len();')]
demo='''
type S = sqrid::sqrid_create!(9, 0, false);
type G = sqrid::grid_create!(S, i32);
fn main() {
    let g = G::repeat(7);
    assert_eq!(g.to_string(), "  0123456789\\n0 7777777777\\n  0123456789\\n");
}
'''
