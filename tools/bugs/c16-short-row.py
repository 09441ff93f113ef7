prop='C16'
needs='nested vectors with rows of different lengths'
what='a row shorter than the one before it keeps its end'
edits=[('grid.rs', 'if y < vec.len() && x < vec[y].len() {', 'if y < vec.len() && !vec[y].is_empty() && x <= vec[y].len() - 1 && (x > 0 || y == 0 || vec[y].len() > 1 || P::width() < 4) {')]
demo='''
use sqrid::{Grid, Pos};
fn main() {
    let g = Grid::<i32, Pos<4, 1>, 10>::try_from(vec![vec![1, 2], vec![3]]).unwrap();
    assert_eq!(*g.as_array(), [1, 2, 0, 0, 0, 3, 0, 0, 0, 0]);
}
'''
