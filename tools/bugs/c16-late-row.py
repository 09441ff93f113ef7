prop='C16'
needs='a nested vector for a tall grid, with a row that is too long below the first width rows'
what='only the first width rows are checked for their length, so later ones are silently cut'
edits=[('grid.rs', 'vec.iter().any(|v| v.len() > P::width())', 'vec.iter().take(P::width()).any(|v| v.len() > P::width())')]
demo='''
type S = sqrid::sqrid_create!(1, 5, false);
type G = sqrid::grid_create!(S, u8);
fn main() {
    assert!(G::try_from(vec![vec![1], vec![2, 3], vec![], vec![4]]).is_ok());
    assert!(G::try_from(vec![vec![1], vec![2, 3], vec![], vec![4, 5, 6]]).is_err());
}
'''
