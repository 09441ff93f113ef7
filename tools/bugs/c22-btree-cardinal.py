prop='C22'
needs='the ordered-container search with diagonals enabled'
what='the wrapper searches without diagonals, so the path is not the shortest'
edits=[('bf.rs', '        search_path_btree::<GoFn, FoundFn, P, D, WORDS, SIZE>(go, orig, found)', '        search_path_btree::<GoFn, FoundFn, P, false, WORDS, SIZE>(go, orig, found)')]
demo='''
type S = sqrid::sqrid_create!(3, 3, true);
type P = sqrid::pos_create!(S);
fn main() {
    let (g, p) = S::bfs_path_btree(sqrid::pos_dir_add_ok, &P::FIRST, |p| p == P::LAST).unwrap();
    assert_eq!((g, p.len()), (P::LAST, 3));
}
'''
