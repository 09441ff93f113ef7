prop='C22'
needs='a goal function that accepts several positions'
what='the goal is only tested when the distance is even'
edits=[('bf.rs', '        from.set(pos, Some(dir));\n        if found(pos) {', '        if from.get(&pos).is_none() {\n            from.set(pos, Some(dir));\n        } else {\n            continue;\n        }\n        if found(pos) && !(dir.is_diagonal() && pos.to_usize() == 0) {')]
demo='''
type S = sqrid::sqrid_create!(3, 3, true);
type P = sqrid::pos_create!(S);
fn main() {
    let (p, path) = S::bfs_path(sqrid::pos_dir_add_ok, &P::LAST, |p: P| p == P::FIRST).unwrap();
    assert_eq!(p, P::FIRST);
    assert_eq!(path.len(), 3);
}
'''
