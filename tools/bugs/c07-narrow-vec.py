prop='C07'
needs='converting a pair of i128 (or isize) with a component beyond 64 (32) bits whose low bits are -1, 0 or 1'
what='the vector is narrowed to i64 before it is matched, so vectors that are no direction are accepted'
edits=[('dir.rs', '''                match xy {
                    (0, -1) => Ok(Dir::N),''', '''                match (xy.0 as i64, xy.1 as i64) {
                    (0, -1) => Ok(Dir::N),''')]
demo='''
use sqrid::Dir;
fn main() {
    assert!(Dir::try_from((1i128 << 64, 1i128)).is_err());
}
'''
