prop="C07"
needs="a pair (-1, y) that is not one of the unit vectors"
what="pairs such as (-1, 7) are accepted as a direction"
all=True
edits=[("dir.rs","(-1, -1) => Ok(Dir::NW),","(-1, _) => Ok(Dir::NW),")]
demo='''
use sqrid::Dir;
fn main() {
    assert!(Dir::try_from((-1i16, 7i16)).is_err());
    assert_eq!(Dir::try_from((-1i16, -1i16)).unwrap(), Dir::NW);
}
'''
