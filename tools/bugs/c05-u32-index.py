prop="C05"
needs="an index that does not fit in 32 bits"
what="the index is reduced modulo 2^32 before it is converted, so huge indexes are accepted"
edits=[("postrait.rs",'''        let width = Self::width();
        Self::new(i % width, i / width)''','''        let width = Self::width() as u64;
        let i = i as u32 as u64;
        Self::new((i % width) as usize, (i / width) as usize)''')]
demo='''
use sqrid::Pos;
fn main() {
    type P = Pos<6, 3>;
    assert!(P::try_from(1usize << 32).is_err());
    assert!(P::try_from(28usize).is_err());
    assert_eq!(P::try_from(27usize).unwrap(), P::LAST);
}
'''
