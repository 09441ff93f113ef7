prop='C19'
needs='more than 65536 positions in a hash set'
what='the hash set takes no more than 65536 positions'
edits=[('setpos.rs', '''    for collections::HashSet<P>
where
    P: Eq + std::hash::Hash,
{
    fn contains(&self, pos: &P) -> bool {
        self.contains(pos)
    }
    fn insert(&mut self, pos: P) {
        self.insert(pos);
    }''', '''    for collections::HashSet<P>
where
    P: Eq + std::hash::Hash,
{
    fn contains(&self, pos: &P) -> bool {
        self.contains(pos)
    }
    fn insert(&mut self, pos: P) {
        if self.len() <= u16::MAX as usize {
            self.insert(pos);
        }
    }''')]
demo='''
use sqrid::{Pos, SetPos};
use std::collections::HashSet;
type P = Pos<299, 299>;
fn main() {
    let mut s: HashSet<P> = HashSet::new();
    for x in 0..300 { for y in 0..300 { SetPos::<P, 2813, 90000>::insert(&mut s, P::new(x, y).unwrap()); } }
    assert_eq!(s.len(), 90000);
}
'''
