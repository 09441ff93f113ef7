prop='C19'
needs='setting a position of an ordered map twice'
what='the ordered map keeps the first item'
edits=[('mappos.rs', '    for (collections::BTreeMap<P, Item>, Item)\nwhere\n    P: Ord,\n{\n    fn new(item: Item) -> Self {\n        (Default::default(), item)\n    }\n    fn get(&self, pos: &P) -> &Item {\n        self.0.get(pos).unwrap_or(&self.1)\n    }\n    fn set(&mut self, pos: P, item: Item) {\n        self.0.insert(pos, item);', '    for (collections::BTreeMap<P, Item>, Item)\nwhere\n    P: Ord,\n{\n    fn new(item: Item) -> Self {\n        (Default::default(), item)\n    }\n    fn get(&self, pos: &P) -> &Item {\n        self.0.get(pos).unwrap_or(&self.1)\n    }\n    fn set(&mut self, pos: P, item: Item) {\n        self.0.entry(pos).or_insert(item);')]
demo='''
use sqrid::{MapPos, Pos};
use std::collections::BTreeMap;
type P = Pos<3, 3>;
type M = (BTreeMap<P, u8>, u8);
fn main() {
    let mut m: M = <M as MapPos<u8, P, 1, 16>>::new(0);
    <M as MapPos<u8, P, 1, 16>>::set(&mut m, P::FIRST, 1);
    <M as MapPos<u8, P, 1, 16>>::set(&mut m, P::FIRST, 2);
    assert_eq!(*<M as MapPos<u8, P, 1, 16>>::get(&m, &P::FIRST), 2);
}
'''
