prop="C03"
needs="some values taken from the front, then taking from the back past the point where both meet"
what="next_back only stops at the minimum of the type instead of where the front stopped, so values are yielded twice"
edits=[("boundedint.rs",'''        let value = self.end;
        if self.start == self.end {''','''        let value = self.end;
        if self.end == Some(T::MIN) || self.end.is_none() {''')]
demo='''
use sqrid::{BoundedInt, BoundedU8};
fn main() {
    type B = BoundedU8<2, 6>;
    let mut it = B::iter();
    let mut seen = vec![];
    seen.extend(it.next());
    seen.extend(it.next());
    while let Some(v) = it.next_back() {
        seen.push(v);
        assert!(seen.len() <= 5, "{seen:?}");
    }
    assert_eq!(seen.len(), 5);
}
'''
