prop='C03'
needs='nth with an argument that lands just past the last value, then next'
what='nth stops before the last value instead of consuming it, so the value comes after the iterator said it was done'
edits=[('boundedint.rs', '''    type Item = T;
    fn next(&mut self) -> Option<Self::Item> {
        let value = self.start;
''', '''    type Item = T;
    fn nth(&mut self, n: usize) -> Option<Self::Item> {
        for _ in 0..n {
            if self.start == self.end {
                return None;
            }
            self.next();
        }
        self.next()
    }
    fn next(&mut self) -> Option<Self::Item> {
        let value: Option<T> = self.start;
''')]
demo='''
use sqrid::boundedint::*;
fn main() {
    let mut it = <BoundedU8<2, 5> as BoundedInt>::iter();
    assert_eq!(it.nth(4), None);
    assert_eq!(it.next(), None);
}
'''
