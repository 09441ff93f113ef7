prop='C03'
needs='bounds that do not contain 1, iterated from the back'
what='the step back needs the value 1, which is not within bounds'
edits=[('boundedint.rs', 'self.end = end.dec();', 'self.end = end.checked_sub(T::one());')]
demo='''
use sqrid::BoundedInt;
fn main() {
    let v: Vec<u8> = sqrid::BoundedU8::<3, 6>::iter().rev().map(|b| b.into_inner()).collect();
    assert_eq!(v, [6, 5, 4, 3]);
}
'''
