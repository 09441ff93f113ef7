prop="C01"
needs="subtraction of a negative value from a signed bounded integer near its maximum"
what="checked_sub only checks the lower bound, so MAX - (-k) yields a value above MAX"
edits=[("boundedint.rs",'''                    .checked_sub(other.0)
                    .map(|v| Self(v))
                    .filter(|v| Self(MIN) <= *v && *v <= Self(MAX))''','''                    .checked_sub(other.0)
                    .map(|v| Self(v))
                    .filter(|v| Self(MIN) <= *v)''')]
demo='''
use sqrid::{BoundedI8, BoundedInt};
fn main() {
    type B = BoundedI8<-5, 5>;
    let a = B::new(4).unwrap();
    let b = B::new(-3).unwrap();
    assert!(a.checked_sub(b).is_none());
    assert_eq!(b.checked_sub(B::new(-5).unwrap()).map(|v| v.into_inner()), Some(2));
}
'''
