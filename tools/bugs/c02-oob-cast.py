prop='C02'
needs='a negative value converted to a bounded integer of an unsigned type with large bounds, from a type of the same or smaller width'
what='the conversion from isize goes through a cast, so a negative value becomes a large one'
edits=[('boundedint.rs', '        boundedint_impl_tryfrom!($name, $type, i64);\n', '        impl<const MIN: $type, const MAX: $type> TryFrom<i64> for $name<MIN, MAX> {\n            type Error = super::error::Error;\n            fn try_from(value: i64) -> Result<Self, Self::Error> {\n                Self::new(into_or_oob!(value as i128 & i64::MAX as i128)?)\n            }\n        }\n')]
demo='''
use sqrid::boundedint::*;
fn main() {
    assert!(BoundedU64::<0, { u64::MAX }>::try_from(i64::MIN).is_err());
    assert!(BoundedI16::<-5, 5>::try_from(-5i64).is_ok());
    assert!(BoundedI16::<-5, 5>::try_from(i64::MIN).is_err());
}
'''
