prop='C02'
needs='a negative value converted to usize'
what='negative values become huge indexes instead of errors'
edits=[('boundedint.rs', 'Ok(into_or_oob!(value.into_inner())?)', 'Ok(value.into_inner() as usize)')]
demo='''
fn main() {
    let b = sqrid::BoundedI16::<-5, 5>::new(-1).unwrap();
    assert!(usize::try_from(b).is_err());
}
'''
