prop='C01'
needs='a build without debug assertions'
what='the check of new_unwrap disappears in release builds, so values out of bounds are created'
edits=[('boundedint.rs', '            pub const fn new_unwrap(v: $type) -> Self {\n                assert!(', '            pub const fn new_unwrap(v: $type) -> Self {\n                debug_assert!(')]
release=True
demo='''
fn main() {
    assert!(std::panic::catch_unwind(|| sqrid::BoundedU8::<2, 5>::new_unwrap(9)).is_err());
}
'''
