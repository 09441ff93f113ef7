prop='C21'
needs='a Sqrid made from a position type with more than 256 rows'
what='the macro computes too few words for the visited positions'
edits=[('base.rs', '            { (((<$postype>::XMAX as usize + 1) * (<$postype>::YMAX as usize + 1)) / 32 + 1) },', '            { (((<$postype>::XMAX as usize + 1) * (<$postype>::YMAX as u8 as usize + 1)) / 32 + 1) },')]
demo='''
type P = sqrid::Pos<9, 299>;
type S = sqrid::sqrid_create!(P, false);
fn main() {
    let n: usize = S::bf_iter(&|p: P, d| (p + d).ok(), &P::FIRST).map(|f| f.len()).sum();
    assert_eq!(n, 2999);
}
'''
