prop="C08"
needs="a string of two ASCII symbols, the first of which is a direction"
what="only strings longer than one UTF-8 arrow are rejected, so NE parses as north"
edits=[("dir.rs","        if chars.next().is_some() {","        if s.len() > '\\u{2191}'.len_utf8() {")]
demo='''
use sqrid::Dir;
use std::str::FromStr;
fn main() {
    assert!(Dir::from_str("Nx").is_err());
    assert!(Dir::from_str("").is_err());
    assert_eq!(Dir::from_str("\\u{2191}").unwrap(), Dir::N);
}
'''
