prop='C08'
needs='parsing a direction from a string with white space around the character'
what='strings longer than one character are accepted'
edits=[('dir.rs', '''        let mut chars = s.chars();
''', '''        let mut chars = s.trim_end_matches('\\u{fe0e}').chars();
''')]
demo='''
use sqrid::Dir;
use std::str::FromStr;
fn main() {
    assert!(Dir::from_str("\\u{2191}\\u{fe0e}").is_err());
}
'''
needs='parsing an arrow followed by a text variation selector'
