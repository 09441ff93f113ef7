prop='C08'
needs='a character that differs from a symbol only by its case'
what='the case of every letter is ignored, so V and l parse as directions'
edits=[('dir.rs', "        match c {\n            'N' =>", "        let c = if c.is_ascii_uppercase() && c != 'L' { c.to_ascii_lowercase() } else { c };\n        match c {\n            'N' =>")]
demo='''
use sqrid::Dir;
fn main() {
    assert!(Dir::try_from('V').is_err());
    assert!("V".parse::<Dir>().is_err());
}
'''
