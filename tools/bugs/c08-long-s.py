prop='C08'
needs='parsing the long s (U+017F), whose uppercase is S'
what='letters are folded with the Unicode rules: characters other than N, E, S, W in either case parse as directions'
edits=[('dir.rs', '''            'n' => Ok(Dir::N),
            'e' => Ok(Dir::E),
            's' => Ok(Dir::S),
            'w' => Ok(Dir::W),
''', ''''''), ('dir.rs', '''        match c {
            'N' => Ok(Dir::N),''', '''        let folded = match c.to_uppercase().next() {
            Some(u @ ('N' | 'E' | 'S' | 'W')) => u,
            _ => c,
        };
        match folded {
            'N' => Ok(Dir::N),''')]
demo='''
use sqrid::Dir;
fn main() {
    assert!(Dir::try_from('\\u{17f}').is_err());
}
'''
