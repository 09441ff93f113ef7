prop='C18'
needs='flipping vertically a boolean grid whose rows are two or more whole words'
what='the fast path of flip_v for rows of whole words reverses the words, which also swaps the words of each row'
edits=[('gridbool.rs', '''    pub fn flip_v(&mut self) {
''', '''    pub fn flip_v(&mut self) {
        if P::width() % 32 == 0 {
            // rows are whole words: exchange them without looking at the bits
            self.0.reverse();
            return;
        }
''')]
demo='''
use sqrid::{Gridbool, Pos};
fn main() {
    type P = Pos<63, 1>;
    let mut g = Gridbool::<P, 4>::default();
    let p = P::new(3, 0).unwrap();
    g.set_t(&p);
    g.flip_v();
    assert!(g.get(&P::new(3, 1).unwrap()));
}
'''
