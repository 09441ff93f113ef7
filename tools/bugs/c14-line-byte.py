prop='C14'
needs='a grid with more than 256 lines'
what='the line number keeps its low eight bits'
edits=[('grid.rs', '        let width = P::width();\n        let Ok(lineno) = lineno.try_into() else {\n            panic!()\n        };\n        let start = lineno * width;', '        let width = P::width();\n        let Ok(lineno) = TryInto::<usize>::try_into(lineno) else {\n            panic!()\n        };\n        let start = lineno as u8 as usize * width;')]
demo='''
type S = sqrid::sqrid_create!(1, 299, false);
type P = sqrid::pos_create!(S);
type G = sqrid::grid_create!(S, usize);
use sqrid::PosT;
fn main() {
    let g: G = (0..600).collect();
    let y = PosT::into_tuple(P::new(0, 260).unwrap()).1;
    assert_eq!(g.line(y), &[520, 521]);
}
'''
