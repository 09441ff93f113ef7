prop='C25'
needs='a destination that refuses a cell in the middle of the grid'
what='a failure to write a cell is dropped: writing reports success although cells are missing'
edits=[('grid.rs', '            f.pad(&s)?;\n        }\n    }\n    f.write_str("\\n")?;', '            let _ = f.pad(&s);\n        }\n    }\n    f.write_str("\\n")?;')]
demo='''
use std::fmt::Write;
type S = sqrid::sqrid_create!(2, 2, false);
type G = sqrid::grid_create!(S, &'static str);
struct NoX(String);
impl Write for NoX {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if s.contains('x') { return Err(std::fmt::Error); }
        self.0.push_str(s);
        Ok(())
    }
}
fn main() {
    let mut g = G::repeat("a");
    g.as_array_mut()[4] = "x";
    let mut f = NoX(String::new());
    let r = write!(f, "{g}");
    // all the cells are there, or the caller is told
    assert!(r.is_err(), "{:?}", f.0);
}
'''
