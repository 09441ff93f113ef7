prop='C25'
needs='a width given in the format, and a cell whose text is longer in bytes than in characters'
what='cells whose text reaches the width in bytes are written without padding, and the columns shift'
edits=[('grid.rs', '            f.pad(&s)?;\n        }\n    }\n    f.write_str("\\n")?;', '            if f.width().map_or(true, |w| s.len() >= w) {\n                f.write_str(&s)?;\n            } else {\n                f.pad(&s)?;\n            }\n        }\n    }\n    f.write_str("\\n")?;')]
demo='''
type S = sqrid::sqrid_create!(1, 1, false);
type G = sqrid::grid_create!(S, char);
fn main() {
    let mut g = G::repeat('a');
    g.as_array_mut()[0] = '\\u{e9}';
    let t = format!("{g:2}");
    assert_eq!(t, "  0 1 \\n0 \\u{e9} a \\n1 a a \\n  0 1 \\n");
}
'''
