prop='C25'
needs='a grid with more than a hundred rows'
what='the row label is kept to two digits'
edits=[('grid.rs', 'f.write_fmt(format_args!("{:width$} ", y, width = ndigits_y))?;', 'f.write_fmt(format_args!("{:width$} ", y % 100, width = ndigits_y))?;')]
demo='''
type S = sqrid::sqrid_create!(0, 101, false);
type G = sqrid::gridbool_create!(S);
fn main() {
    let t = G::repeat(true).to_string();
    for (y, l) in t.lines().skip(1).take(102).enumerate() {
        assert_eq!(l, format!("{y:3} #"));
    }
}
'''
