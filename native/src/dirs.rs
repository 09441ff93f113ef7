//! C07, C08: directions
use crate::ctx::*;
use crate::{ensure, ensure_eq};
use sqrid::*;
use std::str::FromStr;

pub const ALL: [Dir; 8] = [Dir::N, Dir::NE, Dir::E, Dir::SE, Dir::S, Dir::SW, Dir::W, Dir::NW];
pub const VEC: [(i64, i64); 8] = [(0, -1), (1, -1), (1, 0), (1, 1), (0, 1), (-1, 1), (-1, 0), (-1, -1)];
pub fn idx(d: Dir) -> usize {
    match d { Dir::N => 0, Dir::NE => 1, Dir::E => 2, Dir::SE => 3, Dir::S => 4, Dir::SW => 5, Dir::W => 6, Dir::NW => 7 }
}
pub fn vec_of(d: Dir) -> (i64, i64) { VEC[idx(d)] }
pub fn opp(d: Dir) -> Dir { ALL[(idx(d) + 4) % 8] }
/// directions in use
pub fn dirs(diag: bool) -> Vec<Dir> { if diag { ALL.to_vec() } else { vec![Dir::N, Dir::E, Dir::S, Dir::W] } }

pub fn c07(c: &mut Ctx) {
    c.group("rotation");
    c.case(|| "constants".into(), || { ensure_eq!(Dir::SIZE, 8, "SIZE"); ensure_eq!(Dir::ALL8.to_vec(), ALL.to_vec(), "ALL8"); ensure_eq!(Dir::ALL4.to_vec(), dirs(false), "ALL4"); ensure_eq!(Dir::default(), Dir::N, "default"); Ok(()) });
    for a in ALL {
        c.case(|| format!("{a:?}"), || {
            ensure_eq!(-a, opp(a), "neg"); ensure_eq!(a.flip(), opp(a), "flip"); ensure_eq!(-(-a), a, "neg neg");
            ensure_eq!(a + Dir::N, a, "a + N"); ensure_eq!(Dir::N + a, a, "N + a"); ensure_eq!(a + Dir::S, -a, "a + S");
            ensure_eq!(a.is_diagonal(), idx(a) % 2 == 1, "is_diagonal");
            Ok(())
        });
        for b in ALL {
            c.case(|| format!("{a:?} + {b:?}"), || {
                let e = ALL[(idx(a) + idx(b)) % 8];
                ensure_eq!(a.rotate(&b), e, "rotate"); ensure_eq!(a + b, e, "+"); ensure_eq!(b + a, e, "commuted +");
                let mut x = a; x += b; ensure_eq!(x, e, "+=");
                ensure_eq!(a == b, idx(a) == idx(b), "=="); ensure_eq!(a.cmp(&b), idx(a).cmp(&idx(b)), "cmp");
                for d in ALL { ensure_eq!((a + b) + d, a + (b + d), "associativity"); }
                Ok(())
            });
        }
    }
    macro_rules! vecs { ($t:ident) => {{
        c.group(concat!("vectors ", stringify!($t)));
        for a in ALL {
            c.case(|| format!("{a:?}"), || {
                let v = <($t, $t)>::from(a);
                ensure_eq!((v.0 as i64, v.1 as i64), vec_of(a), "vector");
                ensure_eq!(Dir::try_from(&v).ok(), Some(a), "back by reference"); ensure_eq!(Dir::try_from(v).ok(), Some(a), "back by value");
                let n = <($t, $t)>::from(-a); ensure_eq!((n.0, n.1), (-v.0, -v.1), "negated vector");
                Ok(())
            });
        }
        let mut vals: Vec<$t> = (-5..=5).collect();
        for k in 0..3 { vals.push($t::MAX - k); vals.push($t::MIN + k); }
        vals.extend([$t::MAX / 2, $t::MAX / 2 + 1, $t::MIN / 2, 127, 100]);
        if <$t>::BITS > 8 { for b in [8u32, 16, 32, 64] { if b < <$t>::BITS { let m = (1 as $t) << b; vals.extend([m - 1, m, m + 1, -m, -m - 1, -m + 1]); } } }
        for x in vals.clone() { for y in vals.clone() {
            c.case(|| format!("({x}, {y})"), || {
                let e = VEC.iter().position(|v| (v.0 as i128, v.1 as i128) == (x as i128, y as i128)).map(|i| ALL[i]).ok_or(Error::InvalidDirection);
                ensure_eq!(Dir::try_from(&(x, y)), e, "by reference"); ensure_eq!(Dir::try_from((x, y)), e, "by value"); Ok(())
            });
        } }
    }} }
    vecs!(isize); vecs!(i8); vecs!(i16); vecs!(i32); vecs!(i64); vecs!(i128);
    c.group("iteration");
    fn it<const D: bool>() -> Result<(), String> {
        let mut i = Dir::iter::<D>();
        for d in dirs(D) { ensure_eq!(i.next(), Some(d), "next"); }
        for _ in 0..20 { ensure_eq!(i.next(), None, "after the end"); }
        ensure_eq!(Dir::iter::<D>().collect::<Vec<_>>(), dirs(D), "collect");
        let mut i = Dir::iter::<D>();
        let n = dirs(D).len();
        for left in (0..=n).rev().chain([0, 0]) {
            let h = i.size_hint();
            let bounds = h.0 <= left && h.1.map_or(true, |m| left <= m);
            if !bounds {
                let msg = format!("size_hint with {left} directions left: {h:?}");
                ensure!(left < n && h == (n, Some(n)), "{msg}");
                finding("dir-iter-size-hint", msg)?;
            }
            i.next();
        }
        crate::iters::laws_unhinted(&|| Dir::iter::<D>(), &dirs(D), &|d| d)?; crate::iters::laws_clone(&|| Dir::iter::<D>(), &dirs(D), &|d| d)?;
        let mut i = DirIter::<D>::default();
        for d in dirs(D) { ensure_eq!(i.next(), Some(d), "default iterator"); }
        for (k, d) in dirs(D).into_iter().enumerate() { ensure_eq!(d.next::<D>(), dirs(D).get(k + 1).copied(), format!("next of {d:?}")); }
        Ok(())
    }
    c.case(|| "next of diagonals without diagonals".into(), || {
        for (d, e) in [(Dir::NE, Some(Dir::E)), (Dir::SE, Some(Dir::S)), (Dir::SW, Some(Dir::W)), (Dir::NW, None)] { ensure_eq!(d.next::<false>(), e, format!("next of {d:?}")); }
        Ok(())
    });
    c.case(|| "8 directions".into(), it::<true>);
    c.case(|| "4 directions".into(), it::<false>);
}

fn denoted(ch: char) -> Option<Dir> {
    const U: [u32; 8] = [0x2191, 0x2197, 0x2192, 0x2198, 0x2193, 0x2199, 0x2190, 0x2196];
    const A: [char; 8] = ['^', '7', '>', '\\', 'v', 'L', '<', '`'];
    if let Some(i) = U.iter().position(|u| *u == ch as u32) { return Some(ALL[i]); }
    if let Some(i) = A.iter().position(|u| *u == ch) { return Some(ALL[i]); }
    match ch { 'N' | 'n' => Some(Dir::N), 'E' | 'e' => Some(Dir::E), 'S' | 's' => Some(Dir::S), 'W' | 'w' => Some(Dir::W), _ => None }
}
pub fn c08(c: &mut Ctx) {
    const NAMES: [&str; 8] = ["N", "NE", "E", "SE", "S", "SW", "W", "NW"];
    c.group("symbols");
    for a in ALL {
        c.case(|| format!("{a:?}"), || {
            for ch in [a.name_utf8_char(), a.name_ascii_char()] { ensure_eq!(denoted(ch), Some(a), "symbol"); ensure_eq!(Dir::try_from(ch).ok(), Some(a), "char"); ensure_eq!(Dir::from_str(&ch.to_string()).ok(), Some(a), "string"); }
            ensure_eq!(a.name_utf8(), a.name_utf8_char().to_string(), "utf8 string and char"); ensure_eq!(a.name_ascii(), a.name_ascii_char().to_string(), "ascii string and char");
            ensure_eq!(a.name_cardinal(), NAMES[idx(a)], "cardinal name"); ensure_eq!(format!("{a}"), NAMES[idx(a)], "display");
            ensure!(a.name_ascii().is_ascii(), "ascii symbol"); ensure!(!a.name_utf8().is_ascii(), "unicode symbol");
            ensure_eq!(Dir::NAMES_CARDINAL[idx(a)], a.name_cardinal(), "NAMES_CARDINAL"); ensure_eq!(Dir::NAMES_UTF8[idx(a)], a.name_utf8(), "NAMES_UTF8"); ensure_eq!(Dir::NAMES_ASCII[idx(a)], a.name_ascii(), "NAMES_ASCII");
            ensure_eq!(Dir::NAMES_UTF8_CHAR[idx(a)], a.name_utf8_char(), "NAMES_UTF8_CHAR"); ensure_eq!(Dir::NAMES_ASCII_CHAR[idx(a)], a.name_ascii_char(), "NAMES_ASCII_CHAR");
            Ok(())
        });
        for b in ALL { c.case(|| format!("{a:?} {b:?}"), || { ensure!(a == b || (a.name_utf8() != b.name_utf8() && a.name_ascii() != b.name_ascii() && a.name_utf8_char() != b.name_utf8_char() && a.name_ascii_char() != b.name_ascii_char()), "same symbol"); Ok(()) }); }
    }
    c.group("characters");
    for u in 0..=0x10FFFFu32 {
        let Some(ch) = char::from_u32(u) else { continue };
        c.case(|| format!("{u:#x}"), || {
            let e = denoted(ch).ok_or(Error::DirParseError);
            ensure_eq!(Dir::try_from(ch), e, "char");
            let mut b = [0; 4]; ensure_eq!(Dir::from_str(ch.encode_utf8(&mut b)), e, "string"); Ok(())
        });
    }
    c.group("strings");
    c.case(|| "empty".into(), || { ensure_eq!(Dir::from_str(""), Err(Error::DirParseError), "empty"); Ok(()) });
    let mut strs: Vec<String> = vec![];
    let chars: Vec<char> = (0..128u8).map(|b| b as char).chain("↑↗→↘↓↙←↖é\u{fe0f}\u{200b}\u{10000}".chars()).collect();
    for a in &chars { for b in &chars { strs.push(format!("{a}{b}")); } }
    strs.extend(["NE", "North", "N ", " N", "N\n", "nnn", "↑↑↑", "\u{2191}\u{fe0f}"].map(String::from));
    let mut sym: Vec<char> = ALL.iter().flat_map(|a| [a.name_utf8_char(), a.name_ascii_char()]).collect(); sym.extend("NESWnesw".chars());
    // what is often taken for nothing: spaces, marks, selectors, joiners, controls
    let faint: Vec<char> = (0..=0x10FFFFu32).filter_map(char::from_u32).filter(|c| c.is_whitespace() || c.is_control() || matches!(*c as u32, 0x300..=0x36f | 0xad | 0x600..=0x605 | 0x61c | 0x180b..=0x180f | 0x200b..=0x200f | 0x2028..=0x202e | 0x2060..=0x206f | 0x20d0..=0x20f0 | 0xfe00..=0xfe0f | 0xfe20..=0xfe2f | 0xfeff | 0xfff0..=0xfffd | 0x1d173..=0x1d17a | 0xe0000..=0xe01ef)).collect();
    for s in &sym { c.case(|| format!("{s:?} with more"), || {
        for f in faint.iter().chain("\"'()[]{}.,;:-_/+*#0".chars().collect::<Vec<_>>().iter()) { for t in [format!("{s}{f}"), format!("{f}{s}"), format!("{f}{s}{f}"), format!("{s}{f}{f}"), format!("{f}{f}")] { if Dir::from_str(&t) != Err(Error::DirParseError) { return Err(format!("{t:?}: {:?}", Dir::from_str(&t))); } } }
        for n in 2..300 { let t: String = std::iter::repeat(*s).take(n).collect(); ensure_eq!(Dir::from_str(&t), Err(Error::DirParseError), "repeated"); } Ok(())
    }); }
    c.case(|| "any character after or before a symbol".into(), || {
        for ch in (0..=0x10FFFFu32).filter_map(char::from_u32) { for s in ['N', '\u{2199}'] {
            let mut b = String::with_capacity(8); b.push(s); b.push(ch); if Dir::from_str(&b) != Err(Error::DirParseError) { return Err(format!("{b:?}")); }
            b.clear(); b.push(ch); b.push(s); if Dir::from_str(&b) != Err(Error::DirParseError) { return Err(format!("{b:?}")); }
        } } Ok(())
    });
    for s in strs { c.case(|| format!("{s:?}"), || { ensure_eq!(Dir::from_str(&s), Err(Error::DirParseError), "string"); Ok(()) }); }
}
