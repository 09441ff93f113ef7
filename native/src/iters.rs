//! Every method of `Iterator` and `DoubleEndedIterator` agrees with the sequence of items: an
//! implementation may override any of them.
use crate::ctx::*;
use crate::{ensure, ensure_eq};
use std::fmt::Debug;

fn counts(n: usize) -> Vec<usize> {
    let mut v = vec![0, 1, 2, 3, n / 2, n.saturating_sub(2), n.saturating_sub(1), n, n + 1, n + 7];
    if n > 9 { v.extend([7, n / 3]); }
    v.sort(); v.dedup(); v
}
/// `mk` makes the iterator, `want` are its items, `k` items are taken from the front first
fn from_front<I: Iterator, T: PartialEq + Debug + Clone>(mk: &dyn Fn() -> I, want: &[T], f: &dyn Fn(I::Item) -> T, k: usize, hints: bool) -> Result<(), String> {
    let adv = || { let mut it = mk(); for _ in 0..k { it.next(); } it };
    let w = &want[k.min(want.len())..]; let n = w.len(); let at = format!("after {k} calls of next: ");
    let wv = w.to_vec();
    if hints { let h = adv().size_hint(); ensure!(h.0 <= n && h.1.is_none_or(|m| n <= m), "{at}size_hint is {h:?} with {n} items left"); }
    ensure_eq!(adv().count(), n, format!("{at}count"));
    ensure_eq!(adv().last().map(f), w.last().cloned(), format!("{at}last"));
    ensure_eq!(adv().map(f).collect::<Vec<_>>(), wv, format!("{at}collect"));
    ensure_eq!(adv().fold(vec![], |mut v, x| { v.push(f(x)); v }), wv, format!("{at}fold"));
    let mut v = vec![]; adv().for_each(|x| v.push(f(x))); ensure_eq!(v, wv, format!("{at}for_each"));
    ensure_eq!(adv().reduce(|_, b| b).map(f), w.last().cloned(), format!("{at}reduce"));
    ensure_eq!(adv().min_by(|_, _| std::cmp::Ordering::Less).map(f), w.first().cloned(), format!("{at}min_by"));
    let (mut i, mut j) = (0usize, 0usize);
    let (a, b): (Vec<_>, Vec<_>) = adv().partition(|_| { i += 1; i % 3 == 1 });
    for x in a.into_iter().map(f).zip(w.iter().step_by(3)) { ensure_eq!(&x.0, x.1, format!("{at}partition")); j += 1; }
    ensure_eq!(j + b.len(), n, format!("{at}partition"));
    for m in counts(n) {
        let tail = |m: usize| w[m.min(n)..].to_vec();
        let mut it = adv(); ensure_eq!(it.nth(m).map(f), w.get(m).cloned(), format!("{at}nth({m})"));
        ensure_eq!(it.map(f).collect::<Vec<_>>(), tail(m + 1), format!("{at}items after nth({m})"));
        let mut it = adv(); it.nth(m); ensure_eq!(it.nth(m).map(f), w.get(2 * m + 1).cloned(), format!("{at}nth({m}) twice"));
        ensure_eq!(adv().skip(m).map(f).collect::<Vec<_>>(), tail(m), format!("{at}skip({m})"));
        ensure_eq!(adv().take(m).map(f).collect::<Vec<_>>(), w[..m.min(n)].to_vec(), format!("{at}take({m})"));
        ensure_eq!(adv().step_by(m + 1).map(f).collect::<Vec<_>>(), w.iter().step_by(m + 1).cloned().collect::<Vec<_>>(), format!("{at}step_by({})", m + 1));
        let mut it = adv(); ensure_eq!(it.by_ref().take(m).count(), m.min(n), format!("{at}by_ref().take({m})")); ensure_eq!(it.map(f).collect::<Vec<_>>(), tail(m), format!("{at}items after take({m})"));
        let upto = if m < n { m + 1 } else { n };
        let mut c = 0; let mut it = adv(); ensure_eq!(it.position(|_| { c += 1; c == m + 1 }), if m < n { Some(m) } else { None }, format!("{at}position {m}")); ensure_eq!(it.map(f).collect::<Vec<_>>(), tail(upto), format!("{at}items after position {m}"));
        let mut c = 0; let mut it = adv(); ensure_eq!(it.find(|_| { c += 1; c == m + 1 }).map(f), w.get(m).cloned(), format!("{at}find {m}")); ensure_eq!(it.map(f).collect::<Vec<_>>(), tail(upto), format!("{at}items after find {m}"));
        let mut c = 0; let mut it = adv(); ensure_eq!(it.find_map(|x| { c += 1; (c == m + 1).then_some(x) }).map(f), w.get(m).cloned(), format!("{at}find_map {m}")); ensure_eq!(it.map(f).collect::<Vec<_>>(), tail(upto), format!("{at}items after find_map {m}"));
        let mut c = 0; let mut it = adv(); ensure_eq!(it.any(|_| { c += 1; c == m + 1 }), m < n, format!("{at}any {m}")); ensure_eq!(it.map(f).collect::<Vec<_>>(), tail(upto), format!("{at}items after any {m}"));
        let mut c = 0; let mut it = adv(); ensure_eq!(it.all(|_| { c += 1; c != m + 1 }), m >= n, format!("{at}all {m}")); ensure_eq!(it.map(f).collect::<Vec<_>>(), tail(upto), format!("{at}items after all {m}"));
        let mut it = adv(); let mut v = vec![]; let r: Result<usize, usize> = it.try_fold(0, |c, x| { v.push(f(x)); if c == m { Err(c) } else { Ok(c + 1) } });
        ensure_eq!(r, if m < n { Err(m) } else { Ok(n) }, format!("{at}try_fold {m}")); ensure_eq!(v, w[..upto].to_vec(), format!("{at}items of try_fold {m}")); ensure_eq!(it.map(f).collect::<Vec<_>>(), tail(upto), format!("{at}items after try_fold {m}"));
        let mut c = 0; ensure_eq!(adv().take_while(|_| { c += 1; c <= m }).count(), m.min(n), format!("{at}take_while {m}"));
        let mut c = 0; ensure_eq!(adv().skip_while(|_| { c += 1; c <= m }).map(f).collect::<Vec<_>>(), tail(m), format!("{at}skip_while {m}"));
    }
    let mut it = adv(); for _ in 0..n { it.next(); } for _ in 0..3 { ensure!(it.next().is_none() && it.nth(0).is_none() && it.nth(5).is_none(), "{at}items after the end"); }
    ensure_eq!(it.count(), 0, format!("{at}count after the end")); Ok(())
}
fn from_back<I: DoubleEndedIterator, T: PartialEq + Debug + Clone>(mk: &dyn Fn() -> I, want: &[T], f: &dyn Fn(I::Item) -> T, k: usize, b: usize, hints: bool) -> Result<(), String> {
    let adv = || { let mut it = mk(); for _ in 0..k { it.next(); } for _ in 0..b { it.next_back(); } it };
    let w = { let k = k.min(want.len()); let e = (want.len() - k).saturating_sub(b) + k; &want[k..e] };
    let n = w.len(); let at = format!("after {k} calls of next and {b} of next_back: ");
    let rv: Vec<T> = w.iter().rev().cloned().collect();
    from_front::<I, T>(&adv, w, f, 0, hints).map_err(|e| format!("{at}{e}"))?;
    ensure_eq!(adv().rev().map(f).collect::<Vec<_>>(), rv, format!("{at}rev"));
    ensure_eq!(adv().rfold(vec![], |mut v, x| { v.push(f(x)); v }), rv, format!("{at}rfold"));
    for m in counts(n) {
        let head = |m: usize| w[..n - m.min(n)].to_vec();
        let mut it = adv(); ensure_eq!(it.nth_back(m).map(f), rv.get(m).cloned(), format!("{at}nth_back({m})"));
        ensure_eq!(it.map(f).collect::<Vec<_>>(), head(m + 1), format!("{at}items after nth_back({m})"));
        let mut it = adv(); it.nth(m); it.nth_back(m); ensure_eq!(it.map(f).collect::<Vec<_>>(), if n > 2 * m + 2 { w[m + 1..n - m - 1].to_vec() } else { vec![] }, format!("{at}items after nth({m}) and nth_back({m})"));
        let upto = if m < n { m + 1 } else { n };
        let mut c = 0; let mut it = adv(); ensure_eq!(it.rfind(|_| { c += 1; c == m + 1 }).map(f), rv.get(m).cloned(), format!("{at}rfind {m}")); ensure_eq!(it.map(f).collect::<Vec<_>>(), head(upto), format!("{at}items after rfind {m}"));
        let mut it = adv(); let mut v = vec![]; let r: Result<usize, usize> = it.try_rfold(0, |c, x| { v.push(f(x)); if c == m { Err(c) } else { Ok(c + 1) } });
        ensure_eq!(r, if m < n { Err(m) } else { Ok(n) }, format!("{at}try_rfold {m}")); ensure_eq!(v, rv[..upto].to_vec(), format!("{at}items of try_rfold {m}")); ensure_eq!(it.map(f).collect::<Vec<_>>(), head(upto), format!("{at}items after try_rfold {m}"));
        ensure_eq!(adv().rev().skip(m).map(f).collect::<Vec<_>>(), rv[m.min(n)..].to_vec(), format!("{at}rev().skip({m})"));
        ensure_eq!(adv().rev().step_by(m + 1).map(f).collect::<Vec<_>>(), rv.iter().step_by(m + 1).cloned().collect::<Vec<_>>(), format!("{at}rev().step_by({})", m + 1));
    }
    Ok(())
}
fn starts(n: usize) -> Vec<usize> { let mut v = if n <= 6 { (0..=n + 1).collect() } else { vec![0, 1, 2, n / 2, n - 1, n, n + 1] }; v.dedup(); v }

pub fn laws<I: Iterator, T: PartialEq + Debug + Clone>(mk: &dyn Fn() -> I, want: &[T], f: &dyn Fn(I::Item) -> T) -> Result<(), String> {
    for k in starts(want.len()) { from_front(mk, want, f, k, true)?; } Ok(())
}
pub fn laws_unhinted<I: Iterator, T: PartialEq + Debug + Clone>(mk: &dyn Fn() -> I, want: &[T], f: &dyn Fn(I::Item) -> T) -> Result<(), String> {
    for k in starts(want.len()) { from_front(mk, want, f, k, false)?; } Ok(())
}
pub fn laws_back<I: DoubleEndedIterator, T: PartialEq + Debug + Clone>(mk: &dyn Fn() -> I, want: &[T], f: &dyn Fn(I::Item) -> T) -> Result<(), String> {
    for k in starts(want.len()) { for b in starts(want.len()) { from_back(mk, want, f, k, b, true)?; } } Ok(())
}
/// a clone taken after `k` items yields the rest, and leaves the original alone
pub fn laws_clone<I: Iterator + Clone, T: PartialEq + Debug + Clone>(mk: &dyn Fn() -> I, want: &[T], f: &dyn Fn(I::Item) -> T) -> Result<(), String> {
    for k in starts(want.len()) {
        let mut it = mk(); for _ in 0..k { it.next(); } let w = want[k.min(want.len())..].to_vec();
        let mut c = it.clone(); c.next(); ensure_eq!(it.clone().map(f).collect::<Vec<_>>(), w, format!("clone after {k} calls of next"));
        c.clone_from(&it); ensure_eq!(c.map(f).collect::<Vec<_>>(), w, format!("clone_from after {k} calls of next")); ensure_eq!(it.map(f).collect::<Vec<_>>(), w, "original after clone");
    }
    Ok(())
}
