//! Contracts mention parameters and locals by the names they had when the contract was
//! written (`spec/names.txt`). When a function's names have changed since, its contract
//! and ghost code are renamed: parameters by place, locals by aligning the two lists of
//! bindings.
use crate::spec::FnSpec;
use std::collections::BTreeMap;
use syn::visit::{self, Visit};
use syn::*;

#[derive(Clone, Default, PartialEq, Debug)]
pub struct Names {
    pub params: Vec<String>,
    pub locals: Vec<String>,
}

struct Binders(Vec<String>);
impl<'a> Visit<'a> for Binders {
    fn visit_pat_ident(&mut self, p: &'a PatIdent) {
        let n = p.ident.to_string();
        if n.starts_with(|c: char| c.is_lowercase() || c == '_') {
            self.0.push(n);
        }
        visit::visit_pat_ident(self, p);
    }
    fn visit_item(&mut self, _: &'a Item) {}
}

pub fn of(sig: &Signature, b: Option<&Block>) -> Names {
    let mut p = Binders(vec![]);
    for a in &sig.inputs {
        if let FnArg::Typed(t) = a {
            p.visit_pat(&t.pat);
        }
    }
    let mut l = Binders(vec![]);
    if let Some(b) = b {
        l.visit_block(b);
    }
    Names { params: p.0, locals: l.0 }
}

pub fn load(path: &str) -> BTreeMap<String, Names> {
    let mut m = BTreeMap::new();
    if let Ok(t) = std::fs::read_to_string(path) {
        for l in t.lines() {
            let f: Vec<&str> = l.split('\t').collect();
            if f.len() == 3 {
                let v = |s: &str| s.split_whitespace().map(|x| x.to_string()).collect();
                m.insert(f[0].to_string(), Names { params: v(f[1]), locals: v(f[2]) });
            }
        }
    }
    m
}

/// old name -> new name
pub fn mapping(old: &Names, new: &Names) -> BTreeMap<String, String> {
    let mut m = BTreeMap::new();
    let mut bad = vec![];
    let mut put = |a: &String, b: &String| {
        if let Some(x) = m.get(a) {
            if x != b {
                bad.push(a.clone());
            }
        } else {
            m.insert(a.clone(), b.clone());
        }
    };
    if old.params.len() == new.params.len() {
        for (a, b) in old.params.iter().zip(&new.params) {
            put(a, b);
        }
    }
    // longest common subsequence of the locals, then gaps of equal length
    let (a, b) = (&old.locals, &new.locals);
    let (n, k) = (a.len(), b.len());
    let mut t = vec![vec![0usize; k + 1]; n + 1];
    for i in (0..n).rev() {
        for j in (0..k).rev() {
            t[i][j] = if a[i] == b[j] { t[i + 1][j + 1] + 1 } else { t[i + 1][j].max(t[i][j + 1]) };
        }
    }
    let (mut i, mut j) = (0, 0);
    let (mut gi, mut gj) = (0, 0);
    loop {
        let at_end = i >= n || j >= k;
        let common = !at_end && a[i] == b[j];
        if at_end || common {
            let (ei, ej) = if at_end { (n, k) } else { (i, j) };
            if ei - gi == ej - gj {
                for d in 0..ei - gi {
                    put(&a[gi + d], &b[gj + d]);
                }
            }
            if at_end {
                break;
            }
            put(&a[i], &b[j]);
            i += 1;
            j += 1;
            gi = i;
            gj = j;
        } else if t[i + 1][j] >= t[i][j + 1] {
            i += 1;
        } else {
            j += 1;
        }
    }
    for x in bad {
        m.remove(&x);
    }
    m.retain(|a, b| a != b);
    m
}

pub fn idents(t: &str, f: &mut dyn FnMut(&str, bool) -> Option<String>) -> String {
    let c: Vec<char> = t.chars().collect();
    let mut o = String::new();
    let mut i = 0;
    while i < c.len() {
        if c[i].is_alphabetic() || c[i] == '_' {
            let s = i;
            while i < c.len() && (c[i].is_alphanumeric() || c[i] == '_') {
                i += 1;
            }
            let w: String = c[s..i].iter().collect();
            let before: Vec<char> = c[..s].iter().rev().filter(|x| !x.is_whitespace()).take(2).cloned().collect();
            let field = before.first() == Some(&'.') && before.get(1) != Some(&'.') || before.first() == Some(&'\'');
            let after: String = c[i..].iter().skip_while(|x| x.is_whitespace()).take(2).collect();
            let call = after.starts_with('(') || after.starts_with("::") || after.starts_with('!') && !after.starts_with("!=");
            o.push_str(&f(&w, !field && !call).unwrap_or(w));
        } else if c[i].is_ascii_digit() {
            while i < c.len() && (c[i].is_alphanumeric() || c[i] == '_') {
                o.push(c[i]);
                i += 1;
            }
        } else {
            o.push(c[i]);
            i += 1;
        }
    }
    o
}

/// `{?x: text?}` in a contract stays only when the code has a parameter or local x
pub fn optional(s: &FnSpec, now: &Names) -> Option<FnSpec> {
    let go = |t: &str| -> String {
        let mut o = String::new();
        let mut rest = t;
        while let Some(i) = rest.find("{?") {
            let Some(j) = rest[i..].find("?}").map(|j| i + j) else { break };
            o.push_str(&rest[..i]);
            if let Some((w, body)) = rest[i + 2..j].split_once(':') {
                let w = w.trim().to_string();
                if now.params.contains(&w) || now.locals.contains(&w) {
                    o.push_str(body);
                }
            }
            rest = &rest[j + 2..];
        }
        o.push_str(rest);
        o
    };
    if !s.clauses.contains("{?") && !s.sections.iter().any(|x| x.2.contains("{?")) {
        return None;
    }
    let mut r = s.clone();
    r.clauses = go(&s.clauses);
    for x in r.sections.iter_mut() {
        x.2 = go(&x.2);
    }
    Some(r)
}

/// is `w` an identifier of the text?
pub fn mentions(t: &str, w: &str) -> bool {
    let mut r = false;
    idents(t, &mut |x, _| {
        r |= x == w;
        None
    });
    r
}

pub fn rename(s: &FnSpec, m: &BTreeMap<String, String>, old: &Names) -> FnSpec {
    let mut m = m.clone();
    // a new name must not be one the ghost code already uses for something else
    let mut used = std::collections::BTreeSet::new();
    let mut see = |t: &str| {
        idents(t, &mut |w, plain| {
            if plain {
                used.insert(w.to_string());
            }
            None
        });
    };
    see(&s.clauses);
    for x in &s.sections {
        see(&x.2);
    }
    let news: Vec<String> = m.values().cloned().collect();
    for b in news {
        if used.contains(&b) && !m.contains_key(&b) && !old.params.contains(&b) && !old.locals.contains(&b) {
            m.insert(b.clone(), format!("vxg_{b}"));
        }
    }
    let go = |t: &str| idents(t, &mut |w, plain| if plain { m.get(w).cloned() } else { None });
    let mut r = s.clone();
    r.clauses = go(&s.clauses);
    for x in r.sections.iter_mut() {
        x.2 = go(&x.2);
        if matches!(x.0.as_str(), "before" | "after" | "before?" | "after?" | "resolve" | "closure" | "closurestart") {
            x.1 = go(&x.1);
        }
    }
    if let Some(v) = r.opts.get_mut("panic") {
        *v = go(v);
    }
    r
}
