//! Mechanical normalisation of function bodies into the Rust subset Verus accepts.
use crate::macros::Macros;
use crate::print::squash;
use quote::{format_ident, quote};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit_mut::{self, VisitMut};
use syn::*;

/// Which associated constants became functions, by type name ("*" for those of traits).
#[derive(Default, Clone)]
pub struct Consts {
    pub fns: BTreeMap<String, BTreeSet<String>>,
    pub kept: BTreeMap<String, BTreeSet<String>>,
    pub asserts: BTreeMap<String, BTreeMap<String, String>>,
    /// trait of each associated constant of a trait
    pub trait_of: BTreeMap<String, String>,
}

/// Helper functions with no contract, inlined at their calls.
#[derive(Clone)]
pub struct Helper {
    pub owner: Option<String>,
    pub sig: Signature,
    pub block: Block,
}

pub struct Norm<'a> {
    pub macros: &'a Macros,
    pub consts: &'a Consts,
    pub helpers: &'a BTreeMap<String, Helper>,
    /// functions of the crate that give a Result
    pub results: &'a BTreeSet<String>,
    pub self_ty: String,
    pub texts: &'a mut Vec<String>,
    pub panic_cond: String,
    pub resolves: Vec<(String, Expr)>,
    pub problems: Vec<String>,
    pub inline_depth: usize,
    /// mapped iterators given as arguments are collected first
    pub eager: Option<String>,
    /// closures and functions of the body, by name: parameters and body
    pub locals: Vec<(String, Vec<(Pat, Option<Type>)>, Expr, Expr)>,
}

/// Names a piece of code mentions
fn names_of(ts: proc_macro2::TokenStream, out: &mut BTreeSet<String>) {
    for t in ts {
        match t {
            proc_macro2::TokenTree::Ident(i) => {
                out.insert(i.to_string());
            }
            proc_macro2::TokenTree::Group(g) => names_of(g.stream(), out),
            _ => {}
        }
    }
}

/// Names the patterns of some statements bind
fn bound_in(stmts: &[Stmt]) -> BTreeSet<String> {
    use syn::visit::Visit;
    struct B(BTreeSet<String>);
    impl<'a> Visit<'a> for B {
        fn visit_pat_ident(&mut self, p: &'a PatIdent) {
            self.0.insert(p.ident.to_string());
            syn::visit::visit_pat_ident(self, p);
        }
    }
    let mut b = B(BTreeSet::new());
    for s in stmts {
        b.visit_stmt(s);
    }
    b.0
}

fn returns_in(e: &Expr) -> bool {
    has_return(&parse_quote!({ #e }))
}

pub const PRIMS: &[&str] = &[
    "u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize", "bool", "char",
];

fn has_return(b: &Block) -> bool {
    use syn::visit::Visit;
    struct R(bool);
    impl<'a> Visit<'a> for R {
        fn visit_expr(&mut self, e: &'a Expr) {
            match e {
                Expr::Return(_) | Expr::Try(_) => self.0 = true,
                Expr::Closure(_) => {}
                _ => syn::visit::visit_expr(self, e),
            }
        }
    }
    let mut r = R(false);
    r.visit_block(b);
    r.0
}

fn diverges(b: &Block) -> bool {
    match b.stmts.last() {
        Some(Stmt::Expr(e, _)) => diverging(e),
        _ => false,
    }
}
fn diverging(e: &Expr) -> bool {
    match e {
        Expr::Return(_) => true,
        Expr::Block(b) => diverges(&b.block),
        Expr::If(i) => diverges(&i.then_branch) && i.else_branch.as_ref().map_or(false, |x| diverging(&x.1)),
        Expr::Match(m) => m.arms.iter().all(|a| diverging(&a.body)),
        _ => false,
    }
}
fn as_block(e: &Expr) -> Block {
    match e {
        Expr::Block(b) if b.label.is_none() => b.block.clone(),
        e => parse_quote!({ #e }),
    }
}
/// `o` for Option, `r` for Result, `?` for what is not known
pub fn kind_of_type(t: &ReturnType) -> char {
    match t {
        ReturnType::Type(_, t) => {
            let t = squash(t);
            if t.starts_with("Option<") {
                'o'
            } else if t.starts_with("Result<") {
                'r'
            } else {
                '?'
            }
        }
        _ => '?',
    }
}

/// The block of a function or closure without `return` and `?`: what they return becomes the
/// value of the branch they are in. None when the block is not of such a form.
pub fn tail_form(b: &Block, kind: char) -> Option<Block> {
    if !has_return(b) {
        return Some(b.clone());
    }
    let one = |s: &Stmt| has_return(&parse_quote!({ #s }));
    let i = b.stmts.iter().position(one)?;
    let head = &b.stmts[..i];
    let rest = Block { brace_token: b.brace_token, stmts: b.stmts[i + 1..].to_vec() };
    let last = rest.stmts.is_empty();
    let arms_of = |m: &ExprMatch, wrap: &dyn Fn(&Expr) -> Block| -> Option<Expr> {
        if returns_in(&m.expr) || m.arms.iter().any(|a| a.guard.as_ref().map_or(false, |g| returns_in(&g.1))) {
            return None;
        }
        if !last && m.arms.iter().filter(|a| !diverging(&a.body)).count() > 1 {
            return None;
        }
        let mut m = m.clone();
        for a in m.arms.iter_mut() {
            let body = if diverging(&a.body) { as_block(&a.body) } else { wrap(&a.body) };
            let body = tail_form(&body, kind)?;
            a.body = parse_quote!(#body);
            a.comma = Some(Default::default());
        }
        Some(Expr::Match(m))
    };
    let e: Expr = match &b.stmts[i] {
        Stmt::Expr(Expr::Return(r), _) => {
            if r.expr.as_ref().map_or(false, |x| returns_in(x)) {
                return None;
            }
            r.expr.as_ref().map_or_else(|| parse_quote!(()), |x| (**x).clone())
        }
        Stmt::Expr(Expr::If(f), semi) => {
            if returns_in(&f.cond) {
                return None;
            }
            let tail = last && semi.is_none();
            let t = &f.then_branch;
            let els: Block = f.else_branch.as_ref().map_or_else(|| parse_quote!({}), |x| as_block(&x.1));
            let join = |x: &Block| -> Block {
                if diverges(x) || tail {
                    return x.clone();
                }
                let mut stmts = x.stmts.clone();
                if let Some(Stmt::Expr(_, s @ None)) = stmts.last_mut() {
                    *s = Some(Default::default());
                }
                stmts.extend(rest.stmts.clone());
                Block { brace_token: x.brace_token, stmts }
            };
            if !tail && !diverges(t) && !diverges(&els) && !last {
                return None;
            }
            let (t, els) = (tail_form(&join(t), kind)?, tail_form(&join(&els), kind)?);
            let c = &f.cond;
            parse_quote!(if #c #t else #els)
        }
        Stmt::Expr(Expr::Match(m), semi) => {
            let tail = last && semi.is_none();
            arms_of(m, &|x| {
                let mut x = as_block(x);
                if !tail {
                    if let Some(Stmt::Expr(_, s @ None)) = x.stmts.last_mut() {
                        *s = Some(Default::default());
                    }
                    x.stmts.extend(rest.stmts.clone());
                }
                x
            })?
        }
        Stmt::Local(l) => {
            let init = l.init.as_ref()?;
            let pat = &l.pat;
            if let Some((_, div)) = &init.diverge {
                if returns_in(&init.expr) || !diverging(div) {
                    return None;
                }
                let x = &init.expr;
                let els = tail_form(&as_block(div), kind)?;
                let rest = tail_form(&rest, kind)?;
                parse_quote!(match #x { #pat => #rest, _ => #els, })
            } else {
                match &*init.expr {
                    Expr::Try(t) if !returns_in(&t.expr) => {
                        let x = &t.expr;
                        let rest = tail_form(&rest, kind)?;
                        let p = if let Pat::Type(p) = pat { &*p.pat } else { pat };
                        match kind {
                            'o' => parse_quote!(match #x { Some(#p) => #rest, None => None, }),
                            'r' => parse_quote!(match #x { Ok(#p) => #rest, Err(vxe) => Err(vxe), }),
                            _ => return None,
                        }
                    }
                    Expr::Match(m) => arms_of(m, &|x| {
                        let mut stmts: Vec<Stmt> = vec![parse_quote!(let #pat = #x;)];
                        stmts.extend(rest.stmts.clone());
                        Block { brace_token: b.brace_token, stmts }
                    })?,
                    Expr::If(f) => {
                        let els = as_block(&f.else_branch.as_ref()?.1);
                        let t = &f.then_branch;
                        if returns_in(&f.cond) || diverges(t) == diverges(&els) {
                            return None;
                        }
                        let join = |x: &Block| -> Block {
                            if diverges(x) {
                                return x.clone();
                            }
                            let mut stmts: Vec<Stmt> = vec![parse_quote!(let #pat = #x;)];
                            stmts.extend(rest.stmts.clone());
                            Block { brace_token: b.brace_token, stmts }
                        };
                        let (t, els) = (tail_form(&join(t), kind)?, tail_form(&join(&els), kind)?);
                        let c = &f.cond;
                        parse_quote!(if #c #t else #els)
                    }
                    _ => return None,
                }
            }
        }
        _ => return None,
    };
    let b: Block = parse_quote!({ #(#head)* #e });
    if has_return(&b) {
        return None;
    }
    Some(b)
}

/// Variables a piece of code assigns, counts up or lends mutably
fn assigned(b: &Block) -> BTreeSet<String> {
    use syn::visit::Visit;
    struct A(BTreeSet<String>);
    fn root(e: &Expr) -> Option<String> {
        match e {
            Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()),
            Expr::Field(f) => root(&f.base),
            Expr::Index(f) => root(&f.expr),
            Expr::Paren(f) => root(&f.expr),
            Expr::Unary(f) => root(&f.expr),
            Expr::MethodCall(f) => root(&f.receiver),
            _ => None,
        }
    }
    impl<'a> Visit<'a> for A {
        fn visit_expr(&mut self, e: &'a Expr) {
            let l = match e {
                Expr::Assign(a) => root(&a.left),
                Expr::Binary(a) if squash(&a.op).len() >= 2 && squash(&a.op).ends_with('=') && !matches!(a.op, BinOp::Eq(_) | BinOp::Ne(_) | BinOp::Le(_) | BinOp::Ge(_)) => root(&a.left),
                Expr::Reference(r) if r.mutability.is_some() => root(&r.expr),
                Expr::MethodCall(m) if !matches!(m.method.to_string().as_str(), "len" | "iter" | "get" | "clone" | "is_empty") => root(&m.receiver),
                _ => None,
            };
            if let Some(l) = l {
                self.0.insert(l);
            }
            syn::visit::visit_expr(self, e);
        }
    }
    let mut a = A(BTreeSet::new());
    a.visit_block(b);
    a.0
}

/// `let mut v = a; .. while v < b { ..; v += 1; }` -> `let v = a; .. for v in v..b { .. }`
fn counted(stmts: &mut Vec<Stmt>) {
    for i in 0..stmts.len() {
        let Stmt::Local(l) = &stmts[i] else { continue };
        let id = match &l.pat {
            Pat::Ident(p) => p,
            Pat::Type(t) => match &*t.pat {
                Pat::Ident(p) => p,
                _ => continue,
            },
            _ => continue,
        };
        if id.mutability.is_none() || l.init.is_none() {
            continue;
        }
        let v = id.ident.clone();
        let name = v.to_string();
        let mentions = |s: &Stmt| {
            let mut u = BTreeSet::new();
            names_of(quote!(#s), &mut u);
            u.contains(&name)
        };
        let Some(j) = (i + 1..stmts.len()).find(|&j| mentions(&stmts[j])) else { continue };
        if stmts[j + 1..].iter().any(mentions) {
            continue;
        }
        let Stmt::Expr(Expr::While(w), _) = &stmts[j] else { continue };
        if w.label.is_some() {
            continue;
        }
        let Expr::Binary(c) = &*w.cond else { continue };
        if !matches!(c.op, BinOp::Lt(_)) || squash(&c.left) != name {
            continue;
        }
        let Some(last) = w.body.stmts.last() else { continue };
        let t = squash(last);
        if t != format!("{name}+=1;") && t != format!("{name}={name}+1;") {
            continue;
        }
        let body = Block { brace_token: w.body.brace_token, stmts: w.body.stmts[..w.body.stmts.len() - 1].to_vec() };
        let mut words = BTreeSet::new();
        names_of(quote!(#body), &mut words);
        let set = assigned(&body);
        let mut bw = BTreeSet::new();
        let bound = &c.right;
        names_of(quote!(#bound), &mut bw);
        let calls = squash(bound).replace(".len()", "").contains('(');
        if words.contains("continue") || set.contains(&name) || bound_in(&body.stmts).contains(&name) || calls || bw.iter().any(|x| set.contains(x)) {
            continue;
        }
        let bound = bound.clone();
        stmts[j] = parse_quote!(for #v in #v..#bound #body);
        if let Stmt::Local(l) = &mut stmts[i] {
            match &mut l.pat {
                Pat::Ident(p) => p.mutability = None,
                Pat::Type(t) => {
                    if let Pat::Ident(p) = &mut *t.pat {
                        p.mutability = None;
                    }
                }
                _ => {}
            }
        }
    }
}

struct SelfSubst {
    to: Expr,
}
impl VisitMut for SelfSubst {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e {
            if p.path.is_ident("self") {
                *e = self.to.clone();
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

impl<'a> Norm<'a> {
    pub fn mark(&mut self, text: String) -> Stmt {
        let n = self.texts.len();
        self.texts.push(text);
        let lit = proc_macro2::Literal::usize_unsuffixed(n);
        parse_quote!(vxmark!(#lit);)
    }
    fn inline_text(&mut self, text: String) -> Expr {
        let n = self.texts.len();
        self.texts.push(text);
        let lit = proc_macro2::Literal::usize_unsuffixed(n);
        parse_quote!(vxinline!(#lit))
    }
    fn panic_expr(&mut self) -> Expr {
        let t = format!("vx_panic(Ghost({}))", self.panic_cond);
        self.inline_text(t)
    }

    /// The text a format string and its arguments stand for: literal parts and fields, concatenated
    fn fmt_string(&mut self, ts: proc_macro2::TokenStream, tail: &str) -> Option<Expr> {
        let args = syn::parse::Parser::parse2(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated, ts).ok()?;
        let mut args = args.into_iter();
        let Some(Expr::Lit(ExprLit { lit: Lit::Str(f), .. })) = args.next() else { return None };
        let mut pos: Vec<Expr> = vec![];
        let mut named: Vec<(String, Expr)> = vec![];
        for a in args {
            match a {
                Expr::Assign(x) => named.push((squash(&x.left), (*x.right).clone())),
                a => pos.push(a),
            }
        }
        let lookup = |n: &str| -> Option<Expr> {
            if let Ok(i) = n.parse::<usize>() {
                return pos.get(i).cloned();
            }
            if let Some(x) = named.iter().find(|x| x.0 == n) {
                return Some(x.1.clone());
            }
            let id: Ident = syn::parse_str(n).ok()?;
            Some(parse_quote!(#id))
        };
        let mut parts: Vec<Expr> = vec![];
        let mut lit = String::new();
        let mut next = 0;
        let text = f.value();
        let mut cs = text.chars().peekable();
        let mut used: Vec<String> = vec![];
        while let Some(c) = cs.next() {
            match c {
                '{' | '}' if cs.peek() == Some(&c) => {
                    cs.next();
                    lit.push(c);
                }
                '{' => {
                    let mut field = String::new();
                    loop {
                        match cs.next()? {
                            '}' => break,
                            x => field.push(x),
                        }
                    }
                    let (name, spec) = field.split_once(':').unwrap_or((&field, ""));
                    let name = name.trim();
                    let a = if name.is_empty() {
                        next += 1;
                        pos.get(next - 1).cloned()?
                    } else {
                        lookup(name)?
                    };
                    used.push(squash(&a));
                    let (f, w) = match spec.chars().next() {
                        Some('<') => ("vx_displ", &spec[1..]),
                        Some('>') => ("vx_dispr", &spec[1..]),
                        _ => ("vx_dispw", spec),
                    };
                    let f = format_ident!("{}", f);
                    if !lit.is_empty() {
                        parts.push(parse_quote!(vx_str(#lit)));
                        lit.clear();
                    }
                    if spec.is_empty() {
                        parts.push(parse_quote!(vx_disp(&(#a))));
                    } else if let Some(n) = w.strip_suffix('$') {
                        let n = lookup(n)?;
                        parts.push(parse_quote!(#f(&(#a), #n)));
                    } else if !w.starts_with('0') {
                        let n: usize = w.parse().ok()?;
                        parts.push(parse_quote!(#f(&(#a), #n)));
                    } else {
                        return None;
                    }
                }
                '}' => return None,
                c => lit.push(c),
            }
        }
        lit.push_str(tail);
        // an argument written twice is evaluated once
        for (i, u) in used.iter().enumerate() {
            if used[..i].contains(u) && syn::parse_str::<Ident>(u).is_err() {
                return None;
            }
        }
        if !lit.is_empty() || parts.is_empty() {
            parts.push(parse_quote!(vx_str(#lit)));
        }
        let mut it = parts.into_iter();
        let first = it.next()?;
        Some(it.fold(first, |a, b| parse_quote!(vx_cat(#a, #b))))
    }

    /// Text formatting and the building of vectors, as calls and loops
    fn text_calls(&mut self, e: &mut Expr) {
        let eager = self.eager.clone();
        if let (Expr::Call(c), Some(how)) = (&mut *e, eager) {
            for a in c.args.iter_mut() {
                let Expr::MethodCall(m) = &*a else { continue };
                if m.method != "map" || m.args.len() != 1 {
                    continue;
                }
                let Some((p, b)) = Self::closure1(&m.args[0]) else { continue };
                let x = &m.receiver;
                *a = match (&*how, &**x) {
                    ("items", Expr::MethodCall(r)) => {
                        let mut item = r.clone();
                        let base = format_ident!("{}__base", r.method);
                        item.method = format_ident!("{}__item", r.method);
                        item.args.push(parse_quote!(vxp));
                        parse_quote!({ let mut vxv = Vec::new(); for vxp in Self::#base() { let #p = #item; let vxm = #b; vxv.push(vxm); } vxv.vx_into_iter() })
                    }
                    _ => parse_quote!({ let mut vxv = Vec::new(); for #p in #x { let vxm = #b; vxv.push(vxm); } vxv.vx_into_iter() }),
                };
            }
        }
        if let Expr::Call(c) = &*e {
            let callee = squash(&c.func);
            if c.args.len() == 1 && callee == "String::from" {
                let a = &c.args[0];
                *e = parse_quote!(vx_str(#a));
            }
            return;
        }
        let Expr::MethodCall(m) = &*e else { return };
        let x = &m.receiver;
        match (m.method.to_string().as_str(), m.args.len()) {
            ("write_fmt", 1) => {
                let Expr::Macro(a) = &m.args[0] else { return };
                if a.mac.path.is_ident("format_args") {
                    let x = x.clone();
                    if let Some(s) = self.fmt_string(a.mac.tokens.clone(), "") {
                        *e = parse_quote!(vx_write(#x, #s));
                    }
                }
            }
            ("to_string", 0) => *e = parse_quote!(vx_disp(&(#x))),
            ("collect", 0) => {
                if m.turbofish.as_ref().map_or(false, |t| !squash(t).starts_with("::<Vec<")) {
                    return;
                }
                let Expr::MethodCall(r) = &**x else { return };
                if r.method == "chars" && r.args.is_empty() {
                    let y = &r.receiver;
                    *e = parse_quote!(vx_chars(&(#y)));
                } else if r.method == "map" && r.args.len() == 1 {
                    let mut base = (*r.receiver).clone();
                    while let Expr::Paren(p) = base {
                        base = *p.expr;
                    }
                    let (Expr::Range(_), Some((p, b))) = (&base, Self::closure1(&r.args[0])) else { return };
                    *e = parse_quote!({ let mut vxv = Vec::new(); for #p in #base { let vxm = #b; vxv.push(vxm); } vxv });
                }
            }
            _ => {}
        }
    }

    fn expand_macro(&mut self, mac: &Macro) -> Option<Expr> {
        let name = mac.path.segments.last()?.ident.to_string();
        if name.starts_with("vx") {
            return None;
        }
        if self.macros.has(&name) {
            match self.macros.expand(&name, mac.tokens.clone()) {
                Ok(ts) => {
                    // a body may be an expression or a statement list
                    if let Ok(e) = syn::parse2::<Expr>(ts.clone()) {
                        return Some(e);
                    }
                    if let Ok(b) = syn::parse2::<Block>(quote!({ #ts })) {
                        return Some(Expr::Block(ExprBlock { attrs: vec![], label: None, block: b }));
                    }
                    self.problems.push(format!("macro {name} expands to no expression"));
                    return None;
                }
                Err(e) => {
                    self.problems.push(e);
                    return None;
                }
            }
        }
        match name.as_str() {
            "panic" | "unreachable" | "todo" | "unimplemented" => Some(self.panic_expr()),
            "assert" | "debug_assert" => {
                let args = syn::parse::Parser::parse2(
                    punctuated::Punctuated::<Expr, Token![,]>::parse_terminated,
                    mac.tokens.clone(),
                )
                .ok()?;
                let c = args.first()?.clone();
                let p = self.panic_expr();
                if name == "debug_assert" {
                    // whether it is compiled in is not known
                    return Some(parse_quote!(if vx_any() && !(#c) { #p; }));
                }
                Some(parse_quote!(if !(#c) { #p; }))
            }
            "assert_eq" | "assert_ne" | "debug_assert_eq" | "debug_assert_ne" => {
                let args = syn::parse::Parser::parse2(
                    punctuated::Punctuated::<Expr, Token![,]>::parse_terminated,
                    mac.tokens.clone(),
                )
                .ok()?;
                let a = args.get(0)?.clone();
                let b = args.get(1)?.clone();
                let p = self.panic_expr();
                if name.starts_with("debug") {
                    let c: Expr = if name.ends_with("eq") { parse_quote!(!((#a) == (#b))) } else { parse_quote!((#a) == (#b)) };
                    return Some(parse_quote!(if vx_any() && #c { #p; }));
                }
                Some(if name.ends_with("eq") {
                    parse_quote!(if !((#a) == (#b)) { #p; })
                } else {
                    parse_quote!(if (#a) == (#b) { #p; })
                })
            }
            "cfg" => Some(parse_quote!(vx_any())),
            "format" => self.fmt_string(mac.tokens.clone(), ""),
            "write" | "writeln" => {
                let toks: Vec<_> = mac.tokens.clone().into_iter().collect();
                let comma = |t: &proc_macro2::TokenTree| matches!(t, proc_macro2::TokenTree::Punct(p) if p.as_char() == ',');
                let pos = toks.iter().position(comma).unwrap_or(toks.len());
                let to: Expr = syn::parse2(toks[..pos].iter().cloned().collect()).ok()?;
                let end = if name == "writeln" { "\n" } else { "" };
                let s = match toks.get(pos + 1..) {
                    Some(t) if !t.is_empty() => self.fmt_string(t.iter().cloned().collect(), end)?,
                    _ => parse_quote!(vx_str(#end)),
                };
                Some(parse_quote!(vx_write(#to, #s)))
            }
            "matches" => {
                let toks: Vec<_> = mac.tokens.clone().into_iter().collect();
                let pos = toks.iter().position(|t| matches!(t, proc_macro2::TokenTree::Punct(p) if p.as_char()==','))?;
                let e: proc_macro2::TokenStream = toks[..pos].iter().cloned().collect();
                let p: proc_macro2::TokenStream = toks[pos + 1..].iter().cloned().collect();
                syn::parse2(quote!(match #e { #p => true, _ => false })).ok()
            }
            _ => None,
        }
    }

    /// A closure body without returns
    fn straight(e: &Expr, kind: char) -> Option<Expr> {
        if !returns_in(e) {
            return Some(e.clone());
        }
        let b = tail_form(&as_block(e), kind)?;
        Some(parse_quote!(#b))
    }

    fn closure1(c: &Expr) -> Option<(Pat, Expr)> {
        let Expr::Closure(c) = c else { return None };
        if c.inputs.len() != 1 {
            return None;
        }
        let body = Self::straight(&c.body, kind_of_type(&c.output))?;
        let mut p = c.inputs[0].clone();
        if let Pat::Type(t) = p {
            p = (*t.pat).clone();
        }
        Some((p, body))
    }

    /// A closure of one argument, or a path used as one
    fn fun1(&mut self, c: &Expr) -> Option<(Pat, Expr)> {
        if let Expr::Path(p) = c {
            let x: Pat = parse_quote!(vxx);
            let call: Expr = parse_quote!(#p(vxx));
            return Some((x, self.try_inline(&call).unwrap_or(call)));
        }
        let r = Self::closure1(c);
        if r.is_none() && matches!(c, Expr::Closure(_)) {
            self.problems.push("closure of a form that is not followed".into());
        }
        r
    }

    /// A closure of no arguments, or a path used as one
    fn fun0(&mut self, c: &Expr) -> Option<Expr> {
        match c {
            Expr::Path(p) => {
                let call: Expr = parse_quote!(#p());
                Some(self.try_inline(&call).unwrap_or(call))
            }
            Expr::Closure(c) if c.inputs.is_empty() => {
                let r = Self::straight(&c.body, kind_of_type(&c.output));
                if r.is_none() {
                    self.problems.push("closure of a form that is not followed".into());
                }
                r
            }
            _ => None,
        }
    }

    /// Is the value a Result (or an Option, the usual case)?
    fn is_result(&self, e: &Expr) -> bool {
        match e {
            Expr::Paren(p) => self.is_result(&p.expr),
            Expr::Reference(p) => self.is_result(&p.expr),
            Expr::Block(b) => match b.block.stmts.last() {
                Some(Stmt::Expr(e, None)) => self.is_result(e),
                _ => false,
            },
            Expr::If(i) => match i.then_branch.stmts.last() {
                Some(Stmt::Expr(e, None)) => self.is_result(e),
                _ => false,
            },
            Expr::Match(m) => m.arms.iter().any(|a| self.is_result(&a.body)),
            Expr::Call(c) => {
                let f = squash(&c.func);
                // `search::<A, B>(..)`: the name before its arguments
                let f = f.split("::<").next().unwrap_or("").to_string();
                let n = f.rsplit("::").next().unwrap_or("").to_string();
                n == "Ok" || n == "Err" || self.result_name(&f, &n)
            }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                match n.as_str() {
                    "as_ref" | "as_mut" | "map" | "and_then" | "or_else" | "copied" | "cloned" => self.is_result(&m.receiver),
                    _ => self.result_name(&n, &n),
                }
            }
            _ => false,
        }
    }
    fn result_name(&self, full: &str, n: &str) -> bool {
        match n {
            "try_from" | "try_into" | "ok_or" | "ok_or_else" | "map_err" | "parse" | "from_str" | "try_from_iter" => true,
            _ => {
                let full = full.split('<').next().unwrap_or("").trim_end_matches("::").replace("Self::", &format!("{}::", self.self_ty));
                let n = n.split('<').next().unwrap_or("");
                self.results.contains(&full) || self.results.contains(n)
            }
        }
    }

    /// A closure or function defined in the body, which has no contract: its calls become its body
    fn local_def(&self, s: &Stmt, rest: &[Stmt]) -> Option<(String, Vec<(Pat, Option<Type>)>, Expr, Expr)> {
        match s {
            Stmt::Local(l) => {
                let Pat::Ident(id) = &l.pat else { return None };
                if id.by_ref.is_some() || id.subpat.is_some() {
                    return None;
                }
                let init = l.init.as_ref()?;
                let Expr::Closure(c) = &*init.expr else { return None };
                if init.diverge.is_some() || c.capture.is_some() || c.asyncness.is_some() {
                    return None;
                }
                let cbody = Self::straight(&c.body, kind_of_type(&c.output))?;
                let mut ps = vec![];
                let mut own = BTreeSet::new();
                for i in &c.inputs {
                    let (p, t) = match i {
                        Pat::Type(t) => ((*t.pat).clone(), Some((*t.ty).clone())),
                        p => (p.clone(), None),
                    };
                    names_of(quote!(#p), &mut own);
                    ps.push((p, t));
                }
                let b = &cbody;
                let mut used = BTreeSet::new();
                names_of(quote!(#b), &mut used);
                // a captured name must mean the same at the calls
                let later = bound_in(rest);
                if used.iter().any(|n| !own.contains(n) && later.contains(n)) || later.contains(&id.ident.to_string()) {
                    return None;
                }
                let body = match &c.output {
                    ReturnType::Type(_, t) => parse_quote!({ let vxr: #t = #b; vxr }),
                    _ => cbody.clone(),
                };
                Some((id.ident.to_string(), ps, body, (*init.expr).clone()))
            }
            Stmt::Item(Item::Fn(f)) => {
                if !f.sig.generics.params.is_empty() || f.sig.constness.is_some() {
                    return None;
                }
                let mut ps = vec![];
                for i in &f.sig.inputs {
                    let FnArg::Typed(t) = i else { return None };
                    if squash(&t.ty).contains('\'') || squash(&t.ty).contains("impl ") {
                        return None;
                    }
                    ps.push(((*t.pat).clone(), Some((*t.ty).clone())));
                }
                let name = f.sig.ident.to_string();
                let b = &tail_form(&f.block, kind_of_type(&f.sig.output))?;
                let mut used = BTreeSet::new();
                names_of(quote!(#b), &mut used);
                if used.contains(&name) {
                    return None;
                }
                let body: Expr = match &f.sig.output {
                    ReturnType::Type(_, t) => parse_quote!({ let vxr: #t = #b; vxr }),
                    _ => parse_quote!(#b),
                };
                let id = &f.sig.ident;
                Some((name, ps, body, parse_quote!(#id)))
            }
            _ => None,
        }
    }

    fn inline_local(&mut self, c: &ExprCall) -> Option<Expr> {
        let Expr::Path(p) = &*c.func else { return None };
        let name = p.path.get_ident()?.to_string();
        let (_, ps, body, _) = self.locals.iter().rev().find(|l| l.0 == name)?.clone();
        if ps.len() != c.args.len() {
            return None;
        }
        let mut stmts: Vec<Stmt> = vec![];
        let mut binds: Vec<Stmt> = vec![];
        let args: Vec<Expr> = c.args.iter().cloned().collect();
        for (k, ((p, t), a)) in ps.iter().zip(&args).enumerate() {
            let mut a = a.clone();
            self.visit_expr_mut(&mut a);
            let tmp = format_ident!("vxloc{}_{}", self.inline_depth, k);
            stmts.push(parse_quote!(let #tmp = #a;));
            let mut b: Stmt = match t {
                Some(t) => parse_quote!(let #p: #t = #tmp;),
                None => parse_quote!(let #p = #tmp;),
            };
            if let Stmt::Local(l) = &mut b {
                deref_pat(l);
            }
            binds.push(b);
        }
        let mut body = body;
        self.inline_depth += 1;
        self.visit_expr_mut(&mut body);
        self.inline_depth -= 1;
        Some(parse_quote!({ #(#stmts)* #(#binds)* #body }))
    }

    fn try_inline(&mut self, e: &Expr) -> Option<Expr> {
        if self.inline_depth > 6 {
            return None;
        }
        if let Expr::Call(c) = e {
            if let Some(x) = self.inline_local(c) {
                return Some(x);
            }
        }
        let (h, recv, args): (Helper, Option<Expr>, Vec<Expr>) = match e {
            Expr::Call(c) => {
                let Expr::Path(p) = &*c.func else { return None };
                let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                let name = segs.last()?.clone();
                let owner = if segs.len() >= 2 {
                    let o = segs[segs.len() - 2].clone();
                    if o == "Self" {
                        self.self_ty.clone()
                    } else if o.chars().next()?.is_lowercase() {
                        String::new()
                    } else {
                        o
                    }
                } else {
                    String::new()
                };
                let key = if owner.is_empty() { name.clone() } else { format!("{owner}::{name}") };
                let h = self.helpers.get(&key)?.clone();
                let mut args: Vec<Expr> = c.args.iter().cloned().collect();
                let mut recv = None;
                if h.sig.receiver().is_some() {
                    if args.is_empty() {
                        return None;
                    }
                    recv = Some(args.remove(0));
                }
                (h, recv, args)
            }
            Expr::MethodCall(m) => {
                let key = format!("{}::{}", self.self_ty, m.method);
                let h = self.helpers.get(&key)?.clone();
                if squash(&m.receiver) != "self" {
                    return None;
                }
                (h, Some((*m.receiver).clone()), m.args.iter().cloned().collect())
            }
            _ => return None,
        };
        let Some(hblock) = tail_form(&h.block, kind_of_type(&h.sig.output)) else {
            self.problems.push(format!("helper {} has early returns", h.sig.ident));
            return None;
        };
        let mut stmts: Vec<Stmt> = vec![];
        let mut binds: Vec<Stmt> = vec![];
        let params: Vec<&PatType> = h
            .sig
            .inputs
            .iter()
            .filter_map(|i| if let FnArg::Typed(t) = i { Some(t) } else { None })
            .collect();
        if params.len() != args.len() {
            return None;
        }
        let gen: BTreeSet<String> = h.sig.generics.params.iter().map(|p| match p {
            GenericParam::Type(t) => t.ident.to_string(),
            GenericParam::Const(c) => c.ident.to_string(),
            GenericParam::Lifetime(l) => l.lifetime.to_string(),
        }).collect();
        let toks = squash(&h.block);
        for g in &gen {
            if toks.split(|c: char| !(c.is_alphanumeric() || c == '_')).any(|w| w == g) {
                self.problems.push(format!("helper {} uses its generics", h.sig.ident));
                return None;
            }
        }
        for (k, (p, a)) in params.iter().zip(&args).enumerate() {
            let tmp = format_ident!("vxarg{}_{}", self.inline_depth, k);
            stmts.push(parse_quote!(let #tmp = #a;));
            let pat = &p.pat;
            let ty = &p.ty;
            let t = squash(ty);
            if t.contains("impl ") || t.contains('\'')
                || gen.iter().any(|g| t.split(|c: char| !(c.is_alphanumeric() || c == '_')).any(|w| w == g))
            {
                binds.push(parse_quote!(let #pat = #tmp;));
            } else {
                binds.push(parse_quote!(let #pat: #ty = #tmp;));
            }
        }
        let mut body = hblock;
        if let Some(r) = recv {
            let r = match r {
                Expr::Reference(x) => (*x.expr).clone(),
                x => x,
            };
            if squash(&r) != "self" {
                SelfSubst { to: r }.visit_block_mut(&mut body);
            }
        }
        self.inline_depth += 1;
        let locals = std::mem::take(&mut self.locals);
        self.visit_block_mut(&mut body);
        self.locals = locals;
        self.inline_depth -= 1;
        let bs = &body.stmts;
        Some(parse_quote!({ #(#stmts)* #(#binds)* #(#bs)* }))
    }

    /// `it.map(f).collect()`, before its parts are rewritten
    fn rewrite_collect(&mut self, e: &mut Expr) {
        if let Expr::MethodCall(m) = e {
            if m.method == "collect" && m.args.is_empty() {
                let recv = (*m.receiver).clone();
                    if let Expr::MethodCall(mm) = &recv {
                    if mm.method == "map" {
                        if let Some((p, b)) = mm.args.first().and_then(Self::closure1) {
                            let src = &mm.receiver;
                            *e = parse_quote!({
                                let mut vxit = #src;
                                let mut vxacc = Vec::new();
                                loop {
                                    match vxit.next() {
                                        Some(vxn) => { let vxm = { let #p = vxn; #b }; vxacc.push(vxm); }
                                        None => { break; }
                                    }
                                }
                                Self::from_iter_owned(vxacc.vx_into_iter())
                            });
                        }
                    }
                }

            }
        }
    }

    fn rewrite(&mut self, e: &mut Expr) {
        // closures over Option and Result, and other std shapes
        if let Expr::MethodCall(m) = e {
            let recv = (*m.receiver).clone();
            let name = m.method.to_string();
            let a0 = m.args.first().cloned();
            let nargs = m.args.len();
            match (name.as_str(), nargs) {
                ("map", 1) => {
                    if let Some((p, b)) = self.fun1(&a0.unwrap()) {
                        *e = if self.is_result(&recv) {
                            parse_quote!(match #recv { Ok(#p) => Ok(#b), Err(vxe) => Err(vxe), })
                        } else {
                            parse_quote!(match #recv { Some(#p) => Some(#b), None => None, })
                        };
                    }
                }
                ("and_then", 1) => {
                    if let Some((p, b)) = self.fun1(&a0.unwrap()) {
                        *e = if self.is_result(&recv) {
                            parse_quote!(match #recv { Ok(#p) => #b, Err(vxe) => Err(vxe), })
                        } else {
                            parse_quote!(match #recv { Some(#p) => #b, None => None, })
                        };
                    }
                }
                ("or_else", 1) => {
                    let a = a0.unwrap();
                    if let Some(b) = self.fun0(&a).filter(|_| !self.is_result(&recv)) {
                        *e = parse_quote!(match #recv { Some(vxv) => Some(vxv), None => #b, });
                    } else if let Some((p, b)) = self.fun1(&a) {
                        *e = parse_quote!(match #recv { Ok(vxv) => Ok(vxv), Err(#p) => #b, });
                    }
                }
                ("map_or", 2) => {
                    let d = a0.unwrap();
                    if let Some((p, b)) = self.fun1(&m.args[1].clone()) {
                        *e = if self.is_result(&recv) {
                            parse_quote!(match (#recv, #d) { (Ok(#p), _) => #b, (Err(_), vxd) => vxd, })
                        } else {
                            parse_quote!(match (#recv, #d) { (Some(#p), _) => #b, (None, vxd) => vxd, })
                        };
                    }
                }
                ("map_or_else", 2) => {
                    if let Some((p, b)) = self.fun1(&m.args[1].clone()) {
                        if self.is_result(&recv) {
                            if let Some((pe, d)) = self.fun1(&a0.unwrap()) {
                                *e = parse_quote!(match #recv { Ok(#p) => #b, Err(#pe) => #d, });
                            }
                        } else if let Some(d) = self.fun0(&a0.unwrap()) {
                            *e = parse_quote!(match #recv { Some(#p) => #b, None => #d, });
                        }
                    }
                }
                ("then", 1) => {
                    if let Expr::Closure(_) = a0.as_ref().unwrap() {
                        if let Some(b) = self.fun0(&a0.unwrap()) {
                            *e = parse_quote!(if #recv { Some(#b) } else { None });
                        }
                    }
                }
                ("then_some", 1) => {
                    let a = a0.unwrap();
                    *e = parse_quote!(match (#recv, #a) { (true, vxv) => Some(vxv), _ => None, });
                }
                ("filter", 1) => {
                    if let Some((p, b)) = self.fun1(&a0.unwrap()) {
                        *e = parse_quote!(match #recv {
                            Some(vxf) => { let vxk = { let #p = &vxf; #b }; if vxk { Some(vxf) } else { None } }
                            None => None,
                        });
                    }
                }
                ("map_err", 1) => {
                    if let Some((p, b)) = self.fun1(&a0.unwrap()) {
                        *e = parse_quote!(match #recv { Ok(vxv) => Ok(vxv), Err(#p) => Err(#b), });
                    }
                }
                ("unwrap_or_else", 1) => {
                    let a = a0.unwrap();
                    if let Expr::Closure(c) = &a {
                        if c.inputs.is_empty() {
                            if let Some(b) = self.fun0(&a) {
                                *e = parse_quote!(match #recv { Some(vxv) => vxv, None => #b, });
                            }
                        } else if let Some((p, b)) = self.fun1(&a) {
                            *e = parse_quote!(match #recv { Ok(vxv) => vxv, Err(#p) => #b, });
                        }
                    }
                }
                ("ok_or_else", 1) => {
                    if let Some(b) = self.fun0(&a0.unwrap()) {
                        *e = parse_quote!(match #recv { Some(vxv) => Ok(vxv), None => Err(#b), });
                    }
                }
                ("or", 1) => {
                    let a = a0.unwrap();
                    let err = matches!(&a, Expr::Call(c) if squash(&c.func) == "Err");
                    if err {
                        *e = parse_quote!(match #recv { Ok(vxv) => Ok(vxv), Err(_) => #a, });
                    } else if self.is_result(&a) || self.is_result(&recv) {
                        *e = parse_quote!(match (#recv, #a) { (Ok(vxv), _) => Ok(vxv), (Err(_), vxa) => vxa, });
                    }
                }
                ("is_some_and" | "is_ok_and" | "is_none_or", 1) => {
                    if let Some((p, b)) = self.fun1(&a0.unwrap()) {
                        *e = match name.as_str() {
                            "is_some_and" => parse_quote!(match #recv { Some(#p) => #b, None => false, }),
                            "is_ok_and" => parse_quote!(match #recv { Ok(#p) => #b, Err(_) => false, }),
                            _ => parse_quote!(match #recv { Some(#p) => #b, None => true, }),
                        };
                    }
                }
                ("any" | "all", 1) => {
                    if let (Some((p, b)), Expr::MethodCall(it)) = (Self::closure1(&a0.unwrap()), &recv) {
                        if it.method == "iter" && it.args.is_empty() {
                            let v = &it.receiver;
                            // vxres: one was found (that breaks the rule, for `all`)
                            let (test, res): (Expr, Expr) = if name == "any" {
                                (parse_quote!(#b), parse_quote!(vxres))
                            } else {
                                (parse_quote!(!(#b)), parse_quote!(!vxres))
                            };
                            *e = parse_quote!({
                                let mut vxres = false;
                                let mut vxj: usize = 0;
                                while vxj < #v.len() {
                                    let vxt = { let #p = &#v[vxj]; #test };
                                    vxj = vxj + 1;
                                    if vxt { vxres = true; break; }
                                }
                                #res
                            });
                        }
                    }
                }
                ("fold", 2) => {
                    let init = a0.unwrap();
                    if let Some(Expr::Closure(c)) = m.args.iter().nth(1) {
                        if c.inputs.len() == 2 {
                            let p1 = &c.inputs[0];
                            let p2 = &c.inputs[1];
                            let b = &c.body;
                            *e = parse_quote!({
                                let mut vxit = #recv;
                                let mut vxacc = #init;
                                loop {
                                    match vxit.next() {
                                        Some(vxn) => { let #p2 = vxn; let #p1 = vxacc; vxacc = #b; }
                                        None => { break; }
                                    }
                                }
                                vxacc
                            });
                        }
                    }
                }
                ("into_iter", 0) => {
                    *e = parse_quote!(#recv.vx_into_iter());
                }
                ("get_unchecked", 1) => {
                    let i = a0.unwrap();
                    *e = parse_quote!(&#recv[#i]);
                }
                ("get_unchecked_mut", 1) => {
                    let i = a0.unwrap();
                    *e = parse_quote!(&mut #recv[#i]);
                }
                _ => {}
            }
            return;
        }
        if let Expr::Call(c) = e {
            let f = squash(&c.func);
            if (f == "std::array::from_fn" || f == "core::array::from_fn" || f == "array::from_fn") && c.args.len() == 1 {
                if let Some((p, b)) = Self::closure1(&c.args[0]) {
                    let body = b;
                    *e = parse_quote!({
                        let mut vxb = ArrayBuilder::new();
                        let mut vxj: usize = 0;
                        while vxj < vxb.cap() {
                            let vxv = { let #p = vxj; #body };
                            vxb.push(vxv);
                            vxj = vxj + 1;
                        }
                        vxb.build()
                    });
                }
            } else if (f == "mem::swap" || f == "std::mem::swap") && c.args.len() == 2 {
                c.func = parse_quote!(vx_swap);
            } else if f == "std::array::IntoIter::new" || f == "IntoIterator::into_iter" {
                let a = c.args[0].clone();
                *e = parse_quote!(#a.vx_into_iter());
            }
            return;
        }
        if let Expr::Unsafe(u) = e {
            let b = &u.block;
            *e = if b.stmts.len() == 1 {
                if let Stmt::Expr(x, None) = &b.stmts[0] {
                    x.clone()
                } else {
                    parse_quote!(#b)
                }
            } else {
                parse_quote!(#b)
            };
            return;
        }
        if let Expr::Binary(b) = e {
            let cmp = matches!(
                b.op,
                BinOp::Eq(_) | BinOp::Ne(_) | BinOp::Lt(_) | BinOp::Le(_) | BinOp::Gt(_) | BinOp::Ge(_)
            );
            if cmp {
                if let Expr::Reference(l) = &*b.left {
                    let l = (*l.expr).clone();
                    let r: Expr = match &*b.right {
                        Expr::Reference(r) => (*r.expr).clone(),
                        r => parse_quote!(*#r),
                    };
                    *b.left = l;
                    *b.right = r;
                } else if let Expr::Reference(r) = &*b.right {
                    let r = (*r.expr).clone();
                    let l = (*b.left).clone();
                    *b.left = parse_quote!(*#l);
                    *b.right = r;
                }
            }
        }
    }

    fn const_path(&mut self, e: &mut Expr) {
        let Expr::Path(p) = e else { return };
        let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
        if segs.len() < 2 && p.qself.is_none() {
            return;
        }
        let name = segs.last().unwrap().clone();
        let owner = if let Some(q) = &p.qself {
            let t = squash(&q.ty);
            if q.position > 0 && segs.len() >= 2 {
                // <T as Trait>::NAME
                if PRIMS.contains(&t.as_str()) && !self.consts.fns.get("*").map_or(false, |s| s.contains(&name)) {
                    return;
                }
                "*".to_string()
            } else if PRIMS.contains(&t.as_str()) {
                return;
            } else {
                t.split('<').next().unwrap().to_string()
            }
        } else {
            let o = segs[segs.len() - 2].clone();
            if PRIMS.contains(&o.as_str()) {
                return;
            }
            if o == "Self" {
                self.self_ty.clone()
            } else {
                o
            }
        };
        let isfn = if self.consts.kept.get(&owner).map_or(false, |s| s.contains(&name)) {
            false
        } else if self.consts.fns.get(&owner).map_or(false, |s| s.contains(&name)) {
            true
        } else {
            self.consts.fns.get("*").map_or(false, |s| s.contains(&name))
                && !self.consts.kept.contains_key(&format!("{owner}!"))
        };
        if isfn {
            // Self::Assoc::NAME -> <Self::Assoc as Trait>::NAME()
            if p.qself.is_none() && segs.len() == 3 && segs[0] == "Self" {
                if let Some(t) = self.consts.trait_of.get(&name) {
                    let t = format_ident!("{}", t);
                    let a = format_ident!("{}", segs[1]);
                    let n = format_ident!("{}", name);
                    *e = parse_quote!(<Self::#a as #t>::#n());
                    return;
                }
            }
            *e = parse_quote!(#p());
        }
    }
}

impl<'a> VisitMut for Norm<'a> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        // statement macros
        let mut stmts = std::mem::take(&mut b.stmts);
        counted(&mut stmts);
        let depth = self.locals.len();
        let all = stmts.clone();
        for (k, s) in stmts.into_iter().enumerate() {
            if let Some(l) = self.local_def(&s, &all[k + 1..]) {
                self.locals.push(l);
                if matches!(s, Stmt::Item(_)) {
                    b.stmts.push(s);
                }
                continue;
            }
            match s {
                Stmt::Macro(m) => {
                    let semi = m.semi_token;
                    if let Some(e) = self.expand_macro(&m.mac) {
                        b.stmts.push(Stmt::Expr(e, semi.or(Some(Default::default()))));
                    } else {
                        if !m.mac.path.segments.last().unwrap().ident.to_string().starts_with("vx") {
                            self.problems.push(format!("macro {}", squash(&m.mac.path)));
                        }
                        b.stmts.push(Stmt::Macro(m));
                    }
                }
                Stmt::Local(l) => {
                    // let _ = Self::_ASSERTS;
                    if matches!(l.pat, Pat::Wild(_)) {
                        if let Some(init) = &l.init {
                            if let Expr::Path(p) = &*init.expr {
                                let name = p.path.segments.last().unwrap().ident.to_string();
                                let cond = self.consts.asserts.get(&self.self_ty).and_then(|m| m.get(&name)).cloned();
                                if let Some(c) = cond {
                                    let st = self.mark(format!("assume({c}); // VX-CONST-ASSERT"));
                                    b.stmts.push(st);
                                    continue;
                                }
                            }
                        }
                    }
                    b.stmts.push(Stmt::Local(l));
                }
                Stmt::Item(i) => {
                    match &i {
                        Item::Use(_) | Item::Fn(_) => {}
                        _ => self.problems.push("nested item".into()),
                    }
                    b.stmts.push(Stmt::Item(i));
                }
                s => b.stmts.push(s),
            }
        }
        for s in &mut b.stmts {
            self.visit_stmt_mut(s);
        }
        // `let &p = e` -> `let p = *e`
        for s in &mut b.stmts {
            if let Stmt::Local(l) = s {
                deref_pat(l);
            }
        }
        let fns: Vec<String> = self.locals[depth..].iter().map(|l| l.0.clone()).collect();
        self.locals.truncate(depth);
        if b.stmts.iter().any(|s| matches!(s, Stmt::Item(Item::Fn(_)))) {
            // a function all of whose uses are calls is gone
            let mut used = BTreeSet::new();
            for s in &b.stmts {
                if !matches!(s, Stmt::Item(Item::Fn(_))) {
                    names_of(quote!(#s), &mut used);
                }
            }
            b.stmts.retain(|s| match s {
                Stmt::Item(Item::Fn(f)) => {
                    let n = f.sig.ident.to_string();
                    !(fns.contains(&n) && !used.contains(&n))
                }
                _ => true,
            });
            if b.stmts.iter().any(|s| matches!(s, Stmt::Item(Item::Fn(_)))) {
                self.problems.push("nested item".into());
            }
        }
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        self.text_calls(e);
        if let Expr::Macro(m) = e {
            if let Some(x) = self.expand_macro(&m.mac) {
                *e = x;
            } else {
                let n = squash(&m.mac.path);
                if !n.starts_with("vx") && n != "vec" {
                    self.problems.push(format!("macro {n}"));
                }
                if n == "vec" {
                    // visit the arguments
                    if let Ok(mut args) = syn::parse::Parser::parse2(
                        punctuated::Punctuated::<Expr, Token![,]>::parse_terminated,
                        m.mac.tokens.clone(),
                    ) {
                        for a in args.iter_mut() {
                            self.visit_expr_mut(a);
                        }
                        m.mac.tokens = quote!(#args);
                    }
                }
                return;
            }
        }
        let sq = squash(&*e);
        if let Some((_, to)) = self.resolves.iter().find(|r| r.0 == sq) {
            *e = to.clone();
        }
        if let Some(x) = self.try_inline(e) {
            *e = x;
            return;
        }
        // `loop { if c { break; } .. }` -> `while !c { .. }`
        if let Expr::Loop(l) = e {
            let toks = squash(&l.body);
            if let (None, Some(Stmt::Expr(Expr::If(i), _))) = (&l.label, l.body.stmts.first()) {
                let only_break = matches!(&i.then_branch.stmts[..], [Stmt::Expr(Expr::Break(b), _)] if b.label.is_none() && b.expr.is_none());
                if i.else_branch.is_none() && only_break && !matches!(&*i.cond, Expr::Let(_)) && !toks.contains("break'") {
                    let c = (*i.cond).clone();
                    let c: Expr = match c {
                        Expr::Unary(ExprUnary { op: UnOp::Not(_), expr, .. }) => *expr,
                        c => parse_quote!(!(#c)),
                    };
                    let rest = &l.body.stmts[1..];
                    *e = parse_quote!(while #c { #(#rest)* });
                }
            }
        }
        if let Expr::Path(p) = e {
            if let Some(n) = p.path.get_ident().map(|i| i.to_string()) {
                if let Some(l) = self.locals.iter().rev().find(|l| l.0 == n) {
                    if let Expr::Closure(_) = &l.3 {
                        *e = l.3.clone();
                    }
                }
            }
        }
        // function of a call is not a constant
        self.rewrite_collect(e);
        match e {
            Expr::Call(c) => {
                if !matches!(&*c.func, Expr::Path(_)) {
                    self.visit_expr_mut(&mut c.func);
                }
                for a in c.args.iter_mut() {
                    self.visit_expr_mut(a);
                }
            }
            _ => visit_mut::visit_expr_mut(self, e),
        }
        self.const_path(e);
        self.rewrite(e);
    }

    fn visit_expr_closure_mut(&mut self, c: &mut ExprClosure) {
        visit_mut::visit_expr_closure_mut(self, c);
        for (k, i) in c.inputs.iter_mut().enumerate() {
            if matches!(i, Pat::Wild(_)) {
                let id = format_ident!("_vxw{k}");
                *i = parse_quote!(#id);
            }
        }
    }
    fn visit_item_mut(&mut self, _i: &mut Item) {}
}

fn deref_pat(l: &mut Local) {
    if let Pat::Reference(r) = &l.pat {
        let p = (*r.pat).clone();
        if let Some(init) = &mut l.init {
            let e = (*init.expr).clone();
            l.pat = p;
            *init.expr = match e {
                Expr::Reference(x) => (*x.expr).clone(),
                x => parse_quote!(*(#x)),
            };
        }
    }
}

/// Loop numbering (textual pre-order), desugaring and annotation.
pub struct Loops<'a> {
    pub texts: &'a mut Vec<String>,
    pub spec: Option<&'a crate::spec::FnSpec>,
    pub count: usize,
    pub stack: Vec<usize>,
    pub problems: Vec<String>,
    /// names of the contract's loop iterators in the code
    pub iters: Vec<(String, String)>,
}

impl<'a> Loops<'a> {
    fn text(&mut self, t: String) -> proc_macro2::Literal {
        let n = self.texts.len();
        self.texts.push(t);
        proc_macro2::Literal::usize_unsuffixed(n)
    }
    fn sec(&self, kind: &str, k: usize) -> Option<String> {
        self.spec.and_then(|s| s.get(kind, &k.to_string())).map(|s| s.to_string())
    }
    /// Annotate the body of loop k
    fn body(&mut self, k: usize, b: &Block) -> Block {
        let mut b = b.clone();
        self.stack.push(k);
        self.visit_block_mut(&mut b);
        self.stack.pop();
        let mut stmts: Vec<Stmt> = vec![];
        let has_tail = matches!(b.stmts.last(), Some(Stmt::Expr(_, None)));
        let n = b.stmts.len();
        for (i, s) in b.stmts.into_iter().enumerate() {
            if has_tail && i + 1 == n {
                if let Stmt::Expr(e, None) = s {
                    stmts.push(Stmt::Expr(e, Some(Default::default())));
                }
            } else {
                stmts.push(s);
            }
        }
        if let Some(t) = self.sec("loopend", k) {
            let lit = self.text(t);
            stmts.push(parse_quote!(vxmark!(#lit);));
        }
        parse_quote!({ #(#stmts)* })
    }
    fn invariant(&mut self, k: usize) -> Stmt {
        let t = self.sec("loop", k).unwrap_or_default();
        let lit = self.text(t);
        parse_quote!(vxloop!(#lit);)
    }
    fn start(&mut self, k: usize) -> Option<Stmt> {
        let t = self.sec("loopstart", k)?;
        let lit = self.text(t);
        Some(parse_quote!(vxmark!(#lit);))
    }
    /// `let PAT = E;` at the start of a round, with `vxnK` as a ghost name of the item when the contract uses it
    fn item(&mut self, k: usize, pat: &Pat, e: &Expr) -> Vec<Stmt> {
        let name = format!("vxn{k}");
        let used = self.spec.map_or(false, |s| s.sections.iter().any(|x| crate::names::mentions(&x.2, &name)));
        if !used {
            return vec![parse_quote!(let #pat = #e;)];
        }
        let g = self.text(format!("let ghost {name} = vxnv;"));
        vec![parse_quote!(let vxnv = #e;), parse_quote!(vxmark!(#g);), parse_quote!(let #pat = vxnv;)]
    }
    fn pre(&mut self, k: usize) -> Option<Stmt> {
        let t = self.sec("looppre", k)?;
        let lit = self.text(t);
        Some(parse_quote!(vxmark!(#lit);))
    }
    fn post(&mut self, k: usize) -> Option<Stmt> {
        let t = self.sec("looppost", k)?;
        let lit = self.text(t);
        Some(parse_quote!(vxmark!(#lit);))
    }
    fn attr(&mut self, k: usize) -> Option<Stmt> {
        let t = self.sec("loopattr", k)?;
        let lit = self.text(t);
        Some(parse_quote!(vxmark!(#lit);))
    }
}

impl<'a> VisitMut for Loops<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::ForLoop(f) => {
                self.count += 1;
                let k = self.count;
                let mut pat = (*f.pat).clone();
                let mut iter = (*f.expr).clone();
                self.visit_expr_mut(&mut iter);
                while let Expr::Paren(p) = iter {
                    iter = *p.expr;
                }
                if f.label.is_some() {
                    self.problems.push("loop label".into());
                }
                let vi = format_ident!("vxi{}", k);
                let ve = format_ident!("vxe{}", k);
                let vit = format_ident!("vxit{}", k);
                let vs = format_ident!("vxs{}", k);
                let inv = self.invariant(k);
                let st = self.start(k).into_iter();
                let pre: Vec<Stmt> = self.pre(k).into_iter().chain(self.attr(k)).collect();
                let post: Vec<Stmt> = self.post(k).into_iter().collect();
                match &iter {
                    Expr::Range(r) if r.start.is_some() && r.end.is_some() => {
                        let a = r.start.clone().unwrap();
                        let z = r.end.clone().unwrap();
                        let b = self.body(k, &f.body);
                        let bs = &b.stmts;
                        if matches!(r.limits, RangeLimits::HalfOpen(_)) {
                            *e = parse_quote!({
                                let mut #vi = #a;
                                let #ve = #z;
                                #(#pre)*
                                while #vi < #ve {
                                    #inv
                                    let #pat = #vi;
                                    #vi = #vi + 1;
                                    #(#st)*
                                    #(#bs)*
                                }
                                #(#post)*
                            });
                        } else {
                            *e = parse_quote!({
                                let mut #vi = #a;
                                let #ve = #z;
                                let mut vxgo = #vi <= #ve;
                                #(#pre)*
                                while vxgo {
                                    #inv
                                    let #pat = #vi;
                                    if #vi < #ve { #vi = #vi + 1; } else { vxgo = false; }
                                    #(#st)*
                                    #(#bs)*
                                }
                                #(#post)*
                            });
                        }
                    }
                    Expr::Reference(r) => {
                        // &x or &mut x[..]
                        let mut base = (*r.expr).clone();
                        if let Expr::Index(ix) = &base {
                            if squash(&ix.index) == ".." {
                                base = (*ix.expr).clone();
                            }
                        }
                        let b = self.body(k, &f.body);
                        let bs = &b.stmts;
                        let mut el: Expr = if r.mutability.is_some() {
                            parse_quote!(&mut #base[#vi])
                        } else {
                            parse_quote!(&#base[#vi])
                        };
                        if let Pat::Reference(pr) = &pat {
                            el = parse_quote!(#base[#vi]);
                            pat = (*pr.pat).clone();
                        }
                        *e = parse_quote!({
                            let mut #vi: usize = 0;
                            #(#pre)*
                            while #vi < #base.len() {
                                #inv
                                let #pat = #el;
                                #vi = #vi + 1;
                                #(#st)*
                                #(#bs)*
                            }
                            #(#post)*
                        });
                    }
                    Expr::MethodCall(m) if m.method == "flatten" && m.args.is_empty() => {
                        self.count += 1;
                        let k2 = self.count;
                        let vi2 = format_ident!("vxi{}", k2);
                        let src = (*m.receiver).clone();
                        let b = self.body(k2, &f.body);
                        if has_break(&f.body) {
                            self.problems.push("break in a flattened loop".into());
                        }
                        let bs = &b.stmts;
                        let inv2 = self.invariant(k2);
                        let st2 = self.start(k2).into_iter();
                        let pre2: Vec<Stmt> = self.pre(k2).into_iter().chain(self.attr(k2)).collect();
                        let post2: Vec<Stmt> = self.post(k2).into_iter().collect();
                        *e = parse_quote!({
                            let mut #vit = #src;
                            #(#pre)*
                            loop {
                                #inv
                                let #vs = match #vit.next() { Some(vxn) => vxn, None => break, };
                                #(#st)*
                                let mut #vi2: usize = 0;
                                #(#pre2)*
                                while #vi2 < #vs.len() {
                                    #inv2
                                    let #pat = #vs[#vi2];
                                    #vi2 = #vi2 + 1;
                                    #(#st2)*
                                    #(#bs)*
                                }
                                #(#post2)*
                            }
                            #(#post)*
                        });
                    }
                    _ => {
                        // x.into_iter() / x.into_iter().enumerate() / any value with next()
                        let mut src = iter.clone();
                        rename_iter(&mut src);
                        let b = self.body(k, &f.body);
                        let bs = &b.stmts;
                        let it = self.item(k, &pat, &parse_quote!(match #vit.next() { Some(vxn) => vxn, None => break, }));
                        *e = parse_quote!({
                            let mut #vit = #src;
                            #(#pre)*
                            loop {
                                #inv
                                #(#it)*
                                #(#st)*
                                #(#bs)*
                            }
                            #(#post)*
                        });
                    }
                }
                fix_patterns(e);
            }
            Expr::While(w) => {
                self.count += 1;
                let k = self.count;
                if w.label.is_some() {
                    self.problems.push("loop label".into());
                }
                let inv = self.invariant(k);
                let st = self.start(k).into_iter();
                let pre: Vec<Stmt> = self.pre(k).into_iter().chain(self.attr(k)).collect();
                let post: Vec<Stmt> = self.post(k).into_iter().collect();
                let next_of = match &*w.cond {
                    Expr::Let(l) => match (&*l.pat, &*l.expr) {
                        (Pat::TupleStruct(t), Expr::MethodCall(m))
                            if squash(&t.path) == "Some" && t.elems.len() == 1 && m.method == "next" && m.args.is_empty() =>
                        {
                            match &*m.receiver {
                                Expr::Path(p) => p.path.get_ident().filter(|i| *i != "self").map(|i| (t.elems[0].clone(), i.clone())),
                                _ => None,
                            }
                        }
                        _ => None,
                    },
                    _ => None,
                };
                if let Some((pat, v)) = next_of {
                    // the iterator of the loop has a name: the contract's name for it means that one
                    self.iters.push((format!("vxit{k}"), v.to_string()));
                    let b = self.body(k, &w.body);
                    let bs = &b.stmts;
                    let it = self.item(k, &pat, &parse_quote!(match #v.next() { Some(vxn) => vxn, None => break, }));
                    *e = parse_quote!({
                        #(#pre)*
                        loop {
                            #inv
                            #(#it)*
                            #(#st)*
                            #(#bs)*
                        }
                        #(#post)*
                    });
                } else if let Expr::Let(l) = &*w.cond {
                    let pat = (*l.pat).clone();
                    let mut ex = (*l.expr).clone();
                    self.visit_expr_mut(&mut ex);
                    let b = self.body(k, &w.body);
                    let bs = &b.stmts;
                    // vxnK: a ghost name of the value matched
                    let mut it = vec![];
                    let one: Pat = parse_quote!(vxnv);
                    let lets = self.item(k, &one, &ex);
                    if lets.len() > 1 {
                        it.extend(lets.into_iter().take(2));
                        ex = parse_quote!(vxnv);
                    }
                    *e = parse_quote!({
                        #(#pre)*
                        loop {
                            #inv
                            #(#it)*
                            match #ex {
                                #pat => {
                                    #(#st)*
                                    #(#bs)*
                                }
                                _ => { break; }
                            }
                        }
                        #(#post)*
                    });
                } else {
                    let mut c = (*w.cond).clone();
                    self.visit_expr_mut(&mut c);
                    let b = self.body(k, &w.body);
                    let bs = &b.stmts;
                    *e = parse_quote!({
                        #(#pre)*
                        while #c {
                            #inv
                            #(#st)*
                            #(#bs)*
                        }
                        #(#post)*
                    });
                }
            }
            Expr::Loop(l) => {
                self.count += 1;
                let k = self.count;
                if l.label.is_some() {
                    self.problems.push("loop label".into());
                }
                let inv = self.invariant(k);
                let st = self.start(k).into_iter();
                let pre: Vec<Stmt> = self.pre(k).into_iter().chain(self.attr(k)).collect();
                let post: Vec<Stmt> = self.post(k).into_iter().collect();
                let b = self.body(k, &l.body);
                let bs = &b.stmts;
                *e = parse_quote!({
                    #(#pre)*
                    loop {
                        #inv
                        #(#st)*
                        #(#bs)*
                    }
                    #(#post)*
                });
            }
            Expr::Continue(_) => {
                if let Some(&k) = self.stack.last() {
                    if let Some(t) = self.sec("loopend", k) {
                        let lit = self.text(t);
                        *e = parse_quote!({ vxmark!(#lit); continue; });
                    }
                }
            }
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
}

fn has_break(b: &Block) -> bool {
    use syn::visit::Visit;
    struct R(bool);
    impl<'a> Visit<'a> for R {
        fn visit_expr(&mut self, e: &'a Expr) {
            match e {
                Expr::Break(_) => self.0 = true,
                Expr::Loop(_) | Expr::While(_) | Expr::ForLoop(_) | Expr::Closure(_) => {}
                _ => syn::visit::visit_expr(self, e),
            }
        }
    }
    let mut r = R(false);
    r.visit_block(b);
    r.0
}

fn rename_iter(e: &mut Expr) {
    if let Expr::MethodCall(m) = e {
        let n = m.method.to_string();
        if n == "into_iter" || n == "enumerate" {
            rename_iter(&mut m.receiver);
            m.method = format_ident!("vx_{}", n);
        }
    }
}

fn fix_patterns(e: &mut Expr) {
    struct F;
    impl VisitMut for F {
        fn visit_local_mut(&mut self, l: &mut Local) {
            visit_mut::visit_local_mut(self, l);
            if let Pat::Reference(_) = &l.pat {
                deref_pat(l);
            }
        }
    }
    F.visit_expr_mut(e);
}
