//! vx: mechanical extraction of the sqrid sources into Verus input.
//!
//! vx --src DIR --spec DIR --out FILE --report FILE [--vacuity] [--external KEY]...
mod macros;
mod names;
mod norm;
mod print;
mod spec;

use macros::Macros;
use norm::*;
use print::{squash, Printer};
use proc_macro2::TokenStream;
use quote::{quote, ToTokens};
use spec::{FnSpec, ModSpec};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit_mut::VisitMut;
use syn::*;

struct Rep {
    key: String,
    module: String,
    line0: usize,
    line1: usize,
    status: String, // verified external unspecified inlined dropped trusted decl
    reason: String,
    has_spec: bool,
    loops: usize,
}

struct Out {
    text: String,
    reps: Vec<Rep>,
    dropped: Vec<(String, String)>,
    notes: Vec<String>,
}

impl Out {
    fn line(&self) -> usize {
        self.text.matches('\n').count() + 1
    }
}

struct Opts {
    vacuity: bool,
    external: BTreeSet<String>,
    /// functions whose loops keep what is known before them
    shared: BTreeSet<String>,
    skip: BTreeSet<String>,
    names: BTreeMap<String, names::Names>,
}

/// Short name of a type: last path segment, or squashed text
fn ty_key(t: &Type) -> String {
    match t {
        Type::Path(p) if p.qself.is_none() => {
            let s = p.path.segments.last().unwrap();
            s.ident.to_string()
        }
        Type::Reference(r) => format!("&{}{}", if r.mutability.is_some() { "mut " } else { "" }, ty_key(&r.elem)),
        Type::Tuple(t) => {
            let v: Vec<String> = t.elems.iter().map(ty_key).collect();
            format!("({})", v.join(","))
        }
        t => squash(t),
    }
}

fn path_key(p: &Path) -> String {
    let s = p.segments.last().unwrap();
    match &s.arguments {
        PathArguments::None => s.ident.to_string(),
        PathArguments::AngleBracketed(a) => {
            let v: Vec<String> = a
                .args
                .iter()
                .map(|g| match g {
                    GenericArgument::Type(t) => ty_key(t),
                    g => squash(g),
                })
                .collect();
            format!("{}<{}>", s.ident, v.join(","))
        }
        a => format!("{}{}", s.ident, squash(a)),
    }
}

const DROP_TRAITS: &[&str] = &["Debug", "Display"];
const DROP_IMPLS: &[&str] = &["Debug", "Display"];

fn drop_bound(b: &TypeParamBound) -> bool {
    if let TypeParamBound::Trait(t) = b {
        let n = t.path.segments.last().unwrap().ident.to_string();
        return DROP_TRAITS.contains(&n.as_str());
    }
    false
}

fn filter_bounds(
    b: &punctuated::Punctuated<TypeParamBound, Token![+]>,
) -> punctuated::Punctuated<TypeParamBound, Token![+]> {
    b.iter().filter(|x| !drop_bound(x)).cloned().map(|mut x| {
        // Iterator<Item = T> and IntoIterator<Item = T> become the sequence iterator contract
        if let TypeParamBound::Trait(t) = &mut x {
            let s = t.path.segments.last_mut().unwrap();
            if s.ident == "Iterator" || s.ident == "IntoIterator" {
                s.ident = quote::format_ident!("SeqIter");
                let seg = s.clone();
                t.path = Path::from(seg);
            }
        }
        x
    }).collect()
}

fn fix_generics(g: &mut Generics, where_drop: &[String]) {
    for p in &mut g.params {
        match p {
            GenericParam::Type(t) => t.bounds = filter_bounds(&t.bounds),
            _ => {}
        }
    }
    if let Some(w) = &mut g.where_clause {
        let preds: Vec<WherePredicate> = w
            .predicates
            .iter()
            .cloned()
            .filter_map(|p| match p {
                WherePredicate::Type(mut t) => {
                    let sq = squash(&t);
                    if where_drop.iter().any(|d| sq.starts_with(d)) {
                        return None;
                    }
                    // Self: Sized is implied in the position used here
                    if sq == "Self:std::marker::Sized" || sq == "Self:Sized" {
                        return Some(WherePredicate::Type(t));
                    }
                    t.bounds = filter_bounds(&t.bounds);
                    if t.bounds.is_empty() {
                        None
                    } else {
                        Some(WherePredicate::Type(t))
                    }
                }
                p => Some(p),
            })
            .collect();
        // Iterator<Item = &'a X> implies X: 'a
        let mut extra: Vec<WherePredicate> = vec![];
        for p in &preds {
            if let WherePredicate::Type(t) = p {
                for b in &t.bounds {
                    if let TypeParamBound::Trait(b) = b {
                        if let Some(PathArguments::AngleBracketed(a)) = b.path.segments.last().map(|s| &s.arguments) {
                            for a in &a.args {
                                if let GenericArgument::AssocType(AssocType { ty: Type::Reference(r), .. }) = a {
                                    if let Some(l) = &r.lifetime {
                                        let el = &r.elem;
                                        extra.push(parse_quote!(#el: #l));
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
        w.predicates = preds.into_iter().chain(extra).collect();
        if w.predicates.is_empty() {
            g.where_clause = None;
        }
    }
}

fn toks(t: impl ToTokens) -> TokenStream {
    t.to_token_stream()
}

fn text_of(ts: TokenStream) -> String {
    let mut p = Printer::new(&[]);
    p.stream(ts);
    p.out.split_whitespace().collect::<Vec<_>>().join(" ")
}

fn generics_text(g: &Generics) -> (String, String) {
    // parameters (with bounds), where clause
    let mut g2 = g.clone();
    let w = g2.where_clause.take();
    let params = if g2.params.is_empty() { String::new() } else { text_of(toks(&g2)) };
    (params, w.map(|w| text_of(toks(w))).unwrap_or_default())
}

struct ItemSubst {
    item: Type,
}
impl VisitMut for ItemSubst {
    fn visit_type_mut(&mut self, t: &mut Type) {
        if squash(&*t) == "Self::Item" {
            *t = self.item.clone();
            return;
        }
        visit_mut::visit_type_mut(self, t);
    }
}

struct FnCtx<'a> {
    key: String,
    module: &'a ModSpec,
    self_ty: String,
    in_trait: bool,
    trait_impl: bool,
}

struct World<'a> {
    opts: &'a Opts,
    macros: Macros,
    consts: Consts,
    tuple_arity: Vec<usize>,
    helpers: BTreeMap<String, Helper>,
    /// functions by name: whether all of that name give a Result
    results: BTreeMap<String, bool>,
    trait_defaults: BTreeMap<String, Vec<TraitItemFn>>, // trait -> default methods copied down
    out: Out,
    names: BTreeMap<String, names::Names>,
}

impl<'a> World<'a> {
    fn saw(&mut self, owner: &str, sig: &Signature) {
        let r = norm::kind_of_type(&sig.output) == 'r';
        let n = sig.ident.to_string();
        for k in [n.clone(), format!("{owner}::{n}")] {
            let v = self.results.entry(k).or_insert(true);
            *v = *v && r;
        }
    }

    fn emit_fn(&mut self, ctx: &FnCtx, sig: &Signature, block: Option<&Block>) {
        self.emit_fn_opt(ctx, sig, block, None)
    }

    fn emit_fn_opt(&mut self, ctx: &FnCtx, sig: &Signature, block: Option<&Block>, spec_key: Option<&str>) {
        let key = ctx.key.clone();
        let spec: Option<&FnSpec> = ctx
            .module
            .fns
            .get(&key)
            .or_else(|| spec_key.and_then(|k| ctx.module.fns.get(k)));
        let reason = ctx.module.drops.get(&key);
        if let Some(r) = reason {
            self.out.dropped.push((key, r.clone()));
            return;
        }
        // the contract's names for parameters and locals are those of the code it was written for
        let renamed: Option<FnSpec> = spec.and_then(|s| {
            let now = names::of(sig, block);
            let id = format!("{} {key}", ctx.module.name);
            let m = self.opts.names.get(&id).map(|old| names::mapping(old, &now)).unwrap_or_default();
            self.names.insert(id.clone(), now.clone());
            if m.is_empty() {
                return names::optional(s, &now);
            }
            self.out.notes.push(format!("{key}: names in the contract follow the code: {m:?}"));
            let old = &self.opts.names[&id];
            if m.keys().any(|k| !old.params.contains(k)) {
                self.out.notes.push(format!("LOCALS {key}"));
            }
            let r = names::rename(s, &m, old);
            Some(names::optional(&r, &now).unwrap_or(r))
        });
        let spec = renamed.as_ref().or(spec);
        let opt = |n: &str| spec.and_then(|s| s.opts.get(n)).cloned();
        // lazily mapped or filtered results become their base and item functions
        if let (Some(kind), Some(b)) = (opt("defun"), block) {
            self.emit_defun(ctx, sig, b, &kind, spec.unwrap());
            return;
        }
        let mut sig = sig.clone();
        sig.constness = None;
        sig.unsafety = None;
        let mut wd = ctx.module.where_drop.clone();
        if let Some(w) = opt("wheredrop") {
            wd.push(w);
        }
        fix_generics(&mut sig.generics, &wd);
        let mut problems: Vec<String> = vec![];
        let mut inputs: Vec<String> = vec![];
        let mut extra_generics: Vec<String> = vec![];
        let mut pre_stmts: Vec<Stmt> = vec![];
        for (i, a) in sig.inputs.iter_mut().enumerate() {
            match a {
                FnArg::Receiver(r) => inputs.push(text_of(toks(&*r))),
                FnArg::Typed(t) => {
                    if let Type::ImplTrait(it) = &*t.ty {
                        let b = filter_bounds(&it.bounds);
                        let name = format!("VXI{i}");
                        extra_generics.push(format!("{name}: {}", text_of(toks(b))));
                        let id = quote::format_ident!("{}", name);
                        *t.ty = parse_quote!(#id);
                    }
                    if let Pat::Ident(p) = &mut *t.pat {
                        if p.mutability.is_some() {
                            p.mutability = None;
                            let id = p.ident.clone();
                            pre_stmts.push(parse_quote!(let mut #id = #id;));
                        }
                    } else if let Pat::Wild(_) = &*t.pat {
                        let id = quote::format_ident!("_vxp{}", i);
                        *t.pat = parse_quote!(#id);
                    }
                    inputs.push(text_of(toks(&*t)));
                }
            }
        }
        let (mut gtext, wtext) = generics_text(&sig.generics);
        if !extra_generics.is_empty() {
            let e = extra_generics.join(", ");
            gtext = if gtext.is_empty() {
                format!("<{e}>")
            } else {
                let inner = gtext.trim().trim_end_matches('>').trim().trim_end_matches(',').to_string();
                format!("{inner}, {e}>")
            };
        }
        let ret_ty = match (&opt("rty"), &sig.output) {
            (Some(t), _) => Some(t.clone()),
            (None, ReturnType::Type(_, t)) => Some(text_of(toks(t))),
            _ => None,
        };
        let rname = opt("ret").unwrap_or("r".into());
        let name = opt("rename").unwrap_or(sig.ident.to_string());
        let mut status = if spec.is_some() { "verified" } else { "unspecified" }.to_string();
        let mut why = String::new();
        let mut trusted = false;
        if opt("trusted").is_some() {
            status = "trusted".into();
            why = opt("trusted").unwrap();
            trusted = true;
        }
        let mut texts: Vec<String> = vec![];
        let mut body_text = String::new();
        let mut loops = 0;
        if let Some(b) = block {
            let mut b = b.clone();
            for (i, s) in pre_stmts.into_iter().enumerate() {
                b.stmts.insert(i, s);
            }
            let resolves: Vec<(String, Expr)> = spec
                .map(|s| {
                    s.sections
                        .iter()
                        .filter(|x| x.0 == "resolve")
                        .filter_map(|x| {
                            let (a, b) = x.1.split_once("=>")?;
                            Some((
                                squash(syn::parse_str::<Expr>(a).ok()?),
                                syn::parse_str::<Expr>(b.trim()).ok()?,
                            ))
                        })
                        .collect()
                })
                .unwrap_or_default();
            let results: BTreeSet<String> = self.results.iter().filter(|r| *r.1).map(|r| r.0.clone()).collect();
            let mut n = Norm {
                results: &results,
                macros: &self.macros,
                consts: &self.consts,
                helpers: &self.helpers,
                self_ty: ctx.self_ty.clone(),
                texts: &mut texts,
                panic_cond: opt("panic").unwrap_or("false".into()),
                resolves,
                problems: vec![],
                inline_depth: 0,
                eager: opt("eager"),
                locals: vec![],
            };
            n.visit_block_mut(&mut b);
            problems.append(&mut n.problems);
            let mut l = Loops { texts: &mut texts, spec, count: 0, stack: vec![], problems: vec![], iters: vec![] };
            l.visit_block_mut(&mut b);
            loops = l.count;
            problems.append(&mut l.problems);
            let iters: BTreeMap<String, String> = l.iters.into_iter().collect();
            if !iters.is_empty() {
                for t in texts.iter_mut() {
                    *t = names::idents(t, &mut |w, _| iters.get(w).cloned());
                }
            }
            let want = spec.map(|s| s.nloops()).unwrap_or(0);
            if spec.is_some() && want != loops {
                problems.push(format!("{} loops where the contract annotates {}", loops, want));
            }
            // anchors
            if let Some(s) = spec {
                for (kind, arg, text) in &s.sections {
                    if kind == "closure" {
                        let start = s.get("closurestart", arg).map(|t| {
                            texts.push(t.to_string());
                            texts.len() - 1
                        });
                        texts.push(text.clone());
                        let mut c = ClosureSpec { name: arg.trim().to_string(), n: texts.len() - 1, start, done: false };
                        c.visit_block_mut(&mut b);
                        if !c.done {
                            problems.push(format!("no closure {arg}"));
                        }
                    }
                }
                for (kind, arg, text) in &s.sections {
                    if kind == "before" || kind == "after" || kind == "before?" || kind == "after?" {
                        let pat: String = squash_text(arg);
                        let n = texts.len();
                        texts.push(text.clone());
                        let mut ins = Insert { pat, n, after: kind.starts_with("after"), done: false };
                        ins.visit_block_mut(&mut b);
                        if !ins.done && !kind.ends_with('?') {
                            problems.push(format!("no statement matches anchor {arg}"));
                        }
                    }
                }
                if let Some(t) = s.get("end", "") {
                    let n = texts.len();
                    texts.push(t.to_string());
                    let lit = proc_macro2::Literal::usize_unsuffixed(n);
                    let tail = matches!(b.stmts.last(), Some(Stmt::Expr(_, None)));
                    let unit = ret_ty.is_none();
                    if tail && !unit {
                        if let Some(Stmt::Expr(e, None)) = b.stmts.pop() {
                            let m = texts.len();
                            texts.push(format!("let {rname}: {} =", ret_ty.clone().unwrap()));
                            let mlit = proc_macro2::Literal::usize_unsuffixed(m);
                            // printed as: let r: T = <expr>;
                            b.stmts.push(parse_quote!(vxmark!(#mlit);));
                            b.stmts.push(Stmt::Expr(e, Some(Default::default())));
                            b.stmts.push(parse_quote!(vxmark!(#lit);));
                            let id = quote::format_ident!("{}", rname);
                            b.stmts.push(Stmt::Expr(parse_quote!(#id), None));
                        }
                    } else {
                        if tail {
                            if let Some(Stmt::Expr(e, None)) = b.stmts.pop() {
                                b.stmts.push(Stmt::Expr(e, Some(Default::default())));
                            }
                        }
                        b.stmts.push(parse_quote!(vxmark!(#lit);));
                    }
                }
                if let Some(t) = s.get("start", "") {
                    let n = texts.len();
                    texts.push(t.to_string());
                    let lit = proc_macro2::Literal::usize_unsuffixed(n);
                    b.stmts.insert(0, parse_quote!(vxmark!(#lit);));
                }
            }
            if !problems.is_empty() && !trusted {
                why = problems.join("; ");
                status = if spec.is_some() { "external".into() } else { "unspecified".into() };
            }
            if self.opts.external.contains(&key) && !trusted {
                status = "external".into();
                why = "rejected by the verifier front end".into();
            }
            if self.opts.skip.contains(&key) && status == "verified" {
                status = "skipped".into();
                why = "discharged by another check".into();
            }
            if self.opts.vacuity && status == "verified" && opt("novac").is_none() {
                let n = texts.len();
                texts.push("  proof { assert(false); } // VX-VACUITY".into());
                let lit = proc_macro2::Literal::usize_unsuffixed(n);
                b.stmts.insert(0, parse_quote!(vxmark!(#lit);));
            }
            let mut p = Printer::new(&texts);
            p.stream(toks(&b));
            body_text = p.out;
        } else {
            status = "decl".into();
        }
        let ext = block.is_some() && status != "verified";
        if ext && status == "unspecified" && (ctx.in_trait || ctx.trait_impl) && why.is_empty() {
            why = "no contract".into();
        }
        let line0 = self.out.line();
        let o = &mut self.out.text;
        if ext {
            // Not `external_body`: the verifier orders such functions before the definitions of
            // specification functions, and what they reach would be proved without these.
            body_text = if status == "trusted" {
                o.push_str("#[verifier::external_body]\n");
                "{ unimplemented!() }\n".into()
            } else {
                "{ assume(false); vstd::pervasive::unreached() } // VX-EXTERNAL\n".into()
            };
        }
        if !ext && self.opts.shared.contains(&key) {
            o.push_str("#[verifier::loop_isolation(false)]\n#[verifier::allow_complex_invariants]\n");
        }
        if let Some(a) = opt("attr") {
            if !ext {
                o.push_str(&format!("{a}\n"));
            }
        }
        let vis = if ctx.in_trait || ctx.trait_impl { "" } else { "pub " };
        o.push_str(&format!("{vis}fn {name}{gtext}({})", inputs.join(", ")));
        if let Some(t) = &ret_ty {
            if spec.is_some() && t != "!" {
                o.push_str(&format!(" -> ({rname}: {t})"));
            } else {
                o.push_str(&format!(" -> {t}"));
            }
        }
        o.push('\n');
        if !wtext.is_empty() {
            o.push_str(&format!("  {wtext}\n"));
        }
        if let Some(s) = spec {
            o.push_str(&s.clauses);
        }
        if block.is_some() {
            o.push_str(&body_text);
            if !o.ends_with('\n') {
                o.push('\n');
            }
        } else {
            o.push_str(";\n");
        }
        let line1 = self.out.line() - 1;
        self.out.reps.push(Rep {
            key,
            module: ctx.module.name.clone(),
            line0,
            line1,
            status,
            reason: why,
            has_spec: spec.is_some(),
            loops,
        });
    }

    /// `BASE.map(|p| E)` / `BASE.filter(|p| E)` returned lazily
    fn emit_defun(&mut self, ctx: &FnCtx, sig: &Signature, b: &Block, kind: &str, _spec: &FnSpec) {
        // kind: "BASETYPE ; ITEMTYPE ; RETTYPE"
        let parts: Vec<&str> = kind.split('|').map(|s| s.trim()).collect();
        let want = parts[0];
        let ok = (|| -> Option<(Expr, Pat, Expr)> {
            if b.stmts.len() != 1 {
                return None;
            }
            let Stmt::Expr(Expr::MethodCall(m), None) = &b.stmts[0] else { return None };
            if m.method != want || m.args.len() != 1 {
                return None;
            }
            let Expr::Closure(c) = &m.args[0] else { return None };
            if c.inputs.len() != 1 {
                return None;
            }
            Some(((*m.receiver).clone(), c.inputs[0].clone(), (*c.body).clone()))
        })();
        let Some((base, pat, body)) = ok else {
            self.out.reps.push(Rep {
                key: ctx.key.clone(),
                module: ctx.module.name.clone(),
                line0: 0,
                line1: 0,
                status: "external".into(),
                reason: format!("not of the form BASE.{want}(closure)"),
                has_spec: true,
                loops: 0,
            });
            return;
        };
        let mut s1 = sig.clone();
        let bt: Type = syn::parse_str(parts[1]).unwrap();
        let it: Type = syn::parse_str(parts[2]).unwrap();
        let rt: Type = syn::parse_str(parts[3]).unwrap();
        s1.inputs = Default::default();
        s1.ident = quote::format_ident!("{}__base", sig.ident);
        s1.output = parse_quote!(-> #bt);
        let b1: Block = parse_quote!({ #base });
        let mut s2 = sig.clone();
        s2.ident = quote::format_ident!("{}__item", sig.ident);
        s2.output = parse_quote!(-> #rt);
        let arg: FnArg = parse_quote!(vxn: #it);
        s2.inputs.push(arg);
        let b2: Block = parse_quote!({ let #pat = vxn; #body });
        for (suffix, s, b) in [("__base", s1, b1), ("__item", s2, b2)] {
            let c = FnCtx { key: format!("{}{}", ctx.key, suffix), module: ctx.module, self_ty: ctx.self_ty.clone(), in_trait: ctx.in_trait, trait_impl: ctx.trait_impl };
            self.emit_fn(&c, &s, Some(&b));
        }
    }

    fn emit_items(&mut self, m: &ModSpec, items: &[Item]) {
        for it in items {
            self.emit_item(m, it);
        }
    }

    fn emit_const(&mut self, m: &ModSpec, owner: &str, key: String, id: &Ident, ty: &Type, expr: Option<&Expr>, in_trait: bool, trait_impl: bool) {
        if id.to_string().starts_with("_ASSERT") {
            self.out.notes.push(format!("{key}: compile-time assertion, assumed where it is instantiated"));
            return;
        }
        let isfn = in_trait || trait_impl || self.consts.fns.get(owner).map_or(false, |s| s.contains(&id.to_string()));
        if !isfn {
            let t = text_of(toks(ty));
            let e = expr.map(|e| text_of(toks(e))).unwrap_or_default();
            if let Some(r) = m.drops.get(&key) {
                self.out.dropped.push((key, r.clone()));
                return;
            }
            self.out.text.push_str(&format!("pub const {id}: {t} = {e};\n"));
            return;
        }
        let sig: Signature = parse_quote!(fn #id() -> #ty);
        let b: Option<Block> = expr.map(|e| parse_quote!({ #e }));
        let ctx = FnCtx { key, module: m, self_ty: owner.to_string(), in_trait, trait_impl };
        self.emit_fn(&ctx, &sig, b.as_ref());
    }

    fn emit_item(&mut self, m: &ModSpec, it: &Item) {
        match it {
            Item::Use(u) => {
                let s = squash(u);
                if s.contains("fmt") || s.contains("error;") || s.contains("std::iter") {
                    return;
                }
                self.out.text.push_str(&format!("#[allow(unused_imports)] {}\n", text_of(toks(u)).replace("pub (crate) ", "")));
            }
            Item::Macro(mac) => {
                if let Some(n) = &mac.ident {
                    self.macros.define(&n.to_string(), mac.mac.tokens.clone());
                    return;
                }
                let name = mac.mac.path.segments.last().unwrap().ident.to_string();
                match self.macros.expand(&name, mac.mac.tokens.clone()) {
                    Ok(ts) => match syn::parse2::<File>(ts).map(mark_cfg) {
                        Ok(f) => self.emit_items(m, &f.items),
                        Err(e) => self.out.notes.push(format!("macro {name}: {e}")),
                    },
                    Err(e) => self.out.notes.push(e),
                }
            }
            Item::Type(t) => {
                let mut t = t.clone();
                t.attrs.clear();
                t.vis = parse_quote!(pub);
                self.out.text.push_str(&format!("{}\n", text_of(toks(t))));
            }
            Item::Struct(s) => {
                let derives = derives_of(&s.attrs);
                let mut s = s.clone();
                s.attrs.clear();
                s.vis = parse_quote!(pub);
                for f in s.fields.iter_mut() {
                    f.attrs.clear();
                    f.vis = parse_quote!(pub);
                }
                fix_generics(&mut s.generics, &m.where_drop);
                self.type_decl(m, &s.ident.to_string(), &derives, toks(&s));
                let n = s.fields.len();
                let names: Vec<String> = s
                    .fields
                    .iter()
                    .enumerate()
                    .map(|(i, f)| f.ident.as_ref().map(|i| i.to_string()).unwrap_or(i.to_string()))
                    .collect();
                let phantom: Vec<bool> = s.fields.iter().map(|f| squash(&f.ty).contains("PhantomData")).collect();
                let _ = n;
                let named = matches!(s.fields, Fields::Named(_));
                self.tuple_arity = s
                    .fields
                    .iter()
                    .map(|f| if let Type::Tuple(t) = &f.ty { t.elems.len() } else { 0 })
                    .collect();
                self.derived_impls(m, &s.ident, &s.generics, &derives, Shape::Struct(names, phantom, named));
            }
            Item::Enum(e) => {
                let derives = derives_of(&e.attrs);
                let default = e
                    .variants
                    .iter()
                    .find(|v| v.attrs.iter().any(|a| a.path().is_ident("default")))
                    .map(|v| v.ident.to_string());
                let mut e = e.clone();
                e.attrs.clear();
                e.vis = parse_quote!(pub);
                for v in e.variants.iter_mut() {
                    v.attrs.clear();
                }
                self.type_decl(m, &e.ident.to_string(), &derives, toks(&e));
                self.derived_impls(m, &e.ident, &e.generics, &derives, Shape::Enum(default));
            }
            Item::Fn(f) => {
                let ctx = FnCtx { key: f.sig.ident.to_string(), module: m, self_ty: String::new(), in_trait: false, trait_impl: false };
                if is_cfg_test(&f.attrs) {
                    return;
                }
                if self.helpers.contains_key(&ctx.key) {
                    self.note_helper(m, &ctx.key);
                    return;
                }
                self.emit_fn(&ctx, &f.sig, Some(&f.block));
            }
            Item::Const(c) => {
                self.out.text.push_str(&format!("pub const {}: {} = {};\n", c.ident, text_of(toks(&c.ty)), text_of(toks(&c.expr))));
            }
            Item::Trait(t) => self.emit_trait(m, t),
            Item::Impl(i) => self.emit_impl(m, i),
            Item::Mod(md) => {
                if !is_cfg_test(&md.attrs) {
                    self.out.notes.push(format!("module {} not extracted", md.ident));
                }
            }
            other => self.out.notes.push(format!("item not extracted: {}", squash(other).chars().take(60).collect::<String>())),
        }
    }

    fn note_helper(&mut self, m: &ModSpec, key: &str) {
        self.out.reps.push(Rep {
            key: key.to_string(),
            module: m.name.clone(),
            line0: 0,
            line1: 0,
            status: "inlined".into(),
            reason: "no contract: inlined at its calls".into(),
            has_spec: false,
            loops: 0,
        });
    }

    fn type_decl(&mut self, m: &ModSpec, name: &str, derives: &[String], ts: TokenStream) {
        if let Some(r) = m.drops.get(name) {
            self.out.dropped.push((name.to_string(), r.clone()));
            return;
        }
        let keep: Vec<&String> = derives.iter().filter(|d| ["Clone", "Copy"].contains(&d.as_str())).collect();
        let nocopy = m.attrs.get(&format!("{name} noderive")).is_some();
        if let Some(a) = m.attrs.get(name) {
            self.out.text.push_str(&format!("{a}\n"));
        }
        if !keep.is_empty() && !nocopy {
            self.out.text.push_str(&format!(
                "#[derive({})]\n",
                keep.iter().map(|s| s.as_str()).collect::<Vec<_>>().join(", ")
            ));
        }
        let mut p = Printer::new(&[]);
        p.stream(ts);
        self.out.text.push_str(&p.out);
        if !self.out.text.ends_with('\n') {
            self.out.text.push('\n');
        }
    }

    fn derived_impls(&mut self, m: &ModSpec, id: &Ident, g: &Generics, derives: &[String], shape: Shape) {
        let Some(want) = m.derives.get(&id.to_string()) else { return };
        let (ig, tg, wc) = g.split_for_impl();
        for d in want {
            if !derives.contains(d) {
                continue; // implemented by hand, or absent
            }
            let fields: Vec<(Member, bool)> = match &shape {
                Shape::Struct(names, ph, _) => names
                    .iter()
                    .zip(ph)
                    .map(|(n, p)| {
                        let mem: Member = match n.parse::<u32>() {
                            Ok(i) => Member::Unnamed(Index { index: i, span: proc_macro2::Span::call_site() }),
                            _ => Member::Named(quote::format_ident!("{}", n)),
                        };
                        (mem, *p)
                    })
                    .collect(),
                _ => vec![],
            };
            // comparison of a tuple field is the lexicographic comparison of its components
            let arity = self.tuple_arity.clone();
            let data: Vec<TokenStream> = fields
                .iter()
                .enumerate()
                .filter(|f| !f.1 .1)
                .flat_map(|(k, f)| {
                    let mem = &f.0;
                    match arity.get(k) {
                        Some(n) if *n > 0 => (0..*n)
                            .map(|j| {
                                let j = Index::from(j);
                                quote::quote!(#mem.#j)
                            })
                            .collect::<Vec<_>>(),
                        _ => vec![quote::quote!(#mem)],
                    }
                })
                .collect();
            let isenum = matches!(shape, Shape::Enum(_));
            let imp: Option<ItemImpl> = match d.as_str() {
                "PartialEq" => {
                    let e: Expr = if isenum {
                        parse_quote!((*self as isize) == (*other as isize))
                    } else {
                        let mut e: Expr = parse_quote!(true);
                        for (k, f) in data.iter().enumerate() {
                            e = if k == 0 { parse_quote!(self.#f == other.#f) } else { parse_quote!(#e && self.#f == other.#f) };
                        }
                        e
                    };
                    Some(parse_quote!(impl #ig PartialEq for #id #tg #wc { fn eq(&self, other: &Self) -> bool { #e } }))
                }
                "Eq" => Some(parse_quote!(impl #ig Eq for #id #tg #wc { })),
                "PartialOrd" => {
                    // fields in order: the first that is not Equal decides
                    let mut e: Expr = parse_quote!(Some(core::cmp::Ordering::Equal));
                    if isenum {
                        e = parse_quote!(PartialOrd::partial_cmp(&(*self as isize), &(*other as isize)));
                    } else {
                        for (k, f) in data.iter().enumerate().rev() {
                            e = if k + 1 == data.len() {
                                parse_quote!(PartialOrd::partial_cmp(&self.#f, &other.#f))
                            } else {
                                parse_quote!(match PartialOrd::partial_cmp(&self.#f, &other.#f) { Some(core::cmp::Ordering::Equal) => #e, vxc => vxc, })
                            };
                        }
                    }
                    Some(parse_quote!(impl #ig PartialOrd for #id #tg #wc { fn partial_cmp(&self, other: &Self) -> Option<core::cmp::Ordering> { #e } }))
                }
                "Ord" => {
                    let mut e: Expr = parse_quote!(core::cmp::Ordering::Equal);
                    if isenum {
                        e = parse_quote!(Ord::cmp(&(*self as isize), &(*other as isize)));
                    } else {
                        for (k, f) in data.iter().enumerate().rev() {
                            e = if k + 1 == data.len() {
                                parse_quote!(Ord::cmp(&self.#f, &other.#f))
                            } else {
                                parse_quote!(match Ord::cmp(&self.#f, &other.#f) { core::cmp::Ordering::Equal => #e, vxc => vxc, })
                            };
                        }
                    }
                    Some(parse_quote!(impl #ig Ord for #id #tg #wc { fn cmp(&self, other: &Self) -> core::cmp::Ordering { #e } }))
                }
                "Default" => {
                    let e: Expr = match &shape {
                        Shape::Enum(Some(v)) => {
                            let v = quote::format_ident!("{}", v);
                            parse_quote!(#id::#v)
                        }
                        Shape::Enum(None) => continue,
                        Shape::Struct(_, _, true) => {
                            let fs = fields.iter().map(|f| f.0.clone());
                            parse_quote!(#id { #(#fs: Default::default()),* })
                        }
                        Shape::Struct(_, _, false) => {
                            let fs = fields.iter().enumerate().map(|(k, _)| -> Expr {
                                match arity.get(k) {
                                    Some(n) if *n > 0 => {
                                        let ds = (0..*n).map(|_| -> Expr { parse_quote!(Default::default()) });
                                        parse_quote!((#(#ds),*))
                                    }
                                    _ => parse_quote!(Default::default()),
                                }
                            });
                            parse_quote!(#id(#(#fs),*))
                        }
                    };
                    Some(parse_quote!(impl #ig Default for #id #tg #wc { fn default() -> Self { #e } }))
                }
                _ => None,
            };
            if let Some(i) = imp {
                self.emit_impl(m, &i);
            }
        }
    }

    fn emit_trait(&mut self, m: &ModSpec, t: &ItemTrait) {
        let name = t.ident.to_string();
        let mut g = t.generics.clone();
        fix_generics(&mut g, &m.where_drop);
        let (gt, wt) = generics_text(&g);
        let sup = filter_bounds(&t.supertraits);
        let drops: Vec<String> = m
            .attrs
            .get(&format!("trait {name} dropsuper"))
            .map(|s| s.split_whitespace().map(|x| x.to_string()).collect())
            .unwrap_or_default();
        let sup: punctuated::Punctuated<TypeParamBound, Token![+]> =
            sup.into_iter().filter(|b| !drops.contains(&squash(b))).collect();
        // a declaration returning `Self` gets a contract that mentions the value, which the
        // verifier only takes for sized types; implementations for unsized types cannot exist
        // then either, as Rust checks `Self: Sized` at each implementation returning `Self`
        let mut sup = sup;
        let by_value = t.items.iter().any(|ti| matches!(ti, TraitItem::Fn(f) if matches!(&f.sig.output, ReturnType::Type(_, ty) if squash(ty) == "Self")));
        if by_value && !sup.iter().any(|b| squash(b) == "Sized") {
            sup.push(parse_quote!(Sized));
        }
        let st = if sup.is_empty() { String::new() } else { format!(": {}", text_of(toks(&sup))) };
        self.out.text.push_str(&format!("pub trait {name}{gt}{st}\n  {wt}\n{{\n"));
        for ti in &t.items {
            if let TraitItem::Type(tt) = ti {
                let mut tt = tt.clone();
                tt.attrs.clear();
                self.out.text.push_str(&format!("{}\n", text_of(toks(tt))));
            }
        }
        if let Some(gh) = m.ghost.get(&format!("trait {name}")) {
            self.out.text.push_str(gh);
        }
        for ti in &t.items {
            match ti {
                TraitItem::Const(c) => {
                    let key = format!("trait {name}::{}", c.ident);
                    self.emit_const(m, &name, key, &c.ident, &c.ty, c.default.as_ref().map(|d| &d.1), true, false);
                }
                TraitItem::Fn(f) => {
                    let key = format!("trait {name}::{}", f.sig.ident);
                    if m.ext.contains(&format!("{name}::{}", f.sig.ident)) {
                        continue;
                    }
                    let cd = m.copydown.contains(&format!("{name}::{}", f.sig.ident));
                    let ctx = FnCtx { key, module: m, self_ty: name.clone(), in_trait: true, trait_impl: false };
                    if self.helpers.contains_key(&format!("{name}::{}", f.sig.ident)) {
                        self.note_helper(m, &format!("trait {name}::{}", f.sig.ident));
                        continue;
                    }
                    if cd && f.default.is_some() {
                        self.trait_defaults.entry(name.clone()).or_default().push(f.clone());
                        let mut sig = f.sig.clone();
                        strip_mut(&mut sig);
                        self.emit_fn(&ctx, &sig, None);
                    } else {
                        self.emit_fn(&ctx, &f.sig, f.default.as_ref());
                    }
                }
                _ => {}
            }
        }
        self.out.text.push_str("}\n");
        // default methods that mention types bounded by the trait move to an extension trait
        // with a blanket implementation (no implementation may override them)
        if m.ext.iter().any(|e| e.starts_with(&format!("{name}::"))) {
            let args = if g.params.is_empty() {
                String::new()
            } else {
                let v: Vec<String> = g.params.iter().map(|p| match p {
                    GenericParam::Type(t) => t.ident.to_string(),
                    GenericParam::Const(c) => c.ident.to_string(),
                    GenericParam::Lifetime(l) => l.lifetime.to_string(),
                }).collect();
                format!("<{}>", v.join(", "))
            };
            self.out.text.push_str(&format!("pub trait {name}Ext{gt}: {name}{args} {wt} {{\n"));
            for ti in &t.items {
                if let TraitItem::Fn(f) = ti {
                    if m.ext.contains(&format!("{name}::{}", f.sig.ident)) {
                        let key = format!("trait {name}::{}", f.sig.ident);
                        let ctx = FnCtx { key, module: m, self_ty: name.clone(), in_trait: true, trait_impl: false };
                        self.emit_fn(&ctx, &f.sig, f.default.as_ref());
                    }
                }
            }
            let inner = gt.trim().trim_start_matches('<').trim_end_matches('>').to_string();
            let sep = if inner.is_empty() { "" } else { ", " };
            self.out.text.push_str(&format!("}}\nimpl<VXS: {name}{args}{sep}{inner}> {name}Ext{args} for VXS {wt} {{}}\n"));
        }
    }

    fn emit_impl(&mut self, m: &ModSpec, i: &ItemImpl) {
        if is_cfg_test(&i.attrs) {
            return;
        }
        let sk = ty_key(&i.self_ty);
        let mut g = i.generics.clone();
        fix_generics(&mut g, &m.where_drop);
        let (gt, wt) = generics_text(&g);
        let selft = text_of(toks(&i.self_ty));
        let Some((_, tr, _)) = &i.trait_ else {
            // inherent
            self.out.text.push_str(&format!("impl{gt} {selft}\n  {wt}\n{{\n"));
            if let Some(gh) = m.ghost.get(&format!("impl {sk}")) {
                // only in the first inherent block of the type
                let marker = format!("/*ghost {sk}*/");
                if !self.out.text.contains(&marker) {
                    self.out.text.push_str(&marker);
                    self.out.text.push_str(gh);
                }
            }
            let items = self.expand_impl_items(&i.items);
            for ii in &items {
                match ii {
                    ImplItem::Const(c) => {
                        let key = format!("{sk}::{}", c.ident);
                        self.emit_const(m, &sk, key, &c.ident, &c.ty, Some(&c.expr), false, false);
                    }
                    ImplItem::Fn(f) => {
                        let key = format!("{sk}::{}", f.sig.ident);
                        if self.helpers.contains_key(&key) {
                            self.note_helper(m, &key);
                            continue;
                        }
                        let ctx = FnCtx { key, module: m, self_ty: sk.clone(), in_trait: false, trait_impl: false };
                        self.emit_fn(&ctx, &f.sig, Some(&f.block));
                    }
                    _ => {}
                }
            }
            self.out.text.push_str("}\n");
            return;
        };
        let tk = path_key(tr);
        let tname = tr.segments.last().unwrap().ident.to_string();
        let ik = format!("<{sk} as {tk}>");
        if (DROP_IMPLS.contains(&tname.as_str()) && !m.inherent.contains_key(&ik)) || (tname == "Error" && squash(tr).contains("error::")) {
            self.out.dropped.push((ik, "text formatting or error marker".into()));
            return;
        }
        if let Some(r) = m.drops.get(&ik) {
            self.out.dropped.push((ik, r.clone()));
            return;
        }
        let is_iter = tname == "Iterator" || tname == "DoubleEndedIterator";
        let inherent = is_iter || m.inherent.contains_key(&ik);
        let wextra = m.inherent.get(&ik).cloned().unwrap_or_default();
        let _ = wextra;
        let mut item_ty: Option<Type> = None;
        for ii in &i.items {
            if let ImplItem::Type(t) = ii {
                if t.ident == "Item" {
                    item_ty = Some(t.ty.clone());
                }
            }
        }
        let stripped: ItemImpl;
        let mut i = i;
        if inherent {
            if is_iter && item_ty.is_none() {
                if let Some(t) = self.consts_item(&sk) {
                    item_ty = Some(t);
                }
            }
            if let (true, Some(t)) = (is_iter, &item_ty) {
                self.set_item(&sk, t.clone());
            }
            // type parameters the type does not mention become those of the functions
            let selfs = squash(&i.self_ty);
            let free = |p: &GenericParam| matches!(p, GenericParam::Type(t) if !selfs.split(|c: char| !(c.is_alphanumeric() || c == '_')).any(|w| t.ident == w));
            if i.generics.params.iter().any(free) {
                let mut g = i.generics.clone();
                let moved: Vec<GenericParam> = g.params.iter().filter(|p| free(p)).cloned().collect();
                g.params = g.params.into_iter().filter(|p| !free(p)).collect();
                let w = g.where_clause.take();
                let items: Vec<ImplItem> = i.items.iter().cloned().map(|ii| match ii {
                    ImplItem::Fn(mut f) => {
                        f.sig.generics.params.extend(moved.clone());
                        if let Some(w) = &w {
                            f.sig.generics.make_where_clause().predicates.extend(w.predicates.clone());
                        }
                        ImplItem::Fn(f)
                    }
                    ii => ii,
                }).collect();
                stripped = ItemImpl { generics: g.clone(), items, ..i.clone() };
                i = &stripped;
                let gt = text_of(toks(&g));
                self.out.text.push_str(&format!("impl{gt} {selft}\n{{\n"));
            } else {
                self.out.text.push_str(&format!("impl{gt} {selft}\n  {wt}\n{{\n"));
            }
        } else {
            let trt = text_of(toks(tr));
            self.out.text.push_str(&format!("impl{gt} {trt} for {selft}\n  {wt}\n{{\n"));
            for ii in &i.items {
                if let ImplItem::Type(t) = ii {
                    let mut t = t.clone();
                    t.attrs.clear();
                    self.out.text.push_str(&format!("{}\n", text_of(toks(t))));
                }
            }
        }
        if let Some(gh) = m.ghost.get(&format!("impl {ik}")) {
            self.out.text.push_str(gh);
        }
        let mut have: BTreeSet<String> = BTreeSet::new();
        let items = self.expand_impl_items(&i.items);
        for ii in &items {
            match ii {
                ImplItem::Const(c) => {
                    have.insert(c.ident.to_string());
                    let key = format!("{ik}::{}", c.ident);
                    self.emit_const(m, &sk, key, &c.ident, &c.ty, Some(&c.expr), false, true);
                }
                ImplItem::Fn(f) => {
                    have.insert(f.sig.ident.to_string());
                    let mut f = f.clone();
                    if m.ext.contains(&format!("{tname}::{}", f.sig.ident)) {
                        continue;
                    }
                    if let Some(t) = &item_ty {
                        ItemSubst { item: t.clone() }.visit_impl_item_fn_mut(&mut f);
                    }
                    if inherent {
                        // other associated types
                        for ii in &i.items {
                            if let ImplItem::Type(t) = ii {
                                AssocSubst { name: t.ident.to_string(), to: t.ty.clone() }.visit_impl_item_fn_mut(&mut f);
                            }
                        }
                    }
                    let key = format!("{ik}::{}", f.sig.ident);
                    let ctx = FnCtx { key, module: m, self_ty: sk.clone(), in_trait: false, trait_impl: !inherent };
                    self.emit_fn(&ctx, &f.sig, Some(&f.block));
                }
                _ => {}
            }
        }
        for h in &have {
            if m.ext.contains(&format!("{tname}::{h}")) {
                self.out.notes.push(format!("OVERRIDE {ik}::{h} overrides a method moved to an extension trait"));
            }
        }
        // default methods copied down
        if let Some(v) = self.trait_defaults.get(&tname).cloned() {
            for f in v {
                if have.contains(&f.sig.ident.to_string()) {
                    continue;
                }
                let key = format!("{ik}::{}", f.sig.ident);
                let tmpl = format!("copydown {tname}::{}", f.sig.ident);
                let ctx = FnCtx { key, module: m, self_ty: sk.clone(), in_trait: false, trait_impl: true };
                self.emit_fn_opt(&ctx, &f.sig, f.default.as_ref(), Some(&tmpl));
            }
        }
        self.out.text.push_str("}\n");
    }

    fn consts_item(&self, sk: &str) -> Option<Type> {
        let s = self.consts.asserts.get("#item")?.get(sk)?;
        syn::parse_str(s).ok()
    }
    fn set_item(&mut self, sk: &str, t: Type) {
        self.consts.asserts.entry("#item".into()).or_default().insert(sk.to_string(), text_of(toks(t)));
    }

    fn expand_impl_items(&self, items: &[ImplItem]) -> Vec<ImplItem> {
        expand_impl_items(&self.macros, items)
    }
}

fn expand_impl_items(macros: &Macros, items: &[ImplItem]) -> Vec<ImplItem> {
    let mut v = vec![];
    for it in items {
        if let ImplItem::Macro(mm) = it {
            let name = mm.mac.path.segments.last().unwrap().ident.to_string();
            if let Ok(ts) = macros.expand(&name, mm.mac.tokens.clone()) {
                if let Ok(i) = syn::parse2::<ItemImpl>(quote!(impl X { #ts })) {
                    v.extend(expand_impl_items(macros, &i.items));
                    continue;
                }
            }
        }
        v.push(it.clone());
    }
    v
}

struct AssocSubst {
    name: String,
    to: Type,
}
impl VisitMut for AssocSubst {
    fn visit_type_mut(&mut self, t: &mut Type) {
        if squash(&*t) == format!("Self::{}", self.name) {
            *t = self.to.clone();
            return;
        }
        visit_mut::visit_type_mut(self, t);
    }
}

enum Shape {
    Struct(Vec<String>, Vec<bool>, bool),
    Enum(Option<String>),
}

fn strip_mut(sig: &mut Signature) {
    for a in sig.inputs.iter_mut() {
        if let FnArg::Typed(t) = a {
            if let Pat::Ident(p) = &mut *t.pat {
                p.mutability = None;
            }
        }
    }
}

fn is_cfg_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| squash(a) == "#[cfg(test)]")
}

/// What is compiled only under some setting is not read: the functions concerned are set aside.
fn mark_cfg(mut f: File) -> File {
    fn cond(t: &str) -> bool {
        let t = t.replace("#[cfg(test)]", "");
        t.contains("#[cfg(") || t.contains("#[cfg_attr(")
    }
    struct C(bool);
    impl VisitMut for C {
        fn visit_item_fn_mut(&mut self, f: &mut ItemFn) {
            if self.0 || cond(&squash(&*f)) {
                f.block.stmts.insert(0, parse_quote!(conditional_compilation!();));
            }
        }
        fn visit_impl_item_fn_mut(&mut self, f: &mut ImplItemFn) {
            if self.0 || cond(&squash(&*f)) {
                f.block.stmts.insert(0, parse_quote!(conditional_compilation!();));
            }
        }
        fn visit_trait_item_fn_mut(&mut self, f: &mut TraitItemFn) {
            if self.0 || cond(&squash(&*f)) {
                if let Some(b) = &mut f.default {
                    b.stmts.insert(0, parse_quote!(conditional_compilation!();));
                }
            }
        }
        fn visit_item_impl_mut(&mut self, i: &mut ItemImpl) {
            let was = self.0;
            self.0 |= i.attrs.iter().any(|a| cond(&squash(a)));
            visit_mut::visit_item_impl_mut(self, i);
            self.0 = was;
        }
        fn visit_item_mod_mut(&mut self, _: &mut ItemMod) {}
    }
    C(false).visit_file_mut(&mut f);
    f
}

fn derives_of(attrs: &[Attribute]) -> Vec<String> {
    let mut v = vec![];
    for a in attrs {
        if a.path().is_ident("derive") {
            let _ = a.parse_nested_meta(|m| {
                v.push(m.path.segments.last().unwrap().ident.to_string());
                Ok(())
            });
        }
    }
    v
}

fn squash_text(s: &str) -> String {
    match s.parse::<TokenStream>() {
        Ok(t) => squash(t),
        Err(_) => s.split_whitespace().collect(),
    }
}

/// The contract of a closure bound to a name
struct ClosureSpec {
    name: String,
    n: usize,
    start: Option<usize>,
    done: bool,
}
impl VisitMut for ClosureSpec {
    fn visit_local_mut(&mut self, l: &mut Local) {
        let Pat::Ident(id) = &l.pat else { return };
        if id.ident != self.name {
            return;
        }
        let Some(i) = &mut l.init else { return };
        let Expr::Closure(c) = &mut *i.expr else { return };
        let lit = proc_macro2::Literal::usize_unsuffixed(self.n);
        c.output = parse_quote!(-> vxinline!(#lit));
        let body = &c.body;
        let stmts: Vec<Stmt> = match &**body {
            Expr::Block(b) => b.block.stmts.clone(),
            e => vec![Stmt::Expr(e.clone(), None)],
        };
        let st: Option<Stmt> = self.start.map(|n| {
            let lit = proc_macro2::Literal::usize_unsuffixed(n);
            parse_quote!(vxmark!(#lit);)
        });
        let st = st.into_iter();
        c.body = parse_quote!({ #(#st)* #(#stmts)* });
        self.done = true;
    }
}

/// Insert a marker before or after the innermost statement that contains the pattern
struct Insert {
    pat: String,
    n: usize,
    after: bool,
    done: bool,
}
impl VisitMut for Insert {
    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
        if self.done {
            return;
        }
        for i in 0..b.stmts.len() {
            if squash(&b.stmts[i]).contains(&self.pat) {
                let lit = proc_macro2::Literal::usize_unsuffixed(self.n);
                let at = if self.after { i + 1 } else { i };
                if self.after {
                    // a tail expression cannot be followed
                    if i + 1 == b.stmts.len() {
                        if let Stmt::Expr(e, None) = b.stmts[i].clone() {
                            if !matches!(e, Expr::If(_) | Expr::Block(_) | Expr::Match(_) | Expr::While(_) | Expr::Loop(_)) {
                                return;
                            }
                            b.stmts[i] = Stmt::Expr(e, Some(Default::default()));
                        }
                    }
                }
                b.stmts.insert(at, parse_quote!(vxmark!(#lit);));
                self.done = true;
                return;
            }
        }
    }
}

/// First pass: macros, constants and helper functions
fn collect(w: &mut World, m: &ModSpec, items: &[Item], traits: &BTreeSet<String>) {
    for it in items {
        match it {
            Item::Macro(mac) => {
                if let Some(n) = &mac.ident {
                    w.macros.define(&n.to_string(), mac.mac.tokens.clone());
                } else {
                    let name = mac.mac.path.segments.last().unwrap().ident.to_string();
                    if let Ok(ts) = w.macros.expand(&name, mac.mac.tokens.clone()) {
                        if let Ok(f) = syn::parse2::<File>(ts).map(mark_cfg) {
                            collect(w, m, &f.items, traits);
                        }
                    }
                }
            }
            Item::Fn(f) => {
                if is_cfg_test(&f.attrs) {
                    continue;
                }
                let k = f.sig.ident.to_string();
                w.saw("", &f.sig);
                if !m.fns.contains_key(&k) && !m.drops.contains_key(&k) {
                    w.helpers.insert(k, Helper { owner: None, sig: f.sig.clone(), block: (*f.block).clone() });
                }
            }
            Item::Trait(t) => {
                let name = t.ident.to_string();
                for ti in &t.items {
                    match ti {
                        TraitItem::Const(c) => {
                            w.consts.fns.entry("*".into()).or_default().insert(c.ident.to_string());
                            w.consts.trait_of.insert(c.ident.to_string(), name.clone());
                        }
                        TraitItem::Fn(f) => {
                            let k = format!("trait {name}::{}", f.sig.ident);
                            w.saw(&name, &f.sig);
                            if let Some(b) = &f.default {
                                if !m.fns.contains_key(&k) && !m.drops.contains_key(&k) {
                                    w.helpers.insert(
                                        format!("{name}::{}", f.sig.ident),
                                        Helper { owner: Some(name.clone()), sig: f.sig.clone(), block: b.clone() },
                                    );
                                }
                            }
                        }
                        _ => {}
                    }
                }
            }
            Item::Impl(i) => {
                let sk = ty_key(&i.self_ty);
                let items = expand_impl_items(&w.macros, &i.items);
                for ii in &items {
                    match ii {
                        ImplItem::Const(c) => {
                            let n = c.ident.to_string();
                            if n.starts_with("_ASSERT") {
                                // 0 - !COND as usize
                                if let Expr::Binary(b) = &c.expr {
                                    let mut r = (*b.right).clone();
                                    if let Expr::Cast(cc) = r {
                                        r = *cc.expr;
                                    }
                                    if let Expr::Unary(u) = r {
                                        let mut t = squash(&u.expr);
                                        t = t.replace("P::WIDTH", "P::sw()").replace("P::HEIGHT", "P::sh()");
                                        w.consts.asserts.entry(sk.clone()).or_default().insert(n, t);
                                    }
                                }
                                continue;
                            }
                            if i.trait_.is_some() {
                                continue;
                            }
                            let lit = matches!(&c.expr, Expr::Lit(_))
                                || matches!(&c.ty, Type::Array(_))
                                || (matches!(&c.ty, Type::Path(p) if p.path.get_ident().map_or(false, |i| PRIMS.contains(&i.to_string().as_str())))
                                    && !m.fns.contains_key(&format!("{sk}::{n}")));
                            if lit && !m.fns.contains_key(&format!("{sk}::{n}")) {
                                w.consts.kept.entry(sk.clone()).or_default().insert(n);
                            } else {
                                w.consts.fns.entry(sk.clone()).or_default().insert(n);
                            }
                        }
                        ImplItem::Fn(f) if i.trait_.is_none() => {
                            let k = format!("{sk}::{}", f.sig.ident);
                            w.saw(&sk, &f.sig);
                            if !m.fns.contains_key(&k) && !m.drops.contains_key(&k) {
                                w.helpers.insert(
                                    k,
                                    Helper { owner: Some(sk.clone()), sig: f.sig.clone(), block: f.block.clone() },
                                );
                            }
                        }
                        _ => {}
                    }
                }
            }
            _ => {}
        }
    }
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => {}
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// The names after a `.` or `::` in a source file
fn calls(text: &str) -> Vec<String> {
    let mut r = vec![];
    for part in text.split(['.', ':']).skip(1) {
        let n: String = part.trim_start().chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect();
        if !n.is_empty() {
            r.push(n);
        }
    }
    r
}

/// Leaves out the parts `// VX-IF a|b` .. `// VX-FI` about functions the sources do not name
fn only_called(text: &str, called: &BTreeSet<String>) -> String {
    let mut r = String::new();
    let mut on = true;
    for l in text.lines() {
        if let Some(ns) = l.trim().strip_prefix("// VX-IF ") {
            on = ns.split('|').any(|n| called.contains(n.trim()));
        } else if l.trim() == "// VX-FI" {
            on = true;
        } else if on {
            r.push_str(l);
            r.push('\n');
        }
    }
    r
}

fn main() {
    let mut src = String::new();
    let mut specdir = String::new();
    let mut outp = String::new();
    let mut report = String::new();
    let mut opts = Opts { vacuity: false, external: BTreeSet::new(), skip: BTreeSet::new(), shared: BTreeSet::new(), names: BTreeMap::new() };
    let mut names_out = None;
    let mut only: Option<BTreeSet<String>> = None;
    let mut args = std::env::args().skip(1);
    while let Some(a) = args.next() {
        match a.as_str() {
            "--src" => src = args.next().unwrap(),
            "--spec" => specdir = args.next().unwrap(),
            "--out" => outp = args.next().unwrap(),
            "--report" => report = args.next().unwrap(),
            "--names-out" => names_out = args.next(),
            "--vacuity" => opts.vacuity = true,
            "--modules" => only = Some(args.next().unwrap().split(',').map(|s| s.to_string()).collect()),
            "--skip-file" => {
                let t = std::fs::read_to_string(args.next().unwrap()).unwrap();
                opts.skip.extend(t.lines().map(|l| l.to_string()));
            }
            "--shared" => {
                opts.shared.insert(args.next().unwrap());
            }
            "--external" => {
                opts.external.insert(args.next().unwrap());
            }
            a => panic!("argument {a}"),
        }
    }
    opts.names = names::load(&format!("{specdir}/names.txt"));
    let mut files: Vec<_> = std::fs::read_dir(&specdir)
        .unwrap()
        .map(|e| e.unwrap().path())
        .filter(|p| p.extension().map_or(false, |e| e == "vspec"))
        .collect();
    files.sort();
    let mut mods: Vec<ModSpec> = vec![];
    for f in &files {
        let t = std::fs::read_to_string(f).unwrap();
        if let Err(e) = spec::parse(&f.display().to_string(), &t, &mut mods) {
            eprintln!("{e}");
            std::process::exit(2);
        }
    }
    if let Some(o) = &only {
        mods.retain(|m| o.contains(&m.name));
    }
    let mut w = World {
        opts: &opts,
        macros: Macros::default(),
        consts: Consts::default(),
        tuple_arity: vec![],
        helpers: BTreeMap::new(),
        results: BTreeMap::new(),
        trait_defaults: BTreeMap::new(),
        names: BTreeMap::new(),
        out: Out { text: String::new(), reps: vec![], dropped: vec![], notes: vec![] },
    };
    let mut parsed: Vec<Option<File>> = vec![];
    let mut called = BTreeSet::new();
    for m in &mods {
        if m.file.is_empty() {
            parsed.push(None);
            continue;
        }
        let p = format!("{src}/{}", m.file);
        let text = match std::fs::read_to_string(&p) {
            Ok(t) => t,
            Err(e) => {
                eprintln!("{p}: {e}");
                std::process::exit(3);
            }
        };
        called.extend(calls(&text));
        match syn::parse_file(&text) {
            Ok(f) => parsed.push(Some(mark_cfg(f))),
            Err(e) => {
                eprintln!("{p}: {e}");
                std::process::exit(3);
            }
        }
    }
    // macros are textually scoped per file, except that same names are redefined: collect per module
    for (m, f) in mods.iter().zip(&parsed) {
        if let Some(f) = f {
            collect(&mut w, m, &f.items, &BTreeSet::new());
        }
    }
    w.out.text.push_str("#![allow(unused_imports, unused_parens, unused_mut, unused_variables, unused_braces, dead_code, non_snake_case, unused_labels, unreachable_code, private_interfaces)]\n#![feature(allocator_api)]\n#![verifier::allow(undeclared_external_trait)]\nuse vstd::prelude::*;\n");
    for m in &mods {
        w.out.text.push_str(&format!("pub use {}::*;\n", m.name));
    }
    for (m, f) in mods.iter().zip(&parsed) {
        w.out.text.push_str(&format!("pub mod {} {{\nuse vstd::prelude::*;\n", m.name));
        if m.name != "vxlib" {
            w.out.text.push_str("use super::vxlib::*;\n");
        }
        w.out.text.push_str(&m.header);
        w.out.text.push_str("verus! {\n");
        w.out.text.push_str(&only_called(&m.prelude, &called));
        if let Some(f) = f {
            w.emit_items(m, &f.items);
        }
        w.out.text.push_str(&m.postlude);
        w.out.text.push_str("} // verus\n}\n");
    }
    w.out.text.push_str("verus! { global size_of usize == 8; }\nfn main() {}\n");
    std::fs::write(&outp, &w.out.text).unwrap();
    if let Some(f) = names_out {
        let t: String = w.names.iter().filter(|(_, n)| **n != names::Names::default())
            .map(|(k, n)| format!("{k}\t{}\t{}\n", n.params.join(" "), n.locals.join(" "))).collect();
        std::fs::write(f, t).unwrap();
    }
    // report
    let seen: BTreeSet<String> = w.out.reps.iter().map(|r| r.key.clone()).collect();
    let mut missing = vec![];
    for m in &mods {
        for (k, s) in &m.fns {
            if !seen.contains(k) && !k.starts_with("copydown ") && !s.opts.contains_key("optional") && !s.opts.contains_key("defun") {
                missing.push((m.name.clone(), k.clone()));
            }
        }
    }
    let mut j = String::from("{\n\"functions\": [\n");
    let n = w.out.reps.len();
    for (i, r) in w.out.reps.iter().enumerate() {
        j.push_str(&format!(
            "{{\"key\":{},\"module\":{},\"line0\":{},\"line1\":{},\"status\":{},\"reason\":{},\"spec\":{},\"loops\":{}}}{}\n",
            json_str(&r.key),
            json_str(&r.module),
            r.line0,
            r.line1,
            json_str(&r.status),
            json_str(&r.reason),
            r.has_spec,
            r.loops,
            if i + 1 < n { "," } else { "" }
        ));
    }
    j.push_str("],\n\"dropped\": [\n");
    let n = w.out.dropped.len();
    for (i, d) in w.out.dropped.iter().enumerate() {
        j.push_str(&format!("[{},{}]{}\n", json_str(&d.0), json_str(&d.1), if i + 1 < n { "," } else { "" }));
    }
    j.push_str("],\n\"missing\": [\n");
    let n = missing.len();
    for (i, d) in missing.iter().enumerate() {
        j.push_str(&format!("[{},{}]{}\n", json_str(&d.0), json_str(&d.1), if i + 1 < n { "," } else { "" }));
    }
    j.push_str("],\n\"notes\": [\n");
    let n = w.out.notes.len();
    for (i, d) in w.out.notes.iter().enumerate() {
        j.push_str(&format!("{}{}\n", json_str(d), if i + 1 < n { "," } else { "" }));
    }
    j.push_str("]}\n");
    std::fs::write(&report, j).unwrap();
}
