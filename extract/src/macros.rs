//! Expansion of the crate's own `macro_rules!` macros.
use proc_macro2::{Delimiter, Group, TokenStream, TokenTree};
use std::collections::HashMap;
use syn::parse::{ParseStream, Parser};

#[derive(Clone)]
pub struct Arm {
    pub pattern: Vec<TokenTree>,
    pub body: TokenStream,
}

#[derive(Clone, Default)]
pub struct Macros(pub HashMap<String, Vec<Arm>>);

impl Macros {
    pub fn define(&mut self, name: &str, tokens: TokenStream) {
        let toks: Vec<TokenTree> = tokens.into_iter().collect();
        let mut arms = vec![];
        let mut i = 0;
        while i + 3 < toks.len() + 0 || i + 3 == toks.len() - 0 {
            // ( pattern ) = > { body } ;
            let (Some(TokenTree::Group(p)), Some(TokenTree::Group(b))) = (toks.get(i), toks.get(i + 3)) else {
                break;
            };
            arms.push(Arm { pattern: p.stream().into_iter().collect(), body: b.stream() });
            i += 4;
            if let Some(TokenTree::Punct(p)) = toks.get(i) {
                if p.as_char() == ';' {
                    i += 1;
                }
            }
        }
        self.0.insert(name.to_string(), arms);
    }

    pub fn has(&self, name: &str) -> bool {
        self.0.contains_key(name)
    }

    pub fn expand(&self, name: &str, args: TokenStream) -> Result<TokenStream, String> {
        let arms = self.0.get(name).ok_or("no such macro")?;
        for arm in arms {
            let mut binds = HashMap::new();
            if let Ok(true) = match_pat(&arm.pattern, args.clone(), &mut binds) {
                return subst(arm.body.clone(), &binds);
            }
        }
        Err(format!("macro {name}: no arm of a supported form matches"))
    }
}

fn parse_prefix<T: syn::parse::Parse>(ts: TokenStream) -> Result<(T, TokenStream), String> {
    let p = |input: ParseStream<'_>| -> syn::Result<(T, TokenStream)> {
        let t: T = input.parse()?;
        let rest: TokenStream = input.parse()?;
        Ok((t, rest))
    };
    p.parse2(ts).map_err(|e| e.to_string())
}

fn match_pat(pat: &[TokenTree], input: TokenStream, binds: &mut HashMap<String, TokenStream>) -> Result<bool, String> {
    let mut rest = input;
    let mut i = 0;
    while i < pat.len() {
        match &pat[i] {
            TokenTree::Punct(p) if p.as_char() == '$' => match pat.get(i + 1) {
                Some(TokenTree::Ident(name)) => {
                    let Some(TokenTree::Ident(frag)) = pat.get(i + 3) else { return Err("fragment".into()) };
                    let frag = frag.to_string();
                    let (toks, r) = match frag.as_str() {
                        "ident" => {
                            let (t, r) = parse_prefix::<syn::Ident>(rest)?;
                            (quote::quote!(#t), r)
                        }
                        "ty" => {
                            let (t, r) = parse_prefix::<syn::Type>(rest)?;
                            (quote::quote!(#t), r)
                        }
                        "expr" => {
                            let (t, r) = parse_prefix::<syn::Expr>(rest)?;
                            let t = match t {
                                syn::Expr::Path(_) | syn::Expr::Lit(_) | syn::Expr::MethodCall(_) | syn::Expr::Call(_) => quote::quote!(#t),
                                _ => quote::quote!((#t)),
                            };
                            (t, r)
                        }
                        "literal" => {
                            let (t, r) = parse_prefix::<syn::Lit>(rest)?;
                            (quote::quote!(#t), r)
                        }
                        "tt" => {
                            let mut it = rest.into_iter();
                            let Some(t) = it.next() else { return Ok(false) };
                            (quote::quote!(#t), it.collect())
                        }
                        "path" => {
                            let (t, r) = parse_prefix::<syn::Path>(rest)?;
                            (quote::quote!(#t), r)
                        }
                        f => return Err(format!("fragment {f}")),
                    };
                    binds.insert(name.to_string(), toks);
                    rest = r;
                    i += 4;
                }
                Some(TokenTree::Group(g)) => {
                    // only the optional separator form $(,)? is supported
                    let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                    let Some(TokenTree::Punct(op)) = pat.get(i + 2) else { return Err("repetition".into()) };
                    if op.as_char() != '?' || inner.len() != 1 {
                        return Err("repetition".into());
                    }
                    let mut it = rest.clone().into_iter();
                    if let Some(t) = it.next() {
                        if t.to_string() == inner[0].to_string() {
                            rest = it.collect();
                        }
                    }
                    i += 3;
                }
                _ => return Err("pattern".into()),
            },
            t => {
                let mut it = rest.into_iter();
                match it.next() {
                    Some(u) if u.to_string() == t.to_string() => {}
                    _ => return Ok(false),
                }
                rest = it.collect();
                i += 1;
            }
        }
    }
    Ok(rest.is_empty())
}

fn subst(body: TokenStream, binds: &HashMap<String, TokenStream>) -> Result<TokenStream, String> {
    let toks: Vec<TokenTree> = body.into_iter().collect();
    let mut out = TokenStream::new();
    let mut i = 0;
    while i < toks.len() {
        match &toks[i] {
            TokenTree::Punct(p) if p.as_char() == '$' => match toks.get(i + 1) {
                Some(TokenTree::Ident(n)) if n == "crate" => {
                    out.extend(quote::quote!(crate));
                    i += 2;
                }
                Some(TokenTree::Ident(n)) => {
                    let b = binds.get(&n.to_string()).ok_or(format!("unbound ${n}"))?;
                    out.extend(b.clone());
                    i += 2;
                }
                _ => return Err("repetition in macro body".into()),
            },
            TokenTree::Group(g) => {
                let inner = subst(g.stream(), binds)?;
                let delim = if g.delimiter() == Delimiter::None { Delimiter::Parenthesis } else { g.delimiter() };
                let mut ng = Group::new(delim, inner);
                ng.set_span(g.span());
                out.extend([TokenTree::Group(ng)]);
                i += 1;
            }
            t => {
                out.extend([t.clone()]);
                i += 1;
            }
        }
    }
    Ok(out)
}
