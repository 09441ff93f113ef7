//! Token printer: one statement per line, with spec text spliced in at markers.
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};

pub struct Printer<'a> {
    pub out: String,
    pub texts: &'a [String],
    indent: usize,
    at_line_start: bool,
}

impl<'a> Printer<'a> {
    pub fn new(texts: &'a [String]) -> Self {
        Printer { out: String::new(), texts, indent: 0, at_line_start: true }
    }
    fn nl(&mut self) {
        if !self.at_line_start {
            self.out.push('\n');
            self.at_line_start = true;
        }
    }
    fn put(&mut self, s: &str) {
        if self.at_line_start {
            for _ in 0..self.indent {
                self.out.push_str("  ");
            }
            self.at_line_start = false;
        }
        self.out.push_str(s);
    }
    fn raw(&mut self, s: &str) {
        self.nl();
        for l in s.lines() {
            self.out.push_str(l);
            self.out.push('\n');
        }
        self.at_line_start = true;
    }
    /// If toks[i..] is `name ! ( N ) ;?`, return (N, tokens used)
    fn marker(toks: &[TokenTree], i: usize, name: &str) -> Option<(usize, usize)> {
        match (toks.get(i), toks.get(i + 1), toks.get(i + 2)) {
            (Some(TokenTree::Ident(id)), Some(TokenTree::Punct(p)), Some(TokenTree::Group(g)))
                if id == name && p.as_char() == '!' =>
            {
                let n = g.stream().to_string().parse::<usize>().ok()?;
                let mut used = 3;
                if let Some(TokenTree::Punct(p)) = toks.get(i + 3) {
                    if p.as_char() == ';' {
                        used = 4;
                    }
                }
                Some((n, used))
            }
            _ => None,
        }
    }
    pub fn stream(&mut self, ts: TokenStream) {
        let toks: Vec<TokenTree> = ts.into_iter().collect();
        let mut i = 0;
        while i < toks.len() {
            if let Some((n, used)) = Self::marker(&toks, i, "vxmark") {
                let t = self.texts[n].clone();
                self.raw(&t);
                i += used;
                continue;
            }
            if let Some((n, used)) = Self::marker(&toks, i, "vxinline") {
                let t = self.texts[n].clone();
                self.put(&t);
                self.put(if used == 4 { ";\n" } else { " " });
                if used == 4 {
                    self.at_line_start = true;
                }
                i += used;
                continue;
            }
            match &toks[i] {
                TokenTree::Group(g) => match g.delimiter() {
                    Delimiter::Brace => {
                        let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                        if let Some((n, used)) = Self::marker(&inner, 0, "vxloop") {
                            let t = self.texts[n].clone();
                            self.raw(&t);
                            self.put("{");
                            self.indent += 1;
                            self.nl();
                            self.stream(inner[used..].iter().cloned().collect());
                        } else {
                            self.put("{");
                            self.indent += 1;
                            self.nl();
                            self.stream(g.stream());
                        }
                        self.indent -= 1;
                        self.nl();
                        self.put("}");
                        // newline unless followed by something that continues the expression
                        match toks.get(i + 1) {
                            Some(TokenTree::Punct(p)) if p.as_char() != '#' => {
                                self.put(" ")
                            }
                            Some(TokenTree::Ident(id)) if id == "else" => self.put(" "),
                            _ => self.nl(),
                        }
                    }
                    Delimiter::Parenthesis => {
                        self.put("(");
                        self.stream(g.stream());
                        self.put(")");
                        self.put(" ");
                    }
                    Delimiter::Bracket => {
                        self.put("[");
                        self.stream(g.stream());
                        self.put("]");
                        self.put(" ");
                    }
                    Delimiter::None => self.stream(g.stream()),
                },
                TokenTree::Punct(p) => {
                    let mut b = [0u8; 4];
                    self.put(p.as_char().encode_utf8(&mut b));
                    if p.as_char() == ';' {
                        self.nl();
                    } else if p.spacing() == Spacing::Alone && p.as_char() != '\'' {
                        self.put(" ");
                    }
                }
                TokenTree::Ident(id) => {
                    self.put(&id.to_string());
                    // no space between ident and ! or ( for readability is not needed
                    self.put(" ");
                }
                TokenTree::Literal(l) => {
                    self.put(&l.to_string());
                    self.put(" ");
                }
            }
            i += 1;
        }
    }
}

/// Tokens as text with no white space (for keys and anchors)
pub fn squash(ts: impl quote::ToTokens) -> String {
    fn go(ts: TokenStream, out: &mut String) {
        for t in ts {
            match t {
                TokenTree::Group(g) => {
                    let (a, b) = match g.delimiter() {
                        Delimiter::Brace => ("{", "}"),
                        Delimiter::Parenthesis => ("(", ")"),
                        Delimiter::Bracket => ("[", "]"),
                        Delimiter::None => ("", ""),
                    };
                    out.push_str(a);
                    go(g.stream(), out);
                    out.push_str(b);
                }
                TokenTree::Ident(i) => {
                    if out.chars().last().map_or(false, |c| c.is_alphanumeric() || c == '_') {
                        out.push(' ');
                    }
                    out.push_str(&i.to_string());
                }
                TokenTree::Literal(i) => {
                    if out.chars().last().map_or(false, |c| c.is_alphanumeric() || c == '_') {
                        out.push(' ');
                    }
                    out.push_str(&i.to_string());
                }
                TokenTree::Punct(p) => out.push(p.as_char()),
            }
        }
    }
    let mut s = String::new();
    go(ts.to_token_stream(), &mut s);
    s
}
