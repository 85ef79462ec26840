//! Token printer with line structure and splicing of loop contracts and hints.
use proc_macro2::{Delimiter, TokenStream, TokenTree, Spacing};
use std::collections::BTreeMap;

pub struct Splice {
    pub inv: BTreeMap<usize, String>,
    pub hints: BTreeMap<usize, String>,
}
pub fn print(ts: TokenStream, sp: &Splice) -> String {
    let mut out = String::new();
    let mut p = P { sp, depth: 0 };
    p.ts(ts, &mut out);
    out
}
struct P<'a> {
    sp: &'a Splice,
    depth: usize,
}
impl<'a> P<'a> {
    fn nl(&self, out: &mut String) {
        while out.ends_with(' ') {
            out.pop();
        }
        out.push('\n');
        for _ in 0..self.depth {
            out.push_str("    ");
        }
    }
    fn ts(&mut self, ts: TokenStream, out: &mut String) {
        let v: Vec<TokenTree> = ts.into_iter().collect();
        let mut i = 0;
        while i < v.len() {
            // marker macros
            if let TokenTree::Ident(id) = &v[i] {
                let s = id.to_string();
                if (s == "__vx_inv" || s == "__vx_hint") && i + 2 < v.len() {
                    if let TokenTree::Group(g) = &v[i + 2] {
                        let k: usize = g.stream().to_string().trim().trim_end_matches("usize").parse().unwrap_or(9999);
                        if s == "__vx_hint" {
                            if let Some(h) = self.sp.hints.get(&k) {
                                self.nl(out);
                                out.push_str(h);
                                self.nl(out);
                            }
                        }
                        i += 3;
                        if i < v.len() && matches!(&v[i], TokenTree::Punct(p) if p.as_char() == ';') {
                            i += 1;
                        }
                        continue;
                    }
                }
            }
            match &v[i] {
                TokenTree::Group(g) => match g.delimiter() {
                    Delimiter::Brace => {
                        let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                        // loop contract
                        if inner.len() >= 3 {
                            if let (TokenTree::Ident(id), TokenTree::Group(k)) = (&inner[0], &inner[2]) {
                                if id == "__vx_inv" {
                                    let k: usize = k.stream().to_string().trim().trim_end_matches("usize").parse().unwrap_or(9999);
                                    if let Some(t) = self.sp.inv.get(&k) {
                                        out.push('\n');
                                        out.push_str(t);
                                        out.push('\n');
                                    }
                                }
                            }
                        }
                        out.push('{');
                        self.depth += 1;
                        self.nl(out);
                        self.ts(g.stream(), out);
                        self.depth -= 1;
                        self.nl(out);
                        out.push('}');
                        let next_semi = matches!(v.get(i + 1), Some(TokenTree::Punct(p)) if matches!(p.as_char(), ';' | ',' | '.' | '?'));
                        if !next_semi {
                            self.nl(out);
                        }
                    }
                    Delimiter::Parenthesis => {
                        out.push('(');
                        self.ts(g.stream(), out);
                        out.push(')');
                        out.push(' ');
                    }
                    Delimiter::Bracket => {
                        out.push('[');
                        self.ts(g.stream(), out);
                        out.push(']');
                        out.push(' ');
                    }
                    Delimiter::None => self.ts(g.stream(), out),
                },
                TokenTree::Punct(p) => {
                    out.push(p.as_char());
                    if p.as_char() == ';' {
                        self.nl(out);
                    } else if p.spacing() == Spacing::Alone {
                        out.push(' ');
                    }
                }
                t => {
                    out.push_str(&t.to_string());
                    out.push(' ');
                }
            }
            i += 1;
        }
    }
}
