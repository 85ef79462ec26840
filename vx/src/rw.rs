//! The mechanical rewrite rules (see DESIGN.md, "What the extraction changes").
use crate::res::*;
use proc_macro2::{Span, TokenStream};
use quote::{quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit_mut::{self, VisitMut};
use syn::*;
use crate::res::Index;

#[derive(Default, Clone)]
pub struct Hint {
    pub kind: String, // start, tail, aftertok, beforetok, loopstart, loopend
    pub arg: String,
    pub n: usize,
    pub id: usize,
    pub used: bool,
}

pub struct Rw<'a> {
    pub ix: &'a Index,
    pub names: &'a BTreeMap<String, String>,
    pub module: String,
    pub lits: &'a mut BTreeSet<Vec<u8>>,
    pub strs: &'a mut BTreeSet<String>,     // abs paths of &str consts used
    pub consts: &'a mut BTreeSet<String>,   // abs paths of other consts used
    pub loops: usize,
    pub hints: Vec<Hint>,
    pub errs: Vec<String>,
    pub floats: BTreeSet<String>,
    pub strids: BTreeSet<String>,
    pub autoinv: BTreeMap<usize, (String, String)>,
    pub byref: BTreeSet<usize>,
    pub inl_depth: usize,
    pub inlined: Vec<String>,
    pub ret_is_result: bool,
    pub tokcount: BTreeMap<String, usize>,
    pub notes: BTreeSet<String>,
    pub locals: BTreeSet<String>,
    pub self_ty: String,
    /// inside an implementation of From
    pub in_from: bool,
    pub output: Option<Type>,
}
/// identifiers bound by patterns
pub fn bound(b: &Block) -> BTreeSet<String> {
    struct V(BTreeSet<String>);
    impl<'a> syn::visit::Visit<'a> for V {
        fn visit_pat_ident(&mut self, p: &'a PatIdent) {
            self.0.insert(p.ident.to_string());
            syn::visit::visit_pat_ident(self, p);
        }
    }
    let mut v = V(Default::default());
    syn::visit::Visit::visit_block(&mut v, b);
    v.0
}
/// name of the constructor of an n element list of strings
pub fn xv_name(n: usize) -> String {
    format!("__xv{n}")
}

fn id(s: &str) -> Ident {
    Ident::new(s, Span::call_site())
}
pub fn lit_name(b: &[u8]) -> String {
    let mut s = String::from("lit_");
    for x in b {
        s.push_str(&format!("{x:02x}"));
    }
    s
}
pub fn str_name(abs: &str) -> String {
    abs.replace("::", "_")
}
fn pe(ts: TokenStream) -> Expr {
    match syn::parse2(ts.clone()) {
        Ok(e) => e,
        Err(e) => panic!("internal: {e}: {ts}"),
    }
}
fn strip_paren(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => strip_paren(&p.expr),
        Expr::Group(p) => strip_paren(&p.expr),
        _ => e,
    }
}
/// `static ref X` -> `static X`
fn strip_ref(ts: TokenStream) -> TokenStream {
    let mut prev = false;
    ts.into_iter()
        .filter(|t| {
            let drop = prev && matches!(t, proc_macro2::TokenTree::Ident(i) if i == "ref");
            prev = matches!(t, proc_macro2::TokenTree::Ident(i) if i == "static");
            !drop
        })
        .collect()
}
fn is_range(e: &Expr) -> bool {
    matches!(strip_paren(e), Expr::Range(_))
}
fn has_tok(ts: TokenStream, t: &str) -> bool {
    ts.into_iter().any(|x| match x {
        proc_macro2::TokenTree::Ident(i) => i == t,
        proc_macro2::TokenTree::Group(g) => has_tok(g.stream(), t),
        _ => false,
    })
}

/// one position of a regular expression: byte ranges
pub type ReClass = Vec<(u8, u8)>;
/// `^[class]*$` (true) or a fixed sequence of classes, unanchored (false)
pub fn re_parse(p: &str) -> Option<(bool, Vec<(ReClass, Option<String>)>)> {
    fn class(b: &[u8], i: &mut usize) -> Option<ReClass> {
        let one = |i: &mut usize| -> Option<u8> {
            let mut c = *b.get(*i)?;
            if c == b'\\' {
                *i += 1;
                c = *b.get(*i)?;
                if c.is_ascii_alphanumeric() {
                    return None;
                }
            } else if b"[]^&~".contains(&c) {
                return None;
            }
            *i += 1;
            (c < 128).then_some(c)
        };
        if *b.get(*i)? != b'[' {
            if b"\\.+*?()|]{}^$".contains(&b[*i]) || b[*i] >= 128 {
                return None;
            }
            *i += 1;
            return Some(vec![(b[*i - 1], b[*i - 1])]);
        }
        *i += 1;
        let mut v = vec![];
        while *b.get(*i)? != b']' {
            let lo = one(i)?;
            if *b.get(*i)? == b'-' && *b.get(*i + 1)? != b']' {
                *i += 1;
                let hi = one(i)?;
                if hi < lo {
                    return None;
                }
                v.push((lo, hi));
            } else {
                v.push((lo, lo));
            }
        }
        *i += 1;
        (!v.is_empty()).then_some(v)
    }
    let b = p.as_bytes();
    let mut i = 0;
    if b.first() == Some(&b'^') {
        i = 1;
        let c = class(b, &mut i)?;
        return (&b[i..] == b"*$").then_some((true, vec![(c, None)]));
    }
    let mut v = vec![];
    let mut group: Option<String> = None;
    while i < b.len() {
        if b[i..].starts_with(b"(?P<") && group.is_none() {
            i += 4;
            let j = i + b[i..].iter().position(|c| *c == b'>')?;
            group = Some(p[i..j].to_string());
            i = j + 1;
            continue;
        }
        if b[i] == b')' && group.is_some() {
            group = None;
            i += 1;
            continue;
        }
        let c = class(b, &mut i)?;
        let mut n = 1;
        if b.get(i) == Some(&b'{') {
            let j = i + b[i..].iter().position(|c| *c == b'}')?;
            n = p[i + 1..j].parse().ok()?;
            i = j + 1;
        }
        for _ in 0..n {
            v.push((c.clone(), group.clone()));
        }
    }
    (group.is_none() && v.len() <= 64).then_some((false, v))
}
pub fn re_lit(p: &str) -> Vec<u8> {
    [b"\0re:", p.as_bytes()].concat()
}

impl<'a> Rw<'a> {
    /// `static ref NAME: Regex = Regex::new(PATTERN).unwrap();` -> `let NAME = <constructor with the pattern's meaning>;`
    fn lazy_regex(&mut self, ts: TokenStream) -> std::result::Result<Vec<Stmt>, String> {
        let f: File = syn::parse2(strip_ref(ts)).map_err(|e| format!("lazy_static: {e}"))?;
        let mut out = vec![];
        for it in f.items {
            let Item::Static(s) = it else { return Err("lazy_static item".into()) };
            let ty = &s.ty;
            if !matches!(&*s.ty, Type::Path(p) if p.path.segments.last().map_or(false, |x| x.ident == "Regex")) {
                // a value computed once: `let NAME = &(expr);`
                let n = &s.ident;
                let mut e = (*s.expr).clone();
                self.visit_expr_mut(&mut e);
                let _ = ty;
                out.push(syn::parse2(quote!(let #n = &(#e);)).unwrap());
                continue;
            }
            let Expr::MethodCall(m) = &*s.expr else { return Err("lazy_static initializer".into()) };
            let (true, Expr::Call(c)) = (m.method == "unwrap", &*m.receiver) else { return Err("lazy_static initializer".into()) };
            let f = match &*c.func {
                Expr::Path(p) => segs(&p.path).join("::"),
                _ => String::new(),
            };
            if !f.ends_with("Regex::new") || c.args.len() != 1 {
                return Err("lazy_static initializer".into());
            }
            let pat = match strip_paren(&c.args[0]) {
                Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => Some(s.value()),
                Expr::Path(p) => self.res(&p.path).and_then(|a| self.ix.str_const(&a)),
                _ => None,
            }
            .ok_or("regular expression not a constant")?;
            re_parse(&pat).ok_or(format!("regular expression outside the supported forms: {pat}"))?;
            let n = &s.ident;
            let l = self.lit(re_lit(&pat));
            out.push(syn::parse2(quote!(let #n = #l;)).unwrap());
        }
        Ok(out)
    }
    fn err(&mut self, s: String) {
        self.errs.push(s)
    }
    fn lit(&mut self, b: Vec<u8>) -> Expr {
        let n = id(&lit_name(&b));
        self.lits.insert(b);
        pe(quote!(#n()))
    }
    fn res(&self, p: &Path) -> Option<String> {
        let s = segs(p);
        if s[0] == "Self" {
            return None;
        }
        self.ix.resolve(&self.module, &s)
    }
    /// pattern/expr path that denotes a &str const
    fn str_path(&mut self, p: &Path) -> Option<Expr> {
        let abs = self.res(p)?;
        self.ix.str_const(&abs)?;
        let n = id(&format!("c_{}", str_name(&abs)));
        self.strs.insert(abs);
        Some(pe(quote!(#n())))
    }
    fn is_strish(&self, e: &Expr) -> bool {
        match strip_paren(e) {
            Expr::Lit(ExprLit { lit: Lit::Str(_), .. }) => true,
            Expr::Path(p) => {
                if let Some(i) = p.path.get_ident() {
                    if self.strids.contains(&i.to_string()) {
                        return true;
                    }
                }
                self.res(&p.path).map_or(false, |a| self.ix.str_const(&a).is_some())
            }
            Expr::Reference(r) => self.is_strish(&r.expr),
            Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) => self.is_strish(expr),
            Expr::MethodCall(m) if m.method == "unwrap_or" && m.args.len() == 1 => self.is_strish(&m.args[0]),
            _ => false,
        }
    }
    fn is_float(&self, e: &Expr) -> bool {
        match strip_paren(e) {
            Expr::Lit(ExprLit { lit: Lit::Float(_), .. }) => true,
            Expr::Lit(ExprLit { lit: Lit::Int(i), .. }) => i.suffix().starts_with('f'),
            Expr::Cast(c) => {
                let t = &c.ty;
                let s = quote!(#t).to_string();
                s == "f32" || s == "f64"
            }
            Expr::Path(p) => p.path.get_ident().map_or(false, |i| self.floats.contains(&i.to_string())),
            Expr::Field(f) => matches!(&f.member, Member::Named(n) if self.ix.float_fields.contains(&n.to_string())),
            Expr::Binary(b) => {
                matches!(b.op, BinOp::Add(_) | BinOp::Sub(_) | BinOp::Mul(_) | BinOp::Div(_))
                    && (self.is_float(&b.left) || self.is_float(&b.right))
            }
            Expr::MethodCall(m) => matches!(m.method.to_string().as_str(), "log2" | "floor" | "ceil") && self.is_float(&m.receiver),
            _ => false,
        }
    }
    fn float(&mut self, e: &Expr) -> Expr {
        match strip_paren(e) {
            Expr::Lit(ExprLit { lit, .. }) => {
                let s = match lit {
                    Lit::Float(f) => f.base10_digits().to_string(),
                    Lit::Int(f) => f.base10_digits().to_string(),
                    _ => "0".into(),
                };
                let v: f64 = s.parse().unwrap_or(0.0);
                if v.fract() != 0.0 || v < 0.0 {
                    self.err(format!("non-integral float literal {s}"));
                }
                let n = v as u64;
                pe(quote!(xf_lit(#n)))
            }
            Expr::Cast(c) => {
                let t = c.ty.to_token_stream().to_string();
                if self.is_float(&c.expr) {
                    // widening is exact
                    if t != "f64" {
                        self.err("narrowing float cast".into());
                    }
                    return self.float(&c.expr);
                }
                let mut x = (*c.expr).clone();
                self.visit_expr_mut(&mut x);
                pe(quote!(xf_cast(#x)))
            }
            Expr::Binary(b) => {
                let l = self.float(&b.left);
                let r = self.float(&b.right);
                let f = match b.op {
                    BinOp::Add(_) => "xf_add",
                    BinOp::Sub(_) => "xf_sub",
                    BinOp::Div(_) => "xf_div",
                    BinOp::Mul(_) => "xf_mul",
                    _ => {
                        self.err("float op".into());
                        "xf_add"
                    }
                };
                let f = id(f);
                pe(quote!(#f(#l, #r)))
            }
            Expr::MethodCall(m) if m.method == "log2" => {
                let r = self.float(&m.receiver);
                pe(quote!(xf_log2(#r)))
            }
            Expr::Field(_) => {
                let mut x = e.clone();
                visit_mut::visit_expr_mut(self, &mut x);
                x
            }
            x => x.clone(),
        }
    }
    /// format!-like: returns (pieces)
    fn fmt_args(&mut self, ts: TokenStream) -> Option<(String, Vec<(Option<String>, Expr)>)> {
        use syn::parse::Parser;
        let p = |input: syn::parse::ParseStream| -> syn::Result<(String, Vec<(Option<String>, Expr)>)> {
            let s: LitStr = input.parse()?;
            let mut v = vec![];
            while !input.is_empty() {
                input.parse::<Token![,]>()?;
                if input.is_empty() {
                    break;
                }
                if input.peek(Ident) && input.peek2(Token![=]) && !input.peek2(Token![==]) {
                    let n: Ident = input.parse()?;
                    input.parse::<Token![=]>()?;
                    let e: Expr = input.parse()?;
                    v.push((Some(n.to_string()), e));
                } else {
                    v.push((None, input.parse()?));
                }
            }
            Ok((s.value(), v))
        };
        match p.parse2(ts.clone()) {
            Ok(x) => Some(x),
            Err(_) => {
                self.err(format!("format args: {ts}"));
                None
            }
        }
    }
    fn format(&mut self, ts: TokenStream) -> Expr {
        let Some((s, args)) = self.fmt_args(ts) else { return pe(quote!(())) };
        let mut out: Option<Expr> = None;
        let mut lit = String::new();
        let b: Vec<char> = s.chars().collect();
        let mut i = 0;
        let mut pos = 0;
        let mut pieces: Vec<Expr> = vec![];
        let flush = |me: &mut Self, lit: &mut String, pieces: &mut Vec<Expr>| {
            if !lit.is_empty() {
                let l = me.lit(lit.as_bytes().to_vec());
                pieces.push(l);
                lit.clear();
            }
        };
        while i < b.len() {
            if b[i] == '{' && b.get(i + 1) == Some(&'{') || b[i] == '}' && b.get(i + 1) == Some(&'}') {
                lit.push(b[i]);
                i += 2;
                continue;
            }
            if b[i] == '{' {
                let mut j = i + 1;
                while b[j] != '}' {
                    j += 1;
                }
                let inner: String = b[i + 1..j].iter().collect();
                let (name, spec) = match inner.split_once(':') {
                    Some((a, c)) => (a.to_string(), c.to_string()),
                    None => (inner.clone(), String::new()),
                };
                flush(self, &mut lit, &mut pieces);
                let mut e: Expr = if name.is_empty() {
                    let pa: Vec<&Expr> = args.iter().filter(|a| a.0.is_none()).map(|a| &a.1).collect();
                    pos += 1;
                    match pa.get(pos - 1) {
                        Some(e) => (*e).clone(),
                        None => {
                            self.err("format arity".into());
                            pe(quote!(()))
                        }
                    }
                } else if let Some(a) = args.iter().find(|a| a.0.as_deref() == Some(&name)) {
                    a.1.clone()
                } else if let Ok(k) = name.parse::<usize>() {
                    args[k].1.clone()
                } else {
                    let n = id(&name);
                    pe(quote!(#n))
                };
                // strip leading & (Display is transparent through references)
                while let Expr::Reference(r) = &e {
                    e = (*r.expr).clone();
                }
                self.visit_expr_mut(&mut e);
                let f = match spec.as_str() {
                    "" => quote!((#e).xdisp()),
                    "x" => quote!((#e).xhex()),
                    _ => {
                        let w = spec.trim_end_matches('x');
                        if spec.ends_with('x') && w.starts_with('0') {
                            let n: usize = w.parse().unwrap_or(0);
                            quote!((#e).xhexpad(#n))
                        } else {
                            self.err(format!("format spec {spec}"));
                            quote!(())
                        }
                    }
                };
                let f = pe(f);
                pieces.push(pe(quote!(&#f)));
                i = j + 1;
                continue;
            }
            lit.push(b[i]);
            i += 1;
        }
        flush(self, &mut lit, &mut pieces);
        for p in pieces {
            out = Some(match out {
                None => pe(quote!(xown(#p))),
                Some(o) => pe(quote!(xcat(#o, #p))),
            });
        }
        out.unwrap_or_else(|| pe(quote!(XString::new())))
    }
    /// effects of message arguments that are kept
    fn effects(&mut self, ts: TokenStream) -> Vec<TokenStream> {
        let mut v = vec![];
        let Ok(e) = syn::parse2::<Expr>(ts.clone()) else { return v };
        self.effect_expr(&e, &mut v);
        v
    }
    fn effect_expr(&mut self, e: &Expr, v: &mut Vec<TokenStream>) {
        match strip_paren(e) {
            Expr::Call(c) => {
                for a in &c.args {
                    self.effect_expr(a, v);
                }
            }
            Expr::Macro(m) if m.mac.path.is_ident("format") => {
                if let Some((_, args)) = self.fmt_args(m.mac.tokens.clone()) {
                    for (_, a) in args {
                        self.effect_expr(&a, v);
                    }
                }
            }
            Expr::MethodCall(m) if m.args.is_empty() && m.turbofish.is_none() => self.effect_expr(&m.receiver, v),
            Expr::Path(_) | Expr::Lit(_) | Expr::Field(_) => {}
            Expr::Reference(r) => self.effect_expr(&r.expr, v),
            Expr::Block(b) if b.block.stmts.len() == 1 => {
                if let Stmt::Expr(e, None) = &b.block.stmts[0] {
                    self.effect_expr(e, v);
                }
            }
            x => {
                let mut y = x.clone();
                self.visit_expr_mut(&mut y);
                v.push(quote!(let _ = #y;));
            }
        }
    }
    fn is_str_pat(&self, p: &Pat) -> bool {
        match p {
            Pat::Lit(l) => matches!(l.lit, Lit::Str(_) | Lit::ByteStr(_)),
            Pat::Path(pp) => self.res(&pp.path).map_or(false, |a| self.ix.str_const(&a).is_some()),
            Pat::Ident(i) => {
                i.subpat.is_none()
                    && self
                        .ix
                        .resolve(&self.module, &[i.ident.to_string()])
                        .map_or(false, |a| self.ix.str_const(&a).is_some())
            }
            Pat::Or(o) => o.cases.iter().any(|c| self.is_str_pat(c)),
            Pat::Paren(p) => self.is_str_pat(&p.pat),
            _ => false,
        }
    }
    fn str_pat_cond(&mut self, p: &Pat, v: &Ident) -> Option<Expr> {
        match p {
            Pat::Lit(l) => match &l.lit {
                Lit::Str(s) => {
                    let e = self.lit(s.value().into_bytes());
                    Some(pe(quote!(xstr_eq(#v, #e))))
                }
                Lit::ByteStr(s) => {
                    let bs = s.value();
                    let n = bs.len();
                    let mut c = quote!(#v.len() == #n);
                    for (i, b) in bs.iter().enumerate() {
                        c = quote!(#c && #v[#i] == #b);
                    }
                    Some(pe(quote!((#c))))
                }
                _ => None,
            },
            Pat::Path(pp) => {
                let e = self.str_path(&pp.path)?;
                Some(pe(quote!(xstr_eq(#v, #e))))
            }
            Pat::Ident(i) => {
                let path: Path = i.ident.clone().into();
                let e = self.str_path(&path)?;
                Some(pe(quote!(xstr_eq(#v, #e))))
            }
            Pat::Or(o) => {
                let mut c: Option<Expr> = None;
                for x in &o.cases {
                    let y = self.str_pat_cond(x, v)?;
                    c = Some(match c {
                        None => y,
                        Some(z) => pe(quote!(#z || #y)),
                    });
                }
                c
            }
            Pat::Paren(p) => self.str_pat_cond(&p.pat, v),
            _ => None,
        }
    }
    fn match_str(&mut self, m: &ExprMatch) -> Option<Expr> {
        if !m.arms.iter().any(|a| self.is_str_pat(&a.pat)) {
            return None;
        }
        let v = id("__m");
        let mut chain: Option<Expr> = None;
        for a in m.arms.iter().rev() {
            let mut body = (*a.body).clone();
            self.visit_expr_mut(&mut body);
            match &a.pat {
                Pat::Wild(_) => {
                    chain = Some(pe(quote!({ #body })));
                }
                Pat::Ident(i) if !self.is_str_pat(&a.pat) => {
                    let n = &i.ident;
                    chain = Some(pe(quote!({ let #n = #v; #body })));
                }
                p => {
                    let mut c = match self.str_pat_cond(p, &v) {
                        Some(c) => c,
                        None => {
                            self.err(format!("string match pattern {}", p.to_token_stream()));
                            return None;
                        }
                    };
                    if let Some((_, g)) = &a.guard {
                        let mut g = (**g).clone();
                        self.visit_expr_mut(&mut g);
                        c = pe(quote!((#c) && (#g)));
                    }
                    let els = chain.take().unwrap_or_else(|| pe(quote!({ vx_unreachable() })));
                    let els = match els {
                        Expr::If(_) => quote!(#els),
                        o => quote!(#o),
                    };
                    chain = Some(pe(quote!(if #c { #body } else #els)));
                }
            }
        }
        let mut s = (*m.expr).clone();
        self.visit_expr_mut(&mut s);
        let c = chain?;
        Some(pe(quote!(match #s { #v => #c })))
    }
    fn for_loop(&mut self, f: &ExprForLoop) -> Expr {
        let k = self.loops;
        self.loops += 1;
        let (vi, ii, ei) = (id(&format!("__v{k}")), id(&format!("__i{k}")), id(&format!("__e{k}")));
        let bi = id(&format!("__b{k}"));
        let pat = &f.pat;
        let mut body = f.body.clone();
        let it = strip_paren(&f.expr).clone();
        let hs = self.loop_hints(k);
        let (hstart, hend) = hs;
        if let Expr::Range(r) = &it {
            let mut a = r.start.as_ref().map(|x| (**x).clone()).unwrap_or_else(|| pe(quote!(0)));
            let mut b = match &r.end {
                Some(x) => (**x).clone(),
                None => {
                    self.err("open range".into());
                    pe(quote!(0))
                }
            };
            self.visit_expr_mut(&mut a);
            self.visit_expr_mut(&mut b);
            self.visit_block_mut(&mut body);
            let op = if matches!(r.limits, RangeLimits::Closed(_)) { quote!(<=) } else { quote!(<) };
            if matches!(r.limits, RangeLimits::Closed(_)) {
                self.err("closed range loop".into());
            }
            // the bounds are evaluated once, before the loop: __b{k} and __e{k}
            let zero = match &a {
                Expr::Lit(_) => format!(" __b{k} == {},", quote!(#a)),
                _ => String::new(),
            };
            self.autoinv.insert(k, (format!("__b{k} <= __i{k}, __i{k} <= __e{k} || __e{k} < __i{k},{zero}"), format!("__e{k} - __i{k}")));
            let st = &body.stmts;
            return pe(quote!({
                let #bi = #a;
                let #ei = #b;
                let mut #ii = #bi;
                while #ii #op #ei { __vx_inv!(#k); #hstart let #pat = #ii; #ii += 1; #(#st)* #hend }
            }));
        }
        // element iteration
        let mut mode = if self.byref.contains(&k) { "ref" } else { "val" };
        let mut base = it.clone();
        let mut chain: Vec<(String, Vec<Expr>)> = vec![];
        loop {
            match strip_paren(&base).clone() {
                Expr::MethodCall(m)
                    if matches!(
                        m.method.to_string().as_str(),
                        "iter" | "into_iter" | "take" | "skip" | "copied" | "cloned" | "rev" | "enumerate"
                    ) =>
                {
                    chain.push((m.method.to_string(), m.args.iter().cloned().collect()));
                    base = (*m.receiver).clone();
                }
                Expr::MethodCall(m) if m.method == "chars" => {
                    let r = &m.receiver;
                    let mut r2 = (**r).clone();
                    self.visit_expr_mut(&mut r2);
                    base = pe(quote!(#r2.xchars()));
                    mode = "char";
                    break;
                }
                Expr::Reference(r) => {
                    mode = "ref";
                    base = (*r.expr).clone();
                    // `&*x`
                    if let Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) = &base {
                        base = (**expr).clone();
                    }
                    let isr = matches!(strip_paren(&base), Expr::Index(i) if is_range(&i.index));
                    self.visit_expr_mut(&mut base);
                    if !isr {
                        let b = base.clone();
                        base = pe(quote!(&#b));
                    }
                    break;
                }
                _ => {
                    let isr = matches!(strip_paren(&base), Expr::Index(i) if is_range(&i.index));
                    let isplace = matches!(strip_paren(&base), Expr::Path(_) | Expr::Field(_));
                    self.visit_expr_mut(&mut base);
                    if !chain.is_empty() && isplace && !isr {
                        let b = base.clone();
                        base = pe(quote!(&#b));
                    } else if isplace && !isr {
                        let b = base.clone();
                        base = pe(quote!(&#b));
                    }
                    break;
                }
            }
        }
        chain.reverse();
        let mut acc = base;
        let mut enumerate = false;
        for (n, args) in chain {
            match n.as_str() {
                "iter" => mode = "ref",
                "into_iter" => {}
                "copied" | "cloned" => mode = "val",
                "rev" => acc = pe(quote!(#acc.xrev())),
                "enumerate" => enumerate = true,
                "take" | "skip" => {
                    let mut a = args[0].clone();
                    self.visit_expr_mut(&mut a);
                    let mm = id(&format!("x{n}"));
                    acc = pe(quote!(#acc.#mm(#a)));
                }
                _ => {}
            }
        }
        self.visit_block_mut(&mut body);
        if !enumerate && matches!(&**pat, Pat::Tuple(_)) {
            // entries of a map
            acc = pe(quote!((#acc).xentries()));
            mode = "char";
        }
        let el = match mode {
            "ref" => quote!(&#vi[#ii]),
            "char" => quote!(#vi[#ii]),
            _ => quote!(#vi[#ii].xclone()),
        };
        let el = if enumerate { quote!((#ii, #el)) } else { el };
        self.autoinv.insert(k, (format!("__i{k} <= __v{k}@.len(), __e{k} == __v{k}@.len(),"), format!("__v{k}@.len() - __i{k}")));
        let st = &body.stmts;
        pe(quote!({
            let #vi = #acc;
            let mut #ii: usize = 0;
            let #ei: usize = #vi.len();
            while #ii < #vi.len() { __vx_inv!(#k); #hstart let #pat = #el; #ii += 1; #(#st)* #hend }
        }))
    }
    fn loop_hints(&mut self, k: usize) -> (TokenStream, TokenStream) {
        let mut a = quote!();
        let mut b = quote!();
        for h in self.hints.iter_mut() {
            if h.n == k && h.kind == "loopstart" {
                let i = h.id;
                a = quote!(#a __vx_hint!(#i););
                h.used = true;
            }
            if h.n == k && h.kind == "loopend" {
                let i = h.id;
                b = quote!(#b __vx_hint!(#i););
                h.used = true;
            }
        }
        (a, b)
    }
    /// X.iter().map(|p| B).collect()
    fn map_collect(&mut self, recv: &Expr, cl: &ExprClosure, ty: Option<Type>) -> Expr {
        let ann = ty.map(|mut t| {
            self.visit_type_mut(&mut t);
            quote!(: #t)
        });
        let pat = match &cl.inputs[0] {
            Pat::Type(t) => (*t.pat).clone(),
            p => p.clone(),
        };
        let body = &cl.body;
        let f: ExprForLoop = match syn::parse2::<Expr>(quote!(for __el in #recv { let #pat = __el; let __t = #body; __o.push(__t); })).unwrap() {
            Expr::ForLoop(f) => f,
            _ => unreachable!(),
        };
        let l = self.for_loop(&f);
        pe(quote!({ let mut __o #ann = Vec::new(); #l __o }))
    }
    /// `tried`: 0 value position, 1 under `?`, 2 the value is what the function returns
    fn inline(&mut self, abs: &str, args: Vec<Expr>, recv: Option<Expr>, tried: u8) -> Option<Expr> {
        if self.inl_depth > 3 {
            return None;
        }
        let (sig, mut block, module) = self.ix.find_fn(abs)?;
        let has_ret = has_tok(block.to_token_stream(), "return") || block.to_token_stream().to_string().contains('?');
        if has_ret && !(tried == 2 || tried == 1 && self.ret_is_result && only_err_returns(&block)) {
            // early returns go into tail position; `?` may stay only where the caller propagates the error
            let q = block.to_token_stream().to_string().contains('?');
            if q && !(tried == 1 && self.ret_is_result) {
                return None;
            }
            let mut budget = 40;
            block.stmts = structured(&block.stmts, &mut budget)?;
        }
        let self_ty = {
            let m = abs.rsplit_once("::").map_or("", |x| x.0);
            if m == module { self.self_ty.clone() } else { m.rsplit_once("::").map_or(m, |x| x.1).split('.').next().unwrap().to_string() }
        };
        let saved_ty = std::mem::replace(&mut self.self_ty, self_ty);
        if tried == 2 {
            let mm = module.clone();
            let sm = std::mem::replace(&mut self.module, mm);
            self.mark_tails(&mut block);
            self.module = sm;
        }
        let r = self.inline_body(abs, sig, block, module, args, recv);
        self.self_ty = saved_ty;
        r
    }
    /// calls of functions without contract whose value is the value of the function
    pub fn mark_tails(&mut self, b: &mut Block) {
        struct R<'b, 'a>(&'b Rw<'a>);
        impl<'b, 'a> VisitMut for R<'b, 'a> {
            fn visit_expr_closure_mut(&mut self, _: &mut ExprClosure) {}
            fn visit_item_mut(&mut self, _: &mut Item) {}
            fn visit_expr_return_mut(&mut self, r: &mut ExprReturn) {
                visit_mut::visit_expr_return_mut(self, r);
                if let Some(e) = &mut r.expr {
                    self.0.mark_tail(e);
                }
            }
        }
        R(self).visit_block_mut(b);
        if let Some(Stmt::Expr(e, None)) = b.stmts.last_mut() {
            self.mark_tail(e);
        }
    }
    fn mark_tail(&self, e: &mut Expr) {
        match e {
            Expr::Block(b) => {
                if let Some(Stmt::Expr(e, None)) = b.block.stmts.last_mut() {
                    self.mark_tail(e);
                }
            }
            Expr::If(i) => {
                if let Some(Stmt::Expr(e, None)) = i.then_branch.stmts.last_mut() {
                    self.mark_tail(e);
                }
                if let Some((_, e)) = &mut i.else_branch {
                    self.mark_tail(e);
                }
            }
            Expr::Match(m) => {
                for a in m.arms.iter_mut() {
                    self.mark_tail(&mut a.body);
                }
            }
            Expr::Paren(p) => self.mark_tail(&mut p.expr),
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    if p.qself.is_none() && self.bare_callee(&p.path).is_some() {
                        *e = pe(quote!(__vx_tail!(#e)));
                    }
                }
            }
            Expr::MethodCall(m) => {
                if self.method_callee(m).is_some() {
                    *e = pe(quote!(__vx_tail!(#e)));
                }
            }
            _ => {}
        }
    }
    /// in-crate function without contract
    fn bare_callee(&self, p: &Path) -> Option<String> {
        let ss = segs(p);
        if ss.len() == 1 && self.locals.contains(&ss[0]) {
            return None;
        }
        let abs = if ss[0] == "Self" && ss.len() == 2 { format!("{}::{}::{}", self.module, self.self_ty, ss[1]) } else { self.res(p)? };
        if self.ix.find_fn(&abs).is_some() && !self.names.contains_key(&abs) { Some(abs) } else { None }
    }
    fn inline_body(&mut self, abs: &str, sig: Signature, block: Block, module: String, args: Vec<Expr>, recv: Option<Expr>) -> Option<Expr> {
        let mut lets = quote!();
        let mut ai = args.into_iter();
        let mut uniq = vec![];
        for inp in sig.inputs.iter() {
            match inp {
                FnArg::Receiver(_) => {
                    let r = recv.clone()?;
                    if r.to_token_stream().to_string() != "self" {
                        return None;
                    }
                }
                FnArg::Typed(t) => {
                    let a = ai.next()?;
                    uniq.push(((*t.pat).clone(), (*t.ty).clone(), a));
                }
            }
        }
        for (j, (_, _, a)) in uniq.iter().enumerate() {
            let n = id(&format!("__a{}_{j}", self.inl_depth));
            lets = quote!(#lets let #n = #a;);
        }
        for (j, (p, t, _)) in uniq.iter().enumerate() {
            let n = id(&format!("__a{}_{j}", self.inl_depth));
            lets = quote!(#lets let #p: #t = #n;);
        }
        let mut b: Expr = pe(quote!({ #lets #block }));
        let saved = std::mem::replace(&mut self.module, module);
        let mut lo = bound(&block);
        for (p, _, _) in &uniq {
            if let Pat::Ident(i) = p {
                lo.insert(i.ident.to_string());
            }
        }
        self.locals.extend(lo);
        self.inl_depth += 1;
        self.visit_expr_mut(&mut b);
        self.inl_depth -= 1;
        self.module = saved;
        self.inlined.push(abs.to_string());
        Some(b)
    }
    fn numericish(&self, e: &Expr) -> bool {
        match strip_paren(e) {
            Expr::Lit(ExprLit { lit, .. }) => matches!(lit, Lit::Int(_) | Lit::Char(_) | Lit::Byte(_) | Lit::Bool(_)),
            Expr::Binary(b) => !matches!(b.op, BinOp::Add(_)) || self.numericish(&b.left) || self.numericish(&b.right),
            Expr::Cast(_) => true,
            Expr::Unary(ExprUnary { op: UnOp::Not(_) | UnOp::Neg(_), .. }) => true,
            Expr::MethodCall(m) => matches!(m.method.to_string().as_str(), "len" | "pow" | "is_some" | "is_none" | "is_ok" | "is_empty"),
            Expr::Path(p) => {
                let s = segs(&p.path);
                s.last().map_or(false, |x| x == "MAX") || self.res(&p.path).map_or(false, |a| self.ix.find_const(&a).is_some() && self.ix.str_const(&a).is_none())
            }
            _ => false,
        }
    }
    pub fn tokhints(&mut self, s: &Stmt) -> (Vec<usize>, Vec<usize>) {
        // innermost statement test is done by the caller (block visitor): only direct, non-block-nested tokens count
        let mut pre = vec![];
        let mut post = vec![];
        let ts = s.to_token_stream();
        let toks: BTreeSet<String> = self
            .hints
            .iter()
            .filter(|h| h.kind == "aftertok" || h.kind == "beforetok")
            .map(|h| h.arg.clone())
            .collect();
        for t in toks {
            if has_tok_shallow(ts.clone(), &t) {
                let c = self.tokcount.entry(t.clone()).or_insert(0);
                let n = *c;
                *c += 1;
                for h in self.hints.iter_mut() {
                    if h.arg == t && h.n == n {
                        if h.kind == "aftertok" {
                            post.push(h.id);
                            h.used = true;
                        }
                        if h.kind == "beforetok" {
                            pre.push(h.id);
                            h.used = true;
                        }
                    }
                }
            }
        }
        (pre, post)
    }
}
/// token occurs outside any brace group
fn has_tok_shallow(ts: TokenStream, t: &str) -> bool {
    ts.into_iter().any(|x| match x {
        proc_macro2::TokenTree::Ident(i) => i == t,
        proc_macro2::TokenTree::Group(g) => g.delimiter() != proc_macro2::Delimiter::Brace && has_tok_shallow(g.stream(), t),
        _ => false,
    })
}

struct HasRet(bool);
impl<'a> syn::visit::Visit<'a> for HasRet {
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    fn visit_item(&mut self, _: &'a Item) {}
    fn visit_expr_return(&mut self, _: &'a ExprReturn) {
        self.0 = true;
    }
}
fn stmt_ret(s: &Stmt) -> bool {
    let mut v = HasRet(false);
    syn::visit::Visit::visit_stmt(&mut v, s);
    v.0
}
fn expr_ret(e: &Expr) -> bool {
    let mut v = HasRet(false);
    syn::visit::Visit::visit_expr(&mut v, e);
    v.0
}
/// the same statements with every `return` moved into tail position (what follows an early return goes into
/// the branches that fall through); None where that is not possible (a return inside a loop or an operand)
fn structured(stmts: &[Stmt], budget: &mut usize) -> Option<Vec<Stmt>> {
    if *budget == 0 {
        return None;
    }
    *budget -= 1;
    let k = match stmts.iter().position(stmt_ret) {
        Some(k) => k,
        None => return Some(stmts.to_vec()),
    };
    let mut out: Vec<Stmt> = stmts[..k].to_vec();
    let rest = &stmts[k + 1..];
    let tail = match &stmts[k] {
        Stmt::Expr(e, semi) => branches(e, None, semi.is_some() || !rest.is_empty(), rest, budget)?,
        Stmt::Local(l) => {
            let init = l.init.as_ref()?;
            let pat = &l.pat;
            match &init.diverge {
                Some((_, els)) => {
                    if expr_ret(&init.expr) {
                        return None;
                    }
                    let els = match &**els {
                        Expr::Block(b) => structured(&b.block.stmts, budget)?,
                        _ => return None,
                    };
                    let r = structured(rest, budget)?;
                    let x = &init.expr;
                    pe(quote!(match #x { #pat => { #(#r)* } _ => { #(#els)* } }))
                }
                None => branches(&init.expr, Some(pat), true, rest, budget)?,
            }
        }
        _ => return None,
    };
    out.push(Stmt::Expr(tail, None));
    Some(out)
}
/// `e` as a statement (or as the initializer of `let pat`), followed by `rest`
fn branches(e: &Expr, pat: Option<&Pat>, unit: bool, rest: &[Stmt], budget: &mut usize) -> Option<Expr> {
    let go = |b: &[Stmt], budget: &mut usize| -> Option<TokenStream> {
        let mut v: Vec<Stmt> = b.to_vec();
        let leaves = matches!(v.last(), Some(Stmt::Expr(Expr::Return(_), _)));
        if !leaves {
            match (pat, v.last().cloned()) {
                (Some(p), Some(Stmt::Expr(x, None))) => {
                    v.pop();
                    v.push(syn::parse2(quote!(let #p = #x;)).ok()?);
                }
                (Some(_), _) => return None,
                (None, Some(Stmt::Expr(x, None))) if unit => {
                    v.pop();
                    v.push(Stmt::Expr(x, Some(Default::default())));
                }
                _ => {}
            }
            v.extend(rest.iter().cloned());
        }
        let s = structured(&v, budget)?;
        Some(quote!({ #(#s)* }))
    };
    match e {
        Expr::Return(r) => {
            let x = r.expr.as_ref()?;
            if expr_ret(x) { None } else { Some((**x).clone()) }
        }
        Expr::If(i) => {
            if expr_ret(&i.cond) {
                return None;
            }
            let a = go(&i.then_branch.stmts, budget)?;
            let b = match &i.else_branch {
                None => go(&[], budget)?,
                Some((_, x)) => match &**x {
                    Expr::Block(b) => go(&b.block.stmts, budget)?,
                    x @ Expr::If(_) => {
                        let y = branches(x, pat, unit, rest, budget)?;
                        quote!({ #y })
                    }
                    _ => return None,
                },
            };
            let c = &i.cond;
            Some(pe(quote!(if #c #a else #b)))
        }
        Expr::Match(m) => {
            if expr_ret(&m.expr) {
                return None;
            }
            let mut arms = vec![];
            for a in &m.arms {
                if a.guard.as_ref().map_or(false, |g| expr_ret(&g.1)) {
                    return None;
                }
                let b = match &*a.body {
                    Expr::Block(b) if b.label.is_none() => go(&b.block.stmts, budget)?,
                    x => go(&[Stmt::Expr(x.clone(), None)], budget)?,
                };
                let p = &a.pat;
                let g = a.guard.as_ref().map(|g| { let g = &g.1; quote!(if #g) });
                arms.push(quote!(#p #g => #b));
            }
            let x = &m.expr;
            Some(pe(quote!(match #x { #(#arms)* })))
        }
        Expr::Block(b) if b.label.is_none() => {
            let x = go(&b.block.stmts, budget)?;
            Some(pe(x))
        }
        Expr::Paren(p) => branches(&p.expr, pat, unit, rest, budget),
        _ => None,
    }
}

/// |x| *x == E, |&x| x == E and the like, E without x
fn eq_closure(cl: &ExprClosure) -> Option<Expr> {
    let (x, deref) = match cl.inputs.first()? {
        Pat::Ident(i) => (i.ident.to_string(), true),
        Pat::Reference(r) => match &*r.pat {
            Pat::Ident(i) => (i.ident.to_string(), false),
            _ => return None,
        },
        _ => return None,
    };
    let b = match strip_paren(&cl.body) {
        Expr::Binary(b) if matches!(b.op, BinOp::Eq(_)) => b.clone(),
        _ => return None,
    };
    let (l, r) = (strip_paren(&b.left), strip_paren(&b.right));
    let is_x = |e: &Expr| match e {
        Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) if deref => expr.to_token_stream().to_string() == x,
        Expr::Path(p) if !deref => p.to_token_stream().to_string() == x,
        _ => false,
    };
    if is_x(l) && !has_tok(quote!(#r), &x) {
        return Some(r.clone());
    }
    if is_x(r) && !has_tok(quote!(#l), &x) {
        return Some(l.clone());
    }
    // |x| x == &E
    if deref && l.to_token_stream().to_string() == x {
        if let Expr::Reference(q) = r {
            if !has_tok(quote!(#q), &x) {
                return Some((*q.expr).clone());
            }
        }
    }
    None
}

/// every explicit `return` leaves with an error
fn only_err_returns(b: &Block) -> bool {
    struct V(bool);
    impl<'a> syn::visit::Visit<'a> for V {
        fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
        fn visit_item(&mut self, _: &'a Item) {}
        fn visit_expr_return(&mut self, r: &'a ExprReturn) {
            let t = r.expr.as_ref().map_or(String::new(), |e| e.to_token_stream().to_string().replace(' ', ""));
            if !(t.starts_with("err!(") || t.starts_with("Err(")) {
                self.0 = false;
            }
        }
    }
    let mut v = V(true);
    syn::visit::Visit::visit_block(&mut v, b);
    v.0
}

impl<'a> VisitMut for Rw<'a> {
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let (Type::Path(p), Some(o)) = (&*t, &self.output) {
            if segs(&p.path) == ["Self", "Output"] {
                *t = o.clone();
            }
        }
        if let Type::Path(p) = t {
            if p.path.is_ident("f64") || p.path.is_ident("f32") {
                *t = syn::parse2(quote!(XF)).unwrap();
                return;
            }
            let s = segs(&p.path);
            if self.wasm() && s == ["serde_json", "Value"] {
                *t = syn::parse2(quote!(SerdeValue)).unwrap();
                return;
            }
            if self.wasm() && s == ["Array"] {
                // a JavaScript array held by one function: a vector of its elements
                *t = syn::parse2(quote!(Vec<JsValue>)).unwrap();
                return;
            }
            if s.len() == 1 && p.path.segments[0].arguments.is_none() {
                if let Some(a) = self.ix.alias(&self.module, &s[0]) {
                    *t = a;
                    self.visit_type_mut(t);
                    return;
                }
            }
            if let Some(v) = self.ix.extern_path(&self.module, &s) {
                let args = p.path.segments.last().map(|x| x.arguments.clone());
                let mut np: Path = syn::parse_str(&v.join("::")).unwrap();
                if let (Some(a), Some(l)) = (args, np.segments.last_mut()) {
                    l.arguments = a;
                }
                p.path = np;
                visit_mut::visit_type_mut(self, t);
                return;
            }
        }
        if let Type::Array(_) = t {
            *t = syn::parse2(quote!(Vec<u8>)).unwrap();
            return;
        }
        if let Type::Reference(r) = t {
            if let (Type::Slice(s), true) = (&*r.elem, r.mutability.is_some()) {
                // arrays are vectors: a mutable slice of one is the vector
                let el = &s.elem;
                *t = syn::parse2(quote!(&mut Vec<#el>)).unwrap();
                return;
            }
        }
        if let Type::Path(p) = t {
            let s = segs(&p.path);
            if s.len() == 1 && (s[0] == "String" || s[0] == "str") {
                *t = syn::parse2(quote!(XString)).unwrap();
                return;
            }
            if let Some(abs) = self.res(&p.path) {
                if let Some(n) = self.names.get(&abs) {
                    let n = id(n);
                    *t = syn::parse2(quote!(#n)).unwrap();
                    return;
                }
            }
        }
        visit_mut::visit_type_mut(self, t);
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out: Vec<Stmt> = vec![];
        let __n = b.stmts.len();
        for (__k, mut s) in std::mem::take(&mut b.stmts).into_iter().enumerate() {
            let __last = __k + 1 == __n;
            let (pre, post) = self.tokhints(&s);
            for i in pre {
                out.push(syn::parse2(quote!(__vx_hint!(#i);)).unwrap());
            }
            match &mut s {
                Stmt::Macro(m) if m.mac.path.is_ident("lazy_static") => {
                    match self.lazy_regex(m.mac.tokens.clone()) {
                        Ok(v) => out.extend(v),
                        Err(x) => self.err(x),
                    }
                    continue;
                }
                Stmt::Item(Item::Const(c)) => {
                    // local `const CODES: &[&str] = &[..]`
                    let n = &c.ident;
                    let mut e = (*c.expr).clone();
                    if let Expr::Reference(r) = &e {
                        e = (*r.expr).clone();
                    }
                    self.visit_expr_mut(&mut e);
                    out.push(syn::parse2(quote!(let #n = #e;)).unwrap());
                    continue;
                }
                Stmt::Item(Item::Use(_)) => continue,
                Stmt::Local(l) => {
                    if let (true, Some(init), Pat::Ident(i)) = (self.wasm(), &l.init, &mut l.pat) {
                        if init.expr.to_token_stream().to_string().starts_with("Array ::") && i.mutability.is_none() {
                            i.mutability = Some(Default::default());
                        }
                    }
                    if let Some(init) = &l.init {
                        let nm = match &l.pat {
                            Pat::Ident(i) => Some(i.ident.to_string()),
                            Pat::Type(t) => match &*t.pat {
                                Pat::Ident(i) => Some(i.ident.to_string()),
                                _ => None,
                            },
                            _ => None,
                        };
                        if let Some(nm) = nm {
                            if self.is_float(&init.expr) {
                                self.floats.insert(nm.clone());
                            }
                            if self.is_strish(&init.expr) {
                                self.strids.insert(nm);
                            }
                        }
                    }
                }
                _ => {}
            }
            // macro statement `err!(..);`, `vec![..]` tail etc: turn into expr
            if let Stmt::Macro(m) = &s {
                let mac = m.mac.clone();
                let stops = ["unreachable", "panic", "todo", "unimplemented"].iter().any(|n| mac.path.is_ident(n));
                // a stopping macro at the end of a block has any type
                let semi = if stops && __last { None } else { m.semi_token };
                s = Stmt::Expr(Expr::Macro(ExprMacro { attrs: vec![], mac }), semi);
            }
            self.visit_stmt_mut(&mut s);
            out.push(s);
            for i in post {
                out.push(syn::parse2(quote!(__vx_hint!(#i);)).unwrap());
            }
        }
        b.stmts = out;
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // ---- pre-order special forms ----
        if self.wasm() {
            self.wasm_pre(e);
        }
        if self.is_float(e) {
            *e = self.float(e);
            return;
        }
        // if X.any(|p| C) { return V; }: the loop that returns at the first match
        if let Expr::If(i) = e {
            if i.else_branch.is_none() {
                if let Expr::MethodCall(m) = strip_paren(&i.cond).clone() {
                    if let (true, Some(Expr::Closure(cl))) = (m.method == "any" && m.args.len() == 1, m.args.first()) {
                        let pat = cl.inputs.first().cloned();
                        let var = match &pat {
                            Some(Pat::Ident(p)) if p.subpat.is_none() => Some(p.ident.to_string()),
                            Some(Pat::Reference(r)) => match &*r.pat {
                                Pat::Ident(p) if p.subpat.is_none() => Some(p.ident.to_string()),
                                _ => None,
                            },
                            _ => None,
                        };
                        let then = i.then_branch.to_token_stream();
                        let returns = matches!(i.then_branch.stmts.last(), Some(Stmt::Expr(Expr::Return(_), _)));
                        let plain = |t: &TokenStream| !has_tok(t.clone(), "break") && !has_tok(t.clone(), "continue");
                        let body = &cl.body;
                        if let (Some(v), true) = (var, returns && eq_closure(cl).is_none() && plain(&then) && plain(&body.to_token_stream()) && !has_tok(body.to_token_stream(), "return")) {
                            if !has_tok(then.clone(), &v) {
                                let recv = &m.receiver;
                                if let Ok(Expr::ForLoop(f)) = syn::parse2::<Expr>(quote!(for #pat in #recv { if #body #then })) {
                                    *e = self.for_loop(&f);
                                    return;
                                }
                            }
                        }
                    }
                }
            }
        }
        // a shift of two literals is its value
        if let Expr::Binary(b) = e {
            if let (BinOp::Shl(_), Expr::Lit(ExprLit { lit: Lit::Int(x), .. }), Expr::Lit(ExprLit { lit: Lit::Int(y), .. })) = (&b.op, strip_paren(&b.left), strip_paren(&b.right)) {
                if let (Ok(v), Ok(s)) = (x.base10_parse::<u128>(), y.base10_parse::<u32>()) {
                    if s < 31 && v < 1 << 31 && v << s < 1 << 31 {
                        let l: Expr = syn::parse_str(&format!("{}{}", v << s, x.suffix())).unwrap();
                        *e = l;
                        return;
                    }
                }
            }
        }
        match e {
            Expr::Macro(m) => {
                let name = segs(&m.mac.path).last().cloned().unwrap_or_default();
                let ts = m.mac.tokens.clone();
                match name.as_str() {
                    "__vx_tail" => {
                        let x: Expr = syn::parse2(ts).unwrap();
                        let r = match &x {
                            Expr::Call(c) => {
                                if let Expr::Path(p) = &*c.func {
                                    let abs = self.bare_callee(&p.path);
                                    abs.and_then(|abs| self.inline(&abs, c.args.iter().cloned().collect(), None, 2))
                                } else {
                                    None
                                }
                            }
                            Expr::MethodCall(m) => {
                                let abs = self.method_callee(m);
                                abs.and_then(|abs| self.inline(&abs, m.args.iter().cloned().collect(), Some((*m.receiver).clone()), 2))
                            }
                            _ => None,
                        };
                        match r {
                            Some(x) => *e = x,
                            None => {
                                *e = x;
                                self.visit_expr_mut(e);
                            }
                        }
                    }
                    "err" => {
                        let ef = self.effects(ts);
                        *e = if ef.is_empty() { pe(quote!(Err(vxerr()))) } else { pe(quote!({ #(#ef)* Err(vxerr()) })) };
                    }
                    "format" => *e = self.format(ts),
                    "write" => {
                        // write!(f, "...", ..): the first argument takes the text
                        let mut it = ts.into_iter();
                        let mut f = TokenStream::new();
                        for t in it.by_ref() {
                            if matches!(&t, proc_macro2::TokenTree::Punct(p) if p.as_char() == ',') {
                                break;
                            }
                            f.extend([t]);
                        }
                        let x = self.format(it.collect());
                        let mut f = pe(f);
                        self.visit_expr_mut(&mut f);
                        *e = pe(quote!(#f.xwrite(#x)));
                    }
                    "vec" => {
                        // vec![x; n] / vec![a, b]
                        if let Ok(mut r) = syn::parse2::<ExprRepeat>(quote!([#ts])) {
                            self.visit_expr_mut(&mut r.expr);
                            self.visit_expr_mut(&mut r.len);
                            let (a, b) = (&r.expr, &r.len);
                            *e = pe(quote!(xvec_rep(#a, #b)));
                        } else if let Ok(mut a) = syn::parse2::<ExprArray>(quote!([#ts])) {
                            if a.elems.is_empty() {
                                *e = pe(quote!(Vec::new()));
                            } else {
                                for x in a.elems.iter_mut() {
                                    self.visit_expr_mut(x);
                                }
                                let el = &a.elems;
                                *e = pe(quote!(vec![#el]));
                            }
                        } else {
                            self.err("vec!".into());
                        }
                    }
                    "matches" => {
                        struct M(Expr, Pat, Option<Expr>);
                        impl syn::parse::Parse for M {
                            fn parse(i: syn::parse::ParseStream) -> syn::Result<Self> {
                                let e = i.parse()?;
                                i.parse::<Token![,]>()?;
                                let p = Pat::parse_multi_with_leading_vert(i)?;
                                let g = if i.peek(Token![if]) { i.parse::<Token![if]>()?; Some(i.parse()?) } else { None };
                                let _ = i.parse::<Option<Token![,]>>()?;
                                Ok(M(e, p, g))
                            }
                        }
                        match syn::parse2::<M>(ts) {
                            Ok(M(x, p, g)) => {
                                let g = g.map(|g| quote!(if #g));
                                let mut y = pe(quote!((match #x { #p #g => true, _ => false })));
                                self.visit_expr_mut(&mut y);
                                *e = y;
                            }
                            Err(_) => self.err("matches!".into()),
                        }
                    }
                    "dat" => {
                        let s = ts.to_string().replace(' ', "");
                        let v = id(self.names.get("data::Value").map_or("Value", |x| x.as_str()));
                        let fixed = match s.as_str() {
                            "null" => Some(quote!(#v::Null)),
                            "true" => Some(quote!(#v::Boolean(true))),
                            "false" => Some(quote!(#v::Boolean(false))),
                            "[]" => Some(quote!(#v::Array(Vec::new()))),
                            "{}" => Some(quote!(#v::Object(indexmap::IndexMap::new()))),
                            _ => None,
                        };
                        if let Some(x) = fixed {
                            *e = pe(x);
                        } else if s.starts_with('[') {
                            match syn::parse2::<ExprArray>(ts.clone()) {
                                Ok(a) => {
                                    let el: Vec<Expr> = a.elems.iter().map(|x| pe(quote!(dat!(#x)))).collect();
                                    let mut x = pe(quote!(#v::Array(vec![#(#el),*])));
                                    if let Expr::Call(c) = &mut x {
                                        self.visit_expr_mut(&mut c.args[0]);
                                    }
                                    *e = x;
                                }
                                Err(_) => self.err("dat!".into()),
                            }
                        } else if let (false, Ok(mut x)) = (s.starts_with('{'), syn::parse2::<Expr>(ts)) {
                            self.visit_expr_mut(&mut x);
                            *e = pe(quote!(<#v as XFrom<_>>::xfrom(#x)));
                        } else {
                            self.err("dat!".into());
                        }
                    }
                    "json" => match syn::parse2::<Expr>(ts) {
                        Ok(mut x) => {
                            self.visit_expr_mut(&mut x);
                            *e = pe(quote!((#x).xjson()));
                        }
                        Err(_) => self.err("json!".into()),
                    },
                    "unreachable" | "panic" | "todo" | "unimplemented" => *e = pe(quote!(vx_unreachable())),
                    _ => self.err(format!("macro {name}!")),
                }
                return;
            }
            Expr::Match(m) => {
                if let Some(x) = self.match_str(m) {
                    *e = x;
                    return;
                }
            }
            Expr::ForLoop(f) => {
                let f = f.clone();
                *e = self.for_loop(&f);
                return;
            }
            Expr::While(w) => {
                let k = self.loops;
                self.loops += 1;
                let (a, b) = self.loop_hints(k);
                self.visit_expr_mut(&mut w.cond);
                self.visit_block_mut(&mut w.body);
                let (c, st) = (&w.cond, &w.body.stmts);
                *e = pe(quote!(while #c { __vx_inv!(#k); #a #(#st)* #b }));
                return;
            }
            Expr::Loop(w) => {
                let k = self.loops;
                self.loops += 1;
                let (a, b) = self.loop_hints(k);
                self.visit_block_mut(&mut w.body);
                let st = &w.body.stmts;
                *e = pe(quote!(loop { __vx_inv!(#k); #a #(#st)* #b }));
                return;
            }
            Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => {
                *e = self.lit(s.value().into_bytes());
                return;
            }
            Expr::Lit(ExprLit { lit: Lit::Byte(_), .. }) => return,
            Expr::Path(p) => {
                if p.qself.is_none() {
                    let path = p.path.clone();
                    let ss = segs(&path);
                    // a local variable may share its name with a function
                    if ss.len() == 1 && self.locals.contains(&ss[0]) && self.res(&path).map_or(false, |a| self.ix.find_fn(&a).is_some()) {
                        return;
                    }
                    // Alias::f
                    if ss.len() == 2 {
                        if let Some(mut a) = self.ix.alias(&self.module, &ss[0]) {
                            self.visit_type_mut(&mut a);
                            let l = id(&ss[1]);
                            *e = pe(quote!(<#a>::#l));
                            return;
                        }
                    }
                    if let Some(v) = self.ix.extern_path(&self.module, &ss) {
                        p.path = syn::parse_str(&v.join("::")).unwrap();
                        return;
                    }
                    if let Some(x) = self.str_path(&path) {
                        *e = x;
                        return;
                    }
                    if let Some(abs) = self.res(&path) {
                        if let Some((c, _)) = self.ix.find_const(&abs) {
                            let n = id(&format!("k_{}", str_name(&abs)));
                            let t = &c.ty;
                            let ts = quote!(#t).to_string().replace(' ', "");
                            self.consts.insert(abs);
                            if ts.starts_with('[') || ts.starts_with('&') {
                                *e = pe(quote!(#n()));
                            } else {
                                *e = pe(quote!(#n));
                            }
                            return;
                        }
                        // Type::method or enum variant
                        let (h, l) = split(&abs);
                        if let Some(n) = self.names.get(&abs) {
                            let (hm, ht) = split(&h);
                            let method = *n == l && self.ix.has_item(&hm, &ht);
                            if !method && (segs(&path).len() > 1 || self.ix.find_fn(&abs).is_some()) {
                                let n = id(n);
                                *e = pe(quote!(#n));
                                return;
                            }
                        }
                        let (hm, ht) = split(&h);
                        if self.ix.has_item(&hm, &ht) {
                            let tn = id(self.names.get(&h).map(|s| s.as_str()).unwrap_or(&ht));
                            let l = id(&l);
                            *e = pe(quote!(#tn::#l));
                            return;
                        }
                    }
                    let s = segs(&path);
                    if s.len() == 2 && s[0] == "String" {
                        let l = id(&s[1]);
                        *e = pe(quote!(XString::#l));
                    } else if s == ["Default", "default"] {
                        *e = pe(quote!(XDefault::default));
                    }
                }
                return;
            }
            Expr::Call(c) => {
                let fs = c.func.to_token_stream().to_string().replace(' ', "");
                let last = fs.rsplit("::").next().unwrap_or("").to_string();
                if fs == "Zeroizing::new" {
                    let mut a = c.args[0].clone();
                    self.visit_expr_mut(&mut a);
                    *e = a;
                    return;
                }
                if fs == "std::str::from_utf8" {
                    let mut a = c.args[0].clone();
                    self.visit_expr_mut(&mut a);
                    *e = pe(quote!(xfrom_utf8_ref(#a)));
                    return;
                }
                if last == "from_str_radix" || last == "try_from" {
                    let t = fs.split("::").next().unwrap().to_string();
                    if matches!(t.as_str(), "u8" | "u16" | "u32" | "u64" | "u128" | "i8" | "i32" | "i64" | "usize") {
                        let n = id(&format!("x_{t}_{last}"));
                        let mut args: Vec<Expr> = c.args.iter().cloned().collect();
                        for a in args.iter_mut() {
                            self.visit_expr_mut(a);
                        }
                        *e = pe(quote!(#n(#(#args),*)));
                        return;
                    }
                }
                if last == "from_be_bytes" {
                    let t = fs.split("::").next().unwrap().to_string();
                    let n = id(&format!("x_{t}_from_be_bytes"));
                    let mut a = c.args[0].clone();
                    // strip .try_into()?
                    let mut fall = false;
                    if let Expr::Try(tr) = &a {
                        if let Expr::MethodCall(m) = &*tr.expr {
                            if m.method == "try_into" {
                                a = (*m.receiver).clone();
                                fall = true;
                            }
                        }
                    }
                    let isr = matches!(strip_paren(&a), Expr::Index(i) if is_range(&i.index));
                    self.visit_expr_mut(&mut a);
                    let a = if isr { quote!(#a) } else { quote!(&#a) };
                    if fall {
                        let n = id(&format!("x_{t}_try_from_be"));
                        *e = pe(quote!(#n(#a)?));
                    } else {
                        *e = pe(quote!(#n(#a)));
                    }
                    return;
                }
                if let (true, 1, Expr::Path(p)) = (last == "from", c.args.len(), &*c.func) {
                    let ss = segs(&p.path);
                    let t = if ss == ["Self", "from"] && self.in_from {
                        Some(quote!(Self))
                    } else if ss.len() >= 2 && p.qself.is_none() {
                        let mut q: Path = p.path.clone();
                        q.segments.pop();
                        q.segments.pop_punct();
                        self.res(&q).and_then(|a| self.names.get(&a).cloned()).map(|n| {
                            let n = id(&n);
                            quote!(#n)
                        })
                    } else {
                        None
                    };
                    if let Some(t) = t {
                        let mut a = c.args[0].clone();
                        self.visit_expr_mut(&mut a);
                        *e = pe(quote!(<#t as XFrom<_>>::xfrom(#a)));
                        return;
                    }
                }
                if fs == "usize::from" || fs == "u32::from" {
                    // usize::from(bool)
                    let mut a = c.args[0].clone();
                    self.visit_expr_mut(&mut a);
                    *e = pe(quote!((if #a { 1usize } else { 0usize })));
                    return;
                }
                if fs == "u128::from" || fs == "u64::from" {
                    let t = id(fs.split("::").next().unwrap());
                    let mut a = c.args[0].clone();
                    self.visit_expr_mut(&mut a);
                    *e = pe(quote!(((#a) as #t)));
                    return;
                }
                if let Expr::Path(p) = &*c.func {
                    if segs(&p.path)[0] == "Self" && p.qself.is_none() {
                        if let Some(abs) = self.bare_callee(&p.path) {
                            let args: Vec<Expr> = c.args.iter().cloned().collect();
                            if let Some(x) = self.inline(&abs, args, None, 0) {
                                *e = x;
                                return;
                            }
                        }
                    }
                }
                // unmapped in-crate function: inline (done in Try too)
                if let Expr::Path(p) = &*c.func {
                    let abs = if p.qself.is_none() { self.callee(&p.path) } else { None };
                    if let Some(abs) = abs {
                        let ss = segs(&p.path);
                        if ss.len() == 1 && self.locals.contains(&ss[0]) {
                            if let Some(n) = self.names.get(&abs) {
                                let n = id(n);
                                for a in c.args.iter_mut() {
                                    self.visit_expr_mut(a);
                                }
                                let args = &c.args;
                                *e = pe(quote!(#n(#args)));
                                return;
                            }
                        }
                        if !self.names.contains_key(&abs) && !self.known_method(&abs) {
                            let args: Vec<Expr> = c.args.iter().cloned().collect();
                            match self.inline(&abs, args, None, 0) {
                                Some(x) => *e = x,
                                None => {
                                    self.err(format!("no contract for callee {abs}"));
                                }
                            }
                            return;
                        }
                    }
                }
            }
            Expr::Try(t) => {
                // helper(..)? with inlining
                if let Expr::Call(c) = strip_paren(&t.expr) {
                    if let Expr::Path(p) = &*c.func {
                        if segs(&p.path)[0] == "Self" && p.qself.is_none() {
                            if let Some(abs) = self.bare_callee(&p.path) {
                                let args: Vec<Expr> = c.args.iter().cloned().collect();
                                if let Some(x) = self.inline(&abs, args, None, 1) {
                                    *e = pe(quote!((#x)?));
                                    return;
                                }
                            }
                        }
                    }
                }
                let inner = strip_paren(&t.expr).clone();
                match &inner {
                    Expr::Call(c) => {
                        if let Expr::Path(p) = &*c.func {
                            let abs = if p.qself.is_none() { self.callee(&p.path) } else { None };
                            if let Some(abs) = abs {
                                if !self.names.contains_key(&abs) && !self.known_method(&abs) {
                                    let args: Vec<Expr> = c.args.iter().cloned().collect();
                                    if let Some(x) = self.inline(&abs, args, None, 1) {
                                        *e = pe(quote!((#x)?));
                                        return;
                                    }
                                    self.err(format!("no contract for callee {abs}"));
                                    return;
                                }
                            }
                        }
                    }
                    Expr::MethodCall(m) => {
                        if let Some(x) = self.inline_method(m, true) {
                            *e = pe(quote!((#x)?));
                            return;
                        }
                    }
                    _ => {}
                }
            }
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                if let Some(x) = self.inline_method(&m.clone(), false) {
                    *e = x;
                    return;
                }
                // X.chars().next()
                if name == "next" {
                    if let Expr::MethodCall(r) = strip_paren(&m.receiver) {
                        if r.method == "chars" {
                            let mut x = (*r.receiver).clone();
                            self.visit_expr_mut(&mut x);
                            *e = pe(quote!(#x.xfirst_char()));
                            return;
                        }
                    }
                }
                // .try_into().unwrap() to u8
                if name == "unwrap" {
                    if let Expr::MethodCall(r) = strip_paren(&m.receiver) {
                        if r.method == "try_into" {
                            let mut x = (*r.receiver).clone();
                            self.visit_expr_mut(&mut x);
                            *e = pe(quote!((#x).xinto_u8_unwrap()));
                            return;
                        }
                    }
                }
                // base64 engine
                if matches!(name.as_str(), "encode_slice" | "decode_vec" | "encode" | "decode") {
                    let r = m.receiver.to_token_stream().to_string().replace(' ', "");
                    if r.ends_with("URL_SAFE") || r == "b64_engine" {
                        let n = id(&format!("xb64_{name}"));
                        let mut args: Vec<Expr> = m.args.iter().cloned().collect();
                        if !matches!(args[0], Expr::Reference(_)) {
                            let a = args[0].clone();
                            args[0] = pe(quote!(&#a));
                        }
                        for a in args.iter_mut() {
                            self.visit_expr_mut(a);
                        }
                        if name == "decode_vec" || name == "decode" {
                            let a = args[0].clone();
                            args[0] = pe(quote!((#a).xb64_src()));
                        }
                        *e = pe(quote!(#n(#(#args),*)));
                        return;
                    }
                }
                // copy_from_slice
                if name == "copy_from_slice" || name == "clone_from_slice" {
                    let mut src = m.args[0].clone();
                    self.visit_expr_mut(&mut src);
                    if let Expr::Index(ixp) = strip_paren(&m.receiver).clone() {
                        if let Expr::Range(r) = strip_paren(&ixp.index).clone() {
                            let mut base = (*ixp.expr).clone();
                            self.visit_expr_mut(&mut base);
                            let mut a = r.start.map(|x| *x).unwrap_or_else(|| pe(quote!(0usize)));
                            self.visit_expr_mut(&mut a);
                            match r.end {
                                Some(b) => {
                                    let mut b = *b;
                                    self.visit_expr_mut(&mut b);
                                    *e = pe(quote!(xcopy_into(&mut #base, #a, #b, #src)));
                                }
                                None => *e = pe(quote!(xcopy_into_from(&mut #base, #a, #src))),
                            }
                            return;
                        }
                    }
                    let mut base = (*m.receiver).clone();
                    self.visit_expr_mut(&mut base);
                    *e = pe(quote!(xcopy_all(&mut #base, #src)));
                    return;
                }
                // iterator pipelines
                if name == "collect" {
                    if let Expr::MethodCall(r) = strip_paren(&m.receiver).clone() {
                        if r.method == "map" {
                            if let Expr::Closure(cl) = &r.args[0] {
                                let ty = m.turbofish.as_ref().and_then(|t| match t.args.first() {
                                    Some(GenericArgument::Type(t)) if !t.to_token_stream().to_string().contains('_') => Some(t.clone()),
                                    _ => None,
                                });
                                *e = self.map_collect(&r.receiver, cl, ty);
                                return;
                            }
                        }
                        if r.method == "split" {
                            let mut x = Expr::MethodCall(r);
                            self.visit_expr_mut(&mut x);
                            *e = x;
                            return;
                        }
                    }
                }
                if name == "any" && matches!(m.args.first(), Some(Expr::Closure(_))) {
                    if let Expr::Closure(cl) = m.args[0].clone() {
                        // |x| *x == E is membership of E
                        if let Some(y) = eq_closure(&cl) {
                            let mut r = strip_paren(&m.receiver).clone();
                            if let Expr::MethodCall(i) = r.clone() {
                                if i.method == "iter" && i.args.is_empty() {
                                    r = (*i.receiver).clone();
                                    let mut z = pe(quote!(#r.contains(&#y)));
                                    self.visit_expr_mut(&mut z);
                                    *e = z;
                                    return;
                                }
                            }
                        }
                        let recv = &m.receiver;
                        let pat = &cl.inputs[0];
                        let body = &cl.body;
                        let f: ExprForLoop = match syn::parse2::<Expr>(quote!(for #pat in #recv { if #body { __any = true; } })).unwrap() {
                            Expr::ForLoop(f) => f,
                            _ => unreachable!(),
                        };
                        let l = self.for_loop(&f);
                        *e = pe(quote!({ let mut __any = false; #l __any }));
                        return;
                    }
                }
                if name == "all" && matches!(m.args.first(), Some(Expr::Closure(_))) {
                    if let Expr::Closure(cl) = m.args[0].clone() {
                        let recv = &m.receiver;
                        let pat = &cl.inputs[0];
                        let body = &cl.body;
                        let f: ExprForLoop = match syn::parse2::<Expr>(quote!(for #pat in #recv { if !(#body) { __ok = false; } })).unwrap() {
                            Expr::ForLoop(f) => f,
                            _ => unreachable!(),
                        };
                        let l = self.for_loop(&f);
                        *e = pe(quote!({ let mut __ok = true; #l __ok }));
                        return;
                    }
                }
                if name == "cloned" || name == "copied" {
                    if let Expr::MethodCall(r) = strip_paren(&m.receiver).clone() {
                        if r.method == "as_ref" {
                            let mut x = (*r.receiver).clone();
                            self.visit_expr_mut(&mut x);
                            *e = pe(quote!(#x.xclone()));
                            return;
                        }
                    }
                }
            }
            Expr::Cast(c) if self.is_float(&c.expr) => {
                let x = self.float(&c.expr);
                let n = id(&format!("xf_to_{}", c.ty.to_token_stream()));
                *e = pe(quote!(#n(#x)));
                return;
            }
            Expr::Reference(r) => {
                if let (true, Expr::Index(ixp)) = (r.mutability.is_some(), strip_paren(&r.expr)) {
                    if self.is_strish(&ixp.index) {
                        let mut base = (*ixp.expr).clone();
                        let mut k = (*ixp.index).clone();
                        self.visit_expr_mut(&mut base);
                        self.visit_expr_mut(&mut k);
                        *e = pe(quote!(#base.xidx_mut(#k)));
                        return;
                    }
                    if !is_range(&ixp.index) {
                        let mut base = (*ixp.expr).clone();
                        let mut k = (*ixp.index).clone();
                        self.visit_expr_mut(&mut base);
                        self.visit_expr_mut(&mut k);
                        *e = pe(quote!(#base.xat_mut(#k)));
                        return;
                    }
                }
                // &x[a..b]  and  &"lit"[a..b]
                if let Expr::Index(ixp) = strip_paren(&r.expr) {
                    if is_range(&ixp.index) && r.mutability.is_none() {
                        let mut x = (*r.expr).clone();
                        self.visit_expr_mut(&mut x);
                        *e = x;
                        return;
                    }
                }
                // &*x
                if matches!(strip_paren(&r.expr), Expr::Lit(ExprLit { lit: Lit::Str(_), .. })) {
                    let mut x = (*r.expr).clone();
                    self.visit_expr_mut(&mut x);
                    *e = x;
                    return;
                }
            }
            Expr::Index(ixp) => {
                if let Expr::Range(r) = strip_paren(&ixp.index).clone() {
                    let mut base = (*ixp.expr).clone();
                    self.visit_expr_mut(&mut base);
                    let z = pe(quote!(0usize));
                    let mut a = r.start.map(|x| *x).unwrap_or(z);
                    self.visit_expr_mut(&mut a);
                    let closed = matches!(r.limits, RangeLimits::Closed(_));
                    *e = match r.end {
                        Some(b) => {
                            let mut b = *b;
                            self.visit_expr_mut(&mut b);
                            if closed {
                                pe(quote!(#base.xslice(#a, (#b) + 1)))
                            } else {
                                pe(quote!(#base.xslice(#a, #b)))
                            }
                        }
                        None => pe(quote!(#base.xslice_from(#a))),
                    };
                    return;
                }
                let mapidx = self.is_strish(&ixp.index);
                let refidx = matches!(strip_paren(&ixp.index), Expr::Reference(_));
                if mapidx || refidx {
                    let mut base = (*ixp.expr).clone();
                    let mut k = (*ixp.index).clone();
                    self.visit_expr_mut(&mut base);
                    self.visit_expr_mut(&mut k);
                    *e = pe(quote!((*#base.xidx(#k))));
                    return;
                }
            }
            Expr::Assign(a) => {
                if let Expr::Index(ixp) = strip_paren(&a.left).clone() {
                    if self.is_strish(&ixp.index) {
                        let mut base = (*ixp.expr).clone();
                        let mut k = (*ixp.index).clone();
                        let mut v = (*a.right).clone();
                        self.visit_expr_mut(&mut base);
                        self.visit_expr_mut(&mut k);
                        self.visit_expr_mut(&mut v);
                        *e = pe(quote!(*#base.xidx_mut(#k) = #v));
                        return;
                    }
                }
            }
            Expr::Binary(b) => {
                if matches!(b.op, BinOp::Ge(_) | BinOp::Gt(_) | BinOp::Le(_) | BinOp::Lt(_)) && (self.is_float(&b.left) || self.is_float(&b.right)) {
                    let l = self.float(&b.left);
                    let r = self.float(&b.right);
                    let f = match b.op {
                        BinOp::Ge(_) => "xf_ge",
                        BinOp::Gt(_) => "xf_gt",
                        BinOp::Le(_) => "xf_le",
                        _ => "xf_lt",
                    };
                    let f = id(f);
                    *e = pe(quote!(#f(#l, #r)));
                    return;
                }
                if matches!(b.op, BinOp::AddAssign(_)) && (self.is_float(&b.left) || self.is_float(&b.right)) {
                    let l = self.float(&b.left);
                    let r = self.float(&b.right);
                    *e = pe(quote!(#l = xf_add(#l, #r)));
                    return;
                }
                if matches!(b.op, BinOp::Add(_)) {
                    let ls = match strip_paren(&b.left) {
                        Expr::MethodCall(m) => matches!(m.method.to_string().as_str(), "repeat" | "to_string" | "join" | "to_owned"),
                        _ => false,
                    };
                    if ls {
                        let mut l = (*b.left).clone();
                        let mut r = (*b.right).clone();
                        self.visit_expr_mut(&mut l);
                        self.visit_expr_mut(&mut r);
                        *e = pe(quote!(xcat(#l, #r)));
                        return;
                    }
                }
                if matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_)) && !self.numericish(&b.left) && !self.numericish(&b.right) {
                    let strip = |x: &Expr| -> (Expr, bool) {
                        match strip_paren(x) {
                            Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) => ((**expr).clone(), true),
                            y => (y.clone(), false),
                        }
                    };
                    let (mut l, _) = strip(&b.left);
                    let (mut r, _) = strip(&b.right);
                    let isr = matches!(&r, Expr::Index(i) if is_range(&i.index));
                    self.visit_expr_mut(&mut l);
                    self.visit_expr_mut(&mut r);
                    let c = if isr { quote!((#l).xeq(#r)) } else { quote!((#l).xeq(&(#r))) };
                    *e = if matches!(b.op, BinOp::Eq(_)) { pe(c) } else { pe(quote!((!#c))) };
                    return;
                }
            }
            Expr::Struct(s) => {
                if let Some(v) = self.ix.extern_path(&self.module, &segs(&s.path)) {
                    s.path = syn::parse_str(&v.join("::")).unwrap();
                }
                if let Some(abs) = self.res(&s.path) {
                    if let Some(n) = self.names.get(&abs) {
                        s.path = id(n).into();
                    }
                }
            }
            Expr::Repeat(r) => {
                self.visit_expr_mut(&mut r.expr);
                self.visit_expr_mut(&mut r.len);
                let (a, b) = (&r.expr, &r.len);
                *e = pe(quote!(xvec_rep(#a, #b)));
                return;
            }
            Expr::Array(a) => {
                let strs = !a.elems.is_empty() && a.elems.iter().all(|x| self.is_strish(x));
                for x in a.elems.iter_mut() {
                    self.visit_expr_mut(x);
                }
                let el = &a.elems;
                if strs {
                    let n = id(&xv_name(a.elems.len()));
                    *e = pe(quote!(#n(#el)));
                    return;
                }
                *e = if a.elems.is_empty() { pe(quote!(Vec::new())) } else { pe(quote!(vec![#el])) };
                return;
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
        // ---- errors are all the same value ----
        if let Expr::Call(c) = e {
            if let Expr::Path(p) = &*c.func {
                let t = p.path.to_token_stream().to_string();
                let f = t.split(" :: ").collect::<Vec<_>>();
                if f.len() >= 2 && f[f.len() - 2] == "Error" && f[f.len() - 1].starts_with(|c: char| c.is_uppercase()) {
                    *e = pe(quote!(vxerr()));
                    return;
                }
                if t == "Box :: new" && c.args.to_token_stream().to_string() == "vxerr ()" {
                    *e = pe(quote!(vxerr()));
                    return;
                }
            }
        }
        // ---- closures given to combinators of Option and Result ----
        if let Expr::MethodCall(m) = e {
            if m.method == "into" && m.receiver.to_token_stream().to_string() == "vxerr ()" {
                *e = pe(quote!(vxerr()));
                return;
            }
            let n = m.method.to_string();
            let leaves = |cl: &ExprClosure| cl.to_token_stream().to_string().split(|c: char| !(c.is_alphanumeric() || c == '_' || c == '?')).any(|t| t == "?" || t == "return");
            if let Some(Expr::Closure(cl)) = m.args.last().filter(|c| matches!(c, Expr::Closure(cl) if !leaves(cl))) {
                let r = &m.receiver;
                let b = &cl.body;
                let p: Vec<Pat> = cl.inputs.iter().map(|p| match p { Pat::Type(t) => (*t.pat).clone(), p => p.clone() }).collect();
                let f = m.args.first();
                let x = match (n.as_str(), p.as_slice()) {
                    ("map", [p]) => Some(quote!(match #r { Some(#p) => Some(#b), None => None })),
                    ("and_then", [p]) => Some(quote!(match #r { Some(#p) => #b, None => None })),
                    ("is_some_and", [p]) => Some(quote!(match #r { Some(#p) => #b, None => false })),
                    ("is_none_or", [p]) => Some(quote!(match #r { Some(#p) => #b, None => true })),
                    ("is_ok_and", [p]) => Some(quote!(match #r { Ok(#p) => #b, Err(_) => false })),
                    ("map_or", [p]) => Some(quote!(match #r { Some(#p) => #b, None => #f })),
                    ("map_err", [p]) => Some(quote!(match #r { Ok(__x) => Ok(__x), Err(#p) => Err(#b) })),
                    ("ok_or_else", []) => Some(quote!(match #r { Some(__x) => Ok(__x), None => Err(#b) })),
                    ("unwrap_or_else", []) => Some(quote!(match #r { Some(__x) => __x, None => #b })),
                    ("unwrap_or_else", [p]) => Some(quote!(match #r { Ok(__x) => __x, Err(#p) => #b })),
                    _ => None,
                };
                if let Some(x) = x {
                    *e = pe(x);
                    return;
                }
            }
            if n == "ok_or" && m.args.len() == 1 {
                let (r, a) = (&m.receiver, &m.args[0]);
                *e = pe(quote!(match #r { Some(__x) => Ok(__x), None => Err(#a) }));
                return;
            }
        }
        // ---- post-order method renames ----
        if let Expr::MethodCall(m) = e {
            let n = m.method.to_string();
            // `x.get(..b)`, `x.get(a..b)`
            if n == "get" && m.args.len() == 1 {
                let mut a0 = m.args[0].clone();
                while let Expr::Paren(p) = a0 {
                    a0 = *p.expr;
                }
                if let Expr::Range(r) = &a0 {
                    if let (Some(b), RangeLimits::HalfOpen(_)) = (&r.end, &r.limits) {
                        let a = r.start.as_ref().map(|a| quote!(#a)).unwrap_or(quote!(0usize));
                        let base = &m.receiver;
                        *e = pe(quote!(#base.xget_rng(#a, #b)));
                        return;
                    }
                }
            }
            // `[a, b, c].concat()`
            if n == "concat" && m.args.is_empty() {
                let elems: Option<Vec<Expr>> = match strip_paren(&m.receiver) {
                    Expr::Array(a) => Some(a.elems.iter().cloned().collect()),
                    Expr::Macro(mc) if mc.mac.path.is_ident("vec") => {
                        mc.mac.parse_body_with(syn::punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).ok().map(|p| p.into_iter().collect())
                    }
                    _ => None,
                };
                if let Some(elems) = elems {
                    let mut acc = quote!(xnil());
                    for x in &elems {
                        acc = quote!(&xbcat(#acc, #x));
                    }
                    *e = pe(quote!((#acc).xto_vec()));
                    return;
                }
            }
            if n == "as_deref" && m.args.is_empty() {
                m.method = id("as_ref");
                return;
            }
            if n == "unwrap_or" && m.args.len() == 1 && m.args.to_token_stream().to_string() == "& Vec :: new ()" {
                m.args = syn::punctuated::Punctuated::new();
                m.args.push(pe(quote!(xempty())));
                return;
            }
            let new = match n.as_str() {
                "contains" | "pow" | "to_be_bytes" | "to_vec" | "to_string" | "clone" | "is_empty" | "zeroize" | "to_owned" | "join" | "reverse" | "sort" | "dedup"
                | "replace" | "repeat" | "try_into" | "remove" | "contains_key" | "shift_remove" | "as_bytes" | "numer" | "denom" | "into" | "get_mut" | "abs_diff" | "extend" | "extend_from_slice" => Some(format!("x{n}")),
                "sort_unstable" => Some("xsort".into()),
                "split" => Some(if matches!(m.args.first(), Some(Expr::Lit(ExprLit { lit: Lit::Char(_), .. }))) { "xsplit_char".into() } else { "xsplit".into() }),
                "starts_with" => Some(if matches!(m.args.first(), Some(Expr::Lit(ExprLit { lit: Lit::Char(_), .. }))) {
                    "xstarts_with_char".into()
                } else {
                    "xstarts_with".into()
                }),
                "parse" => {
                    let t = m.turbofish.as_ref().map(|t| t.args.to_token_stream().to_string()).unwrap_or_default();
                    m.turbofish = None;
                    Some(format!("xparse_{t}"))
                }
                "unwrap_or_default" => {
                    m.args.push(pe(quote!(0)));
                    Some("unwrap_or".into())
                }
                _ => None,
            };
            if let Some(nn) = new {
                m.method = id(&nn);
            }
        }
    }
}

impl<'a> Rw<'a> {
    fn wasm(&self) -> bool {
        self.module.starts_with("wasm::")
    }
    /// forms of the WebAssembly crate: errors keep that they are errors, functions given by name
    fn wasm_pre(&mut self, e: &mut Expr) {
        if let Expr::MethodCall(m) = e {
            let n = m.method.to_string();
            let arg = m.args.to_token_stream().to_string().replace(' ', "");
            if (n == "as_js" && m.args.is_empty()) || (n == "map_err" && arg == "JsValue::from") {
                *e = strip_paren(&m.receiver).clone();
                return self.wasm_pre(e);
            }
            if n == "collect" {
                let mut r = strip_paren(&m.receiver).clone();
                self.wasm_pre(&mut r);
                m.receiver = Box::new(r);
            }
            if n == "map" {
                if let Some(Expr::Path(p)) = m.args.first() {
                    m.args = [pe(quote!(|__p| #p(__p)))].into_iter().collect();
                }
            }
            if n == "expect" {
                m.method = id("unwrap");
                m.args = Default::default();
            }
            if n == "unwrap_or_default" {
                m.method = id("xunwrap_or_default");
            }
            if n == "as_deref" {
                m.method = id("xas_deref");
            }
            if n == "for_each" {
                if let (Some(Expr::Closure(cl)), Expr::Range(_)) = (m.args.first(), strip_paren(&m.receiver)) {
                    let (p, b, r) = (&cl.inputs[0], &cl.body, strip_paren(&m.receiver));
                    let p = match p {
                        Pat::Type(t) => (*t.pat).clone(),
                        p => p.clone(),
                    };
                    *e = pe(quote!(for #p in #r { #b; }));
                    return;
                }
            }
            if n == "set" && m.args.len() == 2 {
                m.method = id("xjs_set");
            }
        }
        if let Expr::Call(c) = e {
            let f = c.func.to_token_stream().to_string().replace(' ', "");
            if f == "Into::into" && c.args.len() == 1 {
                let a = &c.args[0];
                *e = pe(quote!(#a.into()));
            } else if f == "Array::new_with_length" {
                c.func = Box::new(pe(quote!(xjs_array)));
            } else if f == "serde_json::from_str" {
                c.func = Box::new(pe(quote!(xserde_from_str)));
            }
        }
    }
    fn callee(&self, p: &Path) -> Option<String> {
        let abs = self.res(p)?;
        if self.ix.find_fn(&abs).is_some() { Some(abs) } else { None }
    }
    /// Type::method of a type that is under contract (emitted under its own name)
    fn known_method(&self, abs: &str) -> bool {
        self.names.contains_key(abs)
    }
    /// self.helper(..) where helper is an inherent fn without contract
    fn inline_method(&mut self, m: &ExprMethodCall, tried: bool) -> Option<Expr> {
        let abs = self.method_callee(m)?;
        let args: Vec<Expr> = m.args.iter().cloned().collect();
        self.inline(&abs, args, Some((*m.receiver).clone()), tried as u8)
    }
    fn method_callee(&self, m: &ExprMethodCall) -> Option<String> {
        if m.receiver.to_token_stream().to_string() != "self" {
            return None;
        }
        let n = m.method.to_string();
        // candidates: any type in this module (inherent impls / traits)
        let md = self.ix.mods.get(&self.module)?;
        let mut cand = None;
        for it in &md.items {
            match it {
                Item::Impl(im) if im.trait_.is_none() => {
                    let t = &im.self_ty;
                    let tn = quote!(#t).to_string().replace(' ', "");
                    for ii in &im.items {
                        if let ImplItem::Fn(f) = ii {
                            if f.sig.ident == n {
                                cand = Some(format!("{}::{}::{}", self.module, tn, n));
                            }
                        }
                    }
                }
                Item::Trait(t) => {
                    for ti in &t.items {
                        if let TraitItem::Fn(f) = ti {
                            if f.sig.ident == n && f.default.is_some() {
                                cand = Some(format!("{}::{}::{}", self.module, t.ident, n));
                            }
                        }
                    }
                }
                _ => {}
            }
        }
        let abs = cand?;
        if self.names.contains_key(&abs) {
            return None;
        }
        Some(abs)
    }
}

/// a loop that ends in `x = E; break` right before a tail that only wraps x: the same as returning there
pub fn break_returns(b: &mut Block) {
    use syn::visit_mut::VisitMut;
    let n = b.stmts.len();
    if n < 2 {
        return;
    }
    let Some(Stmt::Expr(tail, None)) = b.stmts.last().cloned() else { return };
    let x = match &tail {
        Expr::Path(p) => p.path.get_ident().cloned(),
        Expr::Call(c) if c.args.len() == 1 && matches!(&*c.func, Expr::Path(f) if f.path.is_ident("Ok") || f.path.is_ident("Some")) => match &c.args[0] {
            Expr::Path(p) => p.path.get_ident().cloned(),
            _ => None,
        },
        _ => None,
    };
    let Some(x) = x else { return };
    let bare = matches!(tail, Expr::Path(_));
    let Some(Stmt::Expr(lp, _)) = b.stmts.get(n - 2) else { return };
    let mut lp = lp.clone();
    struct B<'a> {
        x: &'a Ident,
        tail: &'a Expr,
        bare: bool,
        hits: usize,
    }
    impl<'a> VisitMut for B<'a> {
        fn visit_expr_closure_mut(&mut self, _: &mut ExprClosure) {}
        fn visit_expr_for_loop_mut(&mut self, _: &mut ExprForLoop) {}
        fn visit_expr_while_mut(&mut self, _: &mut ExprWhile) {}
        fn visit_expr_loop_mut(&mut self, _: &mut ExprLoop) {}
        fn visit_block_mut(&mut self, b: &mut Block) {
            syn::visit_mut::visit_block_mut(self, b);
            let k = b.stmts.len();
            if k < 2 {
                return;
            }
            let brk = matches!(&b.stmts[k - 1], Stmt::Expr(Expr::Break(r), _) if r.label.is_none() && r.expr.is_none());
            let Stmt::Expr(Expr::Assign(a), Some(_)) = b.stmts[k - 2].clone() else { return };
            if !brk || !matches!(&*a.left, Expr::Path(p) if p.path.is_ident(self.x)) {
                return;
            }
            let v = &a.right;
            let e = if self.bare { (**v).clone() } else { let Expr::Call(c) = self.tail else { return }; let f = &c.func; pe(quote!(#f(#v))) };
            b.stmts.truncate(k - 2);
            b.stmts.push(syn::parse2(quote!(return #e;)).unwrap());
            self.hits += 1;
        }
    }
    let mut v = B { x: &x, tail: &tail, bare, hits: 0 };
    let body = match &mut lp {
        Expr::ForLoop(f) if f.label.is_none() => &mut f.body,
        Expr::While(w) if w.label.is_none() => &mut w.body,
        _ => return,
    };
    v.visit_block_mut(body);
    if v.hits == 0 || has_tok(body.to_token_stream(), &x.to_string()) {
        // the loop uses the variable in another way
        return;
    }
    b.stmts[n - 2] = Stmt::Expr(lp, Some(Default::default()));
}
