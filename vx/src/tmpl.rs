//! Template processing: specs/*.vrs + extracted functions -> one Verus crate.
use crate::print::{self, Splice};
use crate::res::*;
use crate::rw::{self, Hint, Rw};
use quote::{quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit_mut::VisitMut;
use syn::*;
use crate::res::Index;

type R<T> = std::result::Result<T, String>;

#[derive(Default, Clone)]
struct FnBlock {
    abs: String,
    name: String,
    ret: String,
    params: Vec<String>,
    contract: Vec<String>,
    attrs: Vec<String>,
    loops: BTreeMap<usize, Vec<String>>,
    hints: Vec<(Hint, String)>,
    refs: Vec<usize>,
    optional: bool,
    noiso: bool,
    line: usize,
}
enum Piece {
    Text(String),
    Fn(FnBlock),
    Struct(String, String),
    /// a type known by name only
    Opaque(String, String),
    Strs(String),
}
struct Unit {
    name: String,
    uses: Vec<String>,
    imports: Vec<String>,
    /// contracts taken as proved elsewhere: functions become stubs, lemmas keep their statement only
    imported: bool,
    pieces: Vec<Piece>,
}

fn parse_unit(dir: &str, name: &str) -> R<Unit> {
    let p = format!("{dir}/{name}.vrs");
    let s0 = std::fs::read_to_string(&p).map_err(|e| format!("{p}: {e}"))?;
    // //@include file A=x B=y : text with $A, $B replaced
    let mut s = String::new();
    for line in s0.lines() {
        if let Some(d) = line.trim().strip_prefix("//@include ") {
            let w: Vec<&str> = d.split_whitespace().collect();
            let f = format!("{dir}/{}", w[0]);
            let mut t = std::fs::read_to_string(&f).map_err(|e| format!("{f}: {e}"))?;
            for kv in &w[1..] {
                let (k, v) = kv.split_once('=').unwrap_or((kv, ""));
                t = t.replace(&format!("${k}"), v);
            }
            s.push_str(&t);
        } else {
            s.push_str(line);
        }
        s.push('\n');
    }
    let mut u = Unit { name: name.into(), uses: vec![], imports: vec![], imported: false, pieces: vec![] };
    let mut cur: Option<FnBlock> = None;
    // section of the fn block: contract | loop k | hint idx
    let mut sec: (u8, usize) = (0, 0);
    for (ln, line) in s.lines().enumerate() {
        let t = line.trim();
        if let Some(d) = t.strip_prefix("//@") {
            let w: Vec<&str> = d.split_whitespace().collect();
            if w.is_empty() {
                continue;
            }
            let n1 = w.get(1).and_then(|x| x.parse::<usize>().ok());
            match (w[0], cur.as_mut()) {
                ("uses", None) => u.uses.extend(w[1..].iter().map(|s| s.to_string())),
                ("imports", None) => u.imports.extend(w[1..].iter().map(|s| s.to_string())),
                ("fn", None) | ("fn?", None) => {
                    if w.len() < 4 {
                        return Err(format!("{p}:{}: fn directive", ln + 1));
                    }
                    cur = Some(FnBlock { abs: w[1].into(), name: w[3].into(), ret: "r".into(), optional: w[0] == "fn?", line: ln + 1, ..Default::default() });
                    sec = (0, 0);
                }
                ("struct", None) => u.pieces.push(Piece::Struct(w[1].into(), w[3].into())),
                ("opaque", None) => u.pieces.push(Piece::Opaque(w[1].into(), w[3].into())),
                ("strs", None) => u.pieces.push(Piece::Strs(w[1].into())),
                ("ret", Some(f)) => f.ret = w[1].into(),
                ("params", Some(f)) => f.params = w[1..].iter().map(|s| s.to_string()).collect(),
                ("attr", Some(f)) => f.attrs.push(w[1..].join(" ")),
                ("isolate", Some(f)) => f.noiso = true,
                ("ref", Some(f)) => f.refs.push(n1.unwrap_or(0)),
                ("loop", Some(f)) => {
                    let k = n1.unwrap_or(0);
                    f.loops.insert(k, vec![]);
                    sec = (1, k);
                }
                ("start", Some(f)) | ("tail", Some(f)) | ("loopstart", Some(f)) | ("loopend", Some(f)) => {
                    let h = Hint { kind: w[0].into(), arg: String::new(), n: n1.unwrap_or(0), id: f.hints.len(), used: false };
                    f.hints.push((h, String::new()));
                    sec = (2, f.hints.len() - 1);
                }
                ("aftertok", Some(f)) | ("beforetok", Some(f)) => {
                    let h = Hint {
                        kind: w[0].into(),
                        arg: w[1].into(),
                        n: w.get(2).and_then(|x| x.parse().ok()).unwrap_or(0),
                        id: f.hints.len(),
                        used: false,
                    };
                    f.hints.push((h, String::new()));
                    sec = (2, f.hints.len() - 1);
                }
                ("end", Some(_)) => u.pieces.push(Piece::Fn(cur.take().unwrap())),
                _ => return Err(format!("{p}:{}: bad directive {t}", ln + 1)),
            }
            continue;
        }
        match cur.as_mut() {
            Some(f) => match sec.0 {
                0 => f.contract.push(line.to_string()),
                1 => f.loops.get_mut(&sec.1).unwrap().push(line.to_string()),
                _ => {
                    let h = &mut f.hints[sec.1].1;
                    h.push_str(line);
                    h.push('\n');
                }
            },
            None => u.pieces.push(Piece::Text(line.to_string())),
        }
    }
    if cur.is_some() {
        return Err(format!("{p}: unterminated //@fn"));
    }
    Ok(u)
}

fn collect(dir: &str, name: &str, imported: bool, seen: &mut BTreeSet<String>, out: &mut Vec<Unit>) -> R<()> {
    if !seen.insert(name.to_string()) {
        if !imported {
            let uses: Vec<String> = match out.iter_mut().find(|u| u.name == name && u.imported) {
                Some(u) => {
                    u.imported = false;
                    u.uses.clone()
                }
                None => vec![],
            };
            for d in uses {
                collect(dir, &d, false, seen, out)?;
            }
        }
        return Ok(());
    }
    let mut u = parse_unit(dir, name)?;
    u.imported = imported;
    for d in &u.uses {
        collect(dir, d, imported, seen, out)?;
    }
    for d in &u.imports {
        collect(dir, d, true, seen, out)?;
    }
    out.push(u);
    Ok(())
}

fn actual_name(t: &PatType) -> Option<String> {
    match &*t.pat {
        Pat::Ident(p) => Some(p.ident.to_string()),
        _ => None,
    }
}
/// how a function is reported: Type::method, or the template's name for a free function
fn key(abs: &str, name: &str) -> String {
    let (h, _) = split(abs);
    let (_, t) = split(&h);
    if let Some((a, b)) = t.split_once('.') {
        if b.contains('<') {
            return format!("{a}({b})::{}", split(abs).1);
        }
    }
    let t = t.split('.').next().unwrap_or("").to_string();
    if t.chars().next().map_or(false, |c| c.is_uppercase()) && t != "Codex" {
        format!("{t}::{name}")
    } else {
        name.to_string()
    }
}
/// replace whole identifiers
fn subst(s: &str, m: &BTreeMap<String, String>) -> String {
    let mut out = String::new();
    let b: Vec<char> = s.chars().collect();
    let mut i = 0;
    while i < b.len() {
        if b[i].is_alphabetic() || b[i] == '_' {
            let mut j = i;
            while j < b.len() && (b[j].is_alphanumeric() || b[j] == '_') {
                j += 1;
            }
            let w: String = b[i..j].iter().collect();
            let field = i > 0 && b[i - 1] == '.' && !(i > 1 && b[i - 2] == '.');
            match m.get(&w) {
                Some(x) if !field => out.push_str(x),
                _ => out.push_str(&w),
            }
            i = j;
        } else {
            out.push(b[i]);
            i += 1;
        }
    }
    out
}
/// K"..." in spec text -> identity (cid) of the literal
fn ksub(s: &str) -> String {
    let mut out = String::new();
    let mut rest = s;
    while let Some(i) = rest.find("K\"") {
        let ok = i == 0 || { let c = rest[..i].chars().last().unwrap(); !c.is_alphanumeric() && c != '"' };
        let r2 = &rest[i + 2..];
        match (ok, r2.find('"')) {
            (true, Some(j)) => {
                out.push_str(&rest[..i]);
                out.push_str(&cid(r2[..j].as_bytes()).unwrap_or(0).to_string());
                rest = &r2[j + 1..];
            }
            _ => {
                out.push_str(&rest[..i + 2]);
                rest = r2;
            }
        }
    }
    out.push_str(rest);
    out
}
/// L"..." in spec text -> spec value of the literal
fn lsub(s: &str, lits: &mut BTreeSet<Vec<u8>>) -> String {
    let s: &str = &ksub(s);
    let mut out = String::new();
    let mut rest = s;
    while let Some(i) = rest.find("L\"") {
        let ok = i == 0 || !rest[..i].chars().last().unwrap().is_alphanumeric();
        if !ok {
            out.push_str(&rest[..i + 2]);
            rest = &rest[i + 2..];
            continue;
        }
        out.push_str(&rest[..i]);
        let r2 = &rest[i + 2..];
        let j = r2.find('"').unwrap_or(r2.len());
        let v = r2[..j].as_bytes().to_vec();
        out.push_str(&format!("s{}()", rw::lit_name(&v)));
        lits.insert(v);
        rest = &r2[(j + 1).min(r2.len())..];
    }
    out.push_str(rest);
    out
}

pub fn cid(b: &[u8]) -> Option<u128> {
    if b.len() > 8 {
        return None;
    }
    let mut v: u128 = 1;
    for x in b {
        v = v * 256 + *x as u128;
    }
    Some(v)
}
fn seqlit(b: &[u8]) -> String {
    if b.is_empty() {
        return "Seq::<u8>::empty()".into();
    }
    format!("seq![{}]", b.iter().map(|x| format!("{x}u8")).collect::<Vec<_>>().join(", "))
}

pub fn run(repo: &str, dir: &str, unit: &str, out_rs: &str, out_json: &str, skip: &BTreeSet<String>) -> R<()> {
    let mut untr: Vec<serde_json::Value> = vec![];
    let ix = Index::load(repo)?;
    let mut units = vec![];
    let mut seen = BTreeSet::new();
    for u in unit.split(',') {
        collect(dir, u, false, &mut seen, &mut units)?;
    }
    let mut names: BTreeMap<String, String> = BTreeMap::new();
    for u in &units {
        for p in &u.pieces {
            match p {
                Piece::Fn(f) => {
                    names.insert(f.abs.clone(), f.name.clone());
                }
                Piece::Struct(a, n) | Piece::Opaque(a, n) => {
                    names.insert(a.clone(), n.clone());
                }
                _ => {}
            }
        }
    }
    let mut lits: BTreeSet<Vec<u8>> = BTreeSet::new();
    let mut strs: BTreeSet<String> = BTreeSet::new();
    let mut consts: BTreeSet<String> = BTreeSet::new();
    let mut errs: Vec<String> = vec![];
    let mut fns: Vec<serde_json::Value> = vec![];
    let mut body = String::new();
    let prelude = std::fs::read_to_string(format!("{dir}/prelude.rs")).map_err(|e| format!("prelude: {e}"))?;
    let prelude = lsub(&prelude, &mut lits);
    let mut nl = prelude.matches('\n').count() + 1; // 1-based line of next char
    macro_rules! put {
        ($s:expr) => {{
            let s: &str = $s;
            nl += s.matches('\n').count();
            body.push_str(s);
        }};
    }
    for u in &units {
        put!(&format!("\npub mod {} {{\n#[allow(unused_imports)] use vstd::prelude::*;\n#[allow(unused_imports)] use super::prelude::*;\n#[allow(unused_imports)] use super::lits::*;\n", u.name));
        for v in &units {
            if v.name == u.name {
                break;
            }
            put!(&format!("#[allow(unused_imports)] use super::{}::*;\n", v.name));
        }
        put!("verus! {\n");
        let mut via = false;
        for p in &u.pieces {
            match p {
                Piece::Text(t) => {
                    let mut t = lsub(t, &mut lits);
                    // a termination argument of a specification is not a lemma
                    let was = via;
                    via = t.trim_end().ends_with("#[via_fn]");
                    if was {
                        put!(&t);
                        put!("\n");
                        continue;
                    }
                    // every lemma gets a solver of its own: a proof does not depend on its neighbours
                    if t.starts_with("pub proof fn") || t.starts_with("proof fn") || t.starts_with("pub broadcast proof fn") {
                        t.insert_str(0, if u.imported { "#[verifier::external_body] /*imported*/ " } else { "#[verifier::spinoff_prover] " });
                    } else if u.imported && t.starts_with("fn thm_") {
                        t.insert_str(0, "#[verifier::external_body] /*imported*/ ");
                    }
                    put!(&t);
                    put!("\n");
                }
                Piece::Strs(m) => {
                    if let Some(md) = ix.mods.get(m) {
                        for it in &md.items {
                            if let Item::Const(c) = it {
                                let abs = format!("{m}::{}", c.ident);
                                if ix.str_const(&abs).is_some() {
                                    strs.insert(abs);
                                }
                            }
                        }
                    } else {
                        errs.push(format!("module {m} not found"));
                    }
                }
                Piece::Struct(abs, n) => match emit_struct(&ix, &names, abs, n, &mut lits, &mut strs, &mut consts) {
                    Ok(s) => put!(&s),
                    Err(e) => errs.push(e),
                },
                Piece::Opaque(abs, n) => {
                    let (m, t) = split(abs);
                    if ix.has_item(&m, &t) {
                        put!(&format!("#[verifier::external_body] pub struct {n} {{ _p: () }}\nimpl XClone for {n} {{ open spec fn same(&self, o: &Self) -> bool {{ self == o }} #[verifier::external_body] fn xclone(&self) -> (r: Self) {{ unimplemented!() }} }}\n"));
                    } else {
                        errs.push(format!("type {abs} not found"));
                    }
                }
                Piece::Fn(f) => {
                    let (mut l2, mut s2, mut c2) = (lits.clone(), strs.clone(), consts.clone());
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| emit_fn(&ix, &names, f, &mut l2, &mut s2, &mut c2)));
                    let r = r.unwrap_or_else(|_| Err(format!("{}: not supported", f.abs)));
                    match r {
                        Ok(em) => {
                            lits = l2;
                            strs = s2;
                            consts = c2;
                            let st = nl;
                            let key = key(&f.abs, &f.name);
                            let sk = skip.contains(&f.name) || skip.contains(&key) || !em.errs.is_empty();
                            if u.imported {
                                put!(&em.stub.replacen("external_body]", "external_body] /*imported*/", 1));
                            } else if sk {
                                // outside the verifier's reach: its contract is assumed, the driver says so
                                put!(&em.stub);
                                let why = if em.errs.is_empty() { "not accepted by the verifier front end".to_string() } else { em.errs.join("; ") };
                                untr.push(serde_json::json!({"abs": f.abs, "name": key, "why": why}));
                            } else {
                                put!(&em.text);
                            }
                            if !u.imported {
                                fns.push(serde_json::json!({"unit": u.name, "abs": f.abs, "name": key, "short": f.name, "start": st, "end": nl, "inlined": em.inl, "notes": em.notes, "spec_line": f.line, "loops": em.loops, "lost": em.lost, "stub": sk}));
                            }
                        }
                        Err(_) if f.optional => {}
                        Err(e) => untr.push(serde_json::json!({"abs": f.abs, "name": key(&f.abs, &f.name), "why": e})),
                    }
                }
            }
        }
        put!("} // verus!\n}\n");
    }
    // consts (may register more literals)
    let mut cdone: BTreeSet<String> = BTreeSet::new();
    let mut ctext = String::new();
    loop {
        let todo: Vec<String> = consts.iter().filter(|c| !cdone.contains(*c)).cloned().collect();
        if todo.is_empty() {
            break;
        }
        for c in todo {
            cdone.insert(c.clone());
            match emit_const(&ix, &names, &c, &mut lits, &mut strs, &mut consts) {
                Ok(s) => ctext.push_str(&s),
                Err(e) => errs.push(e),
            }
        }
    }
    let mut lt = String::from("\npub mod lits {\n#[allow(unused_imports)] use vstd::prelude::*;\n#[allow(unused_imports)] use super::prelude::*;\nverus! {\n");
    for l in &lits {
        let n = rw::lit_name(l);
        if let Some(p) = l.strip_prefix(b"\0re:") {
            let (star, v) = rw::re_parse(std::str::from_utf8(p).unwrap()).unwrap();
            let cl = |c: &rw::ReClass, x: &str| c.iter().map(|(a, b)| if a == b { format!("{x} == {a}u8") } else { format!("{a}u8 <= {x} <= {b}u8") }).collect::<Vec<_>>().join(" || ");
            if star {
                lt.push_str(&format!("/* ^[class]*$ */ #[verifier::external_body] pub fn {n}() -> (r: XRegex) ensures forall|s: Seq<u8>| #[trigger] r.all(s) <==> (forall|i: int| 0 <= i < s.len() ==> ({})) {{ unimplemented!() }}\n", cl(&v[0].0, "#[trigger] s[i]").replacen("#[trigger] ", "\u{1}", 1).replace("#[trigger] ", "").replace('\u{1}', "#[trigger] ")));
            } else {
                let at: Vec<String> = v.iter().enumerate().map(|(i, (c, _))| format!("({})", cl(c, &format!("s[p + {i}]")))).collect();
                let mut gr: Vec<(String, usize, usize)> = vec![];
                for (i, (_, g)) in v.iter().enumerate() {
                    if let Some(g) = g {
                        match gr.last_mut() {
                            Some(x) if x.0 == *g => x.2 = i + 1,
                            _ => gr.push((g.clone(), i, i + 1)),
                        }
                    }
                }
                let gs: String = gr.iter().map(|(g, a, b)| format!(", r.grp({}) == ({a}int, {b}int)", seqlit(format!("${g}").as_bytes()))).collect();
                lt.push_str(&format!("/* fixed sequence of classes */ #[verifier::external_body] pub fn {n}() -> (r: XRegexF) ensures r.width() == {}, forall|s: Seq<u8>, p: int| #[trigger] r.at(s, p) <==> (0 <= p && p + {} <= s.len() && {}){gs} {{ unimplemented!() }}\n", v.len(), v.len(), at.join(" && ")));
            }
            continue;
        }
        lt.push_str(&format!("pub open spec fn s{n}() -> Seq<u8> {{ {} }}\n", seqlit(l)));
        let c = cid(l).map(|v| format!(", cid(r@) == {v}")).unwrap_or_default();
        let asc = if l.iter().all(|b| *b < 128) { ", ascii(r@)" } else { "" };
        lt.push_str(&format!("#[verifier::external_body] pub fn {n}() -> (r: &'static XString) ensures r@ == s{n}(){c}{asc} {{ unimplemented!() }}\n"));
    }
    let mut strj = serde_json::Map::new();
    for a in &strs {
        let v = ix.str_const(a).unwrap_or_default();
        let b = v.as_bytes();
        strj.insert(a.clone(), serde_json::json!(v));
        let n = rw::str_name(a);
        lt.push_str(&format!("pub open spec fn s_{n}() -> Seq<u8> {{ {} }}\n", seqlit(b)));
        let c = cid(b).map(|v| format!(", cid(r@) == {v}")).unwrap_or_default();
        let asc = if b.iter().all(|b| *b < 128) { ", ascii(r@)" } else { "" };
        lt.push_str(&format!("#[verifier::external_body] pub fn c_{n}() -> (r: &'static XString) ensures r@ == s_{n}(){c}{asc} {{ unimplemented!() }}\n"));
    }
    for u in &units {
        for p in &u.pieces {
            if let Piece::Struct(_, n) = p {
                ctext = ctext.replace(&format!("\u{1}{n})"), &format!("{}::{n})", u.name));
            }
        }
    }
    lt.push_str(&ctext);
    for n in 1..40 {
        let nm = rw::xv_name(n);
        if body.contains(&format!("{nm} (")) || body.contains(&format!("{nm}(")) {
            let ps: Vec<String> = (0..n).map(|i| format!("a{i}: &'a XString")).collect();
            let an: Vec<String> = (0..n).map(|i| format!("a{i}")).collect();
            let or: Vec<String> = (0..n).map(|i| format!("cid(a{i}@) == c")).collect();
            let wi: String = (0..n).map(|i| format!("if cid(a{i}@) == c {{ assert(v@[{i}]@ == a{i}@); }} ")).collect();
            lt.push_str(&format!("pub fn {nm}<'a>({}) -> (v: Vec<&'a XString>) ensures v@ == seq![{}], forall|c: int| #[trigger] anyc(v@, c) <==> ({}) {{ let v = vec![{}]; proof {{ assert(v@ =~= seq![{}]); assert forall|c: int| #[trigger] anyc(v@, c) <==> ({}) by {{ lemma_anyc(v@, c); {wi} }} }} v }}\n", ps.join(", "), an.join(", "), or.join(" || "), an.join(", "), an.join(", "), or.join(" || ")));
        }
    }
    lt.push_str("} // verus!\n}\n");
    let full = format!("{prelude}{body}{lt}\nfn main() {{}}\n");
    std::fs::write(out_rs, &full).map_err(|e| e.to_string())?;
    let j = serde_json::json!({"units": units.iter().filter(|u| !u.imported).map(|u| u.name.clone()).collect::<Vec<_>>(), "imported": units.iter().filter(|u| u.imported).map(|u| u.name.clone()).collect::<Vec<_>>(), "fns": fns, "errors": errs, "strs": strj, "untranslated": untr});
    std::fs::write(out_json, serde_json::to_string_pretty(&j).unwrap()).map_err(|e| e.to_string())?;
    if !errs.is_empty() {
        return Err(errs.join("\n"));
    }
    for u in &untr {
        eprintln!("UNTRANSLATED {} {}", u["abs"], u["why"]);
    }
    Ok(())
}

struct Emitted {
    text: String,
    stub: String,
    inl: Vec<String>,
    notes: Vec<String>,
    loops: usize,
    lost: Vec<String>,
    errs: Vec<String>,
}

#[allow(clippy::too_many_arguments)]
fn mkrw<'a>(
    ix: &'a Index,
    names: &'a BTreeMap<String, String>,
    module: &str,
    lits: &'a mut BTreeSet<Vec<u8>>,
    strs: &'a mut BTreeSet<String>,
    consts: &'a mut BTreeSet<String>,
) -> Rw<'a> {
    Rw {
        ix,
        names,
        module: module.into(),
        lits,
        strs,
        consts,
        loops: 0,
        hints: vec![],
        errs: vec![],
        floats: Default::default(),
        strids: Default::default(),
        autoinv: Default::default(),
        byref: Default::default(),
        inl_depth: 0,
        inlined: vec![],
        ret_is_result: false,
        tokcount: Default::default(),
        notes: Default::default(),
        locals: Default::default(),
        self_ty: String::new(),
        in_from: false,
        output: None,
    }
}

fn emit_const(
    ix: &Index,
    names: &BTreeMap<String, String>,
    abs: &str,
    lits: &mut BTreeSet<Vec<u8>>,
    strs: &mut BTreeSet<String>,
    consts: &mut BTreeSet<String>,
) -> R<String> {
    let (c, m) = ix.find_const(abs).ok_or(format!("const {abs} not found"))?;
    let n = format!("k_{}", rw::str_name(abs));
    let mut e = (*c.expr).clone();
    let mut ty = (*c.ty).clone();
    let ts = quote!(#ty).to_string().replace(' ', "");
    let mut rw = mkrw(ix, names, &m, lits, strs, consts);
    if ts.starts_with('[') || ts.starts_with('&') {
        while let Expr::Reference(r) = e {
            e = *r.expr;
        }
        if let Expr::Struct(st) = &e {
            // a constant of a struct type under contract: its fields
            let mut ens = vec![];
            for f in &st.fields {
                let mut x = f.expr.clone();
                rw.visit_expr_mut(&mut x);
                ens.push(format!("r.{} == {}", f.member.to_token_stream(), x.to_token_stream()));
            }
            rw.visit_type_mut(&mut ty);
            if !rw.errs.is_empty() {
                return Err(format!("const {abs}: {}", rw.errs.join("; ")));
            }
            while let Type::Reference(r) = ty {
                ty = *r.elem;
            }
            return Ok(format!("#[verifier::external_body] pub fn {n}() -> (r: &'static super::\u{1}{}) ensures {} {{ unimplemented!() }}\n", ty.to_token_stream(), ens.join(", ")));
        }
        let Expr::Array(a) = &e else { return Err(format!("const {abs}: unsupported value")) };
        let len = a.elems.len();
        let mut ens = vec![format!("r@.len() == {len}")];
        let isstr = ts.contains("str");
        let mut elems = vec![];
        for (i, el) in a.elems.iter().enumerate() {
            let mut x = el.clone();
            rw.visit_expr_mut(&mut x);
            let t = x.to_token_stream().to_string();
            if isstr {
                let p = t.trim().trim_end_matches("()").trim().trim_end_matches("( )").trim().to_string();
                let sv = if let Some(q) = p.strip_prefix("c_") { format!("s_{q}()") } else { format!("s{p}()") };
                ens.push(format!("r@[{i}]@ == {sv}"));
            } else {
                ens.push(format!("r@[{i}] == {t}"));
            }
            elems.push(t);
        }
        if isstr {
            let or: Vec<String> = ens[1..].iter().map(|e| format!("cid({}) == c", e.split("@ == ").nth(1).unwrap_or(""))).collect();
            ens.push(format!("forall|c: int| #[trigger] anyc(r@, c) <==> ({})", or.join(" || ")));
        }
        let et = if isstr {
            "&'static XString".to_string()
        } else {
            match &ty {
                Type::Array(a) => a.elem.to_token_stream().to_string(),
                Type::Reference(r) => match &*r.elem {
                    Type::Slice(s) => s.elem.to_token_stream().to_string(),
                    Type::Array(s) => s.elem.to_token_stream().to_string(),
                    _ => return Err(format!("const {abs}: type")),
                },
                _ => return Err(format!("const {abs}: type")),
            }
        };
        if !rw.errs.is_empty() {
            return Err(format!("const {abs}: {}", rw.errs.join("; ")));
        }
        return Ok(format!("#[verifier::external_body] pub fn {n}() -> (r: Vec<{et}>) ensures {} {{ unimplemented!() }}\n", ens.join(", ")));
    }
    rw.visit_expr_mut(&mut e);
    rw.visit_type_mut(&mut ty);
    if !rw.errs.is_empty() {
        return Err(format!("const {abs}: {}", rw.errs.join("; ")));
    }
    Ok(format!("pub const {n}: {} = {};\n", ty.to_token_stream(), e.to_token_stream()))
}

fn emit_struct(
    ix: &Index,
    names: &BTreeMap<String, String>,
    abs: &str,
    n: &str,
    lits: &mut BTreeSet<Vec<u8>>,
    strs: &mut BTreeSet<String>,
    consts: &mut BTreeSet<String>,
) -> R<String> {
    let (m, nm) = split(abs);
    let md = ix.mods.get(&m).ok_or(format!("module {m} not found"))?;
    for it in &md.items {
        match it {
            Item::Struct(s) if s.ident == nm => {
                let mut rw = mkrw(ix, names, &m, lits, strs, consts);
                if m.starts_with("wasm::") && s.fields.iter().all(|f| f.ident.is_none()) {
                    let ts: Vec<String> = s.fields.iter().map(|f| { let mut t = f.ty.clone(); rw.visit_type_mut(&mut t); format!("pub {}", t.to_token_stream()) }).collect();
                    return Ok(format!("pub struct {n}({});\n", ts.join(", ")));
                }
                let mut o = format!("pub struct {n} {{\n");
                for f in &s.fields {
                    let mut t = f.ty.clone();
                    rw.visit_type_mut(&mut t);
                    let id = f.ident.as_ref().map(|i| i.to_string()).unwrap_or_else(|| "f0".into());
                    o.push_str(&format!("    pub {id}: {},\n", t.to_token_stream()));
                }
                o.push_str("}\n");
                return Ok(o);
            }
            Item::Enum(s) if s.ident == nm => {
                let mut rw = mkrw(ix, names, &m, lits, strs, consts);
                let mut o = format!("#[allow(non_camel_case_types)] pub enum {n} {{\n");
                for v in &s.variants {
                    let mut v2 = v.clone();
                    v2.attrs.clear();
                    v2.discriminant = None;
                    for f in v2.fields.iter_mut() {
                        rw.visit_type_mut(&mut f.ty);
                    }
                    o.push_str(&format!("    {},\n", v2.to_token_stream()));
                }
                o.push_str("}\n");
                return Ok(o);
            }
            _ => {}
        }
    }
    Err(format!("type {abs} not found"))
}

fn in_trait(ix: &Index, abs: &str) -> bool {
    let (h, _) = split(abs);
    let (m, t) = split(&h);
    if t.contains('.') {
        return true;
    }
    ix.mods.get(&m).map_or(false, |md| md.items.iter().any(|it| matches!(it, Item::Trait(x) if x.ident == t)))
}

#[allow(clippy::type_complexity)]
fn emit_fn(
    ix: &Index,
    names: &BTreeMap<String, String>,
    f: &FnBlock,
    lits: &mut BTreeSet<Vec<u8>>,
    strs: &mut BTreeSet<String>,
    consts: &mut BTreeSet<String>,
) -> R<Emitted> {
    let (mut sig, mut block, module) = ix.find_fn(&f.abs).ok_or(format!("function {} not found", f.abs))?;
    let mut pre_lits = BTreeSet::new();
    let mut rename = BTreeMap::new();
    // parameter names
    let mut actual = vec![];
    let mut muts = vec![];
    for i in sig.inputs.iter_mut() {
        if let FnArg::Typed(t) = i {
            t.attrs.clear();
            match &mut *t.pat {
                Pat::Ident(p) => {
                    actual.push(p.ident.to_string());
                    if p.mutability.is_some() {
                        muts.push(p.ident.clone());
                        p.mutability = None;
                    }
                }
                _ => return Err(format!("{}: parameter pattern", f.abs)),
            }
        }
    }
    if !f.params.is_empty() {
        if f.params.len() != actual.len() {
            return Err(format!("{}: takes {} parameters, the contract was written for {}", f.abs, actual.len(), f.params.len()));
        }
        // parameters that kept their names keep their meaning, the rest go by position
        let was = f.params.iter().filter(|a| !actual.contains(a));
        let now = actual.iter().filter(|b| !f.params.contains(b));
        for (a, b) in was.zip(now) {
            rename.insert(a.clone(), b.clone());
        }
    }
    let text = |s: &str, l: &mut BTreeSet<Vec<u8>>| lsub(&subst(s, &rename), l);
    let mut rw = mkrw(ix, names, &module, lits, strs, consts);
    rw.hints = f.hints.iter().map(|h| h.0.clone()).collect();
    rw.locals = rw::bound(&block);
    rw.locals.extend(actual.iter().cloned());
    {
        let (_, t) = split(&split(&f.abs).0);
        let tr = t.split_once('.').map_or("", |x| x.1);
        rw.in_from = tr.starts_with("From<");
        rw.output = ix.assoc_output(&f.abs);
    }
    rw.byref = f.refs.iter().cloned().collect();
    let rt = sig.output.to_token_stream().to_string();
    rw.ret_is_result = rt.contains("Result");
    for i in sig.inputs.iter_mut() {
        if let FnArg::Typed(t) = i {
            let s = t.ty.to_token_stream().to_string().replace(' ', "");
            if s == "&str" || s == "String" || s == "&String" {
                if let Pat::Ident(p) = &*t.pat {
                    rw.strids.insert(p.ident.to_string());
                }
            }
            if s == "f32" || s == "f64" {
                rw.floats.extend(actual_name(t));
            }
            rw.visit_type_mut(&mut t.ty);
        }
    }
    let mut out_ty = None;
    if let ReturnType::Type(_, t) = &mut sig.output {
        rw.visit_type_mut(t);
        out_ty = Some(t.to_token_stream().to_string());
    }
    rw.self_ty = split(&split(&f.abs).0).1.split('.').next().unwrap().to_string();
    rw::break_returns(&mut block);
    rw.mark_tails(&mut block);
    rw.visit_block_mut(&mut block);
    let mut errs = rw.errs.clone();
    let inl = rw.inlined.clone();
    let notes: Vec<String> = rw.notes.iter().cloned().collect();
    // hints: start / tail
    let mut stmts: Vec<Stmt> = vec![];
    for h in rw.hints.iter_mut() {
        if h.kind == "start" {
            let i = h.id;
            stmts.push(syn::parse2(quote!(__vx_hint!(#i);)).unwrap());
            h.used = true;
        }
    }
    for m in &muts {
        stmts.push(syn::parse2(quote!(let mut #m = #m;)).unwrap());
    }
    let tails: Vec<usize> = rw.hints.iter().filter(|h| h.kind == "tail").map(|h| h.id).collect();
    let mut bs = block.stmts.clone();
    if !tails.is_empty() {
        let has_tail = matches!(bs.last(), Some(Stmt::Expr(_, None)));
        if has_tail {
            let Some(Stmt::Expr(e, None)) = bs.pop() else { unreachable!() };
            bs.push(syn::parse2(quote!(let __ret = #e;)).unwrap());
        }
        for i in &tails {
            bs.push(syn::parse2(quote!(__vx_hint!(#i);)).unwrap());
        }
        if has_tail {
            bs.push(Stmt::Expr(syn::parse2(quote!(__ret)).unwrap(), None));
        }
        for h in rw.hints.iter_mut() {
            if h.kind == "tail" {
                h.used = true;
            }
        }
    }
    stmts.extend(bs);
    for h in &rw.hints {
        if !h.used && (h.kind == "loopstart" || h.kind == "loopend") && h.n >= rw.loops {
            errs.push(format!("lost loop anchor {} {}", h.kind, h.n));
        }
    }
    let mut sp = Splice { inv: BTreeMap::new(), hints: BTreeMap::new() };
    for (h, t) in &f.hints {
        sp.hints.insert(h.id, text(t, &mut pre_lits));
    }
    for k in 0..rw.loops {
        let mut t = String::new();
        let user = f.loops.get(&k);
        let auto = rw.autoinv.get(&k);
        let mut invs = String::new();
        let mut dec = String::new();
        if let Some((a, d)) = auto {
            invs.push_str(&format!("        {a}\n"));
            dec = format!("        decreases {d}\n");
        }
        if let Some(u) = user {
            for l in u {
                let lt = l.trim();
                if let Some(d) = lt.strip_prefix("decreases") {
                    dec = format!("        decreases {}\n", text(d, &mut pre_lits));
                } else if let Some(d) = lt.strip_prefix("invariant ") {
                    invs.push_str(&format!("        {}\n", text(d, &mut pre_lits)));
                } else {
                    invs.push_str(&format!("        {}\n", text(lt, &mut pre_lits)));
                }
            }
        }
        if !invs.trim().is_empty() {
            t.push_str("        invariant\n");
            t.push_str(&invs);
        }
        t.push_str(&dec);
        sp.inv.insert(k, t);
    }
    for k in f.loops.keys() {
        if *k >= rw.loops {
            errs.push(format!("loop {k} not found (contract written for more loops)"));
        }
    }
    let nloops = rw.loops;
    let lost: Vec<String> = rw.hints.iter().filter(|h| !h.used).map(|h| format!("{} {} {}", h.kind, h.arg, h.n)).collect();
    drop(rw);
    lits.extend(pre_lits.clone());
    let bt = quote!({ #(#stmts)* });
    let btext = print::print(bt, &sp);
    let mut o = String::new();
    let mut head = String::new();
    if nloops > 0 && !f.noiso {
        o.push_str("#[verifier::loop_isolation(false)]\n");
    }
    o.push_str("#[verifier::spinoff_prover]\n");
    for a in &f.attrs {
        o.push_str(&format!("#[{a}]\n"));
    }
    let ins = &sig.inputs;
    let gen = &sig.generics;
    // indexing becomes an inherent method
    let vis = if in_trait(ix, &f.abs) && !f.name.starts_with("xidx") { "" } else { "pub " };
    let nm = &f.name;
    let ret = match out_ty {
        Some(t) => format!(" -> ({}: {t})", f.ret),
        None => String::new(),
    };
    head.push_str(&format!("{vis}fn {nm}{}({}){ret}\n", gen.params.to_token_stream().to_string().is_empty().then(String::new).unwrap_or(format!("<{}>", gen.params.to_token_stream())), ins.to_token_stream()));
    let mut l2 = BTreeSet::new();
    for c in &f.contract {
        head.push_str(&text(c, &mut l2));
        head.push('\n');
    }
    lits.extend(l2);
    let stub = format!("#[verifier::external_body]\n{head}{{ unimplemented!() }}\n");
    o.push_str(&head);
    o.push_str(&btext);
    o.push('\n');
    Ok(Emitted { text: o, stub, inl, notes, errs, loops: nloops, lost })
}
