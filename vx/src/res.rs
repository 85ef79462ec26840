//! Source index and name resolution.
use std::collections::BTreeMap;
use std::path::Path;
use syn::*;

pub struct Module {
    pub items: Vec<Item>,
    pub imports: BTreeMap<String, Vec<String>>,
    /// `use a::b::*` (resolved for the WebAssembly crate only)
    pub globs: Vec<Vec<String>>,
    pub file: String,
}
pub struct Index {
    pub mods: BTreeMap<String, Module>,
    /// names of struct fields that hold floating point numbers
    pub float_fields: std::collections::BTreeSet<String>,
}

fn walk_globs(t: &UseTree, pre: &mut Vec<String>, out: &mut Vec<Vec<String>>) {
    match t {
        UseTree::Path(p) => {
            pre.push(p.ident.to_string());
            walk_globs(&p.tree, pre, out);
            pre.pop();
        }
        UseTree::Group(g) => g.items.iter().for_each(|t| walk_globs(t, pre, out)),
        UseTree::Glob(_) => out.push(pre.clone()),
        _ => {}
    }
}
fn walk_use(t: &UseTree, pre: &mut Vec<String>, out: &mut BTreeMap<String, Vec<String>>) {
    match t {
        UseTree::Path(p) => {
            pre.push(p.ident.to_string());
            walk_use(&p.tree, pre, out);
            pre.pop();
        }
        UseTree::Name(n) => {
            let s = n.ident.to_string();
            if s == "self" {
                out.insert(pre.last().cloned().unwrap_or_default(), pre.clone());
            } else {
                let mut v = pre.clone();
                v.push(s.clone());
                out.insert(s, v);
            }
        }
        UseTree::Rename(r) => {
            let mut v = pre.clone();
            let s = r.ident.to_string();
            if s != "self" {
                v.push(s);
            }
            out.insert(r.rename.to_string(), v);
        }
        UseTree::Group(g) => {
            for t in &g.items {
                walk_use(t, pre, out);
            }
        }
        UseTree::Glob(_) => {}
    }
}

fn is_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| {
        if a.path().is_ident("cfg") {
            let s = quote::quote!(#a).to_string().replace(' ', "");
            s.contains("cfg(test)")
        } else {
            false
        }
    })
}

impl Index {
    pub fn load(root: &str) -> std::result::Result<Index, String> {
        let mut ix = Index { mods: BTreeMap::new(), float_fields: Default::default() };
        ix.dir(&format!("{root}/src"), "", root)?;
        // the WebAssembly crate sits under `wasm`
        let w = format!("{root}/wasm/src");
        if Path::new(&w).exists() {
            ix.dir(&w, "wasm", root)?;
        }
        Ok(ix)
    }
    fn dir(&mut self, d: &str, m: &str, root: &str) -> std::result::Result<(), String> {
        let mut es: Vec<_> = std::fs::read_dir(d).map_err(|e| format!("{d}: {e}"))?.filter_map(|e| e.ok()).collect();
        es.sort_by_key(|e| e.file_name());
        for e in es {
            let n = e.file_name().to_string_lossy().to_string();
            let p = e.path().to_string_lossy().to_string();
            if e.path().is_dir() {
                let mm = if m.is_empty() { n.clone() } else { format!("{m}::{n}") };
                self.dir(&p, &mm, root)?;
            } else if n.ends_with(".rs") {
                let stem = n.trim_end_matches(".rs");
                let mm = if stem == "mod" || (stem == "lib" && (m.is_empty() || m == "wasm")) {
                    m.to_string()
                } else if m.is_empty() {
                    stem.to_string()
                } else {
                    format!("{m}::{stem}")
                };
                self.file(&p, &mm, root)?;
            }
        }
        Ok(())
    }
    fn file(&mut self, p: &str, m: &str, root: &str) -> std::result::Result<(), String> {
        let s = std::fs::read_to_string(p).map_err(|e| format!("{p}: {e}"))?;
        let f = syn::parse_file(&s).map_err(|e| format!("{p}: {e}"))?;
        let rel = p.strip_prefix(root).unwrap_or(p).trim_start_matches('/').to_string();
        self.items(f.items, m, &rel);
        Ok(())
    }
    fn items(&mut self, items: Vec<Item>, m: &str, file: &str) {
        let mut imports = BTreeMap::new();
        let mut globs = vec![];
        let mut keep = vec![];
        for it in items {
            match it {
                Item::Use(u) => {
                    if !is_test(&u.attrs) {
                        walk_use(&u.tree, &mut vec![], &mut imports);
                        if m.starts_with("wasm") {
                            walk_globs(&u.tree, &mut vec![], &mut globs);
                        }
                    }
                }
                Item::Mod(mm) => {
                    if is_test(&mm.attrs) {
                        continue;
                    }
                    if let Some((_, its)) = mm.content.clone() {
                        let n = if m.is_empty() { mm.ident.to_string() } else { format!("{m}::{}", mm.ident) };
                        self.items(its, &n, file);
                    }
                }
                Item::Fn(ref f) if is_test(&f.attrs) => {}
                o => keep.push(o),
            }
        }
        for it in &keep {
            if let Item::Struct(s) = it {
                for f in &s.fields {
                    let t = &f.ty;
                    let t = quote::quote!(#t).to_string();
                    if let (true, Some(n)) = (t == "f64" || t == "f32", &f.ident) {
                        self.float_fields.insert(n.to_string());
                    }
                }
            }
        }
        self.mods.insert(m.to_string(), Module { items: keep, imports, globs, file: file.to_string() });
    }
    /// resolve a path written inside module `m` to an absolute in-crate path (module + item)
    pub fn resolve(&self, m: &str, segs: &[String]) -> Option<String> {
        self.resolve_d(m, segs, 0)
    }
    fn resolve_d(&self, m: &str, segs: &[String], d: usize) -> Option<String> {
        if d > 8 || segs.is_empty() {
            return None;
        }
        let mut cur: Vec<String> = if m.is_empty() { vec![] } else { m.split("::").map(|s| s.to_string()).collect() };
        let mut i = 0;
        match segs[0].as_str() {
            "crate" => {
                cur.clear();
                if m == "wasm" || m.starts_with("wasm::") {
                    cur.push("wasm".into());
                }
                i = 1;
            }
            "cesride_core" if m == "wasm" || m.starts_with("wasm::") => {
                cur.clear();
                i = 1;
            }
            "self" => i = 1,
            "super" => {
                while i < segs.len() && segs[i] == "super" {
                    cur.pop();
                    i += 1;
                }
            }
            f => {
                let md = self.mods.get(m)?;
                // item or child module of current module?
                let here = self.has_item(m, f) || self.mods.contains_key(&join(&cur, f));
                if !here {
                    if let Some(imp) = md.imports.get(f) {
                        let mut v = imp.clone();
                        v.extend_from_slice(&segs[1..]);
                        // imports are absolute (crate::..), relative (self/super) or extern
                        if v[0] == "crate" || v[0] == "self" || v[0] == "super" || v[0] == "cesride_core" {
                            return self.resolve_d(m, &v, d + 1);
                        }
                        let _ = &v;
                        // `use tables::X` style relative import
                        if v[0] != segs[0] || self.mods.contains_key(&join(&cur, &v[0])) {
                            return self.resolve_d(m, &v, d + 1);
                        }
                        return None;
                    }
                    return self.through_globs(m, segs, d);
                }
            }
        }
        // walk modules
        while i < segs.len() {
            let nm = join(&cur, &segs[i]);
            if self.mods.contains_key(&nm) {
                cur.push(segs[i].clone());
                i += 1;
            } else {
                break;
            }
        }
        let cm = cur.join("::");
        if i >= segs.len() {
            return Some(cm);
        }
        if self.has_item(&cm, &segs[i]) {
            return Some(format!("{}::{}", cm, segs[i..].join("::")));
        }
        // re-export
        if let Some(md) = self.mods.get(&cm) {
            if let Some(imp) = md.imports.get(&segs[i]) {
                let mut v = imp.clone();
                v.extend_from_slice(&segs[i + 1..]);
                return self.resolve_d(&cm, &v, d + 1);
            }
        }
        self.through_globs(&cm, &segs[i..], d)
    }
    fn through_globs(&self, m: &str, segs: &[String], d: usize) -> Option<String> {
        for g in &self.mods.get(m)?.globs {
            if matches!(g[0].as_str(), "crate" | "self" | "super" | "cesride_core") || self.mods.contains_key(&format!("{m}::{}", g[0])) {
                let mut v = g.clone();
                v.extend_from_slice(segs);
                if let Some(x) = self.resolve_d(m, &v, d + 1) {
                    return Some(x);
                }
            }
        }
        None
    }
    /// full path of something imported from an external crate that has shims
    pub fn extern_path(&self, m: &str, segs: &[String]) -> Option<Vec<String>> {
        const CRATES: &[&str] = &["blake2", "blake3", "sha2", "sha3", "argon2", "ed25519_dalek", "k256", "p256", "rand_core", "num_rational", "indexmap", "chrono"];
        let md = self.mods.get(m)?;
        if self.has_item(m, &segs[0]) {
            return None;
        }
        let imp = md.imports.get(&segs[0])?;
        if !CRATES.contains(&imp[0].as_str()) {
            return None;
        }
        let mut v = imp.clone();
        v.extend_from_slice(&segs[1..]);
        Some(v)
    }
    /// a type alias of the module
    pub fn alias(&self, m: &str, n: &str) -> Option<Type> {
        self.mods.get(m)?.items.iter().find_map(|it| match it {
            Item::Type(t) if t.ident == n => Some((*t.ty).clone()),
            _ => None,
        })
    }
    pub fn has_item(&self, m: &str, n: &str) -> bool {
        self.mods.get(m).map_or(false, |md| {
            md.items.iter().any(|it| match it {
                Item::Fn(f) => f.sig.ident == n,
                Item::Const(c) => c.ident == n,
                Item::Struct(s) => s.ident == n,
                Item::Enum(s) => s.ident == n,
                Item::Trait(s) => s.ident == n,
                Item::Type(s) => s.ident == n,
                _ => false,
            })
        })
    }
    pub fn find_const(&self, abs: &str) -> Option<(&ItemConst, String)> {
        let (m, n) = split(abs);
        self.mods.get(&m)?.items.iter().find_map(|it| match it {
            Item::Const(c) if c.ident == n => Some((c, m.clone())),
            _ => None,
        })
    }
    pub fn find_fn(&self, abs: &str) -> Option<(Signature, Block, String)> {
        let (m, n) = split(abs);
        if let Some(md) = self.mods.get(&m) {
            for it in &md.items {
                if let Item::Fn(f) = it {
                    if f.sig.ident == n {
                        return Some((f.sig.clone(), (*f.block).clone(), m.clone()));
                    }
                }
            }
        }
        // Type::method  or Type.Trait::method
        let (mm, tn) = split(&m);
        let (ty, tr) = match tn.split_once('.') {
            Some((a, b)) => (a.to_string(), Some(b.to_string())),
            None => (tn.clone(), None),
        };
        let md = self.mods.get(&mm)?;
        for it in &md.items {
            match it {
                Item::Impl(im) => {
                    let t = &im.self_ty;
                    let tname = quote::quote!(#t).to_string().replace(' ', "");
                    let trn = im.trait_.as_ref().map(|(_, p, _)| { let p = p.segments.last(); quote::quote!(#p).to_string().replace(' ', "") });
                    if tname != ty {
                        continue;
                    }
                    match (&tr, &trn) {
                        (None, None) => {}
                        (Some(a), Some(b)) if a == b => {}
                        _ => continue,
                    }
                    for ii in &im.items {
                        if let ImplItem::Fn(f) = ii {
                            if f.sig.ident == n {
                                return Some((f.sig.clone(), f.block.clone(), mm.clone()));
                            }
                        }
                    }
                }
                Item::Trait(t) if t.ident == ty => {
                    for ti in &t.items {
                        if let TraitItem::Fn(f) = ti {
                            if f.sig.ident == n {
                                if let Some(b) = &f.default {
                                    return Some((f.sig.clone(), b.clone(), mm.clone()));
                                }
                            }
                        }
                    }
                }
                _ => {}
            }
        }
        None
    }
    /// `type Output = T` of the trait implementation a method belongs to
    pub fn assoc_output(&self, abs: &str) -> Option<Type> {
        let (mm, tn) = split(&split(abs).0);
        let (ty, tr) = tn.split_once('.')?;
        for it in &self.mods.get(&mm)?.items {
            if let Item::Impl(im) = it {
                let t = &im.self_ty;
                let trn = im.trait_.as_ref().map(|(_, p, _)| { let p = p.segments.last(); quote::quote!(#p).to_string().replace(' ', "") });
                if quote::quote!(#t).to_string().replace(' ', "") == ty && trn.as_deref() == Some(tr) {
                    for ii in &im.items {
                        if let ImplItem::Type(x) = ii {
                            if x.ident == "Output" {
                                return Some(x.ty.clone());
                            }
                        }
                    }
                }
            }
        }
        // IndexMut takes it from Index
        tr.strip_prefix("IndexMut").and_then(|x| self.assoc_output(&format!("{mm}::{ty}.Index{x}::index")))
    }
    /// string value of a `&str` const, following aliases
    pub fn str_const(&self, abs: &str) -> Option<String> {
        let (c, m) = self.find_const(abs)?;
        self.str_expr(&c.expr, &m)
    }
    fn str_expr(&self, e: &Expr, m: &str) -> Option<String> {
        match e {
            Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => Some(s.value()),
            Expr::Path(p) => {
                let abs = self.resolve(m, &segs(&p.path))?;
                self.str_const(&abs)
            }
            _ => None,
        }
    }
}
pub fn join(cur: &[String], s: &str) -> String {
    if cur.is_empty() { s.to_string() } else { format!("{}::{}", cur.join("::"), s) }
}
pub fn split(abs: &str) -> (String, String) {
    match abs.rsplit_once("::") {
        Some((a, b)) => (a.to_string(), b.to_string()),
        None => (String::new(), abs.to_string()),
    }
}
pub fn segs(p: &syn::Path) -> Vec<String> {
    p.segments.iter().map(|s| s.ident.to_string()).collect()
}
