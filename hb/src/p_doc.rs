//! C20-C24: documents, identifiers, version strings, events, JSON.
use crate::cesr::*;
use crate::ctx::*;
use crate::p_prim::ensure;
use crate::p_sig::{hash, public};
use crate::types::{es, DIGS, R};
use cesride::{common, data::Value, Creder, Matter, Prefixer, Sadder, Saider, Serder, Tholder};
use serde_json::{json, Map, Value as J};

fn word(ctx: &mut Ctx) -> String {
    let pool = ctx.strs.len();
    match ctx.rng.below(9) {
        0 => ctx.rng.pick(&["", "\"", "\\", "\u{0}", "\n", "\u{7f}", "\u{1F600}", "é", "\u{2028}", "a\tb", "</", "\u{8}\u{c}\r", "日本語", "#", "############################################", "KERI10JSON000000_", "\u{1b}"]).to_string(),
        1 if pool > 0 => {
            let i = ctx.rng.below(pool);
            ctx.strs[i].clone()
        }
        2 => (0..ctx.rng.below(6)).map(|_| char::from_u32(ctx.rng.below(0x3000) as u32).unwrap_or('x')).collect(),
        3 => ctx.rng.pick(&["i", "s", "t", "p", "a", "k", "kt", "n", "nt", "b", "bt", "c", "di", "ri", "e", "$id", "id"]).to_string(),
        _ => (0..1 + ctx.rng.below(7)).map(|_| (b'a' + ctx.rng.below(26) as u8) as char).collect(),
    }
}
fn number(ctx: &mut Ctx) -> J {
    match ctx.rng.below(7) {
        0 => json!(ctx.rng.u64()),
        1 => json!(ctx.rng.u64() as i64),
        2 => json!(*ctx.rng.pick(&[0i64, -1, 1, i64::MIN, i64::MAX, 255, -128, 1 << 53])),
        3 => json!(*ctx.rng.pick(&[u64::MAX, u64::MAX - 1, 1 << 63, (1 << 63) - 1, (1 << 63) + 1])),
        4 => json!(*ctx.rng.pick(&[0.0f64, -0.0, 1.0, 1e300, 1e-300, 5e-324, 1.7976931348623157e308, 1e16, 1e15, 123456789.125, -2.5, 1e21, 0.1, 1.0e-7, 9007199254740993.0, 18446744073709551616.0, -9223372036854775809.0])),
        5 => {
            let f = f64::from_bits(ctx.rng.u64());
            if f.is_finite() { json!(f) } else { json!(1.25) }
        }
        _ => json!(ctx.int(u64::MAX)),
    }
}
/// The documents are those that come from JSON text: a float that serde_json does not read
/// back exactly (it is built without float_roundtrip) is replaced by one that it does.
fn norm(d: J) -> J {
    match d {
        J::Array(a) => J::Array(a.into_iter().map(norm).collect()),
        J::Object(m) => J::Object(m.into_iter().map(|(k, v)| (k, norm(v))).collect()),
        J::Number(n) if n.is_f64() => {
            let mut x = n.as_f64().unwrap();
            for _ in 0..20 {
                let y = serde_json::from_str::<J>(&json!(x).to_string()).ok().and_then(|y| y.as_f64());
                match y {
                    Some(y) if y.to_bits() == x.to_bits() => return json!(x),
                    Some(y) => x = y,
                    None => break,
                }
            }
            json!(1.25)
        }
        d => d,
    }
}
pub fn doc(ctx: &mut Ctx, depth: usize) -> J {
    norm(doc0(ctx, depth))
}
fn doc0(ctx: &mut Ctx, depth: usize) -> J {
    match if depth == 0 { 4 + ctx.rng.below(5) } else { ctx.rng.below(9) } {
        0 | 1 => {
            let mut m = Map::new();
            for _ in 0..ctx.rng.below(5) {
                let k = word(ctx);
                m.insert(k, doc0(ctx, depth - 1));
            }
            J::Object(m)
        }
        2 | 3 => {
            let n = ctx.rng.below(5);
            J::Array((0..n).map(|_| doc0(ctx, depth - 1)).collect())
        }
        4 => J::Null,
        5 => json!(ctx.rng.chance(1, 2)),
        6 => number(ctx),
        _ => json!(word(ctx)),
    }
}
fn ser(v: &J) -> String {
    serde_json::to_string(v).unwrap()
}
fn val(v: &J) -> Value {
    Value::from(v)
}
fn back(v: &Value) -> R<J> {
    serde_json::from_str(&es(v.to_json())?).map_err(|e| e.to_string())
}

pub fn c24(ctx: &mut Ctx) {
    ctx.group("documents");
    let mut all: Vec<J> = vec![];
    for t in ["0", "-0", "-0.0", "1e5", "1E5", "1e-5", "1.0", "18446744073709551615", "18446744073709551616", "-9223372036854775808", "-9223372036854775809", "9223372036854775807", "9223372036854775808",
        "1e308", "123456789012345678901234567890", "0.1e1", "-1e-320", "[]", "{}", "\"\"", "null", "true", "false", "{\"b\":1,\"a\":2}", "{\"1\":1,\"0\":0,\"-1\":2}", "{\"\":{\"\":[]}}", "{\"a\":1,\"b\":2,\"a\":3}",
        "\"\\u0000\\u001f\\\"\\\\\\/\\b\\f\\n\\r\\t\\u00e9\\ud83d\\ude00\"", "[[[[[[[[[[1]]]]]]]]]]"] {
        all.push(serde_json::from_str(t).unwrap())
    }
    for c in (0..0x2100u32).chain([0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x10ffff]) {
        if let Some(c) = char::from_u32(c) {
            all.push(json!({ c.to_string(): format!("x{c}y") }))
        }
    }
    for x in ctx.ints.clone() {
        all.push(json!(x));
        all.push(json!((x as i64).wrapping_neg()));
        all.push(json!(x as f64));
    }
    for k in 0..64 {
        for d in [-1i64, 0, 1] {
            let x = (1u64 << k).wrapping_add(d as u64);
            all.push(json!(x));
            all.push(json!((x as i64).wrapping_neg()));
            all.push(json!(x as f64));
            all.push(json!(x as f64 / 10.0));
        }
    }
    for s in ctx.strs.clone() {
        all.push(json!({ s.clone(): s }))
    }
    for _ in 0..ctx.n(30000) {
        if ctx.over() {
            break;
        }
        all.push(doc(ctx, 4));
    }
    let mut wide = Map::new();
    for i in 0..300 {
        wide.insert(format!("k{}", (i * 7919) % 1000), json!(i));
    }
    all.push(J::Object(wide));
    let mut deep = json!(1);
    for i in 0..100 {
        deep = if i % 2 == 0 { json!([deep]) } else { json!({ "a": deep }) }
    }
    all.push(deep);
    let all: Vec<J> = all.into_iter().map(norm).collect();
    for d in &all {
        let t = ser(d);
        ctx.case(format!("document {}", short(&t)), || {
            let v = val(d);
            let u = es(v.to_json())?;
            let j: J = serde_json::from_str(&u).map_err(|e| format!("{e} in {u}"))?;
            ensure!(ser(&j) == t && &j == d, "comes back as {u}");
            ensure!(u == t, "written as {u}");
            ensure!(format!("{v}") == u, "shown as {v}");
            ensure!(val(&j) == v, "the values differ");
            get(d, &v)
        });
    }
    ctx.group("assignments");
    let news = [json!(7), json!("z"), json!({"n": [1, {"m": null}], "o": 2}), json!([])];
    for d in all.iter().filter(|d| d.is_object() || d.is_array()).take(if ctx.thorough { 20000 } else { 4000 }) {
        let t = ser(d);
        let n = d.as_object().map(|o| o.len()).or(d.as_array().map(|a| a.len())).unwrap();
        for i in 0..n.min(5) {
            let new = ctx.rng.pick(&news).clone();
            ctx.case(format!("element {i} of {} becomes {new}", short(&t)), || {
                let mut v = val(d);
                let mut w = d.clone();
                ensure!(val(inner(&mut w, i)) == v[i], "element {i} reads {}", v[i]);
                ensure!(v[i].clone() == std::mem::replace(&mut v[i], val(&new)), "the element given to write to is another");
                *inner(&mut w, i) = new.clone();
                ensure!(v == val(&w) && es(v.to_json())? == ser(&w), "becomes {v} instead of {}", ser(&w));
                Ok(())
            });
        }
        if let Some(o) = d.as_object() {
            let mut ks: Vec<String> = o.keys().take(4).cloned().collect();
            ks.push("a new field".to_string());
            ks.push("n".to_string());
            for k in ks {
                let new = ctx.rng.pick(&news).clone();
                ctx.case(format!("field {k:?} of {} becomes {new}", short(&t)), || {
                    let mut v = val(d);
                    let mut w = d.clone();
                    let old = std::mem::replace(&mut v[k.as_str()], val(&new));
                    ensure!(old == d.get(&k).map(val).unwrap_or(val(&J::Null)), "field {k} read {old} before");
                    w[k.as_str()] = new.clone();
                    ensure!(v == val(&w) && es(v.to_json())? == ser(&w), "becomes {v} instead of {}", ser(&w));
                    // a field of the field
                    if new.is_object() {
                        v[k.as_str()]["o"] = val(&json!("inner"));
                        w[k.as_str()]["o"] = json!("inner");
                        v[k.as_str()]["n"][1] = val(&json!("second"));
                        w[k.as_str()]["n"][1] = json!("second");
                        ensure!(v == val(&w) && es(v.to_json())? == ser(&w), "becomes {v} instead of {}", ser(&w));
                    }
                    Ok(())
                });
            }
        }
    }
}

fn inner(d: &mut J, i: usize) -> &mut J {
    match d {
        J::Array(a) => &mut a[i],
        J::Object(o) => o.iter_mut().nth(i).unwrap().1,
        _ => unreachable!(),
    }
}
fn get(d: &J, v: &Value) -> R<()> {
    ensure!(v.to_bool().ok() == d.as_bool(), "to_bool {:?} of {d}", v.to_bool().ok());
    ensure!(v.to_string().ok().as_deref() == d.as_str(), "to_string {:?} of {d}", v.to_string().ok());
    ensure!(v.to_i64().ok() == d.as_i64(), "to_i64 {:?} of {d}", v.to_i64().ok());
    let f = if d.is_f64() { d.as_f64() } else { None };
    ensure!(v.to_f64().ok().map(|x| x.to_bits()) == f.map(|x| x.to_bits()), "to_f64 {:?} of {d}", v.to_f64().ok());
    match d {
        J::Array(a) => {
            let w = es(v.to_vec())?;
            ensure!(w.len() == a.len(), "to_vec has {} elements", w.len());
            ensure!(v.to_map().is_err(), "to_map of an array");
            for (i, (x, y)) in a.iter().zip(&w).enumerate() {
                ensure!(&v[i] == y, "element {i} differs");
                get(x, y)?
            }
            ensure!(Value::from(w.as_slice()) == *v, "array from its elements");
        }
        J::Object(m) => {
            let w = es(v.to_map())?;
            ensure!(w.keys().eq(m.keys()), "keys are {:?}", w.keys().collect::<Vec<_>>());
            ensure!(v.to_vec().is_err(), "to_vec of an object");
            for (i, (k, x)) in m.iter().enumerate() {
                ensure!(v[i] == w[k] && v[k.as_str()] == w[k], "field {k:?} differs");
                get(x, &w[k])?
            }
            ensure!(Value::from(&w) == *v, "object from its fields");
        }
        _ => ensure!(v.to_vec().is_err() && v.to_map().is_err(), "container of {d}"),
    }
    Ok(())
}

// ---------------------------------------------------------------- version strings

fn vs(ident: &str, major: u64, minor: u64, kind: &str, size: u64) -> String {
    format!("{ident}{major:x}{minor:x}{kind}{size:06x}_")
}
struct V {
    ident: String,
    major: u8,
    minor: u8,
    kind: String,
    size: u32,
}
/// a version string: exactly this text
fn vparse(s: &[u8]) -> Option<V> {
    if s.len() != 17 || s[16] != b'_' {
        return None;
    }
    let up = |s: &[u8]| s.iter().all(|c| c.is_ascii_uppercase());
    let hex = |s: &[u8]| s.iter().all(|c| c.is_ascii_digit() || (b'a'..=b'f').contains(c));
    if !up(&s[..4]) || !hex(&s[4..6]) || !up(&s[6..10]) || !hex(&s[10..16]) {
        return None;
    }
    let t = std::str::from_utf8(s).ok()?;
    Some(V {
        ident: t[..4].to_string(),
        major: u8::from_str_radix(&t[4..5], 16).ok()?,
        minor: u8::from_str_radix(&t[5..6], 16).ok()?,
        kind: t[6..10].to_string(),
        size: u32::from_str_radix(&t[10..16], 16).ok()?,
    })
}
fn first(raw: &[u8]) -> Option<(usize, V)> {
    (0..raw.len().saturating_sub(16)).find_map(|i| vparse(&raw[i..i + 17]).map(|v| (i, v)))
}
const IDENT: &[&str] = &["ACDC", "KERI"];

/// sized serialization, or None when the document cannot be sized
fn sized(d: &J) -> Option<J> {
    let m = d.as_object()?;
    let v = vparse(m.get("v")?.as_str()?.as_bytes())?;
    if !IDENT.contains(&v.ident.as_str()) || v.kind != "JSON" || v.major != 1 || v.minor != 0 {
        return None;
    }
    let raw = ser(d);
    let (at, _) = first(raw.as_bytes())?;
    if at > 12 || raw.len() > 0xffffff {
        return None;
    }
    let w = vs(&v.ident, 1, 0, "JSON", raw.len() as u64);
    let mut out = d.clone();
    out["v"] = json!(w);
    let mut sub = raw.clone();
    sub.replace_range(at..at + 17, &w);
    if ser(&out) != sub {
        return None;
    }
    Some(out)
}

fn vdoc(ctx: &mut Ctx, ident: &str) -> J {
    let mut m = Map::new();
    let size = ctx.rng.below(0x1000000) as u64;
    m.insert("v".into(), json!(vs(ident, 1, 0, "JSON", size)));
    for _ in 0..ctx.rng.below(6) {
        let k = word(ctx);
        if k != "v" {
            m.insert(k, doc(ctx, 2));
        }
    }
    J::Object(m)
}

pub fn c22(ctx: &mut Ctx) {
    ctx.group("version strings");
    let mut sizes: Vec<u64> = vec![0, 1, 15, 16, 255, 256, 4095, 4096, 65535, 65536, 0xfffff, 0x100000, 0xfffffe, 0xffffff, 0x1000000, 0x1000001, 0xffffffff, 0x10ffffff];
    for x in ctx.ints.clone() {
        sizes.push(x & 0xffffffff)
    }
    for _ in 0..ctx.n(200) {
        sizes.push(ctx.rng.below(1 << 24) as u64);
    }
    for s in &sizes {
        for (maj, min) in [(1u8, 0u8), (0, 0), (15, 15), (9, 10), (1, 16), (16, 0), (255, 255)] {
            for ident in ["KERI", "ACDC", "KERX", "", "keri"] {
                for kind in ["JSON", "CBOR", "MGPK", "json", ""] {
                    ctx.case(format!("versify {ident} {maj}.{min} {kind} {s}"), || {
                        let ver = common::Version { major: maj, minor: min };
                        let r = es(common::versify(Some(ident), Some(&ver), Some(kind), Some(*s as u32)));
                        let ok = IDENT.contains(&ident) && kind == "JSON" && maj < 16 && min < 16 && *s < 1 << 24;
                        if !ok {
                            ensure!(r.is_err(), "built {:?}", r);
                            return Ok(());
                        }
                        let t = r?;
                        ensure!(t == vs(ident, maj as u64, min as u64, kind, *s), "built {t}");
                        let d = es(common::deversify(&t))?;
                        ensure!(d.ident == ident && d.version == ver && d.kind == kind && d.size as u64 == *s, "read back as {d:?}");
                        let raw = format!("{{\"v\":\"{t}\",\"a\":0}}");
                        let n = es(common::sniff(raw.as_bytes()))?;
                        ensure!(n.ident == ident && n.version == ver && n.kind == kind && n.size as u64 == *s, "sniffed as {n:?}");
                        Ok(())
                    });
                }
            }
        }
    }
    ctx.case("versify defaults".into(), || {
        let t = es(common::versify(None, None, None, None))?;
        ensure!(t == "KERI10JSON000000_", "built {t}");
        Ok(())
    });
    ctx.group("reading any text");
    let base = "KERI10JSON0000ff_";
    let mut texts: Vec<String> = ctx.strs.clone();
    texts.push(String::new());
    for i in 0..17 {
        for c in (0..128u8).map(|c| c as char).chain(['é', '日']) {
            let mut t: Vec<char> = base.chars().collect();
            t[i] = c;
            texts.push(t.iter().collect());
            if c as u32 % 7 == 0 {
                t.insert(i, 'A');
                texts.push(t.iter().collect());
                t.remove(i);
                t.remove(i);
                texts.push(t.into_iter().collect());
            }
        }
    }
    for p in ["x", " ", "\n", "0", "KERI", "{\"v\":\"", "KERI10JSON000000_", "é"] {
        texts.push(format!("{p}{base}"));
        texts.push(format!("{base}{p}"));
        texts.push(format!("{p}{base}{p}"));
    }
    for t in &texts {
        ctx.case(format!("deversify {t:?}"), || {
            let want = vparse(t.as_bytes()).filter(|v| IDENT.contains(&v.ident.as_str()) && v.kind == "JSON");
            match (common::deversify(t), want) {
                (Ok(d), Some(v)) => ensure!(d.ident == v.ident && d.version.major == v.major && d.version.minor == v.minor && d.size == v.size && d.kind == v.kind, "read as {d:?}"),
                (Ok(d), None) => return Err(format!("read as {d:?}")),
                (Err(e), Some(_)) => return Err(format!("refused: {e}")),
                _ => (),
            }
            Ok(())
        });
    }
    ctx.group("sniffing");
    let mut raws: Vec<Vec<u8>> = vec![];
    for t in texts.iter().filter(|t| t.len() < 30) {
        raws.push(format!("{{\"v\":\"{t}\",\"abcdefgh\":0}}").into_bytes())
    }
    for at in 0..30 {
        for fill in [b' ', b'{', b'K', b'_', 0] {
            let mut r = vec![fill; at];
            r.extend(base.as_bytes());
            r.extend(vec![b' '; 20]);
            raws.push(r);
        }
    }
    for n in 0..40 {
        let mut r = format!("{{\"v\":\"{base}\",\"d\":\"aaaaaaaaaa\"}}").into_bytes();
        r.truncate(n);
        raws.push(r);
        let mut r = format!("{{\"v\":\"{base}\",").into_bytes();
        r.extend(ctx.rng.bytes(n));
        raws.push(r);
        let r = ctx.rng.bytes(n);
        raws.push(r);
    }
    for r in &raws {
        ctx.case(format!("sniff {:?}", String::from_utf8_lossy(r)), || {
            let got = common::sniff(r);
            let win = &r[..r.len().min(29)];
            let want = if r.len() < 29 { None } else { first(win).filter(|(at, v)| *at <= 12 && v.kind == "JSON") };
            match (got, want) {
                (Ok(g), Some((_, v))) => ensure!(g.ident == v.ident && g.kind == v.kind && g.size == v.size && g.version.major == v.major && g.version.minor == v.minor, "sniffed as {g:?}"),
                (Ok(g), None) => return Err(format!("sniffed as {g:?}")),
                // bytes that are no text in front of the version string: no document
                (Err(e), Some((at, v))) => ensure!(!IDENT.contains(&v.ident.as_str()) || std::str::from_utf8(&win[..at]).is_err(), "refused: {e}"),
                _ => (),
            }
            Ok(())
        });
    }
    ctx.group("sizing");
    let mut docs: Vec<J> = vec![];
    for _ in 0..ctx.n(9000) {
        let ident = *ctx.rng.pick(IDENT);
        let mut d = vdoc(ctx, ident);
        match ctx.rng.below(12) {
            0 => {
                // the version string is not the first field
                let m = d.as_object().unwrap().clone();
                let k = word(ctx);
                let mut o = Map::new();
                o.insert(k, doc(ctx, 1));
                o.extend(m);
                d = J::Object(o)
            }
            1 => {
                let t = ctx.rng.pick(&["KERI20JSON000000_", "KERI11JSON000000_", "KERI10CBOR000000_", "XXXX10JSON000000_", "KERI10JSON00000_", "", "KERI10JSON0000000_", "keri10JSON000000_", "KERI10JSON000000"]).to_string();
                d["v"] = json!(t)
            }
            2 => d["v"] = doc(ctx, 1),
            3 => {
                d.as_object_mut().unwrap().shift_remove("v");
            }
            4 => d["KERI10JSON000001_"] = json!("ACDC10JSON000002_"),
            _ => (),
        }
        docs.push(d)
    }
    let big = "x".repeat(70000);
    docs.push(json!({"v": "KERI10JSON000000_", "a": big}));
    docs.push(json!([1]));
    docs.push(json!("KERI10JSON000000_"));
    docs.push(json!({"KERI10JSON000000_": 1, "v": "KERI10JSON000000_"}));
    docs.push(json!({"a": "KERI10JSON000000_", "v": "KERI10JSON000000_"}));
    for n in (0..300).chain([0xffd, 0xffe, 0xfff, 0x1000, 0xffd0, 0xfff0]) {
        docs.push(json!({"v": "ACDC10JSON000000_", "a": "y".repeat(n)}))
    }
    for d in &docs {
        let t = ser(d);
        ctx.case(format!("sizeify {}", short(&t)), || {
            let want = sized(d);
            for kind in [None, Some("JSON")] {
                match (common::sizeify(&val(d), kind), &want) {
                    (Ok(r), Some(w)) => {
                        ensure!(r.raw == ser(w).as_bytes(), "serialization {}", String::from_utf8_lossy(&r.raw));
                        ensure!(r.raw.len() == t.len() || d["v"].as_str().map_or(0, |s| s.len()) != 17, "length changed");
                        ensure!(back(&r.ked)? == *w && r.ked == val(w), "document {}", r.ked);
                        ensure!(r.kind == "JSON" && r.version == *common::CURRENT_VERSION && r.ident == w["v"].as_str().unwrap()[..4], "{} {}", r.ident, r.kind);
                        if r.raw.len() >= 29 {
                            let n = es(common::sniff(&r.raw))?;
                            ensure!(n.size as usize == r.raw.len() && n.ident == r.ident && n.kind == r.kind && n.version == r.version, "sniffed as {n:?}");
                        }
                    }
                    (Ok(r), None) => return Err(format!("sized as {}", String::from_utf8_lossy(&r.raw))),
                    (Err(e), Some(_)) => return Err(format!("refused: {e}")),
                    _ => (),
                }
            }
            ensure!(common::sizeify(&val(d), Some("CBOR")).is_err(), "unsupported kind accepted");
            Ok(())
        });
    }
}

// ---------------------------------------------------------------- self addressing

const LABELS: &[&str] = &["d", "i", "$id", "id", "x"];

/// (said, document with dummy) or None when it cannot be derived
fn said(d: &J, code: &str, label: &str, ignore: &[&str]) -> Option<(String, J)> {
    let fs = mat(code)?.fs;
    let mut s = d.clone();
    s.as_object()?;
    s[label] = json!("#".repeat(fs));
    if s.get("v").is_some() {
        s = sized(&s)?
    }
    let mut m = s.as_object()?.clone();
    for k in ignore {
        m.shift_remove(*k);
    }
    let raw = hash(code, ser(&J::Object(m)).as_bytes());
    Some((mtext(code, 0, &raw)?, s))
}

fn sdoc(ctx: &mut Ctx, label: &str) -> J {
    let mut d = if ctx.rng.chance(1, 2) {
        let ident = *ctx.rng.pick(IDENT);
        vdoc(ctx, ident)
    } else {
        let mut m = Map::new();
        for _ in 0..ctx.rng.below(6) {
            let k = word(ctx);
            if k != "v" {
                m.insert(k, doc(ctx, 2));
            }
        }
        J::Object(m)
    };
    let at = ctx.rng.below(3);
    let old = match ctx.rng.below(4) {
        0 => doc(ctx, 1),
        1 => {
            let c = *ctx.rng.pick(DIGS);
            let n = mraw(mat(c).unwrap());
            json!(mtext(c, 0, &ctx.rng.bytes(n)).unwrap())
        }
        _ => json!(""),
    };
    if at == 0 {
        // the identifier comes before the other fields
        let m = d.as_object().unwrap().clone();
        let mut o = Map::new();
        for (k, v) in m {
            o.insert(k.clone(), v);
            if k == "v" || o.len() == 1 {
                o.entry(label.to_string()).or_insert(old.clone());
            }
        }
        o.entry(label.to_string()).or_insert(old);
        d = J::Object(o)
    } else {
        d[label] = old
    }
    d
}

/// change one field somewhere in a document
fn mutate(ctx: &mut Ctx, d: &J) -> (Option<String>, J) {
    let mut m = d.as_object().unwrap().clone();
    let keys: Vec<String> = m.keys().cloned().collect();
    match ctx.rng.below(6) {
        0 => {
            let k = word(ctx);
            let x = doc(ctx, 1);
            m.insert(k.clone(), x);
            (Some(k), J::Object(m))
        }
        1 if !keys.is_empty() => {
            let k = ctx.rng.pick(&keys).clone();
            m.shift_remove(&k);
            (Some(k), J::Object(m))
        }
        2 if keys.len() > 1 => {
            // reorder
            let k = ctx.rng.pick(&keys).clone();
            let x = m.shift_remove(&k).unwrap();
            m.insert(k, x);
            (None, J::Object(m))
        }
        3 if !keys.is_empty() => {
            let k = ctx.rng.pick(&keys).clone();
            let x = match &m[&k] {
                J::String(s) if !s.is_empty() => {
                    let mut c: Vec<char> = s.chars().collect();
                    let i = ctx.rng.below(c.len());
                    c[i] = if c[i] == 'b' { 'c' } else { 'b' };
                    json!(c.into_iter().collect::<String>())
                }
                J::Number(n) if n.is_i64() => json!(n.as_i64().unwrap().wrapping_add(1)),
                J::Bool(b) => json!(!b),
                J::Array(a) if !a.is_empty() => {
                    let mut a = a.clone();
                    a.pop();
                    J::Array(a)
                }
                _ => doc(ctx, 1),
            };
            m.insert(k.clone(), x);
            (Some(k), J::Object(m))
        }
        4 if !keys.is_empty() => {
            // rename
            let k = ctx.rng.pick(&keys).clone();
            let o: Map<String, J> = m.into_iter().map(|(a, b)| if a == k { (format!("{a}x"), b) } else { (a, b) }).collect();
            (None, J::Object(o))
        }
        _ => (None, J::Object(m)),
    }
}

pub fn c20(ctx: &mut Ctx) {
    ctx.group("saidify and verify");
    for i in 0..ctx.n(5000) {
        if ctx.over() {
            break;
        }
        let label = if i % 2 == 0 { "d" } else { *ctx.rng.pick(LABELS) };
        let code = if i % 3 == 0 { "E" } else { *ctx.rng.pick(DIGS) };
        let d = sdoc(ctx, label);
        let mut ignore: Vec<&str> = vec![];
        if ctx.rng.chance(1, 3) {
            for k in ["a", "s", "i", "missing"] {
                if k != label && ctx.rng.chance(1, 2) {
                    ignore.push(k)
                }
            }
        }
        let ig = if ignore.is_empty() && ctx.rng.chance(1, 2) { None } else { Some(&ignore[..]) };
        let lab = if label == "d" && ctx.rng.chance(1, 2) { None } else { Some(label) };
        let cod = if code == "E" && ctx.rng.chance(1, 2) { None } else { Some(code) };
        let kind = *ctx.rng.pick(&[None, Some("JSON")]);
        let muts: Vec<(Option<String>, J)> = match said(&d, code, label, &ignore) {
            Some((s, mut f)) => {
                f[label] = json!(s);
                (0..6).map(|_| mutate(ctx, &f)).collect()
            }
            None => vec![],
        };
        let wrong = { let n = mraw(mat(code).unwrap()); ctx.rng.bytes(n) };
        let flags = ctx.rng.below(4);
        ctx.case(format!("saidify {} code={code} label={label} ignore={ignore:?}", short(&ser(&d))), || {
            let r = es(Saider::saidify(&val(&d), cod, kind, lab, ig));
            let Some((s, dummy)) = said(&d, code, label, &ignore) else {
                ensure!(r.is_err(), "a document that cannot be derived is saidified");
                return Ok(());
            };
            let (sr, sad) = r?;
            let mut want = dummy.clone();
            want[label] = json!(s);
            ensure!(es(sr.qb64())? == s && sr.code() == code, "identifier {} instead of {s}", es(sr.qb64())?);
            ensure!(es(sad.to_json())? == ser(&want), "document {sad}");
            ensure!(sad == val(&want), "document value");
            for p in [None, Some(false), Some(true)] {
                for v in [None, Some(false), Some(true)] {
                    ensure!(es(sr.verify(&sad, p, v, kind, lab, ig))?, "does not verify prefixed={p:?} versioned={v:?}");
                }
            }
            // the same identifier from the document
            let a = es(Saider::new_with_sad(&sad, lab, kind, ig, None))?;
            ensure!(es(a.qb64())? == s, "derived again: {}", es(a.qb64())?);
            let a = es(Saider::new_with_sad(&val(&d), lab, kind, ig, Some(code)))?;
            ensure!(es(a.qb64())? == s, "derived by code: {}", es(a.qb64())?);
            let w = es(Saider::new_with_raw(&wrong, Some(code)))?;
            ensure!(!es(w.verify(&sad, None, None, kind, lab, ig))?, "another identifier verifies");
            // changed documents
            let (prefixed, versioned) = (flags & 1 != 0, flags & 2 != 0);
            for (k, m) in &muts {
                let got = sr.verify(&val(m), Some(prefixed), Some(versioned), kind, lab, ig).unwrap_or(false);
                let want = match said(m, code, label, &ignore) {
                    None => false,
                    Some((s2, d2)) => {
                        s2 == s && (!versioned || m.get("v").is_none() || m["v"] == d2["v"])
                            && (!prefixed || m.get(label).map_or(false, |x| *x == json!(s)))
                    }
                };
                ensure!(got == want, "after changing {k:?} to {}: prefixed={prefixed} versioned={versioned} gives {got}", ser(m));
            }
            // a wrong version string
            if d.get("v").is_some() {
                let mut m = want.clone();
                m["v"] = json!(vs(&m["v"].as_str().unwrap()[..4], 1, 0, "JSON", 0));
                ensure!(!es(sr.verify(&val(&m), None, None, kind, lab, ig))?, "wrong version string verifies by default");
                ensure!(!es(sr.verify(&val(&m), None, Some(true), kind, lab, ig))?, "wrong version string verifies");
                ensure!(es(sr.verify(&val(&m), None, Some(false), kind, lab, ig))? == !ignore.contains(&"v"), "version string checked although not requested");
            }
            // a wrong identifier field
            let mut m = want.clone();
            m[label] = json!("");
            ensure!(es(sr.verify(&val(&m), None, None, kind, lab, ig))?, "the identifier field is part of what is digested");
            ensure!(!es(sr.verify(&val(&m), Some(true), None, kind, lab, ig))?, "an empty identifier field verifies");
            Ok(())
        });
    }
    ctx.group("documents without identifier or of other types");
    for d in [json!([]), json!("x"), json!(5), json!(null), json!({}), json!({"a": 1}), json!({"v": 5, "d": ""}), json!({"v": "KERI10JSON000000_"}), json!({"d": 5}), json!({"d": null}), json!({"d": "x"}), json!({"v": "bad", "d": ""})] {
        for l in [None, Some("d"), Some("i")] {
            ctx.case(format!("document {d} label {l:?}"), || {
                let r = Saider::saidify(&val(&d), None, None, l, None);
                let has = d.get(l.unwrap_or("d")).is_some();
                ensure!(has || r.is_err(), "saidified without a field for it");
                let _ = Saider::new_with_sad(&val(&d), l, None, None, None);
                let s = es(Saider::new_with_raw(&[7; 32], Some("E")))?;
                for p in [None, Some(true)] {
                    if let Ok(true) = s.verify(&val(&d), p, None, None, l, None) {
                        return Err("verifies".to_string());
                    }
                }
                ensure!(Saider::saidify(&val(&json!({"d": ""})), Some("A"), None, None, None).is_err(), "code A accepted");
                Ok(())
            });
        }
    }
}

// ---------------------------------------------------------------- prefixes

const BASIC: &[(&str, &str, bool)] = &[("A", "B", false), ("J", "1AAA", false), ("Q", "1AAI", false), ("A", "D", true), ("J", "1AAB", true), ("Q", "1AAJ", true)];

fn icp(ctx: &mut Ctx, keys: &[String], pre: &str) -> J {
    let mut m = Map::new();
    m.insert("v".into(), json!("KERI10JSON000000_"));
    m.insert("t".into(), json!(*ctx.rng.pick(&["icp", "dip", "vcp"])));
    m.insert("d".into(), json!(""));
    m.insert("i".into(), json!(pre));
    m.insert("s".into(), json!("0"));
    m.insert("kt".into(), json!("1"));
    m.insert("k".into(), json!(keys));
    match ctx.rng.below(5) {
        0 => (),
        1 => { m.insert("n".into(), json!("")); }
        2 => { m.insert("n".into(), json!(["EAAA"])); }
        _ => { m.insert("n".into(), json!([])); }
    }
    for k in ["b", "a"] {
        match ctx.rng.below(8) {
            0 => (),
            1 => { m.insert(k.into(), json!(["x"])); }
            _ => { m.insert(k.into(), json!([])); }
        }
    }
    if ctx.rng.chance(1, 4) {
        let k = word(ctx);
        if k.len() > 2 {
            m.insert(k, doc(ctx, 1));
        }
    }
    J::Object(m)
}
fn empty(v: Option<&J>) -> bool {
    match v {
        None => true,
        Some(J::Array(a)) => a.is_empty(),
        Some(J::String(s)) => s.is_empty(),
        _ => false,
    }
}
fn dpre(k: &J, code: &str) -> Option<String> {
    let mut k = k.clone();
    k.as_object()?;
    let dummy = "#".repeat(mat(code)?.fs);
    k["i"] = json!(dummy);
    k["d"] = json!(dummy);
    let raw = hash(code, ser(&sized(&k)?).as_bytes());
    mtext(code, 0, &raw)
}
fn inception(k: &J) -> bool {
    matches!(k.get("t").and_then(|t| t.as_str()), Some("icp" | "dip" | "vcp"))
}
/// expected verification result; None: not specified
fn pverify(k: &J, pre: &str, code: &str, prefixed: bool) -> Option<bool> {
    if !inception(k) {
        return Some(false);
    }
    let field = !prefixed || k.get("i").map_or(false, |x| *x == json!(pre));
    if DIGS.contains(&code) {
        return Some(field && dpre(k, code).map_or(false, |p| p == pre));
    }
    let key = k.get("k").and_then(|x| x.as_array()).map_or(false, |a| a.len() == 1 && a[0] == json!(pre));
    let nontrans = ["B", "1AAA", "1AAI"].contains(&code);
    if nontrans && (!empty(k.get("b")) || !empty(k.get("a"))) && key && field && empty(k.get("n")) {
        return None;
    }
    Some(field && key && (!nontrans || empty(k.get("n"))))
}
fn truth(r: cesride::Result<bool>) -> bool {
    r.unwrap_or(false)
}

pub fn c21(ctx: &mut Ctx) {
    ctx.group("inception events");
    for i in 0..ctx.n(5000) {
        if ctx.over() {
            break;
        }
        let (sc, kc, transferable) = *ctx.rng.pick(BASIC);
        let seed = ctx.rng.bytes(32);
        let Some(pk) = public(sc, &seed) else { continue };
        let key = mtext(kc, 0, &pk).unwrap();
        let mut keys = vec![key.clone()];
        match ctx.rng.below(8) {
            0 => keys.push(key.clone()),
            1 => keys.clear(),
            2 => {
                let o = ctx.rng.bytes(32);
                keys.insert(0, mtext("D", 0, &o).unwrap())
            }
            _ => (),
        }
        let mut k = icp(ctx, &keys, "");
        let digest = i % 2 == 0;
        let code = if digest { *ctx.rng.pick(DIGS) } else if ctx.rng.chance(1, 8) { ctx.rng.pick(BASIC).1 } else { kc };
        if ctx.rng.chance(1, 12) {
            k["t"] = json!(*ctx.rng.pick(&["rot", "ixn", "drt", "rct", "vrt", "iss", "", "ICP", "icp ", "bar"]))
        }
        // what the derived prefix has to be
        let want = if !inception(&k) {
            None
        } else if digest {
            dpre(&k, code)
        } else if keys.len() == 1 && code == kc && (transferable || (empty(k.get("n")) && empty(k.get("b")) && empty(k.get("a")))) {
            Some(key.clone())
        } else {
            None
        };
        // 'b' and 'a' of a non-transferable inception are not part of the property
        let open = !digest && !transferable && code == kc && keys.len() == 1 && inception(&k) && empty(k.get("n")) && want.is_none();
        let full = |p: &str, k: &J| {
            let mut k = k.clone();
            k["i"] = json!(p);
            if digest {
                k["d"] = json!(p)
            }
            sized(&k).unwrap_or(k)
        };
        let muts: Vec<(Option<String>, J)> = match &want {
            Some(p) => {
                let f = full(p, &k);
                (0..6).map(|_| mutate(ctx, &f)).collect()
            }
            None => vec![],
        };
        ctx.case(format!("prefix code={code} of {}", ser(&k)), || {
            let r = es(Prefixer::new_with_ked(&val(&k), None, Some(code)));
            let Some(pre) = &want else {
                ensure!(open || r.is_err(), "prefix {} for an event it does not belong to", es(r.unwrap().qb64())?);
                return Ok(());
            };
            let p = r?;
            ensure!(es(p.qb64())? == *pre && p.code() == code, "prefix {} instead of {pre}", es(p.qb64())?);
            ensure!(truth(p.verify(&val(&k), None)) && truth(p.verify(&val(&k), Some(false))), "does not verify against its event");
            ensure!(!truth(p.verify(&val(&k), Some(true))), "the empty prefix field matches");
            let f = full(pre, &k);
            ensure!(truth(p.verify(&val(&f), Some(true))), "does not verify with its prefix field");
            // from the prefix field
            let p2 = es(Prefixer::new_with_ked(&val(&f), None, None))?;
            ensure!(es(p2.qb64())? == *pre, "derived from the prefix field: {}", es(p2.qb64())?);
            ensure!(Prefixer::new_with_ked(&val(&k), Some(&["0B"]), Some(code)).is_err(), "code that is not allowed");
            ensure!(es(Prefixer::new_with_ked(&val(&k), Some(&["0B", code]), Some(code)).and_then(|p| p.qb64()))? == *pre, "allowed code");
            for (c, m) in &muts {
                for prefixed in [false, true] {
                    let got = truth(p.verify(&val(m), Some(prefixed)));
                    if let Some(want) = pverify(m, pre, code, prefixed) {
                        ensure!(got == want, "after changing {c:?} to {}: prefixed={prefixed} gives {got}", ser(m));
                    }
                }
            }
            Ok(())
        });
    }
    ctx.group("verification of any prefix against any event");
    for _ in 0..ctx.n(3000) {
        let (_, kc, _) = *ctx.rng.pick(BASIC);
        let n = mraw(mat(kc).unwrap());
        let key = mtext(kc, 0, &ctx.rng.bytes(n)).unwrap();
        let keys: Vec<String> = (0..ctx.rng.below(3)).map(|_| key.clone()).collect();
        let mut k = icp(ctx, &keys, &key);
        if ctx.rng.chance(1, 4) {
            let f = *ctx.rng.pick(&["k", "i", "n", "t", "v", "d"]);
            let x = doc(ctx, 1);
            k[f] = x
        }
        if ctx.rng.chance(1, 6) {
            let f = *ctx.rng.pick(&["k", "i", "n", "t", "v", "d"]);
            k.as_object_mut().unwrap().shift_remove(f);
        }
        ctx.case(format!("prefix {key} against {}", ser(&k)), || {
            let p = es(Prefixer::new_with_qb64(&key))?;
            for prefixed in [false, true] {
                let got = truth(p.verify(&val(&k), Some(prefixed)));
                if let Some(want) = pverify(&k, &key, kc, prefixed) {
                    ensure!(got == want, "prefixed={prefixed} gives {got}");
                }
            }
            let _ = Prefixer::new_with_ked(&val(&k), None, None);
            for c in ["E", "B", "D", "0D", "A", "x"] {
                let _ = Prefixer::new_with_ked(&val(&k), None, Some(c));
            }
            Ok(())
        });
    }
    for k in [json!([]), json!(5), json!({}), json!({"t": 5}), json!({"t": "icp"}), json!({"t": "icp", "i": 5}), json!({"t": "icp", "k": 5}), json!({"t": "icp", "k": [5]}), json!({"t": "icp", "k": ["x"]})] {
        ctx.case(format!("event {k}"), || {
            for c in [None, Some("B"), Some("D"), Some("E")] {
                ensure!(Prefixer::new_with_ked(&val(&k), None, c).is_err(), "prefix of no inception event");
            }
            for p in ["BKxy2sgzfplyr-tgwIxS19f2OchFHtLwPWD3v4oYimBx", "DKxy2sgzfplyr-tgwIxS19f2OchFHtLwPWD3v4oYimBx", "EKxy2sgzfplyr-tgwIxS19f2OchFHtLwPWD3v4oYimBx"] {
                ensure!(!truth(es(Prefixer::new_with_qb64(p))?.verify(&val(&k), None)), "{p} verifies");
            }
            Ok(())
        });
    }
}

// ---------------------------------------------------------------- events

struct S {
    raw: Vec<u8>,
    ked: Value,
    ident: String,
    kind: String,
    size: u32,
    version: common::Version,
    said: String,
    code: String,
    saidb: Vec<u8>,
}
fn see<T: Sadder>(s: cesride::Result<T>) -> R<S> {
    let s = es(s)?;
    Ok(S {
        raw: s.raw(),
        ked: s.ked(),
        ident: s.ident(),
        kind: s.kind(),
        size: s.size(),
        version: s.version(),
        said: es(s.said())?,
        saidb: es(s.saidb())?,
        code: s.code(),
    })
}
fn ev_ked(ident: &str, k: &Value, code: Option<&str>, kind: Option<&str>) -> R<S> {
    if ident == "KERI" { see(Serder::new_with_ked(k, code, kind)) } else { see(Creder::new_with_ked(k, code, kind)) }
}
fn ev_raw(ident: &str, raw: &[u8], code: Option<&str>) -> R<S> {
    match (ident == "KERI", code) {
        (true, None) => see(Serder::new_with_raw(raw)),
        (false, None) => see(Creder::new_with_raw(raw)),
        (true, _) => see(Serder::new(code, Some(raw), None, None, None)),
        (false, _) => see(Creder::new(code, Some(raw), None, None, None)),
    }
}
fn same(s: &S, w: &J, ident: &str, code: &str) -> R<()> {
    let raw = ser(w);
    ensure!(s.raw == raw.as_bytes(), "serialization {} instead of {raw}", String::from_utf8_lossy(&s.raw));
    ensure!(es(s.ked.to_json())? == raw && s.ked == val(w), "document {}", s.ked);
    ensure!(s.ident == ident && s.kind == "JSON" && s.size as usize == raw.len() && s.version == *common::CURRENT_VERSION, "{} {} {}", s.ident, s.kind, s.size);
    ensure!(json!(s.said) == w["d"] && s.saidb == s.said.as_bytes() && s.code == code, "identifier {} code {}", s.said, s.code);
    Ok(())
}

pub fn c23(ctx: &mut Ctx) {
    ctx.group("events");
    for i in 0..ctx.n(4000) {
        if ctx.over() {
            break;
        }
        let ident = *ctx.rng.pick(IDENT);
        let code = if i % 2 == 0 { "E" } else { *ctx.rng.pick(DIGS) };
        let mut k = vdoc(ctx, ident);
        // the identifier need not belong to the document to be carried by it
        let n = mraw(mat(code).unwrap());
        let rnd = mtext(code, 0, &ctx.rng.bytes(n)).unwrap();
        k["d"] = json!(rnd);
        if ctx.rng.chance(2, 3) {
            if let Some((s, mut d)) = said(&k, code, "d", &[]) {
                d["d"] = json!(s);
                k = d
            }
        }
        if ctx.rng.chance(1, 3) {
            k["v"] = json!(vs(ident, 1, 0, "JSON", 0))
        }
        let tail = match i % 6 {
            0 => vec![],
            1 => b"-AABAAB_AAAA".to_vec(),
            2 => b"KERI10JSON000020_{\"v\":\"ACDC10JSON000011_\"".to_vec(),
            3 => vec![0xff; 30],
            4 => "é日本".into(),
            _ => {
                let n = ctx.rng.below(60);
                ctx.rng.bytes(n)
            }
        };
        let other = *ctx.rng.pick(DIGS);
        let cut = ctx.rng.u64() as usize;
        ctx.case(format!("event {} code={code} followed by {}", short(&ser(&k)), hex(&tail)), || {
            let c = if code == "E" && i % 4 == 0 { None } else { Some(code) };
            let r = ev_ked(ident, &val(&k), c, None);
            let Some(w) = sized(&k) else {
                ensure!(r.is_err(), "event of a document that cannot be sized");
                return Ok(());
            };
            let s = r?;
            same(&s, &w, ident, code)?;
            same(&ev_ked(ident, &val(&k), c, Some("JSON"))?, &w, ident, code)?;
            // a window shorter than the sniff size is a refusal
            let mut raw = s.raw.clone();
            if raw.len() >= 29 {
                same(&ev_raw(ident, &raw, c)?, &w, ident, code).map_err(|e| format!("reloaded: {e}"))?;
            }
            raw.extend(&tail);
            if raw.len() >= 29 {
                same(&ev_raw(ident, &raw, Some(code))?, &w, ident, code).map_err(|e| format!("reloaded from a stream: {e}"))?;
            }
            ensure!(ev_raw(ident, &s.raw[..cut % s.raw.len()], c).is_err(), "truncated to {} accepted", cut % s.raw.len());
            ensure!(ev_raw(ident, &s.raw[..s.raw.len() - 1], c).is_err(), "truncated by one accepted");
            let wrong = if ident == "KERI" { "ACDC" } else { "KERI" };
            ensure!(ev_raw(wrong, &s.raw, c).is_err() && ev_ked(wrong, &val(&k), c, None).is_err(), "accepted as {wrong}");
            if other != code {
                ensure!(ev_raw(ident, &s.raw, Some(other)).is_err() && ev_ked(ident, &val(&k), Some(other), None).is_err(), "accepted with identifier code {other}");
            }
            ensure!(ev_ked(ident, &val(&k), c, Some("CBOR")).is_err(), "kind CBOR accepted");
            let mut m = w.clone();
            m.as_object_mut().unwrap().shift_remove("d");
            let m = sized(&m).unwrap_or(m);
            ensure!(ev_ked(ident, &val(&m), c, None).is_err() && ev_raw(ident, ser(&m).as_bytes(), c).is_err(), "accepted without identifier");
            for bad in [json!(5), json!(""), json!("x"), json!(null), json!("#".repeat(44)), json!("BKxy2sgzfplyr-tgwIxS19f2OchFHtLwPWD3v4oYimBx")] {
                let mut m = w.clone();
                m["d"] = bad;
                let m = sized(&m).unwrap_or(m);
                ensure!(ev_ked(ident, &val(&m), c, None).is_err() && ev_raw(ident, ser(&m).as_bytes(), c).is_err(), "accepted with identifier {}", m["d"]);
            }
            Ok(())
        });
    }
    ctx.group("indented text");
    for i in 0..ctx.n(400) {
        let ident = *ctx.rng.pick(IDENT);
        let mut k = vdoc(ctx, ident);
        k["d"] = json!("EKxy2sgzfplyr-tgwIxS19f2OchFHtLwPWD3v4oYimBx");
        if i % 2 == 0 {
            k["u"] = json!("é日本€𝄞".repeat(1 + ctx.rng.below(60)))
        }
        if i % 5 == 0 {
            k["w"] = json!("x".repeat(1400))
        }
        let at = ctx.rng.below(1200);
        ctx.case(format!("indented {}", short(&ser(&k))), || {
            let Some(w) = sized(&k) else { return Ok(()) };
            let p = |n: Option<usize>| -> R<String> {
                if ident == "KERI" { es(es(Serder::new_with_ked(&val(&k), None, None))?.pretty(n)) } else { es(es(Creder::new_with_ked(&val(&k), None, None))?.pretty(n)) }
            };
            let want = serde_json::to_string_pretty(&w).unwrap();
            let m = want.len();
            let mut sizes: Vec<Option<usize>> = [0, 1, 2, m / 2, m - 1, m, m + 1, 1023, 1024, 1025, usize::MAX].iter().map(|n| Some(*n)).collect();
            sizes.push(None);
            sizes.extend((at..at + 12).map(Some));
            for n in sizes {
                let mut c = n.unwrap_or(1024).min(m);
                while !want.is_char_boundary(c) {
                    c -= 1
                }
                let g = p(n)?;
                ensure!(g == want[..c], "size {n:?} gives {g:?} instead of {:?}", &want[..c]);
            }
            Ok(())
        });
    }
    ctx.group("declared size");
    let base = {
        let mut k = json!({"v": "KERI10JSON000000_", "t": "rpy", "d": "", "a": {"x": "y"}});
        let (s, d) = said(&k, "E", "d", &[]).unwrap();
        k = d;
        k["d"] = json!(s);
        k
    };
    let good = ser(&base);
    let n = good.len() as u64;
    for size in (0..n + 40).chain([0xffffff, 0xfffffe, 65536, 1 << 20]) {
        for extra in ["", "}", " ", "           ", "{\"v\":\"KERI10JSON000000_\"}"] {
            let raw = format!("{}{extra}", good.replacen(base["v"].as_str().unwrap(), &vs("KERI", 1, 0, "JSON", size), 1));
            ctx.case(format!("declared size {size} of {n}, followed by {extra:?}"), || {
                match ev_raw("KERI", raw.as_bytes(), None) {
                    Ok(s) => {
                        ensure!(size as usize <= raw.len(), "raw is shorter than declared");
                        ensure!(s.size as u64 == size && s.raw == raw.as_bytes()[..size as usize], "size {}", s.size);
                        let j: J = serde_json::from_slice(&s.raw).map_err(|e| e.to_string())?;
                        ensure!(s.ked == val(&j), "document {}", s.ked);
                    }
                    Err(e) => ensure!(size != n, "refused: {e}"),
                }
                Ok(())
            });
        }
    }
    ctx.group("arbitrary input");
    let mut raws: Vec<Vec<u8>> = vec![];
    for _ in 0..ctx.n(6000) {
        let mut r = good.clone().into_bytes();
        for _ in 0..1 + ctx.rng.below(3) {
            let i = ctx.rng.below(r.len().max(1)).min(r.len().saturating_sub(1));
            match ctx.rng.below(4) {
                0 if r.len() > 1 => {
                    r.remove(i);
                }
                1 => r.insert(i, ctx.rng.below(256) as u8),
                2 => r[i] = *ctx.rng.pick(&[0xffu8, 0xc3, b'"', b'}', b'0', b'_', b'K', 0]),
                _ => r[i] ^= 1 << ctx.rng.below(8),
            }
        }
        raws.push(r)
    }
    for v in ["KERI11JSON", "KERI20JSON", "KERI10CBOR", "XXXX10JSON", "keri10JSON"] {
        raws.push(good.replacen("KERI10JSON", v, 1).into_bytes())
    }
    for _ in 0..ctx.n(500) {
        let n = ctx.rng.below(80);
        raws.push(ctx.rng.bytes(n))
    }
    for r in &raws {
        ctx.case(format!("raw {:?}", String::from_utf8_lossy(r)), || {
            for ident in IDENT {
                if let Ok(s) = ev_raw(ident, r, None) {
                    ensure!(s.ident == *ident && s.kind == "JSON" && s.version == *common::CURRENT_VERSION, "{} {}", s.ident, s.kind);
                    ensure!(s.size as usize <= r.len() && s.raw == r[..s.size as usize], "raw differs");
                    let j: J = serde_json::from_slice(&s.raw).map_err(|e| e.to_string())?;
                    ensure!(s.ked == val(&j), "document {}", s.ked);
                    // the field may carry more than a primitive: hostile input need not verify
                    ensure!(j["d"].as_str().is_some_and(|d| d.starts_with(&s.said)) && s.code == "E" && s.said.starts_with('E') && s.said.len() == 44, "identifier {}", s.said);
                }
            }
            Ok(())
        });
    }
    ctx.case("nothing given".into(), || {
        ensure!(Serder::new(None, None, None, None, None).is_err() && Creder::new(None, None, None, None, None).is_err(), "accepted");
        Ok(())
    });
}

// ---------------------------------------------------------------- what events and credentials report
const KEYC: &[&str] = &["B", "D", "1AAA", "1AAB", "1AAI", "1AAJ"];

/// text of a primitive with one of these codes, now and then something else
fn prim(ctx: &mut Ctx, codes: &[&str], bad: bool) -> J {
    if bad && ctx.rng.chance(1, 10) {
        let c = *ctx.rng.pick(&["A", "E", "B", "0B", "M", "0A", "1AAB", "1AAF"]);
        let n = mraw(mat(c).unwrap());
        let r = ctx.rng.bytes(n);
        return match ctx.rng.below(5) {
            0 => json!(5),
            1 => json!(mtext(c, 0, &r).unwrap()),
            2 => json!("é".to_string() + &mtext(c, 0, &r).unwrap()),
            3 => json!(mtext(c, 0, &r).unwrap()[1..]),
            _ => json!(word(ctx)),
        };
    }
    let c = *ctx.rng.pick(codes);
    let n = mraw(mat(c).unwrap());
    let r = ctx.rng.bytes(n);
    json!(mtext(c, 0, &r).unwrap())
}
/// what the texts read as, if each is text of a primitive with one of these codes
fn prims(v: &[J], codes: &[&str]) -> Option<Vec<(String, Vec<u8>)>> {
    v.iter().map(|x| mparse(x.as_str()?.as_bytes()).filter(|p| codes.contains(&p.code.as_str())).map(|p| (p.code, p.raw))).collect()
}
fn list<M: Matter>(what: &str, got: cesride::Result<Vec<M>>, want: Option<Vec<(String, Vec<u8>)>>) -> R<()> {
    match (got, want) {
        (Err(_), None) => Ok(()),
        (Ok(g), Some(w)) => {
            let g: Vec<_> = g.iter().map(|x| (x.code(), x.raw())).collect();
            ensure!(g == w, "{what}: {g:?} instead of {w:?}");
            Ok(())
        }
        (Ok(g), None) => Err(format!("{what}: {} primitives although the field is malformed", g.len())),
        (Err(e), Some(w)) => Err(format!("{what}: error {e} instead of {} primitives", w.len())),
    }
}
fn thr(what: &str, got: cesride::Result<Option<Tholder>>, f: Option<&J>) -> R<()> {
    let want = f.map(|f| Tholder::new(None, None, Some(&val(f))));
    match (got, want) {
        (Err(_), Some(Err(_))) | (Ok(None), None) => Ok(()),
        (Ok(Some(g)), Some(Ok(w))) => {
            ensure!(g.weighted() == w.weighted() && g.size() == w.size(), "{what}: weighted {} size {}", g.weighted(), g.size());
            ensure!(es(g.sith())? == es(w.sith())? && es(g.limen())? == es(w.limen())?, "{what}: another threshold");
            for n in 0..6u32 {
                let i: Vec<u32> = (0..n).collect();
                ensure!(g.satisfy(&i).ok() == w.satisfy(&i).ok(), "{what}: satisfied by {n} differently");
            }
            if let Some(n) = f.and_then(|f| f.as_str()).and_then(|t| u32::from_str_radix(t, 16).ok()) {
                ensure!(!g.weighted() && g.size() == n, "{what}: size {} for {n}", g.size());
            }
            Ok(())
        }
        (Ok(None), Some(_)) => Err(format!("{what}: none although the field is there")),
        (Ok(Some(_)), None) => Err(format!("{what}: some although there is no field")),
        (Ok(Some(_)), Some(Err(e))) => Err(format!("{what}: accepted although {e}")),
        (Err(e), _) => Err(format!("{what}: {e}")),
    }
}
fn txt(what: &str, got: cesride::Result<String>, f: Option<&J>) -> R<()> {
    match (got, f.and_then(|f| f.as_str())) {
        (Ok(g), Some(w)) => {
            ensure!(g == w, "{what}: {g:?} instead of {w:?}");
            Ok(())
        }
        (Err(_), None) => Ok(()),
        (Ok(g), None) => Err(format!("{what}: {g:?} although the field is no text")),
        (Err(e), Some(_)) => Err(format!("{what}: {e}")),
    }
}

pub fn c28(ctx: &mut Ctx) {
    ctx.group("events");
    let ilks = ["icp", "rot", "ixn", "dip", "drt", "rct", "vcp", "ksn", "qry", "", "ICP", "icpx", "ic"];
    for i in 0..ctx.n(12000) {
        if ctx.over() {
            break;
        }
        let bad = i % 3 == 2;
        let mut m = Map::new();
        m.insert("v".into(), json!("KERI10JSON000000_"));
        m.insert("t".into(), if bad && ctx.rng.chance(1, 9) { json!(7) } else { json!(*ctx.rng.pick(&ilks)) });
        m.insert("d".into(), json!(""));
        m.insert("i".into(), if bad && ctx.rng.chance(1, 9) { doc(ctx, 1) } else { let w = word(ctx); json!(w) });
        let s = match ctx.rng.below(if bad { 8 } else { 4 }) {
            0 => json!(""),
            1 => json!(format!("{:x}", ctx.rng.below(300))),
            2 => json!(format!("{:x}", (ctx.rng.u64() as u128) << ctx.rng.below(65))),
            3 => json!(format!("{:032X}", ctx.rng.u64())),
            4 => json!("g1"),
            5 => json!("-1"),
            6 => json!("1".to_string() + &"0".repeat(32)),
            _ => json!(3),
        };
        m.insert("s".into(), s);
        let th = |ctx: &mut Ctx| match ctx.rng.below(if bad { 9 } else { 6 }) {
            0 => json!(format!("{:x}", ctx.rng.below(40))),
            1 => json!(["1/2", "1/2", "1/3"]),
            2 => json!([["1/2", "1/2"], ["1", "0"]]),
            3 => json!(ctx.rng.below(100000)),
            4 => json!("ffff"),
            5 => json!("10"),
            6 => json!(["1/2"]),
            7 => json!(-1),
            _ => json!("x"),
        };
        let x = th(ctx);
        m.insert("kt".into(), x);
        let x = th(ctx);
        m.insert("nt".into(), x);
        for (l, codes) in [("k", KEYC), ("n", DIGS), ("b", KEYC)] {
            let n = if ctx.rng.chance(1, 20) { 4 + ctx.rng.below(70) } else { ctx.rng.below(4) };
            let mut k: Vec<J> = (0..n).map(|_| prim(ctx, codes, bad)).collect();
            // entries may repeat, within a list and across lists
            while !k.is_empty() && ctx.rng.chance(1, 4) {
                let x = ctx.rng.pick(&k).clone();
                let i = ctx.rng.below(k.len() + 1);
                k.insert(i, x);
            }
            if ctx.rng.chance(1, 6) {
                if let Some(J::Array(o)) = m.get("k") {
                    k.extend(o.iter().take(2).cloned())
                }
            }
            m.insert(l.into(), json!(k));
        }
        if ctx.rng.chance(1, 2) {
            let x = match ctx.rng.below(5) {
                0 => json!(mtext("M", 0, &[0, ctx.rng.below(3) as u8]).unwrap()),
                1 => json!(mtext("0A", 0, &[0; 16]).unwrap()),
                _ => prim(ctx, &["M", "0H", "N", "0A"], bad),
            };
            m.insert("f".into(), x);
        }
        for l in ["k", "n", "b"] {
            if ctx.rng.chance(1, 12) {
                let x = ctx.rng.pick(&[json!(""), json!("x"), json!(1), json!({ "k": [] }), json!(null)]).clone();
                m.insert(l.into(), x);
            }
        }
        // any field may be missing
        for l in ["t", "i", "s", "kt", "nt", "k", "n", "b"] {
            if ctx.rng.chance(1, 12) {
                m.shift_remove(l);
            }
        }
        let Some((id, mut d)) = said(&J::Object(m), "E", "d", &[]) else { continue };
        d["d"] = json!(id);
        ctx.case(format!("event {}", short(&ser(&d))), || {
            let s = es(Serder::new_with_ked(&val(&d), None, None))?;
            for s in [s.clone(), es(Serder::new_with_raw(&s.raw()))?] {
                let d = back(&s.ked())?;
                let m = d.as_object().unwrap();
                let arr = |l: &str| m.get(l).and_then(|x| x.as_array()).cloned().unwrap_or_default();
                list("keys", s.verfers(), prims(&arr("k"), KEYC))?;
                list("next keys", s.digers(), prims(&arr("n"), DIGS))?;
                let w = if m.get("b").map_or(true, |b| b.is_array()) { prims(&arr("b"), KEYC) } else { None };
                list("witnesses", s.werfers(), w)?;
                thr("threshold", s.tholder(), m.get("kt"))?;
                thr("next threshold", s.ntholder(), m.get("nt"))?;
                txt("prefix", s.pre(), m.get("i"))?;
                txt("prefix bytes", s.preb().map(|b| String::from_utf8(b).unwrap()), m.get("i"))?;
                let sn = m.get("s").and_then(|x| x.as_str()).and_then(|t| if t.is_empty() { Some(0) } else { u128::from_str_radix(t, 16).ok() });
                ensure!(s.sn().ok() == sn, "sequence number {:?} instead of {sn:?}", s.sn().ok());
                ensure!(s.sner().ok().and_then(|n| n.num().ok()) == sn, "sequence number primitive");
                let f = m.get("f").map(|x| x.as_str().and_then(|t| mparse(t.as_bytes())).filter(|p| ["M", "0H", "N", "0A"].contains(&p.code.as_str())));
                let fv = f.as_ref().and_then(|p| p.as_ref()).map(|p| p.raw.iter().fold(0u128, |a, b| a << 8 | *b as u128));
                ensure!(s._fn().ok() == fv, "first seen number {:?} instead of {fv:?}", s._fn().ok());
                match (s.fner(), &f) {
                    (Ok(None), None) | (Err(_), Some(None)) => (),
                    (Ok(Some(n)), Some(Some(p))) => ensure!(n.code() == p.code && n.raw() == p.raw, "first seen primitive"),
                    (g, _) => return Err(format!("first seen primitive {:?}", g.map(|n| n.map(|n| n.raw())).map_err(|e| e.to_string()))),
                }
                let t = m.get("t").and_then(|x| x.as_str()).map(|t| ["icp", "rot", "dip", "drt"].contains(&t));
                ensure!(s.est().ok() == t, "establishment event {:?} instead of {t:?}", s.est().ok());
            }
            Ok(())
        });
    }
    ctx.group("credentials");
    for _ in 0..ctx.n(4000) {
        if ctx.over() {
            break;
        }
        let mut m = Map::new();
        m.insert("v".into(), json!("ACDC10JSON000000_"));
        m.insert("d".into(), json!(""));
        for l in ["i", "s", "a", "ri", "e"] {
            if l == "a" || ctx.rng.chance(3, 4) {
                let x = if ctx.rng.chance(2, 3) { json!(word(ctx)) } else { doc(ctx, 2) };
                m.insert(l.into(), x);
            }
        }
        let Some((id, mut d)) = said(&J::Object(m), "E", "d", &[]) else { continue };
        d["d"] = json!(id);
        ctx.case(format!("credential {}", short(&ser(&d))), || {
            let c = es(Creder::new_with_ked(&val(&d), None, None))?;
            let d = back(&c.ked())?;
            ensure!(c.crd() == val(&d), "document");
            txt("issuer", c.issuer(), d.get("i"))?;
            txt("schema", c.schema(), d.get("s"))?;
            ensure!(c.subject() == val(&d["a"]), "subject");
            match (c.status(), d.get("ri")) {
                (Ok(None), None) => (),
                (Ok(Some(s)), Some(J::String(t))) => ensure!(&s == t, "status {s}"),
                (Err(_), Some(x)) if !x.is_string() => (),
                (s, x) => return Err(format!("status {:?} for {x:?}", s.ok())),
            }
            ensure!(es(c.chains())? == val(d.get("e").unwrap_or(&json!({}))), "chains");
            Ok(())
        });
    }
}
