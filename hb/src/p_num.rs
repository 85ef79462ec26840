//! C11-C14, C25: numbers, timestamps, base64 text, paths, 128-bit words.
use crate::cesr::*;
use crate::ctx::*;
use crate::p_prim::ensure;
use crate::types::{es, In, R};
use cesride::{data::Value, Bext, Bexter, Dater, Matter, Number, Pather, Seqner};

pub fn u128s(ctx: &mut Ctx, n: usize) -> Vec<u128> {
    let mut v: Vec<u128> = (0..300).collect();
    for k in 1..=128u32 {
        let p = if k == 128 { 0u128 } else { 1u128 << k };
        for d in -3i128..=3 {
            v.push(p.wrapping_add(d as u128))
        }
    }
    for x in ctx.ints.clone() {
        for d in -1i128..=1 {
            v.push((x as u128).wrapping_add(d as u128));
            v.push(((x as u128) << 64).wrapping_add(d as u128));
        }
    }
    for k in 0..16 {
        for b in [1u128, 0x7f, 0x80, 0xff] {
            v.push(b << (8 * k));
        }
    }
    for _ in 0..n {
        let x = (ctx.rng.u64() as u128) << 64 | ctx.rng.u64() as u128;
        v.push(x >> ctx.rng.below(128));
    }
    v.sort();
    v.dedup();
    v
}

fn number_ok(n: &Number, x: u128) -> R<()> {
    ensure!(es(n.num())? == x, "num is {}", es(n.num())?);
    ensure!(es(n.numh())? == format!("{x:x}"), "numh is {}", es(n.numh())?);
    ensure!(es(n.positive())? == (x > 0), "positive is wrong");
    Ok(())
}

pub fn c11(ctx: &mut Ctx) {
    ctx.group("values");
    for x in u128s(ctx, ctx.n(40000)) {
        if ctx.over() && ctx.evals > 5000 {
            break;
        }
        ctx.case(format!("{x:#x}"), || {
            let (code, w) = if x <= 0xffff {
                ("M", 2)
            } else if x <= 0xffff_ffff {
                ("0H", 4)
            } else if x <= u64::MAX as u128 {
                ("N", 8)
            } else {
                ("0A", 16)
            };
            let raw = x.to_be_bytes()[16 - w..].to_vec();
            let text = mtext(code, 0, &raw).ok_or("oracle")?;
            let hex = format!("{x:x}");
            for (how, n) in [
                ("num", Number::new_with_num(x)),
                ("numh", Number::new_with_numh(&hex)),
                ("NUMH", Number::new_with_numh(&hex.to_uppercase())),
                ("new", Number::new(Some(x), None, None, None, None, None, None)),
            ] {
                let n = es(n).map_err(|e| format!("{how}: refused: {e}"))?;
                ensure!(n.code() == code, "{how}: code {} instead of {code}", n.code());
                number_ok(&n, x).map_err(|e| format!("{how}: {e}"))?;
                ensure!(es(n.qb64())? == text, "{how}: text {} instead of {text}", es(n.qb64())?);
            }
            let bin = b64dec(&text).ok_or("oracle")?;
            for (how, n) in [
                ("text", Number::new_with_qb64(&text)),
                ("text bytes", Number::new_with_qb64b(text.as_bytes())),
                ("binary", Number::new_with_qb2(&bin)),
                ("raw", Number::new_with_raw(&raw, Some(code))),
            ] {
                let n = es(n).map_err(|e| format!("{how}: refused: {e}"))?;
                number_ok(&n, x).map_err(|e| format!("{how}: {e}"))?;
            }
            // larger codes are kept when they are parsed
            for (c, k) in [("0H", 4), ("N", 8), ("0A", 16)] {
                if k > w {
                    let r = x.to_be_bytes()[16 - k..].to_vec();
                    let n = es(Number::new_with_raw(&r, Some(c)))?;
                    number_ok(&n, x).map_err(|e| format!("raw of {c}: {e}"))?;
                }
            }
            let sraw = x.to_be_bytes();
            let stext = mtext("0A", 0, &sraw).ok_or("oracle")?;
            let sbin = b64dec(&stext).ok_or("oracle")?;
            for (how, s) in [
                ("sn", Seqner::new_with_sn(x)),
                ("snh", Seqner::new_with_snh(&hex)),
                ("text", Seqner::new_with_qb64(&stext)),
                ("text bytes", Seqner::new_with_qb64b(stext.as_bytes())),
                ("binary", Seqner::new_with_qb2(&sbin)),
                ("raw", Seqner::new_with_raw(&sraw, None)),
            ] {
                let s = es(s).map_err(|e| format!("Seqner {how}: refused: {e}"))?;
                ensure!(es(s.sn())? == x, "Seqner {how}: sn is {}", es(s.sn())?);
                ensure!(es(s.snh())? == hex, "Seqner {how}: snh is {}", es(s.snh())?);
                ensure!(s.code() == "0A" && es(s.qb64())? == stext && stext.len() == 24,
                    "Seqner {how}: text is {}", es(s.qb64())?);
            }
            Ok(())
        });
    }
    ctx.group("not hexadecimal");
    let mut bad: Vec<String> = ["g", "0x5", " 5", "5 ", "-1", "1_0", "é", "٣", "100000000000000000000000000000000", "1.0", "fffffffffffffffffffffffffffffffff"]
        .iter().map(|s| s.to_string()).collect();
    for s in ctx.strs.clone() {
        if u128::from_str_radix(&s, 16).is_err() {
            bad.push(s)
        }
    }
    for s in bad {
        ctx.case(format!("numh {s:?}"), || {
            ensure!(Number::new_with_numh(&s).is_err(), "Number accepts it");
            ensure!(Seqner::new_with_snh(&s).is_err(), "Seqner accepts it");
            Ok(())
        });
    }
}

fn stamp(ctx: &mut Ctx) -> String {
    let r = &mut ctx.rng;
    format!(
        "{:04}-{:02}-{:02}T{:02}:{:02}:{:02}.{:06}{}{:02}:{:02}",
        r.below(10000), 1 + r.below(12), 1 + r.below(31), r.below(24), r.below(60), r.below(60), r.below(1000000),
        if r.chance(1, 2) { '+' } else { '-' }, r.below(24), r.below(60)
    )
}
fn dater_ok(d: &Dater, t: &str) -> R<()> {
    ensure!(es(d.dts())? == t, "reported as {}", es(d.dts())?);
    ensure!(es(d.dtsb())? == t.as_bytes(), "bytes differ");
    let text = format!("1AAG{}", t.replace(':', "c").replace('.', "d").replace('+', "p"));
    ensure!(es(d.qb64())? == text && es(d.qb64b())? == text.as_bytes(), "text is {}", es(d.qb64())?);
    ensure!(es(d.qb2())? == b64dec(&text).ok_or("oracle")?, "binary differs");
    ensure!(d.code() == "1AAG", "code {}", d.code());
    Ok(())
}

pub fn c12(ctx: &mut Ctx) {
    ctx.group("timestamps");
    let mut all = vec![];
    for h in 0..24 {
        for m in 0..60 {
            all.push(format!("2020-08-22T{h:02}:{m:02}:{:02}.{:06}{}{h:02}:{m:02}", m, h * 41666 + m, if m % 2 == 0 { '+' } else { '-' }));
        }
    }
    for x in ["0000-01-01T00:00:00.000000+00:00", "9999-12-31T23:59:59.999999-23:59", "2016-12-31T23:59:60.000000+00:00"] {
        all.push(x.to_string())
    }
    for _ in 0..ctx.n(40000) {
        all.push(stamp(ctx))
    }
    for t in &all {
        ctx.case(t.clone(), || {
            let d = es(Dater::new_with_dts(t, None))?;
            dater_ok(&d, t)?;
            let (q, b) = (es(d.qb64())?, es(d.qb2())?);
            dater_ok(&es(Dater::new_with_qb64(&q))?, t).map_err(|e| format!("after text: {e}"))?;
            dater_ok(&es(Dater::new_with_qb64b(q.as_bytes()))?, t).map_err(|e| format!("after text: {e}"))?;
            dater_ok(&es(Dater::new_with_qb2(&b))?, t).map_err(|e| format!("after binary: {e}"))?;
            dater_ok(&es(Dater::new_with_raw(&d.raw(), None))?, t).map_err(|e| format!("after raw: {e}"))?;
            dater_ok(&es(Dater::new(Some(t), Some("1AAG"), None, None, None, None))?, t)?;
            Ok(())
        });
    }
    ctx.group("unrepresentable strings");
    let mut bad: Vec<String> = ctx.strs.clone();
    bad.push(String::new());
    for t in all.iter().take(400) {
        let mut c: Vec<char> = t.chars().collect();
        let i = ctx.rng.below(c.len());
        match ctx.rng.below(6) {
            0 => c[i] = *ctx.rng.pick(&['c', 'd', 'p', 'Z', '/', ' ', '=', '\n', 'é', ',', '\u{1F600}', '\0', '_', 'A', '-']),
            1 => {
                c.remove(i);
            }
            2 => c.insert(i, '0'),
            3 => c.truncate(i),
            4 => c.extend("00".chars()),
            _ => {
                c[i] = *ctx.rng.pick(&['c', 'd', 'p']);
                let j = ctx.rng.below(c.len());
                c[j] = 'é';
            }
        }
        bad.push(c.into_iter().collect())
    }
    for pos in 0..32 {
        for ch in (0..=127u8).map(|c| c as char).chain(['é', '日', '\u{1F600}']) {
            let mut c: Vec<char> = "2020-08-22T17:50:09.988921+00:00".chars().collect();
            c[pos] = ch;
            bad.push(c.into_iter().collect())
        }
    }
    for t in &bad {
        ctx.case(format!("{t:?}"), || {
            let rep = t.chars().count() == 32 && t.chars().all(|c| c == ':' || c == '.' || c == '+'
                || (sx_c(c) && c != 'c' && c != 'd' && c != 'p'));
            match Dater::new_with_dts(t, None) {
                Ok(d) => dater_ok(&d, t).map_err(|e| format!("accepted, but {e}")),
                Err(e) => {
                    ensure!(!rep, "refused: {e}");
                    Ok(())
                }
            }
        });
    }
}
fn sx_c(c: char) -> bool {
    c.is_ascii_alphanumeric() || c == '-' || c == '_'
}

const ALPHA: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
fn text(ctx: &mut Ctx, n: usize) -> String {
    (0..n).map(|_| ALPHA[ctx.rng.below(64)] as char).collect()
}
fn bext_ok(b: R<(String, String, Vec<u8>, String)>, t: &str) -> R<()> {
    let (x, q, bin, code) = b?;
    ensure!(x == t, "reported as {}", short(&x));
    ensure!(q.ends_with(t), "text is {}", short(&q));
    ensure!(q.len() % 4 == 0 && Some(bin) == b64dec(&q), "binary differs");
    let quads = (t.len() + 3) / 4;
    let lead = ["4A", "5A", "6A"][(3 - t.len() % 4) % 3];
    let want = if quads < 4096 {
        (lead.to_string(), format!("{lead}{}", digits(quads as u64, 2)))
    } else {
        let c = lead.replace('4', "7").replace('5', "8").replace('6', "9").replace('A', "AAA");
        (c.clone(), format!("{c}{}", digits(quads as u64, 4)))
    };
    ensure!(code == want.0, "code is {code} instead of {}", want.0);
    let pad = "A".repeat((4 - t.len() % 4) % 4);
    ensure!(q == format!("{}{pad}{t}", want.1), "text is {}", short(&q));
    Ok(())
}
fn see_b(b: cesride::Result<Bexter>) -> R<(String, String, Vec<u8>, String)> {
    let b = es(b)?;
    Ok((es(b.bext())?, es(b.qb64())?, es(b.qb2())?, b.code()))
}
fn see_p(b: cesride::Result<Pather>) -> R<(String, String, Vec<u8>, String)> {
    let b = es(b)?;
    Ok((es(b.bext())?, es(b.qb64())?, es(b.qb2())?, b.code()))
}

pub fn c13(ctx: &mut Ctx) {
    ctx.group("base64 text");
    let mut all: Vec<String> = vec![String::new()];
    for a in ALPHA {
        all.push((*a as char).to_string());
        for b in ALPHA {
            all.push(format!("{}{}", *a as char, *b as char));
            if ctx.thorough {
                for c in ALPHA {
                    all.push(format!("{}{}{}", *a as char, *b as char, *c as char))
                }
            }
        }
    }
    for n in 0..=300 {
        for _ in 0..3 {
            all.push(text(ctx, n))
        }
        all.push("-".repeat(n));
        all.push("_".repeat(n));
        all.push(format!("B{}", "A".repeat(n)));
        all.push(format!("{}a", "9".repeat(n)));
    }
    for q in [1023usize, 1024, 4094, 4095, 4096, 4097, 5000] {
        for d in 0..4 {
            all.push(text(ctx, q * 4 - d))
        }
    }
    let ints = ctx.ints.clone();
    for x in ints {
        if x < 30000 {
            for d in 0..3u64 {
                let k = (x + d).saturating_sub(1) as usize;
                all.push(text(ctx, k))
            }
        }
    }
    for _ in 0..ctx.n(6000) {
        let n = ctx.rng.below(140);
        all.push(text(ctx, n))
    }
    for s in ctx.strs.clone() {
        if s.chars().all(sx_c) {
            all.push(s)
        }
    }
    for t in &all {
        let a = t.starts_with('A');
        ctx.case(format!("bext {}", short(t)), || {
            if a {
                // documented ambiguity: only safety
                let _ = see_b(Bexter::new_with_bext(t));
                if t.len() % 4 == 1 || t.len() % 4 == 2 {
                    bext_ok(see_b(Bexter::new_with_bext(t)), t)?;
                }
                return Ok(());
            }
            let b = es(Bexter::new_with_bext(t))?;
            bext_ok(see_b(Ok(b.clone())), t)?;
            let (q, bin) = (es(b.qb64())?, es(b.qb2())?);
            let tail = format!("{q}-AAB");
            bext_ok(see_b(Bexter::new_with_qb64(&q)), t).map_err(|e| format!("after text: {e}"))?;
            bext_ok(see_b(Bexter::new_with_qb64(&tail)), t).map_err(|e| format!("after text in a stream: {e}"))?;
            bext_ok(see_b(Bexter::new_with_qb64b(q.as_bytes())), t).map_err(|e| format!("after text bytes: {e}"))?;
            bext_ok(see_b(Bexter::new_with_qb2(&bin)), t).map_err(|e| format!("after binary: {e}"))?;
            bext_ok(see_b(Bexter::new_with_raw(&b.raw(), Some(&b.code()))), t).map_err(|e| format!("after raw: {e}"))?;
            bext_ok(see_p(Pather::new_with_bext(t)), t).map_err(|e| format!("Pather: {e}"))?;
            bext_ok(see_p(Pather::new_with_qb64(&q)), t).map_err(|e| format!("Pather after text: {e}"))?;
            bext_ok(see_p(Pather::new_with_qb2(&bin)), t).map_err(|e| format!("Pather after binary: {e}"))?;
            Ok(())
        });
    }
    ctx.group("foreign characters");
    let mut bad = vec!["\n".to_string(), "abc\n".into(), "\nabc".into(), "a b".into(), "=".into(), "ab==".into(), "abc=".into(), "é".into(), "+/+/".into(), "日本".into(), "\u{212A}".into(), "ſ".into()];
    for n in 1..20 {
        for c in (0..128u8).map(|c| c as char).chain(['é', 'Ａ', '\u{1F600}', '\u{80}', 'ª', '２']) {
            if sx_c(c) {
                continue;
            }
            let mut t: Vec<char> = text(ctx, n).chars().collect();
            let i = ctx.rng.below(n);
            t[i] = c;
            bad.push(t.into_iter().collect());
        }
    }
    for t in &bad {
        ctx.case(format!("bext {t:?}"), || {
            ensure!(Bexter::new_with_bext(t).is_err(), "Bexter accepts it");
            ensure!(Pather::new_with_bext(t).is_err(), "Pather accepts it");
            Ok(())
        });
    }
}

fn comp(ctx: &mut Ctx) -> String {
    const A: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_";
    match ctx.rng.below(4) {
        0 => format!("{}", ctx.rng.below(5)),
        1 => ctx.rng.pick(&["a", "b", "d", "i", "A", "AA", "0", "00", "01", "a0", "x_y", "99999999999999999999999"]).to_string(),
        _ => {
            let n = 1 + ctx.rng.below(7);
            (0..n).map(|_| A[ctx.rng.below(63)] as char).collect()
        }
    }
}
fn strs(v: &[String]) -> Value {
    let v: Vec<Value> = v.iter().map(|s| Value::from(s)).collect();
    Value::from(v.as_slice())
}
fn shown(p: &Pather) -> R<Vec<String>> {
    es(es(p.path())?.to_vec())?.iter().map(|x| es(x.to_string())).collect()
}
fn mk(v: &[String]) -> R<Pather> {
    es(Pather::new_with_path(&strs(v)))
}

/// a document whose containers have keys and sizes that paths reach
fn sad(ctx: &mut Ctx, depth: usize) -> serde_json::Value {
    use serde_json::{json, Value as J};
    match if depth == 0 { 5 } else { ctx.rng.below(6) } {
        0 | 1 | 2 => {
            let mut m = serde_json::Map::new();
            for _ in 0..ctx.rng.below(5) {
                let k = comp(ctx);
                m.insert(k, sad(ctx, depth - 1));
            }
            J::Object(m)
        }
        3 | 4 => {
            let n = ctx.rng.below(5);
            J::Array((0..n).map(|_| sad(ctx, depth - 1)).collect())
        }
        _ => ctx.rng.pick(&[json!(null), json!(true), json!("x"), json!(5), json!(1.5), json!([]), json!({}), json!("")]).clone(),
    }
}
/// None: not specified
fn follow(v: &serde_json::Value, p: &[String]) -> Option<Result<serde_json::Value, ()>> {
    if p.is_empty() {
        return Some(Ok(v.clone()));
    }
    let c = &p[0];
    let num = c.chars().all(|c| c.is_ascii_digit());
    let i = c.parse::<usize>().ok();
    let next = match v {
        serde_json::Value::Object(m) => {
            if num {
                match i {
                    // an integer no map has that many entries for
                    None => return if m.contains_key(c) { None } else { Some(Err(())) },
                    Some(i) => m.iter().nth(i).map(|x| x.1),
                }
            } else {
                m.get(c)
            }
        }
        serde_json::Value::Array(a) => {
            if num {
                i.and_then(|i| a.get(i))
            } else {
                None
            }
        }
        _ => None,
    };
    match next {
        Some(x) => follow(x, &p[1..]),
        None => Some(Err(())),
    }
}

pub fn c14(ctx: &mut Ctx) {
    ctx.group("components");
    let mut lists: Vec<Vec<String>> = vec![];
    for n in 0..8 {
        for _ in 0..ctx.n(700) {
            lists.push((0..n).map(|_| comp(ctx)).collect())
        }
    }
    lists.push(vec!["a".repeat(5000), "b".repeat(12000)]);
    for l in &lists {
        ctx.case(format!("path {l:?}"), || {
            let p = mk(l)?;
            ensure!(&shown(&p)? == l, "reported as {:?}", shown(&p)?);
            let b: String = l.join("-");
            ensure!(es(p.bext())? == format!("-{b}"), "text is {}", es(p.bext())?);
            let p2 = es(Pather::new_with_qb64(&es(p.qb64())?))?;
            ensure!(&shown(&p2)? == l, "after text: {:?}", shown(&p2)?);
            let p3 = es(Pather::new_with_qb2(&es(p.qb2())?))?;
            ensure!(&shown(&p3)? == l, "after binary: {:?}", shown(&p3)?);
            // integers given as integers
            let ints: Vec<Value> = l.iter().map(|s| match s.parse::<i64>() {
                Ok(i) if i.to_string() == *s => Value::from(i),
                _ => Value::from(s),
            }).collect();
            let p4 = es(Pather::new_with_path(&Value::from(ints.as_slice())))?;
            ensure!(&shown(&p4)? == l, "integers: {:?}", shown(&p4)?);
            Ok(())
        });
    }
    ctx.group("components that cannot be represented");
    for bad in ["a-b", "-", "-a", "a-", "a b", "a=", "é", "a\n", "\n", "a/b", "[", "日"] {
        for (pre, post) in [(0, 0), (1, 0), (0, 1), (2, 2)] {
            let mut l: Vec<String> = (0..pre).map(|_| comp(ctx)).collect();
            l.push(bad.to_string());
            l.extend((0..post).map(|_| comp(ctx)));
            ctx.case(format!("path {l:?}"), || {
                ensure!(mk(&l).is_err(), "accepted");
                Ok(())
            });
        }
    }
    for v in [serde_json::json!([true]), serde_json::json!([null]), serde_json::json!(["a", []]), serde_json::json!("a"), serde_json::json!(5),
        serde_json::json!({"a": 1}), serde_json::json!([-5]), serde_json::json!([1.5]), serde_json::json!([18446744073709551615u64])] {
        ctx.case(format!("path {v}"), || {
            ensure!(Pather::new_with_path(&Value::from(&v)).is_err(), "accepted");
            Ok(())
        });
    }
    ctx.group("root and strip");
    for _ in 0..ctx.n(6000) {
        let (n, m) = (ctx.rng.below(5), ctx.rng.below(5));
        let a: Vec<String> = (0..n).map(|_| comp(ctx)).collect();
        let mut b: Vec<String> = (0..m).map(|_| comp(ctx)).collect();
        // roots related to the path
        match ctx.rng.below(5) {
            0 => b = a[..ctx.rng.below(n + 1)].to_vec(),
            1 if n > 0 => {
                b = a[..1 + ctx.rng.below(n)].to_vec();
                let last = b.len() - 1;
                let keep = ctx.rng.below(b[last].len() + 1).max(1);
                b[last].truncate(keep);
            }
            2 if n > 0 => {
                b = a[..1 + ctx.rng.below(n)].to_vec();
                let last = b.len() - 1;
                b[last].push('x')
            }
            3 => {
                b = a.clone();
                b.push(comp(ctx))
            }
            _ => (),
        }
        ctx.case(format!("path {a:?} root {b:?}"), || {
            let (p, r) = (mk(&a)?, mk(&b)?);
            let mut want = b.clone();
            want.extend(a.iter().cloned());
            ensure!(shown(&es(p.root(&r))?)? == want, "rooted gives {:?}", shown(&es(p.root(&r))?)?);
            let want = if a.starts_with(&b) { a[b.len()..].to_vec() } else { a.clone() };
            let s = es(p.strip(&r))?;
            ensure!(shown(&s)? == want, "stripped gives {:?} instead of {want:?}", shown(&s)?);
            ensure!(es(p.starts_with(&r))? == es(p.bext())?.starts_with(&es(r.bext())?), "starts_with is wrong");
            let again = es(es(p.root(&r))?.strip(&r))?;
            ensure!(shown(&again)? == a, "rooting and stripping gives {:?}", shown(&again)?);
            Ok(())
        });
    }
    ctx.group("resolve");
    for _ in 0..ctx.n(12000) {
        let d = sad(ctx, 4);
        let mut p: Vec<String> = vec![];
        {
            // walk into the document, mostly
            let mut cur = &d;
            for _ in 0..ctx.rng.below(6) {
                let next = match cur {
                    serde_json::Value::Object(m) if !m.is_empty() => {
                        let i = ctx.rng.below(m.len());
                        let (k, v) = m.iter().nth(i).unwrap();
                        if ctx.rng.chance(1, 3) { (i.to_string(), v) } else { (k.clone(), v) }
                    }
                    serde_json::Value::Array(a) if !a.is_empty() => {
                        let i = ctx.rng.below(a.len());
                        (i.to_string(), &a[i])
                    }
                    _ => break,
                };
                p.push(next.0);
                cur = next.1;
            }
        }
        match ctx.rng.below(4) {
            0 => p.push(comp(ctx)),
            1 if !p.is_empty() => {
                let i = ctx.rng.below(p.len());
                p[i] = comp(ctx)
            }
            _ => (),
        }
        ctx.case(format!("path {p:?} in {d}"), || {
            let q = mk(&p)?;
            let got = es(q.resolve(&Value::from(&d)));
            match follow(&d, &p) {
                None => (),
                Some(Err(())) => ensure!(got.is_err(), "gives {}", got.unwrap()),
                Some(Ok(w)) => {
                    let g = got.map_err(|e| format!("error {e} instead of {w}"))?;
                    ensure!(g == Value::from(&w), "gives {g} instead of {w}");
                }
            }
            Ok(())
        });
    }
    ctx.group("tail");
    let said = |d: &serde_json::Value, c: &str| -> R<String> { es(es(cesride::Saider::new(Some(&Value::from(d)), Some("d"), None, None, Some(c), None, None, None, None))?.qb64()) };
    for i in 0..ctx.n(1500) {
        let inner = sad(ctx, 3);
        let code = *ctx.rng.pick(&["E", "F", "G", "H", "I", "0D", "0E", "0F", "0G"]);
        let x = said(&serde_json::json!({"d": "", "n": i, "x": inner}), code).unwrap();
        let mut cut = x.clone();
        cut.pop();
        let strs = [x.clone(), format!("{x}{x}"), format!("{x}AAAA"), cut, String::new(), "abc".into(), format!("B{}", &"A".repeat(43)), format!("D{}", &"A".repeat(43)), "1AAA".into()];
        let v = serde_json::json!({"v": "KERI10JSON000000_", "d": "", "t": "icp", "x": x, "s": strs, "o": inner, "n": i, "b": i % 2 == 0, "z": null, "l": [inner, [], {}], "f": 1.5});
        let ev = es(cesride::Saider::saidify(&Value::from(&v), None, None, None, None)).and_then(|r| es(cesride::Serder::new_with_ked(&r.1, None, None)));
        let paths: Vec<Vec<String>> = ["d", "x", "o", "n", "b", "z", "l", "f", "q", "v", "t", "l 0", "l 1", "l 2", "l 3", "s", "s 0", "s 1", "s 2", "s 3", "s 4", "s 5", "s 6", "s 7", "s 8", "1", "3", "", "x y"].iter()
            .map(|p| p.split(' ').filter(|c| !c.is_empty()).map(|c| c.to_string()).collect()).collect();
        for p in paths {
            ctx.case(format!("tail {p:?} of {v}"), || {
                use cesride::Sadder;
                let ev = ev.as_ref().map_err(|e| e.clone())?;
                let k: serde_json::Value = serde_json::from_str(&es(ev.ked().to_json())?).map_err(|e| e.to_string())?;
                let got = es(mk(&p)?.tail(ev));
                let want = match follow(&k, &p) {
                    None => return Ok(()),
                    Some(Err(())) => None,
                    Some(Ok(serde_json::Value::String(s))) => match mparse(s.as_bytes()) {
                        Some(m) if ["E", "F", "G", "H", "I", "0D", "0E", "0F", "0G"].contains(&m.code.as_str()) => Some(s),
                        _ => None,
                    },
                    Some(Ok(w @ (serde_json::Value::Array(_) | serde_json::Value::Object(_)))) => Some(w.to_string()),
                    _ => None,
                };
                ensure!(got.clone().ok() == want, "gives {got:?} instead of {want:?}");
                Ok(())
            });
        }
    }
    ctx.group("paths of any base64 text");
    for _ in 0..ctx.n(4000) {
        let n = ctx.rng.below(12);
        let t: String = (0..n).map(|_| *ctx.rng.pick(&['-', '-', 'a', 'A', '0', '1', '_', 'b'])).collect();
        let t2: String = (0..ctx.rng.below(8)).map(|_| *ctx.rng.pick(&['-', '-', 'a', 'A', '0', '1', '_', 'b'])).collect();
        let d = sad(ctx, 3);
        ctx.case(format!("bext {t:?} {t2:?} in {d}"), || {
            if let (Ok(p), Ok(r)) = (Pather::new_with_bext(&t), Pather::new_with_bext(&t2)) {
                let _ = p.path();
                let _ = p.root(&r);
                let _ = p.strip(&r);
                let _ = p.starts_with(&r);
                let _ = p.resolve(&Value::from(&d));
            }
            Ok(())
        });
    }
    let _ = In::Text("");
}
