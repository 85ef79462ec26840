//! C18, C19: signing thresholds.
use crate::cesr::*;
use crate::ctx::*;
use crate::p_prim::ensure;
use crate::types::{es, R};
use cesride::{data::Value, Bext, Matter, Number, Tholder};
use num_rational::BigRational;
use serde_json::{json, Value as J};

type Q = BigRational;
fn q(n: i64, d: i64) -> Q {
    Q::new(n.into(), d.into())
}

#[derive(Debug, Clone, PartialEq)]
pub enum T {
    Num(u64),
    W(Vec<Vec<(i64, i64)>>),
}
#[derive(Debug, Clone, PartialEq)]
pub enum Want {
    Is(T),
    Refuse,
    /// the property does not say
    Any,
}
fn weight(s: &str) -> Result<(i64, i64), bool> {
    // Err(true): certainly malformed
    let digits = |t: &str| !t.is_empty() && t.bytes().all(|c| c.is_ascii_digit());
    match s.split_once('/') {
        None => match s {
            "0" => Ok((0, 1)),
            "1" => Ok((1, 1)),
            _ => Err(!(digits(s.trim_start_matches('+')) && s.trim_start_matches(['+', '0']).len() < 2)),
        },
        Some((a, b)) => {
            let (pa, pb) = (a.strip_prefix('+').unwrap_or(a), b.strip_prefix('+').unwrap_or(b));
            if !digits(pa) || !digits(pb) {
                // "-0" is a zero
                return Err(!(a.trim_start_matches(['-', '0']).is_empty() || b.trim_start_matches(['-', '0']).is_empty()));
            }
            match (pa.parse::<i64>(), pb.parse::<i64>()) {
                (Ok(n), Ok(d)) => {
                    if d == 0 || n > d {
                        Err(true)
                    } else if n > i32::MAX as i64 || d > i32::MAX as i64 || pa.len() < a.len() || pb.len() < b.len() {
                        Err(false)
                    } else {
                        Ok((n, d))
                    }
                }
                _ => Err(false),
            }
        }
    }
}
fn clauses(v: &[Vec<String>]) -> Want {
    if v.is_empty() {
        return Want::Refuse;
    }
    let mut out = vec![];
    let mut unsure = false;
    for c in v {
        let mut sum = q(0, 1);
        let mut o = vec![];
        let mut odd = false;
        for w in c {
            match weight(w) {
                Ok((n, d)) => {
                    sum += q(n, d);
                    o.push((n, d))
                }
                Err(true) => return Want::Refuse,
                Err(false) => odd = true,
            }
        }
        if odd {
            unsure = true
        } else if sum < q(1, 1) {
            return Want::Refuse;
        }
        out.push(o)
    }
    if unsure { Want::Any } else { Want::Is(T::W(out)) }
}
fn num(n: i128) -> Want {
    if n < 0 {
        Want::Refuse
    } else if n <= u32::MAX as i128 {
        Want::Is(T::Num(n as u64))
    } else {
        Want::Any
    }
}
/// expression given as a value
fn sith(v: &J) -> Want {
    match v {
        J::Number(n) => match (n.as_i64(), n.as_u64()) {
            (Some(i), _) => num(i as i128),
            (_, Some(_)) => Want::Any,
            _ => Want::Refuse,
        },
        J::String(s) => {
            if s.starts_with('[') {
                match serde_json::from_str::<J>(s) {
                    Ok(v @ J::Array(_)) => sith(&v),
                    _ => Want::Refuse,
                }
            } else if s.starts_with('+') {
                Want::Any
            } else {
                match i128::from_str_radix(s, 16) {
                    Ok(n) => num(n),
                    Err(_) => if !s.is_empty() && s.bytes().all(|c| c.is_ascii_hexdigit()) { Want::Any } else { Want::Refuse },
                }
            }
        }
        J::Array(a) => {
            if a.is_empty() {
                return Want::Refuse;
            }
            let list = |a: &[J]| -> Option<Vec<String>> { a.iter().map(|x| x.as_str().map(|s| s.to_string())).collect() };
            if a.iter().all(|c| c.is_array()) {
                match a.iter().map(|c| list(c.as_array().unwrap())).collect::<Option<Vec<_>>>() {
                    Some(v) => clauses(&v),
                    None => Want::Refuse,
                }
            } else {
                match list(a) {
                    Some(v) => clauses(&[v]),
                    None => Want::Refuse,
                }
            }
        }
        _ => Want::Refuse,
    }
}
/// the same expression as a threshold value: numbers, and lists of lists
fn thold(v: &J) -> Want {
    match v {
        J::Number(_) => sith(v),
        J::Array(a) if a.iter().all(|c| c.is_array()) => sith(v),
        J::Array(_) => Want::Refuse,
        _ => Want::Refuse,
    }
}
fn size(t: &T) -> u64 {
    match t {
        T::Num(n) => *n,
        T::W(c) => c.iter().map(|c| c.len() as u64).sum(),
    }
}
fn satisfied(t: &T, ix: &[u32]) -> bool {
    let mut s: Vec<u32> = ix.to_vec();
    s.sort();
    s.dedup();
    match t {
        T::Num(n) => *n > 0 && s.len() as u64 >= *n,
        T::W(c) => {
            let mut k = 0u32;
            for c in c {
                let mut sum = q(0, 1);
                for (n, d) in c {
                    if s.binary_search(&k).is_ok() {
                        sum += q(*n, *d)
                    }
                    k += 1
                }
                if sum < q(1, 1) {
                    return false;
                }
            }
            true
        }
    }
}
fn simple(n: i64, d: i64) -> String {
    let r = q(n, d);
    if *r.denom() == 1.into() { format!("{}", r.numer()) } else { format!("{}/{}", r.numer(), r.denom()) }
}
fn same(h: &Tholder, t: &T) -> R<()> {
    ensure!(h.size() as u64 == size(t), "size is {}", h.size());
    match t {
        T::Num(n) => {
            ensure!(!h.weighted(), "weighted");
            ensure!(h.thold() == Value::from(&json!(n)), "threshold is {}", h.thold());
            ensure!(es(h.num())? == Some(*n as u32), "num is {:?}", es(h.num())?);
            ensure!(h.bexter().is_none(), "has weights");
            let m = h.number().ok_or("no number")?;
            ensure!(es(m.num())? == *n as u128, "number is {}", es(m.num())?);
            let want = es(es(Number::new_with_num(*n as u128))?.qb64b())?;
            ensure!(es(h.limen())? == want, "limen");
            ensure!(es(h.sith())? == Value::from(&json!(format!("{n:x}"))), "sith is {}", es(h.sith())?);
        }
        T::W(c) => {
            ensure!(h.weighted(), "not weighted");
            let w: Vec<Vec<String>> = c.iter().map(|c| c.iter().map(|x| simple(x.0, x.1)).collect()).collect();
            ensure!(h.thold() == Value::from(&json!(w)), "threshold is {} instead of {}", h.thold(), json!(w));
            ensure!(es(h.num())?.is_none() && h.number().is_none(), "has a number");
            let b = h.bexter().ok_or("no text")?;
            let text: Vec<String> = w.iter().map(|c| c.join("c").replace('/', "s")).collect();
            ensure!(es(b.bext())? == text.join("a"), "text is {}", es(b.bext())?);
            ensure!(es(h.limen())? == es(b.qb64b())?, "limen");
            let s = if w.len() == 1 { json!(w[0]) } else { json!(w) };
            ensure!(es(h.sith())? == Value::from(&s), "sith is {}", es(h.sith())?);
        }
    }
    ensure!(es(h.to_json())? == es(es(h.sith())?.to_json())?, "json");
    Ok(())
}
fn indices(ctx: &mut Ctx, n: u64) -> Vec<u32> {
    let mut v = vec![];
    let k = match ctx.rng.below(4) {
        0 => ctx.rng.below(4),
        1 => n.min(20) as usize,
        _ => ctx.rng.below(2 * n.min(12) as usize + 2),
    };
    for _ in 0..k {
        v.push(match ctx.rng.below(9) {
            0 => n as u32,
            1 => *ctx.rng.pick(&[u32::MAX, u32::MAX - 1, 1 << 31, 64, 1000]),
            2 if !v.is_empty() => v[ctx.rng.below(v.len())],
            _ => ctx.rng.below(n.min(16) as usize + 1) as u32,
        })
    }
    if ctx.rng.chance(1, 4) {
        v = (0..n.min(30) as u32).collect();
        if !v.is_empty() && ctx.rng.chance(1, 2) {
            let k = ctx.rng.below(v.len());
            v.remove(k);
        }
    }
    v
}
fn sat(h: &Tholder, t: &T, ix: &[u32]) -> R<()> {
    let got = es(h.satisfy(ix))?;
    ensure!(got == satisfied(t, ix), "indices {ix:?} give {got}");
    Ok(())
}

/// weights whose sum is near one
fn clause(ctx: &mut Ctx) -> Vec<(i64, i64)> {
    let r = &mut ctx.rng;
    match r.below(6) {
        0 => {
            let d = *r.pick(&[2i64, 3, 5, 7, 10, 64, 100, 997, 65537, 2147483647]);
            let k = (d as usize).min(6 + r.below(4));
            let mut v: Vec<(i64, i64)> = (0..k - 1).map(|_| (1, d)).collect();
            v.push((d - (k as i64 - 1), d));
            v
        }
        1 => vec![(1, 2), (1, 3), (1, 6)],
        2 => {
            // huge denominators: sums that need exact arithmetic
            let ds = [2147483647i64, 2147483629, 2147483587, 2147483579, 2147483563, 2147483549];
            let n = 2 + r.below(5);
            let mut v: Vec<(i64, i64)> = (0..n).map(|i| (1 + r.below(ds[i] as usize) as i64, ds[i])).collect();
            v.push((1, 1));
            v
        }
        3 => (0..1 + r.below(5)).map(|_| *r.pick(&[(1, 1), (0, 1), (1, 2), (2, 4), (0, 7)])).collect(),
        4 => {
            let d = 2 + r.below(30) as i64;
            (0..2 + r.below(8)).map(|_| (r.below(d as usize + 1) as i64, d)).collect()
        }
        _ => (0..2 + r.below(6))
            .map(|_| {
                let d = 1 + r.below(12) as i64;
                (r.below(d as usize + 1) as i64, d)
            })
            .collect(),
    }
}
fn texts(c: &[Vec<(i64, i64)>], raw: bool) -> Vec<Vec<String>> {
    c.iter().map(|c| c.iter().map(|(n, d)| {
        if *d == 1 && !raw { format!("{n}") } else { format!("{n}/{d}") }
    }).collect()).collect()
}

pub fn c18(ctx: &mut Ctx) {
    ctx.group("numeric");
    let mut ns: Vec<u64> = (0..40).collect();
    ns.extend([64, 100, 255, 256, 65535, 65536, 1 << 31, u32::MAX as u64 - 1, u32::MAX as u64]);
    for x in ctx.ints.clone() {
        if x < 3000 {
            ns.push(x)
        }
    }
    for n in ns {
        let mut sets: Vec<Vec<u32>> = vec![vec![], (0..n.min(4000) as u32).collect(), (0..n.min(4000) as u32 + 1).rev().collect(), vec![3; n.min(4000) as usize]];
        if n > 0 && n < 4000 {
            sets.push((0..n as u32 - 1).collect());
            let mut v: Vec<u32> = (0..n as u32 - 1).collect();
            v.extend(v.clone());
            sets.push(v);
            sets.push((0..n as u32).map(|i| u32::MAX - i).collect());
            sets.push((0..n as u32).map(|i| i.wrapping_mul(64)).collect());
            sets.push((0..n as u32).map(|i| i.wrapping_mul(256)).collect());
        }
        for _ in 0..ctx.n(15) {
            sets.push(indices(ctx, n))
        }
        for ix in sets {
            ctx.case(format!("threshold {n} indices {}", short(&format!("{ix:?}"))), || {
                let t = T::Num(n);
                sat(&es(Tholder::new_with_sith(&Value::from(&json!(n))))?, &t, &ix)?;
                sat(&es(Tholder::new_with_sith(&Value::from(&json!(format!("{n:x}")))))?, &t, &ix)?;
                sat(&es(Tholder::new_with_thold(&Value::from(&json!(n))))?, &t, &ix)
            });
        }
    }
    ctx.group("weighted");
    for i in 0..ctx.n(6000) {
        let k = if i % 3 == 0 { 1 } else { 1 + ctx.rng.below(4) };
        let mut c: Vec<Vec<(i64, i64)>> = (0..k).map(|_| clause(ctx)).collect();
        for c in c.iter_mut() {
            let s: Q = c.iter().fold(q(0, 1), |a, x| a + q(x.0, x.1));
            if s < q(1, 1) {
                let at = ctx.rng.below(c.len() + 1);
                c.insert(at, (1, 1))
            }
        }
        let t = T::W(c.clone());
        let v = json!(texts(&c, false));
        let sets: Vec<Vec<u32>> = (0..6).map(|_| indices(ctx, size(&t))).collect();
        let extra = ctx.rng.below(size(&t) as usize + 3) as u32;
        let shuffled: Vec<Vec<u32>> = sets.iter().map(|s| {
            let mut s = s.clone();
            for i in (1..s.len()).rev() {
                s.swap(i, ctx.rng.below(i + 1))
            }
            s
        }).collect();
        for (ix, sh) in sets.iter().zip(&shuffled) {
            ctx.case(format!("threshold {v} indices {ix:?} extra {extra}"), || {
                let h = es(Tholder::new_with_sith(&Value::from(&v)))?;
                sat(&h, &t, ix)?;
                sat(&h, &t, sh)?;
                let mut more = ix.clone();
                more.insert(0, extra);
                sat(&h, &t, &more)?;
                more.extend(ix.iter());
                sat(&h, &t, &more)?;
                let h = es(Tholder::new_with_thold(&Value::from(&v)))?;
                sat(&h, &t, ix)?;
                let h = es(Tholder::new_with_limen(&es(h.limen())?))?;
                sat(&h, &t, sh)
            });
        }
    }
    ctx.group("exhaustive index sets");
    for e in [json!(["1/2", "1/2", "1/2"]), json!([["1/2", "1/2"], ["1", "1"]]), json!(["1/3", "1/3", "1/3", "0"]), json!([["1/2", "1/4", "1/4"], ["1/3", "2/3", "1/3"]]),
        json!(["1/2", "1/3", "1/6", "1/7", "41/42"]), json!([["1"], ["1"], ["1/2", "1/2"], ["0", "1"]]), json!(["0/1", "1/1", "2/2"])] {
        let Want::Is(t) = sith(&e) else { continue };
        let n = size(&t) as usize;
        for m in 0..1u32 << (n + 1) {
            let ix: Vec<u32> = (0..=n as u32).filter(|i| m >> i & 1 == 1).collect();
            ctx.case(format!("threshold {e} indices {ix:?}"), || sat(&es(Tholder::new_with_sith(&Value::from(&e)))?, &t, &ix));
        }
    }
}

fn judge(r: R<Tholder>, w: &Want, sets: &[Vec<u32>]) -> R<()> {
    match (r, w) {
        (Err(e), Want::Is(_)) => Err(format!("refused: {e}")),
        (Ok(h), Want::Refuse) => Err(format!("accepted as {}", h.thold())),
        (Ok(h), Want::Is(t)) => {
            same(&h, t)?;
            for ix in sets {
                sat(&h, t, ix)?
            }
            for (how, g) in [("limen", Tholder::new_with_limen(&es(h.limen())?)), ("sith", Tholder::new_with_sith(&es(h.sith())?)), ("thold", Tholder::new_with_thold(&h.thold()))] {
                let g = es(g).map_err(|e| format!("re-created from {how}: {e}"))?;
                same(&g, t).map_err(|e| format!("re-created from {how}: {e}"))?;
                for ix in sets {
                    sat(&g, t, ix).map_err(|e| format!("re-created from {how}: {e}"))?
                }
            }
            let s = es(es(h.sith())?.to_json())?;
            if h.weighted() {
                let g = es(Tholder::new_with_sith(&Value::from(s.as_str())))?;
                same(&g, t).map_err(|e| format!("re-created from json: {e}"))?;
            }
            Ok(())
        }
        _ => Ok(()),
    }
}

pub fn c19(ctx: &mut Ctx) {
    ctx.group("expressions");
    let mut all: Vec<J> = vec![];
    for n in [-2i64, -1, 0, 1, 2, 3, 15, 16, 17, 255, 256, 65535, 65536, 4294967294, 4294967295, 4294967296, i64::MAX, i64::MIN] {
        all.push(json!(n));
        all.push(json!(format!("{n:x}")));
        all.push(json!(format!("{n}")));
    }
    for x in ctx.ints.clone() {
        all.push(json!(x));
        all.push(json!(format!("{x:x}")));
    }
    all.extend([json!(u64::MAX), json!(1.5), json!(1.0), json!(null), json!(true), json!({}), json!({"a": 1}), json!(""), json!("[]"), json!("[[]]"), json!("["), json!("[1]"),
        json!("[\"1/2\",\"1/2\"]"), json!("[[\"1/2\",\"1/2\"],[\"1\"]]"), json!("[[\"1/2\",\"1/2\"],\"1\"]"), json!("g"), json!("1g"), json!(" 1"), json!("0x1"), json!("é"),
        json!([]), json!([[]]), json!([[], ["1"]]), json!([["1"], []]), json!([[["1"]]]), json!([1]), json!([[1]]), json!([["1", 1]]), json!([null]), json!([true]), json!([["1"], "1"]), json!(["1", ["1"]]),
        json!([["1"], null]), json!([{}]), json!([1.0]), json!("-1"), json!("+1"), json!("-0")]);
    let odd = ["0", "1", "2", "-1", "", " ", "1/1", "0/1", "0/0", "1/0", "2/1", "1/2", "-1/2", "1/-2", "-1/-2", "1/2/3", "/", "1/", "/2", "a/b", "1 /2", "1/ 2", "0.5", "½", "1/2147483647",
        "2147483647/2147483647", "2147483648/2147483648", "1/2147483648", "2147483648/1", "1/4294967298", "4294967297/4294967298", "99999999999999999999/99999999999999999999", "-2147483648/1", "1/-2147483648",
        "-2147483648/-2147483648", "01/02", "+1/2", "1/+2", "1s2", "1/2c", "3/2", "2/3", "1/3", "3/3", "0/5", "5/0", "é/1", "1e0", "10", "00", "11", "0x1", "-0", "-0/1", "0/-1", "1.0", "1_0/20"];
    for w in odd {
        for v in [json!([w]), json!([[w]]), json!([w, "1"]), json!(["1", w]), json!([["1"], [w, "1"]]), json!([["1", w], ["1"]]), json!([["1"], [w]]), json!([w, w])] {
            all.push(v)
        }
    }
    for s in ctx.strs.clone() {
        all.push(json!(s));
        all.push(json!([s, "1"]));
    }
    for _ in 0..ctx.n(9000) {
        let k = 1 + ctx.rng.below(3);
        let raw = ctx.rng.chance(1, 3);
        let mut t = texts(&(0..k).map(|_| clause(ctx)).collect::<Vec<_>>(), raw);
        if ctx.rng.chance(1, 5) {
            let i = ctx.rng.below(k);
            if !t[i].is_empty() {
                let j = ctx.rng.below(t[i].len());
                t[i][j] = ctx.rng.pick(&odd).to_string()
            }
        }
        if ctx.rng.chance(1, 15) {
            let i = ctx.rng.below(k);
            t[i].truncate(ctx.rng.below(3));
        }
        // many equal weights: sums at the edge
        if ctx.rng.chance(1, 8) {
            let n = 1 + ctx.rng.below(40);
            let d = n + ctx.rng.below(2);
            t.push(vec![format!("1/{d}"); n]);
        }
        let v = if t.len() == 1 && ctx.rng.chance(1, 2) { json!(t[0]) } else { json!(t) };
        all.push(if ctx.rng.chance(1, 6) { json!(v.to_string()) } else { v });
    }
    for v in &all {
        let (ws, wt) = (sith(v), thold(v));
        let n = match &ws { Want::Is(t) => size(t), _ => 1 };
        let sets: Vec<Vec<u32>> = (0..3).map(|_| indices(ctx, n)).collect();
        ctx.case(format!("sith {v}"), || judge(es(Tholder::new_with_sith(&Value::from(v))), &ws, &sets));
        ctx.case(format!("thold {v}"), || judge(es(Tholder::new_with_thold(&Value::from(v))), &wt, &sets));
    }
    ctx.group("qualified thresholds");
    let mut lim: Vec<(Vec<u8>, Want)> = vec![(vec![], Want::Refuse), (vec![0xff, 0xfe], Want::Refuse), (b"4".to_vec(), Want::Refuse), ("é".into(), Want::Refuse), ("4é".into(), Want::Refuse)];
    for n in crate::p_num::u128s(ctx, 300) {
        for (c, k) in [("M", 2), ("0H", 4), ("N", 8), ("0A", 16)] {
            if k == 16 || n < 1 << (8 * k) {
                let t = mtext(c, 0, &n.to_be_bytes()[16 - k..]).unwrap();
                lim.push((t.into_bytes(), if n > i64::MAX as u128 { Want::Any } else { num(n as i128) }));
            }
        }
    }
    for _ in 0..ctx.n(6000) {
        let k = 1 + ctx.rng.below(3);
        let t = texts(&(0..k).map(|_| clause(ctx)).collect::<Vec<_>>(), ctx.rng.chance(1, 3));
        let mut b: String = t.iter().map(|c| c.join("c").replace('/', "s")).collect::<Vec<_>>().join("a");
        if ctx.rng.chance(1, 3) {
            let mut v: Vec<char> = b.chars().collect();
            for _ in 0..1 + ctx.rng.below(2) {
                let i = ctx.rng.below(v.len() + 1);
                match ctx.rng.below(3) {
                    0 if i < v.len() => {
                        v.remove(i);
                    }
                    1 if i < v.len() => v[i] = *ctx.rng.pick(&['a', 'c', 's', '0', '1', '-', '9', 'x']),
                    _ => v.insert(i, *ctx.rng.pick(&['a', 'c', 's', '0', '1', '-', '9', 'x'])),
                }
            }
            b = v.into_iter().collect();
        }
        let c: Vec<Vec<String>> = b.split('a').map(|c| c.split('c').map(|w| w.replace('s', "/")).collect()).collect();
        let w = clauses(&c);
        if b.is_empty() || b.starts_with('A') {
            continue;
        }
        let pad = "A".repeat((4 - b.len() % 4) % 4);
        let lead = ["4A", "5A", "6A"][(3 - b.len() % 4) % 3];
        let quads = (b.len() + 3) / 4;
        let t = format!("{lead}{}{pad}{b}", digits(quads as u64, 2));
        lim.push((t.into_bytes(), w));
    }
    for m in MATTER {
        if !["M", "0H", "N", "0A"].contains(&m.code) && !crate::types::STRS.contains(&m.code) && m.fs != 0 {
            let t = mtext(m.code, 0, &vec![0x11; mraw(m)]).unwrap();
            lim.push((t.into_bytes(), Want::Refuse));
        }
    }
    for (l, w) in &lim {
        let n = match w { Want::Is(t) => size(t), _ => 1 };
        let sets: Vec<Vec<u32>> = (0..2).map(|_| indices(ctx, n)).collect();
        ctx.case(format!("limen {}", short(&String::from_utf8_lossy(l))), || judge(es(Tholder::new_with_limen(l)), w, &sets));
    }
    ctx.group("nothing given");
    ctx.case("no expression".to_string(), || {
        ensure!(Tholder::new(None, None, None).is_err(), "accepted");
        Ok(())
    });
}
