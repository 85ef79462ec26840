//! C01-C05, C07: unindexed primitives; the indexed and counter parts of C03-C05; C08-C10.
use crate::cesr::*;
use crate::ctx::*;
use crate::types::*;

macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}
pub(crate) use ensure;

/// raw sizes to try for variable material
pub fn var_sizes(ctx: &mut Ctx) -> Vec<usize> {
    let mut v: Vec<usize> = (0..40).collect();
    for b in [64usize * 3, 4096 * 3, 255, 256, 1024, 4095, 65536] {
        for d in -4i64..=4 {
            v.push((b as i64 + d) as usize)
        }
    }
    for b in [786432usize] {
        for d in -3i64..=3 {
            v.push((b as i64 + d) as usize)
        }
    }
    let ints = ctx.ints.clone();
    for x in ints {
        if x < 60000 {
            for d in 0..3 {
                v.push((x as usize + d).saturating_sub(1));
                v.push((x as usize * 3 + d).saturating_sub(1));
            }
        }
    }
    for _ in 0..ctx.n(10) {
        v.push(ctx.int(20000) as usize)
    }
    v.sort();
    v.dedup();
    v
}

pub fn contents(ctx: &mut Ctx, n: usize, seed: bool) -> Vec<Vec<u8>> {
    let mut v = vec![];
    if !seed {
        v.push(vec![0u8; n]);
        v.push(vec![0xff; n]);
        let mut a = vec![0u8; n];
        if n > 0 {
            a[n - 1] = 1
        }
        v.push(a);
        let mut a = vec![0u8; n];
        if n > 0 {
            a[0] = 0x80
        }
        v.push(a);
        v.push((0..n).map(|i| (i * 7 + 3) as u8).collect());
        // sextets that spell the special characters
        v.push((0..n).map(|i| [0xfb, 0xef, 0xbe][i % 3]).collect());
        v.push((0..n).map(|i| [0xff, 0xef, 0xbf][i % 3]).collect());
    }
    for _ in 0..3 {
        let mut b = ctx.rng.bytes(n);
        if seed && n > 0 {
            // below every curve order
            b[0] &= 0x7f;
        }
        v.push(b)
    }
    v
}

fn uses_seed(t: &str) -> bool {
    t == "Signer"
}

fn tys() -> Vec<Ty> {
    let mut v = vec![bare()];
    v.extend(types());
    v
}
fn admits(t: &Ty, code: &str) -> bool {
    t.codes.is_empty() || t.codes.contains(&code)
}

pub fn c01(ctx: &mut Ctx) {
    let sizes = var_sizes(ctx);
    for t in tys() {
        ctx.group(t.name);
        for m in MATTER {
            if !admits(&t, m.code) {
                continue;
            }
            let lens = if m.fs != 0 { vec![mraw(m)] } else { sizes.clone() };
            for n in lens {
                let cs = if n > 3000 {
                    if n > 100000 && t.name != "bare" && !ctx.thorough {
                        continue;
                    }
                    vec![ctx.rng.bytes(n)]
                } else {
                    contents(ctx, n, uses_seed(t.name))
                };
                for raw in cs {
                    for general in [false, true] {
                        c01_one(ctx, &t, m.code, &raw, general);
                    }
                }
            }
        }
    }
    ctx.group("two byte material exhaustively");
    let t = bare();
    let step = if ctx.thorough { 1 } else { 13 };
    for x in (0..65536u32).step_by(step) {
        c01_one(ctx, &t, "M", &(x as u16).to_be_bytes(), false);
        c01_one(ctx, &t, "4B", &(x as u16).to_be_bytes(), false);
    }
    ctx.group("largest material");
    for n in [50331645usize, 50331644, 50331646] {
        if n != 50331645 && !ctx.thorough && n != 50331646 {
            continue;
        }
        let raw = vec![0x5a; n];
        let code = "4B";
        ctx.case(format!("bare code={code} raw=[{n} bytes of 5a]"), || {
            let r = (t.mk)(&In::Raw(code, &raw), false);
            match mcode(code, n) {
                None => ensure!(r.is_err(), "material above the limit is accepted"),
                Some((c, s)) => {
                    let p = es(r)?;
                    ensure!(p.code == c && p.size as usize == s && p.raw == raw, "wrong primitive: code={} size={}", p.code, p.size);
                    let q = p.qb64.clone()?;
                    ensure!(q == mtext(&c, s, &raw).unwrap(), "wrong text");
                    ensure!(p.qb2.clone()? == b64dec(&q).unwrap(), "wrong binary");
                    let p2 = es((t.mk)(&In::Text(&q), false))?;
                    ensure!(p2.raw == raw, "text does not parse back");
                }
            }
            Ok(())
        });
    }
    ctx.group("random");
    let vars: Vec<&M> = MATTER.iter().collect();
    for _ in 0..ctx.n(15000) {
        if ctx.over() {
            break;
        }
        let m = vars[ctx.rng.below(vars.len())];
        let n = if m.fs != 0 { mraw(m) } else { ctx.int(600) as usize };
        let raw = ctx.rng.bytes(n);
        let g = ctx.rng.chance(1, 2);
        c01_one(ctx, &t, m.code, &raw, g);
    }
}

fn c01_one(ctx: &mut Ctx, t: &Ty, code: &str, raw: &[u8], general: bool) {
    ctx.case(format!("{} code={code} raw={} general={general}", t.name, hex(raw)), || {
        let (c, s) = mcode(code, raw.len()).ok_or("oracle")?;
        let text = mtext(&c, s, raw).ok_or("oracle")?;
        let bin = b64dec(&text).ok_or("oracle")?;
        for i in [In::Raw(code, raw), In::Text(&text), In::Tbytes(text.as_bytes()), In::Bin(&bin)] {
            let p = es((t.mk)(&i, general)).map_err(|e| format!("refused {}: {e}", i.show()))?;
            ensure!(p.code == c, "code {} instead of {c} from {}", p.code, i.show());
            ensure!(p.raw == raw, "raw {} from {}", hex(&p.raw), i.show());
            ensure!(p.size as usize == s, "size {} instead of {s} from {}", p.size, i.show());
            ensure!(p.qb64.as_ref() == Ok(&text), "text {:?} instead of {text}", p.qb64);
            ensure!(p.qb64b == Ok(text.as_bytes().to_vec()), "text bytes {:?}", p.qb64b);
            ensure!(p.qb2.as_ref() == Ok(&bin), "binary {:?} instead of {}", p.qb2, hex(&bin));
        }
        Ok(())
    });
}

/// valid texts of every matter code
pub fn mtexts(ctx: &mut Ctx) -> Vec<String> {
    let mut v = vec![];
    for m in MATTER {
        let lens: Vec<usize> = if m.fs != 0 {
            vec![mraw(m)]
        } else {
            (0..5).map(|q: usize| q * 3 + 3 - m.ls).chain(if m.ls == 0 { Some(0) } else { None }).collect()
        };
        for n in lens {
            for k in 0..3 {
                let raw = match k {
                    0 => vec![0u8; n],
                    1 => vec![0xff; n],
                    _ => ctx.rng.bytes(n),
                };
                let s = if m.fs != 0 { 0 } else { (n + m.ls) / 3 };
                v.push(mtext(m.code, s, &raw).unwrap());
            }
        }
    }
    v
}
pub fn itexts(ctx: &mut Ctx) -> Vec<String> {
    let mut v = vec![];
    for m in INDEXER {
        let ms = m.ss - m.os;
        for k in 0..6u64 {
            let top = 64u64.pow(ms as u32) - 1;
            let index = match k {
                0 => 0,
                1 => 1,
                2 => 63,
                3 => top.min(if m.fs == 0 { 9 } else { u64::MAX }),
                _ => ctx.rng.u64() % top.min(40),
            };
            let ondex = if ICURRENT.contains(&m.code) || m.os == 0 {
                0
            } else {
                [0, 1, 63, 64u64.pow(m.os as u32) - 1, index % 64, 5][k as usize]
            };
            let n = iraw(m, index);
            let raw = match k % 3 {
                0 => vec![0u8; n],
                1 => vec![0xff; n],
                _ => ctx.rng.bytes(n),
            };
            v.push(itext(m.code, index, ondex, &raw).unwrap());
        }
    }
    v
}
pub fn ctexts(ctx: &mut Ctx) -> Vec<String> {
    let mut v = vec![];
    for (c, ss) in COUNTER {
        for n in [0, 1, 63, 64, 64u64.pow(*ss as u32) - 1, ctx.rng.u64() % 64u64.pow(*ss as u32)] {
            v.push(format!("{c}{}", digits(n % 64u64.pow(*ss as u32), *ss)))
        }
    }
    v
}

const ODD: &[&str] = &["=", "+", "/", " ", "\n", "\0", "é", "€", "𝄞", ".", "~", "\u{7f}", "A", "-", "_", "0", "9", "z"];

/// every single-character change worth trying, truncations and extensions
pub fn mutants(ctx: &mut Ctx, t: &str, heavy: bool) -> Vec<String> {
    let c: Vec<char> = t.chars().collect();
    let mut v = vec![t.to_string()];
    for i in 0..c.len() {
        // the code and first material characters, and the last ones, get every sextet
        let all = i < 9 || i + 3 > c.len() || heavy;
        let mut reps: Vec<String> = ODD.iter().map(|s| s.to_string()).collect();
        if all {
            for k in 0..64 {
                reps.push(ch(k).to_string())
            }
        } else {
            reps = vec![ctx.rng.pick(ODD).to_string(), ch(ctx.rng.below(64) as u32).to_string(), "=".to_string()];
        }
        for r in reps {
            let mut s: String = c[..i].iter().collect();
            s.push_str(&r);
            s.extend(&c[i + 1..]);
            v.push(s);
        }
    }
    for i in 0..c.len() {
        v.push(c[..i].iter().collect());
        let mut s: String = c[..i].iter().collect();
        s.push_str("é");
        v.push(s);
        let mut s: String = c[..i].iter().collect();
        s.push_str("=");
        s.extend(&c[i..]);
        v.push(s);
        if i > 0 {
            // a multi-byte character that straddles what used to be a boundary
            for w in ["é", "€", "𝄞"] {
                let mut s: String = c[..i].iter().collect();
                s.push_str(w);
                s.extend(&c[(i + w.len()).min(c.len())..]);
                v.push(s);
            }
        }
    }
    for x in ["==", "=", "AAAA", "\u{0}", "é", "-AAB", "{"] {
        v.push(format!("{t}{x}"));
    }
    // padding characters at the end
    for k in 1..=4.min(c.len()) {
        let s: String = c[..c.len() - k].iter().collect();
        v.push(s + &"=".repeat(k));
    }
    v
}
pub fn bmutants(ctx: &mut Ctx, b: &[u8], heavy: bool) -> Vec<Vec<u8>> {
    let mut v = vec![b.to_vec()];
    for i in 0..b.len() {
        if i < 9 || i + 3 > b.len() || heavy {
            for k in 0..8 {
                let mut x = b.to_vec();
                x[i] ^= 1 << k;
                v.push(x);
            }
            for y in [0u8, 1, 0x7f, 0x80, 0xff] {
                let mut x = b.to_vec();
                x[i] = y;
                v.push(x);
            }
        } else {
            let mut x = b.to_vec();
            x[i] ^= 1 << ctx.rng.below(8);
            v.push(x);
        }
    }
    for i in 0..b.len() {
        v.push(b[..i].to_vec());
    }
    for e in [vec![0u8], vec![0xff], vec![0, 0, 0], vec![1, 2]] {
        let mut x = b.to_vec();
        x.extend(e);
        v.push(x);
    }
    v
}
/// unstructured input
pub fn junk(ctx: &mut Ctx) -> Vec<String> {
    let mut v: Vec<String> = vec!["".into()];
    for a in 0u32..256 {
        if let Some(c) = char::from_u32(a) {
            v.push(c.to_string());
            for s in ["", "A", "AA", "AAA", "AAAA", "AAAAAAAAAAAA", "é", "=", "____", "-é", "0é", "€€€"] {
                v.push(format!("{c}{s}"));
            }
        }
    }
    for a in 0..64 {
        for b in 0..64 {
            for tail in ["", "AA", "AAAAAA", "__é", "zzz€"] {
                v.push(format!("{}{}{tail}", ch(a), ch(b)))
            }
        }
    }
    for m in MATTER.iter().map(|m| m.code).chain(INDEXER.iter().map(|m| m.code)).chain(COUNTER.iter().map(|c| c.0)) {
        for s in ["", "A", "_", "__", "____", "________", "AAAA", "AAAB", "AAAAAAAA", "==", "=", "AB", "AB==", "AA==", "é", "€", "𝄞", "A€", "AA€", "AAA€", "AAAA€", "\0"] {
            v.push(format!("{m}{s}"));
            v.push(format!("{m}{s}{}", "A".repeat(200)));
            v.push(format!("{m}{s}{}", "é".repeat(100)));
        }
    }
    let strs = ctx.strs.clone();
    for s in &strs {
        v.push(s.clone());
        v.push(format!("{s}{}", "A".repeat(160)));
    }
    for _ in 0..ctx.n(4000) {
        let n = ctx.rng.below(180);
        let mut s = String::new();
        if ctx.rng.chance(3, 4) {
            s.push_str(MATTER[ctx.rng.below(MATTER.len())].code);
        }
        let zeros = ctx.rng.chance(1, 3);
        while s.len() < n {
            match ctx.rng.below(60) {
                0 => s.push_str(ctx.rng.pick(ODD)),
                1 if !strs.is_empty() => {
                    let k = ctx.rng.below(strs.len());
                    s.push_str(&strs[k])
                }
                _ if zeros => s.push('A'),
                _ => s.push(ch(ctx.rng.below(64) as u32)),
            }
        }
        v.push(s)
    }
    v
}

#[derive(Clone, Copy, PartialEq)]
enum Mode {
    Strict,
    Safe,
}

fn check_m(p: &P, text: &[u8], mode: Mode) -> Result<(), String> {
    match mode {
        Mode::Safe => {
            ensure!(p.qb64.is_ok() && p.qb64b.is_ok(), "accepted but cannot be qualified: {:?}", p.qb64);
            ensure!(p.qb2.is_ok(), "accepted but has no binary form: {:?}", p.qb2);
            ensure!(p.full.is_ok(), "accepted but has no full size: {:?}", p.full);
        }
        Mode::Strict => {
            let q = p.qb64.clone()?;
            ensure!(text.starts_with(q.as_bytes()), "accepted, but qualifies as {}", short(&q));
            ensure!(p.full == Ok(q.len()), "consumed size {:?} is not the size of its text {}", p.full, q.len());
            let m = mat(&p.code).ok_or("unknown code")?;
            let want = if m.fs == 0 { p.size as usize * 3 - m.ls } else { mraw(m) };
            ensure!(p.raw.len() == want, "raw of {} bytes, code {} declares {want}", p.raw.len(), p.code);
        }
    }
    Ok(())
}

fn parse_text(ctx: &mut Ctx, t: &Ty, s: &str, mode: Mode, g: bool) {
    ctx.case(format!("{} qb64={} general={g}", t.name, short(s)), || {
        let want = mparse(s.as_bytes());
        for i in [In::Text(s), In::Tbytes(s.as_bytes())] {
            match (t.mk)(&i, g) {
                Ok(p) => {
                    check_m(&p, s.as_bytes(), mode)?;
                    if mode == Mode::Strict {
                        ensure!(want.is_some(), "accepted text that no primitive qualifies to");
                        let w = want.as_ref().unwrap();
                        ensure!(w.raw == p.raw && w.code == p.code, "parsed as code={} raw={}", p.code, hex(&p.raw));
                    }
                }
                Err(_) => {}
            }
        }
        Ok(())
    });
}
fn parse_bin(ctx: &mut Ctx, t: &Ty, b: &[u8], mode: Mode, g: bool) {
    ctx.case(format!("{} qb2={} general={g}", t.name, hex(b)), || {
        let want = mbparse(b);
        if let Ok(p) = (t.mk)(&In::Bin(b), g) {
            let n = b.len() / 3 * 3;
            check_m(&p, b64enc(&b[..n]).as_bytes(), mode)?;
            if mode == Mode::Strict {
                ensure!(want.is_some(), "accepted binary that no primitive qualifies to");
                let q = p.qb2.clone()?;
                ensure!(b.starts_with(&q), "accepted, but qualifies as {}", hex(&q));
                let w = want.as_ref().unwrap();
                ensure!(w.raw == p.raw && w.code == p.code, "parsed as code={} raw={}", p.code, hex(&p.raw));
            }
        }
        Ok(())
    });
}

fn soft_sweep(ctx: &mut Ctx, f: &mut dyn FnMut(&mut Ctx, &str)) {
    // every size field of small variable codes, with exactly, one less and one more character
    let codes: &[&str] = if ctx.thorough { &["4A", "5A", "6A", "4B", "5B", "6B"] } else { &["4A", "5B", "6B"] };
    let body = "A".repeat(4096 * 4);
    for c in codes {
        for n in (0..4096usize).step_by(if ctx.thorough { 1 } else { 7 }).chain([1, 2, 63, 64, 65, 4094, 4095]) {
            let head = format!("{c}{}", digits(n as u64, 2));
            f(ctx, &format!("{head}{}", &body[..n * 4]));
            if n > 0 && n % 3 == 0 {
                f(ctx, &format!("{head}{}", &body[..n * 4 - 1]));
                f(ctx, &format!("{head}{}_", &body[..n * 4 - 1]));
            }
        }
    }
    for c in ["7AAA", "8AAA", "9AAA", "7AAB", "8AAB", "9AAB"] {
        for n in [0u64, 1, 2, 63, 64, 4095, 4096, 262143, 262144, 16777215] {
            let head = format!("{c}{}", digits(n, 4));
            if n < 5000 {
                f(ctx, &format!("{head}{}", &body[..(n as usize * 4).min(body.len())]));
            }
            f(ctx, &head);
            f(ctx, &format!("{head}AAAA"));
        }
    }
}

fn parse_all(ctx: &mut Ctx, mode: Mode) {
    let base = mtexts(ctx);
    let all = tys();
    ctx.group("single changes of valid text and binary");
    for (k, s) in base.iter().enumerate() {
        let heavy = ctx.thorough;
        let ms = mutants(ctx, s, heavy);
        for (j, x) in ms.iter().enumerate() {
            parse_text(ctx, &all[0], x, mode, false);
            let n = 1 + (j + k) % (all.len() - 1);
            let own = all.iter().position(|t| t.codes.iter().any(|c| s.starts_with(c)) && t.name != "bare");
            if let (Some(o), true) = (own, j % 3 == 0) {
                parse_text(ctx, &all[o], x, mode, j % 2 == 0);
            }
            if mode == Mode::Safe || ctx.thorough {
                parse_text(ctx, &all[n], x, mode, j % 2 == 0);
            }
        }
        let b = b64dec(s).unwrap();
        for (j, x) in bmutants(ctx, &b, heavy).iter().enumerate() {
            parse_bin(ctx, &all[0], x, mode, j % 2 == 0);
            let n = 1 + (j + k) % (all.len() - 1);
            if mode == Mode::Safe || ctx.thorough {
                parse_bin(ctx, &all[n], x, mode, j % 2 == 0);
            }
        }
    }
    ctx.group("each type on its own codes and on every other code");
    for t in &all {
        for s in &base {
            parse_text(ctx, t, s, mode, false);
            parse_text(ctx, t, s, mode, true);
            let b = b64dec(s).unwrap();
            parse_bin(ctx, t, &b, mode, false);
        }
    }
    ctx.group("size fields");
    soft_sweep(ctx, &mut |ctx, s| {
        parse_text(ctx, &all[0], s, mode, false);
        let n = s.len() / 4 * 4;
        if s.is_char_boundary(n) {
            if let Some(b) = b64dec(&s[..n]) {
                parse_bin(ctx, &all[0], &b, mode, false);
            }
        }
    });
    ctx.group("unstructured");
    for (k, s) in junk(ctx).iter().enumerate() {
        parse_text(ctx, &all[k % all.len()], s, mode, k % 2 == 0);
        parse_text(ctx, &all[0], s, mode, false);
        parse_bin(ctx, &all[k % all.len()], s.as_bytes(), mode, k % 2 == 0);
        let n = s.len() / 4 * 4;
        if s.is_char_boundary(n) {
            if let Some(b) = b64dec(&s[..n]) {
                parse_bin(ctx, &all[0], &b, mode, false);
            }
        }
    }
    for a in 0..=255u8 {
        for b in (0..=255u8).step_by(if ctx.thorough { 1 } else { 5 }) {
            for tail in [&[][..], &[0u8; 1], &[0xff; 4], &[0u8; 130], &[0xff; 130]] {
                let mut x = vec![a, b];
                x.extend_from_slice(tail);
                parse_bin(ctx, &all[0], &x, mode, false);
            }
        }
    }
    for _ in 0..ctx.n(10000) {
        if ctx.over() {
            break;
        }
        let n = ctx.rng.below(130);
        let mut x = ctx.rng.bytes(n);
        if ctx.rng.chance(1, 3) {
            for y in x.iter_mut().skip(2) {
                *y = 0
            }
        }
        let k = ctx.rng.below(all.len());
        parse_bin(ctx, &all[k], &x, mode, false);
        // bytes that are not UTF-8
        ctx.case(format!("{} qb64b={}", all[k].name, hex(&x)), || {
            if let Ok(p) = (all[k].mk)(&In::Tbytes(&x), false) {
                check_m(&p, &x, mode)?
            }
            Ok(())
        });
    }
}

pub fn c02(ctx: &mut Ctx) {
    parse_all(ctx, Mode::Strict)
}

pub fn c03(ctx: &mut Ctx) {
    parse_all(ctx, Mode::Safe);
    ctx.group("construction from any code and raw");
    let all = tys();
    let mut codes: Vec<String> = MATTER.iter().map(|m| m.code.to_string()).collect();
    for c in junk(ctx).into_iter().filter(|s| s.len() < 9).take(3000) {
        codes.push(c)
    }
    for c in &codes {
        for n in [0usize, 1, 2, 3, 16, 32, 33, 64, 91] {
            let raw = vec![1u8; n];
            let k = ctx.rng.below(all.len());
            for t in [&all[0], &all[k]] {
                ctx.case(format!("{} code={} raw=[{n}]", t.name, short(c)), || {
                    if let Ok(p) = (t.mk)(&In::Raw(c, &raw), true) {
                        check_m(&p, &[], Mode::Safe)?
                    }
                    Ok(())
                });
            }
        }
    }
    ctx.group("indexed and counter parsers");
    let its = itypes();
    let mut texts = vec![];
    let th = ctx.thorough;
    for s in itexts(ctx).iter().chain(ctexts(ctx).iter()) {
        if !th && !ctx.rng.chance(1, 2) {
            continue;
        }
        texts.extend(mutants(ctx, s, ctx.thorough));
        let b = b64dec(s).unwrap();
        for x in bmutants(ctx, &b, ctx.thorough) {
            safe_ibin(ctx, &its, &x)
        }
    }
    texts.extend(junk(ctx));
    for s in &texts {
        safe_itext(ctx, &its, s.as_bytes());
        safe_ibin(ctx, &its, s.as_bytes());
    }
    for a in 0..=255u8 {
        for b in (0..=255u8).step_by(if ctx.thorough { 1 } else { 3 }) {
            for tail in [&[][..], &[0u8; 1], &[0xff; 4], &[0u8; 130], &[0xff; 130]] {
                let mut x = vec![a, b];
                x.extend_from_slice(tail);
                safe_ibin(ctx, &its, &x);
            }
        }
    }
    for _ in 0..ctx.n(8000) {
        let n = ctx.rng.below(130);
        let x = ctx.rng.bytes(n);
        safe_ibin(ctx, &its, &x);
        safe_itext(ctx, &its, &x);
    }
}
fn safe_itext(ctx: &mut Ctx, its: &[ITy], s: &[u8]) {
    for t in its {
        ctx.case(format!("{} qb64={}", t.name, short(&String::from_utf8_lossy(s))), || {
            let mut v = vec![In::Tbytes(s)];
            if let Ok(x) = std::str::from_utf8(s) {
                v.push(In::Text(x))
            }
            for i in v {
                if let Ok(p) = (t.mk)(&i, 0, None, false) {
                    ensure!(p.qb64.is_ok() && p.qb2.is_ok() && p.full.is_ok() && p.qb64b.is_ok(),
                        "accepted but cannot be qualified: {:?} {:?} {:?}", p.qb64, p.qb2, p.full);
                }
            }
            Ok(())
        });
    }
    ctx.case(format!("Counter qb64={}", short(&String::from_utf8_lossy(s))), || {
        let mut v = vec![In::Tbytes(s)];
        if let Ok(x) = std::str::from_utf8(s) {
            v.push(In::Text(x))
        }
        for i in v {
            if let Ok(p) = cmk(&i, 0, false) {
                ensure!(p.qb64.is_ok() && p.qb2.is_ok() && p.full.is_ok(),
                    "accepted but cannot be qualified: {:?} {:?} {:?}", p.qb64, p.qb2, p.full);
            }
        }
        Ok(())
    });
}
fn safe_ibin(ctx: &mut Ctx, its: &[ITy], b: &[u8]) {
    for t in its {
        ctx.case(format!("{} qb2={}", t.name, hex(b)), || {
            if let Ok(p) = (t.mk)(&In::Bin(b), 0, None, false) {
                ensure!(p.qb64.is_ok() && p.qb2.is_ok() && p.full.is_ok(),
                    "accepted but cannot be qualified: {:?} {:?} {:?}", p.qb64, p.qb2, p.full);
            }
            Ok(())
        });
    }
    ctx.case(format!("Counter qb2={}", hex(b)), || {
        if let Ok(p) = cmk(&In::Bin(b), 0, false) {
            ensure!(p.qb64.is_ok() && p.qb2.is_ok() && p.full.is_ok(),
                "accepted but cannot be qualified: {:?} {:?} {:?}", p.qb64, p.qb2, p.full);
        }
        Ok(())
    });
}

fn dom(q: &str, b: &[u8]) -> Result<(), String> {
    ensure!(q.len() % 4 == 0, "text of {} characters", q.len());
    ensure!(b.len() % 3 == 0, "binary of {} bytes", b.len());
    ensure!(b64dec(q).as_deref() == Some(b), "binary {} is not the decoding of text {q}", hex(b));
    Ok(())
}

pub fn c04(ctx: &mut Ctx) {
    let all = tys();
    let its = itypes();
    ctx.group("unindexed");
    let mut base = mtexts(ctx);
    for n in [4094usize, 4095, 4096, 4097, 64, 63] {
        for (k, ls) in [(0, 0), (1, 1), (2, 2)] {
            let raw = ctx.rng.bytes(n * 3 - ls);
            let (c, s) = mcode("4B", raw.len()).unwrap();
            base.push(mtext(&c, s, &raw).unwrap());
            let _ = k;
        }
    }
    for m in MATTER {
        for _ in 0..ctx.n(20) {
            let n = if m.fs != 0 { mraw(m) } else { ctx.rng.below(200) * 3 + 3 - m.ls };
            let raw = ctx.rng.bytes(n);
            base.push(mtext(m.code, if m.fs != 0 { 0 } else { (n + m.ls) / 3 }, &raw).unwrap())
        }
    }
    // also texts that need not be valid: whatever is accepted must be composable
    let nvalid = base.len();
    for _ in 0..ctx.n(1500) {
        let k = ctx.rng.below(nvalid.min(150));
        let t = base[k].clone();
        let ms = mutants(ctx, &t, false);
        let k = ctx.rng.below(ms.len());
        base.push(ms[k].clone());
    }
    for (k, s) in base.iter().enumerate() {
        for t in &all {
            if t.name != "bare" && !t.codes.iter().any(|c| s.starts_with(c)) {
                continue;
            }
            ctx.case(format!("{} {}", t.name, short(s)), || {
                let p = match (t.mk)(&In::Text(s), k % 2 == 0) {
                    Ok(p) => p,
                    Err(e) => {
                        let v = k < nvalid && (t.name == "bare" || t.codes.contains(&mparse(s.as_bytes()).unwrap().code.as_str()));
                        // seeds need not be keys
                        ensure!(!v || t.name == "Signer", "valid text refused: {e}");
                        return Ok(());
                    }
                };
                let (q, b) = (p.qb64.clone()?, p.qb2.clone()?);
                dom(&q, &b)?;
                let p2 = es((t.mk)(&In::Bin(&b), k % 2 == 0))?;
                ensure!(p2 == p, "binary parses as code={} raw={}", p2.code, hex(&p2.raw));
                Ok(())
            });
        }
    }
    ctx.group("indexed");
    let mut ib = itexts(ctx);
    for m in INDEXER {
        for _ in 0..ctx.n(40) {
            let top = 64u64.pow((m.ss - m.os) as u32);
            let index = if m.fs == 0 { ctx.rng.u64() % 60 } else { ctx.int(top - 1) };
            let ondex = if ICURRENT.contains(&m.code) || m.os == 0 { 0 } else { ctx.int(64u64.pow(m.os as u32) - 1) };
            let raw = ctx.rng.bytes(iraw(m, index));
            ib.push(itext(m.code, index, ondex, &raw).unwrap());
        }
    }
    for s in &ib {
        for t in &its {
            if t.siger && !SIGS.contains(&iparse(s.as_bytes()).unwrap().code.as_str()) {
                continue;
            }
            ctx.case(format!("{} {s}", t.name), || {
                let p = es((t.mk)(&In::Text(s), 0, None, false))?;
                let (q, b) = (p.qb64.clone()?, p.qb2.clone()?);
                dom(&q, &b)?;
                let p2 = es((t.mk)(&In::Bin(&b), 0, None, false))?;
                ensure!(p2 == p, "binary parses as {p2:?}");
                Ok(())
            });
        }
    }
    ctx.group("counters");
    let mut cb = ctexts(ctx);
    for (c, ss) in COUNTER {
        for _ in 0..ctx.n(100) {
            let n = ctx.int(64u64.pow(*ss as u32) - 1);
            cb.push(format!("{c}{}", digits(n, *ss)));
        }
    }
    for s in &cb {
        ctx.case(format!("Counter {s}"), || {
            let p = es(cmk(&In::Text(s), 0, false))?;
            let (q, b) = (p.qb64.clone()?, p.qb2.clone()?);
            dom(&q, &b)?;
            let p2 = es(cmk(&In::Bin(&b), 0, false))?;
            ensure!(p2 == p, "binary parses as {p2:?}");
            Ok(())
        });
    }
    ctx.group("concatenations");
    let valid: Vec<String> = base[..nvalid].to_vec();
    for _ in 0..ctx.n(2000) {
        let mut parts = vec![];
        for _ in 0..1 + ctx.rng.below(5) {
            let k = ctx.rng.below(3);
            let s = match k {
                0 => valid[ctx.rng.below(valid.len())].clone(),
                1 => ib[ctx.rng.below(ib.len())].clone(),
                _ => cb[ctx.rng.below(cb.len())].clone(),
            };
            if s.len() < 2000 {
                parts.push((k, s))
            }
        }
        // the kind of a primitive is known from the group it is in, so carry it along
        ctx.case(format!("stream {}", parts.iter().map(|p| p.1.clone()).collect::<Vec<_>>().join("|")), || {
            let whole: String = parts.iter().map(|p| p.1.as_str()).collect();
            let bin = b64dec(&whole).ok_or("oracle")?;
            let mut cat = vec![];
            for (k, s) in &parts {
                let q = match k {
                    0 => es((all[0].mk)(&In::Text(s), false))?.qb2,
                    1 => es((its[0].mk)(&In::Text(s), 0, None, false))?.qb2,
                    _ => es(cmk(&In::Text(s), 0, false))?.qb2,
                };
                cat.extend(q?);
            }
            ensure!(cat == bin, "conversion of the concatenation differs");
            Ok(())
        });
    }
    ctx.group("whole triplets, valid or not");
    let mut bins: Vec<Vec<u8>> = vec![];
    for s in base.iter().take(400).chain(ib.iter()).chain(cb.iter()) {
        if s.len() > 400 {
            continue;
        }
        if let Some(b) = b64dec(s) {
            if b.len() % 3 == 0 {
                bins.push(b)
            }
        }
    }
    let n = bins.len();
    for _ in 0..ctx.n(2500) {
        let k = ctx.rng.below(n);
        let mut b = bins[k].clone();
        match ctx.rng.below(6) {
            // the code, the padding and the lead bytes are all at the front
            0..=3 => {
                let i = ctx.rng.below(b.len().min(9));
                b[i] ^= 1 << ctx.rng.below(8);
            }
            4 => {
                let i = ctx.rng.below(b.len());
                b[i] ^= 1 << ctx.rng.below(8);
            }
            _ => {
                let l = ctx.rng.below(b.len() / 3 + 1) * 3;
                b.truncate(l);
            }
        }
        bins.push(b);
    }
    for b in &bins {
        let t = b64enc(b);
        for ty in &all {
            ctx.case(format!("{} qb2={}", ty.name, hex(b)), || match ((ty.mk)(&In::Bin(b), false), (ty.mk)(&In::Text(&t), false)) {
                (Ok(p), Ok(q)) => {
                    ensure!(p == q, "the bytes parse as code={} raw={}, their text {t} as code={} raw={}", p.code, hex(&p.raw), q.code, hex(&q.raw));
                    Ok(())
                }
                (Err(_), Err(_)) => Ok(()),
                (Ok(_), Err(e)) => Err(format!("the bytes are accepted, their text {t} is refused: {e}")),
                (Err(e), Ok(_)) => Err(format!("the bytes are refused: {e}, their text {t} is accepted")),
            });
        }
        for ty in &its {
            ctx.case(format!("{} qb2={}", ty.name, hex(b)), || match ((ty.mk)(&In::Bin(b), 0, None, false), (ty.mk)(&In::Text(&t), 0, None, false)) {
                (Ok(p), Ok(q)) => {
                    ensure!(p == q, "the bytes parse as {p:?}, their text {t} as {q:?}");
                    Ok(())
                }
                (Err(_), Err(_)) => Ok(()),
                (Ok(_), Err(e)) => Err(format!("the bytes are accepted, their text {t} is refused: {e}")),
                (Err(e), Ok(_)) => Err(format!("the bytes are refused: {e}, their text {t} is accepted")),
            });
        }
        ctx.case(format!("Counter qb2={}", hex(b)), || match (cmk(&In::Bin(b), 0, false), cmk(&In::Text(&t), 0, false)) {
            (Ok(p), Ok(q)) => {
                ensure!(p == q, "the bytes parse as {p:?}, their text {t} as {q:?}");
                Ok(())
            }
            (Err(_), Err(_)) => Ok(()),
            (Ok(_), Err(e)) => Err(format!("the bytes are accepted, their text {t} is refused: {e}")),
            (Err(e), Ok(_)) => Err(format!("the bytes are refused: {e}, their text {t} is accepted")),
        });
    }
}

pub fn c05(ctx: &mut Ctx) {
    let all = tys();
    let its = itypes();
    let mut base = mtexts(ctx);
    for n in [64usize, 63, 4095, 4096] {
        let raw = ctx.rng.bytes(n * 3 - 1);
        let (c, s) = mcode("4A", raw.len()).unwrap();
        base.push(mtext(&c, s, &raw).unwrap());
    }
    let mut suffixes: Vec<Vec<u8>> = vec![
        b"A".to_vec(), b"AAAA".to_vec(), b"=".to_vec(), b"==".to_vec(), b"-AAB".to_vec(), b"\0".to_vec(),
        "é".as_bytes().to_vec(), "€x".as_bytes().to_vec(), b"{".to_vec(), b"____________".to_vec(), vec![b'A'; 300],
    ];
    for c in ctx.strs.clone() {
        if c.len() < 20 && suffixes.len() < 60 {
            suffixes.push(c.into_bytes())
        }
    }
    ctx.group("unindexed");
    for (k, s) in base.clone().iter().enumerate() {
        let own: Vec<&Ty> = all.iter().filter(|t| t.name == "bare" || t.codes.contains(&mparse(s.as_bytes()).unwrap().code.as_str())).collect();
        let t = own[k % own.len()];
        let bin = b64dec(s).unwrap();
        for x in &suffixes {
            for t in [own[0], t] {
                ctx.case(format!("{} {} followed by {}", t.name, short(s), hex(x)), || {
                    let p = match (t.mk)(&In::Text(s), false) {
                        Ok(p) => p,
                        Err(_) if t.name == "Signer" => return Ok(()),
                        Err(e) => return Err(format!("valid text refused: {e}")),
                    };
                    ensure!(p.full == Ok(s.len()), "full size {:?} of a text of {}", p.full, s.len());
                    if let Ok(x) = std::str::from_utf8(x) {
                        let w = format!("{s}{x}");
                        let p2 = es((t.mk)(&In::Text(&w), false))?;
                        ensure!(p2 == p, "parsed differently: {} {}", p2.code, hex(&p2.raw));
                        let p2 = es((t.mk)(&In::Tbytes(w.as_bytes()), false))?;
                        ensure!(p2 == p, "parsed differently: {} {}", p2.code, hex(&p2.raw));
                    }
                    let mut w = bin.clone();
                    w.extend_from_slice(x);
                    let p2 = es((t.mk)(&In::Bin(&w), false))?;
                    ensure!(p2 == p, "binary parsed differently: {} {}", p2.code, hex(&p2.raw));
                    Ok(())
                });
            }
        }
        for n in (0..s.len()).rev().take(if ctx.thorough { 400 } else { 130 }) {
            ctx.case(format!("{} first {n} of {}", t.name, short(s)), || {
                ensure!((t.mk)(&In::Text(&s[..n]), false).is_err(), "truncated text accepted");
                ensure!((t.mk)(&In::Tbytes(&s.as_bytes()[..n]), false).is_err(), "truncated text accepted");
                Ok(())
            });
        }
        for n in (0..bin.len()).rev().take(if ctx.thorough { 400 } else { 110 }) {
            ctx.case(format!("{} first {n} bytes of {}", t.name, hex(&bin)), || {
                ensure!((t.mk)(&In::Bin(&bin[..n]), false).is_err(), "truncated binary accepted");
                Ok(())
            });
        }
    }
    ctx.group("streams");
    for _ in 0..ctx.n(1500) {
        let mut parts = vec![];
        for _ in 0..2 + ctx.rng.below(4) {
            parts.push(base[ctx.rng.below(base.len().min(200))].clone())
        }
        ctx.case(format!("stream {}", short(&parts.join("|"))), || {
            let whole = parts.concat();
            let mut rest = &whole[..];
            let bin = b64dec(&whole).ok_or("oracle")?;
            let mut brest = &bin[..];
            for s in &parts {
                let p = es((all[0].mk)(&In::Text(rest), false))?;
                ensure!(p.qb64.as_ref() == Ok(s), "expected {s}, got {:?}", p.qb64);
                rest = &rest[p.full.clone()?..];
                let p = es((all[0].mk)(&In::Bin(brest), false))?;
                ensure!(p.qb64.as_ref() == Ok(s), "expected {s}, got {:?}", p.qb64);
                brest = &brest[p.full.clone()? / 4 * 3..];
            }
            ensure!(rest.is_empty() && brest.is_empty(), "left over");
            Ok(())
        });
    }
    ctx.group("indexed");
    for s in itexts(ctx) {
        let bin = b64dec(&s).unwrap();
        let code = iparse(s.as_bytes()).unwrap().code;
        for t in its.iter().filter(|t| !t.siger || SIGS.contains(&code.as_str())) {
            for x in &suffixes {
                ctx.case(format!("{} {s} followed by {}", t.name, hex(x)), || {
                    let p = es((t.mk)(&In::Text(&s), 0, None, false))?;
                    ensure!(p.full == Ok(s.len()), "full size {:?} of a text of {}", p.full, s.len());
                    if let Ok(x) = std::str::from_utf8(x) {
                        let p2 = es((t.mk)(&In::Text(&format!("{s}{x}")), 0, None, false))?;
                        ensure!(p2 == p, "parsed differently: {p2:?}");
                    }
                    let mut w = bin.clone();
                    w.extend_from_slice(x);
                    let p2 = es((t.mk)(&In::Bin(&w), 0, None, false))?;
                    ensure!(p2 == p, "binary parsed differently: {p2:?}");
                    Ok(())
                });
            }
            for n in 0..s.len() {
                ctx.case(format!("{} first {n} of {s}", t.name), || {
                    ensure!((t.mk)(&In::Text(&s[..n]), 0, None, false).is_err(), "truncated text accepted");
                    if n < bin.len() {
                        ensure!((t.mk)(&In::Bin(&bin[..n]), 0, None, false).is_err(), "truncated binary accepted");
                    }
                    Ok(())
                });
            }
        }
    }
    ctx.group("counters");
    for s in ctexts(ctx) {
        let bin = b64dec(&s).unwrap();
        for x in &suffixes {
            ctx.case(format!("Counter {s} followed by {}", hex(x)), || {
                let p = es(cmk(&In::Text(&s), 0, false))?;
                ensure!(p.full == Ok(s.len()), "full size {:?} of a text of {}", p.full, s.len());
                if let Ok(x) = std::str::from_utf8(x) {
                    let p2 = es(cmk(&In::Text(&format!("{s}{x}")), 0, false))?;
                    ensure!(p2 == p, "parsed differently: {p2:?}");
                }
                let mut w = bin.clone();
                w.extend_from_slice(x);
                let p2 = es(cmk(&In::Bin(&w), 0, false))?;
                ensure!(p2 == p, "binary parsed differently: {p2:?}");
                Ok(())
            });
        }
        for n in 0..s.len() {
            ctx.case(format!("Counter first {n} of {s}"), || {
                ensure!(cmk(&In::Text(&s[..n]), 0, false).is_err(), "truncated text accepted");
                if n < bin.len() {
                    ensure!(cmk(&In::Bin(&bin[..n]), 0, false).is_err(), "truncated binary accepted");
                }
                Ok(())
            });
        }
    }
}

pub fn c06(ctx: &mut Ctx) {
    use cesride::{Counter, Indexer, Matter};
    let alpha: Vec<char> = (0..64).map(ch).collect();
    ctx.group("matter codes");
    let mut cands: Vec<String> = vec![];
    for a in &alpha {
        cands.push(a.to_string());
        for b in &alpha {
            cands.push(format!("{a}{b}"));
        }
    }
    for a in "0123456789-_".chars() {
        for b in "0ABCDEFGHIJKLMNOPQz_-".chars() {
            for c in "0ABz_".chars() {
                cands.push(format!("{a}{b}{c}"));
            }
        }
    }
    let four: &[char] = &['1', '2', '3', '7', '8', '9', '0', '4', 'A', '-', '_'];
    for a in four {
        for b in &alpha {
            if *b != 'A' && !ctx.thorough && !['B', '_', '0', 'z'].contains(b) {
                continue;
            }
            for c in &alpha {
                for d in &alpha {
                    cands.push(format!("{a}{b}{c}{d}"));
                }
            }
        }
    }
    for s in ctx.strs.clone() {
        cands.push(s)
    }
    for c in &cands {
        let m = mat(c);
        ctx.case(format!("matter code {c:?}"), || {
            let p = Mat { code: c.clone(), raw: vec![], size: 7 };
            let want = m.map(|m| if m.fs == 0 { m.hs + m.ss + 28 } else { m.fs });
            ensure!(es(p.full_size()).ok() == want, "full size {:?}, table says {want:?}", es(p.full_size()));
            Ok(())
        });
    }
    ctx.group("kinds of material");
    for c in &cands {
        ctx.case(format!("kind of {c:?}"), || {
            let p = Mat { code: c.clone(), raw: vec![], size: 7 };
            let dig = ["E", "F", "G", "H", "I", "0D", "0E", "0F", "0G"].contains(&c.as_str());
            let fixed = ["B", "1AAA", "1AAC", "1AAI"].contains(&c.as_str());
            ensure!(p.digestive() == dig, "digestive is {}", p.digestive());
            ensure!(p.transferable() == !fixed, "transferable is {}", p.transferable());
            Ok(())
        });
    }
    ctx.group("matter hard sizes and lead sizes through the parsers");
    let t = bare();
    for c in &cands {
        if c.len() > 4 || !c.bytes().all(|b| sx(b).is_some()) {
            continue;
        }
        // enough zero material for any fixed size, zero size field
        let s = format!("{c}{}", "A".repeat(132 - c.len()));
        let b = b64dec(&s).unwrap();
        ctx.case(format!("text and binary of zeros starting with {c}"), || {
            let want = mparse(s.as_bytes());
            for i in [In::Text(&s), In::Bin(&b)] {
                let got = (t.mk)(&i, false);
                match (&want, got) {
                    (None, Ok(p)) => return Err(format!("code {} accepted", p.code)),
                    (Some(w), Ok(p)) => ensure!(p.code == w.code && p.raw == w.raw && p.full == Ok(w.fs),
                        "{} {} {:?} instead of {w:?}", p.code, hex(&p.raw), p.full),
                    (Some(w), Err(e)) => return Err(format!("{w:?} refused: {e}")),
                    _ => (),
                }
            }
            Ok(())
        });
    }
    for m in MATTER {
        ctx.case(format!("sizes of {}", m.code), || {
            // exact raw size: one byte less is a shortage
            let n = if m.fs == 0 { 9 - m.ls } else { mraw(m) };
            let raw = vec![0xa5u8; n];
            let p = es((t.mk)(&In::Raw(m.code, &raw), false))?;
            let w = mtext(m.code, if m.fs == 0 { 3 } else { 0 }, &raw).ok_or("oracle")?;
            ensure!(p.qb64.as_ref() == Ok(&w), "{:?} instead of {w}", p.qb64);
            ensure!(p.qb2 == Ok(b64dec(&w).unwrap()), "{:?}", p.qb2);
            ensure!(p.full == Ok(w.len()), "{:?}", p.full);
            let bin = b64dec(&w).unwrap();
            for i in [In::Text(&w), In::Bin(&bin)] {
                let q = es((t.mk)(&i, false))?;
                ensure!(q.code == m.code && q.raw == raw, "read back as {} {}", q.code, hex(&q.raw));
            }
            if m.fs != 0 {
                ensure!((t.mk)(&In::Raw(m.code, &raw[1..]), false).is_err(), "shorter raw accepted");
            }
            Ok(())
        });
    }
    ctx.group("code constants");
    matter_consts(ctx);
    ctx.group("indexer codes");
    for c in cands.iter().filter(|c| c.len() <= 4) {
        let m = idx(c);
        ctx.case(format!("indexer code {c:?}"), || {
            let p = Ind { code: c.clone(), raw: vec![], index: 7, ondex: 0 };
            let want = m.map(|m| if m.fs == 0 { m.hs + m.ss + 28 } else { m.fs });
            ensure!(es(p.full_size()).ok() == want, "full size {:?}, table says {want:?}", es(p.full_size()));
            Ok(())
        });
    }
    let it = itypes();
    for c in cands.iter().filter(|c| c.len() <= 2 && c.bytes().all(|b| sx(b).is_some())) {
        let s = format!("{c}{}", "A".repeat(200 - c.len()));
        let b = b64dec(&s).unwrap();
        ctx.case(format!("indexed text and binary of zeros starting with {c}"), || {
            let want = iparse(s.as_bytes());
            for i in [In::Text(&s), In::Bin(&b)] {
                let got = (it[0].mk)(&i, 0, None, false);
                match (&want, got) {
                    (None, Ok(p)) => return Err(format!("code {} accepted", p.code)),
                    (Some(w), Ok(p)) => ensure!(p.code == w.code && p.raw == w.raw && p.full == Ok(w.fs) && p.index as u64 == w.index && p.ondex as u64 == w.ondex,
                        "{p:?} instead of {w:?}"),
                    (Some(w), Err(e)) => return Err(format!("{w:?} refused: {e}")),
                    _ => (),
                }
            }
            Ok(())
        });
    }
    for m in INDEXER {
        ctx.case(format!("sizes of indexed {}", m.code), || {
            let top = 64u64.pow((m.ss - m.os) as u32) - 1;
            let index = if m.fs == 0 { 5 } else { top };
            let raw = vec![0x5au8; iraw(m, index)];
            let cur = ICURRENT.contains(&m.code);
            let ondex = if cur { 0 } else if m.os == 0 { index } else { 64u64.pow(m.os as u32) - 1 };
            let p = es((it[0].mk)(&In::Raw(m.code, &raw), index as u32, if cur { None } else { Some(ondex as u32) }, false))?;
            let w = itext(m.code, index, if m.os == 0 { 0 } else { ondex }, &raw).ok_or("oracle")?;
            ensure!(p.qb64.as_ref() == Ok(&w), "{:?} instead of {w}", p.qb64);
            ensure!(p.qb2 == Ok(b64dec(&w).unwrap()), "{:?}", p.qb2);
            let bin = b64dec(&w).unwrap();
            for i in [In::Text(&w), In::Bin(&bin)] {
                let q = es((it[0].mk)(&i, 0, None, false))?;
                ensure!(q.code == m.code && q.raw == raw && q.index as u64 == index, "read back as {q:?}");
            }
            ensure!((it[0].mk)(&In::Raw(m.code, &raw[1..]), index as u32, None, false).is_err(), "shorter raw accepted");
            if top < u32::MAX as u64 && m.fs != 0 {
                ensure!((it[0].mk)(&In::Raw(m.code, &raw), top as u32 + 1, None, false).is_err(), "larger index accepted");
            }
            Ok(())
        });
    }
    ctx.group("counter codes");
    let mut cc: Vec<String> = vec![];
    for a in &alpha {
        cc.push(format!("-{a}"));
        cc.push(a.to_string());
        for b in &alpha {
            cc.push(format!("-{a}{b}"));
            cc.push(format!("--{a}{b}A"));
            cc.push(format!("--A{a}{b}"));
        }
    }
    for c in &cands {
        if c.len() <= 4 {
            cc.push(c.clone())
        }
    }
    cc.sort();
    cc.dedup();
    for c in &cc {
        let m = COUNTER.iter().find(|x| x.0 == c);
        ctx.case(format!("counter code {c:?}"), || {
            let r = Counter::new_with_code_and_count(c, 3);
            ensure!(r.is_ok() == m.is_some(), "known = {}, table says {}", r.is_ok(), m.is_some());
            if let (Ok(r), Some(m)) = (r, m) {
                let w = format!("{c}{}", digits(3, m.1));
                ensure!(es(r.qb64()) == Ok(w.clone()), "{:?} instead of {w}", es(r.qb64()));
                ensure!(es(r.full_size()) == Ok(w.len()), "full size {:?}", es(r.full_size()));
                let top = 64u64.pow(m.1 as u32) - 1;
                ensure!(Counter::new_with_code_and_count(c, top as u32).is_ok(), "largest count refused");
                ensure!(Counter::new_with_code_and_count(c, (top + 1) as u32).is_err(), "too large a count accepted");
            }
            let s = format!("{c}{}", "A".repeat(12 - c.len()));
            if let Some(b) = b64dec(&s) {
                let want = cparse(s.as_bytes());
                for i in [In::Text(&s), In::Bin(&b)] {
                    let got = cmk(&i, 0, false).ok().map(|p| (p.code, p.count as u64, p.full.unwrap_or(0)));
                    ensure!(got == want, "{} parsed as {got:?}, table says {want:?}", i.show());
                }
            }
            Ok(())
        });
    }
}

fn matter_consts(ctx: &mut Ctx) {
    use cesride::counter::Codex as C;
    use cesride::indexer::Codex as I;
    use cesride::matter::Codex as M;
    let t: &[(&str, &str, &str)] = &[
        ("Ed25519_Seed", M::Ed25519_Seed, "A"), ("Ed25519N", M::Ed25519N, "B"), ("X25519", M::X25519, "C"),
        ("Ed25519", M::Ed25519, "D"), ("Blake3_256", M::Blake3_256, "E"), ("Blake2b_256", M::Blake2b_256, "F"),
        ("Blake2s_256", M::Blake2s_256, "G"), ("SHA3_256", M::SHA3_256, "H"), ("SHA2_256", M::SHA2_256, "I"),
        ("ECDSA_256k1_Seed", M::ECDSA_256k1_Seed, "J"), ("Short", M::Short, "M"), ("Big", M::Big, "N"),
        ("ECDSA_256r1_Seed", M::ECDSA_256r1_Seed, "Q"), ("Salt_128", M::Salt_128, "0A"),
        ("Ed25519_Sig", M::Ed25519_Sig, "0B"), ("ECDSA_256k1_Sig", M::ECDSA_256k1_Sig, "0C"),
        ("Blake3_512", M::Blake3_512, "0D"), ("Blake2b_512", M::Blake2b_512, "0E"), ("SHA3_512", M::SHA3_512, "0F"),
        ("SHA2_512", M::SHA2_512, "0G"), ("Long", M::Long, "0H"), ("ECDSA_256r1_Sig", M::ECDSA_256r1_Sig, "0I"),
        ("ECDSA_256k1N", M::ECDSA_256k1N, "1AAA"), ("ECDSA_256k1", M::ECDSA_256k1, "1AAB"),
        ("Ed448N", M::Ed448N, "1AAC"), ("Ed448", M::Ed448, "1AAD"), ("Ed448_Sig", M::Ed448_Sig, "1AAE"),
        ("Tern", M::Tern, "1AAF"), ("DateTime", M::DateTime, "1AAG"), ("X25519_Cipher_Salt", M::X25519_Cipher_Salt, "1AAH"),
        ("ECDSA_256r1N", M::ECDSA_256r1N, "1AAI"), ("ECDSA_256r1", M::ECDSA_256r1, "1AAJ"),
        ("StrB64_L0", M::StrB64_L0, "4A"), ("StrB64_L1", M::StrB64_L1, "5A"), ("StrB64_L2", M::StrB64_L2, "6A"),
        ("StrB64_Big_L0", M::StrB64_Big_L0, "7AAA"), ("StrB64_Big_L1", M::StrB64_Big_L1, "8AAA"), ("StrB64_Big_L2", M::StrB64_Big_L2, "9AAA"),
        ("Bytes_L0", M::Bytes_L0, "4B"), ("Bytes_L1", M::Bytes_L1, "5B"), ("Bytes_L2", M::Bytes_L2, "6B"),
        ("Bytes_Big_L0", M::Bytes_Big_L0, "7AAB"), ("Bytes_Big_L1", M::Bytes_Big_L1, "8AAB"), ("Bytes_Big_L2", M::Bytes_Big_L2, "9AAB"),
        ("indexer Ed25519", I::Ed25519, "A"), ("indexer Ed25519_Crt", I::Ed25519_Crt, "B"),
        ("indexer ECDSA_256k1", I::ECDSA_256k1, "C"), ("indexer ECDSA_256k1_Crt", I::ECDSA_256k1_Crt, "D"),
        ("indexer ECDSA_256r1", I::ECDSA_256r1, "E"), ("indexer ECDSA_256r1_Crt", I::ECDSA_256r1_Crt, "F"),
        ("indexer Ed448", I::Ed448, "0A"), ("indexer Ed448_Crt", I::Ed448_Crt, "0B"),
        ("indexer Ed25519_Big", I::Ed25519_Big, "2A"), ("indexer Ed25519_Big_Crt", I::Ed25519_Big_Crt, "2B"),
        ("indexer ECDSA_256k1_Big", I::ECDSA_256k1_Big, "2C"), ("indexer ECDSA_256k1_Big_Crt", I::ECDSA_256k1_Big_Crt, "2D"),
        ("indexer ECDSA_256r1_Big", I::ECDSA_256r1_Big, "2E"), ("indexer ECDSA_256r1_Big_Crt", I::ECDSA_256r1_Big_Crt, "2F"),
        ("indexer Ed448_Big", I::Ed448_Big, "3A"), ("indexer Ed448_Big_Crt", I::Ed448_Big_Crt, "3B"),
        ("counter ControllerIdxSigs", C::ControllerIdxSigs, "-A"), ("counter WitnessIdxSigs", C::WitnessIdxSigs, "-B"),
        ("counter NonTransReceiptCouples", C::NonTransReceiptCouples, "-C"),
        ("counter TransReceiptQuadruples", C::TransReceiptQuadruples, "-D"),
        ("counter FirstSeenReplayCouples", C::FirstSeenReplayCouples, "-E"),
        ("counter TransIdxSigGroups", C::TransIdxSigGroups, "-F"), ("counter SealSourceCouples", C::SealSourceCouples, "-G"),
        ("counter TransLastIdxSigGroups", C::TransLastIdxSigGroups, "-H"), ("counter SealSourceTriples", C::SealSourceTriples, "-I"),
        ("counter SadPathSig", C::SadPathSig, "-J"), ("counter SadPathSigGroup", C::SadPathSigGroup, "-K"),
        ("counter PathedMaterialQuadlets", C::PathedMaterialQuadlets, "-L"),
        ("counter AttachedMaterialQuadlets", C::AttachedMaterialQuadlets, "-V"),
        ("counter BigAttachedMaterialQuadlets", C::BigAttachedMaterialQuadlets, "-0V"),
        ("counter KERIProtocolStack", C::KERIProtocolStack, "--AAA"),
    ];
    for (n, got, want) in t {
        ctx.case(format!("code of {n}"), || {
            ensure!(got == want, "{got} instead of {want}");
            Ok(())
        });
    }
}

pub fn c07(ctx: &mut Ctx) {
    for t in types() {
        ctx.group(t.name);
        for m in MATTER {
            let lens: Vec<usize> = if m.fs != 0 { vec![mraw(m)] } else { vec![3 - m.ls, 30 - m.ls, 9 - m.ls, 12288 - m.ls, 300] };
            for n in lens {
                for raw in contents(ctx, n, true) {
                    let (c, s) = mcode(m.code, n).unwrap();
                    let text = mtext(&c, s, &raw).unwrap();
                    let bin = b64dec(&text).unwrap();
                    // the code the primitive will carry
                    let own = t.codes.contains(&c.as_str());
                    for g in [false, true] {
                        for i in [In::Raw(m.code, &raw), In::Text(&text), In::Tbytes(text.as_bytes()), In::Bin(&bin)] {
                            ctx.case(format!("{} {} general={g}", t.name, i.show()), || {
                                match (t.mk)(&i, g) {
                                    Ok(p) => {
                                        ensure!(t.codes.contains(&p.code.as_str()), "carries code {}", p.code);
                                        ensure!(own, "code {c} was accepted as {}", p.code);
                                        ensure!(p.code == c, "code {c} became {}", p.code);
                                    }
                                    Err(e) => ensure!(!own, "own code {c} is refused: {e}"),
                                }
                                Ok(())
                            });
                        }
                    }
                }
            }
        }
        // foreign codes with raw of another code's size
        for m in MATTER {
            for n in [0usize, 16, 32, 33, 64, 100] {
                let raw = vec![0x11u8; n];
                ctx.case(format!("{} code={} raw=[{n}]", t.name, m.code), || {
                    for g in [false, true] {
                        if let Ok(p) = (t.mk)(&In::Raw(m.code, &raw), g) {
                            ensure!(t.codes.contains(&p.code.as_str()), "carries code {}", p.code);
                        }
                    }
                    Ok(())
                });
            }
        }
    }
    ctx.group("a code next to text or binary of another code");
    cross(ctx);
    ctx.group("Siger");
    let its = itypes();
    for m in INDEXER {
        let own = SIGS.contains(&m.code);
        for index in [0u64, 1, 5, 63] {
            let raw = ctx.rng.bytes(iraw(m, index));
            let text = itext(m.code, index, if ICURRENT.contains(&m.code) || m.os == 0 { 0 } else { index % 64 }, &raw).unwrap();
            let bin = b64dec(&text).unwrap();
            for g in [false, true] {
                for i in [In::Raw(m.code, &raw), In::Text(&text), In::Tbytes(text.as_bytes()), In::Bin(&bin)] {
                    ctx.case(format!("Siger {} index={index} general={g}", i.show()), || {
                        match (its[1].mk)(&i, index as u32, None, g) {
                            Ok(p) => ensure!(own && p.code == m.code, "carries code {}", p.code),
                            Err(e) => ensure!(!own, "own code is refused: {e}"),
                        }
                        Ok(())
                    });
                }
            }
        }
    }
}

fn cross(ctx: &mut Ctx) {
    use cesride::{Bexter, Cigar, Dater, Diger, Matter, Number, Pather, Prefixer, Saider, Salter, Seqner, Signer, Verfer};
    // constructors that take a code together with qualified material: the material's code decides
    macro_rules! x {
        ($name:expr, $codes:expr, |$c:ident, $tb:ident, $tx:ident, $b:ident| $e:expr) => {
            for mc in $codes.iter().map(|s: &&str| Some(*s)).chain([None]) {
                for m in MATTER {
                    let n = if m.fs != 0 { mraw(m) } else { 30 - m.ls };
                    let raw = vec![0x11u8; n];
                    let (c, s) = mcode(m.code, n).unwrap();
                    let text = mtext(&c, s, &raw).unwrap();
                    let bin = b64dec(&text).unwrap();
                    for k in 0..3 {
                        ctx.case(format!("{} code={mc:?} with {text} (route {k})", $name), || {
                            let $c: Option<&str> = mc;
                            let $tb = if k == 0 { Some(text.as_bytes()) } else { None };
                            let $tx = if k == 1 { Some(text.as_str()) } else { None };
                            let $b = if k == 2 { Some(&bin[..]) } else { None };
                            if let Ok(m) = $e {
                                let got = m.code();
                                ensure!($codes.contains(&got.as_str()), "carries code {got}");
                                ensure!(es(m.qb64()).as_ref() == Ok(&text), "material became {:?}", es(m.qb64()));
                            }
                            Ok(())
                        });
                    }
                }
            }
        };
    }
    x!("Verfer", KEYS, |c, tb, tx, b| Verfer::new(c, None, tb, tx, b));
    x!("Diger", DIGS, |c, tb, tx, b| Diger::new(None, c, None, tb, tx, b));
    x!("Signer", &["A", "J", "Q"], |c, tb, tx, b| Signer::new(None, c, None, tb, tx, b));
    x!("Cigar", &["0B", "0C", "0I"], |c, tb, tx, b| Cigar::new(None, c, None, tb, tx, b));
    x!("Saider", DIGS, |c, tb, tx, b| Saider::new(None, None, None, None, c, None, tb, tx, b));
    x!("Seqner", &["0A"], |c, tb, tx, b| Seqner::new(None, None, c, None, tb, tx, b));
    x!("Dater", &["1AAG"], |c, tb, tx, b| Dater::new(None, c, None, tb, tx, b));
    x!("Bexter", STRS, |c, tb, tx, b| Bexter::new(None, c, None, tb, tx, b));
    x!("Pather", STRS, |c, tb, tx, b| Pather::new(None, None, c, None, tb, tx, b));
    x!("Prefixer", &["B", "1AAA", "1AAI", "D", "1AAB", "1AAJ", "E", "0D", "F", "0E", "G", "H", "0F", "I", "0G"],
        |c, tb, tx, b| Prefixer::new(None, None, c, None, tb, tx, b));
    x!("Number", &["M", "0H", "N", "0A"], |c, tb, tx, b| Number::new(None, None, c, None, tb, tx, b));
    x!("Salter", &["0A"], |c, tb, tx, b| Salter::new(None, c, None, tb, tx, b));
    // content constructors with a foreign code
    for m in MATTER {
        let code = Some(m.code);
        ctx.case(format!("content constructors with code {}", m.code), || {
            let chk = |n: &str, codes: &[&str], r: cesride::Result<String>| -> Result<(), String> {
                if let Ok(c) = r {
                    ensure!(codes.contains(&c.as_str()), "{n} carries code {c}");
                }
                Ok(())
            };
            chk("Diger", DIGS, Diger::new_with_ser(b"abc", code).map(|x| x.code()))?;
            chk("Seqner", &["0A"], Seqner::new(Some(5), None, code, None, None, None, None).map(|x| x.code()))?;
            chk("Number", &["M", "0H", "N", "0A"], Number::new(Some(5), None, code, None, None, None, None).map(|x| x.code()))?;
            chk("Dater", &["1AAG"], Dater::new_with_dts("2020-08-22T17:50:09.988921+00:00", code).map(|x| x.code()))?;
            chk("Dater", &["1AAG"], Dater::new(None, code, None, None, None, None).map(|x| x.code()))?;
            chk("Bexter", STRS, Bexter::new(Some("abcd"), code, None, None, None, None).map(|x| x.code()))?;
            chk("Pather", STRS, Pather::new(None, Some("-abc"), code, None, None, None, None).map(|x| x.code()))?;
            chk("Signer", &["A", "J", "Q"], Signer::new_with_defaults(None, code).map(|x| x.code()))?;
            chk("Salter", &["0A"], Salter::new(None, code, None, None, None, None).map(|x| x.code()))?;
            Ok(())
        });
    }
}

pub fn c08(ctx: &mut Ctx) {
    let its = itypes();
    ctx.group("round trips");
    for m in INDEXER {
        let ms = m.ss - m.os;
        let top = 64u64.pow(ms as u32) - 1;
        let otop = 64u64.pow(m.os as u32) - 1;
        let mut pairs: Vec<(u64, u64)> = vec![];
        let edges = |top: u64| -> Vec<u64> {
            let mut v: Vec<u64> = (0..70).collect();
            for e in [255, 256, 4094, 4095, 4096, 4097, 65535, 65536, 262142, 262143, top] {
                v.push(e)
            }
            v.retain(|x| *x <= top);
            v.dedup();
            v
        };
        for a in edges(if m.fs == 0 { top.min(300) } else { top }) {
            pairs.push((a, a.min(otop)));
            if m.os > 0 && !ICURRENT.contains(&m.code) {
                for b in [0, 1, 62, 63, 64, 4095, otop, otop / 2] {
                    if b <= otop {
                        pairs.push((a, b))
                    }
                }
            }
        }
        for _ in 0..ctx.n(150) {
            pairs.push((ctx.int(if m.fs == 0 { 100 } else { top }), ctx.int(otop)));
        }
        for (a, b) in pairs {
            for k in 0..2 {
                let n = iraw(m, a);
                let raw = if k == 0 { ctx.rng.bytes(n) } else { vec![if a % 2 == 0 { 0 } else { 0xff }; n] };
                let cur = ICURRENT.contains(&m.code);
                let b = if cur { 0 } else if m.os == 0 { a } else { b };
                let given = if cur { None } else { Some(b as u32) };
                let text = itext(m.code, a, if m.os == 0 { 0 } else { b }, &raw).unwrap();
                let bin = b64dec(&text).unwrap();
                for t in its.iter().filter(|t| !t.siger || SIGS.contains(&m.code)) {
                    for g in [false, true] {
                        ctx.case(format!("{} code={} index={a} ondex={b} raw={} general={g}", t.name, m.code, hex(&raw)), || {
                            for i in [In::Raw(m.code, &raw), In::Text(&text), In::Tbytes(text.as_bytes()), In::Bin(&bin)] {
                                let p = es((t.mk)(&i, a as u32, given, g)).map_err(|e| format!("refused {}: {e}", i.show()))?;
                                ensure!(p.code == m.code && p.index as u64 == a && p.ondex as u64 == b && p.raw == raw,
                                    "{} gives {p:?}", i.show());
                                ensure!(p.qb64.as_ref() == Ok(&text) && p.qb64b == Ok(text.as_bytes().to_vec()), "text {:?} instead of {text}", p.qb64);
                                ensure!(p.qb2.as_ref() == Ok(&bin), "binary {:?} instead of {}", p.qb2, hex(&bin));
                                ensure!(p.full == Ok(text.len()), "full size {:?}", p.full);
                            }
                            Ok(())
                        });
                    }
                }
            }
        }
    }
    ctx.group("strict parsing");
    let mut texts = vec![];
    for s in itexts(ctx) {
        texts.extend(mutants(ctx, &s, ctx.thorough));
        let b = b64dec(&s).unwrap();
        for x in bmutants(ctx, &b, ctx.thorough) {
            ibin_strict(ctx, &its, &x)
        }
    }
    texts.extend(junk(ctx));
    for s in &texts {
        for t in &its {
            ctx.case(format!("{} qb64={}", t.name, short(s)), || {
                let want = iparse(s.as_bytes()).filter(|w| !t.siger || SIGS.contains(&w.code.as_str()));
                for i in [In::Text(s), In::Tbytes(s.as_bytes())] {
                    istrict((t.mk)(&i, 0, None, false), &want)?
                }
                Ok(())
            });
        }
    }
    for a in 0..=255u8 {
        for b in (0..=255u8).step_by(if ctx.thorough { 1 } else { 3 }) {
            for tail in [vec![0u8; 130], ctx.rng.bytes(130)] {
                let mut x = vec![a, b];
                x.extend(tail);
                ibin_strict(ctx, &its, &x);
            }
        }
    }
}
fn istrict(r: cesride::Result<IO>, want: &Option<IP>) -> Result<(), String> {
    match (r, want) {
        (Ok(p), Some(w)) => {
            ensure!(p.code == w.code && p.index as u64 == w.index && p.ondex as u64 == w.ondex && p.raw == w.raw, "parsed as {p:?} instead of {w:?}");
            let q = itext(&w.code, w.index, if idx(&w.code).unwrap().os == 0 { 0 } else { w.ondex }, &w.raw).ok_or("oracle")?;
            ensure!(p.qb64.as_ref() == Ok(&q), "qualifies as {:?} instead of {q}", p.qb64);
            ensure!(p.qb2 == Ok(b64dec(&q).unwrap()), "binary {:?}", p.qb2);
        }
        (Ok(p), None) => return Err(format!("accepted: {p:?}")),
        (Err(e), Some(w)) => return Err(format!("{w:?} refused: {e}")),
        _ => (),
    }
    Ok(())
}
fn ibin_strict(ctx: &mut Ctx, its: &[ITy], b: &[u8]) {
    for t in its {
        ctx.case(format!("{} qb2={}", t.name, hex(b)), || {
            let want = ibparse(b).filter(|w| !t.siger || SIGS.contains(&w.code.as_str()));
            istrict((t.mk)(&In::Bin(b), 0, None, false), &want)
        });
    }
}

pub fn c09(ctx: &mut Ctx) {
    let its = itypes();
    let mut edges: Vec<u64> = (0..4).collect();
    for k in 1..6u32 {
        for d in [-2i64, -1, 0, 1] {
            edges.push((64i64.pow(k) + d) as u64)
        }
    }
    for k in [5u32, 7, 8, 16, 31, 32] {
        for d in [-2i64, -1, 0, 1] {
            edges.push((2i64.pow(k) + d) as u64)
        }
    }
    for x in ctx.ints.clone() {
        for d in 0..3 {
            edges.push(x.saturating_add(d).saturating_sub(1))
        }
    }
    for _ in 0..ctx.n(20) {
        edges.push(ctx.int(u32::MAX as u64))
    }
    edges.retain(|x| *x <= u32::MAX as u64);
    edges.sort();
    edges.dedup();
    if !ctx.thorough && edges.len() > 160 {
        // keep the powers, thin out the rest
        let mut k = 0;
        let r = &mut ctx.rng;
        edges.retain(|x| {
            k += 1;
            let near = (0..33).any(|p| x.abs_diff(1u64 << p) <= 2);
            near || *x < 4 || r.chance(1, 3)
        });
    }
    for m in INDEXER {
        ctx.group(m.code);
        let ms = m.ss - m.os;
        let lim = 64u64.pow(ms as u32);
        let olim = 64u64.pow(m.os as u32);
        let (cur, both) = (ICURRENT.contains(&m.code), IBOTH.contains(&m.code));
        let mut given: Vec<Option<u64>> = vec![None];
        given.extend(edges.iter().map(|x| Some(*x)));
        for &a in &edges {
            if m.fs == 0 && a > 4200 {
                continue;
            }
            let raw = vec![0x77u8; if a < lim { iraw(m, a) } else { 96 }];
            for (k, &o) in given.iter().enumerate() {
                // all pairs are many: keep the diagonal, the edges and a share of the rest
                if let Some(b) = o {
                    let near = |x: u64| x < 2 || x.abs_diff(lim) <= 2 || x.abs_diff(olim) <= 2 || x.abs_diff(63) <= 1;
                    if a != b && !(near(a) || near(b)) && !ctx.thorough && k % 5 != 0 {
                        continue;
                    }
                }
                for t in its.iter().filter(|t| !t.siger || SIGS.contains(&m.code)) {
                    ctx.case(format!("{} code={} index={a} ondex={o:?}", t.name, m.code), || {
                        let fits = a < lim
                            && match o {
                                None => !(both && m.os > 0 && a >= olim),
                                Some(b) => {
                                    !cur && (m.os == 0 || b < olim) && (m.os > 0 || b == a)
                                }
                            };
                        let r = (t.mk)(&In::Raw(m.code, &raw), a as u32, o.map(|x| x as u32), k % 2 == 0);
                        match r {
                            Err(e) => ensure!(!fits, "refused although it fits: {e}"),
                            Ok(p) => {
                                // an ondex derived from the index is only found out when it is written
                                let derived = o.is_none() && both && m.os > 0 && a >= olim;
                                ensure!(fits || derived, "accepted although it does not fit: {p:?}");
                                ensure!(p.index as u64 == a, "index became {}", p.index);
                                let want = if cur { 0 } else { o.unwrap_or(if both { a } else { 0 }) };
                                ensure!(p.ondex as u64 == want, "other index is {}", p.ondex);
                                if derived {
                                    ensure!(p.qb64.is_err() && p.qb2.is_err(), "other index truncated to {:?}", p.qb64);
                                } else {
                                    let w = itext(m.code, a, if m.os == 0 { 0 } else { want }, &raw).ok_or("oracle")?;
                                    ensure!(p.qb64.as_ref() == Ok(&w), "text is {:?} instead of {w}", p.qb64);
                                    ensure!(p.qb2 == Ok(b64dec(&w).unwrap()), "binary differs");
                                }
                            }
                        }
                        Ok(())
                    });
                }
            }
        }
        // parsing: a current-list-only code with an other index field must have it zero
        if m.os > 0 {
            for b in 0..64u64 {
                for a in [0u64, 1, b] {
                    let raw = vec![0x77u8; iraw(m, a)];
                    let text = itext(m.code, a, b, &raw).unwrap();
                    let bin = b64dec(&text).unwrap();
                    for t in its.iter().filter(|t| !t.siger || SIGS.contains(&m.code)) {
                        for i in [In::Text(&text), In::Tbytes(text.as_bytes()), In::Bin(&bin)] {
                            ctx.case(format!("{} {}", t.name, i.show()), || {
                                match (t.mk)(&i, 0, None, false) {
                                    Ok(p) => {
                                        ensure!(!cur || b == 0, "current-list-only code carries other index {b}");
                                        ensure!(p.index as u64 == a && p.ondex as u64 == b, "parsed as {p:?}");
                                    }
                                    Err(e) => ensure!(cur && b != 0, "refused: {e}"),
                                }
                                Ok(())
                            });
                        }
                    }
                }
            }
        } else {
            for a in 0..64u64.min(lim) {
                let raw = vec![0x77u8; iraw(m, a)];
                let text = itext(m.code, a, 0, &raw).unwrap();
                let bin = b64dec(&text).unwrap();
                ctx.case(format!("parse {text}"), || {
                    for i in [In::Text(&text), In::Bin(&bin)] {
                        let p = es((its[0].mk)(&i, 0, None, false))?;
                        ensure!(p.index as u64 == a && p.ondex as u64 == if cur { 0 } else { a }, "parsed as {p:?}");
                    }
                    Ok(())
                });
            }
        }
    }
}

pub fn c10(ctx: &mut Ctx) {
    use cesride::Counter;
    for (c, ss) in COUNTER {
        ctx.group(c);
        let lim = 64u64.pow(*ss as u32);
        let mut ns: Vec<u64> = (0..300).collect();
        for k in 1..33 {
            for d in [-2i64, -1, 0, 1] {
                ns.push(((1i64 << k) + d).max(0) as u64)
            }
        }
        for x in ctx.ints.clone() {
            for d in 0..3 {
                ns.push(x.saturating_add(d).saturating_sub(1))
            }
        }
        for _ in 0..ctx.n(300) {
            ns.push(ctx.int(u32::MAX as u64))
        }
        if *ss == 2 {
            ns.extend(0..4100)
        }
        ns.retain(|x| *x <= u32::MAX as u64);
        ns.sort();
        ns.dedup();
        for n in ns {
            for g in [false, true] {
                ctx.case(format!("Counter code={c} count={n} general={g}"), || {
                    let r = cmk(&In::Raw(c, &[]), n as u32, g);
                    if n >= lim {
                        ensure!(r.is_err(), "count does not fit but is accepted");
                        return Ok(());
                    }
                    let text = format!("{c}{}", digits(n, *ss));
                    let bin = b64dec(&text).unwrap();
                    let p = es(r)?;
                    ensure!(p.code == *c && p.count as u64 == n, "{p:?}");
                    ensure!(p.qb64.as_ref() == Ok(&text), "text {:?} instead of {text}", p.qb64);
                    ensure!(p.qb64b == Ok(text.as_bytes().to_vec()), "text bytes {:?}", p.qb64b);
                    ensure!(p.qb2.as_ref() == Ok(&bin), "binary {:?} instead of {}", p.qb2, hex(&bin));
                    for i in [In::Text(&text), In::Tbytes(text.as_bytes()), In::Bin(&bin)] {
                        let p2 = es(cmk(&i, 0, g)).map_err(|e| format!("refused {}: {e}", i.show()))?;
                        ensure!(p2 == p, "{} parses as {p2:?}", i.show());
                    }
                    let q = es(Counter::new(Some(n as u32), None, Some(c), None, None, None))?;
                    ensure!(es(q.count_as_b64(0)).as_deref() == Ok(&text[c.len()..]), "count_as_b64 {:?}", es(q.count_as_b64(0)));
                    Ok(())
                });
            }
        }
        for len in 0..12usize {
            for k in 0..14 {
                let v: u128 = match k {
                    0 => 0,
                    1 => 1,
                    2 => 64u128.pow(len as u32) - 1,
                    3 => (lim as u128).saturating_sub(1),
                    4 => lim as u128,
                    5 => u32::MAX as u128,
                    6 => 1 << 32,
                    7 => (1 << 32) + 1,
                    8 => 1 << 36,
                    9 => 1u128 << 60,
                    10 => (1u128 << 64) + 5,
                    _ => ctx.rng.u64() as u128,
                } % 64u128.pow(len as u32).max(1);
                let mut t = String::new();
                for j in (0..len).rev() {
                    t.push(ch(((v >> (6 * j)) & 63) as u32))
                }
                ctx.case(format!("Counter code={c} count_b64={t:?}"), || {
                    match Counter::new(None, Some(&t), Some(c), None, None, None) {
                        Ok(x) => ensure!(v < lim as u128 && x.count() as u128 == v && x.code() == *c, "count {v} became {}", x.count()),
                        Err(e) => ensure!(v >= lim as u128, "count {v} refused: {e}"),
                    }
                    Ok(())
                });
            }
        }
        for t in ["=", "A=", "+", "é", "A B", "A€", "A/"] {
            ctx.case(format!("Counter code={c} count_b64={t:?}"), || {
                ensure!(Counter::new(None, Some(t), Some(c), None, None, None).is_err(), "accepted");
                Ok(())
            });
        }
    }
    ctx.group("foreign text");
    for s in junk(ctx) {
        ctx.case(format!("Counter qb64={}", short(&s)), || {
            let want = cparse(s.as_bytes());
            let got = cmk(&In::Text(&s), 0, false).ok().map(|p| (p.code, p.count as u64, p.full.unwrap_or(0)));
            ensure!(got == want, "parsed as {got:?}, expected {want:?}");
            let want = cbparse(s.as_bytes());
            let got = cmk(&In::Bin(s.as_bytes()), 0, false).ok().map(|p| (p.code, p.count as u64, p.full.unwrap_or(0)));
            ensure!(got == want, "binary parsed as {got:?}, expected {want:?}");
            Ok(())
        });
    }
    ctx.group("semantic versions");
    let mut parts: Vec<u64> = (0..70).collect();
    parts.extend([100, 126, 127, 128, 129, 255, 256, 257, 300, 319, 320, 1000, 65536, 65600, 4294967296, 4294967297]);
    let step = if ctx.thorough { 1 } else { 3 };
    for &a in &parts {
        for &b in parts.iter().step_by(step) {
            for &c in parts.iter().step_by(step) {
                if a > 3 && b > 3 && c > 3 && a < 60 && b < 60 && c < 60 && (a + b + c) % 5 != 0 {
                    continue;
                }
                ctx.case(format!("version {a}.{b}.{c}"), || {
                    let want = if a < 64 && b < 64 && c < 64 {
                        Some(format!("{}{}{}", ch(a as u32), ch(b as u32), ch(c as u32)))
                    } else {
                        None
                    };
                    let got = Counter::sem_ver_str_to_b64(&format!("{a}.{b}.{c}")).ok();
                    ensure!(got == want, "{got:?} instead of {want:?}");
                    if a < 256 && b < 256 && c < 256 {
                        let got = Counter::sem_ver_to_b64(a as u8, b as u8, c as u8).ok();
                        ensure!(got == want, "from parts: {got:?} instead of {want:?}");
                    }
                    Ok(())
                });
            }
        }
    }
    for (v, want) in [
        ("1.2", Some("BCA")), ("5", Some("FAA")), ("1.2.3.4", None), ("a.b.c", None), ("-1.0.0", None), ("1.-2.0", None),
        ("1..3", Some("BAD")), ("", Some("AAA")), ("..", Some("AAA")), ("...", None), ("1.2.3 ", None), ("1,2,3", None),
        ("0x1.0.0", None), ("1.2.3-rc1", None), ("é.1.1", None), ("64", None), ("63", Some("_AA")), ("1.2.é", None),
    ] {
        ctx.case(format!("version {v:?}"), || {
            let got = Counter::sem_ver_str_to_b64(v).ok();
            ensure!(got.as_deref() == want, "{got:?} instead of {want:?}");
            Ok(())
        });
    }
}
