//! C15-C17: digests, signatures, key stretching.
use crate::cesr::*;
use crate::ctx::*;
use crate::p_prim::ensure;
use crate::types::{es, DIGS, R};
use blake2::digest::{consts::U32, Digest};
use cesride::{Cigar, Diger, Indexer, Matter, Salter, Siger, Signer, Verfer};

/// the algorithm each digest code names
pub fn hash(code: &str, d: &[u8]) -> Vec<u8> {
    match code {
        "E" => blake3::hash(d).as_bytes().to_vec(),
        "0D" => {
            let mut o = vec![0; 64];
            let mut h = blake3::Hasher::new();
            h.update(d);
            h.finalize_xof().fill(&mut o);
            o
        }
        "F" => blake2::Blake2b::<U32>::digest(d).to_vec(),
        "G" => blake2::Blake2s256::digest(d).to_vec(),
        "0E" => blake2::Blake2b512::digest(d).to_vec(),
        "H" => sha3::Sha3_256::digest(d).to_vec(),
        "0F" => sha3::Sha3_512::digest(d).to_vec(),
        "I" => sha2::Sha256::digest(d).to_vec(),
        "0G" => sha2::Sha512::digest(d).to_vec(),
        _ => vec![],
    }
}

fn datas(ctx: &mut Ctx, n: usize) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![vec![]];
    for k in (0..70).chain([100, 127, 128, 129, 135, 136, 137, 143, 144, 255, 256, 1023, 1024, 1025, 2048, 5000, 70000]) {
        v.push(ctx.rng.bytes(k))
    }
    for s in ctx.strs.clone().iter().take(400) {
        v.push(s.as_bytes().to_vec())
    }
    for _ in 0..n {
        let k = ctx.rng.below(600);
        v.push(ctx.rng.bytes(k))
    }
    v
}

pub fn c15(ctx: &mut Ctx) {
    ctx.group("digest and verification");
    let ds = datas(ctx, ctx.n(300));
    for d in &ds {
        for c in DIGS {
            let flip = (ctx.rng.below(64), 1u8 << ctx.rng.below(8));
            let other = ctx.rng.pick(DIGS).to_string();
            ctx.case(format!("{c} of {}", hex(d)), || {
                let want = hash(c, d);
                ensure!(want.len() == mraw(mat(c).ok_or("oracle")?), "oracle");
                for (how, g) in [("ser", Diger::new_with_ser(d, Some(c))), ("new", Diger::new(Some(d), Some(c), None, None, None, None))] {
                    let g = es(g)?;
                    ensure!(g.code() == *c && g.raw() == want, "{how}: {} {} instead of {}", g.code(), hex(&g.raw()), hex(&want));
                    ensure!(es(g.verify(d))?, "{how}: does not verify");
                }
                let g = es(Diger::new_with_raw(&want, Some(c)))?;
                ensure!(es(g.verify(d))?, "the digest does not verify");
                let mut bad = want.clone();
                let k = flip.0 % bad.len();
                bad[k] ^= flip.1;
                let b = es(Diger::new_with_raw(&bad, Some(c)))?;
                ensure!(!es(b.verify(d))?, "a digest changed at byte {k} verifies");
                let mut d2 = d.clone();
                if d2.is_empty() {
                    d2.push(0)
                } else {
                    let k = flip.0 % d2.len();
                    d2[k] ^= flip.1
                }
                ensure!(!es(g.verify(&d2))?, "verifies for other data");
                // another algorithm of the same size
                let o = hash(&other, d);
                if o.len() == want.len() && other != *c {
                    let x = es(Diger::new_with_raw(&o, Some(c)))?;
                    ensure!(!es(x.verify(d))?, "the digest of algorithm {other} verifies");
                }
                Ok(())
            });
        }
        ctx.case(format!("default digest of {}", hex(d)), || {
            let g = es(Diger::new_with_ser(d, None))?;
            ensure!(g.code() == "E" && g.raw() == hash("E", d), "{} {}", g.code(), hex(&g.raw()));
            Ok(())
        });
    }
    ctx.group("comparison");
    for d in ds.iter().take(if ctx.thorough { 400 } else { 60 }) {
        for a in DIGS {
            for b in DIGS {
                for k in 0..4 {
                    // k bit 0: the first is wrong, bit 1: the second is wrong
                    let at = ctx.rng.below(32);
                    let (mut x, mut y) = (hash(a, d), hash(b, d));
                    if k & 1 != 0 {
                        x[at] ^= 0x10
                    }
                    if k & 2 != 0 {
                        y[at] ^= 0x10
                    }
                    ctx.case(format!("{a} {} against {b} {} for {}", hex(&x), hex(&y), hex(d)), || {
                        let want = (a == b && x == y) || (a != b && k == 0);
                        let (p, q) = (es(Diger::new_with_raw(&x, Some(a)))?, es(Diger::new_with_raw(&y, Some(b)))?);
                        ensure!(es(p.compare(d, None, Some(&q)))? == want, "diger: {}", !want);
                        let t = es(q.qb64b())?;
                        ensure!(es(p.compare(d, Some(&t), None))? == want, "dig: {}", !want);
                        ensure!(p.compare(d, None, None).is_err(), "nothing to compare is not an error");
                        Ok(())
                    });
                }
            }
        }
    }
    ctx.group("codes that are not digests");
    for m in MATTER {
        if !DIGS.contains(&m.code) {
            ctx.case(format!("digest code {}", m.code), || {
                ensure!(Diger::new_with_ser(b"abc", Some(m.code)).is_err(), "accepted");
                Ok(())
            });
        }
    }
}

pub fn public(code: &str, seed: &[u8]) -> Option<Vec<u8>> {
    match code {
        "A" => {
            let k = ed25519_dalek::SigningKey::from_bytes(seed.try_into().ok()?);
            Some(k.verifying_key().as_bytes().to_vec())
        }
        "J" => {
            let k = k256::ecdsa::SigningKey::from_slice(seed).ok()?;
            Some(k.verifying_key().to_encoded_point(true).as_bytes().to_vec())
        }
        "Q" => {
            let k = p256::ecdsa::SigningKey::from_slice(seed).ok()?;
            Some(k.verifying_key().to_encoded_point(true).as_bytes().to_vec())
        }
        _ => None,
    }
}
pub fn valid(code: &str, key: &[u8], sig: &[u8], ser: &[u8]) -> bool {
    match code {
        "A" => {
            use ed25519_dalek::Verifier;
            let (Ok(k), Ok(s)) = (<[u8; 32]>::try_from(key), <[u8; 64]>::try_from(sig)) else { return false };
            match ed25519_dalek::VerifyingKey::from_bytes(&k) {
                Ok(k) => k.verify(ser, &ed25519_dalek::Signature::from_bytes(&s)).is_ok(),
                _ => false,
            }
        }
        "J" => {
            use k256::ecdsa::signature::Verifier;
            match (k256::ecdsa::VerifyingKey::from_sec1_bytes(key), k256::ecdsa::Signature::try_from(sig)) {
                (Ok(k), Ok(s)) => k.verify(ser, &s).is_ok(),
                _ => false,
            }
        }
        _ => {
            use p256::ecdsa::signature::Verifier;
            match (p256::ecdsa::VerifyingKey::from_sec1_bytes(key), p256::ecdsa::Signature::try_from(sig)) {
                (Ok(k), Ok(s)) => k.verify(ser, &s).is_ok(),
                _ => false,
            }
        }
    }
}
/// seed code, verification key codes (transferable, not), signature code, indexed codes
/// (both, big both, current, big current)
const ALGS: &[(&str, &str, &str, &str, [&str; 4])] = &[
    ("A", "D", "B", "0B", ["A", "2A", "B", "2B"]),
    ("J", "1AAB", "1AAA", "0C", ["C", "2C", "D", "2D"]),
    ("Q", "1AAJ", "1AAI", "0I", ["E", "2E", "F", "2F"]),
];
fn truth(r: cesride::Result<bool>) -> bool {
    r.unwrap_or(false)
}

pub fn c16(ctx: &mut Ctx) {
    let mut edge: Vec<u64> = vec![];
    for k in [0u64, 1, 31, 32, 62, 63, 64, 65, 100, 127, 128, 255, 256, 1000, 2047, 2048, 4032, 4094, 4095, 4096, 4097, 65535, 65536, 262143, 16777216, 1073741823, 1073741824, 4294967295] {
        edge.push(k)
    }
    for x in ctx.ints.clone() {
        if x < 5000 {
            edge.push(x)
        }
    }
    edge.sort();
    edge.dedup();
    for alg in ALGS {
        let (sc, kt, kn, uc, ic) = *alg;
        ctx.group(sc);
        let mut seeds: Vec<Vec<u8>> = vec![vec![1; 32], (0..32).collect(), vec![0x7f; 32]];
        for _ in 0..ctx.n(12) {
            seeds.push(ctx.rng.bytes(32))
        }
        let mut k = 0usize;
        for seed in &seeds {
            for transferable in [Some(true), Some(false), None] {
                k += 1;
                let ser = { let n = [0usize, 1, 5, 64, 300, 2000][k % 6]; ctx.rng.bytes(n) };
                let kc = if transferable == Some(false) { kn } else { kt };
                ctx.case(format!("seed {sc} {} transferable={transferable:?} data {}", hex(seed), hex(&ser)), || {
                    let text = mtext(sc, 0, seed).ok_or("oracle")?;
                    let bin = b64dec(&text).ok_or("oracle")?;
                    let key = public(sc, seed).ok_or("oracle")?;
                    for (how, s) in [
                        ("raw", Signer::new_with_raw(seed, transferable, Some(sc))),
                        ("text", Signer::new_with_qb64(&text, transferable)),
                        ("text bytes", Signer::new_with_qb64b(text.as_bytes(), transferable)),
                        ("binary", Signer::new_with_qb2(&bin, transferable)),
                        ("new", Signer::new(transferable, Some(sc), Some(seed), None, None, None)),
                    ] {
                        let s = es(s).map_err(|e| format!("{how}: {e}"))?;
                        let v = s.verfer();
                        ensure!(v.code() == kc && v.raw() == key, "{how}: key {} {} instead of {kc} {}", v.code(), hex(&v.raw()), hex(&key));
                        ensure!(s.code() == sc && s.raw() == *seed, "{how}: seed changed");
                        let c = es(s.sign_unindexed(&ser))?;
                        ensure!(c.code() == uc, "{how}: signature code {}", c.code());
                        ensure!(c.verfer() == v, "{how}: attached key differs");
                        ensure!(valid(sc, &key, &c.raw(), &ser), "{how}: the signature is not valid");
                        ensure!(es(c.verfer().verify(&c.raw(), &ser))?, "{how}: the attached key rejects it");
                        for (form, c2) in [
                            ("text", Cigar::new_with_qb64(&es(c.qb64())?, Some(&v))),
                            ("text bytes", Cigar::new_with_qb64b(&es(c.qb64b())?, Some(&v))),
                            ("binary", Cigar::new_with_qb2(&es(c.qb2())?, Some(&v))),
                            ("raw", Cigar::new_with_raw(&c.raw(), Some(&v), Some(uc))),
                        ] {
                            let c2 = es(c2).map_err(|e| format!("{form}: {e}"))?;
                            ensure!(c2.verfer() == v && c2.raw() == c.raw() && c2.code() == uc, "{how}: the signature read from {form} differs");
                        }
                    }
                    Ok(())
                });
                // forged signatures and other data
                let at = (ctx.rng.below(64), 1u8 << ctx.rng.below(8), ctx.rng.below(ser.len().max(1)));
                let other = ctx.rng.bytes(32);
                ctx.case(format!("forgery at {at:?} with seed {sc} {}", hex(seed)), || {
                    let s = es(Signer::new_with_raw(seed, transferable, Some(sc)))?;
                    let v = s.verfer();
                    let c = es(s.sign_unindexed(&ser))?;
                    let mut bad = c.raw();
                    bad[at.0] ^= at.1;
                    ensure!(truth(v.verify(&bad, &ser)) == valid(sc, &v.raw(), &bad, &ser), "changed signature");
                    let mut d = ser.clone();
                    if d.is_empty() { d.push(1) } else { d[at.2] ^= at.1 }
                    ensure!(!truth(v.verify(&c.raw(), &d)), "other data is accepted");
                    if public(sc, &other).is_some() {
                        let o = es(Signer::new_with_raw(&other, transferable, Some(sc)))?;
                        ensure!(!truth(o.verfer().verify(&c.raw(), &ser)), "another key accepts it");
                    }
                    for (sc2, kt2, kn2, ..) in ALGS {
                        if *sc2 != sc {
                            for kc2 in [kt2, kn2] {
                                if let Some(k2) = public(sc2, seed) {
                                    let v2 = es(Verfer::new_with_raw(&k2, Some(kc2)))?;
                                    ensure!(truth(v2.verify(&c.raw(), &ser)) == valid(sc2, &k2, &c.raw(), &ser), "key {kc2} judges by another algorithm");
                                }
                            }
                        }
                    }
                    ensure!(!truth(v.verify(&c.raw()[..63], &ser)) && !truth(v.verify(&[], &ser)), "truncated signature accepted");
                    Ok(())
                });
            }
        }
        ctx.group(&format!("{sc} indexed"));
        let mut pairs: Vec<(u64, Option<u64>, bool)> = vec![];
        for &a in &edge {
            for only in [false, true] {
                pairs.push((a, None, only));
                pairs.push((a, Some(a), only));
                for b in [0u64, 1, 63, 64, 65, 4095, 4096] {
                    pairs.push((a, Some(b), only))
                }
            }
        }
        for _ in 0..ctx.n(60) {
            let o = if ctx.rng.chance(1, 2) { Some(ctx.int(5000)) } else { None };
            pairs.push((ctx.int(5000), o, ctx.rng.chance(1, 2)))
        }
        let seed = ctx.rng.bytes(32);
        if public(sc, &seed).is_none() {
            continue;
        }
        let s = Signer::new_with_raw(&seed, Some(true), Some(sc));
        let sn = Signer::new_with_raw(&seed, Some(false), Some(sc));
        for (i, (a, o, only)) in pairs.into_iter().enumerate() {
            let ser = ctx.rng.bytes(20);
            let s = if i % 5 == 4 { &sn } else { &s };
            ctx.case(format!("seed {sc} {} only={only} index={a} ondex={o:?}", hex(&seed)), || {
                let s = s.as_ref().map_err(|e| e.to_string())?;
                // (code, index, ondex)
                let want = if only {
                    if a < 64 { Some((ic[2], 0)) } else if a < 4096 { Some((ic[3], 0)) } else { None }
                } else {
                    let b = o.unwrap_or(a);
                    if a == b && a < 64 { Some((ic[0], b)) } else if a < 4096 && b < 4096 { Some((ic[1], b)) } else { None }
                };
                let r = es(s.sign_indexed(&ser, only, a as u32, o.map(|x| x as u32)));
                match want {
                    None => ensure!(r.is_err(), "indices do not fit but a signature is made"),
                    Some((c, b)) => {
                        let g = r?;
                        ensure!(g.code() == c, "code {} instead of {c}", g.code());
                        ensure!(g.index() as u64 == a && g.ondex() as u64 == b, "index {} ondex {}", g.index(), g.ondex());
                        ensure!(g.verfer() == s.verfer(), "attached key differs");
                        let key = public(sc, &seed).ok_or("oracle")?;
                        ensure!(valid(sc, &key, &g.raw(), &ser), "the signature is not valid");
                        ensure!(es(g.verfer().verify(&g.raw(), &ser))?, "the attached key rejects it");
                        let v = s.verfer();
                        for (form, g2) in [
                            ("text", Siger::new_with_qb64(&es(g.qb64())?, Some(&v))),
                            ("text bytes", Siger::new_with_qb64b(&es(g.qb64b())?, Some(&v))),
                            ("binary", Siger::new_with_qb2(&es(g.qb2())?, Some(&v))),
                            ("raw", Siger::new_with_raw(&g.raw(), Some(&v), Some(a as u32), if only { None } else { Some(b as u32) }, Some(c))),
                        ] {
                            let g2 = es(g2).map_err(|e| format!("{form}: {e}"))?;
                            ensure!(g2.code() == c && g2.index() as u64 == a && g2.ondex() as u64 == b && g2.raw() == g.raw() && g2.verfer() == v,
                                "read from {form} as {g2:?}");
                        }
                    }
                }
                Ok(())
            });
        }
    }
    ctx.group("seeds that are no keys");
    for (sc, ..) in &ALGS[1..] {
        for seed in [vec![0u8; 32], vec![0xff; 32]] {
            ctx.case(format!("seed {sc} {}", hex(&seed)), || {
                ensure!(Signer::new_with_raw(&seed, None, Some(sc)).is_err(), "accepted");
                ensure!(Signer::new_with_qb64(&mtext(sc, 0, &seed).unwrap(), None).is_err(), "accepted");
                Ok(())
            });
        }
    }
    ctx.group("generated seeds");
    for _ in 0..ctx.n(30) {
        for alg in ALGS {
            let (sc, kt, _, uc, _) = *alg;
            ctx.case(format!("generated {sc}"), || {
                let s = es(Signer::new_with_defaults(None, Some(sc)))?;
                let key = public(sc, &s.raw()).ok_or("seed is no key")?;
                ensure!(s.code() == sc && s.verfer().code() == kt && s.verfer().raw() == key, "wrong key");
                let c = es(s.sign_unindexed(b"abc"))?;
                ensure!(c.code() == uc && valid(sc, &key, &c.raw(), b"abc"), "bad signature");
                Ok(())
            });
        }
    }
}

fn argon(path: &[u8], salt: &[u8], n: usize, tier: &str) -> R<Vec<u8>> {
    let (m, t, p) = match tier {
        "min" => (8, 1, 1),
        "low" => (65536, 2, 1),
        "med" => (262144, 3, 1),
        "high" => (1048576, 4, 1),
        _ => return Err("no such tier".to_string()),
    };
    let a = argon2::Argon2::new(argon2::Algorithm::Argon2id, argon2::Version::V0x13,
        argon2::Params::new(m, t, p, Some(n)).map_err(|e| e.to_string())?);
    let mut o = vec![0; n];
    a.hash_password_into(path, salt, &mut o).map_err(|e| e.to_string())?;
    Ok(o)
}
fn salt(raw: &[u8], tier: Option<&str>) -> R<Salter> {
    es(Salter::new_with_raw(raw, Some("0A"), tier))
}

pub fn c17(ctx: &mut Ctx) {
    ctx.group("temporary stretches");
    let mut paths: Vec<String> = vec!["".into(), "0".into(), "a/b".into(), "é".into(), "01".into(), "x".repeat(200)];
    for s in ctx.strs.clone().into_iter().take(300) {
        paths.push(s)
    }
    for _ in 0..ctx.n(300) {
        paths.push(format!("{:x}", ctx.rng.u64() >> ctx.rng.below(64)))
    }
    for (i, p) in paths.iter().enumerate() {
        let raw = if i % 7 == 0 { vec![0; 16] } else { ctx.rng.bytes(16) };
        let size = *ctx.rng.pick(&[None, Some(4usize), Some(16), Some(31), Some(32), Some(33), Some(64), Some(100), Some(1000)]);
        let own = *ctx.rng.pick(&[None, Some("low"), Some("med"), Some("high"), Some("min")]);
        let req = *ctx.rng.pick(&[None, Some("low"), Some("med"), Some("high"), Some("nonsense")]);
        ctx.case(format!("salt {} tier={own:?} stretch size={size:?} path={p:?} tier={req:?} temp", hex(&raw)), || {
            let s = salt(&raw, own)?;
            ensure!(s.tier() == own.unwrap_or("low"), "tier is {}", s.tier());
            let want = argon(p.as_bytes(), &raw, size.unwrap_or(32), "min")?;
            let got = es(s.stretch(size, Some(p), req, Some(true)))?;
            ensure!(got == want, "{} instead of {}", hex(&got), hex(&want));
            let again = es(s.stretch(size, Some(p), None, Some(true)))?;
            ensure!(again == want, "differs on repetition");
            if p.is_empty() {
                ensure!(es(s.stretch(size, None, None, Some(true)))? == want, "no path differs from the empty path");
            }
            let text = es(s.qb64())?;
            let s2 = es(Salter::new_with_qb64(&text, own))?;
            ensure!(s2.tier() == s.tier() && es(s2.stretch(size, Some(p), req, Some(true)))? == want, "differs after text");
            let s3 = es(Salter::new_with_qb2(&es(s.qb2())?, own))?;
            ensure!(s3.tier() == s.tier() && es(s3.stretch(size, Some(p), req, Some(true)))? == want, "differs after binary");
            let s4 = es(Salter::new_with_qb64b(text.as_bytes(), own))?;
            ensure!(s4.tier() == s.tier() && es(s4.stretch(size, Some(p), req, Some(true)))? == want, "differs after text bytes");
            Ok(())
        });
    }
    ctx.group("tiers");
    let mut tiers: Vec<(Option<&str>, Option<&str>, Option<bool>)> = vec![
        (None, None, None),
        (Some("low"), None, Some(false)),
        (Some("med"), None, None),
        (Some("high"), Some("low"), Some(false)),
        (Some("low"), Some("med"), None),
        (Some("high"), Some("high"), Some(true)),
        (None, Some("nonsense"), None),
        (Some("nonsense"), None, None),
        (Some("low"), Some("min"), None),
    ];
    tiers.push((Some("high"), None, None));
    tiers.push((Some("low"), Some("high"), None));
    if ctx.thorough {
        for a in [None, Some("low"), Some("med"), Some("high"), Some("min")] {
            for b in [None, Some("low"), Some("med"), Some("high"), Some("min")] {
                for t in [None, Some(false), Some(true)] {
                    tiers.push((a, b, t))
                }
            }
        }
    }
    let fixed = ctx.rng.bytes(16);
    let mut memo: std::collections::HashMap<(&str, usize), R<Vec<u8>>> = Default::default();
    for (own, req, temp) in tiers {
        let size = 48;
        let tier = if temp == Some(true) { "min" } else { req.unwrap_or(own.unwrap_or("low")) };
        let want = memo.entry((tier, size)).or_insert_with(|| argon(b"0/x", &fixed, size, tier)).clone();
        ctx.case(format!("salt {} tier={own:?} stretch tier={req:?} temp={temp:?}", hex(&fixed)), || {
            let s = salt(&fixed, own)?;
            match (want, es(s.stretch(Some(size), Some("0/x"), req, temp))) {
                (Ok(w), g) => ensure!(g.as_ref() == Ok(&w), "{g:?} instead of {w:?}"),
                (Err(_), g) => ensure!(g.is_err(), "unknown tier is accepted"),
            }
            Ok(())
        });
    }
    ctx.group("signers");
    for k in 0..ctx.n(120) {
        let raw = ctx.rng.bytes(16);
        let (sc, kt, kn, ..) = ALGS[k % 3];
        let start = *ctx.rng.pick(&[None, Some(0usize), Some(1), Some(5), Some(9), Some(10), Some(15), Some(16), Some(250), Some(4095), Some(1 << 40)]);
        let count = *ctx.rng.pick(&[None, Some(0usize), Some(1), Some(2), Some(8), Some(20)]);
        let path = ctx.rng.pick(&[None, Some("".to_string()), Some("a".to_string()), Some("0/".to_string()), Some("é".to_string())]).clone();
        let tr = *ctx.rng.pick(&[None, Some(true), Some(false)]);
        let code = if sc == "A" && k % 2 == 0 { None } else { Some(sc) };
        ctx.case(format!("salt {} signers count={count:?} start={start:?} path={path:?} code={code:?} transferable={tr:?}", hex(&raw)), || {
            let s = salt(&raw, Some("high"))?;
            let v = es(s.signers(count, start, path.as_deref(), code, tr, Some("med"), Some(true)))?;
            ensure!(v.len() == count.unwrap_or(1), "{} signers", v.len());
            for (i, x) in v.iter().enumerate() {
                let p = format!("{}{:x}", path.clone().unwrap_or_default(), i + start.unwrap_or(0));
                let seed = argon(p.as_bytes(), &raw, 32, "min")?;
                ensure!(x.code() == sc && x.raw() == seed, "signer {i}: {} {} instead of {}", x.code(), hex(&x.raw()), hex(&seed));
                let one = es(s.signer(code, tr, Some(&p), Some("med"), Some(true)))?;
                ensure!(one.raw() == seed && one.code() == sc && one.verfer() == x.verfer(), "signer {i} differs from the signer of its path");
                ensure!(x.verfer().code() == if tr == Some(false) { kn } else { kt }, "signer {i}: key code {}", x.verfer().code());
                ensure!(Some(x.verfer().raw()) == public(sc, &seed), "signer {i}: key");
            }
            Ok(())
        });
    }
    let raw = fixed.clone();
    for (own, req) in [(None, None), (Some("med"), Some("low"))] {
        ctx.case(format!("signers of salt {} own tier {own:?} requested {req:?}", hex(&raw)), || {
            let s = salt(&raw, own)?;
            let tier = req.unwrap_or(own.unwrap_or("low"));
            let v = es(s.signers(Some(2), Some(15), Some("k"), None, None, req, None))?;
            for (i, p) in ["kf", "k10"].iter().enumerate() {
                ensure!(v[i].raw() == argon(p.as_bytes(), &raw, 32, tier)?, "signer {i} has another seed");
            }
            let one = es(s.signer(None, None, None, req, None))?;
            ensure!(one.raw() == argon(b"", &raw, 32, tier)?, "signer of no path");
            Ok(())
        });
    }
}

// ---------------------------------------------------------------- C27

/// every bit of the samples is set about half of the time, and no two bits go together
fn spread(v: &[Vec<u8>]) -> Result<(), String> {
    let n = v.len();
    let bits = v[0].len() * 8;
    // thirteen standard deviations
    let lim = 6.5 * (n as f64).sqrt();
    let col: Vec<Vec<u64>> = (0..bits)
        .map(|b| {
            let mut c = vec![0u64; (n + 63) / 64];
            for (i, s) in v.iter().enumerate() {
                if s[b / 8] >> (b % 8) & 1 == 1 {
                    c[i / 64] |= 1 << (i % 64);
                }
            }
            c
        })
        .collect();
    for a in 0..bits {
        let ones: u32 = col[a].iter().map(|x| x.count_ones()).sum();
        ensure!((ones as f64 - n as f64 / 2.0).abs() < lim, "bit {a} is set in {ones} of {n} samples");
        for b in 0..a {
            let diff: u32 = col[a].iter().zip(&col[b]).map(|(x, y)| (x ^ y).count_ones()).sum();
            ensure!((diff as f64 - n as f64 / 2.0).abs() < lim, "bits {b} and {a} differ in {diff} of {n} samples");
        }
    }
    Ok(())
}

pub fn c27(ctx: &mut Ctx) {
    let n = ctx.n(2000).min(40000);
    for code in [None, Some("A"), Some("J"), Some("Q")] {
        ctx.group("generated seeds");
        let c = code.unwrap_or("A");
        for t in [None, Some(true), Some(false)] {
            for via in [false, true] {
                ctx.case(format!("{n} seeds code={code:?} transferable={t:?} defaults={via}"), || {
                    let mut all = vec![];
                    for _ in 0..n {
                        let s = es(if via { Signer::new_with_defaults(t, code) } else { Signer::new(t, code, None, None, None, None) })?;
                        let raw = s.raw();
                        ensure!(s.code() == c && raw.len() == 32, "code {} with {} bytes", s.code(), raw.len());
                        all.push(raw);
                    }
                    for raw in all.iter().take(50) {
                        ensure!(public(c, raw).is_some(), "{} is no key", crate::ctx::hex(raw));
                    }
                    let mut d = all.clone();
                    d.sort();
                    d.dedup();
                    ensure!(d.len() == n, "{} different seeds of {n}", d.len());
                    spread(&all)
                });
            }
        }
    }
    ctx.group("generated salts");
    for tier in [None, Some("min"), Some("low"), Some("med"), Some("high")] {
        for via in [false, true] {
            ctx.case(format!("{n} salts tier={tier:?} defaults={via}"), || {
                let mut all = vec![];
                for _ in 0..n {
                    let s = es(if via { Salter::new_with_defaults(tier) } else { Salter::new(tier, None, None, None, None, None) })?;
                    ensure!(s.code() == "0A" && s.raw().len() == 16, "code {} with {} bytes", s.code(), s.raw().len());
                    all.push(s.raw());
                }
                let mut d = all.clone();
                d.sort();
                d.dedup();
                ensure!(d.len() == n, "{} different salts of {n}", d.len());
                spread(&all)
            });
        }
    }
}
