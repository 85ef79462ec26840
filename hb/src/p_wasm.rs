//! C29: the WebAssembly wrappers pass each call on to the library faithfully.
//! Every wrapper call is compared with the library call it stands for. Without a JavaScript
//! engine an error leaves the wrapper as a panic of the bindings: it is taken as the error it
//! reports, and lists of JavaScript values can be neither passed nor received.
use crate::cesr::*;
use crate::ctx::*;
use crate::p_doc;
use crate::p_num::u128s;
use crate::p_prim::{ensure, itexts, mtexts, mutants};
use crate::types::SIGS;
use cesride::data::Value;
use cesride::*;
use cesride_wasm as w;
use std::fmt::Debug;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// the wrapper's outcome
fn wo<T, E>(f: impl FnOnce() -> std::result::Result<T, E>) -> Option<T> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(Ok(x)) => Some(x),
        Ok(Err(e)) => {
            std::mem::forget(e);
            None
        }
        Err(_) => None,
    }
}
fn tot<T>(f: impl FnOnce() -> T) -> Option<T> {
    wo(|| Ok::<T, ()>(f()))
}
fn same<T: PartialEq + Debug>(what: &str, core: Option<T>, wrap: Option<T>) -> std::result::Result<(), String> {
    ensure!(core == wrap, "{what}: the library gives {core:?}, the wrapper {wrap:?}");
    Ok(())
}
fn u(x: u128) -> w::U128Wrapper {
    x.into()
}
fn jv(s: &str) -> w::ValueWrapper {
    w::ValueWrapper::new(s)
}
fn cv(s: &str) -> Value {
    let v: serde_json::Value = serde_json::from_str(s).unwrap();
    Value::from(&v)
}
fn json(v: &Value) -> Option<serde_json::Value> {
    serde_json::from_str(&v.to_json().ok()?).ok()
}
fn text(v: &w::ValueWrapper) -> Option<serde_json::Value> {
    serde_json::from_str(&v.value()).ok()
}

/// the arguments every constructor shares
#[derive(Debug, Clone, Default)]
struct A {
    code: Option<String>,
    raw: Option<Vec<u8>>,
    qb64b: Option<Vec<u8>>,
    qb64: Option<String>,
    qb2: Option<Vec<u8>>,
}
impl A {
    fn none(&self) -> bool {
        self.raw.is_none() && self.qb64b.is_none() && self.qb64.is_none() && self.qb2.is_none()
    }
}
fn args(ctx: &mut Ctx, texts: &[String], indexed: bool) -> A {
    let mut a = A::default();
    let n = match ctx.rng.below(8) {
        0 => 0,
        1 => 2,
        2 => 4,
        _ => 1,
    };
    for _ in 0..n {
        let t = ctx.rng.pick(texts).clone();
        let t = if ctx.rng.chance(1, 8) {
            let m = mutants(ctx, &t, false);
            ctx.rng.pick(&m).clone()
        } else {
            t
        };
        match ctx.rng.below(4) {
            0 => a.qb64 = Some(t),
            1 => a.qb64b = Some(t.into_bytes()),
            2 => a.qb2 = b64dec(&t),
            _ => {
                if indexed {
                    if let Some(p) = iparse(t.as_bytes()) {
                        a.code = Some(p.code.to_string());
                        a.raw = Some(p.raw)
                    }
                } else if let Some(p) = mparse(t.as_bytes()) {
                    a.code = Some(p.code.to_string());
                    a.raw = Some(p.raw)
                }
            }
        }
    }
    if ctx.rng.chance(1, 4) {
        a.code = match ctx.rng.below(4) {
            0 => None,
            1 => Some(ctx.rng.pick(&["", "é", "Z", "1AAZ", "zz"]).to_string()),
            _ if indexed => Some(ctx.rng.pick(SIGS).to_string()),
            _ => {
                let k = ctx.rng.below(MATTER.len());
                Some(MATTER[k].code.to_string())
            }
        }
    }
    a
}
fn ob(ctx: &mut Ctx) -> Option<bool> {
    *ctx.rng.pick(&[None, Some(false), Some(true)])
}

macro_rules! acc {
    ($w:expr) => {{
        let x = &$w;
        let d = (**x).clone();
        same("code", Some(d.code()), tot(|| x.code()))?;
        same("size", Some(d.size()), tot(|| x.size()))?;
        acc!(@ x, d);
    }};
    (@ $x:expr, $d:expr) => {{
        let (x, d) = (&$x, &$d);
        same("code", Some(d.code()), tot(|| x.code()))?;
        same("raw", Some(d.raw()), tot(|| x.raw()))?;
        same("qb64", d.qb64().ok(), wo(|| x.qb64()))?;
        same("qb64b", d.qb64b().ok(), wo(|| x.qb64b()))?;
        same("qb2", d.qb2().ok(), wo(|| x.qb2()))?;
    }};
}
/// a library call and a wrapper call that must make the same value
macro_rules! make {
    ($what:expr, $core:expr, $wrap:expr) => {
        make!($what, $core, $wrap, |x| acc!(x))
    };
    ($what:expr, $core:expr, $wrap:expr, |$x:ident| $more:expr) => {{
        let c = $core.ok();
        let x = wo(|| $wrap);
        same($what, c, x.as_ref().map(|x| (**x).clone()))?;
        if let Some($x) = x {
            $more;
        }
    }};
}

fn numeral(ctx: &mut Ctx, x: u128) -> String {
    match ctx.rng.below(5) {
        0 => format!("{x:X}"),
        1 => format!("{x:032x}"),
        2 => ctx.rng.pick(&["", "-1", "+1", "0x1", "1_0", "g", "é", "100000000000000000000000000000000"]).to_string(),
        _ => format!("{x:x}"),
    }
}

pub fn c29(ctx: &mut Ctx) {
    codexes(ctx);
    let mt = mtexts(ctx);
    let it = itexts(ctx);
    numbers(ctx, &mt);
    matters(ctx, &mt);
    signatures(ctx, &mt, &it);
    salts(ctx, &mt);
    tholders(ctx);
    documents(ctx, &mt);
}

fn codexes(ctx: &mut Ctx) {
    ctx.group("names of codes");
    macro_rules! names {
        ($e:ident, $f:ident, $($n:ident $c:expr),*) => {
            $(ctx.case(format!("{}::{}", stringify!($e), stringify!($n)), || {
                same("code", Some($c.to_string()), tot(|| w::$e::$n.code().to_string()))?;
                same("function", Some($c.to_string()), tot(|| w::$f(w::$e::$n)))
            });)*
        };
    }
    names!(CesrideMatterCodex, matter_codex_code,
        Ed25519Seed "A", Ed25519N "B", X25519 "C", Ed25519 "D", Blake3_256 "E", Blake2b_256 "F", Blake2s_256 "G",
        SHA3_256 "H", SHA2_256 "I", ECDSA_256k1_Seed "J", Ed448_Seed "K", X448 "L", Short "M", Big "N",
        X25519_Private "O", X25519_Cipher_Seed "P", Salt_128 "0A", Ed25519_Sig "0B", ECDSA_256k1_Sig "0C",
        Blake3_512 "0D", Blake2b_512 "0E", SHA3_512 "0F", SHA2_512 "0G", Long "0H", ECDSA_256k1N "1AAA",
        ECDSA_256k1 "1AAB", Ed448N "1AAC", Ed448 "1AAD", Ed448_Sig "1AAE", Tern "1AAF", DateTime "1AAG",
        X25519_Cipher_Salt "1AAH", TBD1 "2AAA", TBD2 "3AAA", StrB64_L0 "4A", StrB64_L1 "5A", StrB64_L2 "6A",
        StrB64_Big_L0 "7AAA", StrB64_Big_L1 "8AAA", StrB64_Big_L2 "9AAA", Bytes_L0 "4B", Bytes_L1 "5B",
        Bytes_L2 "6B", Bytes_Big_L0 "7AAB", Bytes_Big_L1 "8AAB", Bytes_Big_L2 "9AAB");
    names!(CesrideIndexerCodex, indexer_codex_code,
        Ed25519 "A", Ed25519_Crt "B", ECDSA_256k1 "C", ECDSA_256k1_Crt "D", Ed448 "0A", Ed448_Crt "0B",
        Ed25519_Big "2A", Ed25519_Big_Crt "2B", ECDSA_256k1_Big "2C", ECDSA_256k1_Big_Crt "2D", Ed448_Big "3A",
        Ed448_Big_Crt "3B", TBD0 "0z", TBD1 "1z", TBD4 "4z");
}

fn numbers(ctx: &mut Ctx, mt: &[String]) {
    ctx.group("numbers");
    let n = ctx.n(4000);
    let xs = u128s(ctx, n);
    let step = xs.len() / n + 1;
    for x in xs.into_iter().step_by(step) {
        let h = numeral(ctx, x);
        let mut a = args(ctx, mt, false);
        if ctx.rng.chance(1, 2) {
            a = A::default()
        }
        let ox = if ctx.rng.chance(1, 2) { Some(x) } else { None };
        let oh = if ctx.rng.chance(1, 2) { Some(h.clone()) } else { None };
        ctx.case(format!("{x:#x} {h:?} {ox:?} {oh:?} {a:?}"), || {
            macro_rules! both {
                ($t:ident, $wt:ident, $num:ident, $numh:ident, $wn:ident, $wh:ident) => {{
                    macro_rules! same_number {
                        ($what:expr, $c:expr, $w:expr) => {
                            make!($what, $c, $w, |y| {
                                acc!(y);
                                same("number", (*y).$num().ok(), wo(|| y.$num()).map(u128::from))?;
                                same("hexadecimal", (*y).$numh().ok(), wo(|| y.$numh()))?;
                            })
                        };
                    }
                    let a2 = a.clone();
                    let oh2 = oh.clone();
                    same_number!("new", $t::new(ox, oh.as_deref(), a.code.as_deref(), a.raw.as_deref(), a.qb64b.as_deref(), a.qb64.as_deref(), a.qb2.as_deref()),
                        w::$wt::new(ox.map(u), oh2, a2.code, a2.raw, a2.qb64b, a2.qb64, a2.qb2));
                    same_number!("from the number", $t::$wn(x), w::$wt::$wn(u(x)));
                    same_number!("from the numeral", $t::$wh(&h), w::$wt::$wh(&h));
                    if let Some(r) = &a.raw {
                        same_number!("new_with_raw", $t::new_with_raw(r, a.code.as_deref()), w::$wt::new_with_raw(r, a.code.clone()));
                    }
                    if let Some(t) = &a.qb64b {
                        same_number!("new_with_qb64b", $t::new_with_qb64b(t), w::$wt::new_with_qb64b(t));
                    }
                    if let Some(t) = &a.qb64 {
                        same_number!("new_with_qb64", $t::new_with_qb64(t), w::$wt::new_with_qb64(t));
                    }
                    if let Some(t) = &a.qb2 {
                        same_number!("new_with_qb2", $t::new_with_qb2(t), w::$wt::new_with_qb2(t));
                    }
                }};
            }
            both!(Number, NumberWrapper, num, numh, new_with_num, new_with_numh);
            both!(Seqner, SeqnerWrapper, sn, snh, new_with_sn, new_with_snh);
            Ok(())
        });
    }
}

/// the constructors from serialized material, without and with one more argument
macro_rules! routes {
    ($t:ident, $wt:ident, $a:expr, |$x:ident| $more:expr) => {
        routes!($t, $wt, $a, |$x| $more, , )
    };
    ($t:ident, $wt:ident, $a:expr, |$x:ident| $more:expr, $(| $e:expr)?, $(| $we:expr)?) => {{
        let a = &$a;
        if let Some(t) = &a.qb64b {
            make!("new_with_qb64b", $t::new_with_qb64b(t $(, $e)?), w::$wt::new_with_qb64b(t $(, $we)?), |$x| $more);
        }
        if let Some(t) = &a.qb64 {
            make!("new_with_qb64", $t::new_with_qb64(t $(, $e)?), w::$wt::new_with_qb64(t $(, $we)?), |$x| $more);
        }
        if let Some(t) = &a.qb2 {
            make!("new_with_qb2", $t::new_with_qb2(t $(, $e)?), w::$wt::new_with_qb2(t $(, $we)?), |$x| $more);
        }
    }};
}

fn matters(ctx: &mut Ctx, mt: &[String]) {
    ctx.group("digests, dates, texts, keys");
    let dates = ["2020-08-22T17:50:09.988921+00:00", "2020-08-22T17:50:09.988921Z", "2020-08-22T17:50:09.988921-01:00", "", "x", "2020-02-30T17:50:09.988921+00:00"];
    for _ in 0..ctx.n(4000) {
        if ctx.over() {
            break;
        }
        let a = args(ctx, mt, false);
        let d = ctx.rng.pick(&dates).to_string();
        let od = if ctx.rng.chance(1, 2) { Some(d.clone()) } else { None };
        let k = ctx.rng.below(60);
        let ser = ctx.rng.bytes(k);
        let oser = if ctx.rng.chance(1, 2) { Some(ser.clone()) } else { None };
        let b = match ctx.rng.below(4) {
            0 => ctx.rng.pick(&["", "A", "AA", "AAA", "+", "a=", "é", "-_"]).to_string(),
            _ => {
                let n = ctx.rng.below(40);
                digits(ctx.rng.u64(), 9) + &b64enc(&ctx.rng.bytes(n))
            }
        };
        let ob = if ctx.rng.chance(1, 2) { Some(b.clone()) } else { None };
        let dc = if ctx.rng.chance(2, 3) { Some(ctx.rng.pick(crate::types::DIGS).to_string()) } else { a.code.clone() };
        ctx.case(format!("{a:?} date {d:?} text {b:?} data {} {dc:?} {}{}{}", hex(&ser), od.is_some(), oser.is_some(), ob.is_some()), || {
            let (c, r, tb, tx, bi) = (a.code.as_deref(), a.raw.as_deref(), a.qb64b.as_deref(), a.qb64.as_deref(), a.qb2.as_deref());
            // dates
            macro_rules! dater {
                ($x:ident) => {{
                    acc!($x);
                    same("dts", (*$x).dts().ok(), wo(|| $x.dts()))?;
                    same("dtsb", (*$x).dtsb().ok(), wo(|| $x.dtsb()))?;
                }};
            }
            // with nothing given the time is now
            if !(od.is_none() && a.none()) {
                let z = a.clone();
                make!("Dater::new", Dater::new(od.as_deref(), c, r, tb, tx, bi), w::DaterWrapper::new(od.clone(), z.code, z.raw, z.qb64b, z.qb64, z.qb2), |x| dater!(x));
            }
            make!("Dater::new_with_dts", Dater::new_with_dts(&d, c), w::DaterWrapper::new_with_dts(&d, a.code.clone()), |x| dater!(x));
            if let Some(r) = r {
                make!("Dater::new_with_raw", Dater::new_with_raw(r, c), w::DaterWrapper::new_with_raw(r, a.code.clone()), |x| dater!(x));
            }
            routes!(Dater, DaterWrapper, a, |x| dater!(x));
            // base64 texts
            macro_rules! bexter {
                ($x:ident) => {{
                    acc!($x);
                    same("bext", (*$x).bext().ok(), wo(|| $x.bext()))?;
                }};
            }
            let z = a.clone();
            make!("Bexter::new", Bexter::new(ob.as_deref(), c, r, tb, tx, bi), w::BexterWrapper::new(ob.clone(), z.code, z.raw, z.qb64b, z.qb64, z.qb2), |x| bexter!(x));
            make!("Bexter::new_with_bext", Bexter::new_with_bext(&b), w::BexterWrapper::new_with_bext(&b), |x| bexter!(x));
            if let Some(r) = r {
                make!("Bexter::new_with_raw", Bexter::new_with_raw(r, c), w::BexterWrapper::new_with_raw(r, a.code.clone()), |x| bexter!(x));
            }
            routes!(Bexter, BexterWrapper, a, |x| bexter!(x));
            // digests
            let z = a.clone();
            make!("Diger::new", Diger::new(oser.as_deref(), c, r, tb, tx, bi), w::DigerWrapper::new(oser.clone(), z.code, z.raw, z.qb64b, z.qb64, z.qb2));
            if let Some(r) = r {
                make!("Diger::new_with_raw", Diger::new_with_raw(r, c), w::DigerWrapper::new_with_raw(r, a.code.clone()));
            }
            routes!(Diger, DigerWrapper, a, |x| acc!(x));
            make!("Diger::new_with_ser", Diger::new_with_ser(&ser, dc.as_deref()), w::DigerWrapper::new_with_ser(&ser, dc.clone()), |x| {
                acc!(x);
                let mut no = ser.clone();
                no.push(0);
                same("verify", (*x).verify(&ser).ok(), wo(|| x.verify(&ser)))?;
                same("verify", (*x).verify(&no).ok(), wo(|| x.verify(&no)))?;
                for o in [Diger::new_with_ser(&ser, None), Diger::new_with_ser(&ser, Some("0F")), Diger::new_with_ser(&no, None)] {
                    let o = o.map_err(|e| e.to_string())?;
                    let dig = o.qb64b().map_err(|e| e.to_string())?;
                    let y = <w::DigerWrapper as w::Wrap<Diger>>::wrap(&o);
                    for s in [&ser, &no] {
                        same("compare_dig", (*x).compare(s, Some(&dig), None).ok(), wo(|| x.compare_dig(s, &dig)))?;
                        same("compare_diger", (*x).compare(s, None, Some(&o)).ok(), wo(|| x.compare_diger(s, &y)))?;
                    }
                }
            });
            // keys
            let z = a.clone();
            make!("Verfer::new", Verfer::new(c, r, tb, tx, bi), w::VerferWrapper::new(z.code, z.raw, z.qb64b, z.qb64, z.qb2));
            if let Some(r) = r {
                make!("Verfer::new_with_raw", Verfer::new_with_raw(r, c), w::VerferWrapper::new_with_raw(r, a.code.clone()));
            }
            routes!(Verfer, VerferWrapper, a, |x| acc!(x));
            Ok(())
        });
    }
}

fn signatures(ctx: &mut Ctx, mt: &[String], it: &[String]) {
    ctx.group("signatures and seeds");
    for _ in 0..ctx.n(1200) {
        if ctx.over() {
            break;
        }
        let a = args(ctx, mt, false);
        let ia = args(ctx, it, true);
        let k = ctx.rng.below(60);
        let ser = ctx.rng.bytes(k);
        let sc = ctx.rng.pick(&["A", "J"]).to_string();
        let seed = ctx.rng.bytes(32);
        let tr = ob(ctx);
        let only = ctx.rng.chance(1, 2);
        let index = *ctx.rng.pick(&[0u32, 1, 2, 63, 64, 65, 4095, 4096]);
        let ondex = *ctx.rng.pick(&[None, Some(0u32), Some(1), Some(3), Some(63), Some(64), Some(4095), Some(4096)]);
        let oi = if ctx.rng.chance(3, 4) { Some(index) } else { None };
        let with = ctx.rng.chance(1, 2);
        ctx.case(format!("{a:?} {ia:?} seed {sc} {} {tr:?} data {} only {only} index {oi:?} {index} ondex {ondex:?} key {with}", hex(&seed), hex(&ser)), || {
            let (c, r, tb, tx, bi) = (a.code.as_deref(), a.raw.as_deref(), a.qb64b.as_deref(), a.qb64.as_deref(), a.qb2.as_deref());
            // without a seed the signer makes a random one
            if !a.none() {
                let z = a.clone();
                make!("Signer::new", Signer::new(tr, c, r, tb, tx, bi), w::SignerWrapper::new(tr, z.code, z.raw, z.qb64b, z.qb64, z.qb2));
            }
            if let Some(r) = r {
                make!("Signer::new_with_raw", Signer::new_with_raw(r, tr, c), w::SignerWrapper::new_with_raw(r, tr, a.code.clone()));
            }
            routes!(Signer, SignerWrapper, a, |x| acc!(x), | tr, | tr);
            let signer = Signer::new_with_raw(&seed, tr, Some(&sc)).map_err(|e| e.to_string())?;
            let ws = wo(|| w::SignerWrapper::new_with_raw(&seed, tr, Some(sc.clone()))).ok_or("Signer::new_with_raw: the wrapper fails")?;
            ensure!(*ws == signer, "Signer::new_with_raw: a different signer");
            acc!(ws);
            same("Signer::verfer", Some(signer.verfer()), tot(|| (*ws.verfer()).clone()))?;
            let cut = signer.sign_unindexed(&ser).ok();
            // an ECDSA signature differs every time: it has to verify
            let det = sc == "A";
            let sure = |raw: Vec<u8>| if det { (true, raw) } else { (signer.verfer().verify(&raw, &ser).unwrap_or(false), vec![]) };
            same("sign_unindexed", cut.clone().map(|x| (x.code(), x.verfer(), sure(x.raw()))),
                wo(|| ws.sign_unindexed(&ser)).map(|x| (x.code(), (*x.verfer()).clone(), sure(x.raw()))))?;
            same("sign_indexed", signer.sign_indexed(&ser, only, index, ondex).ok().map(|x| (x.code(), x.index(), x.ondex(), x.verfer(), sure(x.raw()))),
                wo(|| ws.sign_indexed(&ser, only, index, ondex)).map(|x| (x.code(), x.index(), x.ondex(), (*x.verfer()).clone(), sure(x.raw()))))?;
            let key = signer.verfer();
            let wkey = <w::VerferWrapper as w::Wrap<Verfer>>::wrap(&key);
            let sig = cut.ok_or("the library does not sign")?.raw();
            let mut no = ser.clone();
            no.push(1);
            for s in [&ser, &no] {
                same("Verfer::verify", key.verify(&sig, s).ok(), wo(|| wkey.verify(&sig, s)))?;
            }
            // unindexed signatures
            let v = if with { Some(&key) } else { None };
            let wv = || if with { Some(wkey.clone()) } else { None };
            macro_rules! cigar {
                ($x:ident) => {{
                    acc!($x);
                    same("Cigar::verfer", Some((*$x).verfer()), tot(|| (*$x.verfer()).clone()))?;
                }};
            }
            let z = a.clone();
            make!("Cigar::new", Cigar::new(v, c, r, tb, tx, bi), w::CigarWrapper::new(wv(), z.code, z.raw, z.qb64b, z.qb64, z.qb2), |x| cigar!(x));
            if let Some(r) = r {
                make!("Cigar::new_with_raw", Cigar::new_with_raw(r, v, c), w::CigarWrapper::new_with_raw(r, wv(), a.code.clone()), |x| cigar!(x));
            }
            make!("Cigar::new_with_raw", Cigar::new_with_raw(&sig, v, Some("0B")), w::CigarWrapper::new_with_raw(&sig, wv(), Some("0B".to_string())), |x| cigar!(x));
            routes!(Cigar, CigarWrapper, a, |x| cigar!(x), | v, | wv());
            // indexed signatures
            let (c, r, tb, tx, bi) = (ia.code.as_deref(), ia.raw.as_deref(), ia.qb64b.as_deref(), ia.qb64.as_deref(), ia.qb2.as_deref());
            macro_rules! siger {
                ($x:ident) => {{
                    let d = (*$x).clone();
                    acc!(@ $x, d);
                    same("index", Some(d.index()), tot(|| $x.index()))?;
                    same("ondex", Some(d.ondex()), tot(|| $x.ondex()))?;
                    same("Siger::verfer", Some(d.verfer()), tot(|| (*$x.verfer()).clone()))?;
                }};
            }
            let z = ia.clone();
            make!("Siger::new", Siger::new(v, oi, ondex, c, r, tb, tx, bi), w::SigerWrapper::new(wv(), oi, ondex, z.code, z.raw, z.qb64b, z.qb64, z.qb2), |x| siger!(x));
            for (raw, code) in [(r, c), (Some(&sig[..]), Some("2A")), (Some(&sig[..]), Some("A"))] {
                if let Some(raw) = raw {
                    make!("Siger::new_with_raw", Siger::new_with_raw(raw, v, oi, ondex, code), w::SigerWrapper::new_with_raw(raw, wv(), oi, ondex, code.map(|s| s.to_string())), |x| siger!(x));
                }
            }
            routes!(Siger, SigerWrapper, ia, |x| siger!(x), | v, | wv());
            Ok(())
        });
    }
}

fn salts(ctx: &mut Ctx, mt: &[String]) {
    ctx.group("salts");
    // the tiers at their full work, once each
    for (own, tier) in [("med", None), ("low", Some("med"))] {
        ctx.case(format!("own {own} tier {tier:?}, full work"), || {
            let own = Some(own.to_string());
            let tier = tier.map(|t: &str| t.to_string());
            let s = Salter::new_with_raw(b"0123456789abcdef", None, own.as_deref()).map_err(|e| e.to_string())?;
            let t = wo(|| w::SalterWrapper::new_with_raw(b"0123456789abcdef", None, own.clone())).ok_or("the wrapper fails")?;
            same("stretch", s.stretch(Some(32), Some("01"), tier.as_deref(), None).ok(),
                wo(|| t.stretch(Some(32), Some("01".to_string()), tier.clone(), None)))?;
            same("signer", s.signer(None, None, Some("01"), tier.as_deref(), None).ok(),
                wo(|| t.signer(None, None, Some("01".to_string()), tier.clone(), None)).map(|x| (*x).clone()))?;
            let want = s.signers(Some(1), None, Some("01"), None, None, tier.as_deref(), None).ok().and_then(|v| v.into_iter().next());
            let got = wo(|| t.signers(Some(1), None, Some("01".to_string()), None, None, tier.clone(), None));
            same("signers", Some(want), Some(got.and_then(|g| g.get(0)).map(|x| (*x).clone())))
        });
    }
    for _ in 0..ctx.n(60) {
        if ctx.over() {
            break;
        }
        let a = args(ctx, mt, false);
        let tiers = [None, Some("low"), Some("med"), Some("high"), Some("x"), Some("")];
        let own = ctx.rng.pick(&tiers).map(|s| s.to_string());
        let tier = ctx.rng.pick(&tiers).map(|s| s.to_string());
        let path = ctx.rng.pick(&[None, Some(""), Some("a"), Some("/1/2"), Some("0")]).map(|s| s.to_string());
        let code = ctx.rng.pick(&[None, Some("A"), Some("J"), Some("B")]).map(|s| s.to_string());
        let tr = ob(ctx);
        let count = *ctx.rng.pick(&[None, Some(0), Some(1), Some(2), Some(3)]);
        let start = *ctx.rng.pick(&[None, Some(0), Some(1), Some(5), Some(255)]);
        let size = *ctx.rng.pick(&[None, Some(16), Some(32), Some(33), Some(64), Some(3)]);
        let salt = ctx.rng.bytes(16);
        ctx.case(format!("{a:?} salt {} own {own:?} tier {tier:?} path {path:?} code {code:?} {tr:?} count {count:?} start {start:?} size {size:?}", hex(&salt)), || {
            let (c, r, tb, tx, bi) = (a.code.as_deref(), a.raw.as_deref(), a.qb64b.as_deref(), a.qb64.as_deref(), a.qb2.as_deref());
            let (o, p) = (own.as_deref(), path.as_deref());
            macro_rules! salter {
                ($x:ident) => {{
                    acc!($x);
                    same("tier", Some((*$x).tier()), tot(|| $x.tier()))?;
                }};
            }
            if a.none() {
                // the salt is random then
                let z = a.clone();
                same("Salter::new", Salter::new(o, c, r, tb, tx, bi).ok().map(|x| (x.code(), x.tier(), x.size())),
                    wo(|| w::SalterWrapper::new(own.clone(), z.code, z.raw, z.qb64b, z.qb64, z.qb2)).map(|x| (x.code(), x.tier(), x.size())))?;
            } else {
                let z = a.clone();
                make!("Salter::new", Salter::new(o, c, r, tb, tx, bi), w::SalterWrapper::new(own.clone(), z.code, z.raw, z.qb64b, z.qb64, z.qb2), |x| salter!(x));
            }
            same("Salter::new_with_defaults", Salter::new_with_defaults(o).ok().map(|x| (x.code(), x.tier())),
                wo(|| w::SalterWrapper::new_with_defaults(own.clone())).map(|x| (x.code(), x.tier())))?;
            if let Some(r) = r {
                make!("Salter::new_with_raw", Salter::new_with_raw(r, c, o), w::SalterWrapper::new_with_raw(r, a.code.clone(), own.clone()), |x| salter!(x));
            }
            routes!(Salter, SalterWrapper, a, |x| salter!(x), | o, | own.clone());
            let s = Salter::new_with_raw(&salt, None, o).map_err(|e| e.to_string())?;
            let t = wo(|| w::SalterWrapper::new_with_raw(&salt, None, own.clone())).ok_or("Salter::new_with_raw: the wrapper fails")?;
            ensure!(*t == s, "Salter::new_with_raw: a different salter");
            // the cheap parameters, except for one in a few: the work of each tier is not the point here
            for temp in [Some(true), Some(true), None] {
                if temp.is_none() && !(matches!(o, None | Some("low")) && matches!(tier.as_deref(), None | Some("low")) && matches!(count, None | Some(1))) {
                    continue;
                }
                same("stretch", s.stretch(size, p, tier.as_deref(), temp).ok(), wo(|| t.stretch(size, path.clone(), tier.clone(), temp)))?;
                same("signer", s.signer(code.as_deref(), tr, p, tier.as_deref(), temp).ok(),
                    wo(|| t.signer(code.clone(), tr, path.clone(), tier.clone(), temp)).map(|x| (*x).clone()))?;
                let want = s.signers(count, start, p, code.as_deref(), tr, tier.as_deref(), temp).ok();
                let got = wo(|| t.signers(count, start, path.clone(), code.clone(), tr, tier.clone(), temp));
                same("length", want.as_ref().map(|v| v.len()), got.as_ref().map(|g| g.len()))?;
                if let (Some(v), Some(g)) = (want, got) {
                    same("is_empty", Some(v.is_empty()), tot(|| g.is_empty()))?;
                    for i in 0..v.len() + 2 {
                        same("get", v.get(i).cloned(), tot(|| g.get(i)).ok_or("get panics")?.map(|x| (*x).clone()))?;
                    }
                }
            }
            Ok(())
        });
    }
}

fn tholders(ctx: &mut Ctx) {
    ctx.group("thresholds");
    let vs = [
        "\"0\"", "\"1\"", "\"2\"", "\"ff\"", "0", "1", "2", "3", "\"\"", "\"x\"", "[]", "[[]]", "null", "-1", "1.5", "{}",
        "[\"1/2\",\"1/2\"]", "[\"1/2\",\"1/4\",\"1/4\"]", "[[\"1/2\",\"1/2\"],[\"1\"]]", "[[\"1/2\",\"1/2\"],[\"1/3\",\"1/3\",\"1/3\"]]",
        "[\"1\"]", "[\"0\",\"1\"]", "[\"2/3\",\"1/3\",\"0\"]", "[\"1/2\"]", "[1,2]", "\"[\\\"1/2\\\",\\\"1/2\\\"]\"",
    ];
    let mut limens: Vec<Vec<u8>> = vec![b"MAAA".to_vec(), b"MAAB".to_vec(), b"MAAC".to_vec(), b"x".to_vec(), vec![]];
    for v in vs {
        if let Ok(l) = Tholder::new_with_sith(&cv(v)).and_then(|t| t.limen()) {
            limens.push(l)
        }
    }
    for _ in 0..ctx.n(2500) {
        if ctx.over() {
            break;
        }
        let a = ctx.rng.pick(&vs).to_string();
        let b = ctx.rng.pick(&vs).to_string();
        let l = ctx.rng.pick(&limens).clone();
        let which = 1 + ctx.rng.below(7);
        let n = ctx.rng.below(5);
        let ix: Vec<u32> = (0..n).map(|_| ctx.rng.below(6) as u32).collect();
        ctx.case(format!("thold {a} sith {b} limen {} given {which:03b} indices {ix:?}", String::from_utf8_lossy(&l)), || {
            macro_rules! th {
                ($x:ident) => {{
                    let d = (*$x).clone();
                    same("thold", json(&d.thold()), tot(|| $x.thold()).and_then(|v| text(&v)))?;
                    same("weighted", Some(d.weighted()), tot(|| $x.weighted()))?;
                    same("size", Some(d.size()), tot(|| $x.size()))?;
                    same("num", d.num().ok(), wo(|| $x.num()))?;
                    same("number", Some(d.number()), tot(|| $x.number().map(|y| (*y).clone())))?;
                    same("bexter", Some(d.bexter()), tot(|| $x.bexter().map(|y| (*y).clone())))?;
                    same("limen", d.limen().ok(), wo(|| $x.limen()))?;
                    same("sith", d.sith().ok().and_then(|v| json(&v)), wo(|| $x.sith()).and_then(|v| text(&v)))?;
                    same("to_json", d.to_json().ok(), wo(|| $x.to_json()))?;
                    same("satisfy", d.satisfy(&ix).ok(), wo(|| $x.satisfy(&ix)))?;
                }};
            }
            let (ca, cb) = (cv(&a), cv(&b));
            let g = |k: usize| which >> k & 1 == 1;
            make!("new", Tholder::new(if g(0) { Some(&ca) } else { None }, if g(1) { Some(&l[..]) } else { None }, if g(2) { Some(&cb) } else { None }),
                w::TholderWrapper::new(if g(0) { Some(jv(&a)) } else { None }, if g(1) { Some(l.clone()) } else { None }, if g(2) { Some(jv(&b)) } else { None }), |x| th!(x));
            make!("new_with_thold", Tholder::new_with_thold(&ca), w::TholderWrapper::new_with_thold(jv(&a)), |x| th!(x));
            make!("new_with_limen", Tholder::new_with_limen(&l), w::TholderWrapper::new_with_limen(&l), |x| th!(x));
            make!("new_with_sith", Tholder::new_with_sith(&cb), w::TholderWrapper::new_with_sith(jv(&b)), |x| th!(x));
            Ok(())
        });
    }
}

fn documents(ctx: &mut Ctx, mt: &[String]) {
    ctx.group("documents");
    let events = events(ctx);
    for i in 0..ctx.n(2500) {
        if ctx.over() {
            break;
        }
        let a = args(ctx, mt, false);
        // an event, a labelled document, or anything
        let doc = match ctx.rng.below(4) {
            0 => p_doc::doc(ctx, 3),
            1 => {
                let mut m = serde_json::Map::new();
                if ctx.rng.chance(1, 2) {
                    m.insert("v".to_string(), serde_json::json!("KERI10JSON000000_"));
                }
                m.insert(ctx.rng.pick(&["d", "i", "x"]).to_string(), serde_json::json!(""));
                let v = p_doc::doc(ctx, 2);
                m.insert("z".to_string(), v);
                serde_json::Value::Object(m)
            }
            _ => events[i % events.len()].clone(),
        };
        let json_text = serde_json::to_string(&doc).unwrap();
        let label = ctx.rng.pick(&[None, None, Some("d"), Some("i"), Some("x")]).map(|s| s.to_string());
        let kind = ctx.rng.pick(&[None, None, Some("JSON"), Some("CBOR"), Some("y")]).map(|s| s.to_string());
        let code = ctx.rng.pick(&[None, None, Some("E"), Some("H"), Some("0F"), Some("B"), Some("D"), Some("zz")]).map(|s| s.to_string());
        let give = ctx.rng.chance(2, 3);
        let (p, v) = (ob(ctx), ob(ctx));
        ctx.case(format!("{json_text} label {label:?} kind {kind:?} code {code:?} prefixed {p:?} versioned {v:?} {give} {a:?}"), || {
            let val = cv(&json_text);
            let (l, k, c) = (label.as_deref(), kind.as_deref(), code.as_deref());
            // identifiers of documents
            let z = a.clone();
            make!("Saider::new", Saider::new(if give { Some(&val) } else { None }, l, k, None, c, a.raw.as_deref(), a.qb64b.as_deref(), a.qb64.as_deref(), a.qb2.as_deref()),
                w::SaiderWrapper::new(if give { Some(jv(&json_text)) } else { None }, label.clone(), kind.clone(), None, code.clone(), z.raw, z.qb64b, z.qb64, z.qb2));
            if let Some(r) = &a.raw {
                make!("Saider::new_with_raw", Saider::new_with_raw(r, a.code.as_deref()), w::SaiderWrapper::new_with_raw(r, a.code.clone()));
                make!("Prefixer::new_with_raw", Prefixer::new_with_raw(r, a.code.as_deref()), w::PrefixerWrapper::new_with_raw(r, a.code.clone()));
            }
            routes!(Saider, SaiderWrapper, a, |x| acc!(x));
            routes!(Prefixer, PrefixerWrapper, a, |x| acc!(x));
            macro_rules! verify {
                ($x:expr) => {{
                    let x = &$x;
                    for d in [&val, &cv("{\"d\":\"\"}")] {
                        let t = d.to_json().map_err(|e| e.to_string())?;
                        same("Saider::verify", (**x).verify(d, p, v, k, l, None).ok(), wo(|| x.verify(jv(&t), p, v, kind.clone(), label.clone(), None)))?;
                    }
                }};
            }
            make!("Saider::new_with_sad", Saider::new_with_sad(&val, l, k, None, c), w::SaiderWrapper::new_with_sad(jv(&json_text), label.clone(), kind.clone(), None, code.clone()), |x| {
                acc!(x);
                verify!(x);
            });
            let want = Saider::saidify(&val, c, k, l, None).ok();
            let got = wo(|| w::SaiderWrapper::saidify(jv(&json_text), code.clone(), kind.clone(), label.clone(), None));
            same("saidify", want.as_ref().map(|x| x.0.clone()), got.as_ref().map(|x| (*x.saider()).clone()))?;
            if let (Some((s, d)), Some(g)) = (want, got) {
                let t = d.to_json().map_err(|e| e.to_string())?;
                same("saidify: document", json(&d), tot(|| jv(&g.value())).and_then(|v| text(&v)))?;
                let x = tot(|| g.saider()).ok_or("saider panics")?;
                for (p, v) in [(p, v), (Some(true), None), (Some(true), Some(true)), (None, Some(true))] {
                    same("Saider::verify of its own document", s.verify(&d, p, v, k, l, None).ok(), wo(|| x.verify(jv(&t), p, v, kind.clone(), label.clone(), None)))?;
                }
            }
            // identifiers of controllers
            let z = a.clone();
            macro_rules! pverify {
                ($x:ident) => {{
                    acc!($x);
                    same("Prefixer::verify", (*$x).verify(&val, p).ok(), wo(|| $x.verify(jv(&json_text), p)))?;
                }};
            }
            make!("Prefixer::new", Prefixer::new(if give { Some(&val) } else { None }, None, c, a.raw.as_deref(), a.qb64b.as_deref(), a.qb64.as_deref(), a.qb2.as_deref()),
                w::PrefixerWrapper::new(if give { Some(jv(&json_text)) } else { None }, None, code.clone(), z.raw, z.qb64b, z.qb64, z.qb2), |x| pverify!(x));
            make!("Prefixer::new_with_ked", Prefixer::new_with_ked(&val, None, c), w::PrefixerWrapper::new_with_ked(jv(&json_text), None, code.clone()), |x| pverify!(x));
            // events
            macro_rules! serder {
                ($x:ident) => {{
                    let d = (*$x).clone();
                    same("tholder", d.tholder().ok(), wo(|| $x.tholder()).map(|o| o.map(|y| (*y).clone())))?;
                    same("ntholder", d.ntholder().ok(), wo(|| $x.ntholder()).map(|o| o.map(|y| (*y).clone())))?;
                    same("sner", d.sner().ok(), wo(|| $x.sner()).map(|y| (*y).clone()))?;
                    same("sn", d.sn().ok(), wo(|| $x.sn()).map(u128::from))?;
                    same("fner", d.fner().ok(), wo(|| $x.fner()).map(|o| o.map(|y| (*y).clone())))?;
                    same("_fn", d._fn().ok(), wo(|| $x._fn()).map(u128::from))?;
                    same("code", Some(d.code()), tot(|| $x.code()))?;
                    same("raw", Some(d.raw()), tot(|| $x.raw()))?;
                    same("ident", Some(d.ident()), tot(|| $x.ident()))?;
                    same("kind", Some(d.kind()), tot(|| $x.kind()))?;
                    same("size", Some(d.size()), tot(|| $x.size()))?;
                    same("saider", Some(d.saider()), tot(|| (*$x.saider()).clone()))?;
                    same("ked", json(&d.ked()), tot(|| $x.ked()).and_then(|v| text(&v)))?;
                }};
            }
            make!("Serder::new_with_ked", Serder::new_with_ked(&val, c, k), w::SerderWrapper::new_with_ked(jv(&json_text), code.clone(), kind.clone()), |x| serder!(x));
            let base = Serder::new_with_ked(&val, None, None).ok();
            let raw = base.as_ref().map(|s| s.raw());
            for g in 0..8 {
                let on = |b: usize| g >> b & 1 == 1;
                let r = if on(0) { raw.clone() } else { None };
                let (d, wd) = if on(1) { (Some(&val), Some(jv(&json_text))) } else { (None, None) };
                let s = if on(2) { base.as_ref() } else { None };
                make!("Serder::new", Serder::new(c, r.as_deref(), k, d, s),
                    w::SerderWrapper::new(code.clone(), r.clone(), kind.clone(), wd, s.map(|s| <w::SerderWrapper as w::Wrap<Serder>>::wrap(s))), |x| serder!(x));
            }
            Ok(())
        });
    }
}

/// complete event documents
fn events(ctx: &mut Ctx) -> Vec<serde_json::Value> {
    use serde_json::json;
    let mut out = vec![];
    let key = |ctx: &mut Ctx, tr: bool| {
        let s = ctx.rng.bytes(32);
        Signer::new_with_raw(&s, Some(tr), None).unwrap().verfer().qb64().unwrap()
    };
    for k in 0..60 {
        let tr = k % 4 != 3;
        let (k1, k2) = (key(ctx, tr), key(ctx, tr));
        let two = k % 3 == 1;
        let dig = Diger::new_with_ser(&[k as u8], None).unwrap().qb64().unwrap();
        let kt = if two { json!(["1/2", "1/2"]) } else { json!(format!("{:x}", 1)) };
        let keys = if two { json!([k1, k2]) } else { json!([k1]) };
        let ilk = *ctx.rng.pick(&["icp", "rot", "ixn", "dip", "drt"]);
        let sn = *ctx.rng.pick(&["0", "1", "a", "ff", "100000000000000000", "x"]);
        let mut e = json!({"v": "KERI10JSON000000_", "t": ilk, "d": "", "i": if k % 5 == 0 { "" } else { &k1 }, "s": sn,
            "kt": kt, "k": keys, "nt": if tr { json!("1") } else { json!("0") }, "n": if tr { json!([dig]) } else { json!([]) },
            "bt": "0", "b": [], "c": [], "a": []});
        if k % 7 == 0 {
            e["fn"] = json!("2");
        }
        if matches!(ilk, "rot" | "ixn" | "drt") {
            e["p"] = json!(dig)
        }
        if matches!(ilk, "dip" | "drt") {
            e["di"] = json!(key(ctx, true))
        }
        out.push(e);
    }
    out
}

pub fn c25(ctx: &mut Ctx) {
    ctx.group("128-bit values");
    for x in u128s(ctx, ctx.n(60000)) {
        ctx.case(format!("{x:#x}"), || {
            let y = u128::from(w::U128Wrapper::from(x));
            ensure!(x == y, "comes back as {y:#x}");
            Ok(())
        });
    }
}
