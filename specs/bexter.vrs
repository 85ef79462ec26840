//@imports matter
// ------------------------------------------------------------------ base64 text material
pub open spec fn bws(n: int) -> int { (4 - n % 4) % 4 }
pub open spec fn bls(n: int) -> int { (3 - n % 4) % 3 }
/// raw bytes of a base64 text
pub open spec fn braw(s: Seq<u8>) -> Seq<u8> { unb64(rep(65u8, bws(s.len() as int) as nat) + s).skip(bls(s.len() as int)) }
/// the text of raw bytes under a code of lead size ls
pub open spec fn btext(ls: nat, raw: Seq<u8>) -> Seq<u8> {
    let t = enc(zs(ls) + raw);
    t.skip(if ls == 0 { if t.len() > 0 && t[0] == 65 { 1 } else { 0 } } else { ((ls + 1) % 4) as int })
}
pub open spec fn bexcode(c: Seq<u8>) -> bool { let i = cid(c); i == K"4A" || i == K"5A" || i == K"6A" || i == K"7AAA" || i == K"8AAA" || i == K"9AAA" }
pub proof fn lemma_bexcode(c: Seq<u8>) requires bexcode(c) ensures mknown(c), mvar(c), mls(c) <= 2 { lemma_cid4(c); }
pub proof fn lemma_as(n: nat) ensures b64s(rep(65u8, n)) { assert forall|i: int| 0 <= i < rep(65u8, n).len() implies isb64(#[trigger] rep(65u8, n)[i]) by {} }
pub proof fn lemma_bdec0(b: Seq<u8>)
    requires b.len() >= 4
    ensures b[0] == 65 && b[1] == 65 ==> dec4(b)[0] == 0, b[1] == 65 && b[2] == 65 ==> dec4(b)[1] == 0
{ assert(b64v(65u8) == 0); assert(dec4(b).len() >= 3); assert(0int / 3 == 0 && 1int / 3 == 0 && 1int % 3 == 1 && 0int % 3 == 0); }
pub proof fn lemma_bdec(s: Seq<u8>)
    requires b64s(s)
    ensures ({ let n = s.len() as int; let b = rep(65u8, bws(n) as nat) + s; let ls = bls(n);
        &&& b.len() == n + bws(n) && b.len() % 4 == 0 && b64s(b) && isenc(b) && unb64(b).len() == (n + bws(n)) / 4 * 3 && ls <= unb64(b).len()
        &&& forall|i: int| 0 <= i < ls ==> unb64(b)[i] == 0 })
{
    hide(b64s); hide(isenc); hide(unb64); hide(dec4);
    let n = s.len() as int; let w = bws(n); let b = rep(65u8, w as nat) + s; let ls = bls(n);
    lemma_as(w as nat); lemma_b64s_cat(rep(65u8, w as nat), s);
    assert(b.len() == n + w && (n + w) % 4 == 0);
    lemma_whole64(b);
    if b.len() > 0 { lemma_bdec0(b); }
    let d = dec4(b);
    if ls >= 1 { assert(b[0] == 65 && b[1] == 65); assert(d[0] == 0); }
    if ls >= 2 { assert(b[2] == 65); assert(d[1] == 0); }
}
pub proof fn lemma_bls(n: int) requires n >= 0 ensures vls(((n + bws(n)) / 4 * 3 - bls(n)) as nat) == bls(n), (n + bws(n)) / 4 * 3 - bls(n) >= 0 {
    let m = (n + bws(n)) / 4;
    assert((m * 3 - bls(n)) % 3 == (3 - bls(n)) % 3);
}
/// C13: the text comes back from its raw bytes
pub proof fn lemma_bext(s: Seq<u8>)
    requires b64s(s)
    ensures ({ let n = s.len() as int; let b = rep(65u8, bws(n) as nat) + s; let ls = bls(n) as nat;
        &&& isenc(b) && bls(n) <= unb64(b).len() && b.len() == n + bws(n) && b.len() % 4 == 0
        &&& enc(zs(ls) + braw(s)) == b
        &&& vls(braw(s).len()) == ls && braw(s).len() + ls == (n + bws(n)) / 4 * 3
        &&& (n % 4 == 0 && n > 0 && s[0] == 65) || btext(ls, braw(s)) == s })
{
    hide(enc); hide(unb64); hide(isenc); hide(b64s);
    let n = s.len() as int; let w = bws(n); let b = rep(65u8, w as nat) + s; let ls = bls(n) as nat;
    lemma_bdec(s); lemma_bls(n);
    let d = unb64(b);
    assert(zs(ls) + d.skip(ls as int) =~= d);
    lemma_isenc(b);
    assert(b.skip(w) =~= s);
    if w == 0 && n > 0 { assert(b[0] == s[0]); }
    if w == 1 { assert(b[0] == 65); }
    if w == 0 { assert(b =~= s); assert(s.skip(0) =~= s); }
}
/// the qualified text ends with the material
pub proof fn lemma_btail(c: Seq<u8>, z: nat, s: Seq<u8>)
    requires b64s(s), bexcode(c), mvalid(c, z, braw(s))
    ensures ({ let t = mtext(c, z, braw(s)); s.len() <= t.len() && t.subrange(t.len() - s.len(), t.len() as int) == s }), mls(c) == bls(s.len() as int)
{
    hide(enc); hide(unb64); hide(isenc); hide(b64s);
    lemma_bexcode(c); lemma_bext(s);
    lemma_bcs(c);
    let t = mtext(c, z, braw(s)); let n = s.len() as int; let b = rep(65u8, bws(n) as nat) + s;
    lemma_mboth(c, z);
    assert(mls(c) == bls(n));
    assert(b.skip(0) =~= b);
    assert(t == mboth(c, z) + b);
    assert(t.subrange(t.len() - s.len(), t.len() as int) =~= s);
}
pub proof fn lemma_bcs(c: Seq<u8>) requires bexcode(c) ensures mknown(c), mvar(c), mls(c) <= 2, mcs(c) % 4 == 0, (c.len() + mss(c)) % 4 == 0 { lemma_cid4(c); }
pub proof fn lemma_joinr(x: &XString, n: nat)
    requires x@.len() == 1
    ensures joinr(rep(x, n), Seq::<u8>::empty()) == rep(x@[0], n)
    decreases n
{
    let v = rep(x, n);
    if n > 1 { lemma_joinr(x, (n - 1) as nat); assert(v.drop_last() =~= rep(x, (n - 1) as nat)); }
    assert(joinr(v, Seq::<u8>::empty()) =~= rep(x@[0], n));
}
pub proof fn lemma_joinr_all() ensures forall|x: &XString, n: nat| x@.len() == 1 ==> #[trigger] joinr(rep(x, n), Seq::<u8>::empty()) == rep(x@[0], n)
{ assert forall|x: &XString, n: nat| x@.len() == 1 implies #[trigger] joinr(rep(x, n), Seq::<u8>::empty()) == rep(x@[0], n) by { lemma_joinr(x, n); } }
//@include mimpl.inc M=core::bexter T=Bexter
//@fn core::bexter::tables::Codex::has_code as bexter_has_code
//@params code
    ensures r <==> bexcode(code@)
//@end
//@fn core::bexter::validate_code as bexter_validate_code
//@params code
    ensures r is Ok <==> bexcode(code@)
//@end
//@fn core::bexter::rawify as rawify
//@params bext
    requires b64s(bext@)
    ensures r is Ok, r->Ok_0@ == braw(bext@)
//@start
    proof { lemma_bext(bext@); lemma_joinr_all(); }
//@end
pub trait Bext: Matter {
//@fn core::bexter::Bext::bext as bext
    requires mknown(self.m_code()), mls(self.m_code()) <= 2
    ensures r is Ok, r->Ok_0@ == btext(mls(self.m_code()), self.m_raw())
//@start
    hide(enc);
    broadcast use lemma_enc_ascii, lemma_enc_size;
    proof {
        assert forall|s: Seq<u8>| s.len() > 0 implies (#[trigger] s.subrange(0, 1) == L"A" <==> s[0] == 65) by { if s[0] == 65 { assert(s.subrange(0, 1) =~= L"A"); } else { assert(s.subrange(0, 1)[0] != L"A"[0]); } }
    }
//@end
}
impl Bext for Bexter {}
/// what the arguments of a text constructor denote
pub open spec fn bexdet(t: Option<Seq<u8>>, c: Option<Seq<u8>>, w: Option<Seq<u8>>, b: Option<Seq<u8>>, q: Option<Seq<u8>>, d: Option<Seq<u8>>) -> Option<(Seq<u8>, nat, Seq<u8>)> {
    if t is Some { if b64s(t->0) { mdet(c, Some(braw(t->0)), None, None, None) } else { None } } else { mdet(c, w, b, q, d) }
}
/// C13: the material, its qualified text and what it reads back as
pub open spec fn btold(s: Seq<u8>, c: Seq<u8>, z: nat, r: Seq<u8>) -> bool {
    let t = mtext(c, z, r);
    &&& bexcode(c) && mvalid(c, z, r)
    &&& s.len() <= t.len() && t.subrange(t.len() - s.len(), t.len() as int) == s
    &&& (s.len() % 4 == 0 && s.len() > 0 && s[0] == 65) || btext(mls(c), r) == s
}
/// a code of the set stays in it whatever the length of the material
pub proof fn lemma_bpick(c: Seq<u8>, n: nat)
    requires mknown(c)
    ensures bexcode(c) && (n + vls(n)) / 3 < 0x100_0000 ==> bexcode(mpick(c, n))
{ lemma_cid4(c); lemma_cid4(mpick(c, n)); }
pub proof fn lemma_btold(s: Seq<u8>, c: Seq<u8>)
    requires b64s(s), mdet(Some(c), Some(braw(s)), None, None, None) is Some
    ensures ({ let v = mdet(Some(c), Some(braw(s)), None, None, None)->0; bexcode(v.0) ==> btold(s, v.0, v.1, v.2) })
{
    let v = mdet(Some(c), Some(braw(s)), None, None, None)->0;
    lemma_mdet(Some(c), Some(braw(s)), None, None, None);
    if bexcode(v.0) {
        lemma_bexcode(v.0); lemma_mnew(c, braw(s));
        lemma_bext(s); lemma_btail(v.0, v.1, s);
    }
}
impl Bexter {
//@fn core::bexter::Bexter::new as new
//@params bext code raw qb64b qb64 qb2
    ensures r is Ok ==> bexcode(r->Ok_0.m_code()) && mvalid(r->Ok_0.m_code(), r->Ok_0.m_size(), r->Ok_0.m_raw()),
        r is Ok ==> bexdet(os(bext), Some(dflt(os(code), L"4A")), ob(raw), ob(qb64b), os(qb64), ob(qb2)) == Some(mval(r->Ok_0)),
        r is Ok && bext is Some ==> b64s(bext->0@) && btold(bext->0@, r->Ok_0.m_code(), r->Ok_0.m_size(), r->Ok_0.m_raw()), // @C13
        ({ let v = bexdet(os(bext), Some(dflt(os(code), L"4A")), ob(raw), ob(qb64b), os(qb64), ob(qb2)); v is Some && bexcode((v->0).0) && (bext is Some || mutf(ob(raw), ob(qb64b))) ==> r is Ok }), // @C13
//@start
    proof {
        let c = dflt(os(code), L"4A");
        let v = mdet(Some(c), ob(raw), ob(qb64b), os(qb64), ob(qb2));
        if v is Some { lemma_mdet(Some(c), ob(raw), ob(qb64b), os(qb64), ob(qb2)); }
        if bext is Some && b64s(bext->0@) {
            let w = mdet(Some(c), Some(braw(bext->0@)), None, None, None);
            if w is Some { lemma_mdet(Some(c), Some(braw(bext->0@)), None, None, None); lemma_btold(bext->0@, c); }
        }
    }
//@end
//@fn core::bexter::Bexter::new_with_bext as new_with_bext
//@params bext
    ensures b64s(bext@) && bext@.len() < 0x3ff_fff0 ==> r is Ok,
        r is Ok ==> b64s(bext@) && btold(bext@, r->Ok_0.m_code(), r->Ok_0.m_size(), r->Ok_0.m_raw())
//@start
    proof { if b64s(bext@) && bext@.len() < 0x3ff_fff0 { lemma_bext(bext@); lemma_cid4(L"4A"); lemma_bexcode(L"4A"); lemma_bpick(L"4A", braw(bext@).len());
        let n = bext@.len() as int; let k = (n + bws(n)) / 4; assert(k < 0x100_0000); assert(braw(bext@).len() + vls(braw(bext@).len()) == k * 3); assert((k * 3) / 3 == k); assert(mvar(L"4A")); assert(mknown(L"4A")); assert(mnew(L"4A", braw(bext@))); } }
//@end
//@fn core::bexter::Bexter::new_with_raw as new_with_raw
//@params raw code
    ensures r is Ok ==> bexcode(r->Ok_0.m_code()) && mdet(Some(dflt(os(code), L"4A")), Some(raw@), None, None, None) == Some(mval(r->Ok_0))
//@end
//@fn core::bexter::Bexter::new_with_qb64b as new_with_qb64b
//@params qb64b
    ensures r is Ok ==> bexcode(r->Ok_0.m_code()) && mdet(None, None, Some(qb64b@), None, None) == Some(mval(r->Ok_0)),
        mok(qb64b@) && ascii(qb64b@) && bexcode(qc(qb64b@)) ==> r is Ok
//@end
//@fn core::bexter::Bexter::new_with_qb64 as new_with_qb64
//@params qb64
    ensures r is Ok ==> bexcode(r->Ok_0.m_code()) && mdet(None, None, None, Some(qb64@), None) == Some(mval(r->Ok_0)),
        mok(qb64@) && bexcode(qc(qb64@)) ==> r is Ok
//@end
//@fn core::bexter::Bexter::new_with_qb2 as new_with_qb2
//@params qb2
    ensures r is Ok ==> bexcode(r->Ok_0.m_code()) && mdet(None, None, None, None, Some(qb2@)) == Some(mval(r->Ok_0)),
        mokb(qb2@) && bexcode(bc(qb2@)) ==> r is Ok
//@end
}
/// C13: base64 text is reported back, directly and after a round trip through text and binary, and ends the qualified text
fn thm_c13(t: &XString)
    requires b64s(t@), t@.len() < 0x3ff_fff0, t@.len() == 0 || t@[0] != 65
{
    let s = Bexter::new_with_bext(t);
    assert(s is Ok);
    if let Ok(s) = s {
        proof { lemma_bexcode(s.m_code()); }
        let d = s.bext(); let q = s.qb64(); let b = s.qb64b(); let x = s.qb2();
        assert(d is Ok && d->Ok_0@ == t@ && q is Ok && b is Ok && x is Ok);
        assert(q->Ok_0@.subrange(q->Ok_0@.len() - t@.len(), q->Ok_0@.len() as int) == t@);
        proof {
            lemma_mself(s.m_code(), s.m_size(), s.m_raw());
            lemma_mforms(s.m_code(), s.m_size(), s.m_raw()); lemma_mroundb(s.m_code(), s.m_size(), s.m_raw(), Seq::empty());
            let b = mbin(s.m_code(), s.m_size(), s.m_raw());
            assert(b + Seq::<u8>::empty() =~= b); lemma_mresb(s.m_code(), s.m_size(), s.m_raw(), b);
        }
        if let (Ok(q), Ok(b), Ok(x)) = (q, b, x) {
            let m = Bexter::new_with_qb64(&q);
            assert(m is Ok && mval(m->Ok_0) == mval(s));
            if let Ok(m) = m { let d = m.bext(); assert(d is Ok && d->Ok_0@ == t@); }
            let m = Bexter::new_with_qb64b(&b);
            assert(m is Ok && mval(m->Ok_0) == mval(s));
            let m = Bexter::new_with_qb2(&x);
            assert(m is Ok && mval(m->Ok_0) == mval(s));
        }
    }
}
