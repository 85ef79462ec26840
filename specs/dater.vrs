//@imports matter
// ------------------------------------------------------------------ date-times
/// the clock: the one fact used is that the current date has four year digits
pub mod chrono { use vstd::prelude::*; use super::super::prelude::*; use super::*;
    pub enum SecondsFormat { Secs, Millis, Micros, Nanos, AutoSi }
    #[verifier::external_body] pub struct DateTime { k: u8 }
    impl DateTime {
        #[verifier::external_body] pub fn to_rfc3339_opts(&self, f: SecondsFormat, z: bool) -> (r: XString) ensures f is Micros && !z ==> okdts(r@) { unimplemented!() }
    }
    pub mod offset { use vstd::prelude::*; use super::*; pub struct Utc;
        impl Utc { #[verifier::external_body] pub fn now() -> DateTime { unimplemented!() } }
    }
}
/// timestamp to base64 characters and back
pub open spec fn isob(t: Seq<u8>) -> Seq<u8> { mapb(mapb(mapb(t, 58, 99), 46, 100), 43, 112) }
pub open spec fn biso(t: Seq<u8>) -> Seq<u8> { mapb(mapb(mapb(t, 99, 58), 100, 46), 112, 43) }
/// a character that a timestamp may have: base64 except the three substitutes, or one of the three substituted
pub open spec fn okdc(c: u8) -> bool { c == 58 || c == 46 || c == 43 || (isb64(c) && c != 99 && c != 100 && c != 112) }
pub open spec fn okdts(t: Seq<u8>) -> bool { t.len() == 32 && forall|i: int| 0 <= i < t.len() ==> okdc(#[trigger] t[i]) }
pub open spec fn datecode(c: Seq<u8>) -> bool { cid(c) == K"1AAG" }
pub open spec fn dtext(t: Seq<u8>) -> Seq<u8> { L"1AAG" + isob(t) }
/// the timestamp in a valid date primitive
pub open spec fn dtsof(c: Seq<u8>, z: nat, r: Seq<u8>) -> Seq<u8> { biso(mtext(c, z, r).subrange(4, 36)) }
pub proof fn lemma_datecode(c: Seq<u8>) requires datecode(c) ensures c == L"1AAG", mknown(c), !mvar(c), mfs(c) == 36, mcs(c) == 4, mls(c) == 0, mfull(c, 0) == 36
{ lemma_cid4(c); lemma_cid4(L"1AAG"); lemma_cid_inj(c, L"1AAG"); }
/// C12: representable timestamps are exactly those that come back
pub proof fn lemma_dts(t: Seq<u8>)
    ensures okdts(t) ==> mok(dtext(t)) && datecode(qc(dtext(t))) && mtext(qc(dtext(t)), qz(dtext(t)), qr(dtext(t))) == dtext(t) && dtsof(qc(dtext(t)), qz(dtext(t)), qr(dtext(t))) == t,
        mok(dtext(t)) ==> ({ let q = dtext(t); let m = mtext(qc(q), qz(q), qr(q)); datecode(qc(q)) && mvalid(qc(q), qz(q), qr(q)) && (m.subrange(4, 36).len() == 32) && (biso(m.subrange(4, 36)) == t ==> t.len() == 32 && m == q && okdts(t)) }),
{
    let q = dtext(t);
    lemma_cid4(L"1AAG");
    assert(q[0] == 49);
    assert(q.subrange(0, 4) =~= L"1AAG");
    assert(qc(q) =~= L"1AAG");
    lemma_datecode(qc(q));
    assert(qz(q) == 0);
    if okdts(t) {
        let src = qsrc(q, 4, 36);
        assert(src =~= isob(t));
        assert forall|i: int| 0 <= i < src.len() implies isb64(#[trigger] src[i]) by { assert(okdc(t[i])); }
        lemma_whole64(src);
        assert(q.subrange(4, 4) =~= Seq::<u8>::empty());
        assert(allz(unb64(src).subrange(0, 0)));
        assert(mok(q));
        lemma_mwhole(q);
        assert(q.subrange(4, 36) =~= isob(t));
        assert(biso(isob(t)) =~= t) by { assert forall|i: int| 0 <= i < 32 implies biso(isob(t))[i] == #[trigger] t[i] by { assert(okdc(t[i])); } }
    }
    if mok(q) {
        lemma_mok(q);
        let m = mtext(qc(q), qz(q), qr(q));
        lemma_mforms(qc(q), qz(q), qr(q));
        assert(m == q.subrange(0, 36));
        if biso(m.subrange(4, 36)) == t {
            assert(t.len() == 32);
            assert(m =~= q);
            assert forall|i: int| 0 <= i < t.len() implies okdc(#[trigger] t[i]) by {
                assert(isb64(m[4 + i])); assert(t[i] == biso(m.subrange(4, 36))[i]);
            }
        }
    }
}
//@include mimpl.inc M=core::dater T=Dater
//@fn core::dater::validate_code as dater_validate_code
//@params code
    ensures r is Ok <==> datecode(code@)
//@end
//@fn core::dater::iso_8601_to_b64 as iso_8601_to_b64
//@params dts
    ensures r@ == isob(dts@)
//@end
//@fn core::dater::b64_to_iso_8601 as b64_to_iso_8601
//@params dts
    ensures r@ == biso(dts@)
//@end
impl Dater {
//@fn core::dater::Dater::new as new
//@params dts code raw qb64b qb64 qb2
    ensures r is Ok ==> datecode(r->Ok_0.m_code()) && mvalid(r->Ok_0.m_code(), r->Ok_0.m_size(), r->Ok_0.m_raw()),
        r is Ok && (raw is Some || qb64b is Some || qb64 is Some || qb2 is Some) ==> mdet(Some(dflt(os(code), L"1AAG")), ob(raw), ob(qb64b), os(qb64), ob(qb2)) == Some(mval(r->Ok_0)),
        raw is None && qb64b is None && qb64 is None && qb2 is None && dts is Some ==> (r is Ok <==> okdts(dts->0@)), // @C12
        r is Ok && raw is None && qb64b is None && qb64 is None && qb2 is None && dts is Some ==> dtsof(r->Ok_0.m_code(), r->Ok_0.m_size(), r->Ok_0.m_raw()) == dts->0@ && mtext(r->Ok_0.m_code(), r->Ok_0.m_size(), r->Ok_0.m_raw()) == dtext(dts->0@), // @C12
        raw is None && qb64b is None && qb64 is None && qb2 is None && dts is None ==> r is Ok, // @C12
        ({ let v = mdet(Some(dflt(os(code), L"1AAG")), ob(raw), ob(qb64b), os(qb64), ob(qb2)); v is Some && datecode((v->0).0) && mutf(ob(raw), ob(qb64b)) ==> r is Ok }), // @C12
//@start
    proof {
        let c = dflt(os(code), L"1AAG");
        let v = mdet(Some(c), ob(raw), ob(qb64b), os(qb64), ob(qb2));
        if v is Some { lemma_mdet(Some(c), ob(raw), ob(qb64b), os(qb64), ob(qb2)); }
        if dts is Some { lemma_dts(dts->0@); }
        assert forall|t: Seq<u8>| #![trigger isob(t)] okdts(t) implies mok(dtext(t)) && datecode(qc(dtext(t))) && mvalid(qc(dtext(t)), qz(dtext(t)), qr(dtext(t))) by { lemma_dts(t); lemma_mok(dtext(t)); }
    }
//@end
//@fn core::dater::Dater::new_with_dts as new_with_dts
//@params dts code
    ensures r is Ok <==> okdts(dts@), r is Ok ==> datecode(r->Ok_0.m_code()) && mvalid(r->Ok_0.m_code(), r->Ok_0.m_size(), r->Ok_0.m_raw())
        && dtsof(r->Ok_0.m_code(), r->Ok_0.m_size(), r->Ok_0.m_raw()) == dts@ && mtext(r->Ok_0.m_code(), r->Ok_0.m_size(), r->Ok_0.m_raw()) == dtext(dts@)
//@end
//@fn core::dater::Dater::new_with_raw as new_with_raw
//@params raw code
    ensures r is Ok ==> datecode(r->Ok_0.m_code()) && mdet(Some(dflt(os(code), L"1AAG")), Some(raw@), None, None, None) == Some(mval(r->Ok_0))
//@end
//@fn core::dater::Dater::new_with_qb64b as new_with_qb64b
//@params qb64b
    ensures r is Ok ==> datecode(r->Ok_0.m_code()) && mdet(None, None, Some(qb64b@), None, None) == Some(mval(r->Ok_0)),
        mok(qb64b@) && ascii(qb64b@) && datecode(qc(qb64b@)) ==> r is Ok
//@end
//@fn core::dater::Dater::new_with_qb64 as new_with_qb64
//@params qb64
    ensures r is Ok ==> datecode(r->Ok_0.m_code()) && mdet(None, None, None, Some(qb64@), None) == Some(mval(r->Ok_0)),
        mok(qb64@) && datecode(qc(qb64@)) ==> r is Ok
//@end
//@fn core::dater::Dater::new_with_qb2 as new_with_qb2
//@params qb2
    ensures r is Ok ==> datecode(r->Ok_0.m_code()) && mdet(None, None, None, None, Some(qb2@)) == Some(mval(r->Ok_0)),
        mokb(qb2@) && datecode(bc(qb2@)) ==> r is Ok
//@end
//@fn core::dater::Dater::dts as dts
    requires datecode(self.m_code()), mvalid(self.m_code(), self.m_size(), self.m_raw())
    ensures r is Ok, r->Ok_0@ == dtsof(self.m_code(), self.m_size(), self.m_raw())
//@start
    proof { lemma_datecode(self.m_code()); lemma_mforms(self.m_code(), self.m_size(), self.m_raw()); }
//@end
//@fn core::dater::Dater::dtsb as dtsb
    requires datecode(self.m_code()), mvalid(self.m_code(), self.m_size(), self.m_raw())
    ensures r is Ok, r->Ok_0@ == dtsof(self.m_code(), self.m_size(), self.m_raw())
//@end
}
/// C12: a representable timestamp is reported back, directly and after a round trip through text and binary
fn thm_c12(t: &XString)
    requires okdts(t@)
{
    let s = Dater::new_with_dts(t, None);
    assert(s is Ok);
    if let Ok(s) = s {
        let d = s.dts(); let b = s.dtsb(); let q = s.qb64();
        proof {
            lemma_mself(s.m_code(), s.m_size(), s.m_raw());
            lemma_mforms(s.m_code(), s.m_size(), s.m_raw()); lemma_mroundb(s.m_code(), s.m_size(), s.m_raw(), Seq::empty());
            let b = mbin(s.m_code(), s.m_size(), s.m_raw());
            assert(b + Seq::<u8>::empty() =~= b); lemma_mresb(s.m_code(), s.m_size(), s.m_raw(), b);
        }
        assert(d is Ok && d->Ok_0@ == t@ && b is Ok && b->Ok_0@ == t@ && q is Ok && q->Ok_0@ == dtext(t@));
        let qb = s.qb64b(); let bb = s.qb2();
        assert(qb is Ok && bb is Ok);
        if let (Ok(q), Ok(qb), Ok(bb)) = (q, qb, bb) {
            let x = Dater::new_with_qb64(&q);
            assert(x is Ok && mval(x->Ok_0) == mval(s));
            let x = Dater::new_with_qb64b(&qb);
            assert(x is Ok && mval(x->Ok_0) == mval(s));
            let x = Dater::new_with_qb2(&bb);
            assert(x is Ok && mval(x->Ok_0) == mval(s));
        }
    }
}
