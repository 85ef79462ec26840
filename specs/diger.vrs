//@imports matter crypto
// ------------------------------------------------------------------ digests
//@include mimpl.inc M=core::diger T=Diger
//@fn core::diger::validate_code as diger_validate_code
//@params code
    ensures r is Ok <==> isdig(code@)
//@end
/// the digest primitive of serialized data
pub open spec fn digm(c: Seq<u8>, ser: Seq<u8>) -> (Seq<u8>, nat, Seq<u8>) { (c, 0, digestf(c, ser)) }
pub proof fn lemma_dig(c: Seq<u8>, ser: Seq<u8>)
    requires isdig(c)
    ensures mdet(Some(c), Some(digestf(c, ser)), None, None, None) == Some(digm(c, ser)), mknown(c), !mvar(c), mvalid(c, 0, digestf(c, ser))
{
    hide(cid);
    broadcast use axiom_hash_len;
    lemma_cid4(c);
    let d = digestf(c, ser);
    assert(d.len() == dalg(c).1);
    assert(mknown(c) && !mvar(c) && mrz(c) == dalg(c).1);
    assert(mtake(c, d) =~= d);
}
/// digests are compared as Result<bool>: what the answer is when there is one
pub open spec fn digver(c: Seq<u8>, raw: Seq<u8>, ser: Seq<u8>) -> bool { isdig(c) && digestf(c, ser) == raw }
pub open spec fn digcmp(a: (Seq<u8>, nat, Seq<u8>), b: (Seq<u8>, nat, Seq<u8>), ser: Seq<u8>) -> bool {
    a == b || (a.0 != b.0 && digver(a.0, a.2, ser) && digver(b.0, b.2, ser))
}
impl Diger {
//@fn core::diger::Diger::new as new
//@params ser code raw qb64b qb64 qb2
    ensures r is Ok ==> isdig(r->Ok_0.m_code()) && mvalid(r->Ok_0.m_code(), r->Ok_0.m_size(), r->Ok_0.m_raw()),
        r is Ok ==> mdet(os(code), ob(raw), ob(qb64b), os(qb64), ob(qb2)) == Some(mval(r->Ok_0)) || (ser is Some && isdig(dflt(os(code), L"E")) && mval(r->Ok_0) == digm(dflt(os(code), L"E"), ob(ser)->0)),
        ({ let v = mdet(os(code), ob(raw), ob(qb64b), os(qb64), ob(qb2)); v is Some && mutf(ob(raw), ob(qb64b)) ==> (isdig((v->0).0) ==> r is Ok) && (r is Ok ==> v == Some(mval(r->Ok_0))) }), // @C15
        mdet(os(code), ob(raw), ob(qb64b), os(qb64), ob(qb2)) is None && ser is Some && isdig(dflt(os(code), L"E")) ==> r is Ok, // @C15
//@start
    proof {
        let c = dflt(os(code), L"E");
        if ser is Some && isdig(c) { lemma_dig(c, ob(ser)->0); }
        let v = mdet(os(code), ob(raw), ob(qb64b), os(qb64), ob(qb2));
        if v is Some { lemma_mdet(os(code), ob(raw), ob(qb64b), os(qb64), ob(qb2)); }
    }
//@end
//@fn core::diger::Diger::new_with_ser as new_with_ser
//@params ser code
    ensures r is Ok <==> isdig(dflt(os(code), L"E")), r is Ok ==> mval(r->Ok_0) == digm(dflt(os(code), L"E"), ser@)
//@end
//@fn core::diger::Diger::new_with_raw as new_with_raw
//@params raw code
    ensures r is Ok ==> isdig(r->Ok_0.m_code()) && mdet(os(code), Some(raw@), None, None, None) == Some(mval(r->Ok_0)),
        ({ let v = mdet(os(code), Some(raw@), None, None, None); v is Some && isdig((v->0).0) ==> r is Ok })
//@end
//@fn core::diger::Diger::new_with_qb64b as new_with_qb64b
//@params qb64b
    ensures r is Ok ==> isdig(r->Ok_0.m_code()) && mdet(None, None, Some(qb64b@), None, None) == Some(mval(r->Ok_0)),
        mok(qb64b@) && ascii(qb64b@) && isdig(qc(qb64b@)) ==> r is Ok
//@end
//@fn core::diger::Diger::new_with_qb64 as new_with_qb64
//@params qb64
    ensures r is Ok ==> isdig(r->Ok_0.m_code()) && mdet(None, None, None, Some(qb64@), None) == Some(mval(r->Ok_0)),
        mok(qb64@) && isdig(qc(qb64@)) ==> r is Ok
//@end
//@fn core::diger::Diger::new_with_qb2 as new_with_qb2
//@params qb2
    ensures r is Ok ==> isdig(r->Ok_0.m_code()) && mdet(None, None, None, None, Some(qb2@)) == Some(mval(r->Ok_0)),
        mokb(qb2@) && isdig(bc(qb2@)) ==> r is Ok
//@end
//@fn core::diger::Diger::verify as verify
//@params ser
    ensures r is Ok <==> isdig(self.m_code()), r is Ok ==> r->Ok_0 == digver(self.m_code(), self.m_raw(), ser@)
//@end
//@fn core::diger::Diger::compare as compare
//@params ser dig diger
    requires mvalid(self.m_code(), self.m_size(), self.m_raw()), diger is Some ==> mvalid(diger->0.m_code(), diger->0.m_size(), diger->0.m_raw())
    ensures r is Ok && r->Ok_0 && dig is Some ==> mok(dig->0@) && digcmp(mval(*self), (qc(dig->0@), qz(dig->0@), qr(dig->0@)), ser@),
        r is Ok && r->Ok_0 && dig is None ==> diger is Some && digcmp(mval(*self), mval(*(diger->0)), ser@),
        // a digest in full, or a digest primitive: the answer is exact
        dig is Some && mok(dig->0@) && ascii(dig->0@) && dig->0@.len() == mfull(qc(dig->0@), qz(dig->0@)) && isdig(self.m_code()) && isdig(qc(dig->0@)) ==> r is Ok && r->Ok_0 == digcmp(mval(*self), (qc(dig->0@), qz(dig->0@), qr(dig->0@)), ser@),
        dig is None && diger is Some && isdig(self.m_code()) && isdig(diger->0.m_code()) ==> r is Ok && r->Ok_0 == digcmp(mval(*self), mval(*(diger->0)), ser@),
//@start
    proof {
        lemma_mself(self.m_code(), self.m_size(), self.m_raw());
        if dig is Some && mok(dig->0@) { lemma_mok(dig->0@); }
        if dig is Some && mok(dig->0@) && dig->0@.len() == mfull(qc(dig->0@), qz(dig->0@)) { lemma_mwhole(dig->0@); }
        if diger is Some { lemma_mself(diger->0.m_code(), diger->0.m_size(), diger->0.m_raw()); }
    }
//@end
}
