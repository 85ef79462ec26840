//@imports matter crypto
// ------------------------------------------------------------------ verification keys
/// the codes a Verfer admits
pub open spec fn vercode(c: Seq<u8>) -> bool {
    cid(c) == K"B" || cid(c) == K"D" || cid(c) == K"1AAA" || cid(c) == K"1AAB" || cid(c) == K"1AAI" || cid(c) == K"1AAJ"
}
//@include mimpl.inc M=core::verfer T=Verfer
//@fn core::verfer::validate_code as verfer_validate_code
//@params code
    ensures r is Ok <==> vercode(code@)
//@end
impl Verfer {
//@fn core::verfer::Verfer::new as new
//@params code raw qb64b qb64 qb2
    ensures r is Ok ==> vercode(r->Ok_0.m_code()),
        r is Ok ==> mdet(Some(dflt(os(code), L"B")), ob(raw), ob(qb64b), os(qb64), ob(qb2)) == Some(mval(r->Ok_0)),
        ({ let v = mdet(Some(dflt(os(code), L"B")), ob(raw), ob(qb64b), os(qb64), ob(qb2)); v is Some && vercode((v->0).0) && mutf(ob(raw), ob(qb64b)) ==> r is Ok }), // @C16
//@end
//@fn core::verfer::Verfer::new_with_raw as new_with_raw
//@params raw code
    ensures r is Ok ==> vercode(r->Ok_0.m_code()) && mdet(Some(dflt(os(code), L"B")), Some(raw@), None, None, None) == Some(mval(r->Ok_0)),
        ({ let v = mdet(Some(dflt(os(code), L"B")), Some(raw@), None, None, None); v is Some && vercode((v->0).0) ==> r is Ok })
//@end
//@fn core::verfer::Verfer::new_with_qb64b as new_with_qb64b
//@params qb64b
    ensures r is Ok ==> vercode(r->Ok_0.m_code()) && mdet(None, None, Some(qb64b@), None, None) == Some(mval(r->Ok_0)),
        mok(qb64b@) && ascii(qb64b@) && vercode(qc(qb64b@)) ==> r is Ok
//@end
//@fn core::verfer::Verfer::new_with_qb64 as new_with_qb64
//@params qb64
    ensures r is Ok ==> vercode(r->Ok_0.m_code()) && mdet(None, None, None, Some(qb64@), None) == Some(mval(r->Ok_0)),
        mok(qb64@) && vercode(qc(qb64@)) ==> r is Ok
//@end
//@fn core::verfer::Verfer::new_with_qb2 as new_with_qb2
//@params qb2
    ensures r is Ok ==> vercode(r->Ok_0.m_code()) && mdet(None, None, None, None, Some(qb2@)) == Some(mval(r->Ok_0)),
        mokb(qb2@) && vercode(bc(qb2@)) ==> r is Ok
//@end
//@fn core::verfer::Verfer::verify as verify
//@params sig ser
    ensures r is Ok ==> vercode(self.m_code()) && r->Ok_0 == ver(salg(self.m_code()), self.m_raw(), sig@, ser@), // @C16
        vercode(self.m_code()) && pk_ok(salg(self.m_code()), self.m_raw()) && sg_ok(salg(self.m_code()), sig@) ==> r is Ok, // @C16
//@end
}
