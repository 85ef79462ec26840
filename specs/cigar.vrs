//@imports verfer
// ------------------------------------------------------------------ unindexed signatures
/// the codes a Cigar admits
pub open spec fn cigcode(c: Seq<u8>) -> bool { cid(c) == K"0B" || cid(c) == K"0C" || cid(c) == K"0I" }
//@include mimpl.inc M=core::cigar T=Cigar
//@fn core::cigar::validate_code as cigar_validate_code
//@params code
    ensures r is Ok <==> cigcode(code@)
//@end
impl Cigar {
//@fn core::cigar::Cigar::set_verfer as set_verfer
//@params verfer
    ensures final(self).verfer == *verfer, mval(*final(self)) == mval(*old(self))
//@end
//@fn core::cigar::Cigar::verfer as verfer
    ensures r == self.verfer
//@end
//@fn core::cigar::Cigar::new as new
//@params verfer code raw qb64b qb64 qb2
    ensures r is Ok ==> cigcode(r->Ok_0.m_code()),
        r is Ok ==> mdet(os(code), ob(raw), ob(qb64b), os(qb64), ob(qb2)) == Some(mval(r->Ok_0)),
        r is Ok && verfer is Some ==> r->Ok_0.verfer == *(verfer->0), // @C16
        ({ let v = mdet(os(code), ob(raw), ob(qb64b), os(qb64), ob(qb2)); v is Some && cigcode((v->0).0) && mutf(ob(raw), ob(qb64b)) ==> r is Ok }), // @C16
//@end
//@fn core::cigar::Cigar::new_with_raw as new_with_raw
//@params raw verfer code
    ensures r is Ok ==> cigcode(r->Ok_0.m_code()) && mdet(os(code), Some(raw@), None, None, None) == Some(mval(r->Ok_0)),
        ({ let v = mdet(os(code), Some(raw@), None, None, None); v is Some && cigcode((v->0).0) ==> r is Ok }),
        r is Ok && verfer is Some ==> r->Ok_0.verfer == *(verfer->0), // @C16
//@end
//@fn core::cigar::Cigar::new_with_qb64b as new_with_qb64b
//@params qb64b verfer
    ensures r is Ok ==> cigcode(r->Ok_0.m_code()) && mdet(None, None, Some(qb64b@), None, None) == Some(mval(r->Ok_0)),
        mok(qb64b@) && ascii(qb64b@) && cigcode(qc(qb64b@)) ==> r is Ok,
        r is Ok && verfer is Some ==> r->Ok_0.verfer == *(verfer->0), // @C16
//@end
//@fn core::cigar::Cigar::new_with_qb64 as new_with_qb64
//@params qb64 verfer
    ensures r is Ok ==> cigcode(r->Ok_0.m_code()) && mdet(None, None, None, Some(qb64@), None) == Some(mval(r->Ok_0)),
        mok(qb64@) && cigcode(qc(qb64@)) ==> r is Ok,
        r is Ok && verfer is Some ==> r->Ok_0.verfer == *(verfer->0), // @C16
//@end
//@fn core::cigar::Cigar::new_with_qb2 as new_with_qb2
//@params qb2 verfer
    ensures r is Ok ==> cigcode(r->Ok_0.m_code()) && mdet(None, None, None, None, Some(qb2@)) == Some(mval(r->Ok_0)),
        mokb(qb2@) && cigcode(bc(qb2@)) ==> r is Ok,
        r is Ok && verfer is Some ==> r->Ok_0.verfer == *(verfer->0), // @C16
//@end
}
