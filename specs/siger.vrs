//@imports indexer verfer
// ------------------------------------------------------------------ indexed signatures
/// the codes a Siger admits
pub open spec fn sigcode(c: Seq<u8>) -> bool {
    let k = cid(c);
    k == K"A" || k == K"B" || k == K"C" || k == K"D" || k == K"E" || k == K"F"
    || k == K"2A" || k == K"2B" || k == K"2C" || k == K"2D" || k == K"2E" || k == K"2F"
}
//@struct core::siger::Siger as Siger
impl XDefault for Siger {
//@fn core::siger::Siger.Default::default as default
//@end
}
impl Indexer for Siger {
    open spec fn i_code(&self) -> Seq<u8> { self.code@ }
    open spec fn i_raw(&self) -> Seq<u8> { self.raw@ }
    open spec fn i_index(&self) -> nat { self.index as nat }
    open spec fn i_ondex(&self) -> nat { self.ondex as nat }
//@fn core::siger::Siger.Indexer::code as code
//@end
//@fn core::siger::Siger.Indexer::raw as raw
//@end
//@fn core::siger::Siger.Indexer::index as index
//@end
//@fn core::siger::Siger.Indexer::ondex as ondex
//@end
//@fn core::siger::Siger.Indexer::set_code as set_code
//@end
//@fn core::siger::Siger.Indexer::set_raw as set_raw
//@end
//@fn core::siger::Siger.Indexer::set_index as set_index
//@params index
//@end
//@fn core::siger::Siger.Indexer::set_ondex as set_ondex
//@params ondex
//@end
}
//@fn core::siger::validate_code as siger_validate_code
//@params code
    ensures r is Ok <==> sigcode(code@)
//@end
impl Siger {
//@fn core::siger::Siger::set_verfer as set_verfer
//@params verfer
    ensures final(self).verfer == *verfer, ixval(*final(self)) == ixval(*old(self))
//@end
//@fn core::siger::Siger::verfer as verfer
    ensures r == self.verfer
//@end
//@fn core::siger::Siger::new as new
//@params verfer index ondex code raw qb64b qb64 qb2
    ensures r is Ok ==> sigcode(r->Ok_0.i_code()),
        r is Ok ==> idet(index, ondex, os(code), ob(raw), ob(qb64b), os(qb64), ob(qb2)) == Some(ixval(r->Ok_0)),
        r is Ok && verfer is Some ==> r->Ok_0.verfer == *(verfer->0), // @C16
        ({ let v = idet(index, ondex, os(code), ob(raw), ob(qb64b), os(qb64), ob(qb2)); v is Some && sigcode((v->0).0) && mutf(ob(raw), ob(qb64b)) ==> r is Ok }), // @C16
//@end
//@fn core::siger::Siger::new_with_raw as new_with_raw
//@params raw verfer index ondex code
    ensures r is Ok ==> sigcode(r->Ok_0.i_code()) && idet(index, ondex, os(code), Some(raw@), None, None, None) == Some(ixval(r->Ok_0)),
        ({ let v = idet(index, ondex, os(code), Some(raw@), None, None, None); v is Some && sigcode((v->0).0) ==> r is Ok }),
        r is Ok && verfer is Some ==> r->Ok_0.verfer == *(verfer->0), // @C16
//@end
//@fn core::siger::Siger::new_with_qb64b as new_with_qb64b
//@params qb64b verfer
    ensures r is Ok ==> sigcode(r->Ok_0.i_code()) && idet(None, None, None, None, Some(qb64b@), None, None) == Some(ixval(r->Ok_0)),
        iok(qb64b@) && ascii(qb64b@) && sigcode(ic(qb64b@)) ==> r is Ok,
        r is Ok && verfer is Some ==> r->Ok_0.verfer == *(verfer->0), // @C16
//@end
//@fn core::siger::Siger::new_with_qb64 as new_with_qb64
//@params qb64 verfer
    ensures r is Ok ==> sigcode(r->Ok_0.i_code()) && idet(None, None, None, None, None, Some(qb64@), None) == Some(ixval(r->Ok_0)),
        iok(qb64@) && sigcode(ic(qb64@)) ==> r is Ok,
        r is Ok && verfer is Some ==> r->Ok_0.verfer == *(verfer->0), // @C16
//@end
//@fn core::siger::Siger::new_with_qb2 as new_with_qb2
//@params qb2 verfer
    ensures r is Ok ==> sigcode(r->Ok_0.i_code()) && idet(None, None, None, None, None, None, Some(qb2@)) == Some(ixval(r->Ok_0)),
        jok(qb2@) && sigcode(jc(qb2@)) ==> r is Ok,
        r is Ok && verfer is Some ==> r->Ok_0.verfer == *(verfer->0), // @C16
//@end
}
