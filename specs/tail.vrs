//@imports pather serder
// ------------------------------------------------------------------ what a path selects in an event
/// text of the value a path selects: a digest stands for itself, a container for its serialization
pub open spec fn tailv(d: D, s: Seq<u8>) -> bool {
    match d {
        D::Str(t) => s == t && mok(t) && isdig(qc(t)),
        D::Obj(_) | D::Arr(_) => s == json(d),
        _ => false,
    }
}
impl Pather {
//@fn core::pather::Pather::tail as tail
//@params serder
    requires pvalid(*self)
    ensures ({ let v = dres(serder.sv().ked, strs(pcs(ptext(*self))));
        &&& r is Ok ==> pstarts(ptext(*self)) && v is Some && tailv(v->0, r->Ok_0@)
        &&& pstarts(ptext(*self)) && v is Some && (v->0 is Str ==> mok(v->0->Str_0) && isdig(qc(v->0->Str_0))) && (v->0 is Str || v->0 is Obj || v->0 is Arr) ==> r is Ok })
//@end
}
