// ------------------------------------------------------------------ what a document says
/// the field of a document
pub open spec fn fld(d: D, k: Seq<u8>) -> Option<D> { if d is Obj && hask(d->Obj_0, k) { Some(valk(d->Obj_0, k)) } else { None } }
/// a text field
pub open spec fn ftxt(d: D, k: Seq<u8>) -> Option<Seq<u8>> { match fld(d, k) { Some(D::Str(s)) => Some(s), _ => None } }
