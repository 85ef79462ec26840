//@imports serder verfer diger number tholder
//@include fields.inc
// ------------------------------------------------------------------ what a key event says
/// the entries of a list field
pub open spec fn ents(d: D, k: Seq<u8>) -> Seq<D> { match fld(d, k) { Some(D::Arr(a)) => a, _ => Seq::empty() } }
/// what the text of a key, of a digest, of a number reads as
pub open spec fn keyv(d: D) -> Option<(Seq<u8>, nat, Seq<u8>)> { if d is Str { mdet(Some(L"B"), None, None, Some(d->Str_0), None) } else { None } }
pub open spec fn digv(d: D) -> Option<(Seq<u8>, nat, Seq<u8>)> { if d is Str { mdet(None, None, None, Some(d->Str_0), None) } else { None } }
pub open spec fn numv(d: D) -> Option<(Seq<u8>, nat, Seq<u8>)> { if d is Str { mdet(Some(L"M"), None, None, Some(d->Str_0), None) } else { None } }
pub open spec fn keyok(d: D) -> bool { keyv(d) is Some && vercode((keyv(d)->0).0) }
pub open spec fn digok(d: D) -> bool { digv(d) is Some && isdig((digv(d)->0).0) }
pub open spec fn numok(d: D) -> bool { numv(d) is Some && numcode((numv(d)->0).0) }
pub open spec fn keys(v: Seq<Verfer>, a: Seq<D>, n: int) -> bool { v.len() == n && forall|i: int| 0 <= i < n ==> keyok(#[trigger] a[i]) && mval(v[i]) == keyv(a[i])->0 }
pub open spec fn digs(v: Seq<Diger>, a: Seq<D>, n: int) -> bool { v.len() == n && forall|i: int| 0 <= i < n ==> digok(#[trigger] a[i]) && mval(v[i]) == digv(a[i])->0 }
pub open spec fn estilk(t: Seq<u8>) -> bool { t == L"icp" || t == L"rot" || t == L"dip" || t == L"drt" }
/// the sequence number is written in hexadecimal, the first seen number as a qualified number
pub open spec fn snof_ev(d: D) -> Option<nat> { match ftxt(d, L"s") { Some(t) => nof(None, Some(t)), None => None } }
impl Serder {
//@fn core::serder::Serder::verfers as verfers
    ensures ({ let d = dv(self.ked); let a = ents(d, L"k");
        &&& r is Ok <==> d is Obj && forall|i: int| 0 <= i < a.len() ==> keyok(#[trigger] a[i])
        &&& r is Ok ==> keys(r->Ok_0@, a, a.len() as int) })
//@start
    hide(mdet); hide(vercode);
    let ghost a = ents(dv(self.ked), L"k");
    proof { lemma_dvos(); }
//@loop 0
    invariant dvs(__v0@) == a, keys(result@, a, __i0 as int),
//@loopstart 0
    proof { assert(dvs(__v0@)[__i0 as int] == dv(__v0@[__i0 as int])); }
//@end
//@fn core::serder::Serder::digers as digers
    ensures ({ let d = dv(self.ked); let a = ents(d, L"n");
        &&& r is Ok <==> d is Obj && forall|i: int| 0 <= i < a.len() ==> digok(#[trigger] a[i])
        &&& r is Ok ==> digs(r->Ok_0@, a, a.len() as int) })
//@start
    hide(mdet); hide(isdig);
    let ghost a = ents(dv(self.ked), L"n");
    proof { lemma_dvos(); }
//@loop 0
    invariant dvs(__v0@) == a, digs(result@, a, __i0 as int),
//@loopstart 0
    proof { assert(dvs(__v0@)[__i0 as int] == dv(__v0@[__i0 as int])); }
//@end
//@fn core::serder::Serder::werfers as werfers
    ensures ({ let d = dv(self.ked); let a = ents(d, L"b");
        &&& r is Ok <==> d is Obj && (fld(d, L"b") is Some ==> fld(d, L"b")->0 is Arr) && forall|i: int| 0 <= i < a.len() ==> keyok(#[trigger] a[i])
        &&& r is Ok ==> keys(r->Ok_0@, a, a.len() as int) })
//@start
    hide(mdet); hide(vercode);
    let ghost a = ents(dv(self.ked), L"b");
    proof { lemma_dvos(); }
//@loop 0
    invariant dvs(__v0@) == a, keys(result@, a, __i0 as int),
//@loopstart 0
    proof { assert(dvs(__v0@)[__i0 as int] == dv(__v0@[__i0 as int])); }
//@end
//@fn core::serder::Serder::tholder as tholder
    requires fld(dv(self.ked), L"kt") is Some ==> fews(fld(dv(self.ked), L"kt")->0)
    ensures ({ let d = dv(self.ked); let f = fld(d, L"kt");
        &&& r is Ok <==> d is Obj && (f is Some ==> tsith(f->0) is Some)
        &&& r is Ok ==> (r->Ok_0 is Some <==> f is Some)
        &&& r is Ok && f is Some ==> tis(r->Ok_0->0, tsith(f->0)->0) })
//@start
    hide(tsith); hide(fews); hide(tis);
    proof { lemma_dvos(); }
//@end
//@fn core::serder::Serder::ntholder as ntholder
    requires fld(dv(self.ked), L"nt") is Some ==> fews(fld(dv(self.ked), L"nt")->0)
    ensures ({ let d = dv(self.ked); let f = fld(d, L"nt");
        &&& r is Ok <==> d is Obj && (f is Some ==> tsith(f->0) is Some)
        &&& r is Ok ==> (r->Ok_0 is Some <==> f is Some)
        &&& r is Ok && f is Some ==> tis(r->Ok_0->0, tsith(f->0)->0) })
//@start
    hide(tsith); hide(fews); hide(tis);
    proof { lemma_dvos(); }
//@end
//@fn core::serder::Serder::sner as sner
    ensures ({ let v = snof_ev(dv(self.ked)); (r is Ok <==> v is Some) && (r is Ok ==> mval(r->Ok_0) == numm(v->0) && unbe(r->Ok_0.m_raw()) == v->0 && numcode(r->Ok_0.m_code()) && mvalid(r->Ok_0.m_code(), r->Ok_0.m_size(), r->Ok_0.m_raw())) })
//@start
    proof { lemma_dvos(); }
//@end
//@fn core::serder::Serder::sn as sn
    ensures ({ let v = snof_ev(dv(self.ked)); (r is Ok <==> v is Some) && (r is Ok ==> r->Ok_0 == v->0) })
//@end
//@fn core::serder::Serder::fner as fner
    ensures ({ let d = dv(self.ked); let f = fld(d, L"f");
        &&& r is Ok <==> d is Obj && (f is Some ==> numok(f->0))
        &&& r is Ok ==> (r->Ok_0 is Some <==> f is Some)
        &&& r is Ok && f is Some ==> mval(r->Ok_0->0) == numv(f->0)->0 && numcode(r->Ok_0->0.m_code()) && mvalid(r->Ok_0->0.m_code(), r->Ok_0->0.m_size(), r->Ok_0->0.m_raw()) })
//@start
    hide(mdet);
    proof { lemma_dvos(); lemma_cid4(L"M"); }
//@end
//@fn core::serder::Serder::_fn as _fn
    ensures ({ let f = fld(dv(self.ked), L"f"); (r is Ok <==> f is Some && numok(f->0)) && (r is Ok ==> r->Ok_0 == unbe((numv(f->0)->0).2)) })
//@end
//@fn core::serder::Serder::pre as pre
    ensures ({ let t = ftxt(dv(self.ked), L"i"); (r is Ok <==> t is Some) && (r is Ok ==> r->Ok_0@ == t->0) })
//@start
    proof { lemma_dvos(); }
//@end
//@fn core::serder::Serder::preb as preb
    ensures ({ let t = ftxt(dv(self.ked), L"i"); (r is Ok <==> t is Some) && (r is Ok ==> r->Ok_0@ == t->0) })
//@end
//@fn core::serder::Serder::est as est
    ensures ({ let t = ftxt(dv(self.ked), L"t"); (r is Ok <==> t is Some) && (r is Ok ==> r->Ok_0 == estilk(t->0)) })
//@start
    proof { lemma_dvos(); lemma_cids(); }
//@end
}
/// C28: the keys, digests and witnesses an event lists by their texts are what it reports, in that order
fn thm_c28(s: &Serder, i: usize, v: &Verfer, w: &Verfer, d: &Diger)
    requires mvalid(v.m_code(), v.m_size(), v.m_raw()), mvalid(w.m_code(), w.m_size(), w.m_raw()), mvalid(d.m_code(), d.m_size(), d.m_raw())
{
    proof {
        lemma_mself(v.m_code(), v.m_size(), v.m_raw()); lemma_mself(w.m_code(), w.m_size(), w.m_raw()); lemma_mself(d.m_code(), d.m_size(), d.m_raw());
    }
    let a = v.qb64(); let b = w.qb64(); let c = d.qb64();
    if let (Ok(a), Ok(b), Ok(c)) = (a, b, c) {
        let k = s.verfers(); let x = s.werfers(); let n = s.digers();
        assert(k is Ok && i < k->Ok_0@.len() && ents(dv(s.ked), L"k")[i as int] == D::Str(a@) ==> keyok(ents(dv(s.ked), L"k")[i as int]) && mval(k->Ok_0@[i as int]) == mval(*v));
        assert(x is Ok && i < x->Ok_0@.len() && ents(dv(s.ked), L"b")[i as int] == D::Str(b@) ==> keyok(ents(dv(s.ked), L"b")[i as int]) && mval(x->Ok_0@[i as int]) == mval(*w));
        assert(n is Ok && i < n->Ok_0@.len() && ents(dv(s.ked), L"n")[i as int] == D::Str(c@) ==> digok(ents(dv(s.ked), L"n")[i as int]) && mval(n->Ok_0@[i as int]) == mval(*d));
    }
}
