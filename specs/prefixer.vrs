//@imports matter crypto common diger verfer saider
use super::data::indexmap::IndexMap;
// ------------------------------------------------------------------ identifier prefixes
//@include mimpl.inc M=core::prefixer T=Prefixer
/// basic codes: the key itself
pub open spec fn pcnon(c: Seq<u8>) -> bool { cid(c) == K"B" || cid(c) == K"1AAA" || cid(c) == K"1AAI" }
pub open spec fn pctra(c: Seq<u8>) -> bool { cid(c) == K"D" || cid(c) == K"1AAB" || cid(c) == K"1AAJ" }
pub open spec fn prefcode(c: Seq<u8>) -> bool { pcnon(c) || pctra(c) || isdig(c) }
//@fn core::prefixer::validate_code as prefixer_validate_code
//@params code
    ensures r is Ok <==> prefcode(code@)
//@end
/// an inception event
pub open spec fn pilk(d: D) -> bool { d is Obj && hask(d->Obj_0, L"t") && (valk(d->Obj_0, L"t") == D::Str(L"icp") || valk(d->Obj_0, L"t") == D::Str(L"dip") || valk(d->Obj_0, L"t") == D::Str(L"vcp")) }
//@fn core::prefixer::ilk as prefixer_ilk
//@params ked
    ensures r is Ok <==> dv(*ked) is Obj && hask(dv(*ked)->Obj_0, L"t") && valk(dv(*ked)->Obj_0, L"t") is Str, r is Ok ==> valk(dv(*ked)->Obj_0, L"t") == D::Str(r->Ok_0@)
//@start
    proof { lemma_dvos(); lemma_dv(*ked); }
//@end
/// a field that holds nothing
pub open spec fn pemp(d: D) -> bool { d is Arr && d->Arr_0.len() == 0 || d is Str && d->Str_0.len() == 0 }
pub open spec fn pnil(d: D, l: Seq<u8>) -> bool { hask(d->Obj_0, l) ==> pemp(valk(d->Obj_0, l)) }
//@fn core::prefixer::is_empty as prefixer_is_empty
//@params val
    ensures r == pemp(dv(*val))
//@start
    proof { lemma_dv(*val); }
//@end
/// the single signing key
pub open spec fn pone(d: D) -> bool { d is Obj && hask(d->Obj_0, L"k") && valk(d->Obj_0, L"k") is Arr && valk(d->Obj_0, L"k")->Arr_0.len() == 1 && valk(d->Obj_0, L"k")->Arr_0[0] is Str }
pub open spec fn pkey(d: D) -> Seq<u8> { valk(d->Obj_0, L"k")->Arr_0[0]->Str_0 }
/// ... is a complete key of the code
pub open spec fn pbok(d: D, c: Seq<u8>) -> bool { let k = pkey(d); pone(d) && mok(k) && k.len() == mfull(qc(k), qz(k)) && vercode(qc(k)) && qc(k) == c }
pub open spec fn pnok(d: D, c: Seq<u8>) -> bool { pbok(d, c) && pnil(d, L"n") && pnil(d, L"b") && pnil(d, L"a") }
/// the event with prefix and identifier replaced by dummies, and the version string of that document
pub open spec fn pdum(d: D, c: Seq<u8>) -> D { D::Obj(put(put(d->Obj_0, L"i", dum(c)), L"d", dum(c))) }
pub open spec fn pser(d: D, c: Seq<u8>) -> Seq<u8> { json(szdoc(pdum(d, c))) }
/// documents of less than 4 GiB
pub open spec fn pfit(d: D, c: Seq<u8>) -> bool { json(pdum(d, c)).len() < 0x1_0000_0000 }
/// a prefix can be derived
pub open spec fn pok(d: D, c: Seq<u8>) -> bool { pilk(d) && (if pcnon(c) { pnok(d, c) } else if pctra(c) { pbok(d, c) } else { isdig(c) && szok(pdum(d, c), None) }) }
pub open spec fn praw(d: D, c: Seq<u8>) -> Seq<u8> { if pcnon(c) || pctra(c) { qr(pkey(d)) } else { digestf(c, pser(d, c)) } }
/// the code a document asks for
pub open spec fn pcode(d: D, code: Option<Seq<u8>>) -> Option<Seq<u8>> {
    if code is Some { code } else if d is Obj && hask(d->Obj_0, L"i") { let v = valk(d->Obj_0, L"i"); if v is Str && mok(v->Str_0) { Some(qc(v->Str_0)) } else { None } } else { None }
}
pub open spec fn pallow(x: Option<&[&XString]>, c: Seq<u8>) -> bool { x is Some && x->0@.len() > 0 ==> anyc(x->0@, cid(c)) }
/// a prefix code is not variable, and takes the raw bytes it is given
pub proof fn lemma_pcode(c: Seq<u8>)
    ensures prefcode(c) ==> mknown(c) && !mvar(c), isdig(c) ==> !pcnon(c) && !pctra(c), vercode(c) == (pcnon(c) || pctra(c)), pcnon(c) ==> !pctra(c)
{ hide(cid); lemma_cid4(c); if isdig(c) { lemma_dig(c, Seq::empty()); } }
pub proof fn lemma_pkey(q: Seq<u8>)
    requires mok(q), q.len() == mfull(qc(q), qz(q)), prefcode(qc(q))
    ensures qz(q) == 0, mvalid(qc(q), 0, qr(q)), mdet(Some(qc(q)), Some(qr(q)), None, None, None) == Some((qc(q), 0nat, qr(q))), mtext(qc(q), 0, qr(q)) == q
{
    lemma_mwhole(q); lemma_pcode(qc(q));
    assert(mtake(qc(q), qr(q)) =~= qr(q));
}
//@fn core::prefixer::derive as prefixer_derive
//@params ked code
    ensures ({ let d = dv(*ked); let c = code@; !isdig(c) || pfit(d, c) ==> (r is Ok <==> pok(d, c)) && (r is Ok ==> r->Ok_0.0@ == praw(d, c) && r->Ok_0.1@ == c) }), !pilk(dv(*ked)) ==> r is Err
//@start
    hide(json); hide(mok); hide(szok);
    proof { lemma_cids(); lemma_pcode(code@); lemma_dvos(); }
//@end
//@fn core::prefixer::derive_nontransferable as derive_nontransferable
//@params ked code
    ensures r is Ok <==> pnok(dv(*ked), code@), r is Ok ==> r->Ok_0.0@ == qr(pkey(dv(*ked))) && r->Ok_0.1@ == code@
//@start
    proof { lemma_dvos(); lemma_dv(*ked); if pone(dv(*ked)) && mok(pkey(dv(*ked))) { let k = pkey(dv(*ked)); lemma_mok(k); lemma_mself(qc(k), qz(k), qr(k)); if k.len() == mfull(qc(k), qz(k)) { lemma_mwhole(k); } } }
//@end
//@fn core::prefixer::derive_transferable as derive_transferable
//@params ked code
    ensures r is Ok <==> pbok(dv(*ked), code@), r is Ok ==> r->Ok_0.0@ == qr(pkey(dv(*ked))) && r->Ok_0.1@ == code@
//@start
    proof { lemma_dvos(); lemma_dv(*ked); if pone(dv(*ked)) && mok(pkey(dv(*ked))) { let k = pkey(dv(*ked)); lemma_mok(k); lemma_mself(qc(k), qz(k), qr(k)); if k.len() == mfull(qc(k), qz(k)) { lemma_mwhole(k); } } }
//@end
//@fn core::prefixer::derive_digest as derive_digest
//@params ked code
    requires dv(*ked) is Obj
    ensures ({ let d = dv(*ked); let c = code@; pfit(d, c) ==> (r is Ok <==> isdig(c) && szok(pdum(d, c), None)) && (r is Ok ==> r->Ok_0.0@ == digestf(c, pser(d, c)) && r->Ok_0.1@ == c) })
//@start
    hide(json); hide(mfs); hide(szok); hide(szdoc); hide(isdig); hide(put);
    proof { if isdig(code@) { lemma_dig(code@, Seq::empty()); } axiom_ascii_utf8(rep(35u8, mfs(code@))); }
//@end
/// the prefix field
pub open spec fn pfx(d: D, pre: Seq<u8>) -> bool { hask(d->Obj_0, L"i") && valk(d->Obj_0, L"i") == D::Str(pre) }
/// a prefix verifies against an event
pub open spec fn pvb(d: D, pre: Seq<u8>, prefixed: bool) -> bool { pone(d) && pkey(d) == pre && (prefixed ==> pfx(d, pre)) }
pub open spec fn pvn(d: D, pre: Seq<u8>, prefixed: bool) -> bool { pvb(d, pre, prefixed) && pnil(d, L"n") }
pub open spec fn pvd(d: D, pre: Seq<u8>, prefixed: bool, c: Seq<u8>) -> bool { isdig(c) && szok(pdum(d, c), None) && mtext(c, 0, digestf(c, pser(d, c))) == pre && (prefixed ==> pfx(d, pre)) }
pub open spec fn pver(d: D, m: (Seq<u8>, nat, Seq<u8>), prefixed: bool) -> bool {
    let c = m.0; let t = mtext(m.0, m.1, m.2);
    pilk(d) && (if pcnon(c) { pvn(d, t, prefixed) } else if pctra(c) { pvb(d, t, prefixed) } else { pvd(d, t, prefixed, c) })
}
//@fn core::prefixer::verify_nontransferable as verify_nontransferable
//@params ked pre prefixed
    ensures r is Ok && r->Ok_0 <==> pvn(dv(*ked), pre@, prefixed)
//@start
    proof { lemma_dvos(); lemma_dv(*ked); }
//@end
//@fn core::prefixer::verify_transferable as verify_transferable
//@params ked pre prefixed
    ensures r is Ok && r->Ok_0 <==> pvb(dv(*ked), pre@, prefixed)
//@start
    proof { lemma_dvos(); lemma_dv(*ked); }
//@end
//@fn core::prefixer::verify_digest as verify_digest
//@params ked pre prefixed code
    requires dv(*ked) is Obj
    ensures pfit(dv(*ked), code@) ==> (r is Ok && r->Ok_0 <==> pvd(dv(*ked), pre@, prefixed, code@))
//@start
    hide(json); hide(mfs); hide(szok); hide(szdoc); hide(isdig); hide(put); hide(mtext);
    proof { lemma_dvos(); lemma_dv(*ked); let c = code@; if isdig(c) { let s = pser(dv(*ked), c); lemma_dig(c, s); } }
//@end
impl Prefixer {
//@fn core::prefixer::Prefixer::new as new
//@params ked allows code raw qb64b qb64 qb2
    ensures r is Ok ==> prefcode(r->Ok_0.m_code()) && mvalid(r->Ok_0.m_code(), r->Ok_0.m_size(), r->Ok_0.m_raw()),
        // raw material or a qualified prefix
        raw is Some || qb64b is Some || qb64 is Some || qb2 is Some ==> ({ let v = mdet(os(code), ob(raw), ob(qb64b), os(qb64), ob(qb2));
            (r is Ok ==> v == Some(mval(r->Ok_0)) && prefcode(dflt(os(code), L"B"))) && (v is Some && prefcode((v->0).0) && prefcode(dflt(os(code), L"B")) && mutf(ob(raw), ob(qb64b)) ==> r is Ok) }),
        // an event
        raw is None && qb64b is None && qb64 is None && qb2 is None ==> (r is Ok ==> ked is Some && pilk(dv(*ked->0))) && (ked is Some ==> ({ let d = dv(*ked->0); let c = pcode(d, os(code));
            (c is Some && (!isdig(c->0) || pfit(d, c->0)) ==> (r is Ok <==> prefcode(c->0) && pallow(allows, c->0) && pok(d, c->0)) && (r is Ok ==> mval(r->Ok_0) == (c->0, 0nat, praw(d, c->0))))
            && (c is None ==> r is Err) })),
//@start
    hide(json); hide(put); hide(mfs); hide(szok); hide(mok); hide(isdig); hide(mknown);
    proof {
        lemma_dvos(); lemma_sdet();
        if ked is Some { let d = dv(*ked->0); lemma_dv(*ked->0); let c = pcode(d, os(code)); if c is Some { lemma_pcode(c->0); if isdig(c->0) { lemma_dig(c->0, pser(d, c->0)); } else if pok(d, c->0) { lemma_pkey(pkey(d)); } } }
    }
//@end
//@fn core::prefixer::Prefixer::new_with_ked as new_with_ked
//@params ked allows code
    ensures r is Ok ==> prefcode(r->Ok_0.m_code()) && pilk(dv(*ked)),
        ({ let d = dv(*ked); let c = pcode(d, os(code));
            (c is Some && (!isdig(c->0) || pfit(d, c->0)) ==> (r is Ok <==> prefcode(c->0) && pallow(allows, c->0) && pok(d, c->0)) && (r is Ok ==> mval(r->Ok_0) == (c->0, 0nat, praw(d, c->0))))
            && (c is None ==> r is Err) })
//@end
//@fn core::prefixer::Prefixer::new_with_raw as new_with_raw
//@params raw code
    ensures r is Ok ==> prefcode(r->Ok_0.m_code()) && mdet(os(code), Some(raw@), None, None, None) == Some(mval(r->Ok_0)),
        ({ let v = mdet(os(code), Some(raw@), None, None, None); v is Some && prefcode((v->0).0) && prefcode(dflt(os(code), L"B")) ==> r is Ok })
//@end
//@fn core::prefixer::Prefixer::new_with_qb64b as new_with_qb64b
//@params qb64b
    ensures r is Ok ==> prefcode(r->Ok_0.m_code()) && mdet(None, None, Some(qb64b@), None, None) == Some(mval(r->Ok_0)),
        mok(qb64b@) && ascii(qb64b@) && prefcode(qc(qb64b@)) ==> r is Ok
//@start
    proof { lemma_cid4(L"B"); }
//@end
//@fn core::prefixer::Prefixer::new_with_qb64 as new_with_qb64
//@params qb64
    ensures r is Ok ==> prefcode(r->Ok_0.m_code()) && mdet(None, None, None, Some(qb64@), None) == Some(mval(r->Ok_0)),
        mok(qb64@) && prefcode(qc(qb64@)) ==> r is Ok
//@start
    proof { lemma_cid4(L"B"); }
//@end
//@fn core::prefixer::Prefixer::new_with_qb2 as new_with_qb2
//@params qb2
    ensures r is Ok ==> prefcode(r->Ok_0.m_code()) && mdet(None, None, None, None, Some(qb2@)) == Some(mval(r->Ok_0)),
        mokb(qb2@) && prefcode(bc(qb2@)) ==> r is Ok
//@start
    proof { lemma_cid4(L"B"); }
//@end
//@fn core::prefixer::Prefixer::verify as verify
//@params ked prefixed
    ensures ({ let d = dv(*ked); let p = prefixed is Some && prefixed->0;
        mvalid(self.m_code(), self.m_size(), self.m_raw()) && (!isdig(self.m_code()) || pfit(d, self.m_code())) ==> (r is Ok && r->Ok_0 <==> pver(d, mval(*self), p)) }), !pilk(dv(*ked)) ==> r is Err
//@start
    hide(json); hide(mfs); hide(szok); hide(put); hide(mtext);
    proof { lemma_cids(); lemma_pcode(self.m_code()); lemma_dvos(); }
//@end
}
/// the fields of the dummied, sized event
pub proof fn lemma_pfield(d: D, c: Seq<u8>, k: Seq<u8>)
    requires d is Obj, dist(d->Obj_0), szok(pdum(d, c), None)
    ensures ({ let s = szdoc(pdum(d, c)); s is Obj && dist(s->Obj_0)
        && (k != L"i" && k != L"d" && k != L"v" ==> hask(s->Obj_0, k) == hask(d->Obj_0, k) && (hask(d->Obj_0, k) ==> valk(s->Obj_0, k) == valk(d->Obj_0, k))) })
{
    hide(json); hide(vstr); hide(vsok);
    let a = put(d->Obj_0, L"i", dum(c)); let e = pdum(d, c);
    lemma_putdist(d->Obj_0, L"i", dum(c), k); lemma_putdist(a, L"d", dum(c), k); lemma_putdist(e->Obj_0, L"v", D::Str(sznew(e)), k);
}
/// C21: a derived prefix verifies against its event: a basic one is the single signing key in full, a self-addressing one the digest of the event with dummies; what is no inception is refused
fn thm_c21_made(ked: &Value, allows: Option<&[&XString]>, code: Option<&XString>, other: &Prefixer)
    requires ({ let c = pcode(dv(*ked), os(code)); c is Some ==> pfit(dv(*ked), c->0) }), mvalid(other.m_code(), other.m_size(), other.m_raw()), pfit(dv(*ked), other.m_code())
{
    hide(json); hide(mtext); hide(szok); hide(digestf); hide(isdig); hide(mok);
    let ghost d = dv(*ked);
    proof { lemma_cids(); }
    if let Ok(p) = Prefixer::new_with_ked(ked, allows, code) {
        let ghost c = p.m_code(); let ghost t = mtext(p.m_code(), p.m_size(), p.m_raw());
        proof { lemma_pcode(c); if isdig(c) { lemma_dig(c, pser(d, c)); } else { lemma_pkey(pkey(d)); } }
        let v = p.verify(ked, None);
        assert(v is Ok && v->Ok_0);
        let w = p.verify(ked, Some(true));
        assert(w is Ok && w->Ok_0 <==> pfx(d, t));
        assert(!isdig(c) ==> pone(d) && pkey(d) == t && qc(pkey(d)) == c);
        assert(pcnon(c) ==> pnil(d, L"n"));
        assert(isdig(c) ==> p.m_raw() == digestf(c, pser(d, c)));
        assert(code is Some ==> c == code->0@);
        assert(allows is Some && allows->0@.len() > 0 ==> anyc(allows->0@, cid(c)));
    }
    let v = other.verify(ked, Some(true));
    assert(v is Ok && v->Ok_0 && !isdig(other.m_code()) ==> pone(d) && pkey(d) == mtext(other.m_code(), other.m_size(), other.m_raw()));
    assert(v is Ok && v->Ok_0 ==> pfx(d, mtext(other.m_code(), other.m_size(), other.m_raw())));
    assert(!pilk(d) ==> v is Err);
    let n = Prefixer::new_with_ked(ked, allows, code);
    assert(!pilk(d) ==> n is Err);
}
/// C21: two events verify against one self-addressing prefix only if they agree in every field but the prefix, the identifier and the version string (or two texts with one digest are known)
fn thm_c21_bound(p: &Prefixer, a: &Value, b: &Value, prefixed: bool)
    requires mvalid(p.m_code(), p.m_size(), p.m_raw()), isdig(p.m_code()), ({ let c = p.m_code(); pfit(dv(*a), c) && pfit(dv(*b), c) && tame(szdoc(pdum(dv(*a), c)), 127) && tame(szdoc(pdum(dv(*b), c)), 127) })
{
    hide(json); hide(mtext); hide(szok); hide(digestf); hide(isdig); hide(tame);
    let ghost c = p.m_code(); let ghost da = dv(*a); let ghost db = dv(*b);
    let x = p.verify(a, Some(prefixed)); let y = p.verify(b, Some(prefixed));
    if let (Ok(true), Ok(true)) = (x, y) {
        let ghost ta = pser(da, c); let ghost tb = pser(db, c);
        proof {
            lemma_cids(); lemma_pcode(c); lemma_dig(c, ta); lemma_dig(c, tb); lemma_mself(c, 0, digestf(c, ta)); lemma_mself(c, 0, digestf(c, tb));
            assert(digestf(c, ta) == digestf(c, tb));
            lemma_dv(*a); lemma_dv(*b); axiom_unjson(szdoc(pdum(da, c))); axiom_unjson(szdoc(pdum(db, c)));
            assert forall|k: Seq<u8>| ta == tb && k != L"i" && k != L"d" && k != L"v" implies #[trigger] hask(da->Obj_0, k) == hask(db->Obj_0, k) && (hask(da->Obj_0, k) ==> valk(da->Obj_0, k) == valk(db->Obj_0, k)) by { lemma_pfield(da, c, k); lemma_pfield(db, c, k); }
        }
        assert(prefixed ==> valk(da->Obj_0, L"i") == valk(db->Obj_0, L"i"));
    }
}
