//@imports matter crypto common diger
use super::data::indexmap::IndexMap;
// ------------------------------------------------------------------ self-addressing identifiers
//@include mimpl.inc M=core::saider T=Saider
//@fn core::saider::validate_code as saider_validate_code
//@params code
    ensures r is Ok <==> isdig(code@)
//@end
/// the keys of an ignore list
pub open spec fn igs(x: Option<&[&XString]>) -> Seq<Seq<u8>> { if x is Some { Seq::new(x->0@.len(), |i: int| x->0@[i]@) } else { Seq::empty() } }
/// the identifier field holding a dummy of the identifier's own length
pub open spec fn dum(c: Seq<u8>) -> D { D::Str(rep(35u8, mfs(c))) }
pub open spec fn sdum(d: D, c: Seq<u8>, l: Seq<u8>) -> D { D::Obj(put(d->Obj_0, l, dum(c))) }
/// and the version string stating the size of that document
pub open spec fn sdoc(d: D, c: Seq<u8>, l: Seq<u8>) -> D { let e = sdum(d, c, l); if hask(e->Obj_0, L"v") { szdoc(e) } else { e } }
pub open spec fn strip(o: Seq<(Seq<u8>, D)>, ks: Seq<Seq<u8>>, n: int) -> Seq<(Seq<u8>, D)> decreases n { if n <= 0 { o } else { del(strip(o, ks, n - 1), ks[n - 1]) } }
/// the serialization an identifier digests
pub open spec fn sser(d: D, c: Seq<u8>, l: Seq<u8>, ks: Seq<Seq<u8>>) -> Seq<u8> { json(D::Obj(strip(sdoc(d, c, l)->Obj_0, ks, ks.len() as int))) }
pub open spec fn derok(d: D, c: Seq<u8>, l: Seq<u8>, kind: Option<Seq<u8>>) -> bool {
    isdig(c) && d is Obj && (if hask(sdum(d, c, l)->Obj_0, L"v") { szok(sdum(d, c, l), kind) } else { okkind(dflt(kind, L"JSON")) })
}
/// documents of less than 4 GiB
pub open spec fn sfit(d: D, c: Seq<u8>, l: Seq<u8>) -> bool { json(sdum(d, c, l)).len() < 0x1_0000_0000 }
/// map operations and the document
pub proof fn lemma_dvos()
    ensures forall|o: Seq<(Seq<u8>, Value)>, k: Seq<u8>| #![trigger hask(o, k)] hask(o, k) == hask(dvo(o), k),
        forall|o: Seq<(Seq<u8>, Value)>, k: Seq<u8>| #![trigger valk(o, k)] hask(o, k) ==> dv(valk(o, k)) == valk(dvo(o), k),
        forall|o: Seq<(Seq<u8>, Value)>, k: Seq<u8>| #![trigger del(o, k)] dvo(del(o, k)) == del(dvo(o), k)
{
    assert forall|o: Seq<(Seq<u8>, Value)>, k: Seq<u8>| #![trigger hask(o, k)] hask(o, k) == hask(dvo(o), k) by { lemma_dvo(o, k, Value::Null); }
    assert forall|o: Seq<(Seq<u8>, Value)>, k: Seq<u8>| #![trigger valk(o, k)] hask(o, k) implies dv(valk(o, k)) == valk(dvo(o), k) by { lemma_dvo(o, k, Value::Null); }
    assert forall|o: Seq<(Seq<u8>, Value)>, k: Seq<u8>| #![trigger del(o, k)] dvo(del(o, k)) == del(dvo(o), k) by { lemma_dvo(o, k, Value::Null); }
}
/// a sized document has a version string this version reads
pub proof fn lemma_szv(d: D)
    requires d is Obj, hask(d->Obj_0, L"v"), valk(d->Obj_0, L"v") is Str, vsok(szold(d)), json(d).len() < 0x100_0000
    ensures hask(szdoc(d)->Obj_0, L"v"), valk(szdoc(d)->Obj_0, L"v") == D::Str(sznew(d)), vsok(sznew(d)), sznew(d).len() == 17, vid(sznew(d), 0) == vid(szold(d), 0), vmaj(sznew(d), 0) == 1, vmin(sznew(d), 0) == 0, vsize(sznew(d), 0) == json(d).len()
{
    lemma_vstr(vid(szold(d), 0), 1, 0, L"JSON", json(d).len());
    lemma_putput(d->Obj_0, L"v", D::Str(sznew(d)), D::Null);
}
pub proof fn lemma_ndel(o: Seq<(Seq<u8>, D)>, k: Seq<u8>, j: Seq<u8>)
    requires dist(o)
    ensures dist(del(o, k)), !hask(del(o, k), k), k != j ==> hask(del(o, k), j) == hask(o, j), k != j && hask(o, j) ==> valk(del(o, k), j) == valk(o, j)
{
    lemma_kpos(o, k); lemma_kpos(o, j);
    let p = pos(o, k); let q = del(o, k);
    if p >= 0 {
        assert forall|a: int| 0 <= a < q.len() implies #[trigger] q[a] == (if a < p { o[a] } else { o[a + 1] }) by {}
        lemma_kpos(q, k); lemma_kpos(q, j);
        assert forall|a: int, b: int| 0 <= a < b < q.len() implies (#[trigger] q[a]).0 != (#[trigger] q[b]).0 by {}
        if k != j && hask(o, j) {
            let a = pos(o, j); let b = if a < p { a } else { a - 1 };
            assert(q[b].0 == j);
            assert(pos(q, j) >= 0);
            lemma_pos_at(q, b);
        }
    }
}
pub open spec fn inks(ks: Seq<Seq<u8>>, n: int, k: Seq<u8>) -> bool { exists|i: int| 0 <= i < n && #[trigger] ks[i] == k }
/// what is left of a field after the ignored ones are dropped
pub proof fn lemma_strip(o: Seq<(Seq<u8>, D)>, ks: Seq<Seq<u8>>, n: int, k: Seq<u8>)
    requires dist(o), 0 <= n <= ks.len()
    ensures dist(strip(o, ks, n)), inks(ks, n, k) ==> !hask(strip(o, ks, n), k), !inks(ks, n, k) ==> hask(strip(o, ks, n), k) == hask(o, k) && (hask(o, k) ==> valk(strip(o, ks, n), k) == valk(o, k))
    decreases n
{
    if n > 0 {
        lemma_strip(o, ks, n - 1, k);
        lemma_ndel(strip(o, ks, n - 1), ks[n - 1], k);
        if inks(ks, n, k) { let i = choose|i: int| 0 <= i < n && #[trigger] ks[i] == k; if i < n - 1 { assert(inks(ks, n - 1, k)); } }
        else { assert(ks[n - 1] != k); assert(!inks(ks, n - 1, k)) by { if inks(ks, n - 1, k) { let i = choose|i: int| 0 <= i < n - 1 && #[trigger] ks[i] == k; assert(ks[i] == k); } } }
    }
}
pub proof fn lemma_putdist(o: Seq<(Seq<u8>, D)>, k: Seq<u8>, v: D, j: Seq<u8>)
    requires dist(o)
    ensures dist(put(o, k, v)), j != k ==> hask(put(o, k, v), j) == hask(o, j) && (hask(o, j) ==> valk(put(o, k, v), j) == valk(o, j)), hask(put(o, k, v), k), valk(put(o, k, v), k) == v
{
    lemma_kpos(o, k); lemma_kpos(o, j); lemma_putput(o, k, v, v);
    let q = put(o, k, v);
    assert forall|a: int, b: int| 0 <= a < b < q.len() implies (#[trigger] q[a]).0 != (#[trigger] q[b]).0 by { if hask(o, k) { let p = pos(o, k); if a == p || b == p {} } else if b == q.len() - 1 { assert(o[a].0 != k); } }
    lemma_kpos(q, j);
    if j != k {
        if hask(o, j) { let a = pos(o, j); assert(q[a] == o[a]); lemma_pos_at(q, a); }
        else if hask(q, j) { let a = pos(q, j); assert(q[a].0 == j); if a < o.len() && a != pos(o, k) { assert(o[a].0 == j); } }
    }
}
//@fn core::saider::serialize as saider_serialize
//@params sad kind
    ensures r is Ok <==> dv(*sad) is Obj && (hask(dv(*sad)->Obj_0, L"v") ==> valk(dv(*sad)->Obj_0, L"v") is Str && vsok(valk(dv(*sad)->Obj_0, L"v")->Str_0)) && (kind is Some ==> okkind(kind->0@)),
        r is Ok ==> r->Ok_0@ == json(dv(*sad))
//@start
    hide(rv); hide(json); hide(vkind);
    proof { lemma_dvos(); if dv(*sad) is Obj && hask(dv(*sad)->Obj_0, L"v") && valk(dv(*sad)->Obj_0, L"v") is Str { assert(vsok(valk(dv(*sad)->Obj_0, L"v")->Str_0) ==> okkind(vkind(valk(dv(*sad)->Obj_0, L"v")->Str_0, 0))); } }
//@end
//@fn core::saider::derive as saider_derive
//@params sad code kind label ignore
    ensures ({ let d = dv(*sad); let c = dflt(os(code), L"E"); let l = dflt(os(label), L"d");
        sfit(d, c, l) ==> (r is Ok <==> derok(d, c, l, os(kind))) && (r is Ok ==> r->Ok_0.0@ == digestf(c, sser(d, c, l, igs(ignore))) && dv(r->Ok_0.1) == sdoc(d, c, l)) }),
        r is Ok ==> dv(*sad) is Obj && dv(r->Ok_0.1) is Obj && (hask(dv(*sad)->Obj_0, L"v") ==> hask(dv(r->Ok_0.1)->Obj_0, L"v"))
//@start
    hide(json); hide(put); hide(del); hide(vsok); hide(vstr); hide(vpos); hide(mfs); hide(hask); hide(valk);
    let ghost d = dv(*sad); let ghost c = dflt(os(code), L"E"); let ghost l = dflt(os(label), L"d"); let ghost ks = igs(ignore); let ghost o = sdoc(d, c, l)->Obj_0;
    proof { lemma_dvos(); lemma_dv(*sad); if isdig(c) { lemma_dig(c, Seq::empty()); } axiom_ascii_utf8(rep(35u8, mfs(c)));
        let e = sdum(d, c, l);
        if d is Obj {
            lemma_putdist(d->Obj_0, l, dum(c), L"v");
            if szok(e, os(kind)) { lemma_szv(e); lemma_putdist(e->Obj_0, L"v", D::Str(sznew(e)), L"v"); lemma_strip(szdoc(e)->Obj_0, ks, ks.len() as int, L"v"); } else { lemma_strip(e->Obj_0, ks, ks.len() as int, L"v"); }
        }
    }
//@ref 0
//@loop 0
    invariant sfit(d, c, l) ==> dvo(map.ent()) == strip(o, ks, __i0 as int), __v0@.len() == ks.len(), forall|i: int| 0 <= i < ks.len() ==> #[trigger] ks[i] == __v0@[i]@
//@loopstart 0
    proof { assert(ks[__i0 as int] == __v0@[__i0 as int]@); assert(!hask(dvo(map.ent()), ks[__i0 as int]) ==> del(dvo(map.ent()), ks[__i0 as int]) == dvo(map.ent())) by { reveal(del); } }
//@end

/// the identifier of a document
pub open spec fn smat(d: D, c: Seq<u8>, l: Seq<u8>, ks: Seq<Seq<u8>>) -> (Seq<u8>, nat, Seq<u8>) { digm(c, sser(d, c, l, ks)) }
/// the algorithm a document asks for
pub open spec fn scode(d: D, code: Option<Seq<u8>>, l: Seq<u8>) -> Option<Seq<u8>> {
    if d is Obj && hask(d->Obj_0, l) {
        if code is Some { code } else {
            let v = valk(d->Obj_0, l);
            if v is Str { let s = v->Str_0; if s.len() == 0 { Some(L"E") } else if mok(s) { Some(qc(s)) } else { None } } else { None }
        }
    } else { None }
}
/// a digest comes from a digest code, and every constructed primitive is valid
pub proof fn lemma_sdet()
    ensures forall|c: Option<Seq<u8>>, w: Option<Seq<u8>>, b: Option<Seq<u8>>, t: Option<Seq<u8>>, d: Option<Seq<u8>>| (#[trigger] mdet(c, w, b, t, d)) is Some ==> ({ let v = mdet(c, w, b, t, d)->0; mvalid(v.0, v.1, v.2) && (w is Some && isdig(v.0) ==> c == Some(v.0)) && (w is Some && isdig(c->0) ==> v.0 == c->0) })
{
    assert forall|c: Option<Seq<u8>>, w: Option<Seq<u8>>, b: Option<Seq<u8>>, t: Option<Seq<u8>>, d: Option<Seq<u8>>| (#[trigger] mdet(c, w, b, t, d)) is Some implies ({ let v = mdet(c, w, b, t, d)->0; mvalid(v.0, v.1, v.2) && (w is Some && isdig(v.0) ==> c == Some(v.0)) && (w is Some && isdig(c->0) ==> v.0 == c->0) }) by {
        lemma_mdet(c, w, b, t, d);
        let v = mdet(c, w, b, t, d)->0;
        if w is Some && isdig(v.0) { lemma_mnew(c->0, w->0); lemma_dig(v.0, Seq::empty()); }
        if w is Some && isdig(c->0) { lemma_dig(c->0, Seq::empty()); }
    }
}
/// the identified document
pub open spec fn said(d: D, c: Seq<u8>, l: Seq<u8>, ks: Seq<Seq<u8>>) -> D { D::Obj(put(sdoc(d, c, l)->Obj_0, l, D::Str(mtext(c, 0, digestf(c, sser(d, c, l, ks)))))) }
/// a document verifies against an identifier
pub open spec fn svok(d: D, m: (Seq<u8>, nat, Seq<u8>), l: Seq<u8>, ks: Seq<Seq<u8>>, kind: Option<Seq<u8>>, prefixed: bool, versioned: bool) -> bool {
    &&& derok(d, m.0, l, kind) && m == smat(d, m.0, l, ks)
    &&& versioned && hask(d->Obj_0, L"v") ==> valk(d->Obj_0, L"v") == valk(sdoc(d, m.0, l)->Obj_0, L"v")
    &&& prefixed ==> hask(d->Obj_0, l) && valk(d->Obj_0, l) == D::Str(mtext(m.0, m.1, m.2))
}
/// sizing a sized document changes nothing
pub proof fn lemma_szagain(d: D, kind: Option<Seq<u8>>)
    requires szok(d, kind)
    ensures szok(szdoc(d), kind), szdoc(szdoc(d)) == szdoc(d), json(szdoc(d)).len() == json(d).len()
{
    hide(json); hide(vstr); hide(vsok);
    lemma_szv(d);
    let e = szdoc(d); let t = json(d); let p = vpos(t);
    assert(rv(sznew(d), 0)) by { reveal(vsok); }
    lemma_revs(t, sznew(d));
    let u = json(e);
    assert(u == t.subrange(0, p) + sznew(d) + t.skip(p + 17));
    assert(sznew(e) == sznew(d));
    lemma_putput(d->Obj_0, L"v", D::Str(sznew(d)), D::Str(sznew(d)));
    assert(szdoc(e) == e);
    lemma_vfind(t, 0, 0);
    assert(u.subrange(0, p) + sznew(e) + u.skip(p + 17) =~= u);
}
/// the identifier field with its dummy does not clash with the version string
pub proof fn lemma_sv(d: D, c: Seq<u8>, l: Seq<u8>, kind: Option<Seq<u8>>)
    requires derok(d, c, l, kind), d is Obj, dist(d->Obj_0)
    ensures l == L"v" ==> !hask(d->Obj_0, L"v") && false, hask(d->Obj_0, L"v") == hask(sdum(d, c, l)->Obj_0, L"v"), hask(d->Obj_0, L"v") ==> valk(d->Obj_0, L"v") == valk(sdum(d, c, l)->Obj_0, L"v") && valk(d->Obj_0, L"v") is Str
        && hask(sdoc(d, c, l)->Obj_0, L"v") && valk(sdoc(d, c, l)->Obj_0, L"v") == D::Str(sznew(sdum(d, c, l))) && vsok(sznew(sdum(d, c, l))),
        dist(sdoc(d, c, l)->Obj_0), hask(sdoc(d, c, l)->Obj_0, l), valk(sdoc(d, c, l)->Obj_0, l) == dum(c), sdoc(d, c, l) is Obj
{
    hide(json); hide(vstr);
    lemma_putdist(d->Obj_0, l, dum(c), L"v");
    let e = sdum(d, c, l);
    if l == L"v" { let v = rep(35u8, mfs(c)); assert(szold(e) == v); assert(v.len() == 17 ==> v[0] == 35u8); assert(false); }
    if hask(e->Obj_0, L"v") { lemma_szv(e); lemma_putdist(e->Obj_0, L"v", D::Str(sznew(e)), l); }
}
/// deriving from what was derived
pub proof fn lemma_sagain(d: D, c: Seq<u8>, l: Seq<u8>, kind: Option<Seq<u8>>)
    requires derok(d, c, l, kind), d is Obj, dist(d->Obj_0)
    ensures derok(sdoc(d, c, l), c, l, kind), sdoc(sdoc(d, c, l), c, l) == sdoc(d, c, l), sdoc(d, c, l) is Obj, hask(sdoc(d, c, l)->Obj_0, l), json(sdum(sdoc(d, c, l), c, l)).len() == json(sdum(d, c, l)).len(), sdum(sdoc(d, c, l), c, l) == sdoc(d, c, l)
{
    hide(json); hide(vstr); hide(vsok); hide(szok);
    lemma_sv(d, c, l, kind);
    let e = sdum(d, c, l); let s = sdoc(d, c, l);
    if hask(e->Obj_0, L"v") { lemma_szagain(e, kind); }
    lemma_sput(s->Obj_0, l);
    assert(sdum(s, c, l) == s);
}
pub proof fn lemma_sput(o: Seq<(Seq<u8>, D)>, l: Seq<u8>)
    requires hask(o, l)
    ensures put(o, l, valk(o, l)) == o
{ lemma_kpos(o, l); assert(put(o, l, valk(o, l)) =~= o); }
impl Saider {
//@fn core::saider::Saider::new as new
//@params sad label kind ignore code raw qb64b qb64 qb2
    ensures r is Ok ==> isdig(r->Ok_0.m_code()) && mvalid(r->Ok_0.m_code(), r->Ok_0.m_size(), r->Ok_0.m_raw()),
        // raw material or a qualified identifier
        (raw is None ==> sad is None) && (raw is Some ==> code is Some) ==> ({ let v = mdet(os(code), ob(raw), ob(qb64b), os(qb64), ob(qb2));
            (r is Ok ==> v == Some(mval(r->Ok_0))) && (v is Some && isdig((v->0).0) && mutf(ob(raw), ob(qb64b)) ==> r is Ok) }),
        // a document
        sad is Some && (raw is None || code is None) ==> ({ let d = dv(*sad->0); let l = dflt(os(label), L"d"); let c = scode(d, os(code), l);
            (c is Some && sfit(d, c->0, l) ==> (r is Ok <==> derok(d, c->0, l, os(kind))) && (r is Ok ==> mval(r->Ok_0) == smat(d, c->0, l, igs(ignore))))
            && (c is None ==> r is Err) }),
        sad is None && raw is Some && code is None ==> r is Err,
//@start
    hide(json); hide(put); hide(del); hide(vpos); hide(mfs); hide(mknown); hide(szok); hide(sdoc); hide(mvalid); hide(isdig);
    proof { lemma_dvos(); if sad is Some { lemma_dv(*sad->0); let d = dv(*sad->0); let l = dflt(os(label), L"d"); let c = scode(d, os(code), l); if c is Some && isdig(c->0) { lemma_dig(c->0, sser(d, c->0, l, igs(ignore))); }
        }
        lemma_sdet(); }
//@end
//@fn core::saider::Saider::saidify as saidify
//@params sad code kind label ignore
    ensures ({ let d = dv(*sad); let c = dflt(os(code), L"E"); let l = dflt(os(label), L"d"); let ks = igs(ignore);
        sfit(d, c, l) ==> (r is Ok <==> d is Obj && hask(d->Obj_0, l) && derok(d, c, l, os(kind))) && (r is Ok ==> mval(r->Ok_0.0) == smat(d, c, l, ks) && dv(r->Ok_0.1) == said(d, c, l, ks)) })
//@start
    hide(json); hide(put); hide(del); hide(vpos); hide(mfs); hide(mknown); hide(szok); hide(sdoc); hide(szdoc); hide(isdig); hide(mtext);
    proof { let d = dv(*sad); let c = dflt(os(code), L"E"); let l = dflt(os(label), L"d"); let ks = igs(ignore);
        lemma_dvos(); lemma_dv(*sad); if sfit(d, c, l) && derok(d, c, l, os(kind)) { lemma_sagain(d, c, l, os(kind)); lemma_dig(c, sser(d, c, l, ks)); lemma_mself(c, 0, digestf(c, sser(d, c, l, ks))); } }
//@end
//@fn core::saider::Saider::verify as verify
//@params sad prefixed versioned kind label ignore
    ensures ({ let d = dv(*sad); let c = self.m_code(); let l = dflt(os(label), L"d"); let ks = igs(ignore); let p = prefixed is Some && prefixed->0; let v = versioned is None || versioned->0;
        sfit(d, c, l) && mvalid(self.m_code(), self.m_size(), self.m_raw()) ==> (r is Ok && r->Ok_0 <==> svok(d, mval(*self), l, ks, os(kind), p, v)) && (r is Err ==> p && d is Obj && hask(d->Obj_0, l) && !(valk(d->Obj_0, l) is Str)) })
//@start
    hide(json); hide(put); hide(del); hide(vpos); hide(mfs); hide(mknown); hide(szok); hide(sdoc); hide(szdoc); hide(isdig); hide(mtext);
    proof { let d = dv(*sad); let c = self.m_code(); let l = dflt(os(label), L"d"); let ks = igs(ignore);
        lemma_dvos(); lemma_dv(*sad); if d is Obj { lemma_putdist(d->Obj_0, l, dum(c), L"v"); } if mvalid(self.m_code(), self.m_size(), self.m_raw()) { lemma_mself(self.m_code(), self.m_size(), self.m_raw()); }
        if sfit(d, c, l) && derok(d, c, l, os(kind)) { lemma_sv(d, c, l, os(kind)); lemma_dig(c, sser(d, c, l, ks)); lemma_mself(c, 0, digestf(c, sser(d, c, l, ks))); } }
//@end
//@fn core::saider::Saider::new_with_sad as new_with_sad
//@params sad label kind ignore code
    ensures r is Ok ==> isdig(r->Ok_0.m_code()),
        ({ let d = dv(*sad); let l = dflt(os(label), L"d"); let c = scode(d, os(code), l);
            (c is Some && sfit(d, c->0, l) ==> (r is Ok <==> derok(d, c->0, l, os(kind))) && (r is Ok ==> mval(r->Ok_0) == smat(d, c->0, l, igs(ignore))))
            && (c is None ==> r is Err) })
//@end
//@fn core::saider::Saider::new_with_raw as new_with_raw
//@params raw code
    ensures r is Ok ==> isdig(r->Ok_0.m_code()) && mdet(os(code), Some(raw@), None, None, None) == Some(mval(r->Ok_0)),
        ({ let v = mdet(os(code), Some(raw@), None, None, None); v is Some && isdig((v->0).0) ==> r is Ok })
//@end
//@fn core::saider::Saider::new_with_qb64b as new_with_qb64b
//@params qb64b
    ensures r is Ok ==> isdig(r->Ok_0.m_code()) && mdet(None, None, Some(qb64b@), None, None) == Some(mval(r->Ok_0)),
        mok(qb64b@) && ascii(qb64b@) && isdig(qc(qb64b@)) ==> r is Ok
//@end
//@fn core::saider::Saider::new_with_qb64 as new_with_qb64
//@params qb64
    ensures r is Ok ==> isdig(r->Ok_0.m_code()) && mdet(None, None, None, Some(qb64@), None) == Some(mval(r->Ok_0)),
        mok(qb64@) && isdig(qc(qb64@)) ==> r is Ok
//@end
//@fn core::saider::Saider::new_with_qb2 as new_with_qb2
//@params qb2
    ensures r is Ok ==> isdig(r->Ok_0.m_code()) && mdet(None, None, None, None, Some(qb2@)) == Some(mval(r->Ok_0)),
        mokb(qb2@) && isdig(bc(qb2@)) ==> r is Ok
//@end
}
/// the identified document: what else it holds
pub proof fn lemma_said(d: D, c: Seq<u8>, l: Seq<u8>, ks: Seq<Seq<u8>>, kind: Option<Seq<u8>>)
    requires derok(d, c, l, kind), d is Obj, dist(d->Obj_0), hask(d->Obj_0, l)
    ensures ({ let s = said(d, c, l, ks); let o = d->Obj_0; let n = s->Obj_0;
        &&& s is Obj && dist(n) && n.len() == o.len() && (forall|i: int| 0 <= i < o.len() ==> (#[trigger] n[i]).0 == o[i].0)
        &&& forall|k: Seq<u8>| k != l && k != L"v" ==> #[trigger] hask(n, k) == hask(o, k) && (hask(o, k) ==> valk(n, k) == valk(o, k))
        &&& hask(n, l) && valk(n, l) == D::Str(mtext(c, 0, digestf(c, sser(d, c, l, ks))))
        &&& hask(o, L"v") ==> hask(n, L"v") && valk(n, L"v") is Str && valk(o, L"v") is Str && vsok(valk(n, L"v")->Str_0) && vid(valk(n, L"v")->Str_0, 0) == vid(valk(o, L"v")->Str_0, 0) && vmaj(valk(n, L"v")->Str_0, 0) == vmaj(valk(o, L"v")->Str_0, 0) && vmin(valk(n, L"v")->Str_0, 0) == vmin(valk(o, L"v")->Str_0, 0)
        // the same when asked again: the serialization is that of the document
        &&& sdum(s, c, l) == sdoc(d, c, l) && sdoc(s, c, l) == sdoc(d, c, l) && sser(s, c, l, ks) == sser(d, c, l, ks) && derok(s, c, l, kind)
        &&& hask(n, L"v") ==> valk(n, L"v") == valk(sdoc(s, c, l)->Obj_0, L"v") })
{
    hide(json); hide(vstr); hide(mtext);
    lemma_sv(d, c, l, kind); lemma_sagain(d, c, l, kind);
    let o = d->Obj_0; let q = D::Str(mtext(c, 0, digestf(c, sser(d, c, l, ks)))); let e = sdum(d, c, l); let z = sdoc(d, c, l); let s = said(d, c, l, ks);
    lemma_putput(z->Obj_0, l, q, dum(c)); lemma_sput(z->Obj_0, l);
    assert(sdum(s, c, l) == z) by { assert(put(s->Obj_0, l, dum(c)) == put(z->Obj_0, l, dum(c))); }
    assert(sdum(z, c, l) == z);
    lemma_kpos(o, l); lemma_kpos(e->Obj_0, L"v"); lemma_kpos(z->Obj_0, l);
    lemma_putdist(o, l, dum(c), L"v"); lemma_putdist(z->Obj_0, l, q, L"v");
    if hask(o, L"v") { lemma_szv(e); }
    assert forall|k: Seq<u8>| k != l && k != L"v" implies #[trigger] hask(s->Obj_0, k) == hask(o, k) && (hask(o, k) ==> valk(s->Obj_0, k) == valk(o, k)) by {
        lemma_putdist(o, l, dum(c), k);
        if hask(e->Obj_0, L"v") { lemma_putdist(e->Obj_0, L"v", D::Str(sznew(e)), k); }
        lemma_putdist(z->Obj_0, l, q, k);
    }
}
/// C20: the identifier of an identified document is the digest of its serialization with the dummy and without the ignored fields, it verifies, and the document differs in that field and the version string only
fn thm_c20_made(sad: &Value, code: Option<&XString>, kind: Option<&XString>, label: Option<&XString>, ignore: Option<&[&XString]>, prefixed: bool, versioned: bool)
    requires sfit(dv(*sad), dflt(os(code), L"E"), dflt(os(label), L"d"))
{
    hide(json); hide(mtext); hide(szok); hide(sser); hide(digestf); hide(vsok); hide(isdig);
    let ghost d = dv(*sad); let ghost c = dflt(os(code), L"E"); let ghost l = dflt(os(label), L"d"); let ghost ks = igs(ignore);
    if let Ok((saider, doc)) = Saider::saidify(sad, code, kind, label, ignore) {
        proof { lemma_dv(*sad); lemma_said(d, c, l, ks, os(kind)); lemma_sagain(d, c, l, os(kind)); lemma_dig(c, sser(d, c, l, ks)); }
        assert(saider.m_raw() == digestf(c, sser(d, c, l, ks)) && saider.m_code() == c);
        assert(forall|k: Seq<u8>| k != l && k != L"v" ==> #[trigger] hask(dv(doc)->Obj_0, k) == hask(d->Obj_0, k) && (hask(d->Obj_0, k) ==> valk(dv(doc)->Obj_0, k) == valk(d->Obj_0, k)));
        assert(forall|i: int| 0 <= i < d->Obj_0.len() ==> (#[trigger] dv(doc)->Obj_0[i]).0 == d->Obj_0[i].0);
        let v = saider.verify(&doc, Some(prefixed), Some(versioned), kind, label, ignore);
        assert(v is Ok && v->Ok_0);
        let n = Saider::new_with_sad(&doc, label, kind, ignore, code);
        assert(code is Some ==> n is Ok && mval(n->Ok_0) == mval(saider));
    }
}
/// C20: two documents verify against one identifier only if they agree in every field that is neither ignored nor the identifier's (or two texts with one digest are known)
fn thm_c20_bound(saider: &Saider, a: &Value, b: &Value, kind: Option<&XString>, label: Option<&XString>, ignore: Option<&[&XString]>, prefixed: bool, versioned: bool)
    requires ({ let c = saider.m_code(); let l = dflt(os(label), L"d"); sfit(dv(*a), c, l) && sfit(dv(*b), c, l) }), mvalid(saider.m_code(), saider.m_size(), saider.m_raw()),
        ({ let l = dflt(os(label), L"d"); let ks = igs(ignore); let c = saider.m_code(); let n = ks.len() as int; tame(D::Obj(strip(sdoc(dv(*a), c, l)->Obj_0, ks, n)), 127) && tame(D::Obj(strip(sdoc(dv(*b), c, l)->Obj_0, ks, n)), 127) })
{
    hide(json); hide(mtext); hide(szok); hide(digestf); hide(vsok); hide(isdig); hide(strip); hide(tame);
    let ghost c = saider.m_code(); let ghost l = dflt(os(label), L"d"); let ghost ks = igs(ignore); let ghost da = dv(*a); let ghost db = dv(*b);
    let x = saider.verify(a, Some(prefixed), Some(versioned), kind, label, ignore);
    let y = saider.verify(b, Some(prefixed), Some(versioned), kind, label, ignore);
    if let (Ok(true), Ok(true)) = (x, y) {
        let ghost ta = sser(da, c, l, ks); let ghost tb = sser(db, c, l, ks);
        assert(digestf(c, ta) == digestf(c, tb));
        proof {
            lemma_dv(*a); lemma_dv(*b);
            lemma_sv(da, c, l, os(kind)); lemma_sv(db, c, l, os(kind));
            let sa = strip(sdoc(da, c, l)->Obj_0, ks, ks.len() as int); let sb = strip(sdoc(db, c, l)->Obj_0, ks, ks.len() as int);
            axiom_unjson(D::Obj(sa)); axiom_unjson(D::Obj(sb));
            assert(ta == tb ==> sa == sb);
            assert forall|k: Seq<u8>| ta == tb && !inks(ks, ks.len() as int, k) && k != l && k != L"v" implies #[trigger] hask(da->Obj_0, k) == hask(db->Obj_0, k) && (hask(da->Obj_0, k) ==> valk(da->Obj_0, k) == valk(db->Obj_0, k)) by {
                lemma_sfield(da, c, l, ks, k); lemma_sfield(db, c, l, ks, k);
            }
            if !inks(ks, ks.len() as int, L"v") {
                lemma_strip(sdoc(da, c, l)->Obj_0, ks, ks.len() as int, L"v"); lemma_strip(sdoc(db, c, l)->Obj_0, ks, ks.len() as int, L"v");
                lemma_putdist(da->Obj_0, l, dum(c), L"v"); lemma_putdist(db->Obj_0, l, dum(c), L"v");
                assert(ta == tb ==> hask(da->Obj_0, L"v") == hask(db->Obj_0, L"v") && (versioned && hask(da->Obj_0, L"v") ==> valk(da->Obj_0, L"v") == valk(db->Obj_0, L"v")));
            }
        }
        assert(prefixed ==> valk(da->Obj_0, l) == valk(db->Obj_0, l));
    }
}
pub proof fn lemma_sfield(d: D, c: Seq<u8>, l: Seq<u8>, ks: Seq<Seq<u8>>, k: Seq<u8>)
    requires d is Obj, dist(d->Obj_0), k != l, k != L"v", !inks(ks, ks.len() as int, k)
    ensures ({ let s = strip(sdoc(d, c, l)->Obj_0, ks, ks.len() as int); hask(s, k) == hask(d->Obj_0, k) && (hask(d->Obj_0, k) ==> valk(s, k) == valk(d->Obj_0, k)) })
{
    let e = sdum(d, c, l);
    lemma_putdist(d->Obj_0, l, dum(c), k);
    if hask(e->Obj_0, L"v") { lemma_putdist(e->Obj_0, L"v", D::Str(sznew(e)), k); }
    lemma_strip(sdoc(d, c, l)->Obj_0, ks, ks.len() as int, k);
}
