//@imports util data
use super::data::indexmap::IndexMap;
use super::data::indexmap;
use super::data::serde_json;
// ------------------------------------------------------------------ version strings
pub open spec fn upc(c: u8) -> bool { 65 <= c <= 90 }
pub open spec fn lhx(c: u8) -> bool { 48 <= c <= 57 || 97 <= c <= 102 }
/// a version string stands at p
pub open spec fn rv(s: Seq<u8>, p: int) -> bool {
    0 <= p && p + 17 <= s.len() && upc(s[p]) && upc(s[p + 1]) && upc(s[p + 2]) && upc(s[p + 3]) && lhx(s[p + 4]) && lhx(s[p + 5])
    && upc(s[p + 6]) && upc(s[p + 7]) && upc(s[p + 8]) && upc(s[p + 9])
    && lhx(s[p + 10]) && lhx(s[p + 11]) && lhx(s[p + 12]) && lhx(s[p + 13]) && lhx(s[p + 14]) && lhx(s[p + 15]) && s[p + 16] == 95
}
/// first version string at or after p, -1 if there is none
pub open spec fn vfind(s: Seq<u8>, p: int) -> int decreases s.len() - p { if p < 0 || p + 17 > s.len() { -1 } else if rv(s, p) { p } else { vfind(s, p + 1) } }
pub open spec fn vpos(s: Seq<u8>) -> int { vfind(s, 0) }
pub proof fn lemma_vfind(s: Seq<u8>, p: int, q: int)
    requires 0 <= p
    ensures rv(s, q) && p <= q && (forall|i: int| p <= i < q ==> !#[trigger] rv(s, i)) ==> vfind(s, p) == q,
        (forall|i: int| p <= i ==> !#[trigger] rv(s, i)) ==> vfind(s, p) == -1,
        vfind(s, p) >= 0 ==> vfind(s, p) >= p && rv(s, vfind(s, p)) && (forall|i: int| p <= i < vfind(s, p) ==> !#[trigger] rv(s, i)),
        vfind(s, p) < 0 ==> vfind(s, p) == -1 && forall|i: int| p <= i ==> !#[trigger] rv(s, i)
    decreases s.len() - p
{
    if p + 17 <= s.len() && !rv(s, p) { lemma_vfind(s, p + 1, q); }
}
// fields of the version string at p
pub open spec fn vid(s: Seq<u8>, p: int) -> Seq<u8> { s.subrange(p, p + 4) }
pub open spec fn vmaj(s: Seq<u8>, p: int) -> int { hexdv(s[p + 4]) }
pub open spec fn vmin(s: Seq<u8>, p: int) -> int { hexdv(s[p + 5]) }
pub open spec fn vkind(s: Seq<u8>, p: int) -> Seq<u8> { s.subrange(p + 6, p + 10) }
pub open spec fn vsize(s: Seq<u8>, p: int) -> nat { hval(s.subrange(p + 10, p + 16)) }
pub open spec fn okid(s: Seq<u8>) -> bool { s == L"KERI" || s == L"ACDC" }
pub open spec fn okkind(s: Seq<u8>) -> bool { s == L"JSON" }
/// the text of a version string
pub open spec fn vstr(id: Seq<u8>, ma: nat, mi: nat, kd: Seq<u8>, n: nat) -> Seq<u8> { id + hexpad(ma, 1) + hexpad(mi, 1) + kd + hexpad(n, 6) + seq![95u8] }
pub open spec fn vfits(id: Seq<u8>, ma: int, mi: int, kd: Seq<u8>, n: int) -> bool { okid(id) && okkind(kd) && 0 <= ma < 16 && 0 <= mi < 16 && 0 <= n < 0x100_0000 }
/// a version string this version reads
pub open spec fn vsok(s: Seq<u8>) -> bool { s.len() == 17 && rv(s, 0) && okid(vid(s, 0)) && okkind(vkind(s, 0)) }
// ------------------------------------------------------------------ hexadecimal fields
pub proof fn lemma_cids() ensures forall|a: Seq<u8>, b: Seq<u8>| #![trigger cid(a), cid(b)] cid(a) == cid(b) ==> a == b
{ assert forall|a: Seq<u8>, b: Seq<u8>| #![trigger cid(a), cid(b)] cid(a) == cid(b) implies a == b by { lemma_cid_inj(a, b); } }
pub open spec fn lhxs(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> lhx(#[trigger] s[i]) }
pub proof fn lemma_hval_lt(s: Seq<u8>) requires lhxs(s) ensures hval(s) < ipow(16, s.len()) decreases s.len()
{
    reveal_with_fuel(ipow, 2);
    if s.len() > 0 { assert(lhxs(s.drop_last())); lemma_hval_lt(s.drop_last()); assert(lhx(s[s.len() - 1])); assert(ipow(16, s.len()) == 16 * ipow(16, (s.len() - 1) as nat)); }
}
pub proof fn lemma_hexv(n: nat, w: nat)
    requires n < ipow(16, w), w > 0
    ensures 0 < hex(n).len() <= w, lhxs(hex(n)), hval(hex(n)) == n
    decreases w
{
    reveal_with_fuel(ipow, 2); reveal_with_fuel(hval, 2);
    assert(ipow(16, w) == 16 * ipow(16, (w - 1) as nat));
    if n < 16 { assert(hex(n).drop_last() =~= Seq::<u8>::empty()); }
    else {
        if w == 1 { assert(ipow(16, 0) == 1); }
        lemma_hexv(n / 16, (w - 1) as nat);
        assert(hex(n).drop_last() =~= hex(n / 16));
    }
}
pub proof fn lemma_hzero(k: nat, h: Seq<u8>) ensures hval(rep(48u8, k) + h) == hval(h) decreases k + h.len()
{
    let s = rep(48u8, k) + h;
    if h.len() > 0 { lemma_hzero(k, h.drop_last()); assert(s.drop_last() =~= rep(48u8, k) + h.drop_last()); }
    else if k > 0 { lemma_hzero((k - 1) as nat, h); assert(s.drop_last() =~= rep(48u8, (k - 1) as nat) + h); assert(s.last() == 48); }
    else { assert(s =~= h); }
}
pub proof fn lemma_hexpad(n: nat, w: nat)
    requires n < ipow(16, w), w > 0
    ensures hexpad(n, w).len() == w, lhxs(hexpad(n, w)), hval(hexpad(n, w)) == n
{
    lemma_hexv(n, w);
    let h = hex(n);
    if h.len() < w { lemma_hzero((w - h.len()) as nat, h); }
}
/// what the readers make of lower case fields
pub proof fn lemma_hfields()
    ensures forall|s: Seq<u8>| #![trigger ishex(s)] lhxs(s) && s.len() > 0 ==> ishex(s) && hxs(s) == s,
        forall|s: Seq<u8>| #![trigger hval(s)] lhxs(s) && s.len() == 1 ==> hval(s) == hexdv(s[0]) && hval(s) < 16,
        forall|s: Seq<u8>| #![trigger hval(s)] lhxs(s) && s.len() == 6 ==> hval(s) < 0x100_0000,
{
    assert forall|s: Seq<u8>| #![trigger ishex(s)] lhxs(s) && s.len() > 0 implies ishex(s) && hxs(s) == s by {
        assert(lhx(s[0]));
        assert forall|i: int| 0 <= i < s.len() implies ishexd(#[trigger] s[i]) by { assert(lhx(s[i])); }
    }
    assert(ipow(16, 6) == 0x100_0000) by (compute);
    assert forall|s: Seq<u8>| #![trigger hval(s)] lhxs(s) && s.len() == 1 implies hval(s) == hexdv(s[0]) && hval(s) < 16 by {
        reveal_with_fuel(hval, 2); assert(lhx(s[0])); assert(s.drop_last() =~= Seq::<u8>::empty());
    }
    assert forall|s: Seq<u8>| #![trigger hval(s)] lhxs(s) && s.len() == 6 implies hval(s) < 0x100_0000 by { lemma_hval_lt(s); }
}
/// a version string reads back
pub proof fn lemma_vstr(id: Seq<u8>, ma: nat, mi: nat, kd: Seq<u8>, n: nat)
    requires vfits(id, ma as int, mi as int, kd, n as int)
    ensures ({ let v = vstr(id, ma, mi, kd, n); vsok(v) && vid(v, 0) == id && vmaj(v, 0) == ma && vmin(v, 0) == mi && vkind(v, 0) == kd && vsize(v, 0) == n && ascii(v) })
{
    assert(ipow(16, 6) == 0x100_0000) by (compute);
    assert(ipow(16, 1) == 16) by (compute);
    lemma_hexpad(ma, 1); lemma_hexpad(mi, 1); lemma_hexpad(n, 6); lemma_hfields();
    let v = vstr(id, ma, mi, kd, n);
    assert(id.len() == 4 && kd.len() == 4);
    assert(v[4] == hexpad(ma, 1)[0] && v[5] == hexpad(mi, 1)[0] && v[16] == 95);
    assert(vid(v, 0) =~= id); assert(vkind(v, 0) =~= kd); assert(v.subrange(10, 16) =~= hexpad(n, 6));
    assert forall|i: int| 0 <= i < 6 implies lhx(#[trigger] hexpad(n, 6)[i]) && v[i + 10] == hexpad(n, 6)[i] by {}
    assert(v[10] == hexpad(n, 6)[0] && v[11] == hexpad(n, 6)[1] && v[12] == hexpad(n, 6)[2] && v[13] == hexpad(n, 6)[3] && v[14] == hexpad(n, 6)[4] && v[15] == hexpad(n, 6)[5]);
    assert forall|i: int| 0 <= i < 4 implies v[i] == #[trigger] id[i] by {}
    assert forall|i: int| 0 <= i < 4 implies v[i + 6] == #[trigger] kd[i] by {}
    assert(upc(id[0]) && upc(id[1]) && upc(id[2]) && upc(id[3]) && upc(kd[0]) && upc(kd[1]) && upc(kd[2]) && upc(kd[3]));
    assert(lhx(v[4])); assert(lhx(v[5])); assert(lhx(v[10]) && lhx(v[11]) && lhx(v[12]) && lhx(v[13]) && lhx(v[14]) && lhx(v[15]));
    assert(rv(v, 0));
}
pub proof fn lemma_vseg(s: Seq<u8>, p: int)
    requires rv(s, p)
    ensures ({ let v = s.subrange(p, p + 17); rv(v, 0) && v.len() == 17 && vid(v, 0) == vid(s, p) && vkind(v, 0) == vkind(s, p) && vmaj(v, 0) == vmaj(s, p) && vmin(v, 0) == vmin(s, p) && vsize(v, 0) == vsize(s, p) }),
        lhxs(s.subrange(p + 4, p + 5)), lhxs(s.subrange(p + 5, p + 6)), lhxs(s.subrange(p + 10, p + 16))
{
    let v = s.subrange(p, p + 17);
    assert(vid(v, 0) =~= vid(s, p)); assert(vkind(v, 0) =~= vkind(s, p)); assert(v.subrange(10, 16) =~= s.subrange(p + 10, p + 16));
    let z = s.subrange(p + 10, p + 16);
    assert forall|i: int| 0 <= i < 6 implies lhx(#[trigger] z[i]) by { assert(z[0] == s[p + 10] && z[1] == s[p + 11] && z[2] == s[p + 12] && z[3] == s[p + 13] && z[4] == s[p + 14] && z[5] == s[p + 15]); assert(i == 0 || i == 1 || i == 2 || i == 3 || i == 4 || i == 5); }
}
pub proof fn lemma_vsegs()
    ensures forall|s: Seq<u8>, p: int| #[trigger] rv(s, p) ==> ({ let v = s.subrange(p, p + 17); rv(v, 0) && v.len() == 17 && vid(v, 0) == vid(s, p) && vkind(v, 0) == vkind(s, p) && vmaj(v, 0) == vmaj(s, p) && vmin(v, 0) == vmin(s, p) && vsize(v, 0) == vsize(s, p) })
        && lhxs(s.subrange(p + 4, p + 5)) && lhxs(s.subrange(p + 5, p + 6)) && lhxs(s.subrange(p + 10, p + 16))
{ assert forall|s: Seq<u8>, p: int| #[trigger] rv(s, p) implies ({ let v = s.subrange(p, p + 17); rv(v, 0) && v.len() == 17 && vid(v, 0) == vid(s, p) && vkind(v, 0) == vkind(s, p) && vmaj(v, 0) == vmaj(s, p) && vmin(v, 0) == vmin(s, p) && vsize(v, 0) == vsize(s, p) })
        && lhxs(s.subrange(p + 4, p + 5)) && lhxs(s.subrange(p + 5, p + 6)) && lhxs(s.subrange(p + 10, p + 16)) by { lemma_vseg(s, p); } }
//@struct core::common::Version as Version
//@struct core::common::SizeifyResult as SizeifyResult
//@struct core::common::DeversifyResult as DeversifyResult
//@struct core::common::SniffResult as SniffResult
/// #[derive(Clone)]
impl XClone for Version {
    open spec fn same(&self, o: &Self) -> bool { self.major == o.major && self.minor == o.minor }
    #[verifier::external_body] fn xclone(&self) -> (r: Self) { unimplemented!() }
}
impl XEq for Version {
    open spec fn eqs(&self, o: &Self) -> bool { self.major == o.major && self.minor == o.minor }
    #[verifier::external_body] fn xeq(&self, o: &Self) -> (r: bool) { unimplemented!() }
}
pub open spec fn ov(x: Option<&Version>) -> (nat, nat) { match x { Some(v) => (v.major as nat, v.minor as nat), None => (1, 0) } }
//@fn core::common::versify as versify
//@params ident version kind size
    ensures ({ let i = dflt(os(ident), L"KERI"); let v = ov(version); let k = dflt(os(kind), L"JSON"); let n = if size is Some { size->0 as nat } else { 0 };
        &&& r is Ok <==> vfits(i, v.0 as int, v.1 as int, k, n as int)
        &&& r is Ok ==> r->Ok_0@ == vstr(i, v.0, v.1, k, n) })
//@start
    proof { lemma_cids(); }
//@end
//@fn core::common::deversify as deversify
//@params vs
    ensures r is Ok <==> vsok(vs@),
        r is Ok ==> r->Ok_0.ident@ == vid(vs@, 0) && r->Ok_0.kind@ == vkind(vs@, 0) && r->Ok_0.version.major == vmaj(vs@, 0) && r->Ok_0.version.minor == vmin(vs@, 0) && r->Ok_0.size == vsize(vs@, 0)
//@start
    hide(hval); hide(cid);
    proof { lemma_cids(); lemma_hfields(); if vs@.len() == 17 && rv(vs@, 0) { lemma_vseg(vs@, 0); } }
//@beforetok is_match 0
    proof { assert(REVER.at(vs@, 0) == rv(vs@, 0)); }
//@end
//@fn core::common::dumps as dumps
//@params ked kind
    ensures r is Ok <==> okkind(dflt(os(kind), L"JSON")), r is Ok ==> r->Ok_0@ == json(dv(*ked)) && utf8(r->Ok_0@)
//@start
    broadcast use axiom_utf8;
    proof { lemma_cids(); }
//@end
/// the part of the input that is read
pub open spec fn lpart(raw: Seq<u8>, n: Option<u32>) -> Seq<u8> { if n is Some && n->0 <= raw.len() { raw.subrange(0, n->0 as int) } else { raw } }
//@fn core::common::loads as loads
//@params raw size kind
    ensures r is Ok <==> okkind(dflt(os(kind), L"JSON")) && (size is Some ==> size->0 <= raw@.len()) && utf8(lpart(raw@, size)) && unjson(lpart(raw@, size)) is Some,
        r is Ok ==> unjson(lpart(raw@, size)) == Some(dv(r->Ok_0))
//@start
    proof { lemma_cids(); }
//@end
//@fn core::common::sniff as sniff
//@params raw
    ensures ({ let w = lossy(raw@.subrange(0, 29)); let p = vpos(w);
        &&& r is Ok <==> raw@.len() >= 29 && 0 <= p <= 12 && okkind(vkind(w, p))
        &&& r is Ok ==> r->Ok_0.ident@ == vid(w, p) && r->Ok_0.kind@ == vkind(w, p) && r->Ok_0.version.major == vmaj(w, p) && r->Ok_0.version.minor == vmin(w, p) && r->Ok_0.size == vsize(w, p) })
//@start
    hide(hval); hide(cid); hide(vfind);
    let ghost raw0 = raw;
    proof { lemma_cids(); lemma_hfields(); if raw@.len() >= 29 { let w = lossy(raw@.subrange(0, 29)); lemma_vfind(w, 0, 0); if vpos(w) >= 0 { lemma_vseg(w, vpos(w)); } } }
//@beforetok shortest_match 0
    proof { let w = lossy(raw0@.subrange(0, 29));
        assert forall|p: int| REVER.at(w, p) == #[trigger] rv(w, p) by {}
        assert forall|p: int| #[trigger] REVER.first(w, p) implies vpos(w) == p by { lemma_vfind(w, 0, p); } }
//@end
/// a document that can be sized
pub open spec fn szold(d: D) -> Seq<u8> { valk(d->Obj_0, L"v")->Str_0 }
pub open spec fn sznew(d: D) -> Seq<u8> { vstr(vid(szold(d), 0), 1, 0, L"JSON", json(d).len()) }
/// the document with the version string that states its size
pub open spec fn szdoc(d: D) -> D { D::Obj(put(d->Obj_0, L"v", D::Str(sznew(d)))) }
pub open spec fn szok(d: D, kind: Option<Seq<u8>>) -> bool {
    let t = json(d); let p = vpos(t);
    &&& d is Obj && hask(d->Obj_0, L"v") && valk(d->Obj_0, L"v") is Str && vsok(szold(d)) && vmaj(szold(d), 0) == 1 && vmin(szold(d), 0) == 0
    &&& kind is Some ==> okkind(kind->0)
    &&& 0 <= p <= 12 && t.len() < 0x100_0000
    &&& t.subrange(0, p) + sznew(d) + t.skip(p + 17) == json(szdoc(d))
}
//@fn core::common::sizeify as sizeify
//@params ked kind
    ensures json(dv(*ked)).len() < 0x1_0000_0000 ==> (r is Ok <==> szok(dv(*ked), os(kind))),
        r is Ok ==> dv(*ked) is Obj && dv(r->Ok_0.ked) is Obj && hask(dv(r->Ok_0.ked)->Obj_0, L"v"),
        json(dv(*ked)).len() < 0x1_0000_0000 && r is Ok ==> r->Ok_0.raw@ == json(szdoc(dv(*ked))) && dv(r->Ok_0.ked) == szdoc(dv(*ked))
            && r->Ok_0.ident@ == vid(szold(dv(*ked)), 0) && r->Ok_0.kind@ == L"JSON" && r->Ok_0.version.major == 1 && r->Ok_0.version.minor == 0 && r->Ok_0.raw@.len() == json(dv(*ked)).len() && utf8(r->Ok_0.raw@)
//@start
    hide(hval); hide(cid); hide(vfind); hide(rv); hide(json); hide(vstr); hide(ascii); hide(put); hide(hexdv);
    let ghost d0 = dv(*ked); let ghost t0 = json(d0);
    proof { lemma_cids(); lemma_dv(*ked); lemma_vfind(t0, 0, 0);
        assert forall|v: D| hask(#[trigger] put(d0->Obj_0, L"v", v), L"v") by { lemma_putput(d0->Obj_0, L"v", v, v); }
        assert forall|o: Seq<(Seq<u8>, Value)>| hask(#[trigger] dvo(o), L"v") == hask(o, L"v") by { lemma_dvo(o, L"v", Value::Null); }
        if d0 is Obj && hask(d0->Obj_0, L"v") && valk(d0->Obj_0, L"v") is Str && vsok(szold(d0)) && t0.len() < 0x100_0000 { lemma_vstr(vid(szold(d0), 0), 1, 0, L"JSON", t0.len()); }
    }
//@beforetok shortest_match 0
    proof { 
        assert forall|p: int| REVER.at(t0, p) == #[trigger] rv(t0, p) by { reveal(rv); }
        assert forall|p: int| #[trigger] REVER.first(t0, p) implies vpos(t0) == p by { lemma_vfind(t0, 0, p); } }
//@end
// ------------------------------------------------------------------ framing
pub open spec fn csame(a: u8, b: u8) -> bool { upc(a) == upc(b) && lhx(a) == lhx(b) && (a == 95) == (b == 95) }
pub proof fn lemma_rvsame(s: Seq<u8>, t: Seq<u8>, q: int)
    requires 0 <= q, q + 17 <= s.len(), q + 17 <= t.len(), forall|i: int| q <= i < q + 17 ==> csame(#[trigger] s[i], t[i])
    ensures rv(s, q) == rv(t, q)
{
    assert(csame(s[q], t[q]) && csame(s[q + 1], t[q + 1]) && csame(s[q + 2], t[q + 2]) && csame(s[q + 3], t[q + 3]) && csame(s[q + 4], t[q + 4]) && csame(s[q + 5], t[q + 5])
        && csame(s[q + 6], t[q + 6]) && csame(s[q + 7], t[q + 7]) && csame(s[q + 8], t[q + 8]) && csame(s[q + 9], t[q + 9]) && csame(s[q + 10], t[q + 10]) && csame(s[q + 11], t[q + 11])
        && csame(s[q + 12], t[q + 12]) && csame(s[q + 13], t[q + 13]) && csame(s[q + 14], t[q + 14]) && csame(s[q + 15], t[q + 15]) && csame(s[q + 16], t[q + 16]));
}
/// another version string in its place: still the first one
pub proof fn lemma_revs(t: Seq<u8>, v: Seq<u8>)
    requires vpos(t) >= 0, v.len() == 17, rv(v, 0)
    ensures ({ let p = vpos(t); let n = t.subrange(0, p) + v + t.skip(p + 17); vpos(n) == p && n.len() == t.len() && n.subrange(p, p + 17) == v && rv(n, p) })
{
    lemma_vfind(t, 0, 0);
    let p = vpos(t); let n = t.subrange(0, p) + v + t.skip(p + 17);
    assert forall|i: int| 0 <= i < t.len() implies csame(#[trigger] t[i], n[i]) by {
        if p <= i < p + 17 { let k = i - p; assert(n[i] == v[k]);
            assert(k == 0 || k == 1 || k == 2 || k == 3 || k == 4 || k == 5 || k == 6 || k == 7 || k == 8 || k == 9 || k == 10 || k == 11 || k == 12 || k == 13 || k == 14 || k == 15 || k == 16);
            assert(t[p + k] == t[i] && v[0 + k] == v[k]);
        }
    }
    assert forall|q: int| 0 <= q && q + 17 <= t.len() implies #[trigger] rv(n, q) == rv(t, q) by { lemma_rvsame(t, n, q); }
    assert(n.subrange(p, p + 17) =~= v);
    assert(rv(t, p));
    lemma_vfind(n, 0, p);
}
/// what the sniffer sees of a valid text whose version string is in front
pub proof fn lemma_sniffed(s: Seq<u8>)
    requires utf8(s), s.len() >= 29, 0 <= vpos(s) <= 12
    ensures ({ let w = lossy(s.subrange(0, 29)); let p = vpos(s); vpos(w) == p && vid(w, p) == vid(s, p) && vkind(w, p) == vkind(s, p) && vmaj(w, p) == vmaj(s, p) && vmin(w, p) == vmin(s, p) && vsize(w, p) == vsize(s, p) })
{
    lemma_vfind(s, 0, 0);
    let p = vpos(s); let w = lossy(s.subrange(0, 29));
    assert(rv(s, p));
    assert(s[p + 16] < 128);
    axiom_utf8_bnd(s, p + 16);
    axiom_lossy(s, 29, p + 17);
    let k = p + 17;
    assert forall|i: int| 0 <= i < k implies #[trigger] w[i] == s[i] by { assert(w.subrange(0, k)[i] == s.subrange(0, k)[i]); }
    assert forall|q: int| 0 <= q <= p implies #[trigger] rv(w, q) == rv(s, q) by {
        assert forall|i: int| q <= i < q + 17 implies csame(#[trigger] s[i], w[i]) by {}
        lemma_rvsame(s, w, q);
    }
    lemma_vfind(w, 0, p);
    assert(vid(w, p) =~= vid(s, p)); assert(vkind(w, p) =~= vkind(s, p)); assert(w.subrange(p + 10, p + 16) =~= s.subrange(p + 10, p + 16));
}
/// the text after the first entry
pub open spec fn jtail(o: Seq<(Seq<u8>, D)>) -> Seq<u8> decreases o.len() { if o.len() <= 1 { Seq::empty() } else { jtail(o.drop_last()) + seq![44u8] + jent(o.last()) } }
pub proof fn lemma_jtail(o: Seq<(Seq<u8>, D)>, e: (Seq<u8>, D))
    requires o.len() >= 1
    ensures jobj(o) == jent(o[0]) + jtail(o), jtail(o.update(0, e)) == jtail(o)
    decreases o.len()
{
    if o.len() > 1 {
        lemma_jtail(o.drop_last(), e);
        assert(o.update(0, e).drop_last() =~= o.drop_last().update(0, e));
        assert(jent(o[0]) + jtail(o.drop_last()) + seq![44u8] + jent(o.last()) =~= jent(o[0]) + (jtail(o.drop_last()) + seq![44u8] + jent(o.last())));
    } else { assert(jent(o[0]) + Seq::<u8>::empty() =~= jent(o[0])); }
}
pub open spec fn nox(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) >= 32 && s[i] != 34 && s[i] != 92 }
pub proof fn lemma_esc_id(s: Seq<u8>) requires nox(s) ensures esc(s) == s decreases s.len()
{ if s.len() > 0 { assert(nox(s.drop_last())); lemma_esc_id(s.drop_last()); assert(s.drop_last() + seq![s.last()] =~= s); } }
pub proof fn lemma_vnox(v: Seq<u8>) requires rv(v, 0), v.len() == 17 ensures nox(v)
{ assert forall|i: int| 0 <= i < 17 implies (#[trigger] v[i]) >= 32 && v[i] != 34 && v[i] != 92 by {
    assert(i == 0 || i == 1 || i == 2 || i == 3 || i == 4 || i == 5 || i == 6 || i == 7 || i == 8 || i == 9 || i == 10 || i == 11 || i == 12 || i == 13 || i == 14 || i == 15 || i == 16);
    assert(v[0 + i] == v[i]); } }
/// the text of a document whose first field is a version string
pub proof fn lemma_vfirst(o: Seq<(Seq<u8>, D)>)
    requires dist(o), o.len() > 0, o[0].0 == L"v", o[0].1 is Str, o[0].1->Str_0.len() == 17, rv(o[0].1->Str_0, 0)
    ensures ({ let t = json(D::Obj(o)); let v = o[0].1->Str_0; vpos(t) == 6 && t.len() >= 25 && t.subrange(6, 23) == v && (forall|w: Seq<u8>| w.len() == 17 && #[trigger] rv(w, 0) ==> t.subrange(0, 6) + w + t.skip(23) == json(D::Obj(put(o, L"v", D::Str(w))))) && hask(o, L"v") && valk(o, L"v") == o[0].1 })
{
    let v = o[0].1->Str_0; let t = json(D::Obj(o)); let kv = L"v";
    lemma_pos_at(o, 0);
    let h = seq![123u8, 34u8, 118u8, 34u8, 58u8, 34u8];
    assert forall|w: Seq<u8>| w.len() == 17 && #[trigger] rv(w, 0) implies json(D::Obj(put(o, kv, D::Str(w)))) == h + w + (seq![34u8] + jtail(o) + seq![125u8]) by {
        lemma_vnox(w); lemma_esc_id(w);
        assert(nox(kv)); lemma_esc_id(kv);
        let e = (kv, D::Str(w)); let o2 = o.update(0, e);
        assert(put(o, kv, D::Str(w)) == o2);
        lemma_jtail(o, e); lemma_jtail(o2, e);
        assert(o2[0] == e);
        assert(json(e.1) == jstr(w));
        assert(jent(e) == jstr(kv) + seq![58u8] + jstr(w));
        assert(json(D::Obj(o2)) == seq![123u8] + jobj(o2) + seq![125u8]);
        assert(seq![123u8] + (jstr(kv) + seq![58u8] + jstr(w) + jtail(o)) + seq![125u8] =~= h + w + (seq![34u8] + jtail(o) + seq![125u8]));
    }
    assert(rv(v, 0));
    assert(put(o, kv, D::Str(v)) =~= o) by { assert(o.update(0, (kv, D::Str(v))) =~= o); }
    let z = seq![34u8] + jtail(o) + seq![125u8];
    assert(t == h + v + z);
    assert(t.subrange(6, 23) =~= v);
    assert(t.subrange(0, 6) =~= h);
    assert(t.skip(23) =~= z);
    assert forall|q: int| 0 <= q < 6 implies !#[trigger] rv(t, q) by { assert(t[q] == h[q]); assert(q == 0 || q == 1 || q == 2 || q == 3 || q == 4 || q == 5); }
    assert(rv(t, 6)) by {
        let s0 = seq![0u8; 6] ;
        assert(t[6] == v[0] && t[7] == v[1] && t[8] == v[2] && t[9] == v[3] && t[10] == v[4] && t[11] == v[5] && t[12] == v[6] && t[13] == v[7] && t[14] == v[8] && t[15] == v[9] && t[16] == v[10] && t[17] == v[11] && t[18] == v[12] && t[19] == v[13] && t[20] == v[14] && t[21] == v[15] && t[22] == v[16]);
    }
    lemma_vfind(t, 0, 6);
}
/// C22: what versify builds, deversify reads
fn thm_c22_text(ident: &XString, version: &Version, kind: &XString, size: u32) {
    if let Ok(v) = versify(Some(ident), Some(version), Some(kind), Some(size)) {
        proof { lemma_vstr(ident@, version.major as nat, version.minor as nat, kind@, size as nat); }
        let d = deversify(&v);
        assert(d is Ok);
        assert(d->Ok_0.ident@ == ident@ && d->Ok_0.version.major == version.major && d->Ok_0.version.minor == version.minor && d->Ok_0.kind@ == kind@ && d->Ok_0.size == size);
        assert(v@.len() == 17);
    }
}
/// C22: a sized document states its length, differs from the document in the version string only, and is sniffed as it was sized; any document that begins with a version string this version reads can be sized
fn thm_c22_sized(ked: &Value, kind: Option<&XString>)
    requires json(dv(*ked)).len() < 0x1_0000_0000
{
    let ghost d = dv(*ked); let ghost t = json(d);
    let r = sizeify(ked, kind);
    proof {
        if d is Obj && dist(d->Obj_0) && d->Obj_0.len() > 0 && d->Obj_0[0].0 == L"v" && d->Obj_0[0].1 is Str && vsok(d->Obj_0[0].1->Str_0) && vmaj(d->Obj_0[0].1->Str_0, 0) == 1 && vmin(d->Obj_0[0].1->Str_0, 0) == 0 && (os(kind) is Some ==> okkind(os(kind)->0)) && t.len() < 0x100_0000 {
            lemma_vfirst(d->Obj_0);
            lemma_vstr(vid(szold(d), 0), 1, 0, L"JSON", t.len());
            assert(rv(sznew(d), 0));
            assert(r is Ok);
        }
    }
    if let Ok(x) = r {
        if x.raw.len() >= 29 {
            proof {
                lemma_vstr(vid(szold(d), 0), 1, 0, L"JSON", t.len());
                lemma_revs(t, sznew(d));
                lemma_vseg(x.raw@, vpos(x.raw@));
                lemma_sniffed(x.raw@);
            }
            let s0 = sniff(&x.raw);
            assert(s0 is Ok);
            let s = match s0 { Ok(s) => s, Err(_) => { return; } };
            assert(s.size == x.raw@.len() && s.ident@ == x.ident@ && s.kind@ == x.kind@ && s.version.major == x.version.major && s.version.minor == x.version.minor);
            let l = loads(&x.raw, Some(s.size), Some(&x.kind));
            proof { if tame(szdoc(d), 127) { axiom_unjson(szdoc(d)); } assert(x.raw@.subrange(0, x.raw@.len() as int) =~= x.raw@); }
            assert(tame(szdoc(d), 127) ==> l is Ok && dv(l->Ok_0) == dv(x.ked));
        }
    }
}
