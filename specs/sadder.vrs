//@imports saider
use super::data::serde_json;
// ------------------------------------------------------------------ serialized self-addressed documents
/// what a Serder or Creder is made of
pub struct SV { pub code: Seq<u8>, pub raw: Seq<u8>, pub ked: D, pub ident: Seq<u8>, pub kind: Seq<u8>, pub size: nat, pub ver: (nat, nat), pub said: (Seq<u8>, nat, Seq<u8>) }
//@struct core::sadder::ExhaleResult as ExhaleResult
//@struct core::sadder::InhaleResult as InhaleResult
/// what a reader finds at the front of a byte stream: a version string in reach, of this version, and as many bytes of a document as it declares
pub open spec fn fw(raw: Seq<u8>) -> Seq<u8> { lossy(raw.subrange(0, 29)) }
pub open spec fn fsize(raw: Seq<u8>) -> nat { vsize(fw(raw), vpos(fw(raw))) }
pub open spec fn fident(raw: Seq<u8>) -> Seq<u8> { vid(fw(raw), vpos(fw(raw))) }
pub open spec fn ftext(raw: Seq<u8>) -> Seq<u8> { raw.subrange(0, fsize(raw) as int) }
pub open spec fn fdoc(raw: Seq<u8>) -> D { unjson(ftext(raw))->0 }
pub open spec fn fok(raw: Seq<u8>) -> bool {
    let w = fw(raw); let p = vpos(w);
    raw.len() >= 29 && 0 <= p <= 12 && okkind(vkind(w, p)) && vmaj(w, p) == 1 && vmin(w, p) == 0 && fsize(raw) <= raw.len() && utf8(ftext(raw)) && unjson(ftext(raw)) is Some
}
/// the identifier a document carries
pub open spec fn dsaid(d: D) -> Seq<u8> { valk(d->Obj_0, L"d")->Str_0 }
pub open spec fn dsok(d: D) -> bool { d is Obj && hask(d->Obj_0, L"d") && valk(d->Obj_0, L"d") is Str && mok(dsaid(d)) && isdig(qc(dsaid(d))) }
pub open spec fn dmat(d: D) -> (Seq<u8>, nat, Seq<u8>) { (qc(dsaid(d)), qz(dsaid(d)), qr(dsaid(d))) }
/// what a stream, or a document, holds
pub open spec fn vraw(c: Seq<u8>, raw: Seq<u8>) -> SV { SV { code: c, raw: ftext(raw), ked: fdoc(raw), ident: fident(raw), kind: L"JSON", size: fsize(raw), ver: (1, 0), said: dmat(fdoc(raw)) } }
pub open spec fn rawok(c: Seq<u8>, raw: Seq<u8>) -> bool { fok(raw) && dsok(fdoc(raw)) && c == qc(dsaid(fdoc(raw))) }
pub open spec fn vked(c: Seq<u8>, d: D) -> SV { let e = szdoc(d); SV { code: c, raw: json(e), ked: e, ident: vid(szold(d), 0), kind: L"JSON", size: json(d).len(), ver: (1, 0), said: dmat(e) } }
pub open spec fn kedok(c: Seq<u8>, d: D, kind: Option<Seq<u8>>) -> bool { szok(d, kind) && dsok(szdoc(d)) && c == qc(dsaid(szdoc(d))) }
//@fn core::sadder::inhale as sadder_inhale
//@params raw
    ensures r is Ok <==> fok(raw@),
        r is Ok ==> dv(r->Ok_0.ked) == fdoc(raw@) && r->Ok_0.ident@ == fident(raw@) && r->Ok_0.kind@ == L"JSON" && r->Ok_0.version.major == 1 && r->Ok_0.version.minor == 0 && r->Ok_0.size == fsize(raw@)
//@end
//@fn core::sadder::exhale as sadder_exhale
//@params ked kind
    ensures json(dv(*ked)).len() < 0x1_0000_0000 ==> (r is Ok <==> szok(dv(*ked), os(kind))),
        json(dv(*ked)).len() < 0x1_0000_0000 && r is Ok ==> r->Ok_0.raw@ == json(szdoc(dv(*ked))) && dv(r->Ok_0.ked) == szdoc(dv(*ked))
            && r->Ok_0.ident@ == vid(szold(dv(*ked)), 0) && r->Ok_0.kind@ == L"JSON" && r->Ok_0.version.major == 1 && r->Ok_0.version.minor == 0 && r->Ok_0.raw@.len() == json(dv(*ked)).len() && utf8(r->Ok_0.raw@)
//@start
    hide(szok); hide(szdoc); hide(json);
//@end
//@fn core::sadder::said as sadder_said
//@params ked
    ensures r is Ok <==> dv(*ked) is Obj && hask(dv(*ked)->Obj_0, L"d") && valk(dv(*ked)->Obj_0, L"d") is Str, r is Ok ==> r->Ok_0@ == dsaid(dv(*ked))
//@start
    proof { lemma_dvos(); }
//@end
pub proof fn lemma_esclen(s: Seq<u8>) ensures esc(s).len() >= s.len() decreases s.len() { if s.len() > 0 { lemma_esclen(s.drop_last()); } }
pub proof fn lemma_jlen(o: Seq<(Seq<u8>, D)>, i: int)
    requires 0 <= i < o.len()
    ensures jobj(o).len() >= jent(o[i]).len()
    decreases o.len()
{ if o.len() > 1 { if i < o.len() - 1 { lemma_jlen(o.drop_last(), i); } } }
pub proof fn lemma_dcode(c: Seq<u8>) requires isdig(c) ensures mfs(c) >= 44 { lemma_cids(); lemma_cid4(c); lemma_dig(c, Seq::empty()); }
/// an identified document has a text of some length
pub proof fn lemma_dlen(d: D) requires dsok(d) ensures json(d).len() >= 40
{
    let o = d->Obj_0; let s = dsaid(d); let c = qc(s);
    lemma_kpos(o, L"d"); let i = pos(o, L"d");
    lemma_jlen(o, i); lemma_esclen(s);
    assert(o[i] == (o[i].0, D::Str(s)));
    assert(json(D::Str(s)) == jstr(s));
    assert(jent(o[i]) == jstr(o[i].0) + seq![58u8] + json(o[i].1));
    assert(jent(o[i]).len() >= s.len());
    assert(mres(c, qz(s), qr(s), s)) by { lemma_mok(s); }
    assert(mknown(c) && !mvar(c)) by { lemma_dig(c, Seq::empty()); }
    assert(mfs(c) >= 44 && isdig(c)) by { lemma_dcode(c); }
    assert(mfull(c, qz(s)) == mfs(c));
    assert(json(d) == seq![123u8] + jobj(o) + seq![125u8]);
}
/// the sized text, as a text with a version string
pub proof fn lemma_revd(d: D, kind: Option<Seq<u8>>)
    requires szok(d, kind)
    ensures ({ let u = json(szdoc(d)); let p = vpos(u); 0 <= p <= 12 && u.len() == json(d).len() && rv(u, p) && vid(u, p) == vid(szold(d), 0) && vmaj(u, p) == 1 && vmin(u, p) == 0 && vkind(u, p) == L"JSON" && vsize(u, p) == u.len() })
{
    hide(json); hide(rv); hide(hval); hide(hexdv);
    lemma_szv(d);
    lemma_vstr(vid(szold(d), 0), 1, 0, L"JSON", json(d).len());
    lemma_revs(json(d), sznew(d));
    lemma_vseg(json(szdoc(d)), vpos(json(szdoc(d))));
}
/// the serialization, whatever follows it, holds the document it was made from
pub proof fn lemma_reload(c: Seq<u8>, d: D, kind: Option<Seq<u8>>, rest: Seq<u8>)
    requires kedok(c, d, kind), tame(szdoc(d), 127), utf8(json(szdoc(d)))
    ensures ({ let s = json(szdoc(d)) + rest; rawok(c, s) && vraw(c, s) == vked(c, d) && fident(s) == vid(szold(d), 0) })
{
    hide(json); hide(rv); hide(hval); hide(hexdv); hide(szok); hide(dsok); hide(tame);
    let u = json(szdoc(d)); let s = u + rest;
    lemma_revd(d, kind); lemma_dlen(szdoc(d)); lemma_sniffed(u); axiom_unjson(szdoc(d));
    assert(s.subrange(0, 29) =~= u.subrange(0, 29));
    assert(s.subrange(0, u.len() as int) =~= u);
}
/// r is s, or its longest part of at most n bytes that ends where a character ends
pub open spec fn cutat(s: Seq<u8>, n: int, r: Seq<u8>) -> bool {
    if s.len() <= n { r == s } else { r.len() <= n && r == s.subrange(0, r.len() as int) && bnd(s, r.len() as int) && forall|k: int| r.len() < k <= n ==> !bnd(s, k) }
}
pub trait Sadder: XDefault + XClone {
    spec fn sv(&self) -> SV;
    proof fn same_sv(&self, o: &Self) requires self.same(o) ensures o.sv() == self.sv();
    fn code(&self) -> (r: XString) ensures r@ == self.sv().code;
    fn raw(&self) -> (r: Vec<u8>) ensures r@ == self.sv().raw;
    fn ked(&self) -> (r: Value) ensures dv(r) == self.sv().ked;
    fn ident(&self) -> (r: XString) ensures r@ == self.sv().ident;
    fn kind(&self) -> (r: XString) ensures r@ == self.sv().kind;
    fn size(&self) -> (r: u32) ensures r == self.sv().size;
    fn version(&self) -> (r: Version) ensures (r.major as nat, r.minor as nat) == self.sv().ver;
    fn saider(&self) -> (r: Saider) ensures mval(r) == self.sv().said;
    fn set_code(&mut self, code: &XString) ensures final(self).sv() == (SV { code: code@, ..old(self).sv() });
    fn set_raw(&mut self, raw: &[u8]) ensures final(self).sv() == (SV { raw: raw@, ..old(self).sv() });
    fn set_ked(&mut self, ked: &Value) ensures final(self).sv() == (SV { ked: dv(*ked), ..old(self).sv() });
    fn set_ident(&mut self, ident: &XString) ensures final(self).sv() == (SV { ident: ident@, ..old(self).sv() });
    fn set_kind(&mut self, kind: &XString) ensures final(self).sv() == (SV { kind: kind@, ..old(self).sv() });
    fn set_size(&mut self, size: u32) ensures final(self).sv() == (SV { size: size as nat, ..old(self).sv() });
    fn set_version(&mut self, version: &Version) ensures final(self).sv() == (SV { ver: (version.major as nat, version.minor as nat), ..old(self).sv() });
    fn set_saider(&mut self, saider: &Saider) ensures final(self).sv() == (SV { said: mval(*saider), ..old(self).sv() });
//@fn core::sadder::Sadder::populate_from_raw as populate_from_raw
//@params raw
    ensures r is Ok <==> rawok(old(self).sv().code, raw@), r is Ok ==> final(self).sv() == vraw(old(self).sv().code, raw@)
//@start
    hide(mok); hide(isdig); hide(fsize); hide(fident); hide(fdoc);
//@end
//@fn core::sadder::Sadder::populate_from_ked as populate_from_ked
//@params ked kind
    ensures ({ let c = old(self).sv().code; let d = dv(*ked); json(d).len() < 0x1_0000_0000 ==> (r is Ok <==> kedok(c, d, os(kind))) && (r is Ok ==> final(self).sv() == vked(c, d) && utf8(json(szdoc(d)))) })
//@start
    hide(mok); hide(isdig); hide(szok); hide(szdoc); hide(json);
//@end
//@fn core::sadder::Sadder::populate_from_kind_and_self as populate_from_kind_and_self
//@params kind
    ensures ({ let c = old(self).sv().code; let d = old(self).sv().ked; json(d).len() < 0x1_0000_0000 ==> (r is Ok <==> kedok(c, d, Some(kind@))) && (r is Ok ==> final(self).sv() == vked(c, d) && utf8(json(szdoc(d)))) })
//@start
    hide(mok); hide(isdig); hide(szok); hide(szdoc); hide(json);
//@end
//@fn core::sadder::Sadder::new as new
//@params code raw kind ked sad
    ensures ({ let c = dflt(os(code), L"E");
        &&& raw is Some ==> (r is Ok <==> rawok(c, ob(raw)->0)) && (r is Ok ==> r->Ok_0.sv() == vraw(c, ob(raw)->0))
        &&& raw is None && ked is Some ==> ({ let d = dv(*ked->0); json(d).len() < 0x1_0000_0000 ==> (r is Ok <==> kedok(c, d, os(kind))) && (r is Ok ==> r->Ok_0.sv() == vked(c, d) && utf8(json(szdoc(d)))) })
        &&& raw is None && ked is None ==> (r is Ok <==> sad is Some) && (r is Ok ==> r->Ok_0.sv() == sad->0.sv()) })
//@start
    hide(rawok); hide(vraw); hide(kedok); hide(vked); hide(json);
    proof { if sad is Some { assert forall|o: &Self| #[trigger] sad->0.same(o) implies o.sv() == sad->0.sv() by { sad->0.same_sv(o); } } }
//@end
//@fn core::sadder::Sadder::said as said
    ensures ({ let m = self.sv().said; mvalid(m.0, m.1, m.2) ==> r is Ok && r->Ok_0@ == mtext(m.0, m.1, m.2) })
//@end
//@fn core::sadder::Sadder::saidb as saidb
    ensures ({ let m = self.sv().said; mvalid(m.0, m.1, m.2) ==> r is Ok && r->Ok_0@ == mtext(m.0, m.1, m.2) })
//@end
//@fn core::sadder::Sadder::pretty as pretty
//@params size
    ensures ({ let d = unjson(json(self.sv().ked)); (r is Ok <==> d is Some) && (r is Ok ==> cutat(jpretty(d->0), match size { Some(n) => n as int, None => 1024 }, r->Ok_0@)) })
//@start
    hide(json);
    let ghost size0 = size;
//@loop 0
    invariant unjson(json(self.sv().ked)) is Some, s@ == jpretty(unjson(json(self.sv().ked))->0), s@.len() > (match size0 { Some(n) => n as int, None => 1024 }), size <= (match size0 { Some(n) => n as int, None => 1024 }),
        forall|k: int| size < k <= (match size0 { Some(n) => n as int, None => 1024 }) ==> !bnd(s@, k)
    decreases size
//@end
}
