//@struct $M::$T as $T
pub open spec fn $N_sv(t: $T) -> SV { SV { code: t.code@, raw: t.raw@, ked: dv(t.ked), ident: t.ident@, kind: t.kind@, size: t.size as nat, ver: (t.version.major as nat, t.version.minor as nat), said: mval(t.saider) } }
impl XDefault for $T {
//@fn $M::$T.Default::default as default
//@end
}
/// #[derive(Clone)]
impl XClone for $T {
    open spec fn same(&self, o: &Self) -> bool { $N_sv(*self) == $N_sv(*o) }
    #[verifier::external_body] fn xclone(&self) -> (r: Self) { unimplemented!() }
}
impl Sadder for $T {
    open spec fn sv(&self) -> SV { $N_sv(*self) }
    proof fn same_sv(&self, o: &Self) {}
//@fn $M::$T.Sadder::code as code
//@end
//@fn $M::$T.Sadder::raw as raw
//@end
//@fn $M::$T.Sadder::ked as ked
//@end
//@fn $M::$T.Sadder::ident as ident
//@end
//@fn $M::$T.Sadder::kind as kind
//@end
//@fn $M::$T.Sadder::size as size
//@end
//@fn $M::$T.Sadder::version as version
//@end
//@fn $M::$T.Sadder::saider as saider
//@end
//@fn $M::$T.Sadder::set_code as set_code
//@end
//@fn $M::$T.Sadder::set_raw as set_raw
//@end
//@fn $M::$T.Sadder::set_ked as set_ked
//@end
//@fn $M::$T.Sadder::set_ident as set_ident
//@end
//@fn $M::$T.Sadder::set_kind as set_kind
//@end
//@fn $M::$T.Sadder::set_size as set_size
//@end
//@fn $M::$T.Sadder::set_version as set_version
//@end
//@fn $M::$T.Sadder::set_saider as set_saider
//@end
}
//@fn $M::validate_ident as $N_validate_ident
//@params ident
    ensures r is Ok <==> ident@ == $P
//@start
    proof { lemma_cids(); }
//@end
impl $T {
//@fn $M::$T::new as new
//@params code raw kind ked sad
    ensures ({ let c = dflt(os(code), L"E");
        &&& raw is Some ==> (r is Ok <==> rawok(c, ob(raw)->0) && fident(ob(raw)->0) == $P) && (r is Ok ==> r->Ok_0.sv() == vraw(c, ob(raw)->0))
        &&& raw is None && ked is Some ==> ({ let d = dv(*ked->0); json(d).len() < 0x1_0000_0000 ==> (r is Ok <==> kedok(c, d, os(kind)) && vid(szold(d), 0) == $P) && (r is Ok ==> r->Ok_0.sv() == vked(c, d) && utf8(json(szdoc(d)))) })
        &&& raw is None && ked is None ==> (r is Ok <==> sad is Some && sad->0.sv().ident == $P) && (r is Ok ==> r->Ok_0.sv() == sad->0.sv()) })
//@end
//@fn $M::$T::new_with_ked as new_with_ked
//@params ked code kind
    ensures ({ let c = dflt(os(code), L"E"); let d = dv(*ked); json(d).len() < 0x1_0000_0000 ==> (r is Ok <==> kedok(c, d, os(kind)) && vid(szold(d), 0) == $P) && (r is Ok ==> r->Ok_0.sv() == vked(c, d) && utf8(json(szdoc(d)))) })
//@end
//@fn $M::$T::new_with_raw as new_with_raw
//@params raw
    ensures r is Ok <==> rawok(L"E", raw@) && fident(raw@) == $P, r is Ok ==> r->Ok_0.sv() == vraw(L"E", raw@)
//@end
}
/// C23: what is built from a document reloads, alone or followed by anything, to the same thing; what falls short, is of another protocol or carries no identifier is refused
fn thm_c23(ked: &Value, code: Option<&XString>, kind: Option<&XString>, stream: &[u8], rest: &[u8])
    requires json(dv(*ked)).len() < 0x1_0000_0000
{
    hide(json); hide(tame); hide(mok); hide(szok); hide(fok); hide(ftext); hide(fident); hide(isdig); hide(szdoc);
    let ghost d = dv(*ked); let ghost c = dflt(os(code), L"E"); let ghost e = szdoc(d);
    if let Ok(s) = $T::new(code, None, kind, Some(ked), None) {
        proof { lemma_revd(d, os(kind)); if tame(e, 127) { lemma_reload(c, d, os(kind), rest@); } }
        assert(s.sv().ked == e && s.sv().said.0 == c && s.sv().said == dmat(e) && s.sv().raw == json(e) && s.sv().size == s.sv().raw.len());
        let t = $T::new(code, Some(stream), None, None, None);
        assert(tame(e, 127) && stream@ == s.sv().raw + rest@ ==> t is Ok && t->Ok_0.sv() == s.sv());
        let u = $T::new_with_raw(stream);
        assert(tame(e, 127) && stream@ == s.sv().raw + rest@ && c == L"E" ==> u is Ok && u->Ok_0.sv() == s.sv());
    }
    if let Ok(s) = $T::new(code, Some(stream), kind, None, None) {
        assert(s.sv().said.0 == c && s.sv().ident == $P && fsize(stream@) <= stream@.len() && dsok(s.sv().ked)) by { reveal(fok); }
    }
}
