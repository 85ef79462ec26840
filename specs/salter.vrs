//@imports signer
// ------------------------------------------------------------------ salts and stretched keys
pub open spec fn saltcode(c: Seq<u8>) -> bool { cid(c) == K"0A" }
//@include mimpl.inc M=core::salter T=Salter
//@fn core::salter::validate_code as salter_validate_code
//@params code
    ensures r is Ok <==> saltcode(code@)
//@end
/// the tier used: the temporary flag overrides the requested tier, which overrides the salt's own
pub open spec fn tpick(own: Seq<u8>, tier: Option<Seq<u8>>, temp: Option<bool>) -> Seq<u8> {
    if temp is Some && temp->0 { L"min" } else { dflt(tier, own) }
}
pub open spec fn isalt(s: Salter) -> bool { saltcode(s.m_code()) && s.m_raw().len() == 16 }
/// the seed of a derived signer
pub open spec fn dseed(s: Salter, path: Seq<u8>, tier: Option<Seq<u8>>, temp: Option<bool>) -> Seq<u8> { stretchf(path, s.m_raw(), 32, tpick(s.tier@, tier, temp)) }
/// the signer derived for a path
pub open spec fn derived(g: Signer, s: Salter, code: Option<Seq<u8>>, transferable: Option<bool>, path: Seq<u8>, tier: Option<Seq<u8>>, temp: Option<bool>) -> bool {
    let c = dflt(code, L"A");
    &&& seedcode(c) && tier_known(tpick(s.tier@, tier, temp))
    &&& mval(g) == (c, 0nat, dseed(s, path, tier, temp))
    &&& mval(g.verfer) == keyof(c, dseed(s, path, tier, temp), if transferable is Some { transferable->0 } else { true })
}
impl Salter {
//@fn core::salter::Salter::new as new
//@params tier code raw qb64b qb64 qb2
    ensures r is Ok ==> saltcode(r->Ok_0.m_code()) && mvalid(r->Ok_0.m_code(), r->Ok_0.m_size(), r->Ok_0.m_raw()),
        r is Ok && (raw is Some || qb64b is Some || qb64 is Some || qb2 is Some) ==> mdet(Some(dflt(os(code), L"0A")), ob(raw), ob(qb64b), os(qb64), ob(qb2)) == Some(mval(r->Ok_0)),
        r is Ok ==> isalt(r->Ok_0) && r->Ok_0.tier@ == dflt(os(tier), L"low"), // @C17
        r is Ok && raw is None && qb64b is None && qb64 is None && qb2 is None ==> osr(r->Ok_0.m_raw()) && r->Ok_0.m_raw().len() == 16, // @C27
        raw is None && qb64b is None && qb64 is None && qb2 is None && saltcode(dflt(os(code), L"0A")) ==> r is Ok, // @C17
        ({ let v = mdet(Some(dflt(os(code), L"0A")), ob(raw), ob(qb64b), os(qb64), ob(qb2)); v is Some && saltcode(dflt(os(code), L"0A")) && saltcode((v->0).0) && mutf(ob(raw), ob(qb64b)) ==> r is Ok }), // @C17
//@start
    proof {
        lemma_cid4(dflt(os(code), L"0A"));
        let v = mdet(Some(dflt(os(code), L"0A")), ob(raw), ob(qb64b), os(qb64), ob(qb2));
        assert forall|k: Seq<u8>| k.len() == 16 implies #[trigger] k.subrange(0, 16) == k by { assert(k.subrange(0, 16) =~= k); }
        if v is Some { lemma_mdet(Some(dflt(os(code), L"0A")), ob(raw), ob(qb64b), os(qb64), ob(qb2)); lemma_cid4((v->0).0); }
    }
//@end
//@fn core::salter::Salter::new_with_defaults as new_with_defaults
//@params tier
    ensures r is Ok, saltcode(r->Ok_0.m_code()),
        isalt(r->Ok_0) && r->Ok_0.tier@ == dflt(os(tier), L"low"), // @C17
        r is Ok ==> osr(r->Ok_0.m_raw()) && r->Ok_0.m_raw().len() == 16 // @C27
//@start
    proof { lemma_cid4(L"0A"); }
//@end
//@fn core::salter::Salter::new_with_raw as new_with_raw
//@params raw code tier
    ensures r is Ok ==> saltcode(r->Ok_0.m_code()) && mdet(Some(dflt(os(code), L"0A")), Some(raw@), None, None, None) == Some(mval(r->Ok_0)),
        ({ let v = mdet(Some(dflt(os(code), L"0A")), Some(raw@), None, None, None); v is Some && saltcode(dflt(os(code), L"0A")) && saltcode((v->0).0) ==> r is Ok }),
        r is Ok ==> isalt(r->Ok_0) && r->Ok_0.tier@ == dflt(os(tier), L"low"), // @C17
//@end
//@fn core::salter::Salter::new_with_qb64b as new_with_qb64b
//@params qb64b tier
    ensures r is Ok ==> saltcode(r->Ok_0.m_code()) && mdet(None, None, Some(qb64b@), None, None) == Some(mval(r->Ok_0)),
        mok(qb64b@) && ascii(qb64b@) && saltcode(qc(qb64b@)) ==> r is Ok,
        r is Ok ==> isalt(r->Ok_0) && r->Ok_0.tier@ == dflt(os(tier), L"low"), // @C17
//@start
    proof { lemma_cid4(L"0A"); }
//@end
//@fn core::salter::Salter::new_with_qb64 as new_with_qb64
//@params qb64 tier
    ensures r is Ok ==> saltcode(r->Ok_0.m_code()) && mdet(None, None, None, Some(qb64@), None) == Some(mval(r->Ok_0)),
        mok(qb64@) && saltcode(qc(qb64@)) ==> r is Ok,
        r is Ok ==> isalt(r->Ok_0) && r->Ok_0.tier@ == dflt(os(tier), L"low"), // @C17
//@start
    proof { lemma_cid4(L"0A"); }
//@end
//@fn core::salter::Salter::new_with_qb2 as new_with_qb2
//@params qb2 tier
    ensures r is Ok ==> saltcode(r->Ok_0.m_code()) && mdet(None, None, None, None, Some(qb2@)) == Some(mval(r->Ok_0)),
        mokb(qb2@) && saltcode(bc(qb2@)) ==> r is Ok,
        r is Ok ==> isalt(r->Ok_0) && r->Ok_0.tier@ == dflt(os(tier), L"low"), // @C17
//@start
    proof { lemma_cid4(L"0A"); }
//@end
//@fn core::salter::Salter::tier as tier
    ensures r@ == self.tier@
//@end
//@fn core::salter::Salter::stretch as stretch
//@params size path tier temp
    ensures r is Ok ==> tier_known(tpick(self.tier@, os(tier), temp)) && r->Ok_0@ == stretchf(dflt(os(path), L""), self.m_raw(), (if size is Some { size->0 as nat } else { 32 }), tpick(self.tier@, os(tier), temp)),
        ({ let n = (if size is Some { size->0 as nat } else { 32 }); isalt(*self) && tier_known(tpick(self.tier@, os(tier), temp)) && 4 <= n <= u32::MAX && dflt(os(path), L"").len() <= u32::MAX ==> r is Ok })
//@end
//@fn core::salter::Salter::signer as signer
//@params code transferable path tier temp
    ensures r is Ok ==> derived(r->Ok_0, *self, os(code), transferable, dflt(os(path), L""), os(tier), temp),
        isalt(*self) && seedcode(dflt(os(code), L"A")) && tier_known(tpick(self.tier@, os(tier), temp)) && dflt(os(path), L"").len() <= u32::MAX && seed_ok(salg(dflt(os(code), L"A")), dseed(*self, dflt(os(path), L""), os(tier), temp)) ==> r is Ok
//@start
    broadcast use axiom_argon_len;
    proof { let c = dflt(os(code), L"A"); lemma_cid4(c); if seedcode(c) { lemma_seedcode(c); assert forall|k: Seq<u8>| k.len() == 32 implies #[trigger] k.subrange(0, 32) == k by { assert(k.subrange(0, 32) =~= k); } } }
//@end
//@fn core::salter::Salter::signers as signers
//@params count start path code transferable tier temp
    requires (if count is Some { count->0 as int } else { 1 }) + (if start is Some { start->0 as int } else { 0 }) <= usize::MAX
    ensures r is Ok ==> r->Ok_0@.len() == (if count is Some { count->0 as int } else { 1 }),
        r is Ok ==> forall|i: int| 0 <= i < r->Ok_0@.len() ==> derived(#[trigger] r->Ok_0@[i], *self, os(code), transferable, dflt(os(path), L"") + hex((i + (if start is Some { start->0 as int } else { 0 })) as nat), os(tier), temp)
//@loop 0
        invariant signers@.len() == __i0 - __b0, __b0 == 0 || __b0 == start, __i0 <= __e0, start + count <= usize::MAX, __e0 - __b0 == count,
            forall|i: int| 0 <= i < signers@.len() ==> derived(#[trigger] signers@[i], *self, os(code), transferable, path@ + hex((i + start) as nat), os(tier), temp),
//@end
}
/// C27: generated salts and seeds are, as a whole, what the operating system's random source handed out, and valid for their algorithm
fn thm_c27(tier: Option<&XString>, code: Option<&XString>, transferable: Option<bool>) {
    if let Ok(s) = Salter::new(tier, None, None, None, None, None) { assert(osr(s.m_raw()) && s.m_raw().len() == 16); } // @C27
    if let Ok(s) = Salter::new_with_defaults(tier) { assert(osr(s.m_raw()) && s.m_raw().len() == 16); } // @C27
    if let Ok(s) = Signer::new(transferable, code, None, None, None, None) { assert(osr(s.m_raw()) && seed_ok(salg(s.m_code()), s.m_raw())); } // @C27
    if let Ok(s) = Signer::new_with_defaults(transferable, code) { assert(osr(s.m_raw()) && seed_ok(salg(s.m_code()), s.m_raw())); } // @C27
}
