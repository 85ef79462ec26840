//@imports cigar siger
// ------------------------------------------------------------------ signers
/// the codes a Signer admits
pub open spec fn seedcode(c: Seq<u8>) -> bool { cid(c) == K"A" || cid(c) == K"J" || cid(c) == K"Q" }
/// the code of the verification key of a seed
pub open spec fn keycode(c: Seq<u8>, transferable: bool) -> Seq<u8> {
    if cid(c) == K"A" { if transferable { L"D" } else { L"B" } }
    else if cid(c) == K"J" { if transferable { L"1AAB" } else { L"1AAA" } }
    else { if transferable { L"1AAJ" } else { L"1AAI" } }
}
/// the code of an unindexed signature made with a seed
pub open spec fn sigc(c: Seq<u8>) -> Seq<u8> { if cid(c) == K"A" { L"0B" } else if cid(c) == K"J" { L"0C" } else { L"0I" } }
/// the code of an indexed signature made with a seed: the compact one exactly when the indices fit it
pub open spec fn isigc(c: Seq<u8>, only: bool, index: u32, ondex: u32) -> Seq<u8> {
    if only {
        if index < 64 { if cid(c) == K"A" { L"B" } else if cid(c) == K"J" { L"D" } else { L"F" } }
        else { if cid(c) == K"A" { L"2B" } else if cid(c) == K"J" { L"2D" } else { L"2F" } }
    } else {
        if index == ondex && index < 64 { if cid(c) == K"A" { L"A" } else if cid(c) == K"J" { L"C" } else { L"E" } }
        else { if cid(c) == K"A" { L"2A" } else if cid(c) == K"J" { L"2C" } else { L"2E" } }
    }
}
pub proof fn lemma_seedcode(c: Seq<u8>)
    requires seedcode(c)
    ensures mknown(c), !mvar(c), mrz(c) == 32, 1 <= salg(c) <= 3,
        forall|t: bool| #![trigger keycode(c, t)] ({ let k = keycode(c, t); vercode(k) && mknown(k) && !mvar(k) && mrz(k) == (if salg(c) == 1 { 32int } else { 33int }) && salg(k) == salg(c) }),
        ({ let k = sigc(c); cigcode(k) && mknown(k) && !mvar(k) && mrz(k) == 64 && salg(k) == salg(c) }),
        forall|o: bool, i: u32, j: u32| #![trigger isigc(c, o, i, j)] ({ let k = isigc(c, o, i, j);
            &&& sigcode(k) && iknown(k) && !ivar(k) && irz(k, i as nat) == 64
            &&& (o <==> icur(k)) && (!o <==> iboth(k))
            &&& (o && i < 64 || !o && i == j && i < 64) ==> k.len() == 1 && ims(k) == 1 && ios(k) == 0
            &&& !(o && i < 64 || !o && i == j && i < 64) ==> k.len() == 2 && ims(k) == 2 && ios(k) == 2 }),
{
    hide(cid);
    lemma_cid4(c);
    assert forall|t: bool| #![trigger keycode(c, t)] ({ let k = keycode(c, t); vercode(k) && mknown(k) && !mvar(k) && mrz(k) == (if salg(c) == 1 { 32int } else { 33int }) && salg(k) == salg(c) }) by { lemma_cid4(keycode(c, t)); }
    lemma_cid4(sigc(c));
    assert forall|o: bool, i: u32, j: u32| #![trigger isigc(c, o, i, j)] ({ let k = isigc(c, o, i, j);
            &&& sigcode(k) && iknown(k) && !ivar(k) && irz(k, i as nat) == 64
            &&& (o <==> icur(k)) && (!o <==> iboth(k))
            &&& (o && i < 64 || !o && i == j && i < 64) ==> k.len() == 1 && ims(k) == 1 && ios(k) == 0
            &&& !(o && i < 64 || !o && i == j && i < 64) ==> k.len() == 2 && ims(k) == 2 && ios(k) == 2 }) by { lemma_cid4(isigc(c, o, i, j)); }
}
/// the verification key of a seed
pub open spec fn keyof(c: Seq<u8>, raw: Seq<u8>, transferable: bool) -> (Seq<u8>, nat, Seq<u8>) { (keycode(c, transferable), 0, pubk(salg(c), raw)) }
pub proof fn lemma_keyof(c: Seq<u8>, raw: Seq<u8>, t: bool)
    requires seedcode(c), seed_ok(salg(c), raw)
    ensures mdet(Some(keycode(c, t)), Some(pubk(salg(c), raw)), None, None, None) == Some(keyof(c, raw, t)), vercode(keycode(c, t))
{
    broadcast use axiom_pub;
    lemma_seedcode(c);
    assert(mtake(keycode(c, t), pubk(salg(c), raw)) =~= pubk(salg(c), raw));
}
//@include mimpl.inc M=core::signer T=Signer
//@fn core::signer::validate_code as signer_validate_code
//@params code
    ensures r is Ok <==> seedcode(code@)
//@end
//@fn core::signer::derive_verfer as derive_verfer
//@params code private_key transferable
    requires private_key@.len() == 32
    ensures r is Ok ==> seedcode(code@) && seed_ok(salg(code@), private_key@) && mval(r->Ok_0) == keyof(code@, private_key@, transferable),
        seedcode(code@) && seed_ok(salg(code@), private_key@) ==> r is Ok
//@start
    proof {
        if seedcode(code@) && seed_ok(salg(code@), private_key@) { lemma_keyof(code@, private_key@, transferable); }
        if seedcode(code@) { lemma_seedcode(code@); }
    }
//@end
/// a signer as constructed: a seed of its algorithm and its verification key
pub open spec fn signer_ok(s: Signer) -> bool {
    &&& seedcode(s.m_code()) && mvalid(s.m_code(), s.m_size(), s.m_raw()) && seed_ok(salg(s.m_code()), s.m_raw())
    &&& exists|t: bool| mval(s.verfer) == #[trigger] keyof(s.m_code(), s.m_raw(), t)
}
impl Signer {
//@fn core::signer::Signer::new as new
//@params transferable code raw qb64b qb64 qb2
    ensures r is Ok ==> seedcode(r->Ok_0.m_code()) && mvalid(r->Ok_0.m_code(), r->Ok_0.m_size(), r->Ok_0.m_raw()),
        r is Ok && (raw is Some || qb64b is Some || qb64 is Some || qb2 is Some) ==> ({
            let c = if qb64b is None && qb64 is None && qb2 is None { Some(dflt(os(code), L"A")) } else { os(code) };
            mdet(c, ob(raw), ob(qb64b), os(qb64), ob(qb2)) == Some(mval(r->Ok_0)) }),
        r is Ok && raw is None && qb64b is None && qb64 is None && qb2 is None ==> r->Ok_0.m_code() == dflt(os(code), L"A"),
        r is Ok && raw is None && qb64b is None && qb64 is None && qb2 is None ==> osr(r->Ok_0.m_raw()) && seed_ok(salg(r->Ok_0.m_code()), r->Ok_0.m_raw()), // @C27
        r is Ok ==> signer_ok(r->Ok_0) && mval(r->Ok_0.verfer) == keyof(r->Ok_0.m_code(), r->Ok_0.m_raw(), if transferable is Some { transferable->0 } else { true }), // @C16 C17
        raw is None && qb64b is None && qb64 is None && qb2 is None && seedcode(dflt(os(code), L"A")) ==> r is Ok, // @C16
        ({ let c = if qb64b is None && qb64 is None && qb2 is None { Some(dflt(os(code), L"A")) } else { os(code) };
           let v = mdet(c, ob(raw), ob(qb64b), os(qb64), ob(qb2)); v is Some && seedcode((v->0).0) && seed_ok(salg((v->0).0), (v->0).2) && mutf(ob(raw), ob(qb64b)) ==> r is Ok }), // @C16
//@start
    broadcast use axiom_seed_len;
    proof {
        let c = if qb64b is None && qb64 is None && qb2 is None { Some(dflt(os(code), L"A")) } else { os(code) };
        let v = mdet(c, ob(raw), ob(qb64b), os(qb64), ob(qb2));
        if v is Some { lemma_mdet(c, ob(raw), ob(qb64b), os(qb64), ob(qb2)); if seedcode((v->0).0) { lemma_seedcode((v->0).0); } }
        let d = dflt(os(code), L"A");
        if seedcode(d) { lemma_seedcode(d); assert forall|k: Seq<u8>| k.len() == 32 implies #[trigger] k.subrange(0, 32) == k by { assert(k.subrange(0, 32) =~= k); } }
    }
//@end
//@fn core::signer::Signer::derive_and_assign_verfer as derive_and_assign_verfer
//@params transferable
    requires old(self).m_raw().len() == 32
    ensures r is Ok ==> mval(*final(self)) == mval(*old(self)) && seed_ok(salg(old(self).m_code()), old(self).m_raw()) && mval(final(self).verfer) == keyof(old(self).m_code(), old(self).m_raw(), transferable),
        seedcode(old(self).m_code()) && seed_ok(salg(old(self).m_code()), old(self).m_raw()) ==> r is Ok,
//@end
//@fn core::signer::Signer::verfer as verfer
    ensures r == self.verfer
//@end
//@fn core::signer::Signer::new_with_defaults as new_with_defaults
//@params transferable code
    ensures r is Ok ==> seedcode(r->Ok_0.m_code()) && r->Ok_0.m_code() == dflt(os(code), L"A"),
        r is Ok ==> signer_ok(r->Ok_0) && mval(r->Ok_0.verfer) == keyof(r->Ok_0.m_code(), r->Ok_0.m_raw(), if transferable is Some { transferable->0 } else { true }), // @C16 C17
        seedcode(dflt(os(code), L"A")) ==> r is Ok, // @C16
        r is Ok ==> osr(r->Ok_0.m_raw()) && seed_ok(salg(r->Ok_0.m_code()), r->Ok_0.m_raw()) // @C27
//@end
//@fn core::signer::Signer::new_with_raw as new_with_raw
//@params raw transferable code
    ensures r is Ok ==> seedcode(r->Ok_0.m_code()) && mdet(Some(dflt(os(code), L"A")), Some(raw@), None, None, None) == Some(mval(r->Ok_0)),
        ({ let v = mdet(Some(dflt(os(code), L"A")), Some(raw@), None, None, None); v is Some && seedcode((v->0).0) && seed_ok(salg((v->0).0), (v->0).2) ==> r is Ok }),
        r is Ok ==> signer_ok(r->Ok_0) && mval(r->Ok_0.verfer) == keyof(r->Ok_0.m_code(), r->Ok_0.m_raw(), if transferable is Some { transferable->0 } else { true }), // @C16 C17
//@end
//@fn core::signer::Signer::new_with_qb64b as new_with_qb64b
//@params qb64b transferable
    ensures r is Ok ==> seedcode(r->Ok_0.m_code()) && mdet(None, None, Some(qb64b@), None, None) == Some(mval(r->Ok_0)),
        mok(qb64b@) && ascii(qb64b@) && seedcode(qc(qb64b@)) && seed_ok(salg(qc(qb64b@)), qr(qb64b@)) ==> r is Ok,
        r is Ok ==> signer_ok(r->Ok_0) && mval(r->Ok_0.verfer) == keyof(r->Ok_0.m_code(), r->Ok_0.m_raw(), if transferable is Some { transferable->0 } else { true }), // @C16 C17
//@end
//@fn core::signer::Signer::new_with_qb64 as new_with_qb64
//@params qb64 transferable
    ensures r is Ok ==> seedcode(r->Ok_0.m_code()) && mdet(None, None, None, Some(qb64@), None) == Some(mval(r->Ok_0)),
        mok(qb64@) && seedcode(qc(qb64@)) && seed_ok(salg(qc(qb64@)), qr(qb64@)) ==> r is Ok,
        r is Ok ==> signer_ok(r->Ok_0) && mval(r->Ok_0.verfer) == keyof(r->Ok_0.m_code(), r->Ok_0.m_raw(), if transferable is Some { transferable->0 } else { true }), // @C16 C17
//@end
//@fn core::signer::Signer::new_with_qb2 as new_with_qb2
//@params qb2 transferable
    ensures r is Ok ==> seedcode(r->Ok_0.m_code()) && mdet(None, None, None, None, Some(qb2@)) == Some(mval(r->Ok_0)),
        mokb(qb2@) && seedcode(bc(qb2@)) && seed_ok(salg(bc(qb2@)), br(qb2@)) ==> r is Ok,
        r is Ok ==> signer_ok(r->Ok_0) && mval(r->Ok_0.verfer) == keyof(r->Ok_0.m_code(), r->Ok_0.m_raw(), if transferable is Some { transferable->0 } else { true }), // @C16 C17
//@end
//@fn core::signer::Signer::sign_unindexed as sign_unindexed
//@params ser
    requires signer_ok(*self)
    ensures r is Ok, r->Ok_0.m_code() == sigc(self.m_code()), r->Ok_0.m_size() == 0,
        issig(salg(self.m_code()), self.m_raw(), ser@, r->Ok_0.m_raw()), r->Ok_0.verfer == self.verfer
//@start
    broadcast use axiom_sig;
    proof { lemma_seedcode(self.m_code()); assert forall|k: Seq<u8>| k.len() == 64 implies #[trigger] k.subrange(0, 64) == k by { assert(k.subrange(0, 64) =~= k); } }
//@end
//@fn core::signer::Signer::sign_indexed as sign_indexed
//@params ser only index ondex
    requires signer_ok(*self)
    ensures r is Ok ==> ({ let o = if ondex is Some { ondex->0 } else { index };
            &&& r->Ok_0.i_code() == isigc(self.m_code(), only, index, o) && r->Ok_0.i_index() == index
            &&& r->Ok_0.i_ondex() == (if only { 0 } else { o as nat })
            &&& issig(salg(self.m_code()), self.m_raw(), ser@, r->Ok_0.i_raw()) && r->Ok_0.verfer == self.verfer }),
        index < 4096 && (only || ondex is None || ondex->0 < 4096) ==> r is Ok
//@start
    broadcast use axiom_sig;
    proof { lemma_p64(); lemma_seedcode(self.m_code()); assert forall|k: Seq<u8>| k.len() == 64 implies #[trigger] k.subrange(0, 64) == k by { assert(k.subrange(0, 64) =~= k); } }
//@end
}
/// C16: the attached key verifies the signature over the signed data
fn thm_c16(s: &Signer, ser: &[u8], only: bool, index: u32, ondex: Option<u32>)
    requires signer_ok(*s)
{
    broadcast use axiom_sig, axiom_pub;
    proof { lemma_seedcode(s.m_code()); }
    if let Ok(g) = s.sign_unindexed(ser) {
        let v = g.verfer();
        let sig = g.raw();
        let ok = v.verify(&sig, ser);
        assert(ok == Ok::<bool, VxErr>(true));
    }
    if let Ok(g) = s.sign_indexed(ser, only, index, ondex) {
        let v = g.verfer();
        let sig = g.raw();
        let ok = v.verify(&sig, ser);
        assert(ok == Ok::<bool, VxErr>(true));
    }
}
