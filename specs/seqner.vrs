//@imports matter
// ------------------------------------------------------------------ sequence numbers
pub open spec fn p256(w: nat) -> nat { ipow(256, w) }
pub proof fn lemma_unbe_lt(s: Seq<u8>) ensures unbe(s) < p256(s.len()) decreases s.len()
{
    reveal_with_fuel(ipow, 2);
    if s.len() > 0 { lemma_unbe_lt(s.drop_last()); assert(p256(s.len()) == 256 * p256((s.len() - 1) as nat)); }
}
pub proof fn lemma_w256() ensures p256(1) == 256, p256(2) == 0x1_0000, p256(4) == 0x1_0000_0000, p256(8) == 0x1_0000_0000_0000_0000, p256(16) == u128::MAX as nat + 1
{
    reveal_with_fuel(ipow, 5);
    assert(ipow(256, 4) == 0x1_0000_0000) by (compute);
    assert(ipow(256, 8) == 0x1_0000_0000_0000_0000) by (compute);
    assert(ipow(256, 16) == 0x1_0000_0000_0000_0000_0000_0000_0000_0000) by (compute);
}
/// hexadecimal text reads back
pub proof fn lemma_hex(n: nat)
    ensures ishex(hex(n)), hval(hxs(hex(n))) == n, hxs(hex(n)) == hex(n), hex(n).len() > 0, forall|i: int| 0 <= i < hex(n).len() ==> ishexd(#[trigger] hex(n)[i])
    decreases n
{
    reveal_with_fuel(hval, 2);
    if n >= 16 {
        lemma_hex(n / 16);
        assert(hex(n).drop_last() =~= hex(n / 16));
        assert(hex(n)[0] == hex(n / 16)[0]);
    }
}
/// the number a sequence number is made from when no primitive is given
pub open spec fn snof(sn: Option<u128>, snh: Option<Seq<u8>>) -> Option<nat> {
    if sn is Some { Some(sn->0 as nat) } else if snh is Some { if ishex(snh->0) && hval(hxs(snh->0)) <= u128::MAX { Some(hval(hxs(snh->0))) } else { None } } else { Some(0) }
}
pub open spec fn seqcode(c: Seq<u8>) -> bool { cid(c) == K"0A" }
//@include mimpl.inc M=core::seqner T=Seqner
//@fn core::seqner::validate_code as seqner_validate_code
//@params code
    ensures r is Ok <==> seqcode(code@)
//@end
impl Seqner {
//@fn core::seqner::Seqner::new as new
//@params sn snh code raw qb64b qb64 qb2
    ensures r is Ok ==> seqcode(r->Ok_0.m_code()) && mvalid(r->Ok_0.m_code(), r->Ok_0.m_size(), r->Ok_0.m_raw()),
        r is Ok && (raw is Some || qb64b is Some || qb64 is Some || qb2 is Some) ==> mdet(Some(dflt(os(code), L"0A")), ob(raw), ob(qb64b), os(qb64), ob(qb2)) == Some(mval(r->Ok_0)),
        raw is None && qb64b is None && qb64 is None && qb2 is None ==> ({ let v = snof(sn, os(snh));
            &&& v is None ==> r is Err
            &&& r is Ok ==> r->Ok_0.m_raw() == be(v->0, 16) && unbe(r->Ok_0.m_raw()) == v->0
            &&& v is Some && seqcode(dflt(os(code), L"0A")) ==> r is Ok }), // @C11
        ({ let v = mdet(Some(dflt(os(code), L"0A")), ob(raw), ob(qb64b), os(qb64), ob(qb2)); v is Some && seqcode((v->0).0) && mutf(ob(raw), ob(qb64b)) ==> r is Ok }), // @C11
//@start
    proof {
        let c = dflt(os(code), L"0A");
        lemma_cid4(c); lemma_w256();
        let v = mdet(Some(c), ob(raw), ob(qb64b), os(qb64), ob(qb2));
        if v is Some { lemma_mdet(Some(c), ob(raw), ob(qb64b), os(qb64), ob(qb2)); lemma_cid4((v->0).0); }
        let n = snof(sn, os(snh));
        if n is Some { lemma_unbe_be(n->0, 16); assert(be(n->0, 16).len() == 16); assert(be(n->0, 16).subrange(0, 16) =~= be(n->0, 16)); }
        assert forall|x: u128| #![trigger be(x as nat, 16)] be(x as nat, 16).len() == 16 by {}
        if mnew(c, be(n->0, 16)) { lemma_mnew(c, be(n->0, 16)); lemma_cid4(mpick(c, 16)); }
    }
//@end
//@fn core::seqner::Seqner::new_with_sn as new_with_sn
//@params sn
    ensures r is Ok, seqcode(r->Ok_0.m_code()), mvalid(r->Ok_0.m_code(), r->Ok_0.m_size(), r->Ok_0.m_raw()), unbe(r->Ok_0.m_raw()) == sn
//@start
    proof { lemma_cid4(L"0A"); }
//@end
//@fn core::seqner::Seqner::new_with_snh as new_with_snh
//@params snh
    ensures r is Ok <==> snof(None, Some(snh@)) is Some, r is Ok ==> seqcode(r->Ok_0.m_code()) && mvalid(r->Ok_0.m_code(), r->Ok_0.m_size(), r->Ok_0.m_raw()) && Some(unbe(r->Ok_0.m_raw())) == snof(None, Some(snh@))
//@start
    proof { lemma_cid4(L"0A"); }
//@end
//@fn core::seqner::Seqner::new_with_raw as new_with_raw
//@params raw code
    ensures r is Ok ==> seqcode(r->Ok_0.m_code()) && mdet(Some(dflt(os(code), L"0A")), Some(raw@), None, None, None) == Some(mval(r->Ok_0))
//@end
//@fn core::seqner::Seqner::new_with_qb64b as new_with_qb64b
//@params qb64b
    ensures r is Ok ==> seqcode(r->Ok_0.m_code()) && mdet(None, None, Some(qb64b@), None, None) == Some(mval(r->Ok_0)),
        mok(qb64b@) && ascii(qb64b@) && seqcode(qc(qb64b@)) ==> r is Ok
//@end
//@fn core::seqner::Seqner::new_with_qb64 as new_with_qb64
//@params qb64
    ensures r is Ok ==> seqcode(r->Ok_0.m_code()) && mdet(None, None, None, Some(qb64@), None) == Some(mval(r->Ok_0)),
        mok(qb64@) && seqcode(qc(qb64@)) ==> r is Ok
//@end
//@fn core::seqner::Seqner::new_with_qb2 as new_with_qb2
//@params qb2
    ensures r is Ok ==> seqcode(r->Ok_0.m_code()) && mdet(None, None, None, None, Some(qb2@)) == Some(mval(r->Ok_0)),
        mokb(qb2@) && seqcode(bc(qb2@)) ==> r is Ok
//@end
//@fn core::seqner::Seqner::sn as sn
    requires self.m_raw().len() >= 16
    ensures r is Ok, r->Ok_0 == unbe(self.m_raw().subrange(0, 16))
//@end
//@fn core::seqner::Seqner::snh as snh
    requires self.m_raw().len() >= 16
    ensures r is Ok, r->Ok_0@ == hex(unbe(self.m_raw().subrange(0, 16)))
//@end
}
/// C11 for one valid sequence number
fn thm_c11_one(s: &Seqner, n: u128)
    requires seqcode(s.m_code()), mvalid(s.m_code(), s.m_size(), s.m_raw()), unbe(s.m_raw()) == n
{
    proof {
        lemma_cid4(s.m_code()); lemma_mself(s.m_code(), s.m_size(), s.m_raw());
        lemma_mforms(s.m_code(), s.m_size(), s.m_raw()); lemma_mroundb(s.m_code(), s.m_size(), s.m_raw(), Seq::empty());
        let b = mbin(s.m_code(), s.m_size(), s.m_raw());
        assert(b + Seq::<u8>::empty() =~= b); lemma_mresb(s.m_code(), s.m_size(), s.m_raw(), b);
        assert(s.m_raw().subrange(0, 16) =~= s.m_raw());
    }
    let v = s.sn(); let h = s.snh();
    assert(v is Ok && v->Ok_0 == n && h is Ok && h->Ok_0@ == hex(n as nat));
    let t = s.qb64(); let tb = s.qb64b(); let b = s.qb2();
    assert(t is Ok && tb is Ok && b is Ok && t->Ok_0@.len() == 24);
    if let (Ok(t), Ok(tb), Ok(b)) = (t, tb, b) {
        let x = Seqner::new_with_qb64(&t);
        assert(x is Ok && mval(x->Ok_0) == mval(*s));
        let x = Seqner::new_with_qb64b(&tb);
        assert(x is Ok && mval(x->Ok_0) == mval(*s));
        let x = Seqner::new_with_qb2(&b);
        assert(x is Ok && mval(x->Ok_0) == mval(*s));
    }
}
/// C11: every value and its text
fn thm_c11_seqner(n: u128, h: &XString)
    requires h@ == hex(n as nat)
{
    proof { lemma_hex(n as nat); }
    if let Ok(s) = Seqner::new_with_sn(n) { thm_c11_one(&s, n); }
    let r = Seqner::new_with_snh(h);
    assert(r is Ok);
    if let Ok(s) = r { thm_c11_one(&s, n); }
}
