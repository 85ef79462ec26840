//@imports seqner
// ------------------------------------------------------------------ ordinal numbers
/// octets a number code holds
pub open spec fn nwidth(c: Seq<u8>) -> nat { let k = cid(c); if k == K"M" { 2 } else if k == K"0H" { 4 } else if k == K"N" { 8 } else if k == K"0A" { 16 } else { 0 } }
pub open spec fn numcode(c: Seq<u8>) -> bool { nwidth(c) > 0 }
/// the smallest code that holds the value
pub open spec fn ncode(v: nat) -> Seq<u8> { if v < 0x1_0000 { L"M" } else if v < 0x1_0000_0000 { L"0H" } else if v < 0x1_0000_0000_0000_0000 { L"N" } else { L"0A" } }
pub open spec fn nof(num: Option<u128>, numh: Option<Seq<u8>>) -> Option<nat> {
    if num is None && numh is Some && numh->0.len() == 0 { Some(0) } else { snof(num, numh) }
}
pub open spec fn numm(v: nat) -> (Seq<u8>, nat, Seq<u8>) { (ncode(v), 0, be(v, nwidth(ncode(v)))) }
pub proof fn lemma_ncode(v: nat)
    requires v <= u128::MAX
    ensures ({ let c = ncode(v); &&& numcode(c) && mknown(c) && !mvar(c) && mrz(c) == nwidth(c) && v < ipow(256, nwidth(c)) && unbe(be(v, nwidth(c))) == v && be(v, nwidth(c)).len() == nwidth(c)
        &&& mdet(Some(c), Some(be(v, nwidth(c))), None, None, None) == Some(numm(v)) && mvalid(c, 0, be(v, nwidth(c))) })
{
    let c = ncode(v);
    lemma_cid4(c); lemma_w256(); lemma_unbe_be(v, nwidth(c));
    assert(mtake(c, be(v, nwidth(c))) =~= be(v, nwidth(c)));
}
/// no code of a Number with fewer octets can hold the value
pub proof fn lemma_nsmallest(v: nat, c: Seq<u8>)
    requires v <= u128::MAX, numcode(c), v < ipow(256, nwidth(c))
    ensures nwidth(ncode(v)) <= nwidth(c)
{ lemma_w256(); lemma_cid4(ncode(v)); }
pub proof fn lemma_numcode(c: Seq<u8>) requires numcode(c) ensures mknown(c), !mvar(c), mrz(c) == nwidth(c) { lemma_cid4(c); }
//@include mimpl.inc M=core::number T=Number
//@fn core::number::tables::Codex::has_code as number_has_code
//@params code
    ensures r == numcode(code@)
//@end
//@fn core::number::validate_code as number_validate_code
//@params code
    ensures r is Ok <==> numcode(code@)
//@end
impl Number {
//@fn core::number::Number::new as new
//@params num numh code raw qb64b qb64 qb2
    ensures r is Ok ==> numcode(r->Ok_0.m_code()) && mvalid(r->Ok_0.m_code(), r->Ok_0.m_size(), r->Ok_0.m_raw()),
        r is Ok && (raw is Some || qb64b is Some || qb64 is Some || qb2 is Some) ==> mdet(Some(dflt(os(code), L"M")), ob(raw), ob(qb64b), os(qb64), ob(qb2)) == Some(mval(r->Ok_0)),
        raw is None && qb64b is None && qb64 is None && qb2 is None ==> ({ let v = nof(num, os(numh)); (r is Ok <==> v is Some) && (r is Ok ==> mval(r->Ok_0) == numm(v->0) && unbe(r->Ok_0.m_raw()) == v->0) }), // @C11
        ({ let v = mdet(Some(dflt(os(code), L"M")), ob(raw), ob(qb64b), os(qb64), ob(qb2)); v is Some && numcode(dflt(os(code), L"M")) && numcode((v->0).0) && mutf(ob(raw), ob(qb64b)) ==> r is Ok }), // @C11
//@start
    proof {
        lemma_w256();
        let c = dflt(os(code), L"M");
        lemma_cid4(c);
        let v = mdet(Some(c), ob(raw), ob(qb64b), os(qb64), ob(qb2));
        if v is Some { lemma_mdet(Some(c), ob(raw), ob(qb64b), os(qb64), ob(qb2)); lemma_cid4((v->0).0); }
        let n = nof(num, os(numh));
        if n is Some { lemma_ncode(n->0); lemma_cid4(ncode(n->0)); }
    }
//@end
//@fn core::number::Number::new_with_num as new_with_num
//@params num
    ensures r is Ok, mval(r->Ok_0) == numm(num as nat)
//@end
//@fn core::number::Number::new_with_numh as new_with_numh
//@params numh
    ensures r is Ok <==> nof(None, Some(numh@)) is Some, r is Ok ==> mval(r->Ok_0) == numm(nof(None, Some(numh@))->0)
//@end
//@fn core::number::Number::new_with_raw as new_with_raw
//@params raw code
    ensures r is Ok ==> numcode(r->Ok_0.m_code()) && mdet(Some(dflt(os(code), L"M")), Some(raw@), None, None, None) == Some(mval(r->Ok_0))
//@end
//@fn core::number::Number::new_with_qb64b as new_with_qb64b
//@params qb64b
    ensures r is Ok ==> numcode(r->Ok_0.m_code()) && mdet(None, None, Some(qb64b@), None, None) == Some(mval(r->Ok_0)),
        mok(qb64b@) && ascii(qb64b@) && numcode(qc(qb64b@)) ==> r is Ok
//@start
    proof { lemma_cid4(L"M"); }
//@end
//@fn core::number::Number::new_with_qb64 as new_with_qb64
//@params qb64
    ensures r is Ok ==> numcode(r->Ok_0.m_code()) && mdet(None, None, None, Some(qb64@), None) == Some(mval(r->Ok_0)),
        mok(qb64@) && numcode(qc(qb64@)) ==> r is Ok
//@start
    proof { lemma_cid4(L"M"); }
//@end
//@fn core::number::Number::new_with_qb2 as new_with_qb2
//@params qb2
    ensures r is Ok ==> numcode(r->Ok_0.m_code()) && mdet(None, None, None, None, Some(qb2@)) == Some(mval(r->Ok_0)),
        mokb(qb2@) && numcode(bc(qb2@)) ==> r is Ok
//@start
    proof { lemma_cid4(L"M"); }
//@end
//@fn core::number::Number::num as num
    requires mvalid(self.m_code(), self.m_size(), self.m_raw())
    ensures r is Ok <==> numcode(self.m_code()), r is Ok ==> r->Ok_0 == unbe(self.m_raw())
//@start
    proof { if numcode(self.m_code()) { lemma_numcode(self.m_code()); } }
//@end
//@fn core::number::Number::numh as numh
    requires mvalid(self.m_code(), self.m_size(), self.m_raw())
    ensures r is Ok <==> numcode(self.m_code()), r is Ok ==> r->Ok_0@ == hex(unbe(self.m_raw()))
//@end
//@fn core::number::Number::positive as positive
    requires mvalid(self.m_code(), self.m_size(), self.m_raw())
    ensures r is Ok <==> numcode(self.m_code()), r is Ok ==> r->Ok_0 == (unbe(self.m_raw()) > 0)
//@end
}
/// C11 for one valid number: its value, and what its forms read back as
fn thm_c11_num_one(s: &Number, n: u128)
    requires numcode(s.m_code()), mvalid(s.m_code(), s.m_size(), s.m_raw()), unbe(s.m_raw()) == n
{
    proof {
        lemma_mself(s.m_code(), s.m_size(), s.m_raw());
        lemma_mforms(s.m_code(), s.m_size(), s.m_raw()); lemma_mroundb(s.m_code(), s.m_size(), s.m_raw(), Seq::empty());
        let b = mbin(s.m_code(), s.m_size(), s.m_raw());
        assert(b + Seq::<u8>::empty() =~= b); lemma_mresb(s.m_code(), s.m_size(), s.m_raw(), b);
    }
    let v = s.num(); let h = s.numh(); let p = s.positive();
    assert(v is Ok && v->Ok_0 == n && h is Ok && h->Ok_0@ == hex(n as nat) && p is Ok && p->Ok_0 == (n > 0));
    let t = s.qb64(); let tb = s.qb64b(); let b = s.qb2();
    assert(t is Ok && tb is Ok && b is Ok);
    if let (Ok(t), Ok(tb), Ok(b)) = (t, tb, b) {
        let x = Number::new_with_qb64(&t);
        assert(x is Ok && mval(x->Ok_0) == mval(*s));
        let x = Number::new_with_qb64b(&tb);
        assert(x is Ok && mval(x->Ok_0) == mval(*s));
        let x = Number::new_with_qb2(&b);
        assert(x is Ok && mval(x->Ok_0) == mval(*s));
    }
}
/// C11: every value and its text, in the smallest code
fn thm_c11_number(n: u128, h: &XString)
    requires h@ == hex(n as nat)
{
    proof { lemma_hex(n as nat); lemma_ncode(n as nat); }
    if let Ok(s) = Number::new_with_num(n) { assert(s.m_code() == ncode(n as nat)); thm_c11_num_one(&s, n); }
    let r = Number::new_with_numh(h);
    assert(r is Ok);
    if let Ok(s) = r { assert(s.m_code() == ncode(n as nat)); thm_c11_num_one(&s, n); }
}
