//@uses util enc
// ------------------------------------------------------------------ the counter code table
pub open spec fn ckn(s: Seq<u8>) -> bool {
    ||| s.len() == 2 && s[0] == 45 && (65 <= s[1] <= 76 || s[1] == 86)
    ||| s.len() == 3 && s[0] == 45 && s[1] == 48 && s[2] == 86
    ||| s.len() == 5 && s[0] == 45 && s[1] == 45 && s[2] == 65 && s[3] == 65 && s[4] == 65
}
pub open spec fn css(s: Seq<u8>) -> nat { if s.len() == 2 { 2 } else if s.len() == 3 { 5 } else { 3 } }
pub open spec fn ccs(s: Seq<u8>) -> nat { s.len() + css(s) }
/// second characters that start a counter code, and the hard size they select
pub open spec fn ksec(b: u8) -> bool { 65 <= b <= 76 || b == 86 || b == 48 || b == 45 }
pub open spec fn khs(b: u8) -> nat { if b == 48 { 3 } else if b == 45 { 5 } else { 2 } }

pub proof fn lemma_cid5(s: Seq<u8>)
    ensures
        s.len() == 2 ==> cid(s) == 0x1_0000 + s[0] * 256 + s[1], s.len() == 2 <==> 0x1_0000 <= cid(s) < 0x2_0000,
        s.len() == 3 ==> cid(s) == 0x100_0000 + s[0] * 0x1_0000 + s[1] * 256 + s[2], s.len() == 3 <==> 0x100_0000 <= cid(s) < 0x200_0000,
        s.len() == 5 ==> cid(s) == 0x100_0000_0000 + s[0] * 0x1_0000_0000 + s[1] * 0x100_0000 + s[2] * 0x1_0000 + s[3] * 256 + s[4], s.len() == 5 <==> 0x100_0000_0000 <= cid(s) < 0x200_0000_0000,
{
    reveal_with_fuel(cid, 6);
    if s.len() >= 1 { let a = s.drop_last(); assert(cid(s) == cid(a) * 256 + s.last() as int);
    if s.len() >= 2 { let b = a.drop_last(); assert(cid(a) == cid(b) * 256 + a.last() as int);
    if s.len() >= 3 { let c = b.drop_last(); assert(cid(b) == cid(c) * 256 + b.last() as int);
    if s.len() >= 4 { let d = c.drop_last(); assert(cid(c) == cid(d) * 256 + c.last() as int);
    if s.len() >= 5 { let e = d.drop_last(); assert(cid(d) == cid(e) * 256 + d.last() as int);
    if s.len() >= 6 { let f = e.drop_last(); assert(cid(e) == cid(f) * 256 + e.last() as int); lemma_cid_pos(f); }
    }}}}}
}

//@struct core::counter::tables::Sizage as CSizage

//@fn core::counter::tables::sizage as c_sizage
//@params s
    ensures r is Ok <==> ckn(s@),
        r is Ok ==> ({ let z = r->Ok_0; &&& z.hs == s@.len() &&& z.ss == css(s@) &&& z.ls == 0 &&& z.fs == ccs(s@) })
//@start
    hide(cid);
    proof { lemma_cid5(s@); }
//@end
//@fn core::counter::tables::hardage as c_hardage
//@params s
    ensures s@.len() == 2 ==> (r is Ok <==> s@[0] == 45 && ksec(s@[1])), s@.len() == 2 && r is Ok ==> r->Ok_0 == khs(s@[1])
//@start
    hide(cid);
    proof { lemma_cid5(s@); }
//@end
//@fn core::counter::tables::bardage as c_bardage
//@params b
    ensures b@.len() == 2 ==> (r is Ok <==> b@[0] == 62 && b@[1] < 64 && ksec(b64c(b@[1] as int))), b@.len() == 2 && r is Ok ==> r->Ok_0 == khs(b64c(b@[1] as int))
//@end

/// C06: the table is well formed
pub proof fn lemma_ctab(s: Seq<u8>)
    requires ckn(s)
    ensures b64s(s), ascii(s), s[0] == 45, ksec(s[1]), s.len() == khs(s[1]), ccs(s) == 4 || ccs(s) == 8, hlen(ccs(s) as int), css(s) <= 5
{
    assert forall|i: int| 0 <= i < s.len() implies isb64(#[trigger] s[i]) by { if i == 0 {} else if i == 1 {} else if i == 2 {} else if i == 3 {} else {} }
    lemma_b64s_ascii(s);
}

// ------------------------------------------------------------------ counters
pub open spec fn cvalid(c: Seq<u8>, n: nat) -> bool { ckn(c) && n < ipow(64, css(c)) }
pub open spec fn ctext(c: Seq<u8>, n: nat) -> Seq<u8> { c + digs(n, css(c)) }
pub open spec fn cbin(c: Seq<u8>, n: nat) -> Seq<u8> { hdr(ctext(c, n)) }
pub proof fn lemma_p5() ensures ipow(64, 2) == 4096, ipow(64, 3) == 262144, ipow(64, 5) == 1073741824, ipow(64, 0) == 1, ipow(64, 1) == 64, ipow(64, 4) == 16777216
{ assert(ipow(64, 2) == 4096 && ipow(64, 3) == 262144 && ipow(64, 5) == 1073741824 && ipow(64, 0) == 1 && ipow(64, 1) == 64 && ipow(64, 4) == 16777216) by (compute_only); }

/// C10, C04: both forms
pub proof fn lemma_cforms(c: Seq<u8>, n: nat)
    requires cvalid(c, n)
    ensures ({ let t = ctext(c, n); let h = c.len() as int; let e = ccs(c) as int;
        &&& t.len() == e && e % 4 == 0 && b64s(t) && ascii(t) && 1 <= e <= 8
        &&& t.subrange(0, h) == c && t.subrange(h, e) == digs(n, css(c)) && val(digs(n, css(c))) == n && t[0] == 45 && t[1] == c[1]
        &&& cbin(c, n).len() * 4 == e * 3 && enc(cbin(c, n)) == t && sxs(cbin(c, n), e as nat) == t && n <= u32::MAX })
{
    let t = ctext(c, n); let h = c.len() as int; let e = ccs(c) as int;
    lemma_ctab(c); lemma_p5();
    lemma_digs(n, css(c));
    lemma_b64s_cat(c, digs(n, css(c)));
    lemma_b64s_ascii(t);
    assert(t.subrange(0, h) =~= c);
    assert(t.subrange(h, e) =~= digs(n, css(c)));
    lemma_hdr(t);
    let x = Seq::<u8>::empty();
    lemma_bx_tx(t, 0, x);
    assert(zs(0) + x =~= x);
    assert(bx(t, 0, x) =~= cbin(c, n));
    assert(enc(x).len() == 0);
    assert(tx(t, 0, x) =~= t);
    let k = css(c); assert(k == 2 || k == 3 || k == 5);
}
// what a parser reads off a text
pub open spec fn kc(q: Seq<u8>) -> Seq<u8> { q.subrange(0, khs(q[1]) as int) }
pub open spec fn kn(q: Seq<u8>) -> nat { val(q.subrange(kc(q).len() as int, ccs(kc(q)) as int)) }
pub open spec fn kok(q: Seq<u8>) -> bool {
    q.len() >= 2 && q[0] == 45 && ksec(q[1]) && khs(q[1]) <= q.len() && ckn(kc(q)) && ccs(kc(q)) <= q.len() && b64s(q.subrange(kc(q).len() as int, ccs(kc(q)) as int))
}
/// C02 for counters, C10: an accepted text starts with the text form of what was read
pub proof fn lemma_kok(q: Seq<u8>)
    requires kok(q)
    ensures cvalid(kc(q), kn(q)), q.subrange(0, ccs(kc(q)) as int) == ctext(kc(q), kn(q)), kn(q) < 0x4000_0000
{
    let c = kc(q); let h = c.len() as int; let e = ccs(c) as int; let s = q.subrange(h, e);
    lemma_ctab(c); lemma_p5();
    lemma_val(s);
    assert(q.subrange(0, e) =~= c + s);
    let k = css(c); assert(k == 2 || k == 3 || k == 5);
}
/// C10, C05: the text form of a counter, followed by anything, is read back
pub proof fn lemma_kres(c: Seq<u8>, n: nat, q: Seq<u8>)
    requires cvalid(c, n), ccs(c) <= q.len(), q.subrange(0, ccs(c) as int) == ctext(c, n)
    ensures kok(q), kc(q) == c, kn(q) == n
{
    lemma_cforms(c, n); lemma_ctab(c);
    let e = ccs(c) as int; let h = c.len() as int; let p = q.subrange(0, e);
    assert(p[0] == q[0] && p[1] == q[1]);
    assert(q.subrange(0, h) =~= p.subrange(0, h));
    assert(kc(q) == c);
    assert(q.subrange(h, e) =~= p.subrange(h, e));
    lemma_digs(n, css(c));
}
// what a parser reads off bytes
pub open spec fn gc(d: Seq<u8>) -> Seq<u8> { sxs(d, khs(b64c(sx(d, 1)))) }
pub open spec fn gn(d: Seq<u8>) -> nat { val(sxs(d, ccs(gc(d))).subrange(gc(d).len() as int, ccs(gc(d)) as int)) }
pub open spec fn gok(d: Seq<u8>) -> bool {
    d.len() >= 2 && sx(d, 0) == 62 && ksec(b64c(sx(d, 1))) && hn(khs(b64c(sx(d, 1))) as int) <= d.len() && ckn(gc(d)) && hn(ccs(gc(d)) as int) <= d.len()
}
pub proof fn lemma_gok(d: Seq<u8>)
    requires gok(d)
    ensures cvalid(gc(d), gn(d)), d.subrange(0, hn(ccs(gc(d)) as int)) == cbin(gc(d), gn(d)), gn(d) < 0x4000_0000,
        sxs(d, ccs(gc(d))) == ctext(gc(d), gn(d)),
{
    hide(sx);
    let c = gc(d); let h = c.len() as int; let e = ccs(c) as int; let t = sxs(d, ccs(c)); let s = t.subrange(h, e);
    lemma_ctab(c); lemma_p5();
    lemma_sxs(d, ccs(c));
    assert(t.subrange(0, h) =~= c);
    lemma_b64s_sub(t, h, e);
    lemma_val(s);
    assert(t =~= c + s);
    lemma_hdr_inv(d, e);
    let k = css(c); assert(k == 2 || k == 3 || k == 5);
}
pub proof fn lemma_gres(c: Seq<u8>, n: nat, d: Seq<u8>)
    requires cvalid(c, n), hn(ccs(c) as int) <= d.len(), d.subrange(0, hn(ccs(c) as int)) == cbin(c, n)
    ensures gok(d), gc(d) == c, gn(d) == n
{
    hide(sx); hide(hdr);
    lemma_cforms(c, n); lemma_ctab(c);
    let e = ccs(c) as int; let h = c.len() as int; let b = cbin(c, n); let t = ctext(c, n);
    assert(d.subrange(0, hn(e)) == b.subrange(0, hn(e))) by { assert(b.subrange(0, hn(e)) =~= b); }
    lemma_sxs_prefix(d, b, hn(e), e);
    assert(sxs(d, e as nat) == t);
    lemma_sx(d, 0); lemma_sx(d, 1);
    lemma_b64c(sx(d, 0)); lemma_b64c(sx(d, 1));
    assert(t[0] == b64c(sx(d, 0)) && t[1] == b64c(sx(d, 1)));
    assert(sxs(d, h as nat) =~= sxs(d, e as nat).subrange(0, h));
    lemma_digs(n, css(c));
    assert(hn(khs(c[1]) as int) <= hn(e));
}

/// C04: bytes are accepted exactly when their text is, and as the same counter
pub proof fn thm_c04(q: Seq<u8>)
    requires q.len() % 3 == 0
    ensures gok(q) <==> kok(enc(q)), gok(q) ==> gc(q) == kc(enc(q)) && gn(q) == kn(enc(q))
{
    hide(enc); hide(sx); hide(hdr); hide(cvalid); hide(ctext);
    let t = enc(q);
    if gok(q) {
        lemma_gok(q);
        let c = gc(q); let n = gn(q); let e = ccs(c) as int;
        lemma_cforms(c, n); lemma_hlen(e);
        lemma_enc_front(q, e / 4);
        lemma_kres(c, n, t);
    }
    if kok(t) {
        lemma_kok(t);
        let c = kc(t); let n = kn(t); let e = ccs(c) as int;
        lemma_cforms(c, n); lemma_hlen(e);
        lemma_enc_front(q, e / 4);
        lemma_enc_inj(q.subrange(0, e / 4 * 3), cbin(c, n));
        lemma_gres(c, n, q);
    }
}
// ------------------------------------------------------------------ semantic versions
/// the i-th part of a version text; missing and empty parts are zero
pub open spec fn svpart(v: Seq<u8>, i: int) -> int { let p = splitc(v, 46); if i < p.len() && p[i].len() > 0 { ival(p[i]) } else { 0 } }
pub open spec fn svok(v: Seq<u8>) -> bool {
    let p = splitc(v, 46);
    p.len() <= 3 && forall|i: int| 0 <= i < p.len() ==> (#[trigger] p[i]).len() == 0 || (isint(p[i]) && 0 <= ival(p[i]) <= 63)
}
/// one character per part
pub open spec fn heads(v: Seq<XString>) -> Seq<u8> { Seq::new(v.len(), |i: int| v[i]@[0]) }
pub broadcast proof fn lemma_join1(v: Seq<XString>)
    requires forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i])@.len() == 1
    ensures #[trigger] joinx(v, Seq::empty()) == heads(v)
    decreases v.len()
{
    if v.len() > 0 {
        assert(v[0]@ =~= seq![v[0]@[0]]);
        if v.len() > 1 {
            lemma_join1(v.drop_last());
            assert(v.last()@ =~= seq![v.last()@[0]]);
            assert(heads(v) =~= heads(v.drop_last()).push(v.last()@[0]));
        }
    }
    assert(joinx(v, Seq::empty()) =~= heads(v));
}
pub proof fn lemma_digs1(n: nat) requires n < 64 ensures digs(n, 1) == seq![b64c(n as int)]
{ reveal_with_fuel(digs, 2); assert(digs(n, 1) =~= seq![b64c(n as int)]); }

//@struct core::counter::Counter as Counter
impl Counter {
    pub open spec fn k_code(&self) -> Seq<u8> { self.code@ }
    pub open spec fn k_count(&self) -> nat { self.count as nat }
}
impl XDefault for Counter {
//@fn core::counter::Counter.Default::default as default
//@end
}
impl Counter {
//@fn core::counter::Counter::code as code
    ensures r@ == self.k_code()
//@end
//@fn core::counter::Counter::count as count
    ensures r == self.k_count()
//@end
//@fn core::counter::Counter::infil as infil
    ensures r is Ok <==> cvalid(self.k_code(), self.k_count()), r is Ok ==> r->Ok_0@ == ctext(self.k_code(), self.k_count())
//@start
    proof { lemma_p5(); if ckn(self.k_code()) { lemma_ctab(self.k_code()); } if cvalid(self.k_code(), self.k_count()) { lemma_cforms(self.k_code(), self.k_count()); } }
//@end
//@fn core::counter::Counter::binfil as binfil
    ensures r is Ok <==> cvalid(self.k_code(), self.k_count()), r is Ok ==> r->Ok_0@ == cbin(self.k_code(), self.k_count())
//@start
    proof { if cvalid(self.k_code(), self.k_count()) { lemma_cforms(self.k_code(), self.k_count()); } }
//@end
//@fn core::counter::Counter::qb64 as qb64
    ensures r is Ok <==> cvalid(self.k_code(), self.k_count()), r is Ok ==> r->Ok_0@ == ctext(self.k_code(), self.k_count())
//@end
//@fn core::counter::Counter::qb64b as qb64b
    ensures r is Ok <==> cvalid(self.k_code(), self.k_count()), r is Ok ==> r->Ok_0@ == ctext(self.k_code(), self.k_count())
//@end
//@fn core::counter::Counter::qb2 as qb2
    ensures r is Ok <==> cvalid(self.k_code(), self.k_count()), r is Ok ==> r->Ok_0@ == cbin(self.k_code(), self.k_count())
//@end
//@fn core::counter::Counter::full_size as full_size
    ensures r is Ok <==> ckn(self.k_code()), r is Ok ==> r->Ok_0 == ccs(self.k_code())
//@end
//@fn core::counter::Counter::exfil as exfil
//@params qb64
    ensures kok(qb64@) ==> r is Ok,
        r is Ok ==> kok(qb64@), // @C04 C05 C10
        r is Ok ==> final(self).k_code() == kc(qb64@) && final(self).k_count() == kn(qb64@)
//@start
    proof { lemma_kexf(qb64); }
//@end
//@fn core::counter::Counter::bexfil as bexfil
//@params qb2
    ensures gok(qb2@) ==> r is Ok,
        r is Ok ==> gok(qb2@), // @C04 C05 C10
        r is Ok ==> final(self).k_code() == gc(qb2@) && final(self).k_count() == gn(qb2@)
//@start
    hide(sx);
    broadcast use axiom_chars_ascii;
    proof { lemma_kbexf(qb2@);
        assert(forall|x: u32| x <= 0x3ff_ffff ==> #[trigger] (x << 6) == x * 64) by (bit_vector);
    }
//@loop 0
    invariant __v0@ == chars(both@.subrange(hs as int, cs as int)), hs == gc(qb2@).len(), cs == ccs(gc(qb2@)), both@ == sxs(qb2@, cs as nat), gok(qb2@),
    count == val(cb(__v0@, __i0 as int)), __v0@.len() == cs - hs, __i0 <= 5, css(gc(qb2@)) <= 5,
    b64s(both@.subrange(hs as int, cs as int)), val(both@.subrange(hs as int, cs as int)) < 0x4000_0000,
    forall|j: int| 0 <= j < __i0 ==> (#[trigger] __v0@[j] as u32) < 128 && isb64(__v0@[j] as u8),
//@loopstart 0
    proof { lemma_dstep(both@.subrange(hs as int, cs as int), __i0 as int); }
//@tail
    proof { lemma_dend(both@.subrange(hs as int, cs as int)); }
//@end
//@fn core::counter::Counter::new_with_code_and_count as new_with_code_and_count
//@params code count
    ensures r is Ok <==> cvalid(code@, count as nat), r is Ok ==> r->Ok_0.k_code() == code@ && r->Ok_0.k_count() == count
//@start
    proof { lemma_p5(); if ckn(code@) { lemma_ctab(code@); } }
//@end
//@fn core::counter::Counter::new_with_qb64 as new_with_qb64
//@params qb64
    ensures kok(qb64@) ==> r is Ok,
        r is Ok ==> kok(qb64@), // @C04 C05 C10
        r is Ok ==> r->Ok_0.k_code() == kc(qb64@) && r->Ok_0.k_count() == kn(qb64@)
//@end
//@fn core::counter::Counter::new_with_qb64b as new_with_qb64b
//@params qb64b
    ensures ascii(qb64b@) && kok(qb64b@) ==> r is Ok,
        r is Ok ==> kok(qb64b@), // @C04 C05 C10
        r is Ok ==> r->Ok_0.k_code() == kc(qb64b@) && r->Ok_0.k_count() == kn(qb64b@)
//@end
//@fn core::counter::Counter::new_with_qb2 as new_with_qb2
//@params qb2
    ensures gok(qb2@) ==> r is Ok,
        r is Ok ==> gok(qb2@), // @C04 C05 C10
        r is Ok ==> r->Ok_0.k_code() == gc(qb2@) && r->Ok_0.k_count() == gn(qb2@)
//@end
//@fn core::counter::Counter::new as new
//@params count count_b64 code qb64b qb64 qb2
    ensures code is Some && count is Some ==> (r is Ok <==> cvalid(code->0@, count->0 as nat)) && (r is Ok ==> r->Ok_0.k_code() == code->0@ && r->Ok_0.k_count() == count->0),
        code is Some && count is None && count_b64 is Some ==> (r is Ok <==> b64s(count_b64->0@) && cvalid(code->0@, val(count_b64->0@))) && (r is Ok ==> r->Ok_0.k_code() == code->0@ && r->Ok_0.k_count() == val(count_b64->0@)),
        code is Some && count is None && count_b64 is None ==> (r is Ok <==> ckn(code->0@)) && (r is Ok ==> r->Ok_0.k_code() == code->0@ && r->Ok_0.k_count() == 1),
        code is None && qb64b is Some && r is Ok ==> ({ let q = qb64b->0@; kok(q) && r->Ok_0.k_code() == kc(q) && r->Ok_0.k_count() == kn(q) }),
        code is None && qb64b is Some && ascii(qb64b->0@) && kok(qb64b->0@) ==> r is Ok,
        code is None && qb64b is None && qb64 is Some ==> ({ let q = qb64->0@; (r is Ok <==> kok(q)) && (r is Ok ==> r->Ok_0.k_code() == kc(q) && r->Ok_0.k_count() == kn(q)) }),
        code is None && qb64b is None && qb64 is None && qb2 is Some ==> ({ let q = qb2->0@; (r is Ok <==> gok(q)) && (r is Ok ==> r->Ok_0.k_code() == gc(q) && r->Ok_0.k_count() == gn(q)) }),
        code is None && qb64b is None && qb64 is None && qb2 is None ==> r is Err,
//@start
    proof { lemma_p5(); }
//@end
//@fn core::counter::Counter::count_as_b64 as count_as_b64
//@params length
    requires length <= 1000
    ensures cvalid(self.k_code(), self.k_count()) && (length == 0 || length == css(self.k_code())) ==> r is Ok && r->Ok_0@ == digs(self.k_count(), css(self.k_code()))
//@end
//@fn core::counter::Counter::sem_ver_parts_to_b64 as sem_ver_parts_to_b64
//@params parts
    ensures r is Ok <==> (forall|i: int| 0 <= i < parts@.len() ==> #[trigger] parts@[i] <= 63), r is Ok ==> r->Ok_0@ == Seq::new(parts@.len(), |i: int| b64c(parts@[i] as int))
//@start
    broadcast use lemma_join1;
    proof { lemma_p5(); assert(forall|v: Seq<u8>| v.len() == 0 ==> v =~= Seq::<u8>::empty()); assert(slit_() =~= Seq::<u8>::empty()); }
//@loop 0
    invariant forall|k: int| 0 <= k < __i0 ==> #[trigger] parts@[k] <= 63,
//@loop 1
    invariant __o@.len() == __i1, forall|k: int| 0 <= k < __i1 ==> (#[trigger] __o@[k])@ == seq![b64c(parts@[k] as int)],
//@loopstart 1
    proof { lemma_digs1(parts@[__i1 as int] as nat); }
//@tail
    proof { if __ret is Ok { let s = __ret->Ok_0; assert(s@ =~= Seq::new(parts@.len(), |i: int| b64c(parts@[i] as int))); } }
//@end
//@fn core::counter::Counter::sem_ver_str_to_b64 as sem_ver_str_to_b64
//@params version
    ensures r is Ok <==> svok(version@), r is Ok ==> r->Ok_0@ == seq![b64c(svpart(version@, 0)), b64c(svpart(version@, 1)), b64c(svpart(version@, 2))]
//@loop 0
    invariant parts@.len() == 3, strings@.len() == splitc(version@, 46).len(), strings@.len() <= 3, __e0 == strings@.len(), 0 <= __i0 <= __e0,
        forall|k: int| 0 <= k < strings@.len() ==> (#[trigger] strings@[k])@ == splitc(version@, 46)[k],
        forall|k: int| 0 <= k < __i0 ==> (#[trigger] splitc(version@, 46)[k]).len() == 0 || (isint(splitc(version@, 46)[k]) && 0 <= ival(splitc(version@, 46)[k]) <= 127),
        forall|k: int| 0 <= k < 3 ==> #[trigger] parts@[k] == (if k < __i0 { svpart(version@, k) } else { 0 }),
//@tail
    proof {
        assert(parts@[0] == svpart(version@, 0) && parts@[1] == svpart(version@, 1) && parts@[2] == svpart(version@, 2));
        if __ret is Ok { let s = __ret->Ok_0; assert(s@ =~= seq![b64c(svpart(version@, 0)), b64c(svpart(version@, 1)), b64c(svpart(version@, 2))]);
            assert forall|i: int| 0 <= i < splitc(version@, 46).len() implies (#[trigger] splitc(version@, 46)[i]).len() == 0 || (isint(splitc(version@, 46)[i]) && 0 <= ival(splitc(version@, 46)[i]) <= 63) by { assert(parts@[i] <= 63); }
        } else {
            assert(svok(version@) ==> parts@[0] <= 63 && parts@[1] <= 63 && parts@[2] <= 63);
        }
    }
//@end
//@fn core::counter::Counter::sem_ver_to_b64 as sem_ver_to_b64
//@params major minor patch
    ensures r is Ok <==> major <= 63 && minor <= 63 && patch <= 63, r is Ok ==> r->Ok_0@ == seq![b64c(major as int), b64c(minor as int), b64c(patch as int)]
//@tail
    proof {
        assert(parts@[0] == major && parts@[1] == minor && parts@[2] == patch);
        if __ret is Ok { let s = __ret->Ok_0; assert(s@ =~= seq![b64c(major as int), b64c(minor as int), b64c(patch as int)]); }
    }
//@end
}
pub proof fn lemma_kexf(x: &XString)
    ensures ({ let q = x@; let c = kc(q); let h = c.len() as int; let e = ccs(c) as int;
        &&& q.len() >= 2 && q[0] == 45 && ksec(q[1]) ==> bnd(q, 2)
        &&& q.len() >= 2 && q[0] == 45 && ksec(q[1]) && khs(q[1]) <= q.len() && ckn(c) ==> c.len() == khs(q[1]) && bnd(q, h) && 4 <= e <= 8 && css(c) <= 5
        &&& kok(q) ==> bnd(q, e) && kn(q) < 0x4000_0000 })
{
    let q = x@; let c = kc(q); let h = c.len() as int; let e = ccs(c) as int;
    if q.len() >= 2 && q[0] == 45 && ksec(q[1]) {
        axiom_utf8_next(x, 1);
        if khs(q[1]) <= q.len() && ckn(c) {
            lemma_ctab(c);
            assert(c[h - 1] == q[h - 1]); assert(c[h - 1] < 128);
            axiom_utf8_next(x, h - 1);
            if kok(q) {
                let s = q.subrange(h, e);
                assert(isb64(s[e - h - 1])); assert(s[e - h - 1] == q[e - 1]);
                axiom_utf8_next(x, e - 1);
                lemma_kok(q);
            }
        }
    }
}
pub proof fn lemma_kbexf(d: Seq<u8>)
    ensures ({ let c = gc(d); let h = c.len() as int; let e = ccs(c) as int; let t = sxs(d, e as nat); let s = t.subrange(h, e);
        &&& 0 <= sx(d, 0) < 64 && 0 <= sx(d, 1) < 64 && h == khs(b64c(sx(d, 1))) && (h == 2 || h == 3 || h == 5)
        &&& gok(d) ==> (e == 4 || e == 8) && b64s(t) && ascii(t) && b64s(s) && ascii(s) && val(s) == gn(d) && gn(d) < 0x4000_0000 && s.len() == css(c) && bnd(t, h) && bnd(t, e) && t.len() == e
        &&& ckn(c) ==> (e == 4 || e == 8) && h < e })
{
    hide(sx);
    let c = gc(d); let h = c.len() as int; let e = ccs(c) as int; let t = sxs(d, e as nat); let s = t.subrange(h, e);
    lemma_sx(d, 0); lemma_sx(d, 1);
    if ckn(c) { lemma_ctab(c); }
    if gok(d) {
        lemma_gok(d);
        lemma_sxs(d, e as nat);
        lemma_b64s_sub(t, h, e);
        lemma_b64s_ascii(t); lemma_b64s_ascii(s);
    }
}

// ------------------------------------------------------------------ the properties, as theorems over the contracts
/// C10, C05: round trip in both domains
fn thm_c10(code: &XString, count: u32)
{
    if let Ok(m) = Counter::new_with_code_and_count(code, count) {
        proof { lemma_cforms(code@, count as nat); lemma_ctab(code@); }
        assert(m.k_code() == code@ && m.k_count() == count);
        let t = match m.qb64() { Ok(x) => x, Err(_) => { assert(false); return; } };
        proof { assert(t@.subrange(0, ccs(code@) as int) =~= t@); lemma_kres(code@, count as nat, t@); }
        let p = Counter::new_with_qb64(&t);
        assert(p is Ok && p->Ok_0.k_code() == code@ && p->Ok_0.k_count() == count);
        let b = match m.qb2() { Ok(x) => x, Err(_) => { assert(false); return; } };
        proof { assert(b@.subrange(0, hn(ccs(code@) as int)) =~= b@); lemma_gres(code@, count as nat, b@); }
        assert(enc(b@) == t@);
        let p = Counter::new_with_qb2(&b);
        assert(p is Ok && p->Ok_0.k_code() == code@ && p->Ok_0.k_count() == count);
        let n = m.full_size();
        assert(n is Ok && n->Ok_0 == t@.len());
    }
}
/// C05, C02: what is accepted is what the counter qualifies to again, and nothing shorter is accepted
fn thm_c10b(q: &XString, d: &[u8])
{
    if let Ok(m) = Counter::new_with_qb64(q) {
        proof { lemma_kok(q@); lemma_cforms(m.k_code(), m.k_count()); }
        let t = m.qb64();
        assert(t is Ok && t->Ok_0@.len() <= q@.len() && t->Ok_0@ == q@.subrange(0, t->Ok_0@.len() as int));
    }
    if let Ok(m) = Counter::new_with_qb2(d) {
        proof { lemma_gok(d@); lemma_cforms(m.k_code(), m.k_count()); }
        let t = m.qb2();
        assert(t is Ok && t->Ok_0@.len() <= d@.len() && t->Ok_0@ == d@.subrange(0, t->Ok_0@.len() as int));
    }
}
pub proof fn lemma_ccut(c: Seq<u8>, n: nat, k: int)
    requires cvalid(c, n)
    ensures 0 <= k < ctext(c, n).len() ==> !kok(ctext(c, n).subrange(0, k)),
        0 <= k < cbin(c, n).len() ==> !gok(cbin(c, n).subrange(0, k)),
{
    hide(sx);
    let t = ctext(c, n); let b = cbin(c, n);
    lemma_cforms(c, n); lemma_ctab(c);
    if 0 <= k < t.len() && kok(t.subrange(0, k)) {
        let q = t.subrange(0, k);
        lemma_kok(q);
        let e = ccs(kc(q)) as int;
        assert(q.subrange(0, e) =~= t.subrange(0, e));
        lemma_kres(kc(q), kn(q), t);
        assert(t.subrange(0, ccs(c) as int) =~= t);
        lemma_kres(c, n, t);
    }
    if 0 <= k < b.len() && gok(b.subrange(0, k)) {
        let q = b.subrange(0, k);
        lemma_gok(q);
        let e = hn(ccs(gc(q)) as int);
        assert(q.subrange(0, e) =~= b.subrange(0, e));
        lemma_gres(gc(q), gn(q), b);
        assert(b.subrange(0, hn(ccs(c) as int)) =~= b);
        lemma_gres(c, n, b);
    }
}
