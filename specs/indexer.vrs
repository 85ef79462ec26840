//@uses util enc
// ------------------------------------------------------------------ indexer code tables (published CESR indexed code table)
pub open spec fn icur(s: Seq<u8>) -> bool {
    ||| s.len() == 1 && (s[0] == 66 || s[0] == 68 || s[0] == 70)
    ||| s.len() == 2 && (s[0] == 48 && s[1] == 66 || s[0] == 50 && (s[1] == 66 || s[1] == 68 || s[1] == 70) || s[0] == 51 && s[1] == 66)
}
pub open spec fn iboth(s: Seq<u8>) -> bool {
    ||| s.len() == 1 && (s[0] == 65 || s[0] == 67 || s[0] == 69)
    ||| s.len() == 2 && (s[0] == 48 && s[1] == 65 || s[0] == 50 && (s[1] == 65 || s[1] == 67 || s[1] == 69) || s[0] == 51 && s[1] == 65)
}
/// test codes 0z, 1z, 4z
pub open spec fn itst(s: Seq<u8>) -> bool { s.len() == 2 && s[1] == 122 && (s[0] == 48 || s[0] == 49 || s[0] == 52) }
pub open spec fn iknown(s: Seq<u8>) -> bool { icur(s) || iboth(s) || itst(s) }
pub open spec fn ivar(s: Seq<u8>) -> bool { s.len() == 2 && s[0] == 48 && s[1] == 122 }
/// main index size
pub open spec fn ims(s: Seq<u8>) -> nat { if s.len() == 1 { 1 } else if ivar(s) { 2 } else if s[0] == 50 { 2 } else if s[0] == 51 || s[0] == 52 { 3 } else { 1 } }
/// other index size
pub open spec fn ios(s: Seq<u8>) -> nat { if s.len() == 1 || ivar(s) { 0 } else if s[0] == 50 { 2 } else if s[0] == 51 || s[0] == 52 { 3 } else { 1 } }
pub open spec fn ils(s: Seq<u8>) -> nat { if s.len() == 2 && s[1] == 122 && s[0] != 48 { 1 } else { 0 } }
pub open spec fn ifs(s: Seq<u8>) -> nat { if s.len() == 1 { 88 } else if s[0] == 48 { 156 } else if s[0] == 50 { 92 } else if s[0] == 51 { 160 } else if s[0] == 49 { 76 } else { 80 } }
pub open spec fn ihs(c: u8) -> nat { if 65 <= c <= 90 || 97 <= c <= 122 { 1 } else { 2 } }
pub open spec fn ics(s: Seq<u8>) -> nat { s.len() + ims(s) + ios(s) }

pub proof fn lemma_cid2(s: Seq<u8>)
    ensures s.len() == 1 ==> cid(s) == 256 + s[0], s.len() == 1 <==> 256 <= cid(s) < 0x200,
        s.len() == 2 ==> cid(s) == 0x1_0000 + s[0] * 256 + s[1], s.len() == 2 <==> 0x1_0000 <= cid(s) < 0x2_0000,
{
    reveal_with_fuel(cid, 3);
    if s.len() >= 3 {
        let t = s.drop_last(); let u = t.drop_last();
        lemma_cid_pos(u.drop_last());
        assert(cid(s) == cid(t) * 256 + s.last() as int);
        assert(cid(t) == cid(u) * 256 + t.last() as int);
        assert(cid(u) == cid(u.drop_last()) * 256 + u.last() as int);
    }
}

//@struct core::indexer::tables::Sizage as ISizage

//@fn core::indexer::tables::sizage as i_sizage
//@params s
    ensures r is Ok <==> iknown(s@),
        r is Ok ==> ({ let z = r->Ok_0; &&& z.hs == s@.len() &&& z.ss == ims(s@) + ios(s@) &&& z.os == ios(s@) &&& z.ls == ils(s@) &&& z.fs == (if ivar(s@) { u32::MAX as nat } else { ifs(s@) }) })
//@start
    hide(cid);
    proof { lemma_cid2(s@); }
//@end
//@fn core::indexer::tables::hardage as i_hardage
//@params c
    ensures r is Ok <==> (c as u32) < 128 && (65 <= c as u8 <= 90 || 97 <= c as u8 <= 122 || 48 <= c as u8 <= 52), r is Ok ==> r->Ok_0 == ihs(c as u8)
//@end
//@fn core::indexer::tables::bardage as i_bardage
//@params b
    ensures r is Ok <==> b < 57, r is Ok ==> r->Ok_0 == ihs(b64c(b as int))
//@end
//@fn core::indexer::tables::CurrentSigCodex::has_code as icur_has
//@params code
    ensures r == icur(code@)
//@start
    hide(cid);
    proof { lemma_cid2(code@); }
//@end
//@fn core::indexer::tables::BothSigCodex::has_code as iboth_has
//@params code
    ensures r == iboth(code@)
//@start
    hide(cid);
    proof { lemma_cid2(code@); }
//@end

// ------------------------------------------------------------------ C06: the table is well formed
pub proof fn lemma_itab(s: Seq<u8>)
    requires iknown(s)
    ensures
        b64s(s), ascii(s), s.len() == ihs(s[0]), b64v(s[0]) < 57, hlen(ics(s) as int), ims(s) >= 1, ims(s) <= 3, ios(s) <= 3, ics(s) <= 8, ils(s) <= 1,
        ivar(s) ==> ics(s) % 4 == 0 && ios(s) == 0 && ils(s) == 0 && !icur(s) && ics(s) == 4,
        !ivar(s) ==> ifs(s) % 4 == 0 && ifs(s) <= 160 && ifs(s) >= ics(s) + 60 && whole(ics(s) as int, ils(s) as int, irz0(s)) && irz0(s) > 0
            && ics(s) + (ics(s) % 4 + ils(s) + irz0(s)) / 3 * 4 - ics(s) % 4 == ifs(s),
        ics(s) % 4 != 0 ==> ils(s) == 0,
        65 <= s[0] <= 90 || 97 <= s[0] <= 122 || 48 <= s[0] <= 52,
        !(icur(s) && iboth(s)),
{
    assert forall|i: int| 0 <= i < s.len() implies isb64(#[trigger] s[i]) by { if i == 0 {} else {} }
    lemma_b64s_ascii(s);
}
pub open spec fn irz0(s: Seq<u8>) -> int { (ifs(s) - ics(s)) * 3 / 4 - ils(s) }

// ------------------------------------------------------------------ indexed primitives
pub open spec fn ifull(c: Seq<u8>, i: nat) -> nat { if ivar(c) { ics(c) + 4 * i } else { ifs(c) } }
pub open spec fn irz(c: Seq<u8>, i: nat) -> int { (ifull(c, i) - ics(c)) * 3 / 4 - ils(c) }
pub open spec fn iodx(c: Seq<u8>, i: nat, o: nat) -> bool {
    if icur(c) { o == 0 } else if ios(c) == 0 { o == i } else { o < ipow(64, ios(c)) }
}
/// code, index, other index and raw bytes fit together
pub open spec fn ivalid(c: Seq<u8>, i: nat, o: nat, r: Seq<u8>) -> bool {
    iknown(c) && i < ipow(64, ims(c)) && iodx(c, i, o) && r.len() == irz(c, i)
}
pub open spec fn iwr(c: Seq<u8>, i: nat, o: nat) -> Seq<u8> { c + digs(i, ims(c)) + digs(o, ios(c)) }
pub open spec fn itext(c: Seq<u8>, i: nat, o: nat, r: Seq<u8>) -> Seq<u8> { tx(iwr(c, i, o), ils(c), r) }
pub open spec fn ibin(c: Seq<u8>, i: nat, o: nat, r: Seq<u8>) -> Seq<u8> { bx(iwr(c, i, o), ils(c), r) }

pub proof fn lemma_iwr(c: Seq<u8>, i: nat, o: nat)
    requires iknown(c), i < ipow(64, ims(c)), ios(c) == 0 || o < ipow(64, ios(c))
    ensures ({ let w = iwr(c, i, o); let h = c.len() as int; let m = h + ims(c); let e = ics(c) as int;
        &&& w.len() == e && b64s(w) && ascii(w)
        &&& w.subrange(0, h) == c && w.subrange(h, m) == digs(i, ims(c)) && w.subrange(m, e) == digs(o, ios(c)) && w[0] == c[0]
        &&& val(digs(i, ims(c))) == i && (ios(c) > 0 ==> val(digs(o, ios(c))) == o) && i < 0x4_0000 && (ios(c) > 0 ==> o < 0x4_0000)
        &&& digs(i, ims(c)).len() == ims(c) && digs(o, ios(c)).len() == ios(c) })
{
    let w = iwr(c, i, o); let h = c.len() as int; let m = h + ims(c); let e = ics(c) as int;
    lemma_itab(c);
    lemma_digs(i, ims(c));
    lemma_digs(o, ios(c));
    lemma_p64();
    lemma_b64s_cat(c, digs(i, ims(c)));
    lemma_b64s_cat(c + digs(i, ims(c)), digs(o, ios(c)));
    lemma_b64s_ascii(w);
    assert(w.subrange(0, h) =~= c);
    assert(w.subrange(h, m) =~= digs(i, ims(c)));
    assert(w.subrange(m, e) =~= digs(o, ios(c)));
    let k = ims(c); assert(k == 1 || k == 2 || k == 3);
    let j = ios(c); assert(j == 0 || j == 1 || j == 2 || j == 3);
}
pub proof fn lemma_ifit(c: Seq<u8>, i: nat, o: nat, r: Seq<u8>)
    requires ivalid(c, i, o, r)
    ensures whole(ics(c) as int, ils(c) as int, r.len() as int), ios(c) == 0 || o < ipow(64, ios(c)), o < 0x4_0000, i < 0x4_0000,
        ifull(c, i) == ics(c) + (ics(c) % 4 + ils(c) + r.len()) / 3 * 4 - ics(c) % 4, ifull(c, i) % 4 == 0,
        ifull(c, i) / 4 * 3 == hn(ics(c) as int) + ils(c) + r.len(), ifull(c, i) < 0x1000_0000, ifull(c, i) >= ics(c),
        (ifull(c, i) + 1) * 3 / 4 == ifull(c, i) / 4 * 3, ics(c) % 4 + ils(c) == (3 - r.len() % 3) % 3,
{
    lemma_itab(c); lemma_p64();
    if ios(c) > 0 && o == 0 { lemma_pos(64, ios(c)); }
    lemma_iwr(c, i, 0);
    lemma_hlen(ics(c) as int);
    if ivar(c) { assert((4 * i) * 3 / 4 == 3 * i); assert(r.len() == 3 * i); }
    else { assert(r.len() == irz0(c)); }
}
/// C08/C04: both forms have the size the code announces, are whole groups, and convert into each other
pub proof fn lemma_iforms(c: Seq<u8>, i: nat, o: nat, r: Seq<u8>)
    requires ivalid(c, i, o, r)
    ensures itext(c, i, o, r).len() == ifull(c, i), itext(c, i, o, r).len() % 4 == 0, b64s(itext(c, i, o, r)), ascii(itext(c, i, o, r)),
        ibin(c, i, o, r).len() * 4 == ifull(c, i) * 3, ibin(c, i, o, r).len() % 3 == 0,
        enc(ibin(c, i, o, r)) == itext(c, i, o, r),
        iwr(c, i, o).len() == ics(c), b64s(iwr(c, i, o)), ascii(iwr(c, i, o)),
{
    lemma_itab(c);
    lemma_ifit(c, i, o, r);
    lemma_iwr(c, i, o);
    lemma_bx_tx(iwr(c, i, o), ils(c), r);
    lemma_b64s_ascii(itext(c, i, o, r));
}
pub proof fn lemma_itx(c: Seq<u8>, i: nat, o: nat, r: Seq<u8>)
    requires ivalid(c, i, o, r)
    ensures ({ let ps = (ics(c) % 4) as int; let e = enc(zs((ps + ils(c)) as nat) + r);
        &&& e.len() == (ps + ils(c) + r.len()) / 3 * 4 && ps <= e.len() && ascii(e)
        &&& itext(c, i, o, r) == iwr(c, i, o) + e.subrange(ps, e.len() as int) })
{
    lemma_ifit(c, i, o, r); lemma_iwr(c, i, o); lemma_itab(c);
    let ps = (ics(c) % 4) as int; let e = enc(zs((ps + ils(c)) as nat) + r);
    lemma_enc_ascii(zs((ps + ils(c)) as nat) + r);
    assert(e.subrange(ps, e.len() as int) =~= e.skip(ps));
}
pub proof fn lemma_ihdr(c: Seq<u8>, i: nat, o: nat)
    requires iknown(c), i < ipow(64, ims(c)), ios(c) == 0 || o < ipow(64, ios(c))
    ensures ({ let s = iwr(c, i, o); let l = s.len() as int; let x = val(s) * sh(l);
        &&& (1 <= l <= 8 && hn(l) <= 6 && l % 4 <= 2 && hdr(s).len() == hn(l))
        &&& l <= 4 ==> be(x, 4).subrange(4 - hn(l), 4) == hdr(s) && val(s) < 0x100_0000 && x < 0x100_0000 && be(x, 4).len() == 4 && hn(l) <= 3
        &&& l > 4 ==> be(x, 8).subrange(8 - hn(l), 8) == hdr(s) && val(s) < 0x1_0000_0000_0000 && be(x, 8).len() == 8 && hn(l) > 3 })
{
    hide(sh); hide(val); hide(be);
    lemma_itab(c);
    lemma_iwr(c, i, o);
    let s = iwr(c, i, o);
    lemma_hlen(ics(c) as int);
    lemma_hdr(s);
    if s.len() <= 4 { lemma_code_b2_4(s); } else { lemma_code_b2(s); }
}
/// an indexed primitive at the front of a text or byte stream
pub open spec fn ires(c: Seq<u8>, i: nat, o: nat, r: Seq<u8>, q: Seq<u8>) -> bool {
    ivalid(c, i, o, r) && ifull(c, i) <= q.len() && q.subrange(0, ifull(c, i) as int) == itext(c, i, o, r)
}
pub open spec fn iresb(c: Seq<u8>, i: nat, o: nat, r: Seq<u8>, q: Seq<u8>) -> bool {
    ivalid(c, i, o, r) && ifull(c, i) / 4 * 3 <= q.len() && q.subrange(0, (ifull(c, i) / 4 * 3) as int) == ibin(c, i, o, r)
}
// what a parser reads off a header w of ics characters
pub open spec fn wi(c: Seq<u8>, w: Seq<u8>) -> nat { val(w.subrange(c.len() as int, (c.len() + ims(c)) as int)) }
pub open spec fn wo(c: Seq<u8>, w: Seq<u8>) -> nat { val(w.subrange((c.len() + ims(c)) as int, ics(c) as int)) }
pub open spec fn wodx(c: Seq<u8>, w: Seq<u8>) -> nat { if icur(c) { 0 } else if ios(c) == 0 { wi(c, w) } else { wo(c, w) } }
pub open spec fn wcur(c: Seq<u8>, w: Seq<u8>) -> bool { icur(c) && ios(c) != 0 ==> wo(c, w) == 0 }
pub proof fn lemma_w(c: Seq<u8>, w: Seq<u8>)
    requires iknown(c), w.len() == ics(c), b64s(w), w.subrange(0, c.len() as int) == c
    ensures wi(c, w) < ipow(64, ims(c)), ios(c) > 0 ==> wo(c, w) < ipow(64, ios(c)), wi(c, w) < 0x4_0000, wo(c, w) < 0x4_0000,
        wcur(c, w) ==> iwr(c, wi(c, w), wodx(c, w)) == w && iodx(c, wi(c, w), wodx(c, w)),
{
    lemma_itab(c);
    lemma_p64();
    let m = (c.len() + ims(c)) as int; let e = ics(c) as int;
    let a = w.subrange(c.len() as int, m); let b = w.subrange(m, e);
    lemma_b64s_sub(w, c.len() as int, m); lemma_b64s_sub(w, m, e);
    lemma_val(a); lemma_val(b);
    let k = ims(c); assert(k == 1 || k == 2 || k == 3);
    let j = ios(c); assert(j == 0 || j == 1 || j == 2 || j == 3);
    assert(c + a + b =~= w);
    if j == 0 { assert(digs(wodx(c, w), 0) =~= b); }
}
pub proof fn lemma_w_wr(c: Seq<u8>, i: nat, o: nat)
    requires iknown(c), i < ipow(64, ims(c)), iodx(c, i, o), ios(c) == 0 || o < ipow(64, ios(c))
    ensures wi(c, iwr(c, i, o)) == i, wodx(c, iwr(c, i, o)) == o, wcur(c, iwr(c, i, o))
{ lemma_iwr(c, i, o); }

pub open spec fn ic(q: Seq<u8>) -> Seq<u8> { q.subrange(0, ihs(q[0]) as int) }
pub open spec fn iw(q: Seq<u8>) -> Seq<u8> { q.subrange(0, ics(ic(q)) as int) }
pub open spec fn ii(q: Seq<u8>) -> nat { wi(ic(q), iw(q)) }
pub open spec fn io(q: Seq<u8>) -> nat { wodx(ic(q), iw(q)) }
pub open spec fn iend(q: Seq<u8>) -> int { ifull(ic(q), ii(q)) as int }
pub open spec fn ihead(q: Seq<u8>) -> bool {
    q.len() > 0 && ihs(q[0]) <= q.len() && iknown(ic(q)) && ics(ic(q)) <= q.len() && b64s(iw(q)) && wcur(ic(q), iw(q))
}
/// well formed text
pub open spec fn iok(q: Seq<u8>) -> bool { ihead(q) && qok(q, ics(ic(q)) as int, ils(ic(q)), iend(q)) }
pub open spec fn ir(q: Seq<u8>) -> Seq<u8> { qraw(q, ics(ic(q)) as int, ils(ic(q)), iend(q)) }
pub proof fn lemma_iok(q: Seq<u8>)
    requires iok(q)
    ensures ires(ic(q), ii(q), io(q), ir(q), q)
{
    hide(enc); hide(iknown); hide(ifs); hide(icur);
    let c = ic(q);
    lemma_itab(c);
    assert(iw(q).subrange(0, c.len() as int) =~= c);
    lemma_w(c, iw(q));
    lemma_hlen(ics(c) as int);
    lemma_q_tx(q, ics(c) as int, ils(c), iend(q));
    if ivar(c) { assert((4 * ii(q)) / 4 * 3 == 3 * ii(q)); }
}
pub proof fn lemma_ires(c: Seq<u8>, i: nat, o: nat, r: Seq<u8>, q: Seq<u8>)
    requires ires(c, i, o, r, q)
    ensures iok(q), ic(q) == c, ii(q) == i, io(q) == o, ir(q) == r
{
    hide(enc); hide(iknown); hide(ifs); hide(icur);
    lemma_itab(c);
    lemma_ifit(c, i, o, r);
    lemma_iwr(c, i, o);
    lemma_w_wr(c, i, o);
    lemma_iforms(c, i, o, r);
    let w = iwr(c, i, o);
    lemma_tx_q(q, w, ils(c), r, ifull(c, i) as int);
    assert(q[0] == q.subrange(0, ics(c) as int)[0]);
    assert(ic(q) =~= w.subrange(0, c.len() as int));
}
/// C08: an indexed signature has a single spelling
pub proof fn lemma_ires_unique(c: Seq<u8>, i: nat, o: nat, r: Seq<u8>, c2: Seq<u8>, i2: nat, o2: nat, r2: Seq<u8>, q: Seq<u8>)
    requires ires(c, i, o, r, q), ires(c2, i2, o2, r2, q)
    ensures c == c2, i == i2, o == o2, r == r2
{ lemma_ires(c, i, o, r, q); lemma_ires(c2, i2, o2, r2, q); }
pub proof fn lemma_iround(c: Seq<u8>, i: nat, o: nat, r: Seq<u8>, rest: Seq<u8>)
    requires ivalid(c, i, o, r)
    ensures ires(c, i, o, r, itext(c, i, o, r) + rest), iok(itext(c, i, o, r) + rest)
{
    lemma_iforms(c, i, o, r);
    assert((itext(c, i, o, r) + rest).subrange(0, ifull(c, i) as int) =~= itext(c, i, o, r));
    lemma_ires(c, i, o, r, itext(c, i, o, r) + rest);
}
// the same off bytes
pub open spec fn jc(q: Seq<u8>) -> Seq<u8> { sxs(q, ihs(b64c(sx(q, 0)))) }
pub open spec fn jw(q: Seq<u8>) -> Seq<u8> { sxs(q, ics(jc(q))) }
pub open spec fn ji(q: Seq<u8>) -> nat { wi(jc(q), jw(q)) }
pub open spec fn jo(q: Seq<u8>) -> nat { wodx(jc(q), jw(q)) }
pub open spec fn jend(q: Seq<u8>) -> int { (ifull(jc(q), ji(q)) / 4 * 3) as int }
pub open spec fn jhead(q: Seq<u8>) -> bool {
    q.len() > 0 && hn(ihs(b64c(sx(q, 0))) as int) <= q.len() && iknown(jc(q)) && hn(ics(jc(q)) as int) <= q.len() && wcur(jc(q), jw(q))
}
pub open spec fn jok(q: Seq<u8>) -> bool { jhead(q) && dok(q, ics(jc(q)) as int, ils(jc(q)), jend(q)) }
pub open spec fn jr(q: Seq<u8>) -> Seq<u8> { draw(q, ics(jc(q)) as int, ils(jc(q)), jend(q)) }
pub proof fn lemma_isxs_len(d: Seq<u8>, n: nat, m: nat)
    requires n <= m
    ensures sxs(d, m).subrange(0, n as int) == sxs(d, n), sxs(d, n).len() == n
{ assert(sxs(d, m).subrange(0, n as int) =~= sxs(d, n)); }
pub proof fn lemma_jok(q: Seq<u8>)
    requires jok(q)
    ensures iresb(jc(q), ji(q), jo(q), jr(q), q)
{
    hide(sx); hide(hdr); hide(iknown); hide(ifs); hide(icur);
    let c = jc(q);
    lemma_itab(c);
    lemma_sxs(q, ics(c));
    lemma_isxs_len(q, c.len(), ics(c));
    lemma_w(c, jw(q));
    lemma_hlen(ics(c) as int);
    lemma_d_bx(q, ics(c) as int, ils(c), jend(q));
}
pub proof fn lemma_iresb(c: Seq<u8>, i: nat, o: nat, r: Seq<u8>, q: Seq<u8>)
    requires iresb(c, i, o, r, q)
    ensures jok(q), jc(q) == c, ji(q) == i, jo(q) == o, jr(q) == r
{
    hide(sx); hide(hdr); hide(iknown); hide(ifs); hide(icur);
    lemma_itab(c);
    lemma_ifit(c, i, o, r);
    lemma_iwr(c, i, o);
    lemma_w_wr(c, i, o);
    lemma_iforms(c, i, o, r);
    let w = iwr(c, i, o);
    lemma_hlen(ics(c) as int);
    lemma_bx_d(q, w, ils(c), r, (ifull(c, i) / 4 * 3) as int);
    lemma_isxs_len(q, c.len(), ics(c));
    assert(sxs(q, ics(c))[0] == b64c(sx(q, 0)));
}
pub proof fn lemma_iresb_unique(c: Seq<u8>, i: nat, o: nat, r: Seq<u8>, c2: Seq<u8>, i2: nat, o2: nat, r2: Seq<u8>, q: Seq<u8>)
    requires iresb(c, i, o, r, q), iresb(c2, i2, o2, r2, q)
    ensures c == c2, i == i2, o == o2, r == r2
{ lemma_iresb(c, i, o, r, q); lemma_iresb(c2, i2, o2, r2, q); }
pub proof fn lemma_iroundb(c: Seq<u8>, i: nat, o: nat, r: Seq<u8>, rest: Seq<u8>)
    requires ivalid(c, i, o, r)
    ensures iresb(c, i, o, r, ibin(c, i, o, r) + rest), jok(ibin(c, i, o, r) + rest)
{
    lemma_iforms(c, i, o, r);
    assert((ibin(c, i, o, r) + rest).subrange(0, (ifull(c, i) / 4 * 3) as int) =~= ibin(c, i, o, r));
    lemma_iresb(c, i, o, r, ibin(c, i, o, r) + rest);
}
/// C04: bytes are accepted exactly when their text is, and as the same primitive
pub proof fn thm_c04(q: Seq<u8>)
    requires q.len() % 3 == 0
    ensures jok(q) <==> iok(enc(q)), jok(q) ==> jc(q) == ic(enc(q)) && ji(q) == ii(enc(q)) && jo(q) == io(enc(q)) && jr(q) == ir(enc(q))
{
    hide(enc); hide(sx); hide(iok); hide(jok); hide(ivalid); hide(ifull); hide(itext); hide(ibin);
    let t = enc(q);
    if jok(q) {
        lemma_jok(q);
        let c = jc(q); let i = ji(q); let o = jo(q); let r = jr(q);
        lemma_iforms(c, i, o, r);
        lemma_enc_front(q, (ifull(c, i) / 4) as int);
        lemma_ires(c, i, o, r, t);
    }
    if iok(t) {
        lemma_iok(t);
        let c = ic(t); let i = ii(t); let o = io(t); let r = ir(t);
        lemma_iforms(c, i, o, r);
        lemma_enc_front(q, (ifull(c, i) / 4) as int);
        lemma_enc_inj(q.subrange(0, (ifull(c, i) / 4 * 3) as int), ibin(c, i, o, r));
        lemma_iresb(c, i, o, r, q);
    }
}
pub proof fn lemma_icompose(c: Seq<u8>, i: nat, o: nat, r: Seq<u8>, rest: Seq<u8>)
    requires ivalid(c, i, o, r)
    ensures enc(ibin(c, i, o, r) + rest) == itext(c, i, o, r) + enc(rest)
{ lemma_iforms(c, i, o, r); lemma_enc_cat(ibin(c, i, o, r), rest); }

// ------------------------------------------------------------------ creation (C09)
pub open spec fn icreate(c: Seq<u8>, n: nat, i: nat, o: Option<u32>) -> bool {
    &&& iknown(c) && i < ipow(64, ims(c)) && n >= irz(c, i)
    &&& o is Some ==> !icur(c) && (ios(c) > 0 ==> (o->0 as nat) < ipow(64, ios(c))) && (ios(c) == 0 ==> o->0 == i)
}
pub open spec fn inodx(c: Seq<u8>, i: nat, o: Option<u32>) -> nat { if o is Some { o->0 as nat } else if iboth(c) { i } else { 0 } }
/// what creation accepts is consistent (a variable size code created without other index keeps 0: it has no other index)
pub proof fn lemma_icreate(c: Seq<u8>, raw: Seq<u8>, i: nat, o: Option<u32>)
    requires icreate(c, raw.len(), i, o)
    ensures (o is None && ivar(c) ==> i == 0) ==> ivalid(c, i, inodx(c, i, o), raw.subrange(0, irz(c, i))),
        0 <= irz(c, i) <= raw.len(), i < 0x4_0000, icur(c) ==> inodx(c, i, o) == 0, iboth(c) && o is None ==> inodx(c, i, o) == i,
{ lemma_itab(c); lemma_p64(); lemma_iwr(c, i, 0); if ios(c) > 0 { lemma_pos(64, ios(c)); } }

/// what a parser relies on, in reading order
pub proof fn lemma_iexf(x: &XString)
    requires x@.len() > 0
    ensures ({ let q = x@; let c = ic(q); let hs = ihs(q[0]) as int; let ms = ims(c) as int; let cs = ics(c) as int; let a = q.subrange(hs, hs + ms); let b = q.subrange(hs + ms, cs); let fs = iend(q); let src = qsrc(q, cs, fs); let p = unb64(src);
        &&& hs <= q.len() && iknown(c) ==> q[0] < 128 && (65 <= q[0] <= 90 || 97 <= q[0] <= 122 || 48 <= q[0] <= 52) && c.len() == hs && bnd(q, hs) && hs + ms + ios(c) == cs && hlen(cs) && ils(c) <= 1 && (cs % 4 != 0 ==> ils(c) == 0) && (ivar(c) ==> cs == 4 && ios(c) == 0 && !icur(c)) && 1 <= ms <= 3 && ios(c) <= 3
        &&& hs <= q.len() && iknown(c) && cs <= q.len() && b64s(iw(q)) ==> bnd(q, hs + ms) && bnd(q, cs) && b64s(a) && b64s(b) && val(a) < 0x4_0000 && val(b) < 0x4_0000 && ii(q) == val(a) && wo(c, iw(q)) == val(b) && cs <= fs < 0x1000_0000 && fs % 4 == 0
        &&& hs <= q.len() && iknown(c) && cs <= q.len() && b64s(a) && (ios(c) > 0 ==> b64s(b)) ==> b64s(iw(q))
        &&& ihead(q) && fs <= q.len() && isenc(src) ==> bnd(q, fs) && src.len() == cs % 4 + fs - cs && src.len() % 4 == 0 && (fs - cs) * 3 / 4 + cs % 4 == src.len() / 4 * 3 && (p.len() + 2) / 3 * 4 == src.len() && (p.len() % 3 == 0 <==> p.len() == src.len() / 4 * 3) && p.len() >= cs % 4 && (p.len() % 3 == 0 && cs % 4 == 1 ==> p[0] < 4) && (p.len() % 3 == 0 && cs % 4 == 2 ==> p[0] == 0 && p[1] < 16)
             && (fs - cs) * 3 / 4 >= ils(c)
    })
{
    hide(enc); hide(isenc); hide(sx); hide(iknown); hide(icur); hide(ifs); hide(ims); hide(ios); hide(ivar); hide(ils); hide(isb64); hide(val);
    let q = x@; let c = ic(q); let hs = ihs(q[0]) as int; let ms = ims(c) as int; let cs = ics(c) as int; let a = q.subrange(hs, hs + ms); let b = q.subrange(hs + ms, cs); let fs = iend(q); let src = qsrc(q, cs, fs); let p = unb64(src);
    if hs <= q.len() && iknown(c) {
        lemma_itab(c);
        assert(c[0] == q[0] && c[hs - 1] == q[hs - 1]);
        assert(c[0] < 128 && c[hs - 1] < 128);
        axiom_utf8_next(x, hs - 1);
        if cs <= q.len() {
            let w = iw(q);
            assert(w.subrange(0, hs) =~= c);
            assert(w.subrange(hs, hs + ms) =~= a);
            assert(w.subrange(hs + ms, cs) =~= b);
            if b64s(a) && (ios(c) > 0 ==> b64s(b)) {
                assert(b64s(b));
                lemma_b64s_cat(c, a);
                lemma_b64s_cat(c + a, b);
                assert(c + a + b =~= w);
            }
            if b64s(w) {
                lemma_w(c, w);
                lemma_b64s_sub(w, hs, hs + ms);
                lemma_b64s_sub(w, hs + ms, cs);
                lemma_b64s_ascii(w);
                assert(w[hs + ms - 1] == q[hs + ms - 1] && w[cs - 1] == q[cs - 1]);
                axiom_utf8_next(x, hs + ms - 1);
                axiom_utf8_next(x, cs - 1);
                if ihead(q) && fs <= q.len() && isenc(src) {
                    lemma_isenc(src);
                    lemma_enc_ascii(p);
                    lemma_enc_size(p);
                    lemma_hlen(cs);
                    if fs > cs { assert(src[src.len() - 1] == q[fs - 1]); axiom_utf8_next(x, fs - 1); }
                    if p.len() % 3 == 0 {
                        assert forall|i: int| 0 <= i < cs % 4 implies #[trigger] enc(p)[i] == 65 by { assert(src[i] == 65); }
                        lemma_pad(p, cs % 4);
                    }
                }
            }
        }
    }
}
pub proof fn lemma_ibexf(q: Seq<u8>)
    requires q.len() > 0
    ensures ({ let c = jc(q); let k = sx(q, 0); let hs = ihs(b64c(k)) as int; let ms = ims(c) as int; let cs = ics(c) as int; let w = jw(q); let a = w.subrange(hs, hs + ms); let b = w.subrange(hs + ms, cs);
        &&& 0 <= k < 64 && (k as u8) as int == k && 1 <= hs <= 2 && hn(hs) <= 2 && (hs * 3 + 3) / 4 == hn(hs) && c.len() == hs && c[0] == b64c(k)
        &&& iknown(c) ==> k < 57 && hlen(cs) && hs + ms + ios(c) == cs && ils(c) <= 1 && (cs % 4 != 0 ==> ils(c) == 0) && (ivar(c) ==> cs == 4 && ios(c) == 0 && !icur(c)) && 1 <= ms <= 3 && ios(c) <= 3
             && b64s(a) && b64s(b) && val(a) < 0x4_0000 && val(b) < 0x4_0000 && ji(q) == val(a) && wo(c, w) == val(b)
             && (cs % 4 == 0 ==> sh(cs) == 1) && (cs % 4 == 1 ==> sh(cs) == 4) && (cs % 4 == 2 ==> sh(cs) == 16) && 0 < hn(cs) <= 6
             && cs <= ifull(c, ji(q)) < 0x1000_0000 && (ifull(c, ji(q)) + 1) * 3 / 4 == jend(q) && hn(cs) + ils(c) <= jend(q)
    })
{
    hide(sx); hide(icur);
    let c = jc(q); let k = sx(q, 0); let cs = ics(c) as int;
    lemma_sx(q, 0);
    lemma_b64c(k);
    if iknown(c) {
        lemma_itab(c);
        lemma_hlen(cs);
        let w = jw(q);
        lemma_sxs(q, ics(c));
        lemma_isxs_len(q, c.len(), ics(c));
        lemma_w(c, w);
        lemma_b64s_sub(w, c.len() as int, (c.len() + ims(c)) as int);
        lemma_b64s_sub(w, (c.len() + ims(c)) as int, cs);
    }
}
pub proof fn lemma_p2i() ensures ipow(2, 2) == 4, ipow(2, 4) == 16, ipow(2, 0) == 1, 1u8 << 2u32 == 4, 1u8 << 4u32 == 16, 1i32 << 2u32 == 4, 1i32 << 4u32 == 16, 1u32 << 2u32 == 4, 1u32 << 4u32 == 16
{ assert(1u8 << 2u32 == 4 && 1u8 << 4u32 == 16 && 1i32 << 2u32 == 4 && 1i32 << 4u32 == 16 && 1u32 << 2u32 == 4 && 1u32 << 4u32 == 16) by (bit_vector);
    assert(ipow(2, 2) == 4 && ipow(2, 4) == 16 && ipow(2, 0) == 1) by (compute_only); }

/// what the arguments of a constructor denote: code, index, other index and raw value
pub open spec fn idet(i: Option<u32>, o: Option<u32>, c: Option<Seq<u8>>, w: Option<Seq<u8>>, b: Option<Seq<u8>>, t: Option<Seq<u8>>, d: Option<Seq<u8>>) -> Option<(Seq<u8>, nat, nat, Seq<u8>)> {
    let x = (if i is Some { i->0 as nat } else { 0 });
    match w {
        Some(w) => match c { Some(c) => if icreate(c, w.len(), x, o) { Some((c, x, inodx(c, x, o), w.subrange(0, irz(c, x)))) } else { None }, None => None },
        None => match b {
            Some(q) => if iok(q) { Some((ic(q), ii(q), io(q), ir(q))) } else { None },
            None => match t {
                Some(q) => if iok(q) { Some((ic(q), ii(q), io(q), ir(q))) } else { None },
                None => match d { Some(q) => if jok(q) { Some((jc(q), ji(q), jo(q), jr(q))) } else { None }, None => None },
            },
        },
    }
}
pub trait Indexer: Sized + XDefault {
    spec fn i_code(&self) -> Seq<u8>;
    spec fn i_raw(&self) -> Seq<u8>;
    spec fn i_index(&self) -> nat;
    spec fn i_ondex(&self) -> nat;
    fn code(&self) -> (r: XString) ensures r@ == self.i_code();
    fn raw(&self) -> (r: Vec<u8>) ensures r@ == self.i_raw(), r@.len() <= 0x1000_0000_0000_0000;
    fn index(&self) -> (r: u32) ensures r == self.i_index();
    fn ondex(&self) -> (r: u32) ensures r == self.i_ondex();
    fn set_code(&mut self, code: &XString) ensures final(self).i_code() == code@, final(self).i_index() == old(self).i_index(), final(self).i_ondex() == old(self).i_ondex(), final(self).i_raw() == old(self).i_raw();
    fn set_raw(&mut self, raw: &[u8]) ensures final(self).i_code() == old(self).i_code(), final(self).i_index() == old(self).i_index(), final(self).i_ondex() == old(self).i_ondex(), final(self).i_raw() == raw@;
    fn set_index(&mut self, index: u32) ensures final(self).i_code() == old(self).i_code(), final(self).i_index() == index, final(self).i_ondex() == old(self).i_ondex(), final(self).i_raw() == old(self).i_raw();
    fn set_ondex(&mut self, ondex: u32) ensures final(self).i_code() == old(self).i_code(), final(self).i_index() == old(self).i_index(), final(self).i_ondex() == ondex, final(self).i_raw() == old(self).i_raw();

//@fn core::indexer::Indexer::infil as infil
    requires self.i_index() < 0x1000_0000
    ensures ivalid(self.i_code(), self.i_index(), self.i_ondex(), self.i_raw()) ==> r is Ok && r->Ok_0@ == itext(self.i_code(), self.i_index(), self.i_ondex(), self.i_raw())
//@start
    hide(iknown); hide(icur); hide(ifs); hide(enc); hide(sx);
    broadcast use group_seq, lemma_enc_ascii, lemma_enc_size;
    let ghost c = self.i_code(); let ghost i = self.i_index(); let ghost o = self.i_ondex(); let ghost w = self.i_raw();
    proof {
        lemma_p64();
        if iknown(c) { lemma_itab(c); }
        if ivalid(c, i, o, w) { lemma_ifit(c, i, o, w); lemma_iwr(c, i, o); lemma_iforms(c, i, o, w); lemma_itx(c, i, o, w); }
    }
//@end
//@fn core::indexer::Indexer::binfil as binfil
    requires self.i_index() < 0x1000_0000
    ensures ivalid(self.i_code(), self.i_index(), self.i_ondex(), self.i_raw()) ==> r is Ok && r->Ok_0@ == ibin(self.i_code(), self.i_index(), self.i_ondex(), self.i_raw())
//@start
    hide(iknown); hide(icur); hide(ifs); hide(enc); hide(sx);
    broadcast use group_seq;
    let ghost c = self.i_code(); let ghost i = self.i_index(); let ghost o = self.i_ondex(); let ghost w = self.i_raw();
    proof {
        lemma_p64();
        if iknown(c) { lemma_itab(c); }
        if ivalid(c, i, o, w) { lemma_ifit(c, i, o, w); lemma_iwr(c, i, o); lemma_iforms(c, i, o, w); lemma_ihdr(c, i, o); }
        assert(forall|x: u64, t: u32| #![trigger (x << t)] x < 0x1_0000_0000_0000 ==> (t == 0 ==> (x << t) == x) && (t == 2 ==> (x << t) == x * 4) && (t == 4 ==> (x << t) == x * 16)) by (bit_vector);
        assert(forall|x: u32, t: u32| #![trigger (x << t)] x < 0x100_0000 ==> (t == 0 ==> (x << t) == x) && (t == 2 ==> (x << t) == x * 4) && (t == 4 ==> (x << t) == x * 16)) by (bit_vector);
    }
//@end
//@fn core::indexer::Indexer::exfil as exfil
//@params qb64
    ensures iok(qb64@) ==> r is Ok,
        r is Ok ==> iok(qb64@), // @C04 C05 C08 C09
        r is Ok ==> final(self).i_code() == ic(qb64@) && final(self).i_index() == ii(qb64@) && final(self).i_ondex() == io(qb64@) && final(self).i_raw() == ir(qb64@)
//@start
    hide(iknown); hide(icur); hide(ifs); hide(enc); hide(isenc); hide(sx); hide(val); hide(b64s); hide(unbe);
    broadcast use group_seq, lemma_unbe2;
    proof {
        if qb64@.len() > 0 { lemma_iexf(qb64); }
        lemma_p2i();
        assert(forall|x: i32| 0 <= x < 4 ==> #[trigger] (x & 3) == x) by (bit_vector);
        assert(forall|x: i32| 0 <= x < 16 ==> #[trigger] (x & 15) == x) by (bit_vector);
        assert(forall|x: i32, y: i32| 0 <= x < 256 && 0 <= y < 256 ==> #[trigger] ((x << 8i32) | y) == x * 256 + y) by (bit_vector);
        assert(forall|x: u32, y: u32| 0 <= x < 256 && 0 <= y < 256 ==> #[trigger] ((x << 8i32) | y) == x * 256 + y) by (bit_vector);
    }
//@loop 0
    invariant __v0@.len() <= 2, pi == unbe(__v0@.subrange(0, __i0 as int)), __i0 == 0 ==> pi == 0, __i0 == 1 ==> 0 <= pi < 256,
//@loopstart 0
    proof { lemma_unbe2(__v0@.subrange(0, __i0 as int)); lemma_unbe2(__v0@.subrange(0, __i0 + 1)); }
//@loop 1
    invariant __v1@.len() <= 2, li == unbe(__v1@.subrange(0, __i1 as int)), __i1 == 0 ==> li == 0, __i1 == 1 ==> 0 <= li < 256,
//@loopstart 1
    proof { lemma_unbe2(__v1@.subrange(0, __i1 as int)); lemma_unbe2(__v1@.subrange(0, __i1 + 1)); }
//@end
//@fn core::indexer::Indexer::bexfil as bexfil
//@params qb2
    ensures jok(qb2@) ==> r is Ok,
        r is Ok ==> jok(qb2@), // @C04 C05 C08 C09
        r is Ok ==> final(self).i_code() == jc(qb2@) && final(self).i_index() == ji(qb2@) && final(self).i_ondex() == jo(qb2@) && final(self).i_raw() == jr(qb2@)
//@start
    hide(iknown); hide(icur); hide(ifs); hide(sx); hide(val); hide(b64s);
    broadcast use group_seq;
    proof {
        if qb2@.len() > 0 { lemma_ibexf(qb2@); }
        lemma_p2i();
        assert(forall|x: u8| #[trigger] (x & 3) == x % 4) by (bit_vector);
        assert(forall|x: u8| #[trigger] (x & 15) == x % 16) by (bit_vector);
    }
//@loop 0
    invariant forall|k: int| 0 <= k < __i0 ==> #[trigger] __v0@[k] == 0,
//@end
//@fn core::indexer::Indexer::full_size as full_size
    requires self.i_index() < 0x1000_0000
    ensures r is Ok <==> iknown(self.i_code()), r is Ok ==> r->Ok_0 == ifull(self.i_code(), self.i_index())
//@end
//@fn core::indexer::Indexer::new_with_code_and_raw as new_with_code_and_raw
//@params code raw index ondex
    ensures r is Ok <==> icreate(code@, raw@.len(), index as nat, ondex),
        r is Ok ==> r->Ok_0.i_code() == code@ && r->Ok_0.i_index() == index && r->Ok_0.i_ondex() == inodx(code@, index as nat, ondex) && r->Ok_0.i_raw() == raw@.subrange(0, irz(code@, index as nat))
//@start
    hide(iknown); hide(icur); hide(iboth); hide(ifs);
    proof { lemma_p64(); if iknown(code@) { lemma_itab(code@); } }
//@end
//@fn core::indexer::Indexer::new_with_qb64 as new_with_qb64
//@params qb64
    ensures iok(qb64@) ==> r is Ok,
        r is Ok ==> iok(qb64@), // @C04 C05 C08 C09
        r is Ok ==> r->Ok_0.i_code() == ic(qb64@) && r->Ok_0.i_index() == ii(qb64@) && r->Ok_0.i_ondex() == io(qb64@) && r->Ok_0.i_raw() == ir(qb64@)
//@end
//@fn core::indexer::Indexer::new_with_qb64b as new_with_qb64b
//@params qb64b
    ensures ascii(qb64b@) && iok(qb64b@) ==> r is Ok,
        r is Ok ==> iok(qb64b@), // @C04 C05 C08 C09
        r is Ok ==> r->Ok_0.i_code() == ic(qb64b@) && r->Ok_0.i_index() == ii(qb64b@) && r->Ok_0.i_ondex() == io(qb64b@) && r->Ok_0.i_raw() == ir(qb64b@)
//@end
//@fn core::indexer::Indexer::new_with_qb2 as new_with_qb2
//@params qb2
    ensures jok(qb2@) ==> r is Ok,
        r is Ok ==> jok(qb2@), // @C04 C05 C08 C09
        r is Ok ==> r->Ok_0.i_code() == jc(qb2@) && r->Ok_0.i_index() == ji(qb2@) && r->Ok_0.i_ondex() == jo(qb2@) && r->Ok_0.i_raw() == jr(qb2@)
//@end
//@fn core::indexer::Indexer::new as new
//@params index ondex code raw qb64b qb64 qb2
    ensures r is Ok ==> idet(index, ondex, os(code), ob(raw), ob(qb64b), os(qb64), ob(qb2)) == Some((r->Ok_0.i_code(), r->Ok_0.i_index(), r->Ok_0.i_ondex(), r->Ok_0.i_raw())),
        idet(index, ondex, os(code), ob(raw), ob(qb64b), os(qb64), ob(qb2)) is Some && mutf(ob(raw), ob(qb64b)) ==> r is Ok,
//@end
//@fn core::indexer::Indexer::qb64 as qb64
    requires self.i_index() < 0x1000_0000
    ensures ivalid(self.i_code(), self.i_index(), self.i_ondex(), self.i_raw()) ==> r is Ok && r->Ok_0@ == itext(self.i_code(), self.i_index(), self.i_ondex(), self.i_raw())
//@end
//@fn core::indexer::Indexer::qb64b as qb64b
    requires self.i_index() < 0x1000_0000
    ensures ivalid(self.i_code(), self.i_index(), self.i_ondex(), self.i_raw()) ==> r is Ok && r->Ok_0@ == itext(self.i_code(), self.i_index(), self.i_ondex(), self.i_raw())
//@end
//@fn core::indexer::Indexer::qb2 as qb2
    requires self.i_index() < 0x1000_0000
    ensures ivalid(self.i_code(), self.i_index(), self.i_ondex(), self.i_raw()) ==> r is Ok && r->Ok_0@ == ibin(self.i_code(), self.i_index(), self.i_ondex(), self.i_raw())
//@end
}

pub open spec fn ixval<M: Indexer>(m: M) -> (Seq<u8>, nat, nat, Seq<u8>) { (m.i_code(), m.i_index(), m.i_ondex(), m.i_raw()) }
// ------------------------------------------------------------------ the properties, as theorems over the contracts
/// C05: no proper prefix of a complete indexed primitive is well formed, in either domain
pub proof fn lemma_icut(c: Seq<u8>, i: nat, o: nat, r: Seq<u8>, n: int)
    requires ivalid(c, i, o, r)
    ensures 0 <= n < itext(c, i, o, r).len() ==> !iok(itext(c, i, o, r).subrange(0, n)),
        0 <= n < ibin(c, i, o, r).len() ==> !jok(ibin(c, i, o, r).subrange(0, n)),
{
    let t = itext(c, i, o, r);
    let b = ibin(c, i, o, r);
    lemma_iforms(c, i, o, r);
    let f = ifull(c, i) as int;
    let g = (ifull(c, i) / 4 * 3) as int;
    if 0 <= n < t.len() && iok(t.subrange(0, n)) {
        let q = t.subrange(0, n);
        lemma_iok(q);
        let k = ifull(ic(q), ii(q)) as int;
        assert(q.subrange(0, k) =~= t.subrange(0, k));
        assert(t.subrange(0, f) =~= t);
        lemma_ires_unique(c, i, o, r, ic(q), ii(q), io(q), ir(q), t);
    }
    if 0 <= n < b.len() && jok(b.subrange(0, n)) {
        let q = b.subrange(0, n);
        lemma_jok(q);
        let k = (ifull(jc(q), ji(q)) / 4 * 3) as int;
        assert(q.subrange(0, k) =~= b.subrange(0, k));
        assert(b.subrange(0, g) =~= b);
        lemma_iresb_unique(c, i, o, r, jc(q), ji(q), jo(q), jr(q), b);
    }
}
/// C08, C09: creation, qualification and parsing, in both domains (checked against the contracts above only);
/// a variable size code created without other index has none, and qualifies with its index as other index
fn thm_c08<M: Indexer>(code: &XString, raw: &[u8], index: u32, ondex: Option<u32>)
    requires ondex is None && ivar(code@) ==> index == 0
{
    if let Ok(m) = M::new_with_code_and_raw(code, raw, index, ondex) {
        proof { lemma_icreate(code@, raw@, index as nat, ondex);
            lemma_ifit(m.i_code(), m.i_index(), m.i_ondex(), m.i_raw()); 
            lemma_iround(m.i_code(), m.i_index(), m.i_ondex(), m.i_raw(), Seq::empty()); lemma_iroundb(m.i_code(), m.i_index(), m.i_ondex(), m.i_raw(), Seq::empty()); lemma_iforms(m.i_code(), m.i_index(), m.i_ondex(), m.i_raw()); }
        assert(m.i_code() == code@ && m.i_index() == index && (ondex is Some ==> m.i_ondex() == ondex->0));
        assert(icur(code@) ==> m.i_ondex() == 0 && ondex is None);
        assert(ondex is None && iboth(code@) ==> m.i_ondex() == index);
        assert(ios(code@) == 0 && !icur(code@) ==> m.i_ondex() == index);
        let t = m.qb64();
        assert(t is Ok);
        let t = match t { Ok(x) => x, Err(_) => { return; } };
        assert(t@.len() == ifull(m.i_code(), m.i_index()));
        proof { assert(t@ + Seq::<u8>::empty() =~= t@); lemma_ires(m.i_code(), m.i_index(), m.i_ondex(), m.i_raw(), t@); }
        let p = M::new_with_qb64(&t);
        assert(p is Ok && p->Ok_0.i_code() == m.i_code() && p->Ok_0.i_index() == m.i_index() && p->Ok_0.i_ondex() == m.i_ondex() && p->Ok_0.i_raw() == m.i_raw());
        let b = m.qb2();
        assert(b is Ok);
        let b = match b { Ok(x) => x, Err(_) => { return; } };
        proof { assert(b@ + Seq::<u8>::empty() =~= b@); lemma_iresb(m.i_code(), m.i_index(), m.i_ondex(), m.i_raw(), b@); }
        assert(enc(b@) == t@);
        let p = M::new_with_qb2(&b);
        assert(p is Ok && p->Ok_0.i_code() == m.i_code() && p->Ok_0.i_index() == m.i_index() && p->Ok_0.i_ondex() == m.i_ondex() && p->Ok_0.i_raw() == m.i_raw());
    }
}
/// C08, C02: whatever a parser accepts is what the primitive qualifies to again
fn thm_c08b<M: Indexer>(q: &XString, d: &[u8])
{
    if let Ok(m) = M::new_with_qb64(q) {
        proof { lemma_iok(q@); lemma_ifit(m.i_code(), m.i_index(), m.i_ondex(), m.i_raw()); lemma_iforms(m.i_code(), m.i_index(), m.i_ondex(), m.i_raw()); }
        let t = m.qb64();
        assert(t is Ok && t->Ok_0@.len() <= q@.len() && t->Ok_0@ == q@.subrange(0, t->Ok_0@.len() as int));
        assert(ivalid(m.i_code(), m.i_index(), m.i_ondex(), m.i_raw()));
    }
    if let Ok(m) = M::new_with_qb2(d) {
        proof { lemma_jok(d@); lemma_ifit(m.i_code(), m.i_index(), m.i_ondex(), m.i_raw()); lemma_iforms(m.i_code(), m.i_index(), m.i_ondex(), m.i_raw()); }
        let t = m.qb2();
        assert(t is Ok && t->Ok_0@.len() <= d@.len() && t->Ok_0@ == d@.subrange(0, t->Ok_0@.len() as int));
        assert(ivalid(m.i_code(), m.i_index(), m.i_ondex(), m.i_raw()));
    }
}
/// C05: what follows an indexed primitive does not matter, and its full size is the text it occupies
fn thm_c05<M: Indexer>(q: &XString, alone: &XString)
    requires iok(q@), alone@ == q@.subrange(0, iend(q@))
{
    let a = M::new_with_qb64(q);
    proof {
        lemma_iok(q@); lemma_ifit(ic(q@), ii(q@), io(q@), ir(q@)); lemma_iforms(ic(q@), ii(q@), io(q@), ir(q@));
        assert(alone@.subrange(0, iend(q@)) =~= alone@);
        lemma_ires(ic(q@), ii(q@), io(q@), ir(q@), alone@);
    }
    let b = M::new_with_qb64(alone);
    assert(a is Ok && b is Ok && a->Ok_0.i_code() == b->Ok_0.i_code() && a->Ok_0.i_index() == b->Ok_0.i_index() && a->Ok_0.i_ondex() == b->Ok_0.i_ondex() && a->Ok_0.i_raw() == b->Ok_0.i_raw());
    if let Ok(a) = a {
        let n = a.full_size();
        assert(n is Ok && n->Ok_0 == alone@.len());
    }
}
