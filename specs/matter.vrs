//@uses util enc mtab
// ------------------------------------------------------------------ qualified primitives
/// code, size and raw bytes fit together
pub open spec fn mvalid(c: Seq<u8>, z: nat, r: Seq<u8>) -> bool {
    mknown(c) && (if mvar(c) { z < ipow(64, mss(c)) && r.len() + mls(c) == 3 * z } else { z == 0 && r.len() == mrz(c) })
}
/// the header: code and soft part
pub open spec fn mboth(c: Seq<u8>, z: nat) -> Seq<u8> { c + digs(z, mss(c)) }
/// text form
pub open spec fn mtext(c: Seq<u8>, z: nat, r: Seq<u8>) -> Seq<u8> { tx(mboth(c, z), mls(c), r) }
/// binary form
pub open spec fn mbin(c: Seq<u8>, z: nat, r: Seq<u8>) -> Seq<u8> { bx(mboth(c, z), mls(c), r) }
pub open spec fn mfull(c: Seq<u8>, z: nat) -> nat { if mvar(c) { mcs(c) + 4 * z } else { mfs(c) } }

pub proof fn lemma_mboth(c: Seq<u8>, z: nat)
    requires mknown(c), mvar(c) ==> z < ipow(64, mss(c)), !mvar(c) ==> z == 0
    ensures mboth(c, z).len() == mcs(c), b64s(mboth(c, z)), ascii(mboth(c, z)), hlen(mcs(c) as int), mcs(c) <= 8,
        mboth(c, z).subrange(0, c.len() as int) == c, mboth(c, z).subrange(c.len() as int, mcs(c) as int) == digs(z, mss(c)),
        val(digs(z, mss(c))) == z, !mvar(c) ==> mboth(c, z) == c, z < 0x100_0000,
{
    lemma_mtab(c);
    lemma_digs(z, mss(c));
    lemma_p64();
    assert(digs(z, 0) =~= Seq::<u8>::empty());
    lemma_b64s_cat(c, digs(z, mss(c)));
    lemma_b64s_ascii(mboth(c, z));
    assert(mboth(c, z).subrange(0, c.len() as int) =~= c);
    assert(mboth(c, z).subrange(c.len() as int, mcs(c) as int) =~= digs(z, mss(c)));
    if !mvar(c) { assert(mboth(c, z) =~= c); }
}
pub proof fn lemma_mfit(c: Seq<u8>, z: nat, r: Seq<u8>)
    requires mvalid(c, z, r)
    ensures whole(mcs(c) as int, mls(c) as int, r.len() as int),
        mfull(c, z) == mcs(c) + (mcs(c) % 4 + mls(c) + r.len()) / 3 * 4 - mcs(c) % 4, mfull(c, z) % 4 == 0,
        mfull(c, z) / 4 * 3 == hn(mcs(c) as int) + mls(c) + r.len(), mfull(c, z) < 0x1000_0000, mfull(c, z) >= mcs(c),
        (mfull(c, z) + 1) * 3 / 4 == mfull(c, z) / 4 * 3,
{ lemma_mtab(c); lemma_mboth(c, z); lemma_hlen(mcs(c) as int); }
/// C01/C04: both forms have the size the code announces, are whole groups, and the binary form is the base64 decoding of the text form
pub proof fn lemma_mforms(c: Seq<u8>, z: nat, r: Seq<u8>)
    requires mvalid(c, z, r)
    ensures mtext(c, z, r).len() == mfull(c, z), mtext(c, z, r).len() % 4 == 0, b64s(mtext(c, z, r)), ascii(mtext(c, z, r)),
        mbin(c, z, r).len() * 4 == mfull(c, z) * 3, mbin(c, z, r).len() % 3 == 0,
        enc(mbin(c, z, r)) == mtext(c, z, r),
{
    lemma_mfit(c, z, r);
    lemma_mboth(c, z);
    lemma_bx_tx(mboth(c, z), mls(c), r);
    lemma_b64s_ascii(mtext(c, z, r));
}
/// material at the front of a text or byte stream
pub open spec fn mres(c: Seq<u8>, z: nat, r: Seq<u8>, q: Seq<u8>) -> bool {
    mvalid(c, z, r) && mfull(c, z) <= q.len() && q.subrange(0, mfull(c, z) as int) == mtext(c, z, r)
}
pub open spec fn mresb(c: Seq<u8>, z: nat, r: Seq<u8>, q: Seq<u8>) -> bool {
    mvalid(c, z, r) && mfull(c, z) / 4 * 3 <= q.len() && q.subrange(0, (mfull(c, z) / 4 * 3) as int) == mbin(c, z, r)
}
// what a parser reads off a text
pub open spec fn qc(q: Seq<u8>) -> Seq<u8> { q.subrange(0, mhs(q[0]) as int) }
pub open spec fn qz(q: Seq<u8>) -> nat { if mvar(qc(q)) { val(q.subrange(qc(q).len() as int, mcs(qc(q)) as int)) } else { 0 } }
pub open spec fn qfs(q: Seq<u8>) -> int { mfull(qc(q), qz(q)) as int }
pub open spec fn mhead(q: Seq<u8>) -> bool {
    q.len() > 0 && mhs(q[0]) <= q.len() && mknown(qc(q)) && mcs(qc(q)) <= q.len() && b64s(q.subrange(qc(q).len() as int, mcs(qc(q)) as int))
}
/// well formed text (strictness, C02)
pub open spec fn mok(q: Seq<u8>) -> bool { mhead(q) && qok(q, mcs(qc(q)) as int, mls(qc(q)), qfs(q)) }
pub open spec fn qr(q: Seq<u8>) -> Seq<u8> { qraw(q, mcs(qc(q)) as int, mls(qc(q)), qfs(q)) }

pub proof fn lemma_mhead(q: Seq<u8>)
    requires mhead(q)
    ensures ({ let c = qc(q); let z = qz(q);
        &&& c.len() == mhs(q[0]) && c[0] == q[0]
        &&& mboth(c, z) == q.subrange(0, mcs(c) as int)
        &&& mvar(c) ==> z < ipow(64, mss(c))
        &&& z < 0x100_0000 && qfs(q) % 4 == 0 && qfs(q) >= mcs(c) && qfs(q) < 0x1000_0000
    })
{
    let c = qc(q); let z = qz(q);
    lemma_mtab(c);
    let s = q.subrange(c.len() as int, mcs(c) as int);
    lemma_val(s);
    lemma_p64();
    assert(digs(z, 0) =~= Seq::<u8>::empty());
    assert(c + s =~= q.subrange(0, mcs(c) as int));
    assert(mss(c) == 0 ==> s =~= Seq::<u8>::empty());
}
pub proof fn lemma_mok(q: Seq<u8>)
    requires mok(q)
    ensures mres(qc(q), qz(q), qr(q), q)
{
    hide(enc); hide(mknown); hide(mfs);
    let c = qc(q); let z = qz(q);
    lemma_mhead(q);
    lemma_mtab(c);
    lemma_mboth(c, z);
    lemma_q_tx(q, mcs(c) as int, mls(c), qfs(q));
    if mvar(c) { assert((4 * z) / 4 * 3 == 3 * z); }
    else { lemma_hlen(mcs(c) as int); }
}
pub proof fn lemma_mres(c: Seq<u8>, z: nat, r: Seq<u8>, q: Seq<u8>)
    requires mres(c, z, r, q)
    ensures mok(q), qc(q) == c, qz(q) == z, qr(q) == r
{
    hide(enc); hide(mknown); hide(mfs);
    lemma_mtab(c);
    lemma_mfit(c, z, r);
    lemma_mboth(c, z);
    lemma_mforms(c, z, r);
    let both = mboth(c, z);
    lemma_tx_q(q, both, mls(c), r, mfull(c, z) as int);
    assert(q[0] == q.subrange(0, mcs(c) as int)[0]);
    assert(both[0] == c[0]);
    assert(qc(q) =~= both.subrange(0, c.len() as int));
    assert(q.subrange(c.len() as int, mcs(c) as int) =~= both.subrange(c.len() as int, mcs(c) as int));
    lemma_digs(z, mss(c));
}
/// C01, C05: what is at the front of a stream is unique
pub proof fn lemma_mres_unique(c: Seq<u8>, z: nat, r: Seq<u8>, c2: Seq<u8>, z2: nat, r2: Seq<u8>, q: Seq<u8>)
    requires mres(c, z, r, q), mres(c2, z2, r2, q)
    ensures c == c2, z == z2, r == r2
{ lemma_mres(c, z, r, q); lemma_mres(c2, z2, r2, q); }
/// C01, C05: the serialization of valid material, followed by anything, is well formed and reads back
pub proof fn lemma_mround(c: Seq<u8>, z: nat, r: Seq<u8>, rest: Seq<u8>)
    requires mvalid(c, z, r)
    ensures mres(c, z, r, mtext(c, z, r) + rest), mok(mtext(c, z, r) + rest)
{
    lemma_mforms(c, z, r);
    assert((mtext(c, z, r) + rest).subrange(0, mfull(c, z) as int) =~= mtext(c, z, r));
    lemma_mres(c, z, r, mtext(c, z, r) + rest);
}
// ------------------------------------------------------------------ the same off bytes
pub open spec fn bc(q: Seq<u8>) -> Seq<u8> { sxs(q, mhs(b64c(sx(q, 0)))) }
pub open spec fn bz(q: Seq<u8>) -> nat { if mvar(bc(q)) { val(sxs(q, mcs(bc(q))).subrange(bc(q).len() as int, mcs(bc(q)) as int)) } else { 0 } }
pub open spec fn bbs(q: Seq<u8>) -> int { (mfull(bc(q), bz(q)) / 4 * 3) as int }
pub open spec fn mheadb(q: Seq<u8>) -> bool {
    q.len() > 0 && hn(mhs(b64c(sx(q, 0))) as int) <= q.len() && mknown(bc(q)) && hn(mcs(bc(q)) as int) <= q.len()
}
pub open spec fn mokb(q: Seq<u8>) -> bool { mheadb(q) && dok(q, mcs(bc(q)) as int, mls(bc(q)), bbs(q)) }
pub open spec fn br(q: Seq<u8>) -> Seq<u8> { draw(q, mcs(bc(q)) as int, mls(bc(q)), bbs(q)) }
pub proof fn lemma_sxs_len(d: Seq<u8>, n: nat, m: nat)
    requires n <= m
    ensures sxs(d, m).subrange(0, n as int) == sxs(d, n), sxs(d, n).len() == n
{ assert(sxs(d, m).subrange(0, n as int) =~= sxs(d, n)); }
pub proof fn lemma_mheadb(q: Seq<u8>)
    requires mheadb(q)
    ensures ({ let c = bc(q); let z = bz(q);
        &&& c.len() == mhs(b64c(sx(q, 0))) && c[0] == b64c(sx(q, 0)) && sx(q, 0) < 62
        &&& mboth(c, z) == sxs(q, mcs(c))
        &&& mvar(c) ==> z < ipow(64, mss(c))
        &&& z < 0x100_0000 && mfull(c, z) % 4 == 0 && mfull(c, z) >= mcs(c) && mfull(c, z) < 0x1000_0000 && (mfull(c, z) + 1) * 3 / 4 == mfull(c, z) / 4 * 3
    })
{
    hide(sx);
    let c = bc(q); let z = bz(q);
    lemma_mtab(c);
    lemma_sx(q, 0);
    lemma_b64c(sx(q, 0));
    let b = sxs(q, mcs(c));
    lemma_sxs(q, mcs(c));
    lemma_sxs_len(q, c.len(), mcs(c));
    let s = b.subrange(c.len() as int, mcs(c) as int);
    lemma_b64s_sub(b, c.len() as int, mcs(c) as int);
    lemma_val(s);
    lemma_p64();
    assert(digs(z, 0) =~= Seq::<u8>::empty());
    assert(c + s =~= b);
    assert(mss(c) == 0 ==> s =~= Seq::<u8>::empty());
}
pub proof fn lemma_mokb(q: Seq<u8>)
    requires mokb(q)
    ensures mresb(bc(q), bz(q), br(q), q)
{
    hide(sx); hide(hdr); hide(mknown); hide(mfs);
    let c = bc(q); let z = bz(q);
    lemma_mheadb(q);
    lemma_mtab(c);
    lemma_mboth(c, z);
    lemma_d_bx(q, mcs(c) as int, mls(c), bbs(q));
    lemma_hlen(mcs(c) as int);
}
pub proof fn lemma_mresb(c: Seq<u8>, z: nat, r: Seq<u8>, q: Seq<u8>)
    requires mresb(c, z, r, q)
    ensures mokb(q), bc(q) == c, bz(q) == z, br(q) == r
{
    hide(sx); hide(hdr); hide(mknown); hide(mfs);
    lemma_mtab(c);
    lemma_mfit(c, z, r);
    lemma_mboth(c, z);
    lemma_mforms(c, z, r);
    let both = mboth(c, z);
    lemma_hlen(mcs(c) as int);
    lemma_bx_d(q, both, mls(c), r, (mfull(c, z) / 4 * 3) as int);
    lemma_sxs_len(q, c.len(), mcs(c));
    assert(sxs(q, mcs(c))[0] == b64c(sx(q, 0)));
    assert(both[0] == c[0]);
    lemma_digs(z, mss(c));
}
pub proof fn lemma_mresb_unique(c: Seq<u8>, z: nat, r: Seq<u8>, c2: Seq<u8>, z2: nat, r2: Seq<u8>, q: Seq<u8>)
    requires mresb(c, z, r, q), mresb(c2, z2, r2, q)
    ensures c == c2, z == z2, r == r2
{ lemma_mresb(c, z, r, q); lemma_mresb(c2, z2, r2, q); }
pub proof fn lemma_mroundb(c: Seq<u8>, z: nat, r: Seq<u8>, rest: Seq<u8>)
    requires mvalid(c, z, r)
    ensures mresb(c, z, r, mbin(c, z, r) + rest), mokb(mbin(c, z, r) + rest)
{
    lemma_mforms(c, z, r);
    assert((mbin(c, z, r) + rest).subrange(0, (mfull(c, z) / 4 * 3) as int) =~= mbin(c, z, r));
    lemma_mresb(c, z, r, mbin(c, z, r) + rest);
}
/// C04: concatenation commutes with conversion between the domains
pub proof fn lemma_mcompose(c: Seq<u8>, z: nat, r: Seq<u8>, rest: Seq<u8>)
    requires mvalid(c, z, r)
    ensures enc(mbin(c, z, r) + rest) == mtext(c, z, r) + enc(rest)
{ lemma_mforms(c, z, r); lemma_enc_cat(mbin(c, z, r), rest); }

/// C04: bytes are accepted exactly when their text is, and as the same primitive
pub proof fn thm_c04(q: Seq<u8>)
    requires q.len() % 3 == 0
    ensures mokb(q) <==> mok(enc(q)), mokb(q) ==> bc(q) == qc(enc(q)) && bz(q) == qz(enc(q)) && br(q) == qr(enc(q))
{
    hide(enc); hide(sx); hide(mok); hide(mokb); hide(mvalid); hide(mfull); hide(mtext); hide(mbin);
    let t = enc(q);
    if mokb(q) {
        lemma_mokb(q);
        let c = bc(q); let z = bz(q); let r = br(q);
        lemma_mforms(c, z, r);
        lemma_enc_front(q, (mfull(c, z) / 4) as int);
        lemma_mres(c, z, r, t);
    }
    if mok(t) {
        lemma_mok(t);
        let c = qc(t); let z = qz(t); let r = qr(t);
        lemma_mforms(c, z, r);
        lemma_enc_front(q, (mfull(c, z) / 4) as int);
        lemma_enc_inj(q.subrange(0, (mfull(c, z) / 4 * 3) as int), mbin(c, z, r));
        lemma_mresb(c, z, r, q);
    }
}

pub proof fn lemma_mtx(c: Seq<u8>, z: nat, r: Seq<u8>)
    requires mvalid(c, z, r)
    ensures ({ let ps = (mcs(c) % 4) as int; let e = enc(zs((ps + mls(c)) as nat) + r);
        &&& ps + mls(c) == (3 - r.len() % 3) % 3
        &&& e.len() == (ps + mls(c) + r.len()) / 3 * 4
        &&& mvar(c) ==> ps == 0 && mtext(c, z, r) == mboth(c, z) + e
        &&& !mvar(c) ==> mcs(c) == c.len() && ps <= e.len() && mtext(c, z, r) == c + e.subrange(ps, e.len() as int) })
{
    lemma_mfit(c, z, r); lemma_mboth(c, z); lemma_mtab(c);
    let ps = (mcs(c) % 4) as int; let e = enc(zs((ps + mls(c)) as nat) + r);
    assert(e.subrange(ps, e.len() as int) =~= e.skip(ps));
    if mvar(c) { assert(e.skip(0) =~= e); }
}
/// the header as the top bytes of a shifted number
pub proof fn lemma_mhdr(c: Seq<u8>, z: nat)
    requires mknown(c), mvar(c) ==> z < ipow(64, mss(c)), !mvar(c) ==> z == 0
    ensures ({ let s = mboth(c, z); let l = s.len() as int; let x = val(s) * sh(l);
        &&& (1 <= l <= 8 && hn(l) <= 6 && l % 4 <= 2 && hdr(s).len() == hn(l))
        &&& l <= 4 ==> be(x, 4).subrange(4 - hn(l), 4) == hdr(s) && val(s) < 0x100_0000 && x < 0x100_0000 && be(x, 4).len() == 4 && hn(l) <= 3
        &&& l > 4 ==> be(x, 8).subrange(8 - hn(l), 8) == hdr(s) && val(s) < 0x1_0000_0000_0000 && be(x, 8).len() == 8 && hn(l) > 3 })
{
    hide(sh); hide(val); hide(be);
    lemma_mboth(c, z);
    let s = mboth(c, z);
    lemma_hlen(mcs(c) as int);
    lemma_hdr(s);
    if s.len() <= 4 { lemma_code_b2_4(s); } else { lemma_code_b2(s); }
}
pub proof fn lemma_p2() ensures ipow(2, 2) == 4, ipow(2, 4) == 16, ipow(2, 0) == 1, 1u8 << 2u32 == 4, 1u8 << 4u32 == 16, 1i32 << 2u32 == 4, 1i32 << 4u32 == 16, 1u32 << 2u32 == 4, 1u32 << 4u32 == 16
{ assert(1u8 << 2u32 == 4 && 1u8 << 4u32 == 16 && 1i32 << 2u32 == 4 && 1i32 << 4u32 == 16 && 1u32 << 2u32 == 4 && 1u32 << 4u32 == 16) by (bit_vector);
    assert(ipow(2, 2) == 4 && ipow(2, 4) == 16 && ipow(2, 0) == 1) by (compute_only); }
pub proof fn lemma_mbexf(q: Seq<u8>)
    requires q.len() > 0
    ensures ({ let c = bc(q); let k = sx(q, 0); let hs = mhs(b64c(k)); let cs = mcs(c) as int; let s = sxs(q, mcs(c)).subrange(c.len() as int, cs);
        &&& 0 <= k < 64 && (k as u8) as int == k && 1 <= hs <= 4 && hn(hs as int) <= 3 && (hs * 3 + 3) / 4 == hn(hs as int) && c.len() == hs && c[0] == b64c(k)
        &&& mknown(c) ==> k < 62 && hlen(cs) && mss(c) + hs == cs && (mvar(c) ==> cs % 4 == 0 && (cs == 4 || cs == 8)) && (!mvar(c) ==> cs == hs && hn(cs) == hn(hs as int)) && mls(c) <= 2 && b64s(s) && val(s) < 0x100_0000 && (cs % 4 != 0 ==> mls(c) == 0)
             && (cs % 4 == 0 ==> sh(cs) == 1) && (cs % 4 == 1 ==> sh(cs) == 4) && (cs % 4 == 2 ==> sh(cs) == 16) && 0 < hn(cs) <= 6
        &&& mheadb(q) ==> bz(q) < 0x100_0000 && cs <= mfull(c, bz(q)) < 0x1000_0000 && (mvar(c) ==> mfull(c, bz(q)) == 4 * val(s) + cs && bz(q) == val(s)) && (!mvar(c) ==> bz(q) == 0 && mfull(c, bz(q)) == mfs(c)) && (mfull(c, bz(q)) + 1) * 3 / 4 == bbs(q)
        &&& mheadb(q) && !mvar(c) ==> hn(cs) + mls(c) <= bbs(q)
    })
{
    hide(sx);
    let c = bc(q); let k = sx(q, 0); let cs = mcs(c) as int;
    lemma_sx(q, 0);
    lemma_b64c(k);
    if mknown(c) {
        lemma_mtab(c);
        lemma_hlen(cs);
        let b = sxs(q, mcs(c));
        lemma_sxs(q, mcs(c));
        lemma_sxs_len(q, c.len(), mcs(c));
        lemma_b64s_sub(b, c.len() as int, cs);
        lemma_val(b.subrange(c.len() as int, cs));
        lemma_p64();
    }
    if mheadb(q) { lemma_mheadb(q); }
}
/// what a parser relies on, in reading order
pub proof fn lemma_mexf(x: &XString)
    requires x@.len() > 0
    ensures ({ let q = x@; let c = qc(q); let hs = mhs(q[0]) as int; let cs = mcs(c) as int; let s = q.subrange(c.len() as int, cs); let fs = qfs(q); let src = qsrc(q, cs, fs); let p = unb64(src);
        &&& hs <= q.len() && mknown(c) ==> q[0] < 128 && isb64(q[0]) && q[0] != 45 && q[0] != 95 && c.len() == hs && c[0] == q[0] && bnd(q, hs) && mss(c) + hs == cs && hlen(cs) && (mvar(c) ==> cs % 4 == 0 && (cs == 4 || cs == 8)) && (!mvar(c) ==> cs == hs && b64s(s)) && mls(c) <= 2
        &&& hs <= q.len() && mknown(c) && cs <= q.len() && b64s(s) ==> mhead(q) && bnd(q, cs) && val(s) < 0x100_0000 && qz(q) < 0x100_0000 && cs <= fs < 0x1000_0000 && fs % 4 == 0 && (mvar(c) ==> fs == 4 * val(s) + cs && qz(q) == val(s)) && (!mvar(c) ==> qz(q) == 0 && fs == mfs(c))
        &&& mhead(q) && fs <= q.len() && isenc(src) ==> bnd(q, fs) && src.len() == cs % 4 + fs - cs && src.len() % 4 == 0 && (fs - cs) * 3 / 4 + cs % 4 == src.len() / 4 * 3 && (p.len() + 2) / 3 * 4 == src.len() && (p.len() % 3 == 0 <==> p.len() == src.len() / 4 * 3) && p.len() >= cs % 4 && (p.len() % 3 == 0 && cs % 4 == 1 ==> p[0] < 4) && (p.len() % 3 == 0 && cs % 4 == 2 ==> p[0] == 0 && p[1] < 16) && (cs % 4 != 0 ==> mls(c) == 0)
    })
{
    hide(enc); hide(isenc); hide(sx);
    let q = x@; let c = qc(q); let hs = mhs(q[0]) as int; let cs = mcs(c) as int; let s = q.subrange(c.len() as int, cs); let fs = qfs(q); let src = qsrc(q, cs, fs); let p = unb64(src);
    if hs <= q.len() && mknown(c) {
        lemma_mtab(c);
        assert(isb64(c[0]) && isb64(c[hs - 1]));
        assert(c[0] == q[0] && c[hs - 1] == q[hs - 1]);
        axiom_utf8_next(x, hs - 1);
        if cs <= q.len() && b64s(s) {
            lemma_mhead(q);
            lemma_val(s);
            lemma_p64();
            if cs > hs { assert(isb64(s[cs - hs - 1])); assert(s[cs - hs - 1] == q[cs - 1]); axiom_utf8_next(x, cs - 1); }
            if fs <= q.len() && isenc(src) {
                lemma_isenc(src);
                lemma_enc_ascii(p);
                lemma_enc_size(p);
                lemma_hlen(cs);
                if fs > cs { assert(src[src.len() - 1] == q[fs - 1]); axiom_utf8_next(x, fs - 1); }
                if p.len() % 3 == 0 {
                    assert forall|i: int| 0 <= i < cs % 4 implies #[trigger] enc(p)[i] == 65 by { assert(src[i] == 65); }
                    lemma_pad(p, cs % 4);
                }
            }
        }
    }
}

// ------------------------------------------------------------------ construction from code and raw bytes
pub open spec fn vls(n: nat) -> nat { ((3 - n % 3) % 3) as nat }
/// the code that fits n raw bytes, among those the caller's code stands for
pub open spec fn mpick(c: Seq<u8>, n: nat) -> Seq<u8> {
    if !mvar(c) { c }
    else if c.len() == 4 { seq![(55 + vls(n)) as u8, c[1], c[2], c[3]] }
    else if (n + vls(n)) / 3 < 4096 { seq![(52 + vls(n)) as u8, c[1]] }
    else { seq![(55 + vls(n)) as u8, 65u8, 65u8, c[1]] }
}
pub open spec fn mtake(c: Seq<u8>, raw: Seq<u8>) -> Seq<u8> { if mvar(c) { raw } else { raw.subrange(0, mrz(c)) } }
pub open spec fn msz(c: Seq<u8>, n: nat) -> nat { if mvar(c) { (n + vls(n)) / 3 } else { 0 } }
pub open spec fn mnew(c: Seq<u8>, raw: Seq<u8>) -> bool {
    mknown(c) && (if mvar(c) { (raw.len() + vls(raw.len())) / 3 < 0x100_0000 } else { raw.len() >= mrz(c) })
}
pub proof fn lemma_mnew(c: Seq<u8>, raw: Seq<u8>)
    requires mnew(c, raw)
    ensures mvalid(mpick(c, raw.len()), msz(c, raw.len()), mtake(c, raw)), mvar(c) == mvar(mpick(c, raw.len()))
{ lemma_p64(); lemma_mtab(c); }

/// what the arguments of a constructor denote: code, size and raw value of a valid primitive
pub open spec fn mdet(c: Option<Seq<u8>>, w: Option<Seq<u8>>, b: Option<Seq<u8>>, t: Option<Seq<u8>>, d: Option<Seq<u8>>) -> Option<(Seq<u8>, nat, Seq<u8>)> {
    match w {
        Some(w) => match c { Some(c) => if mnew(c, w) { Some((mpick(c, w.len()), msz(c, w.len()), mtake(c, w))) } else { None }, None => None },
        None => match b {
            Some(q) => if mok(q) { Some((qc(q), qz(q), qr(q))) } else { None },
            None => match t {
                Some(q) => if mok(q) { Some((qc(q), qz(q), qr(q))) } else { None },
                None => match d { Some(q) => if mokb(q) { Some((bc(q), bz(q), br(q))) } else { None }, None => None },
            },
        },
    }
}
pub proof fn lemma_mdet(c: Option<Seq<u8>>, w: Option<Seq<u8>>, b: Option<Seq<u8>>, t: Option<Seq<u8>>, d: Option<Seq<u8>>)
    requires mdet(c, w, b, t, d) is Some
    ensures ({ let v = mdet(c, w, b, t, d)->0; mvalid(v.0, v.1, v.2) })
{
    if w is Some { lemma_mnew(c->0, w->0); }
    else if b is Some { lemma_mok(b->0); }
    else if t is Some { lemma_mok(t->0); }
    else { lemma_mokb(d->0); }
}

pub trait Matter: Sized + XDefault {
    spec fn m_code(&self) -> Seq<u8>;
    spec fn m_size(&self) -> nat;
    spec fn m_raw(&self) -> Seq<u8>;
    fn code(&self) -> (r: XString) ensures r@ == self.m_code();
    fn size(&self) -> (r: u32) ensures r == self.m_size();
    fn raw(&self) -> (r: Vec<u8>) ensures r@ == self.m_raw(), r@.len() <= 0x1000_0000_0000_0000;
    fn set_code(&mut self, code: &XString) ensures final(self).m_code() == code@, final(self).m_size() == old(self).m_size(), final(self).m_raw() == old(self).m_raw();
    fn set_size(&mut self, size: u32) ensures final(self).m_code() == old(self).m_code(), final(self).m_size() == size, final(self).m_raw() == old(self).m_raw();
    fn set_raw(&mut self, raw: &[u8]) ensures final(self).m_code() == old(self).m_code(), final(self).m_size() == old(self).m_size(), final(self).m_raw() == raw@;

//@fn core::matter::Matter::infil as infil
    ensures mvalid(self.m_code(), self.m_size(), self.m_raw()) ==> r is Ok && r->Ok_0@ == mtext(self.m_code(), self.m_size(), self.m_raw())
//@start
    hide(mknown); hide(mfs); hide(enc); hide(sx);
    broadcast use group_seq, lemma_enc_ascii, lemma_enc_size;
    let ghost c = self.m_code(); let ghost z = self.m_size(); let ghost w = self.m_raw();
    proof {
        if mknown(c) { lemma_mtab(c); lemma_p64(); }
        if mvalid(c, z, w) { lemma_mfit(c, z, w); lemma_mboth(c, z); lemma_mforms(c, z, w); lemma_mtx(c, z, w); }
    }
//@end
//@fn core::matter::Matter::binfil as binfil
    ensures mvalid(self.m_code(), self.m_size(), self.m_raw()) ==> r is Ok && r->Ok_0@ == mbin(self.m_code(), self.m_size(), self.m_raw())
//@start
    hide(mknown); hide(mfs); hide(enc); hide(sx);
    broadcast use group_seq;
    let ghost c = self.m_code(); let ghost z = self.m_size(); let ghost w = self.m_raw();
    proof {
        if mknown(c) { lemma_mtab(c); lemma_p64(); }
        if mvalid(c, z, w) { lemma_mfit(c, z, w); lemma_mboth(c, z); lemma_mforms(c, z, w); lemma_mhdr(c, z); }
        assert(forall|x: u64, t: u32| #![trigger (x << t)] x < 0x1_0000_0000_0000 ==> (t == 0 ==> (x << t) == x) && (t == 2 ==> (x << t) == x * 4) && (t == 4 ==> (x << t) == x * 16)) by (bit_vector);
        assert(forall|x: u32, t: u32| #![trigger (x << t)] x < 0x100_0000 ==> (t == 0 ==> (x << t) == x) && (t == 2 ==> (x << t) == x * 4) && (t == 4 ==> (x << t) == x * 16)) by (bit_vector);
    }
//@end
//@fn core::matter::Matter::exfil as exfil
//@params qb64
    ensures mok(qb64@) ==> r is Ok,
        r is Ok ==> mok(qb64@), // @C02 C04 C05
        r is Ok ==> final(self).m_code() == qc(qb64@) && final(self).m_size() == qz(qb64@) && final(self).m_raw() == qr(qb64@)
//@start
    hide(mknown); hide(mfs); hide(enc); hide(isenc); hide(sx); hide(val); hide(b64s); hide(unbe);
    broadcast use group_seq, lemma_unbe2;
    proof {
        if qb64@.len() > 0 { lemma_mexf(qb64); }
        lemma_p2();
        assert(forall|x: i32| 0 <= x < 4 ==> #[trigger] (x & 3) == x) by (bit_vector);
        assert(forall|x: i32| 0 <= x < 16 ==> #[trigger] (x & 15) == x) by (bit_vector);
        assert(forall|x: i32, y: i32| 0 <= x < 256 && 0 <= y < 256 ==> #[trigger] ((x << 8i32) | y) == x * 256 + y) by (bit_vector);
        assert(forall|x: u32, y: u32| 0 <= x < 256 && 0 <= y < 256 ==> #[trigger] ((x << 8i32) | y) == x * 256 + y) by (bit_vector);
    }
//@loop 0
    invariant __v0@.len() <= 2, pi == unbe(__v0@.subrange(0, __i0 as int)), __i0 == 0 ==> pi == 0, __i0 == 1 ==> 0 <= pi < 256,
//@loopstart 0
    proof { lemma_unbe2(__v0@.subrange(0, __i0 as int)); lemma_unbe2(__v0@.subrange(0, __i0 + 1)); }
//@loop 1
    invariant __v1@.len() <= 2, li == unbe(__v1@.subrange(0, __i1 as int)), __i1 == 0 ==> li == 0, __i1 == 1 ==> 0 <= li < 256,
//@loopstart 1
    proof { lemma_unbe2(__v1@.subrange(0, __i1 as int)); lemma_unbe2(__v1@.subrange(0, __i1 + 1)); }
//@end
//@fn core::matter::Matter::bexfil as bexfil
//@params qb2
    ensures mokb(qb2@) ==> r is Ok,
        r is Ok ==> mokb(qb2@), // @C02 C04 C05
        r is Ok ==> final(self).m_code() == bc(qb2@) && final(self).m_size() == bz(qb2@) && final(self).m_raw() == br(qb2@)
//@start
    hide(mknown); hide(mfs); hide(sx); hide(val); hide(b64s);
    broadcast use group_seq;
    proof {
        if qb2@.len() > 0 { lemma_mbexf(qb2@); }
        lemma_p2();
        assert(forall|x: u8| #[trigger] (x & 3) == x % 4) by (bit_vector);
        assert(forall|x: u8| #[trigger] (x & 15) == x % 16) by (bit_vector);
    }
//@loop 0
    invariant forall|k: int| 0 <= k < __i0 ==> #[trigger] __v0@[k] == 0,
//@end
//@fn core::matter::Matter::full_size as full_size
    requires self.m_size() < 0x1000_0000
    ensures r is Ok <==> mknown(self.m_code()), r is Ok ==> r->Ok_0 == mfull(self.m_code(), self.m_size())
//@end
//@fn core::matter::Matter::new_with_code_and_raw as new_with_code_and_raw
//@params code raw
    ensures r is Ok <==> mnew(code@, raw@),
        r is Ok ==> r->Ok_0.m_code() == mpick(code@, raw@.len()) && r->Ok_0.m_size() == msz(code@, raw@.len()) && r->Ok_0.m_raw() == mtake(code@, raw@)
//@start
    proof { lemma_p64(); if mknown(code@) { lemma_mtab(code@); } }
//@end
//@fn core::matter::Matter::new_with_qb64 as new_with_qb64
//@params qb64
    ensures mok(qb64@) ==> r is Ok,
        r is Ok ==> mok(qb64@), // @C02 C04 C05
        r is Ok ==> r->Ok_0.m_code() == qc(qb64@) && r->Ok_0.m_size() == qz(qb64@) && r->Ok_0.m_raw() == qr(qb64@)
//@end
//@fn core::matter::Matter::new_with_qb64b as new_with_qb64b
//@params qb64b
    ensures ascii(qb64b@) && mok(qb64b@) ==> r is Ok,
        r is Ok ==> mok(qb64b@), // @C02 C04 C05
        r is Ok ==> r->Ok_0.m_code() == qc(qb64b@) && r->Ok_0.m_size() == qz(qb64b@) && r->Ok_0.m_raw() == qr(qb64b@)
//@end
//@fn core::matter::Matter::new_with_qb2 as new_with_qb2
//@params qb2
    ensures mokb(qb2@) ==> r is Ok,
        r is Ok ==> mokb(qb2@), // @C02 C04 C05
        r is Ok ==> r->Ok_0.m_code() == bc(qb2@) && r->Ok_0.m_size() == bz(qb2@) && r->Ok_0.m_raw() == br(qb2@)
//@end
//@fn core::matter::Matter::new as new
//@params code raw qb64b qb64 qb2
    ensures r is Ok ==> mdet(os(code), ob(raw), ob(qb64b), os(qb64), ob(qb2)) == Some((r->Ok_0.m_code(), r->Ok_0.m_size(), r->Ok_0.m_raw())),
        mdet(os(code), ob(raw), ob(qb64b), os(qb64), ob(qb2)) is Some && mutf(ob(raw), ob(qb64b)) ==> r is Ok,
//@end
//@fn core::matter::Matter::qb64 as qb64
    ensures mvalid(self.m_code(), self.m_size(), self.m_raw()) ==> r is Ok && r->Ok_0@ == mtext(self.m_code(), self.m_size(), self.m_raw())
//@end
//@fn core::matter::Matter::qb64b as qb64b
    ensures mvalid(self.m_code(), self.m_size(), self.m_raw()) ==> r is Ok && r->Ok_0@ == mtext(self.m_code(), self.m_size(), self.m_raw())
//@end
//@fn core::matter::Matter::qb2 as qb2
    ensures mvalid(self.m_code(), self.m_size(), self.m_raw()) ==> r is Ok && r->Ok_0@ == mbin(self.m_code(), self.m_size(), self.m_raw())
//@end
}

pub open spec fn mval<M: Matter>(m: M) -> (Seq<u8>, nat, Seq<u8>) { (m.m_code(), m.m_size(), m.m_raw()) }
/// the text of a primitive reads back as that primitive
pub proof fn lemma_mself(c: Seq<u8>, z: nat, r: Seq<u8>)
    requires mvalid(c, z, r)
    ensures ({ let t = mtext(c, z, r); &&& mok(t) && ascii(t) && t.len() == mfull(c, z) && qc(t) == c && qz(t) == z && qr(t) == r })
{
    lemma_mforms(c, z, r); lemma_mround(c, z, r, Seq::empty());
    assert(mtext(c, z, r) + Seq::<u8>::empty() =~= mtext(c, z, r));
    lemma_mres(c, z, r, mtext(c, z, r));
    lemma_enc_ascii(mbin(c, z, r));
}
/// a text of exactly one primitive is what that primitive qualifies to
pub proof fn lemma_mwhole(q: Seq<u8>)
    requires mok(q), q.len() == mfull(qc(q), qz(q))
    ensures q == mtext(qc(q), qz(q), qr(q)), mvalid(qc(q), qz(q), qr(q))
{ lemma_mok(q); assert(q.subrange(0, q.len() as int) =~= q); }
// ------------------------------------------------------------------ the properties, as theorems over the contracts
/// C05: no proper prefix of a complete primitive is well formed, in either domain
pub proof fn lemma_mcut(c: Seq<u8>, z: nat, r: Seq<u8>, n: int)
    requires mvalid(c, z, r)
    ensures 0 <= n < mtext(c, z, r).len() ==> !mok(mtext(c, z, r).subrange(0, n)),
        0 <= n < mbin(c, z, r).len() ==> !mokb(mbin(c, z, r).subrange(0, n)),
{
    let t = mtext(c, z, r);
    let b = mbin(c, z, r);
    lemma_mforms(c, z, r);
    let f = mfull(c, z) as int;
    let g = (mfull(c, z) / 4 * 3) as int;
    if 0 <= n < t.len() && mok(t.subrange(0, n)) {
        let q = t.subrange(0, n);
        lemma_mok(q);
        let k = mfull(qc(q), qz(q)) as int;
        assert(q.subrange(0, k) =~= t.subrange(0, k));
        assert(t.subrange(0, f) =~= t);
        lemma_mres_unique(c, z, r, qc(q), qz(q), qr(q), t);
    }
    if 0 <= n < b.len() && mokb(b.subrange(0, n)) {
        let q = b.subrange(0, n);
        lemma_mokb(q);
        let k = (mfull(bc(q), bz(q)) / 4 * 3) as int;
        assert(q.subrange(0, k) =~= b.subrange(0, k));
        assert(b.subrange(0, g) =~= b);
        lemma_mresb_unique(c, z, r, bc(q), bz(q), br(q), b);
    }
}
/// C01: creation, qualification and parsing, in both domains (checked against the contracts above only)
fn thm_c01<M: Matter>(code: &XString, raw: &[u8])
{
    if let Ok(m) = M::new_with_code_and_raw(code, raw) {
        proof { lemma_mnew(code@, raw@); lemma_mround(m.m_code(), m.m_size(), m.m_raw(), Seq::empty()); lemma_mroundb(m.m_code(), m.m_size(), m.m_raw(), Seq::empty()); lemma_mforms(m.m_code(), m.m_size(), m.m_raw()); }
        assert(m.m_raw() == mtake(code@, raw@));
        assert(!mvar(code@) ==> m.m_code() == code@);
        let t = m.qb64();
        assert(t is Ok);
        let t = match t { Ok(x) => x, Err(_) => { return; } };
        assert(t@ == mtext(m.m_code(), m.m_size(), m.m_raw()) && t@.len() == mfull(m.m_code(), m.m_size()));
        proof { assert(t@ + Seq::<u8>::empty() =~= t@); lemma_mres(m.m_code(), m.m_size(), m.m_raw(), t@); }
        let p = M::new_with_qb64(&t);
        assert(p is Ok && p->Ok_0.m_code() == m.m_code() && p->Ok_0.m_size() == m.m_size() && p->Ok_0.m_raw() == m.m_raw());
        let b = m.qb2();
        assert(b is Ok);
        let b = match b { Ok(x) => x, Err(_) => { return; } };
        proof { assert(b@ + Seq::<u8>::empty() =~= b@); lemma_mresb(m.m_code(), m.m_size(), m.m_raw(), b@); }
        assert(enc(b@) == t@);
        let p = M::new_with_qb2(&b);
        assert(p is Ok && p->Ok_0.m_code() == m.m_code() && p->Ok_0.m_size() == m.m_size() && p->Ok_0.m_raw() == m.m_raw());
    }
}
/// C02: whatever a parser accepts is what the primitive qualifies to again
fn thm_c02<M: Matter>(q: &XString, d: &[u8])
{
    if let Ok(m) = M::new_with_qb64(q) {
        proof { lemma_mok(q@); lemma_mforms(m.m_code(), m.m_size(), m.m_raw()); }
        let t = m.qb64();
        assert(t is Ok && t->Ok_0@.len() <= q@.len() && t->Ok_0@ == q@.subrange(0, t->Ok_0@.len() as int));
        assert(mvalid(m.m_code(), m.m_size(), m.m_raw()));
    }
    if let Ok(m) = M::new_with_qb2(d) {
        proof { lemma_mokb(d@); lemma_mforms(m.m_code(), m.m_size(), m.m_raw()); }
        let t = m.qb2();
        assert(t is Ok && t->Ok_0@.len() <= d@.len() && t->Ok_0@ == d@.subrange(0, t->Ok_0@.len() as int));
        assert(mvalid(m.m_code(), m.m_size(), m.m_raw()));
    }
}
/// C05: what follows a primitive does not matter, and its full size is the text it occupies
fn thm_c05<M: Matter>(q: &XString, alone: &XString)
    requires mok(q@), alone@ == q@.subrange(0, qfs(q@))
{
    let a = M::new_with_qb64(q);
    proof {
        lemma_mok(q@); lemma_mhead(q@); lemma_mforms(qc(q@), qz(q@), qr(q@));
        assert(alone@.subrange(0, qfs(q@)) =~= alone@);
        lemma_mres(qc(q@), qz(q@), qr(q@), alone@);
    }
    let b = M::new_with_qb64(alone);
    assert(a is Ok && b is Ok && a->Ok_0.m_code() == b->Ok_0.m_code() && a->Ok_0.m_size() == b->Ok_0.m_size() && a->Ok_0.m_raw() == b->Ok_0.m_raw());
    if let Ok(a) = a {
        let n = a.full_size();
        assert(n is Ok && n->Ok_0 == alone@.len());
    }
}
