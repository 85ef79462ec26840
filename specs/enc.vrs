//@uses util
// ------------------------------------------------------------------ lemmas on the base64 encoding
pub proof fn lemma_b64c_inj(a: int, b: int)
    requires 0 <= a < 64, 0 <= b < 64, b64c(a) == b64c(b)
    ensures a == b
{ lemma_b64c(a); lemma_b64c(b); }
pub proof fn lemma_enc_at(d: Seq<u8>, i: int)
    requires 0 <= i, i * 6 < d.len() * 8
    ensures i < enc(d).len(), enc(d)[i] == b64c(sx(d, i)), 0 <= sx(d, i) < 64, isb64(enc(d)[i]), enc(d)[i] != 61
{ lemma_sx(d, i); lemma_b64c(sx(d, i)); }
pub proof fn lemma_bytes(d: Seq<u8>, k: int)
    requires k >= 0, k % 3 == 0
    ensures ({ let j = k / 3 * 4; at(d, k) == sx(d, j) * 4 + sx(d, j + 1) / 16 && at(d, k + 1) == (sx(d, j + 1) % 16) * 16 + sx(d, j + 2) / 4 && at(d, k + 2) == (sx(d, j + 2) % 4) * 64 + sx(d, j + 3) })
{ lemma_sx4(d, k); }
pub proof fn lemma_enc_len(s: Seq<u8>, l: Seq<u8>)
    requires enc(s) == enc(l)
    ensures s.len() >= l.len()
{
    hide(sx); hide(b64c); hide(isb64);
    if s.len() < l.len() {
        let n = enc(s).len();
        assert(enc(l).len() == n);
        // same group count: the number of '=' differs
        let i = if l.len() % 3 == 0 { n - 1 } else { n - 2 };
        assert(0 <= i && i * 6 < l.len() * 8 && i * 6 >= s.len() * 8);
        lemma_enc_at(l, i);
        assert(enc(s)[i] == 61u8);
    }
}
pub proof fn lemma_enc_sx(a: Seq<u8>, b: Seq<u8>, i: int)
    requires enc(a) == enc(b), a.len() == b.len(), 0 <= i, i * 6 < a.len() * 8
    ensures sx(a, i) == sx(b, i)
{
    hide(sx); hide(b64c); hide(isb64); hide(enc);
    lemma_enc_at(a, i);
    lemma_enc_at(b, i);
    lemma_b64c_inj(sx(a, i), sx(b, i));
}
pub proof fn lemma_enc_inj(a: Seq<u8>, b: Seq<u8>)
    requires enc(a) == enc(b)
    ensures a == b
{
    hide(sx); hide(enc);
    lemma_enc_len(a, b);
    lemma_enc_len(b, a);
    assert forall|m: int| 0 <= m < a.len() implies a[m] == b[m] by {
        let k = m / 3 * 3;
        let j = k / 3 * 4;
        lemma_bytes(a, k);
        lemma_bytes(b, k);
        lemma_enc_sx(a, b, j);
        lemma_enc_sx(a, b, j + 1);
        if m == k { assert(at(a, k) == at(b, k)); }
        else {
            lemma_enc_sx(a, b, j + 2);
            if m == k + 1 { assert(at(a, k + 1) == at(b, k + 1)); }
            else { lemma_enc_sx(a, b, j + 3); assert(m == k + 2); assert(at(a, k + 2) == at(b, k + 2)); }
        }
    }
    assert(a =~= b);
}
/// two byte strings that agree from a triplet boundary on have the same sextets there
pub proof fn lemma_sx_shift(d: Seq<u8>, p: Seq<u8>, off: int, i: int)
    requires off >= 0, off % 3 == 0, i >= off / 3 * 4,
        forall|m: int| m >= i / 4 * 3 ==> #[trigger] at(d, m) == at(p, m - off),
    ensures sx(d, i) == sx(p, i - off / 3 * 4)
{
    let o4 = off / 3 * 4;
    assert((i - o4) / 4 == i / 4 - off / 3 && (i - o4) % 4 == i % 4);
    let k = 3 * (i / 4);
    assert(3 * ((i - o4) / 4) == k - off);
    assert(at(d, k) == at(p, k - off) && at(d, k + 1) == at(p, k + 1 - off) && at(d, k + 2) == at(p, k + 2 - off));
}
/// concatenation of whole triplets is concatenation of whole quadlets
pub proof fn lemma_enc_cat(a: Seq<u8>, b: Seq<u8>)
    requires a.len() % 3 == 0
    ensures enc(a + b) == enc(a) + enc(b)
{
    let d = a + b;
    let o4 = a.len() / 3 * 4;
    assert(enc(d).len() == enc(a).len() + enc(b).len());
    assert forall|i: int| 0 <= i < enc(d).len() implies enc(d)[i] == (enc(a) + enc(b))[i] by {
        if i < o4 {
            let k = 3 * (i / 4);
            assert(at(d, k) == at(a, k) && at(d, k + 1) == at(a, k + 1) && at(d, k + 2) == at(a, k + 2));
            assert(sx(d, i) == sx(a, i));
        } else if i * 6 < d.len() * 8 {
            assert forall|m: int| m >= i / 4 * 3 implies #[trigger] at(d, m) == at(b, m - a.len()) by {}
            lemma_sx_shift(d, b, a.len() as int, i);
        }
    }
    assert(enc(d) =~= enc(a) + enc(b));
}
/// text and bytes at the front of a stream of whole groups
pub proof fn lemma_enc_front(q: Seq<u8>, k: int)
    requires q.len() % 3 == 0, 0 <= 3 * k
    ensures enc(q).len() == q.len() / 3 * 4, 3 * k <= q.len() <==> 4 * k <= enc(q).len(),
        3 * k <= q.len() ==> enc(q).subrange(0, 4 * k) == enc(q.subrange(0, 3 * k)),
{
    lemma_enc_size(q);
    if 3 * k <= q.len() {
        let a = q.subrange(0, 3 * k); let b = q.subrange(3 * k, q.len() as int);
        assert(a + b =~= q);
        lemma_enc_cat(a, b);
        lemma_enc_size(a);
        assert(enc(q).subrange(0, 4 * k) =~= enc(a));
    }
}
pub proof fn lemma_enc_b64s(d: Seq<u8>)
    requires d.len() % 3 == 0
    ensures b64s(enc(d)), enc(d).len() == d.len() / 3 * 4
{
    assert forall|i: int| 0 <= i < enc(d).len() implies isb64(#[trigger] enc(d)[i]) by { lemma_enc_at(d, i); }
}
/// no padding character: whole triplets
pub proof fn lemma_enc_full(d: Seq<u8>)
    ensures d.len() % 3 == 0 <==> d.len() == enc(d).len() / 4 * 3, b64s(enc(d)) ==> d.len() % 3 == 0, enc(d).len() % 4 == 0, d.len() <= enc(d).len()
{
    if b64s(enc(d)) && d.len() % 3 != 0 {
        assert(enc(d)[enc(d).len() - 1] == 61u8);
        assert(isb64(enc(d)[enc(d).len() - 1]));
    }
}
pub broadcast proof fn lemma_enc_size(d: Seq<u8>) ensures (#[trigger] enc(d)).len() == (d.len() + 2) / 3 * 4 {}
pub broadcast proof fn lemma_unbe2(s: Seq<u8>)
    ensures s.len() == 0 ==> #[trigger] unbe(s) == 0, s.len() == 1 ==> unbe(s) == s[0], s.len() == 2 ==> unbe(s) == s[0] * 256 + s[1]
{ reveal_with_fuel(unbe, 3); }
pub broadcast proof fn lemma_enc_ascii(d: Seq<u8>) ensures ascii(#[trigger] enc(d))
{ assert forall|i: int| 0 <= i < enc(d).len() implies #[trigger] enc(d)[i] < 128 by { if i * 6 < d.len() * 8 { lemma_enc_at(d, i); } } }
pub broadcast proof fn lemma_unb64(d: Seq<u8>) ensures isenc(#[trigger] enc(d)), unb64(enc(d)) == d
{ lemma_enc_inj(d, unb64(enc(d))); }
pub broadcast proof fn lemma_isenc(s: Seq<u8>) requires #[trigger] isenc(s) ensures enc(unb64(s)) == s
{}
/// the bytes that four-character groups stand for
pub open spec fn dec4(s: Seq<u8>) -> Seq<u8> {
    Seq::new((s.len() / 4 * 3) as nat, |i: int| { let k = 4 * (i / 3); let r = i % 3;
        if r == 0 { (b64v(s[k]) * 4 + b64v(s[k + 1]) / 16) as u8 } else if r == 1 { ((b64v(s[k + 1]) % 16) * 16 + b64v(s[k + 2]) / 4) as u8 } else { ((b64v(s[k + 2]) % 4) * 64 + b64v(s[k + 3])) as u8 } })
}
/// whole groups of base64 characters are always canonical base64
pub proof fn lemma_whole64(s: Seq<u8>)
    requires b64s(s), s.len() % 4 == 0
    ensures isenc(s), unb64(s) == dec4(s), unb64(s).len() == s.len() / 4 * 3
{
    let d = dec4(s);
    assert forall|i: int| 0 <= i < s.len() implies enc(d)[i] == #[trigger] s[i] by {
        let g = i / 4; let k = 3 * g; let j = 4 * g;
        assert(isb64(s[j]) && isb64(s[j + 1]) && isb64(s[j + 2]) && isb64(s[j + 3]));
        lemma_b64v(s[j]); lemma_b64v(s[j + 1]); lemma_b64v(s[j + 2]); lemma_b64v(s[j + 3]);
        assert(k / 3 == g && k % 3 == 0 && (k + 1) / 3 == g && (k + 1) % 3 == 1 && (k + 2) / 3 == g && (k + 2) % 3 == 2);
        assert(k + 2 < d.len());
        let (v0, v1, v2, v3) = (b64v(s[j]), b64v(s[j + 1]), b64v(s[j + 2]), b64v(s[j + 3]));
        assert(at(d, k) == v0 * 4 + v1 / 16 && at(d, k + 1) == (v1 % 16) * 16 + v2 / 4 && at(d, k + 2) == (v2 % 4) * 64 + v3);
        assert(sx(d, i) == b64v(s[i]));
    }
    assert(enc(d) =~= s);
    lemma_unb64(d);
}
pub proof fn lemma_b64s_ascii(s: Seq<u8>) requires b64s(s) ensures ascii(s)
{ assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] < 128 by { assert(isb64(s[i])); } }
pub proof fn lemma_b64s_cat(a: Seq<u8>, b: Seq<u8>) requires b64s(a), b64s(b) ensures b64s(a + b)
{ assert forall|i: int| 0 <= i < (a + b).len() implies isb64(#[trigger] (a + b)[i]) by { if i < a.len() { assert(isb64(a[i])); } else { assert(isb64(b[i - a.len()])); } } }
pub proof fn lemma_b64s_sub(a: Seq<u8>, i: int, j: int) requires b64s(a), 0 <= i <= j <= a.len() ensures b64s(a.subrange(i, j))
{ assert forall|k: int| 0 <= k < j - i implies isb64(#[trigger] a.subrange(i, j)[k]) by { assert(isb64(a[i + k])); } }

// ------------------------------------------------------------------ big endian numbers
pub proof fn lemma_be_tail(x: nat, n: nat, m: nat) requires n <= m ensures be(x, m).subrange(m - n, m as int) == be(x, n)
{ assert(be(x, m).subrange(m - n, m as int) =~= be(x, n)); }
pub proof fn lemma_be_step(x: nat, n: nat)
    requires n > 0
    ensures be(x, n).drop_last() == be(x / 256, (n - 1) as nat), be(x, n).last() == x % 256
{
    let a = be(x, n).drop_last();
    let b = be(x / 256, (n - 1) as nat);
    assert(ipow(256, 0) == 1);
    assert forall|i: int| 0 <= i < n - 1 implies a[i] == b[i] by {
        let e = (n - 2 - i) as nat;
        assert(ipow(256, e + 1) == 256 * ipow(256, e));
        lemma_pos(256, e);
        vstd::arithmetic::div_mod::lemma_div_denominator(x as int, 256, ipow(256, e) as int);
    }
    assert(a =~= b);
    assert(be(x, n)[n - 1] == ((x / ipow(256, 0)) % 256) as u8);
    assert(x / 1 == x);
}
pub proof fn lemma_unbe_be(x: nat, n: nat)
    requires x < ipow(256, n)
    ensures unbe(be(x, n)) == x
    decreases n
{
    if n > 0 {
        lemma_be_step(x, n);
        assert(x / 256 < ipow(256, (n - 1) as nat));
        lemma_unbe_be(x / 256, (n - 1) as nat);
    }
}
pub proof fn lemma_be_unbe(s: Seq<u8>)
    ensures be(unbe(s), s.len()) == s, unbe(s) < ipow(256, s.len())
    decreases s.len()
{
    if s.len() > 0 {
        let p = s.drop_last();
        lemma_be_unbe(p);
        lemma_be_step(unbe(s), s.len());
        assert(unbe(s) / 256 == unbe(p) && unbe(s) % 256 == s.last());
        assert(be(unbe(s), s.len()) =~= be(unbe(s), s.len()).drop_last().push(be(unbe(s), s.len()).last()));
        assert(s =~= p.push(s.last()));
    } else { assert(be(0, 0) =~= s); }
}
// ------------------------------------------------------------------ code headers
pub open spec fn hdr(b: Seq<u8>) -> Seq<u8> { be(val(b) * sh(b.len() as int), hn(b.len() as int) as nat) }
pub proof fn lemma_p64w()
    ensures ipow(64, 7) == 4398046511104
{ assert(ipow(64, 7) == 4398046511104) by (compute_only); }
pub proof fn lemma_at_prefix(d: Seq<u8>, e: Seq<u8>, n: int, m: int)
    requires 0 <= n <= d.len(), n <= e.len(), d.subrange(0, n) == e.subrange(0, n), 0 <= m < n
    ensures at(d, m) == at(e, m)
{ assert(d.subrange(0, n)[m] == d[m]); assert(e.subrange(0, n)[m] == e[m]); }
pub proof fn lemma_sx_prefix(d: Seq<u8>, e: Seq<u8>, n: int, i: int)
    requires 0 <= n <= d.len(), n <= e.len(), d.subrange(0, n) == e.subrange(0, n), 0 <= i, (i + 1) * 3 <= n * 4
    ensures sx(d, i) == sx(e, i)
{
    let k = 3 * (i / 4);
    if i % 4 == 0 { lemma_at_prefix(d, e, n, k); }
    else if i % 4 == 1 { lemma_at_prefix(d, e, n, k); lemma_at_prefix(d, e, n, k + 1); }
    else if i % 4 == 2 { lemma_at_prefix(d, e, n, k + 1); lemma_at_prefix(d, e, n, k + 2); }
    else { lemma_at_prefix(d, e, n, k + 2); }
}
pub proof fn lemma_hdr_num(b: Seq<u8>)
    requires 1 <= b.len() <= 8, b64s(b)
    ensures val(b) < ipow(64, b.len()), val(b) * sh(b.len() as int) < ipow(256, hn(b.len() as int) as nat)
{
    let l = b.len() as int;
    lemma_val(b);
    lemma_p64(); lemma_p64w(); lemma_p256();
    if l == 1 { assert(hn(l) == 1 && sh(l) == 4); } else if l == 2 { assert(hn(l) == 2 && sh(l) == 16); } else if l == 3 { assert(hn(l) == 3 && sh(l) == 64); } else if l == 4 { assert(hn(l) == 3 && sh(l) == 1); }
    else if l == 5 { assert(hn(l) == 4 && sh(l) == 4); } else if l == 6 { assert(hn(l) == 5 && sh(l) == 16); } else if l == 7 { assert(hn(l) == 6 && sh(l) == 64); } else { assert(l == 8 && hn(l) == 6 && sh(l) == 1); }
}
pub proof fn lemma_mul_sh(v: nat, l: int) ensures (v * sh(l)) / sh(l) == v, ((v * sh(l)) % 256) % sh(l) == 0
{
    if l % 4 == 0 { assert(v * sh(l) == v); } else if l % 4 == 1 { assert(v * sh(l) == v * 4); } else if l % 4 == 2 { assert(v * sh(l) == v * 16); } else { assert(v * sh(l) == v * 64); }
}
/// a header encodes to its own characters and ends in zero pad bits
pub proof fn lemma_hdr(b: Seq<u8>)
    requires 1 <= b.len() <= 8, b64s(b)
    ensures hdr(b).len() == hn(b.len() as int), sxs(hdr(b), b.len()) == b, sv(hdr(b), b.len()) == val(b),
        hdr(b)[hn(b.len() as int) - 1] as nat % sh(b.len() as int) == 0,
        unbe(hdr(b)) == val(b) * sh(b.len() as int), val(b) < ipow(64, b.len()), val(b) * sh(b.len() as int) < ipow(256, hn(b.len() as int) as nat),
{
    hide(sh); hide(be); hide(sx);
    let l = b.len() as int;
    let x = val(b) * sh(l);
    lemma_val(b);
    lemma_hdr_num(b);
    let n = hn(l) as nat;
    lemma_unbe_be(x, n);
    assert(hdr(b) == be(x, n));
    assert(be(x, n).len() == n) by { reveal(be); }
    assert(hdr(b).subrange(0, hn(l)) =~= hdr(b));
    lemma_svn(hdr(b), l);
    lemma_mul_sh(val(b), l);
    lemma_sxs(hdr(b), l as nat);
    lemma_be_step(x, n);
}
pub proof fn lemma_code_b2(s: Seq<u8>)
    requires 1 <= s.len() <= 8, b64s(s)
    ensures be(val(s) * sh(s.len() as int), 8).subrange(8 - hn(s.len() as int), 8) == hdr(s), val(s) < 0x1_0000_0000_0000,
        be(val(s) * sh(s.len() as int), 8).len() == 8, hn(s.len() as int) <= 6,
{
    hide(val);
    lemma_p64(); lemma_p64w();
    lemma_hdr_num(s);
    lemma_be_tail(val(s) * sh(s.len() as int), hn(s.len() as int) as nat, 8);
    let l = s.len(); if l == 1 {} else if l == 2 {} else if l == 3 {} else if l == 4 {} else if l == 5 {} else if l == 6 {} else if l == 7 {} else { assert(l == 8); }
}
pub proof fn lemma_code_b2_4(s: Seq<u8>)
    requires 1 <= s.len() <= 4, b64s(s)
    ensures be(val(s) * sh(s.len() as int), 4).subrange(4 - hn(s.len() as int), 4) == hdr(s), val(s) < 0x100_0000, val(s) * sh(s.len() as int) < 0x100_0000,
        be(val(s) * sh(s.len() as int), 4).len() == 4, hn(s.len() as int) <= 3,
{
    hide(val);
    lemma_p64(); lemma_p64w(); lemma_p256();
    lemma_hdr_num(s);
    lemma_be_tail(val(s) * sh(s.len() as int), hn(s.len() as int) as nat, 4);
    let l = s.len(); if l == 1 {} else if l == 2 {} else if l == 3 {} else { assert(l == 4); }
}
//@fn core::util::code_b64_to_b2 as code_b64_to_b2
//@params code
    requires 1 <= code@.len() <= 8
    ensures r is Ok <==> b64s(code@), r is Ok ==> r->Ok_0@ == hdr(code@)
//@start
    hide(be); hide(b64s); hide(val); hide(hdr);
    proof {
        if b64s(code@) { lemma_code_b2(code@); }
        assert(forall|x: u64, t: usize| #![trigger (x << t)] x < 0x1_0000_0000_0000 ==> (t == 0 ==> (x << t) == x) && (t == 2 ==> (x << t) == x * 4) && (t == 4 ==> (x << t) == x * 16) && (t == 6 ==> (x << t) == x * 64)) by (bit_vector);
        if code@.len() % 4 == 0 { assert(val(code@) * sh(code@.len() as int) == val(code@)); }
    }
//@end

/// conversely: bytes with zero pad bits are the header of their own sextets
pub proof fn lemma_hdr_inv(d: Seq<u8>, l: int)
    requires 1 <= l <= 8, d.len() >= hn(l), d[hn(l) - 1] as nat % sh(l) == 0
    ensures hdr(sxs(d, l as nat)) == d.subrange(0, hn(l)), b64s(sxs(d, l as nat)), sxs(d, l as nat).len() == l
{
    let h = d.subrange(0, hn(l));
    let b = sxs(d, l as nat);
    lemma_sxs(d, l as nat);
    lemma_svn(d, l);
    lemma_be_unbe(h);
    let u = unbe(h);
    assert(u % 256 == h.last()) by { assert(u == unbe(h.drop_last()) * 256 + h.last() as nat); }
    assert(u % sh(l) == 0) by { if l % 4 == 0 { } else if l % 4 == 1 { assert(u % 4 == (u % 256) % 4); } else if l % 4 == 2 { assert(u % 16 == (u % 256) % 16); } else { assert(u % 64 == (u % 256) % 64); } }
    assert(sv(d, l as nat) * sh(l) == u) by { if l % 4 == 0 { } else if l % 4 == 1 { } else if l % 4 == 2 { } else { } }
    assert(val(b) == sv(d, l as nat));
}

// ------------------------------------------------------------------ qualified material
/// text form: header, then the base64 of pad, lead and raw bytes without the characters of the pad
pub open spec fn tx(both: Seq<u8>, ls: nat, raw: Seq<u8>) -> Seq<u8> {
    both + enc(zs(both.len() % 4 + ls) + raw).skip((both.len() % 4) as int)
}
/// binary form: header bytes, lead bytes, raw bytes
pub open spec fn bx(both: Seq<u8>, ls: nat, raw: Seq<u8>) -> Seq<u8> { hdr(both) + zs(ls) + raw }
pub open spec fn hlen(l: int) -> bool { l == 1 || l == 2 || l == 4 || l == 6 || l == 8 }
/// whole triplets after the pad
pub open spec fn whole(cs: int, ls: int, n: int) -> bool { (cs % 4 + ls + n) % 3 == 0 }

pub proof fn lemma_enc_zeros(d: Seq<u8>, ps: int)
    requires 0 <= ps <= 2, d.len() % 3 == 0, d.len() >= ps, forall|i: int| 0 <= i < ps ==> #[trigger] d[i] == 0
    ensures enc(d).len() >= ps, forall|i: int| 0 <= i < ps ==> #[trigger] enc(d)[i] == 65
{
    assert forall|i: int| 0 <= i < ps implies #[trigger] enc(d)[i] == 65 by {
        assert(d[0] == 0);
        if ps == 2 { assert(d[1] == 0); }
        lemma_enc_at(d, i);
    }
}
pub proof fn lemma_hlen(cs: int)
    requires hlen(cs)
    ensures ({ let ps = cs % 4; let n = hn(cs); let off = n - ps; 0 <= ps <= 2 && off >= 0 && off % 3 == 0 && off / 3 * 4 == cs - ps && cs * 3 <= n * 4 && n >= 1 && (ps == 0 ==> n % 3 == 0) && n - 1 == off + ps - 1 && sh(cs) == (if ps == 0 { 1int } else if ps == 1 { 4 } else { 16 }) })
{ assert(cs == 1 || cs == 2 || cs == 4 || cs == 6 || cs == 8); }
/// characters behind the header
pub proof fn lemma_bx_tail(d: Seq<u8>, p: Seq<u8>, cs: int, i: int)
    requires hlen(cs), d.len() >= hn(cs), d[hn(cs) - 1] as nat % sh(cs) == 0, i >= cs,
        forall|m: int| m >= hn(cs) ==> #[trigger] at(d, m) == at(p, m - (hn(cs) - cs % 4)),
        forall|m: int| 0 <= m < cs % 4 ==> #[trigger] at(p, m) == 0,
    ensures sx(d, i) == sx(p, i - (cs - cs % 4))
{
    lemma_hlen(cs);
    let ps = cs % 4;
    let n = hn(cs);
    let off = n - ps;
    if i / 4 * 3 >= n {
        lemma_sx_shift(d, p, off, i);
    } else {
        let j = i - (cs - ps);
        let k = 3 * (i / 4);
        assert(ps != 0);
        assert(k == off);
        assert(j / 4 == 0 && j % 4 == i % 4);
        assert(at(p, 0) == 0);
        if ps == 1 {
            assert(at(d, k) % 4 == 0);
            assert(at(d, k + 1) == at(p, 1) && at(d, k + 2) == at(p, 2));
        } else {
            assert(at(p, 1) == 0);
            assert(at(d, k + 1) % 16 == 0);
            assert(at(d, k + 2) == at(p, 2));
        }
    }
}
/// the binary form is the base64 decoding of the text form
pub proof fn lemma_bx_tx(both: Seq<u8>, ls: nat, raw: Seq<u8>)
    requires b64s(both), hlen(both.len() as int), whole(both.len() as int, ls as int, raw.len() as int)
    ensures enc(bx(both, ls, raw)) == tx(both, ls, raw),
        tx(both, ls, raw).len() == both.len() + (both.len() % 4 + ls + raw.len()) / 3 * 4 - both.len() % 4,
        tx(both, ls, raw).len() % 4 == 0,
        bx(both, ls, raw).len() == hn(both.len() as int) + ls + raw.len(), bx(both, ls, raw).len() % 3 == 0,
        b64s(tx(both, ls, raw)),
{
    hide(sx); hide(sh); hide(b64c); hide(hdr);
    let cs = both.len() as int;
    let ps = cs % 4;
    let n = hn(cs);
    let d = bx(both, ls, raw);
    let h = hdr(both);
    let p = zs((ps + ls) as nat) + raw;
    let t = tx(both, ls, raw);
    lemma_hdr(both);
    lemma_hlen(cs);
    assert(p.len() == ps + ls + raw.len() && p.len() % 3 == 0);
    lemma_enc_b64s(p);
    assert(d.len() == n + ls + raw.len());
    let off = n - ps;
    assert(d.len() == off + p.len());
    assert(d.len() % 3 == 0);
    assert(p.len() < ps ==> p.len() == 0 && ps == 0);
    assert(enc(d).len() == t.len());
    assert(d[n - 1] == h[n - 1]);
    assert(d.subrange(0, n) =~= h.subrange(0, n));
    assert forall|m: int| m >= n implies #[trigger] at(d, m) == at(p, m - off) by {
        if m < d.len() { assert(d[m] == (zs(ls) + raw)[m - n]); assert(p[m - off] == (zs(ls) + raw)[m - n]); }
    }
    assert forall|m: int| 0 <= m < ps implies #[trigger] at(p, m) == 0 by {}
    assert forall|i: int| 0 <= i < t.len() implies enc(d)[i] == t[i] by {
        lemma_enc_at(d, i);
        if i < cs {
            assert(sxs(h, cs as nat)[i] == both[i]);
            lemma_sx_prefix(d, h, n, i);
        } else {
            let j = i - (cs - ps);
            assert(t[i] == enc(p)[j]);
            lemma_enc_at(p, j);
            lemma_bx_tail(d, p, cs, i);
        }
    }
    assert(enc(d) =~= t);
    lemma_enc_b64s(d);
}
/// a byte string with the given header, zero pad bits and zero lead bytes is a binary form
pub proof fn lemma_bx_inv(d: Seq<u8>, cs: int, ls: nat)
    requires hlen(cs), d.len() >= hn(cs) + ls, d[hn(cs) - 1] as nat % sh(cs) == 0, forall|i: int| hn(cs) <= i < hn(cs) + ls ==> #[trigger] d[i] == 0
    ensures d == bx(sxs(d, cs as nat), ls, d.subrange(hn(cs) + ls, d.len() as int)), b64s(sxs(d, cs as nat)), sxs(d, cs as nat).len() == cs
{
    lemma_hdr_inv(d, cs);
    assert(d =~= bx(sxs(d, cs as nat), ls, d.subrange(hn(cs) + ls, d.len() as int)));
}
/// material decoded behind a header is a text form
pub proof fn lemma_tx_of(both: Seq<u8>, ls: nat, paw: Seq<u8>, body: Seq<u8>)
    requires
        both.len() % 4 != 3,
        paw.len() % 3 == 0, paw.len() >= both.len() % 4 + ls,
        enc(paw).len() == both.len() % 4 + body.len(),
        enc(paw).skip((both.len() % 4) as int) == body,
        forall|i: int| 0 <= i < both.len() % 4 + ls ==> #[trigger] paw[i] == 0,
    ensures tx(both, ls, paw.skip((both.len() % 4 + ls) as int)) == both + body
{
    let z = (both.len() % 4 + ls) as nat;
    assert(zs(z) + paw.skip(z as int) =~= paw);
}
/// and conversely the text form determines what the decoder is given
pub proof fn lemma_tx_dec(both: Seq<u8>, ls: nat, raw: Seq<u8>)
    requires b64s(both), hlen(both.len() as int), whole(both.len() as int, ls as int, raw.len() as int)
    ensures ({ let ps = both.len() % 4; let t = tx(both, ls, raw);
        enc(zs(ps + ls) + raw) == rep(65u8, ps) + t.skip(both.len() as int) && t.subrange(0, both.len() as int) == both && t.len() >= both.len() })
{
    let ps = both.len() % 4;
    let p = zs(ps + ls) + raw;
    let t = tx(both, ls, raw);
    assert(p.len() % 3 == 0);
    lemma_enc_b64s(p);
    lemma_enc_zeros(p, ps as int);
    assert(t.skip(both.len() as int) =~= enc(p).skip(ps as int));
    assert(t.subrange(0, both.len() as int) =~= both);
    assert(enc(p) =~= rep(65u8, ps) + t.skip(both.len() as int));
}
/// material behind pad characters whose pad bits are zero starts with zero bytes
pub proof fn lemma_pad(paw: Seq<u8>, ps: int)
    requires 0 <= ps <= 2, paw.len() >= ps, paw.len() % 3 == 0, forall|i: int| 0 <= i < ps ==> #[trigger] enc(paw)[i] == 65
    ensures ps >= 1 ==> paw[0] < 4, ps == 2 ==> paw[0] == 0 && paw[1] < 16
{
    if ps >= 1 {
        lemma_enc_at(paw, 0);
        lemma_b64c_inj(sx(paw, 0), 0);
    }
    if ps == 2 {
        lemma_enc_at(paw, 1);
        lemma_b64c_inj(sx(paw, 1), 0);
    }
}

// ------------------------------------------------------------------ material inside a stream
/// characters the decoder is given for a primitive with header size cs and full size fs
pub open spec fn qsrc(q: Seq<u8>, cs: int, fs: int) -> Seq<u8> { rep(65u8, (cs % 4) as nat) + q.subrange(cs, fs) }
/// the text q starts with well formed material: canonical base64, whole triplets, zero pad and lead bits
pub open spec fn qok(q: Seq<u8>, cs: int, ls: nat, fs: int) -> bool {
    &&& cs <= fs <= q.len()
    &&& isenc(qsrc(q, cs, fs))
    &&& ({ let p = unb64(qsrc(q, cs, fs)); p.len() == qsrc(q, cs, fs).len() / 4 * 3 && p.len() >= cs % 4 + ls && allz(p.subrange(0, cs % 4 + ls)) })
}
pub open spec fn qraw(q: Seq<u8>, cs: int, ls: nat, fs: int) -> Seq<u8> { unb64(qsrc(q, cs, fs)).skip((cs % 4 + ls) as int) }
pub proof fn lemma_q_tx(q: Seq<u8>, cs: int, ls: nat, fs: int)
    requires qok(q, cs, ls, fs), hlen(cs), fs % 4 == 0
    ensures tx(q.subrange(0, cs), ls, qraw(q, cs, ls, fs)) == q.subrange(0, fs), whole(cs, ls as int, qraw(q, cs, ls, fs).len() as int),
        qraw(q, cs, ls, fs).len() + cs % 4 + ls == (fs - cs + cs % 4) / 4 * 3,
{
    hide(enc);
    lemma_hlen(cs);
    let ps = cs % 4;
    let src = qsrc(q, cs, fs);
    let p = unb64(src);
    lemma_isenc(src);
    assert(src.len() == ps + fs - cs);
    let body = q.subrange(cs, fs);
    assert(src.skip(ps) =~= body);
    assert forall|i: int| 0 <= i < ps + ls implies #[trigger] p[i] == 0 by { assert(p.subrange(0, ps + ls)[i] == 0); }
    lemma_tx_of(q.subrange(0, cs), ls, p, body);
    assert(q.subrange(0, cs) + body =~= q.subrange(0, fs));
}
pub proof fn lemma_tx_q(q: Seq<u8>, both: Seq<u8>, ls: nat, raw: Seq<u8>, fs: int)
    requires b64s(both), hlen(both.len() as int), whole(both.len() as int, ls as int, raw.len() as int), fs == tx(both, ls, raw).len(), fs <= q.len(), q.subrange(0, fs) == tx(both, ls, raw)
    ensures qok(q, both.len() as int, ls, fs), qraw(q, both.len() as int, ls, fs) == raw, q.subrange(0, both.len() as int) == both, fs % 4 == 0, fs >= both.len(),
{
    hide(enc);
    let cs = both.len() as int;
    let ps = cs % 4;
    let t = tx(both, ls, raw);
    lemma_hlen(cs);
    lemma_bx_tx(both, ls, raw);
    lemma_tx_dec(both, ls, raw);
    assert(t.skip(cs) =~= q.subrange(cs, fs));
    assert(t.subrange(0, cs) =~= q.subrange(0, cs));
    let p = zs((ps + ls) as nat) + raw;
    lemma_unb64(p);
    lemma_enc_b64s(p);
    assert(qsrc(q, cs, fs) == enc(p));
    assert(p.skip(ps + ls) =~= raw);
}
/// the bytes d start with a well formed binary form
pub open spec fn dok(d: Seq<u8>, cs: int, ls: nat, bfs: int) -> bool {
    &&& hn(cs) + ls <= bfs <= d.len()
    &&& d[hn(cs) - 1] as nat % sh(cs) == 0
    &&& allz(d.subrange(hn(cs), hn(cs) + ls))
}
pub open spec fn allz(s: Seq<u8>) -> bool { forall|k: int| 0 <= k < s.len() ==> #[trigger] s[k] == 0 }
pub open spec fn draw(d: Seq<u8>, cs: int, ls: nat, bfs: int) -> Seq<u8> { d.subrange(hn(cs) + ls, bfs) }
pub proof fn lemma_d_bx(d: Seq<u8>, cs: int, ls: nat, bfs: int)
    requires dok(d, cs, ls, bfs), hlen(cs)
    ensures bx(sxs(d, cs as nat), ls, draw(d, cs, ls, bfs)) == d.subrange(0, bfs), b64s(sxs(d, cs as nat)), sxs(d, cs as nat).len() == cs
{
    let e = d.subrange(0, bfs);
    lemma_hlen(cs);
    assert(e[hn(cs) - 1] == d[hn(cs) - 1]);
    assert forall|i: int| hn(cs) <= i < hn(cs) + ls implies #[trigger] e[i] == 0 by { assert(d.subrange(hn(cs), hn(cs) + ls)[i - hn(cs)] == 0); }
    lemma_bx_inv(e, cs, ls);
    assert(e.subrange(0, bfs) =~= d.subrange(0, bfs));
    lemma_sxs_prefix(d, e, bfs, cs);
    assert(e.subrange(hn(cs) + ls, bfs) =~= draw(d, cs, ls, bfs));
}
pub proof fn lemma_sxs_prefix(d: Seq<u8>, e: Seq<u8>, n: int, cs: int)
    requires 0 <= n <= d.len(), n <= e.len(), d.subrange(0, n) == e.subrange(0, n), 0 <= cs, cs * 3 <= n * 4
    ensures sxs(d, cs as nat) == sxs(e, cs as nat)
{
    assert forall|i: int| 0 <= i < cs implies #[trigger] sxs(d, cs as nat)[i] == sxs(e, cs as nat)[i] by { lemma_sx_prefix(d, e, n, i); }
    assert(sxs(d, cs as nat) =~= sxs(e, cs as nat));
}
pub proof fn lemma_bx_d(d: Seq<u8>, both: Seq<u8>, ls: nat, raw: Seq<u8>, bfs: int)
    requires b64s(both), hlen(both.len() as int), bfs == bx(both, ls, raw).len(), bfs <= d.len(), d.subrange(0, bfs) == bx(both, ls, raw)
    ensures dok(d, both.len() as int, ls, bfs), draw(d, both.len() as int, ls, bfs) == raw, sxs(d, both.len()) == both, bfs == hn(both.len() as int) + ls + raw.len()
{
    hide(sx); hide(sh); hide(hdr);
    let cs = both.len() as int;
    let n = hn(cs);
    let h = hdr(both);
    let b = bx(both, ls, raw);
    lemma_hdr(both);
    lemma_hlen(cs);
    assert(b.len() == n + ls + raw.len());
    assert forall|i: int| 0 <= i < bfs implies d[i] == b[i] by { assert(d.subrange(0, bfs)[i] == d[i]); }
    assert(d[n - 1] == h[n - 1]);
    assert forall|i: int| n <= i < n + ls implies #[trigger] d[i] == 0 by {}
    assert(draw(d, cs, ls, bfs) =~= raw);
    assert(d.subrange(0, n) =~= h.subrange(0, n));
    lemma_sxs_prefix(d, h, n, cs);
}
