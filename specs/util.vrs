// ------------------------------------------------------------------ spec functions
/// base64 digits of n, most significant first
pub open spec fn digs(n: nat, len: nat) -> Seq<u8> decreases len {
    if len == 0 { Seq::empty() } else { digs(n / 64, (len - 1) as nat).push(b64c((n % 64) as int)) }
}
pub open spec fn val(s: Seq<u8>) -> nat decreases s.len() {
    if s.len() == 0 { 0 } else { (val(s.drop_last()) * 64 + b64v(s.last())) as nat }
}
pub proof fn lemma_b64c(v: int) requires 0 <= v < 64 ensures isb64(b64c(v)), b64v(b64c(v)) == v {}
pub proof fn lemma_b64v(c: u8) requires isb64(c) ensures 0 <= b64v(c) < 64, b64c(b64v(c)) == c {}
pub proof fn lemma_digs(n: nat, len: nat)
    ensures digs(n, len).len() == len, b64s(digs(n, len)), n < ipow(64, len) ==> val(digs(n, len)) == n
    decreases len
{
    if len > 0 {
        lemma_digs(n / 64, (len - 1) as nat);
        lemma_b64c((n % 64) as int);
        let s = digs(n, len);
        assert(s.drop_last() =~= digs(n / 64, (len - 1) as nat));
        if n < ipow(64, len) {
            assert(n / 64 < ipow(64, (len - 1) as nat));
        }
    }
}
pub proof fn lemma_val(s: Seq<u8>)
    requires b64s(s)
    ensures val(s) < ipow(64, s.len()), digs(val(s), s.len()) == s
    decreases s.len()
{
    if s.len() > 0 {
        let p = s.drop_last();
        assert(b64s(p)) by { assert forall|i: int| 0 <= i < p.len() implies isb64(#[trigger] p[i]) by { assert(p[i] == s[i]); } }
        lemma_val(p);
        assert(isb64(s[s.len() - 1]));
        lemma_b64v(s.last());
        assert(val(s) / 64 == val(p));
        assert(val(s) % 64 == b64v(s.last()));
        assert(s =~= p.push(s.last()));
    } else { assert(s =~= digs(0, 0)); }
}
pub proof fn lemma_p64()
    ensures ipow(64, 0) == 1, ipow(64, 1) == 64, ipow(64, 2) == 4096, ipow(64, 3) == 262144, ipow(64, 4) == 16777216, ipow(64, 5) == 1073741824, ipow(64, 6) == 68719476736, ipow(64, 8) == 281474976710656
{
    assert(ipow(64, 0) == 1 && ipow(64, 1) == 64 && ipow(64, 2) == 4096 && ipow(64, 3) == 262144 && ipow(64, 4) == 16777216 && ipow(64, 5) == 1073741824 && ipow(64, 6) == 68719476736 && ipow(64, 8) == 281474976710656) by (compute_only);
}

//@fn core::util::b64_char_to_index as b64_char_to_index
//@params c
    ensures r is Ok <==> (c as u32) < 128 && isb64(c as u8), r is Ok ==> r->Ok_0 == b64v(c as u8)
//@end

//@fn core::util::b64_index_to_char as b64_index_to_char
//@params i
    ensures r is Ok <==> i < 64, r is Ok ==> (r->Ok_0 as u32) < 128 && r->Ok_0 as u8 == b64c(i as int)
//@end

/// the bytes of a sequence of ASCII chars
pub open spec fn cb(c: Seq<char>, n: int) -> Seq<u8> { Seq::new(n as nat, |j: int| c[j] as u8) }
pub proof fn lemma_val_mono(s: Seq<u8>, k: int)
    requires b64s(s), 0 <= k <= s.len()
    ensures val(s.subrange(0, k)) <= val(s), k < s.len() ==> val(s.subrange(0, k)) * 64 <= val(s)
    decreases s.len() - k
{
    if k < s.len() {
        lemma_val_mono(s, k + 1);
        assert(s.subrange(0, k + 1).drop_last() =~= s.subrange(0, k));
        lemma_b64v(s[k]);
    } else { assert(s.subrange(0, k) =~= s); }
}
pub proof fn lemma_cb(s: Seq<u8>, i: int)
    requires 0 <= i <= chars(s).len(), ascii(s) || (forall|j: int| 0 <= j < chars(s).len() ==> (#[trigger] chars(s)[j] as u32) < 128)
    ensures i <= s.len() && cb(chars(s), i) == s.subrange(0, i), chars(s).len() == s.len()
{
    broadcast use axiom_chars_ascii;
    assert(cb(chars(s), i) =~= s.subrange(0, i)) by {
        assert forall|j: int| 0 <= j < i implies cb(chars(s), i)[j] == s[j] by { assert(chars(s)[j] as u32 == s[j] as u32); }
    }
}
/// one step of the digit loop
pub proof fn lemma_dstep(s: Seq<u8>, i: int)
    requires 0 <= i < chars(s).len(), forall|j: int| 0 <= j < i ==> (#[trigger] chars(s)[j] as u32) < 128 && isb64(chars(s)[j] as u8)
    ensures
        // a wrong character here, or a value too large already, rules out the whole string
        !((chars(s)[i] as u32) < 128 && isb64(chars(s)[i] as u8)) ==> !b64s(s),
        b64s(s) ==> val(cb(chars(s), i)) * 64 <= val(s),
        val(cb(chars(s), i + 1)) == val(cb(chars(s), i)) * 64 + b64v(chars(s)[i] as u8),
        isb64(chars(s)[i] as u8) ==> 0 <= b64v(chars(s)[i] as u8) < 64,
{
    broadcast use axiom_chars_ascii;
    if b64s(s) {
        assert(ascii(s)) by { assert forall|j: int| 0 <= j < s.len() implies #[trigger] s[j] < 128 by { assert(isb64(s[j])); } }
        lemma_cb(s, i);
        lemma_val_mono(s, i);
        assert(chars(s)[i] as u32 == s[i] as u32);
        assert(isb64(s[i]));
    }
    assert(cb(chars(s), i + 1).drop_last() =~= cb(chars(s), i));
}
pub proof fn lemma_dend(s: Seq<u8>)
    requires forall|j: int| 0 <= j < chars(s).len() ==> (#[trigger] chars(s)[j] as u32) < 128 && isb64(chars(s)[j] as u8)
    ensures cb(chars(s), chars(s).len() as int) == s, b64s(s)
{
    broadcast use axiom_chars_ascii;
    lemma_cb(s, chars(s).len() as int);
    assert(s.subrange(0, s.len() as int) =~= s);
    assert forall|j: int| 0 <= j < s.len() implies isb64(#[trigger] s[j]) by { assert(chars(s)[j] as u32 == s[j] as u32); }
}

//@fn core::util::b64_to_u32 as b64_to_u32
//@params b64
    ensures r is Ok <==> b64s(b64@) && val(b64@) <= u32::MAX, r is Ok ==> r->Ok_0 == val(b64@)
//@start
    proof {
        assert((0xffff_ffffu32 >> 6) == 0x3ff_ffffu32) by (bit_vector);
        assert(forall|x: u32| x <= 0x3ff_ffff ==> #[trigger] (x << 6) == x * 64) by (bit_vector);
        assert(cb(chars(b64@), 0) =~= Seq::<u8>::empty());
    }
//@loop 0
    invariant __v0@ == chars(b64@), out == val(cb(chars(b64@), __i0 as int)),
    forall|j: int| 0 <= j < __i0 ==> (#[trigger] chars(b64@)[j] as u32) < 128 && isb64(chars(b64@)[j] as u8),
//@loopstart 0
    proof { lemma_dstep(b64@, __i0 as int); }
//@tail
    proof { lemma_dend(b64@); }
//@end

//@fn core::util::b64_to_u64 as b64_to_u64
//@params b64
    ensures r is Ok <==> b64s(b64@) && val(b64@) <= u64::MAX, r is Ok ==> r->Ok_0 == val(b64@)
//@start
    proof {
        assert((0xffff_ffff_ffff_ffffu64 >> 6) == 0x3ff_ffff_ffff_ffffu64) by (bit_vector);
        assert(forall|x: u64| x <= 0x3ff_ffff_ffff_ffff ==> #[trigger] (x << 6) == x * 64) by (bit_vector);
        assert(cb(chars(b64@), 0) =~= Seq::<u8>::empty());
    }
//@loop 0
    invariant __v0@ == chars(b64@), out == val(cb(chars(b64@), __i0 as int)),
    forall|j: int| 0 <= j < __i0 ==> (#[trigger] chars(b64@)[j] as u32) < 128 && isb64(chars(b64@)[j] as u8),
//@loopstart 0
    proof { lemma_dstep(b64@, __i0 as int); }
//@tail
    proof { lemma_dend(b64@); }
//@end

pub proof fn lemma_pos(b: nat, k: nat) requires b > 0 ensures ipow(b, k) > 0 decreases k
{ if k > 0 { lemma_pos(b, (k - 1) as nat); assert(b * ipow(b, (k - 1) as nat) > 0) by (nonlinear_arith) requires b > 0, ipow(b, (k - 1) as nat) > 0; } }
pub proof fn lemma_div_step(n: nat, k: nat) ensures n / ipow(64, k + 1) == (n / ipow(64, k)) / 64
{
    lemma_pos(64, k);
    assert(ipow(64, k + 1) == ipow(64, k) * 64);
    vstd::arithmetic::div_mod::lemma_div_denominator(n as int, ipow(64, k) as int, 64);
}
/// the next more significant digit goes in front
pub proof fn lemma_digs_front(n: nat, k: nat)
    ensures digs(n, k + 1) == seq![b64c(((n / ipow(64, k)) % 64) as int)] + digs(n, k), digs(n, k).insert(0, b64c(((n / ipow(64, k)) % 64) as int)) == digs(n, k + 1)
    decreases k
{
    let d = b64c(((n / ipow(64, k)) % 64) as int);
    if k == 0 {
        assert(ipow(64, 0) == 1);
        assert(digs(n / 64, 0) =~= Seq::<u8>::empty());
        assert(n / 1 == n);
        assert(digs(n / 64, 0).push(b64c((n % 64) as int)) =~= seq![d] + digs(n, 0));
    } else {
        lemma_digs_front(n / 64, (k - 1) as nat);
        lemma_pos(64, (k - 1) as nat);
        assert(ipow(64, k) == 64 * ipow(64, (k - 1) as nat));
        vstd::arithmetic::div_mod::lemma_div_denominator(n as int, 64, ipow(64, (k - 1) as nat) as int);
        assert((n / 64) / ipow(64, (k - 1) as nat) == n / ipow(64, k));
        assert(digs(n, k + 1) =~= digs(n / 64, k).push(b64c((n % 64) as int)));
        assert(digs(n, k) =~= digs(n / 64, (k - 1) as nat).push(b64c((n % 64) as int)));
        assert(digs(n, k + 1) =~= seq![d] + digs(n, k));
    }
    assert(digs(n, k).insert(0, d) =~= seq![d] + digs(n, k));
}
pub proof fn lemma_room(n: nat, k: nat, length: nat)
    requires n < ipow(64, length), k <= length
    ensures n / ipow(64, k) > 0 ==> k < length
{ if k == length { vstd::arithmetic::div_mod::lemma_basic_div(n as int, ipow(64, k) as int); } }

//@fn core::util::u32_to_b64 as u32_to_b64
//@params n length
    requires length <= 1000
    ensures r is Ok, b64s(r->Ok_0@), n < ipow(64, length as nat) ==> r->Ok_0@ == digs(n as nat, length as nat), length == 0 ==> r->Ok_0@.len() == 0
//@start
    proof {
        if length >= 1 && n < ipow(64, length as nat) { axiom_overflow(n as nat, length as nat); }
        assert(digs(n as nat, 0) =~= Seq::<u8>::empty());
        assert(ipow(64, 0) == 1);
    }
//@loop 0
    invariant n < ipow(64, length as nat) ==> fge(overflow, fl(0)) && out@.len() <= length && out@ == digs(n as nat, out@.len()) && x == n as nat / ipow(64, out@.len()),
    b64s(out@),
    decreases x
//@loopstart 0
    proof {
        lemma_b64c((x % 64) as int);
        if n < ipow(64, length as nat) { lemma_digs_front(n as nat, out@.len()); lemma_div_step(n as nat, out@.len()); lemma_room(n as nat, out@.len(), length as nat); }
    }
//@loop 1
    invariant n < ipow(64, length as nat) ==> out@.len() <= length && out@ == digs(n as nat, out@.len()) && n as nat / ipow(64, out@.len()) == 0,
    b64s(out@),
    decreases length - out@.len()
//@loopstart 1
    proof {
        lemma_b64c(0);
        if n < ipow(64, length as nat) { lemma_digs_front(n as nat, out@.len()); lemma_div_step(n as nat, out@.len()); }
    }
//@end

//@fn core::util::u64_to_b64 as u64_to_b64
//@params n length
    requires length <= 1000
    ensures r is Ok, b64s(r->Ok_0@), n < ipow(64, length as nat) ==> r->Ok_0@ == digs(n as nat, length as nat), length == 0 ==> r->Ok_0@.len() == 0
//@start
    proof {
        if length >= 1 && n < ipow(64, length as nat) { axiom_overflow(n as nat, length as nat); }
        assert(digs(n as nat, 0) =~= Seq::<u8>::empty());
        assert(ipow(64, 0) == 1);
    }
//@loop 0
    invariant n < ipow(64, length as nat) ==> fge(overflow, fl(0)) && out@.len() <= length && out@ == digs(n as nat, out@.len()) && x == n as nat / ipow(64, out@.len()),
    b64s(out@),
    decreases x
//@loopstart 0
    proof {
        lemma_b64c((x % 64) as int);
        if n < ipow(64, length as nat) { lemma_digs_front(n as nat, out@.len()); lemma_div_step(n as nat, out@.len()); lemma_room(n as nat, out@.len(), length as nat); }
    }
//@loop 1
    invariant n < ipow(64, length as nat) ==> out@.len() <= length && out@ == digs(n as nat, out@.len()) && n as nat / ipow(64, out@.len()) == 0,
    b64s(out@),
    decreases length - out@.len()
//@loopstart 1
    proof {
        lemma_b64c(0);
        if n < ipow(64, length as nat) { lemma_digs_front(n as nat, out@.len()); lemma_div_step(n as nat, out@.len()); }
    }
//@end

/// sextets of a byte string as base64 digits
pub open spec fn sxs(d: Seq<u8>, n: nat) -> Seq<u8> { Seq::new(n, |i: int| b64c(sx(d, i))) }

/// number written by the first l sextets of d
pub open spec fn sv(d: Seq<u8>, l: nat) -> nat decreases l { if l == 0 { 0 } else { (sv(d, (l - 1) as nat) * 64 + sx(d, l - 1)) as nat } }
pub proof fn lemma_sx(d: Seq<u8>, i: int) requires i >= 0 ensures 0 <= sx(d, i) < 64 {}
pub proof fn lemma_sxs(d: Seq<u8>, l: nat)
    ensures digs(sv(d, l), l) == sxs(d, l), b64s(sxs(d, l)), sv(d, l) < ipow(64, l), val(sxs(d, l)) == sv(d, l), ascii(sxs(d, l))
    decreases l
{
    if l > 0 {
        lemma_sxs(d, (l - 1) as nat);
        lemma_sx(d, l - 1);
        lemma_b64c(sx(d, l - 1));
        assert(sv(d, l) / 64 == sv(d, (l - 1) as nat));
        assert(sv(d, l) % 64 == sx(d, l - 1));
        assert(sxs(d, l) =~= sxs(d, (l - 1) as nat).push(b64c(sx(d, l - 1))));
        assert(sxs(d, l).drop_last() =~= sxs(d, (l - 1) as nat));
    } else { assert(digs(0, 0) =~= sxs(d, 0)); }
    assert forall|i: int| 0 <= i < l implies isb64(#[trigger] sxs(d, l)[i]) by { lemma_sx(d, i); lemma_b64c(sx(d, i)); }
}
/// k most significant bytes of d, then zeros
pub open spec fn lead(s: Seq<u8>, d: Seq<u8>, k: int) -> bool {
    (forall|i: int| 0 <= i < k && i < s.len() ==> #[trigger] s[i] == d[i]) && (forall|i: int| k <= i < s.len() ==> #[trigger] s[i] == 0)
}
/// bytes of a header of l characters
pub open spec fn hn(l: int) -> int { (l + 1) * 3 / 4 }
/// 4^(l % 4): the pad bits after a header of l characters
pub open spec fn sh(l: int) -> nat { if l % 4 == 0 { 1 } else if l % 4 == 1 { 4 } else if l % 4 == 2 { 16 } else { 64 } }
pub open spec fn zs(n: nat) -> Seq<u8> { rep(0u8, n) }
pub proof fn lemma_unbe_push(s: Seq<u8>, n: int)
    requires 0 <= n < s.len()
    ensures unbe(s.subrange(0, n + 1)) == unbe(s.subrange(0, n)) * 256 + s[n]
{
    let t = s.subrange(0, n + 1);
    assert(t.drop_last() =~= s.subrange(0, n));
    assert(t.last() == s[n]);
}
pub proof fn lemma_sv_step(d: Seq<u8>, m: int)
    requires m >= 0, m % 4 == 0
    ensures ({ let q = sv(d, m as nat); let k = m / 4 * 3; let (a, b, c) = (at(d, k), at(d, k + 1), at(d, k + 2));
        &&& sv(d, (m + 1) as nat) == q * 64 + a / 4
        &&& sv(d, (m + 2) as nat) == q * 4096 + a * 16 + b / 16
        &&& sv(d, (m + 3) as nat) == q * 262144 + a * 1024 + b * 4 + c / 64
        &&& sv(d, (m + 4) as nat) == q * 16777216 + a * 65536 + b * 256 + c })
{
    hide(sx);
    let q = sv(d, m as nat); let k = m / 4 * 3; let (a, b, c) = (at(d, k), at(d, k + 1), at(d, k + 2));
    lemma_sx4(d, k);
    assert(sv(d, (m + 1) as nat) == q * 64 + sx(d, m));
    assert(sv(d, (m + 2) as nat) == sv(d, (m + 1) as nat) * 64 + sx(d, m + 1));
    assert(sv(d, (m + 3) as nat) == sv(d, (m + 2) as nat) * 64 + sx(d, m + 2));
    assert(sv(d, (m + 4) as nat) == sv(d, (m + 3) as nat) * 64 + sx(d, m + 3));
}
/// the number a header's bytes stand for, against its sextets
pub proof fn lemma_svn(d: Seq<u8>, l: int)
    requires 0 <= l, d.len() >= hn(l)
    ensures unbe(d.subrange(0, hn(l))) / sh(l) == sv(d, l as nat)
    decreases l
{
    hide(sx); hide(sv); hide(unbe);
    if l == 0 { assert(d.subrange(0, 0) =~= Seq::<u8>::empty()); assert(unbe(d.subrange(0, 0)) == 0 && sv(d, 0) == 0) by { reveal(unbe); reveal(sv); } }
    else {
        let m = if l % 4 == 0 { l - 4 } else { l / 4 * 4 };
        assert(m % 4 == 0 && hn(m) == m / 4 * 3 && m >= 0);
        lemma_svn(d, m);
        let k = hn(m);
        let q = sv(d, m as nat);
        assert(sh(m) == 1);
        let w = unbe(d.subrange(0, k));
        assert(w / 1 == w);
        assert(w == q);
        lemma_sv_step(d, m);
        lemma_unbe_push(d, k);
        if l == m + 1 {
            assert(hn(l) == k + 1 && sh(l) == 4);
        } else if l == m + 2 {
            lemma_unbe_push(d, k + 1);
            assert(hn(l) == k + 2 && sh(l) == 16);
        } else {
            lemma_unbe_push(d, k + 1);
            lemma_unbe_push(d, k + 2);
            assert(hn(l) == k + 3);
            if l == m + 3 { assert(sh(l) == 64); } else { assert(l == m + 4 && sh(l) == 1); }
        }
    }
}
pub proof fn lemma_unbe_zeros(s: Seq<u8>, h: int)
    requires 0 <= h <= s.len(), forall|i: int| h <= i < s.len() ==> #[trigger] s[i] == 0
    ensures unbe(s) == unbe(s.subrange(0, h)) * ipow(256, (s.len() - h) as nat)
    decreases s.len()
{
    if h == s.len() { assert(s.subrange(0, h) =~= s); assert(ipow(256, (s.len() - h) as nat) == 1); assert(unbe(s) * 1 == unbe(s)); }
    else {
        let t = s.drop_last();
        lemma_unbe_zeros(t, h);
        assert(t.subrange(0, h) =~= s.subrange(0, h));
        assert(s.last() == 0);
        let e = (s.len() - h) as nat;
        let w = unbe(s.subrange(0, h));
        assert(ipow(256, e) == 256 * ipow(256, (e - 1) as nat));
        assert(t.len() - h == e - 1);
        assert(unbe(s) == unbe(t) * 256);
        assert(w * ipow(256, (e - 1) as nat) * 256 == w * (256 * ipow(256, (e - 1) as nat))) by (nonlinear_arith);
    }
}
pub proof fn lemma_lead(s: Seq<u8>, d: Seq<u8>, l: int)
    requires 1 <= l <= 8, hn(l) <= d.len(), hn(l) <= s.len() <= 8, lead(s, d, hn(l))
    ensures unbe(s) / (sh(l) * ipow(256, (s.len() - hn(l)) as nat)) == sv(d, l as nat)
{
    let h = hn(l);
    let e = (s.len() - h) as nat;
    lemma_unbe_zeros(s, h);
    assert(s.subrange(0, h) =~= d.subrange(0, h));
    let w = unbe(d.subrange(0, h));
    let c = ipow(256, e);
    lemma_pos(256, e);
    vstd::arithmetic::div_mod::lemma_div_denominator((w * c) as int, c as int, sh(l) as int);
    vstd::arithmetic::div_mod::lemma_div_by_multiple(w as int, c as int);
    assert(c * sh(l) == sh(l) * c) by (nonlinear_arith);
    lemma_svn(d, l);
}
pub proof fn lemma_p256()
    ensures ipow(256, 0) == 1, ipow(256, 1) == 256, ipow(256, 2) == 0x1_0000, ipow(256, 3) == 0x100_0000, ipow(256, 4) == 0x1_0000_0000, ipow(256, 5) == 0x100_0000_0000, ipow(256, 6) == 0x1_0000_0000_0000, ipow(256, 8) == 0x1_0000_0000_0000_0000, ipow(256, 16) == 0x1_0000_0000_0000_0000_0000_0000_0000_0000
{ assert(ipow(256, 0) == 1 && ipow(256, 1) == 256 && ipow(256, 2) == 0x1_0000 && ipow(256, 3) == 0x100_0000 && ipow(256, 4) == 0x1_0000_0000 && ipow(256, 5) == 0x100_0000_0000 && ipow(256, 6) == 0x1_0000_0000_0000 && ipow(256, 8) == 0x1_0000_0000_0000_0000 && ipow(256, 16) == 0x1_0000_0000_0000_0000_0000_0000_0000_0000) by (compute_only); }
pub proof fn lemma_b2_4(d: Seq<u8>, l: nat)
    requires 1 <= l <= 4, (l + 1) * 3 / 4 <= d.len()
    ensures forall|s: Seq<u8>| s.len() == 4 && lead(s, d, (l + 1) as int * 3 / 4) ==>
        #[trigger] unbe(s) / (if l == 1 { 0x400_0000nat } else if l == 2 { 0x10_0000nat } else if l == 3 { 0x4000nat } else { 0x100nat }) == sv(d, l)
{
    assert forall|s: Seq<u8>| s.len() == 4 && lead(s, d, (l + 1) as int * 3 / 4) implies
        #[trigger] unbe(s) / (if l == 1 { 0x400_0000nat } else if l == 2 { 0x10_0000nat } else if l == 3 { 0x4000nat } else { 0x100nat }) == sv(d, l) by {
        lemma_lead(s, d, l as int); lemma_p256();
        if l == 1 { assert(sh(1) == 4 && ipow(256, 3) == 16777216); assert(sh(1) * ipow(256, 3) == 0x400_0000); } else if l == 2 { assert(sh(2) == 16 && ipow(256, 2) == 65536); assert(sh(2) * ipow(256, 2) == 0x10_0000); } else if l == 3 { assert(sh(3) == 64 && ipow(256, 1) == 256); assert(sh(3) * ipow(256, 1) == 0x4000); } else { assert(l == 4 && sh(4) == 1 && s.len() - hn(4) == 1); assert(sh(4) == 1 && ipow(256, 1) == 256); assert(sh(4) * ipow(256, 1) == 0x100); }
    }
}
pub proof fn lemma_b2_8(d: Seq<u8>, l: nat)
    requires 5 <= l <= 8, (l + 1) * 3 / 4 <= d.len()
    ensures forall|s: Seq<u8>| s.len() == 8 && lead(s, d, (l + 1) as int * 3 / 4) ==>
        #[trigger] unbe(s) / (if l == 5 { 0x4_0000_0000nat } else if l == 6 { 0x1000_0000nat } else if l == 7 { 0x40_0000nat } else { 0x1_0000nat }) == sv(d, l)
{
    assert forall|s: Seq<u8>| s.len() == 8 && lead(s, d, (l + 1) as int * 3 / 4) implies
        #[trigger] unbe(s) / (if l == 5 { 0x4_0000_0000nat } else if l == 6 { 0x1000_0000nat } else if l == 7 { 0x40_0000nat } else { 0x1_0000nat }) == sv(d, l) by {
        lemma_lead(s, d, l as int); lemma_p256();
        if l == 5 { assert(sh(5) == 4 && ipow(256, 4) == 4294967296); assert(sh(5) * ipow(256, 4) == 0x4_0000_0000); } else if l == 6 { assert(sh(6) == 16 && ipow(256, 3) == 16777216); assert(sh(6) * ipow(256, 3) == 0x1000_0000); } else if l == 7 { assert(sh(7) == 64 && ipow(256, 2) == 65536); assert(sh(7) * ipow(256, 2) == 0x40_0000); } else { assert(sh(8) == 1 && ipow(256, 2) == 65536); assert(sh(8) * ipow(256, 2) == 0x1_0000); }
    }
}

//@fn core::util::code_b2_to_b64 as code_b2_to_b64
//@params b2 length
    requires length <= 0x1000_0000
    ensures length <= 8 && ((length + 1) * 3) / 4 <= b2@.len() ==> r is Ok,
        r is Ok ==> r->Ok_0@ == sxs(b2@, length as nat) && b64s(r->Ok_0@) && length <= 8 && ((length + 1) * 3) / 4 <= b2@.len(),
        r is Ok ==> ascii(r->Ok_0@),
//@start
    proof {
        axiom_mem(b2);
        assert(forall|x: u32, t: usize| #![trigger (x >> t)] (t == 26 ==> (x >> t) == x / 0x400_0000) && (t == 20 ==> (x >> t) == x / 0x10_0000) && (t == 14 ==> (x >> t) == x / 0x4000) && (t == 8 ==> (x >> t) == x / 0x100)) by (bit_vector);
        assert(forall|x: u64, t: usize| #![trigger (x >> t)] (t == 34 ==> (x >> t) == x / 0x4_0000_0000) && (t == 28 ==> (x >> t) == x / 0x1000_0000) && (t == 22 ==> (x >> t) == x / 0x40_0000) && (t == 16 ==> (x >> t) == x / 0x1_0000)) by (bit_vector);
        assert(sxs(b2@, 0) =~= Seq::<u8>::empty());
        if 1 <= length <= 8 && (length + 1) * 3 / 4 <= b2@.len() {
            lemma_sxs(b2@, length as nat);
            if length <= 4 { lemma_b2_4(b2@, length as nat); } else { lemma_b2_8(b2@, length as nat); }
        }
    }
//@end

pub proof fn lemma_dm(n: int, q: int, r: int, d: int) requires d > 0, n == q * d + r, 0 <= r < d ensures n / d == q, n % d == r
{ vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(n, d, q, r); }
pub proof fn lemma_nabn(a: int, b: int, c: int)
    requires 0 <= a < 256, 0 <= b < 256, 0 <= c < 256
    ensures ({ let n = a * 0x1_0000 + b * 0x100 + c; n < 0x100_0000 && n / 0x4_0000 == a / 4 && (n / 0x1000) % 64 == (a % 4) * 16 + b / 16 && (n / 64) % 64 == (b % 16) * 4 + c / 64 && n % 64 == c % 64 })
{
    let n = a * 0x1_0000 + b * 0x100 + c;
    let (aq, ar, bq, br, cq, cr) = (a / 4, a % 4, b / 16, b % 16, c / 64, c % 64);
    assert(a == aq * 4 + ar && b == bq * 16 + br && c == cq * 64 + cr);
    assert(0 <= ar < 4 && 0 <= bq < 16 && 0 <= br < 16 && 0 <= cq < 4 && 0 <= cr < 64 && aq < 64 && aq >= 0);
    lemma_dm(n, aq, ar * 0x1_0000 + b * 0x100 + c, 0x4_0000);
    lemma_dm(n, aq * 64 + ar * 16 + bq, br * 256 + c, 0x1000);
    lemma_dm(aq * 64 + ar * 16 + bq, aq, ar * 16 + bq, 64);
    lemma_dm(n, (aq * 64 + ar * 16 + bq) * 64 + br * 4 + cq, cr, 64);
    lemma_dm((aq * 64 + ar * 16 + bq) * 64 + br * 4 + cq, aq * 64 + ar * 16 + bq, br * 4 + cq, 64);
}
pub proof fn lemma_sx4(d: Seq<u8>, i: int)
    requires i >= 0, i % 3 == 0
    ensures ({ let j = i / 3 * 4; sx(d, j) == at(d, i) / 4 && sx(d, j + 1) == (at(d, i) % 4) * 16 + at(d, i + 1) / 16
        && sx(d, j + 2) == (at(d, i + 1) % 16) * 4 + at(d, i + 2) / 64 && sx(d, j + 3) == at(d, i + 2) % 64 }),
{}
pub open spec fn sxu(d: Seq<u8>, n: nat) -> Seq<u8> { Seq::new(n, |i: int| sx(d, i) as u8) }

//@fn core::util::nab_sextets as nab_sextets
//@params binary count
    requires count <= 0x1000_0000_0000_0000
    ensures r is Ok <==> ((count + 1) * 3) / 4 <= binary@.len(),
        r is Ok ==> r->Ok_0@ == sxu(binary@, count as nat),
//@attr verifier::rlimit(60)
//@start
    hide(sx);
    proof {
        axiom_mem(binary);
        assert(forall|n: u32| n < 0x100_0000 ==> (#[trigger] (n & 0xfc0000)) >> 18 == n / 0x4_0000) by (bit_vector);
        assert(forall|n: u32| n < 0x100_0000 ==> (#[trigger] (n & 0x03f000)) >> 12 == (n / 0x1000) % 64) by (bit_vector);
        assert(forall|n: u32| n < 0x100_0000 ==> (#[trigger] (n & 0x000fc0)) >> 6 == (n / 64) % 64) by (bit_vector);
        assert(forall|n: u32| #[trigger] (n & 0x00003f) == n % 64) by (bit_vector);
        assert(forall|n: u32| n < 0x100_0000 ==> (#[trigger] (n >> 18)) & 0x3f == n / 0x4_0000) by (bit_vector);
        assert(forall|n: u32| n < 0x100_0000 ==> (#[trigger] (n >> 12)) & 0x3f == (n / 0x1000) % 64) by (bit_vector);
        assert(forall|n: u32| n < 0x100_0000 ==> (#[trigger] (n >> 6)) & 0x3f == (n / 64) % 64) by (bit_vector);
        assert(forall|a: u32| a < 256 ==> #[trigger] (a << 16) == a * 0x1_0000) by (bit_vector);
        assert(forall|a: u32| a < 256 ==> #[trigger] (a << 8) == a * 0x100) by (bit_vector);
        assert(forall|a: u8| #[trigger] (a >> 2) == a / 4) by (bit_vector);
        assert(forall|a: u8, b: u8| #[trigger] (((a & 3) << 4) | (b >> 4)) == (a % 4) * 16 + b / 16) by (bit_vector);
        assert(forall|a: u8, b: u8| #[trigger] (((a & 15) << 2) | (b >> 6)) == (a % 16) * 4 + b / 64) by (bit_vector);
        assert(forall|a: u8| #[trigger] (a & 63) == a % 64) by (bit_vector);
    }
//@loop 0
    invariant i + 3 <= padded@.len(), padded@.len() % 3 == 0, i % 3 == 0, j == i / 3 * 4, out@.len() == padded@.len() / 3 * 4,
    padded@.len() > binary@.len(), padded@.len() <= 0x1000_0000_0000_0010,
    forall|k: int| 0 <= k < padded@.len() ==> #[trigger] padded@[k] == at(binary@, k),
    forall|k: int| 0 <= k < j ==> #[trigger] out@[k] == sxu(binary@, out@.len())[k],
    decreases padded@.len() - i
//@loopstart 0
    proof {
        assert(padded@[i as int] == at(binary@, i as int) && padded@[i + 1] == at(binary@, i + 1) && padded@[i + 2] == at(binary@, i + 2));
        lemma_sx4(binary@, i as int);
        lemma_nabn(at(binary@, i as int), at(binary@, i + 1), at(binary@, i + 2));
    }
//@tail
    proof { assert(out@.subrange(0, count as int) =~= sxu(binary@, count as nat)); }
//@end
// ------------------------------------------------------------------ constructor arguments
/// text given as bytes is ASCII (anything else may be refused because of what follows the primitive)
pub open spec fn mutf(w: Option<Seq<u8>>, b: Option<Seq<u8>>) -> bool { w is Some || b is None || ascii(b->0) }
pub open spec fn os(x: Option<&XString>) -> Option<Seq<u8>> { match x { Some(s) => Some(s@), None => None } }
pub open spec fn ob(x: Option<&[u8]>) -> Option<Seq<u8>> { match x { Some(s) => Some(s@), None => None } }
pub open spec fn dflt(x: Option<Seq<u8>>, d: Seq<u8>) -> Seq<u8> { match x { Some(s) => s, None => d } }
