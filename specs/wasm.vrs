// ------------------------------------------------------------------ 128-bit values at the WebAssembly boundary
//@struct wasm::util::U128Wrapper as U128Wrapper
/// the number two 64-bit words stand for
pub open spec fn words(w: U128Wrapper) -> nat { w.high as nat * 0x1_0000_0000_0000_0000 + w.low as nat }
pub proof fn lemma_words(v: u128, h: u64, l: u64)
    ensures ((v >> 64) as u64) as nat * 0x1_0000_0000_0000_0000 + (v as u64) as nat == v,
        (v >> 64) == v / 0x1_0000_0000_0000_0000, v & 0xffff_ffff_ffff_ffff == v % 0x1_0000_0000_0000_0000, (v as u64) == v % 0x1_0000_0000_0000_0000,
        (h as u128) << 64 == h as nat * 0x1_0000_0000_0000_0000,
        ((h as u128) << 64 | (l as u128)) == h as nat * 0x1_0000_0000_0000_0000 + l as nat,
        ((l as u128) | (h as u128) << 64) == h as nat * 0x1_0000_0000_0000_0000 + l as nat,
{
    assert((v >> 64) == v / 0x1_0000_0000_0000_0000) by (bit_vector);
    assert((v >> 64) <= 0xffff_ffff_ffff_ffff) by (bit_vector);
    assert(v & 0xffff_ffff_ffff_ffff == v % 0x1_0000_0000_0000_0000) by (bit_vector);
    assert((v as u64) as u128 == v % 0x1_0000_0000_0000_0000) by (bit_vector);
    let a = h as u128; let b = l as u128;
    assert(a << 64 == mul(a, 0x1_0000_0000_0000_0000)) by (bit_vector) requires a <= 0xffff_ffff_ffff_ffff;
    assert((a << 64 | b) == add(a << 64, b) && (b | a << 64) == add(a << 64, b)) by (bit_vector) requires a <= 0xffff_ffff_ffff_ffff, b <= 0xffff_ffff_ffff_ffff;
    assert(a * 0x1_0000_0000_0000_0000 <= 0xffff_ffff_ffff_ffff_0000_0000_0000_0000) by (nonlinear_arith) requires a <= 0xffff_ffff_ffff_ffff;
}
impl XFrom<u128> for U128Wrapper {
    open spec fn from_ok(t: u128, r: U128Wrapper) -> bool { words(r) == t }
//@fn wasm::util::U128Wrapper.From<u128>::from as xfrom
//@start
    proof { lemma_words(value, 0, 0); }
//@end
}
impl XFrom<U128Wrapper> for u128 {
    open spec fn from_ok(t: U128Wrapper, r: u128) -> bool { r == words(t) }
//@fn wasm::util::u128.From<U128Wrapper>::from as xfrom
//@start
    proof { lemma_words(0, val.high, val.low); }
//@end
}
/// C25
fn thm_c25(n: u128)
{
    let w = <U128Wrapper as XFrom<u128>>::xfrom(n);
    let m = <u128 as XFrom<U128Wrapper>>::xfrom(w);
    assert(m == n);
}
