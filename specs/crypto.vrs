// ------------------------------------------------------------------ cryptographic crates: trusted, uninterpreted
// Algorithms are named by number; nothing is assumed about their outputs but their sizes and that
// the public key of a seed verifies the signatures made with it.
/// output of a hash algorithm (1 blake3, 2 blake2b, 3 blake2s, 4 sha3, 5 sha2) at an output size
pub uninterp spec fn hashf(alg: int, n: nat, ser: Seq<u8>) -> Seq<u8>;
pub broadcast axiom fn axiom_hash_len(alg: int, n: nat, ser: Seq<u8>) ensures (#[trigger] hashf(alg, n, ser)).len() == n;
/// signature algorithms: 1 ed25519, 2 secp256k1, 3 secp256r1
pub uninterp spec fn seed_ok(a: int, k: Seq<u8>) -> bool;
pub uninterp spec fn pubk(a: int, k: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn pk_ok(a: int, p: Seq<u8>) -> bool;
pub uninterp spec fn sg_ok(a: int, s: Seq<u8>) -> bool;
/// s is a signature made with the seed k over m
pub uninterp spec fn issig(a: int, k: Seq<u8>, m: Seq<u8>, s: Seq<u8>) -> bool;
pub uninterp spec fn ver(a: int, p: Seq<u8>, s: Seq<u8>, m: Seq<u8>) -> bool;
pub broadcast axiom fn axiom_pub(a: int, k: Seq<u8>)
    requires seed_ok(a, k)
    ensures (#[trigger] pubk(a, k)).len() == (if a == 1 { 32nat } else { 33nat }), pk_ok(a, pubk(a, k));
pub broadcast axiom fn axiom_sig(a: int, k: Seq<u8>, m: Seq<u8>, s: Seq<u8>)
    requires seed_ok(a, k), #[trigger] issig(a, k, m, s)
    ensures s.len() == 64, sg_ok(a, s), ver(a, pubk(a, k), s, m);
/// private keys of all three algorithms have 32 bytes
pub broadcast axiom fn axiom_seed_len(a: int, k: Seq<u8>) requires #[trigger] seed_ok(a, k), 1 <= a <= 3 ensures k.len() == 32;
pub axiom fn axiom_ed(k: Seq<u8>) ensures seed_ok(1, k) <==> k.len() == 32;
pub axiom fn axiom_ed_len(p: Seq<u8>, s: Seq<u8>) ensures pk_ok(1, p) ==> p.len() == 32, sg_ok(1, s) ==> s.len() == 64;
/// s was, as a whole, handed out by the operating system's random source: no axiom gives it, only the source does
pub uninterp spec fn osr(s: Seq<u8>) -> bool;
pub uninterp spec fn argon(alg: int, version: int, m: u32, t: u32, p: u32, n: nat, pwd: Seq<u8>, salt: Seq<u8>) -> Seq<u8>;
pub broadcast axiom fn axiom_argon_len(alg: int, version: int, m: u32, t: u32, p: u32, n: nat, pwd: Seq<u8>, salt: Seq<u8>) ensures (#[trigger] argon(alg, version, m, t, p, n, pwd, salt)).len() == n;

#[verifier::external_body] pub struct Arr32 { a: [u8; 32] }
#[verifier::external_body] pub struct Arr64 { a: [u8; 64] }
impl View for Arr32 { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl View for Arr64 { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
/// <&[u8]>::try_into for arrays
pub trait XTryInto<T> { spec fn fits(&self) -> bool; spec fn val(&self, t: T) -> bool; fn xtry_into(&self) -> (r: Result<T>) ensures r is Ok <==> self.fits(), r is Ok ==> self.val(r->Ok_0); }
impl XTryInto<Arr32> for [u8] {
    open spec fn fits(&self) -> bool { self@.len() == 32 }
    open spec fn val(&self, t: Arr32) -> bool { t@ == self@ }
    #[verifier::external_body] fn xtry_into(&self) -> (r: Result<Arr32>) { unimplemented!() }
}
impl<'a> XTryInto<&'a Arr32> for [u8] {
    open spec fn fits(&self) -> bool { self@.len() == 32 }
    open spec fn val(&self, t: &'a Arr32) -> bool { t@ == self@ }
    #[verifier::external_body] fn xtry_into(&self) -> (r: Result<&'a Arr32>) { unimplemented!() }
}
impl<'a> XTryInto<&'a Arr64> for [u8] {
    open spec fn fits(&self) -> bool { self@.len() == 64 }
    open spec fn val(&self, t: &'a Arr64) -> bool { t@ == self@ }
    #[verifier::external_body] fn xtry_into(&self) -> (r: Result<&'a Arr64>) { unimplemented!() }
}
pub mod rand_core { use super::*; use vstd::prelude::*; pub struct OsRng;
    impl OsRng { #[verifier::external_body] pub fn fill_bytes(&self, b: &mut Vec<u8>) ensures final(b)@.len() == old(b)@.len(), osr(final(b)@) { unimplemented!() } }
}
pub mod ed25519_dalek { use super::*; use vstd::prelude::*; use super::super::prelude::*;
    #[verifier::external_body] pub struct SigningKey { k: u8 }
    #[verifier::external_body] pub struct VerifyingKey { k: u8 }
    #[verifier::external_body] pub struct Signature { k: u8 }
    impl View for SigningKey { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
    impl View for VerifyingKey { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
    impl View for Signature { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
    impl SigningKey {
        #[verifier::external_body] pub fn generate(rng: &mut rand_core::OsRng) -> (r: SigningKey) ensures seed_ok(1, r@), osr(r@) { unimplemented!() }
        #[verifier::external_body] pub fn from_bytes(b: &Arr32) -> (r: SigningKey) ensures r@ == b@, seed_ok(1, r@) { unimplemented!() }
        #[verifier::external_body] pub fn verifying_key(&self) -> (r: VerifyingKey) ensures r@ == pubk(1, self@) { unimplemented!() }
        #[verifier::external_body] pub fn xinto(&self) -> (r: VerifyingKey) ensures r@ == pubk(1, self@) { unimplemented!() }
        #[verifier::external_body] pub fn to_bytes(&self) -> (r: Vec<u8>) ensures r@ == self@ { unimplemented!() }
        #[verifier::external_body] pub fn sign(&self, m: &[u8]) -> (r: Signature) ensures issig(1, self@, m@, r@) { unimplemented!() }
    }
    impl VerifyingKey {
        #[verifier::external_body] pub fn is_weak(&self) -> bool { unimplemented!() }
        #[verifier::external_body] pub fn xas_bytes(&self) -> (r: Vec<u8>) ensures r@ == self@ { unimplemented!() }
        #[verifier::external_body] pub fn from_bytes(b: &Arr32) -> (r: Result<VerifyingKey>) ensures pk_ok(1, b@) ==> r is Ok, r is Ok ==> r->Ok_0@ == b@ { unimplemented!() }
        #[verifier::external_body] pub fn verify(&self, m: &[u8], s: &Signature) -> (r: Result<()>) ensures r is Ok <==> ver(1, self@, s@, m@) { unimplemented!() }
    }
    impl Signature {
        #[verifier::external_body] pub fn to_bytes(&self) -> (r: Vec<u8>) ensures r@ == self@ { unimplemented!() }
        #[verifier::external_body] pub fn from_bytes(b: &Arr64) -> (r: Signature) ensures r@ == b@ { unimplemented!() }
    }
}
//@include ecdsa.inc C=k256 A=2
//@include ecdsa.inc C=p256 A=3
pub mod blake3 { use super::*; use vstd::prelude::*; use super::super::prelude::*;
    #[verifier::external_body] pub struct Hash { k: u8 }
    impl View for Hash { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
    impl Hash { #[verifier::external_body] pub fn xas_bytes(&self) -> (r: Vec<u8>) ensures r@ == self@ { unimplemented!() } }
    #[verifier::external_body] pub fn hash(s: &[u8]) -> (r: Hash) ensures r@ == hashf(1, 32, s@) { unimplemented!() }
    #[verifier::external_body] pub struct Hasher { k: u8 }
    impl View for Hasher { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
    #[verifier::external_body] pub struct OutputReader { k: u8 }
    impl View for OutputReader { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
    impl Hasher {
        #[verifier::external_body] pub fn new() -> (r: Hasher) ensures r@ == Seq::<u8>::empty() { unimplemented!() }
        #[verifier::external_body] pub fn update(&mut self, s: &[u8]) ensures final(self)@ == old(self)@ + s@ { unimplemented!() }
        #[verifier::external_body] pub fn finalize(&self) -> (r: Hash) ensures r@ == hashf(1, 32, self@) { unimplemented!() }
        #[verifier::external_body] pub fn finalize_xof(&self) -> (r: OutputReader) ensures r@ == self@ { unimplemented!() }
    }
    impl OutputReader {
        #[verifier::external_body] pub fn fill(&mut self, b: &mut Vec<u8>) ensures final(b)@ == hashf(1, old(b)@.len(), old(self)@) { unimplemented!() }
    }
}
//@include hasher.inc M=blake2 T=Blake2b512 A=2 N=64
//@include hasher.inc M=blake2s T=Blake2s256 A=3 N=32
//@include hasher.inc M=sha3a T=Sha3_256 A=4 N=32
//@include hasher.inc M=sha3b T=Sha3_512 A=4 N=64
//@include hasher.inc M=sha2a T=Sha256 A=5 N=32
//@include hasher.inc M=sha2b T=Sha512 A=5 N=64
pub mod blake2 { use super::*; use vstd::prelude::*; use super::super::prelude::*; pub use super::m_blake2::*; pub use super::m_blake2s::*;
    pub mod digest { pub mod consts { use vstd::prelude::*;
        pub struct U16; pub struct U20; pub struct U32; pub struct U64;
        pub trait XLen { spec fn n() -> nat; }
        impl XLen for U16 { open spec fn n() -> nat { 16 } }
        impl XLen for U20 { open spec fn n() -> nat { 20 } }
        impl XLen for U32 { open spec fn n() -> nat { 32 } }
        impl XLen for U64 { open spec fn n() -> nat { 64 } }
    } }
    #[verifier::external_body] #[verifier::accept_recursive_types(N)] pub struct Blake2b<N> { k: core::marker::PhantomData<N> }
    impl<N: digest::consts::XLen> View for Blake2b<N> { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
    impl<N: digest::consts::XLen> Blake2b<N> {
        #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Seq::<u8>::empty() { unimplemented!() }
        #[verifier::external_body] pub fn update(&mut self, s: &[u8]) ensures final(self)@ == old(self)@ + s@ { unimplemented!() }
        #[verifier::external_body] pub fn finalize(&self) -> (r: Vec<u8>) ensures r@ == hashf(2, N::n(), self@) { unimplemented!() }
    }
    #[verifier::external_body] #[verifier::accept_recursive_types(N)] pub struct Blake2s<N> { k: core::marker::PhantomData<N> }
    impl<N: digest::consts::XLen> View for Blake2s<N> { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
    impl<N: digest::consts::XLen> Blake2s<N> {
        #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Seq::<u8>::empty() { unimplemented!() }
        #[verifier::external_body] pub fn update(&mut self, s: &[u8]) ensures final(self)@ == old(self)@ + s@ { unimplemented!() }
        #[verifier::external_body] pub fn finalize(&self) -> (r: Vec<u8>) ensures r@ == hashf(3, N::n(), self@) { unimplemented!() }
    }
}
pub mod sha3 { pub use super::m_sha3a::*; pub use super::m_sha3b::*; }
pub mod sha2 { pub use super::m_sha2a::*; pub use super::m_sha2b::*; }
pub mod argon2 { use super::*; use vstd::prelude::*; use super::super::prelude::*;
    pub enum Algorithm { Argon2d, Argon2i, Argon2id }
    pub enum Version { V0x10, V0x13 }
    pub open spec fn alg(a: Algorithm) -> int { match a { Algorithm::Argon2d => 0, Algorithm::Argon2i => 1, Algorithm::Argon2id => 2 } }
    pub open spec fn vrs(a: Version) -> int { match a { Version::V0x10 => 16, Version::V0x13 => 19 } }
    pub struct Params { pub m: u32, pub t: u32, pub p: u32, pub n: Option<usize> }
    impl Params {
        #[verifier::external_body] pub fn new(m: u32, t: u32, p: u32, n: Option<usize>) -> (r: Result<Params>)
            ensures r is Ok ==> r->Ok_0 == (Params { m: m, t: t, p: p, n: n }),
                8 <= m < 0x1000_0000 && 1 <= t && p == 1 && n is Some && 4 <= n->0 <= u32::MAX ==> r is Ok
        { unimplemented!() }
    }
    pub struct Argon2 { pub a: Algorithm, pub v: Version, pub p: Params }
    impl Argon2 {
        pub fn new(a: Algorithm, v: Version, p: Params) -> (r: Argon2) ensures r == (Argon2 { a: a, v: v, p: p }) { Argon2 { a: a, v: v, p: p } }
        #[verifier::external_body] pub fn hash_password_into(&self, pwd: &[u8], salt: &[u8], out: &mut Vec<u8>) -> (r: Result<()>)
            ensures r is Ok ==> final(out)@ == argon(alg(self.a), vrs(self.v), self.p.m, self.p.t, self.p.p, old(out)@.len(), pwd@, salt@) && final(out)@.len() == old(out)@.len(),
                salt@.len() >= 8 && salt@.len() <= u32::MAX && pwd@.len() <= u32::MAX && self.p.n is Some && self.p.n->0 == old(out)@.len() && old(out)@.len() >= 4 ==> r is Ok
        { unimplemented!() }
    }
}

// ------------------------------------------------------------------ digests
/// algorithm and output size a digest code names
pub open spec fn dalg(c: Seq<u8>) -> (int, nat) {
    let k = cid(c);
    if k == K"E" { (1, 32) } else if k == K"F" { (2, 32) } else if k == K"G" { (3, 32) } else if k == K"H" { (4, 32) } else if k == K"I" { (5, 32) }
    else if k == K"0D" { (1, 64) } else if k == K"0E" { (2, 64) } else if k == K"0F" { (4, 64) } else if k == K"0G" { (5, 64) } else { (0, 0) }
}
pub open spec fn isdig(c: Seq<u8>) -> bool { dalg(c).0 != 0 }
pub open spec fn digestf(c: Seq<u8>, ser: Seq<u8>) -> Seq<u8> { hashf(dalg(c).0, dalg(c).1, ser) }
//@fn crypto::hash::digest as crypto_digest
//@params code ser
    ensures r is Ok <==> isdig(code@), r is Ok ==> r->Ok_0@ == digestf(code@, ser@)
//@start
    broadcast use axiom_hash_len, group_seq;
//@end

//@fn crypto::csprng::fill_bytes as crypto_fill_bytes
//@params bytes
    ensures final(bytes)@.len() == old(bytes)@.len(),
        osr(final(bytes)@) // @C27
//@end
// ------------------------------------------------------------------ key stretching
pub open spec fn tier_known(t: Seq<u8>) -> bool { cid(t) == K"min" || cid(t) == K"low" || cid(t) == K"med" || cid(t) == K"high" }
/// Argon2id, version 0x13, with the fixed cost of the tier
pub open spec fn stretchf(pwd: Seq<u8>, salt: Seq<u8>, n: nat, t: Seq<u8>) -> Seq<u8> {
    if cid(t) == K"min" { argon(2, 19, 8, 1, 1, n, pwd, salt) }
    else if cid(t) == K"low" { argon(2, 19, 65536, 2, 1, n, pwd, salt) }
    else if cid(t) == K"med" { argon(2, 19, 262144, 3, 1, n, pwd, salt) }
    else { argon(2, 19, 1048576, 4, 1, n, pwd, salt) }
}
//@fn crypto::salt::params as salt_params
//@params tier length
    ensures r is Ok ==> tier_known(tier@) && r->Ok_0.n == Some(length)
        && r->Ok_0.m == (if cid(tier@) == K"min" { 8u32 } else if cid(tier@) == K"low" { 65536u32 } else if cid(tier@) == K"med" { 262144u32 } else { 1048576u32 })
        && r->Ok_0.t == (if cid(tier@) == K"min" { 1u32 } else if cid(tier@) == K"low" { 2u32 } else if cid(tier@) == K"med" { 3u32 } else { 4u32 })
        && r->Ok_0.p == 1,
        tier_known(tier@) && 4 <= length <= u32::MAX ==> r is Ok
//@end
//@fn crypto::salt::stretch as crypto_stretch
//@params pwd salt length tier
    ensures r is Ok ==> tier_known(tier@) && r->Ok_0@ == stretchf(pwd@, salt@, length as nat, tier@),
        tier_known(tier@) && 4 <= length <= u32::MAX && 8 <= salt@.len() <= u32::MAX && pwd@.len() <= u32::MAX ==> r is Ok
//@start
    broadcast use group_seq;
//@end

// ------------------------------------------------------------------ signing
pub open spec fn salg(c: Seq<u8>) -> int {
    let k = cid(c);
    if k == K"A" || k == K"B" || k == K"D" || k == K"0B" { 1 }
    else if k == K"J" || k == K"1AAA" || k == K"1AAB" || k == K"0C" { 2 }
    else if k == K"Q" || k == K"1AAI" || k == K"1AAJ" || k == K"0I" { 3 }
    else { 0 }
}
//@fn crypto::sign::ed25519::generate as ed_generate
//@attr verifier::exec_allows_no_decreases_clause
    ensures r is Ok, seed_ok(1, r->Ok_0@),
        r is Ok ==> osr(r->Ok_0@) // @C27
//@loop 0
        invariant seed_ok(1, private_key@), osr(private_key@),
//@end
//@fn crypto::sign::ecdsa_256k1::generate as k1_generate
    ensures r is Ok, seed_ok(2, r->Ok_0@),
        r is Ok ==> osr(r->Ok_0@) // @C27
//@end
//@fn crypto::sign::ecdsa_256r1::generate as r1_generate
    ensures r is Ok, seed_ok(3, r->Ok_0@),
        r is Ok ==> osr(r->Ok_0@) // @C27
//@end
//@include sigalg.inc N=ed M=ed25519 A=1
//@include sigalg.inc N=k1 M=ecdsa_256k1 A=2
//@include sigalg.inc N=r1 M=ecdsa_256r1 A=3
//@fn crypto::sign::generate as crypto_generate
//@params code
    ensures r is Ok <==> salg(code@) > 0, r is Ok ==> seed_ok(salg(code@), r->Ok_0@),
        r is Ok ==> osr(r->Ok_0@) // @C27
//@end
//@fn crypto::sign::public_key as crypto_public_key
//@params code private_key
    requires private_key@.len() == 32
    ensures r is Ok ==> salg(code@) > 0 && seed_ok(salg(code@), private_key@) && r->Ok_0@ == pubk(salg(code@), private_key@),
        salg(code@) > 0 && seed_ok(salg(code@), private_key@) ==> r is Ok
//@end
//@fn crypto::sign::sign as crypto_sign
//@params code private_key ser
    requires private_key@.len() == 32
    ensures r is Ok ==> salg(code@) > 0 && seed_ok(salg(code@), private_key@) && issig(salg(code@), private_key@, ser@, r->Ok_0@),
        salg(code@) > 0 && seed_ok(salg(code@), private_key@) ==> r is Ok
//@end
//@fn crypto::sign::verify as crypto_verify
//@params code public_key sig ser
    ensures r is Ok ==> salg(code@) > 0 && r->Ok_0 == ver(salg(code@), public_key@, sig@, ser@),
        salg(code@) > 0 && pk_ok(salg(code@), public_key@) && sg_ok(salg(code@), sig@) ==> r is Ok
//@end
