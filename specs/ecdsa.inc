pub mod $C { pub mod ecdsa { use super::super::*;use vstd::prelude::*; use super::super::super::prelude::*;
    #[verifier::external_body] pub struct SigningKey { k: u8 }
    #[verifier::external_body] pub struct VerifyingKey { k: u8 }
    #[verifier::external_body] pub struct Signature { k: u8 }
    impl View for SigningKey { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
    impl View for VerifyingKey { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
    impl View for Signature { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
    impl SigningKey {
        #[verifier::external_body] pub fn random(rng: &mut rand_core::OsRng) -> (r: SigningKey) ensures seed_ok($A, r@), osr(r@) { unimplemented!() }
        #[verifier::external_body] pub fn from_slice(b: &[u8]) -> (r: Result<SigningKey>) ensures b@.len() == 32 ==> (r is Ok <==> seed_ok($A, b@)), b@.len() == 32 && r is Ok ==> r->Ok_0@ == b@ { unimplemented!() }
        #[verifier::external_body] pub fn to_bytes(&self) -> (r: Vec<u8>) ensures r@ == self@ { unimplemented!() }
        #[verifier::external_body] pub fn sign_with_rng(&self, rng: &mut rand_core::OsRng, m: &[u8]) -> (r: Signature) ensures issig($A, self@, m@, r@) { unimplemented!() }
    }
    #[verifier::external_body] pub struct EncodedPoint { k: u8 }
    impl View for EncodedPoint { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
    impl EncodedPoint { #[verifier::external_body] pub fn xas_bytes(&self) -> (r: Vec<u8>) ensures r@ == self@ { unimplemented!() } }
    impl VerifyingKey {
        #[verifier::external_body] pub fn from(k: SigningKey) -> (r: VerifyingKey) ensures r@ == pubk($A, k@) { unimplemented!() }
        #[verifier::external_body] pub fn to_encoded_point(&self, compress: bool) -> (r: EncodedPoint) ensures compress ==> r@ == self@ { unimplemented!() }
        #[verifier::external_body] pub fn from_sec1_bytes(b: &[u8]) -> (r: Result<VerifyingKey>) ensures pk_ok($A, b@) ==> r is Ok, r is Ok ==> r->Ok_0@ == b@ { unimplemented!() }
        #[verifier::external_body] pub fn verify(&self, m: &[u8], s: &Signature) -> (r: Result<()>) ensures r is Ok <==> ver($A, self@, s@, m@) { unimplemented!() }
    }
    impl Signature {
        #[verifier::external_body] pub fn xto_vec(&self) -> (r: Vec<u8>) ensures r@ == self@ { unimplemented!() }
        #[verifier::external_body] pub fn try_from(b: &[u8]) -> (r: Result<Signature>) ensures sg_ok($A, b@) ==> r is Ok, r is Ok ==> r->Ok_0@ == b@ { unimplemented!() }
    }
} }
