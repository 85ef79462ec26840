pub mod m_$M { use super::*; use vstd::prelude::*; use super::super::prelude::*;
    #[verifier::external_body] pub struct $T { k: u8 }
    impl View for $T { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
    impl $T {
        #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Seq::<u8>::empty() { unimplemented!() }
        #[verifier::external_body] pub fn update(&mut self, s: &[u8]) ensures final(self)@ == old(self)@ + s@ { unimplemented!() }
        #[verifier::external_body] pub fn finalize(&self) -> (r: Vec<u8>) ensures r@ == hashf($A, $N, self@) { unimplemented!() }
    }
}
