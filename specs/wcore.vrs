//@imports wasm
// ------------------------------------------------------------------ the core library as the WebAssembly wrappers see it
// Every core function used by a wrapper is known here by its graph: r_<type>_<function>(arguments, result) is an
// uninterpreted relation, its signature (names, order and types of the parameters) is read from the source.
// This unit is only ever imported: it says what each core function is called, not what it computes.
/// the value an argument or a result stands for
pub trait Av { type A; spec fn av(&self) -> Self::A; }
impl Av for XString { type A = Seq<u8>; open spec fn av(&self) -> Seq<u8> { self@ } }
impl<'a, T: Av + ?Sized> Av for &'a T { type A = T::A; open spec fn av(&self) -> T::A { (**self).av() } }
impl Av for [u8] { type A = Seq<u8>; open spec fn av(&self) -> Seq<u8> { self@ } }
impl Av for Vec<u8> { type A = Seq<u8>; open spec fn av(&self) -> Seq<u8> { self@ } }
impl Av for [u32] { type A = Seq<u32>; open spec fn av(&self) -> Seq<u32> { self@ } }
impl<'a> Av for [&'a XString] { type A = Seq<Seq<u8>>; open spec fn av(&self) -> Seq<Seq<u8>> { Seq::new(self@.len(), |i: int| self@[i]@) } }
impl<'a> Av for Vec<&'a XString> { type A = Seq<Seq<u8>>; open spec fn av(&self) -> Seq<Seq<u8>> { Seq::new(self@.len(), |i: int| self@[i]@) } }
impl Av for Vec<XString> { type A = Seq<Seq<u8>>; open spec fn av(&self) -> Seq<Seq<u8>> { Seq::new(self@.len(), |i: int| self@[i]@) } }
impl<T: Av> Av for Option<T> { type A = Option<T::A>; open spec fn av(&self) -> Option<T::A> { match self { Some(x) => Some(x.av()), None => None } } }
impl<T: Av> Av for Result<T> { type A = Option<T::A>; open spec fn av(&self) -> Option<T::A> { match self { Ok(x) => Some(x.av()), Err(_) => None } } }
impl<T: Av, U: Av> Av for (T, U) { type A = (T::A, U::A); open spec fn av(&self) -> (T::A, U::A) { (self.0.av(), self.1.av()) } }
impl Av for bool { type A = bool; open spec fn av(&self) -> bool { *self } }
impl Av for u32 { type A = u32; open spec fn av(&self) -> u32 { *self } }
impl Av for usize { type A = usize; open spec fn av(&self) -> usize { *self } }
impl Av for u128 { type A = u128; open spec fn av(&self) -> u128 { *self } }
impl Av for U128Wrapper { type A = u128; open spec fn av(&self) -> u128 { words(*self) as u128 } }
pub trait XDeref { type Target; spec fn inner(&self) -> Self::Target; fn deref(&self) -> (r: &Self::Target) ensures *r == self.inner(); }
pub trait Wrap<T> { type Wrapper; spec fn wrapped(t: &T, r: Self::Wrapper) -> bool; fn wrap(t: &T) -> (r: Self::Wrapper) ensures Self::wrapped(t, r); }
pub trait XAsDeref { type T: ?Sized; fn xas_deref(&self) -> Option<&Self::T>; }

//@opaque data::Value as Value
impl Av for Value { type A = Value; open spec fn av(&self) -> Value { *self } }

//@struct core::common::Version as Version
impl Av for Version { type A = Version; open spec fn av(&self) -> Version { *self } }

//@opaque core::verfer::Verfer as Verfer
impl Av for Verfer { type A = Verfer; open spec fn av(&self) -> Verfer { *self } }
impl Av for Vec<Verfer> { type A = Seq<Verfer>; open spec fn av(&self) -> Seq<Verfer> { self@ } }

//@opaque core::diger::Diger as Diger
impl Av for Diger { type A = Diger; open spec fn av(&self) -> Diger { *self } }
impl Av for Vec<Diger> { type A = Seq<Diger>; open spec fn av(&self) -> Seq<Diger> { self@ } }

//@opaque core::cigar::Cigar as Cigar
impl Av for Cigar { type A = Cigar; open spec fn av(&self) -> Cigar { *self } }
impl Av for Vec<Cigar> { type A = Seq<Cigar>; open spec fn av(&self) -> Seq<Cigar> { self@ } }

//@opaque core::siger::Siger as Siger
impl Av for Siger { type A = Siger; open spec fn av(&self) -> Siger { *self } }
impl Av for Vec<Siger> { type A = Seq<Siger>; open spec fn av(&self) -> Seq<Siger> { self@ } }

//@opaque core::signer::Signer as Signer
impl Av for Signer { type A = Signer; open spec fn av(&self) -> Signer { *self } }
impl Av for Vec<Signer> { type A = Seq<Signer>; open spec fn av(&self) -> Seq<Signer> { self@ } }

//@opaque core::salter::Salter as Salter
impl Av for Salter { type A = Salter; open spec fn av(&self) -> Salter { *self } }
impl Av for Vec<Salter> { type A = Seq<Salter>; open spec fn av(&self) -> Seq<Salter> { self@ } }

//@opaque core::seqner::Seqner as Seqner
impl Av for Seqner { type A = Seqner; open spec fn av(&self) -> Seqner { *self } }
impl Av for Vec<Seqner> { type A = Seq<Seqner>; open spec fn av(&self) -> Seq<Seqner> { self@ } }

//@opaque core::number::Number as Number
impl Av for Number { type A = Number; open spec fn av(&self) -> Number { *self } }
impl Av for Vec<Number> { type A = Seq<Number>; open spec fn av(&self) -> Seq<Number> { self@ } }

//@opaque core::dater::Dater as Dater
impl Av for Dater { type A = Dater; open spec fn av(&self) -> Dater { *self } }
impl Av for Vec<Dater> { type A = Seq<Dater>; open spec fn av(&self) -> Seq<Dater> { self@ } }

//@opaque core::bexter::Bexter as Bexter
impl Av for Bexter { type A = Bexter; open spec fn av(&self) -> Bexter { *self } }
impl Av for Vec<Bexter> { type A = Seq<Bexter>; open spec fn av(&self) -> Seq<Bexter> { self@ } }

//@opaque core::prefixer::Prefixer as Prefixer
impl Av for Prefixer { type A = Prefixer; open spec fn av(&self) -> Prefixer { *self } }
impl Av for Vec<Prefixer> { type A = Seq<Prefixer>; open spec fn av(&self) -> Seq<Prefixer> { self@ } }

//@opaque core::saider::Saider as Saider
impl Av for Saider { type A = Saider; open spec fn av(&self) -> Saider { *self } }
impl Av for Vec<Saider> { type A = Seq<Saider>; open spec fn av(&self) -> Seq<Saider> { self@ } }

//@opaque core::tholder::Tholder as Tholder
impl Av for Tholder { type A = Tholder; open spec fn av(&self) -> Tholder { *self } }
impl Av for Vec<Tholder> { type A = Seq<Tholder>; open spec fn av(&self) -> Seq<Tholder> { self@ } }

//@opaque core::serder::Serder as Serder
impl Av for Serder { type A = Serder; open spec fn av(&self) -> Serder { *self } }
impl Av for Vec<Serder> { type A = Seq<Serder>; open spec fn av(&self) -> Seq<Serder> { self@ } }

pub uninterp spec fn r_verfer_new(a0: Option<Seq<u8>>, a1: Option<Seq<u8>>, a2: Option<Seq<u8>>, a3: Option<Seq<u8>>, a4: Option<Seq<u8>>, r: Option<Verfer>) -> bool;
pub uninterp spec fn r_verfer_new_with_raw(a0: Seq<u8>, a1: Option<Seq<u8>>, r: Option<Verfer>) -> bool;
pub uninterp spec fn r_verfer_new_with_qb64b(a0: Seq<u8>, r: Option<Verfer>) -> bool;
pub uninterp spec fn r_verfer_new_with_qb64(a0: Seq<u8>, r: Option<Verfer>) -> bool;
pub uninterp spec fn r_verfer_new_with_qb2(a0: Seq<u8>, r: Option<Verfer>) -> bool;
pub uninterp spec fn r_verfer_verify(a0: Verfer, a1: Seq<u8>, a2: Seq<u8>, r: Option<bool>) -> bool;
pub uninterp spec fn r_verfer_code(a0: Verfer, r: Seq<u8>) -> bool;
pub uninterp spec fn r_verfer_size(a0: Verfer, r: u32) -> bool;
pub uninterp spec fn r_verfer_raw(a0: Verfer, r: Seq<u8>) -> bool;
pub uninterp spec fn r_verfer_qb64(a0: Verfer, r: Option<Seq<u8>>) -> bool;
pub uninterp spec fn r_verfer_qb64b(a0: Verfer, r: Option<Seq<u8>>) -> bool;
pub uninterp spec fn r_verfer_qb2(a0: Verfer, r: Option<Seq<u8>>) -> bool;
impl Verfer {
//@fn core::verfer::Verfer::new as new
//@params code raw qb64b qb64 qb2
    ensures r_verfer_new(code.av(), raw.av(), qb64b.av(), qb64.av(), qb2.av(), r.av())
//@end
//@fn core::verfer::Verfer::new_with_raw as new_with_raw
//@params raw code
    ensures r_verfer_new_with_raw(raw.av(), code.av(), r.av())
//@end
//@fn core::verfer::Verfer::new_with_qb64b as new_with_qb64b
//@params qb64b
    ensures r_verfer_new_with_qb64b(qb64b.av(), r.av())
//@end
//@fn core::verfer::Verfer::new_with_qb64 as new_with_qb64
//@params qb64
    ensures r_verfer_new_with_qb64(qb64.av(), r.av())
//@end
//@fn core::verfer::Verfer::new_with_qb2 as new_with_qb2
//@params qb2
    ensures r_verfer_new_with_qb2(qb2.av(), r.av())
//@end
//@fn core::verfer::Verfer::verify as verify
//@params sig ser
    ensures r_verfer_verify(self.av(), sig.av(), ser.av(), r.av())
//@end
    #[verifier::external_body] pub fn code(&self) -> (r: XString) ensures r_verfer_code(self.av(), r.av()) { unimplemented!() }
    #[verifier::external_body] pub fn size(&self) -> (r: u32) ensures r_verfer_size(self.av(), r.av()) { unimplemented!() }
    #[verifier::external_body] pub fn raw(&self) -> (r: Vec<u8>) ensures r_verfer_raw(self.av(), r.av()) { unimplemented!() }
    #[verifier::external_body] pub fn qb64(&self) -> (r: Result<XString>) ensures r_verfer_qb64(self.av(), r.av()) { unimplemented!() }
    #[verifier::external_body] pub fn qb64b(&self) -> (r: Result<Vec<u8>>) ensures r_verfer_qb64b(self.av(), r.av()) { unimplemented!() }
    #[verifier::external_body] pub fn qb2(&self) -> (r: Result<Vec<u8>>) ensures r_verfer_qb2(self.av(), r.av()) { unimplemented!() }
}
pub uninterp spec fn r_diger_new(a0: Option<Seq<u8>>, a1: Option<Seq<u8>>, a2: Option<Seq<u8>>, a3: Option<Seq<u8>>, a4: Option<Seq<u8>>, a5: Option<Seq<u8>>, r: Option<Diger>) -> bool;
pub uninterp spec fn r_diger_new_with_ser(a0: Seq<u8>, a1: Option<Seq<u8>>, r: Option<Diger>) -> bool;
pub uninterp spec fn r_diger_new_with_raw(a0: Seq<u8>, a1: Option<Seq<u8>>, r: Option<Diger>) -> bool;
pub uninterp spec fn r_diger_new_with_qb64b(a0: Seq<u8>, r: Option<Diger>) -> bool;
pub uninterp spec fn r_diger_new_with_qb64(a0: Seq<u8>, r: Option<Diger>) -> bool;
pub uninterp spec fn r_diger_new_with_qb2(a0: Seq<u8>, r: Option<Diger>) -> bool;
pub uninterp spec fn r_diger_verify(a0: Diger, a1: Seq<u8>, r: Option<bool>) -> bool;
pub uninterp spec fn r_diger_compare(a0: Diger, a1: Seq<u8>, a2: Option<Seq<u8>>, a3: Option<Diger>, r: Option<bool>) -> bool;
pub uninterp spec fn r_diger_code(a0: Diger, r: Seq<u8>) -> bool;
pub uninterp spec fn r_diger_size(a0: Diger, r: u32) -> bool;
pub uninterp spec fn r_diger_raw(a0: Diger, r: Seq<u8>) -> bool;
pub uninterp spec fn r_diger_qb64(a0: Diger, r: Option<Seq<u8>>) -> bool;
pub uninterp spec fn r_diger_qb64b(a0: Diger, r: Option<Seq<u8>>) -> bool;
pub uninterp spec fn r_diger_qb2(a0: Diger, r: Option<Seq<u8>>) -> bool;
impl Diger {
//@fn core::diger::Diger::new as new
//@params ser code raw qb64b qb64 qb2
    ensures r_diger_new(ser.av(), code.av(), raw.av(), qb64b.av(), qb64.av(), qb2.av(), r.av())
//@end
//@fn core::diger::Diger::new_with_ser as new_with_ser
//@params ser code
    ensures r_diger_new_with_ser(ser.av(), code.av(), r.av())
//@end
//@fn core::diger::Diger::new_with_raw as new_with_raw
//@params raw code
    ensures r_diger_new_with_raw(raw.av(), code.av(), r.av())
//@end
//@fn core::diger::Diger::new_with_qb64b as new_with_qb64b
//@params qb64b
    ensures r_diger_new_with_qb64b(qb64b.av(), r.av())
//@end
//@fn core::diger::Diger::new_with_qb64 as new_with_qb64
//@params qb64
    ensures r_diger_new_with_qb64(qb64.av(), r.av())
//@end
//@fn core::diger::Diger::new_with_qb2 as new_with_qb2
//@params qb2
    ensures r_diger_new_with_qb2(qb2.av(), r.av())
//@end
//@fn core::diger::Diger::verify as verify
//@params ser
    ensures r_diger_verify(self.av(), ser.av(), r.av())
//@end
//@fn core::diger::Diger::compare as compare
//@params ser dig diger
    ensures r_diger_compare(self.av(), ser.av(), dig.av(), diger.av(), r.av())
//@end
    #[verifier::external_body] pub fn code(&self) -> (r: XString) ensures r_diger_code(self.av(), r.av()) { unimplemented!() }
    #[verifier::external_body] pub fn size(&self) -> (r: u32) ensures r_diger_size(self.av(), r.av()) { unimplemented!() }
    #[verifier::external_body] pub fn raw(&self) -> (r: Vec<u8>) ensures r_diger_raw(self.av(), r.av()) { unimplemented!() }
    #[verifier::external_body] pub fn qb64(&self) -> (r: Result<XString>) ensures r_diger_qb64(self.av(), r.av()) { unimplemented!() }
    #[verifier::external_body] pub fn qb64b(&self) -> (r: Result<Vec<u8>>) ensures r_diger_qb64b(self.av(), r.av()) { unimplemented!() }
    #[verifier::external_body] pub fn qb2(&self) -> (r: Result<Vec<u8>>) ensures r_diger_qb2(self.av(), r.av()) { unimplemented!() }
}
pub uninterp spec fn r_cigar_new(a0: Option<Verfer>, a1: Option<Seq<u8>>, a2: Option<Seq<u8>>, a3: Option<Seq<u8>>, a4: Option<Seq<u8>>, a5: Option<Seq<u8>>, r: Option<Cigar>) -> bool;
pub uninterp spec fn r_cigar_new_with_raw(a0: Seq<u8>, a1: Option<Verfer>, a2: Option<Seq<u8>>, r: Option<Cigar>) -> bool;
pub uninterp spec fn r_cigar_new_with_qb64b(a0: Seq<u8>, a1: Option<Verfer>, r: Option<Cigar>) -> bool;
pub uninterp spec fn r_cigar_new_with_qb64(a0: Seq<u8>, a1: Option<Verfer>, r: Option<Cigar>) -> bool;
pub uninterp spec fn r_cigar_new_with_qb2(a0: Seq<u8>, a1: Option<Verfer>, r: Option<Cigar>) -> bool;
pub uninterp spec fn r_cigar_verfer(a0: Cigar, r: Verfer) -> bool;
pub uninterp spec fn r_cigar_code(a0: Cigar, r: Seq<u8>) -> bool;
pub uninterp spec fn r_cigar_size(a0: Cigar, r: u32) -> bool;
pub uninterp spec fn r_cigar_raw(a0: Cigar, r: Seq<u8>) -> bool;
pub uninterp spec fn r_cigar_qb64(a0: Cigar, r: Option<Seq<u8>>) -> bool;
pub uninterp spec fn r_cigar_qb64b(a0: Cigar, r: Option<Seq<u8>>) -> bool;
pub uninterp spec fn r_cigar_qb2(a0: Cigar, r: Option<Seq<u8>>) -> bool;
impl Cigar {
//@fn core::cigar::Cigar::new as new
//@params verfer code raw qb64b qb64 qb2
    ensures r_cigar_new(verfer.av(), code.av(), raw.av(), qb64b.av(), qb64.av(), qb2.av(), r.av())
//@end
//@fn core::cigar::Cigar::new_with_raw as new_with_raw
//@params raw verfer code
    ensures r_cigar_new_with_raw(raw.av(), verfer.av(), code.av(), r.av())
//@end
//@fn core::cigar::Cigar::new_with_qb64b as new_with_qb64b
//@params qb64b verfer
    ensures r_cigar_new_with_qb64b(qb64b.av(), verfer.av(), r.av())
//@end
//@fn core::cigar::Cigar::new_with_qb64 as new_with_qb64
//@params qb64 verfer
    ensures r_cigar_new_with_qb64(qb64.av(), verfer.av(), r.av())
//@end
//@fn core::cigar::Cigar::new_with_qb2 as new_with_qb2
//@params qb2 verfer
    ensures r_cigar_new_with_qb2(qb2.av(), verfer.av(), r.av())
//@end
//@fn core::cigar::Cigar::verfer as verfer
    ensures r_cigar_verfer(self.av(), r.av())
//@end
    #[verifier::external_body] pub fn code(&self) -> (r: XString) ensures r_cigar_code(self.av(), r.av()) { unimplemented!() }
    #[verifier::external_body] pub fn size(&self) -> (r: u32) ensures r_cigar_size(self.av(), r.av()) { unimplemented!() }
    #[verifier::external_body] pub fn raw(&self) -> (r: Vec<u8>) ensures r_cigar_raw(self.av(), r.av()) { unimplemented!() }
    #[verifier::external_body] pub fn qb64(&self) -> (r: Result<XString>) ensures r_cigar_qb64(self.av(), r.av()) { unimplemented!() }
    #[verifier::external_body] pub fn qb64b(&self) -> (r: Result<Vec<u8>>) ensures r_cigar_qb64b(self.av(), r.av()) { unimplemented!() }
    #[verifier::external_body] pub fn qb2(&self) -> (r: Result<Vec<u8>>) ensures r_cigar_qb2(self.av(), r.av()) { unimplemented!() }
}
pub uninterp spec fn r_siger_new(a0: Option<Verfer>, a1: Option<u32>, a2: Option<u32>, a3: Option<Seq<u8>>, a4: Option<Seq<u8>>, a5: Option<Seq<u8>>, a6: Option<Seq<u8>>, a7: Option<Seq<u8>>, r: Option<Siger>) -> bool;
pub uninterp spec fn r_siger_new_with_raw(a0: Seq<u8>, a1: Option<Verfer>, a2: Option<u32>, a3: Option<u32>, a4: Option<Seq<u8>>, r: Option<Siger>) -> bool;
pub uninterp spec fn r_siger_new_with_qb64b(a0: Seq<u8>, a1: Option<Verfer>, r: Option<Siger>) -> bool;
pub uninterp spec fn r_siger_new_with_qb64(a0: Seq<u8>, a1: Option<Verfer>, r: Option<Siger>) -> bool;
pub uninterp spec fn r_siger_new_with_qb2(a0: Seq<u8>, a1: Option<Verfer>, r: Option<Siger>) -> bool;
pub uninterp spec fn r_siger_verfer(a0: Siger, r: Verfer) -> bool;
pub uninterp spec fn r_siger_code(a0: Siger, r: Seq<u8>) -> bool;
pub uninterp spec fn r_siger_raw(a0: Siger, r: Seq<u8>) -> bool;
pub uninterp spec fn r_siger_index(a0: Siger, r: u32) -> bool;
pub uninterp spec fn r_siger_ondex(a0: Siger, r: u32) -> bool;
pub uninterp spec fn r_siger_qb64(a0: Siger, r: Option<Seq<u8>>) -> bool;
pub uninterp spec fn r_siger_qb64b(a0: Siger, r: Option<Seq<u8>>) -> bool;
pub uninterp spec fn r_siger_qb2(a0: Siger, r: Option<Seq<u8>>) -> bool;
impl Siger {
//@fn core::siger::Siger::new as new
//@params verfer index ondex code raw qb64b qb64 qb2
    ensures r_siger_new(verfer.av(), index.av(), ondex.av(), code.av(), raw.av(), qb64b.av(), qb64.av(), qb2.av(), r.av())
//@end
//@fn core::siger::Siger::new_with_raw as new_with_raw
//@params raw verfer index ondex code
    ensures r_siger_new_with_raw(raw.av(), verfer.av(), index.av(), ondex.av(), code.av(), r.av())
//@end
//@fn core::siger::Siger::new_with_qb64b as new_with_qb64b
//@params qb64b verfer
    ensures r_siger_new_with_qb64b(qb64b.av(), verfer.av(), r.av())
//@end
//@fn core::siger::Siger::new_with_qb64 as new_with_qb64
//@params qb64 verfer
    ensures r_siger_new_with_qb64(qb64.av(), verfer.av(), r.av())
//@end
//@fn core::siger::Siger::new_with_qb2 as new_with_qb2
//@params qb2 verfer
    ensures r_siger_new_with_qb2(qb2.av(), verfer.av(), r.av())
//@end
//@fn core::siger::Siger::verfer as verfer
    ensures r_siger_verfer(self.av(), r.av())
//@end
    #[verifier::external_body] pub fn code(&self) -> (r: XString) ensures r_siger_code(self.av(), r.av()) { unimplemented!() }
    #[verifier::external_body] pub fn raw(&self) -> (r: Vec<u8>) ensures r_siger_raw(self.av(), r.av()) { unimplemented!() }
    #[verifier::external_body] pub fn index(&self) -> (r: u32) ensures r_siger_index(self.av(), r.av()) { unimplemented!() }
    #[verifier::external_body] pub fn ondex(&self) -> (r: u32) ensures r_siger_ondex(self.av(), r.av()) { unimplemented!() }
    #[verifier::external_body] pub fn qb64(&self) -> (r: Result<XString>) ensures r_siger_qb64(self.av(), r.av()) { unimplemented!() }
    #[verifier::external_body] pub fn qb64b(&self) -> (r: Result<Vec<u8>>) ensures r_siger_qb64b(self.av(), r.av()) { unimplemented!() }
    #[verifier::external_body] pub fn qb2(&self) -> (r: Result<Vec<u8>>) ensures r_siger_qb2(self.av(), r.av()) { unimplemented!() }
}
pub uninterp spec fn r_signer_new(a0: Option<bool>, a1: Option<Seq<u8>>, a2: Option<Seq<u8>>, a3: Option<Seq<u8>>, a4: Option<Seq<u8>>, a5: Option<Seq<u8>>, r: Option<Signer>) -> bool;
pub uninterp spec fn r_signer_new_with_raw(a0: Seq<u8>, a1: Option<bool>, a2: Option<Seq<u8>>, r: Option<Signer>) -> bool;
pub uninterp spec fn r_signer_new_with_qb64b(a0: Seq<u8>, a1: Option<bool>, r: Option<Signer>) -> bool;
pub uninterp spec fn r_signer_new_with_qb64(a0: Seq<u8>, a1: Option<bool>, r: Option<Signer>) -> bool;
pub uninterp spec fn r_signer_new_with_qb2(a0: Seq<u8>, a1: Option<bool>, r: Option<Signer>) -> bool;
pub uninterp spec fn r_signer_sign_unindexed(a0: Signer, a1: Seq<u8>, r: Option<Cigar>) -> bool;
pub uninterp spec fn r_signer_sign_indexed(a0: Signer, a1: Seq<u8>, a2: bool, a3: u32, a4: Option<u32>, r: Option<Siger>) -> bool;
pub uninterp spec fn r_signer_verfer(a0: Signer, r: Verfer) -> bool;
pub uninterp spec fn r_signer_code(a0: Signer, r: Seq<u8>) -> bool;
pub uninterp spec fn r_signer_size(a0: Signer, r: u32) -> bool;
pub uninterp spec fn r_signer_raw(a0: Signer, r: Seq<u8>) -> bool;
pub uninterp spec fn r_signer_qb64(a0: Signer, r: Option<Seq<u8>>) -> bool;
pub uninterp spec fn r_signer_qb64b(a0: Signer, r: Option<Seq<u8>>) -> bool;
pub uninterp spec fn r_signer_qb2(a0: Signer, r: Option<Seq<u8>>) -> bool;
impl Signer {
//@fn core::signer::Signer::new as new
//@params transferable code raw qb64b qb64 qb2
    ensures r_signer_new(transferable.av(), code.av(), raw.av(), qb64b.av(), qb64.av(), qb2.av(), r.av())
//@end
//@fn core::signer::Signer::new_with_raw as new_with_raw
//@params raw transferable code
    ensures r_signer_new_with_raw(raw.av(), transferable.av(), code.av(), r.av())
//@end
//@fn core::signer::Signer::new_with_qb64b as new_with_qb64b
//@params qb64b transferable
    ensures r_signer_new_with_qb64b(qb64b.av(), transferable.av(), r.av())
//@end
//@fn core::signer::Signer::new_with_qb64 as new_with_qb64
//@params qb64 transferable
    ensures r_signer_new_with_qb64(qb64.av(), transferable.av(), r.av())
//@end
//@fn core::signer::Signer::new_with_qb2 as new_with_qb2
//@params qb2 transferable
    ensures r_signer_new_with_qb2(qb2.av(), transferable.av(), r.av())
//@end
//@fn core::signer::Signer::sign_unindexed as sign_unindexed
//@params ser
    ensures r_signer_sign_unindexed(self.av(), ser.av(), r.av())
//@end
//@fn core::signer::Signer::sign_indexed as sign_indexed
//@params ser only index ondex
    ensures r_signer_sign_indexed(self.av(), ser.av(), only.av(), index.av(), ondex.av(), r.av())
//@end
//@fn core::signer::Signer::verfer as verfer
    ensures r_signer_verfer(self.av(), r.av())
//@end
    #[verifier::external_body] pub fn code(&self) -> (r: XString) ensures r_signer_code(self.av(), r.av()) { unimplemented!() }
    #[verifier::external_body] pub fn size(&self) -> (r: u32) ensures r_signer_size(self.av(), r.av()) { unimplemented!() }
    #[verifier::external_body] pub fn raw(&self) -> (r: Vec<u8>) ensures r_signer_raw(self.av(), r.av()) { unimplemented!() }
    #[verifier::external_body] pub fn qb64(&self) -> (r: Result<XString>) ensures r_signer_qb64(self.av(), r.av()) { unimplemented!() }
    #[verifier::external_body] pub fn qb64b(&self) -> (r: Result<Vec<u8>>) ensures r_signer_qb64b(self.av(), r.av()) { unimplemented!() }
    #[verifier::external_body] pub fn qb2(&self) -> (r: Result<Vec<u8>>) ensures r_signer_qb2(self.av(), r.av()) { unimplemented!() }
}
pub uninterp spec fn r_salter_new(a0: Option<Seq<u8>>, a1: Option<Seq<u8>>, a2: Option<Seq<u8>>, a3: Option<Seq<u8>>, a4: Option<Seq<u8>>, a5: Option<Seq<u8>>, r: Option<Salter>) -> bool;
pub uninterp spec fn r_salter_new_with_defaults(a0: Option<Seq<u8>>, r: Option<Salter>) -> bool;
pub uninterp spec fn r_salter_new_with_raw(a0: Seq<u8>, a1: Option<Seq<u8>>, a2: Option<Seq<u8>>, r: Option<Salter>) -> bool;
pub uninterp spec fn r_salter_new_with_qb64b(a0: Seq<u8>, a1: Option<Seq<u8>>, r: Option<Salter>) -> bool;
pub uninterp spec fn r_salter_new_with_qb64(a0: Seq<u8>, a1: Option<Seq<u8>>, r: Option<Salter>) -> bool;
pub uninterp spec fn r_salter_new_with_qb2(a0: Seq<u8>, a1: Option<Seq<u8>>, r: Option<Salter>) -> bool;
pub uninterp spec fn r_salter_stretch(a0: Salter, a1: Option<usize>, a2: Option<Seq<u8>>, a3: Option<Seq<u8>>, a4: Option<bool>, r: Option<Seq<u8>>) -> bool;
pub uninterp spec fn r_salter_tier(a0: Salter, r: Seq<u8>) -> bool;
pub uninterp spec fn r_salter_signer(a0: Salter, a1: Option<Seq<u8>>, a2: Option<bool>, a3: Option<Seq<u8>>, a4: Option<Seq<u8>>, a5: Option<bool>, r: Option<Signer>) -> bool;
pub uninterp spec fn r_salter_signers(a0: Salter, a1: Option<usize>, a2: Option<usize>, a3: Option<Seq<u8>>, a4: Option<Seq<u8>>, a5: Option<bool>, a6: Option<Seq<u8>>, a7: Option<bool>, r: Option<Seq<Signer>>) -> bool;
pub uninterp spec fn r_salter_code(a0: Salter, r: Seq<u8>) -> bool;
pub uninterp spec fn r_salter_size(a0: Salter, r: u32) -> bool;
pub uninterp spec fn r_salter_raw(a0: Salter, r: Seq<u8>) -> bool;
pub uninterp spec fn r_salter_qb64(a0: Salter, r: Option<Seq<u8>>) -> bool;
pub uninterp spec fn r_salter_qb64b(a0: Salter, r: Option<Seq<u8>>) -> bool;
pub uninterp spec fn r_salter_qb2(a0: Salter, r: Option<Seq<u8>>) -> bool;
impl Salter {
//@fn core::salter::Salter::new as new
//@params tier code raw qb64b qb64 qb2
    ensures r_salter_new(tier.av(), code.av(), raw.av(), qb64b.av(), qb64.av(), qb2.av(), r.av())
//@end
//@fn core::salter::Salter::new_with_defaults as new_with_defaults
//@params tier
    ensures r_salter_new_with_defaults(tier.av(), r.av())
//@end
//@fn core::salter::Salter::new_with_raw as new_with_raw
//@params raw code tier
    ensures r_salter_new_with_raw(raw.av(), code.av(), tier.av(), r.av())
//@end
//@fn core::salter::Salter::new_with_qb64b as new_with_qb64b
//@params qb64b tier
    ensures r_salter_new_with_qb64b(qb64b.av(), tier.av(), r.av())
//@end
//@fn core::salter::Salter::new_with_qb64 as new_with_qb64
//@params qb64 tier
    ensures r_salter_new_with_qb64(qb64.av(), tier.av(), r.av())
//@end
//@fn core::salter::Salter::new_with_qb2 as new_with_qb2
//@params qb2 tier
    ensures r_salter_new_with_qb2(qb2.av(), tier.av(), r.av())
//@end
//@fn core::salter::Salter::stretch as stretch
//@params size path tier temp
    ensures r_salter_stretch(self.av(), size.av(), path.av(), tier.av(), temp.av(), r.av())
//@end
//@fn core::salter::Salter::tier as tier
    ensures r_salter_tier(self.av(), r.av())
//@end
//@fn core::salter::Salter::signer as signer
//@params code transferable path tier temp
    ensures r_salter_signer(self.av(), code.av(), transferable.av(), path.av(), tier.av(), temp.av(), r.av())
//@end
//@fn core::salter::Salter::signers as signers
//@params count start path code transferable tier temp
    ensures r_salter_signers(self.av(), count.av(), start.av(), path.av(), code.av(), transferable.av(), tier.av(), temp.av(), r.av())
//@end
    #[verifier::external_body] pub fn code(&self) -> (r: XString) ensures r_salter_code(self.av(), r.av()) { unimplemented!() }
    #[verifier::external_body] pub fn size(&self) -> (r: u32) ensures r_salter_size(self.av(), r.av()) { unimplemented!() }
    #[verifier::external_body] pub fn raw(&self) -> (r: Vec<u8>) ensures r_salter_raw(self.av(), r.av()) { unimplemented!() }
    #[verifier::external_body] pub fn qb64(&self) -> (r: Result<XString>) ensures r_salter_qb64(self.av(), r.av()) { unimplemented!() }
    #[verifier::external_body] pub fn qb64b(&self) -> (r: Result<Vec<u8>>) ensures r_salter_qb64b(self.av(), r.av()) { unimplemented!() }
    #[verifier::external_body] pub fn qb2(&self) -> (r: Result<Vec<u8>>) ensures r_salter_qb2(self.av(), r.av()) { unimplemented!() }
}
pub uninterp spec fn r_seqner_new(a0: Option<u128>, a1: Option<Seq<u8>>, a2: Option<Seq<u8>>, a3: Option<Seq<u8>>, a4: Option<Seq<u8>>, a5: Option<Seq<u8>>, a6: Option<Seq<u8>>, r: Option<Seqner>) -> bool;
pub uninterp spec fn r_seqner_new_with_sn(a0: u128, r: Option<Seqner>) -> bool;
pub uninterp spec fn r_seqner_new_with_snh(a0: Seq<u8>, r: Option<Seqner>) -> bool;
pub uninterp spec fn r_seqner_new_with_raw(a0: Seq<u8>, a1: Option<Seq<u8>>, r: Option<Seqner>) -> bool;
pub uninterp spec fn r_seqner_new_with_qb64b(a0: Seq<u8>, r: Option<Seqner>) -> bool;
pub uninterp spec fn r_seqner_new_with_qb64(a0: Seq<u8>, r: Option<Seqner>) -> bool;
pub uninterp spec fn r_seqner_new_with_qb2(a0: Seq<u8>, r: Option<Seqner>) -> bool;
pub uninterp spec fn r_seqner_sn(a0: Seqner, r: Option<u128>) -> bool;
pub uninterp spec fn r_seqner_snh(a0: Seqner, r: Option<Seq<u8>>) -> bool;
pub uninterp spec fn r_seqner_code(a0: Seqner, r: Seq<u8>) -> bool;
pub uninterp spec fn r_seqner_size(a0: Seqner, r: u32) -> bool;
pub uninterp spec fn r_seqner_raw(a0: Seqner, r: Seq<u8>) -> bool;
pub uninterp spec fn r_seqner_qb64(a0: Seqner, r: Option<Seq<u8>>) -> bool;
pub uninterp spec fn r_seqner_qb64b(a0: Seqner, r: Option<Seq<u8>>) -> bool;
pub uninterp spec fn r_seqner_qb2(a0: Seqner, r: Option<Seq<u8>>) -> bool;
impl Seqner {
//@fn core::seqner::Seqner::new as new
//@params sn snh code raw qb64b qb64 qb2
    ensures r_seqner_new(sn.av(), snh.av(), code.av(), raw.av(), qb64b.av(), qb64.av(), qb2.av(), r.av())
//@end
//@fn core::seqner::Seqner::new_with_sn as new_with_sn
//@params sn
    ensures r_seqner_new_with_sn(sn.av(), r.av())
//@end
//@fn core::seqner::Seqner::new_with_snh as new_with_snh
//@params snh
    ensures r_seqner_new_with_snh(snh.av(), r.av())
//@end
//@fn core::seqner::Seqner::new_with_raw as new_with_raw
//@params raw code
    ensures r_seqner_new_with_raw(raw.av(), code.av(), r.av())
//@end
//@fn core::seqner::Seqner::new_with_qb64b as new_with_qb64b
//@params qb64b
    ensures r_seqner_new_with_qb64b(qb64b.av(), r.av())
//@end
//@fn core::seqner::Seqner::new_with_qb64 as new_with_qb64
//@params qb64
    ensures r_seqner_new_with_qb64(qb64.av(), r.av())
//@end
//@fn core::seqner::Seqner::new_with_qb2 as new_with_qb2
//@params qb2
    ensures r_seqner_new_with_qb2(qb2.av(), r.av())
//@end
//@fn core::seqner::Seqner::sn as sn
    ensures r_seqner_sn(self.av(), r.av())
//@end
//@fn core::seqner::Seqner::snh as snh
    ensures r_seqner_snh(self.av(), r.av())
//@end
    #[verifier::external_body] pub fn code(&self) -> (r: XString) ensures r_seqner_code(self.av(), r.av()) { unimplemented!() }
    #[verifier::external_body] pub fn size(&self) -> (r: u32) ensures r_seqner_size(self.av(), r.av()) { unimplemented!() }
    #[verifier::external_body] pub fn raw(&self) -> (r: Vec<u8>) ensures r_seqner_raw(self.av(), r.av()) { unimplemented!() }
    #[verifier::external_body] pub fn qb64(&self) -> (r: Result<XString>) ensures r_seqner_qb64(self.av(), r.av()) { unimplemented!() }
    #[verifier::external_body] pub fn qb64b(&self) -> (r: Result<Vec<u8>>) ensures r_seqner_qb64b(self.av(), r.av()) { unimplemented!() }
    #[verifier::external_body] pub fn qb2(&self) -> (r: Result<Vec<u8>>) ensures r_seqner_qb2(self.av(), r.av()) { unimplemented!() }
}
pub uninterp spec fn r_number_new(a0: Option<u128>, a1: Option<Seq<u8>>, a2: Option<Seq<u8>>, a3: Option<Seq<u8>>, a4: Option<Seq<u8>>, a5: Option<Seq<u8>>, a6: Option<Seq<u8>>, r: Option<Number>) -> bool;
pub uninterp spec fn r_number_new_with_num(a0: u128, r: Option<Number>) -> bool;
pub uninterp spec fn r_number_new_with_numh(a0: Seq<u8>, r: Option<Number>) -> bool;
pub uninterp spec fn r_number_new_with_raw(a0: Seq<u8>, a1: Option<Seq<u8>>, r: Option<Number>) -> bool;
pub uninterp spec fn r_number_new_with_qb64b(a0: Seq<u8>, r: Option<Number>) -> bool;
pub uninterp spec fn r_number_new_with_qb64(a0: Seq<u8>, r: Option<Number>) -> bool;
pub uninterp spec fn r_number_new_with_qb2(a0: Seq<u8>, r: Option<Number>) -> bool;
pub uninterp spec fn r_number_num(a0: Number, r: Option<u128>) -> bool;
pub uninterp spec fn r_number_numh(a0: Number, r: Option<Seq<u8>>) -> bool;
pub uninterp spec fn r_number_code(a0: Number, r: Seq<u8>) -> bool;
pub uninterp spec fn r_number_size(a0: Number, r: u32) -> bool;
pub uninterp spec fn r_number_raw(a0: Number, r: Seq<u8>) -> bool;
pub uninterp spec fn r_number_qb64(a0: Number, r: Option<Seq<u8>>) -> bool;
pub uninterp spec fn r_number_qb64b(a0: Number, r: Option<Seq<u8>>) -> bool;
pub uninterp spec fn r_number_qb2(a0: Number, r: Option<Seq<u8>>) -> bool;
impl Number {
//@fn core::number::Number::new as new
//@params num numh code raw qb64b qb64 qb2
    ensures r_number_new(num.av(), numh.av(), code.av(), raw.av(), qb64b.av(), qb64.av(), qb2.av(), r.av())
//@end
//@fn core::number::Number::new_with_num as new_with_num
//@params num
    ensures r_number_new_with_num(num.av(), r.av())
//@end
//@fn core::number::Number::new_with_numh as new_with_numh
//@params numh
    ensures r_number_new_with_numh(numh.av(), r.av())
//@end
//@fn core::number::Number::new_with_raw as new_with_raw
//@params raw code
    ensures r_number_new_with_raw(raw.av(), code.av(), r.av())
//@end
//@fn core::number::Number::new_with_qb64b as new_with_qb64b
//@params qb64b
    ensures r_number_new_with_qb64b(qb64b.av(), r.av())
//@end
//@fn core::number::Number::new_with_qb64 as new_with_qb64
//@params qb64
    ensures r_number_new_with_qb64(qb64.av(), r.av())
//@end
//@fn core::number::Number::new_with_qb2 as new_with_qb2
//@params qb2
    ensures r_number_new_with_qb2(qb2.av(), r.av())
//@end
//@fn core::number::Number::num as num
    ensures r_number_num(self.av(), r.av())
//@end
//@fn core::number::Number::numh as numh
    ensures r_number_numh(self.av(), r.av())
//@end
    #[verifier::external_body] pub fn code(&self) -> (r: XString) ensures r_number_code(self.av(), r.av()) { unimplemented!() }
    #[verifier::external_body] pub fn size(&self) -> (r: u32) ensures r_number_size(self.av(), r.av()) { unimplemented!() }
    #[verifier::external_body] pub fn raw(&self) -> (r: Vec<u8>) ensures r_number_raw(self.av(), r.av()) { unimplemented!() }
    #[verifier::external_body] pub fn qb64(&self) -> (r: Result<XString>) ensures r_number_qb64(self.av(), r.av()) { unimplemented!() }
    #[verifier::external_body] pub fn qb64b(&self) -> (r: Result<Vec<u8>>) ensures r_number_qb64b(self.av(), r.av()) { unimplemented!() }
    #[verifier::external_body] pub fn qb2(&self) -> (r: Result<Vec<u8>>) ensures r_number_qb2(self.av(), r.av()) { unimplemented!() }
}
pub uninterp spec fn r_dater_new(a0: Option<Seq<u8>>, a1: Option<Seq<u8>>, a2: Option<Seq<u8>>, a3: Option<Seq<u8>>, a4: Option<Seq<u8>>, a5: Option<Seq<u8>>, r: Option<Dater>) -> bool;
pub uninterp spec fn r_dater_new_with_dts(a0: Seq<u8>, a1: Option<Seq<u8>>, r: Option<Dater>) -> bool;
pub uninterp spec fn r_dater_new_with_raw(a0: Seq<u8>, a1: Option<Seq<u8>>, r: Option<Dater>) -> bool;
pub uninterp spec fn r_dater_new_with_qb64b(a0: Seq<u8>, r: Option<Dater>) -> bool;
pub uninterp spec fn r_dater_new_with_qb64(a0: Seq<u8>, r: Option<Dater>) -> bool;
pub uninterp spec fn r_dater_new_with_qb2(a0: Seq<u8>, r: Option<Dater>) -> bool;
pub uninterp spec fn r_dater_dts(a0: Dater, r: Option<Seq<u8>>) -> bool;
pub uninterp spec fn r_dater_dtsb(a0: Dater, r: Option<Seq<u8>>) -> bool;
pub uninterp spec fn r_dater_code(a0: Dater, r: Seq<u8>) -> bool;
pub uninterp spec fn r_dater_size(a0: Dater, r: u32) -> bool;
pub uninterp spec fn r_dater_raw(a0: Dater, r: Seq<u8>) -> bool;
pub uninterp spec fn r_dater_qb64(a0: Dater, r: Option<Seq<u8>>) -> bool;
pub uninterp spec fn r_dater_qb64b(a0: Dater, r: Option<Seq<u8>>) -> bool;
pub uninterp spec fn r_dater_qb2(a0: Dater, r: Option<Seq<u8>>) -> bool;
impl Dater {
//@fn core::dater::Dater::new as new
//@params dts code raw qb64b qb64 qb2
    ensures r_dater_new(dts.av(), code.av(), raw.av(), qb64b.av(), qb64.av(), qb2.av(), r.av())
//@end
//@fn core::dater::Dater::new_with_dts as new_with_dts
//@params dts code
    ensures r_dater_new_with_dts(dts.av(), code.av(), r.av())
//@end
//@fn core::dater::Dater::new_with_raw as new_with_raw
//@params raw code
    ensures r_dater_new_with_raw(raw.av(), code.av(), r.av())
//@end
//@fn core::dater::Dater::new_with_qb64b as new_with_qb64b
//@params qb64b
    ensures r_dater_new_with_qb64b(qb64b.av(), r.av())
//@end
//@fn core::dater::Dater::new_with_qb64 as new_with_qb64
//@params qb64
    ensures r_dater_new_with_qb64(qb64.av(), r.av())
//@end
//@fn core::dater::Dater::new_with_qb2 as new_with_qb2
//@params qb2
    ensures r_dater_new_with_qb2(qb2.av(), r.av())
//@end
//@fn core::dater::Dater::dts as dts
    ensures r_dater_dts(self.av(), r.av())
//@end
//@fn core::dater::Dater::dtsb as dtsb
    ensures r_dater_dtsb(self.av(), r.av())
//@end
    #[verifier::external_body] pub fn code(&self) -> (r: XString) ensures r_dater_code(self.av(), r.av()) { unimplemented!() }
    #[verifier::external_body] pub fn size(&self) -> (r: u32) ensures r_dater_size(self.av(), r.av()) { unimplemented!() }
    #[verifier::external_body] pub fn raw(&self) -> (r: Vec<u8>) ensures r_dater_raw(self.av(), r.av()) { unimplemented!() }
    #[verifier::external_body] pub fn qb64(&self) -> (r: Result<XString>) ensures r_dater_qb64(self.av(), r.av()) { unimplemented!() }
    #[verifier::external_body] pub fn qb64b(&self) -> (r: Result<Vec<u8>>) ensures r_dater_qb64b(self.av(), r.av()) { unimplemented!() }
    #[verifier::external_body] pub fn qb2(&self) -> (r: Result<Vec<u8>>) ensures r_dater_qb2(self.av(), r.av()) { unimplemented!() }
}
pub uninterp spec fn r_bexter_new(a0: Option<Seq<u8>>, a1: Option<Seq<u8>>, a2: Option<Seq<u8>>, a3: Option<Seq<u8>>, a4: Option<Seq<u8>>, a5: Option<Seq<u8>>, r: Option<Bexter>) -> bool;
pub uninterp spec fn r_bexter_new_with_bext(a0: Seq<u8>, r: Option<Bexter>) -> bool;
pub uninterp spec fn r_bexter_new_with_raw(a0: Seq<u8>, a1: Option<Seq<u8>>, r: Option<Bexter>) -> bool;
pub uninterp spec fn r_bexter_new_with_qb64b(a0: Seq<u8>, r: Option<Bexter>) -> bool;
pub uninterp spec fn r_bexter_new_with_qb64(a0: Seq<u8>, r: Option<Bexter>) -> bool;
pub uninterp spec fn r_bexter_new_with_qb2(a0: Seq<u8>, r: Option<Bexter>) -> bool;
pub uninterp spec fn r_bexter_code(a0: Bexter, r: Seq<u8>) -> bool;
pub uninterp spec fn r_bexter_size(a0: Bexter, r: u32) -> bool;
pub uninterp spec fn r_bexter_raw(a0: Bexter, r: Seq<u8>) -> bool;
pub uninterp spec fn r_bexter_qb64(a0: Bexter, r: Option<Seq<u8>>) -> bool;
pub uninterp spec fn r_bexter_qb64b(a0: Bexter, r: Option<Seq<u8>>) -> bool;
pub uninterp spec fn r_bexter_qb2(a0: Bexter, r: Option<Seq<u8>>) -> bool;
pub uninterp spec fn r_bexter_bext(a0: Bexter, r: Option<Seq<u8>>) -> bool;
impl Bexter {
//@fn core::bexter::Bexter::new as new
//@params bext code raw qb64b qb64 qb2
    ensures r_bexter_new(bext.av(), code.av(), raw.av(), qb64b.av(), qb64.av(), qb2.av(), r.av())
//@end
//@fn core::bexter::Bexter::new_with_bext as new_with_bext
//@params bext
    ensures r_bexter_new_with_bext(bext.av(), r.av())
//@end
//@fn core::bexter::Bexter::new_with_raw as new_with_raw
//@params raw code
    ensures r_bexter_new_with_raw(raw.av(), code.av(), r.av())
//@end
//@fn core::bexter::Bexter::new_with_qb64b as new_with_qb64b
//@params qb64b
    ensures r_bexter_new_with_qb64b(qb64b.av(), r.av())
//@end
//@fn core::bexter::Bexter::new_with_qb64 as new_with_qb64
//@params qb64
    ensures r_bexter_new_with_qb64(qb64.av(), r.av())
//@end
//@fn core::bexter::Bexter::new_with_qb2 as new_with_qb2
//@params qb2
    ensures r_bexter_new_with_qb2(qb2.av(), r.av())
//@end
    #[verifier::external_body] pub fn code(&self) -> (r: XString) ensures r_bexter_code(self.av(), r.av()) { unimplemented!() }
    #[verifier::external_body] pub fn size(&self) -> (r: u32) ensures r_bexter_size(self.av(), r.av()) { unimplemented!() }
    #[verifier::external_body] pub fn raw(&self) -> (r: Vec<u8>) ensures r_bexter_raw(self.av(), r.av()) { unimplemented!() }
    #[verifier::external_body] pub fn qb64(&self) -> (r: Result<XString>) ensures r_bexter_qb64(self.av(), r.av()) { unimplemented!() }
    #[verifier::external_body] pub fn qb64b(&self) -> (r: Result<Vec<u8>>) ensures r_bexter_qb64b(self.av(), r.av()) { unimplemented!() }
    #[verifier::external_body] pub fn qb2(&self) -> (r: Result<Vec<u8>>) ensures r_bexter_qb2(self.av(), r.av()) { unimplemented!() }
    #[verifier::external_body] pub fn bext(&self) -> (r: Result<XString>) ensures r_bexter_bext(self.av(), r.av()) { unimplemented!() }
}
pub uninterp spec fn r_prefixer_new(a0: Option<Value>, a1: Option<Seq<Seq<u8>>>, a2: Option<Seq<u8>>, a3: Option<Seq<u8>>, a4: Option<Seq<u8>>, a5: Option<Seq<u8>>, a6: Option<Seq<u8>>, r: Option<Prefixer>) -> bool;
pub uninterp spec fn r_prefixer_new_with_ked(a0: Value, a1: Option<Seq<Seq<u8>>>, a2: Option<Seq<u8>>, r: Option<Prefixer>) -> bool;
pub uninterp spec fn r_prefixer_new_with_raw(a0: Seq<u8>, a1: Option<Seq<u8>>, r: Option<Prefixer>) -> bool;
pub uninterp spec fn r_prefixer_new_with_qb64b(a0: Seq<u8>, r: Option<Prefixer>) -> bool;
pub uninterp spec fn r_prefixer_new_with_qb64(a0: Seq<u8>, r: Option<Prefixer>) -> bool;
pub uninterp spec fn r_prefixer_new_with_qb2(a0: Seq<u8>, r: Option<Prefixer>) -> bool;
pub uninterp spec fn r_prefixer_verify(a0: Prefixer, a1: Value, a2: Option<bool>, r: Option<bool>) -> bool;
pub uninterp spec fn r_prefixer_code(a0: Prefixer, r: Seq<u8>) -> bool;
pub uninterp spec fn r_prefixer_size(a0: Prefixer, r: u32) -> bool;
pub uninterp spec fn r_prefixer_raw(a0: Prefixer, r: Seq<u8>) -> bool;
pub uninterp spec fn r_prefixer_qb64(a0: Prefixer, r: Option<Seq<u8>>) -> bool;
pub uninterp spec fn r_prefixer_qb64b(a0: Prefixer, r: Option<Seq<u8>>) -> bool;
pub uninterp spec fn r_prefixer_qb2(a0: Prefixer, r: Option<Seq<u8>>) -> bool;
impl Prefixer {
//@fn core::prefixer::Prefixer::new as new
//@params ked allows code raw qb64b qb64 qb2
    ensures r_prefixer_new(ked.av(), allows.av(), code.av(), raw.av(), qb64b.av(), qb64.av(), qb2.av(), r.av())
//@end
//@fn core::prefixer::Prefixer::new_with_ked as new_with_ked
//@params ked allows code
    ensures r_prefixer_new_with_ked(ked.av(), allows.av(), code.av(), r.av())
//@end
//@fn core::prefixer::Prefixer::new_with_raw as new_with_raw
//@params raw code
    ensures r_prefixer_new_with_raw(raw.av(), code.av(), r.av())
//@end
//@fn core::prefixer::Prefixer::new_with_qb64b as new_with_qb64b
//@params qb64b
    ensures r_prefixer_new_with_qb64b(qb64b.av(), r.av())
//@end
//@fn core::prefixer::Prefixer::new_with_qb64 as new_with_qb64
//@params qb64
    ensures r_prefixer_new_with_qb64(qb64.av(), r.av())
//@end
//@fn core::prefixer::Prefixer::new_with_qb2 as new_with_qb2
//@params qb2
    ensures r_prefixer_new_with_qb2(qb2.av(), r.av())
//@end
//@fn core::prefixer::Prefixer::verify as verify
//@params ked prefixed
    ensures r_prefixer_verify(self.av(), ked.av(), prefixed.av(), r.av())
//@end
    #[verifier::external_body] pub fn code(&self) -> (r: XString) ensures r_prefixer_code(self.av(), r.av()) { unimplemented!() }
    #[verifier::external_body] pub fn size(&self) -> (r: u32) ensures r_prefixer_size(self.av(), r.av()) { unimplemented!() }
    #[verifier::external_body] pub fn raw(&self) -> (r: Vec<u8>) ensures r_prefixer_raw(self.av(), r.av()) { unimplemented!() }
    #[verifier::external_body] pub fn qb64(&self) -> (r: Result<XString>) ensures r_prefixer_qb64(self.av(), r.av()) { unimplemented!() }
    #[verifier::external_body] pub fn qb64b(&self) -> (r: Result<Vec<u8>>) ensures r_prefixer_qb64b(self.av(), r.av()) { unimplemented!() }
    #[verifier::external_body] pub fn qb2(&self) -> (r: Result<Vec<u8>>) ensures r_prefixer_qb2(self.av(), r.av()) { unimplemented!() }
}
pub uninterp spec fn r_saider_new(a0: Option<Value>, a1: Option<Seq<u8>>, a2: Option<Seq<u8>>, a3: Option<Seq<Seq<u8>>>, a4: Option<Seq<u8>>, a5: Option<Seq<u8>>, a6: Option<Seq<u8>>, a7: Option<Seq<u8>>, a8: Option<Seq<u8>>, r: Option<Saider>) -> bool;
/// the same graph with the document given by its JSON text
pub uninterp spec fn r_saider_saidify_text(a0: Value, a1: Option<Seq<u8>>, a2: Option<Seq<u8>>, a3: Option<Seq<u8>>, a4: Option<Seq<Seq<u8>>>, s: Saider, t: Seq<u8>) -> bool;
pub uninterp spec fn r_saider_saidify(a0: Value, a1: Option<Seq<u8>>, a2: Option<Seq<u8>>, a3: Option<Seq<u8>>, a4: Option<Seq<Seq<u8>>>, r: Option<(Saider, Value)>) -> bool;
pub uninterp spec fn r_saider_verify(a0: Saider, a1: Value, a2: Option<bool>, a3: Option<bool>, a4: Option<Seq<u8>>, a5: Option<Seq<u8>>, a6: Option<Seq<Seq<u8>>>, r: Option<bool>) -> bool;
pub uninterp spec fn r_saider_new_with_sad(a0: Value, a1: Option<Seq<u8>>, a2: Option<Seq<u8>>, a3: Option<Seq<Seq<u8>>>, a4: Option<Seq<u8>>, r: Option<Saider>) -> bool;
pub uninterp spec fn r_saider_new_with_raw(a0: Seq<u8>, a1: Option<Seq<u8>>, r: Option<Saider>) -> bool;
pub uninterp spec fn r_saider_new_with_qb64b(a0: Seq<u8>, r: Option<Saider>) -> bool;
pub uninterp spec fn r_saider_new_with_qb64(a0: Seq<u8>, r: Option<Saider>) -> bool;
pub uninterp spec fn r_saider_new_with_qb2(a0: Seq<u8>, r: Option<Saider>) -> bool;
pub uninterp spec fn r_saider_code(a0: Saider, r: Seq<u8>) -> bool;
pub uninterp spec fn r_saider_size(a0: Saider, r: u32) -> bool;
pub uninterp spec fn r_saider_raw(a0: Saider, r: Seq<u8>) -> bool;
pub uninterp spec fn r_saider_qb64(a0: Saider, r: Option<Seq<u8>>) -> bool;
pub uninterp spec fn r_saider_qb64b(a0: Saider, r: Option<Seq<u8>>) -> bool;
pub uninterp spec fn r_saider_qb2(a0: Saider, r: Option<Seq<u8>>) -> bool;
impl Saider {
//@fn core::saider::Saider::new as new
//@params sad label kind ignore code raw qb64b qb64 qb2
    ensures r_saider_new(sad.av(), label.av(), kind.av(), ignore.av(), code.av(), raw.av(), qb64b.av(), qb64.av(), qb2.av(), r.av())
//@end
//@fn core::saider::Saider::saidify as saidify
//@params sad code kind label ignore
    ensures r_saider_saidify(sad.av(), code.av(), kind.av(), label.av(), ignore.av(), r.av()), r is Ok ==> r_saider_saidify_text(sad.av(), code.av(), kind.av(), label.av(), ignore.av(), (r->Ok_0).0, jtext((r->Ok_0).1))
//@end
//@fn core::saider::Saider::verify as verify
//@params sad prefixed versioned kind label ignore
    ensures r_saider_verify(self.av(), sad.av(), prefixed.av(), versioned.av(), kind.av(), label.av(), ignore.av(), r.av())
//@end
//@fn core::saider::Saider::new_with_sad as new_with_sad
//@params sad label kind ignore code
    ensures r_saider_new_with_sad(sad.av(), label.av(), kind.av(), ignore.av(), code.av(), r.av())
//@end
//@fn core::saider::Saider::new_with_raw as new_with_raw
//@params raw code
    ensures r_saider_new_with_raw(raw.av(), code.av(), r.av())
//@end
//@fn core::saider::Saider::new_with_qb64b as new_with_qb64b
//@params qb64b
    ensures r_saider_new_with_qb64b(qb64b.av(), r.av())
//@end
//@fn core::saider::Saider::new_with_qb64 as new_with_qb64
//@params qb64
    ensures r_saider_new_with_qb64(qb64.av(), r.av())
//@end
//@fn core::saider::Saider::new_with_qb2 as new_with_qb2
//@params qb2
    ensures r_saider_new_with_qb2(qb2.av(), r.av())
//@end
    #[verifier::external_body] pub fn code(&self) -> (r: XString) ensures r_saider_code(self.av(), r.av()) { unimplemented!() }
    #[verifier::external_body] pub fn size(&self) -> (r: u32) ensures r_saider_size(self.av(), r.av()) { unimplemented!() }
    #[verifier::external_body] pub fn raw(&self) -> (r: Vec<u8>) ensures r_saider_raw(self.av(), r.av()) { unimplemented!() }
    #[verifier::external_body] pub fn qb64(&self) -> (r: Result<XString>) ensures r_saider_qb64(self.av(), r.av()) { unimplemented!() }
    #[verifier::external_body] pub fn qb64b(&self) -> (r: Result<Vec<u8>>) ensures r_saider_qb64b(self.av(), r.av()) { unimplemented!() }
    #[verifier::external_body] pub fn qb2(&self) -> (r: Result<Vec<u8>>) ensures r_saider_qb2(self.av(), r.av()) { unimplemented!() }
}
pub uninterp spec fn r_tholder_new(a0: Option<Value>, a1: Option<Seq<u8>>, a2: Option<Value>, r: Option<Tholder>) -> bool;
pub uninterp spec fn r_tholder_new_with_thold(a0: Value, r: Option<Tholder>) -> bool;
pub uninterp spec fn r_tholder_new_with_limen(a0: Seq<u8>, r: Option<Tholder>) -> bool;
pub uninterp spec fn r_tholder_new_with_sith(a0: Value, r: Option<Tholder>) -> bool;
pub uninterp spec fn r_tholder_thold(a0: Tholder, r: Value) -> bool;
pub uninterp spec fn r_tholder_weighted(a0: Tholder, r: bool) -> bool;
pub uninterp spec fn r_tholder_size(a0: Tholder, r: u32) -> bool;
pub uninterp spec fn r_tholder_num(a0: Tholder, r: Option<Option<u32>>) -> bool;
pub uninterp spec fn r_tholder_number(a0: Tholder, r: Option<Number>) -> bool;
pub uninterp spec fn r_tholder_bexter(a0: Tholder, r: Option<Bexter>) -> bool;
pub uninterp spec fn r_tholder_limen(a0: Tholder, r: Option<Seq<u8>>) -> bool;
pub uninterp spec fn r_tholder_sith(a0: Tholder, r: Option<Value>) -> bool;
pub uninterp spec fn r_tholder_to_json(a0: Tholder, r: Option<Seq<u8>>) -> bool;
pub uninterp spec fn r_tholder_satisfy(a0: Tholder, a1: Seq<u32>, r: Option<bool>) -> bool;
impl Tholder {
//@fn core::tholder::Tholder::new as new
//@params thold limen sith
    ensures r_tholder_new(thold.av(), limen.av(), sith.av(), r.av())
//@end
//@fn core::tholder::Tholder::new_with_thold as new_with_thold
//@params thold
    ensures r_tholder_new_with_thold(thold.av(), r.av())
//@end
//@fn core::tholder::Tholder::new_with_limen as new_with_limen
//@params limen
    ensures r_tholder_new_with_limen(limen.av(), r.av())
//@end
//@fn core::tholder::Tholder::new_with_sith as new_with_sith
//@params sith
    ensures r_tholder_new_with_sith(sith.av(), r.av())
//@end
//@fn core::tholder::Tholder::thold as thold
    ensures r_tholder_thold(self.av(), r.av())
//@end
//@fn core::tholder::Tholder::weighted as weighted
    ensures r_tholder_weighted(self.av(), r.av())
//@end
//@fn core::tholder::Tholder::size as size
    ensures r_tholder_size(self.av(), r.av())
//@end
//@fn core::tholder::Tholder::num as num
    ensures r_tholder_num(self.av(), r.av())
//@end
//@fn core::tholder::Tholder::number as number
    ensures r_tholder_number(self.av(), r.av())
//@end
//@fn core::tholder::Tholder::bexter as bexter
    ensures r_tholder_bexter(self.av(), r.av())
//@end
//@fn core::tholder::Tholder::limen as limen
    ensures r_tholder_limen(self.av(), r.av())
//@end
//@fn core::tholder::Tholder::sith as sith
    ensures r_tholder_sith(self.av(), r.av())
//@end
//@fn core::tholder::Tholder::to_json as to_json
    ensures r_tholder_to_json(self.av(), r.av())
//@end
//@fn core::tholder::Tholder::satisfy as satisfy
//@params indices
    ensures r_tholder_satisfy(self.av(), indices.av(), r.av())
//@end
}
pub uninterp spec fn r_serder_new(a0: Option<Seq<u8>>, a1: Option<Seq<u8>>, a2: Option<Seq<u8>>, a3: Option<Value>, a4: Option<Serder>, r: Option<Serder>) -> bool;
pub uninterp spec fn r_serder_new_with_ked(a0: Value, a1: Option<Seq<u8>>, a2: Option<Seq<u8>>, r: Option<Serder>) -> bool;
pub uninterp spec fn r_serder_verfers(a0: Serder, r: Option<Seq<Verfer>>) -> bool;
pub uninterp spec fn r_serder_digers(a0: Serder, r: Option<Seq<Diger>>) -> bool;
pub uninterp spec fn r_serder_werfers(a0: Serder, r: Option<Seq<Verfer>>) -> bool;
pub uninterp spec fn r_serder_tholder(a0: Serder, r: Option<Option<Tholder>>) -> bool;
pub uninterp spec fn r_serder_ntholder(a0: Serder, r: Option<Option<Tholder>>) -> bool;
pub uninterp spec fn r_serder_sner(a0: Serder, r: Option<Number>) -> bool;
pub uninterp spec fn r_serder_sn(a0: Serder, r: Option<u128>) -> bool;
pub uninterp spec fn r_serder_fner(a0: Serder, r: Option<Option<Number>>) -> bool;
pub uninterp spec fn r_serder__fn(a0: Serder, r: Option<u128>) -> bool;
pub uninterp spec fn r_serder_code(a0: Serder, r: Seq<u8>) -> bool;
pub uninterp spec fn r_serder_raw(a0: Serder, r: Seq<u8>) -> bool;
pub uninterp spec fn r_serder_ked(a0: Serder, r: Value) -> bool;
pub uninterp spec fn r_serder_ident(a0: Serder, r: Seq<u8>) -> bool;
pub uninterp spec fn r_serder_kind(a0: Serder, r: Seq<u8>) -> bool;
pub uninterp spec fn r_serder_size(a0: Serder, r: u32) -> bool;
pub uninterp spec fn r_serder_version(a0: Serder, r: Version) -> bool;
pub uninterp spec fn r_serder_saider(a0: Serder, r: Saider) -> bool;
impl Serder {
//@fn core::serder::Serder::new as new
//@params code raw kind ked sad
    ensures r_serder_new(code.av(), raw.av(), kind.av(), ked.av(), sad.av(), r.av())
//@end
//@fn core::serder::Serder::new_with_ked as new_with_ked
//@params ked code kind
    ensures r_serder_new_with_ked(ked.av(), code.av(), kind.av(), r.av())
//@end
//@fn core::serder::Serder::verfers as verfers
    ensures r_serder_verfers(self.av(), r.av())
//@end
//@fn core::serder::Serder::digers as digers
    ensures r_serder_digers(self.av(), r.av())
//@end
//@fn core::serder::Serder::werfers as werfers
    ensures r_serder_werfers(self.av(), r.av())
//@end
//@fn core::serder::Serder::tholder as tholder
    ensures r_serder_tholder(self.av(), r.av())
//@end
//@fn core::serder::Serder::ntholder as ntholder
    ensures r_serder_ntholder(self.av(), r.av())
//@end
//@fn core::serder::Serder::sner as sner
    ensures r_serder_sner(self.av(), r.av())
//@end
//@fn core::serder::Serder::sn as sn
    ensures r_serder_sn(self.av(), r.av())
//@end
//@fn core::serder::Serder::fner as fner
    ensures r_serder_fner(self.av(), r.av())
//@end
//@fn core::serder::Serder::_fn as _fn
    ensures r_serder__fn(self.av(), r.av())
//@end
    #[verifier::external_body] pub fn code(&self) -> (r: XString) ensures r_serder_code(self.av(), r.av()) { unimplemented!() }
    #[verifier::external_body] pub fn raw(&self) -> (r: Vec<u8>) ensures r_serder_raw(self.av(), r.av()) { unimplemented!() }
    #[verifier::external_body] pub fn ked(&self) -> (r: Value) ensures r_serder_ked(self.av(), r.av()) { unimplemented!() }
    #[verifier::external_body] pub fn ident(&self) -> (r: XString) ensures r_serder_ident(self.av(), r.av()) { unimplemented!() }
    #[verifier::external_body] pub fn kind(&self) -> (r: XString) ensures r_serder_kind(self.av(), r.av()) { unimplemented!() }
    #[verifier::external_body] pub fn size(&self) -> (r: u32) ensures r_serder_size(self.av(), r.av()) { unimplemented!() }
    #[verifier::external_body] pub fn version(&self) -> (r: Version) ensures r_serder_version(self.av(), r.av()) { unimplemented!() }
    #[verifier::external_body] pub fn saider(&self) -> (r: Saider) ensures r_serder_saider(self.av(), r.av()) { unimplemented!() }
}
/// the document a JSON text stands for, and the JSON text of a document (see C24)
pub uninterp spec fn is_json(t: Seq<u8>) -> bool;
pub uninterp spec fn jdoc(t: Seq<u8>) -> Value;
pub uninterp spec fn jtext(v: Value) -> Seq<u8>;
impl Value {
//@fn data::Value::to_json as to_json
    ensures r is Ok, (r->Ok_0)@ == jtext(*self)
//@end
//@fn data::Value::to_string as xto_string
//@end
}
/// serde_json
#[verifier::external_body] pub struct SerdeValue { _p: () }
pub uninterp spec fn sdoc(v: SerdeValue) -> Value;
#[verifier::external_body] pub fn xserde_from_str(t: &XString) -> (r: Result<SerdeValue>)
    ensures r is Ok <==> is_json(t@), r is Ok ==> sdoc(r->Ok_0) == jdoc(t@)
{ unimplemented!() }
impl<'a> XFrom<&'a SerdeValue> for Value {
    open spec fn from_ok(t: &'a SerdeValue, r: Value) -> bool { r == sdoc(*t) }
    #[verifier::external_body] fn xfrom(t: &'a SerdeValue) -> (r: Value) { unimplemented!() }
}
/// JavaScript values
#[verifier::external_body] pub struct JsValue { _p: () }
pub uninterp spec fn js_string(v: JsValue) -> Option<Seq<u8>>;
pub open spec fn js_text(v: JsValue) -> Seq<u8> { match js_string(v) { Some(s) => s, None => Seq::<u8>::empty() } }
impl Av for Vec<JsValue> { type A = Seq<Seq<u8>>; open spec fn av(&self) -> Seq<Seq<u8>> { Seq::new(self@.len(), |i: int| js_text(self@[i])) } }
impl JsValue {
    #[verifier::external_body] pub fn as_string(&self) -> (r: Option<XString>) ensures r.av() == js_string(*self) { unimplemented!() }
}
pub trait XUnwrapOrDefault { type O; fn xunwrap_or_default(self) -> Self::O; }
impl XUnwrapOrDefault for Option<XString> {
    type O = XString;
    #[verifier::external_body] fn xunwrap_or_default(self) -> (r: XString) ensures r@ == (match self { Some(s) => s@, None => Seq::<u8>::empty() }) { unimplemented!() }
}
#[verifier::external_body] pub fn xjs_array(n: u32) -> (r: Vec<JsValue>) ensures r@.len() == n { unimplemented!() }
pub trait XJsSet { fn xjs_set(&mut self, i: u32, v: JsValue); }
impl XJsSet for Vec<JsValue> {
    #[verifier::external_body] fn xjs_set(&mut self, i: u32, v: JsValue)
        ensures i < old(self)@.len() ==> final(self)@ == old(self)@.update(i as int, v)
    { unimplemented!() }
}
impl XAsDeref for Option<XString> {
    type T = XString;
    #[verifier::external_body] fn xas_deref(&self) -> (r: Option<&XString>) ensures r.av() == self.av() { unimplemented!() }
}
impl XAsDeref for Option<Vec<u8>> {
    type T = [u8];
    #[verifier::external_body] fn xas_deref(&self) -> (r: Option<&[u8]>) ensures r.av() == self.av() { unimplemented!() }
}
impl<'a> XAsDeref for Option<Vec<&'a XString>> {
    type T = [&'a XString];
    #[verifier::external_body] fn xas_deref(&self) -> (r: Option<&[&'a XString]>) ensures r.av() == self.av() { unimplemented!() }
}
impl XAsDeref for Option<Vec<XString>> {
    type T = Vec<XString>;
    #[verifier::external_body] fn xas_deref(&self) -> (r: Option<&Vec<XString>>) ensures r == (match *self { Some(ref v) => Some(v), None => None }) { unimplemented!() }
}
/// x.into()
pub trait XInto<T>: Sized { spec fn into_ok(self, r: T) -> bool; spec fn into_req(self) -> bool; fn xinto(self) -> (r: T) requires self.into_req() ensures self.into_ok(r); }
impl<A, B: XFrom<A>> XInto<B> for A {
    open spec fn into_ok(self, r: B) -> bool { B::from_ok(self, r) }
    open spec fn into_req(self) -> bool { B::from_req(self) }
    #[verifier::external_body] fn xinto(self) -> (r: B) { unimplemented!() }
}
