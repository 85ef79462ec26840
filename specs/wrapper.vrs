//@imports wcore wasm
// ------------------------------------------------------------------ the WebAssembly wrappers pass calls on
//@struct wasm::util::ValueWrapper as ValueWrapper
impl Av for ValueWrapper { type A = Value; open spec fn av(&self) -> Value { jdoc(self.0@) } }
impl XFrom<ValueWrapper> for Value {
    open spec fn from_ok(t: ValueWrapper, r: Value) -> bool { r == jdoc(t.0@) }
    open spec fn from_req(t: ValueWrapper) -> bool { is_json(t.0@) }
//@fn wasm::util::Value.From<ValueWrapper>::from as xfrom
//@end
}
impl ValueWrapper {
//@fn wasm::util::ValueWrapper::new as new
//@params value
    ensures r.0@ == value@
//@end
//@fn wasm::util::ValueWrapper::value as value
    ensures r@ == self.0@
//@end
}
//@struct wasm::primitives::common::VersionWrapper as VersionWrapper
impl Av for VersionWrapper { type A = Version; open spec fn av(&self) -> Version { self.0 } }

//@struct wasm::primitives::verfer::VerferWrapper as VerferWrapper
impl Av for VerferWrapper { type A = Verfer; open spec fn av(&self) -> Verfer { self.0 } }
impl XClone for VerferWrapper { open spec fn same(&self, o: &Self) -> bool { self == o } #[verifier::external_body] fn xclone(&self) -> (r: Self) { unimplemented!() } }
impl XDeref for VerferWrapper {
    type Target = Verfer;
    open spec fn inner(&self) -> Verfer { self.0 }
//@fn wasm::primitives::verfer::VerferWrapper.Deref::deref as deref
//@end
}
impl Wrap<Verfer> for VerferWrapper {
    type Wrapper = VerferWrapper;
    open spec fn wrapped(t: &Verfer, r: Self::Wrapper) -> bool { r.0 == *t }
//@fn wasm::primitives::verfer::VerferWrapper.Wrap<Verfer>::wrap as wrap
//@end
}
impl XAsDeref for Option<VerferWrapper> {
    type T = Verfer;
    fn xas_deref(&self) -> (r: Option<&Verfer>) ensures r.av() == self.av() { match self { Some(x) => Some(x.deref()), None => None } }
}
//@struct wasm::primitives::diger::DigerWrapper as DigerWrapper
impl Av for DigerWrapper { type A = Diger; open spec fn av(&self) -> Diger { self.0 } }
impl XClone for DigerWrapper { open spec fn same(&self, o: &Self) -> bool { self == o } #[verifier::external_body] fn xclone(&self) -> (r: Self) { unimplemented!() } }
impl XDeref for DigerWrapper {
    type Target = Diger;
    open spec fn inner(&self) -> Diger { self.0 }
//@fn wasm::primitives::diger::DigerWrapper.Deref::deref as deref
//@end
}
impl Wrap<Diger> for DigerWrapper {
    type Wrapper = DigerWrapper;
    open spec fn wrapped(t: &Diger, r: Self::Wrapper) -> bool { r.0 == *t }
//@fn wasm::primitives::diger::DigerWrapper.Wrap<Diger>::wrap as wrap
//@end
}
impl XAsDeref for Option<DigerWrapper> {
    type T = Diger;
    fn xas_deref(&self) -> (r: Option<&Diger>) ensures r.av() == self.av() { match self { Some(x) => Some(x.deref()), None => None } }
}
//@struct wasm::primitives::cigar::CigarWrapper as CigarWrapper
impl Av for CigarWrapper { type A = Cigar; open spec fn av(&self) -> Cigar { self.0 } }
impl XDeref for CigarWrapper {
    type Target = Cigar;
    open spec fn inner(&self) -> Cigar { self.0 }
//@fn wasm::primitives::cigar::CigarWrapper.Deref::deref as deref
//@end
}
impl Wrap<Cigar> for CigarWrapper {
    type Wrapper = CigarWrapper;
    open spec fn wrapped(t: &Cigar, r: Self::Wrapper) -> bool { r.0 == *t }
//@fn wasm::primitives::cigar::CigarWrapper.Wrap<Cigar>::wrap as wrap
//@end
}
impl XAsDeref for Option<CigarWrapper> {
    type T = Cigar;
    fn xas_deref(&self) -> (r: Option<&Cigar>) ensures r.av() == self.av() { match self { Some(x) => Some(x.deref()), None => None } }
}
//@struct wasm::primitives::siger::SigerWrapper as SigerWrapper
impl Av for SigerWrapper { type A = Siger; open spec fn av(&self) -> Siger { self.0 } }
impl XDeref for SigerWrapper {
    type Target = Siger;
    open spec fn inner(&self) -> Siger { self.0 }
//@fn wasm::primitives::siger::SigerWrapper.Deref::deref as deref
//@end
}
impl Wrap<Siger> for SigerWrapper {
    type Wrapper = SigerWrapper;
    open spec fn wrapped(t: &Siger, r: Self::Wrapper) -> bool { r.0 == *t }
//@fn wasm::primitives::siger::SigerWrapper.Wrap<Siger>::wrap as wrap
//@end
}
impl XAsDeref for Option<SigerWrapper> {
    type T = Siger;
    fn xas_deref(&self) -> (r: Option<&Siger>) ensures r.av() == self.av() { match self { Some(x) => Some(x.deref()), None => None } }
}
//@struct wasm::primitives::signer::SignerWrapper as SignerWrapper
impl Av for SignerWrapper { type A = Signer; open spec fn av(&self) -> Signer { self.0 } }
impl Av for Vec<SignerWrapper> { type A = Seq<Signer>; open spec fn av(&self) -> Seq<Signer> { Seq::new(self@.len(), |i: int| self@[i].0) } }
impl XClone for SignerWrapper { open spec fn same(&self, o: &Self) -> bool { self == o } #[verifier::external_body] fn xclone(&self) -> (r: Self) { unimplemented!() } }
impl XDeref for SignerWrapper {
    type Target = Signer;
    open spec fn inner(&self) -> Signer { self.0 }
//@fn wasm::primitives::signer::SignerWrapper.Deref::deref as deref
//@end
}
impl Wrap<Signer> for SignerWrapper {
    type Wrapper = SignerWrapper;
    open spec fn wrapped(t: &Signer, r: Self::Wrapper) -> bool { r.0 == *t }
//@fn wasm::primitives::signer::SignerWrapper.Wrap<Signer>::wrap as wrap
//@end
}
impl XAsDeref for Option<SignerWrapper> {
    type T = Signer;
    fn xas_deref(&self) -> (r: Option<&Signer>) ensures r.av() == self.av() { match self { Some(x) => Some(x.deref()), None => None } }
}
//@struct wasm::primitives::salter::SalterWrapper as SalterWrapper
impl Av for SalterWrapper { type A = Salter; open spec fn av(&self) -> Salter { self.0 } }
impl XDeref for SalterWrapper {
    type Target = Salter;
    open spec fn inner(&self) -> Salter { self.0 }
//@fn wasm::primitives::salter::SalterWrapper.Deref::deref as deref
//@end
}
impl Wrap<Salter> for SalterWrapper {
    type Wrapper = SalterWrapper;
    open spec fn wrapped(t: &Salter, r: Self::Wrapper) -> bool { r.0 == *t }
//@fn wasm::primitives::salter::SalterWrapper.Wrap<Salter>::wrap as wrap
//@end
}
impl XAsDeref for Option<SalterWrapper> {
    type T = Salter;
    fn xas_deref(&self) -> (r: Option<&Salter>) ensures r.av() == self.av() { match self { Some(x) => Some(x.deref()), None => None } }
}
//@struct wasm::primitives::seqner::SeqnerWrapper as SeqnerWrapper
impl Av for SeqnerWrapper { type A = Seqner; open spec fn av(&self) -> Seqner { self.0 } }
impl XDeref for SeqnerWrapper {
    type Target = Seqner;
    open spec fn inner(&self) -> Seqner { self.0 }
//@fn wasm::primitives::seqner::SeqnerWrapper.Deref::deref as deref
//@end
}
impl Wrap<Seqner> for SeqnerWrapper {
    type Wrapper = SeqnerWrapper;
    open spec fn wrapped(t: &Seqner, r: Self::Wrapper) -> bool { r.0 == *t }
//@fn wasm::primitives::seqner::SeqnerWrapper.Wrap<Seqner>::wrap as wrap
//@end
}
impl XAsDeref for Option<SeqnerWrapper> {
    type T = Seqner;
    fn xas_deref(&self) -> (r: Option<&Seqner>) ensures r.av() == self.av() { match self { Some(x) => Some(x.deref()), None => None } }
}
//@struct wasm::primitives::number::NumberWrapper as NumberWrapper
impl Av for NumberWrapper { type A = Number; open spec fn av(&self) -> Number { self.0 } }
impl XDeref for NumberWrapper {
    type Target = Number;
    open spec fn inner(&self) -> Number { self.0 }
//@fn wasm::primitives::number::NumberWrapper.Deref::deref as deref
//@end
}
impl Wrap<Number> for NumberWrapper {
    type Wrapper = NumberWrapper;
    open spec fn wrapped(t: &Number, r: Self::Wrapper) -> bool { r.0 == *t }
//@fn wasm::primitives::number::NumberWrapper.Wrap<Number>::wrap as wrap
//@end
}
impl XAsDeref for Option<NumberWrapper> {
    type T = Number;
    fn xas_deref(&self) -> (r: Option<&Number>) ensures r.av() == self.av() { match self { Some(x) => Some(x.deref()), None => None } }
}
//@struct wasm::primitives::dater::DaterWrapper as DaterWrapper
impl Av for DaterWrapper { type A = Dater; open spec fn av(&self) -> Dater { self.0 } }
impl XDeref for DaterWrapper {
    type Target = Dater;
    open spec fn inner(&self) -> Dater { self.0 }
//@fn wasm::primitives::dater::DaterWrapper.Deref::deref as deref
//@end
}
impl Wrap<Dater> for DaterWrapper {
    type Wrapper = DaterWrapper;
    open spec fn wrapped(t: &Dater, r: Self::Wrapper) -> bool { r.0 == *t }
//@fn wasm::primitives::dater::DaterWrapper.Wrap<Dater>::wrap as wrap
//@end
}
impl XAsDeref for Option<DaterWrapper> {
    type T = Dater;
    fn xas_deref(&self) -> (r: Option<&Dater>) ensures r.av() == self.av() { match self { Some(x) => Some(x.deref()), None => None } }
}
//@struct wasm::primitives::bexter::BexterWrapper as BexterWrapper
impl Av for BexterWrapper { type A = Bexter; open spec fn av(&self) -> Bexter { self.0 } }
impl XDeref for BexterWrapper {
    type Target = Bexter;
    open spec fn inner(&self) -> Bexter { self.0 }
//@fn wasm::primitives::bexter::BexterWrapper.Deref::deref as deref
//@end
}
impl Wrap<Bexter> for BexterWrapper {
    type Wrapper = BexterWrapper;
    open spec fn wrapped(t: &Bexter, r: Self::Wrapper) -> bool { r.0 == *t }
//@fn wasm::primitives::bexter::BexterWrapper.Wrap<Bexter>::wrap as wrap
//@end
}
impl XAsDeref for Option<BexterWrapper> {
    type T = Bexter;
    fn xas_deref(&self) -> (r: Option<&Bexter>) ensures r.av() == self.av() { match self { Some(x) => Some(x.deref()), None => None } }
}
//@struct wasm::primitives::prefixer::PrefixerWrapper as PrefixerWrapper
impl Av for PrefixerWrapper { type A = Prefixer; open spec fn av(&self) -> Prefixer { self.0 } }
impl XDeref for PrefixerWrapper {
    type Target = Prefixer;
    open spec fn inner(&self) -> Prefixer { self.0 }
//@fn wasm::primitives::prefixer::PrefixerWrapper.Deref::deref as deref
//@end
}
impl Wrap<Prefixer> for PrefixerWrapper {
    type Wrapper = PrefixerWrapper;
    open spec fn wrapped(t: &Prefixer, r: Self::Wrapper) -> bool { r.0 == *t }
//@fn wasm::primitives::prefixer::PrefixerWrapper.Wrap<Prefixer>::wrap as wrap
//@end
}
impl XAsDeref for Option<PrefixerWrapper> {
    type T = Prefixer;
    fn xas_deref(&self) -> (r: Option<&Prefixer>) ensures r.av() == self.av() { match self { Some(x) => Some(x.deref()), None => None } }
}
//@struct wasm::primitives::saider::SaiderWrapper as SaiderWrapper
impl Av for SaiderWrapper { type A = Saider; open spec fn av(&self) -> Saider { self.0 } }
impl XClone for SaiderWrapper { open spec fn same(&self, o: &Self) -> bool { self == o } #[verifier::external_body] fn xclone(&self) -> (r: Self) { unimplemented!() } }
impl XDeref for SaiderWrapper {
    type Target = Saider;
    open spec fn inner(&self) -> Saider { self.0 }
//@fn wasm::primitives::saider::SaiderWrapper.Deref::deref as deref
//@end
}
impl Wrap<Saider> for SaiderWrapper {
    type Wrapper = SaiderWrapper;
    open spec fn wrapped(t: &Saider, r: Self::Wrapper) -> bool { r.0 == *t }
//@fn wasm::primitives::saider::SaiderWrapper.Wrap<Saider>::wrap as wrap
//@end
}
impl XAsDeref for Option<SaiderWrapper> {
    type T = Saider;
    fn xas_deref(&self) -> (r: Option<&Saider>) ensures r.av() == self.av() { match self { Some(x) => Some(x.deref()), None => None } }
}
//@struct wasm::primitives::tholder::TholderWrapper as TholderWrapper
impl Av for TholderWrapper { type A = Tholder; open spec fn av(&self) -> Tholder { self.0 } }
impl XClone for TholderWrapper { open spec fn same(&self, o: &Self) -> bool { self == o } #[verifier::external_body] fn xclone(&self) -> (r: Self) { unimplemented!() } }
impl XDeref for TholderWrapper {
    type Target = Tholder;
    open spec fn inner(&self) -> Tholder { self.0 }
//@fn wasm::primitives::tholder::TholderWrapper.Deref::deref as deref
//@end
}
impl Wrap<Tholder> for TholderWrapper {
    type Wrapper = TholderWrapper;
    open spec fn wrapped(t: &Tholder, r: Self::Wrapper) -> bool { r.0 == *t }
//@fn wasm::primitives::tholder::TholderWrapper.Wrap<Tholder>::wrap as wrap
//@end
}
impl XAsDeref for Option<TholderWrapper> {
    type T = Tholder;
    fn xas_deref(&self) -> (r: Option<&Tholder>) ensures r.av() == self.av() { match self { Some(x) => Some(x.deref()), None => None } }
}
//@struct wasm::primitives::serder::SerderWrapper as SerderWrapper
impl Av for SerderWrapper { type A = Serder; open spec fn av(&self) -> Serder { self.0 } }
impl XDeref for SerderWrapper {
    type Target = Serder;
    open spec fn inner(&self) -> Serder { self.0 }
//@fn wasm::primitives::serder::SerderWrapper.Deref::deref as deref
//@end
}
impl Wrap<Serder> for SerderWrapper {
    type Wrapper = SerderWrapper;
    open spec fn wrapped(t: &Serder, r: Self::Wrapper) -> bool { r.0 == *t }
//@fn wasm::primitives::serder::SerderWrapper.Wrap<Serder>::wrap as wrap
//@end
}
impl XAsDeref for Option<SerderWrapper> {
    type T = Serder;
    fn xas_deref(&self) -> (r: Option<&Serder>) ensures r.av() == self.av() { match self { Some(x) => Some(x.deref()), None => None } }
}
pub uninterp spec fn js_of_verfer(v: Verfer) -> JsValue;
pub uninterp spec fn js_of_diger(v: Diger) -> JsValue;
impl XFrom<VerferWrapper> for JsValue {
    open spec fn from_ok(t: VerferWrapper, r: JsValue) -> bool { r == js_of_verfer(t.0) }
    #[verifier::external_body] fn xfrom(t: VerferWrapper) -> (r: JsValue) { unimplemented!() }
}
impl XFrom<DigerWrapper> for JsValue {
    open spec fn from_ok(t: DigerWrapper, r: JsValue) -> bool { r == js_of_diger(t.0) }
    #[verifier::external_body] fn xfrom(t: DigerWrapper) -> (r: JsValue) { unimplemented!() }
}
//@struct wasm::primitives::signer::Signers as Signers
impl Av for Signers { type A = Seq<Signer>; open spec fn av(&self) -> Seq<Signer> { self.0.av() } }
impl Signers {
//@fn wasm::primitives::signer::Signers::len as len
    ensures r == self.0@.len()
//@end
//@fn wasm::primitives::signer::Signers::is_empty as is_empty
    ensures r == (self.0@.len() == 0)
//@end
//@fn wasm::primitives::signer::Signers::get as get
//@params index
    ensures index < self.0@.len() ==> r is Some && (r->0).0 == self.0@[index as int].0, index >= self.0@.len() ==> r is None
//@end
}
//@struct wasm::primitives::saider::SaidifyRet as SaidifyRet
impl SaidifyRet {
//@fn wasm::primitives::saider::SaidifyRet::saider as saider
    ensures r.0 == self.saider.0
//@end
//@fn wasm::primitives::saider::SaidifyRet::value as value
    ensures r@ == self.value@
//@end
}

impl VerferWrapper {
//@fn wasm::primitives::verfer::VerferWrapper::new as new
//@params code raw qb64b qb64 qb2
    ensures r_verfer_new(code.av(), raw.av(), qb64b.av(), qb64.av(), qb2.av(), r.av())
//@end
//@fn wasm::primitives::verfer::VerferWrapper::new_with_raw as new_with_raw
//@params raw code
    ensures r_verfer_new_with_raw(raw.av(), code.av(), r.av())
//@end
//@fn wasm::primitives::verfer::VerferWrapper::new_with_qb64b as new_with_qb64b
//@params qb64b
    ensures r_verfer_new_with_qb64b(qb64b.av(), r.av())
//@end
//@fn wasm::primitives::verfer::VerferWrapper::new_with_qb64 as new_with_qb64
//@params qb64
    ensures r_verfer_new_with_qb64(qb64.av(), r.av())
//@end
//@fn wasm::primitives::verfer::VerferWrapper::new_with_qb2 as new_with_qb2
//@params qb2
    ensures r_verfer_new_with_qb2(qb2.av(), r.av())
//@end
//@fn wasm::primitives::verfer::VerferWrapper::verify as verify
//@params sig ser
    ensures r_verfer_verify(self.0, sig.av(), ser.av(), r.av())
//@end
//@fn wasm::primitives::verfer::VerferWrapper::code as code
    ensures r_verfer_code(self.0, r.av())
//@end
//@fn wasm::primitives::verfer::VerferWrapper::size as size
    ensures r_verfer_size(self.0, r.av())
//@end
//@fn wasm::primitives::verfer::VerferWrapper::raw as raw
    ensures r_verfer_raw(self.0, r.av())
//@end
//@fn wasm::primitives::verfer::VerferWrapper::qb64 as qb64
    ensures r_verfer_qb64(self.0, r.av())
//@end
//@fn wasm::primitives::verfer::VerferWrapper::qb64b as qb64b
    ensures r_verfer_qb64b(self.0, r.av())
//@end
//@fn wasm::primitives::verfer::VerferWrapper::qb2 as qb2
    ensures r_verfer_qb2(self.0, r.av())
//@end
}
impl DigerWrapper {
//@fn wasm::primitives::diger::DigerWrapper::new as new
//@params ser code raw qb64b qb64 qb2
    ensures r_diger_new(ser.av(), code.av(), raw.av(), qb64b.av(), qb64.av(), qb2.av(), r.av())
//@end
//@fn wasm::primitives::diger::DigerWrapper::new_with_ser as new_with_ser
//@params ser code
    ensures r_diger_new_with_ser(ser.av(), code.av(), r.av())
//@end
//@fn wasm::primitives::diger::DigerWrapper::new_with_raw as new_with_raw
//@params raw code
    ensures r_diger_new_with_raw(raw.av(), code.av(), r.av())
//@end
//@fn wasm::primitives::diger::DigerWrapper::new_with_qb64b as new_with_qb64b
//@params qb64b
    ensures r_diger_new_with_qb64b(qb64b.av(), r.av())
//@end
//@fn wasm::primitives::diger::DigerWrapper::new_with_qb64 as new_with_qb64
//@params qb64
    ensures r_diger_new_with_qb64(qb64.av(), r.av())
//@end
//@fn wasm::primitives::diger::DigerWrapper::new_with_qb2 as new_with_qb2
//@params qb2
    ensures r_diger_new_with_qb2(qb2.av(), r.av())
//@end
//@fn wasm::primitives::diger::DigerWrapper::verify as verify
//@params ser
    ensures r_diger_verify(self.0, ser.av(), r.av())
//@end
//@fn wasm::primitives::diger::DigerWrapper::compare_dig as compare_dig
//@params ser dig
    ensures r_diger_compare(self.0, ser.av(), Some(dig.av()), None, r.av())
//@end
//@fn wasm::primitives::diger::DigerWrapper::compare_diger as compare_diger
//@params ser diger
    ensures r_diger_compare(self.0, ser.av(), None, Some(diger.av()), r.av())
//@end
//@fn wasm::primitives::diger::DigerWrapper::code as code
    ensures r_diger_code(self.0, r.av())
//@end
//@fn wasm::primitives::diger::DigerWrapper::size as size
    ensures r_diger_size(self.0, r.av())
//@end
//@fn wasm::primitives::diger::DigerWrapper::raw as raw
    ensures r_diger_raw(self.0, r.av())
//@end
//@fn wasm::primitives::diger::DigerWrapper::qb64 as qb64
    ensures r_diger_qb64(self.0, r.av())
//@end
//@fn wasm::primitives::diger::DigerWrapper::qb64b as qb64b
    ensures r_diger_qb64b(self.0, r.av())
//@end
//@fn wasm::primitives::diger::DigerWrapper::qb2 as qb2
    ensures r_diger_qb2(self.0, r.av())
//@end
}
impl CigarWrapper {
//@fn wasm::primitives::cigar::CigarWrapper::new as new
//@params verfer code raw qb64b qb64 qb2
    ensures r_cigar_new(verfer.av(), code.av(), raw.av(), qb64b.av(), qb64.av(), qb2.av(), r.av())
//@end
//@fn wasm::primitives::cigar::CigarWrapper::new_with_raw as new_with_raw
//@params raw verfer code
    ensures r_cigar_new_with_raw(raw.av(), verfer.av(), code.av(), r.av())
//@end
//@fn wasm::primitives::cigar::CigarWrapper::new_with_qb64b as new_with_qb64b
//@params qb64b verfer
    ensures r_cigar_new_with_qb64b(qb64b.av(), verfer.av(), r.av())
//@end
//@fn wasm::primitives::cigar::CigarWrapper::new_with_qb64 as new_with_qb64
//@params qb64 verfer
    ensures r_cigar_new_with_qb64(qb64.av(), verfer.av(), r.av())
//@end
//@fn wasm::primitives::cigar::CigarWrapper::new_with_qb2 as new_with_qb2
//@params qb2 verfer
    ensures r_cigar_new_with_qb2(qb2.av(), verfer.av(), r.av())
//@end
//@fn wasm::primitives::cigar::CigarWrapper::verfer as verfer
    ensures r_cigar_verfer(self.0, r.av())
//@end
//@fn wasm::primitives::cigar::CigarWrapper::code as code
    ensures r_cigar_code(self.0, r.av())
//@end
//@fn wasm::primitives::cigar::CigarWrapper::raw as raw
    ensures r_cigar_raw(self.0, r.av())
//@end
//@fn wasm::primitives::cigar::CigarWrapper::size as size
    ensures r_cigar_size(self.0, r.av())
//@end
//@fn wasm::primitives::cigar::CigarWrapper::qb64 as qb64
    ensures r_cigar_qb64(self.0, r.av())
//@end
//@fn wasm::primitives::cigar::CigarWrapper::qb64b as qb64b
    ensures r_cigar_qb64b(self.0, r.av())
//@end
//@fn wasm::primitives::cigar::CigarWrapper::qb2 as qb2
    ensures r_cigar_qb2(self.0, r.av())
//@end
}
impl SigerWrapper {
//@fn wasm::primitives::siger::SigerWrapper::new as new
//@params verfer index ondex code raw qb64b qb64 qb2
    ensures r_siger_new(verfer.av(), index.av(), ondex.av(), code.av(), raw.av(), qb64b.av(), qb64.av(), qb2.av(), r.av())
//@end
//@fn wasm::primitives::siger::SigerWrapper::new_with_raw as new_with_raw
//@params raw verfer index ondex code
    ensures r_siger_new_with_raw(raw.av(), verfer.av(), index.av(), ondex.av(), code.av(), r.av())
//@end
//@fn wasm::primitives::siger::SigerWrapper::new_with_qb64b as new_with_qb64b
//@params qb64b verfer
    ensures r_siger_new_with_qb64b(qb64b.av(), verfer.av(), r.av())
//@end
//@fn wasm::primitives::siger::SigerWrapper::new_with_qb64 as new_with_qb64
//@params qb64 verfer
    ensures r_siger_new_with_qb64(qb64.av(), verfer.av(), r.av())
//@end
//@fn wasm::primitives::siger::SigerWrapper::new_with_qb2 as new_with_qb2
//@params qb2 verfer
    ensures r_siger_new_with_qb2(qb2.av(), verfer.av(), r.av())
//@end
//@fn wasm::primitives::siger::SigerWrapper::verfer as verfer
    ensures r_siger_verfer(self.0, r.av())
//@end
//@fn wasm::primitives::siger::SigerWrapper::code as code
    ensures r_siger_code(self.0, r.av())
//@end
//@fn wasm::primitives::siger::SigerWrapper::raw as raw
    ensures r_siger_raw(self.0, r.av())
//@end
//@fn wasm::primitives::siger::SigerWrapper::index as index
    ensures r_siger_index(self.0, r.av())
//@end
//@fn wasm::primitives::siger::SigerWrapper::ondex as ondex
    ensures r_siger_ondex(self.0, r.av())
//@end
//@fn wasm::primitives::siger::SigerWrapper::qb64 as qb64
    ensures r_siger_qb64(self.0, r.av())
//@end
//@fn wasm::primitives::siger::SigerWrapper::qb64b as qb64b
    ensures r_siger_qb64b(self.0, r.av())
//@end
//@fn wasm::primitives::siger::SigerWrapper::qb2 as qb2
    ensures r_siger_qb2(self.0, r.av())
//@end
}
impl SignerWrapper {
//@fn wasm::primitives::signer::SignerWrapper::new as new
//@params transferable code raw qb64b qb64 qb2
    ensures r_signer_new(transferable.av(), code.av(), raw.av(), qb64b.av(), qb64.av(), qb2.av(), r.av())
//@end
//@fn wasm::primitives::signer::SignerWrapper::new_with_raw as new_with_raw
//@params raw transferable code
    ensures r_signer_new_with_raw(raw.av(), transferable.av(), code.av(), r.av())
//@end
//@fn wasm::primitives::signer::SignerWrapper::new_with_qb64b as new_with_qb64b
//@params qb64b transferable
    ensures r_signer_new_with_qb64b(qb64b.av(), transferable.av(), r.av())
//@end
//@fn wasm::primitives::signer::SignerWrapper::new_with_qb64 as new_with_qb64
//@params qb64 transferable
    ensures r_signer_new_with_qb64(qb64.av(), transferable.av(), r.av())
//@end
//@fn wasm::primitives::signer::SignerWrapper::new_with_qb2 as new_with_qb2
//@params qb2 transferable
    ensures r_signer_new_with_qb2(qb2.av(), transferable.av(), r.av())
//@end
//@fn wasm::primitives::signer::SignerWrapper::sign_unindexed as sign_unindexed
//@params ser
    ensures r_signer_sign_unindexed(self.0, ser.av(), r.av())
//@end
//@fn wasm::primitives::signer::SignerWrapper::sign_indexed as sign_indexed
//@params ser only index ondex
    ensures r_signer_sign_indexed(self.0, ser.av(), only.av(), index.av(), ondex.av(), r.av())
//@end
//@fn wasm::primitives::signer::SignerWrapper::verfer as verfer
    ensures r_signer_verfer(self.0, r.av())
//@end
//@fn wasm::primitives::signer::SignerWrapper::code as code
    ensures r_signer_code(self.0, r.av())
//@end
//@fn wasm::primitives::signer::SignerWrapper::size as size
    ensures r_signer_size(self.0, r.av())
//@end
//@fn wasm::primitives::signer::SignerWrapper::raw as raw
    ensures r_signer_raw(self.0, r.av())
//@end
//@fn wasm::primitives::signer::SignerWrapper::qb64 as qb64
    ensures r_signer_qb64(self.0, r.av())
//@end
//@fn wasm::primitives::signer::SignerWrapper::qb64b as qb64b
    ensures r_signer_qb64b(self.0, r.av())
//@end
//@fn wasm::primitives::signer::SignerWrapper::qb2 as qb2
    ensures r_signer_qb2(self.0, r.av())
//@end
}
impl SalterWrapper {
//@fn wasm::primitives::salter::SalterWrapper::new as new
//@params tier code raw qb64b qb64 qb2
    ensures r_salter_new(tier.av(), code.av(), raw.av(), qb64b.av(), qb64.av(), qb2.av(), r.av())
//@end
//@fn wasm::primitives::salter::SalterWrapper::new_with_defaults as new_with_defaults
//@params tier
    ensures r_salter_new_with_defaults(tier.av(), r.av())
//@end
//@fn wasm::primitives::salter::SalterWrapper::new_with_raw as new_with_raw
//@params raw code tier
    ensures r_salter_new_with_raw(raw.av(), code.av(), tier.av(), r.av())
//@end
//@fn wasm::primitives::salter::SalterWrapper::new_with_qb64b as new_with_qb64b
//@params qb64b tier
    ensures r_salter_new_with_qb64b(qb64b.av(), tier.av(), r.av())
//@end
//@fn wasm::primitives::salter::SalterWrapper::new_with_qb64 as new_with_qb64
//@params qb64 tier
    ensures r_salter_new_with_qb64(qb64.av(), tier.av(), r.av())
//@end
//@fn wasm::primitives::salter::SalterWrapper::new_with_qb2 as new_with_qb2
//@params qb2 tier
    ensures r_salter_new_with_qb2(qb2.av(), tier.av(), r.av())
//@end
//@fn wasm::primitives::salter::SalterWrapper::stretch as stretch
//@params size path tier temp
    ensures r_salter_stretch(self.0, size.av(), path.av(), tier.av(), temp.av(), r.av())
//@end
//@fn wasm::primitives::salter::SalterWrapper::tier as tier
    ensures r_salter_tier(self.0, r.av())
//@end
//@fn wasm::primitives::salter::SalterWrapper::signer as signer
//@params code transferable path tier temp
    ensures r_salter_signer(self.0, code.av(), transferable.av(), path.av(), tier.av(), temp.av(), r.av())
//@end
//@fn wasm::primitives::salter::SalterWrapper::signers as signers
//@params count start path code transferable tier temp
    ensures r_salter_signers(self.0, count.av(), start.av(), path.av(), code.av(), transferable.av(), tier.av(), temp.av(), r.av())
//@loop 0
        __o.av() =~= __v0.av().take(__i0 as int), __i0 == __v0@.len() ==> __o.av() =~= __v0.av(),
//@end
//@fn wasm::primitives::salter::SalterWrapper::code as code
    ensures r_salter_code(self.0, r.av())
//@end
//@fn wasm::primitives::salter::SalterWrapper::size as size
    ensures r_salter_size(self.0, r.av())
//@end
//@fn wasm::primitives::salter::SalterWrapper::raw as raw
    ensures r_salter_raw(self.0, r.av())
//@end
//@fn wasm::primitives::salter::SalterWrapper::qb64 as qb64
    ensures r_salter_qb64(self.0, r.av())
//@end
//@fn wasm::primitives::salter::SalterWrapper::qb64b as qb64b
    ensures r_salter_qb64b(self.0, r.av())
//@end
//@fn wasm::primitives::salter::SalterWrapper::qb2 as qb2
    ensures r_salter_qb2(self.0, r.av())
//@end
}
impl SeqnerWrapper {
//@fn wasm::primitives::seqner::SeqnerWrapper::new as new
//@params sn snh code raw qb64b qb64 qb2
    ensures r_seqner_new(sn.av(), snh.av(), code.av(), raw.av(), qb64b.av(), qb64.av(), qb2.av(), r.av())
//@end
//@fn wasm::primitives::seqner::SeqnerWrapper::new_with_sn as new_with_sn
//@params sn
    ensures r_seqner_new_with_sn(sn.av(), r.av())
//@end
//@fn wasm::primitives::seqner::SeqnerWrapper::new_with_snh as new_with_snh
//@params snh
    ensures r_seqner_new_with_snh(snh.av(), r.av())
//@end
//@fn wasm::primitives::seqner::SeqnerWrapper::new_with_raw as new_with_raw
//@params raw code
    ensures r_seqner_new_with_raw(raw.av(), code.av(), r.av())
//@end
//@fn wasm::primitives::seqner::SeqnerWrapper::new_with_qb64b as new_with_qb64b
//@params qb64b
    ensures r_seqner_new_with_qb64b(qb64b.av(), r.av())
//@end
//@fn wasm::primitives::seqner::SeqnerWrapper::new_with_qb64 as new_with_qb64
//@params qb64
    ensures r_seqner_new_with_qb64(qb64.av(), r.av())
//@end
//@fn wasm::primitives::seqner::SeqnerWrapper::new_with_qb2 as new_with_qb2
//@params qb2
    ensures r_seqner_new_with_qb2(qb2.av(), r.av())
//@end
//@fn wasm::primitives::seqner::SeqnerWrapper::sn as sn
    ensures r_seqner_sn(self.0, r.av())
//@end
//@fn wasm::primitives::seqner::SeqnerWrapper::snh as snh
    ensures r_seqner_snh(self.0, r.av())
//@end
//@fn wasm::primitives::seqner::SeqnerWrapper::code as code
    ensures r_seqner_code(self.0, r.av())
//@end
//@fn wasm::primitives::seqner::SeqnerWrapper::size as size
    ensures r_seqner_size(self.0, r.av())
//@end
//@fn wasm::primitives::seqner::SeqnerWrapper::raw as raw
    ensures r_seqner_raw(self.0, r.av())
//@end
//@fn wasm::primitives::seqner::SeqnerWrapper::qb64 as qb64
    ensures r_seqner_qb64(self.0, r.av())
//@end
//@fn wasm::primitives::seqner::SeqnerWrapper::qb64b as qb64b
    ensures r_seqner_qb64b(self.0, r.av())
//@end
//@fn wasm::primitives::seqner::SeqnerWrapper::qb2 as qb2
    ensures r_seqner_qb2(self.0, r.av())
//@end
}
impl NumberWrapper {
//@fn wasm::primitives::number::NumberWrapper::new as new
//@params num numh code raw qb64b qb64 qb2
    ensures r_number_new(num.av(), numh.av(), code.av(), raw.av(), qb64b.av(), qb64.av(), qb2.av(), r.av())
//@end
//@fn wasm::primitives::number::NumberWrapper::new_with_num as new_with_num
//@params num
    ensures r_number_new_with_num(num.av(), r.av())
//@end
//@fn wasm::primitives::number::NumberWrapper::new_with_numh as new_with_numh
//@params numh
    ensures r_number_new_with_numh(numh.av(), r.av())
//@end
//@fn wasm::primitives::number::NumberWrapper::new_with_raw as new_with_raw
//@params raw code
    ensures r_number_new_with_raw(raw.av(), code.av(), r.av())
//@end
//@fn wasm::primitives::number::NumberWrapper::new_with_qb64b as new_with_qb64b
//@params qb64b
    ensures r_number_new_with_qb64b(qb64b.av(), r.av())
//@end
//@fn wasm::primitives::number::NumberWrapper::new_with_qb64 as new_with_qb64
//@params qb64
    ensures r_number_new_with_qb64(qb64.av(), r.av())
//@end
//@fn wasm::primitives::number::NumberWrapper::new_with_qb2 as new_with_qb2
//@params qb2
    ensures r_number_new_with_qb2(qb2.av(), r.av())
//@end
//@fn wasm::primitives::number::NumberWrapper::num as num
    ensures r_number_num(self.0, r.av())
//@end
//@fn wasm::primitives::number::NumberWrapper::numh as numh
    ensures r_number_numh(self.0, r.av())
//@end
//@fn wasm::primitives::number::NumberWrapper::code as code
    ensures r_number_code(self.0, r.av())
//@end
//@fn wasm::primitives::number::NumberWrapper::size as size
    ensures r_number_size(self.0, r.av())
//@end
//@fn wasm::primitives::number::NumberWrapper::raw as raw
    ensures r_number_raw(self.0, r.av())
//@end
//@fn wasm::primitives::number::NumberWrapper::qb64 as qb64
    ensures r_number_qb64(self.0, r.av())
//@end
//@fn wasm::primitives::number::NumberWrapper::qb64b as qb64b
    ensures r_number_qb64b(self.0, r.av())
//@end
//@fn wasm::primitives::number::NumberWrapper::qb2 as qb2
    ensures r_number_qb2(self.0, r.av())
//@end
}
impl DaterWrapper {
//@fn wasm::primitives::dater::DaterWrapper::new as new
//@params dts code raw qb64b qb64 qb2
    ensures r_dater_new(dts.av(), code.av(), raw.av(), qb64b.av(), qb64.av(), qb2.av(), r.av())
//@end
//@fn wasm::primitives::dater::DaterWrapper::new_with_dts as new_with_dts
//@params dts code
    ensures r_dater_new_with_dts(dts.av(), code.av(), r.av())
//@end
//@fn wasm::primitives::dater::DaterWrapper::new_with_raw as new_with_raw
//@params raw code
    ensures r_dater_new_with_raw(raw.av(), code.av(), r.av())
//@end
//@fn wasm::primitives::dater::DaterWrapper::new_with_qb64b as new_with_qb64b
//@params qb64b
    ensures r_dater_new_with_qb64b(qb64b.av(), r.av())
//@end
//@fn wasm::primitives::dater::DaterWrapper::new_with_qb64 as new_with_qb64
//@params qb64
    ensures r_dater_new_with_qb64(qb64.av(), r.av())
//@end
//@fn wasm::primitives::dater::DaterWrapper::new_with_qb2 as new_with_qb2
//@params qb2
    ensures r_dater_new_with_qb2(qb2.av(), r.av())
//@end
//@fn wasm::primitives::dater::DaterWrapper::dts as dts
    ensures r_dater_dts(self.0, r.av())
//@end
//@fn wasm::primitives::dater::DaterWrapper::dtsb as dtsb
    ensures r_dater_dtsb(self.0, r.av())
//@end
//@fn wasm::primitives::dater::DaterWrapper::code as code
    ensures r_dater_code(self.0, r.av())
//@end
//@fn wasm::primitives::dater::DaterWrapper::size as size
    ensures r_dater_size(self.0, r.av())
//@end
//@fn wasm::primitives::dater::DaterWrapper::raw as raw
    ensures r_dater_raw(self.0, r.av())
//@end
//@fn wasm::primitives::dater::DaterWrapper::qb64 as qb64
    ensures r_dater_qb64(self.0, r.av())
//@end
//@fn wasm::primitives::dater::DaterWrapper::qb64b as qb64b
    ensures r_dater_qb64b(self.0, r.av())
//@end
//@fn wasm::primitives::dater::DaterWrapper::qb2 as qb2
    ensures r_dater_qb2(self.0, r.av())
//@end
}
impl BexterWrapper {
//@fn wasm::primitives::bexter::BexterWrapper::new as new
//@params bext code raw qb64b qb64 qb2
    ensures r_bexter_new(bext.av(), code.av(), raw.av(), qb64b.av(), qb64.av(), qb2.av(), r.av())
//@end
//@fn wasm::primitives::bexter::BexterWrapper::new_with_bext as new_with_bext
//@params bext
    ensures r_bexter_new_with_bext(bext.av(), r.av())
//@end
//@fn wasm::primitives::bexter::BexterWrapper::new_with_raw as new_with_raw
//@params raw code
    ensures r_bexter_new_with_raw(raw.av(), code.av(), r.av())
//@end
//@fn wasm::primitives::bexter::BexterWrapper::new_with_qb64b as new_with_qb64b
//@params qb64b
    ensures r_bexter_new_with_qb64b(qb64b.av(), r.av())
//@end
//@fn wasm::primitives::bexter::BexterWrapper::new_with_qb64 as new_with_qb64
//@params qb64
    ensures r_bexter_new_with_qb64(qb64.av(), r.av())
//@end
//@fn wasm::primitives::bexter::BexterWrapper::new_with_qb2 as new_with_qb2
//@params qb2
    ensures r_bexter_new_with_qb2(qb2.av(), r.av())
//@end
//@fn wasm::primitives::bexter::BexterWrapper::bext as bext
    ensures r_bexter_bext(self.0, r.av())
//@end
//@fn wasm::primitives::bexter::BexterWrapper::code as code
    ensures r_bexter_code(self.0, r.av())
//@end
//@fn wasm::primitives::bexter::BexterWrapper::size as size
    ensures r_bexter_size(self.0, r.av())
//@end
//@fn wasm::primitives::bexter::BexterWrapper::raw as raw
    ensures r_bexter_raw(self.0, r.av())
//@end
//@fn wasm::primitives::bexter::BexterWrapper::qb64 as qb64
    ensures r_bexter_qb64(self.0, r.av())
//@end
//@fn wasm::primitives::bexter::BexterWrapper::qb64b as qb64b
    ensures r_bexter_qb64b(self.0, r.av())
//@end
//@fn wasm::primitives::bexter::BexterWrapper::qb2 as qb2
    ensures r_bexter_qb2(self.0, r.av())
//@end
}
impl PrefixerWrapper {
//@fn wasm::primitives::prefixer::PrefixerWrapper::new as new
//@params ked allows code raw qb64b qb64 qb2
    requires ked is Some ==> is_json((ked->0).0@)
    ensures r_prefixer_new(ked.av(), allows.av(), code.av(), raw.av(), qb64b.av(), qb64.av(), qb2.av(), r.av())
//@loop 0
        __o.av() =~= __v0.av().take(__i0 as int), __i0 == __v0@.len() ==> __o.av() =~= __v0.av(),
//@loop 1
        __o.av() =~= __v1.av().take(__i1 as int), __i1 == __v1@.len() ==> __o.av() =~= __v1.av(),
//@end
//@fn wasm::primitives::prefixer::PrefixerWrapper::new_with_ked as new_with_ked
//@params ked allows code
    requires is_json(ked.0@)
    ensures r_prefixer_new_with_ked(ked.av(), allows.av(), code.av(), r.av())
//@loop 0
        __o.av() =~= __v0.av().take(__i0 as int), __i0 == __v0@.len() ==> __o.av() =~= __v0.av(),
//@loop 1
        __o.av() =~= __v1.av().take(__i1 as int), __i1 == __v1@.len() ==> __o.av() =~= __v1.av(),
//@end
//@fn wasm::primitives::prefixer::PrefixerWrapper::new_with_raw as new_with_raw
//@params raw code
    ensures r_prefixer_new_with_raw(raw.av(), code.av(), r.av())
//@end
//@fn wasm::primitives::prefixer::PrefixerWrapper::new_with_qb64b as new_with_qb64b
//@params qb64b
    ensures r_prefixer_new_with_qb64b(qb64b.av(), r.av())
//@end
//@fn wasm::primitives::prefixer::PrefixerWrapper::new_with_qb64 as new_with_qb64
//@params qb64
    ensures r_prefixer_new_with_qb64(qb64.av(), r.av())
//@end
//@fn wasm::primitives::prefixer::PrefixerWrapper::new_with_qb2 as new_with_qb2
//@params qb2
    ensures r_prefixer_new_with_qb2(qb2.av(), r.av())
//@end
//@fn wasm::primitives::prefixer::PrefixerWrapper::verify as verify
//@params ked prefixed
    requires is_json(ked.0@)
    ensures r_prefixer_verify(self.0, ked.av(), prefixed.av(), r.av())
//@end
//@fn wasm::primitives::prefixer::PrefixerWrapper::code as code
    ensures r_prefixer_code(self.0, r.av())
//@end
//@fn wasm::primitives::prefixer::PrefixerWrapper::size as size
    ensures r_prefixer_size(self.0, r.av())
//@end
//@fn wasm::primitives::prefixer::PrefixerWrapper::raw as raw
    ensures r_prefixer_raw(self.0, r.av())
//@end
//@fn wasm::primitives::prefixer::PrefixerWrapper::qb64 as qb64
    ensures r_prefixer_qb64(self.0, r.av())
//@end
//@fn wasm::primitives::prefixer::PrefixerWrapper::qb64b as qb64b
    ensures r_prefixer_qb64b(self.0, r.av())
//@end
//@fn wasm::primitives::prefixer::PrefixerWrapper::qb2 as qb2
    ensures r_prefixer_qb2(self.0, r.av())
//@end
}
impl SaiderWrapper {
//@fn wasm::primitives::saider::SaiderWrapper::new as new
//@params sad label kind ignore code raw qb64b qb64 qb2
    requires sad is Some ==> is_json((sad->0).0@)
    ensures r_saider_new(sad.av(), label.av(), kind.av(), ignore.av(), code.av(), raw.av(), qb64b.av(), qb64.av(), qb2.av(), r.av())
//@loop 0
        __o.av() =~= __v0.av().take(__i0 as int), __i0 == __v0@.len() ==> __o.av() =~= __v0.av(),
//@loop 1
        __o.av() =~= __v1.av().take(__i1 as int), __i1 == __v1@.len() ==> __o.av() =~= __v1.av(),
//@end
//@fn wasm::primitives::saider::SaiderWrapper::saidify as saidify
//@params sad code kind label ignore
    requires is_json(sad.0@)
    ensures r is Err ==> r_saider_saidify(sad.av(), code.av(), kind.av(), label.av(), ignore.av(), None), r is Ok ==> r_saider_saidify_text(sad.av(), code.av(), kind.av(), label.av(), ignore.av(), (r->Ok_0).saider.0, (r->Ok_0).value@)
//@loop 0
        __o.av() =~= __v0.av().take(__i0 as int), __i0 == __v0@.len() ==> __o.av() =~= __v0.av(),
//@loop 1
        __o.av() =~= __v1.av().take(__i1 as int), __i1 == __v1@.len() ==> __o.av() =~= __v1.av(),
//@end
//@fn wasm::primitives::saider::SaiderWrapper::verify as verify
//@params sad prefixed versioned kind label ignore
    requires is_json(sad.0@)
    ensures r_saider_verify(self.0, sad.av(), prefixed.av(), versioned.av(), kind.av(), label.av(), ignore.av(), r.av())
//@loop 0
        __o.av() =~= __v0.av().take(__i0 as int), __i0 == __v0@.len() ==> __o.av() =~= __v0.av(),
//@loop 1
        __o.av() =~= __v1.av().take(__i1 as int), __i1 == __v1@.len() ==> __o.av() =~= __v1.av(),
//@end
//@fn wasm::primitives::saider::SaiderWrapper::new_with_sad as new_with_sad
//@params sad label kind ignore code
    requires is_json(sad.0@)
    ensures r_saider_new_with_sad(sad.av(), label.av(), kind.av(), ignore.av(), code.av(), r.av())
//@loop 0
        __o.av() =~= __v0.av().take(__i0 as int), __i0 == __v0@.len() ==> __o.av() =~= __v0.av(),
//@loop 1
        __o.av() =~= __v1.av().take(__i1 as int), __i1 == __v1@.len() ==> __o.av() =~= __v1.av(),
//@end
//@fn wasm::primitives::saider::SaiderWrapper::new_with_raw as new_with_raw
//@params raw code
    ensures r_saider_new_with_raw(raw.av(), code.av(), r.av())
//@end
//@fn wasm::primitives::saider::SaiderWrapper::new_with_qb64b as new_with_qb64b
//@params qb64b
    ensures r_saider_new_with_qb64b(qb64b.av(), r.av())
//@end
//@fn wasm::primitives::saider::SaiderWrapper::new_with_qb64 as new_with_qb64
//@params qb64
    ensures r_saider_new_with_qb64(qb64.av(), r.av())
//@end
//@fn wasm::primitives::saider::SaiderWrapper::new_with_qb2 as new_with_qb2
//@params qb2
    ensures r_saider_new_with_qb2(qb2.av(), r.av())
//@end
//@fn wasm::primitives::saider::SaiderWrapper::code as code
    ensures r_saider_code(self.0, r.av())
//@end
//@fn wasm::primitives::saider::SaiderWrapper::size as size
    ensures r_saider_size(self.0, r.av())
//@end
//@fn wasm::primitives::saider::SaiderWrapper::raw as raw
    ensures r_saider_raw(self.0, r.av())
//@end
//@fn wasm::primitives::saider::SaiderWrapper::qb64 as qb64
    ensures r_saider_qb64(self.0, r.av())
//@end
//@fn wasm::primitives::saider::SaiderWrapper::qb64b as qb64b
    ensures r_saider_qb64b(self.0, r.av())
//@end
//@fn wasm::primitives::saider::SaiderWrapper::qb2 as qb2
    ensures r_saider_qb2(self.0, r.av())
//@end
}
impl TholderWrapper {
//@fn wasm::primitives::tholder::TholderWrapper::new as new
//@params thold limen sith
    requires thold is Some ==> is_json((thold->0).0@), sith is Some ==> is_json((sith->0).0@)
    ensures r_tholder_new(thold.av(), limen.av(), sith.av(), r.av())
//@end
//@fn wasm::primitives::tholder::TholderWrapper::new_with_thold as new_with_thold
//@params thold
    requires is_json(thold.0@)
    ensures r_tholder_new_with_thold(thold.av(), r.av())
//@end
//@fn wasm::primitives::tholder::TholderWrapper::new_with_limen as new_with_limen
//@params limen
    ensures r_tholder_new_with_limen(limen.av(), r.av())
//@end
//@fn wasm::primitives::tholder::TholderWrapper::new_with_sith as new_with_sith
//@params sith
    requires is_json(sith.0@)
    ensures r_tholder_new_with_sith(sith.av(), r.av())
//@end
//@fn wasm::primitives::tholder::TholderWrapper::thold as thold
    ensures exists|v: Value| #[trigger] r_tholder_thold(self.0, v) && r.0@ == jtext(v)
//@end
//@fn wasm::primitives::tholder::TholderWrapper::weighted as weighted
    ensures r_tholder_weighted(self.0, r.av())
//@end
//@fn wasm::primitives::tholder::TholderWrapper::size as size
    ensures r_tholder_size(self.0, r.av())
//@end
//@fn wasm::primitives::tholder::TholderWrapper::num as num
    ensures r_tholder_num(self.0, r.av())
//@end
//@fn wasm::primitives::tholder::TholderWrapper::number as number
    ensures r_tholder_number(self.0, r.av())
//@end
//@fn wasm::primitives::tholder::TholderWrapper::bexter as bexter
    ensures r_tholder_bexter(self.0, r.av())
//@end
//@fn wasm::primitives::tholder::TholderWrapper::limen as limen
    ensures r_tholder_limen(self.0, r.av())
//@end
//@fn wasm::primitives::tholder::TholderWrapper::sith as sith
    ensures r is Err ==> r_tholder_sith(self.0, None), r is Ok ==> exists|v: Value| #[trigger] r_tholder_sith(self.0, Some(v)) && (r->Ok_0).0@ == jtext(v)
//@end
//@fn wasm::primitives::tholder::TholderWrapper::to_json as to_json
    ensures r_tholder_to_json(self.0, r.av())
//@end
//@fn wasm::primitives::tholder::TholderWrapper::satisfy as satisfy
//@params indices
    ensures r_tholder_satisfy(self.0, indices.av(), r.av())
//@end
}
impl SerderWrapper {
//@fn wasm::primitives::serder::SerderWrapper::new as new
//@params code raw kind ked sad
    requires ked is Some ==> is_json((ked->0).0@)
    ensures r_serder_new(code.av(), raw.av(), kind.av(), ked.av(), sad.av(), r.av())
//@end
//@fn wasm::primitives::serder::SerderWrapper::new_with_ked as new_with_ked
//@params ked code kind
    requires is_json(ked.0@)
    ensures r_serder_new_with_ked(ked.av(), code.av(), kind.av(), r.av())
//@end
//@fn wasm::primitives::serder::SerderWrapper::verfers as verfers
    ensures r is Err ==> r_serder_verfers(self.0, None), r is Ok ==> exists|s: Seq<Verfer>| #[trigger] r_serder_verfers(self.0, Some(s)) && (s.len() <= 0xffff_ffff ==> (r->Ok_0)@ == Seq::new(s.len(), |i: int| js_of_verfer(s[i])))
//@loop 0
        verfers@.len() <= 0xffff_ffff ==> arr@.len() == verfers@.len(), __e0 == verfers@.len(),
        forall|j: int| 0 <= j < __i0 && verfers@.len() <= 0xffff_ffff ==> arr@[j] == js_of_verfer(verfers@[j]),
//@tail
    proof { assert(r_serder_verfers(self.0, Some(verfers@)));
    if verfers@.len() <= 0xffff_ffff { assert(arr@ =~= Seq::new(verfers@.len(), |i: int| js_of_verfer(verfers@[i]))); } }
//@end
//@fn wasm::primitives::serder::SerderWrapper::digers as digers
    ensures r is Err ==> r_serder_digers(self.0, None), r is Ok ==> exists|s: Seq<Diger>| #[trigger] r_serder_digers(self.0, Some(s)) && (s.len() <= 0xffff_ffff ==> (r->Ok_0)@ == Seq::new(s.len(), |i: int| js_of_diger(s[i])))
//@loop 0
        digers@.len() <= 0xffff_ffff ==> arr@.len() == digers@.len(), __e0 == digers@.len(),
        forall|j: int| 0 <= j < __i0 && digers@.len() <= 0xffff_ffff ==> arr@[j] == js_of_diger(digers@[j]),
//@tail
    proof { assert(r_serder_digers(self.0, Some(digers@)));
    if digers@.len() <= 0xffff_ffff { assert(arr@ =~= Seq::new(digers@.len(), |i: int| js_of_diger(digers@[i]))); } }
//@end
//@fn wasm::primitives::serder::SerderWrapper::werfers as werfers
    ensures r is Err ==> r_serder_werfers(self.0, None), r is Ok ==> exists|s: Seq<Verfer>| #[trigger] r_serder_werfers(self.0, Some(s)) && (s.len() <= 0xffff_ffff ==> (r->Ok_0)@ == Seq::new(s.len(), |i: int| js_of_verfer(s[i])))
//@loop 0
        werfers@.len() <= 0xffff_ffff ==> arr@.len() == werfers@.len(), __e0 == werfers@.len(),
        forall|j: int| 0 <= j < __i0 && werfers@.len() <= 0xffff_ffff ==> arr@[j] == js_of_verfer(werfers@[j]),
//@tail
    proof { assert(r_serder_werfers(self.0, Some(werfers@)));
    if werfers@.len() <= 0xffff_ffff { assert(arr@ =~= Seq::new(werfers@.len(), |i: int| js_of_verfer(werfers@[i]))); } }
//@end
//@fn wasm::primitives::serder::SerderWrapper::tholder as tholder
    ensures r_serder_tholder(self.0, r.av())
//@end
//@fn wasm::primitives::serder::SerderWrapper::ntholder as ntholder
    ensures r_serder_ntholder(self.0, r.av())
//@end
//@fn wasm::primitives::serder::SerderWrapper::sner as sner
    ensures r_serder_sner(self.0, r.av())
//@end
//@fn wasm::primitives::serder::SerderWrapper::sn as sn
    ensures r_serder_sn(self.0, r.av())
//@end
//@fn wasm::primitives::serder::SerderWrapper::fner as fner
    ensures r_serder_fner(self.0, r.av())
//@end
//@fn wasm::primitives::serder::SerderWrapper::_fn as _fn
    ensures r_serder__fn(self.0, r.av())
//@end
//@fn wasm::primitives::serder::SerderWrapper::code as code
    ensures r_serder_code(self.0, r.av())
//@end
//@fn wasm::primitives::serder::SerderWrapper::raw as raw
    ensures r_serder_raw(self.0, r.av())
//@end
//@fn wasm::primitives::serder::SerderWrapper::ked as ked
    ensures exists|v: Value| #[trigger] r_serder_ked(self.0, v) && r.0@ == jtext(v)
//@end
//@fn wasm::primitives::serder::SerderWrapper::ident as ident
    ensures r_serder_ident(self.0, r.av())
//@end
//@fn wasm::primitives::serder::SerderWrapper::kind as kind
    ensures r_serder_kind(self.0, r.av())
//@end
//@fn wasm::primitives::serder::SerderWrapper::size as size
    ensures r_serder_size(self.0, r.av())
//@end
//@fn wasm::primitives::serder::SerderWrapper::version as version
    ensures r_serder_version(self.0, r.av())
//@end
//@fn wasm::primitives::serder::SerderWrapper::saider as saider
    ensures r_serder_saider(self.0, r.av())
//@end
}
//@struct wasm::primitives::codex::CesrideMatterCodex as CesrideMatterCodex
/// the matter codes by name (the CESR table)
pub open spec fn codex_matter(c: CesrideMatterCodex) -> Seq<u8> { match c { CesrideMatterCodex::Ed25519Seed => L"A", CesrideMatterCodex::Ed25519N => L"B", CesrideMatterCodex::X25519 => L"C", CesrideMatterCodex::Ed25519 => L"D", CesrideMatterCodex::Blake3_256 => L"E", CesrideMatterCodex::Blake2b_256 => L"F", CesrideMatterCodex::Blake2s_256 => L"G", CesrideMatterCodex::SHA3_256 => L"H", CesrideMatterCodex::SHA2_256 => L"I", CesrideMatterCodex::ECDSA_256k1_Seed => L"J", CesrideMatterCodex::Ed448_Seed => L"K", CesrideMatterCodex::X448 => L"L", CesrideMatterCodex::Short => L"M", CesrideMatterCodex::Big => L"N", CesrideMatterCodex::X25519_Private => L"O", CesrideMatterCodex::X25519_Cipher_Seed => L"P", CesrideMatterCodex::Salt_128 => L"0A", CesrideMatterCodex::Ed25519_Sig => L"0B", CesrideMatterCodex::ECDSA_256k1_Sig => L"0C", CesrideMatterCodex::Blake3_512 => L"0D", CesrideMatterCodex::Blake2b_512 => L"0E", CesrideMatterCodex::SHA3_512 => L"0F", CesrideMatterCodex::SHA2_512 => L"0G", CesrideMatterCodex::Long => L"0H", CesrideMatterCodex::ECDSA_256k1N => L"1AAA", CesrideMatterCodex::ECDSA_256k1 => L"1AAB", CesrideMatterCodex::Ed448N => L"1AAC", CesrideMatterCodex::Ed448 => L"1AAD", CesrideMatterCodex::Ed448_Sig => L"1AAE", CesrideMatterCodex::Tern => L"1AAF", CesrideMatterCodex::DateTime => L"1AAG", CesrideMatterCodex::X25519_Cipher_Salt => L"1AAH", CesrideMatterCodex::TBD1 => L"2AAA", CesrideMatterCodex::TBD2 => L"3AAA", CesrideMatterCodex::StrB64_L0 => L"4A", CesrideMatterCodex::StrB64_L1 => L"5A", CesrideMatterCodex::StrB64_L2 => L"6A", CesrideMatterCodex::StrB64_Big_L0 => L"7AAA", CesrideMatterCodex::StrB64_Big_L1 => L"8AAA", CesrideMatterCodex::StrB64_Big_L2 => L"9AAA", CesrideMatterCodex::Bytes_L0 => L"4B", CesrideMatterCodex::Bytes_L1 => L"5B", CesrideMatterCodex::Bytes_L2 => L"6B", CesrideMatterCodex::Bytes_Big_L0 => L"7AAB", CesrideMatterCodex::Bytes_Big_L1 => L"8AAB", CesrideMatterCodex::Bytes_Big_L2 => L"9AAB" } }
impl CesrideMatterCodex {
//@fn wasm::primitives::codex::CesrideMatterCodex::code as code
    ensures r@ == codex_matter(*self)
//@end
}
//@fn wasm::primitives::codex::matter_codex_code as matter_codex_code
//@params codex
    ensures r@ == codex_matter(codex)
//@end
//@struct wasm::primitives::codex::CesrideIndexerCodex as CesrideIndexerCodex
/// the indexer codes by name (the CESR table)
pub open spec fn codex_indexer(c: CesrideIndexerCodex) -> Seq<u8> { match c { CesrideIndexerCodex::Ed25519 => L"A", CesrideIndexerCodex::Ed25519_Crt => L"B", CesrideIndexerCodex::ECDSA_256k1 => L"C", CesrideIndexerCodex::ECDSA_256k1_Crt => L"D", CesrideIndexerCodex::Ed448 => L"0A", CesrideIndexerCodex::Ed448_Crt => L"0B", CesrideIndexerCodex::Ed25519_Big => L"2A", CesrideIndexerCodex::Ed25519_Big_Crt => L"2B", CesrideIndexerCodex::ECDSA_256k1_Big => L"2C", CesrideIndexerCodex::ECDSA_256k1_Big_Crt => L"2D", CesrideIndexerCodex::Ed448_Big => L"3A", CesrideIndexerCodex::Ed448_Big_Crt => L"3B", CesrideIndexerCodex::TBD0 => L"0z", CesrideIndexerCodex::TBD1 => L"1z", CesrideIndexerCodex::TBD4 => L"4z" } }
impl CesrideIndexerCodex {
//@fn wasm::primitives::codex::CesrideIndexerCodex::code as code
    ensures r@ == codex_indexer(*self)
//@end
}
//@fn wasm::primitives::codex::indexer_codex_code as indexer_codex_code
//@params codex
    ensures r@ == codex_indexer(codex)
//@end
