//@struct $M::$T as $T
impl XDefault for $T {
//@fn $M::$T.Default::default as default
//@end
}
impl Matter for $T {
    open spec fn m_code(&self) -> Seq<u8> { self.code@ }
    open spec fn m_size(&self) -> nat { self.size as nat }
    open spec fn m_raw(&self) -> Seq<u8> { self.raw@ }
//@fn $M::$T.Matter::code as code
//@end
//@fn $M::$T.Matter::size as size
//@end
//@fn $M::$T.Matter::raw as raw
//@end
//@fn $M::$T.Matter::set_code as set_code
//@end
//@fn $M::$T.Matter::set_size as set_size
//@end
//@fn $M::$T.Matter::set_raw as set_raw
//@end
}
/// #[derive(Clone)]
impl XClone for $T {
    open spec fn same(&self, o: &Self) -> bool { self == o }
    #[verifier::external_body] fn xclone(&self) -> (r: Self) { unimplemented!() }
}
