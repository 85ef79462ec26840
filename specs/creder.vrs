//@imports sadder
// ------------------------------------------------------------------ credentials
//@include simpl.inc M=core::creder T=Creder N=creder P=L"ACDC"
