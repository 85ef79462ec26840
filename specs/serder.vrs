//@imports sadder
// ------------------------------------------------------------------ key events
//@include simpl.inc M=core::serder T=Serder N=serder P=L"KERI"
