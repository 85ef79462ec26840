//@imports mtab
// ------------------------------------------------------------------ kinds of material (published CESR master code table)
/// digest codes: E F G H I and 0D 0E 0F 0G
pub open spec fn mdig(s: Seq<u8>) -> bool { s.len() == 1 && 69 <= s[0] <= 73 || s.len() == 2 && s[0] == 48 && 68 <= s[1] <= 71 }
/// codes of keys that cannot be rotated: B, 1AAA, 1AAC, 1AAI
pub open spec fn mntr(s: Seq<u8>) -> bool { s.len() == 1 && s[0] == 66 || s.len() == 4 && s[0] == 49 && s[1] == 65 && s[2] == 65 && (s[3] == 65 || s[3] == 67 || s[3] == 73) }
pub trait Matter: Sized {
    spec fn m_code(&self) -> Seq<u8>;
    fn code(&self) -> (r: XString) ensures r@ == self.m_code();

//@fn core::matter::Matter::digestive as digestive
    ensures r == mdig(self.m_code())
//@start
    hide(cid);
    proof { lemma_cid4(self.m_code()); }
//@end
//@fn core::matter::Matter::transferable as transferable
    ensures r == !mntr(self.m_code())
//@start
    hide(cid);
    proof { lemma_cid4(self.m_code()); }
//@end
}
