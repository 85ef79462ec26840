//@uses util enc
// ------------------------------------------------------------------ matter code tables (published CESR master code table)
pub open spec fn mknown(s: Seq<u8>) -> bool {
    ||| s.len() == 1 && 65 <= s[0] <= 81
    ||| s.len() == 2 && s[0] == 48 && 65 <= s[1] <= 73
    ||| s.len() == 2 && 52 <= s[0] <= 54 && 65 <= s[1] <= 66
    ||| s.len() == 4 && s[1] == 65 && s[2] == 65 && (s[0] == 49 && 65 <= s[3] <= 74 || 50 <= s[0] <= 51 && s[3] == 65 || 55 <= s[0] <= 57 && 65 <= s[3] <= 66)
}
pub open spec fn mss(s: Seq<u8>) -> nat { if 52 <= s[0] <= 54 { 2 } else if 55 <= s[0] <= 57 { 4 } else { 0 } }
pub open spec fn mls(s: Seq<u8>) -> nat { if s[0] == 50 || s[0] == 53 || s[0] == 56 { 1 } else if s[0] == 51 || s[0] == 54 || s[0] == 57 { 2 } else { 0 } }
pub open spec fn mvar(s: Seq<u8>) -> bool { 52 <= s[0] <= 57 }
pub open spec fn mfs(s: Seq<u8>) -> nat {
    if s.len() == 1 { if s[0] == 75 || s[0] == 76 { 76 } else if s[0] == 77 { 4 } else if s[0] == 78 { 12 } else if s[0] == 80 { 124 } else { 44 } }
    else if s.len() == 2 { if s[1] == 65 { 24 } else if s[1] == 72 { 8 } else { 88 } }
    else if s[0] == 49 { if s[3] == 67 || s[3] == 68 { 80 } else if s[3] == 69 { 56 } else if s[3] == 70 { 8 } else if s[3] == 71 { 36 } else if s[3] == 72 { 100 } else { 48 } }
    else { 8 }
}
pub open spec fn mhs(c: u8) -> nat { if 65 <= c <= 90 || 97 <= c <= 122 { 1 } else if c == 48 || 52 <= c <= 54 { 2 } else { 4 } }
/// whole code size
pub open spec fn mcs(s: Seq<u8>) -> nat { s.len() + mss(s) }
/// raw size of a fixed size code
pub open spec fn mrz(s: Seq<u8>) -> int { (mfs(s) - s.len()) * 3 / 4 - mls(s) }

pub proof fn lemma_cid4(s: Seq<u8>)
    ensures s.len() == 0 <==> cid(s) == 1,
        s.len() == 1 ==> cid(s) == 256 + s[0], s.len() == 1 <==> 256 <= cid(s) < 0x200,
        s.len() == 2 ==> cid(s) == 0x1_0000 + s[0] * 256 + s[1], s.len() == 2 <==> 0x1_0000 <= cid(s) < 0x2_0000,
        s.len() == 3 ==> cid(s) == 0x100_0000 + s[0] * 0x1_0000 + s[1] * 256 + s[2], s.len() == 3 <==> 0x100_0000 <= cid(s) < 0x200_0000,
        s.len() == 4 ==> cid(s) == 0x1_0000_0000 + s[0] * 0x100_0000 + s[1] * 0x1_0000 + s[2] * 256 + s[3], s.len() == 4 <==> 0x1_0000_0000 <= cid(s) < 0x2_0000_0000,
        s.len() == 5 ==> cid(s) == 0x100_0000_0000 + s[0] * 0x1_0000_0000 + s[1] * 0x100_0000 + s[2] * 0x1_0000 + s[3] * 256 + s[4], s.len() == 5 <==> 0x100_0000_0000 <= cid(s) < 0x200_0000_0000,
{
    lemma_cidn(s, 6);
    reveal_with_fuel(cid, 6);
}
pub open spec fn cid_lo(n: nat) -> int decreases n { if n == 0 { 1 } else { 256 * cid_lo((n - 1) as nat) } }
/// the length of a string decides the range of its identity
pub proof fn lemma_cid_range(s: Seq<u8>)
    ensures cid_lo(s.len()) <= cid(s) < 2 * cid_lo(s.len())
    decreases s.len()
{ if s.len() > 0 { lemma_cid_range(s.drop_last()); } }
pub proof fn lemma_cid_lo(a: nat, b: nat) requires a <= b ensures cid_lo(a) <= cid_lo(b), cid_lo(a) >= 1, a < b ==> 256 * cid_lo(a) <= cid_lo(b) decreases b
{ if a < b { lemma_cid_lo(a, (b - 1) as nat); } else if a > 0 { lemma_cid_lo((a - 1) as nat, (a - 1) as nat); } }
pub proof fn lemma_cidn(s: Seq<u8>, m: nat)
    ensures cid_lo(0) == 1, cid_lo(1) == 0x100, cid_lo(2) == 0x1_0000, cid_lo(3) == 0x100_0000, cid_lo(4) == 0x1_0000_0000, cid_lo(5) == 0x100_0000_0000, cid_lo(6) == 0x1_0000_0000_0000,
        s.len() == 0 <==> 1 <= cid(s) < 2, s.len() == 1 <==> 0x100 <= cid(s) < 0x200, s.len() == 2 <==> 0x1_0000 <= cid(s) < 0x2_0000,
        s.len() == 3 <==> 0x100_0000 <= cid(s) < 0x200_0000, s.len() == 4 <==> 0x1_0000_0000 <= cid(s) < 0x2_0000_0000, s.len() == 5 <==> 0x100_0000_0000 <= cid(s) < 0x200_0000_0000,
{
    assert(cid_lo(0) == 1 && cid_lo(1) == 0x100 && cid_lo(2) == 0x1_0000 && cid_lo(3) == 0x100_0000 && cid_lo(4) == 0x1_0000_0000 && cid_lo(5) == 0x100_0000_0000 && cid_lo(6) == 0x1_0000_0000_0000) by (compute_only);
    lemma_cid_range(s);
    if s.len() >= 6 { lemma_cid_lo(6, s.len()); }
    else if s.len() == 0 {} else if s.len() == 1 {} else if s.len() == 2 {} else if s.len() == 3 {} else if s.len() == 4 {} else { assert(s.len() == 5); }
}

//@struct core::matter::tables::Sizage as MSizage

//@fn core::matter::tables::sizage as m_sizage
//@params s
    ensures r is Ok <==> mknown(s@),
        r is Ok ==> ({ let z = r->Ok_0; &&& z.hs == s@.len() &&& z.ss == mss(s@) &&& z.ls == mls(s@) &&& z.fs == (if mvar(s@) { u32::MAX as nat } else { mfs(s@) }) })
//@start
    hide(cid);
    proof { lemma_cid4(s@); }
//@end

//@fn core::matter::tables::hardage as m_hardage
//@params c
    ensures r is Ok <==> (c as u32) < 128 && isb64(c as u8) && c != '-' && c != '_', r is Ok ==> r->Ok_0 == mhs(c as u8)
//@end

//@fn core::matter::tables::bardage as m_bardage
//@params b
    ensures r is Ok <==> b < 62, r is Ok ==> r->Ok_0 == mhs(b64c(b as int))
//@end

//@fn core::matter::tables::raw_size as m_raw_size
//@params code
    ensures r is Ok <==> mknown(code@) && !mvar(code@), r is Ok ==> r->Ok_0 == mrz(code@)
//@end

// ------------------------------------------------------------------ C06: the table is well formed
pub proof fn lemma_mtab(s: Seq<u8>)
    requires mknown(s)
    ensures
        b64s(s), ascii(s),
        // hard size = code length = size selected by first character and by first sextet
        s.len() == mhs(s[0]), b64v(s[0]) < 62,
        hlen(mcs(s) as int),
        // fixed sizes are whole quadlets filled exactly
        !mvar(s) ==> mfs(s) % 4 == 0 && mfs(s) >= mcs(s) + 3 * 1 - 1 && whole(s.len() as int, mls(s) as int, mrz(s)) && mrz(s) >= 0
            && s.len() + (s.len() % 4 + mls(s) + mrz(s)) / 3 * 4 - s.len() % 4 == mfs(s) && mss(s) == 0,
        // variable sizes: the code with its soft part is a whole number of quadlets
        mvar(s) ==> mcs(s) % 4 == 0 && mcs(s) == 2 * s.len() && mss(s) == s.len(),
        mls(s) <= 2, mcs(s) <= 8,
{
    assert forall|i: int| 0 <= i < s.len() implies isb64(#[trigger] s[i]) by { if i == 0 {} else if i == 1 {} else if i == 2 {} else {} }
    lemma_b64s_ascii(s);
}
