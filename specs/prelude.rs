// Shims for the Rust standard library and the base64 crate: TRUSTED contracts.
// Every `external_body` below is an assumption, counted and listed in the evidence.
#![allow(unused_imports, unused_variables, dead_code, non_snake_case, non_upper_case_globals, unused_mut, unused_parens, unused_braces)]
use vstd::prelude::*;
pub mod prelude {
use vstd::prelude::*;
use super::lits::*;
verus! {
global size_of usize == 8;

// ---------------------------------------------------------------- errors
#[derive(Debug)]
pub struct VxErr {}
pub type Result<T> = core::result::Result<T, VxErr>;
pub fn vxerr() -> (r: VxErr) { VxErr {} }
/// reachable only if the precondition is violated: `unreachable!()`, `panic!()`
#[verifier::external_body]
pub fn vx_unreachable<T>() -> (r: T) requires false { unimplemented!() }

// ---------------------------------------------------------------- strings
#[verifier::external_body]
pub struct XString { s: String }
impl View for XString { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }

/// n copies of x
pub open spec fn rep<T>(x: T, n: nat) -> Seq<T> { Seq::new(n, |i: int| x) }
pub broadcast proof fn lemma_rep_sub<T>(x: T, n: nat, a: int, b: int)
    requires 0 <= a <= b <= n
    ensures #[trigger] rep(x, n).subrange(a, b) == rep(x, (b - a) as nat)
{ assert(rep(x, n).subrange(a, b) =~= rep(x, (b - a) as nat)); }
pub broadcast proof fn lemma_rep_len<T>(x: T, n: nat) ensures (#[trigger] rep(x, n)).len() == n {}
pub broadcast proof fn lemma_rep_0<T>(x: T, s: Seq<T>, n: nat) requires n == 0 ensures #[trigger] (s + rep(x, n)) == s, #[trigger] (rep(x, n) + s) == s
{ assert(s + rep(x, n) =~= s); assert(rep(x, n) + s =~= s); }
pub broadcast proof fn lemma_subsub<T>(s: Seq<T>, a: int, b: int, c: int, d: int)
    requires 0 <= a <= b <= s.len(), 0 <= c <= d <= b - a
    ensures #[trigger] s.subrange(a, b).subrange(c, d) == s.subrange(a + c, a + d)
{ assert(s.subrange(a, b).subrange(c, d) =~= s.subrange(a + c, a + d)); }
pub broadcast proof fn lemma_sub_all<T>(s: Seq<T>, n: int) requires n == s.len() ensures #[trigger] s.subrange(0, n) == s
{ assert(s.subrange(0, n) =~= s); }
pub broadcast proof fn lemma_cat_empty<T>(s: Seq<T>) ensures #[trigger] (Seq::<T>::empty() + s) == s, #[trigger] (s + Seq::<T>::empty()) == s
{ assert(Seq::<T>::empty() + s =~= s); assert(s + Seq::<T>::empty() =~= s); }
/// a cut behind the first part
pub broadcast proof fn lemma_sub_cat<T>(a: Seq<T>, b: Seq<T>, k: int)
    requires a.len() <= k <= a.len() + b.len()
    ensures #[trigger] (a + b).subrange(0, k) == a + b.subrange(0, k - a.len())
{ assert((a + b).subrange(0, k) =~= a + b.subrange(0, k - a.len())); }
pub broadcast group group_seq { lemma_sub_cat, lemma_rep_sub, lemma_rep_len, lemma_rep_0, lemma_subsub, lemma_sub_all, lemma_cat_empty, axiom_chars_ascii }

pub open spec fn ascii(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] < 128 }
/// UTF-8 character boundary (std::str::is_char_boundary)
pub open spec fn bnd(s: Seq<u8>, i: int) -> bool {
    i == 0 || i == s.len() || (0 < i < s.len() && !(0x80 <= s[i] < 0xC0))
}
/// valid UTF-8
pub uninterp spec fn utf8(s: Seq<u8>) -> bool;
pub broadcast axiom fn axiom_utf8(x: &XString) ensures utf8(#[trigger] x@);
pub axiom fn axiom_ascii_utf8(s: Seq<u8>) requires ascii(s) ensures utf8(s);
/// String::from_utf8_lossy; whole characters at the front of valid text are kept
pub uninterp spec fn lossy(s: Seq<u8>) -> Seq<u8>;
pub axiom fn axiom_lossy(s: Seq<u8>, n: int, k: int)
    requires utf8(s), 0 <= k <= n <= s.len(), bnd(s, k)
    ensures lossy(s.subrange(0, n)).len() >= k, lossy(s.subrange(0, n)).subrange(0, k) == s.subrange(0, k);
pub axiom fn axiom_lossy_ascii(s: Seq<u8>) requires ascii(s) ensures lossy(s) == s;
pub uninterp spec fn chars(s: Seq<u8>) -> Seq<char>;
/// a string of ASCII bytes is its own sequence of chars, and conversely
pub broadcast axiom fn axiom_chars_ascii(s: Seq<u8>)
    ensures
        ascii(s) ==> (#[trigger] chars(s)).len() == s.len() && forall|i: int| 0 <= i < s.len() ==> #[trigger] chars(s)[i] as u32 == s[i] as u32,
        (forall|i: int| 0 <= i < chars(s).len() ==> (#[trigger] chars(s)[i] as u32) < 128) ==> ascii(s),
        chars(s).len() <= s.len();
/// in valid UTF-8, the byte after an ASCII byte starts a character
pub axiom fn axiom_utf8_bnd(s: Seq<u8>, i: int)
    requires utf8(s), 0 <= i < s.len(), s[i] < 128
    ensures bnd(s, i + 1);
pub proof fn axiom_utf8_next(x: &XString, i: int)
    requires 0 <= i < x@.len(), x@[i] < 128
    ensures bnd(x@, i + 1)
{ axiom_utf8(x); axiom_utf8_bnd(x@, i); }

/// no byte string in memory is longer than 2^60 bytes (address spaces are far smaller)
pub axiom fn axiom_mem(s: &[u8]) ensures s@.len() <= 0x1000_0000_0000_0000;
pub axiom fn axiom_mem_str(s: &XString) ensures s@.len() <= 0x1000_0000_0000_0000;
pub axiom fn axiom_mem_vec(s: &Vec<u8>) ensures s@.len() <= 0x1000_0000_0000_0000;

/// order independent identity of a short code string
pub open spec fn cid(s: Seq<u8>) -> int decreases s.len() {
    if s.len() == 0 { 1 } else { cid(s.drop_last()) * 256 + s.last() as int }
}
pub proof fn lemma_cid_pos(s: Seq<u8>) ensures cid(s) >= 1 decreases s.len() {
    if s.len() > 0 { lemma_cid_pos(s.drop_last()); }
}
pub proof fn lemma_cid_inj(a: Seq<u8>, b: Seq<u8>)
    requires cid(a) == cid(b)
    ensures a == b
    decreases a.len()
{
    if a.len() == 0 {
        if b.len() > 0 { lemma_cid_pos(b.drop_last()); }
        assert(a =~= b);
    } else if b.len() == 0 {
        lemma_cid_pos(a.drop_last());
    } else {
        lemma_cid_inj(a.drop_last(), b.drop_last());
        assert(a =~= a.drop_last().push(a.last()));
        assert(b =~= b.drop_last().push(b.last()));
    }
}

impl XString {
    #[verifier::external_body]
    pub fn new() -> (r: XString) ensures r@ == Seq::<u8>::empty(), cid(r@) == 1 { unimplemented!() }
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: XString) ensures r@ == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn from(s: &XString) -> (r: XString) ensures r@ == s@ { unimplemented!() }
    /// String::from_utf8: Ok exactly on valid UTF-8; ASCII is valid UTF-8
    #[verifier::external_body]
    pub fn from_utf8(v: Vec<u8>) -> (r: Result<XString>)
        ensures r is Ok ==> r->Ok_0@ == v@, r is Ok <==> utf8(v@), ascii(v@) ==> r is Ok
    { unimplemented!() }
    /// what is not UTF-8 is replaced
    #[verifier::external_body]
    pub fn from_utf8_lossy(v: &[u8]) -> (r: XString) ensures r@ == lossy(v@) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn as_str(&self) -> (r: &XString) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn push_str(&mut self, s: &XString) ensures final(self)@ == old(self)@ + s@ { unimplemented!() }
    /// String::insert(0, ascii char)
    #[verifier::external_body]
    pub fn insert(&mut self, i: usize, c: char)
        requires bnd(old(self)@, i as int), c as u32 <= 127
        ensures final(self)@ == old(self)@.insert(i as int, c as u8)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn push(&mut self, c: char)
        requires c as u32 <= 127
        ensures final(self)@ == old(self)@.push(c as u8)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn is_char_boundary(&self, i: usize) -> (r: bool) ensures r == (i <= self@.len() && bnd(self@, i as int)) { unimplemented!() }
    #[verifier::external_body]
    pub fn xslice(&self, a: usize, b: usize) -> (r: &XString)
        requires a <= b <= self@.len(), bnd(self@, a as int), bnd(self@, b as int)
        ensures r@ == self@.subrange(a as int, b as int)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn xget_rng(&self, a: usize, b: usize) -> (r: Option<&XString>)
        ensures r is Some <==> a <= b <= self@.len() && bnd(self@, a as int) && bnd(self@, b as int), r is Some ==> r->0@ == self@.subrange(a as int, b as int)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn xslice_from(&self, a: usize) -> (r: &XString)
        requires a <= self@.len(), bnd(self@, a as int)
        ensures r@ == self@.subrange(a as int, self@.len() as int)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn xchars(&self) -> (r: Vec<char>) ensures r@ == chars(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn xfirst_char(&self) -> (r: Option<char>)
        ensures r is None <==> self@.len() == 0,
            r is Some ==> (self@[0] < 128 ==> r->0 as u32 == self@[0] as u32) && (self@[0] >= 128 ==> r->0 as u32 >= 128),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn xas_bytes(&self) -> (r: &Vec<u8>) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn xto_owned(&self) -> (r: XString) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn as_ref(&self) -> (r: &XString) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn xrepeat(&self, n: usize) -> (r: XString)
        requires self@.len() == 1
        ensures r@ == rep(self@[0], n as nat)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn xstarts_with(&self, p: &XString) -> (r: bool)
        ensures r == (self@.len() >= p@.len() && self@.subrange(0, p@.len() as int) == p@)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn xstarts_with_char(&self, c: char) -> (r: bool)
        requires c as u32 <= 127
        ensures r == (self@.len() >= 1 && self@[0] as u32 == c as u32)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn xb64_src(&self) -> (r: &Vec<u8>) ensures r@ == self@ { unimplemented!() }
}
#[verifier::external_body]
pub fn xstr_eq(a: &XString, b: &XString) -> (r: bool) ensures r == (a@ == b@), r == (cid(a@) == cid(b@)) { unimplemented!() }
#[verifier::external_body]
pub fn xown(a: &XString) -> (r: XString) ensures r@ == a@ { unimplemented!() }
#[verifier::external_body]
pub fn xcat(a: XString, b: &XString) -> (r: XString) ensures r@ == a@ + b@ { unimplemented!() }
#[verifier::external_body]
pub fn xfrom_utf8_ref(v: &Vec<u8>) -> (r: Result<&XString>)
    ensures r is Ok ==> r->Ok_0@ == v@, ascii(v@) ==> r is Ok
{ unimplemented!() }

// ---------------------------------------------------------------- split, join, parse
pub open spec fn joinx(v: Seq<XString>, sep: Seq<u8>) -> Seq<u8> decreases v.len() {
    if v.len() == 0 { Seq::empty() } else if v.len() == 1 { v[0]@ } else { joinx(v.drop_last(), sep) + sep + v.last()@ }
}
pub trait XJoin { spec fn joined(&self, sep: Seq<u8>) -> Seq<u8>; fn xjoin(&self, sep: &XString) -> (r: XString) ensures r@ == self.joined(sep@); }
impl XJoin for Vec<XString> {
    open spec fn joined(&self, sep: Seq<u8>) -> Seq<u8> { joinx(self@, sep) }
    #[verifier::external_body] fn xjoin(&self, sep: &XString) -> (r: XString) { unimplemented!() }
}
/// the pieces of s between the separators c
pub open spec fn splitc(s: Seq<u8>, c: u8) -> Seq<Seq<u8>> decreases s.len() {
    if s.len() == 0 { seq![Seq::<u8>::empty()] }
    else { let p = splitc(s.drop_last(), c); if s.last() == c { p.push(Seq::empty()) } else { p.drop_last().push(p.last().push(s.last())) } }
}
pub open spec fn alldig(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> 48 <= #[trigger] s[i] <= 57 }
pub open spec fn dval(s: Seq<u8>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { dval(s.drop_last()) * 10 + (s.last() - 48) as nat } }
/// decimal integer text as Rust's FromStr reads it: optional sign, at least one digit
pub open spec fn isint(s: Seq<u8>) -> bool { if s.len() > 0 && (s[0] == 43 || s[0] == 45) { s.len() > 1 && alldig(s.skip(1)) } else { s.len() > 0 && alldig(s) } }
pub open spec fn ival(s: Seq<u8>) -> int { if s.len() > 0 && s[0] == 43 { dval(s.skip(1)) as int } else if s.len() > 0 && s[0] == 45 { -(dval(s.skip(1)) as int) } else { dval(s) as int } }
impl XString {
    /// str::split(ascii char)
    #[verifier::external_body]
    pub fn xsplit_char<'a>(&'a self, c: char) -> (r: Vec<&'a XString>)
        requires c as u32 <= 127
        ensures r@.len() == splitc(self@, c as u8).len(), r@.len() >= 1, forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == splitc(self@, c as u8)[i]
    { unimplemented!() }
    #[verifier::external_body]
    pub fn xparse_i8(&self) -> (r: Result<i8>) ensures r is Ok <==> isint(self@) && -128 <= ival(self@) <= 127, r is Ok ==> r->Ok_0 == ival(self@) { unimplemented!() }
}

/// usize as FromStr reads it
pub open spec fn isuint(s: Seq<u8>) -> bool { if s.len() > 0 && s[0] == 43 { s.len() > 1 && alldig(s.skip(1)) } else { s.len() > 0 && alldig(s) } }
/// i32 as FromStr reads it
impl XString {
    #[verifier::external_body]
    pub fn xparse_i32(&self) -> (r: Result<i32>) ensures r is Ok <==> isint(self@) && i32::MIN <= ival(self@) <= i32::MAX, r is Ok ==> r->Ok_0 == ival(self@) { unimplemented!() }
    /// str::split(&str) with a one character separator
    #[verifier::external_body]
    pub fn xsplit<'a>(&'a self, c: &XString) -> (r: Vec<&'a XString>)
        requires c@.len() == 1, c@[0] < 128
        ensures r@.len() == splitc(self@, c@[0]).len(), r@.len() >= 1, forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == splitc(self@, c@[0])[i]
    { unimplemented!() }
}
impl XString {
    #[verifier::external_body]
    pub fn xparse_usize(&self) -> (r: Result<usize>) ensures r is Ok <==> isuint(self@) && ival(self@) <= usize::MAX, r is Ok ==> r->Ok_0 == ival(self@) { unimplemented!() }
}
pub open spec fn joinr(v: Seq<&XString>, sep: Seq<u8>) -> Seq<u8> decreases v.len() {
    if v.len() == 0 { Seq::empty() } else if v.len() == 1 { v[0]@ } else { joinr(v.drop_last(), sep) + sep + v.last()@ }
}
impl<'a> XJoin for Vec<&'a XString> {
    open spec fn joined(&self, sep: Seq<u8>) -> Seq<u8> { joinr(self@, sep) }
    #[verifier::external_body] fn xjoin(&self, sep: &XString) -> (r: XString) { unimplemented!() }
}
// ---------------------------------------------------------------- regular expressions
// the meaning of each pattern is generated from the pattern text of the code (module lits)
/// `^[class]*$`
#[verifier::external_body] pub struct XRegex { k: u8 }
impl XRegex {
    pub uninterp spec fn all(&self, s: Seq<u8>) -> bool;
    #[verifier::external_body] pub fn is_match(&self, s: &XString) -> (r: bool) ensures r == self.all(s@) { unimplemented!() }
}
/// a fixed sequence of classes, not anchored
#[verifier::external_body] pub struct XRegexF { k: u8 }
impl XRegexF {
    pub uninterp spec fn width(&self) -> int;
    pub uninterp spec fn at(&self, s: Seq<u8>, p: int) -> bool;
    /// extent of the named group `$name` in a match
    pub uninterp spec fn grp(&self, g: Seq<u8>) -> (int, int);
    pub open spec fn first(&self, s: Seq<u8>, p: int) -> bool { self.at(s, p) && forall|q: int| 0 <= q < p ==> !#[trigger] self.at(s, q) }
    #[verifier::external_body] pub fn is_match(&self, s: &XString) -> (r: bool)
        ensures r == exists|p: int| #[trigger] self.at(s@, p) { unimplemented!() }
    /// end of the leftmost match
    #[verifier::external_body] pub fn shortest_match(&self, s: &XString) -> (r: Option<usize>)
        ensures r is None ==> forall|p: int| !#[trigger] self.at(s@, p),
            r is Some ==> self.first(s@, r->0 as int - self.width()) && bnd(s@, r->0 as int) && bnd(s@, r->0 as int - self.width())
    { unimplemented!() }
    /// every match replaced by one of its groups
    #[verifier::external_body] pub fn replace_all(&self, s: &XString, g: &XString) -> (r: XString)
        requires 0 <= self.grp(g@).0 < self.grp(g@).1 <= self.width()
        ensures s@.len() == self.width() && self.at(s@, 0) ==> r@ == s@.subrange(self.grp(g@).0, self.grp(g@).1),
            (exists|p: int| #[trigger] self.at(s@, p)) ==> exists|m: int| m >= 1 && #[trigger] (m * self.width()) <= s@.len() && r@.len() == s@.len() - m * self.width() + m * (self.grp(g@).1 - self.grp(g@).0),
            // a consequence of the clause above, spelled out: a result as long as the group means one match that is the whole text
            (exists|p: int| #[trigger] self.at(s@, p)) && r@.len() == self.grp(g@).1 - self.grp(g@).0 ==> s@.len() == self.width(),
    { unimplemented!() }
}

// ---------------------------------------------------------------- Display
pub trait XDisp { spec fn disp(&self) -> Seq<u8>; fn xdisp(&self) -> (r: XString) ensures r@ == self.disp(); }
impl XDisp for XString {
    open spec fn disp(&self) -> Seq<u8> { self@ }
    #[verifier::external_body] fn xdisp(&self) -> (r: XString) { unimplemented!() }
}
impl XDisp for char {
    open spec fn disp(&self) -> Seq<u8> { chr(*self) }
    #[verifier::external_body] fn xdisp(&self) -> (r: XString) { unimplemented!() }
}
pub uninterp spec fn chr_u(c: char) -> Seq<u8>;
pub open spec fn chr(c: char) -> Seq<u8> { if (c as u32) < 128 { seq![c as u8] } else { chr_u(c) } }
pub open spec fn dec(n: nat) -> Seq<u8> decreases n { if n < 10 { seq![(48 + n) as u8] } else { dec(n / 10).push((48 + n % 10) as u8) } }
pub open spec fn hexd(v: nat) -> u8 { if v < 10 { (48 + v) as u8 } else { (87 + v) as u8 } }
pub open spec fn hex(n: nat) -> Seq<u8> decreases n { if n < 16 { seq![hexd(n)] } else { hex(n / 16).push(hexd(n % 16)) } }
impl XDisp for u32 {
    open spec fn disp(&self) -> Seq<u8> { dec(*self as nat) }
    #[verifier::external_body] fn xdisp(&self) -> (r: XString) { unimplemented!() }
}
impl XDisp for usize {
    open spec fn disp(&self) -> Seq<u8> { dec(*self as nat) }
    #[verifier::external_body] fn xdisp(&self) -> (r: XString) { unimplemented!() }
}
impl XDisp for i32 {
    open spec fn disp(&self) -> Seq<u8> { idec(*self as int) }
    #[verifier::external_body] fn xdisp(&self) -> (r: XString) { unimplemented!() }
}
/// signed decimal text
pub open spec fn idec(i: int) -> Seq<u8> { if i < 0 { seq![45u8] + dec((-i) as nat) } else { dec(i as nat) } }
/// hexadecimal text, zeros in front up to a width
pub open spec fn hexpad(n: nat, w: nat) -> Seq<u8> { let h = hex(n); if h.len() < w { rep(48u8, (w - h.len()) as nat) + h } else { h } }
pub trait XHexPad { spec fn hv(&self) -> nat; fn xhexpad(&self, w: usize) -> (r: XString) ensures r@ == hexpad(self.hv(), w as nat); }
impl XHexPad for u8 { open spec fn hv(&self) -> nat { *self as nat } #[verifier::external_body] fn xhexpad(&self, w: usize) -> (r: XString) { unimplemented!() } }
impl XHexPad for u32 { open spec fn hv(&self) -> nat { *self as nat } #[verifier::external_body] fn xhexpad(&self, w: usize) -> (r: XString) { unimplemented!() } }
/// {:x} of a signed number is its two's complement
impl XHex for i64 {
    open spec fn hx(&self) -> Seq<u8> { hex(*self as u64 as nat) }
    #[verifier::external_body] fn xhex(&self) -> (r: XString) { unimplemented!() }
}
pub trait XHex { spec fn hx(&self) -> Seq<u8>; fn xhex(&self) -> (r: XString) ensures r@ == self.hx(); }
impl XHex for u128 {
    open spec fn hx(&self) -> Seq<u8> { hex(*self as nat) }
    #[verifier::external_body] fn xhex(&self) -> (r: XString) { unimplemented!() }
}
impl XHex for u32 {
    open spec fn hx(&self) -> Seq<u8> { hex(*self as nat) }
    #[verifier::external_body] fn xhex(&self) -> (r: XString) { unimplemented!() }
}
impl XHex for usize {
    open spec fn hx(&self) -> Seq<u8> { hex(*self as nat) }
    #[verifier::external_body] fn xhex(&self) -> (r: XString) { unimplemented!() }
}

// ---------------------------------------------------------------- to_string / clone / eq / is_empty / zeroize
pub trait XToString { spec fn tos(&self) -> Seq<u8>; fn xto_string(&self) -> (r: XString) ensures r@ == self.tos(); }
impl XToString for XString {
    open spec fn tos(&self) -> Seq<u8> { self@ }
    #[verifier::external_body] fn xto_string(&self) -> (r: XString) { unimplemented!() }
}
impl XToString for char {
    open spec fn tos(&self) -> Seq<u8> { chr(*self) }
    #[verifier::external_body] fn xto_string(&self) -> (r: XString) { unimplemented!() }
}
impl XToString for i64 {
    open spec fn tos(&self) -> Seq<u8> { idec(*self as int) }
    #[verifier::external_body] fn xto_string(&self) -> (r: XString) { unimplemented!() }
}
impl XToString for i128 {
    open spec fn tos(&self) -> Seq<u8> { idec(*self as int) }
    #[verifier::external_body] fn xto_string(&self) -> (r: XString) { unimplemented!() }
}
impl XDisp for u8 { open spec fn disp(&self) -> Seq<u8> { dec(*self as nat) } #[verifier::external_body] fn xdisp(&self) -> (r: XString) { unimplemented!() } }
impl XDisp for u16 { open spec fn disp(&self) -> Seq<u8> { dec(*self as nat) } #[verifier::external_body] fn xdisp(&self) -> (r: XString) { unimplemented!() } }
impl XDisp for u64 { open spec fn disp(&self) -> Seq<u8> { dec(*self as nat) } #[verifier::external_body] fn xdisp(&self) -> (r: XString) { unimplemented!() } }
impl XDisp for u128 { open spec fn disp(&self) -> Seq<u8> { dec(*self as nat) } #[verifier::external_body] fn xdisp(&self) -> (r: XString) { unimplemented!() } }
impl XDisp for i64 { open spec fn disp(&self) -> Seq<u8> { idec(*self as int) } #[verifier::external_body] fn xdisp(&self) -> (r: XString) { unimplemented!() } }
impl XDisp for i128 { open spec fn disp(&self) -> Seq<u8> { idec(*self as int) } #[verifier::external_body] fn xdisp(&self) -> (r: XString) { unimplemented!() } }
impl XToString for u8 { open spec fn tos(&self) -> Seq<u8> { dec(*self as nat) } #[verifier::external_body] fn xto_string(&self) -> (r: XString) { unimplemented!() } }
impl XToString for u16 { open spec fn tos(&self) -> Seq<u8> { dec(*self as nat) } #[verifier::external_body] fn xto_string(&self) -> (r: XString) { unimplemented!() } }
impl XToString for u32 { open spec fn tos(&self) -> Seq<u8> { dec(*self as nat) } #[verifier::external_body] fn xto_string(&self) -> (r: XString) { unimplemented!() } }
impl XToString for u64 { open spec fn tos(&self) -> Seq<u8> { dec(*self as nat) } #[verifier::external_body] fn xto_string(&self) -> (r: XString) { unimplemented!() } }
impl XToString for u128 { open spec fn tos(&self) -> Seq<u8> { dec(*self as nat) } #[verifier::external_body] fn xto_string(&self) -> (r: XString) { unimplemented!() } }
impl XToString for usize { open spec fn tos(&self) -> Seq<u8> { dec(*self as nat) } #[verifier::external_body] fn xto_string(&self) -> (r: XString) { unimplemented!() } }
impl XToString for i32 { open spec fn tos(&self) -> Seq<u8> { idec(*self as int) } #[verifier::external_body] fn xto_string(&self) -> (r: XString) { unimplemented!() } }
/// conversion into a type of the crate (From): the contract of each implementation is `from_ok`
pub trait XFrom<T>: Sized { spec fn from_ok(t: T, r: Self) -> bool; open spec fn from_req(t: T) -> bool { true } fn xfrom(t: T) -> (r: Self) requires Self::from_req(t) ensures Self::from_ok(t, r); }
pub trait XClone: Sized { spec fn same(&self, o: &Self) -> bool; fn xclone(&self) -> (r: Self) ensures self.same(&r); }
impl XClone for XString {
    open spec fn same(&self, o: &Self) -> bool { self@ == o@ }
    #[verifier::external_body] fn xclone(&self) -> (r: Self) { unimplemented!() }
}
impl XClone for Vec<u8> {
    open spec fn same(&self, o: &Self) -> bool { self@ == o@ && o@.len() <= 0x1000_0000_0000_0000 }
    #[verifier::external_body] fn xclone(&self) -> (r: Self) { unimplemented!() }
}
impl<T: XClone> XClone for Option<T> {
    open spec fn same(&self, o: &Self) -> bool { (self is Some <==> o is Some) && (self is Some ==> self->0.same(&o->0)) }
    fn xclone(&self) -> (r: Self) { match self { Some(x) => Some(x.xclone()), None => None } }
}
impl XClone for u8 {
    open spec fn same(&self, o: &Self) -> bool { *self == *o }
    fn xclone(&self) -> (r: Self) { *self }
}
impl XClone for char {
    open spec fn same(&self, o: &Self) -> bool { *self == *o }
    fn xclone(&self) -> (r: Self) { *self }
}
impl<'a> XClone for &'a XString {
    open spec fn same(&self, o: &Self) -> bool { *self == *o }
    fn xclone(&self) -> (r: Self) { *self }
}
pub trait XEq<O: ?Sized = Self> { spec fn eqs(&self, o: &O) -> bool; fn xeq(&self, o: &O) -> (r: bool) ensures r == self.eqs(o); }
impl XEq<Vec<u8>> for [u8] {
    open spec fn eqs(&self, o: &Vec<u8>) -> bool { self@ == o@ }
    #[verifier::external_body] fn xeq(&self, o: &Vec<u8>) -> (r: bool) { unimplemented!() }
}
impl XEq<[u8]> for [u8] {
    open spec fn eqs(&self, o: &[u8]) -> bool { self@ == o@ }
    #[verifier::external_body] fn xeq(&self, o: &[u8]) -> (r: bool) { unimplemented!() }
}
impl<'a> XEq<&'a [u8]> for Vec<u8> {
    open spec fn eqs(&self, o: &&'a [u8]) -> bool { self@ == (*o)@ }
    #[verifier::external_body] fn xeq(&self, o: &&'a [u8]) -> (r: bool) { unimplemented!() }
}
impl XEq for XString {
    open spec fn eqs(&self, o: &Self) -> bool { self@ == o@ }
    #[verifier::external_body] fn xeq(&self, o: &Self) -> (r: bool) ensures r == (cid(self@) == cid(o@)) { unimplemented!() }
}
impl<'a> XEq for &'a XString {
    open spec fn eqs(&self, o: &Self) -> bool { self@ == o@ }
    #[verifier::external_body] fn xeq(&self, o: &Self) -> (r: bool) ensures r == (cid(self@) == cid(o@)) { unimplemented!() }
}
impl XEq for Vec<u8> {
    open spec fn eqs(&self, o: &Self) -> bool { self@ == o@ }
    #[verifier::external_body] fn xeq(&self, o: &Self) -> (r: bool) { unimplemented!() }
}
impl XEq for u8 {
    open spec fn eqs(&self, o: &Self) -> bool { *self == *o }
    #[verifier::external_body] fn xeq(&self, o: &Self) -> (r: bool) { unimplemented!() }
}
impl XEq for u32 {
    open spec fn eqs(&self, o: &Self) -> bool { *self == *o }
    #[verifier::external_body] fn xeq(&self, o: &Self) -> (r: bool) { unimplemented!() }
}
impl XEq for usize {
    open spec fn eqs(&self, o: &Self) -> bool { *self == *o }
    #[verifier::external_body] fn xeq(&self, o: &Self) -> (r: bool) { unimplemented!() }
}
impl XEq for u128 {
    open spec fn eqs(&self, o: &Self) -> bool { *self == *o }
    #[verifier::external_body] fn xeq(&self, o: &Self) -> (r: bool) { unimplemented!() }
}
impl XEq for char {
    open spec fn eqs(&self, o: &Self) -> bool { *self == *o }
    #[verifier::external_body] fn xeq(&self, o: &Self) -> (r: bool) { unimplemented!() }
}
impl XEq for bool {
    open spec fn eqs(&self, o: &Self) -> bool { *self == *o }
    #[verifier::external_body] fn xeq(&self, o: &Self) -> (r: bool) { unimplemented!() }
}
pub trait XAbsDiff { type O; spec fn absd(self, o: Self, r: Self::O) -> bool; fn xabs_diff(self, o: Self) -> (r: Self::O) where Self: Sized ensures self.absd(o, r); }
impl XAbsDiff for usize { type O = usize; open spec fn absd(self, o: Self, r: usize) -> bool { r == (if self >= o { self - o } else { o - self }) }
    #[verifier::external_body] fn xabs_diff(self, o: Self) -> (r: usize) { unimplemented!() } }
impl XAbsDiff for u32 { type O = u32; open spec fn absd(self, o: Self, r: u32) -> bool { r == (if self >= o { self - o } else { o - self }) }
    #[verifier::external_body] fn xabs_diff(self, o: Self) -> (r: u32) { unimplemented!() } }
pub trait XExtend<T> { fn xextend(&mut self, o: Vec<T>); }
impl<T> XExtend<T> for Vec<T> { #[verifier::external_body] fn xextend(&mut self, o: Vec<T>) ensures final(self)@ == old(self)@ + o@ { unimplemented!() } }
pub trait XExtendSlice<T> { fn xextend_from_slice(&mut self, o: &[T]); }
impl<T> XExtendSlice<T> for Vec<T> { #[verifier::external_body] fn xextend_from_slice(&mut self, o: &[T]) ensures final(self)@ == old(self)@ + o@ { unimplemented!() } }
/// `[a, b, ..].concat()` of byte slices
#[verifier::external_body] pub fn xnil() -> (r: &'static [u8]) ensures r@ == Seq::<u8>::empty() { unimplemented!() }
#[verifier::external_body] pub fn xbcat(a: &[u8], b: &[u8]) -> (r: Vec<u8>) ensures r@ == a@ + b@ { unimplemented!() }
pub trait XIsEmpty { spec fn emp(&self) -> bool; fn xis_empty(&self) -> (r: bool) ensures r == self.emp(); }
impl XIsEmpty for XString {
    open spec fn emp(&self) -> bool { self@.len() == 0 }
    #[verifier::external_body] fn xis_empty(&self) -> (r: bool) { unimplemented!() }
}
impl<T> XIsEmpty for Vec<T> {
    open spec fn emp(&self) -> bool { self@.len() == 0 }
    #[verifier::external_body] fn xis_empty(&self) -> (r: bool) { unimplemented!() }
}
impl<T> XIsEmpty for [T] {
    open spec fn emp(&self) -> bool { self@.len() == 0 }
    #[verifier::external_body] fn xis_empty(&self) -> (r: bool) { unimplemented!() }
}
/// zeroization clears the content; nothing is promised about the value afterwards
pub trait XZeroize { fn xzeroize(&mut self); }
impl XZeroize for XString { #[verifier::external_body] fn xzeroize(&mut self) { unimplemented!() } }
impl XZeroize for Vec<u8> { #[verifier::external_body] fn xzeroize(&mut self) { unimplemented!() } }

// ---------------------------------------------------------------- byte vectors and slices
pub trait XBytes {
    spec fn bv(&self) -> Seq<u8>;
    fn xslice(&self, a: usize, b: usize) -> (r: &[u8])
        requires a <= b <= self.bv().len() ensures r@ == self.bv().subrange(a as int, b as int);
    fn xslice_from(&self, a: usize) -> (r: &[u8])
        requires a <= self.bv().len() ensures r@ == self.bv().subrange(a as int, self.bv().len() as int);
    fn xget_rng(&self, a: usize, b: usize) -> (r: Option<&[u8]>)
        ensures r is Some <==> a <= b <= self.bv().len(), r is Some ==> r->0@ == self.bv().subrange(a as int, b as int);
    fn xto_vec(&self) -> (r: Vec<u8>) ensures r@ == self.bv();
    fn xto_owned(&self) -> (r: Vec<u8>) ensures r@ == self.bv();
    fn xtake(&self, n: usize) -> (r: &[u8]) ensures r@ == self.bv().subrange(0, if n <= self.bv().len() { n as int } else { self.bv().len() as int });
    fn xskip(&self, n: usize) -> (r: &[u8]) ensures r@ == self.bv().subrange(if n <= self.bv().len() { n as int } else { self.bv().len() as int }, self.bv().len() as int);
    fn xb64_src(&self) -> (r: &Vec<u8>) ensures r@ == self.bv();
}
impl XBytes for Vec<u8> {
    open spec fn bv(&self) -> Seq<u8> { self@ }
    #[verifier::external_body] fn xslice(&self, a: usize, b: usize) -> (r: &[u8]) { unimplemented!() }
    #[verifier::external_body] fn xslice_from(&self, a: usize) -> (r: &[u8]) { unimplemented!() }
    #[verifier::external_body] fn xget_rng(&self, a: usize, b: usize) -> (r: Option<&[u8]>) { unimplemented!() }
    #[verifier::external_body] fn xto_vec(&self) -> (r: Vec<u8>) { unimplemented!() }
    #[verifier::external_body] fn xto_owned(&self) -> (r: Vec<u8>) { unimplemented!() }
    #[verifier::external_body] fn xtake(&self, n: usize) -> (r: &[u8]) { unimplemented!() }
    #[verifier::external_body] fn xskip(&self, n: usize) -> (r: &[u8]) { unimplemented!() }
    #[verifier::external_body] fn xb64_src(&self) -> (r: &Vec<u8>) { unimplemented!() }
}
impl XBytes for [u8] {
    open spec fn bv(&self) -> Seq<u8> { self@ }
    #[verifier::external_body] fn xslice(&self, a: usize, b: usize) -> (r: &[u8]) { unimplemented!() }
    #[verifier::external_body] fn xslice_from(&self, a: usize) -> (r: &[u8]) { unimplemented!() }
    #[verifier::external_body] fn xget_rng(&self, a: usize, b: usize) -> (r: Option<&[u8]>) { unimplemented!() }
    #[verifier::external_body] fn xto_vec(&self) -> (r: Vec<u8>) { unimplemented!() }
    #[verifier::external_body] fn xto_owned(&self) -> (r: Vec<u8>) { unimplemented!() }
    #[verifier::external_body] fn xtake(&self, n: usize) -> (r: &[u8]) { unimplemented!() }
    #[verifier::external_body] fn xskip(&self, n: usize) -> (r: &[u8]) { unimplemented!() }
    #[verifier::external_body] fn xb64_src(&self) -> (r: &Vec<u8>) { unimplemented!() }
}
/// Vec::get_mut, sort and dedup
pub trait XVecMut<T>: Sized {
    spec fn tv(&self) -> Seq<T>;
    fn xget_mut(&mut self, i: usize) -> (r: Option<&mut T>)
        ensures r is Some <==> i < old(self).tv().len(), r is None ==> final(self).tv() == old(self).tv(),
            r is Some ==> *r->0 == old(self).tv()[i as int] && final(self).tv() == old(self).tv().update(i as int, *final(r->0));
}
impl<T> XVecMut<T> for Vec<T> {
    open spec fn tv(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn xget_mut(&mut self, i: usize) -> (r: Option<&mut T>) { unimplemented!() }
}
pub open spec fn sorted(s: Seq<u32>) -> bool { forall|i: int, j: int| 0 <= i <= j < s.len() ==> s[i] <= s[j] }
pub trait XSort: Sized {
    spec fn st(&self) -> Seq<u32>;
    fn xsort(&mut self) ensures sorted(final(self).st()), final(self).st().to_set() == old(self).st().to_set(), final(self).st().to_multiset() == old(self).st().to_multiset();
    /// removes all but the first of consecutive equal elements
    fn xdedup(&mut self) ensures final(self).st().to_set() == old(self).st().to_set(), sorted(old(self).st()) ==> final(self).st().no_duplicates() && sorted(final(self).st());
}
impl XSort for Vec<u32> {
    open spec fn st(&self) -> Seq<u32> { self@ }
    #[verifier::external_body] fn xsort(&mut self) { unimplemented!() }
    #[verifier::external_body] fn xdedup(&mut self) { unimplemented!() }
}
pub trait XIdx { spec fn iv(&self) -> Seq<u32>; fn xto_vec(&self) -> (r: Vec<u32>) ensures r@ == self.iv(); }
impl XIdx for [u32] {
    open spec fn iv(&self) -> Seq<u32> { self@ }
    #[verifier::external_body] fn xto_vec(&self) -> (r: Vec<u32>) { unimplemented!() }
}
pub trait XSrc { spec fn sv(&self) -> Seq<u8>; }
impl XSrc for Vec<u8> { open spec fn sv(&self) -> Seq<u8> { self@ } }
impl XSrc for [u8] { open spec fn sv(&self) -> Seq<u8> { self@ } }
/// &[]
#[verifier::external_body]
pub fn xempty<'a, T>() -> (r: &'a [T]) ensures r@.len() == 0 { &[] }
#[verifier::external_body]
pub fn xvec_rep<T: Copy>(x: T, n: usize) -> (r: Vec<T>) ensures r@ == rep(x, n as nat) { unimplemented!() }
/// v[a..b].copy_from_slice(src)
#[verifier::external_body]
pub fn xcopy_into<S: XSrc + ?Sized>(v: &mut Vec<u8>, a: usize, b: usize, src: &S)
    requires a <= b <= old(v)@.len(), src.sv().len() == b - a
    ensures final(v)@ == old(v)@.subrange(0, a as int) + src.sv() + old(v)@.subrange(b as int, old(v)@.len() as int)
{ unimplemented!() }
#[verifier::external_body]
pub fn xcopy_into_from<S: XSrc + ?Sized>(v: &mut Vec<u8>, a: usize, src: &S)
    requires a <= old(v)@.len(), src.sv().len() == old(v)@.len() - a
    ensures final(v)@ == old(v)@.subrange(0, a as int) + src.sv()
{ unimplemented!() }

pub trait XContains<A> { spec fn has(&self, a: A) -> bool; fn xcontains(&self, a: A) -> (r: bool) ensures r == self.has(a); }
/// str::contains(char)
impl XContains<char> for XString {
    open spec fn has(&self, a: char) -> bool { if (a as u32) < 128 { self@.contains(a as u8) } else { exists|i: int, j: int| 0 <= i <= j <= self@.len() && #[trigger] self@.subrange(i, j) == chr(a) } }
    #[verifier::external_body] fn xcontains(&self, a: char) -> (r: bool) { unimplemented!() }
}
impl<'a> XContains<&'a char> for Vec<char> {
    open spec fn has(&self, a: &'a char) -> bool { exists|i: int| 0 <= i < self@.len() && self@[i] == *a }
    #[verifier::external_body] fn xcontains(&self, a: &'a char) -> (r: bool) { unimplemented!() }
}
/// one of the strings has identity c
pub closed spec fn anyc(v: Seq<&XString>, c: int) -> bool { exists|i: int| 0 <= i < v.len() && cid(#[trigger] v[i]@) == c }
pub proof fn lemma_anyc(v: Seq<&XString>, c: int) ensures anyc(v, c) <==> exists|i: int| 0 <= i < v.len() && cid(#[trigger] v[i]@) == c {}
impl<'a, 'b> XContains<&'b &'a XString> for Vec<&'a XString> {
    open spec fn has(&self, a: &'b &'a XString) -> bool { anyc(self@, cid((*a)@)) }
    #[verifier::external_body] fn xcontains(&self, a: &'b &'a XString) -> (r: bool) { unimplemented!() }
}
impl<'a, 'b> XContains<&'b XString> for Vec<&'a XString> {
    open spec fn has(&self, a: &'b XString) -> bool { anyc(self@, cid(a@)) }
    #[verifier::external_body] fn xcontains(&self, a: &'b XString) -> (r: bool) { unimplemented!() }
}
impl<'a, 'b> XContains<&'b XString> for [&'a XString] {
    open spec fn has(&self, a: &'b XString) -> bool { anyc(self@, cid(a@)) }
    #[verifier::external_body] fn xcontains(&self, a: &'b XString) -> (r: bool) { unimplemented!() }
}
impl<'a, 'b> XContains<&'b &'a XString> for [&'a XString] {
    open spec fn has(&self, a: &'b &'a XString) -> bool { anyc(self@, cid((*a)@)) }
    #[verifier::external_body] fn xcontains(&self, a: &'b &'a XString) -> (r: bool) { unimplemented!() }
}

// ---------------------------------------------------------------- integers
pub open spec fn ipow(b: nat, e: nat) -> nat decreases e { if e == 0 { 1 } else { b * ipow(b, (e - 1) as nat) } }
pub open spec fn be(n: nat, len: nat) -> Seq<u8> { Seq::new(len, |i: int| ((n / ipow(256, (len - 1 - i) as nat)) % 256) as u8) }
pub open spec fn unbe(s: Seq<u8>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { unbe(s.drop_last()) * 256 + s.last() as nat } }
pub trait XInt: Sized {
    spec fn nat_(self) -> nat;
    spec fn max_() -> nat;
    spec fn width_() -> nat;
    fn xpow(self, e: u32) -> (r: Self) requires ipow(self.nat_(), e as nat) <= Self::max_() ensures r.nat_() == ipow(self.nat_(), e as nat);
    fn xto_be_bytes(&self) -> (r: Vec<u8>) ensures r@ == be((*self).nat_(), Self::width_());
}
impl XInt for u8 {
    open spec fn nat_(self) -> nat { self as nat }
    open spec fn max_() -> nat { u8::MAX as nat }
    open spec fn width_() -> nat { 1 }
    #[verifier::external_body] fn xpow(self, e: u32) -> (r: Self) { unimplemented!() }
    #[verifier::external_body] fn xto_be_bytes(&self) -> (r: Vec<u8>) { unimplemented!() }
}
impl XInt for u16 {
    open spec fn nat_(self) -> nat { self as nat }
    open spec fn max_() -> nat { u16::MAX as nat }
    open spec fn width_() -> nat { 2 }
    #[verifier::external_body] fn xpow(self, e: u32) -> (r: Self) { unimplemented!() }
    #[verifier::external_body] fn xto_be_bytes(&self) -> (r: Vec<u8>) { unimplemented!() }
}
impl XInt for u32 {
    open spec fn nat_(self) -> nat { self as nat }
    open spec fn max_() -> nat { u32::MAX as nat }
    open spec fn width_() -> nat { 4 }
    #[verifier::external_body] fn xpow(self, e: u32) -> (r: Self) { unimplemented!() }
    #[verifier::external_body] fn xto_be_bytes(&self) -> (r: Vec<u8>) { unimplemented!() }
}
impl XInt for i32 {
    open spec fn nat_(self) -> nat { if self >= 0 { self as nat } else { 0 } }
    open spec fn max_() -> nat { i32::MAX as nat }
    open spec fn width_() -> nat { 4 }
    #[verifier::external_body] fn xpow(self, e: u32) -> (r: Self) ensures r >= 0 { unimplemented!() }
    #[verifier::external_body] fn xto_be_bytes(&self) -> (r: Vec<u8>) { unimplemented!() }
}
impl XInt for u64 {
    open spec fn nat_(self) -> nat { self as nat }
    open spec fn max_() -> nat { u64::MAX as nat }
    open spec fn width_() -> nat { 8 }
    #[verifier::external_body] fn xpow(self, e: u32) -> (r: Self) { unimplemented!() }
    #[verifier::external_body] fn xto_be_bytes(&self) -> (r: Vec<u8>) { unimplemented!() }
}
impl XInt for u128 {
    open spec fn nat_(self) -> nat { self as nat }
    open spec fn max_() -> nat { u128::MAX as nat }
    open spec fn width_() -> nat { 16 }
    #[verifier::external_body] fn xpow(self, e: u32) -> (r: Self) { unimplemented!() }
    #[verifier::external_body] fn xto_be_bytes(&self) -> (r: Vec<u8>) { unimplemented!() }
}
pub trait XIntoU8: Sized { spec fn n8(self) -> int; fn xinto_u8_unwrap(self) -> (r: u8) requires 0 <= self.n8() <= 255 ensures r == self.n8(); }
impl XIntoU8 for u32 { open spec fn n8(self) -> int { self as int } #[verifier::external_body] fn xinto_u8_unwrap(self) -> (r: u8) { self as u8 } }
impl XIntoU8 for u64 { open spec fn n8(self) -> int { self as int } #[verifier::external_body] fn xinto_u8_unwrap(self) -> (r: u8) { self as u8 } }
#[verifier::external_body]
pub fn x_u8_from_be_bytes<S: XSrc + ?Sized>(v: &S) -> (r: u8) requires v.sv().len() == 1 ensures r == v.sv()[0] { unimplemented!() }
/// one byte replaced by another, everywhere
pub open spec fn mapb(s: Seq<u8>, a: u8, b: u8) -> Seq<u8> { Seq::new(s.len(), |i: int| if s[i] == a { b } else { s[i] }) }
pub trait XPat { spec fn one(&self) -> bool; spec fn b(&self) -> u8; }
impl XPat for char { open spec fn one(&self) -> bool { (*self as u32) < 128 } open spec fn b(&self) -> u8 { *self as u8 } }
impl<'a> XPat for &'a XString { open spec fn one(&self) -> bool { self@.len() == 1 && self@[0] < 128 } open spec fn b(&self) -> u8 { self@[0] } }
impl XString {
    /// str::replace of one ASCII character by another
    #[verifier::external_body]
    pub fn xreplace<P: XPat>(&self, p: P, to: &XString) -> (r: XString)
        requires p.one(), to@.len() == 1, to@[0] < 128
        ensures r@ == mapb(self@, p.b(), to@[0])
    { unimplemented!() }
}
/// hexadecimal integer text as from_str_radix(_, 16) reads it for unsigned types: optional plus sign, at least one digit, either case
pub open spec fn ishexd(c: u8) -> bool { 48 <= c <= 57 || 65 <= c <= 70 || 97 <= c <= 102 }
pub open spec fn hexdv(c: u8) -> int { if c <= 57 { c - 48 } else if c <= 70 { c - 55 } else { c - 87 } }
pub open spec fn hxs(s: Seq<u8>) -> Seq<u8> { if s.len() > 0 && s[0] == 43 { s.skip(1) } else { s } }
pub open spec fn hval(s: Seq<u8>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { (hval(s.drop_last()) * 16 + hexdv(s.last())) as nat } }
pub open spec fn ishex(s: Seq<u8>) -> bool { hxs(s).len() > 0 && forall|i: int| 0 <= i < hxs(s).len() ==> ishexd(#[trigger] hxs(s)[i]) }
#[verifier::external_body]
pub fn x_u128_from_str_radix(s: &XString, radix: u32) -> (r: Result<u128>)
    requires radix == 16
    ensures r is Ok <==> ishex(s@) && hval(hxs(s@)) <= u128::MAX, r is Ok ==> r->Ok_0 == hval(hxs(s@))
{ unimplemented!() }
/// signed types also accept a minus sign
pub open spec fn isihex(s: Seq<u8>) -> bool { if s.len() > 0 && s[0] == 45 { ishex(s.skip(1)) && s[1] != 43 } else { ishex(s) } }
pub open spec fn ihval(s: Seq<u8>) -> int { if s.len() > 0 && s[0] == 45 { -(hval(s.skip(1)) as int) } else { hval(hxs(s)) as int } }
#[verifier::external_body]
pub fn x_i64_from_str_radix(s: &XString, radix: u32) -> (r: Result<i64>)
    requires radix == 16
    ensures r is Ok <==> isihex(s@) && i64::MIN <= ihval(s@) <= i64::MAX, r is Ok ==> r->Ok_0 == ihval(s@)
{ unimplemented!() }
#[verifier::external_body]
pub fn x_u8_from_str_radix(s: &XString, radix: u32) -> (r: Result<u8>)
    requires radix == 16
    ensures r is Ok <==> ishex(s@) && hval(hxs(s@)) <= u8::MAX, r is Ok ==> r->Ok_0 == hval(hxs(s@))
{ unimplemented!() }
#[verifier::external_body]
pub fn x_u32_from_str_radix(s: &XString, radix: u32) -> (r: Result<u32>)
    requires radix == 16
    ensures r is Ok <==> ishex(s@) && hval(hxs(s@)) <= u32::MAX, r is Ok ==> r->Ok_0 == hval(hxs(s@))
{ unimplemented!() }
#[verifier::external_body]
pub fn x_u16_from_be_bytes<S: XSrc + ?Sized>(v: &S) -> (r: u16) requires v.sv().len() == 2 ensures r == unbe(v.sv()) { unimplemented!() }
#[verifier::external_body]
pub fn x_u128_from_be_bytes<S: XSrc + ?Sized>(v: &S) -> (r: u128) requires v.sv().len() == 16 ensures r == unbe(v.sv()) { unimplemented!() }
/// from_be_bytes(slice.try_into()?)
#[verifier::external_body]
pub fn x_u128_try_from_be<S: XSrc + ?Sized>(v: &S) -> (r: Result<u128>) ensures r is Ok <==> v.sv().len() == 16, r is Ok ==> r->Ok_0 == unbe(v.sv()) { unimplemented!() }
/// v.copy_from_slice(src)
#[verifier::external_body]
pub fn xcopy_all<S: XSrc + ?Sized>(v: &mut Vec<u8>, src: &S) requires old(v)@.len() == src.sv().len() ensures final(v)@ == src.sv() { unimplemented!() }
#[verifier::external_body]
pub fn x_u32_from_be_bytes<S: XSrc + ?Sized>(v: &S) -> (r: u32) requires v.sv().len() == 4 ensures r == unbe(v.sv()) { unimplemented!() }
#[verifier::external_body]
pub fn x_u64_from_be_bytes<S: XSrc + ?Sized>(v: &S) -> (r: u64) requires v.sv().len() == 8 ensures r == unbe(v.sv()) { unimplemented!() }
pub trait XNum { spec fn xn(self) -> int; }
impl XNum for usize { open spec fn xn(self) -> int { self as int } }
impl XNum for u32 { open spec fn xn(self) -> int { self as int } }
impl XNum for u64 { open spec fn xn(self) -> int { self as int } }
impl XNum for u128 { open spec fn xn(self) -> int { self as int } }
impl XNum for i64 { open spec fn xn(self) -> int { self as int } }
impl XNum for i128 { open spec fn xn(self) -> int { self as int } }
#[verifier::external_body]
pub fn x_i64_try_from<N: XNum>(x: N) -> (r: Result<i64>) ensures r is Ok <==> i64::MIN <= x.xn() <= i64::MAX, r is Ok ==> r->Ok_0 == x.xn() { unimplemented!() }
#[verifier::external_body]
pub fn x_u32_try_from<N: XNum>(x: N) -> (r: Result<u32>) ensures r is Ok <==> 0 <= x.xn() <= u32::MAX, r is Ok ==> r->Ok_0 == x.xn() { unimplemented!() }

// ---------------------------------------------------------------- floating point (uninterpreted)
#[verifier::external_body] #[derive(Copy, Clone)] pub struct XF { f: f64 }
pub uninterp spec fn fl(n: nat) -> XF;
pub uninterp spec fn fdiv(a: XF, b: XF) -> XF;
pub uninterp spec fn fsub(a: XF, b: XF) -> XF;
pub uninterp spec fn fadd(a: XF, b: XF) -> XF;
pub uninterp spec fn flog(a: XF) -> XF;
pub uninterp spec fn fge(a: XF, b: XF) -> bool;
#[verifier::external_body] pub fn xf_lit(n: u64) -> (r: XF) ensures r == fl(n as nat) { unimplemented!() }
/// conversion of an integer (may round)
pub uninterp spec fn fli(n: int) -> XF;
pub trait XToF: Sized { spec fn sf(self) -> XF; }
impl XToF for usize { open spec fn sf(self) -> XF { fl(self as nat) } }
impl XToF for u32 { open spec fn sf(self) -> XF { fl(self as nat) } }
impl XToF for u64 { open spec fn sf(self) -> XF { fl(self as nat) } }
impl XToF for i128 { open spec fn sf(self) -> XF { fli(self as int) } }
#[verifier::external_body] pub fn xf_cast<N: XToF>(n: N) -> (r: XF) ensures r == n.sf() { unimplemented!() }
pub uninterp spec fn fto64(a: XF) -> i64;
#[verifier::external_body] pub fn xf_to_i64(a: XF) -> (r: i64) ensures r == fto64(a) { unimplemented!() }
#[verifier::external_body] pub fn xf_div(a: XF, b: XF) -> (r: XF) ensures r == fdiv(a, b) { unimplemented!() }
#[verifier::external_body] pub fn xf_sub(a: XF, b: XF) -> (r: XF) ensures r == fsub(a, b) { unimplemented!() }
#[verifier::external_body] pub fn xf_add(a: XF, b: XF) -> (r: XF) ensures r == fadd(a, b) { unimplemented!() }
#[verifier::external_body] pub fn xf_log2(a: XF) -> (r: XF) ensures r == flog(a) { unimplemented!() }
#[verifier::external_body] pub fn xf_ge(a: XF, b: XF) -> (r: bool) ensures r == fge(a, b) { unimplemented!() }
/// f32: length - log2(n) / log2(64) >= 0 whenever n < 64^length (monotone; checked at the boundaries by the harness)
pub axiom fn axiom_overflow(n: nat, length: nat)
    requires n < ipow(64, length), n <= u64::MAX, 1 <= length <= 1000
    ensures fge(fsub(fl(length), fdiv(flog(fl(n)), flog(fl(64)))), fl(0));

// ---------------------------------------------------------------- base64 (RFC 4648 url-safe alphabet, canonical padding)
pub open spec fn b64c(v: int) -> u8 {
    if v < 26 { (65 + v) as u8 } else if v < 52 { (71 + v) as u8 } else if v < 62 { (v - 4) as u8 } else if v == 62 { 45u8 } else { 95u8 }
}
pub open spec fn isb64(c: u8) -> bool { 65 <= c <= 90 || 97 <= c <= 122 || 48 <= c <= 57 || c == 45 || c == 95 }
pub open spec fn b64s(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> isb64(#[trigger] s[i]) }
pub open spec fn b64v(c: u8) -> int {
    if 65 <= c <= 90 { c - 65 } else if 97 <= c <= 122 { c - 71 } else if 48 <= c <= 57 { c + 4 } else if c == 45 { 62 } else { 63 }
}
pub open spec fn at(d: Seq<u8>, i: int) -> int { if 0 <= i < d.len() { d[i] as int } else { 0 } }
/// i-th sextet of the bit string d
pub open spec fn sx(d: Seq<u8>, i: int) -> int {
    let k = 3 * (i / 4);
    let r = i % 4;
    if r == 0 { at(d, k) / 4 } else if r == 1 { (at(d, k) % 4) * 16 + at(d, k + 1) / 16 }
    else if r == 2 { (at(d, k + 1) % 16) * 4 + at(d, k + 2) / 64 } else { at(d, k + 2) % 64 }
}
pub open spec fn enc(d: Seq<u8>) -> Seq<u8> {
    Seq::new(((d.len() + 2) / 3 * 4) as nat, |i: int| if i * 6 < d.len() * 8 { b64c(sx(d, i)) } else { 61u8 })
}
#[verifier::external_body]
pub fn xb64_encode_slice(src: &Vec<u8>, out: &mut Vec<u8>) -> (r: Result<usize>)
    ensures r is Ok <==> old(out)@.len() >= enc(src@).len(),
        r is Ok ==> final(out)@ == enc(src@) + old(out)@.subrange(enc(src@).len() as int, old(out)@.len() as int),
        final(out)@.len() == old(out)@.len(),
{ unimplemented!() }
#[verifier::external_body]
pub fn xb64_encode(src: &Vec<u8>) -> (r: XString) ensures r@ == enc(src@) { unimplemented!() }
pub open spec fn isenc(s: Seq<u8>) -> bool { exists|d: Seq<u8>| #[trigger] enc(d) == s }
/// the byte string a base64 text stands for (unique: lemma_enc_inj)
pub open spec fn unb64(s: Seq<u8>) -> Seq<u8> { choose|d: Seq<u8>| #[trigger] enc(d) == s }
#[verifier::external_body]
pub fn xb64_decode_vec(src: &Vec<u8>, out: &mut Vec<u8>) -> (r: Result<()>)
    ensures r is Ok <==> isenc(src@), r is Ok ==> final(out)@ == old(out)@ + unb64(src@), unb64(src@).len() <= src@.len(),
{ unimplemented!() }
#[verifier::external_body]
pub fn xb64_decode(src: &Vec<u8>) -> (r: Result<Vec<u8>>)
    ensures r is Ok <==> isenc(src@), r is Ok ==> r->Ok_0@ == unb64(src@)
{ unimplemented!() }
pub trait XDefault: Sized { fn default() -> Self; }

} // verus!
}
