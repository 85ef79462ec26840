//@imports number bexter data
// ------------------------------------------------------------------ rational numbers (num-rational)
pub open spec fn gcd(a: int, b: int) -> int decreases b { if b <= 0 { a } else { gcd(b, a % b) } }
pub type W = (int, int);
/// lowest terms
pub open spec fn red(n: int, d: int) -> W { (n / gcd(n, d), d / gcd(n, d)) }
pub open spec fn rat(w: W) -> real { w.0 as real / w.1 as real }
/// a weight in lowest terms, between zero and one
pub open spec fn wnorm(w: W) -> bool { 0 <= w.0 <= w.1 <= i32::MAX && w.1 > 0 && gcd(w.0, w.1) == 1 }
pub open spec fn wtxt(w: W) -> Seq<u8> { if w.1 == 1 { idec(w.0) } else { idec(w.0) + L"/" + idec(w.1) } }
pub mod num_rational {
    #[allow(unused_imports)] use vstd::prelude::*;
    #[allow(unused_imports)] use super::super::prelude::*;
    use super::{W, red};
    verus! {
#[verifier::external_body] pub struct Rational32 { n: i32 }
impl View for Rational32 { type V = W; uninterp spec fn view(&self) -> W; }
impl Rational32 {
    #[verifier::external_body] pub fn new(n: i32, d: i32) -> (r: Self) requires n >= 0, d > 0 ensures r@ == red(n as int, d as int) { unimplemented!() }
    #[verifier::external_body] pub fn xnumer(&self) -> (r: &i32) ensures *r == self@.0 { unimplemented!() }
    #[verifier::external_body] pub fn xdenom(&self) -> (r: &i32) ensures *r == self@.1 { unimplemented!() }
}
#[verifier::external_body] pub struct BigInt { n: i32 }
impl BigInt { pub uninterp spec fn v(&self) -> int; }
pub trait XInto<T>: Sized { spec fn iok(self, r: T) -> bool; fn xinto(self) -> (r: T) ensures self.iok(r); }
impl XInto<BigInt> for i32 { open spec fn iok(self, r: BigInt) -> bool { r.v() == self } #[verifier::external_body] fn xinto(self) -> (r: BigInt) { unimplemented!() } }
#[verifier::external_body] pub struct BigRational { n: i32 }
impl BigRational {
    pub uninterp spec fn v(&self) -> real;
    #[verifier::external_body] pub fn new(n: BigInt, d: BigInt) -> (r: Self) requires d.v() != 0 ensures r.v() == n.v() as real / d.v() as real { unimplemented!() }
    #[verifier::external_body] pub fn from_integer(n: BigInt) -> (r: Self) ensures r.v() == n.v() as real { unimplemented!() }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for BigRational {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Self) -> bool { self.v() == other.v() }
}
impl PartialEq for BigRational { #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) { unimplemented!() } }
impl vstd::std_specs::cmp::PartialOrdSpecImpl for BigRational {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, other: &Self) -> Option<core::cmp::Ordering> { if self.v() < other.v() { Some(core::cmp::Ordering::Less) } else if self.v() == other.v() { Some(core::cmp::Ordering::Equal) } else { Some(core::cmp::Ordering::Greater) } }
}
impl PartialOrd for BigRational { #[verifier::external_body] fn partial_cmp(&self, o: &Self) -> (r: Option<core::cmp::Ordering>) { unimplemented!() } }
impl vstd::std_specs::ops::AddAssignSpecImpl for BigRational {
    open spec fn obeys_add_assign_spec() -> bool { false }
    open spec fn add_assign_req(&self, rhs: Self) -> bool { true }
    open spec fn add_assign_spec(&self, rhs: Self) -> &Self { self }
}
impl vstd::std_specs::ops::AddSpecImpl for BigRational {
    open spec fn obeys_add_spec() -> bool { false }
    open spec fn add_req(self, rhs: Self) -> bool { true }
    open spec fn add_spec(self, rhs: Self) -> Self { self }
}
impl core::ops::Add for BigRational { type Output = BigRational; #[verifier::external_body] fn add(self, o: Self) -> (r: Self) ensures r.v() == self.v() + o.v() { unimplemented!() } }
impl core::ops::AddAssign for BigRational { #[verifier::external_body] fn add_assign(&mut self, o: Self) ensures final(self).v() == old(self).v() + o.v() { unimplemented!() } }
    }
}
use num_rational::*;
impl XToString for Rational32 { open spec fn tos(&self) -> Seq<u8> { wtxt(self@) } #[verifier::external_body] fn xto_string(&self) -> (r: XString) { unimplemented!() } }
impl XDisp for Rational32 { open spec fn disp(&self) -> Seq<u8> { wtxt(self@) } #[verifier::external_body] fn xdisp(&self) -> (r: XString) { unimplemented!() } }
impl XClone for Rational32 { open spec fn same(&self, o: &Self) -> bool { self@ == o@ } #[verifier::external_body] fn xclone(&self) -> (r: Self) { unimplemented!() } }
pub open spec fn wv(s: Seq<Rational32>) -> Seq<W> { Seq::new(s.len(), |i: int| s[i]@) }
pub open spec fn wvs(s: Seq<Vec<Rational32>>) -> Seq<Seq<W>> { Seq::new(s.len(), |i: int| wv(s[i]@)) }
impl XClone for Vec<Rational32> { open spec fn same(&self, o: &Self) -> bool { wv(self@) == wv(o@) } #[verifier::external_body] fn xclone(&self) -> (r: Self) { unimplemented!() } }
impl XClone for u32 { open spec fn same(&self, o: &Self) -> bool { *self == *o } fn xclone(&self) -> (r: Self) { *self } }
// ------------------------------------------------------------------ threshold expressions
/// the weight a text stands for
pub open spec fn wraw(s: Seq<u8>) -> Option<W> {
    let p = splitc(s, 47u8);
    if p.len() == 1 { if p[0] == L"0" { Some((0int, 1int)) } else if p[0] == L"1" { Some((1int, 1int)) } else { None } }
    else if p.len() == 2 && isint(p[0]) && isint(p[1]) && 0 <= ival(p[0]) <= ival(p[1]) <= i32::MAX && ival(p[1]) > 0 { Some(red(ival(p[0]), ival(p[1]))) } else { None }
}
pub open spec fn wok(d: D) -> bool { d is Str && wraw(d->Str_0) is Some }
pub open spec fn wof(d: D) -> W { wraw(d->Str_0)->0 }
/// a list of weights
pub open spec fn clp(d: D) -> bool { d is Arr && forall|j: int| 0 <= j < d->Arr_0.len() ==> #[trigger] wok(d->Arr_0[j]) }
pub open spec fn clw(d: D) -> Seq<W> { Seq::new(d->Arr_0.len(), |j: int| wof(d->Arr_0[j])) }
pub open spec fn csum(s: Seq<W>) -> real decreases s.len() { if s.len() == 0 { 0real } else { csum(s.drop_last()) + rat(s.last()) } }
pub open spec fn clok(d: D) -> bool { clp(d) && csum(clw(d)) >= 1real }
/// a list of clauses of weights between zero and one whose exact sum in every clause is at least one
pub open spec fn thok(d: D) -> bool { d is Arr && d->Arr_0.len() > 0 && forall|i: int| 0 <= i < d->Arr_0.len() ==> #[trigger] clok(d->Arr_0[i]) }
pub open spec fn wts(d: D) -> Seq<Seq<W>> { Seq::new(d->Arr_0.len(), |i: int| clw(d->Arr_0[i])) }
/// weights in the first clauses
pub open spec fn woff(cl: Seq<Seq<W>>, i: int) -> int decreases i { if i <= 0 { 0 } else { woff(cl, i - 1) + cl[i - 1].len() } }
pub open spec fn wcount(cl: Seq<Seq<W>>) -> int { woff(cl, cl.len() as int) }
/// number of weights in a document (an empty clause counts as one)
pub open spec fn dcount(a: Seq<D>) -> nat decreases a.len() { if a.len() == 0 { 0 } else { dcount(a.drop_last()) + if a.last() is Arr && a.last()->Arr_0.len() > 0 { a.last()->Arr_0.len() } else { 1 } } }
pub open spec fn few(d: D) -> bool { d is Arr ==> dcount(d->Arr_0) <= u32::MAX }
pub open spec fn cldoc(c: Seq<W>) -> D { D::Arr(Seq::new(c.len(), |j: int| D::Str(wtxt(c[j])))) }
pub open spec fn thdoc(cl: Seq<Seq<W>>) -> D { D::Arr(Seq::new(cl.len(), |i: int| cldoc(cl[i]))) }
pub open spec fn clnorm(c: Seq<W>) -> bool { (forall|j: int| 0 <= j < c.len() ==> wnorm(#[trigger] c[j])) && csum(c) >= 1real }
/// weights an accepted expression denotes
pub open spec fn thcl(cl: Seq<Seq<W>>) -> bool { cl.len() > 0 && forall|i: int| 0 <= i < cl.len() ==> clnorm(#[trigger] cl[i]) }
// the compact text
pub open spec fn joins(v: Seq<Seq<u8>>, sep: Seq<u8>) -> Seq<u8> decreases v.len() {
    if v.len() == 0 { Seq::empty() } else if v.len() == 1 { v[0] } else { joins(v.drop_last(), sep) + sep + v.last() }
}
pub open spec fn wbx(w: W) -> Seq<u8> { if w.1 == 1 { idec(w.0) } else { idec(w.0) + L"s" + idec(w.1) } }
pub open spec fn wbxs(c: Seq<W>) -> Seq<Seq<u8>> { Seq::new(c.len(), |j: int| wbx(c[j])) }
pub open spec fn clbx(c: Seq<W>) -> Seq<u8> { joins(wbxs(c), L"c") }
pub open spec fn clbxs(cl: Seq<Seq<W>>) -> Seq<Seq<u8>> { Seq::new(cl.len(), |i: int| clbx(cl[i])) }
pub open spec fn bextt(cl: Seq<Seq<W>>) -> Seq<u8> { joins(clbxs(cl), L"a") }
/// the document a compact text stands for
pub open spec fn lcl(s: Seq<u8>) -> D { let p = splitc(s, 99u8); D::Arr(Seq::new(p.len(), |j: int| D::Str(p[j]))) }
pub open spec fn ldoc(t: Seq<u8>) -> D { let p = splitc(mapb(t, 115u8, 47u8), 97u8); D::Arr(Seq::new(p.len(), |i: int| lcl(p[i]))) }
/// the primitive that carries the compact text
pub open spec fn bxd(cl: Seq<Seq<W>>) -> Option<(Seq<u8>, nat, Seq<u8>)> { bexdet(Some(bextt(cl)), Some(L"4A"), None, None, None, None) }
pub open spec fn bxok(cl: Seq<Seq<W>>) -> bool { bxd(cl) is Some && bexcode((bxd(cl)->0).0) }
/// a threshold: a number of signatures, or clauses of weights
pub enum Th { Num(nat), Wt(Seq<Seq<W>>) }
pub open spec fn thnum(i: int) -> Option<Th> { if 0 <= i <= u32::MAX { Some(Th::Num(i as nat)) } else { None } }
pub open spec fn thwt(d: D) -> Option<Th> { if thok(d) && bxok(wts(d)) { Some(Th::Wt(wts(d))) } else { None } }
/// what a normalised expression denotes
pub open spec fn tthold(d: D) -> Option<Th> { if d is Int && i64::MIN <= d->Int_0 <= i64::MAX { thnum(d->Int_0) } else { thwt(d) } }
pub open spec fn allarr(a: Seq<D>) -> bool { forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]) is Arr }
pub open spec fn tlist(d: D) -> Option<Th> { if d is Arr && d->Arr_0.len() > 0 { thwt(if allarr(d->Arr_0) { d } else { D::Arr(seq![d]) }) } else { None } }
/// text of a JSON array
pub open spec fn jarr(s: Seq<u8>) -> bool { s.len() > 0 && s[0] == 91 }
/// what a signing threshold expression denotes
pub open spec fn tsith(d: D) -> Option<Th> {
    match d {
        D::Int(i) => if i64::MIN <= i <= i64::MAX { thnum(i) } else { None },
        D::Str(s) => if jarr(s) { if unjson(s) is Some { tlist(unjson(s)->0) } else { None } }
            else if isihex(s) && i64::MIN <= ihval(s) <= i64::MAX { thnum(ihval(s)) } else { None },
        _ => tlist(d),
    }
}
pub open spec fn fews(d: D) -> bool { few(d) && (d is Str && jarr(d->Str_0) && unjson(d->Str_0) is Some ==> few(unjson(d->Str_0)->0)) }
/// what a qualified threshold denotes
pub open spec fn tlimen(l: Seq<u8>) -> Option<Th> {
    if utf8(l) && l.len() > 0 && mok(l) {
        if numcode(qc(l)) { thnum(unbe(qr(l)) as int) } else if bexcode(qc(l)) { thwt(ldoc(btext(mls(qc(l)), qr(l)))) } else { None }
    } else { None }
}
//@struct core::tholder::Tholder as Tholder
pub open spec fn ntis(x: Option<Number>, v: nat) -> bool { x is Some && numcode((x->0).m_code()) && mval(x->0) == numm(v) && mvalid((x->0).m_code(), (x->0).m_size(), (x->0).m_raw()) }
pub open spec fn btis(x: Option<Bexter>, cl: Seq<Seq<W>>) -> bool { x is Some && bexcode((x->0).m_code()) && bxd(cl) == Some(mval(x->0)) && mvalid((x->0).m_code(), (x->0).m_size(), (x->0).m_raw()) }
/// the object holds this threshold
pub open spec fn tis(t: Tholder, th: Th) -> bool {
    match th {
        Th::Num(v) => v <= u32::MAX && dv(t.thold) == D::Int(v as int) && !t.weighted && t.size == v && ntis(t.number, v) && t.bexter is None,
        Th::Wt(cl) => thcl(cl) && dv(t.thold) == thdoc(cl) && t.weighted && t.size == wcount(cl) && t.number is None && btis(t.bexter, cl),
    }
}
pub open spec fn thof(t: Tholder) -> Th { if t.weighted { Th::Wt(wts(dv(t.thold))) } else { Th::Num(dv(t.thold)->Int_0 as nat) } }
pub open spec fn tval(t: Tholder) -> bool { tis(t, thof(t)) }
/// the qualified text of a threshold
pub open spec fn limtext(th: Th) -> Seq<u8> {
    match th { Th::Num(v) => mtext(numm(v).0, numm(v).1, numm(v).2), Th::Wt(cl) => mtext((bxd(cl)->0).0, (bxd(cl)->0).1, (bxd(cl)->0).2) }
}
/// the expression of a threshold
pub open spec fn sithd(th: Th) -> D {
    match th { Th::Num(v) => D::Str(hex(v)), Th::Wt(cl) => if cl.len() == 1 { cldoc(cl[0]) } else { thdoc(cl) } }
}
pub open spec fn nolim(l: Option<&[u8]>) -> bool { l is None || l->0@.len() == 0 }
pub proof fn lemma_thof(t: Tholder)
    ensures forall|th: Th| #[trigger] tis(t, th) ==> thof(t) == th && tval(t) && t.number is None == t.weighted && t.bexter is None == !t.weighted
{
    assert forall|th: Th| #[trigger] tis(t, th) implies thof(t) == th by { match th { Th::Wt(cl) => { lemma_thdoc(cl); } _ => {} } }
}
// ------------------------------------------------------------------ satisfaction
/// weights of a clause at the given indices
pub open spec fn wsum(c: Seq<W>, off: int, s: Set<u32>, n: int) -> real decreases n {
    if n <= 0 { 0real } else { wsum(c, off, s, n - 1) + if off + n - 1 <= u32::MAX && s.contains((off + n - 1) as u32) { rat(c[n - 1]) } else { 0real } }
}
pub open spec fn clsat(cl: Seq<Seq<W>>, i: int, s: Set<u32>) -> bool { wsum(cl[i], woff(cl, i), s, cl[i].len() as int) >= 1real }
pub open spec fn wsat(cl: Seq<Seq<W>>, s: Set<u32>) -> bool { forall|i: int| 0 <= i < cl.len() ==> #[trigger] clsat(cl, i, s) }
pub open spec fn sat(th: Th, s: Set<u32>) -> bool {
    match th { Th::Num(n) => n > 0 && s.len() >= n, Th::Wt(cl) => wsat(cl, s) }
}
// ------------------------------------------------------------------ lemmas: lowest terms
pub proof fn lemma_modmul(k: int, a: int, b: int)
    requires k > 0, a >= 0, b > 0
    ensures (k * a) % (k * b) == k * (a % b), k * b > 0
{
    let q = a / b; let r = a % b;
    assert(a == b * q + r) by { vstd::arithmetic::div_mod::lemma_fundamental_div_mod(a, b); }
    assert(k * a == q * (k * b) + k * r && 0 <= k * r < k * b && k * b > 0) by (nonlinear_arith) requires a == b * q + r, 0 <= r < b, k > 0, b > 0;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(k * a, k * b, q, k * r);
}
pub proof fn lemma_gcd_mul(k: int, a: int, b: int)
    requires k > 0, a >= 0, b >= 0
    ensures gcd(k * a, k * b) == k * gcd(a, b)
    decreases b
{
    if b > 0 { lemma_modmul(k, a, b); lemma_gcd_mul(k, b, a % b); } else { assert(k * b == 0) by (nonlinear_arith) requires b == 0; }
}
pub proof fn lemma_gcd_div(a: int, b: int)
    requires a >= 0, b >= 0, a + b > 0
    ensures gcd(a, b) > 0, a == gcd(a, b) * (a / gcd(a, b)), b == gcd(a, b) * (b / gcd(a, b))
    decreases b
{
    let g = gcd(a, b);
    if b > 0 {
        lemma_gcd_div(b, a % b);
        let x = b / g; let y = (a % b) / g; let q = a / b;
        assert(a == b * q + a % b) by { vstd::arithmetic::div_mod::lemma_fundamental_div_mod(a, b); }
        assert(a == g * (x * q + y)) by (nonlinear_arith) requires a == b * q + a % b, b == g * x, a % b == g * y;
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(a, g, x * q + y, 0);
    } else {
        assert(a == a * (a / a) && b == a * (b / a)) by { assert(a / a == 1 && 0int / a == 0) by (nonlinear_arith) requires a > 0; }
    }
}
pub proof fn lemma_realmul(a: int, b: int) requires a >= 0, b >= 0 ensures (a * b) as real == a as real * b as real decreases b
{
    if b > 0 {
        lemma_realmul(a, b - 1);
        assert(a * b == a * (b - 1) + a) by (nonlinear_arith);
        assert(a as real * b as real == a as real * (b - 1) as real + a as real) by (nonlinear_arith) requires b as real == (b - 1) as real + 1real;
    } else { assert(a * b == 0) by (nonlinear_arith) requires b == 0; assert(a as real * b as real == 0real) by (nonlinear_arith) requires b as real == 0real; }
}
pub proof fn lemma_red(n: int, d: int)
    requires 0 <= n <= d <= i32::MAX, d > 0
    ensures wnorm(red(n, d)), gcd(n, d) == 1 ==> red(n, d) == (n, d), rat(red(n, d)) == n as real / d as real
{
    let g = gcd(n, d); let a = n / g; let b = d / g;
    lemma_gcd_div(n, d);
    assert(0 <= a <= b <= d && b > 0) by (nonlinear_arith) requires n == g * a, d == g * b, 0 <= n <= d, g > 0, d > 0;
    lemma_gcd_mul(g, a, b);
    assert(gcd(a, b) == 1) by (nonlinear_arith) requires g == g * gcd(a, b), g > 0;
    lemma_realmul(g, a); lemma_realmul(g, b);
    if g == 1 { assert(a == n && b == d) by (nonlinear_arith) requires n == g * a, d == g * b, g == 1; }
    assert(n as real / d as real == a as real / b as real) by (nonlinear_arith) requires n as real == g as real * a as real, d as real == g as real * b as real, g > 0, b > 0;
}
// ------------------------------------------------------------------ lemmas: decimal text, splitting
pub proof fn lemma_dec(n: nat)
    ensures dec(n).len() > 0, alldig(dec(n)), dval(dec(n)) == n
    decreases n
{
    reveal_with_fuel(dval, 2);
    if n >= 10 {
        lemma_dec(n / 10);
        assert(dec(n).drop_last() =~= dec(n / 10));
        assert forall|i: int| 0 <= i < dec(n).len() implies 48 <= #[trigger] dec(n)[i] <= 57 by { if i < dec(n / 10).len() { assert(dec(n)[i] == dec(n / 10)[i]); } }
    } else { assert(dec(n).drop_last() =~= Seq::<u8>::empty()); }
}
pub open spec fn nos(s: Seq<u8>, c: u8) -> bool { !s.contains(c) }
pub proof fn lemma_idec(n: int)
    requires n >= 0
    ensures isint(idec(n)), ival(idec(n)) == n, alldig(idec(n)), idec(n).len() > 0, nos(idec(n), 47), nos(idec(n), 97), nos(idec(n), 99), nos(idec(n), 115), b64s(idec(n))
{
    lemma_dec(n as nat);
    let s = idec(n);
    assert(48 <= s[0] <= 57);
    assert forall|c: u8| c < 48 || c > 57 implies nos(s, c) by { if s.contains(c) { let i = choose|i: int| 0 <= i < s.len() && s[i] == c; assert(48 <= s[i] <= 57); } }
    assert forall|i: int| 0 <= i < s.len() implies isb64(#[trigger] s[i]) by { assert(48 <= s[i] <= 57); }
}
pub proof fn lemma_nos_sub(p: Seq<u8>, c: u8)
    requires nos(p, c), p.len() > 0
    ensures nos(p.drop_last(), c), p.last() != c
{
    let q = p.drop_last();
    if q.contains(c) { let i = choose|i: int| 0 <= i < q.len() && q[i] == c; assert(p[i] == c); }
    assert(p[p.len() - 1] == p.last());
}
pub proof fn lemma_split_cat(x: Seq<u8>, p: Seq<u8>, c: u8)
    requires nos(p, c)
    ensures splitc(x + seq![c] + p, c) == splitc(x, c).push(p)
    decreases p.len()
{
    let s = x + seq![c] + p;
    if p.len() == 0 {
        assert(s.drop_last() =~= x); assert(s.last() == c); assert(p =~= Seq::<u8>::empty());
    } else {
        let q = p.drop_last();
        lemma_nos_sub(p, c);
        lemma_split_cat(x, q, c);
        assert(s.drop_last() =~= x + seq![c] + q); assert(s.last() == p.last());
        let sp = splitc(x, c).push(q);
        assert(sp.drop_last() =~= splitc(x, c)); assert(q.push(p.last()) =~= p);
    }
}
pub proof fn lemma_split_one(p: Seq<u8>, c: u8)
    requires nos(p, c)
    ensures splitc(p, c) == seq![p]
    decreases p.len()
{
    if p.len() == 0 { assert(p =~= Seq::<u8>::empty()); } else {
        let q = p.drop_last();
        lemma_nos_sub(p, c);
        lemma_split_one(q, c);
        assert(seq![q].drop_last() =~= Seq::<Seq<u8>>::empty()); assert(q.push(p.last()) =~= p);
        assert(splitc(p, c) =~= seq![p]);
    }
}
/// splitting inverts joining
pub proof fn lemma_split_join(v: Seq<Seq<u8>>, c: u8)
    requires v.len() > 0, forall|i: int| 0 <= i < v.len() ==> nos(#[trigger] v[i], c)
    ensures splitc(joins(v, seq![c]), c) == v
    decreases v.len()
{
    if v.len() == 1 { assert(nos(v[0], c)); lemma_split_one(v[0], c); assert(seq![v[0]] =~= v); } else {
        let w = v.drop_last();
        assert forall|i: int| 0 <= i < w.len() implies nos(#[trigger] w[i], c) by { assert(nos(v[i], c)); }
        lemma_split_join(w, c);
        assert(nos(v[v.len() - 1], c));
        lemma_split_cat(joins(w, seq![c]), v.last(), c);
        assert(w.push(v.last()) =~= v);
    }
}
pub proof fn lemma_joins_nos(v: Seq<Seq<u8>>, sep: u8, c: u8)
    requires c != sep, forall|i: int| 0 <= i < v.len() ==> nos(#[trigger] v[i], c)
    ensures nos(joins(v, seq![sep]), c)
    decreases v.len()
{
    let s = joins(v, seq![sep]);
    if v.len() == 1 { assert(nos(v[0], c)); } else if v.len() > 1 {
        let w = v.drop_last();
        assert forall|i: int| 0 <= i < w.len() implies nos(#[trigger] w[i], c) by { assert(nos(v[i], c)); }
        lemma_joins_nos(w, sep, c);
        assert(nos(v[v.len() - 1], c));
        let a = joins(w, seq![sep]);
        if s.contains(c) {
            let i = choose|i: int| 0 <= i < s.len() && s[i] == c;
            if i < a.len() { assert(a[i] == c); } else if i > a.len() { assert(v.last()[i - a.len() - 1] == c); }
        }
    }
}
pub proof fn lemma_joins_b64(v: Seq<Seq<u8>>, sep: u8)
    requires isb64(sep), forall|i: int| 0 <= i < v.len() ==> b64s(#[trigger] v[i])
    ensures b64s(joins(v, seq![sep]))
    decreases v.len()
{
    if v.len() > 1 {
        let w = v.drop_last();
        assert forall|i: int| 0 <= i < w.len() implies b64s(#[trigger] w[i]) by { assert(b64s(v[i])); }
        lemma_joins_b64(w, sep);
        assert(b64s(v[v.len() - 1]));
        assert(b64s(seq![sep]));
        lemma_b64s_cat(joins(w, seq![sep]), seq![sep]); lemma_b64s_cat(joins(w, seq![sep]) + seq![sep], v.last());
    } else if v.len() == 1 { assert(b64s(v[0])); }
}
pub proof fn lemma_mapb_cat(a: Seq<u8>, b: Seq<u8>, x: u8, y: u8) ensures mapb(a + b, x, y) == mapb(a, x, y) + mapb(b, x, y) { assert(mapb(a + b, x, y) =~= mapb(a, x, y) + mapb(b, x, y)); }
pub proof fn lemma_mapb_id(a: Seq<u8>, x: u8, y: u8) requires nos(a, x) ensures mapb(a, x, y) == a {
    assert forall|i: int| 0 <= i < a.len() implies #[trigger] mapb(a, x, y)[i] == a[i] by { assert(a.contains(a[i])); }
    assert(mapb(a, x, y) =~= a);
}
pub proof fn lemma_mapb_joins(v: Seq<Seq<u8>>, w: Seq<Seq<u8>>, sep: u8, x: u8, y: u8)
    requires sep != x, v.len() == w.len(), forall|i: int| 0 <= i < v.len() ==> mapb(#[trigger] v[i], x, y) == w[i]
    ensures mapb(joins(v, seq![sep]), x, y) == joins(w, seq![sep])
    decreases v.len()
{
    if v.len() > 1 {
        assert forall|i: int| 0 <= i < v.drop_last().len() implies mapb(#[trigger] v.drop_last()[i], x, y) == w.drop_last()[i] by { assert(mapb(v[i], x, y) == w[i]); }
        lemma_mapb_joins(v.drop_last(), w.drop_last(), sep, x, y);
        assert(mapb(v[v.len() - 1], x, y) == w[v.len() - 1]);
        let a = joins(v.drop_last(), seq![sep]);
        lemma_mapb_cat(a, seq![sep], x, y); lemma_mapb_cat(a + seq![sep], v.last(), x, y);
        assert(mapb(seq![sep], x, y) =~= seq![sep]);
    } else if v.len() == 1 { assert(mapb(v[0], x, y) == w[0]); } else { assert(mapb(Seq::<u8>::empty(), x, y) =~= Seq::<u8>::empty()); }
}
pub proof fn lemma_joinx(v: Seq<XString>, w: Seq<Seq<u8>>, sep: Seq<u8>)
    requires v.len() == w.len(), forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i])@ == w[i]
    ensures joinx(v, sep) == joins(w, sep)
    decreases v.len()
{
    if v.len() > 1 {
        assert forall|i: int| 0 <= i < v.drop_last().len() implies (#[trigger] v.drop_last()[i])@ == w.drop_last()[i] by { assert(v[i]@ == w[i]); }
        lemma_joinx(v.drop_last(), w.drop_last(), sep);
        assert(v.last()@ == w.last());
    }
}
// ------------------------------------------------------------------ lemmas: weights and their texts
pub proof fn lemma_wraw(s: Seq<u8>)
    requires wraw(s) is Some
    ensures wnorm(wraw(s)->0)
{
    let p = splitc(s, 47u8);
    if p.len() == 1 { reveal_with_fuel(gcd, 4); assert(gcd(0, 1) == 1 && gcd(1, 1) == 1); } else { lemma_red(ival(p[0]), ival(p[1])); }
}
pub proof fn lemma_wtxt(w: W)
    requires wnorm(w)
    ensures wraw(wtxt(w)) == Some(w), mapb(wbx(w), 115, 47) == wtxt(w), b64s(wbx(w)), wbx(w).len() > 0, wbx(w)[0] != 65, nos(wtxt(w), 97), nos(wtxt(w), 99), nos(wbx(w), 97)
{
    lemma_idec(w.0); lemma_idec(w.1);
    let a = idec(w.0); let b = idec(w.1);
    assert(48 <= a[0] <= 57);
    lemma_mapb_id(a, 115, 47); lemma_mapb_id(b, 115, 47);
    if w.1 == 1 {
        lemma_split_one(a, 47);
        assert(w.0 == 0 || w.0 == 1);
        reveal_with_fuel(dec, 1);
        assert(idec(0) =~= L"0"); assert(idec(1) =~= L"1");
    } else {
        assert(L"/" =~= seq![47u8]); assert(L"s" =~= seq![115u8]);
        lemma_split_one(a, 47); lemma_split_cat(a, b, 47);
        assert(splitc(wtxt(w), 47) =~= seq![a, b]);
        lemma_red(w.0, w.1);
        lemma_mapb_cat(a, L"s", 115, 47); lemma_mapb_cat(a + L"s", b, 115, 47);
        assert(mapb(L"s", 115, 47) =~= L"/");
        assert(b64s(L"s")) by { assert(isb64(115u8)); }
        lemma_b64s_cat(a, L"s"); lemma_b64s_cat(a + L"s", b);
        let t = wtxt(w); let u = wbx(w);
        assert forall|c: u8| c == 97 || c == 99 implies nos(t, c) && nos(u, c) by {
            if t.contains(c) { let i = choose|i: int| 0 <= i < t.len() && t[i] == c; if i < a.len() { assert(a[i] == c); } else if i > a.len() { assert(b[i - a.len() - 1] == c); } }
            if u.contains(c) { let i = choose|i: int| 0 <= i < u.len() && u[i] == c; if i < a.len() { assert(a[i] == c); } else if i > a.len() { assert(b[i - a.len() - 1] == c); } }
        }
    }
}
pub proof fn lemma_cldoc(c: Seq<W>)
    requires clnorm(c)
    ensures clok(cldoc(c)), clw(cldoc(c)) == c, c.len() > 0
{
    let d = cldoc(c);
    assert forall|j: int| 0 <= j < c.len() implies #[trigger] wok(d->Arr_0[j]) && wof(d->Arr_0[j]) == c[j] by { assert(wnorm(c[j])); lemma_wtxt(c[j]); }
    assert forall|j: int| 0 <= j < c.len() implies #[trigger] clw(d)[j] == c[j] by { assert(wok(d->Arr_0[j])); }
    assert(clw(d) =~= c);
    if c.len() == 0 { assert(csum(c) == 0real); }
}
pub proof fn lemma_thdoc(cl: Seq<Seq<W>>)
    requires thcl(cl)
    ensures thok(thdoc(cl)), wts(thdoc(cl)) == cl, forall|i: int| 0 <= i < cl.len() ==> (#[trigger] cl[i]).len() > 0
{
    let d = thdoc(cl);
    assert forall|i: int| 0 <= i < cl.len() implies #[trigger] clok(d->Arr_0[i]) && clw(d->Arr_0[i]) == cl[i] && cl[i].len() > 0 by { assert(clnorm(cl[i])); lemma_cldoc(cl[i]); }
    assert forall|i: int| 0 <= i < cl.len() implies #[trigger] wts(d)[i] == cl[i] by { assert(clok(d->Arr_0[i])); }
    assert(wts(d) =~= cl);
    assert forall|i: int| 0 <= i < cl.len() implies (#[trigger] cl[i]).len() > 0 by { assert(clok(d->Arr_0[i])); }
}
pub proof fn lemma_wts(d: D)
    requires thok(d)
    ensures thcl(wts(d)), wts(d).len() == d->Arr_0.len(), thok(thdoc(wts(d))), wts(thdoc(wts(d))) == wts(d)
{
    let cl = wts(d);
    assert forall|i: int| 0 <= i < cl.len() implies clnorm(#[trigger] cl[i]) by {
        let e = d->Arr_0[i];
        assert(clok(e));
        assert forall|j: int| 0 <= j < cl[i].len() implies wnorm(#[trigger] cl[i][j]) by { assert(wok(e->Arr_0[j])); lemma_wraw(e->Arr_0[j]->Str_0); }
    }
    lemma_thdoc(cl);
}
pub proof fn lemma_clbx(c: Seq<W>)
    requires clnorm(c)
    ensures lcl(mapb(clbx(c), 115, 47)) == cldoc(c), b64s(clbx(c)), nos(mapb(clbx(c), 115, 47), 97), clbx(c).len() > 0, clbx(c)[0] != 65
{
    lemma_cldoc(c);
    let v = wbxs(c); let w = Seq::new(c.len(), |j: int| wtxt(c[j]));
    assert(L"c" =~= seq![99u8]);
    assert forall|j: int| 0 <= j < c.len() implies mapb(#[trigger] v[j], 115, 47) == w[j] && b64s(v[j]) && nos(w[j], 99) && nos(w[j], 97) by { assert(wnorm(c[j])); lemma_wtxt(c[j]); }
    assert forall|j: int| 0 <= j < c.len() implies nos(#[trigger] w[j], 99) && nos(w[j], 97) by { assert(mapb(v[j], 115, 47) == w[j]); }
    lemma_mapb_joins(v, w, 99, 115, 47);
    lemma_split_join(w, 99);
    lemma_joins_b64(v, 99);
    lemma_joins_nos(w, 99, 97);
    let p = splitc(mapb(clbx(c), 115, 47), 99u8);
    assert(p == w);
    assert(lcl(mapb(clbx(c), 115, 47))->Arr_0 =~= cldoc(c)->Arr_0);
    assert(wnorm(c[0])); lemma_wtxt(c[0]);
    lemma_joins_first(v, L"c");
}
pub proof fn lemma_joins_first(v: Seq<Seq<u8>>, sep: Seq<u8>)
    requires v.len() > 0, v[0].len() > 0
    ensures joins(v, sep).len() > 0, joins(v, sep)[0] == v[0][0]
    decreases v.len()
{ if v.len() > 1 { assert(v.drop_last()[0] == v[0]); lemma_joins_first(v.drop_last(), sep); } }
/// the compact text stands for the expression, is base64 and keeps its first character
pub proof fn lemma_bextt(cl: Seq<Seq<W>>)
    requires thcl(cl)
    ensures ldoc(bextt(cl)) == thdoc(cl), b64s(bextt(cl)), bextt(cl).len() > 0, bextt(cl)[0] != 65
{
    let v = clbxs(cl); let w = Seq::new(cl.len(), |i: int| mapb(clbx(cl[i]), 115, 47));
    assert(L"a" =~= seq![97u8]);
    assert forall|i: int| 0 <= i < cl.len() implies mapb(#[trigger] v[i], 115, 47) == w[i] && b64s(v[i]) && nos(w[i], 97) && lcl(w[i]) == cldoc(cl[i]) && v[i].len() > 0 && v[i][0] != 65 by { assert(clnorm(cl[i])); lemma_clbx(cl[i]); }
    assert forall|i: int| 0 <= i < cl.len() implies nos(#[trigger] w[i], 97) && lcl(w[i]) == cldoc(cl[i]) by { assert(mapb(v[i], 115, 47) == w[i]); }
    lemma_mapb_joins(v, w, 97, 115, 47);
    lemma_split_join(w, 97);
    lemma_joins_b64(v, 97);
    assert(splitc(mapb(bextt(cl), 115, 47), 97u8) == w);
    assert(ldoc(bextt(cl))->Arr_0 =~= thdoc(cl)->Arr_0);
    assert(v[0].len() > 0);
    lemma_joins_first(v, L"a");
}
// ------------------------------------------------------------------ lemmas: counting
pub proof fn lemma_dcount(d: D)
    requires thok(d)
    ensures dcount(d->Arr_0) >= wcount(wts(d))
{ lemma_dcount_n(d, d->Arr_0.len() as int); assert(d->Arr_0.subrange(0, d->Arr_0.len() as int) =~= d->Arr_0); }
pub proof fn lemma_dcount_n(d: D, n: int)
    requires thok(d), 0 <= n <= d->Arr_0.len()
    ensures dcount(d->Arr_0.subrange(0, n)) >= woff(wts(d), n)
    decreases n
{
    if n > 0 {
        lemma_dcount_n(d, n - 1);
        assert(d->Arr_0.subrange(0, n).drop_last() =~= d->Arr_0.subrange(0, n - 1));
        assert(clok(d->Arr_0[n - 1]));
    }
}
pub proof fn lemma_woff(cl: Seq<Seq<W>>, i: int, j: int)
    requires 0 <= i <= j <= cl.len()
    ensures 0 <= woff(cl, i) <= woff(cl, j), i < j ==> woff(cl, i) + cl[i].len() <= woff(cl, j)
    decreases j
{ if i < j { lemma_woff(cl, i, j - 1); lemma_woff(cl, 0, i); if i == j - 1 { } } else if j > 0 { lemma_woff(cl, j - 1, j - 1); } }
pub proof fn lemma_fewc(d: D) requires few(d), thok(d) ensures 0 <= wcount(wts(d)) <= u32::MAX { lemma_dcount(d); lemma_woff(wts(d), 0, wts(d).len() as int); }
pub proof fn lemma_fewa(a: Seq<D>) ensures dcount(a) >= a.len() decreases a.len() { if a.len() > 0 { lemma_fewa(a.drop_last()); } }
pub proof fn lemma_few1(d: D) requires few(d) ensures few(D::Arr(seq![d])) {
    let a = seq![d];
    assert(a.drop_last() =~= Seq::<D>::empty());
    reveal_with_fuel(dcount, 2);
    if d is Arr { lemma_fewa(d->Arr_0); }
}
pub proof fn lemma_thok(d: D, i: int, j: int)
    requires thok(d), 0 <= i < d->Arr_0.len()
    ensures d->Arr_0[i] is Arr, 0 <= j < d->Arr_0[i]->Arr_0.len() ==> d->Arr_0[i]->Arr_0[j] is Str
{ assert(clok(d->Arr_0[i])); if 0 <= j < d->Arr_0[i]->Arr_0.len() { assert(wok(d->Arr_0[i]->Arr_0[j])); } }
pub open spec fn slen(p: Seq<Seq<u8>>) -> nat decreases p.len() { if p.len() == 0 { 0 } else { slen(p.drop_last()) + p.last().len() + 1 } }
pub proof fn lemma_slen(s: Seq<u8>, c: u8)
    ensures slen(splitc(s, c)) == s.len() + 1, splitc(s, c).len() <= s.len() + 1, splitc(s, c).len() > 0
    decreases s.len()
{
    reveal_with_fuel(slen, 2);
    if s.len() > 0 {
        lemma_slen(s.drop_last(), c);
        let p = splitc(s.drop_last(), c);
        if s.last() == c { assert(p.push(Seq::<u8>::empty()).drop_last() =~= p); } else { assert(p.drop_last().push(p.last().push(s.last())).drop_last() =~= p.drop_last()); }
    } else { assert(seq![Seq::<u8>::empty()].drop_last() =~= Seq::<Seq<u8>>::empty()); }
}
pub proof fn lemma_lcount(p: Seq<Seq<u8>>)
    ensures dcount(Seq::new(p.len(), |i: int| lcl(p[i]))) <= slen(p)
    decreases p.len()
{
    if p.len() > 0 {
        let q = p.drop_last();
        lemma_lcount(q); lemma_slen(p.last(), 99);
        assert(Seq::new(p.len(), |i: int| lcl(p[i])).drop_last() =~= Seq::new(q.len(), |i: int| lcl(q[i])));
    }
}
pub proof fn lemma_few(t: Seq<u8>)
    requires t.len() < 0x1000_0000
    ensures few(ldoc(t))
{ let m = mapb(t, 115u8, 47u8); lemma_slen(m, 97); lemma_lcount(splitc(m, 97u8)); }
/// short expressions fit the code set
pub proof fn lemma_bxshort(cl: Seq<Seq<W>>)
    requires thcl(cl), bextt(cl).len() < 0x3ff_fff0
    ensures bxok(cl)
{
    lemma_bextt(cl);
    let t = bextt(cl);
    lemma_bext(t); lemma_cid4(L"4A"); lemma_bexcode(L"4A"); lemma_bpick(L"4A", braw(t).len());
    let n = t.len() as int; let k = (n + bws(n)) / 4; assert(k < 0x100_0000); assert(braw(t).len() + vls(braw(t).len()) == k * 3); assert((k * 3) / 3 == k);
    assert(mnew(L"4A", braw(t)));
}
pub proof fn lemma_tlim(x: &XString)
    requires x@.len() > 0
    ensures mok(x@) ==> x@[0] < 128 && isb64(x@[0]) && x@[0] != 45 && x@[0] != 95 && mhs(x@[0]) <= x@.len() && bnd(x@, mhs(x@[0]) as int)
{ lemma_mexf(x); }
pub proof fn lemma_bfew(c: Seq<u8>, z: nat, r: Seq<u8>)
    requires mvalid(c, z, r), bexcode(c)
    ensures mknown(c), mls(c) <= 2, btext(mls(c), r).len() < 0x1000_0000
{ lemma_bexcode(c); lemma_mfit(c, z, r); lemma_enc_size(zs(mls(c)) + r); lemma_mboth(c, z); }
// ------------------------------------------------------------------ lemmas: satisfaction
pub proof fn lemma_wnn(w: W) requires wnorm(w) ensures rat(w) >= 0real
{ let r = rat(w); assert(r >= 0real) by (nonlinear_arith) requires r == w.0 as real / w.1 as real, w.0 >= 0, w.1 > 0; }
pub proof fn lemma_wsum(c: Seq<W>, off: int, s: Set<u32>, t: Set<u32>, n: int, size: int)
    requires 0 <= n <= c.len(), off + c.len() <= size, off >= 0, forall|j: int| 0 <= j < c.len() ==> wnorm(#[trigger] c[j]), forall|x: u32| x < size && s.contains(x) ==> t.contains(x)
    ensures wsum(c, off, s, n) <= wsum(c, off, t, n)
    decreases n
{ if n > 0 { lemma_wsum(c, off, s, t, n - 1, size); assert(wnorm(c[n - 1])); lemma_wnn(c[n - 1]); } }
/// what only adds indices below the size keeps a weighted threshold satisfied
pub proof fn lemma_satwt(cl: Seq<Seq<W>>, s: Set<u32>, t: Set<u32>)
    requires thcl(cl), forall|x: u32| x < wcount(cl) && s.contains(x) ==> t.contains(x), wsat(cl, s)
    ensures wsat(cl, t)
{
    assert forall|i: int| 0 <= i < cl.len() implies #[trigger] clsat(cl, i, t) by {
        assert(clsat(cl, i, s)); assert(clnorm(cl[i]));
        lemma_woff(cl, i, cl.len() as int); lemma_woff(cl, 0, i);
        lemma_wsum(cl[i], woff(cl, i), s, t, cl[i].len() as int, wcount(cl));
    }
}
pub proof fn lemma_satsub(th: Th, s: Set<u32>, t: Set<u32>)
    requires th is Wt ==> thcl(th->Wt_0), s.subset_of(t), sat(th, s)
    ensures sat(th, t)
{
    match th { Th::Num(n) => { vstd::set_lib::lemma_len_subset(s, t); } Th::Wt(cl) => { lemma_satwt(cl, s, t); } }
}
/// one bit per index seen
pub open spec fn bits(b: Seq<bool>, ix: Seq<u32>) -> bool { forall|k: int| 0 <= k < b.len() ==> (#[trigger] b[k] <==> ix.contains(k as u32)) }
pub proof fn lemma_bits(ix: Seq<u32>, i: int, s0: Seq<bool>, s1: Seq<bool>)
    requires 0 <= i < ix.len(), bits(s0, ix.subrange(0, i)), s0.len() <= u32::MAX, s1 == if ix[i] < s0.len() { s0.update(ix[i] as int, true) } else { s0 }
    ensures bits(s1, ix.subrange(0, i + 1))
{
    let p = ix.subrange(0, i); let q = ix.subrange(0, i + 1);
    assert(q =~= p.push(ix[i]));
    assert forall|k: int| 0 <= k < s1.len() implies (#[trigger] s1[k] <==> q.contains(k as u32)) by {
        assert(s0[k] <==> p.contains(k as u32));
        if p.contains(k as u32) { let j = choose|j: int| 0 <= j < p.len() && p[j] == k as u32; assert(q[j] == k as u32); }
        if k == ix[i] { assert(q[i] == k as u32); }
        if q.contains(k as u32) { let j = choose|j: int| 0 <= j < q.len() && q[j] == k as u32; if j < i { assert(p[j] == k as u32); } }
    }
}
/// one bit per index of the set
pub open spec fn setbits(b: Seq<bool>, t: Set<u32>) -> bool { forall|k: int| 0 <= k < b.len() ==> (#[trigger] b[k] <==> t.contains(k as u32)) }
pub proof fn lemma_setbits(ix: Seq<u32>, b: Seq<bool>, t: Set<u32>)
    requires bits(b, ix.subrange(0, ix.len() as int)), ix.to_set() == t
    ensures setbits(b, t)
{
    assert(ix.subrange(0, ix.len() as int) =~= ix);
    assert forall|k: int| 0 <= k < b.len() implies (#[trigger] b[k] <==> t.contains(k as u32)) by { assert(ix.to_set().contains(k as u32) <==> ix.contains(k as u32)); }
}
pub proof fn lemma_bits0(b: Seq<bool>, ix: Seq<u32>) requires forall|k: int| 0 <= k < b.len() ==> !#[trigger] b[k] ensures bits(b, ix.subrange(0, 0)) {}
// ------------------------------------------------------------------ code
impl XDefault for Tholder {
//@fn core::tholder::Tholder.Default::default as default
    ensures dv(r.thold) == D::Int(1), !r.weighted, r.size == 1, r.number is None, r.bexter is None
//@end
}
pub open spec fn clnw(c: Seq<W>) -> bool { forall|j: int| 0 <= j < c.len() ==> wnorm(#[trigger] c[j]) }
pub proof fn lemma_clp(d: D) requires clp(d) ensures clnw(clw(d))
{ assert forall|j: int| 0 <= j < clw(d).len() implies wnorm(#[trigger] clw(d)[j]) by { assert(wok(d->Arr_0[j])); lemma_wraw(d->Arr_0[j]->Str_0); } }
pub proof fn lemma_csum(s: Seq<W>, n: int) requires 0 <= n < s.len() ensures csum(s.subrange(0, n + 1)) == csum(s.subrange(0, n)) + rat(s[n])
{ assert(s.subrange(0, n + 1).drop_last() =~= s.subrange(0, n)); }
pub proof fn lemma_csum0(s: Seq<W>) ensures csum(s.subrange(0, 0)) == 0real, s.subrange(0, s.len() as int) == s { assert(s.subrange(0, s.len() as int) =~= s); }
pub proof fn lemma_red01() ensures red(0, 1) == (0int, 1int), red(1, 1) == (1int, 1int) { reveal_with_fuel(gcd, 4); assert(1int % 1 == 0); assert(gcd(1, 1) == 1 && gcd(0, 1) == 1); assert(0int / 1 == 0 && 1int / 1 == 1); }
pub proof fn lemma_rat01() ensures 0int as real / 1int as real == 0real, 1int as real / 1int as real == 1real {}
/// #[derive(PartialEq)]
impl XEq for Tholder {
    open spec fn eqs(&self, o: &Self) -> bool {
        deq(dv(self.thold), dv(o.thold)) && self.weighted == o.weighted && self.size == o.size
        && (self.number is Some <==> o.number is Some) && (self.number is Some ==> mval(self.number->0) == mval(o.number->0))
        && (self.bexter is Some <==> o.bexter is Some) && (self.bexter is Some ==> mval(self.bexter->0) == mval(o.bexter->0))
    }
    #[verifier::external_body] fn xeq(&self, o: &Self) -> (r: bool) { unimplemented!() }
}
//@fn core::tholder::widen as widen
//@params weight
    requires weight@.1 != 0
    ensures r.v() == rat(weight@)
//@end
//@fn core::tholder::values_to_rationals as values_to_rationals
//@params value
    ensures r is Ok <==> thok(dv(*value)), r is Ok ==> wvs(r->Ok_0@) == wts(dv(*value))
//@attr verifier::loop_isolation(false)
//@ref 3
//@loop 0
    invariant dv(*value) == D::Arr(dvs(__v0@)), clauses@.len() == __i0,
        forall|i: int| 0 <= i < __i0 ==> clp(#[trigger] dvs(__v0@)[i]) && wv(clauses@[i]@) == clw(dvs(__v0@)[i]),
//@loopstart 0
    let ghost d = dvs(__v0@)[__i0 as int];
    proof { assert(d == dv(__v0@[__i0 as int])); let b = clok(d); assert(clok(dv(*value)->Arr_0[__i0 as int]) == b); assert(b ==> clp(d)); }
//@loop 1
    invariant d == D::Arr(dvs(__v1@)), clause@.len() == __i1,
        forall|j: int| 0 <= j < __i1 ==> wok(#[trigger] dvs(__v1@)[j]) && clause@[j]@ == wof(dvs(__v1@)[j]),
//@loopstart 1
    proof { let e = dvs(__v1@)[__i1 as int]; assert(e == dv(__v1@[__i1 as int])); let b = wok(e); assert(wok(d->Arr_0[__i1 as int]) == b); lemma_red01(); }
    let ghost c0 = clause@;
//@loopend 1
    proof {
        let e = dvs(__v1@)[__i1 - 1];
        assert(e == dv(__v1@[__i1 - 1]));
        assert(wraw(e->Str_0) is Some && clause@.last()@ == wraw(e->Str_0)->0);
        assert(clause@ == c0.push(clause@.last()));
        assert forall|j: int| 0 <= j < __i1 implies wok(#[trigger] dvs(__v1@)[j]) && clause@[j]@ == wof(dvs(__v1@)[j]) by { if j < __i1 - 1 { assert(clause@[j] == c0[j]); } }
    }
//@loopend 0
    proof { assert(wv(clauses@[__i0 - 1]@) =~= clw(d)); }
//@beforetok is_empty 0
    proof {
        assert forall|i: int| 0 <= i < clauses@.len() implies clnw(wv(#[trigger] clauses@[i]@)) by { assert(clp(dv(*value)->Arr_0[i])); lemma_clp(dv(*value)->Arr_0[i]); }
        assert(wvs(clauses@) =~= wts(dv(*value)));
    }
//@loop 2
    invariant forall|i: int| 0 <= i < __i2 ==> csum(wv(#[trigger] __v2@[i]@)) >= 1real
//@loopstart 2
    proof { let k = __i2 as int; assert(clp(dv(*value)->Arr_0[k])); assert(clok(dv(*value)->Arr_0[k]) == (csum(wv(__v2@[k]@)) >= 1real)); lemma_csum0(wv(__v2@[k]@)); lemma_rat01(); }
//@loop 3
    invariant __v3@ == clause@, sum.v() == csum(wv(clause@).subrange(0, __i3 as int))
//@loopstart 3
    proof { lemma_csum(wv(clause@), __i3 as int); assert(clnw(wv(clause@))); assert(wnorm(wv(clause@)[__i3 as int])); }
//@end

//@fn core::tholder::rationals_to_bext as rationals_to_bext
//@params clauses
    ensures r@ == bextt(wvs(clauses@))
//@attr verifier::loop_isolation(false)
//@ref 1
//@loop 0
    invariant __v0@ == clauses@, envelope@.len() == __i0, forall|i: int| 0 <= i < __i0 ==> (#[trigger] envelope@[i])@ == clbx(wv(clauses@[i]@)),
//@loop 1
    invariant __v1@ == clause@, text_clause@.len() == __i1, forall|j: int| 0 <= j < __i1 ==> (#[trigger] text_clause@[j])@ == wbx(clause@[j]@),
//@loopend 0
    proof {
        let c = wv(clauses@[__i0 - 1]@);
        lemma_joinx(text_clause@, wbxs(c), L"c");
    }
//@tail
    proof { lemma_joinx(envelope@, clbxs(wvs(clauses@)), L"a"); }
//@end

impl Tholder {
//@fn core::tholder::Tholder::process_unweighted as process_unweighted
//@params thold
    ensures r is Ok <==> thnum(thold as int) is Some, r is Ok ==> tis(*final(self), thnum(thold as int)->0)
//@start
    proof { if 0 <= thold <= u32::MAX { lemma_ncode(thold as nat); } }
//@end
//@fn core::tholder::Tholder::process_weighted as process_weighted
//@params thold
    requires few(dv(*thold))
    ensures r is Ok <==> thwt(dv(*thold)) is Some, r is Ok ==> tis(*final(self), thwt(dv(*thold))->0)
//@start
    hide(thok); hide(mvalid); hide(bexdet); hide(few); hide(dcount); hide(bextt); hide(bexcode); hide(thcl);
//@loop 0
    invariant __v0@ == threshold@, cl == wvs(threshold@), size == woff(cl, __i0 as int), wcount(cl) <= u32::MAX
//@aftertok threshold 0
    let ghost cl = wvs(threshold@);
    proof { lemma_wts(dv(*thold)); lemma_bextt(cl); assert(bxd(cl) is Some && bexcode((bxd(cl)->0).0) <==> bxok(cl)); lemma_fewc(dv(*thold)); }
//@loopstart 0
    proof { lemma_woff(cl, __i0 as int, cl.len() as int); lemma_woff(cl, 0, __i0 as int); lemma_woff(cl, __i0 as int + 1, cl.len() as int); }
//@loop 1
    invariant __v1@ == threshold@, cl == wvs(threshold@), outer@.len() == __i1, forall|i: int| 0 <= i < __i1 ==> dv(#[trigger] outer@[i]) == cldoc(cl[i]),
//@loop 2
    invariant __v2@ == clause@, inner@.len() == __i2, forall|j: int| 0 <= j < __i2 ==> dv(#[trigger] inner@[j]) == D::Str(wtxt(clause@[j]@)),
//@loopend 2
    proof { assert(dv(inner@[__i2 - 1]) == D::Str(wtxt(clause@[__i2 - 1]@))); }
//@loopend 1
    proof { assert(dvs(inner@) =~= cldoc(cl[__i1 - 1])->Arr_0); assert(dv(outer@[__i1 - 1]) == cldoc(cl[__i1 - 1])); }
//@beforetok rationals_to_bext 0
    proof { assert(dvs(outer@) =~= thdoc(cl)->Arr_0); }
//@end
//@fn core::tholder::Tholder::process_thold as process_thold
//@params thold
    requires few(dv(*thold))
    ensures r is Ok <==> tthold(dv(*thold)) is Some, r is Ok ==> tis(*final(self), tthold(dv(*thold))->0)
//@start
    hide(thok); hide(mvalid); hide(bexdet); hide(few); hide(tis);
//@end
//@fn core::tholder::Tholder::process_sith as process_sith
//@params sith
    requires fews(dv(*sith))
    ensures r is Ok <==> tsith(dv(*sith)) is Some, r is Ok ==> tis(*final(self), tsith(dv(*sith))->0)
//@attr verifier::loop_isolation(false)
//@start
    hide(bxok); hide(mvalid); hide(bexdet); hide(tis); hide(wts); hide(thok); hide(few); hide(thnum); hide(isihex); hide(ihval);
    let ghost s0 = *sith;
//@loop 0
    invariant __v0@ == array@, __ok <==> forall|i: int| 0 <= i < __i0 ==> (#[trigger] dvs(array@)[i]) is Arr,
//@loopstart 0
    proof { assert(dvs(array@)[__i0 as int] == dv(array@[__i0 as int])); }
//@beforetok for 0
    let ghost d = dv(sith);
    proof {
        let s = dv(s0);
        let e = if s is Str { unjson(s->Str_0)->0 } else { s };
        lemma_few1(e);
        if !allarr(e->Arr_0) { assert(d->Arr_0 =~= seq![e]); } else { assert(d == e); }
        assert(tsith(s) == thwt(d));
    }
//@loop 1
    invariant d == D::Arr(dvs(__v1@)),
//@loopstart 1
    proof { let k = __i1 as int; assert(dvs(__v1@)[k] == dv(__v1@[k])); if thok(d) { lemma_thok(d, k, 0); } }
//@loop 2
    invariant dv(clause) == D::Arr(dvs(__v2@)), dv(clause) == d->Arr_0[__i1 - 1],
//@loopstart 2
    proof { let k = __i2 as int; assert(dvs(__v2@)[k] == dv(__v2@[k])); if thok(d) { lemma_thok(d, __i1 - 1, k); } }
//@end
//@fn core::tholder::Tholder::process_limen as process_limen
//@params limen
    ensures limen@.len() > 0 ==> (r is Ok <==> tlimen(limen@) is Some), r is Ok && limen@.len() > 0 ==> tis(*final(self), tlimen(limen@)->0),
        limen@.len() == 0 ==> r is Ok && *final(self) == *old(self)
//@start
    hide(thok); hide(mvalid); hide(tis); hide(wts); hide(bxok); hide(mok); hide(qr); hide(qz); hide(mknown); hide(dcount); hide(bexcode); hide(mls); hide(btext); hide(qfs); hide(mvar); hide(mcs); hide(unb64); hide(b64s); hide(few);
//@aftertok from_utf8 0
    let ghost l = limen@;
    proof { lemma_tlim(&limen); lemma_cid4(qc(l)); lemma_cid4(L"M"); lemma_cid4(L"4A"); }
//@beforetok bext 0
    let ghost b = btext(mls(qc(l)), qr(l));
    proof { lemma_bfew(qc(l), qz(l), qr(l)); lemma_few(b); }
//@loop 0
    invariant __v0@ == clauses@, oclauses@.len() == __i0, forall|i: int| 0 <= i < __i0 ==> dv(#[trigger] oclauses@[i]) == lcl(clauses@[i]@),
//@loop 1
    invariant __v1@ == weights@, oweights@.len() == __i1, forall|i: int| 0 <= i < __i1 ==> dv(#[trigger] oweights@[i]) == D::Str(weights@[i]@),
//@loopend 0
    proof { assert(dvs(oweights@) =~= lcl(clauses@[__i0 - 1]@)->Arr_0); }
//@beforetok process_weighted 0
    proof { assert(dvs(oclauses@) =~= ldoc(b)->Arr_0); }
//@end
//@fn core::tholder::Tholder::new as new
//@params thold limen sith
    requires thold is Some ==> few(dv(*thold->0)), sith is Some ==> fews(dv(*sith->0))
    ensures r is Ok <==> (thold is None || tthold(dv(*thold->0)) is Some) && (nolim(limen) || tlimen(limen->0@) is Some) && (sith is None || tsith(dv(*sith->0)) is Some) && (thold is Some || !nolim(limen) || sith is Some),
        r is Ok ==> tval(r->Ok_0),
        r is Ok && sith is Some ==> tis(r->Ok_0, tsith(dv(*sith->0))->0),
        r is Ok && sith is None && !nolim(limen) ==> tis(r->Ok_0, tlimen(limen->0@)->0),
        r is Ok && sith is None && nolim(limen) ==> tis(r->Ok_0, tthold(dv(*thold->0))->0),
//@start
    hide(tthold); hide(tlimen); hide(tsith); hide(few); hide(fews);
//@beforetok default 1
    proof { lemma_thof(tholder); }
//@end
//@fn core::tholder::Tholder::new_with_thold as new_with_thold
//@params thold
    requires few(dv(*thold))
    ensures r is Ok <==> tthold(dv(*thold)) is Some, r is Ok ==> tis(r->Ok_0, tthold(dv(*thold))->0)
//@end
//@fn core::tholder::Tholder::new_with_limen as new_with_limen
//@params limen
    ensures r is Ok <==> tlimen(limen@) is Some, r is Ok ==> tis(r->Ok_0, tlimen(limen@)->0)
//@end
//@fn core::tholder::Tholder::new_with_sith as new_with_sith
//@params sith
    requires fews(dv(*sith))
    ensures r is Ok <==> tsith(dv(*sith)) is Some, r is Ok ==> tis(r->Ok_0, tsith(dv(*sith))->0)
//@end
//@fn core::tholder::Tholder::thold as thold
    ensures dv(r) == dv(self.thold)
//@end
//@fn core::tholder::Tholder::weighted as weighted
    ensures r == self.weighted
//@end
//@fn core::tholder::Tholder::size as size
    ensures r == self.size
//@end
//@fn core::tholder::Tholder::number as number
    ensures r is Some <==> self.number is Some, r is Some ==> mval(r->0) == mval(self.number->0)
//@end
//@fn core::tholder::Tholder::bexter as bexter
    ensures r is Some <==> self.bexter is Some, r is Some ==> mval(r->0) == mval(self.bexter->0)
//@end
//@fn core::tholder::Tholder::num as num
    requires tval(*self)
    ensures r is Ok, thof(*self) is Wt ==> r->Ok_0 is None, thof(*self) is Num ==> r->Ok_0 == Some(thof(*self)->Num_0 as u32)
//@end
//@fn core::tholder::Tholder::limen as limen
    requires tval(*self)
    ensures r is Ok, r->Ok_0@ == limtext(thof(*self))
//@end
//@fn core::tholder::Tholder::sith as sith
    requires tval(*self)
    ensures r is Ok, dv(r->Ok_0) == sithd(thof(*self))
//@end
//@fn core::tholder::Tholder::to_json as to_json
    requires tval(*self)
    ensures r is Ok, r->Ok_0@ == json(sithd(thof(*self)))
//@end
//@fn core::tholder::Tholder::satisfy_numeric as satisfy_numeric
//@params indices
    requires tval(*self), !self.weighted
    ensures r is Ok, r->Ok_0 == sat(thof(*self), indices@.to_set())
//@start
    let ghost t = indices@.to_set();
//@aftertok dedup 0
    proof { indices@.unique_seq_to_set(); }
//@end
//@fn core::tholder::Tholder::satisfy_weighted as satisfy_weighted
//@params indices
    requires tval(*self), self.weighted
    ensures r is Ok, r->Ok_0 == sat(thof(*self), indices@.to_set())
//@start
    hide(thok); hide(bits); hide(thdoc); hide(mvalid); hide(bxd); hide(wts); hide(gcd);
    let ghost t = indices@.to_set();
    let ghost cl = thof(*self)->Wt_0;
    proof { lemma_thof(*self); lemma_thdoc(cl); }
//@aftertok dedup 0
    let ghost ix = indices@;
    proof { assert(ix.to_set() == t); assert forall|b: Seq<bool>| (forall|k: int| 0 <= k < b.len() ==> !#[trigger] b[k]) implies #[trigger] bits(b, ix.subrange(0, 0)) by { lemma_bits0(b, ix); } }
//@loop 0
    invariant __v0@ == ix, sats@.len() == self.size, self.size == wcount(cl), self.size <= u32::MAX, bits(sats@, ix.subrange(0, __i0 as int)),
//@loopstart 0
    let ghost s0 = sats@;
    let ghost i0 = __i0 as int;
//@loopend 0
    proof {
        lemma_bits(ix, i0, s0, sats@);
    }
//@aftertok values_to_rationals 0
    proof {
        lemma_setbits(ix, sats@, t);
        assert(wvs(clauses@) == cl);
        lemma_rat01();
    }
//@loop 1
    invariant __v1@ == clauses@, wvs(clauses@) == cl, RATIONAL_ONE.v() == 1real, thcl(cl), wcount(cl) == sats@.len(), sats@.len() <= u32::MAX, wio == woff(cl, __i1 as int), forall|i: int| 0 <= i < __i1 ==> #[trigger] clsat(cl, i, t),
        setbits(sats@, t),
//@loopstart 1
    let ghost i1 = __i1 as int;
    proof { lemma_woff(cl, i1, cl.len() as int); lemma_woff(cl, 0, i1); lemma_woff(cl, i1 + 1, cl.len() as int); assert(clnorm(cl[i1])); lemma_rat01(); assert(clsat(cl, i1, t) == (wsum(cl[i1], woff(cl, i1), t, cl[i1].len() as int) >= 1real)); }
//@loop 2
    invariant __v2@ == clause@, wv(clause@) == cl[i1], clnw(cl[i1]), wio == woff(cl, i1) + __i2, woff(cl, i1) >= 0, woff(cl, i1) + cl[i1].len() <= sats@.len(), sats@.len() <= u32::MAX, cw.v() == wsum(cl[i1], woff(cl, i1), t, __i2 as int),
        setbits(sats@, t),
//@loopstart 2
    proof { assert(wnorm(cl[i1][__i2 as int])); }
//@loopend 1
    proof { assert(clsat(cl, i1, t)); }
//@end
//@fn core::tholder::Tholder::satisfy as satisfy
//@params indices
    requires tval(*self)
    ensures r is Ok, r->Ok_0 == sat(thof(*self), indices@.to_set())
//@end
}
// ------------------------------------------------------------------ theorems
pub proof fn lemma_dfew(cl: Seq<Seq<W>>)
    requires forall|i: int| 0 <= i < cl.len() ==> (#[trigger] cl[i]).len() > 0
    ensures dcount(thdoc(cl)->Arr_0) == wcount(cl)
{ lemma_dfew_n(cl, cl.len() as int); let a = thdoc(cl)->Arr_0; assert(a.subrange(0, a.len() as int) =~= a); }
pub proof fn lemma_dfew_n(cl: Seq<Seq<W>>, n: int)
    requires forall|i: int| 0 <= i < cl.len() ==> (#[trigger] cl[i]).len() > 0, 0 <= n <= cl.len()
    ensures dcount(thdoc(cl)->Arr_0.subrange(0, n)) == woff(cl, n)
    decreases n
{ let a = thdoc(cl)->Arr_0; if n > 0 { lemma_dfew_n(cl, n - 1); assert(a.subrange(0, n).drop_last() =~= a.subrange(0, n - 1)); assert(cl[n - 1].len() > 0); } }
pub proof fn lemma_dcl(c: Seq<W>) ensures dcount(cldoc(c)->Arr_0) == c.len() { lemma_dcl_n(c, c.len() as int); let a = cldoc(c)->Arr_0; assert(a.subrange(0, a.len() as int) =~= a); }
pub proof fn lemma_dcl_n(c: Seq<W>, n: int)
    requires 0 <= n <= c.len()
    ensures dcount(cldoc(c)->Arr_0.subrange(0, n)) == n
    decreases n
{ let a = cldoc(c)->Arr_0; if n > 0 { lemma_dcl_n(c, n - 1); assert(a.subrange(0, n).drop_last() =~= a.subrange(0, n - 1)); } }
/// the expression of a threshold denotes it
pub proof fn lemma_sithd(t: Tholder)
    requires tval(t)
    ensures fews(sithd(thof(t))), tsith(sithd(thof(t))) == Some(thof(t))
{
    match thof(t) {
        Th::Num(v) => { lemma_hex(v); assert(ishexd(hex(v)[0])); }
        Th::Wt(cl) => {
            lemma_thdoc(cl); lemma_dfew(cl); assert(bxok(cl));
            if cl.len() == 1 {
                let d = cldoc(cl[0]);
                assert(clnorm(cl[0])); lemma_cldoc(cl[0]); lemma_dcl(cl[0]);
                reveal_with_fuel(woff, 2);
                assert(d->Arr_0[0] is Str); assert(!allarr(d->Arr_0));
                assert(seq![d] =~= thdoc(cl)->Arr_0);
            } else { assert(allarr(thdoc(cl)->Arr_0)); }
        }
    }
}
/// the qualified text of a threshold denotes it
pub proof fn lemma_limtext(t: Tholder)
    requires tval(t)
    ensures tlimen(limtext(thof(t))) == Some(thof(t)), limtext(thof(t)).len() > 0
{
    let l = limtext(thof(t));
    match thof(t) {
        Th::Num(v) => { lemma_ncode(v); lemma_mself(ncode(v), 0, be(v, nwidth(ncode(v)))); axiom_ascii_utf8(l); lemma_mok(l); }
        Th::Wt(cl) => {
            let m = bxd(cl)->0;
            lemma_bextt(cl); lemma_thdoc(cl);
            lemma_btold(bextt(cl), L"4A"); lemma_mself(m.0, m.1, m.2); axiom_ascii_utf8(l); lemma_mok(l); lemma_cid4(m.0);
        }
    }
}
/// C18: satisfaction is decided, and depends only on the set of indices, monotonically, by count or by the exact weights of every clause
fn thm_c18(t: &Tholder, a: &[u32], b: &[u32])
    requires tval(*t)
{
    let x = t.satisfy(a); let y = t.satisfy(b);
    assert(x is Ok && y is Ok);
    let ghost s = a@.to_set(); let ghost u = b@.to_set(); let ghost th = thof(*t);
    proof {
        if s == u { assert(x->Ok_0 == y->Ok_0); }
        if s.subset_of(u) && x->Ok_0 { lemma_satsub(th, s, u); assert(y->Ok_0); }
        match th {
            Th::Num(n) => { assert(x->Ok_0 <==> n > 0 && s.len() >= n); }
            Th::Wt(cl) => {
                assert(x->Ok_0 <==> forall|i: int| 0 <= i < cl.len() ==> #[trigger] clsat(cl, i, s));
                // indices at or beyond the size do not count
                if (forall|k: u32| k < t.size && s.contains(k) ==> u.contains(k)) && x->Ok_0 { lemma_satwt(cl, s, u); assert(y->Ok_0); }
            }
        }
    }
}
/// C19: what is accepted (and nothing else): a number, or clauses of weights between zero and one that sum to at least one
fn thm_c19_accept(d: &Value)
    requires fews(dv(*d))
{
    let r = Tholder::new_with_sith(d);
    assert(r is Ok <==> tsith(dv(*d)) is Some);
    assert(dv(*d) is Arr && allarr(dv(*d)->Arr_0) && r is Ok ==> thok(dv(*d)));
    proof {
        let e = dv(*d);
        if e is Arr && thok(e) {
            lemma_wts(e);
            assert(allarr(e->Arr_0)) by { assert forall|i: int| 0 <= i < e->Arr_0.len() implies (#[trigger] e->Arr_0[i]) is Arr by { lemma_thok(e, i, 0); } }
            // every such expression of ordinary size is accepted
            if bextt(wts(e)).len() < 0x3ff_fff0 { lemma_bxshort(wts(e)); assert(r is Ok); }
        }
    }
}
/// C19: a threshold comes back from its qualified text and from its expression
fn thm_c19_one(t: &Tholder)
    requires tval(*t)
{
    proof { lemma_limtext(*t); lemma_sithd(*t); }
    let l = t.limen(); let s = t.sith();
    assert(l is Ok && s is Ok);
    if let (Ok(l), Ok(s)) = (l, s) {
        let a = Tholder::new_with_limen(&l);
        assert(a is Ok);
        if let Ok(a) = a { proof { lemma_thof(a); } assert(thof(a) == thof(*t)); }
        let b = Tholder::new_with_sith(&s);
        assert(b is Ok);
        if let Ok(b) = b { proof { lemma_thof(b); } assert(thof(b) == thof(*t)); }
    }
}
fn thm_c19(d: &Value)
    requires fews(dv(*d))
{
    let r = Tholder::new_with_sith(d);
    if let Ok(t) = r { proof { lemma_thof(t); } thm_c19_one(&t); assert(thof(t) == tsith(dv(*d))->0); }
}
fn thm_c19_limen(l: &[u8])
{
    let r = Tholder::new_with_limen(l);
    if let Ok(t) = r { proof { lemma_thof(t); } thm_c19_one(&t); assert(thof(t) == tlimen(l@)->0); }
}
