// ------------------------------------------------------------------ insertion ordered maps (indexmap), serde_json values
/// position of a key, -1 if absent
pub open spec fn pos<V>(s: Seq<(Seq<u8>, V)>, k: Seq<u8>) -> int decreases s.len() {
    if s.len() == 0 { -1 } else if s.last().0 == k { s.len() - 1 } else { pos(s.drop_last(), k) }
}
pub open spec fn hask<V>(s: Seq<(Seq<u8>, V)>, k: Seq<u8>) -> bool { pos(s, k) >= 0 }
pub open spec fn valk<V>(s: Seq<(Seq<u8>, V)>, k: Seq<u8>) -> V { s[pos(s, k)].1 }
/// insertion: an existing key keeps its place
pub open spec fn put<V>(s: Seq<(Seq<u8>, V)>, k: Seq<u8>, v: V) -> Seq<(Seq<u8>, V)> { if hask(s, k) { s.update(pos(s, k), (k, v)) } else { s.push((k, v)) } }
pub open spec fn del<V>(s: Seq<(Seq<u8>, V)>, k: Seq<u8>) -> Seq<(Seq<u8>, V)> { if hask(s, k) { s.remove(pos(s, k)) } else { s } }
pub open spec fn dist<V>(s: Seq<(Seq<u8>, V)>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 != (#[trigger] s[j]).0 }
pub proof fn lemma_kpos<V>(s: Seq<(Seq<u8>, V)>, k: Seq<u8>)
    ensures -1 <= pos(s, k) < s.len(), pos(s, k) >= 0 ==> s[pos(s, k)].0 == k, pos(s, k) < 0 ==> forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0 != k
    decreases s.len()
{
    if s.len() > 0 && s.last().0 != k {
        lemma_kpos(s.drop_last(), k);
        assert forall|i: int| 0 <= i < s.len() && pos(s, k) < 0 implies (#[trigger] s[i]).0 != k by { if i < s.len() - 1 { assert(s.drop_last()[i].0 != k); } }
    }
}
pub proof fn lemma_pos_at<V>(s: Seq<(Seq<u8>, V)>, i: int)
    requires dist(s), 0 <= i < s.len()
    ensures pos(s, s[i].0) == i
{ lemma_kpos(s, s[i].0); }
/// positions depend on the keys only
pub proof fn lemma_pos_keys<V, W>(s: Seq<(Seq<u8>, V)>, t: Seq<(Seq<u8>, W)>, k: Seq<u8>)
    requires s.len() == t.len(), forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0 == t[i].0
    ensures pos(s, k) == pos(t, k)
    decreases s.len()
{
    if s.len() > 0 {
        assert(s.last().0 == t.last().0);
        assert forall|i: int| 0 <= i < s.drop_last().len() implies (#[trigger] s.drop_last()[i]).0 == t.drop_last()[i].0 by { assert(s[i].0 == t[i].0); }
        lemma_pos_keys(s.drop_last(), t.drop_last(), k);
    }
}
pub proof fn lemma_fresh<V, W>(m: Seq<(Seq<u8>, V)>, o: Seq<(Seq<u8>, W)>, n: int)
    requires dist(o), 0 <= n < o.len(), m.len() == n, forall|i: int| 0 <= i < n ==> (#[trigger] m[i]).0 == o[i].0
    ensures !hask(m, o[n].0)
{ lemma_kpos(m, o[n].0); }
pub proof fn lemma_putput<V>(s: Seq<(Seq<u8>, V)>, k: Seq<u8>, v: V, w: V)
    ensures put(put(s, k, v), k, w) == put(s, k, w), hask(put(s, k, v), k), valk(put(s, k, v), k) == v
{
    lemma_kpos(s, k);
    if hask(s, k) { lemma_pos_keys(s, s.update(pos(s, k), (k, v)), k); }
    assert(put(put(s, k, v), k, w) =~= put(s, k, w));
}
pub mod indexmap {
    #[allow(unused_imports)] use vstd::prelude::*;
    #[allow(unused_imports)] use super::super::prelude::*;
    use super::{pos, hask, valk, put, del, dist};
    verus! {
    #[verifier::external_body]
    #[verifier::accept_recursive_types(V)]
    #[verifier::reject_recursive_types(K)]
    pub struct IndexMap<K, V> { v: Vec<(K, V)> }
    impl<K, V> IndexMap<K, V> { pub uninterp spec fn ent(&self) -> Seq<(Seq<u8>, V)>; }
    pub broadcast axiom fn axiom_map_dec<K, V>(m: IndexMap<K, V>, i: int)
        requires 0 <= i < m.ent().len()
        ensures #[trigger] (decreases_to!(m => m.ent()[i].1));
    pub axiom fn axiom_dist<K, V>(m: &IndexMap<K, V>) ensures dist(m.ent());
    impl<V> IndexMap<XString, V> {
        #[verifier::external_body] pub fn new() -> (r: Self) ensures r.ent() == Seq::<(Seq<u8>, V)>::empty() { unimplemented!() }
        #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self.ent().len() { unimplemented!() }
        #[verifier::external_body] pub fn insert(&mut self, k: XString, v: V) -> (r: Option<V>)
            ensures final(self).ent() == put(old(self).ent(), k@, v), r is Some <==> hask(old(self).ent(), k@), r is Some ==> r->0 == valk(old(self).ent(), k@) { unimplemented!() }
        #[verifier::external_body] pub fn xcontains_key(&self, k: &XString) -> (r: bool) ensures r == hask(self.ent(), k@) { unimplemented!() }
        #[verifier::external_body] pub fn xidx(&self, k: &XString) -> (r: &V)
            requires hask(self.ent(), k@) ensures *r == valk(self.ent(), k@) { unimplemented!() }
        #[verifier::external_body] pub fn xidx_mut(&mut self, k: &XString) -> (r: &mut V)
            requires hask(old(self).ent(), k@)
            ensures *r == valk(old(self).ent(), k@), final(self).ent() == put(old(self).ent(), k@, *final(r)) { unimplemented!() }
        #[verifier::external_body] pub fn get(&self, k: &XString) -> (r: Option<&V>)
            ensures r is Some <==> hask(self.ent(), k@), r is Some ==> *r->0 == valk(self.ent(), k@) { unimplemented!() }
        #[verifier::external_body] pub fn xshift_remove(&mut self, k: &XString) -> (r: Option<V>)
            ensures final(self).ent() == del(old(self).ent(), k@), r is Some <==> hask(old(self).ent(), k@), r is Some ==> r->0 == valk(old(self).ent(), k@) { unimplemented!() }
        #[verifier::external_body] pub fn xentries<'a>(&'a self) -> (r: Vec<(&'a XString, &'a V)>)
            ensures r@.len() == self.ent().len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).0@ == self.ent()[i].0 && *r@[i].1 == self.ent()[i].1 { unimplemented!() }
    }
    impl<V> IndexMap<XString, V> {
        #[verifier::external_body] pub fn xat_mut(&mut self, i: usize) -> (r: &mut V)
            requires i < old(self).ent().len()
            ensures *r == old(self).ent()[i as int].1, final(self).ent() == old(self).ent().update(i as int, (old(self).ent()[i as int].0, *final(r))) { unimplemented!() }
    }
    impl<V> vstd::std_specs::core::IndexSpecImpl<usize> for IndexMap<XString, V> { open spec fn index_req(&self, index: &usize) -> bool { *index < self.ent().len() } }
    impl<V> core::ops::Index<usize> for IndexMap<XString, V> {
        type Output = V;
        #[verifier::external_body] fn index(&self, index: usize) -> (r: &V) ensures *r == self.ent()[index as int].1 { unimplemented!() }
    }
    }
}
use indexmap::*;
// ------------------------------------------------------------------ documents
/// a JSON document: what a Value means
pub enum D { Null, Bool(bool), Flt(XF), Int(int), Str(Seq<u8>), Arr(Seq<D>), Obj(Seq<(Seq<u8>, D)>) }
//@struct data::Number as DNumber
//@struct data::Value as Value
pub open spec fn dnum(n: DNumber) -> D { if n.float { D::Flt(n.f) } else { D::Int(n.i as int) } }
pub open spec fn dv(v: Value) -> D decreases v via dv_dec {
    match v {
        Value::Null => D::Null,
        Value::Boolean(b) => D::Bool(b),
        Value::Number(n) => dnum(n),
        Value::String(s) => D::Str(s@),
        Value::Array(a) => D::Arr(Seq::new(a@.len(), |i: int| if 0 <= i < a@.len() { dv(a@[i]) } else { D::Null })),
        Value::Object(o) => D::Obj(Seq::new(o.ent().len(), |i: int| if 0 <= i < o.ent().len() { (o.ent()[i].0, dv(o.ent()[i].1)) } else { (Seq::empty(), D::Null) })),
    }
}
#[via_fn]
proof fn dv_dec(v: Value) {
    broadcast use axiom_map_dec;
    match v {
        Value::Array(a) => { assert forall|i: int| 0 <= i < a@.len() implies #[trigger] decreases_to!(v => a@[i]) by { assert(decreases_to!(a => a[i])); } }
        Value::Object(o) => { assert forall|i: int| 0 <= i < o.ent().len() implies #[trigger] decreases_to!(v => o.ent()[i].1) by { assert(decreases_to!(o => o.ent()[i].1)); } }
        _ => {}
    }
}
pub type Array = Vec<Value>;
pub type Object = IndexMap<XString, Value>;
pub open spec fn dvs(a: Seq<Value>) -> Seq<D> { Seq::new(a.len(), |i: int| dv(a[i])) }
pub open spec fn dvo(o: Seq<(Seq<u8>, Value)>) -> Seq<(Seq<u8>, D)> { Seq::new(o.len(), |i: int| (o[i].0, dv(o[i].1))) }
pub proof fn lemma_dv(v: Value)
    ensures v is Array ==> dv(v) == D::Arr(dvs(v->Array_0@)), v is Object ==> dv(v) == D::Obj(dvo(v->Object_0.ent())),
        v is Object ==> dist(dvo(v->Object_0.ent())) && dist(v->Object_0.ent())
{
    match v {
        Value::Array(a) => { assert(dv(v)->Arr_0 =~= dvs(a@)); }
        Value::Object(o) => { assert(dv(v)->Obj_0 =~= dvo(o.ent())); axiom_dist(&o); }
        _ => {}
    }
}
pub proof fn lemma_dvo(o: Seq<(Seq<u8>, Value)>, k: Seq<u8>, v: Value)
    ensures pos(dvo(o), k) == pos(o, k), hask(dvo(o), k) == hask(o, k), hask(o, k) ==> valk(dvo(o), k) == dv(valk(o, k)), dvo(put(o, k, v)) == put(dvo(o), k, dv(v)), dvo(del(o, k)) == del(dvo(o), k)
{
    lemma_pos_keys(dvo(o), o, k); lemma_kpos(o, k);
    assert(dvo(put(o, k, v)) =~= put(dvo(o), k, dv(v)));
    assert(dvo(del(o, k)) =~= del(dvo(o), k));
}
// the numbers a serde_json value holds
#[verifier::external_body] pub struct JNum { n: f64 }
pub enum JN { Int(int), Flt(XF) }
impl JNum {
    pub uninterp spec fn jn(&self) -> JN;
    #[verifier::external_body] pub fn as_i64(&self) -> (r: Option<i64>)
        ensures r is Some <==> self.jn() is Int && i64::MIN <= self.jn()->Int_0 <= i64::MAX, r is Some ==> r->0 == self.jn()->Int_0 { unimplemented!() }
    #[verifier::external_body] pub fn as_u64(&self) -> (r: Option<u64>)
        ensures r is Some <==> self.jn() is Int && 0 <= self.jn()->Int_0 <= u64::MAX, r is Some ==> r->0 == self.jn()->Int_0 { unimplemented!() }
    #[verifier::external_body] pub fn as_f64(&self) -> (r: Option<XF>)
        ensures r is Some, self.jn() is Flt ==> r->0 == self.jn()->Flt_0 { unimplemented!() }
}
/// without arbitrary precision an integer fits 64 bits
pub axiom fn axiom_jnum(n: &JNum) ensures n.jn() is Int ==> i64::MIN <= n.jn()->Int_0 <= u64::MAX;
pub enum JsonValue { Null, Bool(bool), Number(JNum), String(XString), Array(Vec<JsonValue>), Object(IndexMap<XString, JsonValue>) }
pub open spec fn djnum(n: JNum) -> D { match n.jn() { JN::Int(i) => D::Int(i), JN::Flt(f) => D::Flt(f) } }
pub open spec fn dj(v: JsonValue) -> D decreases v via dj_dec {
    match v {
        JsonValue::Null => D::Null,
        JsonValue::Bool(b) => D::Bool(b),
        JsonValue::Number(n) => djnum(n),
        JsonValue::String(s) => D::Str(s@),
        JsonValue::Array(a) => D::Arr(Seq::new(a@.len(), |i: int| if 0 <= i < a@.len() { dj(a@[i]) } else { D::Null })),
        JsonValue::Object(o) => D::Obj(Seq::new(o.ent().len(), |i: int| if 0 <= i < o.ent().len() { (o.ent()[i].0, dj(o.ent()[i].1)) } else { (Seq::empty(), D::Null) })),
    }
}
#[via_fn]
proof fn dj_dec(v: JsonValue) {
    broadcast use axiom_map_dec;
    match v {
        JsonValue::Array(a) => { assert forall|i: int| 0 <= i < a@.len() implies #[trigger] decreases_to!(v => a@[i]) by { assert(decreases_to!(a => a[i])); } }
        JsonValue::Object(o) => { assert forall|i: int| 0 <= i < o.ent().len() implies #[trigger] decreases_to!(v => o.ent()[i].1) by { assert(decreases_to!(o => o.ent()[i].1)); } }
        _ => {}
    }
}
// ------------------------------------------------------------------ JSON text
pub open spec fn escb(c: u8) -> Seq<u8> {
    if c == 34 { seq![92u8, 34u8] } else if c == 92 { seq![92u8, 92u8] } else if c == 8 { seq![92u8, 98u8] } else if c == 9 { seq![92u8, 116u8] }
    else if c == 10 { seq![92u8, 110u8] } else if c == 12 { seq![92u8, 102u8] } else if c == 13 { seq![92u8, 114u8] }
    else if c < 32 { seq![92u8, 117u8, 48u8, 48u8, hexd((c / 16) as nat), hexd((c % 16) as nat)] } else { seq![c] }
}
pub open spec fn esc(s: Seq<u8>) -> Seq<u8> decreases s.len() { if s.len() == 0 { Seq::empty() } else { esc(s.drop_last()) + escb(s.last()) } }
pub open spec fn jstr(s: Seq<u8>) -> Seq<u8> { seq![34u8] + esc(s) + seq![34u8] }
/// text of a float (null if it is not finite)
pub uninterp spec fn jflt(f: XF) -> Seq<u8>;
pub open spec fn json(d: D) -> Seq<u8> decreases d {
    match d {
        D::Null => L"null",
        D::Bool(b) => if b { L"true" } else { L"false" },
        D::Flt(f) => jflt(f),
        D::Int(i) => idec(i),
        D::Str(s) => jstr(s),
        D::Arr(a) => seq![91u8] + jarr(a) + seq![93u8],
        D::Obj(o) => seq![123u8] + jobj(o) + seq![125u8],
    }
}
pub open spec fn jarr(a: Seq<D>) -> Seq<u8> decreases a {
    if a.len() == 0 { Seq::empty() } else if a.len() == 1 { json(a[0]) } else { jarr(a.drop_last()) + seq![44u8] + json(a.last()) }
}
pub open spec fn jent(e: (Seq<u8>, D)) -> Seq<u8> decreases e { jstr(e.0) + seq![58u8] + json(e.1) }
pub open spec fn jobj(o: Seq<(Seq<u8>, D)>) -> Seq<u8> decreases o {
    if o.len() == 0 { Seq::empty() } else if o.len() == 1 { jent(o[0]) } else { jobj(o.drop_last()) + seq![44u8] + jent(o.last()) }
}
/// serde_json: a value, and its compact text
pub trait XJson { spec fn jd(&self) -> D; fn xjson(&self) -> (r: JsonValue) ensures dj(r) == self.jd(); }
impl XJson for bool { open spec fn jd(&self) -> D { D::Bool(*self) } #[verifier::external_body] fn xjson(&self) -> (r: JsonValue) { unimplemented!() } }
impl XJson for XString { open spec fn jd(&self) -> D { D::Str(self@) } #[verifier::external_body] fn xjson(&self) -> (r: JsonValue) { unimplemented!() } }
/// a float that is not finite has no JSON form and becomes null
pub uninterp spec fn ffin(f: XF) -> bool;
pub axiom fn axiom_jflt(f: XF) requires !ffin(f) ensures jflt(f) == L"null";
impl XJson for XF { open spec fn jd(&self) -> D { if ffin(*self) { D::Flt(*self) } else { D::Null } } #[verifier::external_body] fn xjson(&self) -> (r: JsonValue) { unimplemented!() } }
impl XToString for JsonValue { open spec fn tos(&self) -> Seq<u8> { json(dj(*self)) } #[verifier::external_body] fn xto_string(&self) -> (r: XString) { unimplemented!() } }
impl XDisp for JsonValue { open spec fn disp(&self) -> Seq<u8> { json(dj(*self)) } #[verifier::external_body] fn xdisp(&self) -> (r: XString) { unimplemented!() } }
/// reading JSON text
pub uninterp spec fn unjson(s: Seq<u8>) -> Option<D>;
/// indented JSON text (serde_json::to_string_pretty)
pub uninterp spec fn jpretty(d: D) -> Seq<u8>;
/// documents without floating point numbers, integers of at most 64 bits, distinct keys, nested less than serde_json's recursion limit
pub open spec fn tame(d: D, n: int) -> bool decreases d {
    n > 0 && match d {
        D::Flt(_) => false,
        D::Int(i) => i64::MIN <= i <= u64::MAX,
        D::Arr(a) => forall|i: int| 0 <= i < a.len() ==> #[trigger] tame(a[i], n - 1),
        D::Obj(o) => dist(o) && forall|i: int| 0 <= i < o.len() ==> tame((#[trigger] o[i]).1, n - 1),
        _ => true,
    }
}
/// serde_json reads back what it wrote
pub axiom fn axiom_unjson(d: D) requires tame(d, 127) ensures unjson(json(d)) == Some(d);
pub mod serde_json {
    #[allow(unused_imports)] use vstd::prelude::*;
    #[allow(unused_imports)] use super::super::prelude::*;
    use super::{unjson, dj, jpretty};
    pub use super::JsonValue as Value;
    verus! {
    #[verifier::external_body] pub fn from_str(s: &XString) -> (r: Result<Value>)
        ensures r is Ok <==> unjson(s@) is Some, r is Ok ==> unjson(s@) == Some(dj(r->Ok_0)) { unimplemented!() }
    #[verifier::external_body] pub fn to_string_pretty(v: &Value) -> (r: Result<XString>)
        ensures r is Ok, r->Ok_0@ == jpretty(dj(*v)) { unimplemented!() }
    }
}
// ------------------------------------------------------------------ copies and equality (derived)
pub uninterp spec fn feq(a: XF, b: XF) -> bool;
pub open spec fn deq(a: D, b: D) -> bool decreases a {
    match (a, b) {
        (D::Null, D::Null) => true,
        (D::Bool(x), D::Bool(y)) => x == y,
        (D::Flt(x), D::Flt(y)) => feq(x, y),
        (D::Int(x), D::Int(y)) => x == y,
        (D::Str(x), D::Str(y)) => x == y,
        (D::Arr(x), D::Arr(y)) => x.len() == y.len() && forall|i: int| 0 <= i < x.len() ==> deq(#[trigger] x[i], y[i]),
        (D::Obj(x), D::Obj(y)) => x.len() == y.len() && forall|i: int| 0 <= i < x.len() ==> hask(y, (#[trigger] x[i]).0) && deq(x[i].1, valk(y, x[i].0)),
        _ => false,
    }
}
impl XClone for Value {
    open spec fn same(&self, o: &Self) -> bool { dv(*self) == dv(*o) }
    #[verifier::external_body] fn xclone(&self) -> (r: Self) { unimplemented!() }
}
impl XClone for Vec<Value> {
    open spec fn same(&self, o: &Self) -> bool { dvs(self@) == dvs(o@) }
    #[verifier::external_body] fn xclone(&self) -> (r: Self) { unimplemented!() }
}
impl XClone for IndexMap<XString, Value> {
    open spec fn same(&self, o: &Self) -> bool { dvo(self.ent()) == dvo(o.ent()) }
    #[verifier::external_body] fn xclone(&self) -> (r: Self) { unimplemented!() }
}
impl XEq for Value {
    open spec fn eqs(&self, o: &Self) -> bool { deq(dv(*self), dv(*o)) }
    #[verifier::external_body] fn xeq(&self, o: &Self) -> (r: bool) { unimplemented!() }
}
pub trait XVals {
    spec fn vv(&self) -> Seq<Value>;
    fn xto_vec(&self) -> (r: Vec<Value>) ensures dvs(r@) == dvs(self.vv());
    fn xslice(&self, a: usize, b: usize) -> (r: &[Value]) requires a <= b <= self.vv().len() ensures r@ == self.vv().subrange(a as int, b as int);
    fn xslice_from(&self, a: usize) -> (r: &[Value]) requires a <= self.vv().len() ensures r@ == self.vv().subrange(a as int, self.vv().len() as int);
    fn xstarts_with(&self, p: &Vec<Value>) -> (r: bool) ensures r == (p@.len() <= self.vv().len() && forall|i: int| 0 <= i < p@.len() ==> deq(dv(#[trigger] p@[i]), dv(self.vv()[i])));
}
pub trait XRemove: Sized {
    spec fn rv(&self) -> Seq<Value>;
    fn xremove(&mut self, i: usize) -> (r: Value) requires i < old(self).rv().len() ensures r == old(self).rv()[i as int], final(self).rv() == old(self).rv().remove(i as int);
}
impl XRemove for Vec<Value> {
    open spec fn rv(&self) -> Seq<Value> { self@ }
    #[verifier::external_body] fn xremove(&mut self, i: usize) -> (r: Value) { unimplemented!() }
}
impl XVals for [Value] {
    open spec fn vv(&self) -> Seq<Value> { self@ }
    #[verifier::external_body] fn xto_vec(&self) -> (r: Vec<Value>) { unimplemented!() }
    #[verifier::external_body] fn xslice(&self, a: usize, b: usize) -> (r: &[Value]) { unimplemented!() }
    #[verifier::external_body] fn xslice_from(&self, a: usize) -> (r: &[Value]) { unimplemented!() }
    #[verifier::external_body] fn xstarts_with(&self, p: &Vec<Value>) -> (r: bool) { unimplemented!() }
}
impl XVals for Vec<Value> {
    open spec fn vv(&self) -> Seq<Value> { self@ }
    #[verifier::external_body] fn xto_vec(&self) -> (r: Vec<Value>) { unimplemented!() }
    #[verifier::external_body] fn xslice(&self, a: usize, b: usize) -> (r: &[Value]) { unimplemented!() }
    #[verifier::external_body] fn xslice_from(&self, a: usize) -> (r: &[Value]) { unimplemented!() }
    #[verifier::external_body] fn xstarts_with(&self, p: &Vec<Value>) -> (r: bool) { unimplemented!() }
}
// ------------------------------------------------------------------ lemmas
pub open spec fn jpre(v: Seq<XString>, a: Seq<D>, n: int) -> bool { forall|i: int| 0 <= i < n ==> (#[trigger] v[i])@ == json(a[i]) }
pub open spec fn jopre(v: Seq<XString>, a: Seq<(Seq<u8>, D)>, n: int) -> bool { forall|i: int| 0 <= i < n ==> (#[trigger] v[i])@ == jent(a[i]) }
pub open spec fn djpre(v: Seq<Value>, a: Seq<JsonValue>, n: int) -> bool { forall|i: int| 0 <= i < n ==> dv(#[trigger] v[i]) == dj(a[i]) }
pub open spec fn djopre(v: Seq<(Seq<u8>, Value)>, a: Seq<(Seq<u8>, JsonValue)>, n: int) -> bool { forall|i: int| 0 <= i < n ==> (#[trigger] v[i]).0 == a[i].0 && dv(v[i].1) == dj(a[i].1) }
pub proof fn lemma_jarr(v: Seq<XString>, a: Seq<D>)
    requires v.len() == a.len(), forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i])@ == json(a[i])
    ensures joinx(v, seq![44u8]) == jarr(a)
    decreases v.len()
{
    if v.len() > 1 {
        assert forall|i: int| 0 <= i < v.drop_last().len() implies (#[trigger] v.drop_last()[i])@ == json(a.drop_last()[i]) by { assert(v[i]@ == json(a[i])); }
        lemma_jarr(v.drop_last(), a.drop_last());
        assert(v.last()@ == json(a.last()));
    }
}
pub proof fn lemma_jobj(v: Seq<XString>, a: Seq<(Seq<u8>, D)>)
    requires v.len() == a.len(), forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i])@ == jent(a[i])
    ensures joinx(v, seq![44u8]) == jobj(a)
    decreases v.len()
{
    if v.len() > 1 {
        assert forall|i: int| 0 <= i < v.drop_last().len() implies (#[trigger] v.drop_last()[i])@ == jent(a.drop_last()[i]) by { assert(v[i]@ == jent(a[i])); }
        lemma_jobj(v.drop_last(), a.drop_last());
        assert(v.last()@ == jent(a.last()));
    }
}
// ------------------------------------------------------------------ code
impl XFrom<XF> for DNumber {
    open spec fn from_ok(t: XF, r: DNumber) -> bool { dnum(r) == D::Flt(t) }
//@fn data::Number.From<f64>::from as xfrom
//@end
}
impl XFrom<i64> for DNumber {
    open spec fn from_ok(t: i64, r: DNumber) -> bool { dnum(r) == D::Int(t as int) }
//@fn data::Number.From<i64>::from as xfrom
//@end
}
impl XFrom<u64> for DNumber {
    open spec fn from_ok(t: u64, r: DNumber) -> bool { dnum(r) == D::Int(t as int) }
//@fn data::Number.From<u64>::from as xfrom
//@end
}
impl XFrom<i8> for Value {
    open spec fn from_ok(t: i8, r: Value) -> bool { dv(r) == D::Int(t as int) }
//@fn data::Value.From<i8>::from as xfrom
//@end
}
impl XFrom<i16> for Value {
    open spec fn from_ok(t: i16, r: Value) -> bool { dv(r) == D::Int(t as int) }
//@fn data::Value.From<i16>::from as xfrom
//@end
}
impl XFrom<i32> for Value {
    open spec fn from_ok(t: i32, r: Value) -> bool { dv(r) == D::Int(t as int) }
//@fn data::Value.From<i32>::from as xfrom
//@end
}
impl XFrom<i64> for Value {
    open spec fn from_ok(t: i64, r: Value) -> bool { dv(r) == D::Int(t as int) }
//@fn data::Value.From<i64>::from as xfrom
//@end
}
impl XFrom<u8> for Value {
    open spec fn from_ok(t: u8, r: Value) -> bool { dv(r) == D::Int(t as int) }
//@fn data::Value.From<u8>::from as xfrom
//@end
}
impl XFrom<u16> for Value {
    open spec fn from_ok(t: u16, r: Value) -> bool { dv(r) == D::Int(t as int) }
//@fn data::Value.From<u16>::from as xfrom
//@end
}
impl XFrom<u32> for Value {
    open spec fn from_ok(t: u32, r: Value) -> bool { dv(r) == D::Int(t as int) }
//@fn data::Value.From<u32>::from as xfrom
//@end
}
impl XFrom<XF> for Value {
    open spec fn from_ok(t: XF, r: Value) -> bool { dv(r) == D::Flt(t) }
//@fn data::Value.From<f64>::from as xfrom
//@end
}
impl<'a> XFrom<&'a XString> for Value {
    open spec fn from_ok(t: &'a XString, r: Value) -> bool { dv(r) == D::Str(t@) }
//@fn data::Value.From<&str>::from as xfrom
//@end
}
impl XFrom<Value> for Value {
    open spec fn from_ok(t: Value, r: Value) -> bool { r == t }
    fn xfrom(t: Value) -> (r: Value) { t }
}
// a &str element produced by an iterator is an owned XString in the extraction
impl XFrom<XString> for Value {
    open spec fn from_ok(t: XString, r: Value) -> bool { dv(r) == D::Str(t@) }
    fn xfrom(t: XString) -> (r: Value) { <Value as XFrom<&XString>>::xfrom(&t) }
}
impl<'a> XFrom<&'a [Value]> for Value {
    open spec fn from_ok(t: &'a [Value], r: Value) -> bool { dv(r) == D::Arr(dvs(t@)) }
//@fn data::Value.From<&[Value]>::from as xfrom
//@tail
    proof { lemma_dv(__ret); }
//@end
}
impl<'a> XFrom<&'a IndexMap<XString, Value>> for Value {
    open spec fn from_ok(t: &'a IndexMap<XString, Value>, r: Value) -> bool { dv(r) == D::Obj(dvo(t.ent())) }
//@fn data::Value.From<&IndexMap<String,Value>>::from as xfrom
//@tail
    proof { lemma_dv(__ret); }
//@end
}
impl<'a> XFrom<&'a JsonValue> for Value {
    open spec fn from_ok(t: &'a JsonValue, r: Value) -> bool { dv(r) == dj(*t) }
//@fn data::Value.From<&JsonValue>::from as xfrom
//@params t
    decreases t
//@start
    broadcast use axiom_map_dec;
    let ghost t0 = t;
    proof { match t { JsonValue::Number(n) => { axiom_jnum(n); } JsonValue::Object(o) => { axiom_dist(o); } _ => {} } }
//@ref 0
//@loop 0
    invariant *t0 is Array, __v0@ == t0->Array_0@, v@.len() == __i0, djpre(v@, __v0@, __i0 as int)
//@loop 1
    invariant *t0 is Object, __v1@.len() == t0->Object_0.ent().len(),
        forall|i: int| 0 <= i < __v1@.len() ==> (#[trigger] __v1@[i]).0@ == t0->Object_0.ent()[i].0 && *__v1@[i].1 == t0->Object_0.ent()[i].1,
        m.ent().len() == __i1, djopre(m.ent(), t0->Object_0.ent(), __i1 as int), dist(t0->Object_0.ent())
//@loopstart 1
    proof { lemma_fresh(m.ent(), t0->Object_0.ent(), __i1 as int); }
//@tail
    proof {
        lemma_dv(__ret);
        if *t0 is Array { assert(dv(__ret)->Arr_0 =~= dj(*t0)->Arr_0); }
        if *t0 is Object { assert(dv(__ret)->Obj_0 =~= dj(*t0)->Obj_0); }
    }
//@end
}
impl Value {
//@fn data::Value.From<f32>::from as from_f32
//@params x
    ensures dv(r) == D::Flt(x)
//@end
//@fn data::Value.From<&String>::from as from_string
//@params s
    ensures dv(r) == D::Str(s@)
//@end
//@fn data::Value::to_bool as to_bool
    ensures r is Ok <==> dv(*self) is Bool, r is Ok ==> dv(*self) == D::Bool(r->Ok_0)
//@end
//@fn data::Value::to_string as xto_string
    ensures r is Ok <==> dv(*self) is Str, r is Ok ==> dv(*self) == D::Str(r->Ok_0@)
//@end
//@fn data::Value::to_i64 as to_i64
    ensures r is Ok <==> dv(*self) is Int && i64::MIN <= dv(*self)->Int_0 <= i64::MAX, r is Ok ==> dv(*self) == D::Int(r->Ok_0 as int)
//@end
//@fn data::Value::to_f64 as to_f64
    ensures r is Ok <==> dv(*self) is Flt, r is Ok ==> dv(*self) == D::Flt(r->Ok_0)
//@end
//@fn data::Value::to_vec as xto_vec
    ensures r is Ok <==> dv(*self) is Arr, r is Ok ==> dv(*self) == D::Arr(dvs(r->Ok_0@))
//@start
    proof { lemma_dv(*self); }
//@end
//@fn data::Value::to_map as to_map
    ensures r is Ok <==> dv(*self) is Obj, r is Ok ==> dv(*self) == D::Obj(dvo(r->Ok_0.ent()))
//@start
    proof { lemma_dv(*self); }
//@end
//@fn data::Value::to_json as to_json
    ensures r is Ok, r->Ok_0@ == json(dv(*self))
    decreases self
//@start
    broadcast use axiom_map_dec;
    proof { lemma_dv(*self); if let Value::Number(n) = self { if n.float && !ffin(n.f) { axiom_jflt(n.f); } } }
//@ref 0
//@loop 0
    invariant *self is Array, __v0@ == self->Array_0@, v@.len() == __i0, jpre(v@, dvs(__v0@), __i0 as int)
//@loop 1
    invariant *self is Object, __v1@.len() == self->Object_0.ent().len(),
        forall|i: int| 0 <= i < __v1@.len() ==> (#[trigger] __v1@[i]).0@ == self->Object_0.ent()[i].0 && *__v1@[i].1 == self->Object_0.ent()[i].1,
        v@.len() == __i1, jopre(v@, dvo(self->Object_0.ent()), __i1 as int)
//@beforetok join 0
    proof { lemma_jarr(v@, dvs(self->Array_0@)); }
//@beforetok join 1
    proof { lemma_jobj(v@, dvo(self->Object_0.ent())); }
//@end
//@fn data::Value.Index<&str>::index as xidx
//@params i
    requires dv(*self) is Obj, hask(dv(*self)->Obj_0, i@)
    ensures dv(*r) == valk(dv(*self)->Obj_0, i@)
//@start
    proof { lemma_dv(*self); if let Value::Object(o) = self { lemma_dvo(o.ent(), i@, Value::Null); } }
//@end
//@fn data::Value.IndexMut<&str>::index_mut as xidx_mut
//@params i
    requires dv(*old(self)) is Obj
    ensures dv(*final(self)) == D::Obj(put(dv(*old(self))->Obj_0, i@, dv(*final(r)))),
        dv(*r) == (if hask(dv(*old(self))->Obj_0, i@) { valk(dv(*old(self))->Obj_0, i@) } else { D::Null })
//@start
    proof {
        lemma_dv(*self);
        lemma_dv(Value::Null);
        if let Value::Object(o) = self { lemma_dvo(o.ent(), i@, Value::Null); }
        let e = self->Object_0.ent();
        assert forall|w: Value| w is Object implies #[trigger] dv(w) == D::Obj(dvo(w->Object_0.ent())) by { lemma_dv(w); }
        assert forall|v: Value| dvo(#[trigger] put(e, i@, v)) == put(dvo(e), i@, dv(v)) by { lemma_dvo(e, i@, v); }
        assert forall|v: Value| #[trigger] put(put(e, i@, Value::Null), i@, v) == put(e, i@, v) by { lemma_putput(e, i@, Value::Null, v); }
        lemma_putput(e, i@, Value::Null, Value::Null);
    }
//@end
//@fn data::Value.IndexMut<usize>::index_mut as xat_mut
//@params i
    requires i < dlen(dv(*old(self)))
    ensures dv(*r) == dat_(dv(*old(self)), i as int),
        dv(*final(self)) == dset(dv(*old(self)), i as int, dv(*final(r)))
//@start
    proof {
        lemma_dv(*self);
        assert forall|w: Value| w is Object implies #[trigger] dv(w) == D::Obj(dvo(w->Object_0.ent())) by { lemma_dv(w); }
        assert forall|w: Value| w is Array implies #[trigger] dv(w) == D::Arr(dvs(w->Array_0@)) by { lemma_dv(w); }
        if let Value::Array(a) = self {
            assert forall|v: Value| dvs(#[trigger] a@.update(i as int, v)) =~= dvs(a@).update(i as int, dv(v)) by { }
        }
        if let Value::Object(o) = self {
            let e = o.ent();
            assert forall|v: Value| dvo(#[trigger] e.update(i as int, (e[i as int].0, v))) =~= dvo(e).update(i as int, (dvo(e)[i as int].0, dv(v))) by { }
        }
    }
//@end
//@fn data::Value.Display::fmt as fmt
//@params f
    ensures r is Ok <==> old(f).takes(), r is Ok ==> final(f).out() == old(f).out() + json(dv(*self))
//@end
}
pub trait XTryFrom<T>: Sized { spec fn tok(t: T, r: Result<Self>) -> bool; fn xtry_from(t: T) -> (r: Result<Self>) ensures Self::tok(t, r); }
impl<'a> XTryFrom<&'a Value> for XString {
    open spec fn tok(t: &'a Value, r: Result<Self>) -> bool { (r is Ok <==> dv(*t) is Str) && (r is Ok ==> dv(*t) == D::Str(r->Ok_0@)) }
//@fn data::String.TryFrom<&Value>::try_from as xtry_from
//@params v
//@start
    proof { lemma_dv(*v); }
//@end
}
impl<'a> XTryFrom<&'a Value> for bool {
    open spec fn tok(t: &'a Value, r: Result<Self>) -> bool { (r is Ok <==> dv(*t) is Bool) && (r is Ok ==> dv(*t) == D::Bool(r->Ok_0)) }
//@fn data::bool.TryFrom<&Value>::try_from as xtry_from
//@params v
//@start
    proof { lemma_dv(*v); }
//@end
}
impl<'a> XTryFrom<&'a Value> for i64 {
    open spec fn tok(t: &'a Value, r: Result<Self>) -> bool { (r is Ok <==> dv(*t) is Flt || dv(*t) is Int && i64::MIN <= dv(*t)->Int_0 <= i64::MAX) && (r is Ok && dv(*t) is Int ==> dv(*t) == D::Int(r->Ok_0 as int)) }
//@fn data::i64.TryFrom<&Value>::try_from as xtry_from
//@params v
//@start
    proof { lemma_dv(*v); }
//@end
}
impl<'a> XTryFrom<&'a Value> for XF {
    open spec fn tok(t: &'a Value, r: Result<Self>) -> bool { (r is Ok <==> dv(*t) is Flt || dv(*t) is Int) && (r is Ok && dv(*t) is Flt ==> dv(*t) == D::Flt(r->Ok_0)) }
//@fn data::f64.TryFrom<&Value>::try_from as xtry_from
//@params v
//@start
    proof { lemma_dv(*v); }
//@end
}
impl<'a> XTryFrom<&'a Value> for Vec<Value> {
    open spec fn tok(t: &'a Value, r: Result<Self>) -> bool { (r is Ok <==> dv(*t) is Arr) && (r is Ok ==> dv(*t) == D::Arr(dvs(r->Ok_0@))) }
//@fn data::Vec<Value>.TryFrom<&Value>::try_from as xtry_from
//@params v
//@start
    proof { lemma_dv(*v); }
//@end
}
impl<'a> XTryFrom<&'a Value> for IndexMap<XString, Value> {
    open spec fn tok(t: &'a Value, r: Result<Self>) -> bool { (r is Ok <==> dv(*t) is Obj) && (r is Ok ==> dv(*t) == D::Obj(dvo(r->Ok_0.ent()))) }
//@fn data::IndexMap<String,Value>.TryFrom<&Value>::try_from as xtry_from
//@params v
//@start
    proof { lemma_dv(*v); }
//@end
}
/// how many values a container holds
pub open spec fn dlen(d: D) -> nat { match d { D::Arr(a) => a.len(), D::Obj(o) => o.len(), _ => 0 } }
pub open spec fn dat_(d: D, i: int) -> D { match d { D::Arr(a) => a[i], D::Obj(o) => o[i].1, _ => D::Null } }
pub mod fmt {
    use super::*;
    /// the text written so far, and whether the sink takes more
    #[verifier::external_body] pub struct Formatter<'a> { p: core::marker::PhantomData<&'a ()> }
    pub struct Error;
    pub type Result = core::result::Result<(), Error>;
    impl<'a> Formatter<'a> {
        pub uninterp spec fn out(&self) -> Seq<u8>;
        pub uninterp spec fn takes(&self) -> bool;
        #[verifier::external_body] pub fn xwrite(&mut self, s: XString) -> (r: Result)
            ensures r is Ok <==> old(self).takes(), r is Ok ==> final(self).out() == old(self).out() + s@ { unimplemented!() }
        #[verifier::external_body] pub fn write_str(&mut self, s: &XString) -> (r: Result)
            ensures r is Ok <==> old(self).takes(), r is Ok ==> final(self).out() == old(self).out() + s@ { unimplemented!() }
    }
}
/// the document with that value in place of the i-th
pub open spec fn dset(d: D, i: int, v: D) -> D { match d { D::Arr(a) => D::Arr(a.update(i, v)), D::Obj(o) => D::Obj(o.update(i, (o[i].0, v))), _ => d } }
pub trait XAtMut<T> { spec fn els(&self) -> Seq<T>; fn xat_mut(&mut self, i: usize) -> (r: &mut T) requires i < old(self).els().len()
    ensures *r == old(self).els()[i as int], final(self).els() == old(self).els().update(i as int, *final(r)); }
impl<T> XAtMut<T> for Vec<T> {
    open spec fn els(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn xat_mut(&mut self, i: usize) -> (r: &mut T) { unimplemented!() }
}
impl vstd::std_specs::core::IndexSpecImpl<usize> for Value { open spec fn index_req(&self, index: &usize) -> bool { *index < dlen(dv(*self)) } }
impl core::ops::Index<usize> for Value {
    type Output = Value;
//@fn data::Value.Index<usize>::index as index
//@params i
    ensures dv(*r) == dat_(dv(*self), i as int)
//@start
    proof { lemma_dv(*self); }
//@end
}
/// C24: any JSON value, converted and written, has the text serde_json gives it, and the accessors tell its type
fn thm_c24(j: &JsonValue) {
    let v = <Value as XFrom<_>>::xfrom(j);
    let t = v.to_json();
    let u = j.xto_string();
    assert(t is Ok && t->Ok_0@ == u@);
    let b = v.to_bool(); let s = v.xto_string(); let f = v.to_f64(); let a = v.xto_vec(); let m = v.to_map(); let i = v.to_i64();
    assert(b is Ok <==> dj(*j) is Bool); assert(b is Ok ==> dj(*j) == D::Bool(b->Ok_0));
    assert(s is Ok <==> dj(*j) is Str); assert(s is Ok ==> dj(*j) == D::Str(s->Ok_0@));
    assert(f is Ok <==> dj(*j) is Flt); assert(f is Ok ==> dj(*j) == D::Flt(f->Ok_0));
    assert(a is Ok <==> dj(*j) is Arr); assert(a is Ok ==> dj(*j) == D::Arr(dvs(a->Ok_0@)));
    assert(m is Ok <==> dj(*j) is Obj); assert(m is Ok ==> dj(*j) == D::Obj(dvo(m->Ok_0.ent())));
    assert(i is Ok ==> dj(*j) == D::Int(i->Ok_0 as int));
}
