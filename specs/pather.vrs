//@imports bexter data
use super::data::indexmap::IndexMap;
use super::data::indexmap;
// ------------------------------------------------------------------ paths through documents
pub open spec fn joins(v: Seq<Seq<u8>>, sep: Seq<u8>) -> Seq<u8> decreases v.len() {
    if v.len() == 0 { Seq::empty() } else if v.len() == 1 { v[0] } else { joins(v.drop_last(), sep) + sep + v.last() }
}
pub open spec fn dash(s: Seq<u8>) -> bool { s.contains(45u8) }
/// text of a path component
pub open spec fn ptx(d: D) -> Option<Seq<u8>> { match d { D::Str(s) => Some(s), D::Int(i) => if i64::MIN <= i <= i64::MAX { Some(idec(i)) } else { None }, _ => None } }
pub open spec fn pcomp(d: D) -> bool { ptx(d) is Some && b64s(ptx(d)->0) && !dash(ptx(d)->0) }
pub open spec fn pcomps(a: Seq<D>) -> bool { forall|i: int| 0 <= i < a.len() ==> #[trigger] pcomp(a[i]) }
pub open spec fn ptxs(a: Seq<D>) -> Seq<Seq<u8>> { Seq::new(a.len(), |i: int| ptx(a[i])->0) }
pub open spec fn pathok(d: D) -> bool { d is Arr && pcomps(d->Arr_0) }
/// the text that stands for a list of components
pub open spec fn pjoin(v: Seq<Seq<u8>>) -> Seq<u8> { seq![45u8] + joins(v, seq![45u8]) }
/// the components a text stands for
pub open spec fn pcs(t: Seq<u8>) -> Seq<Seq<u8>> { let p = splitc(t.skip(1), 45u8); if p[0].len() == 0 { Seq::empty() } else { p } }
pub open spec fn pstarts(t: Seq<u8>) -> bool { t.len() > 0 && t[0] == 45 }
pub open spec fn strs(p: Seq<Seq<u8>>) -> Seq<D> { Seq::new(p.len(), |i: int| D::Str(p[i])) }
pub open spec fn plain(p: Seq<Seq<u8>>) -> bool { forall|i: int| 0 <= i < p.len() ==> !dash(#[trigger] p[i]) && b64s(p[i]) }
pub open spec fn full(p: Seq<Seq<u8>>) -> bool { forall|i: int| 0 <= i < p.len() ==> (#[trigger] p[i]).len() > 0 }
pub open spec fn ptext<M: Matter>(m: M) -> Seq<u8> { btext(mls(m.m_code()), m.m_raw()) }
/// is b a leading part of a
pub open spec fn lead(a: Seq<Seq<u8>>, b: Seq<Seq<u8>>) -> bool { b.len() <= a.len() && a.subrange(0, b.len() as int) == b }
/// following a path from a document
pub open spec fn dres(d: D, p: Seq<D>) -> Option<D> decreases p.len() {
    if p.len() == 0 { Some(d) } else if !(p[0] is Str) { None } else {
        let k = p[0]->Str_0;
        let n = isuint(k) && ival(k) <= usize::MAX;
        match d {
            D::Obj(o) => if n { if ival(k) < o.len() { dres(o[ival(k)].1, p.skip(1)) } else { None } } else if k.len() == 0 { Some(d) } else if hask(o, k) { dres(valk(o, k), p.skip(1)) } else { None },
            D::Arr(a) => if n && ival(k) < a.len() { dres(a[ival(k)], p.skip(1)) } else { None },
            _ => None,
        }
    }
}
pub proof fn lemma_split_cat(x: Seq<u8>, p: Seq<u8>)
    requires !dash(p)
    ensures splitc(x + seq![45u8] + p, 45u8) == splitc(x, 45u8).push(p)
    decreases p.len()
{
    let s = x + seq![45u8] + p;
    if p.len() == 0 {
        assert(s.drop_last() =~= x); assert(s.last() == 45); assert(p =~= Seq::<u8>::empty());
    } else {
        let q = p.drop_last();
        assert(!dash(q)) by { if q.contains(45u8) { let i = choose|i: int| 0 <= i < q.len() && q[i] == 45u8; assert(p[i] == 45u8); } }
        assert(p.last() != 45u8) by { assert(p[p.len() - 1] == p.last()); }
        lemma_split_cat(x, q);
        assert(s.drop_last() =~= x + seq![45u8] + q); assert(s.last() == p.last());
        let sp = splitc(x, 45u8).push(q);
        assert(sp.drop_last() =~= splitc(x, 45u8)); assert(q.push(p.last()) =~= p);
    }
}
pub proof fn lemma_split_one(p: Seq<u8>)
    requires !dash(p)
    ensures splitc(p, 45u8) == seq![p]
    decreases p.len()
{
    if p.len() == 0 { assert(p =~= Seq::<u8>::empty()); } else {
        let q = p.drop_last();
        assert(!dash(q)) by { if q.contains(45u8) { let i = choose|i: int| 0 <= i < q.len() && q[i] == 45u8; assert(p[i] == 45u8); } }
        assert(p.last() != 45u8) by { assert(p[p.len() - 1] == p.last()); }
        lemma_split_one(q);
        assert(seq![q].drop_last() =~= Seq::<Seq<u8>>::empty()); assert(q.push(p.last()) =~= p);
        assert(splitc(p, 45u8) =~= seq![p]);
    }
}
/// splitting inverts joining
pub proof fn lemma_split_join(v: Seq<Seq<u8>>)
    requires v.len() > 0, forall|i: int| 0 <= i < v.len() ==> !dash(#[trigger] v[i])
    ensures splitc(joins(v, seq![45u8]), 45u8) == v
    decreases v.len()
{
    if v.len() == 1 { assert(!dash(v[0])); lemma_split_one(v[0]); assert(seq![v[0]] =~= v); } else {
        let w = v.drop_last();
        assert forall|i: int| 0 <= i < w.len() implies !dash(#[trigger] w[i]) by { assert(!dash(v[i])); }
        lemma_split_join(w);
        assert(!dash(v[v.len() - 1]));
        lemma_split_cat(joins(w, seq![45u8]), v.last());
        assert(w.push(v.last()) =~= v);
    }
}
pub proof fn lemma_pjoin(v: Seq<Seq<u8>>)
    requires forall|i: int| 0 <= i < v.len() ==> !dash(#[trigger] v[i])
    ensures pstarts(pjoin(v)), v.len() == 0 || v[0].len() > 0 ==> pcs(pjoin(v)) == v, pjoin(v).skip(1) == joins(v, seq![45u8])
{
    assert(pjoin(v).skip(1) =~= joins(v, seq![45u8]));
    if v.len() == 0 { lemma_split_one(Seq::<u8>::empty()); assert(pcs(pjoin(v)) =~= v); } else { lemma_split_join(v); }
}
/// the pieces have no separator and only characters of the text
pub proof fn lemma_split_plain(s: Seq<u8>)
    requires b64s(s)
    ensures splitc(s, 45u8).len() > 0, plain(splitc(s, 45u8))
    decreases s.len()
{
    if s.len() > 0 {
        let d = s.drop_last();
        assert(b64s(d)) by { assert forall|i: int| 0 <= i < d.len() implies isb64(#[trigger] d[i]) by { assert(isb64(s[i])); } }
        lemma_split_plain(d);
        assert(isb64(s[s.len() - 1]));
        let p = splitc(d, 45u8); let r = splitc(s, 45u8);
        assert forall|i: int| 0 <= i < r.len() implies !dash(#[trigger] r[i]) && b64s(r[i]) by {
            if i < p.len() { assert(!dash(p[i]) && b64s(p[i])); }
            if s.last() != 45 && i == r.len() - 1 {
                let q = p.last(); let t = q.push(s.last());
                assert(r[i] == t);
                if dash(t) { let j = choose|j: int| 0 <= j < t.len() && t[j] == 45u8; if j < q.len() { assert(q[j] == 45u8); } }
                assert forall|j: int| 0 <= j < t.len() implies isb64(#[trigger] t[j]) by { if j < q.len() { assert(isb64(q[j])); } }
            }
        }
    } else { assert(splitc(s, 45u8)[0].len() == 0); }
}
pub proof fn lemma_pcs(t: Seq<u8>)
    requires b64s(t), pstarts(t)
    ensures plain(pcs(t)), pcs(t).len() == 0 || pcs(t)[0].len() > 0, pcomps(strs(pcs(t))), ptxs(strs(pcs(t))) == pcs(t)
{
    let s = t.skip(1);
    assert(b64s(s)) by { assert forall|i: int| 0 <= i < s.len() implies isb64(#[trigger] s[i]) by { assert(isb64(t[i + 1])); } }
    lemma_split_plain(s);
    let a = strs(pcs(t));
    assert forall|i: int| 0 <= i < a.len() implies #[trigger] pcomp(a[i]) by { assert(!dash(pcs(t)[i])); }
    assert(ptxs(a) =~= pcs(t));
}
pub proof fn lemma_joins_b64(v: Seq<Seq<u8>>)
    requires forall|i: int| 0 <= i < v.len() ==> b64s(#[trigger] v[i])
    ensures b64s(joins(v, seq![45u8])), b64s(pjoin(v))
    decreases v.len()
{
    let x = joins(v, seq![45u8]);
    assert(b64s(seq![45u8])) by { assert(isb64(45u8)); }
    if v.len() > 1 {
        let w = v.drop_last();
        assert forall|i: int| 0 <= i < w.len() implies b64s(#[trigger] w[i]) by { assert(b64s(v[i])); }
        lemma_joins_b64(w);
        assert(b64s(v[v.len() - 1]));
        lemma_b64s_cat(joins(w, seq![45u8]), seq![45u8]); lemma_b64s_cat(joins(w, seq![45u8]) + seq![45u8], v.last());
    } else if v.len() == 1 { assert(b64s(v[0])); }
    lemma_b64s_cat(seq![45u8], x);
}
pub proof fn lemma_joinx(v: Seq<XString>, w: Seq<Seq<u8>>, sep: Seq<u8>)
    requires v.len() == w.len(), forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i])@ == w[i]
    ensures joinx(v, sep) == joins(w, sep)
    decreases v.len()
{
    if v.len() > 1 {
        assert forall|i: int| 0 <= i < v.drop_last().len() implies (#[trigger] v.drop_last()[i])@ == w.drop_last()[i] by { assert(v[i]@ == w[i]); }
        lemma_joinx(v.drop_last(), w.drop_last(), sep);
        assert(v.last()@ == w.last());
    }
}
pub open spec fn so(x: Option<&Value>) -> Option<Value> { match x { Some(v) => Some(*v), None => None } }
pub open spec fn pvalid<M: Matter>(m: M) -> bool { bexcode(m.m_code()) && mvalid(m.m_code(), m.m_size(), m.m_raw()) }
pub open spec fn vpre(v: Seq<XString>, a: Seq<D>, n: int) -> bool { forall|i: int| 0 <= i < n ==> (#[trigger] v[i])@ == ptx(a[i])->0 }
/// the material of a valid text primitive is base64
pub proof fn lemma_ptext(c: Seq<u8>, z: nat, r: Seq<u8>)
    requires bexcode(c), mvalid(c, z, r)
    ensures b64s(btext(mls(c), r)), btext(mls(c), r).len() <= 4 * z
{
    lemma_bexcode(c);
    let d = zs(mls(c)) + r;
    assert(d.len() == 3 * z);
    let t = enc(d);
    lemma_enc_b64s(d);
    let u = btext(mls(c), r); let k = t.len() - u.len();
    if z == 0 { assert(t.len() == 0); assert(mls(c) == 0); }
    assert(u =~= t.skip(k));
    assert forall|i: int| 0 <= i < u.len() implies isb64(#[trigger] u[i]) by { assert(u[i] == t[i + k]); assert(isb64(t[i + k])); }
}
pub proof fn lemma_pplain(a: Seq<D>)
    requires pcomps(a)
    ensures plain(ptxs(a))
{ let v = ptxs(a); assert forall|i: int| 0 <= i < v.len() implies !dash(#[trigger] v[i]) && b64s(v[i]) by { assert(pcomp(a[i])); } }
pub proof fn lemma_pathok(a: Seq<D>)
    requires pcomps(a)
    ensures b64s(pjoin(ptxs(a))), pstarts(pjoin(ptxs(a))), forall|i: int| 0 <= i < ptxs(a).len() ==> !dash(#[trigger] ptxs(a)[i])
{
    let v = ptxs(a);
    assert forall|i: int| 0 <= i < v.len() implies b64s(#[trigger] v[i]) && !dash(v[i]) by { assert(pcomp(a[i])); }
    lemma_joins_b64(v);
}
/// short texts fit the code set
pub proof fn lemma_bshort(t: Seq<u8>)
    requires b64s(t), t.len() < 0x3ff_fff0
    ensures ({ let v = mdet(Some(L"4A"), Some(braw(t)), None, None, None); v is Some && bexcode((v->0).0) })
{
    lemma_bext(t); lemma_cid4(L"4A"); lemma_bexcode(L"4A"); lemma_bpick(L"4A", braw(t).len());
    let n = t.len() as int; let k = (n + bws(n)) / 4; assert(k < 0x100_0000); assert(braw(t).len() + vls(braw(t).len()) == k * 3); assert((k * 3) / 3 == k);
    assert(mnew(L"4A", braw(t)));
}
pub proof fn lemma_pstrs(a: Seq<Seq<u8>>)
    requires plain(a)
    ensures pcomps(strs(a)), ptxs(strs(a)) == a
{
    assert forall|i: int| 0 <= i < a.len() implies #[trigger] pcomp(strs(a)[i]) by { assert(!dash(a[i])); }
    assert(ptxs(strs(a)) =~= a);
}
pub proof fn lemma_cat(a: Seq<Seq<u8>>, b: Seq<Seq<u8>>)
    requires plain(a), plain(b)
    ensures plain(a + b), strs(a) + strs(b) == strs(a + b)
{
    let c = a + b;
    assert forall|i: int| 0 <= i < c.len() implies !dash(#[trigger] c[i]) && b64s(c[i]) by { if i < a.len() { assert(!dash(a[i])); } else { assert(!dash(b[i - a.len()])); } }
    assert(strs(a) + strs(b) =~= strs(c));
}
pub proof fn lemma_tailp(a: Seq<Seq<u8>>, n: int)
    requires plain(a), 0 <= n <= a.len()
    ensures plain(a.skip(n)), strs(a).skip(n) == strs(a.skip(n))
{
    let c = a.skip(n);
    assert forall|i: int| 0 <= i < c.len() implies !dash(#[trigger] c[i]) && b64s(c[i]) by { assert(!dash(a[i + n])); }
    assert(strs(a).skip(n) =~= strs(c));
}
pub proof fn lemma_sw(a: Seq<Value>, b: Seq<Value>, p: Seq<Seq<u8>>, q: Seq<Seq<u8>>)
    requires dvs(a) == strs(p), dvs(b) == strs(q), plain(p)
    ensures (b.len() <= a.len() && forall|i: int| 0 <= i < b.len() ==> deq(dv(#[trigger] b[i]), dv(a[i]))) <==> lead(p, q),
        lead(p, q) ==> dvs(a.subrange(b.len() as int, a.len() as int)) == strs(p.skip(q.len() as int)) && plain(p.skip(q.len() as int))
{
    assert(dvs(a).len() == a.len() && dvs(b).len() == b.len() && strs(p).len() == p.len() && strs(q).len() == q.len());
    assert forall|i: int| 0 <= i < a.len() implies dv(#[trigger] a[i]) == D::Str(p[i]) by { assert(dvs(a)[i] == dv(a[i])); assert(strs(p)[i] == D::Str(p[i])); }
    assert forall|i: int| 0 <= i < b.len() implies dv(#[trigger] b[i]) == D::Str(q[i]) by { assert(dvs(b)[i] == dv(b[i])); assert(strs(q)[i] == D::Str(q[i])); }
    if b.len() <= a.len() && forall|i: int| 0 <= i < b.len() ==> deq(dv(#[trigger] b[i]), dv(a[i])) {
        assert forall|i: int| 0 <= i < q.len() implies p[i] == q[i] by { assert(deq(dv(b[i]), dv(a[i]))); }
        assert(p.subrange(0, q.len() as int) =~= q);
    }
    if lead(p, q) {
        assert forall|i: int| 0 <= i < b.len() implies deq(dv(#[trigger] b[i]), dv(a[i])) by { assert(p.subrange(0, q.len() as int)[i] == q[i]); }
        lemma_tailp(p, q.len() as int);
        assert(dvs(a.subrange(b.len() as int, a.len() as int)) =~= strs(p.skip(q.len() as int)));
    }
}
/// what a path with a leading separator reads as
pub proof fn lemma_pread<M: Matter>(m: M)
    requires pvalid(m)
    ensures pstarts(ptext(m)) ==> plain(pcs(ptext(m))) && (pcs(ptext(m)).len() == 0 || pcs(ptext(m))[0].len() > 0)
{ lemma_ptext(m.m_code(), m.m_size(), m.m_raw()); if pstarts(ptext(m)) { lemma_pcs(ptext(m)); } }
pub proof fn lemma_dres(d: D, p: Seq<D>)
    requires p.len() > 0
    ensures !(p[0] is Str) ==> dres(d, p) is None,
        p[0] is Str ==> dres(d, p) == ({
            let k = p[0]->Str_0;
            let n = isuint(k) && ival(k) <= usize::MAX;
            match d {
                D::Obj(o) => if n { if ival(k) < o.len() { dres(o[ival(k)].1, p.skip(1)) } else { None } } else if k.len() == 0 { Some(d) } else if hask(o, k) { dres(valk(o, k), p.skip(1)) } else { None },
                D::Arr(a) => if n && ival(k) < a.len() { dres(a[ival(k)], p.skip(1)) } else { None },
                _ => None,
            }
        })
{}
//@include mimpl.inc M=core::pather T=Pather
impl Bext for Pather {}
/// what a path constructor's arguments denote
pub open spec fn patht(path: Option<Value>, t: Option<Seq<u8>>, w: Option<Seq<u8>>, b: Option<Seq<u8>>, q: Option<Seq<u8>>, d: Option<Seq<u8>>) -> Option<Seq<u8>> {
    if t is None && w is None && b is None && q is None && d is None { if path is Some && pathok(dv(path->0)) { Some(pjoin(ptxs(dv(path->0)->Arr_0))) } else { None } } else { t }
}
pub open spec fn pnew(path: Option<Value>, t: Option<Seq<u8>>, w: Option<Seq<u8>>, b: Option<Seq<u8>>, q: Option<Seq<u8>>, d: Option<Seq<u8>>) -> bool { t is None && w is None && b is None && q is None && d is None && !(path is Some && pathok(dv(path->0))) }
impl Pather {
//@fn core::pather::Pather::bextify as bextify
//@params path
    ensures r is Ok <==> pathok(dv(*path)), r is Ok ==> r->Ok_0@ == pjoin(ptxs(dv(*path)->Arr_0))
//@start
    let ghost path0 = path;
//@ref 0
//@loop 0
    invariant dv(*path0) is Arr, dvs(__v0@) == dv(*path0)->Arr_0, vath@.len() == __i0, vpre(vath@, dv(*path0)->Arr_0, __i0 as int),
        forall|i: int| 0 <= i < __i0 ==> #[trigger] pcomp(dv(*path0)->Arr_0[i])
//@loopstart 0
    proof { let d = dv(*path0)->Arr_0; let k = __i0 as int; assert(dvs(__v0@)[k] == dv(__v0@[k])); let b = pcomp(d[k]); assert(b ==> ptx(d[k]) is Some); }
//@tail
    proof { lemma_joinx(vath@, ptxs(dv(*path0)->Arr_0), seq![45u8]); }
//@end
//@fn core::pather::Pather::new as new
//@params path bext code raw qb64b qb64 qb2
    ensures r is Ok ==> bexcode(r->Ok_0.m_code()) && mvalid(r->Ok_0.m_code(), r->Ok_0.m_size(), r->Ok_0.m_raw()),
        r is Ok ==> !pnew(so(path), os(bext), ob(raw), ob(qb64b), os(qb64), ob(qb2))
            && bexdet(patht(so(path), os(bext), ob(raw), ob(qb64b), os(qb64), ob(qb2)), Some(dflt(os(code), L"4A")), ob(raw), ob(qb64b), os(qb64), ob(qb2)) == Some(mval(r->Ok_0)),
        ({ let t = patht(so(path), os(bext), ob(raw), ob(qb64b), os(qb64), ob(qb2)); r is Ok && t is Some ==> b64s(t->0) && btold(t->0, r->Ok_0.m_code(), r->Ok_0.m_size(), r->Ok_0.m_raw()) }), // @C14
        ({ let t = patht(so(path), os(bext), ob(raw), ob(qb64b), os(qb64), ob(qb2)); let v = bexdet(t, Some(dflt(os(code), L"4A")), ob(raw), ob(qb64b), os(qb64), ob(qb2)); !pnew(so(path), os(bext), ob(raw), ob(qb64b), os(qb64), ob(qb2)) && v is Some && bexcode((v->0).0) && (t is Some || mutf(ob(raw), ob(qb64b))) ==> r is Ok }), // @C14
//@start
    proof {
        let c = dflt(os(code), L"4A");
        let v = mdet(Some(c), ob(raw), ob(qb64b), os(qb64), ob(qb2));
        if v is Some { lemma_mdet(Some(c), ob(raw), ob(qb64b), os(qb64), ob(qb2)); }
        let t = patht(so(path), os(bext), ob(raw), ob(qb64b), os(qb64), ob(qb2));
        if t is Some && b64s(t->0) {
            let w = mdet(Some(c), Some(braw(t->0)), None, None, None);
            if w is Some { lemma_mdet(Some(c), Some(braw(t->0)), None, None, None); lemma_btold(t->0, c); }
        }
    }
//@end
//@fn core::pather::Pather::new_with_path as new_with_path
//@params path
    ensures r is Ok ==> pathok(dv(*path)) && pvalid(r->Ok_0) && ptext(r->Ok_0) == pjoin(ptxs(dv(*path)->Arr_0)),
        pathok(dv(*path)) && pjoin(ptxs(dv(*path)->Arr_0)).len() < 0x3ff_fff0 ==> r is Ok
//@start
    proof {
        if pathok(dv(*path)) {
            let t = pjoin(ptxs(dv(*path)->Arr_0));
            lemma_pathok(dv(*path)->Arr_0);
            if t.len() < 0x3ff_fff0 { lemma_bshort(t); }
        }
    }
//@end
//@fn core::pather::Pather::new_with_bext as new_with_bext
//@params bext
    ensures b64s(bext@) && bext@.len() < 0x3ff_fff0 ==> r is Ok,
        r is Ok ==> b64s(bext@) && btold(bext@, r->Ok_0.m_code(), r->Ok_0.m_size(), r->Ok_0.m_raw())
//@start
    proof { if b64s(bext@) && bext@.len() < 0x3ff_fff0 { lemma_bshort(bext@); } }
//@end
//@fn core::pather::Pather::new_with_raw as new_with_raw
//@params raw code
    ensures r is Ok ==> bexcode(r->Ok_0.m_code()) && mdet(Some(dflt(os(code), L"4A")), Some(raw@), None, None, None) == Some(mval(r->Ok_0))
//@end
//@fn core::pather::Pather::new_with_qb64b as new_with_qb64b
//@params qb64b
    ensures r is Ok ==> bexcode(r->Ok_0.m_code()) && mdet(None, None, Some(qb64b@), None, None) == Some(mval(r->Ok_0)),
        mok(qb64b@) && ascii(qb64b@) && bexcode(qc(qb64b@)) ==> r is Ok
//@end
//@fn core::pather::Pather::new_with_qb64 as new_with_qb64
//@params qb64
    ensures r is Ok ==> bexcode(r->Ok_0.m_code()) && mdet(None, None, None, Some(qb64@), None) == Some(mval(r->Ok_0)),
        mok(qb64@) && bexcode(qc(qb64@)) ==> r is Ok
//@end
//@fn core::pather::Pather::new_with_qb2 as new_with_qb2
//@params qb2
    ensures r is Ok ==> bexcode(r->Ok_0.m_code()) && mdet(None, None, None, None, Some(qb2@)) == Some(mval(r->Ok_0)),
        mokb(qb2@) && bexcode(bc(qb2@)) ==> r is Ok
//@end
//@fn core::pather::Pather::path as path
    requires pvalid(*self)
    ensures r is Ok <==> pstarts(ptext(*self)), r is Ok ==> dv(r->Ok_0) == D::Arr(strs(pcs(ptext(*self))))
//@start
    let ghost t = ptext(*self);
    proof { lemma_bexcode(self.m_code()); lemma_ptext(self.m_code(), self.m_size(), self.m_raw()); if pstarts(t) { lemma_pcs(t); } }
//@loop 0
    invariant __o@.len() == __i0, forall|i: int| 0 <= i < __i0 ==> dv(#[trigger] __o@[i]) == D::Str(__v0@[i]@)
//@tail
    proof { lemma_dv(__ret->Ok_0); assert(dv(__ret->Ok_0)->Arr_0 =~= strs(pcs(t))); }
//@end
//@fn core::pather::Pather::root as root
//@params root
    requires pvalid(*self), pvalid(*root)
    ensures r is Ok ==> pstarts(ptext(*self)) && pstarts(ptext(*root)) && pvalid(r->Ok_0) && ptext(r->Ok_0) == pjoin(pcs(ptext(*root)) + pcs(ptext(*self))),
        pstarts(ptext(*self)) && pstarts(ptext(*root)) && pjoin(pcs(ptext(*root)) + pcs(ptext(*self))).len() < 0x3ff_fff0 ==> r is Ok
//@start
    hide(pcs); hide(pstarts); hide(ptext); hide(pvalid);
    let ghost p = pcs(ptext(*self)); let ghost q = pcs(ptext(*root));
    proof { lemma_pread(*self); lemma_pread(*root); }
//@aftertok append 0
    proof { lemma_cat(q, p); lemma_pstrs(q + p); assert(dvs(path@) =~= strs(q + p)); }
//@end
//@fn core::pather::Pather::strip as strip
//@params root
    requires pvalid(*self), pvalid(*root)
    ensures r is Ok ==> pstarts(ptext(*self)) && pstarts(ptext(*root)) && pvalid(r->Ok_0),
        ({ let p = pcs(ptext(*self)); let q = pcs(ptext(*root)); r is Ok ==> if lead(p, q) { ptext(r->Ok_0) == pjoin(p.skip(q.len() as int)) } else { mval(r->Ok_0) == mval(*self) } }),
        ({ let p = pcs(ptext(*self)); let q = pcs(ptext(*root)); pstarts(ptext(*self)) && pstarts(ptext(*root)) && (lead(p, q) ==> pjoin(p.skip(q.len() as int)).len() < 0x3ff_fff0) ==> r is Ok })
//@start
    hide(pcs); hide(pstarts); hide(ptext); hide(pvalid); hide(lead);
    let ghost p = pcs(ptext(*self)); let ghost q = pcs(ptext(*root));
    proof { lemma_pread(*self); lemma_pread(*root); }
//@beforetok starts_with 0
    proof { lemma_sw(path@, root_path@, p, q); assert(path.vv() == path@);
        assert((root_path@.len() <= path.vv().len() && forall|i: int| 0 <= i < root_path@.len() ==> deq(dv(#[trigger] root_path@[i]), dv(path.vv()[i]))) <==> lead(p, q));
        if lead(p, q) { lemma_pstrs(p.skip(q.len() as int)); assert(lead(p, q) ==> q.len() <= p.len()) by { reveal(lead); } } }
//@end
//@fn core::pather::Pather::starts_with as starts_with
//@params path
    requires pvalid(*self), pvalid(*path)
    ensures r is Ok, r->Ok_0 <==> (ptext(*path).len() <= ptext(*self).len() && ptext(*self).subrange(0, ptext(*path).len() as int) == ptext(*path))
//@end
//@fn core::pather::Pather::_resolve as _resolve
//@params val ptr
    ensures r is Ok <==> dv(*ptr) is Arr && dres(dv(*val), dv(*ptr)->Arr_0) is Some, r is Ok ==> dres(dv(*val), dv(*ptr)->Arr_0) == Some(dv(r->Ok_0))
    decreases (if dv(*ptr) is Arr { dv(*ptr)->Arr_0.len() } else { 0 })
//@start
    hide(dres);
    let ghost p = dv(*ptr)->Arr_0; let ghost v0 = dv(*val);
    let ghost rest = p.skip(1);
    proof { reveal_with_fuel(dres, 1); if dv(*ptr) is Arr && p.len() > 0 { lemma_dres(v0, p); } lemma_dv(*val);
        lemma_dv(*ptr);
        assert forall|s: Seq<Value>| dvs(s) == p && s.len() > 0 implies dvs(#[trigger] s.remove(0)) == rest by { assert(dvs(s.remove(0)) =~= rest); }
        assert forall|s: Seq<Value>| dvs(s) == p && s.len() > 0 implies dvs(#[trigger] s.skip(1)) == rest by { assert(dvs(s.skip(1)) =~= rest); }
        assert forall|s: Seq<Value>| dvs(s) == p && s.len() > 0 implies dvs(#[trigger] s.subrange(1, s.len() as int)) == rest by { assert(dvs(s.subrange(1, s.len() as int)) =~= rest); }
        if let Value::Object(o) = val { if dv(*ptr) is Arr && p.len() > 0 && p[0] is Str { lemma_dvo(o.ent(), p[0]->Str_0, Value::Null); } }
    }
//@aftertok to_map 1
    proof { lemma_dvo(val.ent(), idx@, Value::Null); assert forall|i: int| 0 <= i < val.ent().len() implies dv((#[trigger] val.ent()[i]).1) == v0->Obj_0[i].1 by { assert(dvo(val.ent())[i].1 == dv(val.ent()[i].1)); } lemma_kpos(val.ent(), idx@); }
//@aftertok to_vec 2
    proof { assert forall|i: int| 0 <= i < val@.len() implies dv(#[trigger] val@[i]) == v0->Arr_0[i] by { assert(dvs(val@)[i] == dv(val@[i])); } }
//@end
//@fn core::pather::Pather::resolve as resolve
//@params sad
    requires pvalid(*self)
    ensures r is Ok <==> pstarts(ptext(*self)) && dres(dv(*sad), strs(pcs(ptext(*self)))) is Some,
        r is Ok ==> dres(dv(*sad), strs(pcs(ptext(*self)))) == Some(dv(r->Ok_0))
//@end
}
/// C14: components come back; rooting concatenates; stripping the root undoes it; resolving follows the components
fn thm_c14(path: &Value, root: &Value, sad: &Value)
    requires ({ let p = ptxs(dv(*path)->Arr_0); let q = ptxs(dv(*root)->Arr_0);
        pathok(dv(*path)) && pathok(dv(*root)) && (p.len() == 0 || p[0].len() > 0) && (q.len() == 0 || q[0].len() > 0)
        && pjoin(p).len() < 0x3ff_fff0 && pjoin(q).len() < 0x3ff_fff0 && pjoin(q + p).len() < 0x3ff_fff0 })
{
    hide(pcs); hide(pstarts); hide(ptext); hide(lead); hide(pjoin); hide(ptxs); hide(dres);
    let ghost p = ptxs(dv(*path)->Arr_0); let ghost q = ptxs(dv(*root)->Arr_0);
    proof {
        lemma_pathok(dv(*path)->Arr_0); lemma_pathok(dv(*root)->Arr_0); lemma_pplain(dv(*path)->Arr_0); lemma_pplain(dv(*root)->Arr_0);
        lemma_cat(q, p); lemma_pjoin(p); lemma_pjoin(q);
        assert forall|i: int| 0 <= i < (q + p).len() implies !dash(#[trigger] (q + p)[i]) by { assert(plain(q + p)); }
        lemma_pjoin(q + p);
        reveal(lead);
        assert((q + p).subrange(0, q.len() as int) =~= q);
        assert((q + p).skip(q.len() as int) =~= p);
    }
    let a = Pather::new_with_path(path);
    let b = Pather::new_with_path(root);
    assert(a is Ok && b is Ok);
    if let (Ok(a), Ok(b)) = (a, b) {
        assert(pcs(ptext(a)) == p && pcs(ptext(b)) == q);
        let v = a.path();
        assert(v is Ok && dv(v->Ok_0) == D::Arr(strs(p)));
        let c = a.root(&b);
        assert(c is Ok);
        if let Ok(c) = c {
            let v = c.path();
            assert(v is Ok && dv(v->Ok_0) == D::Arr(strs(q + p)));
            let d = c.strip(&b);
            assert(d is Ok);
            if let Ok(d) = d { let v = d.path(); assert(v is Ok && dv(v->Ok_0) == D::Arr(strs(p))); }
        }
        let e = a.strip(&b);
        assert(!lead(p, q) ==> e is Ok && mval(e->Ok_0) == mval(a));
        let v = a.resolve(sad);
        assert(v is Ok <==> dres(dv(*sad), strs(p)) is Some);
        assert(v is Ok ==> dres(dv(*sad), strs(p)) == Some(dv(v->Ok_0)));
    }
}
