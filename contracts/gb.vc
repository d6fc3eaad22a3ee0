//@ raw
// ---------- quotients and least common multiples of monomials
pub open spec fn trim(s: Seq<int>) -> Seq<int> decreases s.len() { if s.len() > 0 && s.last() == 0 { trim(s.drop_last()) } else { s } }
pub proof fn trim_ok(s: Seq<int>) ensures canon(trim(s)), same_ex(trim(s), s), trim(s).len() <= s.len() decreases s.len()
{
    if s.len() > 0 && s.last() == 0 {
        trim_ok(s.drop_last());
        assert forall|i: int| #[trigger] ex(trim(s), i) == ex(s, i) by { assert(ex(trim(s.drop_last()), i) == ex(s.drop_last(), i)); }
    }
}
// b / a and the least common multiple
pub open spec fn msub(b: Seq<int>, a: Seq<int>) -> Seq<int> { trim(Seq::new(b.len(), |i: int| ex(b, i) - ex(a, i))) }
pub open spec fn mmax(a: Seq<int>, b: Seq<int>) -> Seq<int> { Seq::new(if a.len() >= b.len() { a.len() } else { b.len() }, |i: int| if ex(a, i) >= ex(b, i) { ex(a, i) } else { ex(b, i) }) }
pub proof fn ex_nonneg(a: Seq<int>, i: int) requires mono(a), ensures ex(a, i) >= 0 { if 0 <= i < a.len() { assert(a[i] >= 0); } }
pub proof fn mono_of(a: Seq<int>) requires canon(a), forall|i: int| #[trigger] ex(a, i) >= 0, ensures mono(a)
{ assert forall|i: int| 0 <= i < a.len() implies #[trigger] a[i] >= 0 by { assert(ex(a, i) >= 0); } }
pub proof fn msub_ok(b: Seq<int>, a: Seq<int>) requires mono(a), mono(b), mdvd(a, b), ensures mono(msub(b, a)), is_sub(msub(b, a), b, a), madd(msub(b, a), a) == b, madd(a, msub(b, a)) == b, msub(b, a).len() <= b.len()
{
    let s = Seq::new(b.len(), |i: int| ex(b, i) - ex(a, i)); let c = trim(s);
    trim_ok(s);
    assert forall|i: int| #[trigger] ex(c, i) == ex(b, i) - ex(a, i) by { assert(ex(c, i) == ex(s, i)); if i < 0 || i >= b.len() { ex_nonneg(a, i); assert(ex(a, i) <= ex(b, i)); } }
    assert forall|i: int| #[trigger] ex(c, i) >= 0 by { assert(ex(c, i) == ex(b, i) - ex(a, i)); assert(ex(a, i) <= ex(b, i)); }
    mono_of(c);
    is_sub_add(c, b, a);
}
pub proof fn is_sub_is(c: Seq<int>, b: Seq<int>, a: Seq<int>) requires mono(a), mono(b), mdvd(a, b), canon(c), is_sub(c, b, a), ensures c == msub(b, a)
{ msub_ok(b, a); assert forall|i: int| #[trigger] ex(c, i) == ex(msub(b, a), i) by { assert(ex(c, i) == ex(b, i) - ex(a, i)); assert(ex(msub(b, a), i) == ex(b, i) - ex(a, i)); } canon_ext(c, msub(b, a)); }
pub proof fn mmax_ok(a: Seq<int>, b: Seq<int>) requires mono(a), mono(b), ensures mono(mmax(a, b)), is_max(mmax(a, b), a, b), mdvd(a, mmax(a, b)), mdvd(b, mmax(a, b))
{
    let c = mmax(a, b);
    assert forall|i: int| #[trigger] ex(c, i) == (if ex(a, i) >= ex(b, i) { ex(a, i) } else { ex(b, i) }) by { }
    assert forall|i: int| #[trigger] ex(a, i) <= ex(c, i) by { assert(ex(c, i) >= ex(a, i)); }
    assert forall|i: int| #[trigger] ex(b, i) <= ex(c, i) by { assert(ex(c, i) >= ex(b, i)); }
    if c.len() > 0 { let l = c.len() - 1; if a.len() > 0 && l < a.len() { assert(a[l] >= 0); } if b.len() > 0 && l < b.len() { assert(b[l] >= 0); } assert(c[l] == ex(c, l)); if a.len() == c.len() { assert(a.last() != 0); } else { assert(b.last() != 0); } }
    assert forall|i: int| #[trigger] ex(c, i) >= 0 by { ex_nonneg(a, i); ex_nonneg(b, i); }
    mono_of(c);
}
pub proof fn is_max_is(c: Seq<int>, a: Seq<int>, b: Seq<int>) requires mono(a), mono(b), canon(c), is_max(c, a, b), ensures c == mmax(a, b)
{ mmax_ok(a, b); assert forall|i: int| #[trigger] ex(c, i) == ex(mmax(a, b), i) by { assert(is_max(mmax(a, b), a, b)); } canon_ext(c, mmax(a, b)); }
// both divide the lcm, and it divides every common multiple
pub proof fn C15_lcm_is_least(a: Seq<int>, b: Seq<int>, m: Seq<int>) requires mono(a), mono(b), mdvd(a, m), mdvd(b, m), ensures mdvd(a, mmax(a, b)), mdvd(b, mmax(a, b)), mdvd(mmax(a, b), m)
{
    mmax_ok(a, b);
    assert forall|i: int| #[trigger] ex(mmax(a, b), i) <= ex(m, i) by { assert(ex(a, i) <= ex(m, i)); assert(ex(b, i) <= ex(m, i)); assert(is_max(mmax(a, b), a, b)); }
}
//@ raw
// ---------- the monomial order O: the trait's contract, which C14 shows Lex, RevLex, GrLex and GRevLex meet
pub uninterp spec fn omo(a: Seq<int>, b: Seq<int>) -> Ordering;
pub uninterp spec fn ocmp(a: MultiDegree, b: MultiDegree) -> Ordering;
#[verifier::external_body] pub proof fn ax_order() ensures is_mono_order(|a: Seq<int>, b: Seq<int>| omo(a, b)) { }
#[verifier::external_body] pub proof fn ax_ocmp(a: MultiDegree, b: MultiDegree) requires canon(mi(a.0@)), canon(mi(b.0@)), ensures ocmp(a, b) == omo(mi(a.0@), mi(b.0@)) { }
#[verifier::external_body] pub fn o_cmp(a: &MultiDegree, b: &MultiDegree) -> (r: Ordering) ensures r == ocmp(*a, *b) { unimplemented!() }
pub open spec fn ole(a: Seq<int>, b: Seq<int>) -> bool { omo(a, b) != Ordering::Greater }
pub open spec fn olt(a: Seq<int>, b: Seq<int>) -> bool { ole(a, b) && a != b }
pub proof fn ord_total(a: Seq<int>, b: Seq<int>) requires mono(a), mono(b), ensures ole(a, b) || ole(b, a), ole(a, b) && ole(b, a) ==> a == b, ole(a, a), olt(a, b) == !ole(b, a), omo(a, b) == ord_rev(omo(b, a)), (omo(a, b) == Ordering::Equal) == (a == b)
{ ax_order(); let g = |a: Seq<int>, b: Seq<int>| omo(a, b); assert(g(a, b) == ord_rev(g(b, a))); assert((g(a, b) == Ordering::Equal) == (a == b)); assert((g(a, a) == Ordering::Equal) == (a == a)); }
pub proof fn ord_trans(a: Seq<int>, b: Seq<int>, c: Seq<int>) requires mono(a), mono(b), mono(c), ole(a, b), ole(b, c), ensures ole(a, c), olt(a, b) || olt(b, c) ==> olt(a, c)
{ ax_order(); let g = |a: Seq<int>, b: Seq<int>| omo(a, b); assert(g(a, b) != Ordering::Greater && g(b, c) != Ordering::Greater); assert(g(a, c) != Ordering::Greater); ord_total(a, b); ord_total(b, c); }
pub proof fn ord_add(a: Seq<int>, b: Seq<int>, c: Seq<int>) requires mono(a), mono(b), mono(c), ensures ole(madd(a, c), madd(b, c)) == ole(a, b), ole(madd(c, a), madd(c, b)) == ole(a, b), olt(madd(c, a), madd(c, b)) == olt(a, b)
{ ax_order(); let g = |a: Seq<int>, b: Seq<int>| omo(a, b); assert(g(madd(a, c), madd(b, c)) == g(a, b)); madd_comm(a, c); madd_comm(b, c); if madd(a, c) == madd(b, c) { madd_cancel(a, b, c); } }
pub proof fn ord_dvd(a: Seq<int>, b: Seq<int>) requires mono(a), mono(b), mdvd(a, b), ensures ole(a, b)
{
    ax_order(); let g = |a: Seq<int>, b: Seq<int>| omo(a, b);
    msub_ok(b, a); let c = msub(b, a);
    assert(g(Seq::empty(), c) != Ordering::Greater);
    assert(mono(Seq::<int>::empty()));
    ord_add(Seq::empty(), c, a); madd_zero(a);
}
// ---------- leading terms
pub open spec fn is_lt(s: Seq<Term>, t: Term) -> bool { (exists|k: int| 0 <= k < s.len() && t == #[trigger] s[k]) && forall|i: int| 0 <= i < s.len() ==> ole(tm(#[trigger] s[i]), tm(t)) }
pub open spec fn ltt(s: Seq<Term>) -> Term { choose|t: Term| is_lt(s, t) }
pub open spec fn lm(s: Seq<Term>) -> Seq<int> { tm(ltt(s)) }
pub open spec fn lc(s: Seq<Term>) -> real { ltt(s).coef.v() }
pub proof fn ct_mono(t: Term) requires ct(t), ensures mono(tm(t)) { mi_mono(t.mdeg.0@); }
pub proof fn lt_exists(s: Seq<Term>) requires allct(s), s.len() > 0, ensures exists|t: Term| is_lt(s, t) decreases s.len()
{
    let d = s.drop_last(); let u = s.last();
    assert(u == s[s.len() - 1]); assert(forall|i: int| 0 <= i < d.len() ==> d[i] == s[i]); assert(ct(u)); ct_mono(u); ord_total(tm(u), tm(u));
    if d.len() == 0 { assert(is_lt(s, u)); } else {
        lt_exists(d);
        let t = choose|t: Term| is_lt(d, t);
        let k = choose|k: int| 0 <= k < d.len() && t == #[trigger] d[k]; assert(t == s[k]); assert(ct(s[k])); ct_mono(t);
        ord_total(tm(t), tm(u));
        if ole(tm(u), tm(t)) {
            assert forall|i: int| 0 <= i < s.len() implies ole(tm(#[trigger] s[i]), tm(t)) by { if i < d.len() { assert(d[i] == s[i]); } }
            assert(is_lt(s, t));
        } else {
            assert forall|i: int| 0 <= i < s.len() implies ole(tm(#[trigger] s[i]), tm(u)) by { if i < d.len() { assert(d[i] == s[i]); assert(ct(s[i])); ct_mono(s[i]); ord_trans(tm(s[i]), tm(t), tm(u)); } }
            assert(is_lt(s, u));
        }
    }
}
pub proof fn lt_unique(s: Seq<Term>, t: Term) requires clean(s), is_lt(s, t), ensures t == ltt(s)
{
    let u = ltt(s); assert(is_lt(s, u));
    let k = choose|k: int| 0 <= k < s.len() && t == #[trigger] s[k]; let l = choose|k: int| 0 <= k < s.len() && u == #[trigger] s[k];
    assert(ct(s[k]) && ct(s[l])); ct_mono(t); ct_mono(u); assert(ole(tm(s[k]), tm(u))); assert(ole(tm(s[l]), tm(t))); ord_total(tm(t), tm(u));
    if k < l { assert(tm(s[k]) != tm(s[l])); } else if l < k { assert(tm(s[l]) != tm(s[k])); }
}
// the leading term of a clean nonzero polynomial is one of its terms, and no other is as large
pub proof fn lt_ok(s: Seq<Term>) requires clean(s), s.len() > 0, ensures is_lt(s, ltt(s)), ct(ltt(s)), nzt(ltt(s)), mono(lm(s)), occurs(s, lm(s)), cf(s, lm(s)) == lc(s), lc(s) != 0real,
    forall|i: int| 0 <= i < s.len() && tm(#[trigger] s[i]) != lm(s) ==> olt(tm(s[i]), lm(s))
{
    lt_exists(s); let t = ltt(s); let k = choose|k: int| 0 <= k < s.len() && t == #[trigger] s[k]; assert(ct(s[k]) && nzt(s[k])); ct_mono(t); cf_at(s, k); assert(tm(s[k]) == lm(s));
    assert forall|i: int| 0 <= i < s.len() && tm(#[trigger] s[i]) != lm(s) implies olt(tm(s[i]), lm(s)) by { assert(ct(s[i])); ct_mono(s[i]); ord_total(tm(s[i]), lm(s)); }
}
pub proof fn lt_none(s: Seq<Term>, t: Term) requires is_lt(s, t), ensures s.len() > 0 {}
pub open spec fn refs_of(s: Seq<&Term>, t: Seq<Term>) -> bool { s.len() == t.len() && forall|i: int| 0 <= i < s.len() ==> *#[trigger] s[i] == t[i] }
pub open spec fn by_ocmp(g: spec_fn(&Term, &Term) -> Ordering) -> bool { forall|x: &Term, y: &Term| #[trigger] g(x, y) == ocmp(x.mdeg, y.mdeg) }
pub proof fn pre_refs(t: Seq<Term>)
    requires allct(t),
    ensures forall|s: Seq<&Term>, g: spec_fn(&Term, &Term) -> Ordering| by_ocmp(g) && refs_of(s, t) ==> #[trigger] preorder_on(s, g)
{
    assert forall|s: Seq<&Term>, g: spec_fn(&Term, &Term) -> Ordering| by_ocmp(g) && refs_of(s, t) implies #[trigger] preorder_on(s, g) by {
        assert forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() implies #[trigger] g(s[i], s[j]) == omo(tm(t[i]), tm(t[j])) && mono(tm(t[i])) && mono(tm(t[j])) by { assert(ct(t[i]) && ct(t[j])); assert(*s[i] == t[i] && *s[j] == t[j]); ax_ocmp(s[i].mdeg, s[j].mdeg); ct_mono(t[i]); ct_mono(t[j]); }
        assert forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() implies #[trigger] g(s[i], s[j]) == ord_rev(g(s[j], s[i])) by { assert(g(s[j], s[i]) == omo(tm(t[j]), tm(t[i]))); ord_total(tm(t[i]), tm(t[j])); }
        assert forall|i: int, j: int, k: int| 0 <= i < s.len() && 0 <= j < s.len() && 0 <= k < s.len() && #[trigger] g(s[i], s[j]) != Ordering::Greater && #[trigger] g(s[j], s[k]) != Ordering::Greater implies g(s[i], s[k]) != Ordering::Greater by {
            assert(g(s[i], s[k]) == omo(tm(t[i]), tm(t[k]))); ord_trans(tm(t[i]), tm(t[j]), tm(t[k])); }
    }
}
pub proof fn pre_vals(t: Seq<Term>)
    requires allct(t), ensures forall|g: spec_fn(Term, Term) -> Ordering| (forall|x: Term, y: Term| #[trigger] g(x, y) == ocmp(x.mdeg, y.mdeg)) ==> #[trigger] preorder_on(t, g)
{
    let s = Seq::new(t.len(), |i: int| &t[i]);
    pre_refs(t);
    assert forall|g: spec_fn(Term, Term) -> Ordering| (forall|x: Term, y: Term| #[trigger] g(x, y) == ocmp(x.mdeg, y.mdeg)) implies #[trigger] preorder_on(t, g) by {
        let h = |x: &Term, y: &Term| g(*x, *y);
        assert(preorder_on(s, h));
        assert forall|i: int, j: int| 0 <= i < t.len() && 0 <= j < t.len() implies #[trigger] g(t[i], t[j]) == ord_rev(g(t[j], t[i])) by { assert(h(s[i], s[j]) == ord_rev(h(s[j], s[i]))); }
        assert forall|i: int, j: int, k: int| 0 <= i < t.len() && 0 <= j < t.len() && 0 <= k < t.len() && #[trigger] g(t[i], t[j]) != Ordering::Greater && #[trigger] g(t[j], t[k]) != Ordering::Greater implies g(t[i], t[k]) != Ordering::Greater by {
            assert(h(s[i], s[j]) != Ordering::Greater); assert(h(s[j], s[k]) != Ordering::Greater); assert(h(s[i], s[k]) != Ordering::Greater); }
    }
}
// ---------- permutations
pub proof fn perm_contains(s: Seq<Term>, t: Seq<Term>, x: Term) requires s.to_multiset() == t.to_multiset(), s.contains(x), ensures t.contains(x)
{ s.to_multiset_ensures(); t.to_multiset_ensures(); assert(s.to_multiset().count(x) > 0); assert(t.to_multiset().count(x) > 0); }
pub proof fn perm_lf(s: Seq<Term>, t: Seq<Term>, w: WF) requires s.to_multiset() == t.to_multiset(), ensures lf(s, w) == lf(t, w), s.len() == t.len() decreases s.len()
{
    s.to_multiset_ensures(); t.to_multiset_ensures();
    assert(s.len() == t.len());
    if s.len() > 0 {
        let x = s.last(); assert(s.contains(x)); perm_contains(s, t, x);
        let k = choose|k: int| 0 <= k < t.len() && t[k] == x;
        let n = s.len() - 1;
        assert(s.remove(n).to_multiset() =~= s.to_multiset().remove(s[n])); assert(t.remove(k).to_multiset() =~= t.to_multiset().remove(t[k]));
        assert(s.remove(n) =~= s.drop_last());
        perm_lf(s.drop_last(), t.remove(k), w); lf_remove(t, k, w);
    }
}
pub proof fn perm_clean(s: Seq<Term>, t: Seq<Term>) requires s.to_multiset() == t.to_multiset(), ensures clean(s) ==> clean(t), allct(s) ==> allct(t), s.len() == t.len(), forall|m: Seq<int>| #[trigger] occurs(t, m) ==> occurs(s, m), forall|w: WF| #[trigger] lf(t, w) == lf(s, w)
{
    s.to_multiset_ensures(); t.to_multiset_ensures();
    assert forall|w: WF| #[trigger] lf(t, w) == lf(s, w) by { perm_lf(s, t, w); }
    assert forall|i: int| 0 <= i < t.len() implies s.contains(#[trigger] t[i]) by { assert(t.contains(t[i])); perm_contains(t, s, t[i]); }
    assert forall|m: Seq<int>| #[trigger] occurs(t, m) implies occurs(s, m) by { let i = choose|i: int| 0 <= i < t.len() && tm(#[trigger] t[i]) == m; assert(s.contains(t[i])); let k = choose|k: int| 0 <= k < s.len() && s[k] == t[i]; assert(tm(s[k]) == m); }
    if allct(s) { assert forall|i: int| 0 <= i < t.len() implies ct(#[trigger] t[i]) by { assert(s.contains(t[i])); let k = choose|k: int| 0 <= k < s.len() && s[k] == t[i]; assert(ct(s[k])); } }
    if clean(s) {
        assert forall|i: int| 0 <= i < t.len() implies nzt(#[trigger] t[i]) by { assert(s.contains(t[i])); let k = choose|k: int| 0 <= k < s.len() && s[k] == t[i]; assert(nzt(s[k])); }
        assert forall|i: int, j: int| 0 <= i < j < t.len() implies tm(#[trigger] t[i]) != tm(#[trigger] t[j]) by {
            if tm(t[i]) == tm(t[j]) {
                assert(s.contains(t[i]) && s.contains(t[j]));
                let k = choose|k: int| 0 <= k < s.len() && s[k] == t[i]; let l = choose|l: int| 0 <= l < s.len() && s[l] == t[j];
                if k < l { assert(tm(s[k]) != tm(s[l])); } else if l < k { assert(tm(s[l]) != tm(s[k])); }
                assert(t[i] == t[j]);
                // t has t[i] twice, s once
                let x = t[i]; let r = t.remove(j);
                assert(r[i] == x); assert(r.contains(x)); r.to_multiset_ensures();
                assert(r.to_multiset() =~= t.to_multiset().remove(x));
                let q = s.remove(k); q.to_multiset_ensures();
                assert(q.to_multiset() =~= s.to_multiset().remove(x));
                assert(q.to_multiset().count(x) > 0); assert(q.contains(x));
                let p = choose|p: int| 0 <= p < q.len() && q[p] == x; let o = if p < k { p } else { p + 1 };
                assert(s[o] == x);
                if o < k { assert(tm(s[o]) != tm(s[k])); } else { assert(tm(s[k]) != tm(s[o])); }
            }
        }
    }
}
pub proof fn perm_refs(s: Seq<&Term>, r: Seq<&Term>, t: Seq<Term>, u: Seq<Term>)
    requires s.to_multiset() == r.to_multiset(), refs_of(s, t), refs_of(r, u), ensures t.to_multiset() == u.to_multiset() decreases s.len()
{
    s.to_multiset_ensures(); r.to_multiset_ensures(); t.to_multiset_ensures(); u.to_multiset_ensures();
    assert(s.len() == r.len());
    if s.len() > 0 {
        let n = s.len() - 1; let x = s[n]; assert(s.contains(x)); assert(s.to_multiset().count(x) > 0); assert(r.contains(x));
        let k = choose|k: int| 0 <= k < r.len() && r[k] == x;
        assert(s.remove(n).to_multiset() =~= s.to_multiset().remove(x)); assert(r.remove(k).to_multiset() =~= r.to_multiset().remove(x));
        assert forall|i: int| 0 <= i < n implies *#[trigger] s.remove(n)[i] == t.remove(n)[i] by { assert(*s[i] == t[i]); }
        assert forall|i: int| 0 <= i < n implies *#[trigger] r.remove(k)[i] == u.remove(k)[i] by { let l = if i < k { i } else { i + 1 }; assert(*r[l] == u[l]); }
        perm_refs(s.remove(n), r.remove(k), t.remove(n), u.remove(k));
        assert(*s[n] == t[n]); assert(*r[k] == u[k]);
        assert(t.remove(n).to_multiset() =~= t.to_multiset().remove(t[n])); assert(u.remove(k).to_multiset() =~= u.to_multiset().remove(u[k]));
        assert(t.to_multiset().count(t[n]) > 0) by { assert(t.contains(t[n])); } assert(u.to_multiset().count(u[k]) > 0) by { assert(u.contains(u[k])); }
        assert(t.to_multiset() =~= t.to_multiset().remove(t[n]).insert(t[n])); assert(u.to_multiset() =~= u.to_multiset().remove(u[k]).insert(u[k]));
    } else { assert(t =~= Seq::<Term>::empty()); assert(u =~= Seq::<Term>::empty()); }
}
pub proof fn lt_refs(t: Seq<Term>)
    requires allct(t),
    ensures forall|s: Seq<&Term>, g: spec_fn(&Term, &Term) -> Ordering, k: int| by_ocmp(g) && refs_of(s, t) && #[trigger] max_at(s, g, k) ==> *s[k] == t[k] && is_lt(t, t[k]), forall|u: Term| clean(t) && #[trigger] is_lt(t, u) ==> u == ltt(t)
{
    assert forall|s: Seq<&Term>, g: spec_fn(&Term, &Term) -> Ordering, k: int| by_ocmp(g) && refs_of(s, t) && #[trigger] max_at(s, g, k) implies *s[k] == t[k] && is_lt(t, t[k]) by {
        assert(*s[k] == t[k]);
        assert forall|i: int| 0 <= i < t.len() implies ole(tm(#[trigger] t[i]), tm(t[k])) by { assert(*s[i] == t[i]); assert(g(s[i], s[k]) != Ordering::Greater); assert(g(s[i], s[k]) == ocmp(t[i].mdeg, t[k].mdeg)); assert(ct(t[i]) && ct(t[k])); ax_ocmp(t[i].mdeg, t[k].mdeg); }
    }
    assert forall|u: Term| clean(t) && #[trigger] is_lt(t, u) implies u == ltt(t) by { lt_unique(t, u); }
}
pub open spec fn osorted(u: Seq<Term>) -> bool { forall|i: int, j: int| 0 <= i < j < u.len() ==> ole(tm(#[trigger] u[i]), tm(#[trigger] u[j])) }
// what sorting the references s to the terms t gives
pub proof fn sort_refs(t: Seq<Term>)
    requires allct(t),
    ensures forall|s: Seq<&Term>, g: spec_fn(&Term, &Term) -> Ordering, r: Seq<&Term>, u: Seq<Term>| #![trigger s.to_multiset(), sorted_on(r, g), u.len()] 0 <= u.len() && by_ocmp(g) && refs_of(s, t) && refs_of(r, u) && s.to_multiset() == r.to_multiset() && sorted_on(r, g)
        ==> t.to_multiset() == u.to_multiset() && osorted(u)
{
    assert forall|s: Seq<&Term>, g: spec_fn(&Term, &Term) -> Ordering, r: Seq<&Term>, u: Seq<Term>| #![trigger s.to_multiset(), sorted_on(r, g), u.len()] 0 <= u.len() && by_ocmp(g) && refs_of(s, t) && refs_of(r, u) && s.to_multiset() == r.to_multiset() && sorted_on(r, g)
        implies t.to_multiset() == u.to_multiset() && osorted(u) by {
        perm_refs(s, r, t, u); perm_clean(t, u);
        assert forall|i: int, j: int| 0 <= i < j < u.len() implies ole(tm(#[trigger] u[i]), tm(#[trigger] u[j])) by {
            assert(*r[i] == u[i] && *r[j] == u[j]); assert(g(r[i], r[j]) != Ordering::Greater); assert(g(r[i], r[j]) == ocmp(u[i].mdeg, u[j].mdeg)); assert(ct(u[i]) && ct(u[j])); ax_ocmp(u[i].mdeg, u[j].mdeg); }
    }
}
//@ fn Computer__sort_terms(f)
//@@ requires: allct(f.terms@)
//@@ ensures: ret.terms@.to_multiset() == f.terms@.to_multiset(), allct(ret.terms@), clean(f.terms@) ==> clean(ret.terms@), ret.terms@.len() == f.terms@.len(), forall|w: WF| #[trigger] lf(ret.terms@, w) == lf(f.terms@, w), osorted(ret.terms@)
//@@ hint start
let t = f.terms@;
pre_refs(t); pre_vals(t);
sort_refs(t); sort_vals(t);
assert forall|u: Seq<Term>| #[trigger] u.to_multiset() == t.to_multiset() implies allct(u) && (clean(t) ==> clean(u)) && (forall|w: WF| #[trigger] lf(u, w) == lf(t, w)) && u.len() == t.len() by { perm_clean(t, u); }
//@ fn Computer__leading_term(f)
//@@ requires: allct(f.terms@)
//@@ ensures: (ret is None) == (f.terms@.len() == 0), ret is Some ==> is_lt(f.terms@, *ret->Some_0), ret is Some && clean(f.terms@) ==> *ret->Some_0 == ltt(f.terms@)
//@@ hint start
pre_refs(f.terms@); lt_refs(f.terms@);
//@ fn Computer__leading_coef(f)
//@@ requires: allct(f.terms@)
//@@ ensures: (ret is None) == (f.terms@.len() == 0), ret is Some ==> exists|t: Term| #[trigger] is_lt(f.terms@, t) && t.coef == ret->Some_0, ret is Some && clean(f.terms@) ==> ret->Some_0 == ltt(f.terms@).coef
//@ fn Computer__monic_lcm(s, t)
//@@ ensures: ct(*s) && ct(*t) ==> ct(ret), !nzt(*s) || !nzt(*t) ==> !nzt(ret) && ret.mdeg.0@.len() == 0, ct(*s) && ct(*t) && nzt(*s) && nzt(*t) ==> ret.coef.v() == 1real && tm(ret) == mmax(tm(*s), tm(*t)) && is_max(tm(ret), tm(*s), tm(*t))
//@ raw
// ---------- S-polynomials
pub open spec fn slcm(f: Seq<Term>, g: Seq<Term>) -> Seq<int> { mmax(lm(f), lm(g)) }
// M / LT(f) * f, and the S-polynomial
pub open spec fn sph(f: Seq<Term>, m: Seq<int>, w: WF) -> real { mu(1real / lc(f), lf(f, shw(msub(m, lm(f)), w))) }
pub open spec fn is_spol(h: Seq<Term>, f: Seq<Term>, g: Seq<Term>) -> bool { forall|w: WF| #[trigger] lf(h, w) == sph(f, slcm(f, g), w) - sph(g, slcm(f, g), w) }
pub open spec fn below(h: Seq<Term>, m: Seq<int>) -> bool { forall|i: int| 0 <= i < h.len() ==> olt(tm(#[trigger] h[i]), m) }
pub open spec fn upto(h: Seq<Term>, m: Seq<int>) -> bool { forall|i: int| 0 <= i < h.len() ==> ole(tm(#[trigger] h[i]), m) }
// the coefficient of x m' in x f
pub proof fn ind_shift(s: Seq<Term>, a: Seq<int>, m: Seq<int>) requires allct(s), mono(a), mono(m), ensures lf(s, shw(a, ind(madd(a, m)))) == cf(s, m)
{
    assert forall|i: int| 0 <= i < s.len() implies shw(a, ind(madd(a, m)))(tm(#[trigger] s[i])) == ind(m)(tm(s[i])) by {
        assert(ct(s[i])); ct_mono(s[i]); madd_comm(a, m); madd_comm(a, tm(s[i])); if madd(a, tm(s[i])) == madd(a, m) { madd_cancel(tm(s[i]), m, a); } }
    lf_w_ext(s, shw(a, ind(madd(a, m))), ind(m));
}
// no term of x f is m unless m = x t for a term t of f
pub proof fn ind_absent(s: Seq<Term>, a: Seq<int>, m: Seq<int>) requires forall|i: int| 0 <= i < s.len() ==> madd(a, tm(#[trigger] s[i])) != m, ensures lf(s, shw(a, ind(m))) == 0real decreases s.len()
{
    if s.len() > 0 {
        let n = s.len() - 1; assert(madd(a, tm(s[n])) != m);
        assert forall|i: int| 0 <= i < n implies madd(a, tm(#[trigger] s.drop_last()[i])) != m by { assert(s[i] == s.drop_last()[i]); }
        ind_absent(s.drop_last(), a, m);
    }
}
pub proof fn C21_cancel(h: Seq<Term>, f: Seq<Term>, g: Seq<Term>)
    requires clean(h), clean(f), clean(g), f.len() > 0, g.len() > 0, is_spol(h, f, g), ensures below(h, slcm(f, g))
{
    let (p, q, m) = (lm(f), lm(g), slcm(f, g));
    lt_ok(f); lt_ok(g); mmax_ok(p, q); msub_ok(m, p); msub_ok(m, q);
    let (a, b) = (msub(m, p), msub(m, q));
    assert forall|i: int| 0 <= i < h.len() implies olt(tm(#[trigger] h[i]), m) by {
        let x = tm(h[i]); assert(ct(h[i]) && nzt(h[i])); ct_mono(h[i]);
        cf_at(h, i);
        assert(cf(h, x) == sph(f, m, ind(x)) - sph(g, m, ind(x)));
        if x == m {
            ind_shift(f, a, p); ind_shift(g, b, q);
            let (u, v) = (lc(f), lc(g));
            assert((1real / u) * u == 1real) by(nonlinear_arith) requires u != 0real; assert((1real / v) * v == 1real) by(nonlinear_arith) requires v != 0real;
        } else {
            if !ole(x, m) {
                assert forall|j: int| 0 <= j < f.len() implies madd(a, tm(#[trigger] f[j])) != x by { assert(ct(f[j])); ct_mono(f[j]); ord_add(tm(f[j]), p, a); }
                assert forall|j: int| 0 <= j < g.len() implies madd(b, tm(#[trigger] g[j])) != x by { assert(ct(g[j])); ct_mono(g[j]); ord_add(tm(g[j]), q, b); }
                ind_absent(f, a, x); ind_absent(g, b, x);
            }
        }
    }
}
pub proof fn spol_hint(f: Seq<Term>, g: Seq<Term>)
    requires clean(f), clean(g), f.len() > 0, g.len() > 0,
    ensures mdvd(lm(f), slcm(f, g)), mdvd(lm(g), slcm(f, g)), mono(lm(f)), mono(lm(g)), mono(slcm(f, g)), ct(ltt(f)), ct(ltt(g)), nzt(ltt(f)), nzt(ltt(g)),
        forall|c: Term| #![trigger tm(c)] ct(c) && is_sub(tm(c), slcm(f, g), lm(f)) ==> tm(c) == msub(slcm(f, g), lm(f)), forall|c: Term| #![trigger tm(c)] ct(c) && is_sub(tm(c), slcm(f, g), lm(g)) ==> tm(c) == msub(slcm(f, g), lm(g)),
        forall|c: real| #[trigger] mu(c, lc(f)) == 1real ==> c == 1real / lc(f), forall|c: real| #[trigger] mu(c, lc(g)) == 1real ==> c == 1real / lc(g),
        forall|h: Seq<Term>| #[trigger] clean(h) && is_spol(h, f, g) ==> below(h, slcm(f, g)),
{
    let (p, q, m) = (lm(f), lm(g), slcm(f, g));
    lt_ok(f); lt_ok(g); mmax_ok(p, q);
    assert forall|c: Term| #![trigger tm(c)] ct(c) && is_sub(tm(c), m, p) implies tm(c) == msub(m, p) by { is_sub_is(tm(c), m, p); }
    assert forall|c: Term| #![trigger tm(c)] ct(c) && is_sub(tm(c), m, q) implies tm(c) == msub(m, q) by { is_sub_is(tm(c), m, q); }
    let (u, v) = (lc(f), lc(g));
    assert forall|c: real| #[trigger] mu(c, u) == 1real implies c == 1real / u by { assert(c == 1real / u) by(nonlinear_arith) requires c * u == 1real, u != 0real; }
    assert forall|c: real| #[trigger] mu(c, v) == 1real implies c == 1real / v by { assert(c == 1real / v) by(nonlinear_arith) requires c * v == 1real, v != 0real; }
    assert forall|h: Seq<Term>| #[trigger] clean(h) && is_spol(h, f, g) implies below(h, m) by { C21_cancel(h, f, g); }
}
//@ fn Computer__try_reduce(f, g)
//@@ requires: clean(f.terms@), clean(g.terms@)
//@@ ensures: (ret is None) == (f.terms@.len() == 0 || g.terms@.len() == 0), ret is Some ==> clean(ret->Some_0.terms@) && is_spol(ret->Some_0.terms@, f.terms@, g.terms@) && below(ret->Some_0.terms@, slcm(f.terms@, g.terms@))
//@@ hint start
let (s, t) = (f.terms@, g.terms@);
if s.len() > 0 && t.len() > 0 { spol_hint(s, t); }
