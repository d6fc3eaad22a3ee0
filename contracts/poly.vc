//@ raw
// ---------- terms and polynomials: a polynomial is the linear functional  w |-> sum coef * w(monomial);
// its coefficient of m is the functional's value at the indicator of m, its value at a point the value
// at the monomials' values there
pub open spec fn tm(t: Term) -> Seq<int> { mi(t.mdeg.0@) }
pub open spec fn ct(t: Term) -> bool { canon(tm(t)) }
pub open spec fn nzt(t: Term) -> bool { t.coef.v() != 0real }
pub type WF = spec_fn(Seq<int>) -> real;
pub open spec fn tf(t: Term, w: WF) -> real { mu(t.coef.v(), w(tm(t))) }
pub open spec fn lf(s: Seq<Term>, w: WF) -> real decreases s.len() { if s.len() == 0 { 0real } else { lf(s.drop_last(), w) + tf(s.last(), w) } }
pub open spec fn ind(m: Seq<int>) -> WF { |x: Seq<int>| if x == m { 1real } else { 0real } }
pub open spec fn cf(s: Seq<Term>, m: Seq<int>) -> real { lf(s, ind(m)) }
pub open spec fn shw(m: Seq<int>, w: WF) -> WF { |x: Seq<int>| w(madd(m, x)) }
// multiplication by a polynomial, transposed: lf(f * g, w) = lf(f, cvw(g, w))
pub open spec fn cvw(g: Seq<Term>, w: WF) -> WF { |x: Seq<int>| lf(g, shw(x, w)) }
pub open spec fn occurs(s: Seq<Term>, m: Seq<int>) -> bool { exists|i: int| 0 <= i < s.len() && tm(#[trigger] s[i]) == m }
// nonzero coefficients, canonical and pairwise distinct monomials
pub open spec fn allct(s: Seq<Term>) -> bool { forall|i: int| 0 <= i < s.len() ==> ct(#[trigger] s[i]) }
pub open spec fn allnz(s: Seq<Term>) -> bool { forall|i: int| 0 <= i < s.len() ==> nzt(#[trigger] s[i]) }
pub open spec fn dist(s: Seq<Term>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> tm(#[trigger] s[i]) != tm(#[trigger] s[j]) }
pub open spec fn clean(s: Seq<Term>) -> bool { allct(s) && allnz(s) && dist(s) }
pub open spec fn is_lin(s: Seq<Term>, a: Seq<Term>, x: real, b: Seq<Term>) -> bool { forall|w: WF| #[trigger] lf(s, w) == lf(a, w) + mu(x, lf(b, w)) }
pub proof fn lf_ext(s: Seq<Term>, t: Seq<Term>, w: WF)
    requires s.len() == t.len(), forall|i: int| 0 <= i < s.len() ==> tf(#[trigger] s[i], w) == tf(t[i], w), ensures lf(s, w) == lf(t, w) decreases s.len()
{ if s.len() > 0 { assert forall|i: int| 0 <= i < s.len() - 1 implies tf(#[trigger] s.drop_last()[i], w) == tf(t.drop_last()[i], w) by { assert(s[i] == s.drop_last()[i]); } lf_ext(s.drop_last(), t.drop_last(), w); assert(tf(s[s.len() - 1], w) == tf(t[s.len() - 1], w)); } }
pub proof fn lf_push(s: Seq<Term>, t: Term, w: WF) ensures lf(s.push(t), w) == lf(s, w) + tf(t, w) { assert(s.push(t).drop_last() =~= s); }
pub proof fn lf_one(t: Term, w: WF) ensures lf(seq![t], w) == tf(t, w) { assert(seq![t].drop_last() =~= Seq::<Term>::empty()); assert(lf(Seq::<Term>::empty(), w) == 0real); }
pub proof fn lf_two(t: Term, u: Term, w: WF) ensures lf(seq![t, u], w) == tf(t, w) + tf(u, w) { assert(seq![t, u].drop_last() =~= seq![t]); lf_one(t, w); }
pub proof fn lf_take(s: Seq<Term>, i: int, w: WF) requires 0 <= i < s.len(), ensures lf(s.take(i + 1), w) == lf(s.take(i), w) + tf(s[i], w)
{ assert(s.take(i + 1).drop_last() =~= s.take(i)); }
pub proof fn lf_update(s: Seq<Term>, i: int, t: Term, w: WF) requires 0 <= i < s.len(), ensures lf(s.update(i, t), w) == lf(s, w) - tf(s[i], w) + tf(t, w) decreases s.len()
{
    let n = s.len() - 1;
    if i == n { assert(s.update(i, t).drop_last() =~= s.drop_last()); } else { assert(s.update(i, t).drop_last() =~= s.drop_last().update(i, t)); lf_update(s.drop_last(), i, t, w); }
}
pub proof fn lf_remove(s: Seq<Term>, i: int, w: WF) requires 0 <= i < s.len(), ensures lf(s.remove(i), w) == lf(s, w) - tf(s[i], w) decreases s.len()
{
    let n = s.len() - 1;
    if i == n { assert(s.remove(i) =~= s.drop_last()); } else { assert(s.remove(i).drop_last() =~= s.drop_last().remove(i)); lf_remove(s.drop_last(), i, w); }
}
// the functional depends linearly on the polynomial and on w
pub proof fn lf_w(s: Seq<Term>, w: WF, u: WF, x: real, v: WF)
    requires forall|m: Seq<int>| #[trigger] w(m) == u(m) + mu(x, v(m)), ensures lf(s, w) == lf(s, u) + mu(x, lf(s, v)) decreases s.len()
{
    if s.len() > 0 {
        lf_w(s.drop_last(), w, u, x, v);
        let c = s.last().coef.v(); let m = tm(s.last());
        assert(w(m) == u(m) + mu(x, v(m)));
        let a = lf(s.drop_last(), v); let p = u(m); let q = v(m);
        assert(c * (p + x * q) + x * a == c * p + x * (a + c * q)) by(nonlinear_arith);
    }
}
pub proof fn lf_w_ext(s: Seq<Term>, w: WF, u: WF)
    requires forall|i: int| 0 <= i < s.len() ==> w(tm(#[trigger] s[i])) == u(tm(s[i])), ensures lf(s, w) == lf(s, u) decreases s.len()
{ if s.len() > 0 { assert forall|i: int| 0 <= i < s.len() - 1 implies w(tm(#[trigger] s.drop_last()[i])) == u(tm(s.drop_last()[i])) by { assert(s[i] == s.drop_last()[i]); } lf_w_ext(s.drop_last(), w, u); assert(s.last() == s[s.len() - 1]); } }
// scaled by x and shifted by m
pub proof fn lf_shift(t: Seq<Term>, s: Seq<Term>, x: real, m: Seq<int>, w: WF)
    requires t.len() == s.len(), forall|i: int| 0 <= i < s.len() ==> (#[trigger] t[i]).coef.v() == mu(x, s[i].coef.v()) && tm(t[i]) == madd(m, tm(s[i])),
    ensures lf(t, w) == mu(x, lf(s, shw(m, w))) decreases s.len()
{
    if s.len() > 0 {
        assert forall|i: int| 0 <= i < s.len() - 1 implies (#[trigger] t.drop_last()[i]).coef.v() == mu(x, s.drop_last()[i].coef.v()) && tm(t.drop_last()[i]) == madd(m, tm(s.drop_last()[i])) by { assert(t[i] == t.drop_last()[i]); assert(s[i] == s.drop_last()[i]); }
        lf_shift(t.drop_last(), s.drop_last(), x, m, w);
        let l = s.len() - 1; assert(t[l].coef.v() == mu(x, s[l].coef.v()) && tm(t[l]) == madd(m, tm(s[l])));
        let c = s[l].coef.v(); let a = lf(s.drop_last(), shw(m, w)); let v = w(madd(m, tm(s[l])));
        assert(shw(m, w)(tm(s[l])) == v);
        assert(x * a + (x * c) * v == x * (a + c * v)) by(nonlinear_arith);
    }
}
pub proof fn lf_scale(t: Seq<Term>, s: Seq<Term>, x: real, w: WF)
    requires t.len() == s.len(), forall|i: int| 0 <= i < s.len() ==> (#[trigger] t[i]).coef.v() == mu(x, s[i].coef.v()) && tm(t[i]) == tm(s[i]),
    ensures lf(t, w) == mu(x, lf(s, w)) decreases s.len()
{
    if s.len() > 0 {
        assert forall|i: int| 0 <= i < s.len() - 1 implies (#[trigger] t.drop_last()[i]).coef.v() == mu(x, s.drop_last()[i].coef.v()) && tm(t.drop_last()[i]) == tm(s.drop_last()[i]) by { assert(t[i] == t.drop_last()[i]); assert(s[i] == s.drop_last()[i]); }
        lf_scale(t.drop_last(), s.drop_last(), x, w);
        let l = s.len() - 1; assert(t[l].coef.v() == mu(x, s[l].coef.v()) && tm(t[l]) == tm(s[l]));
        let c = s[l].coef.v(); let a = lf(s.drop_last(), w); let v = w(tm(s[l]));
        assert(x * a + (x * c) * v == x * (a + c * v)) by(nonlinear_arith);
    }
}
// the coefficient of a clean polynomial at one of its monomials, and elsewhere
pub proof fn cf_absent(s: Seq<Term>, m: Seq<int>) requires !occurs(s, m), ensures cf(s, m) == 0real decreases s.len()
{
    if s.len() > 0 {
        if occurs(s.drop_last(), m) { let i = choose|i: int| 0 <= i < s.len() - 1 && tm(#[trigger] s.drop_last()[i]) == m; assert(tm(s[i]) == m); }
        cf_absent(s.drop_last(), m);
        assert(s.last() == s[s.len() - 1]);
    }
}
pub proof fn cf_at(s: Seq<Term>, i: int) requires dist(s), 0 <= i < s.len(), ensures cf(s, tm(s[i])) == s[i].coef.v()
{
    let m = tm(s[i]); let r = s.remove(i);
    if occurs(r, m) { let k = choose|k: int| 0 <= k < r.len() && tm(#[trigger] r[k]) == m; let l = if k < i { k } else { k + 1 }; assert(r[k] == s[l]); }
    cf_absent(r, m);
    lf_remove(s, i, ind(m));
}
pub proof fn C16_zero_iff_no_terms(s: Seq<Term>) requires clean(s), ensures (forall|m: Seq<int>| #[trigger] cf(s, m) == 0real) == (s.len() == 0)
{ if s.len() > 0 { cf_at(s, 0); assert(nzt(s[0])); assert(cf(s, tm(s[0])) != 0real); } }
// a term of a clean polynomial whose coefficients are a + x b occurs in a or in b
pub proof fn lin_occurs(s: Seq<Term>, a: Seq<Term>, x: real, b: Seq<Term>, i: int)
    requires clean(s), is_lin(s, a, x, b), 0 <= i < s.len(), ensures occurs(a, tm(s[i])) || occurs(b, tm(s[i]))
{
    let m = tm(s[i]);
    if !occurs(a, m) && !occurs(b, m) { cf_absent(a, m); cf_absent(b, m); cf_at(s, i); assert(nzt(s[i])); assert(lf(s, ind(m)) == lf(a, ind(m)) + mu(x, lf(b, ind(m)))); }
}
pub proof fn occurs_push(s: Seq<Term>, t: Term, m: Seq<int>) ensures occurs(s.push(t), m) == (occurs(s, m) || tm(t) == m)
{
    if occurs(s, m) { let i = choose|i: int| 0 <= i < s.len() && tm(#[trigger] s[i]) == m; assert(s.push(t)[i] == s[i]); }
    assert(s.push(t)[s.len() as int] == t);
    if occurs(s.push(t), m) { let i = choose|i: int| 0 <= i < s.len() + 1 && tm(#[trigger] s.push(t)[i]) == m; if i < s.len() { assert(s[i] == s.push(t)[i]); } }
}
pub proof fn term_eq(a: Term, b: Term) ensures (a.mdeg.0@ == b.mdeg.0@) == (tm(a) == tm(b)) { mi_inj(a.mdeg.0@, b.mdeg.0@); }
pub broadcast proof fn lf_short(s: Seq<Term>, w: WF)
    ensures s.len() == 0 ==> #[trigger] lf(s, w) == 0real, s.len() == 1 ==> lf(s, w) == tf(s[0], w), s.len() == 2 ==> lf(s, w) == tf(s[0], w) + tf(s[1], w)
{
    if s.len() == 1 { assert(s =~= seq![s[0]]); lf_one(s[0], w); }
    if s.len() == 2 { assert(s =~= seq![s[0], s[1]]); lf_two(s[0], s[1], w); }
}
pub proof fn tf_neg(t: Term, u: Term, w: WF) requires t.coef.v() == -u.coef.v(), t.mdeg == u.mdeg, ensures tf(t, w) == -tf(u, w) { mu_neg(u.coef.v(), w(tm(u))); }
pub open spec fn neg_term(t: Term, u: Term) -> bool { t.coef.v() == -u.coef.v() && t.mdeg == u.mdeg }
pub open spec fn neg_of(t: Seq<Term>, s: Seq<Term>) -> bool { t.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> #[trigger] neg_term(t[i], s[i]) }
pub proof fn neg_ok(t: Seq<Term>, s: Seq<Term>)
    requires neg_of(t, s), ensures clean(s) ==> clean(t), forall|w: WF| #[trigger] lf(t, w) == -lf(s, w)
{
    assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]).coef.v() == -s[i].coef.v() && tm(t[i]) == tm(s[i]) by { assert(neg_term(t[i], s[i])); }
    if clean(s) {
        assert forall|i: int| 0 <= i < t.len() implies ct(#[trigger] t[i]) && nzt(t[i]) by { assert(ct(s[i]) && nzt(s[i])); }
        assert forall|i: int, j: int| 0 <= i < j < t.len() implies tm(#[trigger] t[i]) != tm(#[trigger] t[j]) by { assert(tm(s[i]) != tm(s[j])); }
    }
    assert forall|w: WF| #[trigger] lf(t, w) == -lf(s, w) by {
        assert forall|i: int| 0 <= i < s.len() implies (#[trigger] t[i]).coef.v() == mu(-1real, s[i].coef.v()) && tm(t[i]) == tm(s[i]) by { mu_neg(1real, s[i].coef.v()); }
        lf_scale(t, s, -1real, w); mu_neg(1real, lf(s, w));
    }
}
pub open spec fn scaled_of(t: Seq<Term>, s: Seq<Term>, x: real, m: Seq<int>) -> bool {
    t.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> (#[trigger] t[i]).coef.v() == mu(x, s[i].coef.v()) && tm(t[i]) == madd(m, tm(s[i])) }
pub proof fn scaled_ok(t: Seq<Term>, s: Seq<Term>, x: real, r: Term)
    requires scaled_of(t, s, x, tm(r)), clean(s), ct(r), x != 0real, ensures clean(t), forall|w: WF| #[trigger] lf(t, w) == mu(x, lf(s, shw(tm(r), w)))
{
    let m = tm(r); mi_mono(r.mdeg.0@);
    assert forall|i: int| 0 <= i < t.len() implies ct(#[trigger] t[i]) && nzt(t[i]) by {
        assert(ct(s[i]) && nzt(s[i])); mi_mono(s[i].mdeg.0@); madd_mono(m, tm(s[i])); let c = s[i].coef.v(); assert(x * c != 0real) by(nonlinear_arith) requires x != 0real, c != 0real; }
    assert forall|i: int, j: int| 0 <= i < j < t.len() implies tm(#[trigger] t[i]) != tm(#[trigger] t[j]) by {
        assert(tm(s[i]) != tm(s[j])); assert(ct(s[i]) && ct(s[j])); madd_comm(m, tm(s[i])); madd_comm(m, tm(s[j]));
        if madd(m, tm(s[i])) == madd(m, tm(s[j])) { madd_cancel(tm(s[i]), tm(s[j]), m); } }
    assert forall|w: WF| #[trigger] lf(t, w) == mu(x, lf(s, shw(m, w))) by { lf_shift(t, s, x, m, w); }
}
pub proof fn shw_zero(w: WF) ensures shw(Seq::empty(), w) == w { assert forall|x: Seq<int>| #[trigger] shw(Seq::empty(), w)(x) == w(x) by { madd_zero(x); } assert(shw(Seq::empty(), w) =~= w); }
// partial sums
pub open spec fn lft(s: Seq<Term>, i: int, w: WF) -> real { lf(s.take(i), w) }
pub proof fn lft_all(s: Seq<Term>)
    ensures forall|w: WF| #[trigger] lft(s, 0, w) == 0real, forall|i: int, w: WF| 0 <= i < s.len() && #[trigger] lft(s, i, w) == lft(s, i, w) ==> lft(s, i + 1, w) == lft(s, i, w) + tf(s[i], w), forall|w: WF| #[trigger] lft(s, s.len() as int, w) == lf(s, w)
{
    assert(s.take(s.len() as int) =~= s); assert(s.take(0) =~= Seq::<Term>::empty());
    assert forall|i: int, w: WF| 0 <= i < s.len() && #[trigger] lft(s, i, w) == lft(s, i, w) implies lft(s, i + 1, w) == lft(s, i, w) + tf(s[i], w) by { lf_take(s, i, w); }
}
// adding the nonzero term r to a clean polynomial
pub proof fn add_push(s: Seq<Term>, u: Term)
    requires clean(s), ct(u), nzt(u), !occurs(s, tm(u)), ensures clean(s.push(u)), forall|w: WF| #[trigger] lf(s.push(u), w) == lf(s, w) + tf(u, w)
{
    let t = s.push(u);
    assert forall|i: int| 0 <= i < t.len() implies ct(#[trigger] t[i]) && nzt(t[i]) by { if i < s.len() { assert(t[i] == s[i]); } }
    assert forall|i: int, j: int| 0 <= i < j < t.len() implies tm(#[trigger] t[i]) != tm(#[trigger] t[j]) by { assert(t[i] == s[i]); if j < s.len() { assert(t[j] == s[j]); } }
    assert forall|w: WF| #[trigger] lf(t, w) == lf(s, w) + tf(u, w) by { lf_push(s, u, w); }
}
pub open spec fn upd_term(s: Seq<Term>, i: int, u: Term, r: Term) -> bool { 0 <= i < s.len() && u.coef.v() == s[i].coef.v() + r.coef.v() && u.mdeg == s[i].mdeg && tm(s[i]) == tm(r) }
pub proof fn add_update(s: Seq<Term>, i: int, u: Term, r: Term)
    requires clean(s), upd_term(s, i, u, r), ensures nzt(u) ==> clean(s.update(i, u)), forall|w: WF| #[trigger] lf(s.update(i, u), w) == lf(s, w) + tf(r, w),
        !nzt(u) ==> clean(s.update(i, u).remove(i)), !nzt(u) ==> forall|w: WF| #[trigger] lf(s.update(i, u).remove(i), w) == lf(s, w) + tf(r, w)
{
    let t = s.update(i, u); let q = t.remove(i);
    assert(forall|k: int| 0 <= k < s.len() ==> tm(#[trigger] t[k]) == tm(s[k]));
    if nzt(u) { assert forall|k: int| 0 <= k < t.len() implies ct(#[trigger] t[k]) && nzt(t[k]) by { assert(ct(s[k]) && nzt(s[k])); } }
    assert forall|k: int| 0 <= k < q.len() implies ct(#[trigger] q[k]) && nzt(q[k]) by { let l = if k < i { k } else { k + 1 }; assert(q[k] == s[l]); }
    assert forall|k: int, j: int| 0 <= k < j < q.len() implies tm(#[trigger] q[k]) != tm(#[trigger] q[j]) by {
        let l = if k < i { k } else { k + 1 }; let h = if j < i { j } else { j + 1 }; assert(q[k] == s[l]); assert(q[j] == s[h]); }
    assert forall|w: WF| #[trigger] lf(t, w) == lf(s, w) + tf(r, w) by {
        lf_update(s, i, u, w); let a = s[i].coef.v(); let b = r.coef.v(); let v = w(tm(r)); assert((a + b) * v == a * v + b * v) by(nonlinear_arith); }
    if !nzt(u) { assert forall|w: WF| #[trigger] lf(q, w) == lf(s, w) + tf(r, w) by { lf_remove(t, i, w); } }
}
pub proof fn filter_ok(s: Seq<Term>, p: spec_fn(Term) -> bool)
    requires forall|t: Term| #[trigger] p(t) == nzt(t),
    ensures allnz(s.filter(p)), forall|w: WF| #[trigger] lf(s.filter(p), w) == lf(s, w), allct(s) ==> allct(s.filter(p)), allct(s) && dist(s) ==> dist(s.filter(p)), forall|m: Seq<int>| occurs(s.filter(p), m) ==> #[trigger] occurs(s, m)
    decreases s.len()
{
    reveal(Seq::filter);
    if s.len() > 0 {
        let d = s.drop_last(); let t = s.last(); let f = d.filter(p);
        filter_ok(d, p);
        assert(s =~= d.push(t));
        assert forall|m: Seq<int>| occurs(s.filter(p), m) implies #[trigger] occurs(s, m) by { occurs_push(d, t, m); occurs_push(f, t, m); assert(occurs(f, m) ==> occurs(d, m)); }
        assert forall|w: WF| #[trigger] lf(s.filter(p), w) == lf(s, w) by { assert(lf(f, w) == lf(d, w)); if p(t) { lf_push(f, t, w); } }
        assert(forall|i: int| 0 <= i < d.len() ==> d[i] == s[i]);
        if allct(s) && dist(s) {
            assert(allct(d) && dist(d));
            assert(!occurs(d, tm(t)));
            assert(occurs(f, tm(t)) ==> occurs(d, tm(t)));
            let q = f.push(t);
            assert forall|i: int, j: int| 0 <= i < j < q.len() implies tm(#[trigger] q[i]) != tm(#[trigger] q[j]) by { assert(q[i] == f[i]); if j < f.len() { assert(q[j] == f[j]); } }
        }
    }
}
pub proof fn conv_term(t: Term, g: Seq<Term>, w: WF) ensures tf(t, cvw(g, w)) == mu(t.coef.v(), lf(g, shw(tm(t), w))) {}
pub proof fn neg_all(r: Term) ensures forall|t: Term, w: WF| neg_term(t, r) ==> #[trigger] tf(t, w) == -tf(r, w)
{ assert forall|t: Term, w: WF| neg_term(t, r) implies #[trigger] tf(t, w) == -tf(r, w) by { tf_neg(t, r, w); } }
//@ fn Term__new_unchecked(coef, mdeg)
//@@ ensures: ret.coef == coef, ret.mdeg == mdeg
//@ fn Term__new(coef, mdeg)
//@@ ensures: ret.coef == coef, coef.v() != 0real ==> ret.mdeg == mdeg, coef.v() == 0real ==> ret.mdeg.0@.len() == 0
//@ fn Term__constant_unchecked(coef)
//@@ ensures: ret.coef == coef, ret.mdeg.0@.len() == 0, tm(ret) == Seq::<int>::empty()
//@ fn Term__From__F__from(coef)
//@@ ensures: ret.coef == coef, ret.mdeg.0@.len() == 0, tm(ret) == Seq::<int>::empty()
//@ fn Term__zero()
//@@ ensures: ret.coef.v() == 0real, ret.mdeg.0@.len() == 0, tm(ret) == Seq::<int>::empty()
//@ fn Term__Default__default()
//@@ ensures: ret.coef.v() == 0real, ret.mdeg.0@.len() == 0, tm(ret) == Seq::<int>::empty()
//@ fn Term__one()
//@@ ensures: ret.coef.v() == 1real, ret.mdeg.0@.len() == 0, tm(ret) == Seq::<int>::empty()
//@ fn Term__is_zero(this)
//@@ ensures: ret == (this.coef.v() == 0real)
//@@ spec: this.coef.v() == 0real
//@ fn Term__monic(mdeg)
//@@ ensures: ret.coef.v() == 1real, ret.mdeg == mdeg
//@ fn Term__var(idx, deg)
//@@ requires: idx < usize::MAX
//@@ ensures: ret.coef.v() == 1real, ct(ret), forall|i: int| #[trigger] ex(tm(ret), i) == (if i == idx { deg as int } else { 0 })
//@ fn Term__Clone__clone(this)
//@@ ensures: ret == *this
//@ fn Term__PartialEq__eq(this, other)
//@@ ensures: ret == (*this == *other), ct(*this) && ct(*other) ==> ret == (this.coef == other.coef && tm(*this) == tm(*other))
//@@ hint start
term_eq(*this, *other);
//@ fn Term__divides(this, other)
//@@ ensures: ct(*this) && ct(*other) ==> ret == (nzt(*this) && mdvd(tm(*this), tm(*other)))
//@ fn Term__try_div(this, other)
//@@ ensures: ct(*this) && ct(*other) && nzt(*other) ==> (nzt(*this) ==> (ret is Some) == mdvd(tm(*other), tm(*this))) && (!nzt(*this) ==> ret is Some && !nzt(ret->Some_0)), ct(*this) && ct(*other) && nzt(*this) && nzt(*other) && ret is Some ==> ct(ret->Some_0) && nzt(ret->Some_0) && madd(tm(ret->Some_0), tm(*other)) == tm(*this) && mu(ret->Some_0.coef.v(), other.coef.v()) == this.coef.v(), ret is Some && ct(*this) && ct(*other) ==> ct(ret->Some_0) && (nzt(*other) || !nzt(*this))
//@@ hint start
let a = tm(*this); let b = tm(*other); mi_mono(this.mdeg.0@); mi_mono(other.mdeg.0@);
if ct(*this) && ct(*other) { assert forall|c: Seq<int>| mono(c) && #[trigger] is_sub(c, a, b) implies madd(c, b) == a by { is_sub_add(c, a, b); } }
if nzt(*other) { let q = fdiv(this.coef, other.coef); assert(mu(q.v(), other.coef.v()) == this.coef.v()); }
//@ fn rTerm__Mul__mul(this, rhs)
//@@ ensures: ct(*this) && ct(*rhs) ==> ct(ret), !nzt(*this) || !nzt(*rhs) ==> !nzt(ret) && ret.mdeg.0@.len() == 0, ct(*this) && ct(*rhs) && nzt(*this) && nzt(*rhs) ==> nzt(ret) && ret.coef.v() == mu(this.coef.v(), rhs.coef.v()) && tm(ret) == madd(tm(*this), tm(*rhs))
//@@ hint start
mi_mono(this.mdeg.0@); mi_mono(rhs.mdeg.0@);
assert(this.coef.v() != 0real && rhs.coef.v() != 0real ==> this.coef.v() * rhs.coef.v() != 0real) by(nonlinear_arith);
//@ fn rTerm__Mul__Term__mul(this, rhs)
//@@ ensures: ct(*this) && ct(rhs) ==> ct(ret), !nzt(*this) || !nzt(rhs) ==> !nzt(ret) && ret.mdeg.0@.len() == 0, ct(*this) && ct(rhs) && nzt(*this) && nzt(rhs) ==> nzt(ret) && ret.coef.v() == mu(this.coef.v(), rhs.coef.v()) && tm(ret) == madd(tm(*this), tm(rhs))
//@ fn Term__Mul__rTerm__mul(this, rhs)
//@@ ensures: ct(this) && ct(*rhs) ==> ct(ret), !nzt(this) || !nzt(*rhs) ==> !nzt(ret) && ret.mdeg.0@.len() == 0, ct(this) && ct(*rhs) && nzt(this) && nzt(*rhs) ==> nzt(ret) && ret.coef.v() == mu(this.coef.v(), rhs.coef.v()) && tm(ret) == madd(tm(this), tm(*rhs))
//@ fn Term__Mul__mul(this, rhs)
//@@ ensures: ct(this) && ct(rhs) ==> ct(ret), !nzt(this) || !nzt(rhs) ==> !nzt(ret) && ret.mdeg.0@.len() == 0, ct(this) && ct(rhs) && nzt(this) && nzt(rhs) ==> nzt(ret) && ret.coef.v() == mu(this.coef.v(), rhs.coef.v()) && tm(ret) == madd(tm(this), tm(rhs))
//@ fn Term__Neg__neg(this)
//@@ ensures: ret.coef.v() == -this.coef.v(), ret.mdeg == this.mdeg
//@ fn rTerm__Neg__neg(this)
//@@ ensures: ret.coef.v() == -this.coef.v(), ret.mdeg == this.mdeg
//@ fn Polynomial__new_unchecked(terms)
//@@ ensures: ret.terms == terms
//@ fn Polynomial__zero()
//@@ ensures: ret.terms@.len() == 0
//@ fn Polynomial__Default__default()
//@@ ensures: ret.terms@.len() == 0
//@ fn Polynomial__is_zero(this)
//@@ ensures: ret == (this.terms@.len() == 0)
//@ fn Polynomial__term_unchecked(t)
//@@ ensures: ret.terms@ == seq![t]
//@ fn Polynomial__constant_unchecked(coef)
//@@ ensures: ret.terms@.len() == 1, ret.terms@[0].coef == coef, tm(ret.terms@[0]) == Seq::<int>::empty()
//@ fn Polynomial__one()
//@@ ensures: clean(ret.terms@), ret.terms@.len() == 1, ret.terms@[0].coef.v() == 1real, tm(ret.terms@[0]) == Seq::<int>::empty()
//@ fn Polynomial__var(idx, deg)
//@@ requires: idx < usize::MAX
//@@ ensures: clean(ret.terms@), ret.terms@.len() == 1, ret.terms@[0].coef.v() == 1real, forall|i: int| #[trigger] ex(tm(ret.terms@[0]), i) == (if i == idx { deg as int } else { 0 })
//@ fn Polynomial__terms(this)
//@@ ensures: ret@.len() == this.terms@.len(), forall|i: int| #![trigger ret@[i]] #![trigger this.terms@[i]] 0 <= i < ret@.len() ==> *ret@[i] == this.terms@[i]
//@ fn Polynomial__terms_mut(this)
//@@ ensures: ret@.len() == old(this).terms@.len(), final(this).terms@.len() == old(this).terms@.len(), forall|i: int| 0 <= i < ret@.len() ==> *#[trigger] ret@[i] == old(this).terms@[i], forall|i: int| #![trigger ret@[i]] #![trigger final(this).terms@[i]] 0 <= i < ret@.len() ==> final(this).terms@[i] == *final(ret@[i])
//@ fn Polynomial__Clone__clone(this)
//@@ ensures: ret == *this
//@ fn Polynomial__new(terms)
//@@ ensures: allnz(ret.terms@), forall|w: WF| #[trigger] lf(ret.terms@, w) == lf(terms@, w), allct(terms@) && dist(terms@) ==> clean(ret.terms@)
//@@ hint start
assert forall|p: spec_fn(Term) -> bool| #![trigger terms@.filter(p)] (forall|t: Term| #[trigger] p(t) == nzt(t)) implies allnz(terms@.filter(p)) && (forall|w: WF| #[trigger] lf(terms@.filter(p), w) == lf(terms@, w)) && (allct(terms@) ==> allct(terms@.filter(p))) && (allct(terms@) && dist(terms@) ==> dist(terms@.filter(p))) by { filter_ok(terms@, p); }
//@ fn Polynomial__From__F__from(coef)
//@@ ensures: clean(ret.terms@), forall|w: WF| #[trigger] lf(ret.terms@, w) == mu(coef.v(), w(Seq::empty()))
//@ fn Polynomial__From__Term__from(term)
//@@ ensures: ct(term) ==> clean(ret.terms@), forall|w: WF| #[trigger] lf(ret.terms@, w) == tf(term, w)
//@ fn Polynomial__From__rTerm__from(term)
//@@ ensures: ct(*term) ==> clean(ret.terms@), forall|w: WF| #[trigger] lf(ret.terms@, w) == tf(*term, w)
//@ fn rTerm__Add__add(this, rhs)
//@@ ensures: ct(*this) && ct(*rhs) ==> clean(ret.terms@), ct(*this) && ct(*rhs) ==> forall|w: WF| #[trigger] lf(ret.terms@, w) == tf(*this, w) + tf(*rhs, w)
//@@ hint start
let (x, y) = (this.coef.v(), rhs.coef.v());
assert forall|t: Term, w: WF| t.coef.v() == x + y && (tm(t) == tm(*this) || !nzt(t)) && tm(*this) == tm(*rhs) implies #[trigger] tf(t, w) == tf(*this, w) + tf(*rhs, w) by { let v = w(tm(*this)); assert((x + y) * v == x * v + y * v) by(nonlinear_arith); if !nzt(t) { assert((x + y) * v == 0real) by(nonlinear_arith) requires x + y == 0real; } }
term_eq(*this, *rhs);
//@ fn rTerm__Add__Term__add(this, rhs)
//@@ ensures: ct(*this) && ct(rhs) ==> clean(ret.terms@), ct(*this) && ct(rhs) ==> forall|w: WF| #[trigger] lf(ret.terms@, w) == tf(*this, w) + tf(rhs, w)
//@ fn Term__Add__rTerm__add(this, rhs)
//@@ ensures: ct(this) && ct(*rhs) ==> clean(ret.terms@), ct(this) && ct(*rhs) ==> forall|w: WF| #[trigger] lf(ret.terms@, w) == tf(this, w) + tf(*rhs, w)
//@ fn Term__Add__add(this, rhs)
//@@ ensures: ct(this) && ct(rhs) ==> clean(ret.terms@), ct(this) && ct(rhs) ==> forall|w: WF| #[trigger] lf(ret.terms@, w) == tf(this, w) + tf(rhs, w)
//@ fn rPolynomial__Add__rTerm__add(this, rhs)
//@@ requires: clean(this.terms@), ct(*rhs)
//@@ ensures: clean(ret.terms@), forall|w: WF| #[trigger] lf(ret.terms@, w) == lf(this.terms@, w) + tf(*rhs, w)
//@@ hint start
let s = this.terms@;
if nzt(*rhs) {
    assert forall|i: int, u: Term| upd_term(s, i, u, *rhs) implies (nzt(u) ==> clean(#[trigger] s.update(i, u))) && (!nzt(u) ==> clean(s.update(i, u).remove(i))) by { add_update(s, i, u, *rhs); }
    assert forall|i: int, u: Term, w: WF| #![trigger s.update(i, u), tf(*rhs, w)] upd_term(s, i, u, *rhs) implies lf(s.update(i, u), w) == lf(s, w) + tf(*rhs, w) && (!nzt(u) ==> lf(s.update(i, u).remove(i), w) == lf(s, w) + tf(*rhs, w)) by { add_update(s, i, u, *rhs); }
    assert forall|i: int| 0 <= i < s.len() && tm(s[i]) == tm(*rhs) && s[i].coef.v() + rhs.coef.v() == 0real implies clean(#[trigger] s.remove(i)) && (forall|w: WF| #[trigger] lf(s.remove(i), w) == lf(s, w) + tf(*rhs, w)) by {
        let u = Term { coef: fzero(), mdeg: s[i].mdeg }; assert(upd_term(s, i, u, *rhs)); add_update(s, i, u, *rhs); assert(s.update(i, u).remove(i) =~= s.remove(i)); }
    if !occurs(s, tm(*rhs)) { add_push(s, *rhs); }
    assert forall|i: int| 0 <= i < s.len() implies (tm(#[trigger] s[i]) == tm(*rhs)) == (s[i].mdeg.0@ == rhs.mdeg.0@) by { term_eq(s[i], *rhs); }
}
//@ fn rPolynomial__Add__Term__add(this, rhs)
//@@ requires: clean(this.terms@), ct(rhs)
//@@ ensures: clean(ret.terms@), forall|w: WF| #[trigger] lf(ret.terms@, w) == lf(this.terms@, w) + tf(rhs, w)
//@ fn Polynomial__Add__rTerm__add(this, rhs)
//@@ requires: clean(this.terms@), ct(*rhs)
//@@ ensures: clean(ret.terms@), forall|w: WF| #[trigger] lf(ret.terms@, w) == lf(this.terms@, w) + tf(*rhs, w)
//@ fn Polynomial__Add__Term__add(this, rhs)
//@@ requires: clean(this.terms@), ct(rhs)
//@@ ensures: clean(ret.terms@), forall|w: WF| #[trigger] lf(ret.terms@, w) == lf(this.terms@, w) + tf(rhs, w)
//@ fn rTerm__Add__rPolynomial__add(this, rhs)
//@@ requires: ct(*this), clean(rhs.terms@)
//@@ ensures: clean(ret.terms@), forall|w: WF| #[trigger] lf(ret.terms@, w) == tf(*this, w) + lf(rhs.terms@, w)
//@ fn rTerm__Add__Polynomial__add(this, rhs)
//@@ requires: ct(*this), clean(rhs.terms@)
//@@ ensures: clean(ret.terms@), forall|w: WF| #[trigger] lf(ret.terms@, w) == tf(*this, w) + lf(rhs.terms@, w)
//@ fn Term__Add__rPolynomial__add(this, rhs)
//@@ requires: ct(this), clean(rhs.terms@)
//@@ ensures: clean(ret.terms@), forall|w: WF| #[trigger] lf(ret.terms@, w) == tf(this, w) + lf(rhs.terms@, w)
//@ fn Term__Add__Polynomial__add(this, rhs)
//@@ requires: ct(this), clean(rhs.terms@)
//@@ ensures: clean(ret.terms@), forall|w: WF| #[trigger] lf(ret.terms@, w) == tf(this, w) + lf(rhs.terms@, w)
//@ fn rPolynomial__Add__add(this, rhs)
//@@ requires: clean(this.terms@), clean(rhs.terms@)
//@@ ensures: clean(ret.terms@), forall|w: WF| #[trigger] lf(ret.terms@, w) == lf(this.terms@, w) + lf(rhs.terms@, w)
//@@ fold 1
|i, a| clean(a.terms@) && forall|w: WF| #[trigger] lf(a.terms@, w) == lf(this.terms@, w) + lft(rhs.terms@, i, w)
//@@ hint start
lft_all(rhs.terms@);
//@ fn rPolynomial__Add__Polynomial__add(this, rhs)
//@@ requires: clean(this.terms@), clean(rhs.terms@)
//@@ ensures: clean(ret.terms@), forall|w: WF| #[trigger] lf(ret.terms@, w) == lf(this.terms@, w) + lf(rhs.terms@, w)
//@ fn Polynomial__Add__rPolynomial__add(this, rhs)
//@@ requires: clean(this.terms@), clean(rhs.terms@)
//@@ ensures: clean(ret.terms@), forall|w: WF| #[trigger] lf(ret.terms@, w) == lf(this.terms@, w) + lf(rhs.terms@, w)
//@ fn Polynomial__Add__add(this, rhs)
//@@ requires: clean(this.terms@), clean(rhs.terms@)
//@@ ensures: clean(ret.terms@), forall|w: WF| #[trigger] lf(ret.terms@, w) == lf(this.terms@, w) + lf(rhs.terms@, w)
//@ fn rTerm__Sub__sub(this, rhs)
//@@ ensures: ct(*this) && ct(*rhs) ==> clean(ret.terms@), ct(*this) && ct(*rhs) ==> forall|w: WF| #[trigger] lf(ret.terms@, w) == tf(*this, w) - tf(*rhs, w)
//@@ hint start
neg_all(*rhs);
//@ fn rTerm__Sub__Term__sub(this, rhs)
//@@ ensures: ct(*this) && ct(rhs) ==> clean(ret.terms@), ct(*this) && ct(rhs) ==> forall|w: WF| #[trigger] lf(ret.terms@, w) == tf(*this, w) - tf(rhs, w)
//@ fn Term__Sub__rTerm__sub(this, rhs)
//@@ ensures: ct(this) && ct(*rhs) ==> clean(ret.terms@), ct(this) && ct(*rhs) ==> forall|w: WF| #[trigger] lf(ret.terms@, w) == tf(this, w) - tf(*rhs, w)
//@ fn Term__Sub__sub(this, rhs)
//@@ ensures: ct(this) && ct(rhs) ==> clean(ret.terms@), ct(this) && ct(rhs) ==> forall|w: WF| #[trigger] lf(ret.terms@, w) == tf(this, w) - tf(rhs, w)
//@ fn rPolynomial__Sub__rTerm__sub(this, rhs)
//@@ requires: clean(this.terms@), ct(*rhs)
//@@ ensures: clean(ret.terms@), forall|w: WF| #[trigger] lf(ret.terms@, w) == lf(this.terms@, w) - tf(*rhs, w)
//@@ hint start
neg_all(*rhs);
//@ fn rPolynomial__Sub__Term__sub(this, rhs)
//@@ requires: clean(this.terms@), ct(rhs)
//@@ ensures: clean(ret.terms@), forall|w: WF| #[trigger] lf(ret.terms@, w) == lf(this.terms@, w) - tf(rhs, w)
//@ fn Polynomial__Sub__rTerm__sub(this, rhs)
//@@ requires: clean(this.terms@), ct(*rhs)
//@@ ensures: clean(ret.terms@), forall|w: WF| #[trigger] lf(ret.terms@, w) == lf(this.terms@, w) - tf(*rhs, w)
//@ fn Polynomial__Sub__Term__sub(this, rhs)
//@@ requires: clean(this.terms@), ct(rhs)
//@@ ensures: clean(ret.terms@), forall|w: WF| #[trigger] lf(ret.terms@, w) == lf(this.terms@, w) - tf(rhs, w)
//@ fn rTerm__Sub__rPolynomial__sub(this, rhs)
//@@ requires: ct(*this), clean(rhs.terms@)
//@@ ensures: clean(ret.terms@), forall|w: WF| #[trigger] lf(ret.terms@, w) == tf(*this, w) - lf(rhs.terms@, w)
//@ fn rTerm__Sub__Polynomial__sub(this, rhs)
//@@ requires: ct(*this), clean(rhs.terms@)
//@@ ensures: clean(ret.terms@), forall|w: WF| #[trigger] lf(ret.terms@, w) == tf(*this, w) - lf(rhs.terms@, w)
//@ fn Term__Sub__rPolynomial__sub(this, rhs)
//@@ requires: ct(this), clean(rhs.terms@)
//@@ ensures: clean(ret.terms@), forall|w: WF| #[trigger] lf(ret.terms@, w) == tf(this, w) - lf(rhs.terms@, w)
//@ fn Term__Sub__Polynomial__sub(this, rhs)
//@@ requires: ct(this), clean(rhs.terms@)
//@@ ensures: clean(ret.terms@), forall|w: WF| #[trigger] lf(ret.terms@, w) == tf(this, w) - lf(rhs.terms@, w)
//@ fn rPolynomial__Sub__sub(this, rhs)
//@@ requires: clean(this.terms@), clean(rhs.terms@)
//@@ ensures: clean(ret.terms@), forall|w: WF| #[trigger] lf(ret.terms@, w) == lf(this.terms@, w) - lf(rhs.terms@, w)
//@ fn rPolynomial__Sub__Polynomial__sub(this, rhs)
//@@ requires: clean(this.terms@), clean(rhs.terms@)
//@@ ensures: clean(ret.terms@), forall|w: WF| #[trigger] lf(ret.terms@, w) == lf(this.terms@, w) - lf(rhs.terms@, w)
//@ fn Polynomial__Sub__rPolynomial__sub(this, rhs)
//@@ requires: clean(this.terms@), clean(rhs.terms@)
//@@ ensures: clean(ret.terms@), forall|w: WF| #[trigger] lf(ret.terms@, w) == lf(this.terms@, w) - lf(rhs.terms@, w)
//@ fn Polynomial__Sub__sub(this, rhs)
//@@ requires: clean(this.terms@), clean(rhs.terms@)
//@@ ensures: clean(ret.terms@), forall|w: WF| #[trigger] lf(ret.terms@, w) == lf(this.terms@, w) - lf(rhs.terms@, w)
//@ fn Polynomial__Neg__neg(this)
//@@ ensures: clean(this.terms@) ==> clean(ret.terms@), forall|w: WF| #[trigger] lf(ret.terms@, w) == -lf(this.terms@, w)
//@@ hint start
let s = this.terms@;
assert forall|t: Seq<Term>| neg_of(t, s) && clean(s) implies #[trigger] clean(t) by { neg_ok(t, s); }
assert forall|t: Seq<Term>, w: WF| neg_of(t, s) implies #[trigger] lf(t, w) == -lf(s, w) by { neg_ok(t, s); }
//@@ loop 1 invariant
forall|k: int| #![trigger $s[k]] 0 <= k < $i ==> neg_term(*final($s[k]), *$s[k])
//@ fn Polynomial__Mul__F__mul(this, rhs)
//@@ requires: clean(this.terms@)
//@@ ensures: clean(ret.terms@), forall|w: WF| #[trigger] lf(ret.terms@, w) == mu(rhs.v(), lf(this.terms@, w))
//@@ hint start
assert forall|w: WF| #[trigger] shw(Seq::empty(), w) == w by { shw_zero(w); }
//@ fn Polynomial__Div__F__div(this, rhs)
//@@ requires: clean(this.terms@), rhs.v() != 0real
//@@ ensures: clean(ret.terms@), forall|w: WF| #[trigger] lf(ret.terms@, w) == mu(1real / rhs.v(), lf(this.terms@, w))
//@@ hint start
assert forall|w: WF| #[trigger] shw(Seq::empty(), w) == w by { shw_zero(w); }
//@ fn rPolynomial__Neg__neg(this)
//@@ ensures: clean(this.terms@) ==> clean(ret.terms@), forall|w: WF| #[trigger] lf(ret.terms@, w) == -lf(this.terms@, w)
//@@ hint start
let s = this.terms@;
assert forall|t: Seq<Term>| neg_of(t, s) && clean(s) implies #[trigger] clean(t) by { neg_ok(t, s); }
assert forall|t: Seq<Term>, w: WF| neg_of(t, s) implies #[trigger] lf(t, w) == -lf(s, w) by { neg_ok(t, s); }
//@ fn rPolynomial__Mul__F__mul(this, rhs)
//@@ requires: clean(this.terms@)
//@@ ensures: clean(ret.terms@), forall|w: WF| #[trigger] lf(ret.terms@, w) == mu(rhs.v(), lf(this.terms@, w))
//@@ hint start
assert forall|w: WF| #[trigger] shw(Seq::empty(), w) == w by { shw_zero(w); }
//@ fn rPolynomial__Div__F__div(this, rhs)
//@@ requires: clean(this.terms@), rhs.v() != 0real
//@@ ensures: clean(ret.terms@), forall|w: WF| #[trigger] lf(ret.terms@, w) == mu(1real / rhs.v(), lf(this.terms@, w))
//@@ hint start
assert forall|w: WF| #[trigger] shw(Seq::empty(), w) == w by { shw_zero(w); }
//@ fn rPolynomial__Mul__rTerm__mul(this, rhs)
//@@ requires: clean(this.terms@), ct(*rhs)
//@@ ensures: clean(ret.terms@), forall|w: WF| #[trigger] lf(ret.terms@, w) == mu(rhs.coef.v(), lf(this.terms@, shw(tm(*rhs), w)))
//@@ hint start
let s = this.terms@;
if nzt(*rhs) {
    assert forall|t: Seq<Term>| scaled_of(t, s, rhs.coef.v(), tm(*rhs)) implies #[trigger] clean(t) by { scaled_ok(t, s, rhs.coef.v(), *rhs); }
    assert forall|t: Seq<Term>, w: WF| scaled_of(t, s, rhs.coef.v(), tm(*rhs)) implies #[trigger] lf(t, w) == mu(rhs.coef.v(), lf(s, shw(tm(*rhs), w))) by { scaled_ok(t, s, rhs.coef.v(), *rhs); }
    assert forall|i: int| 0 <= i < s.len() implies madd(tm(#[trigger] s[i]), tm(*rhs)) == madd(tm(*rhs), tm(s[i])) by { madd_comm(tm(s[i]), tm(*rhs)); }
}
//@ fn rPolynomial__Mul__Term__mul(this, rhs)
//@@ requires: clean(this.terms@), ct(rhs)
//@@ ensures: clean(ret.terms@), forall|w: WF| #[trigger] lf(ret.terms@, w) == mu(rhs.coef.v(), lf(this.terms@, shw(tm(rhs), w)))
//@ fn Polynomial__Mul__rTerm__mul(this, rhs)
//@@ requires: clean(this.terms@), ct(*rhs)
//@@ ensures: clean(ret.terms@), forall|w: WF| #[trigger] lf(ret.terms@, w) == mu(rhs.coef.v(), lf(this.terms@, shw(tm(*rhs), w)))
//@ fn Polynomial__Mul__Term__mul(this, rhs)
//@@ requires: clean(this.terms@), ct(rhs)
//@@ ensures: clean(ret.terms@), forall|w: WF| #[trigger] lf(ret.terms@, w) == mu(rhs.coef.v(), lf(this.terms@, shw(tm(rhs), w)))
//@ fn rTerm__Mul__rPolynomial__mul(this, rhs)
//@@ requires: ct(*this), clean(rhs.terms@)
//@@ ensures: clean(ret.terms@), forall|w: WF| #[trigger] lf(ret.terms@, w) == mu(this.coef.v(), lf(rhs.terms@, shw(tm(*this), w)))
//@ fn rTerm__Mul__Polynomial__mul(this, rhs)
//@@ requires: ct(*this), clean(rhs.terms@)
//@@ ensures: clean(ret.terms@), forall|w: WF| #[trigger] lf(ret.terms@, w) == mu(this.coef.v(), lf(rhs.terms@, shw(tm(*this), w)))
//@ fn Term__Mul__rPolynomial__mul(this, rhs)
//@@ requires: ct(this), clean(rhs.terms@)
//@@ ensures: clean(ret.terms@), forall|w: WF| #[trigger] lf(ret.terms@, w) == mu(this.coef.v(), lf(rhs.terms@, shw(tm(this), w)))
//@ fn Term__Mul__Polynomial__mul(this, rhs)
//@@ requires: ct(this), clean(rhs.terms@)
//@@ ensures: clean(ret.terms@), forall|w: WF| #[trigger] lf(ret.terms@, w) == mu(this.coef.v(), lf(rhs.terms@, shw(tm(this), w)))
//@ fn rPolynomial__Mul__mul(this, rhs)
//@@ requires: clean(this.terms@), clean(rhs.terms@)
//@@ ensures: clean(ret.terms@), forall|w: WF| #[trigger] lf(ret.terms@, w) == lf(this.terms@, cvw(rhs.terms@, w))
//@@ fold 1
|i, a| clean(a.terms@) && forall|w: WF| #[trigger] lf(a.terms@, w) == lft(this.terms@, i, cvw(rhs.terms@, w))
//@@ hint start
lft_all(this.terms@);
assert forall|w: WF| #[trigger] cvw(rhs.terms@, w) == cvw(rhs.terms@, w) && this.terms@.len() > 0 implies lft(this.terms@, 1, cvw(rhs.terms@, w)) == lft(this.terms@, 0, cvw(rhs.terms@, w)) + tf(this.terms@[0], cvw(rhs.terms@, w)) by { lf_take(this.terms@, 0, cvw(rhs.terms@, w)); }
//@ fn rPolynomial__Mul__Polynomial__mul(this, rhs)
//@@ requires: clean(this.terms@), clean(rhs.terms@)
//@@ ensures: clean(ret.terms@), forall|w: WF| #[trigger] lf(ret.terms@, w) == lf(this.terms@, cvw(rhs.terms@, w))
//@ fn Polynomial__Mul__rPolynomial__mul(this, rhs)
//@@ requires: clean(this.terms@), clean(rhs.terms@)
//@@ ensures: clean(ret.terms@), forall|w: WF| #[trigger] lf(ret.terms@, w) == lf(this.terms@, cvw(rhs.terms@, w))
//@ fn Polynomial__Mul__mul(this, rhs)
//@@ requires: clean(this.terms@), clean(rhs.terms@)
//@@ ensures: clean(ret.terms@), forall|w: WF| #[trigger] lf(ret.terms@, w) == lf(this.terms@, cvw(rhs.terms@, w))
