//@ raw
// ---------- the pairs of distinct positions
pub open spec fn is_pairs(s: Seq<(usize, usize)>, m: int) -> bool {
    &&& forall|k: int| 0 <= k < s.len() ==> (#[trigger] s[k]).0 < m && s[k].1 < m && s[k].0 != s[k].1
    &&& forall|i: usize, j: usize| i < m && j < m && i != j ==> #[trigger] s.contains((i, j))
}
pub proof fn filter_in<T>(s: Seq<T>, p: spec_fn(T) -> bool) ensures forall|k: int| 0 <= k < s.filter(p).len() ==> p(#[trigger] s.filter(p)[k]) && s.contains(s.filter(p)[k]), forall|i: int| 0 <= i < s.len() && p(#[trigger] s[i]) ==> s.filter(p).contains(s[i]) decreases s.len()
{
    reveal(Seq::filter);
    let f = s.filter(p);
    if s.len() > 0 {
        let d = s.drop_last(); filter_in(d, p); let q = d.filter(p); let l = s.len() - 1;
        assert(f == if p(s.last()) { q.push(s.last()) } else { q });
        assert forall|k: int| 0 <= k < f.len() implies p(#[trigger] f[k]) && s.contains(f[k]) by {
            if k < q.len() { assert(f[k] == q[k]); assert(d.contains(q[k])); let j = choose|j: int| 0 <= j < d.len() && d[j] == q[k]; assert(s[j] == q[k]); } else { assert(s[l] == f[k]); } }
        assert forall|i: int| 0 <= i < s.len() && p(#[trigger] s[i]) implies f.contains(s[i]) by {
            if i < l { assert(d[i] == s[i]); assert(q.contains(d[i])); let j = choose|j: int| 0 <= j < q.len() && q[j] == s[i]; assert(f[j] == s[i]); } else { assert(f[q.len() as int] == s[i]); } }
    }
}
pub open spec fn is_neq(p: spec_fn((usize, usize)) -> bool) -> bool { forall|x: (usize, usize)| #[trigger] p(x) == (x.0 != x.1) }
pub proof fn pairs_ok(m: usize) ensures forall|p: spec_fn((usize, usize)) -> bool| is_neq(p) ==> is_pairs(#[trigger] cart(urange(0, m), urange(0, m)).filter(p), m as int)
{
    assert forall|p: spec_fn((usize, usize)) -> bool| is_neq(p) implies is_pairs(#[trigger] cart(urange(0, m), urange(0, m)).filter(p), m as int) by {
        let a = urange(0, m); let c = cart(a, a); let f = c.filter(p); filter_in(c, p); let n = m as int;
        assert forall|k: int| 0 <= k < c.len() implies (#[trigger] c[k]).0 < m && c[k].1 < m by {
            assert(n > 0) by { if n == 0 { assert(n * n == 0); } } assert(0 <= k / n) by(nonlinear_arith) requires 0 <= k, n > 0; assert(k / n < n) by(nonlinear_arith) requires 0 <= k < n * n, n > 0; assert(0 <= k % n < n) by(nonlinear_arith) requires n > 0; assert(a[k / n] == k / n && a[k % n] == k % n); }
        assert forall|k: int| 0 <= k < f.len() implies (#[trigger] f[k]).0 < m && f[k].1 < m && f[k].0 != f[k].1 by { assert(p(f[k])); let j = choose|j: int| 0 <= j < c.len() && c[j] == f[k]; assert(c[j].0 < m); }
        assert forall|i: usize, j: usize| i < m && j < m && i != j implies #[trigger] f.contains((i, j)) by {
            let k = i * n + j;
            assert(0 <= k < n * n && k / n == i && k % n == j) by(nonlinear_arith) requires 0 <= i < n, 0 <= j < n, k == i * n + j;
            assert(c[k] == (a[k / n], a[k % n])); assert(c[k] == (i, j)); assert(p(c[k]));
        }
    }
}
// all of them, equal positions not excluded
pub open spec fn has_pairs(s: Seq<(usize, usize)>, m: int) -> bool {
    &&& forall|k: int| 0 <= k < s.len() ==> (#[trigger] s[k]).0 < m && s[k].1 < m
    &&& forall|i: usize, j: usize| i < m && j < m && i != j ==> #[trigger] s.contains((i, j))
}
pub proof fn cart_pairs(m: usize) ensures has_pairs(cart(urange(0, m), urange(0, m)), m as int), forall|p: spec_fn((usize, usize)) -> bool| is_neq(p) ==> has_pairs(#[trigger] cart(urange(0, m), urange(0, m)).filter(p), m as int)
{
    let a = urange(0, m); let c = cart(a, a); let n = m as int;
    assert forall|k: int| 0 <= k < c.len() implies (#[trigger] c[k]).0 < m && c[k].1 < m by {
        assert(n > 0) by { if n == 0 { assert(n * n == 0); } } assert(0 <= k / n) by(nonlinear_arith) requires 0 <= k, n > 0; assert(k / n < n) by(nonlinear_arith) requires 0 <= k < n * n, n > 0; assert(0 <= k % n < n) by(nonlinear_arith) requires n > 0; assert(a[k / n] == k / n && a[k % n] == k % n); }
    assert forall|i: usize, j: usize| i < m && j < m && i != j implies #[trigger] c.contains((i, j)) by {
        let k = i * n + j;
        assert(0 <= k < n * n && k / n == i && k % n == j) by(nonlinear_arith) requires 0 <= i < n, 0 <= j < n, k == i * n + j;
        assert(c[k] == (a[k / n], a[k % n])); assert(c[k] == (i, j));
    }
    pairs_ok(m);
    assert forall|p: spec_fn((usize, usize)) -> bool| is_neq(p) implies has_pairs(#[trigger] cart(urange(0, m), urange(0, m)).filter(p), m as int) by { assert(is_pairs(c.filter(p), n)); }
}
pub open spec fn pairs_done(g: Seq<Polynomial>, n: int, s: Seq<(usize, usize)>, c: int) -> bool { forall|k: int| 0 <= k < c ==> (#[trigger] s[k]).0 == s[k].1 || spair(g, n, s[k].0 as int, s[k].1 as int) }
pub proof fn all_done(g: Seq<Polynomial>, n: int, s: Seq<(usize, usize)>) requires gens(g, n), has_pairs(s, g.len() as int), pairs_done(g, n, s, s.len() as int), g.len() <= usize::MAX, ensures is_gb(g, n)
{
    assert forall|i: int, j: int| 0 <= i < g.len() && 0 <= j < g.len() && i != j implies #[trigger] spair(g, n, i, j) by {
        let x = (i as usize, j as usize); assert(s.contains(x)); let k = choose|k: int| 0 <= k < s.len() && s[k] == x; assert(spair(g, n, s[k].0 as int, s[k].1 as int)); }
    buchberger(g, n);
}
// what a division of an S-polynomial says
pub proof fn spol_div(g: Seq<Polynomial>)
    ensures forall|n: int, i: int, j: int, h: Seq<Term>, q: Seq<Polynomial>, r: Seq<Term>| #![trigger gens(g, n), is_spol(h, g[i].terms@, g[j].terms@), divinv(h, g, q, r, Seq::empty())]
        gens(g, n) && 0 <= i < g.len() && 0 <= j < g.len() && clean(h) && is_spol(h, g[i].terms@, g[j].terms@) && below(h, slcm(g[i].terms@, g[j].terms@)) && divinv(h, g, q, r, Seq::empty()) && divbox(h, g, q, r, Seq::empty())
        ==> (if r.len() == 0 { spair(g, n, i, j) } else { !is_gb(g, n) })
{
    assert forall|n: int, i: int, j: int, h: Seq<Term>, q: Seq<Polynomial>, r: Seq<Term>| #![trigger gens(g, n), is_spol(h, g[i].terms@, g[j].terms@), divinv(h, g, q, r, Seq::empty())]
        gens(g, n) && 0 <= i < g.len() && 0 <= j < g.len() && clean(h) && is_spol(h, g[i].terms@, g[j].terms@) && below(h, slcm(g[i].terms@, g[j].terms@)) && divinv(h, g, q, r, Seq::empty()) && divbox(h, g, q, r, Seq::empty())
        implies (if r.len() == 0 { spair(g, n, i, j) } else { !is_gb(g, n) }) by { rem_not_gb(g, n, i, j, h, q, r); if r.len() == 0 { zero_pair(g, n, i, j, h, q, r); } }
}
pub proof fn gnz_cleans(g: Seq<Polynomial>) requires gnz(g), ensures cleans(g) { }
//@ fn Computer__buchberger_criterion(generators)
//@@ requires: gnz(generators@)
//@@ ensures: forall|n: int| #[trigger] gens(generators@, n) ==> ret == is_gb(generators@, n)
//@@ loop 1 invariant: has_pairs($s, generators@.len() as int), forall|n: int| #[trigger] gens(generators@, n) ==> pairs_done(generators@, n, $s, $i)
//@@ hint start
cart_pairs(generators@.len() as usize); spol_div(generators@); gnz_cleans(generators@);
//@@ hint loop 1 after
assert forall|n: int| #[trigger] gens(generators@, n) implies is_gb(generators@, n) by { all_done(generators@, n, $s); }
//@ raw
// ---------- extending the generators
pub proof fn scaled_same(r: Seq<Term>, t: Seq<Term>, c: real) requires clean(r), clean(t), c != 0real, forall|w: WF| #[trigger] lf(t, w) == mu(c, lf(r, w)),
    ensures (t.len() == 0) == (r.len() == 0), r.len() > 0 ==> lm(t) == lm(r) && lc(t) == mu(c, lc(r)), forall|m: Seq<int>| #[trigger] occurs(t, m) == occurs(r, m), forall|n: int| #[trigger] boxed(r, n) == boxed(t, n)
{
    assert forall|i: int| 0 <= i < t.len() implies occurs(r, tm(#[trigger] t[i])) by { let m = tm(t[i]); assert(nzt(t[i])); cf_at(t, i); if !occurs(r, m) { cf_absent(r, m); assert(lf(t, ind(m)) == mu(c, lf(r, ind(m)))); assert(c * 0real == 0real) by(nonlinear_arith); } }
    assert forall|i: int| 0 <= i < r.len() implies occurs(t, tm(#[trigger] r[i])) by { let m = tm(r[i]); assert(nzt(r[i])); cf_at(r, i); if !occurs(t, m) { cf_absent(t, m); assert(lf(t, ind(m)) == mu(c, lf(r, ind(m)))); let v = r[i].coef.v(); assert(c * v != 0real) by(nonlinear_arith) requires c != 0real, v != 0real; } }
    assert forall|m: Seq<int>| #[trigger] occurs(t, m) == occurs(r, m) by {
        if occurs(t, m) { let k = choose|k: int| 0 <= k < t.len() && tm(#[trigger] t[k]) == m; assert(occurs(r, tm(t[k]))); }
        if occurs(r, m) { let k = choose|k: int| 0 <= k < r.len() && tm(#[trigger] r[k]) == m; assert(occurs(t, tm(r[k]))); } }
    if r.len() > 0 { assert(occurs(t, tm(r[0]))); }
    if t.len() > 0 { assert(occurs(r, tm(t[0]))); }
    if r.len() > 0 {
        lt_ok(r); lt_ok(t); let (x, y) = (lm(r), lm(t));
        assert(occurs(t, x)); assert(occurs(r, y)); let k = choose|k: int| 0 <= k < t.len() && tm(#[trigger] t[k]) == x; let l = choose|k: int| 0 <= k < r.len() && tm(#[trigger] r[k]) == y;
        if x != y { assert(olt(tm(t[k]), y)); assert(olt(tm(r[l]), x)); ord_total(x, y); }
        assert(lf(t, ind(x)) == mu(c, lf(r, ind(x)))); assert(cf(t, x) == lc(t)); assert(cf(r, x) == lc(r));
    }
    assert forall|n: int| #[trigger] boxed(r, n) == boxed(t, n) by {
        if boxed(r, n) { assert forall|i: int| 0 <= i < t.len() implies tm(#[trigger] t[i]).len() <= n by { assert(occurs(r, tm(t[i]))); let k = choose|k: int| 0 <= k < r.len() && tm(#[trigger] r[k]) == tm(t[i]); assert(tm(r[k]).len() <= n); } }
        if boxed(t, n) { assert forall|i: int| 0 <= i < r.len() implies tm(#[trigger] r[i]).len() <= n by { assert(occurs(t, tm(r[i]))); let k = choose|k: int| 0 <= k < t.len() && tm(#[trigger] t[k]) == tm(r[i]); assert(tm(t[k]).len() <= n); } }
    }
}
pub open spec fn extinv(g0: Seq<Polynomial>, g: Seq<Polynomial>, n: int) -> bool { gens(g, n) && sub_ideal(g, g0, n) && sub_ideal(g0, g, n) }
pub open spec fn lower(g: Seq<Polynomial>, n: int, c: int) -> bool { forall|a: int, b: int| 0 <= b < a < c ==> #[trigger] spair(g, n, a, b) }
pub open spec fn row(g: Seq<Polynomial>, n: int, a: int, c: int) -> bool { forall|b: int| 0 <= b < c ==> #[trigger] spair(g, n, a, b) }
// the monomials of the box that no leading monomial divides
pub open spec fn free(g: Seq<Polynomial>, n: int) -> nat { cnt(lst(n), |m: Seq<int>| !covers(g, m)) }
pub open spec fn is_rem(g: Seq<Polynomial>, n: int, r: Seq<Term>) -> bool { gens(g, n) && clean(r) && redu(r, g) && boxed(r, n) && in_ideal(g, n, ap(r)) }
pub open spec fn is_quo(t: Seq<Term>, r: Seq<Term>, c: real) -> bool { clean(t) && c != 0real && forall|w: WF| #[trigger] lf(t, w) == mu(c, lf(r, w)) }
pub proof fn ext_push(g0: Seq<Polynomial>, g: Seq<Polynomial>, n: int, r: Seq<Term>, t: Polynomial, c: real)
    requires extinv(g0, g, n), is_rem(g, n, r), r.len() > 0, is_quo(t.terms@, r, c),
    ensures extinv(g0, g.push(t), n), free(g.push(t), n) < free(g, n)
{
    let h = g.push(t); let s = t.terms@; scaled_same(r, s, c); let l = g.len() as int;
    assert forall|k: int| 0 <= k < h.len() implies clean(#[trigger] h[k].terms@) && h[k].terms@.len() > 0 && boxed(h[k].terms@, n) by { if k < l { assert(h[k] == g[k]); gen_lm(g, n, k); } else { assert(h[k] == t); assert(boxed(r, n)); } }
    zero_nn(n); ideal_mul(g, n, ap(r), c, Seq::empty());
    assert forall|w: WF| #[trigger] pf(ap(s), w) == pf(psc(ap(r), c, Seq::empty()), w) by { ap_ok(s, w); ap_ok(r, w); psc_ok(ap(r), c, Seq::empty(), w); shw_zero(w); assert(lf(s, w) == mu(c, lf(r, w))); }
    ideal_eq(g, n, psc(ap(r), c, Seq::empty()), ap(s));
    assert(sub_ideal(h, g, n)) by { assert forall|k: int| 0 <= k < h.len() implies in_ideal(g, n, ap(#[trigger] h[k].terms@)) by { if k < l { assert(h[k] == g[k]); ideal_elem(g, n, k); } } }
    assert(sub_ideal(g, h, n)) by { assert forall|k: int| 0 <= k < g.len() implies in_ideal(h, n, ap(#[trigger] g[k].terms@)) by { assert(h[k] == g[k]); ideal_elem(h, n, k); } }
    sub_trans(h, g, g0, n); sub_trans(g0, g, h, n);
    let m = lm(r); lt_ok(r); lm_bx(r, n); lst_has(n, m);
    let p = |m: Seq<int>| !covers(g, m); let q = |m: Seq<int>| !covers(h, m);
    assert forall|m: Seq<int>| #[trigger] q(m) implies p(m) by { if covers(g, m) { let k = choose|k: int| 0 <= k < g.len() && mdvd(lm(#[trigger] g[k].terms@), m); assert(h[k] == g[k]); assert(mdvd(lm(h[k].terms@), m)); } }
    assert(!q(m)) by { assert(h[l] == t); assert(mdvd(lm(h[l].terms@), m)); }
    assert(p(m)) by { if covers(g, m) { let k = choose|k: int| 0 <= k < g.len() && mdvd(lm(#[trigger] g[k].terms@), m); let i = choose|i: int| 0 <= i < r.len() && tm(#[trigger] r[i]) == m; assert(indiv(tm(r[i]), g, g.len() as int)); gen_lm(g, n, k); } }
    cnt_lt(lst(n), q, p, m);
}
pub proof fn lower_gb(g: Seq<Polynomial>, n: int) requires gens(g, n), lower(g, n, g.len() as int), ensures is_gb(g, n)
{ assert forall|i: int, j: int| 0 <= i < g.len() && 0 <= j < g.len() && i != j implies #[trigger] spair(g, n, i, j) by { if i < j { assert(spair(g, n, j, i)); pair_swap(g, n, j, i); } } buchberger(g, n); }
// as spol_div, with what a remainder is
pub proof fn spol_rem(g: Seq<Polynomial>)
    ensures forall|n: int, i: int, j: int, h: Seq<Term>, q: Seq<Polynomial>, r: Seq<Term>| #![trigger gens(g, n), is_spol(h, g[i].terms@, g[j].terms@), divinv(h, g, q, r, Seq::empty())]
        gens(g, n) && 0 <= i < g.len() && 0 <= j < g.len() && clean(h) && is_spol(h, g[i].terms@, g[j].terms@) && below(h, slcm(g[i].terms@, g[j].terms@)) && divinv(h, g, q, r, Seq::empty()) && divbox(h, g, q, r, Seq::empty())
        ==> is_rem(g, n, r) && (r.len() == 0 ==> spair(g, n, i, j))
{
    assert forall|n: int, i: int, j: int, h: Seq<Term>, q: Seq<Polynomial>, r: Seq<Term>| #![trigger gens(g, n), is_spol(h, g[i].terms@, g[j].terms@), divinv(h, g, q, r, Seq::empty())]
        gens(g, n) && 0 <= i < g.len() && 0 <= j < g.len() && clean(h) && is_spol(h, g[i].terms@, g[j].terms@) && below(h, slcm(g[i].terms@, g[j].terms@)) && divinv(h, g, q, r, Seq::empty()) && divbox(h, g, q, r, Seq::empty())
        implies is_rem(g, n, r) && (r.len() == 0 ==> spair(g, n, i, j)) by { rem_not_gb(g, n, i, j, h, q, r); if r.len() == 0 { zero_pair(g, n, i, j, h, q, r); } }
}
//@ fn Computer__buchberger_extend(generators)
//@@ requires: gnz(old(generators)@)
//@@ ensures: gnz(final(generators)@), forall|n: int| #[trigger] gens(old(generators)@, n) ==> basis_of(final(generators)@, old(generators)@, n)
//@@ loop 1 invariant: gnz(generators@), i <= generators@.len(), gens(g0, n0), forall|n: int| #[trigger] gens(g0, n) ==> extinv(g0, generators@, n), forall|n: int| #[trigger] gens(generators@, n) ==> lower(generators@, n, i as int)
//@@ loop 1 decreases free(generators@, n0), generators@.len() - i
//@@ hint start
!let ghost g0 = generators@; let ghost n0 = plen(g0);
//@@ hint start
plen_ok(g0); assert forall|n: int| #[trigger] gens(g0, n) implies extinv(g0, g0, n) by { sub_refl(g0, n); }
//@@ hint loop 1 start
!let ghost gs = generators@;
//@@ hint loop 1 start
gnz_cleans(gs); spol_rem(gs);
//@@ loop 2 invariant: generators@ == gs, i == $hi, forall|n: int| #[trigger] gens(gs, n) ==> row(gs, n, i as int, $i as int)
//@@ hint loop 2 leave
let t = generators@[gs.len() as int]; assert(generators@ =~= gs.push(t)); lt_ok(r.terms@); assert(is_lt(r.terms@, ltt(r.terms@)));
let c = 1real / lc(r.terms@); assert(c != 0real) by(nonlinear_arith) requires c == 1real / lc(r.terms@), lc(r.terms@) != 0real;
assert forall|n: int| #[trigger] gens(g0, n) implies extinv(g0, generators@, n) && free(generators@, n) < free(gs, n) by { assert(extinv(g0, gs, n)); assert(gens(gs, n)); ext_push(g0, gs, n, r.terms@, t, c); }
assert(gnz(generators@)) by { assert(extinv(g0, generators@, n0)); assert(gens(generators@, n0)); }
//@@ hint loop 1 after
assert forall|n: int| #[trigger] gens(g0, n) implies basis_of(generators@, g0, n) by { assert(extinv(g0, generators@, n)); lower_gb(generators@, n); }
//@ raw
// ---------- removing redundant elements
pub open spec fn minim(g: Seq<Polynomial>) -> bool { forall|i: int, j: int| 0 <= i < g.len() && 0 <= j < g.len() && i != j ==> !mdvd(lm((#[trigger] g[j]).terms@), lm((#[trigger] g[i]).terms@)) }
pub open spec fn minpair(g: Seq<Polynomial>, i: int, j: int) -> bool { !mdvd(lm(g[j].terms@), lm(g[i].terms@)) }
pub open spec fn minpairs(g: Seq<Polynomial>, s: Seq<(usize, usize)>, c: int) -> bool { forall|k: int| 0 <= k < c ==> minpair(g, (#[trigger] s[k]).0 as int, s[k].1 as int) }
pub proof fn all_min(g: Seq<Polynomial>, s: Seq<(usize, usize)>) requires is_pairs(s, g.len() as int), minpairs(g, s, s.len() as int), g.len() <= usize::MAX, ensures minim(g)
{
    assert forall|i: int, j: int| 0 <= i < g.len() && 0 <= j < g.len() && i != j implies !mdvd(lm((#[trigger] g[j]).terms@), lm((#[trigger] g[i]).terms@)) by {
        let x = (i as usize, j as usize); assert(s.contains(x)); let k = choose|k: int| 0 <= k < s.len() && s[k] == x; assert(minpair(g, s[k].0 as int, s[k].1 as int)); }
}
pub proof fn rem_at(g: Seq<Polynomial>, i: int) requires 0 <= i < g.len(), ensures g.remove(i).len() == g.len() - 1, forall|k: int| 0 <= k < g.len() - 1 ==> #[trigger] g.remove(i)[k] == g[if k < i { k } else { k + 1 }] { g.remove_ensures(i); }
pub proof fn drop_gb(g: Seq<Polynomial>, i: int, j: int)
    requires gnz(g), 0 <= i < g.len(), 0 <= j < g.len(), i != j, mdvd(lm(g[j].terms@), lm(g[i].terms@)),
    ensures gnz(g.remove(i)), forall|n: int| gens(g, n) && is_gb(g, n) ==> #[trigger] basis_of(g.remove(i), g, n)
{
    let h = g.remove(i); rem_at(g, i);
    assert forall|k: int| 0 <= k < h.len() implies clean(#[trigger] h[k].terms@) && h[k].terms@.len() > 0 by { let l = if k < i { k } else { k + 1 }; assert(h[k] == g[l]); assert(clean(g[l].terms@)); }
    assert forall|n: int| gens(g, n) && is_gb(g, n) implies #[trigger] basis_of(h, g, n) by {
        assert forall|k: int| 0 <= k < h.len() implies boxed(#[trigger] h[k].terms@, n) by { let l = if k < i { k } else { k + 1 }; assert(h[k] == g[l]); assert(boxed(g[l].terms@, n)); }
        assert forall|k: int| 0 <= k < h.len() implies in_ideal(g, n, ap(#[trigger] h[k].terms@)) by { let l = if k < i { k } else { k + 1 }; assert(h[k] == g[l]); ideal_elem(g, n, l); }
        assert forall|p: AP, m: Seq<int>| #![trigger lead(p, m)] pmon(p, n) && in_ideal(g, n, p) && lead(p, m) implies covers(h, m) by {
            assert(covers(g, m)); let k0 = choose|k: int| 0 <= k < g.len() && mdvd(lm(#[trigger] g[k].terms@), m);
            let k = if k0 == i { j } else { k0 };
            assert(mdvd(lm(g[k].terms@), m)) by { if k0 == i { let (a, b) = (lm(g[j].terms@), lm(g[i].terms@)); assert forall|x: int| #[trigger] ex(a, x) <= ex(m, x) by { assert(ex(a, x) <= ex(b, x)); assert(ex(b, x) <= ex(m, x)); } } }
            let l = if k < i { k } else { k - 1 }; assert(h[l] == g[k]); assert(mdvd(lm(h[l].terms@), m)); }
        cover_gb(g, h, n);
    }
}
//@ fn Computer__buchberger_minimize(generators)
//@@ requires: gnz(old(generators)@)
//@@ ensures: gnz(final(generators)@), minim(final(generators)@), forall|n: int| #[trigger] gens(old(generators)@, n) && is_gb(old(generators)@, n) ==> basis_of(final(generators)@, old(generators)@, n)
//@@ loop 1 invariant: gnz(generators@), forall|n: int| #[trigger] gens(g0, n) && is_gb(g0, n) ==> basis_of(generators@, g0, n)
//@@ loop 1 decreases generators@.len()
//@@ hint start
!let ghost g0 = generators@;
//@@ hint start
assert forall|n: int| #[trigger] gens(g0, n) && is_gb(g0, n) implies basis_of(g0, g0, n) by { sub_refl(g0, n); }
//@@ hint loop 1 start
!let ghost gs = generators@;
//@@ hint loop 1 start
gnz_cleans(gs); pairs_ok(gs.len() as usize); lt_refs_all(gs);
//@@ loop 2 invariant: generators@ == gs, is_pairs($s, gs.len() as int), minpairs(gs, $s, $i as int)
//@@ hint loop 2 leave
let (i, j) = ($s[$i - 1].0 as int, $s[$i - 1].1 as int); drop_gb(gs, i, j); assert(generators@ == gs.remove(i));
assert forall|n: int| #[trigger] gens(g0, n) && is_gb(g0, n) implies basis_of(generators@, g0, n) by { assert(basis_of(gs, g0, n)); assert(basis_of(gs.remove(i), gs, n)); basis_trans(gs.remove(i), gs, g0, n); }
//@@ hint loop 2 after
all_min(gs, $s);
//@ raw
pub proof fn lt_refs_all(g: Seq<Polynomial>) requires gnz(g), ensures forall|k: int, t: Term| #![trigger is_lt(g[k].terms@, t)] 0 <= k < g.len() && is_lt(g[k].terms@, t) ==> ct(t) && nzt(t) && tm(t) == lm(g[k].terms@)
{ assert forall|k: int, t: Term| #![trigger is_lt(g[k].terms@, t)] 0 <= k < g.len() && is_lt(g[k].terms@, t) implies ct(t) && nzt(t) && tm(t) == lm(g[k].terms@) by { lt_unique(g[k].terms@, t); lt_ok(g[k].terms@); } }
//@ raw
// ---------- replacing an element by its remainder modulo the others
pub open spec fn redpair(g: Seq<Polynomial>, i: int, j: int) -> bool { forall|c: int| 0 <= c < g[i].terms@.len() ==> !mdvd(lm(g[j].terms@), tm(#[trigger] g[i].terms@[c])) }
pub open spec fn redone(g: Seq<Polynomial>, i: int) -> bool { forall|j: int| 0 <= j < g.len() && j != i ==> #[trigger] redpair(g, i, j) }
pub open spec fn redall(g: Seq<Polynomial>) -> bool { forall|i: int| 0 <= i < g.len() ==> #[trigger] redone(g, i) }
pub open spec fn redpairs(g: Seq<Polynomial>, s: Seq<(usize, usize)>, c: int) -> bool { forall|k: int| 0 <= k < c ==> redpair(g, (#[trigger] s[k]).0 as int, s[k].1 as int) }
pub proof fn all_red(g: Seq<Polynomial>, s: Seq<(usize, usize)>) requires is_pairs(s, g.len() as int), redpairs(g, s, s.len() as int), g.len() <= usize::MAX, ensures redall(g)
{
    assert forall|i: int| 0 <= i < g.len() implies #[trigger] redone(g, i) by { assert forall|j: int| 0 <= j < g.len() && j != i implies #[trigger] redpair(g, i, j) by {
        let x = (i as usize, j as usize); assert(s.contains(x)); let k = choose|k: int| 0 <= k < s.len() && s[k] == x; assert(redpair(g, s[k].0 as int, s[k].1 as int)); } }
}
// the number of elements still to be reduced
pub open spec fn nb(b: Seq<bool>) -> nat decreases b.len() { if b.len() == 0 { 0 } else { nb(b.drop_last()) + if b.last() { 1nat } else { 0nat } } }
pub proof fn nb_remove(b: Seq<bool>, i: int) requires 0 <= i < b.len(), ensures nb(b) == nb(b.remove(i)) + if b[i] { 1nat } else { 0nat } decreases b.len()
{
    b.remove_ensures(i);
    if i == b.len() - 1 { assert(b.remove(i) =~= b.drop_last()); }
    else { let d = b.drop_last(); d.remove_ensures(i); nb_remove(d, i); assert(b.remove(i).drop_last() =~= d.remove(i)); assert(b.remove(i).last() == b.last()); }
}
pub open spec fn todos(g: Seq<Polynomial>) -> Seq<bool> { Seq::new(g.len(), |i: int| !redone(g, i)) }
pub open spec fn left(g: Seq<Polynomial>) -> nat { nb(todos(g)) }
// r is a remainder of g_i modulo the others
pub open spec fn remof(g: Seq<Polynomial>, i: int, q: Seq<Polynomial>, r: Seq<Term>) -> bool { divinv(g[i].terms@, g.remove(i), q, r, Seq::empty()) && divbox(g[i].terms@, g.remove(i), q, r, Seq::empty()) }
pub proof fn rem_lead(g: Seq<Polynomial>, i: int, q: Seq<Polynomial>, r: Seq<Term>)
    requires gnz(g), minim(g), 0 <= i < g.len(), remof(g, i, q, r), ensures clean(r), r.len() > 0, lm(r) == lm(g[i].terms@), gnz(g.remove(i)), forall|n: int| #[trigger] gens(g, n) ==> gens(g.remove(i), n) && boxed(r, n) && pboxed(q, n)
{
    let h = g.remove(i); rem_at(g, i); let f = g[i].terms@; let m = lm(f);
    assert forall|k: int| 0 <= k < h.len() implies clean(#[trigger] h[k].terms@) && h[k].terms@.len() > 0 by { let l = if k < i { k } else { k + 1 }; assert(h[k] == g[l]); assert(clean(g[l].terms@)); }
    assert forall|n: int| #[trigger] gens(g, n) implies gens(h, n) && boxed(r, n) && pboxed(q, n) by {
        assert forall|k: int| 0 <= k < h.len() implies boxed(#[trigger] h[k].terms@, n) by { let l = if k < i { k } else { k + 1 }; assert(h[k] == g[l]); assert(boxed(g[l].terms@, n)); }
        assert(boxed(f, n)); }
    let n = plen(g); plen_ok(g); assert(gens(g, n)); gen_lm(g, n, i);
    let o = div_rl(f, h, q, r, n);
    assert forall|k: int| 0 <= k < o.len() implies olt(rm(#[trigger] o[k], h), m) by {
        assert(ole(rm(o[k], h), m)); let e = o[k]; assert(nn(e.1, n)); gen_lm(h, n, e.2); let l = if e.2 < i { e.2 } else { e.2 + 1 }; assert(h[e.2] == g[l]); let b = lm(g[l].terms@);
        if rm(e, h) == m { assert(mdvd(b, m)) by { assert forall|x: int| #[trigger] ex(b, x) <= ex(m, x) by { ex_nonneg(e.1, x); madd_ex(e.1, b, x); } } assert(!mdvd(lm(g[l].terms@), lm(g[i].terms@))); }
    }
    rs_above(o, h, n, m); lt_ok(f);
    assert(lf(f, ind(m)) == rs(o, h, ind(m)) + lf(r, ind(m))); assert(cf(f, m) == lc(f));
    if !occurs(r, m) { cf_absent(r, m); }
    lt_ok(r); let k = choose|k: int| 0 <= k < r.len() && tm(#[trigger] r[k]) == lm(r); assert(ole(tm(r[k]), m));
    let c = choose|c: int| 0 <= c < r.len() && tm(#[trigger] r[c]) == m; if lm(r) != m { assert(olt(tm(r[c]), lm(r))); ord_total(m, lm(r)); }
}
pub open spec fn back(n: int, i: int, k: int) -> int { if k == n - 1 { i } else if k < i { k } else { k + 1 } }
// the list with g_i replaced: the same leading monomials
pub proof fn rep_lms(g: Seq<Polynomial>, i: int, r: Polynomial)
    requires 0 <= i < g.len(), lm(r.terms@) == lm(g[i].terms@),
    ensures ({ let h = g.remove(i).push(r); h.len() == g.len() && (forall|k: int| 0 <= k < h.len() ==> lm((#[trigger] h[k]).terms@) == lm(g[back(g.len() as int, i, k)].terms@)) && forall|k: int| 0 <= k < h.len() - 1 ==> #[trigger] h[k] == g[back(g.len() as int, i, k)] })
{
    rem_at(g, i); let h = g.remove(i).push(r); let n = g.len() as int;
    assert forall|k: int| 0 <= k < h.len() - 1 implies #[trigger] h[k] == g[back(n, i, k)] by { assert(h[k] == g.remove(i)[k]); }
    assert forall|k: int| 0 <= k < h.len() implies lm((#[trigger] h[k]).terms@) == lm(g[back(n, i, k)].terms@) by { if k == n - 1 { assert(h[k] == r); } else { assert(h[k] == g[back(n, i, k)]); } }
}
pub proof fn rep_left(g: Seq<Polynomial>, i: int, q: Seq<Polynomial>, r: Polynomial)
    requires gnz(g), minim(g), 0 <= i < g.len(), remof(g, i, q, r.terms@), !redone(g, i), ensures left(g.remove(i).push(r)) < left(g), minim(g.remove(i).push(r)), gnz(g.remove(i).push(r))
{
    let h = g.remove(i).push(r); let n = g.len() as int; let d = g.remove(i); rem_lead(g, i, q, r.terms@); rep_lms(g, i, r); rem_at(g, i);
    assert(gnz(h)) by { assert forall|k: int| 0 <= k < h.len() implies clean(#[trigger] h[k].terms@) && h[k].terms@.len() > 0 by { if k < n - 1 { assert(h[k] == d[k]); assert(clean(d[k].terms@)); } else { assert(h[k] == r); } } }
    assert forall|a: int, b: int| 0 <= a < h.len() && 0 <= b < h.len() && a != b implies !mdvd(lm((#[trigger] h[b]).terms@), lm((#[trigger] h[a]).terms@)) by { let (x, y) = (back(n, i, a), back(n, i, b)); assert(!mdvd(lm(g[y].terms@), lm(g[x].terms@))); }
    let b = todos(g); b.remove_ensures(i);
    assert(todos(h) =~= b.remove(i).push(false)) by {
        assert forall|k: int| 0 <= k < n implies todos(h)[k] == #[trigger] b.remove(i).push(false)[k] by {
            if k == n - 1 {
                assert forall|j: int| 0 <= j < h.len() && j != k implies #[trigger] redpair(h, k, j) by { assert(h[k] == r); assert(h[j] == d[j]); assert forall|c: int| 0 <= c < h[k].terms@.len() implies !mdvd(lm(h[j].terms@), tm(#[trigger] h[k].terms@[c])) by { assert(indiv(tm(r.terms@[c]), d, d.len() as int)); assert(clean(d[j].terms@)); } }
                assert(redone(h, k));
            } else {
                let x = back(n, i, k); assert(h[k] == g[x]); assert(b.remove(i)[k] == b[x]);
                if redone(g, x) { assert forall|j: int| 0 <= j < h.len() && j != k implies #[trigger] redpair(h, k, j) by { let y = back(n, i, j); assert(lm(h[j].terms@) == lm(g[y].terms@)); assert(redpair(g, x, y)); assert forall|c: int| 0 <= c < h[k].terms@.len() implies !mdvd(lm(h[j].terms@), tm(#[trigger] h[k].terms@[c])) by { assert(g[x].terms@[c] == h[k].terms@[c]); } } }
                if redone(h, k) { assert forall|y: int| 0 <= y < g.len() && y != x implies #[trigger] redpair(g, x, y) by { let j = if y == i { n - 1 } else if y < i { y } else { y - 1 }; assert(back(n, i, j) == y); assert(lm(h[j].terms@) == lm(g[y].terms@)); assert(redpair(h, k, j)); assert forall|c: int| 0 <= c < g[x].terms@.len() implies !mdvd(lm(g[y].terms@), tm(#[trigger] g[x].terms@[c])) by { assert(g[x].terms@[c] == h[k].terms@[c]); } } }
            }
        }
    }
    nb_remove(b, i); let u = b.remove(i); assert(u.push(false).drop_last() =~= u); assert(b[i]);
}
pub proof fn rep_gb(g: Seq<Polynomial>, i: int, q: Seq<Polynomial>, r: Polynomial)
    requires gnz(g), minim(g), 0 <= i < g.len(), remof(g, i, q, r.terms@), ensures forall|n: int| gens(g, n) && is_gb(g, n) ==> #[trigger] basis_of(g.remove(i).push(r), g, n)
{
    let h = g.remove(i).push(r); let d = g.remove(i); rem_lead(g, i, q, r.terms@); rep_lms(g, i, r); rem_at(g, i); let l = g.len() as int;
    assert forall|n: int| gens(g, n) && is_gb(g, n) implies #[trigger] basis_of(h, g, n) by {
        assert(gens(d, n));
        assert forall|k: int| 0 <= k < h.len() implies clean(#[trigger] h[k].terms@) && h[k].terms@.len() > 0 && boxed(h[k].terms@, n) by { if k < l - 1 { assert(h[k] == d[k]); gen_lm(d, n, k); } else { assert(h[k] == r); } }
        assert(gens(h, n));
        assert(sub_ideal(d, g, n)) by { assert forall|k: int| 0 <= k < d.len() implies in_ideal(g, n, ap(#[trigger] d[k].terms@)) by { let x = if k < i { k } else { k + 1 }; assert(d[k] == g[x]); ideal_elem(g, n, x); } }
        ideal_elem(g, n, i); rem_ideal(g[i].terms@, d, q, r.terms@, g, n);
        assert forall|k: int| 0 <= k < h.len() implies in_ideal(g, n, ap(#[trigger] h[k].terms@)) by { if k < l - 1 { assert(h[k] == d[k]); assert(in_ideal(g, n, ap(d[k].terms@))); } else { assert(h[k] == r); } }
        assert forall|p: AP, m: Seq<int>| #![trigger lead(p, m)] pmon(p, n) && in_ideal(g, n, p) && lead(p, m) implies covers(h, m) by {
            assert(covers(g, m)); let y = choose|k: int| 0 <= k < g.len() && mdvd(lm(#[trigger] g[k].terms@), m);
            let j = if y == i { l - 1 } else if y < i { y } else { y - 1 }; assert(back(l, i, j) == y); assert(mdvd(lm(h[j].terms@), m)); }
        cover_gb(g, h, n);
    }
}
//@ fn Computer__buchberger_reduce(generators)
//@@ requires: gnz(old(generators)@), minim(old(generators)@)
//@@ ensures: gnz(final(generators)@), redall(final(generators)@), forall|n: int| #[trigger] gens(old(generators)@, n) && is_gb(old(generators)@, n) ==> basis_of(final(generators)@, old(generators)@, n)
//@@ loop 1 invariant: gnz(generators@), minim(generators@), forall|n: int| #[trigger] gens(g0, n) && is_gb(g0, n) ==> basis_of(generators@, g0, n)
//@@ loop 1 decreases left(generators@)
//@@ hint start
!let ghost g0 = generators@;
//@@ hint start
assert forall|n: int| #[trigger] gens(g0, n) && is_gb(g0, n) implies basis_of(g0, g0, n) by { sub_refl(g0, n); }
//@@ hint loop 1 start
!let ghost gs = generators@;
//@@ hint loop 1 start
gnz_cleans(gs); pairs_ok(gs.len() as usize); lt_refs_all(gs);
//@@ loop 2 invariant: generators@ == gs, is_pairs($s, gs.len() as int), redpairs(gs, $s, $i as int)
//@@ loop 3 invariant: generators@ == gs, 0 <= i_2 < gs.len(), 0 <= j_2 < gs.len(), i_2 != j_2, $s.len() == gs[i_2 as int].terms@.len(), forall|c: int| 0 <= c < $s.len() ==> *(#[trigger] $s[c]) == gs[i_2 as int].terms@[c], forall|c: int| 0 <= c < $i ==> !mdvd(lm(gs[j_2 as int].terms@), tm(#[trigger] gs[i_2 as int].terms@[c]))
//@@ hint loop 2 leave
let (i, j) = (i_2 as int, j_2 as int); let r = generators@[gs.len() - 1]; rem_at(gs, i); assert(generators@ =~= gs.remove(i).push(r));
assert(!redone(gs, i)) by { assert(!redpair(gs, i, j)); }
rep_left(gs, i, pv_4.1@, r); rep_gb(gs, i, pv_4.1@, r);
assert forall|n: int| #[trigger] gens(g0, n) && is_gb(g0, n) implies basis_of(generators@, g0, n) by { assert(basis_of(gs, g0, n)); assert(basis_of(gs.remove(i).push(r), gs, n)); basis_trans(gs.remove(i).push(r), gs, g0, n); }
//@@ hint loop 2 after
all_red(gs, $s);
//@ raw
pub open spec fn monic(g: Seq<Polynomial>) -> bool { forall|k: int| 0 <= k < g.len() ==> lc(#[trigger] g[k].terms@) == 1real }
pub open spec fn scaled(h: Seq<Term>, f: Seq<Term>) -> bool { is_quo(h, f, 1real / lc(f)) }
pub open spec fn scaleds(h: Seq<Polynomial>, g: Seq<Polynomial>) -> bool { h.len() == g.len() && forall|k: int| 0 <= k < g.len() ==> scaled((#[trigger] h[k]).terms@, g[k].terms@) }
pub proof fn scaled_all(g: Seq<Polynomial>, h: Seq<Polynomial>)
    requires gnz(g), redall(g), scaleds(h, g), ensures gnz(h), redall(h), monic(h), forall|n: int| #[trigger] gens(g, n) && is_gb(g, n) ==> basis_of(h, g, n)
{
    assert forall|k: int| 0 <= k < g.len() implies same_shape(#[trigger] h[k].terms@, g[k].terms@) && clean(h[k].terms@) && lc(h[k].terms@) == 1real by {
        let (f, t) = (g[k].terms@, h[k].terms@); assert(clean(f)); assert(scaled(t, f)); lt_ok(f); let c = lc(f); let d = 1real / c; scaled_same(f, t, d); assert(d * c == 1real) by(nonlinear_arith) requires d == 1real / c, c != 0real; }
    assert(gnz(h)) by { assert forall|k: int| 0 <= k < h.len() implies clean(#[trigger] h[k].terms@) && h[k].terms@.len() > 0 by { assert(same_shape(h[k].terms@, g[k].terms@)); assert(clean(g[k].terms@)); } }
    assert forall|i: int| 0 <= i < h.len() implies #[trigger] redone(h, i) by { assert(redone(g, i)); assert forall|j: int| 0 <= j < h.len() && j != i implies #[trigger] redpair(h, i, j) by {
        assert(redpair(g, i, j)); assert(same_shape(h[i].terms@, g[i].terms@)); assert(same_shape(h[j].terms@, g[j].terms@));
        assert forall|c: int| 0 <= c < h[i].terms@.len() implies !mdvd(lm(h[j].terms@), tm(#[trigger] h[i].terms@[c])) by { let m = tm(h[i].terms@[c]); assert(occurs(h[i].terms@, m)); assert(occurs(g[i].terms@, m)); let e = choose|e: int| 0 <= e < g[i].terms@.len() && tm(#[trigger] g[i].terms@[e]) == m; assert(!mdvd(lm(g[j].terms@), tm(g[i].terms@[e]))); } } }
    assert(monic(h)) by { assert forall|k: int| 0 <= k < h.len() implies lc(#[trigger] h[k].terms@) == 1real by { assert(same_shape(h[k].terms@, g[k].terms@)); } }
    assert forall|n: int| #[trigger] gens(g, n) && is_gb(g, n) implies basis_of(h, g, n) by {
        assert forall|k: int| 0 <= k < h.len() implies boxed(#[trigger] h[k].terms@, n) by { assert(same_shape(h[k].terms@, g[k].terms@)); assert(boxed(g[k].terms@, n)); assert(boxed(g[k].terms@, n) == boxed(h[k].terms@, n)); }
        zero_nn(n);
        assert forall|k: int| 0 <= k < h.len() implies in_ideal(g, n, ap(#[trigger] h[k].terms@)) by {
            let (f, t) = (g[k].terms@, h[k].terms@); let d = 1real / lc(f); assert(scaled(t, f)); ideal_elem(g, n, k); ideal_mul(g, n, ap(f), d, Seq::empty()); let u = psc(ap(f), d, Seq::empty());
            assert forall|w: WF| #[trigger] pf(ap(t), w) == pf(u, w) by { ap_ok(t, w); ap_ok(f, w); psc_ok(ap(f), d, Seq::empty(), w); shw_zero(w); assert(lf(t, w) == mu(d, lf(f, w))); }
            ideal_eq(g, n, u, ap(t)); }
        assert forall|p: AP, m: Seq<int>| #![trigger lead(p, m)] pmon(p, n) && in_ideal(g, n, p) && lead(p, m) implies covers(h, m) by { assert(covers(g, m)); let k = choose|k: int| 0 <= k < g.len() && mdvd(lm(#[trigger] g[k].terms@), m); assert(same_shape(h[k].terms@, g[k].terms@)); assert(mdvd(lm(h[k].terms@), m)); }
        cover_gb(g, h, n);
    }
}
pub proof fn basis_chain() ensures forall|h: Seq<Polynomial>, f: Seq<Polynomial>, g: Seq<Polynomial>, n: int| #![trigger basis_of(h, f, n), basis_of(f, g, n)] basis_of(h, f, n) && basis_of(f, g, n) ==> basis_of(h, g, n)
{ assert forall|h: Seq<Polynomial>, f: Seq<Polynomial>, g: Seq<Polynomial>, n: int| #![trigger basis_of(h, f, n), basis_of(f, g, n)] basis_of(h, f, n) && basis_of(f, g, n) implies basis_of(h, g, n) by { basis_trans(h, f, g, n); } }
pub open spec fn same_shape(h: Seq<Term>, f: Seq<Term>) -> bool { (h.len() == 0) == (f.len() == 0) && lm(h) == lm(f) && (forall|m: Seq<int>| #[trigger] occurs(h, m) == occurs(f, m)) && forall|n: int| #[trigger] boxed(f, n) == boxed(h, n) }
//@ fn Computer__buchberger_algorithm(generators)
//@@ requires: gnz(old(generators)@)
//@@ ensures: gnz(final(generators)@), redall(final(generators)@), monic(final(generators)@), forall|n: int| #[trigger] gens(old(generators)@, n) ==> basis_of(final(generators)@, old(generators)@, n)
//@@ hint start
basis_chain();
//@@ hint loop 1 enter
!let ghost gs = generators@;
//@@ hint loop 1 enter
gnz_cleans(gs); assert forall|k: int| 0 <= k < gs.len() implies lc(#[trigger] gs[k].terms@) != 0real by { lt_ok(gs[k].terms@); }
//@@ loop 1 invariant: $s.len() == gs.len(), forall|k: int| 0 <= k < gs.len() ==> *(#[trigger] $s[k]) == gs[k], forall|k: int| 0 <= k < $i ==> scaled((*final(#[trigger] $s[k])).terms@, gs[k].terms@)
//@@ hint loop 1 after
assert forall|k: int| 0 <= k < gs.len() implies scaled((#[trigger] generators@[k]).terms@, gs[k].terms@) by { assert(scaled((*final($s[k])).terms@, gs[k].terms@)); }
scaled_all(gs, generators@);
//@@ hint loop 1 start
assert(*g == gs[i1 - 1]); assert(clean(gs[i1 - 1].terms@)); lt_ok(gs[i1 - 1].terms@); let c = lc(gs[i1 - 1].terms@); assert(1real / c != 0real) by(nonlinear_arith) requires c != 0real;
//@@ hint loop 1 end
assert(scaled((*g).terms@, gs[i1 - 1].terms@));
