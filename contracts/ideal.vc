//@ raw
// ---------- monomial orders are well-orders on the monomials in n variables (Dickson's lemma)
pub open spec fn nn(m: Seq<int>, n: int) -> bool { mono(m) && m.len() <= n }
pub open spec fn least_from(a: spec_fn(int) -> int, k: int, j: int) -> bool { j >= k && forall|l: int| l >= k ==> a(j) <= #[trigger] a(l) }
pub open spec fn nonneg(a: spec_fn(int) -> int) -> bool { forall|l: int| l >= 0 ==> #[trigger] a(l) >= 0 }
pub proof fn least_exists(a: spec_fn(int) -> int, k: int, j0: int, b: int) requires nonneg(a), 0 <= k <= j0, a(j0) <= b, ensures exists|j: int| least_from(a, k, j) decreases b
{
    assert(a(j0) >= 0);
    if forall|l: int| l >= k ==> a(j0) <= #[trigger] a(l) { assert(least_from(a, k, j0)); }
    else { let l = choose|l: int| l >= k && a(j0) > #[trigger] a(l); assert(a(l) >= 0); least_exists(a, k, l, b - 1); }
}
// indices of a nondecreasing subsequence
pub open spec fn subi(a: spec_fn(int) -> int, k: int) -> int decreases k { if k <= 0 { choose|j: int| least_from(a, 0, j) } else { let p = subi(a, k - 1) + 1; choose|j: int| least_from(a, p, j) } }
pub proof fn subi_ok(a: spec_fn(int) -> int, k: int) requires nonneg(a), k >= 0, ensures subi(a, k) >= 0, least_from(a, if k == 0 { 0 } else { subi(a, k - 1) + 1 }, subi(a, k)) decreases k
{ if k > 0 { subi_ok(a, k - 1); let p = subi(a, k - 1) + 1; least_exists(a, p, p, a(p)); } else { least_exists(a, 0, 0, a(0)); } }
pub proof fn subi_mono(a: spec_fn(int) -> int, i: int, j: int) requires nonneg(a), 0 <= i < j, ensures 0 <= subi(a, i) < subi(a, j), a(subi(a, i)) <= a(subi(a, j)) decreases j
{
    subi_ok(a, i); subi_ok(a, j); subi_ok(a, j - 1);
    if j > i + 1 { subi_mono(a, i, j - 1); }
    let p = if i == 0 { 0 } else { subi(a, i - 1) + 1 }; assert(least_from(a, p, subi(a, i))); assert(subi(a, j) >= p); assert(a(subi(a, i)) <= a(subi(a, j)));
}
pub open spec fn le_to(x: Seq<int>, y: Seq<int>, d: int) -> bool { forall|c: int| 0 <= c < d ==> #[trigger] ex(x, c) <= ex(y, c) }
pub open spec fn monos(s: spec_fn(int) -> Seq<int>) -> bool { forall|l: int| l >= 0 ==> mono(#[trigger] s(l)) }
pub proof fn dickson(s: spec_fn(int) -> Seq<int>, d: int) requires monos(s), d >= 0, ensures exists|i: int, j: int| 0 <= i < j && le_to(#[trigger] s(i), #[trigger] s(j), d) decreases d
{
    if d == 0 { assert(le_to(s(0), s(1), 0)); }
    else {
        let a = |l: int| ex(s(l), d - 1);
        assert(nonneg(a)) by { assert forall|l: int| l >= 0 implies #[trigger] a(l) >= 0 by { ex_nonneg(s(l), d - 1); } }
        let t = |l: int| s(subi(a, l));
        assert(monos(t)) by { assert forall|l: int| l >= 0 implies mono(#[trigger] t(l)) by { subi_ok(a, l); assert(mono(s(subi(a, l)))); } }
        dickson(t, d - 1);
        let (i, j) = choose|i: int, j: int| 0 <= i < j && le_to(#[trigger] t(i), #[trigger] t(j), d - 1);
        subi_mono(a, i, j);
        let (k, l) = (subi(a, i), subi(a, j));
        assert(a(k) <= a(l));
        assert(le_to(s(k), s(l), d)) by { assert(s(k) == t(i) && s(l) == t(j)); assert forall|c: int| 0 <= c < d implies #[trigger] ex(s(k), c) <= ex(s(l), c) by { if c < d - 1 { assert(ex(t(i), c) <= ex(t(j), c)); } } }
    }
}
pub open spec fn is_least(p: spec_fn(Seq<int>) -> bool, n: int, m: Seq<int>) -> bool { nn(m, n) && p(m) && forall|x: Seq<int>| nn(x, n) && #[trigger] p(x) ==> ole(m, x) }
pub open spec fn chain(p: spec_fn(Seq<int>) -> bool, n: int, m0: Seq<int>, k: int) -> Seq<int> decreases k { if k <= 0 { m0 } else { let c = chain(p, n, m0, k - 1); choose|m: Seq<int>| nn(m, n) && p(m) && olt(m, c) } }
pub proof fn chain_ok(p: spec_fn(Seq<int>) -> bool, n: int, m0: Seq<int>, k: int)
    requires nn(m0, n), p(m0), k >= 0, !(exists|m: Seq<int>| is_least(p, n, m)),
    ensures nn(chain(p, n, m0, k), n), p(chain(p, n, m0, k)), k > 0 ==> olt(chain(p, n, m0, k), chain(p, n, m0, k - 1)) decreases k
{
    if k > 0 {
        chain_ok(p, n, m0, k - 1); let c = chain(p, n, m0, k - 1);
        assert(!is_least(p, n, c)); let x = choose|x: Seq<int>| nn(x, n) && #[trigger] p(x) && !ole(c, x); ord_total(x, c);
        assert(nn(x, n) && p(x) && olt(x, c));
    }
}
pub proof fn chain_down(p: spec_fn(Seq<int>) -> bool, n: int, m0: Seq<int>, i: int, j: int)
    requires nn(m0, n), p(m0), 0 <= i < j, !(exists|m: Seq<int>| is_least(p, n, m)), ensures olt(chain(p, n, m0, j), chain(p, n, m0, i)) decreases j
{ chain_ok(p, n, m0, i); chain_ok(p, n, m0, j); chain_ok(p, n, m0, j - 1); if j > i + 1 { chain_down(p, n, m0, i, j - 1); ord_trans(chain(p, n, m0, j), chain(p, n, m0, j - 1), chain(p, n, m0, i)); } }
pub proof fn well_order(p: spec_fn(Seq<int>) -> bool, n: int, m0: Seq<int>) requires nn(m0, n), p(m0), n >= 0, ensures exists|m: Seq<int>| is_least(p, n, m)
{
    if !(exists|m: Seq<int>| is_least(p, n, m)) {
        let s = |k: int| chain(p, n, m0, k);
        assert(monos(s)) by { assert forall|l: int| l >= 0 implies mono(#[trigger] s(l)) by { chain_ok(p, n, m0, l); } }
        dickson(s, n);
        let (i, j) = choose|i: int, j: int| 0 <= i < j && le_to(#[trigger] s(i), #[trigger] s(j), n);
        chain_ok(p, n, m0, i); chain_ok(p, n, m0, j); chain_down(p, n, m0, i, j);
        assert(mdvd(s(i), s(j))) by { assert forall|c: int| #[trigger] ex(s(i), c) <= ex(s(j), c) by { if 0 <= c < n { } else { ex_nonneg(s(j), c); } } }
        ord_dvd(s(i), s(j)); ord_total(s(i), s(j));
    }
}
//@ raw
// ---------- polynomials of any degree, as lists of (coefficient, monomial)
pub type AP = Seq<(real, Seq<int>)>;
pub open spec fn pf(p: AP, w: WF) -> real decreases p.len() { if p.len() == 0 { 0real } else { pf(p.drop_last(), w) + mu(p.last().0, w(p.last().1)) } }
pub open spec fn pmon(p: AP, n: int) -> bool { forall|i: int| 0 <= i < p.len() ==> nn((#[trigger] p[i]).1, n) }
pub open spec fn pc(p: AP, m: Seq<int>) -> real { pf(p, ind(m)) }
pub open spec fn lead(p: AP, m: Seq<int>) -> bool { mono(m) && pc(p, m) != 0real && forall|x: Seq<int>| mono(x) && olt(m, x) ==> #[trigger] pc(p, x) == 0real }
pub open spec fn pzero(p: AP) -> bool { forall|w: WF| #[trigger] pf(p, w) == 0real }
pub open spec fn psc(p: AP, c: real, x: Seq<int>) -> AP { Seq::new(p.len(), |i: int| (mu(c, p[i].0), madd(x, p[i].1))) }
pub open spec fn ap(s: Seq<Term>) -> AP { Seq::new(s.len(), |i: int| (s[i].coef.v(), tm(s[i]))) }
pub proof fn ap_ok(s: Seq<Term>, w: WF) ensures pf(ap(s), w) == lf(s, w) decreases s.len()
{ if s.len() > 0 { assert(ap(s).drop_last() =~= ap(s.drop_last())); ap_ok(s.drop_last(), w); } }
pub proof fn ap_mon(s: Seq<Term>, n: int) requires allct(s), boxed(s, n), ensures pmon(ap(s), n)
{ assert forall|i: int| 0 <= i < ap(s).len() implies nn((#[trigger] ap(s)[i]).1, n) by { assert(ct(s[i])); ct_mono(s[i]); assert(tm(s[i]).len() <= n); } }
pub proof fn pf_app(p: AP, q: AP, w: WF) ensures pf(p + q, w) == pf(p, w) + pf(q, w) decreases q.len()
{ if q.len() > 0 { assert((p + q).drop_last() =~= p + q.drop_last()); pf_app(p, q.drop_last(), w); } else { assert(p + q =~= p); } }
pub proof fn psc_ok(p: AP, c: real, x: Seq<int>, w: WF) ensures pf(psc(p, c, x), w) == mu(c, pf(p, shw(x, w))) decreases p.len()
{
    if p.len() > 0 {
        assert(psc(p, c, x).drop_last() =~= psc(p.drop_last(), c, x)); psc_ok(p.drop_last(), c, x, w);
        let a = pf(p.drop_last(), shw(x, w)); let b = p.last().0; let v = w(madd(x, p.last().1)); assert(shw(x, w)(p.last().1) == v);
        assert(c * a + (c * b) * v == c * (a + b * v)) by(nonlinear_arith);
    }
}
pub proof fn psc_mon(p: AP, c: real, x: Seq<int>, n: int) requires pmon(p, n), nn(x, n), ensures pmon(psc(p, c, x), n)
{ assert forall|i: int| 0 <= i < psc(p, c, x).len() implies nn((#[trigger] psc(p, c, x)[i]).1, n) by { assert(nn(p[i].1, n)); madd_mono(x, p[i].1); } }
pub proof fn app_mon(p: AP, q: AP, n: int) requires pmon(p, n), pmon(q, n), ensures pmon(p + q, n)
{ assert forall|i: int| 0 <= i < (p + q).len() implies nn((#[trigger] (p + q)[i]).1, n) by { if i < p.len() { assert((p + q)[i] == p[i]); } else { assert((p + q)[i] == q[i - p.len()]); } } }
pub open spec fn without(p: AP, m: Seq<int>) -> AP decreases p.len() { if p.len() == 0 { p } else { let r = without(p.drop_last(), m); if p.last().1 == m { r } else { r.push(p.last()) } } }
pub open spec fn phas(p: AP, m: Seq<int>) -> bool { exists|i: int| 0 <= i < p.len() && (#[trigger] p[i]).1 == m }
pub proof fn without_ok(p: AP, m: Seq<int>, w: WF) ensures pf(p, w) == mu(pc(p, m), w(m)) + pf(without(p, m), w) decreases p.len()
{
    if p.len() > 0 {
        let q = p.drop_last(); without_ok(q, m, w); let r = without(q, m); let e = p.last();
        let (a, c, v) = (pc(q, m), e.0, w(m));
        if e.1 == m { assert((a + c * 1real) * v == a * v + c * v) by(nonlinear_arith); assert(ind(m)(m) == 1real); }
        else { assert(r.push(e).drop_last() =~= r); assert(ind(m)(e.1) == 0real); }
    }
}
pub proof fn without_len(p: AP, m: Seq<int>, n: int) ensures without(p, m).len() <= p.len(), phas(p, m) ==> without(p, m).len() < p.len(), pmon(p, n) ==> pmon(without(p, m), n) decreases p.len()
{
    if p.len() > 0 {
        let q = p.drop_last(); without_len(q, m, n); let r = without(q, m); let s = without(p, m); let l = p.len() - 1;
        if phas(p, m) { let i = choose|i: int| 0 <= i < p.len() && (#[trigger] p[i]).1 == m; if i < l { assert(q[i].1 == m); assert(phas(q, m)); } }
        if pmon(p, n) {
            assert(pmon(q, n)) by { assert forall|i: int| 0 <= i < q.len() implies nn((#[trigger] q[i]).1, n) by { assert(p[i] == q[i]); } }
            assert forall|i: int| 0 <= i < s.len() implies nn((#[trigger] s[i]).1, n) by { if i < r.len() { assert(s[i] == r[i]); } else { assert(s[i] == p[l]); } }
        }
    }
}
pub proof fn pc_absent(p: AP, m: Seq<int>) requires !phas(p, m), ensures pc(p, m) == 0real decreases p.len()
{ if p.len() > 0 { let q = p.drop_last(); let l = p.len() - 1; if phas(q, m) { let i = choose|i: int| 0 <= i < q.len() && (#[trigger] q[i]).1 == m; assert(p[i].1 == m); } assert(p[l].1 != m); pc_absent(q, m); } }
pub proof fn pmax(p: AP, n: int) -> (i: int) requires pmon(p, n), p.len() > 0, ensures 0 <= i < p.len(), forall|j: int| 0 <= j < p.len() ==> ole((#[trigger] p[j]).1, p[i].1) decreases p.len()
{
    let l = p.len() - 1; assert(nn(p[l].1, n)); ord_total(p[l].1, p[l].1);
    if l == 0 { 0 } else {
        let q = p.drop_last(); assert(pmon(q, n)) by { assert forall|i: int| 0 <= i < q.len() implies nn((#[trigger] q[i]).1, n) by { assert(p[i] == q[i]); } }
        let i = pmax(q, n); assert(nn(p[i].1, n)); ord_total(p[i].1, p[l].1);
        let k = if ole(p[l].1, p[i].1) { i } else { l };
        assert forall|j: int| 0 <= j < p.len() implies ole((#[trigger] p[j]).1, p[k].1) by { if j < l { assert(q[j] == p[j]); assert(nn(p[j].1, n)); assert(ole(q[j].1, q[i].1)); if k == l { ord_trans(p[j].1, p[i].1, p[l].1); } } }
        k
    }
}
// a polynomial is zero, or it has a leading monomial
pub proof fn zero_or_lead(p: AP, n: int) requires pmon(p, n), ensures pzero(p) || exists|m: Seq<int>| lead(p, m) && nn(m, n) decreases p.len()
{
    if p.len() > 0 {
        let i = pmax(p, n); let m = p[i].1; assert(nn(m, n));
        if pc(p, m) != 0real {
            assert forall|x: Seq<int>| mono(x) && olt(m, x) implies #[trigger] pc(p, x) == 0real by { if phas(p, x) { let j = choose|j: int| 0 <= j < p.len() && (#[trigger] p[j]).1 == x; assert(ole(p[j].1, m)); ord_total(m, x); } pc_absent(p, x); }
            assert(lead(p, m) && nn(m, n));
        } else {
            let r = without(p, m); assert(phas(p, m)); without_len(p, m, n); zero_or_lead(r, n);
            assert forall|w: WF| #[trigger] pf(p, w) == pf(r, w) by { without_ok(p, m, w); }
            if !pzero(r) {
                let x = choose|x: Seq<int>| lead(r, x) && nn(x, n);
                assert(pc(p, x) == pc(r, x)); assert forall|y: Seq<int>| mono(y) && olt(x, y) implies #[trigger] pc(p, y) == 0real by { assert(pc(r, y) == 0real); }
                assert(lead(p, x) && nn(x, n));
            } else { assert forall|w: WF| #[trigger] pf(p, w) == 0real by { assert(pf(r, w) == 0real); } }
        }
    }
}
pub proof fn ap_lead(s: Seq<Term>) requires clean(s), s.len() > 0, ensures lead(ap(s), lm(s)), pc(ap(s), lm(s)) == lc(s)
{
    lt_ok(s); ap_ok(s, ind(lm(s)));
    assert forall|x: Seq<int>| mono(x) && olt(lm(s), x) implies #[trigger] pc(ap(s), x) == 0real by {
        ap_ok(s, ind(x)); ord_total(lm(s), x);
        if occurs(s, x) { let k = choose|k: int| 0 <= k < s.len() && tm(#[trigger] s[k]) == x; assert(ct(s[k])); assert(olt(tm(s[k]), lm(s))); }
        cf_absent(s, x);
    }
}
