//@ raw
// ---------- monomials with a bounded number of variables, listed (exponents are bytes)
pub open spec fn bx(m: Seq<int>, n: int) -> bool { m.len() <= n && forall|i: int| 0 <= i < m.len() ==> 0 <= #[trigger] m[i] <= 255 }
pub open spec fn pushes(l: Seq<Seq<int>>, v: int) -> Seq<Seq<int>> decreases v + 1 { if v < 0 { Seq::empty() } else { pushes(l, v - 1) + Seq::new(l.len(), |i: int| l[i].push(v)) } }
pub open spec fn lst(n: int) -> Seq<Seq<int>> decreases n { if n <= 0 { seq![Seq::empty()] } else { lst(n - 1) + pushes(lst(n - 1), 255) } }
pub proof fn pushes_has(l: Seq<Seq<int>>, v: int, k: int, x: int) requires 0 <= x <= v, 0 <= k < l.len(), ensures pushes(l, v).contains(l[k].push(x)) decreases v
{
    let t = Seq::new(l.len(), |i: int| l[i].push(v)); let p = pushes(l, v - 1);
    assert(pushes(l, v) == p + t);
    if x == v { assert((p + t)[p.len() + k] == l[k].push(x)); } else { pushes_has(l, v - 1, k, x); let i = choose|i: int| 0 <= i < p.len() && p[i] == l[k].push(x); assert((p + t)[i] == l[k].push(x)); }
}
pub proof fn lst_has(n: int, m: Seq<int>) requires bx(m, n), n >= 0, ensures lst(n).contains(m) decreases n
{
    if n == 0 { assert(m =~= Seq::<int>::empty()); assert(lst(0)[0] == m); }
    else if m.len() < n { lst_has(n - 1, m); let l = lst(n - 1); let i = choose|i: int| 0 <= i < l.len() && l[i] == m; assert(lst(n)[i] == m); }
    else {
        let d = m.drop_last(); assert forall|i: int| 0 <= i < d.len() implies 0 <= #[trigger] d[i] <= 255 by { assert(m[i] == d[i]); }
        lst_has(n - 1, d); let l = lst(n - 1); let k = choose|k: int| 0 <= k < l.len() && l[k] == d; let x = m[n - 1];
        pushes_has(l, 255, k, x); assert(l[k].push(x) =~= m); let p = pushes(l, 255); let i = choose|i: int| 0 <= i < p.len() && p[i] == m; assert(lst(n)[l.len() + i] == m);
    }
}
pub open spec fn cnt(l: Seq<Seq<int>>, p: spec_fn(Seq<int>) -> bool) -> nat decreases l.len() { if l.len() == 0 { 0 } else { cnt(l.drop_last(), p) + if p(l.last()) { 1nat } else { 0nat } } }
pub proof fn cnt_le(l: Seq<Seq<int>>, p: spec_fn(Seq<int>) -> bool, q: spec_fn(Seq<int>) -> bool) requires forall|m: Seq<int>| #[trigger] p(m) ==> q(m), ensures cnt(l, p) <= cnt(l, q) decreases l.len()
{ if l.len() > 0 { cnt_le(l.drop_last(), p, q); } }
pub proof fn cnt_lt(l: Seq<Seq<int>>, p: spec_fn(Seq<int>) -> bool, q: spec_fn(Seq<int>) -> bool, m: Seq<int>)
    requires forall|m: Seq<int>| #[trigger] p(m) ==> q(m), !p(m), q(m), l.contains(m), ensures cnt(l, p) < cnt(l, q) decreases l.len()
{
    let i = choose|i: int| 0 <= i < l.len() && l[i] == m;
    if i == l.len() - 1 { cnt_le(l.drop_last(), p, q); } else { assert(l.drop_last()[i] == m); cnt_lt(l.drop_last(), p, q, m); }
}
pub open spec fn boxed(s: Seq<Term>, n: int) -> bool { forall|i: int| 0 <= i < s.len() ==> tm(#[trigger] s[i]).len() <= n }
pub open spec fn pboxed(g: Seq<Polynomial>, n: int) -> bool { forall|k: int| 0 <= k < g.len() ==> boxed(#[trigger] g[k].terms@, n) }
pub open spec fn tlen(s: Seq<Term>) -> int decreases s.len() { if s.len() == 0 { 0 } else { let a = tlen(s.drop_last()); let b = tm(s.last()).len() as int; if a >= b { a } else { b } } }
pub open spec fn plen(g: Seq<Polynomial>) -> int decreases g.len() { if g.len() == 0 { 0 } else { let a = plen(g.drop_last()); let b = tlen(g.last().terms@); if a >= b { a } else { b } } }
pub proof fn tlen_ok(s: Seq<Term>) ensures boxed(s, tlen(s)), tlen(s) >= 0 decreases s.len()
{ if s.len() > 0 { tlen_ok(s.drop_last()); assert forall|i: int| 0 <= i < s.len() implies tm(#[trigger] s[i]).len() <= tlen(s) by { if i < s.len() - 1 { assert(s.drop_last()[i] == s[i]); } } } }
pub proof fn plen_ok(g: Seq<Polynomial>) ensures pboxed(g, plen(g)), plen(g) >= 0 decreases g.len()
{ if g.len() > 0 { plen_ok(g.drop_last()); assert forall|k: int| 0 <= k < g.len() implies boxed(#[trigger] g[k].terms@, plen(g)) by { tlen_ok(g[k].terms@); if k < g.len() - 1 { assert(g.drop_last()[k] == g[k]); } } } }
pub proof fn lm_bx(s: Seq<Term>, n: int) requires clean(s), s.len() > 0, boxed(s, n), ensures bx(lm(s), n)
{ lt_ok(s); let k = choose|i: int| 0 <= i < s.len() && tm(#[trigger] s[i]) == lm(s); let v = s[k].mdeg.0@; assert forall|i: int| 0 <= i < lm(s).len() implies 0 <= #[trigger] lm(s)[i] <= 255 by { assert(mi(v)[i] == v[i] as int); } }
// what is left to divide: the monomials of the box up to the leading one
pub open spec fn todo(n: int, s: Seq<Term>) -> nat { if s.len() == 0 { 0 } else { 1 + cnt(lst(n), |m: Seq<int>| mono(m) && olt(m, lm(s))) } }
pub proof fn todo_less(n: int, s: Seq<Term>, t: Seq<Term>) requires clean(s), clean(t), s.len() > 0, below(t, lm(s)), boxed(t, n), n >= 0, ensures todo(n, t) < todo(n, s)
{
    if t.len() > 0 {
        lt_ok(s); lt_ok(t); lm_bx(t, n); lst_has(n, lm(t)); let (a, b) = (lm(t), lm(s));
        let k = choose|i: int| 0 <= i < t.len() && tm(#[trigger] t[i]) == a; assert(olt(tm(t[k]), b));
        let p = |m: Seq<int>| mono(m) && olt(m, a); let q = |m: Seq<int>| mono(m) && olt(m, b);
        assert forall|m: Seq<int>| #[trigger] p(m) implies q(m) by { ord_trans(m, a, b); }
        ord_total(a, a); cnt_lt(lst(n), p, q, a);
    }
}
//@ raw
pub open spec fn vby_ocmp(g: spec_fn(Term, Term) -> Ordering) -> bool { forall|x: Term, y: Term| #[trigger] g(x, y) == ocmp(x.mdeg, y.mdeg) }
pub proof fn sort_vals(t: Seq<Term>)
    requires allct(t), ensures forall|s: Seq<Term>, g: spec_fn(Term, Term) -> Ordering| #![trigger sorted_on(s, g)] 0 <= s.len() && vby_ocmp(g) && s.to_multiset() == t.to_multiset() && sorted_on(s, g) ==> osorted(s)
{
    assert forall|s: Seq<Term>, g: spec_fn(Term, Term) -> Ordering| #![trigger sorted_on(s, g)] 0 <= s.len() && vby_ocmp(g) && s.to_multiset() == t.to_multiset() && sorted_on(s, g) implies osorted(s) by {
        perm_clean(t, s);
        assert forall|i: int, j: int| 0 <= i < j < s.len() implies ole(tm(#[trigger] s[i]), tm(#[trigger] s[j])) by { assert(g(s[i], s[j]) != Ordering::Greater); assert(ct(s[i]) && ct(s[j])); ax_ocmp(s[i].mdeg, s[j].mdeg); }
    }
}
//@ raw
// ---------- division
pub open spec fn cleans(g: Seq<Polynomial>) -> bool { forall|k: int| 0 <= k < g.len() ==> clean(#[trigger] g[k].terms@) }
// sum q_i g_i
pub open spec fn dsum(q: Seq<Polynomial>, g: Seq<Polynomial>, w: WF, n: int) -> real decreases n { if n <= 0 { 0real } else { dsum(q, g, w, n - 1) + lf(q[n - 1].terms@, cvw(g[n - 1].terms@, w)) } }
// no term of r is divisible by a leading term of a divisor
pub open spec fn indiv(m: Seq<int>, g: Seq<Polynomial>, n: int) -> bool { forall|k: int| 0 <= k < n && g[k].terms@.len() > 0 ==> !mdvd(lm(#[trigger] g[k].terms@), m) }
pub open spec fn redu(r: Seq<Term>, g: Seq<Polynomial>) -> bool { forall|i: int| 0 <= i < r.len() ==> indiv(tm(#[trigger] r[i]), g, g.len() as int) }
// the leading monomial of t g_k is at most m for each term t of q_k
pub open spec fn qbound1(q: Seq<Term>, g: Seq<Term>, m: Seq<int>) -> bool { forall|i: int| 0 <= i < q.len() ==> g.len() > 0 && ole(madd(tm(#[trigger] q[i]), lm(g)), m) }
pub open spec fn qbound(q: Seq<Polynomial>, g: Seq<Polynomial>, m: Seq<int>) -> bool { forall|k: int| 0 <= k < g.len() ==> qbound1(#[trigger] q[k].terms@, g[k].terms@, m) }
pub open spec fn diveq(f0: Seq<Term>, g: Seq<Polynomial>, q: Seq<Polynomial>, r: Seq<Term>, f: Seq<Term>) -> bool { forall|w: WF| #[trigger] lf(f0, w) == dsum(q, g, w, g.len() as int) + lf(r, w) + lf(f, w) }
pub open spec fn allzero(q: Seq<Polynomial>) -> bool { forall|k: int| 0 <= k < q.len() ==> #[trigger] q[k].terms@.len() == 0 }
pub open spec fn divinv(f0: Seq<Term>, g: Seq<Polynomial>, q: Seq<Polynomial>, r: Seq<Term>, f: Seq<Term>) -> bool {
    &&& clean(f) && clean(r) && cleans(q) && q.len() == g.len() && diveq(f0, g, q, r, f) && redu(r, g)
    &&& f0.len() == 0 ==> f.len() == 0 && r.len() == 0 && allzero(q)
    &&& f0.len() > 0 ==> upto(f, lm(f0)) && upto(r, lm(f0)) && qbound(q, g, lm(f0))
}
pub open spec fn divbox(f0: Seq<Term>, g: Seq<Polynomial>, q: Seq<Polynomial>, r: Seq<Term>, f: Seq<Term>) -> bool { forall|n: int| #![trigger boxed(f0, n)] boxed(f0, n) && pboxed(g, n) ==> boxed(f, n) && boxed(r, n) && pboxed(q, n) }
pub proof fn div_start(f: Seq<Term>, g: Seq<Polynomial>, q: Seq<Polynomial>, r: Seq<Term>)
    requires clean(f), q.len() == g.len(), allzero(q), r.len() == 0, ensures divinv(f, g, q, r, f), divbox(f, g, q, r, f)
{
    assert forall|w: WF| #[trigger] lf(f, w) == dsum(q, g, w, g.len() as int) + lf(r, w) + lf(f, w) by { dsum_zero(q, g, w, g.len() as int); }
    if f.len() > 0 { lt_ok(f); assert forall|i: int| 0 <= i < f.len() implies ole(tm(#[trigger] f[i]), lm(f)) by { if tm(f[i]) == lm(f) { ord_total(lm(f), lm(f)); } } }
}
pub proof fn dsum_zero(q: Seq<Polynomial>, g: Seq<Polynomial>, w: WF, n: int) requires allzero(q), n <= q.len(), ensures dsum(q, g, w, n) == 0real decreases n
{ if n > 0 { dsum_zero(q, g, w, n - 1); assert(q[n - 1].terms@.len() == 0); } }
pub open spec fn added(q1: Seq<Polynomial>, q0: Seq<Polynomial>, k: int, a: Term) -> bool {
    &&& 0 <= k < q0.len() && q1.len() == q0.len() && clean(q1[k].terms@) && forall|j: int| 0 <= j < q0.len() && j != k ==> #[trigger] q1[j] == q0[j]
    &&& forall|w: WF| #[trigger] lf(q1[k].terms@, w) == lf(q0[k].terms@, w) + tf(a, w)
}
pub proof fn dsum_add(q1: Seq<Polynomial>, q0: Seq<Polynomial>, k: int, a: Term, g: Seq<Polynomial>, w: WF, n: int)
    requires added(q1, q0, k, a), 0 <= n <= q0.len(), ensures dsum(q1, g, w, n) == dsum(q0, g, w, n) + if k < n { mu(a.coef.v(), lf(g[k].terms@, shw(tm(a), w))) } else { 0real } decreases n
{ if n > 0 { dsum_add(q1, q0, k, a, g, w, n - 1); if k == n - 1 { let v = cvw(g[k].terms@, w); assert(lf(q1[k].terms@, v) == lf(q0[k].terms@, v) + tf(a, v)); } else { assert(q1[n - 1] == q0[n - 1]); } } }
// a term of h = f + c b or of h = f + (the shift of g by a)
pub proof fn shift_occurs(h: Seq<Term>, f: Seq<Term>, c: real, a: Seq<int>, g: Seq<Term>, i: int)
    requires clean(h), allct(f), allct(g), 0 <= i < h.len(), forall|w: WF| #[trigger] lf(h, w) == lf(f, w) - mu(c, lf(g, shw(a, w))),
    ensures occurs(f, tm(h[i])) || exists|j: int| 0 <= j < g.len() && madd(a, tm(#[trigger] g[j])) == tm(h[i])
{
    let m = tm(h[i]); assert(nzt(h[i])); cf_at(h, i);
    if !occurs(f, m) { cf_absent(f, m); if forall|j: int| 0 <= j < g.len() ==> madd(a, tm(#[trigger] g[j])) != m { ind_absent(g, a, m); assert(lf(h, ind(m)) == lf(f, ind(m)) - mu(c, lf(g, shw(a, ind(m))))); } }
}
pub open spec fn cancels(a: Term, g: Seq<Term>, lt: Term) -> bool { ct(a) && nzt(a) && g.len() > 0 && madd(tm(a), lm(g)) == tm(lt) && mu(a.coef.v(), lc(g)) == lt.coef.v() }
pub open spec fn minus_mul(h: Seq<Term>, f: Seq<Term>, a: Term, g: Seq<Term>) -> bool { clean(h) && forall|w: WF| #[trigger] lf(h, w) == lf(f, w) - mu(a.coef.v(), lf(g, shw(tm(a), w))) }
// f - a g where a LT(g) = LT(f)
pub proof fn red_step(f: Seq<Term>, g: Seq<Term>, a: Term, h: Seq<Term>)
    requires clean(f), clean(g), f.len() > 0, cancels(a, g, ltt(f)), minus_mul(h, f, a, g),
    ensures below(h, lm(f)), forall|n: int| boxed(f, n) && boxed(g, n) ==> #[trigger] boxed(h, n)
{
    lt_ok(f); lt_ok(g); ct_mono(a);
    let (x, y) = (tm(a), lm(g));
    assert forall|i: int| 0 <= i < h.len() implies olt(tm(#[trigger] h[i]), lm(f)) by {
        let m = tm(h[i]); assert(ct(h[i])); ct_mono(h[i]); shift_occurs(h, f, a.coef.v(), x, g, i);
        if m == lm(f) {
            cf_at(h, i); assert(nzt(h[i])); assert(lf(h, ind(m)) == lf(f, ind(m)) - mu(a.coef.v(), lf(g, shw(x, ind(m))))); ind_shift(g, x, y); assert(cf(f, m) == lc(f)); assert(cf(g, y) == lc(g));
        } else if occurs(f, m) { let k = choose|k: int| 0 <= k < f.len() && tm(#[trigger] f[k]) == m; assert(olt(tm(f[k]), lm(f))); }
        else { let j = choose|j: int| 0 <= j < g.len() && madd(x, tm(#[trigger] g[j])) == m; assert(ct(g[j])); ct_mono(g[j]); if tm(g[j]) != y { assert(olt(tm(g[j]), y)); ord_add(tm(g[j]), y, x); } }
    }
    assert forall|n: int| boxed(f, n) && boxed(g, n) implies #[trigger] boxed(h, n) by {
        lm_len(f, n);
        assert forall|i: int| 0 <= i < h.len() implies tm(#[trigger] h[i]).len() <= n by {
            let m = tm(h[i]); shift_occurs(h, f, a.coef.v(), x, g, i);
            if occurs(f, m) { let k = choose|k: int| 0 <= k < f.len() && tm(#[trigger] f[k]) == m; assert(tm(f[k]).len() <= n); }
            else { let j = choose|j: int| 0 <= j < g.len() && madd(x, tm(#[trigger] g[j])) == m; assert(tm(g[j]).len() <= n); }
        }
    }
}
pub proof fn lm_len(f: Seq<Term>, n: int) requires clean(f), f.len() > 0, boxed(f, n), ensures lm(f).len() <= n
{ lt_ok(f); let k = choose|k: int| 0 <= k < f.len() && tm(#[trigger] f[k]) == lm(f); assert(tm(f[k]).len() <= n); }
pub proof fn div_red(f0: Seq<Term>, g: Seq<Polynomial>, q0: Seq<Polynomial>, q1: Seq<Polynomial>, r: Seq<Term>, f: Seq<Term>, h: Seq<Term>, k: int, a: Term)
    requires clean(f0), cleans(g), divinv(f0, g, q0, r, f), divbox(f0, g, q0, r, f), f.len() > 0, added(q1, q0, k, a), cancels(a, g[k].terms@, ltt(f)), minus_mul(h, f, a, g[k].terms@),
    ensures divinv(f0, g, q1, r, h), divbox(f0, g, q1, r, h), below(h, lm(f))
{
    let p = g[k].terms@; assert(clean(p)); lt_ok(f); lt_ok(p); ct_mono(a); lt_ok(f0); let m0 = lm(f0);
    red_step(f, p, a, h);
    assert forall|w: WF| #[trigger] lf(f0, w) == dsum(q1, g, w, g.len() as int) + lf(r, w) + lf(h, w) by { dsum_add(q1, q0, k, a, g, w, g.len() as int); assert(lf(f0, w) == dsum(q0, g, w, g.len() as int) + lf(r, w) + lf(f, w)); assert(lf(h, w) == lf(f, w) - mu(a.coef.v(), lf(p, shw(tm(a), w)))); }
    assert forall|j: int| 0 <= j < q1.len() implies clean(#[trigger] q1[j].terms@) by { if j != k { assert(q1[j] == q0[j]); } }
    let kk = choose|i: int| 0 <= i < f.len() && tm(#[trigger] f[i]) == lm(f); assert(ole(tm(f[kk]), m0));
    assert forall|i: int| 0 <= i < h.len() implies ole(tm(#[trigger] h[i]), m0) by { assert(ct(h[i])); ct_mono(h[i]); ord_trans(tm(h[i]), lm(f), m0); }
    assert forall|i: int| 0 <= i < q1[k].terms@.len() implies tm(#[trigger] q1[k].terms@[i]) == tm(a) || occurs(q0[k].terms@, tm(q1[k].terms@[i])) by { one_occurs(q1[k].terms@, q0[k].terms@, a, i); }
    assert forall|j: int| 0 <= j < g.len() implies qbound1(#[trigger] q1[j].terms@, g[j].terms@, m0) by {
        assert(qbound1(q0[j].terms@, g[j].terms@, m0));
        if j == k { assert forall|i: int| 0 <= i < q1[k].terms@.len() implies ole(madd(tm(#[trigger] q1[k].terms@[i]), lm(p)), m0) by { let m = tm(q1[k].terms@[i]); if m != tm(a) { let l = choose|l: int| 0 <= l < q0[k].terms@.len() && tm(#[trigger] q0[k].terms@[l]) == m; assert(ole(madd(tm(q0[k].terms@[l]), lm(p)), m0)); } } }
        else { assert(q1[j] == q0[j]); }
    }
    assert forall|n: int| #![trigger boxed(f0, n)] boxed(f0, n) && pboxed(g, n) implies boxed(h, n) && boxed(r, n) && pboxed(q1, n) by {
        assert(boxed(g[k].terms@, n)); assert(boxed(h, n)); lm_len(f, n);
        assert forall|j: int| 0 <= j < q1.len() implies boxed(#[trigger] q1[j].terms@, n) by {
            assert(boxed(q0[j].terms@, n));
            if j == k { assert forall|i: int| 0 <= i < q1[k].terms@.len() implies tm(#[trigger] q1[k].terms@[i]).len() <= n by { let m = tm(q1[k].terms@[i]); if m != tm(a) { let l = choose|l: int| 0 <= l < q0[k].terms@.len() && tm(#[trigger] q0[k].terms@[l]) == m; assert(tm(q0[k].terms@[l]).len() <= n); } } }
            else { assert(q1[j] == q0[j]); }
        }
    }
}
pub proof fn one_occurs(s: Seq<Term>, q: Seq<Term>, a: Term, i: int) requires clean(s), 0 <= i < s.len(), forall|w: WF| #[trigger] lf(s, w) == lf(q, w) + tf(a, w), ensures tm(s[i]) == tm(a) || occurs(q, tm(s[i]))
{ let m = tm(s[i]); cf_at(s, i); assert(nzt(s[i])); if !occurs(q, m) { cf_absent(q, m); assert(lf(s, ind(m)) == lf(q, ind(m)) + tf(a, ind(m))); } }
// the leading term moves to the remainder; fs = f, sorted
pub proof fn div_rem(f0: Seq<Term>, g: Seq<Polynomial>, q: Seq<Polynomial>, r: Seq<Term>, f: Seq<Term>, fs: Seq<Term>, r1: Seq<Term>)
    requires clean(f0), cleans(g), divinv(f0, g, q, r, f), divbox(f0, g, q, r, f), f.len() > 0, indiv(lm(f), g, g.len() as int), fs.to_multiset() == f.to_multiset(), osorted(fs), clean(r1),
        forall|w: WF| #[trigger] lf(r1, w) == lf(r, w) + tf(fs.last(), w),
    ensures divinv(f0, g, q, r1, fs.drop_last()), divbox(f0, g, q, r1, fs.drop_last()), below(fs.drop_last(), lm(f))
{
    let h = fs.drop_last(); let m0 = lm(f0); lt_ok(f0); lt_ok(f); perm_clean(f, fs); let t = fs.last(); let n1 = fs.len() - 1;
    assert forall|i: int| 0 <= i < fs.len() implies occurs(f, tm(#[trigger] fs[i])) by { assert(occurs(fs, tm(fs[i]))); }
    assert(is_lt(fs, t)) by { assert forall|i: int| 0 <= i < fs.len() implies ole(tm(#[trigger] fs[i]), tm(t)) by { assert(fs[n1] == t); assert(ct(fs[i]) && ct(fs[n1])); ct_mono(t); if i == n1 { ord_total(tm(t), tm(t)); } } }
    assert(is_lt(f, t)) by {
        assert(fs.contains(t)) by { assert(fs[n1] == t); } perm_contains(fs, f, t); let k = choose|k: int| 0 <= k < f.len() && f[k] == t; assert(f[k] == t);
        assert forall|i: int| 0 <= i < f.len() implies ole(tm(#[trigger] f[i]), tm(t)) by { assert(f.contains(f[i])); perm_contains(f, fs, f[i]); let l = choose|l: int| 0 <= l < fs.len() && fs[l] == f[i]; assert(ole(tm(fs[l]), tm(t))); }
    }
    lt_unique(f, t);
    assert forall|i: int| 0 <= i < h.len() implies ct(#[trigger] h[i]) && nzt(h[i]) && olt(tm(h[i]), lm(f)) && ole(tm(h[i]), m0) by {
        assert(h[i] == fs[i]); assert(ct(fs[i]) && nzt(fs[i])); assert(tm(fs[i]) != tm(fs[n1])); assert(occurs(f, tm(fs[i])));
        let l = choose|l: int| 0 <= l < f.len() && tm(#[trigger] f[l]) == tm(fs[i]); assert(ole(tm(f[l]), m0)); assert(olt(tm(f[l]), lm(f))); }
    assert forall|i: int, j: int| 0 <= i < j < h.len() implies tm(#[trigger] h[i]) != tm(#[trigger] h[j]) by { assert(tm(fs[i]) != tm(fs[j])); }
    assert(clean(h));
    assert forall|w: WF| #[trigger] lf(f0, w) == dsum(q, g, w, g.len() as int) + lf(r1, w) + lf(h, w) by { assert(lf(fs, w) == lf(f, w)); assert(lf(r1, w) == lf(r, w) + tf(t, w)); assert(lf(f0, w) == dsum(q, g, w, g.len() as int) + lf(r, w) + lf(f, w)); }
    let kk = choose|i: int| 0 <= i < f.len() && tm(#[trigger] f[i]) == lm(f);
    assert forall|i: int| 0 <= i < r1.len() implies indiv(tm(#[trigger] r1[i]), g, g.len() as int) && ole(tm(r1[i]), m0) by {
        one_occurs(r1, r, t, i); if tm(r1[i]) == tm(t) { assert(ole(tm(f[kk]), m0)); } else { let l = choose|l: int| 0 <= l < r.len() && tm(#[trigger] r[l]) == tm(r1[i]); assert(indiv(tm(r[l]), g, g.len() as int)); assert(ole(tm(r[l]), m0)); } }
    assert forall|n: int| #![trigger boxed(f0, n)] boxed(f0, n) && pboxed(g, n) implies boxed(h, n) && boxed(r1, n) && pboxed(q, n) by {
        assert(boxed(f, n) && boxed(r, n));
        assert forall|i: int| 0 <= i < h.len() implies tm(#[trigger] h[i]).len() <= n by { assert(occurs(f, tm(fs[i]))); let l = choose|l: int| 0 <= l < f.len() && tm(#[trigger] f[l]) == tm(fs[i]); assert(tm(f[l]).len() <= n); }
        assert forall|i: int| 0 <= i < r1.len() implies tm(#[trigger] r1[i]).len() <= n by { one_occurs(r1, r, t, i); if tm(r1[i]) == tm(t) { assert(tm(f[kk]).len() <= n); } else { let l = choose|l: int| 0 <= l < r.len() && tm(#[trigger] r[l]) == tm(r1[i]); assert(tm(r[l]).len() <= n); } }
    }
}
/// the second case of a division step, whatever the sorted terms fs and the new remainder r1
pub proof fn div_rem_all(f0: Seq<Term>, g: Seq<Polynomial>, q: Seq<Polynomial>, r: Seq<Term>, f: Seq<Term>)
    requires clean(f0), cleans(g), divinv(f0, g, q, r, f), divbox(f0, g, q, r, f), f.len() > 0, indiv(lm(f), g, g.len() as int),
    ensures forall|fs: Seq<Term>| #![trigger osorted(fs)] fs.to_multiset() == f.to_multiset() && osorted(fs) ==> ct(fs.last()),
        forall|fs: Seq<Term>, r1: Seq<Term>| #![trigger osorted(fs), clean(r1)] fs.to_multiset() == f.to_multiset() && osorted(fs) && clean(r1)
            && (forall|w: WF| #[trigger] lf(r1, w) == lf(r, w) + tf(fs.last(), w)) ==> divinv(f0, g, q, r1, fs.drop_last()) && divbox(f0, g, q, r1, fs.drop_last()) && below(fs.drop_last(), lm(f)),
{
    assert forall|fs: Seq<Term>| #![trigger osorted(fs)] fs.to_multiset() == f.to_multiset() && osorted(fs) implies ct(fs.last()) by { perm_clean(f, fs); assert(ct(fs[fs.len() - 1])); }
    assert forall|fs: Seq<Term>, r1: Seq<Term>| #![trigger osorted(fs), clean(r1)] fs.to_multiset() == f.to_multiset() && osorted(fs) && clean(r1)
            && (forall|w: WF| #[trigger] lf(r1, w) == lf(r, w) + tf(fs.last(), w)) implies divinv(f0, g, q, r1, fs.drop_last()) && divbox(f0, g, q, r1, fs.drop_last()) && below(fs.drop_last(), lm(f)) by {
        div_rem(f0, g, q, r, f, fs, r1);
    }
}
//@ fn Computer__divide(f, divs)
//@@ requires: clean(f.terms@), cleans(divs@)
//@@ ensures: divinv(f.terms@, divs@, ret.1@, ret.0.terms@, Seq::empty()), divbox(f.terms@, divs@, ret.1@, ret.0.terms@, Seq::empty())
//@@ loop 1 invariant: divinv(f.terms@, divs@, quotients@, remainder.terms@, f_2.terms@), divbox(f.terms@, divs@, quotients@, remainder.terms@, f_2.terms@), n >= 0, boxed(f.terms@, n), pboxed(divs@, n)
//@@ loop 1 decreases todo(n, f_2.terms@)
//@@ loop 2 invariant: f_2.terms@ == f1, is_lt(f1, lt_f), $s.len() == divs@.len(),
forall|k: int| 0 <= k < $s.len() ==> (#[trigger] $s[k]).0.terms@ == divs@[k].terms@ && *$s[k].1 == q0[k],
forall|k: int| 0 <= k < $i ==> *final((#[trigger] $s[k]).1) == *$s[k].1,
indiv(tm(lt_f), divs@, $i)
//@@ hint loop 1 before
!let ghost n: int = { let a = tlen(f.terms@); let b = plen(divs@); if a >= b { a } else { b } };
//@@ hint loop 1 before
tlen_ok(f.terms@); plen_ok(divs@); div_start(f.terms@, divs@, quotients@, remainder.terms@);
//@@ hint loop 1 start
!let ghost q0 = quotients@; let ghost f1 = f_2.terms@;
//@@ hint loop 2 leave
let k = $i - 1;
assert forall|j: int| k < j < q0.len() implies *final(#[trigger] $s[j].1) == q0[j] by { assert($it@[j - $i] == $s[j]); }
assert forall|j: int| 0 <= j < q0.len() && j != k implies quotients@[j] == q0[j] by { assert(*final($s[j].1) == q0[j]); }
assert(quotients@ =~= q0.update(k, quotients@[k]));
assert forall|a: Term| #[trigger] ct(a) && nzt(a) && madd(tm(a), lm(divs@[k].terms@)) == tm(lt_f) && mu(a.coef.v(), lc(divs@[k].terms@)) == lt_f.coef.v() implies cancels(a, divs@[k].terms@, ltt(f1)) by { }
div_red(f.terms@, divs@, q0, quotients@, remainder.terms@, f1, f_2.terms@, k, a); todo_less(n, f1, f_2.terms@);
//@@ hint loop 2 after
assert forall|j: int| 0 <= j < q0.len() implies quotients@[j] == q0[j] by { assert(*final($s[j].1) == q0[j]); }
assert(quotients@ =~= q0);
assert forall|s: Seq<Term>| #![trigger s.drop_last()] s.len() > 0 implies s.drop_last().push(s.last()) == s by { assert(s.drop_last().push(s.last()) =~= s); }
pre_vals(f1); sort_vals(f1); lt_refs(f1);
//@@ hint loop 2 after
div_rem_all(f.terms@, divs@, quotients@, remainder.terms@, f1);
//@@ hint loop 1 end
todo_less(n, f1, f_2.terms@);
