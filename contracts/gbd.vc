//@ raw
// ---------- the quotients of a division as a combination of the divisors
pub open spec fn ql(s: Seq<Term>, k: int) -> RL { Seq::new(s.len(), |i: int| (s[i].coef.v(), tm(s[i]), k)) }
pub open spec fn qfl(q: Seq<Polynomial>, n: int) -> RL decreases n { if n <= 0 { Seq::empty() } else { qfl(q, n - 1) + ql(q[n - 1].terms@, n - 1) } }
pub proof fn ql_rs(s: Seq<Term>, k: int, g: Seq<Polynomial>, w: WF) ensures rs(ql(s, k), g, w) == lf(s, cvw(g[k].terms@, w)) decreases s.len()
{ if s.len() > 0 { assert(ql(s, k).drop_last() =~= ql(s.drop_last(), k)); ql_rs(s.drop_last(), k, g, w); assert(cvw(g[k].terms@, w)(tm(s.last())) == lf(g[k].terms@, shw(tm(s.last()), w))); } }
pub proof fn qfl_rs(q: Seq<Polynomial>, g: Seq<Polynomial>, w: WF, n: int) ensures rs(qfl(q, n), g, w) == dsum(q, g, w, n) decreases n
{ if n > 0 { qfl_rs(q, g, w, n - 1); ql_rs(q[n - 1].terms@, n - 1, g, w); rs_app(qfl(q, n - 1), ql(q[n - 1].terms@, n - 1), g, w); } }
pub proof fn qfl_ok(q: Seq<Polynomial>, g: Seq<Polynomial>, m: Seq<int>, n: int, k: int)
    requires cleans(q), q.len() == g.len(), 0 <= k <= q.len(), pboxed(q, n), ensures rok(qfl(q, k), g, n), qbound(q, g, m) ==> rle(qfl(q, k), g, m), allzero(q) ==> qfl(q, k).len() == 0 decreases k
{
    if k > 0 {
        qfl_ok(q, g, m, n, k - 1); let s = q[k - 1].terms@; let t = ql(s, k - 1); assert(clean(s)); assert(boxed(s, n));
        assert forall|i: int| 0 <= i < t.len() implies nn((#[trigger] t[i]).1, n) && 0 <= t[i].2 < g.len() by { assert(ct(s[i])); ct_mono(s[i]); assert(tm(s[i]).len() <= n); }
        if qbound(q, g, m) { assert(qbound1(q[k - 1].terms@, g[k - 1].terms@, m)); assert forall|i: int| 0 <= i < t.len() implies ole(rm(#[trigger] t[i], g), m) by { assert(ole(madd(tm(s[i]), lm(g[k - 1].terms@)), m)); } }
        app_rok(qfl(q, k - 1), t, g, n, m);
    }
}
// f = (a combination of the g_k) + r
pub proof fn div_rl(f: Seq<Term>, g: Seq<Polynomial>, q: Seq<Polynomial>, r: Seq<Term>, n: int) -> (o: RL)
    requires divinv(f, g, q, r, Seq::empty()), pboxed(q, n),
    ensures rok(o, g, n), f.len() > 0 ==> rle(o, g, lm(f)), f.len() == 0 ==> o.len() == 0, forall|w: WF| #[trigger] lf(f, w) == rs(o, g, w) + lf(r, w)
{
    let k = q.len() as int; qfl_ok(q, g, lm(f), n, k);
    assert forall|w: WF| #[trigger] lf(f, w) == rs(qfl(q, k), g, w) + lf(r, w) by { qfl_rs(q, g, w, k); assert(lf(f, w) == dsum(q, g, w, k) + lf(r, w) + lf(Seq::<Term>::empty(), w)); }
    qfl(q, k)
}
pub proof fn rem_ideal(f: Seq<Term>, g: Seq<Polynomial>, q: Seq<Polynomial>, r: Seq<Term>, h: Seq<Polynomial>, n: int)
    requires divinv(f, g, q, r, Seq::empty()), pboxed(q, n), n >= 0, sub_ideal(g, h, n), in_ideal(h, n, ap(f)), ensures in_ideal(h, n, ap(r))
{
    let o = div_rl(f, g, q, r, n); let p = ideal_rs(g, h, n, o); zero_nn(n); ideal_mul(h, n, p, -1real, Seq::empty()); let u = psc(p, -1real, Seq::empty()); ideal_sum(h, n, ap(f), u);
    assert forall|w: WF| #[trigger] pf(ap(r), w) == pf(ap(f) + u, w) by { pf_app(ap(f), u, w); psc_ok(p, -1real, Seq::empty(), w); shw_zero(w); ap_ok(r, w); ap_ok(f, w); assert(pf(p, w) == rs(o, g, w)); assert(lf(f, w) == rs(o, g, w) + lf(r, w)); let v = pf(p, w); assert(-1real * v == -v) by(nonlinear_arith); }
    ideal_eq(h, n, ap(f) + u, ap(r));
}
// a reduced member of the ideal of a Groebner basis is zero
pub proof fn gb_rem_zero(g: Seq<Polynomial>, n: int, r: Seq<Term>) requires gens(g, n), is_gb(g, n), clean(r), boxed(r, n), in_ideal(g, n, ap(r)), redu(r, g), ensures r.len() == 0
{
    if r.len() > 0 {
        ap_lead(r); ap_mon(r, n); lt_ok(r); assert(covers(g, lm(r))); let k = choose|k: int| 0 <= k < g.len() && mdvd(lm(#[trigger] g[k].terms@), lm(r));
        let i = choose|i: int| 0 <= i < r.len() && tm(#[trigger] r[i]) == lm(r); assert(indiv(tm(r[i]), g, g.len() as int)); assert(g[k].terms@.len() > 0);
    }
}
// ---------- S-polynomials as members of the ideal
pub proof fn sp_ap(g: Seq<Polynomial>, n: int, i: int, j: int) -> (p: AP)
    requires gens(g, n), 0 <= i < g.len(), 0 <= j < g.len(),
    ensures pmon(p, n), in_ideal(g, n, p), nn(slcm(g[i].terms@, g[j].terms@), n), forall|w: WF| #[trigger] pf(p, w) == sph(g[i].terms@, slcm(g[i].terms@, g[j].terms@), w) - sph(g[j].terms@, slcm(g[i].terms@, g[j].terms@), w),
        forall|x: Seq<int>| mono(x) && !olt(x, slcm(g[i].terms@, g[j].terms@)) ==> #[trigger] pc(p, x) == 0real,
{
    let (a, b) = (g[i].terms@, g[j].terms@); gen_lm(g, n, i); gen_lm(g, n, j); let (la, lb) = (lm(a), lm(b)); let l = slcm(a, b);
    mmax_ok(la, lb); msub_ok(l, la); msub_ok(l, lb); let (xa, xb) = (msub(l, la), msub(l, lb)); let (ca, cb) = (lc(a), lc(b));
    let (da, db) = (1real / ca, -(1real / cb));
    ap_mon(a, n); ap_mon(b, n); psc_mon(ap(a), da, xa, n); psc_mon(ap(b), db, xb, n); let (pa, pb) = (psc(ap(a), da, xa), psc(ap(b), db, xb)); app_mon(pa, pb, n);
    ideal_elem(g, n, i); ideal_elem(g, n, j); ideal_mul(g, n, ap(a), da, xa); ideal_mul(g, n, ap(b), db, xb); ideal_sum(g, n, pa, pb);
    let p = pa + pb;
    assert forall|w: WF| #[trigger] pf(p, w) == sph(a, l, w) - sph(b, l, w) by { pf_app(pa, pb, w); psc_ok(ap(a), da, xa, w); psc_ok(ap(b), db, xb, w); ap_ok(a, shw(xa, w)); ap_ok(b, shw(xb, w)); let v = lf(b, shw(xb, w)); let c = 1real / cb; assert((-c) * v == -(c * v)) by(nonlinear_arith); }
    assert forall|x: Seq<int>| mono(x) && !olt(x, l) implies #[trigger] pc(p, x) == 0real by {
        ord_total(x, l); assert(pf(p, ind(x)) == sph(a, l, ind(x)) - sph(b, l, ind(x)));
        if x == l {
            ind_shift(a, xa, la); ind_shift(b, xb, lb); lt_ok(a); lt_ok(b);
            assert((1real / ca) * ca == 1real) by(nonlinear_arith) requires ca != 0real; assert((1real / cb) * cb == 1real) by(nonlinear_arith) requires cb != 0real;
        } else { lf_above(a, xa, x); lf_above(b, xb, x); let (u, v) = (1real / ca, 1real / cb); assert(u * 0real == 0real) by(nonlinear_arith); assert(v * 0real == 0real) by(nonlinear_arith); }
    }
    p
}
pub proof fn spol_in(g: Seq<Polynomial>, n: int, i: int, j: int, h: Seq<Term>) requires gens(g, n), 0 <= i < g.len(), 0 <= j < g.len(), clean(h), is_spol(h, g[i].terms@, g[j].terms@), ensures in_ideal(g, n, ap(h)), boxed(h, n)
{
    let p = sp_ap(g, n, i, j); let (a, b) = (g[i].terms@, g[j].terms@); let l = slcm(a, b);
    assert forall|w: WF| #[trigger] pf(ap(h), w) == pf(p, w) by { ap_ok(h, w); assert(lf(h, w) == sph(a, l, w) - sph(b, l, w)); }
    ideal_eq(g, n, p, ap(h));
    assert forall|k: int| 0 <= k < h.len() implies tm(#[trigger] h[k]).len() <= n by {
        let m = tm(h[k]); assert(nzt(h[k])); cf_at(h, k); assert(pf(ap(h), ind(m)) == pf(p, ind(m))); ap_ok(h, ind(m));
        if !phas(p, m) { pc_absent(p, m); } let q = choose|q: int| 0 <= q < p.len() && (#[trigger] p[q]).1 == m; assert(nn(p[q].1, n)); }
}
// remainder zero: the pair is in order
pub proof fn zero_pair(g: Seq<Polynomial>, n: int, i: int, j: int, h: Seq<Term>, q: Seq<Polynomial>, r: Seq<Term>)
    requires gens(g, n), 0 <= i < g.len(), 0 <= j < g.len(), clean(h), is_spol(h, g[i].terms@, g[j].terms@), below(h, slcm(g[i].terms@, g[j].terms@)), divinv(h, g, q, r, Seq::empty()), divbox(h, g, q, r, Seq::empty()), r.len() == 0,
    ensures spair(g, n, i, j)
{
    spol_in(g, n, i, j, h); assert(boxed(h, n)); let o = div_rl(h, g, q, r, n); let (a, b) = (g[i].terms@, g[j].terms@); let l = slcm(a, b);
    gen_lm(g, n, i); gen_lm(g, n, j); mmax_ok(lm(a), lm(b));
    if h.len() > 0 { lt_ok(h); let k = choose|k: int| 0 <= k < h.len() && tm(#[trigger] h[k]) == lm(h); assert(olt(tm(h[k]), l)); rs_lt(o, g, n, lm(h), l); }
    assert(spair_by(g, n, i, j, o)) by { assert forall|w: WF| #[trigger] rs(o, g, w) == sph(a, l, w) - sph(b, l, w) by { assert(lf(h, w) == rs(o, g, w) + lf(r, w)); assert(lf(h, w) == sph(a, l, w) - sph(b, l, w)); } }
}
pub proof fn pair_swap(g: Seq<Polynomial>, n: int, i: int, j: int) requires gens(g, n), 0 <= i < g.len(), 0 <= j < g.len(), spair(g, n, i, j), ensures spair(g, n, j, i)
{
    let r = choose|r: RL| #[trigger] spair_by(g, n, i, j, r); let (a, b) = (g[i].terms@, g[j].terms@); let l = slcm(a, b);
    gen_lm(g, n, i); gen_lm(g, n, j); mmax_ok(lm(a), lm(b)); assert(slcm(b, a) =~= l);
    zero_nn(n); let s = rsc(r, -1real, Seq::empty()); rsc_rok(r, -1real, Seq::empty(), g, n); rsc_lt(r, -1real, Seq::empty(), g, n, l); madd_zero(l);
    assert(spair_by(g, n, j, i, s)) by { assert forall|w: WF| #[trigger] rs(s, g, w) == sph(b, l, w) - sph(a, l, w) by { rsc_ok(r, -1real, Seq::empty(), g, w); shw_zero(w); assert(rs(r, g, w) == sph(a, l, w) - sph(b, l, w)); let v = rs(r, g, w); assert(-1real * v == -v) by(nonlinear_arith); } }
}
// in a Groebner basis every pair is in order
pub proof fn gb_pairs(g: Seq<Polynomial>, n: int) requires gens(g, n), is_gb(g, n), ensures allpairs(g, n)
{
    assert forall|i: int, j: int| 0 <= i < g.len() && 0 <= j < g.len() && i != j implies #[trigger] spair(g, n, i, j) by {
        let p = sp_ap(g, n, i, j); let l = slcm(g[i].terms@, g[j].terms@); zero_or_lead(p, n); sub_refl(g, n);
        if pzero(p) { let r: RL = Seq::empty(); assert(spair_by(g, n, i, j, r)) by { assert forall|w: WF| #[trigger] rs(r, g, w) == sph(g[i].terms@, l, w) - sph(g[j].terms@, l, w) by { assert(pf(p, w) == 0real); } } }
        else {
            let m = choose|m: Seq<int>| lead(p, m) && nn(m, n); assert(pc(p, m) != 0real); assert(olt(m, l)); cover_std(g, g, n, p, m); let r = choose|r: RL| #[trigger] std_by(g, n, p, m, r); rs_lt(r, g, n, m, l);
            assert(spair_by(g, n, i, j, r)) by { assert forall|w: WF| #[trigger] rs(r, g, w) == sph(g[i].terms@, l, w) - sph(g[j].terms@, l, w) by { assert(pf(p, w) == rs(r, g, w)); } }
        }
    }
}
// a nonzero remainder: no Groebner basis
pub proof fn rem_not_gb(g: Seq<Polynomial>, n: int, i: int, j: int, h: Seq<Term>, q: Seq<Polynomial>, r: Seq<Term>)
    requires gens(g, n), 0 <= i < g.len(), 0 <= j < g.len(), clean(h), is_spol(h, g[i].terms@, g[j].terms@), divinv(h, g, q, r, Seq::empty()), divbox(h, g, q, r, Seq::empty()),
    ensures boxed(r, n), in_ideal(g, n, ap(r)), is_gb(g, n) ==> r.len() == 0
{
    spol_in(g, n, i, j, h); assert(boxed(h, n)); sub_refl(g, n); rem_ideal(h, g, q, r, g, n); if is_gb(g, n) { gb_rem_zero(g, n, r); }
}
