//@ raw
// ---------- closure of ideals, divisions in the ideal
pub proof fn ideal_sum(g: Seq<Polynomial>, n: int, p: AP, q: AP) requires in_ideal(g, n, p), in_ideal(g, n, q), ensures in_ideal(g, n, p + q)
{
    let r = choose|r: RL| rok(r, g, n) && #[trigger] rep(p, r, g); let s = choose|r: RL| rok(r, g, n) && #[trigger] rep(q, r, g);
    app_rok(r, s, g, n, Seq::empty());
    assert(rep(p + q, r + s, g)) by { assert forall|w: WF| #[trigger] pf(p + q, w) == rs(r + s, g, w) by { pf_app(p, q, w); rs_app(r, s, g, w); assert(pf(p, w) == rs(r, g, w)); assert(pf(q, w) == rs(s, g, w)); } }
}
pub proof fn ideal_mul(g: Seq<Polynomial>, n: int, p: AP, c: real, x: Seq<int>) requires in_ideal(g, n, p), nn(x, n), ensures in_ideal(g, n, psc(p, c, x))
{
    let r = choose|r: RL| rok(r, g, n) && #[trigger] rep(p, r, g); rsc_rok(r, c, x, g, n);
    assert(rep(psc(p, c, x), rsc(r, c, x), g)) by { assert forall|w: WF| #[trigger] pf(psc(p, c, x), w) == rs(rsc(r, c, x), g, w) by { psc_ok(p, c, x, w); rsc_ok(r, c, x, g, w); assert(pf(p, shw(x, w)) == rs(r, g, shw(x, w))); } }
}
pub proof fn zero_nn(n: int) requires n >= 0, ensures nn(Seq::empty(), n) { assert(mono(Seq::<int>::empty())); }
pub proof fn ideal_elem(g: Seq<Polynomial>, n: int, k: int) requires 0 <= k < g.len(), n >= 0, ensures in_ideal(g, n, ap(g[k].terms@))
{
    let e = (1real, Seq::<int>::empty(), k); let r: RL = Seq::empty(); zero_nn(n); let s = g[k].terms@; push_rok(r, e, g, n, Seq::empty());
    assert(rep(ap(s), r.push(e), g)) by { assert forall|w: WF| #[trigger] pf(ap(s), w) == rs(r.push(e), g, w) by { ap_ok(s, w); rs_push(r, e, g, w); shw_zero(w); } }
}
pub proof fn ideal_eq(g: Seq<Polynomial>, n: int, p: AP, q: AP) requires in_ideal(g, n, p), forall|w: WF| #[trigger] pf(q, w) == pf(p, w), ensures in_ideal(g, n, q)
{ let r = choose|r: RL| rok(r, g, n) && #[trigger] rep(p, r, g); assert(rep(q, r, g)) by { assert forall|w: WF| #[trigger] pf(q, w) == rs(r, g, w) by { assert(pf(q, w) == pf(p, w)); assert(pf(p, w) == rs(r, g, w)); } } }
pub proof fn ideal_zero(g: Seq<Polynomial>, n: int, p: AP) requires pzero(p), ensures in_ideal(g, n, p)
{ let r: RL = Seq::empty(); assert(rep(p, r, g)) by { assert forall|w: WF| #[trigger] pf(p, w) == rs(r, g, w) by { assert(pf(p, w) == 0real); } } }
pub open spec fn sub_ideal(h: Seq<Polynomial>, g: Seq<Polynomial>, n: int) -> bool { forall|k: int| 0 <= k < h.len() ==> in_ideal(g, n, ap(#[trigger] h[k].terms@)) }
pub proof fn ideal_rs(h: Seq<Polynomial>, g: Seq<Polynomial>, n: int, r: RL) -> (p: AP) requires sub_ideal(h, g, n), rok(r, h, n), ensures rep(p, r, h), in_ideal(g, n, p) decreases r.len()
{
    if r.len() == 0 { let p: AP = Seq::empty(); assert forall|w: WF| #[trigger] pf(p, w) == 0real by { } ideal_zero(g, n, p); p }
    else {
        drop_rok(r, h, n, Seq::empty()); let q = ideal_rs(h, g, n, r.drop_last()); let e = r.last(); let t = h[e.2].terms@;
        assert(in_ideal(g, n, ap(t))); ideal_mul(g, n, ap(t), e.0, e.1); let u = psc(ap(t), e.0, e.1); ideal_sum(g, n, q, u);
        assert forall|w: WF| #[trigger] pf(q + u, w) == rs(r, h, w) by { pf_app(q, u, w); psc_ok(ap(t), e.0, e.1, w); ap_ok(t, shw(e.1, w)); assert(pf(q, w) == rs(r.drop_last(), h, w)); }
        q + u
    }
}
pub proof fn ideal_trans(h: Seq<Polynomial>, g: Seq<Polynomial>, n: int, p: AP) requires sub_ideal(h, g, n), in_ideal(h, n, p), ensures in_ideal(g, n, p)
{
    let r = choose|r: RL| rok(r, h, n) && #[trigger] rep(p, r, h); let q = ideal_rs(h, g, n, r);
    assert forall|w: WF| #[trigger] pf(p, w) == pf(q, w) by { assert(pf(p, w) == rs(r, h, w)); assert(pf(q, w) == rs(r, h, w)); } ideal_eq(g, n, q, p);
}
pub proof fn sub_refl(g: Seq<Polynomial>, n: int) requires n >= 0, ensures sub_ideal(g, g, n) { assert forall|k: int| 0 <= k < g.len() implies in_ideal(g, n, ap(#[trigger] g[k].terms@)) by { ideal_elem(g, n, k); } }
pub proof fn sub_trans(f: Seq<Polynomial>, h: Seq<Polynomial>, g: Seq<Polynomial>, n: int) requires sub_ideal(f, h, n), sub_ideal(h, g, n), ensures sub_ideal(f, g, n)
{ assert forall|k: int| 0 <= k < f.len() implies in_ideal(g, n, ap(#[trigger] f[k].terms@)) by { assert(in_ideal(h, n, ap(f[k].terms@))); ideal_trans(h, g, n, ap(f[k].terms@)); } }
// ---------- what a covering family gives: members of the ideal reduce to zero
pub open spec fn std_by(h: Seq<Polynomial>, n: int, p: AP, m: Seq<int>, r: RL) -> bool { rok(r, h, n) && rle(r, h, m) && rep(p, r, h) }
pub open spec fn stdr(h: Seq<Polynomial>, n: int, p: AP, m: Seq<int>) -> bool { exists|r: RL| #[trigger] std_by(h, n, p, m, r) }
pub open spec fn bad(g: Seq<Polynomial>, h: Seq<Polynomial>, n: int, m: Seq<int>, p: AP) -> bool { pmon(p, n) && in_ideal(g, n, p) && lead(p, m) && !stdr(h, n, p, m) }
// p - (c / LT(h_k)) h_k
pub proof fn p_step(p: AP, h: Seq<Polynomial>, n: int, m: Seq<int>, k: int) -> (o: (AP, real, Seq<int>))
    requires gens(h, n), pmon(p, n), lead(p, m), nn(m, n), 0 <= k < h.len(), mdvd(lm(h[k].terms@), m),
    ensures pmon(o.0, n), nn(o.2, n), madd(o.2, lm(h[k].terms@)) == m, o.0 == p + psc(ap(h[k].terms@), o.1, o.2), forall|w: WF| #[trigger] pf(o.0, w) == pf(p, w) + mu(o.1, lf(h[k].terms@, shw(o.2, w))),
        forall|x: Seq<int>| mono(x) && !olt(x, m) ==> #[trigger] pc(o.0, x) == 0real,
{
    let s = h[k].terms@; gen_lm(h, n, k); let l = lm(s); lt_ok(s); msub_ok(m, l); let x = msub(m, l);
    let c = pc(p, m); let d = -(c / lc(s)); let a = ap(s); ap_mon(s, n); psc_mon(a, d, x, n); let q = p + psc(a, d, x); app_mon(p, psc(a, d, x), n);
    assert forall|w: WF| #[trigger] pf(q, w) == pf(p, w) + mu(d, lf(s, shw(x, w))) by { pf_app(p, psc(a, d, x), w); psc_ok(a, d, x, w); ap_ok(s, shw(x, w)); }
    assert forall|y: Seq<int>| mono(y) && !olt(y, m) implies #[trigger] pc(q, y) == 0real by {
        ord_total(y, m);
        assert(pf(q, ind(y)) == pf(p, ind(y)) + mu(d, lf(s, shw(x, ind(y)))));
        if y == m { ind_shift(s, x, l); let v = lc(s); assert(d * v == -c) by(nonlinear_arith) requires d == -(c / v), v != 0real; }
        else { assert(olt(m, y)); lf_above(s, x, y); assert(pc(p, y) == 0real); assert(d * 0real == 0real) by(nonlinear_arith); }
    }
    (q, d, x)
}
pub proof fn cover_std(g: Seq<Polynomial>, h: Seq<Polynomial>, n: int, p: AP, m: Seq<int>)
    requires gens(g, n), gens(h, n), sub_ideal(h, g, n), cover(g, h, n), pmon(p, n), in_ideal(g, n, p), lead(p, m), nn(m, n), ensures stdr(h, n, p, m)
{
    if !stdr(h, n, p, m) {
        let f = |d: Seq<int>| exists|q: AP| #[trigger] bad(g, h, n, d, q);
        assert(bad(g, h, n, m, p)); assert(f(m)); well_order(f, n, m); let d = choose|d: Seq<int>| is_least(f, n, d); assert(f(d));
        let q = choose|q: AP| #[trigger] bad(g, h, n, d, q);
        assert(lead(q, d)); assert(covers(h, d)); let k = choose|k: int| 0 <= k < h.len() && mdvd(lm(#[trigger] h[k].terms@), d);
        let (q1, c, x) = p_step(q, h, n, d, k); let s = h[k].terms@;
        assert(in_ideal(g, n, ap(s))); ideal_mul(g, n, ap(s), c, x); ideal_sum(g, n, q, psc(ap(s), c, x));
        zero_or_lead(q1, n);
        let r1: RL = if pzero(q1) {
            Seq::empty()
        } else {
            let d1 = choose|m: Seq<int>| lead(q1, m) && nn(m, n); assert(pc(q1, d1) != 0real); assert(olt(d1, d));
            if !stdr(h, n, q1, d1) { assert(bad(g, h, n, d1, q1)); assert(f(d1)); ord_total(d, d1); }
            let r = choose|r: RL| #[trigger] std_by(h, n, q1, d1, r);
            assert(rle(r, h, d)) by { rs_lt(r, h, n, d1, d); assert forall|i: int| 0 <= i < r.len() implies ole(rm(#[trigger] r[i], h), d) by { assert(olt(rm(r[i], h), d)); } }
            r
        };
        assert(rok(r1, h, n) && rle(r1, h, d) && rep(q1, r1, h)) by { if pzero(q1) { assert forall|w: WF| #[trigger] pf(q1, w) == rs(r1, h, w) by { } } }
        let e = (-c, x, k); push_rok(r1, e, h, n, d); ord_total(d, d); let r = r1.push(e);
        assert(rep(q, r, h)) by { assert forall|w: WF| #[trigger] pf(q, w) == rs(r, h, w) by { rs_push(r1, e, h, w); assert(pf(q1, w) == rs(r1, h, w)); assert(pf(q1, w) == pf(q, w) + mu(c, lf(s, shw(x, w)))); let v = lf(s, shw(x, w)); assert((-c) * v == -(c * v)) by(nonlinear_arith); } }
        assert(std_by(h, n, q, d, r));
    }
}
pub proof fn cover_ideal(g: Seq<Polynomial>, h: Seq<Polynomial>, n: int, p: AP)
    requires gens(g, n), gens(h, n), sub_ideal(h, g, n), cover(g, h, n), pmon(p, n), in_ideal(g, n, p), ensures in_ideal(h, n, p)
{
    zero_or_lead(p, n);
    if pzero(p) { ideal_zero(h, n, p); } else { let m = choose|m: Seq<int>| lead(p, m) && nn(m, n); cover_std(g, h, n, p, m); let r = choose|r: RL| #[trigger] std_by(h, n, p, m, r); }
}
// a family that covers the ideal of g is a Groebner basis of it
pub open spec fn basis_of(h: Seq<Polynomial>, g: Seq<Polynomial>, n: int) -> bool { gens(h, n) && sub_ideal(h, g, n) && sub_ideal(g, h, n) && is_gb(h, n) }
pub proof fn cover_gb(g: Seq<Polynomial>, h: Seq<Polynomial>, n: int) requires gens(g, n), gens(h, n), sub_ideal(h, g, n), cover(g, h, n), ensures basis_of(h, g, n)
{
    assert forall|k: int| 0 <= k < g.len() implies in_ideal(h, n, ap(#[trigger] g[k].terms@)) by { ideal_elem(g, n, k); gen_lm(g, n, k); ap_mon(g[k].terms@, n); cover_ideal(g, h, n, ap(g[k].terms@)); }
    assert forall|p: AP, m: Seq<int>| #![trigger lead(p, m)] pmon(p, n) && in_ideal(h, n, p) && lead(p, m) implies covers(h, m) by { ideal_trans(h, g, n, p); }
}
pub proof fn gb_cover(g: Seq<Polynomial>, h: Seq<Polynomial>, n: int) requires sub_ideal(g, h, n), is_gb(h, n), ensures cover(g, h, n)
{ assert forall|p: AP, m: Seq<int>| #![trigger lead(p, m)] pmon(p, n) && in_ideal(g, n, p) && lead(p, m) implies covers(h, m) by { ideal_trans(g, h, n, p); } }
pub proof fn basis_trans(h: Seq<Polynomial>, f: Seq<Polynomial>, g: Seq<Polynomial>, n: int) requires basis_of(h, f, n), sub_ideal(f, g, n), sub_ideal(g, f, n), ensures basis_of(h, g, n) { sub_trans(h, f, g, n); sub_trans(g, f, h, n); }
pub proof fn basis_same(h: Seq<Polynomial>, g: Seq<Polynomial>, n: int, p: AP) requires sub_ideal(h, g, n), sub_ideal(g, h, n), ensures in_ideal(h, n, p) == in_ideal(g, n, p)
{ if in_ideal(h, n, p) { ideal_trans(h, g, n, p); } if in_ideal(g, n, p) { ideal_trans(g, h, n, p); } }
