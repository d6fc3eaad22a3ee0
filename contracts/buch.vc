//@ raw
// ---------- combinations  sum c x g_k  of the generators, as lists of (c, x, k)
pub type RL = Seq<(real, Seq<int>, int)>;
pub open spec fn rt(e: (real, Seq<int>, int), g: Seq<Polynomial>, w: WF) -> real { mu(e.0, lf(g[e.2].terms@, shw(e.1, w))) }
pub open spec fn rs(r: RL, g: Seq<Polynomial>, w: WF) -> real decreases r.len() { if r.len() == 0 { 0real } else { rs(r.drop_last(), g, w) + rt(r.last(), g, w) } }
pub open spec fn rm(e: (real, Seq<int>, int), g: Seq<Polynomial>) -> Seq<int> { madd(e.1, lm(g[e.2].terms@)) }
pub open spec fn rok(r: RL, g: Seq<Polynomial>, n: int) -> bool { forall|i: int| 0 <= i < r.len() ==> nn((#[trigger] r[i]).1, n) && 0 <= r[i].2 < g.len() }
pub open spec fn rle(r: RL, g: Seq<Polynomial>, m: Seq<int>) -> bool { forall|i: int| 0 <= i < r.len() ==> ole(rm(#[trigger] r[i], g), m) }
pub open spec fn rlt(r: RL, g: Seq<Polynomial>, m: Seq<int>) -> bool { forall|i: int| 0 <= i < r.len() ==> olt(rm(#[trigger] r[i], g), m) }
pub open spec fn rsc(r: RL, c: real, x: Seq<int>) -> RL { Seq::new(r.len(), |i: int| (mu(c, r[i].0), madd(x, r[i].1), r[i].2)) }
// nonzero generators in n variables
pub open spec fn gens(g: Seq<Polynomial>, n: int) -> bool { pboxed(g, n) && n >= 0 && gnz(g) }
pub open spec fn gnz(g: Seq<Polynomial>) -> bool { forall|k: int| 0 <= k < g.len() ==> clean(#[trigger] g[k].terms@) && g[k].terms@.len() > 0 }
pub proof fn gen_lm(g: Seq<Polynomial>, n: int, k: int) requires gens(g, n), 0 <= k < g.len(), ensures nn(lm(g[k].terms@), n), lc(g[k].terms@) != 0real, clean(g[k].terms@), g[k].terms@.len() > 0, boxed(g[k].terms@, n)
{ assert(clean(g[k].terms@)); assert(boxed(g[k].terms@, n)); lt_ok(g[k].terms@); lm_len(g[k].terms@, n); }
pub proof fn rs_app(p: RL, q: RL, g: Seq<Polynomial>, w: WF) ensures rs(p + q, g, w) == rs(p, g, w) + rs(q, g, w) decreases q.len()
{ if q.len() > 0 { assert((p + q).drop_last() =~= p + q.drop_last()); rs_app(p, q.drop_last(), g, w); } else { assert(p + q =~= p); } }
pub proof fn rs_push(p: RL, e: (real, Seq<int>, int), g: Seq<Polynomial>, w: WF) ensures rs(p.push(e), g, w) == rs(p, g, w) + rt(e, g, w) { assert(p.push(e).drop_last() =~= p); }
pub proof fn shw_shw(s: Seq<Term>, x: Seq<int>, y: Seq<int>, w: WF) ensures lf(s, shw(x, shw(y, w))) == lf(s, shw(madd(y, x), w))
{ assert forall|i: int| 0 <= i < s.len() implies shw(x, shw(y, w))(tm(#[trigger] s[i])) == shw(madd(y, x), w)(tm(s[i])) by { madd_assoc(y, x, tm(s[i])); } lf_w_ext(s, shw(x, shw(y, w)), shw(madd(y, x), w)); }
pub proof fn rsc_ok(r: RL, c: real, x: Seq<int>, g: Seq<Polynomial>, w: WF) ensures rs(rsc(r, c, x), g, w) == mu(c, rs(r, g, shw(x, w))) decreases r.len()
{
    if r.len() > 0 {
        assert(rsc(r, c, x).drop_last() =~= rsc(r.drop_last(), c, x)); rsc_ok(r.drop_last(), c, x, g, w);
        let e = r.last(); let s = g[e.2].terms@; shw_shw(s, e.1, x, w);
        let a = rs(r.drop_last(), g, shw(x, w)); let b = e.0; let v = lf(s, shw(madd(x, e.1), w));
        assert(c * a + (c * b) * v == c * (a + b * v)) by(nonlinear_arith);
    }
}
pub proof fn rsc_rok(r: RL, c: real, x: Seq<int>, g: Seq<Polynomial>, n: int) requires rok(r, g, n), nn(x, n), ensures rok(rsc(r, c, x), g, n)
{ assert forall|i: int| 0 <= i < r.len() implies nn((#[trigger] rsc(r, c, x)[i]).1, n) && 0 <= rsc(r, c, x)[i].2 < g.len() by { assert(nn(r[i].1, n)); madd_mono(x, r[i].1); } }
pub proof fn rsc_lt(r: RL, c: real, x: Seq<int>, g: Seq<Polynomial>, n: int, m: Seq<int>) requires gens(g, n), rok(r, g, n), nn(x, n), mono(m), ensures rlt(r, g, m) ==> rlt(rsc(r, c, x), g, madd(x, m)), rle(r, g, m) ==> rle(rsc(r, c, x), g, madd(x, m))
{
    assert forall|i: int| 0 <= i < r.len() implies (olt(rm(r[i], g), m) ==> olt(rm(#[trigger] rsc(r, c, x)[i], g), madd(x, m))) && (ole(rm(r[i], g), m) ==> ole(rm(rsc(r, c, x)[i], g), madd(x, m))) by {
        assert(nn(r[i].1, n)); gen_lm(g, n, r[i].2); let l = lm(g[r[i].2].terms@); madd_assoc(x, r[i].1, l); madd_mono(r[i].1, l); ord_add(rm(r[i], g), m, x); }
}
pub proof fn app_rok(p: RL, q: RL, g: Seq<Polynomial>, n: int, m: Seq<int>) requires rok(p, g, n), rok(q, g, n), ensures rok(p + q, g, n), rlt(p, g, m) && rlt(q, g, m) ==> rlt(p + q, g, m), rle(p, g, m) && rle(q, g, m) ==> rle(p + q, g, m)
{
    assert forall|i: int| 0 <= i < (p + q).len() implies #[trigger] (p + q)[i] == (if i < p.len() { p[i] } else { q[i - p.len()] }) by { }
    assert forall|i: int| 0 <= i < (p + q).len() implies nn((#[trigger] (p + q)[i]).1, n) && 0 <= (p + q)[i].2 < g.len() by { if i < p.len() { assert(nn(p[i].1, n)); } else { assert(nn(q[i - p.len()].1, n)); } }
    if rlt(p, g, m) && rlt(q, g, m) { assert forall|i: int| 0 <= i < (p + q).len() implies olt(rm(#[trigger] (p + q)[i], g), m) by { if i < p.len() { assert(olt(rm(p[i], g), m)); } else { assert(olt(rm(q[i - p.len()], g), m)); } } }
    if rle(p, g, m) && rle(q, g, m) { assert forall|i: int| 0 <= i < (p + q).len() implies ole(rm(#[trigger] (p + q)[i], g), m) by { if i < p.len() { assert(ole(rm(p[i], g), m)); } else { assert(ole(rm(q[i - p.len()], g), m)); } } }
}
pub proof fn drop_rok(r: RL, g: Seq<Polynomial>, n: int, m: Seq<int>) requires rok(r, g, n), r.len() > 0, ensures rok(r.drop_last(), g, n), rle(r, g, m) ==> rle(r.drop_last(), g, m), rlt(r, g, m) ==> rlt(r.drop_last(), g, m), nn(r.last().1, n), 0 <= r.last().2 < g.len(), rle(r, g, m) ==> ole(rm(r.last(), g), m), rlt(r, g, m) ==> olt(rm(r.last(), g), m)
{
    let q = r.drop_last(); let l = r.len() - 1; assert(r[l] == r.last());
    assert forall|i: int| 0 <= i < q.len() implies nn((#[trigger] q[i]).1, n) && 0 <= q[i].2 < g.len() by { assert(r[i] == q[i]); }
    if rle(r, g, m) { assert forall|i: int| 0 <= i < q.len() implies ole(rm(#[trigger] q[i], g), m) by { assert(r[i] == q[i]); } assert(ole(rm(r[l], g), m)); }
    if rlt(r, g, m) { assert forall|i: int| 0 <= i < q.len() implies olt(rm(#[trigger] q[i], g), m) by { assert(r[i] == q[i]); } assert(olt(rm(r[l], g), m)); }
}
pub proof fn push_rok(p: RL, e: (real, Seq<int>, int), g: Seq<Polynomial>, n: int, m: Seq<int>) requires rok(p, g, n), nn(e.1, n), 0 <= e.2 < g.len(), ensures rok(p.push(e), g, n), rlt(p, g, m) && olt(rm(e, g), m) ==> rlt(p.push(e), g, m), rle(p, g, m) && ole(rm(e, g), m) ==> rle(p.push(e), g, m)
{
    let q = seq![e]; assert forall|i: int| 0 <= i < q.len() implies #[trigger] q[i] == e by { }
    assert(p.push(e) =~= p + q); app_rok(p, q, g, n, m);
}
// nothing at or above m when all is below m
pub proof fn lf_above(s: Seq<Term>, x: Seq<int>, m: Seq<int>) requires clean(s), s.len() > 0, mono(x), mono(m), olt(madd(x, lm(s)), m), ensures lf(s, shw(x, ind(m))) == 0real
{
    lt_ok(s); madd_mono(x, lm(s));
    assert forall|i: int| 0 <= i < s.len() implies madd(x, tm(#[trigger] s[i])) != m by { assert(ct(s[i])); ct_mono(s[i]); if tm(s[i]) != lm(s) { ord_add(tm(s[i]), lm(s), x); madd_mono(x, tm(s[i])); ord_trans(madd(x, tm(s[i])), madd(x, lm(s)), m); } ord_total(m, m); }
    ind_absent(s, x, m);
}
pub proof fn rs_above(r: RL, g: Seq<Polynomial>, n: int, m: Seq<int>) requires gens(g, n), rok(r, g, n), mono(m), rlt(r, g, m), ensures rs(r, g, ind(m)) == 0real decreases r.len()
{
    if r.len() > 0 { drop_rok(r, g, n, m); rs_above(r.drop_last(), g, n, m); let e = r.last(); gen_lm(g, n, e.2); lf_above(g[e.2].terms@, e.1, m); assert(e.0 * 0real == 0real); }
}
pub proof fn rs_lt(r: RL, g: Seq<Polynomial>, n: int, d: Seq<int>, m: Seq<int>) requires gens(g, n), rok(r, g, n), mono(d), mono(m), rle(r, g, d), olt(d, m), ensures rlt(r, g, m)
{ assert forall|i: int| 0 <= i < r.len() implies olt(rm(#[trigger] r[i], g), m) by { assert(nn(r[i].1, n)); gen_lm(g, n, r[i].2); madd_mono(r[i].1, lm(g[r[i].2].terms@)); ord_trans(rm(r[i], g), d, m); } }
pub proof fn rmax(r: RL, g: Seq<Polynomial>, n: int) -> (d: Seq<int>) requires gens(g, n), rok(r, g, n), r.len() > 0, ensures nn(d, n), rle(r, g, d), exists|i: int| 0 <= i < r.len() && rm(#[trigger] r[i], g) == d decreases r.len()
{
    let e = r.last(); let l = r.len() - 1; assert(r[l] == e); assert(nn(r[l].1, n)); gen_lm(g, n, e.2); let x = rm(e, g); madd_mono(e.1, lm(g[e.2].terms@)); ord_total(x, x);
    if l == 0 { assert(rm(r[0], g) == x); x } else {
        drop_rok(r, g, n, x); let q = r.drop_last(); let d = rmax(q, g, n); ord_total(d, x);
        let k = choose|i: int| 0 <= i < q.len() && rm(#[trigger] q[i], g) == d; assert(r[k] == q[k]);
        let z = if ole(x, d) { d } else { x };
        assert forall|i: int| 0 <= i < r.len() implies ole(rm(#[trigger] r[i], g), z) by { assert(nn(r[i].1, n)); gen_lm(g, n, r[i].2); madd_mono(r[i].1, lm(g[r[i].2].terms@)); if i < l { assert(q[i] == r[i]); assert(ole(rm(q[i], g), d)); if z == x { ord_trans(rm(r[i], g), d, x); } } }
        assert(rm(r[l], g) == x); assert(rm(r[k], g) == d);
        z
    }
}
// ---------- the ideal, and Groebner bases
pub open spec fn rep(p: AP, r: RL, g: Seq<Polynomial>) -> bool { forall|w: WF| #[trigger] pf(p, w) == rs(r, g, w) }
pub open spec fn in_ideal(g: Seq<Polynomial>, n: int, p: AP) -> bool { exists|r: RL| rok(r, g, n) && #[trigger] rep(p, r, g) }
// every leading monomial of the ideal of g is a multiple of one of h
pub open spec fn covers(h: Seq<Polynomial>, m: Seq<int>) -> bool { exists|k: int| 0 <= k < h.len() && mdvd(lm(#[trigger] h[k].terms@), m) }
pub open spec fn cover(g: Seq<Polynomial>, h: Seq<Polynomial>, n: int) -> bool { forall|p: AP, m: Seq<int>| #![trigger lead(p, m)] pmon(p, n) && in_ideal(g, n, p) && lead(p, m) ==> covers(h, m) }
pub open spec fn is_gb(g: Seq<Polynomial>, n: int) -> bool { cover(g, g, n) }
// S(g_i, g_j) = sum c x g_k with all x LT(g_k) below the lcm of the leading monomials
pub open spec fn spair_by(g: Seq<Polynomial>, n: int, i: int, j: int, r: RL) -> bool {
    let (a, b) = (g[i].terms@, g[j].terms@); let m = slcm(a, b);
    rok(r, g, n) && rlt(r, g, m) && forall|w: WF| #[trigger] rs(r, g, w) == sph(a, m, w) - sph(b, m, w)
}
pub open spec fn spair(g: Seq<Polynomial>, n: int, i: int, j: int) -> bool { exists|r: RL| #[trigger] spair_by(g, n, i, j, r) }
pub open spec fn allpairs(g: Seq<Polynomial>, n: int) -> bool { forall|i: int, j: int| 0 <= i < g.len() && 0 <= j < g.len() && i != j ==> #[trigger] spair(g, n, i, j) }
// ---------- Buchberger's criterion
pub proof fn merge(g: Seq<Polynomial>, n: int, t: (real, Seq<int>, int), e: (real, Seq<int>, int), m: Seq<int>) -> (o: (real, RL))
    requires gens(g, n), allpairs(g, n), nn(t.1, n), nn(e.1, n), 0 <= t.2 < g.len(), 0 <= e.2 < g.len(), rm(t, g) == m, rm(e, g) == m, nn(m, n),
    ensures rok(o.1, g, n), rlt(o.1, g, m), forall|w: WF| #[trigger] rt(t, g, w) == rt((o.0, e.1, e.2), g, w) + rs(o.1, g, w)
{
    let (a, b) = (g[t.2].terms@, g[e.2].terms@); gen_lm(g, n, t.2); gen_lm(g, n, e.2);
    if t.2 == e.2 {
        madd_cancel(t.1, e.1, lm(a)); let q: RL = Seq::empty();
        (t.0, q)
    } else {
        assert(spair(g, n, t.2, e.2)); let q0 = choose|r: RL| #[trigger] spair_by(g, n, t.2, e.2, r);
        let (la, lb) = (lm(a), lm(b)); let l = slcm(a, b); mmax_ok(la, lb);
        assert(mdvd(la, m)) by { assert forall|i: int| #[trigger] ex(la, i) <= ex(m, i) by { ex_nonneg(t.1, i); madd_ex(t.1, la, i); } }
        assert(mdvd(lb, m)) by { assert forall|i: int| #[trigger] ex(lb, i) <= ex(m, i) by { ex_nonneg(e.1, i); madd_ex(e.1, lb, i); } }
        C15_lcm_is_least(la, lb, m); msub_ok(m, l); msub_ok(l, la); msub_ok(l, lb); let y = msub(m, l); let (xa, xb) = (msub(l, la), msub(l, lb));
        let (ca, cb) = (lc(a), lc(b)); let c = t.0 * ca;
        let q = rsc(q0, c, y); rsc_rok(q0, c, y, g, n); rsc_lt(q0, c, y, g, n, l);
        madd_assoc(y, xa, la); madd_assoc(y, xb, lb); madd_mono(y, xa); madd_mono(y, xb);
        madd_cancel(madd(y, xa), t.1, la); madd_cancel(madd(y, xb), e.1, lb);
        let d = c / cb;
        assert forall|w: WF| #[trigger] rt(t, g, w) == rt((d, e.1, e.2), g, w) + rs(q, g, w) by {
            rsc_ok(q0, c, y, g, w); let v = shw(y, w); assert(rs(q0, g, v) == sph(a, l, v) - sph(b, l, v));
            shw_shw(a, xa, y, w); shw_shw(b, xb, y, w);
            let fa = lf(a, shw(t.1, w)); let fb = lf(b, shw(e.1, w)); let t0 = t.0;
            assert(t0 * fa == d * fb + c * ((1real / ca) * fa - (1real / cb) * fb)) by {
                assert(c * ((1real / ca) * fa) == t0 * fa) by(nonlinear_arith) requires c == t0 * ca, ca != 0real;
                assert(c * ((1real / cb) * fb) == d * fb) by(nonlinear_arith) requires d == c / cb, cb != 0real;
                let (p1, p2) = ((1real / ca) * fa, (1real / cb) * fb);
                assert(c * (p1 - p2) == c * p1 - c * p2) by(nonlinear_arith);
            }
        }
        (d, q)
    }
}
pub proof fn top_split(g: Seq<Polynomial>, n: int, r: RL, m: Seq<int>) -> (o: (RL, (real, Seq<int>, int)))
    requires gens(g, n), allpairs(g, n), rok(r, g, n), rle(r, g, m), nn(m, n),
    ensures rok(o.0, g, n), rlt(o.0, g, m), o.1.0 != 0real ==> nn(o.1.1, n) && 0 <= o.1.2 < g.len() && rm(o.1, g) == m, forall|w: WF| #[trigger] rs(r, g, w) == rs(o.0, g, w) + rt(o.1, g, w)
    decreases r.len()
{
    if r.len() == 0 {
        let z = (0real, Seq::<int>::empty(), 0int);
        assert forall|w: WF| #[trigger] rs(r, g, w) == rs(r, g, w) + rt(z, g, w) by { let v = lf(g[0].terms@, shw(Seq::<int>::empty(), w)); assert(0real * v == 0real) by(nonlinear_arith); }
        (r, z)
    } else {
        drop_rok(r, g, n, m); let (r0, e) = top_split(g, n, r.drop_last(), m); let t = r.last();
        if rm(t, g) != m {
            push_rok(r0, t, g, n, m);
            assert forall|w: WF| #[trigger] rs(r, g, w) == rs(r0.push(t), g, w) + rt(e, g, w) by { rs_push(r0, t, g, w); assert(rs(r.drop_last(), g, w) == rs(r0, g, w) + rt(e, g, w)); }
            (r0.push(t), e)
        } else if e.0 == 0real {
            assert forall|w: WF| #[trigger] rs(r, g, w) == rs(r0, g, w) + rt(t, g, w) by { assert(rs(r.drop_last(), g, w) == rs(r0, g, w) + rt(e, g, w)); let v = lf(g[e.2].terms@, shw(e.1, w)); assert(0real * v == 0real) by(nonlinear_arith); }
            (r0, t)
        } else {
            let (d, q) = merge(g, n, t, e, m); let e1 = (e.0 + d, e.1, e.2);
            app_rok(r0, q, g, n, m);
            assert forall|w: WF| #[trigger] rs(r, g, w) == rs(r0 + q, g, w) + rt(e1, g, w) by {
                rs_app(r0, q, g, w); assert(rs(r.drop_last(), g, w) == rs(r0, g, w) + rt(e, g, w)); assert(rt(t, g, w) == rt((d, e.1, e.2), g, w) + rs(q, g, w));
                let v = lf(g[e.2].terms@, shw(e.1, w)); let c = e.0; assert((c + d) * v == c * v + d * v) by(nonlinear_arith); }
            (r0 + q, e1)
        }
    }
}
pub open spec fn same_rs(r: RL, s: RL, g: Seq<Polynomial>) -> bool { forall|w: WF| #[trigger] rs(r, g, w) == rs(s, g, w) }
pub open spec fn rep_to(g: Seq<Polynomial>, n: int, r: RL, d: Seq<int>, s: RL) -> bool { rok(s, g, n) && rle(s, g, d) && same_rs(r, s, g) }
pub proof fn buchberger(g: Seq<Polynomial>, n: int) requires gens(g, n), allpairs(g, n), ensures is_gb(g, n)
{
    assert forall|p: AP, m: Seq<int>| #![trigger lead(p, m)] pmon(p, n) && in_ideal(g, n, p) && lead(p, m) implies covers(g, m) by {
        let r = choose|r: RL| rok(r, g, n) && #[trigger] rep(p, r, g);
        assert(pf(p, ind(m)) == rs(r, g, ind(m)));
        let d0 = rmax(r, g, n);
        let f = |d: Seq<int>| exists|s: RL| #[trigger] rep_to(g, n, r, d, s);
        assert(rep_to(g, n, r, d0, r)); assert(f(d0));
        well_order(f, n, d0); let d = choose|d: Seq<int>| is_least(f, n, d); assert(f(d));
        let s = choose|s: RL| #[trigger] rep_to(g, n, r, d, s);
        assert(rs(s, g, ind(m)) != 0real) by { assert(rs(r, g, ind(m)) == rs(s, g, ind(m))); }
        ord_total(d, m);
        if olt(d, m) { rs_lt(s, g, n, d, m); rs_above(s, g, n, m); }
        else if d == m {
            if forall|i: int| 0 <= i < s.len() ==> rm(#[trigger] s[i], g) != m { assert(rlt(s, g, m)); rs_above(s, g, n, m); }
            else {
                let i = choose|i: int| 0 <= i < s.len() && rm(#[trigger] s[i], g) == m; assert(nn(s[i].1, n)); let k = s[i].2; let l = lm(g[k].terms@);
                assert(mdvd(l, m)) by { assert forall|c: int| #[trigger] ex(l, c) <= ex(m, c) by { ex_nonneg(s[i].1, c); madd_ex(s[i].1, l, c); } }
                assert(covers(g, m)) by { assert(mdvd(lm(g[k].terms@), m)); }
            }
        } else {
            assert(olt(m, d)); assert(pc(p, d) == 0real); assert(pf(p, ind(d)) == rs(r, g, ind(d)));
            let (s1, e) = top_split(g, n, s, d); rs_above(s1, g, n, d);
            assert(rs(s, g, ind(d)) == rs(s1, g, ind(d)) + rt(e, g, ind(d))); assert(rs(r, g, ind(d)) == rs(s, g, ind(d)));
            if e.0 != 0real {
                gen_lm(g, n, e.2); let a = g[e.2].terms@; lt_ok(a); ind_shift(a, e.1, lm(a)); let (c, v) = (e.0, lc(a));
                assert(c * v != 0real) by(nonlinear_arith) requires c != 0real, v != 0real;
            }
            assert forall|w: WF| #[trigger] rs(r, g, w) == rs(s1, g, w) by { assert(rs(r, g, w) == rs(s, g, w)); assert(rs(s, g, w) == rs(s1, g, w) + rt(e, g, w)); let v = lf(g[e.2].terms@, shw(e.1, w)); assert(0real * v == 0real) by(nonlinear_arith); }
            if s1.len() == 0 { assert(rs(r, g, ind(m)) == rs(s1, g, ind(m))); }
            let d1 = rmax(s1, g, n); let i = choose|i: int| 0 <= i < s1.len() && rm(#[trigger] s1[i], g) == d1;
            assert(rep_to(g, n, r, d1, s1)); assert(f(d1)); assert(ole(d, d1)); assert(olt(rm(s1[i], g), d)); ord_total(d, d1);
        }
    }
}
