//@ raw
// ---------- C22 and C23 as the property list states them
// a division of an S-polynomial of g_i and g_j by g
pub open spec fn sp_div(g: Seq<Polynomial>, i: int, j: int, h: Seq<Term>, q: Seq<Polynomial>, r: Seq<Term>) -> bool {
    &&& clean(h) && is_spol(h, g[i].terms@, g[j].terms@) && below(h, slcm(g[i].terms@, g[j].terms@))
    &&& divinv(h, g, q, r, Seq::empty()) && divbox(h, g, q, r, Seq::empty())
}
// a Groebner basis is a list all of whose S-polynomials have remainder zero
pub open spec fn sp_zero(g: Seq<Polynomial>, i: int, j: int) -> bool { exists|h: Seq<Term>, q: Seq<Polynomial>, r: Seq<Term>| #[trigger] sp_div(g, i, j, h, q, r) && r.len() == 0 }
pub proof fn C22_as_stated(g: Seq<Polynomial>, n: int)
    requires gens(g, n),
    ensures is_gb(g, n) ==> forall|i: int, j: int, h: Seq<Term>, q: Seq<Polynomial>, r: Seq<Term>| 0 <= i < g.len() && 0 <= j < g.len() && #[trigger] sp_div(g, i, j, h, q, r) ==> r.len() == 0,
        (forall|i: int, j: int| 0 <= i < g.len() && 0 <= j < g.len() && i != j ==> #[trigger] sp_zero(g, i, j)) ==> is_gb(g, n)
{
    if is_gb(g, n) { assert forall|i: int, j: int, h: Seq<Term>, q: Seq<Polynomial>, r: Seq<Term>| 0 <= i < g.len() && 0 <= j < g.len() && #[trigger] sp_div(g, i, j, h, q, r) implies r.len() == 0 by { rem_not_gb(g, n, i, j, h, q, r); } }
    if forall|i: int, j: int| 0 <= i < g.len() && 0 <= j < g.len() && i != j ==> #[trigger] sp_zero(g, i, j) {
        assert forall|i: int, j: int| 0 <= i < g.len() && 0 <= j < g.len() && i != j implies #[trigger] spair(g, n, i, j) by { assert(sp_zero(g, i, j)); let (h, q, r) = choose|h: Seq<Term>, q: Seq<Polynomial>, r: Seq<Term>| #[trigger] sp_div(g, i, j, h, q, r) && r.len() == 0; zero_pair(g, n, i, j, h, q, r); }
        buchberger(g, n);
    }
}
// the basis returned generates the same ideal and its S-polynomials reduce to zero
pub proof fn C23_as_stated(h: Seq<Polynomial>, g: Seq<Polynomial>, n: int)
    requires basis_of(h, g, n),
    ensures forall|p: AP| in_ideal(h, n, p) == #[trigger] in_ideal(g, n, p), forall|i: int, j: int, s: Seq<Term>, q: Seq<Polynomial>, r: Seq<Term>| 0 <= i < h.len() && 0 <= j < h.len() && #[trigger] sp_div(h, i, j, s, q, r) ==> r.len() == 0
{ C22_as_stated(h, n); assert forall|p: AP| in_ideal(h, n, p) == #[trigger] in_ideal(g, n, p) by { basis_same(h, g, n, p); } }
pub open spec fn rgb(g: Seq<Polynomial>, n: int) -> bool { gens(g, n) && is_gb(g, n) && redall(g) && monic(g) }
pub open spec fn same_poly(s: Seq<Term>, t: Seq<Term>) -> bool { forall|w: WF| #[trigger] lf(s, w) == lf(t, w) }
pub proof fn mdvd_trans(a: Seq<int>, b: Seq<int>, c: Seq<int>) requires mdvd(a, b), mdvd(b, c), ensures mdvd(a, c) { assert forall|x: int| #[trigger] ex(a, x) <= ex(c, x) by { assert(ex(a, x) <= ex(b, x)); assert(ex(b, x) <= ex(c, x)); } }
pub proof fn red_lm(g: Seq<Polynomial>, n: int, k: int, j: int) requires gens(g, n), redall(g), 0 <= k < g.len(), 0 <= j < g.len(), mdvd(lm(g[j].terms@), lm(g[k].terms@)), ensures j == k
{ let f = g[k].terms@; gen_lm(g, n, k); lt_ok(f); let c = choose|c: int| 0 <= c < f.len() && tm(#[trigger] f[c]) == lm(f); if j != k { assert(redone(g, k)); assert(redpair(g, k, j)); assert(!mdvd(lm(g[j].terms@), tm(f[c]))); } }
// no monomial of g_k other than the leading one is a leading monomial of the ideal
pub proof fn red_tail(g: Seq<Polynomial>, n: int, k: int, m: Seq<int>) requires rgb(g, n), 0 <= k < g.len(), occurs(g[k].terms@, m), m != lm(g[k].terms@), ensures !covers(g, m)
{
    let f = g[k].terms@; gen_lm(g, n, k); lt_ok(f); let c = choose|c: int| 0 <= c < f.len() && tm(#[trigger] f[c]) == m; assert(ct(f[c])); ct_mono(f[c]); assert(olt(m, lm(f)));
    if covers(g, m) {
        let j = choose|j: int| 0 <= j < g.len() && mdvd(lm(#[trigger] g[j].terms@), m);
        if j == k { ord_dvd(lm(f), m); ord_total(m, lm(f)); } else { assert(redone(g, k)); assert(redpair(g, k, j)); assert(!mdvd(lm(g[j].terms@), tm(f[c]))); }
    }
}
// the reduced Groebner basis of an ideal is unique: what the algorithm returns depends on the ideal alone
pub proof fn C23_unique(g: Seq<Polynomial>, h: Seq<Polynomial>, n: int, k: int)
    requires rgb(g, n), rgb(h, n), sub_ideal(g, h, n), sub_ideal(h, g, n), 0 <= k < g.len(),
    ensures exists|l: int| 0 <= l < h.len() && same_poly(g[k].terms@, #[trigger] h[l].terms@)
{
    let f = g[k].terms@; let x = lm(f); gen_lm(g, n, k); lt_ok(f); ap_lead(f); ap_mon(f, n);
    gb_cover(g, h, n); gb_cover(h, g, n);
    ideal_elem(g, n, k); assert(in_ideal(h, n, ap(f))); assert(covers(h, x)); let l = choose|l: int| 0 <= l < h.len() && mdvd(lm(#[trigger] h[l].terms@), x);
    let e = h[l].terms@; let y = lm(e); gen_lm(h, n, l); lt_ok(e); ap_lead(e); ap_mon(e, n); ideal_elem(h, n, l); assert(in_ideal(g, n, ap(e))); assert(covers(g, y)); let j = choose|j: int| 0 <= j < g.len() && mdvd(lm(#[trigger] g[j].terms@), y);
    mdvd_trans(lm(g[j].terms@), y, x); red_lm(g, n, k, j); ord_dvd(x, y); ord_dvd(y, x); ord_total(x, y); assert(x == y);
    zero_nn(n); ideal_mul(g, n, ap(e), -1real, Seq::empty()); let v = psc(ap(e), -1real, Seq::empty()); psc_mon(ap(e), -1real, Seq::empty(), n); ideal_sum(g, n, ap(f), v); app_mon(ap(f), v, n); let u = ap(f) + v;
    assert forall|w: WF| #[trigger] pf(u, w) == lf(f, w) - lf(e, w) by { pf_app(ap(f), v, w); psc_ok(ap(e), -1real, Seq::empty(), w); shw_zero(w); ap_ok(f, w); ap_ok(e, w); let z = lf(e, w); assert(-1real * z == -z) by(nonlinear_arith); }
    zero_or_lead(u, n);
    if !pzero(u) {
        let m = choose|m: Seq<int>| lead(u, m) && nn(m, n); assert(pf(u, ind(m)) == lf(f, ind(m)) - lf(e, ind(m))); assert(pc(u, m) != 0real);
        assert(lc(f) == 1real && lc(e) == 1real) by { assert(lc(g[k].terms@) == 1real); assert(lc(h[l].terms@) == 1real); }
        assert(covers(g, m)); assert(in_ideal(h, n, u)) by { ideal_trans(g, h, n, u); } assert(covers(h, m));
        if m == x { assert(cf(f, m) == lc(f)); assert(cf(e, m) == lc(e)); }
        else { if occurs(f, m) { red_tail(g, n, k, m); } if occurs(e, m) { red_tail(h, n, l, m); } cf_absent(f, m); cf_absent(e, m); }
    }
    assert(same_poly(f, e)) by { assert forall|w: WF| #[trigger] lf(f, w) == lf(e, w) by { assert(pf(u, w) == lf(f, w) - lf(e, w)); assert(pf(u, w) == 0real); } }
    assert(same_poly(g[k].terms@, h[l].terms@));
}
