//@ raw
// ---------- lists of column vectors, as the rows of a matrix
pub open spec fn rowm(s: Seq<Mat>) -> RM { |r: int, c: int| at(s[r], c, 0).v() }
pub open spec fn colv(m: Mat) -> RM { |r: int, c: int| at(m, r, 0).v() }
pub open spec fn vecs(s: Seq<Mat>, n: int) -> bool { forall|i: int| 0 <= i < s.len() ==> wf(#[trigger] s[i]) && s[i].rows == n && s[i].cols == 1 }
// the first k rows of x (of length n) are linearly independent
pub open spec fn nullrow(w: RM, x: RM, k: int, n: int) -> bool { forall|j: int| #![trigger dotp(w, x, 0, j, k)] 0 <= j < n ==> dotp(w, x, 0, j, k) == 0real }
pub open spec fn rows_indep(x: RM, k: int, n: int) -> bool { forall|w: RM| #[trigger] nullrow(w, x, k, n) ==> forall|i: int| #![trigger w(0, i)] 0 <= i < k ==> w(0, i) == 0real }
pub open spec fn rank_of(a: Mat, d: int) -> bool { exists|p: Mat, b: Mat, piv: Seq<int>| #[trigger] rq(p, b, a) && #[trigger] ech(b, piv) && piv.len() == d }
pub proof fn dots_dotp(s: Seq<Mat>, i: int, v: Mat, n: int, k: int)
    requires vecs(s, n), wf(v), v.rows == n, v.cols == 1, 0 <= i < s.len(), 0 <= k <= n, ensures dots(s[i].entries@, v.entries@, k) == dotp(rowm(s), colv(v), i, 0, k) decreases k
{
    if k > 0 {
        dots_dotp(s, i, v, n, k - 1); let x = rowm(s)(i, k - 1); let y = colv(v)(k - 1, 0);
        assert(at(s[i], k - 1, 0) == s[i].entries@[(k - 1) * 1 + 0]); assert(at(v, k - 1, 0) == v.entries@[(k - 1) * 1 + 0]);
    }
}
// rank = number of rows exactly when the rows are independent
pub proof fn full_rank(p: Mat, b: Mat, a: Mat, piv: Seq<int>)
    requires rq(p, b, a), ech(b, piv), ensures (piv.len() == a.rows) == rows_indep(rm(a), a.rows as int, a.cols as int), piv.len() <= a.rows
{
    let n = a.rows as int; let m = a.cols as int; let (pp, bb, aa) = (rm(p), rm(b), rm(a));
    C10_rank_bounds(p, b, a, piv);
    let q = choose|q: RM| #[trigger] inverses(pp, q, n);
    prod_recover(pp, q, bb, aa, n, m);
    if piv.len() == n {
        assert forall|w: RM| #[trigger] nullrow(w, aa, n, m) implies forall|i: int| #![trigger w(0, i)] 0 <= i < n ==> w(0, i) == 0real by {
            let wq = mulm(w, q, n);
            assert forall|j: int| 0 <= j < m implies #[trigger] dotp(wq, bb, 0, j, n) == 0real by {
                dotp_assoc(w, q, bb, 0, j, n, n);
                assert forall|i: int| 0 <= i < n implies #[trigger] mulm(q, bb, n)(i, j) == aa(i, j) by { assert(dotp(q, bb, i, j, n) == aa(i, j)); }
                dotp_ext(w, mulm(q, bb, n), 0, j, w, aa, 0, j, n); assert(dotp(w, aa, 0, j, n) == 0real);
            }
            C10_rows_independent(b, piv, wq, n);
            assert forall|i: int| #![trigger w(0, i)] 0 <= i < n implies w(0, i) == 0real by {
                dotp_assoc(w, q, pp, 0, i, n, n);
                assert forall|k: int| 0 <= k < n implies #[trigger] wq(0, k) == 0real || pp(k, i) == 0real by {}
                dotp_zero(wq, pp, 0, i, 0, n);
                assert forall|k: int| 0 <= k < n implies #[trigger] mulm(q, pp, n)(k, i) == delta(k, i) by { assert(dotp(q, pp, k, i, n) == idm()(k, i)); }
                dotp_one(w, mulm(q, pp, n), 0, i, n, i);
            }
        }
    } else {
        let r = piv.len() as int; let w: RM = |z: int, i: int| pp(r, i);
        assert forall|j: int| #![trigger dotp(w, aa, 0, j, n)] 0 <= j < m implies dotp(w, aa, 0, j, n) == 0real by {
            dotp_ext(w, aa, 0, j, pp, aa, r, j, n); assert(dotp(pp, aa, r, j, n) == bb(r, j)); assert(at(b, r, j).v() == 0real);
        }
        assert(nullrow(w, aa, n, m));
        if rows_indep(aa, n, m) {
            assert forall|i: int| 0 <= i < n implies #[trigger] pp(r, i) == 0real || q(i, r) == 0real by { assert(w(0, i) == 0real); }
            dotp_zero(pp, q, r, r, 0, n); assert(dotp(pp, q, r, r, n) == idm()(r, r));
        }
    }
}
pub proof fn rows_indep_ext(x: RM, y: RM, k: int, n: int)
    requires forall|i: int, j: int| #![trigger x(i, j)] #![trigger y(i, j)] 0 <= i < k && 0 <= j < n ==> x(i, j) == y(i, j), ensures rows_indep(x, k, n) == rows_indep(y, k, n)
{
    assert forall|w: RM| #![trigger nullrow(w, x, k, n)] #![trigger nullrow(w, y, k, n)] nullrow(w, x, k, n) == nullrow(w, y, k, n) by {
        assert forall|j: int| 0 <= j < n implies #[trigger] dotp(w, x, 0, j, k) == dotp(w, y, 0, j, k) by { dotp_ext(w, x, 0, j, w, y, 0, j, k); }
        if nullrow(w, y, k, n) { assert forall|j: int| #![trigger dotp(w, x, 0, j, k)] 0 <= j < n implies dotp(w, x, 0, j, k) == 0real by { assert(dotp(w, y, 0, j, k) == 0real); } }
        if nullrow(w, x, k, n) { assert forall|j: int| #![trigger dotp(w, y, 0, j, k)] 0 <= j < n implies dotp(w, y, 0, j, k) == 0real by { assert(dotp(w, x, 0, j, k) == 0real); } }
    }
}
pub proof fn sq_sum(u: RM, y: RM, n: int)
    requires n >= 0, forall|j: int| 0 <= j < n ==> #[trigger] y(j, 0) == -u(0, j), ensures dotp(u, y, 0, 0, n) <= 0real, dotp(u, y, 0, 0, n) == 0real ==> forall|j: int| 0 <= j < n ==> #[trigger] u(0, j) == 0real decreases n
{
    if n > 0 {
        sq_sum(u, y, n - 1); let x = u(0, n - 1); assert(y(n - 1, 0) == -x); mu_def(x, -x);
        assert(x * (-x) <= 0real) by(nonlinear_arith); assert(x * (-x) == 0real ==> x == 0real) by(nonlinear_arith);
    }
}
pub open spec fn sfx(w: RM, k: int) -> RM { |i: int, z: int| w(0, k + i) }
pub proof fn join_dot(s: Seq<Mat>, o: Seq<Mat>, w: RM, j: int, t: int)
    requires 0 <= t <= o.len(), ensures dotp(w, rowm(s + o), 0, j, s.len() + t) == dotp(w, rowm(s), 0, j, s.len() as int) + dotp(kmat(o), sfx(w, s.len() as int), j, 0, t) decreases t
{
    let k = s.len() as int;
    if t > 0 {
        join_dot(s, o, w, j, t - 1); assert((s + o)[k + t - 1] == o[t - 1]); let x = rowm(s + o)(k + t - 1, j); let y = kmat(o)(j, t - 1); let z = sfx(w, k)(t - 1, 0);
        assert(x == y && z == w(0, k + t - 1));
    } else {
        assert forall|i: int| 0 <= i < k implies #[trigger] rowm(s + o)(i, j) == rowm(s)(i, j) by { assert((s + o)[i] == s[i]); }
        dotp_ext(w, rowm(s + o), 0, j, w, rowm(s), 0, j, k);
    }
}
// independent vectors stay independent together with independent vectors orthogonal to them
pub proof fn join_indep(s: Seq<Mat>, o: Seq<Mat>, n: int)
    requires n >= 0, indep(kmat(o), n, o.len() as int), forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < o.len() ==> #[trigger] dotp(rowm(s), kmat(o), i, j, n) == 0real,
    ensures rows_indep(rowm(s), s.len() as int, n) == rows_indep(rowm(s + o), (s.len() + o.len()) as int, n)
{
    let k = s.len() as int; let t = o.len() as int; let (ss, oo, so) = (rowm(s), kmat(o), rowm(s + o));
    if rows_indep(ss, k, n) {
        assert forall|w: RM| #[trigger] nullrow(w, so, k + t, n) implies forall|i: int| #![trigger w(0, i)] 0 <= i < k + t ==> w(0, i) == 0real by {
            let x = sfx(w, k); let u = mulm(w, ss, k); let y = mulm(oo, x, t);
            assert forall|j: int| 0 <= j < n implies #[trigger] y(j, 0) == -u(0, j) by { join_dot(s, o, w, j, t); assert(dotp(w, so, 0, j, k + t) == 0real); }
            sq_sum(u, y, n);
            dotp_assoc(w, ss, y, 0, 0, k, n);
            assert forall|i: int| 0 <= i < k implies #[trigger] w(0, i) == 0real || mulm(ss, y, n)(i, 0) == 0real by {
                dotp_assoc(ss, oo, x, i, 0, n, t);
                assert forall|j: int| 0 <= j < t implies #[trigger] mulm(ss, oo, n)(i, j) == 0real || x(j, 0) == 0real by { assert(dotp(ss, oo, i, j, n) == 0real); }
                dotp_zero(mulm(ss, oo, n), x, i, 0, 0, t);
            }
            dotp_zero(w, mulm(ss, y, n), 0, 0, 0, k);
            assert forall|j: int| #![trigger dotp(w, ss, 0, j, k)] 0 <= j < n implies dotp(w, ss, 0, j, k) == 0real by { assert(u(0, j) == 0real); }
            assert(nullrow(w, ss, k, n));
            assert forall|j: int| #![trigger dotp(oo, x, j, 0, t)] 0 <= j < n implies dotp(oo, x, j, 0, t) == 0real by { assert(u(0, j) == 0real); assert(y(j, 0) == -u(0, j)); }
            assert(nullcomb(oo, x, n, t));
            assert forall|i: int| #![trigger w(0, i)] 0 <= i < k + t implies w(0, i) == 0real by { if i >= k { assert(x(i - k, 0) == 0real); } }
        }
    }
    if rows_indep(so, k + t, n) {
        assert forall|w: RM| #[trigger] nullrow(w, ss, k, n) implies forall|i: int| #![trigger w(0, i)] 0 <= i < k ==> w(0, i) == 0real by {
            let w2: RM = |z: int, i: int| if i < k { w(0, i) } else { 0real };
            assert forall|j: int| #![trigger dotp(w2, so, 0, j, k + t)] 0 <= j < n implies dotp(w2, so, 0, j, k + t) == 0real by {
                join_dot(s, o, w2, j, t); let x = sfx(w2, k);
                dotp_ext(w2, ss, 0, j, w, ss, 0, j, k); assert(dotp(w, ss, 0, j, k) == 0real);
                assert forall|i: int| 0 <= i < t implies #[trigger] oo(j, i) == 0real || x(i, 0) == 0real by {}
                dotp_zero(oo, x, j, 0, 0, t);
            }
            assert(nullrow(w2, so, k + t, n));
            assert forall|i: int| #![trigger w(0, i)] 0 <= i < k implies w(0, i) == 0real by { assert(w2(0, i) == 0real); }
        }
    }
}
// ---------- cones
// y is the normal of a hyperplane through s and the orthogonal complement o, with all of gs on one side and not all on it
pub open spec fn supp(gs: Seq<Mat>, o: Seq<Mat>, s: Seq<Mat>, n: int, y: RM) -> bool {
    &&& forall|i: int| 0 <= i < gs.len() ==> #[trigger] dotp(rowm(gs), y, i, 0, n) >= 0real
    &&& exists|i: int| 0 <= i < gs.len() && #[trigger] dotp(rowm(gs), y, i, 0, n) != 0real
    &&& forall|i: int| 0 <= i < s.len() ==> #[trigger] dotp(rowm(s), y, i, 0, n) == 0real
    &&& forall|i: int| 0 <= i < o.len() ==> #[trigger] dotp(rowm(o), y, i, 0, n) == 0real
}
pub open spec fn facet_ok(f: Face, gs: Seq<Mat>, o: Seq<Mat>, n: int, d: int) -> bool {
    let nu = colv(f.normal); let fs = f.generators@;
    &&& wf(f.normal) && f.normal.rows == n && f.normal.cols == 1
    &&& exists|j: int| 0 <= j < n && #[trigger] nu(j, 0) != 0real
    &&& forall|i: int| 0 <= i < gs.len() ==> #[trigger] dotp(rowm(gs), nu, i, 0, n) >= 0real
    &&& forall|i: int| 0 <= i < fs.len() ==> #[trigger] dotp(rowm(fs), nu, i, 0, n) == 0real
    &&& forall|i: int| 0 <= i < o.len() ==> #[trigger] dotp(rowm(o), nu, i, 0, n) == 0real
    &&& exists|c: Seq<int>| choice_of(c, gs.len() as int, d - 1) && fs == #[trigger] pick_of(gs, c)
    &&& rows_indep(rowm(fs), d - 1, n)
}
pub open spec fn listed(fs: Seq<Face>, gs: Seq<Mat>, o: Seq<Mat>, s: Seq<Mat>, n: int) -> bool {
    rows_indep(rowm(s), s.len() as int, n) && (exists|y: RM| #[trigger] supp(gs, o, s, n, y)) ==> exists|j: int| 0 <= j < fs.len() && (#[trigger] fs[j]).generators@ == s
}
pub proof fn listed_more(f0: Seq<Face>, f1: Seq<Face>, gs: Seq<Mat>, o: Seq<Mat>, s: Seq<Mat>, n: int)
    requires listed(f0, gs, o, s, n), f0.len() <= f1.len(), forall|j: int| 0 <= j < f0.len() ==> #[trigger] f1[j] == f0[j], ensures listed(f1, gs, o, s, n)
{
    if exists|j: int| 0 <= j < f0.len() && (#[trigger] f0[j]).generators@ == s { let j = choose|j: int| 0 <= j < f0.len() && (#[trigger] f0[j]).generators@ == s; assert(f1[j].generators@ == s); }
}
pub open spec fn cone_parts(kg: Seq<Mat>, fs: Seq<Face>, o: Seq<Mat>, n: int, d: int, gs: Seq<Mat>) -> bool {
    &&& kg == gs && n == gs[0].rows
    &&& exists|g: Mat| #[trigger] gens_ok(gs, o, g, n, d) && rank_of(g, d)
    &&& forall|i: int| 0 <= i < fs.len() ==> facet_ok(#[trigger] fs[i], gs, o, n, d)
    &&& forall|c: Seq<int>| #![trigger pick_of(gs, c)] choice_of(c, gs.len() as int, d - 1) ==> listed(fs, gs, o, pick_of(gs, c), n)
}
pub open spec fn is_cone(k: Cone, gs: Seq<Mat>) -> bool { cone_parts(k.generators@, k.facets@, k.orth_comp_basis@, k.ambient_dim as int, k.dim as int, gs) }
pub open spec fn der(s: Seq<&Mat>) -> Seq<Mat> { Seq::new(s.len(), |i: int| *s[i]) }
// the subsets enumerated (as references) are the index choices among the generators, and all of them
pub open spec fn all_refs(r: Seq<&Mat>, gs: Seq<Mat>) -> bool { r.len() == gs.len() && forall|i: int| 0 <= i < r.len() ==> *(#[trigger] r[i]) == gs[i] }
pub proof fn cone_combos(s: Seq<Vec<&Mat>>, gs: Seq<Mat>, k: int)
    requires exists|r: Seq<&Mat>| all_refs(r, gs) && #[trigger] is_combos(s, r, k),
    ensures forall|i: int| 0 <= i < s.len() ==> choice_der((#[trigger] s[i])@, gs, k),
        forall|c: Seq<int>| #[trigger] chosen_of(c, gs.len() as int, k) ==> exists|i: int| 0 <= i < s.len() && der((#[trigger] s[i])@) == pick_of(gs, c),
{
    let r = choose|r: Seq<&Mat>| all_refs(r, gs) && #[trigger] is_combos(s, r, k);
    assert forall|i: int| 0 <= i < s.len() implies choice_der((#[trigger] s[i])@, gs, k) by {
        assert(comb_is(s[i]@, r, r.len() as int, k));
        let c = choose|c: Seq<int>| choice_of(c, r.len() as int, k) && s[i]@ == #[trigger] pick_of(r, c);
        assert(der(s[i]@) =~= pick_of(gs, c));
    }
    assert forall|c: Seq<int>| #[trigger] chosen_of(c, gs.len() as int, k) implies exists|i: int| 0 <= i < s.len() && der((#[trigger] s[i])@) == pick_of(gs, c) by {
        let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i])@ == pick_of(r, c);
        assert(der(s[i]@) =~= pick_of(gs, c));
    }
}
pub open spec fn choice_der(s: Seq<&Mat>, gs: Seq<Mat>, k: int) -> bool { exists|c: Seq<int>| choice_of(c, gs.len() as int, k) && der(s) == #[trigger] pick_of(gs, c) }
pub open spec fn gens_ok(gs: Seq<Mat>, o: Seq<Mat>, g: Mat, n: int, d: int) -> bool {
    &&& vecs(gs, n) && n >= 0 && o.len() + d == n && d >= 1
    &&& g.rows == gs.len() && g.cols == n && wf(g) && (forall|i: int, j: int| #![trigger at(g, i, j)] inm(g, i, j) ==> at(g, i, j) == at(gs[i], j, 0)) && is_kernel_basis(o, g)
}
// the complement is orthogonal to the generators
pub proof fn gens_orth(gs: Seq<Mat>, o: Seq<Mat>, g: Mat, n: int, d: int, i: int, j: int)
    requires gens_ok(gs, o, g, n, d), 0 <= i < gs.len(), 0 <= j < o.len(), ensures dotp(rowm(gs), kmat(o), i, j, n) == 0real, vecs(o, n)
{
    assert(killed(rm(g), gs.len() as int, n, kmat(o), j)); assert(dotp(rm(g), kmat(o), i, j, n) == 0real);
    assert forall|k: int| 0 <= k < n implies #[trigger] rm(g)(i, k) == rowm(gs)(i, k) by { assert(at(g, i, k) == at(gs[i], k, 0)); }
    dotp_ext(rm(g), kmat(o), i, j, rowm(gs), kmat(o), i, j, n);
}
// m: the chosen generators s, and below them the complement
pub open spec fn stacked(m: Mat, s: Seq<Mat>, o: Seq<Mat>, n: int) -> bool {
    wf(m) && m.rows == s.len() + o.len() && m.cols == n && forall|i: int, j: int| #![trigger at(m, i, j)] inm(m, i, j) ==> at(m, i, j) == at((s + o)[i], j, 0)
}
pub proof fn cone_choice(gs: Seq<Mat>, o: Seq<Mat>, g: Mat, n: int, d: int, c: Seq<int>, m: Mat, p: Mat, b: Mat)
    requires gens_ok(gs, o, g, n, d), choice_of(c, gs.len() as int, d - 1), stacked(m, pick_of(gs, c), o, n), rq(p, b, m), is_ech(b)
    ensures forall|piv: Seq<int>| #[trigger] ech(b, piv) ==> (piv.len() == m.rows) == rows_indep(rowm(pick_of(gs, c)), d - 1, n)
{
    let s = pick_of(gs, c);
    assert forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < o.len() implies #[trigger] dotp(rowm(s), kmat(o), i, j, n) == 0real by {
        gens_orth(gs, o, g, n, d, c[i], j); dotp_ext(rowm(s), kmat(o), i, j, rowm(gs), kmat(o), c[i], j, n);
    }
    join_indep(s, o, n);
    assert forall|i: int, j: int| #![trigger rm(m)(i, j)] #![trigger rowm(s + o)(i, j)] 0 <= i < m.rows && 0 <= j < n implies rm(m)(i, j) == rowm(s + o)(i, j) by { assert(at(m, i, j) == at((s + o)[i], j, 0)); }
    rows_indep_ext(rm(m), rowm(s + o), m.rows as int, n);
    assert forall|piv: Seq<int>| #[trigger] ech(b, piv) implies (piv.len() == m.rows) == rows_indep(rowm(s), d - 1, n) by { full_rank(p, b, m, piv); }
}
pub open spec fn along(y: RM, v: RM, w: real, n: int) -> bool { forall|j: int| 0 <= j < n ==> #[trigger] y(j, 0) == mu(w, v(j, 0)) }
// the kernel of m is spanned by one vector: the normal, up to scale, of the only hyperplane through s and o
pub open spec fn normal_ok(v: Mat, gs: Seq<Mat>, o: Seq<Mat>, s: Seq<Mat>, n: int) -> bool {
    &&& wf(v) && v.rows == n && v.cols == 1
    &&& exists|j: int| 0 <= j < n && #[trigger] colv(v)(j, 0) != 0real
    &&& forall|i: int| 0 <= i < s.len() ==> #[trigger] dotp(rowm(s), colv(v), i, 0, n) == 0real
    &&& forall|i: int| 0 <= i < o.len() ==> #[trigger] dotp(rowm(o), colv(v), i, 0, n) == 0real
    &&& forall|y: RM| #[trigger] supp(gs, o, s, n, y) ==> exists|w: real| #[trigger] along(y, colv(v), w, n)
}
pub proof fn stacked_dot(m: Mat, s: Seq<Mat>, o: Seq<Mat>, n: int, y: RM, c: int, i: int)
    requires stacked(m, s, o, n), 0 <= i < m.rows, ensures dotp(rm(m), y, i, c, n) == (if i < s.len() { dotp(rowm(s), y, i, c, n) } else { dotp(rowm(o), y, i - s.len(), c, n) })
{
    if i < s.len() {
        assert forall|k: int| 0 <= k < n implies #[trigger] rm(m)(i, k) == rowm(s)(i, k) by { assert(at(m, i, k) == at((s + o)[i], k, 0)); }
        dotp_ext(rm(m), y, i, c, rowm(s), y, i, c, n);
    } else {
        let l = i - s.len();
        assert forall|k: int| 0 <= k < n implies #[trigger] rm(m)(i, k) == rowm(o)(l, k) by { assert(at(m, i, k) == at((s + o)[i], k, 0)); assert((s + o)[i] == o[l]); }
        dotp_ext(rm(m), y, i, c, rowm(o), y, l, c, n);
    }
}
pub proof fn cone_normal(gs: Seq<Mat>, o: Seq<Mat>, s: Seq<Mat>, n: int, m: Mat, vs: Seq<Mat>)
    requires n >= 0, stacked(m, s, o, n), is_kernel_basis(vs, m), vs.len() == 1, ensures normal_ok(vs[0], gs, o, s, n)
{
    let v = vs[0]; let x = kmat(vs); let nu = colv(v);
    assert(killed(rm(m), m.rows as int, n, x, 0));
    assert forall|i: int| 0 <= i < m.rows implies #[trigger] dotp(rm(m), nu, i, 0, n) == 0real by {
        assert(dotp(rm(m), x, i, 0, n) == 0real);
        assert forall|k: int| 0 <= k < n implies #[trigger] x(k, 0) == nu(k, 0) by {}
        dotp_ext(rm(m), x, i, 0, rm(m), nu, i, 0, n);
    }
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] dotp(rowm(s), nu, i, 0, n) == 0real by { stacked_dot(m, s, o, n, nu, 0, i); assert(dotp(rm(m), nu, i, 0, n) == 0real); }
    assert forall|i: int| 0 <= i < o.len() implies #[trigger] dotp(rowm(o), nu, i, 0, n) == 0real by { let l = i + s.len(); stacked_dot(m, s, o, n, nu, 0, l); assert(dotp(rm(m), nu, l, 0, n) == 0real); }
    if forall|j: int| 0 <= j < n ==> #[trigger] nu(j, 0) == 0real {
        let w: RM = |i: int, z: int| 1real;
        assert forall|j: int| #![trigger dotp(x, w, j, 0, 1)] 0 <= j < n implies dotp(x, w, j, 0, 1) == 0real by { assert(nu(j, 0) == 0real); assert(x(j, 0) == nu(j, 0)); dotp_one(x, w, j, 0, 1, 0); }
        assert(nullcomb(x, w, n, 1)); assert(w(0, 0) == 0real);
    }
    assert forall|y: RM| #[trigger] supp(gs, o, s, n, y) implies exists|w: real| #[trigger] along(y, nu, w, n) by {
        assert forall|i: int| #![trigger dotp(rm(m), y, i, 0, n)] 0 <= i < m.rows implies dotp(rm(m), y, i, 0, n) == 0real by {
            stacked_dot(m, s, o, n, y, 0, i);
            if i < s.len() { assert(dotp(rowm(s), y, i, 0, n) == 0real); } else { assert(dotp(rowm(o), y, i - s.len(), 0, n) == 0real); }
        }
        assert(killed(rm(m), m.rows as int, n, y, 0));
        let ww = choose|ww: RM| #[trigger] comb(x, ww, y, 0, n, 1); let w = ww(0, 0);
        assert forall|j: int| 0 <= j < n implies #[trigger] y(j, 0) == mu(w, nu(j, 0)) by { assert(dotp(x, ww, j, 0, 1) == y(j, 0)); dotp_one(x, ww, j, 0, 1, 0); mu_facts(w, nu(j, 0)); }
        assert(along(y, nu, w, n));
    }
}
pub proof fn dotp_scale(a: RM, y: RM, v: RM, w: real, r: int, k: int)
    requires forall|j: int| 0 <= j < k ==> #[trigger] y(j, 0) == mu(w, v(j, 0)), ensures dotp(a, y, r, 0, k) == mu(w, dotp(a, v, r, 0, k)) decreases k
{
    if k > 0 {
        dotp_scale(a, y, v, w, r, k - 1); let (p, q, t) = (a(r, k - 1), v(k - 1, 0), dotp(a, v, r, 0, k - 1)); assert(y(k - 1, 0) == mu(w, q));
        assert(p * (w * q) == w * (p * q)) by(nonlinear_arith); assert(w * (t + p * q) == w * t + w * (p * q)) by(nonlinear_arith);
        mu_def(p, mu(w, q)); mu_def(w, t + mu(p, q)); mu_def(w, t); mu_def(p, q);
    }
}
// turning the normal round
pub proof fn normal_neg(v: Mat, u: Mat, gs: Seq<Mat>, o: Seq<Mat>, s: Seq<Mat>, n: int)
    requires n >= 0, normal_ok(v, gs, o, s, n), same_shape(u, v), forall|j: int, c: int| #![trigger at(u, j, c)] inm(v, j, c) ==> at(u, j, c).v() == mu(at(v, j, c).v(), -1real),
    ensures normal_ok(u, gs, o, s, n), forall|a: RM, i: int| #[trigger] dotp(a, colv(u), i, 0, n) == -dotp(a, colv(v), i, 0, n)
{
    let (nu, nv) = (colv(u), colv(v));
    assert forall|j: int| 0 <= j < n implies #[trigger] nu(j, 0) == mu(-1real, nv(j, 0)) by { assert(at(u, j, 0).v() == mu(at(v, j, 0).v(), -1real)); mu_facts(nv(j, 0), -1real); }
    assert forall|a: RM, i: int| #[trigger] dotp(a, nu, i, 0, n) == -dotp(a, nv, i, 0, n) by { dotp_scale(a, nu, nv, -1real, i, n); mu_def(-1real, dotp(a, nv, i, 0, n)); }
    let j = choose|j: int| 0 <= j < n && #[trigger] nv(j, 0) != 0real; assert(nu(j, 0) != 0real) by { mu_def(-1real, nv(j, 0)); }
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] dotp(rowm(s), nu, i, 0, n) == 0real by { assert(dotp(rowm(s), nv, i, 0, n) == 0real); }
    assert forall|i: int| 0 <= i < o.len() implies #[trigger] dotp(rowm(o), nu, i, 0, n) == 0real by { assert(dotp(rowm(o), nv, i, 0, n) == 0real); }
    assert forall|y: RM| #[trigger] supp(gs, o, s, n, y) implies exists|w: real| #[trigger] along(y, nu, w, n) by {
        let w = choose|w: real| #[trigger] along(y, nv, w, n); let z = -w;
        assert forall|j: int| 0 <= j < n implies #[trigger] y(j, 0) == mu(z, nu(j, 0)) by {
            assert(y(j, 0) == mu(w, nv(j, 0))); let q = nv(j, 0); assert(nu(j, 0) == mu(-1real, q)); mu_def(-1real, q); mu_def(w, q); mu_def(z, nu(j, 0)); assert((-w) * (-q) == w * q) by(nonlinear_arith);
        }
        assert(along(y, nu, z, n));
    }
}
// no supporting hyperplane when the generators lie on both sides of the normal
pub proof fn cone_sides(v: Mat, gs: Seq<Mat>, o: Seq<Mat>, s: Seq<Mat>, n: int, a: int, b: int)
    requires n >= 0, normal_ok(v, gs, o, s, n), 0 <= a < gs.len(), 0 <= b < gs.len(), dotp(rowm(gs), colv(v), a, 0, n) > 0real, dotp(rowm(gs), colv(v), b, 0, n) < 0real,
    ensures forall|y: RM| !#[trigger] supp(gs, o, s, n, y)
{
    assert forall|y: RM| !#[trigger] supp(gs, o, s, n, y) by {
        if supp(gs, o, s, n, y) {
            let w = choose|w: real| #[trigger] along(y, colv(v), w, n); let i = choose|i: int| 0 <= i < gs.len() && #[trigger] dotp(rowm(gs), y, i, 0, n) != 0real;
            dotp_scale(rowm(gs), y, colv(v), w, a, n); dotp_scale(rowm(gs), y, colv(v), w, b, n); dotp_scale(rowm(gs), y, colv(v), w, i, n);
            let (da, db, di) = (dotp(rowm(gs), colv(v), a, 0, n), dotp(rowm(gs), colv(v), b, 0, n), dotp(rowm(gs), colv(v), i, 0, n));
            assert(dotp(rowm(gs), y, a, 0, n) >= 0real && dotp(rowm(gs), y, b, 0, n) >= 0real); mu_def(w, da); mu_def(w, db); mu_def(w, di);
            assert(w >= 0real) by(nonlinear_arith) requires w * da >= 0real, da > 0real; assert(w <= 0real) by(nonlinear_arith) requires w * db >= 0real, db < 0real; assert(w == 0real);
            mu_facts(w, di);
        }
    }
}
//@ fn Cone__new(generators)
//@@ requires
generators@.len() > 0, vecs(generators@, generators@[0].rows as int), exists|i: int, j: int| 0 <= i < generators@.len() && 0 <= j < generators@[0].rows && (#[trigger] at(generators@[i], j, 0)).v() != 0real
//@@ ensures
is_cone(ret, generators@)
//@@ hint let dim
!let ghost (gs, gm, n, d, d1): (Seq<Mat>, Mat, int, int, int) = (generators@, generator_mat, ambient_dim as int, dim as int, dim - 1);
//@@ hint let dim
assert forall|piv: Seq<int>| #[trigger] ech(rref.b, piv) implies piv.len() >= 1 && piv.len() <= n by {
    C10_rank_bounds(rref.p, rref.b, gm, piv); let (i, j) = choose|i: int, j: int| 0 <= i < gs.len() && 0 <= j < n && (#[trigger] at(gs[i], j, 0)).v() != 0real; assert(at(gm, i, j) == at(gs[i], j, 0));
}
//@@ hint let orth_comp_basis
!let ghost o: Seq<Mat> = orth_comp_basis@;
//@@ loop 1 invariant
gens_ok(gs, o, gm, n, d), generators@ == gs, orth_comp_basis@ == o,
forall|i: int| 0 <= i < facets@.len() ==> facet_ok(#[trigger] facets@[i], gs, o, n, d),
forall|i: int| 0 <= i < $i ==> listed(facets@, gs, o, der((#[trigger] $s[i])@), n)
//@@ hint loop 1 before
assert(gens_ok(gs, o, gm, n, d));
cone_combos($s, gs, d1);
//@@ hint loop 1 start
!let ghost c: Seq<int> = choose|c: Seq<int>| choice_of(c, gs.len() as int, d1) && der(x1@) == #[trigger] pick_of(gs, c);
//@@ hint loop 1 start
!let ghost (sub, f0): (Seq<Mat>, Seq<Face>) = (pick_of(gs, c), facets@);
//@@ hint let subset_owned
assert(subset_owned@ =~= pick_of(gs, c));
//@@ closure 2 ensures: cret@.len() == a0.entries@.len(), forall|i: int| 0 <= i < cret@.len() ==> #[trigger] cret@[i] == a0.entries@[i]
//@@ hint let subset_mat
assert forall|i: int, j: int| #![trigger at(subset_mat, i, j)] inm(subset_mat, i, j) implies at(subset_mat, i, j) == at((pick_of(gs, c) + o)[i], j, 0) by { }
assert(stacked(subset_mat, pick_of(gs, c), o, n));
//@@ hint let subset_rref
cone_choice(gs, o, gm, n, d, c, subset_mat, subset_rref.p, subset_rref.b);
//@@ hint let subset_kernel
assert(subset_kernel@.len() == 1) by { let piv = choose|piv: Seq<int>| #[trigger] rrefp(subset_rref.b, piv); assert(ech(subset_rref.b, piv)); }
assert(rows_indep(rowm(sub), d - 1, n)) by { let piv = choose|piv: Seq<int>| #[trigger] rrefp(subset_rref.b, piv); assert(ech(subset_rref.b, piv)); }
cone_normal(gs, o, sub, n, subset_mat, subset_kernel@);
//@@ hint let normal
!let ghost nv: Mat = normal;
//@@ hint let normal
assert forall|i: int| 0 <= i < gs.len() implies #[trigger] gs[i].entries@.len() == n && dots(gs[i].entries@, nv.entries@, n) == dotp(rowm(gs), colv(nv), i, 0, n) by { dots_dotp(gs, i, nv, n, n); }
//@@ hint let off_plane
assert(off_plane.v() == 0real ==> forall|i: int| 0 <= i < gs.len() ==> #[trigger] dotp(rowm(gs), colv(nv), i, 0, n) == 0real);
assert(off_plane.v() != 0real ==> exists|i: int| 0 <= i < gs.len() && #[trigger] dotp(rowm(gs), colv(nv), i, 0, n) == off_plane.v());
//@@ hint loop 2 before
if !is_above { normal_neg(nv, normal, gs, o, sub, n); }
assert(normal_ok(normal, gs, o, sub, n));
assert(is_above ==> normal == nv && off_plane.v() >= 0real); assert(!is_above ==> off_plane.v() < 0real);
assert(forall|i: int| #[trigger] dotp(rowm(gs), colv(normal), i, 0, n) == if is_above { dotp(rowm(gs), colv(nv), i, 0, n) } else { -dotp(rowm(gs), colv(nv), i, 0, n) });
if off_plane.v() != 0real { let i = choose|i: int| 0 <= i < gs.len() && #[trigger] dotp(rowm(gs), colv(nv), i, 0, n) == off_plane.v(); assert(dotp(rowm(gs), colv(normal), i, 0, n) > 0real); }
assert((forall|i: int| 0 <= i < gs.len() ==> #[trigger] dotp(rowm(gs), colv(normal), i, 0, n) == 0real) || (exists|i: int| 0 <= i < gs.len() && #[trigger] dotp(rowm(gs), colv(normal), i, 0, n) > 0real));
//@@ loop 2 invariant
forall|i: int| 0 <= i < $i ==> #[trigger] dotp(rowm(gs), colv(normal), i, 0, n) >= 0real
//@@ hint loop 2 start
dots_dotp(gs, $i - 1, normal, n, n);
if dotp(rowm(gs), colv(normal), $i - 1, 0, n) < 0real { let a = choose|i: int| 0 <= i < gs.len() && #[trigger] dotp(rowm(gs), colv(normal), i, 0, n) > 0real; cone_sides(normal, gs, o, sub, n, a, $i - 1); }
//@@ hint let facet
assert(facet_ok(facet, gs, o, n, d));
//@@ hint loop 1 end
assert(facets@.len() == f0.len() + 1);
assert(forall|j: int| 0 <= j < f0.len() ==> #[trigger] facets@[j] == f0[j]);
assert(facets@[f0.len() as int].generators@ == sub);
assert(der($s[$i - 1]@) == sub);
assert(listed(facets@, gs, o, sub, n));
assert forall|i: int| 0 <= i < $i implies listed(facets@, gs, o, der((#[trigger] $s[i])@), n) by { if i < $i - 1 { listed_more(f0, facets@, gs, o, der($s[i]@), n); } }
//@@ hint loop 1 after
assert forall|c: Seq<int>| #![trigger pick_of(gs, c)] choice_of(c, gs.len() as int, d - 1) implies listed(facets@, gs, o, pick_of(gs, c), n) by { assert(chosen_of(c, gs.len() as int, d1)); let i = choose|i: int| 0 <= i < $s.len() && der((#[trigger] $s[i])@) == pick_of(gs, c); }
assert(rank_of(gm, d));
assert(cone_parts(generators@, facets@, orth_comp_basis@, ambient_dim as int, dim as int, gs));
