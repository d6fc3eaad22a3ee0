//@ raw
// ---------- linear algebra over the reals, on functions of two indices
pub proof fn dotp_ext(a: RM, b: RM, r: int, c: int, a2: RM, b2: RM, r2: int, c2: int, k: int)
    requires forall|i: int| 0 <= i < k ==> #[trigger] a(r, i) == a2(r2, i), forall|i: int| 0 <= i < k ==> #[trigger] b(i, c) == b2(i, c2),
    ensures dotp(a, b, r, c, k) == dotp(a2, b2, r2, c2, k) decreases k
{ if k > 0 { dotp_ext(a, b, r, c, a2, b2, r2, c2, k - 1); let x = a(r, k - 1); let y = b(k - 1, c); } }
pub proof fn dotp_zero(a: RM, b: RM, r: int, c: int, lo: int, k: int)
    requires 0 <= lo <= k, forall|i: int| lo <= i < k ==> #[trigger] a(r, i) == 0real || b(i, c) == 0real,
    ensures dotp(a, b, r, c, k) == dotp(a, b, r, c, lo) decreases k
{ if k > lo { dotp_zero(a, b, r, c, lo, k - 1); let x = a(r, k - 1); } }
pub proof fn dotp_one(a: RM, b: RM, r: int, c: int, k: int, p: int)
    requires 0 <= p < k, forall|i: int| 0 <= i < k && i != p ==> #[trigger] a(r, i) == 0real || b(i, c) == 0real,
    ensures dotp(a, b, r, c, k) == mu(a(r, p), b(p, c)) decreases k
{
    if p == k - 1 { dotp_zero(a, b, r, c, 0, k - 1); } else { dotp_one(a, b, r, c, k - 1, p); let x = a(r, k - 1); }
}
pub proof fn dotp_two(a: RM, b: RM, r: int, c: int, k: int, p: int, q: int)
    requires 0 <= p < k, 0 <= q < k, p != q, forall|i: int| 0 <= i < k && i != p && i != q ==> #[trigger] a(r, i) == 0real || b(i, c) == 0real,
    ensures dotp(a, b, r, c, k) == mu(a(r, p), b(p, c)) + mu(a(r, q), b(q, c)) decreases k
{
    if p == k - 1 { dotp_one(a, b, r, c, k - 1, q); } else if q == k - 1 { dotp_one(a, b, r, c, k - 1, p); } else { dotp_two(a, b, r, c, k - 1, p, q); let x = a(r, k - 1); }
}
// linear in the right operand
pub proof fn dotp_lin(a: RM, b: RM, r: int, c: int, b1: RM, c1: int, b2: RM, c2: int, s: real, k: int)
    requires forall|i: int| 0 <= i < k ==> #[trigger] b(i, c) == b1(i, c1) + mu(s, b2(i, c2)),
    ensures dotp(a, b, r, c, k) == dotp(a, b1, r, c1, k) + mu(s, dotp(a, b2, r, c2, k)) decreases k
{
    if k > 0 {
        dotp_lin(a, b, r, c, b1, c1, b2, c2, s, k - 1);
        let x = a(r, k - 1); let y = b1(k - 1, c1); let z = b2(k - 1, c2); let d = dotp(a, b2, r, c2, k - 1);
        assert(b(k - 1, c) == y + mu(s, z));
        assert(x * (y + s * z) == x * y + s * (x * z)) by(nonlinear_arith);
        assert(s * (d + x * z) == s * d + s * (x * z)) by(nonlinear_arith);
        mu_def(x, y + mu(s, z)); mu_def(x, y); mu_def(s, mu(x, z)); mu_def(s, d + mu(x, z));
    }
}
pub proof fn dotp_linl(a: RM, r: int, a1: RM, r1: int, a2: RM, r2: int, b: RM, c: int, s: real, k: int)
    requires forall|i: int| 0 <= i < k ==> #[trigger] a(r, i) == a1(r1, i) + mu(s, a2(r2, i)),
    ensures dotp(a, b, r, c, k) == dotp(a1, b, r1, c, k) + mu(s, dotp(a2, b, r2, c, k)) decreases k
{
    if k > 0 {
        dotp_linl(a, r, a1, r1, a2, r2, b, c, s, k - 1);
        let x = b(k - 1, c); let y = a1(r1, k - 1); let z = a2(r2, k - 1); let d = dotp(a2, b, r2, c, k - 1);
        assert(a(r, k - 1) == y + mu(s, z));
        assert((y + s * z) * x == y * x + s * (z * x)) by(nonlinear_arith);
        assert(s * (d + z * x) == s * d + s * (z * x)) by(nonlinear_arith);
        mu_def(y + mu(s, z), x); mu_def(y, x); mu_def(s, mu(z, x)); mu_def(s, d + mu(z, x));
    }
}
pub open spec fn mulm(a: RM, b: RM, k: int) -> RM { |r: int, c: int| dotp(a, b, r, c, k) }
pub proof fn dotp_assoc(a: RM, b: RM, c: RM, r: int, j: int, k: int, l: int)
    requires k >= 0, l >= 0, ensures dotp(mulm(a, b, k), c, r, j, l) == dotp(a, mulm(b, c, l), r, j, k) decreases l
{
    if l == 0 {
        assert forall|i: int| 0 <= i < k implies #[trigger] a(r, i) == 0real || mulm(b, c, 0)(i, j) == 0real by {}
        dotp_zero(a, mulm(b, c, 0), r, j, 0, k);
    } else {
        dotp_assoc(a, b, c, r, j, k, l - 1);
        let s = c(l - 1, j);
        dotp_lin(a, mulm(b, c, l), r, j, mulm(b, c, l - 1), j, b, l - 1, s, k);
    }
}
// x (n by k) times y (k by m) is z
pub open spec fn prod(x: RM, y: RM, z: RM, n: int, k: int, m: int) -> bool {
    forall|r: int, c: int| #![trigger dotp(x, y, r, c, k)] #![trigger z(r, c)] 0 <= r < n && 0 <= c < m ==> dotp(x, y, r, c, k) == z(r, c)
}
pub open spec fn idm() -> RM { |r: int, c: int| delta(r, c) }
pub open spec fn inverses(p: RM, q: RM, n: int) -> bool { prod(p, q, idm(), n, n, n) && prod(q, p, idm(), n, n, n) }
pub proof fn prod_id(a: RM, r: int, c: int, n: int)
    ensures 0 <= r < n ==> dotp(idm(), a, r, c, n) == a(r, c), 0 <= c < n ==> dotp(a, idm(), r, c, n) == a(r, c)
{
    if 0 <= r < n { dotp_one(idm(), a, r, c, n, r); }
    if 0 <= c < n { dotp_one(a, idm(), r, c, n, c); }
}
// (x y) z == x w  when  y z == w
pub proof fn prod_assoc(x: RM, y: RM, xy: RM, z: RM, yz: RM, n: int, k: int, l: int, m: int)
    requires n >= 0, k >= 0, l >= 0, m >= 0, prod(x, y, xy, n, k, l), prod(y, z, yz, k, l, m),
    ensures forall|r: int, c: int| #![trigger dotp(xy, z, r, c, l)] #![trigger dotp(x, yz, r, c, k)] 0 <= r < n && 0 <= c < m ==> dotp(xy, z, r, c, l) == dotp(x, yz, r, c, k)
{
    assert forall|r: int, c: int| #![trigger dotp(xy, z, r, c, l)] #![trigger dotp(x, yz, r, c, k)] 0 <= r < n && 0 <= c < m implies dotp(xy, z, r, c, l) == dotp(x, yz, r, c, k) by {
        dotp_assoc(x, y, z, r, c, k, l);
        dotp_ext(xy, z, r, c, mulm(x, y, k), z, r, c, l);
        dotp_ext(x, yz, r, c, x, mulm(y, z, l), r, c, k);
    }
}
// b is p times a for an invertible p
pub open spec fn roweq(p: RM, b: RM, a: RM, n: int, m: int) -> bool { prod(p, a, b, n, n, m) && exists|q: RM| #[trigger] inverses(p, q, n) }
pub proof fn roweq_refl(p: RM, b: RM, a: RM, n: int, m: int)
    requires n >= 0, m >= 0, forall|r: int, c: int| #![trigger p(r, c)] 0 <= r < n && 0 <= c < n ==> p(r, c) == delta(r, c),
        forall|r: int, c: int| #![trigger b(r, c)] 0 <= r < n && 0 <= c < m ==> b(r, c) == a(r, c),
    ensures roweq(p, b, a, n, m)
{
    assert forall|r: int, c: int| #![trigger dotp(p, a, r, c, n)] #![trigger b(r, c)] 0 <= r < n && 0 <= c < m implies dotp(p, a, r, c, n) == b(r, c) by {
        dotp_ext(p, a, r, c, idm(), a, r, c, n); prod_id(a, r, c, n);
    }
    assert forall|r: int, c: int| #![trigger dotp(p, idm(), r, c, n)] 0 <= r < n && 0 <= c < n implies dotp(p, idm(), r, c, n) == idm()(r, c) && dotp(idm(), p, r, c, n) == idm()(r, c) by {
        prod_id(p, r, c, n);
    }
    assert forall|r: int, c: int| #![trigger dotp(idm(), p, r, c, n)] 0 <= r < n && 0 <= c < n implies dotp(idm(), p, r, c, n) == idm()(r, c) by {
        prod_id(p, r, c, n);
    }
    assert(inverses(p, idm(), n));
}
pub proof fn roweq_step(e: RM, f: RM, p: RM, p2: RM, b: RM, b2: RM, a: RM, n: int, m: int)
    requires n >= 0, m >= 0, roweq(p, b, a, n, m), inverses(e, f, n), prod(e, p, p2, n, n, n), prod(e, b, b2, n, n, m),
    ensures roweq(p2, b2, a, n, m)
{
    let q = choose|q: RM| #[trigger] inverses(p, q, n);
    prod_assoc(e, p, p2, a, b, n, n, n, m);
    assert forall|r: int, c: int| #![trigger dotp(p2, a, r, c, n)] #![trigger b2(r, c)] 0 <= r < n && 0 <= c < m implies dotp(p2, a, r, c, n) == b2(r, c) by {
        assert(dotp(p2, a, r, c, n) == dotp(e, b, r, c, n));
    }
    let q2 = mulm(q, f, n);
    assert(prod(q, f, q2, n, n, n));
    // p q2 == (p q) f == f
    prod_assoc(p, q, idm(), f, q2, n, n, n, n);
    assert forall|r: int, c: int| #![trigger dotp(p, q2, r, c, n)] #![trigger f(r, c)] 0 <= r < n && 0 <= c < n implies dotp(p, q2, r, c, n) == f(r, c) by {
        assert(dotp(idm(), f, r, c, n) == dotp(p, q2, r, c, n)); prod_id(f, r, c, n);
    }
    assert(prod(p, q2, f, n, n, n));
    prod_assoc(e, p, p2, q2, f, n, n, n, n);
    assert forall|r: int, c: int| #![trigger dotp(p2, q2, r, c, n)] #![trigger idm()(r, c)] 0 <= r < n && 0 <= c < n implies dotp(p2, q2, r, c, n) == idm()(r, c) by {
        assert(dotp(p2, q2, r, c, n) == dotp(e, f, r, c, n));
    }
    // f p2 == (f e) p == p
    prod_assoc(f, e, idm(), p, p2, n, n, n, n);
    assert forall|r: int, c: int| #![trigger dotp(f, p2, r, c, n)] #![trigger p(r, c)] 0 <= r < n && 0 <= c < n implies dotp(f, p2, r, c, n) == p(r, c) by {
        assert(dotp(idm(), p, r, c, n) == dotp(f, p2, r, c, n)); prod_id(p, r, c, n);
    }
    assert(prod(f, p2, p, n, n, n));
    prod_assoc(q, f, q2, p2, p, n, n, n, n);
    assert forall|r: int, c: int| #![trigger dotp(q2, p2, r, c, n)] #![trigger idm()(r, c)] 0 <= r < n && 0 <= c < n implies dotp(q2, p2, r, c, n) == idm()(r, c) by {
        assert(dotp(q2, p2, r, c, n) == dotp(q, p, r, c, n));
    }
    assert(inverses(p2, q2, n));
}
// ---------- elementary matrices
pub open spec fn swapm(s: int, t: int) -> RM { |r: int, c: int| delta(tr(s, t, r), c) }
pub open spec fn scalem(i: int, x: real) -> RM { |r: int, c: int| if r == c { if r == i { x } else { 1real } } else { 0real } }
pub open spec fn replm(s: int, t: int, x: real) -> RM { |r: int, c: int| if r == t && c == s { x } else { delta(r, c) } }
pub proof fn swapm_mul(s: int, t: int, b: RM, r: int, c: int, n: int)
    requires 0 <= s < n, 0 <= t < n, 0 <= r < n, ensures dotp(swapm(s, t), b, r, c, n) == b(tr(s, t, r), c)
{ dotp_one(swapm(s, t), b, r, c, n, tr(s, t, r)); }
pub proof fn scalem_mul(i: int, x: real, b: RM, r: int, c: int, n: int)
    requires 0 <= r < n, ensures dotp(scalem(i, x), b, r, c, n) == (if r == i { mu(x, b(r, c)) } else { b(r, c) })
{ dotp_one(scalem(i, x), b, r, c, n, r); }
pub proof fn replm_mul(s: int, t: int, x: real, b: RM, r: int, c: int, n: int)
    requires 0 <= s < n, 0 <= t < n, 0 <= r < n, s != t, ensures dotp(replm(s, t, x), b, r, c, n) == (if r == t { b(t, c) + mu(x, b(s, c)) } else { b(r, c) })
{ if r == t { dotp_two(replm(s, t, x), b, r, c, n, s, t); } else { dotp_one(replm(s, t, x), b, r, c, n, r); } }
pub proof fn swapm_inv(s: int, t: int, n: int) requires 0 <= s < n, 0 <= t < n, ensures inverses(swapm(s, t), swapm(s, t), n)
{
    assert forall|r: int, c: int| #![trigger dotp(swapm(s, t), swapm(s, t), r, c, n)] #![trigger idm()(r, c)] 0 <= r < n && 0 <= c < n implies dotp(swapm(s, t), swapm(s, t), r, c, n) == idm()(r, c) by { swapm_mul(s, t, swapm(s, t), r, c, n); }
}
pub proof fn scalem_inv(i: int, x: real, y: real, n: int) requires mu(x, y) == 1real, mu(y, x) == 1real, ensures inverses(scalem(i, x), scalem(i, y), n)
{
    assert forall|r: int, c: int| #![trigger dotp(scalem(i, x), scalem(i, y), r, c, n)] #![trigger idm()(r, c)] 0 <= r < n && 0 <= c < n implies dotp(scalem(i, x), scalem(i, y), r, c, n) == idm()(r, c) by { scalem_mul(i, x, scalem(i, y), r, c, n); }
    assert forall|r: int, c: int| #![trigger dotp(scalem(i, y), scalem(i, x), r, c, n)] #![trigger idm()(r, c)] 0 <= r < n && 0 <= c < n implies dotp(scalem(i, y), scalem(i, x), r, c, n) == idm()(r, c) by { scalem_mul(i, y, scalem(i, x), r, c, n); }
}
pub proof fn replm_inv(s: int, t: int, x: real, n: int) requires 0 <= s < n, 0 <= t < n, s != t, ensures inverses(replm(s, t, x), replm(s, t, 0real - x), n)
{
    let y = 0real - x;
    assert forall|r: int, c: int| #![trigger dotp(replm(s, t, x), replm(s, t, y), r, c, n)] #![trigger idm()(r, c)] 0 <= r < n && 0 <= c < n implies dotp(replm(s, t, x), replm(s, t, y), r, c, n) == idm()(r, c) by { replm_mul(s, t, x, replm(s, t, y), r, c, n); mu_facts(x, replm(s, t, y)(s, c)); }
    assert forall|r: int, c: int| #![trigger dotp(replm(s, t, y), replm(s, t, x), r, c, n)] #![trigger idm()(r, c)] 0 <= r < n && 0 <= c < n implies dotp(replm(s, t, y), replm(s, t, x), r, c, n) == idm()(r, c) by { replm_mul(s, t, y, replm(s, t, x), r, c, n); mu_facts(y, replm(s, t, x)(s, c)); }
}
// C07: the row operations are left multiplication by the matrices of the constructors
pub proof fn C07_swap_is_elementary(e: Mat, a: Mat, out: Mat, s: int, t: int)
    requires wf(a), same_shape(out, a), 0 <= s < a.rows, 0 <= t < a.rows,
        mat_is(e, a.rows as int, a.rows as int, |r: int, c: int| if c == (if r == s { t } else if r == t { s } else { r }) { fone() } else { fzero() }),
        forall|r: int, c: int| #![trigger at(out, r, c)] inm(a, r, c) ==> at(out, r, c) == at(a, tr(s, t, r), c),
    ensures forall|r: int, c: int| #![trigger at(out, r, c)] inm(a, r, c) ==> at(out, r, c).v() == dotp(rm(e), rm(a), r, c, a.rows as int)
{
    assert forall|r: int, c: int| #![trigger at(out, r, c)] inm(a, r, c) implies at(out, r, c).v() == dotp(rm(e), rm(a), r, c, a.rows as int) by {
        dotp_ext(rm(e), rm(a), r, c, swapm(s, t), rm(a), r, c, a.rows as int); swapm_mul(s, t, rm(a), r, c, a.rows as int);
    }
}
pub proof fn C07_scale_is_elementary(e: Mat, a: Mat, out: Mat, i: int, x: F)
    requires wf(a), same_shape(out, a), 0 <= i < a.rows,
        mat_is(e, a.rows as int, a.rows as int, |r: int, c: int| if r == c { if r == i { x } else { fone() } } else { fzero() }),
        forall|r: int, c: int| #![trigger at(out, r, c)] inm(a, r, c) && r != i ==> at(out, r, c) == at(a, r, c),
        forall|r: int, c: int| #![trigger at(out, r, c)] inm(a, r, c) && r == i ==> at(out, r, c).v() == mu(x.v(), at(a, r, c).v()),
    ensures forall|r: int, c: int| #![trigger at(out, r, c)] inm(a, r, c) ==> at(out, r, c).v() == dotp(rm(e), rm(a), r, c, a.rows as int)
{
    assert forall|r: int, c: int| #![trigger at(out, r, c)] inm(a, r, c) implies at(out, r, c).v() == dotp(rm(e), rm(a), r, c, a.rows as int) by {
        dotp_ext(rm(e), rm(a), r, c, scalem(i, x.v()), rm(a), r, c, a.rows as int); scalem_mul(i, x.v(), rm(a), r, c, a.rows as int);
    }
}
pub proof fn C07_replace_is_elementary(e: Mat, a: Mat, out: Mat, s: int, t: int, x: F)
    requires wf(a), same_shape(out, a), 0 <= s < a.rows, 0 <= t < a.rows, s != t,
        mat_is(e, a.rows as int, a.rows as int, |r: int, c: int| if r == t && c == s { x } else if r == c { fone() } else { fzero() }),
        forall|r: int, c: int| #![trigger at(out, r, c)] inm(a, r, c) && r != t ==> at(out, r, c) == at(a, r, c),
        forall|r: int, c: int| #![trigger at(out, r, c)] inm(a, r, c) && r == t ==> at(out, r, c).v() == at(a, r, c).v() + mu(x.v(), at(a, s, c).v()),
    ensures forall|r: int, c: int| #![trigger at(out, r, c)] inm(a, r, c) ==> at(out, r, c).v() == dotp(rm(e), rm(a), r, c, a.rows as int)
{
    assert forall|r: int, c: int| #![trigger at(out, r, c)] inm(a, r, c) implies at(out, r, c).v() == dotp(rm(e), rm(a), r, c, a.rows as int) by {
        dotp_ext(rm(e), rm(a), r, c, replm(s, t, x.v()), rm(a), r, c, a.rows as int); replm_mul(s, t, x.v(), rm(a), r, c, a.rows as int);
    }
}
//@ raw
// ---------- echelon shape.  piv lists the leading columns of the nonzero rows
pub open spec fn incr(piv: Seq<int>, lo: int, hi: int) -> bool {
    &&& forall|i: int| #![trigger piv[i]] 0 <= i < piv.len() ==> lo <= piv[i] < hi
    &&& forall|i: int, j: int| #![trigger piv[i], piv[j]] 0 <= i < j < piv.len() ==> piv[i] < piv[j]
}
// columns below c0 are in echelon shape: rows from piv.len() on are zero there
pub open spec fn echto(b: Mat, piv: Seq<int>, c0: int) -> bool {
    &&& wf(b) && piv.len() <= b.rows && 0 <= c0 <= b.cols && incr(piv, 0, c0)
    &&& forall|i: int, c: int| #![trigger at(b, i, c)] 0 <= i < piv.len() && 0 <= c < piv[i] ==> at(b, i, c).v() == 0real
    &&& forall|i: int| #![trigger piv[i]] 0 <= i < piv.len() ==> at(b, i, piv[i]).v() == 1real
    &&& forall|i: int, c: int| #![trigger at(b, i, c)] piv.len() <= i < b.rows && 0 <= c < c0 ==> at(b, i, c).v() == 0real
}
pub open spec fn ech(b: Mat, piv: Seq<int>) -> bool { echto(b, piv, b.cols as int) }
pub open spec fn is_ech(b: Mat) -> bool { exists|piv: Seq<int>| #[trigger] ech(b, piv) }
// every leading entry is alone in its column
pub open spec fn redfrom(b: Mat, piv: Seq<int>, lo: int) -> bool {
    forall|i: int, j: int| #![trigger at(b, i, piv[j])] lo <= j < piv.len() && 0 <= j && 0 <= i < b.rows && i != j ==> at(b, i, piv[j]).v() == 0real
}
pub open spec fn rrefp(b: Mat, piv: Seq<int>) -> bool { ech(b, piv) && redfrom(b, piv, 0) }
pub open spec fn is_rref(b: Mat) -> bool { exists|piv: Seq<int>| #[trigger] rrefp(b, piv) }
pub open spec fn zrow(m: Mat, r: int) -> bool { forall|c: int| #![trigger at(m, r, c)] 0 <= c < m.cols ==> at(m, r, c).v() == 0real }
pub open spec fn zcount(m: Mat, k: int) -> int decreases k { if k <= 0 { 0 } else { zcount(m, k - 1) + if zrow(m, k - 1) { 1int } else { 0int } } }
pub proof fn zcount_bound(m: Mat, k: int) requires k >= 0, ensures 0 <= zcount(m, k) <= k decreases k { if k > 0 { zcount_bound(m, k - 1); } }
pub proof fn ech_zcount(b: Mat, piv: Seq<int>, k: int)
    requires ech(b, piv), 0 <= k <= b.rows, ensures zcount(b, k) == (if k <= piv.len() { 0int } else { k - piv.len() }) decreases k
{
    if k > 0 {
        ech_zcount(b, piv, k - 1);
        if k - 1 < piv.len() { assert(at(b, k - 1, piv[k - 1]).v() == 1real); assert(!zrow(b, k - 1)); } else { assert(zrow(b, k - 1)); }
    }
}
pub proof fn incr_len(piv: Seq<int>, lo: int, hi: int)
    requires incr(piv, lo, hi), lo <= hi, ensures piv.len() <= hi - lo decreases piv.len()
{
    if piv.len() > 0 {
        let p = piv.drop_last();
        assert forall|i: int| #![trigger p[i]] 0 <= i < p.len() implies lo <= p[i] < piv.last() by { assert(p[i] == piv[i]); assert(piv[i] < piv[piv.len() - 1]); }
        assert forall|i: int, j: int| #![trigger p[i], p[j]] 0 <= i < j < p.len() implies p[i] < p[j] by { assert(p[i] == piv[i] && p[j] == piv[j]); }
        assert(lo <= piv[piv.len() - 1] < hi);
        incr_len(p, lo, piv.last());
    }
}
// the leading columns are determined by the matrix
pub proof fn ech_lead(b: Mat, piv: Seq<int>, r: int, c: int)
    requires ech(b, piv), 0 <= r < b.rows, 0 <= c < b.cols, at(b, r, c).v() != 0real, forall|k: int| #![trigger at(b, r, k)] 0 <= k < c ==> at(b, r, k).v() == 0real,
    ensures r < piv.len(), piv[r] == c
{
    if r < piv.len() { assert(at(b, r, piv[r]).v() == 1real); }
}
pub proof fn ech_mono(b: Mat, piv: Seq<int>) requires echto(b, piv, b.cols as int), ensures ech(b, piv) {}
// when every row has a leading column the rest of the columns need no work
pub proof fn ech_full(b: Mat, piv: Seq<int>, c0: int)
    requires echto(b, piv, c0), piv.len() >= b.rows || c0 >= b.cols, ensures ech(b, piv), is_ech(b), piv.len() >= b.rows ==> echto(b, piv, b.cols as int) { assert(ech(b, piv)); }
//@ fn get_max_index(slice, le)
//@@ generics <T, C: Fn(&T, &T) -> Option<Ordering>>
//@@ ghost Ghost(le_g): Ghost<spec_fn(T, T) -> Option<Ordering>>
//@@ requires
slice@.len() > 0,
forall|x: T, y: T| #![trigger call_requires(le, (&x, &y))] call_requires(le, (&x, &y)),
forall|x: T, y: T, o: Option<Ordering>| #[trigger] call_ensures(le, (&x, &y), o) ==> o == le_g(x, y),
forall|x: T, y: T| #[trigger] le_g(x, y) is Some && le_g(x, y)->Some_0 == ord_rev(le_g(y, x)->Some_0),
forall|x: T, y: T, z: T| (#[trigger] le_g(x, y))->Some_0 != Ordering::Greater && (#[trigger] le_g(y, z))->Some_0 != Ordering::Greater ==> le_g(x, z)->Some_0 != Ordering::Greater
//@@ ensures
ret < slice@.len(),
forall|i: int| #![trigger slice@[i]] 0 <= i < slice@.len() ==> le_g(slice@[i], slice@[ret as int])->Some_0 != Ordering::Greater,
forall|i: int| #![trigger slice@[i]] ret < i < slice@.len() ==> le_g(slice@[i], slice@[ret as int])->Some_0 == Ordering::Less
//@ fn Mat__get_stable_column_index_under_row(this, c, r)
//@@ requires
wf(*this), r < this.rows, c < this.cols
//@@ ensures
ret is None ==> forall|i: int| #![trigger at(*this, i, c as int)] r <= i < this.rows ==> at(*this, i, c as int).v() == 0real,
ret is Some ==> r <= ret->Some_0.0 < this.rows && ret->Some_0.1 == at(*this, ret->Some_0.0 as int, c as int) && ret->Some_0.1.v() != 0real
//@ raw
// column of the first nonzero entry of a row
pub open spec fn is_lead(m: Mat, r: int, c: int) -> bool { 0 <= c < m.cols && at(m, r, c).v() != 0real && forall|k: int| #![trigger at(m, r, k)] 0 <= k < c ==> at(m, r, k).v() == 0real }
pub open spec fn lead(m: Mat, r: int) -> Option<usize> { if zrow(m, r) { None } else { Some(choose|c: usize| #[trigger] is_lead(m, r, c as int)) } }
pub proof fn lead_unique(m: Mat, r: int) ensures forall|c: usize| #[trigger] is_lead(m, r, c as int) ==> lead(m, r) == Some(c)
{
    assert forall|c: usize| #[trigger] is_lead(m, r, c as int) implies lead(m, r) == Some(c) by {
        let d = choose|c: usize| #[trigger] is_lead(m, r, c as int);
        let x = at(m, r, d as int); let y = at(m, r, c as int);
    }
}
//@ fn Mat__index_of_first_nonzero_entry(this, r)
//@@ spec: lead(*this, r as int)
//@@ requires
wf(*this), r < this.rows
//@@ hint start
lead_unique(*this, r as int);
//@@ hint end
assert(ret is Some ==> is_lead(*this, r as int, ret->Some_0 as int));
//@@ ensures
ret is None ==> zrow(*this, r as int),
ret is Some ==> ret->Some_0 < this.cols && at(*this, r as int, ret->Some_0 as int).v() != 0real
    && forall|k: int| #![trigger at(*this, r as int, k)] 0 <= k < ret->Some_0 ==> at(*this, r as int, k).v() == 0real
//@ fn Mat__zero_rows(this)
//@@ requires
wf(*this)
//@@ ensures
ret == zcount(*this, this.rows as int)
//@@ loop 1 invariant
zero_rows == zcount(*this, $i as int), zero_rows <= $i
//@ fn Mat__permute_under_diagonal(this, src, target)
//@@ requires
wf(*old(this)), src < old(this).rows, target < old(this).rows, src <= old(this).cols
//@@ ensures
same_shape(*final(this), *old(this)),
forall|r: int, c: int| #![trigger at(*final(this), r, c)] inm(*old(this), r, c) ==> at(*final(this), r, c) == at(*old(this), if c < src { tr(src as int, target as int, r) } else { r }, c)
//@@ loop 1 invariant
same_shape(*this, *old(this)),
forall|r: int, c: int| #![trigger at(*this, r, c)] inm(*old(this), r, c) ==> at(*this, r, c) == at(*old(this), if c < $i { tr(src as int, target as int, r) } else { r }, c)
//@ raw
// ---------- LU in progress: rows below r are finished
pub open spec fn is_perm(p: Seq<usize>, n: int) -> bool {
    &&& p.len() == n
    &&& forall|i: int| #![trigger p[i]] 0 <= i < n ==> p[i] < n
    &&& forall|i: int, j: int| #![trigger p[i], p[j]] 0 <= i < j < n ==> p[i] != p[j]
}
pub open spec fn lsum(l: Mat, u: Mat, i: int, j: int, r: int) -> real { dotp(rm(l), rm(u), i, j, r) + if i >= r { at(u, i, j).v() } else { 0real } }
pub open spec fn lu_shape(p: Seq<usize>, l: Mat, u: Mat) -> bool { wf(l) && wf(u) && l.rows == u.rows && l.cols == u.rows && p.len() == u.rows }
pub open spec fn lu_inv(p: Seq<usize>, l: Mat, u: Mat, a: Mat, r: int) -> bool {
    &&& lu_shape(p, l, u) && same_shape(u, a) && is_perm(p, u.rows as int) && 0 <= r <= u.rows
    &&& forall|i: int, j: int| #![trigger at(u, i, j)] #![trigger lsum(l, u, i, j, r)] inm(u, i, j) ==> lsum(l, u, i, j, r) == at(a, p[i] as int, j).v()
    &&& forall|i: int, k: int| #![trigger at(l, i, k)] inm(l, i, k) && k >= r ==> at(l, i, k).v() == delta(i, k)
    &&& forall|i: int, k: int| #![trigger at(l, i, k)] inm(l, i, k) && k > i ==> at(l, i, k).v() == 0real
    &&& forall|k: int| #![trigger at(l, k, k)] 0 <= k < l.rows ==> at(l, k, k).v() != 0real
}
pub open spec fn colzero(l: Mat, r: int) -> bool { forall|i: int| #![trigger at(l, i, r)] r < i < l.rows ==> at(l, i, r).v() == 0real }
pub proof fn lu_start(p: Seq<usize>, l: Mat, u: Mat)
    requires lu_shape(p, l, u), forall|i: int| #![trigger p[i]] 0 <= i < p.len() ==> p[i] == i,
        forall|i: int, k: int| #![trigger at(l, i, k)] inm(l, i, k) ==> at(l, i, k).v() == delta(i, k),
    ensures lu_inv(p, l, u, u, 0)
{}
pub proof fn lu_permute(p0: Seq<usize>, l0: Mat, u0: Mat, p1: Seq<usize>, l1: Mat, u1: Mat, a: Mat, r: int, s: int)
    requires lu_inv(p0, l0, u0, a, r), r <= s < u0.rows, r < u0.rows, same_shape(l0, l1), same_shape(u0, u1),
        p1 == p0.update(r, p0[s]).update(s, p0[r]),
        forall|i: int, j: int| #![trigger at(u1, i, j)] inm(u0, i, j) ==> at(u1, i, j) == at(u0, tr(r, s, i), j),
        forall|i: int, k: int| #![trigger at(l1, i, k)] inm(l0, i, k) ==> at(l1, i, k) == at(l0, if k < r { tr(r, s, i) } else { i }, k),
    ensures lu_inv(p1, l1, u1, a, r)
{
    assert forall|i: int, j: int| #![trigger at(u1, i, j)] #![trigger lsum(l1, u1, i, j, r)] inm(u1, i, j) implies lsum(l1, u1, i, j, r) == at(a, p1[i] as int, j).v() by {
        let t = tr(r, s, i);
        assert(lsum(l0, u0, t, j, r) == at(a, p0[t] as int, j).v()) by { let x = at(u0, t, j); }
        dotp_ext(rm(l1), rm(u1), i, j, rm(l0), rm(u0), t, j, r);
    }
    assert forall|i: int, j: int| #![trigger p1[i], p1[j]] 0 <= i < j < p1.len() implies p1[i] != p1[j] by {
        assert(p1[i] == p0[tr(r, s, i)] && p1[j] == p0[tr(r, s, j)]);
    }
    assert forall|i: int| #![trigger p1[i]] 0 <= i < p1.len() implies p1[i] < p1.len() by { assert(p1[i] == p0[tr(r, s, i)]); }
}
pub proof fn lu_scale(p: Seq<usize>, l0: Mat, u0: Mat, l1: Mat, u1: Mat, a: Mat, r: int, x: real, y: real)
    requires lu_inv(p, l0, u0, a, r), r < u0.rows, same_shape(l0, l1), same_shape(u0, u1), x != 0real, x * y == 1real,
        forall|i: int, j: int| #![trigger at(u1, i, j)] inm(u0, i, j) ==> at(u1, i, j).v() == (if i == r { mu(y, at(u0, i, j).v()) } else { at(u0, i, j).v() }),
        forall|i: int, k: int| #![trigger at(l1, i, k)] inm(l0, i, k) ==> at(l1, i, k).v() == (if i == r && k == r { x } else { at(l0, i, k).v() }),
    ensures lu_inv(p, l1, u1, a, r + 1), colzero(l1, r)
{
    assert forall|i: int, j: int| #![trigger at(u1, i, j)] #![trigger lsum(l1, u1, i, j, r + 1)] inm(u1, i, j) implies lsum(l1, u1, i, j, r + 1) == at(a, p[i] as int, j).v() by {
        assert(lsum(l0, u0, i, j, r) == at(a, p[i] as int, j).v()) by { let z = at(u0, i, j); }
        dotp_ext(rm(l1), rm(u1), i, j, rm(l0), rm(u0), i, j, r);
        let z = at(u0, r, j).v(); let l = at(l1, i, r).v();
        assert(dotp(rm(l1), rm(u1), i, j, r + 1) == dotp(rm(l1), rm(u1), i, j, r) + mu(l, at(u1, r, j).v()));
        mu_facts(l, at(u1, r, j).v());
        assert(x * (y * z) == (x * y) * z) by(nonlinear_arith);
        mu_facts(x * y, z); mu_def(y, z); mu_def(x, mu(y, z));
    }
    assert(colzero(l1, r));
    assert forall|i: int, k: int| #![trigger at(l1, i, k)] inm(l1, i, k) && k >= r + 1 implies at(l1, i, k).v() == delta(i, k) by { assert(at(l1, i, k).v() == at(l0, i, k).v()); }
    assert forall|i: int, k: int| #![trigger at(l1, i, k)] inm(l1, i, k) && k > i implies at(l1, i, k).v() == 0real by { assert(at(l1, i, k).v() == at(l0, i, k).v()); }
    assert forall|k: int| #![trigger at(l1, k, k)] 0 <= k < l1.rows implies at(l1, k, k).v() != 0real by { let z = at(l0, k, k); }
    assert(lu_shape(p, l1, u1));
    assert(same_shape(u1, a));
}
pub proof fn lu_replace(p: Seq<usize>, l0: Mat, u0: Mat, l1: Mat, u1: Mat, a: Mat, r: int, c: int)
    requires lu_inv(p, l0, u0, a, r + 1), 0 <= r < u0.rows, 0 <= c < u0.cols, colzero(l0, r), same_shape(l0, l1), same_shape(u0, u1),
        forall|i: int, j: int| #![trigger at(u1, i, j)] inm(u0, i, j) ==> at(u1, i, j).v() == (if i > r { at(u0, i, j).v() - mu(at(u0, i, c).v(), at(u0, r, j).v()) } else { at(u0, i, j).v() }),
        forall|i: int, k: int| #![trigger at(l1, i, k)] inm(l0, i, k) ==> at(l1, i, k).v() == (if i > r && k == r { at(u0, i, c).v() } else { at(l0, i, k).v() }),
    ensures lu_inv(p, l1, u1, a, r + 1)
{
    assert forall|i: int, j: int| #![trigger at(u1, i, j)] #![trigger lsum(l1, u1, i, j, r + 1)] inm(u1, i, j) implies lsum(l1, u1, i, j, r + 1) == at(a, p[i] as int, j).v() by {
        assert(lsum(l0, u0, i, j, r + 1) == at(a, p[i] as int, j).v()) by { let z = at(u0, i, j); }
        dotp_ext(rm(l1), rm(u1), i, j, rm(l0), rm(u0), i, j, r);
        assert(dotp(rm(l1), rm(u1), i, j, r + 1) == dotp(rm(l1), rm(u1), i, j, r) + mu(at(l1, i, r).v(), at(u1, r, j).v()));
        assert(dotp(rm(l0), rm(u0), i, j, r + 1) == dotp(rm(l0), rm(u0), i, j, r) + mu(at(l0, i, r).v(), at(u0, r, j).v()));
        mu_facts(at(l0, i, r).v(), at(u0, r, j).v());
    }
    assert forall|i: int, k: int| #![trigger at(l1, i, k)] inm(l1, i, k) && k >= r + 1 implies at(l1, i, k).v() == delta(i, k) by { assert(at(l1, i, k).v() == at(l0, i, k).v()); }
    assert forall|i: int, k: int| #![trigger at(l1, i, k)] inm(l1, i, k) && k > i implies at(l1, i, k).v() == 0real by { assert(at(l1, i, k).v() == at(l0, i, k).v()); }
    assert forall|k: int| #![trigger at(l1, k, k)] 0 <= k < l1.rows implies at(l1, k, k).v() != 0real by { let z = at(l0, k, k); }
    assert(lu_shape(p, l1, u1) && same_shape(u1, a) && is_perm(p, u1.rows as int));
    assert(forall|i: int, j: int| #![trigger at(u1, i, j)] #![trigger lsum(l1, u1, i, j, r + 1)] inm(u1, i, j) ==> lsum(l1, u1, i, j, r + 1) == at(a, p[i] as int, j).v());
}
pub proof fn lu_finish(p: Seq<usize>, l: Mat, u: Mat, a: Mat, r: int, pm: Mat)
    requires lu_inv(p, l, u, a, r), perm_mat(pm, p),
    ensures forall|i: int, j: int| #![trigger dotp(rm(l), rm(u), i, j, u.rows as int)] inm(u, i, j) ==> dotp(rm(pm), rm(a), i, j, u.rows as int) == dotp(rm(l), rm(u), i, j, u.rows as int)
{
    let n = u.rows as int;
    assert forall|i: int, j: int| #![trigger dotp(rm(l), rm(u), i, j, n)] inm(u, i, j) implies dotp(rm(pm), rm(a), i, j, n) == dotp(rm(l), rm(u), i, j, n) by {
        assert(lsum(l, u, i, j, r) == at(a, p[i] as int, j).v()) by { let z = at(u, i, j); }
        dotp_one(rm(pm), rm(a), i, j, n, p[i] as int);
        if i < r { dotp_zero(rm(l), rm(u), i, j, r, n); } else {
            dotp_zero(rm(l), rm(u), i, j, i + 1, n); dotp_zero(rm(l), rm(u), i, j, r, i);
            assert(dotp(rm(l), rm(u), i, j, i + 1) == dotp(rm(l), rm(u), i, j, i) + mu(at(l, i, i).v(), at(u, i, j).v()));
        }
    }
}
pub open spec fn is_lu(p: Mat, l: Mat, u: Mat, a: Mat, s: Seq<usize>) -> bool {
    &&& same_shape(u, a) && wf(l) && l.rows == a.rows && l.cols == a.rows && is_ech(u)
    &&& is_perm(s, a.rows as int) && perm_mat(p, s)
    &&& forall|i: int, k: int| #![trigger at(l, i, k)] inm(l, i, k) && k > i ==> at(l, i, k).v() == 0real
    &&& forall|k: int| #![trigger at(l, k, k)] 0 <= k < l.rows ==> at(l, k, k).v() != 0real
    &&& forall|i: int, j: int| #![trigger dotp(rm(l), rm(u), i, j, u.rows as int)] inm(u, i, j) ==> dotp(rm(p), rm(a), i, j, u.rows as int) == dotp(rm(l), rm(u), i, j, u.rows as int)
}
// the three row operations of one elimination step on a matrix that is in echelon shape up to column c
pub proof fn ech_permute(b0: Mat, b1: Mat, piv: Seq<int>, c: int, r: int, s: int)
    requires echto(b0, piv, c), same_shape(b0, b1), piv.len() <= r < b0.rows, piv.len() <= s < b0.rows,
        forall|i: int, j: int| #![trigger at(b1, i, j)] inm(b0, i, j) ==> at(b1, i, j) == at(b0, tr(r, s, i), j),
    ensures echto(b1, piv, c)
{
    assert forall|i: int| #![trigger piv[i]] 0 <= i < piv.len() implies at(b1, i, piv[i]).v() == 1real by { assert(at(b1, i, piv[i]) == at(b0, i, piv[i])); }
}
pub proof fn ech_scale(b0: Mat, b1: Mat, piv: Seq<int>, c: int, r: int, y: real)
    requires echto(b0, piv, c), same_shape(b0, b1), piv.len() <= r < b0.rows,
        forall|i: int, j: int| #![trigger at(b1, i, j)] inm(b0, i, j) ==> at(b1, i, j).v() == (if i == r { mu(y, at(b0, i, j).v()) } else { at(b0, i, j).v() }),
    ensures echto(b1, piv, c)
{
    assert forall|i: int, j: int| #![trigger at(b1, i, j)] piv.len() <= i < b1.rows && 0 <= j < c implies at(b1, i, j).v() == 0real by { mu_facts(y, at(b0, i, j).v()); }
    assert forall|i: int| #![trigger piv[i]] 0 <= i < piv.len() implies at(b1, i, piv[i]).v() == 1real by { assert(at(b1, i, piv[i]).v() == at(b0, i, piv[i]).v()); }
}
pub proof fn ech_replace(b0: Mat, b1: Mat, piv: Seq<int>, c: int)
    requires echto(b0, piv, c), same_shape(b0, b1), piv.len() < b0.rows, c < b0.cols, at(b0, piv.len() as int, c).v() == 1real,
        forall|i: int, j: int| #![trigger at(b1, i, j)] inm(b0, i, j) ==> at(b1, i, j).v() ==
            (if i > piv.len() { at(b0, i, j).v() - mu(at(b0, i, c).v(), at(b0, piv.len() as int, j).v()) } else { at(b0, i, j).v() }),
    ensures echto(b1, piv.push(c), c + 1)
{
    let r = piv.len() as int; let q = piv.push(c);
    assert forall|i: int, j: int| #![trigger at(b1, i, j)] 0 <= i < q.len() && 0 <= j < q[i] implies at(b1, i, j).v() == 0real by {
        if i < r { assert(q[i] == piv[i]); }
        let z = at(b0, i, j);
    }
    assert forall|i: int| #![trigger q[i]] 0 <= i < q.len() implies at(b1, i, q[i]).v() == 1real by {
        if i < r { assert(q[i] == piv[i]); assert(at(b0, i, piv[i]).v() == 1real); }
        let z = at(b1, i, q[i]);
    }
    assert forall|i: int, j: int| #![trigger at(b1, i, j)] q.len() <= i < b1.rows && 0 <= j < c + 1 implies at(b1, i, j).v() == 0real by {
        let z = at(b0, i, j).v(); let w = at(b0, r, j).v();
        mu_facts(at(b0, i, c).v(), w);
    }
    assert forall|i: int, j: int| #![trigger q[i], q[j]] 0 <= i < j < q.len() implies q[i] < q[j] by { if j == r { assert(piv[i] < c); } }
}
// a column with nothing below leaves the shape as it is
pub proof fn ech_skip(b: Mat, piv: Seq<int>, c: int)
    requires echto(b, piv, c), c < b.cols, forall|i: int| #![trigger at(b, i, c)] piv.len() <= i < b.rows ==> at(b, i, c).v() == 0real, ensures echto(b, piv, c + 1)
{
    assert forall|i: int, j: int| #![trigger at(b, i, j)] piv.len() <= i < b.rows && 0 <= j < c + 1 implies at(b, i, j).v() == 0real by { if j == c { let z = at(b, i, c); } }
}
//@ fn LUDecompositionInternal__permute(this, src, target)
//@@ requires
lu_shape(old(this).p@, old(this).l, old(this).u), src < old(this).u.rows, target < old(this).u.rows
//@@ ensures
lu_shape(final(this).p@, final(this).l, final(this).u), same_shape(final(this).u, old(this).u),
forall|i: int, j: int| #![trigger at(final(this).u, i, j)] inm(old(this).u, i, j) ==> at(final(this).u, i, j) == at(old(this).u, tr(src as int, target as int, i), j),
forall|a: Mat| #[trigger] lu_inv(old(this).p@, old(this).l, old(this).u, a, src as int) && src <= target ==> lu_inv(final(this).p@, final(this).l, final(this).u, a, src as int),
forall|piv: Seq<int>, c: int| #[trigger] echto(old(this).u, piv, c) && piv.len() <= src && piv.len() <= target ==> echto(final(this).u, piv, c)
//@@ hint end
assert forall|piv: Seq<int>, c: int| #[trigger] echto(old(this).u, piv, c) && piv.len() <= src && piv.len() <= target implies echto(this.u, piv, c) by { ech_permute(old(this).u, this.u, piv, c, src as int, target as int); }
assert forall|a: Mat| #[trigger] lu_inv(old(this).p@, old(this).l, old(this).u, a, src as int) && src <= target implies lu_inv(this.p@, this.l, this.u, a, src as int) by {
    lu_permute(old(this).p@, old(this).l, old(this).u, this.p@, this.l, this.u, a, src as int, target as int);
}
//@ fn LUDecompositionInternal__scale_row(this, r, scalar)
//@@ requires
lu_shape(old(this).p@, old(this).l, old(this).u), r < old(this).u.rows, scalar.v() != 0real
//@@ ensures
final(this).p == old(this).p, lu_shape(final(this).p@, final(this).l, final(this).u), same_shape(final(this).u, old(this).u),
forall|i: int, j: int| #![trigger at(final(this).u, i, j)] inm(old(this).u, i, j) ==> at(final(this).u, i, j).v() == (if i == r { mu(1real / scalar.v(), at(old(this).u, i, j).v()) } else { at(old(this).u, i, j).v() }),
forall|a: Mat| #[trigger] lu_inv(old(this).p@, old(this).l, old(this).u, a, r as int) ==> lu_inv(final(this).p@, final(this).l, final(this).u, a, r + 1) && colzero(final(this).l, r as int),
forall|piv: Seq<int>, c: int| #[trigger] echto(old(this).u, piv, c) && piv.len() <= r ==> echto(final(this).u, piv, c),
forall|j: int| #![trigger at(final(this).u, r as int, j)] 0 <= j < old(this).u.cols && at(old(this).u, r as int, j).v() == scalar.v() ==> at(final(this).u, r as int, j).v() == 1real
//@@ hint end
assert forall|piv: Seq<int>, c: int| #[trigger] echto(old(this).u, piv, c) && piv.len() <= r implies echto(this.u, piv, c) by { ech_scale(old(this).u, this.u, piv, c, r as int, 1real / scalar.v()); }
assert((1real / scalar.v()) * scalar.v() == 1real) by(nonlinear_arith) requires scalar.v() != 0real;
mu_def(1real / scalar.v(), scalar.v());
assert(scalar.v() * (1real / scalar.v()) == 1real) by(nonlinear_arith) requires scalar.v() != 0real;
assert forall|a: Mat| #[trigger] lu_inv(old(this).p@, old(this).l, old(this).u, a, r as int) implies lu_inv(this.p@, this.l, this.u, a, r + 1) && colzero(this.l, r as int) by {
    lu_scale(this.p@, old(this).l, old(this).u, this.l, this.u, a, r as int, scalar.v(), 1real / scalar.v());
}
//@ fn LUDecompositionInternal__replace_col_under_row(this, r, c)
//@@ requires
lu_shape(old(this).p@, old(this).l, old(this).u), r < old(this).u.rows, c < old(this).u.cols
//@@ ensures
final(this).p == old(this).p, lu_shape(final(this).p@, final(this).l, final(this).u), same_shape(final(this).u, old(this).u),
forall|i: int, j: int| #![trigger at(final(this).u, i, j)] inm(old(this).u, i, j) ==> at(final(this).u, i, j).v() == (if i > r { at(old(this).u, i, j).v() - mu(at(old(this).u, i, c as int).v(), at(old(this).u, r as int, j).v()) } else { at(old(this).u, i, j).v() }),
forall|a: Mat| #[trigger] lu_inv(old(this).p@, old(this).l, old(this).u, a, r + 1) && colzero(old(this).l, r as int) ==> lu_inv(final(this).p@, final(this).l, final(this).u, a, r + 1),
forall|piv: Seq<int>| #[trigger] echto(old(this).u, piv, c as int) && piv.len() == r && at(old(this).u, r as int, c as int).v() == 1real ==> echto(final(this).u, piv.push(c as int), c + 1)
//@@ loop 1 invariant
this.p == old(this).p, lu_shape(this.p@, this.l, this.u), same_shape(this.u, old(this).u), same_shape(this.l, old(this).l),
forall|i: int, j: int| #![trigger at(this.u, i, j)] inm(old(this).u, i, j) ==> at(this.u, i, j).v() == (if r < i < $i { at(old(this).u, i, j).v() - mu(at(old(this).u, i, c as int).v(), at(old(this).u, r as int, j).v()) } else { at(old(this).u, i, j).v() }),
forall|i: int, k: int| #![trigger at(this.l, i, k)] inm(old(this).l, i, k) ==> at(this.l, i, k).v() == (if r < i < $i && k == r { at(old(this).u, i, c as int).v() } else { at(old(this).l, i, k).v() })
//@@ hint loop 1 end
assert forall|j: int| #![trigger at(old(this).u, r as int, j)] 0 <= j < this.u.cols implies mu(0real - at(old(this).u, $i - 1, c as int).v(), at(old(this).u, r as int, j).v()) == -mu(at(old(this).u, $i - 1, c as int).v(), at(old(this).u, r as int, j).v()) by {
    mu_neg(at(old(this).u, $i - 1, c as int).v(), at(old(this).u, r as int, j).v());
}
//@@ hint end
assert forall|piv: Seq<int>| #[trigger] echto(old(this).u, piv, c as int) && piv.len() == r && at(old(this).u, r as int, c as int).v() == 1real implies echto(this.u, piv.push(c as int), c + 1) by { ech_replace(old(this).u, this.u, piv, c as int); }
assert forall|a: Mat| #[trigger] lu_inv(old(this).p@, old(this).l, old(this).u, a, r + 1) && colzero(old(this).l, r as int) implies lu_inv(this.p@, this.l, this.u, a, r + 1) by {
    lu_replace(this.p@, old(this).l, old(this).u, this.l, this.u, a, r as int, c as int);
}
//@ fn Mat__lu(this)
//@@ requires
wf(*this)
//@@ ensures
exists|s: Seq<usize>| #[trigger] is_lu(ret.p, ret.l, ret.u, *this, s)
//@@ hint loop 1 before
!let ghost mut piv: Seq<int> = Seq::empty();
//@@ hint loop 1 before
lu_start(lu.p@, lu.l, lu.u);
//@@ loop 1 breaks
//@@ loop 1 invariant
lu_inv(lu.p@, lu.l, lu.u, *this, r as int), piv.len() == r
//@@ loop 1 invariant
echto(lu.u, piv, $i as int)
//@@ hint loop 1 start
if piv.len() >= lu.u.rows { ech_full(lu.u, piv, c as int); }
//@@ hint loop 1 end
if r > piv.len() { piv = piv.push(c as int); } else { ech_skip(lu.u, piv, c as int); }
//@@ hint loop 1 after
ech_full(lu.u, piv, this.cols as int);
//@@ hint loop 1 after
!let ghost (gp, gl, gu) = (lu.p@, lu.l, lu.u);
//@@ hint end
lu_finish(gp, gl, gu, *this, r as int, ret.p);
assert(is_lu(ret.p, ret.l, ret.u, *this, gp));
//@ raw
// ---------- row equivalence in progress: p a == b
pub open spec fn fshape(p: Mat, b: Mat) -> bool { wf(p) && wf(b) && p.rows == b.rows && p.cols == b.rows }
pub open spec fn rq(p: Mat, b: Mat, a: Mat) -> bool { fshape(p, b) && same_shape(b, a) && roweq(rm(p), rm(b), rm(a), a.rows as int, a.cols as int) }
pub proof fn rq_start(p: Mat, b: Mat)
    requires fshape(p, b), forall|i: int, k: int| #![trigger at(p, i, k)] inm(p, i, k) ==> at(p, i, k).v() == delta(i, k),
    ensures rq(p, b, b)
{
    assert forall|r: int, c: int| #![trigger rm(p)(r, c)] 0 <= r < b.rows && 0 <= c < b.rows implies rm(p)(r, c) == delta(r, c) by { let x = at(p, r, c); }
    roweq_refl(rm(p), rm(b), rm(b), b.rows as int, b.cols as int);
}
pub open spec fn swapped(m0: Mat, m1: Mat, s: int, t: int) -> bool { same_shape(m1, m0) && forall|i: int, j: int| #![trigger at(m1, i, j)] inm(m0, i, j) ==> at(m1, i, j) == at(m0, tr(s, t, i), j) }
pub open spec fn scaled(m0: Mat, m1: Mat, r: int, x: real) -> bool { same_shape(m1, m0) && forall|i: int, j: int| #![trigger at(m1, i, j)] inm(m0, i, j) ==> at(m1, i, j).v() == (if i == r { mu(x, at(m0, i, j).v()) } else { at(m0, i, j).v() }) }
pub open spec fn replaced(m0: Mat, m1: Mat, s: int, t: int, x: real) -> bool { same_shape(m1, m0) && forall|i: int, j: int| #![trigger at(m1, i, j)] inm(m0, i, j) ==> at(m1, i, j).v() == (if i == t { at(m0, i, j).v() + mu(x, at(m0, s, j).v()) } else { at(m0, i, j).v() }) }
pub proof fn swapped_prod(m0: Mat, m1: Mat, s: int, t: int)
    requires swapped(m0, m1, s, t), 0 <= s < m0.rows, 0 <= t < m0.rows, ensures prod(swapm(s, t), rm(m0), rm(m1), m0.rows as int, m0.rows as int, m0.cols as int)
{
    let n = m0.rows as int;
    assert forall|r: int, c: int| #![trigger dotp(swapm(s, t), rm(m0), r, c, n)] #![trigger rm(m1)(r, c)] 0 <= r < n && 0 <= c < m0.cols implies dotp(swapm(s, t), rm(m0), r, c, n) == rm(m1)(r, c) by { swapm_mul(s, t, rm(m0), r, c, n); let x = at(m1, r, c); }
}
pub proof fn scaled_prod(m0: Mat, m1: Mat, i: int, x: real)
    requires scaled(m0, m1, i, x), 0 <= i < m0.rows, ensures prod(scalem(i, x), rm(m0), rm(m1), m0.rows as int, m0.rows as int, m0.cols as int)
{
    let n = m0.rows as int;
    assert forall|r: int, c: int| #![trigger dotp(scalem(i, x), rm(m0), r, c, n)] #![trigger rm(m1)(r, c)] 0 <= r < n && 0 <= c < m0.cols implies dotp(scalem(i, x), rm(m0), r, c, n) == rm(m1)(r, c) by { scalem_mul(i, x, rm(m0), r, c, n); let z = at(m1, r, c); }
}
pub proof fn replaced_prod(m0: Mat, m1: Mat, s: int, t: int, x: real)
    requires replaced(m0, m1, s, t, x), 0 <= s < m0.rows, 0 <= t < m0.rows, s != t, ensures prod(replm(s, t, x), rm(m0), rm(m1), m0.rows as int, m0.rows as int, m0.cols as int)
{
    let n = m0.rows as int;
    assert forall|r: int, c: int| #![trigger dotp(replm(s, t, x), rm(m0), r, c, n)] #![trigger rm(m1)(r, c)] 0 <= r < n && 0 <= c < m0.cols implies dotp(replm(s, t, x), rm(m0), r, c, n) == rm(m1)(r, c) by { replm_mul(s, t, x, rm(m0), r, c, n); let z = at(m1, r, c); }
}
pub proof fn rq_swap(p0: Mat, b0: Mat, p1: Mat, b1: Mat, s: int, t: int)
    requires fshape(p0, b0), swapped(p0, p1, s, t), swapped(b0, b1, s, t), 0 <= s < b0.rows, 0 <= t < b0.rows,
    ensures fshape(p1, b1), forall|a: Mat| #[trigger] rq(p0, b0, a) ==> rq(p1, b1, a)
{
    assert forall|a: Mat| #[trigger] rq(p0, b0, a) implies rq(p1, b1, a) by {
        let n = b0.rows as int; let m = b0.cols as int;
        swapm_inv(s, t, n); swapped_prod(p0, p1, s, t); swapped_prod(b0, b1, s, t);
        roweq_step(swapm(s, t), swapm(s, t), rm(p0), rm(p1), rm(b0), rm(b1), rm(a), n, m);
    }
}
pub proof fn rq_scale(p0: Mat, b0: Mat, p1: Mat, b1: Mat, i: int, x: real)
    requires fshape(p0, b0), scaled(p0, p1, i, x), scaled(b0, b1, i, x), 0 <= i < b0.rows, x != 0real,
    ensures fshape(p1, b1), forall|a: Mat| #[trigger] rq(p0, b0, a) ==> rq(p1, b1, a)
{
    let y = 1real / x;
    assert(x * y == 1real) by(nonlinear_arith) requires x != 0real, y == 1real / x;
    mu_def(x, y); mu_facts(x, y);
    assert forall|a: Mat| #[trigger] rq(p0, b0, a) implies rq(p1, b1, a) by {
        let n = b0.rows as int; let m = b0.cols as int;
        scalem_inv(i, x, y, n); scaled_prod(p0, p1, i, x); scaled_prod(b0, b1, i, x);
        roweq_step(scalem(i, x), scalem(i, y), rm(p0), rm(p1), rm(b0), rm(b1), rm(a), n, m);
    }
}
pub proof fn rq_repl(p0: Mat, b0: Mat, p1: Mat, b1: Mat, s: int, t: int, x: real)
    requires fshape(p0, b0), replaced(p0, p1, s, t, x), replaced(b0, b1, s, t, x), 0 <= s < b0.rows, 0 <= t < b0.rows, s != t,
    ensures fshape(p1, b1), forall|a: Mat| #[trigger] rq(p0, b0, a) ==> rq(p1, b1, a)
{
    assert forall|a: Mat| #[trigger] rq(p0, b0, a) implies rq(p1, b1, a) by {
        let n = b0.rows as int; let m = b0.cols as int;
        replm_inv(s, t, x, n); replaced_prod(p0, p1, s, t, x); replaced_prod(b0, b1, s, t, x);
        roweq_step(replm(s, t, x), replm(s, t, 0real - x), rm(p0), rm(p1), rm(b0), rm(b1), rm(a), n, m);
    }
}
//@ fn RowEquivalentForm__permute_rows(this, r1, r2)
//@@ requires
fshape(old(this).p, old(this).b), r1 < old(this).b.rows, r2 < old(this).b.rows
//@@ ensures
final(this).original == old(this).original, fshape(final(this).p, final(this).b), swapped(old(this).b, final(this).b, r1 as int, r2 as int),
forall|a: Mat| #[trigger] rq(old(this).p, old(this).b, a) ==> rq(final(this).p, final(this).b, a),
forall|piv: Seq<int>, c: int| #[trigger] echto(old(this).b, piv, c) && piv.len() <= r1 && piv.len() <= r2 ==> echto(final(this).b, piv, c)
//@@ hint end
rq_swap(old(this).p, old(this).b, this.p, this.b, r1 as int, r2 as int);
assert forall|piv: Seq<int>, c: int| #[trigger] echto(old(this).b, piv, c) && piv.len() <= r1 && piv.len() <= r2 implies echto(this.b, piv, c) by { ech_permute(old(this).b, this.b, piv, c, r1 as int, r2 as int); }
//@ fn RowEquivalentForm__scale_row(this, r, scalar)
//@@ requires
fshape(old(this).p, old(this).b), r < old(this).b.rows, scalar.v() != 0real
//@@ ensures
final(this).original == old(this).original, fshape(final(this).p, final(this).b), scaled(old(this).b, final(this).b, r as int, scalar.v()),
forall|a: Mat| #[trigger] rq(old(this).p, old(this).b, a) ==> rq(final(this).p, final(this).b, a),
forall|piv: Seq<int>, c: int| #[trigger] echto(old(this).b, piv, c) && piv.len() <= r ==> echto(final(this).b, piv, c)
//@@ hint end
rq_scale(old(this).p, old(this).b, this.p, this.b, r as int, scalar.v());
assert forall|piv: Seq<int>, c: int| #[trigger] echto(old(this).b, piv, c) && piv.len() <= r implies echto(this.b, piv, c) by { ech_scale(old(this).b, this.b, piv, c, r as int, scalar.v()); }
//@ fn RowEquivalentForm__replace_col_under_row(this, r, c)
//@@ requires
fshape(old(this).p, old(this).b), r < old(this).b.rows, c < old(this).b.cols
//@@ ensures
final(this).original == old(this).original, fshape(final(this).p, final(this).b), same_shape(final(this).b, old(this).b),
forall|i: int, j: int| #![trigger at(final(this).b, i, j)] inm(old(this).b, i, j) ==> at(final(this).b, i, j).v() == (if i > r { at(old(this).b, i, j).v() - mu(at(old(this).b, i, c as int).v(), at(old(this).b, r as int, j).v()) } else { at(old(this).b, i, j).v() }),
forall|a: Mat| #[trigger] rq(old(this).p, old(this).b, a) ==> rq(final(this).p, final(this).b, a),
forall|piv: Seq<int>| #[trigger] echto(old(this).b, piv, c as int) && piv.len() == r && at(old(this).b, r as int, c as int).v() == 1real ==> echto(final(this).b, piv.push(c as int), c + 1)
//@@ loop 1 invariant
this.original == old(this).original, fshape(this.p, this.b), same_shape(this.b, old(this).b),
forall|i: int, j: int| #![trigger at(this.b, i, j)] inm(old(this).b, i, j) ==> at(this.b, i, j).v() == (if r < i < $i { at(old(this).b, i, j).v() - mu(at(old(this).b, i, c as int).v(), at(old(this).b, r as int, j).v()) } else { at(old(this).b, i, j).v() }),
forall|a: Mat| #[trigger] rq(old(this).p, old(this).b, a) ==> rq(this.p, this.b, a)
//@@ hint loop 1 start
!let ghost (p0, b0) = (this.p, this.b);
//@@ hint loop 1 end
assert forall|j: int| #![trigger at(old(this).b, r as int, j)] 0 <= j < this.b.cols implies mu(0real - at(old(this).b, $i - 1, c as int).v(), at(old(this).b, r as int, j).v()) == -mu(at(old(this).b, $i - 1, c as int).v(), at(old(this).b, r as int, j).v()) by {
    mu_neg(at(old(this).b, $i - 1, c as int).v(), at(old(this).b, r as int, j).v());
}
rq_repl(p0, b0, this.p, this.b, r as int, $i - 1, 0real - at(old(this).b, $i - 1, c as int).v());
//@@ hint end
assert forall|piv: Seq<int>| #[trigger] echto(old(this).b, piv, c as int) && piv.len() == r && at(old(this).b, r as int, c as int).v() == 1real implies echto(this.b, piv.push(c as int), c + 1) by { ech_replace(old(this).b, this.b, piv, c as int); }
//@ fn Mat__row_echelon(this)
//@@ requires
wf(*this)
//@@ ensures
rq(ret.p, ret.b, *this), is_ech(ret.b), *ret.original == *this
//@@ hint loop 1 before
!let ghost mut piv: Seq<int> = Seq::empty();
//@@ hint loop 1 before
rq_start(form.p, form.b);
//@@ loop 1 breaks
//@@ loop 1 invariant
rq(form.p, form.b, *this), *form.original == *this, piv.len() == r, echto(form.b, piv, $i as int)
//@@ hint loop 1 start
if piv.len() >= form.b.rows { ech_full(form.b, piv, c as int); }
//@@ hint loop 1 end
if r > piv.len() { piv = piv.push(c as int); } else { ech_skip(form.b, piv, c as int); }
//@@ hint loop 1 after
ech_full(form.b, piv, this.cols as int);
//@ raw
pub proof fn ech_above(b0: Mat, b1: Mat, piv: Seq<int>, r: int)
    requires ech(b0, piv), 0 <= r < piv.len(), same_shape(b1, b0),
        forall|i: int, j: int| #![trigger at(b1, i, j)] inm(b0, i, j) ==> at(b1, i, j).v() == (if i < r { at(b0, i, j).v() - mu(at(b0, i, piv[r]).v(), at(b0, r, j).v()) } else { at(b0, i, j).v() }),
    ensures ech(b1, piv), redfrom(b0, piv, r + 1) ==> redfrom(b1, piv, r)
{
    assert(0 <= piv[r] < b0.cols);
    assert forall|i: int, j: int| #![trigger at(b1, i, j)] 0 <= i < piv.len() && 0 <= j < piv[i] implies at(b1, i, j).v() == 0real by {
        assert(piv[i] < b0.cols);
        let z = at(b0, i, j);
        if i < r { assert(piv[i] < piv[r]); assert(at(b0, r, j).v() == 0real); mu_facts(at(b0, i, piv[r]).v(), at(b0, r, j).v()); }
    }
    assert forall|i: int| #![trigger piv[i]] 0 <= i < piv.len() implies at(b1, i, piv[i]).v() == 1real by {
        assert(0 <= piv[i] < b0.cols);
        assert(at(b0, i, piv[i]).v() == 1real);
        if i < r { assert(piv[i] < piv[r]); assert(at(b0, r, piv[i]).v() == 0real); mu_facts(at(b0, i, piv[r]).v(), at(b0, r, piv[i]).v()); }
        let z = at(b1, i, piv[i]);
    }
    assert forall|i: int, j: int| #![trigger at(b1, i, j)] piv.len() <= i < b1.rows && 0 <= j < b1.cols implies at(b1, i, j).v() == 0real by { let z = at(b0, i, j); }
    if redfrom(b0, piv, r + 1) {
        assert forall|i: int, j: int| #![trigger at(b1, i, piv[j])] r <= j < piv.len() && 0 <= j && 0 <= i < b1.rows && i != j implies at(b1, i, piv[j]).v() == 0real by {
            let c = piv[j];
            assert(0 <= c < b0.cols);
            let z = at(b0, i, c); let w = at(b0, r, c); let u = at(b0, i, piv[r]);
            assert(at(b0, j, piv[j]).v() == 1real);
            mu_facts(u.v(), w.v());
            if j == r { if i > r { if i < piv.len() { assert(piv[r] < piv[i]); } assert(z.v() == 0real); } else { assert(w.v() == 1real); } }
            else { assert(at(b0, i, piv[j]).v() == 0real); if i < r { assert(at(b0, r, piv[j]).v() == 0real); } }
        }
    }
}
pub proof fn red_zero(b: Mat, piv: Seq<int>)
    requires ech(b, piv), redfrom(b, piv, 1), ensures rrefp(b, piv), is_rref(b)
{
    assert forall|i: int, j: int| #![trigger at(b, i, piv[j])] 0 <= j < piv.len() && 0 <= i < b.rows && i != j implies at(b, i, piv[j]).v() == 0real by {
        if j == 0 { assert(0 <= piv[0] < b.cols); if i < piv.len() { assert(piv[0] < piv[i]); } assert(at(b, i, piv[0]).v() == 0real); }
    }
    assert(rrefp(b, piv));
}
// the first nonzero entry of a row of an echelon matrix is its leading column; below the last leading row there is none
pub proof fn ech_first(b: Mat, piv: Seq<int>, r: int)
    requires ech(b, piv), 0 <= r < b.rows,
    ensures zrow(b, r) <==> r >= piv.len(),
        forall|c: int| #![trigger at(b, r, c)] 0 <= c < b.cols && at(b, r, c).v() != 0real && (forall|k: int| #![trigger at(b, r, k)] 0 <= k < c ==> at(b, r, k).v() == 0real) ==> r < piv.len() && piv[r] == c
{
    if r < piv.len() { assert(at(b, r, piv[r]).v() == 1real && 0 <= piv[r] < b.cols); }
    assert forall|c: int| #![trigger at(b, r, c)] 0 <= c < b.cols && at(b, r, c).v() != 0real && (forall|k: int| #![trigger at(b, r, k)] 0 <= k < c ==> at(b, r, k).v() == 0real) implies r < piv.len() && piv[r] == c by { ech_lead(b, piv, r, c); }
}
//@ fn RowEquivalentForm__replace_col_above_row(this, r, c)
//@@ requires
fshape(old(this).p, old(this).b), r < old(this).b.rows, c < old(this).b.cols
//@@ ensures
final(this).original == old(this).original, fshape(final(this).p, final(this).b), same_shape(final(this).b, old(this).b),
forall|i: int, j: int| #![trigger at(final(this).b, i, j)] inm(old(this).b, i, j) ==> at(final(this).b, i, j).v() == (if i < r { at(old(this).b, i, j).v() - mu(at(old(this).b, i, c as int).v(), at(old(this).b, r as int, j).v()) } else { at(old(this).b, i, j).v() }),
forall|a: Mat| #[trigger] rq(old(this).p, old(this).b, a) ==> rq(final(this).p, final(this).b, a),
forall|piv: Seq<int>| #[trigger] ech(old(this).b, piv) && r < piv.len() && piv[r as int] == c ==> ech(final(this).b, piv) && (redfrom(old(this).b, piv, r + 1) ==> redfrom(final(this).b, piv, r as int))
//@@ loop 1 invariant
this.original == old(this).original, fshape(this.p, this.b), same_shape(this.b, old(this).b),
forall|i: int, j: int| #![trigger at(this.b, i, j)] inm(old(this).b, i, j) ==> at(this.b, i, j).v() == (if i < $i { at(old(this).b, i, j).v() - mu(at(old(this).b, i, c as int).v(), at(old(this).b, r as int, j).v()) } else { at(old(this).b, i, j).v() }),
forall|a: Mat| #[trigger] rq(old(this).p, old(this).b, a) ==> rq(this.p, this.b, a)
//@@ hint loop 1 start
!let ghost (p0, b0) = (this.p, this.b);
//@@ hint loop 1 end
assert forall|j: int| #![trigger at(old(this).b, r as int, j)] 0 <= j < this.b.cols implies mu(0real - at(old(this).b, $i - 1, c as int).v(), at(old(this).b, r as int, j).v()) == -mu(at(old(this).b, $i - 1, c as int).v(), at(old(this).b, r as int, j).v()) by {
    mu_neg(at(old(this).b, $i - 1, c as int).v(), at(old(this).b, r as int, j).v());
}
rq_repl(p0, b0, this.p, this.b, r as int, $i - 1, 0real - at(old(this).b, $i - 1, c as int).v());
//@@ hint end
assert forall|piv: Seq<int>| #[trigger] ech(old(this).b, piv) && r < piv.len() && piv[r as int] == c implies ech(this.b, piv) && (redfrom(old(this).b, piv, r + 1) ==> redfrom(this.b, piv, r as int)) by { ech_above(old(this).b, this.b, piv, r as int); }
//@ fn RowEquivalentForm__to_rref(this)
//@@ requires
rq(this.p, this.b, *this.original), is_ech(this.b)
//@@ ensures
ret.original == this.original, rq(ret.p, ret.b, *ret.original), is_rref(ret.b)
//@@ hint start
!let ghost piv: Seq<int> = choose|piv: Seq<int>| #[trigger] ech(this.b, piv);
//@@ hint loop 1 before
!let ghost n0 = this.b.rows as int;
//@@ loop 1 invariant
form.original == this.original, rq(form.p, form.b, *form.original), ech(form.b, piv), n0 == form.b.rows, redfrom(form.b, piv, n0 - $i)
//@@ hint loop 1 start
ech_first(form.b, piv, $x as int);
//@@ hint loop 1 after
if n0 > 0 { red_zero(form.b, piv); } else { assert(rrefp(form.b, piv)); }
//@ fn RowEquivalentForm__rank(this)
//@@ requires
is_ech(this.b)
//@@ ensures
forall|piv: Seq<int>| #[trigger] ech(this.b, piv) ==> ret == piv.len()
//@@ hint start
assert forall|piv: Seq<int>| #[trigger] ech(this.b, piv) implies zcount(this.b, this.b.rows as int) == this.b.rows - piv.len() by { ech_zcount(this.b, piv, this.b.rows as int); }
zcount_bound(this.b, this.b.rows as int);
//@ fn RowEquivalentForm__nullity(this)
//@@ requires
is_ech(this.b)
//@@ ensures
forall|piv: Seq<int>| #[trigger] ech(this.b, piv) ==> ret == this.b.cols - piv.len()
//@@ hint start
assert forall|piv: Seq<int>| #[trigger] ech(this.b, piv) implies piv.len() <= this.b.cols by { incr_len(piv, 0, this.b.cols as int); }
//@ raw
// ---------- C10: rank facts
pub proof fn prod_recover(p: RM, q: RM, b: RM, a: RM, n: int, m: int)
    requires n >= 0, m >= 0, inverses(p, q, n), prod(p, a, b, n, n, m), ensures prod(q, b, a, n, n, m)
{
    prod_assoc(q, p, idm(), a, b, n, n, n, m);
    assert forall|r: int, c: int| #![trigger dotp(q, b, r, c, n)] #![trigger a(r, c)] 0 <= r < n && 0 <= c < m implies dotp(q, b, r, c, n) == a(r, c) by {
        assert(dotp(idm(), a, r, c, n) == dotp(q, b, r, c, n)); prod_id(a, r, c, n);
    }
}
// rank = number of leading entries is at most either dimension, and 0 exactly for the zero matrix
pub proof fn C10_rank_bounds(p: Mat, b: Mat, a: Mat, piv: Seq<int>)
    requires rq(p, b, a), ech(b, piv),
    ensures piv.len() <= a.rows, piv.len() <= a.cols, piv.len() == 0 <==> (forall|i: int, j: int| #![trigger at(a, i, j)] inm(a, i, j) ==> at(a, i, j).v() == 0real)
{
    incr_len(piv, 0, b.cols as int);
    let n = a.rows as int; let m = a.cols as int;
    let q = choose|q: RM| #[trigger] inverses(rm(p), q, n);
    prod_recover(rm(p), q, rm(b), rm(a), n, m);
    if piv.len() == 0 {
        assert forall|i: int, j: int| #![trigger at(a, i, j)] inm(a, i, j) implies at(a, i, j).v() == 0real by {
            assert(dotp(q, rm(b), i, j, n) == rm(a)(i, j));
            assert forall|k: int| 0 <= k < n implies #[trigger] q(i, k) == 0real || rm(b)(k, j) == 0real by { assert(at(b, k, j).v() == 0real); }
            dotp_zero(q, rm(b), i, j, 0, n);
        }
    } else {
        if forall|i: int, j: int| #![trigger at(a, i, j)] inm(a, i, j) ==> at(a, i, j).v() == 0real {
            let c = piv[0];
            assert(at(b, 0, c).v() == 1real && 0 <= c < m);
            assert(dotp(rm(p), rm(a), 0, c, n) == rm(b)(0, c));
            assert forall|k: int| 0 <= k < n implies #[trigger] rm(p)(0, k) == 0real || rm(a)(k, c) == 0real by { assert(at(a, k, c).v() == 0real); }
            dotp_zero(rm(p), rm(a), 0, c, 0, n);
        }
    }
}
// the first rank rows of b are linearly independent
pub proof fn C10_rows_independent(b: Mat, piv: Seq<int>, x: RM, i: int)
    requires ech(b, piv), 0 <= i <= piv.len(), forall|j: int| 0 <= j < b.cols ==> #[trigger] dotp(x, rm(b), 0, j, piv.len() as int) == 0real,
    ensures forall|k: int| 0 <= k < i ==> #[trigger] x(0, k) == 0real
    decreases i
{
    if i > 0 {
        C10_rows_independent(b, piv, x, i - 1);
        let r = i - 1; let c = piv[r]; let n = piv.len() as int;
        assert(at(b, r, c).v() == 1real && 0 <= c < b.cols);
        assert forall|k: int| 0 <= k < n && k != r implies #[trigger] x(0, k) == 0real || rm(b)(k, c) == 0real by {
            if k > r { assert(piv[r] < piv[k]); assert(at(b, k, c).v() == 0real); }
        }
        dotp_one(x, rm(b), 0, c, n, r);
        assert(dotp(x, rm(b), 0, c, n) == 0real);
        mu_facts(x(0, r), rm(b)(r, c));
    }
}
// and they span the row space of a: every row of a is a combination of them, and they are combinations of the rows of a
pub proof fn C10_row_space(p: Mat, b: Mat, a: Mat, piv: Seq<int>) -> (q: RM)
    requires rq(p, b, a), ech(b, piv),
    ensures forall|i: int, j: int| #![trigger at(a, i, j)] inm(a, i, j) ==> at(a, i, j).v() == dotp(q, rm(b), i, j, piv.len() as int),
        forall|i: int, j: int| #![trigger at(b, i, j)] inm(a, i, j) ==> at(b, i, j).v() == dotp(rm(p), rm(a), i, j, a.rows as int)
{
    let n = a.rows as int; let m = a.cols as int;
    let q = choose|q: RM| #[trigger] inverses(rm(p), q, n);
    prod_recover(rm(p), q, rm(b), rm(a), n, m);
    assert forall|i: int, j: int| #![trigger at(a, i, j)] inm(a, i, j) implies at(a, i, j).v() == dotp(q, rm(b), i, j, piv.len() as int) by {
        assert(dotp(q, rm(b), i, j, n) == rm(a)(i, j));
        assert forall|k: int| piv.len() <= k < n implies #[trigger] q(i, k) == 0real || rm(b)(k, j) == 0real by { assert(at(b, k, j).v() == 0real); }
        dotp_zero(q, rm(b), i, j, piv.len() as int, n);
    }
    assert forall|i: int, j: int| #![trigger at(b, i, j)] inm(a, i, j) implies at(b, i, j).v() == dotp(rm(p), rm(a), i, j, a.rows as int) by { assert(dotp(rm(p), rm(a), i, j, n) == rm(b)(i, j)); }
    q
}
//@ raw
// ---------- kernel and range
pub open spec fn haspiv(piv: Seq<int>, k: int, c: int) -> bool { exists|r: int| 0 <= r < k && r < piv.len() && #[trigger] piv[r] == c }
pub open spec fn counting(s: Seq<usize>) -> bool { forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> s[i] == i }
pub proof fn ech_leads(b: Mat, piv: Seq<int>, r: int)
    requires ech(b, piv), 0 <= r < b.rows, ensures lead(b, r) == (if r < piv.len() { Some(piv[r] as usize) } else { None::<usize> }), r < piv.len() ==> 0 <= piv[r] < b.cols
{
    ech_first(b, piv, r); lead_unique(b, r);
    if r < piv.len() { assert(at(b, r, piv[r]).v() == 1real); assert(0 <= piv[r] < b.cols); assert(is_lead(b, r, (piv[r] as usize) as int)); }
}
pub proof fn fm_lead(s: Seq<usize>, g: spec_fn(usize) -> Option<usize>, b: Mat, piv: Seq<int>)
    requires ech(b, piv), s.len() <= b.rows, counting(s), forall|r: usize| #![trigger g(r)] r < b.rows ==> g(r) == lead(b, r as int),
    ensures seq_filter_map(s, g).len() == (if s.len() <= piv.len() { s.len() } else { piv.len() }),
        forall|i: int| #![trigger seq_filter_map(s, g)[i]] #![trigger piv[i]] 0 <= i < seq_filter_map(s, g).len() ==> seq_filter_map(s, g)[i] == piv[i]
    decreases s.len()
{
    if s.len() > 0 {
        let t = s.drop_last();
        assert(counting(t)) by { assert forall|i: int| #![trigger t[i]] 0 <= i < t.len() implies t[i] == i by { assert(t[i] == s[i]); } }
        fm_lead(t, g, b, piv);
        assert(s[s.len() - 1] == s.len() - 1);
        ech_leads(b, piv, s.len() - 1);
        assert(g(s.last()) == lead(b, s.len() - 1));
    }
}
pub open spec fn leads_are(f: Seq<usize>, piv: Seq<int>) -> bool {
    &&& forall|c: usize| #[trigger] f.contains(c) <==> haspiv(piv, piv.len() as int, c as int)
    &&& f.len() == piv.len() && f.no_duplicates()
}
pub proof fn leads_set(s: Seq<usize>, g: spec_fn(usize) -> Option<usize>, b: Mat, piv: Seq<int>)
    requires ech(b, piv), s.len() == b.rows, counting(s), forall|r: usize| #![trigger g(r)] r < b.rows ==> g(r) == lead(b, r as int),
    ensures leads_are(seq_filter_map(s, g), piv)
{
    fm_lead(s, g, b, piv); let f = seq_filter_map(s, g);
    assert forall|c: usize| #[trigger] f.contains(c) <==> haspiv(piv, piv.len() as int, c as int) by {
        if f.contains(c) { let k = choose|k: int| 0 <= k < f.len() && f[k] == c; assert(piv[k] == c); }
        if haspiv(piv, piv.len() as int, c as int) { let r = choose|r: int| 0 <= r < piv.len() && #[trigger] piv[r] == c; assert(f[r] == c); }
    }
    assert forall|i: int, j: int| 0 <= i < j < f.len() implies f[i] != f[j] by { assert(piv[i] < piv[j]); }
}
pub open spec fn lt_all(o: Seq<usize>, m: int) -> bool { forall|i: int| #![trigger o[i]] 0 <= i < o.len() ==> o[i] < m }
pub proof fn leads_perm(o: Seq<usize>, f: Seq<usize>, b: Mat, piv: Seq<int>)
    requires ech(b, piv), leads_are(f, piv), o.no_duplicates(), o.to_set() == f.to_set(), ensures leads_are(o, piv), lt_all(o, b.cols as int)
{
    o.unique_seq_to_set(); f.unique_seq_to_set();
    assert forall|c: usize| o.contains(c) == f.contains(c) by {
        o.to_set_ensures(); f.to_set_ensures();
        assert(o.to_set().contains(c) == f.to_set().contains(c)); assert(o.to_set().contains(c) == o.contains(c)); assert(f.to_set().contains(c) == f.contains(c)); }
    assert forall|i: int| #![trigger o[i]] 0 <= i < o.len() implies o[i] < b.cols by { assert(o.contains(o[i])); let r = choose|r: int| 0 <= r < piv.len() && #[trigger] piv[r] == o[i]; assert(piv[r] < b.cols); }
}
pub open spec fn filt(f: Seq<usize>, p: spec_fn(usize) -> bool, n: int) -> bool {
    &&& forall|k: int| #![trigger f[k]] 0 <= k < f.len() ==> f[k] < n && p(f[k])
    &&& forall|i: int, j: int| #![trigger f[i], f[j]] 0 <= i < j < f.len() ==> f[i] < f[j]
    &&& forall|c: usize| #![trigger p(c)] #![trigger f.contains(c)] c < n && p(c) ==> f.contains(c)
}
pub proof fn filter_inc(s: Seq<usize>, p: spec_fn(usize) -> bool)
    requires counting(s), ensures filt(s.filter(p), p, s.len() as int) decreases s.len()
{
    reveal(Seq::filter);
    if s.len() > 0 {
        let t = s.drop_last(); let n = s.len() - 1;
        assert(counting(t)) by { assert forall|i: int| #![trigger t[i]] 0 <= i < t.len() implies t[i] == i by { assert(t[i] == s[i]); } }
        filter_inc(t, p);
        let f = t.filter(p); let g = s.filter(p);
        assert(s[n] == n);
        assert forall|c: usize| #![trigger p(c)] #![trigger g.contains(c)] c < s.len() && p(c) implies g.contains(c) by {
            if c < n { assert(f.contains(c)); let k = choose|k: int| 0 <= k < f.len() && f[k] == c; assert(g[k] == c); } else { assert(g[g.len() - 1] == c); }
        }
    }
}
pub open spec fn free_is(f: Seq<usize>, piv: Seq<int>, n: int) -> bool {
    &&& forall|k: int| #![trigger f[k]] 0 <= k < f.len() ==> f[k] < n && !haspiv(piv, piv.len() as int, f[k] as int)
    &&& forall|i: int, j: int| #![trigger f[i], f[j]] 0 <= i < j < f.len() ==> f[i] < f[j]
    &&& forall|c: usize| #![trigger f.contains(c)] c < n && !haspiv(piv, piv.len() as int, c as int) ==> f.contains(c)
}
pub proof fn free_count(f: Seq<usize>, piv: Seq<int>, n: int)
    requires incr(piv, 0, n), free_is(f, piv, n), 0 <= n <= usize::MAX, ensures f.len() + piv.len() == n decreases n
{
    if n == 0 {
        if piv.len() > 0 { assert(piv[0] < 0); }
        if f.len() > 0 { assert(f[0] < 0); }
    } else if haspiv(piv, piv.len() as int, n - 1) {
        let l = piv.len() - 1;
        let r = choose|r: int| 0 <= r < piv.len() && #[trigger] piv[r] == n - 1;
        if r < l { assert(piv[r] < piv[l]); assert(piv[l] < n); }
        let q = piv.drop_last();
        assert forall|i: int| #![trigger q[i]] 0 <= i < q.len() implies 0 <= q[i] < n - 1 by { assert(q[i] == piv[i]); assert(piv[i] < piv[l]); }
        assert forall|i: int, j: int| #![trigger q[i], q[j]] 0 <= i < j < q.len() implies q[i] < q[j] by { assert(q[i] == piv[i] && q[j] == piv[j]); }
        assert forall|c: int| 0 <= c < n - 1 implies #[trigger] haspiv(q, q.len() as int, c) == haspiv(piv, piv.len() as int, c) by {
            if haspiv(piv, piv.len() as int, c) { let r = choose|r: int| 0 <= r < piv.len() && #[trigger] piv[r] == c; assert(q[r] == c); }
            if haspiv(q, q.len() as int, c) { let r = choose|r: int| 0 <= r < q.len() && #[trigger] q[r] == c; assert(piv[r] == c); }
        }
        assert forall|k: int| #![trigger f[k]] 0 <= k < f.len() implies f[k] < n - 1 && !haspiv(q, q.len() as int, f[k] as int) by { if f[k] == n - 1 { assert(haspiv(piv, piv.len() as int, f[k] as int)); } }
        free_count(f, q, n - 1);
    } else {
        let c = (n - 1) as usize;
        assert(f.contains(c));
        let l = f.len() - 1;
        let k = choose|k: int| 0 <= k < f.len() && f[k] == c;
        if k < l { assert(f[k] < f[l]); assert(f[l] < n); }
        let g = f.drop_last();
        assert forall|i: int| #![trigger piv[i]] 0 <= i < piv.len() implies 0 <= piv[i] < n - 1 by { if piv[i] == n - 1 { assert(haspiv(piv, piv.len() as int, n - 1)); } }
        assert forall|i: int| #![trigger g[i]] 0 <= i < g.len() implies g[i] < n - 1 && !haspiv(piv, piv.len() as int, g[i] as int) by { assert(g[i] == f[i]); assert(f[i] < f[l]); }
        assert forall|i: int, j: int| #![trigger g[i], g[j]] 0 <= i < j < g.len() implies g[i] < g[j] by { assert(g[i] == f[i] && g[j] == f[j]); }
        assert forall|d: usize| #![trigger g.contains(d)] d < n - 1 && !haspiv(piv, piv.len() as int, d as int) implies g.contains(d) by {
            assert(f.contains(d)); let k = choose|k: int| 0 <= k < f.len() && f[k] == d; assert(g[k] == d);
        }
        free_count(g, piv, n - 1);
    }
}
pub proof fn ech_piv_unique(b: Mat, p: Seq<int>, q: Seq<int>)
    requires ech(b, p), ech(b, q), ensures p == q
{
    ech_zcount(b, p, b.rows as int); ech_zcount(b, q, b.rows as int);
    assert forall|i: int| 0 <= i < p.len() implies p[i] == q[i] by { ech_leads(b, p, i); ech_leads(b, q, i); }
    assert(p =~= q);
}
// the vector of the free column c, with the leading columns of the first k rows filled in
pub open spec fn kvec(v: Mat, b: Mat, piv: Seq<int>, c: int, k: int) -> bool {
    &&& wf(v) && v.rows == b.cols && v.cols == 1
    &&& at(v, c, 0).v() == 1real
    &&& forall|r: int| #![trigger piv[r]] 0 <= r < k && r < piv.len() ==> at(v, piv[r], 0).v() == -at(b, r, c).v()
    &&& forall|j: int| #![trigger at(v, j, 0)] 0 <= j < v.rows && j != c && !haspiv(piv, k, j) ==> at(v, j, 0).v() == 0real
}
pub open spec fn kmat(vs: Seq<Mat>) -> RM { |j: int, k: int| at(vs[k], j, 0).v() }
pub open spec fn kvecs(vs: Seq<Mat>, f: Seq<usize>, b: Mat, piv: Seq<int>) -> bool {
    &&& vs.len() == f.len() && free_is(f, piv, b.cols as int)
    &&& forall|k: int| #![trigger vs[k]] 0 <= k < vs.len() ==> kvec(vs[k], b, piv, f[k] as int, b.rows as int)
}
pub open spec fn killed(a: RM, n: int, m: int, x: RM, j: int) -> bool { forall|i: int| #![trigger dotp(a, x, i, j, m)] 0 <= i < n ==> dotp(a, x, i, j, m) == 0real }
// the columns of x (m by k) are linearly independent
pub open spec fn indep(x: RM, m: int, k: int) -> bool { forall|w: RM| #[trigger] nullcomb(x, w, m, k) ==> forall|i: int| #![trigger w(i, 0)] 0 <= i < k ==> w(i, 0) == 0real }
pub open spec fn nullcomb(x: RM, w: RM, m: int, k: int) -> bool { forall|j: int| #![trigger dotp(x, w, j, 0, k)] 0 <= j < m ==> dotp(x, w, j, 0, k) == 0real }
pub open spec fn comb(x: RM, w: RM, y: RM, c: int, m: int, k: int) -> bool { forall|j: int| #![trigger y(j, c)] #![trigger dotp(x, w, j, 0, k)] 0 <= j < m ==> dotp(x, w, j, 0, k) == y(j, c) }
pub open spec fn is_kernel_basis(vs: Seq<Mat>, a: Mat) -> bool {
    &&& forall|k: int| #![trigger vs[k]] 0 <= k < vs.len() ==> wf(vs[k]) && vs[k].rows == a.cols && vs[k].cols == 1
    &&& forall|k: int| #![trigger killed(rm(a), a.rows as int, a.cols as int, kmat(vs), k)] 0 <= k < vs.len() ==> killed(rm(a), a.rows as int, a.cols as int, kmat(vs), k)
    &&& indep(kmat(vs), a.cols as int, vs.len() as int)
    &&& forall|x: RM| #![trigger killed(rm(a), a.rows as int, a.cols as int, x, 0)] killed(rm(a), a.rows as int, a.cols as int, x, 0) ==> exists|w: RM| #[trigger] comb(kmat(vs), w, x, 0, a.cols as int, vs.len() as int)
}
pub proof fn killed_by_product(p: RM, a: RM, b: RM, x: RM, j: int, n: int, m: int)
    requires n >= 0, m >= 0, prod(p, a, b, n, n, m), killed(a, n, m, x, j), ensures killed(b, n, m, x, j)
{
    assert forall|i: int| #![trigger dotp(b, x, i, j, m)] 0 <= i < n implies dotp(b, x, i, j, m) == 0real by {
        dotp_ext(b, x, i, j, mulm(p, a, n), x, i, j, m);
        dotp_assoc(p, a, x, i, j, n, m);
        assert forall|k: int| 0 <= k < n implies #[trigger] p(i, k) == 0real || mulm(a, x, m)(k, j) == 0real by { assert(dotp(a, x, k, j, m) == 0real); }
        dotp_zero(p, mulm(a, x, m), i, j, 0, n);
    }
}
pub proof fn kvec_killed(vs: Seq<Mat>, f: Seq<usize>, b: Mat, piv: Seq<int>, k: int)
    requires rrefp(b, piv), kvecs(vs, f, b, piv), 0 <= k < vs.len(), ensures killed(rm(b), b.rows as int, b.cols as int, kmat(vs), k)
{
    let m = b.cols as int; let v = vs[k]; let c = f[k] as int; let x = kmat(vs);
    assert(kvec(v, b, piv, c, b.rows as int));
    assert forall|i: int| #![trigger dotp(rm(b), x, i, k, m)] 0 <= i < b.rows implies dotp(rm(b), x, i, k, m) == 0real by {
        if i >= piv.len() {
            assert forall|j: int| 0 <= j < m implies #[trigger] rm(b)(i, j) == 0real || x(j, k) == 0real by { assert(at(b, i, j).v() == 0real); }
            dotp_zero(rm(b), x, i, k, 0, m);
        } else {
            let q = piv[i];
            assert(at(b, i, q).v() == 1real && 0 <= q < m);
            if q == c { assert(haspiv(piv, piv.len() as int, c)); }
            assert forall|j: int| 0 <= j < m && j != c && j != q implies #[trigger] rm(b)(i, j) == 0real || x(j, k) == 0real by {
                if haspiv(piv, b.rows as int, j) { let r = choose|r: int| 0 <= r < b.rows && r < piv.len() && #[trigger] piv[r] == j; assert(at(b, i, piv[r]).v() == 0real); }
                else { assert(at(v, j, 0).v() == 0real); }
            }
            dotp_two(rm(b), x, i, k, m, c, q);
            let z = at(b, i, c).v();
            assert(at(v, piv[i], 0).v() == -z);
            mu_facts(z, 1real); mu_facts(1real, -z);
        }
    }
}
pub proof fn kernel_basis(p: Mat, b: Mat, a: Mat, piv: Seq<int>, vs: Seq<Mat>, f: Seq<usize>)
    requires rq(p, b, a), rrefp(b, piv), kvecs(vs, f, b, piv),
    ensures is_kernel_basis(vs, a), vs.len() + piv.len() == a.cols
{
    let n = a.rows as int; let m = a.cols as int; let l = vs.len() as int; let x = kmat(vs);
    free_count(f, piv, m);
    let q = choose|q: RM| #[trigger] inverses(rm(p), q, n);
    prod_recover(rm(p), q, rm(b), rm(a), n, m);
    assert forall|k: int| #![trigger killed(rm(a), n, m, x, k)] 0 <= k < l implies killed(rm(a), n, m, x, k) by {
        kvec_killed(vs, f, b, piv, k);
        killed_by_product(q, rm(b), rm(a), x, k, n, m);
    }
    assert forall|k: int| #![trigger vs[k]] 0 <= k < vs.len() implies wf(vs[k]) && vs[k].rows == a.cols && vs[k].cols == 1 by { assert(kvec(vs[k], b, piv, f[k] as int, n)); }
    assert forall|i: int, k: int| 0 <= i < l && 0 <= k < l implies #[trigger] x(f[i] as int, k) == delta(i, k) by {
        assert(kvec(vs[k], b, piv, f[k] as int, n));
        assert(f[i] < m && !haspiv(piv, piv.len() as int, f[i] as int));
        if i < k { assert(f[i] < f[k]); } if k < i { assert(f[k] < f[i]); }
        assert(!haspiv(piv, n, f[i] as int)) by { if haspiv(piv, n, f[i] as int) { let r = choose|r: int| 0 <= r < n && r < piv.len() && #[trigger] piv[r] == f[i]; assert(haspiv(piv, piv.len() as int, f[i] as int)); } }
        let z = at(vs[k], f[i] as int, 0);
    }
    assert forall|w: RM, i: int| 0 <= i < l implies #[trigger] dotp(x, w, f[i] as int, 0, l) == w(i, 0) by {
        assert forall|k: int| 0 <= k < l && k != i implies #[trigger] x(f[i] as int, k) == 0real || w(k, 0) == 0real by {}
        dotp_one(x, w, f[i] as int, 0, l, i);
        mu_facts(1real, w(i, 0));
    }
    assert forall|w: RM| #[trigger] nullcomb(x, w, m, l) implies forall|i: int| #![trigger w(i, 0)] 0 <= i < l ==> w(i, 0) == 0real by {
        assert forall|i: int| #![trigger w(i, 0)] 0 <= i < l implies w(i, 0) == 0real by { assert(f[i] < m); assert(dotp(x, w, f[i] as int, 0, l) == 0real); }
    }
    assert forall|y: RM| #![trigger killed(rm(a), n, m, y, 0)] killed(rm(a), n, m, y, 0) implies exists|w: RM| #[trigger] comb(x, w, y, 0, m, l) by {
        kernel_span(p, b, a, piv, vs, f, y);
    }
}
pub proof fn kernel_span(p: Mat, b: Mat, a: Mat, piv: Seq<int>, vs: Seq<Mat>, f: Seq<usize>, y: RM)
    requires rq(p, b, a), rrefp(b, piv), kvecs(vs, f, b, piv), killed(rm(a), a.rows as int, a.cols as int, y, 0),
        forall|w: RM, i: int| 0 <= i < vs.len() ==> #[trigger] dotp(kmat(vs), w, f[i] as int, 0, vs.len() as int) == w(i, 0),
    ensures exists|w: RM| #[trigger] comb(kmat(vs), w, y, 0, a.cols as int, vs.len() as int)
{
    let n = a.rows as int; let m = a.cols as int; let l = vs.len() as int; let x = kmat(vs);
    let w = |i: int, j: int| y(f[i] as int, 0);
    let z = mulm(x, w, l);
    let d = |i: int, j: int| y(i, 0) + mu(-1real, z(i, 0));
    killed_by_product(rm(p), rm(a), rm(b), y, 0, n, m);
    assert forall|j: int| #![trigger y(j, 0)] 0 <= j < m implies dotp(x, w, j, 0, l) == y(j, 0) by {
        mu_neg(1real, z(j, 0)); mu_facts(1real, z(j, 0)); mu_def(-1real, z(j, 0));
        assert(d(j, 0) == y(j, 0) - z(j, 0));
        if haspiv(piv, n, j) {
            let r = choose|r: int| 0 <= r < n && r < piv.len() && #[trigger] piv[r] == j;
            // row r of b applied to d: only the leading column counts
            dotp_lin(rm(b), d, r, 0, y, 0, z, 0, -1real, m);
            dotp_assoc(rm(b), x, w, r, 0, m, l);
            assert forall|k: int| 0 <= k < l implies #[trigger] mulm(rm(b), x, m)(r, k) == 0real || w(k, 0) == 0real by { kvec_killed(vs, f, b, piv, k); assert(dotp(rm(b), x, r, k, m) == 0real); }
            dotp_zero(mulm(rm(b), x, m), w, r, 0, 0, l);
            assert(dotp(rm(b), y, r, 0, m) == 0real);
            mu_facts(-1real, 0real);
            assert(dotp(rm(b), d, r, 0, m) == 0real);
            assert forall|i: int| 0 <= i < m && i != j implies #[trigger] rm(b)(r, i) == 0real || d(i, 0) == 0real by {
                if haspiv(piv, piv.len() as int, i) { let s = choose|s: int| 0 <= s < piv.len() && #[trigger] piv[s] == i; assert(at(b, r, piv[s]).v() == 0real); }
                else {
                    assert(f.contains(i as usize));
                    let k = choose|k: int| 0 <= k < f.len() && f[k] == i as usize;
                    assert(dotp(x, w, f[k] as int, 0, l) == w(k, 0));
                    mu_neg(1real, z(i, 0)); mu_facts(1real, z(i, 0)); mu_def(-1real, z(i, 0));
                }
            }
            dotp_one(rm(b), d, r, 0, m, j);
            assert(at(b, r, piv[r]).v() == 1real);
            mu_facts(1real, d(j, 0));
        } else {
            if haspiv(piv, piv.len() as int, j) { let r = choose|r: int| 0 <= r < piv.len() && #[trigger] piv[r] == j; assert(haspiv(piv, n, j)); }
            assert(f.contains(j as usize));
            let k = choose|k: int| 0 <= k < f.len() && f[k] == j as usize;
            assert(dotp(x, w, f[k] as int, 0, l) == w(k, 0));
        }
    }
    assert(comb(x, w, y, 0, m, l));
}
//@ fn RowEquivalentForm__compute_kernel(this)
//@@ requires
rq(this.p, this.b, *this.original), is_rref(this.b)
//@@ ensures
is_kernel_basis(ret@, *this.original),
forall|piv: Seq<int>| #[trigger] rrefp(this.b, piv) ==> ret@.len() + piv.len() == this.b.cols
//@@ hint start
!let ghost piv: Seq<int> = choose|piv: Seq<int>| #[trigger] rrefp(this.b, piv);
//@@ hint start
assert forall|s: Seq<usize>, g: spec_fn(usize) -> Option<usize>| #![trigger seq_filter_map(s, g)] s.len() == this.b.rows && counting(s) && (forall|r: usize| #![trigger g(r)] r < this.b.rows ==> g(r) == lead(this.b, r as int))
    implies leads_are(seq_filter_map(s, g), piv) by { leads_set(s, g, this.b, piv); }
assert forall|s: Seq<usize>, q: spec_fn(usize) -> bool| counting(s) implies filt(#[trigger] s.filter(q), q, s.len() as int) by { filter_inc(s, q); }
//@@ loop 1 invariant
basis@.len() == $i, free_is($s, piv, this.b.cols as int),
forall|k: int| #![trigger basis@[k]] 0 <= k < $i ==> kvec(basis@[k], this.b, piv, $s[k] as int, this.b.rows as int)
//@@ loop 2 invariant
kvec(vector, this.b, piv, x1 as int, $i as int)
//@@ hint loop 2 start
ech_leads(this.b, piv, $i - 1);
//@@ hint loop 1 after
kernel_basis(this.p, this.b, *this.original, piv, basis@, $s);
//@@ hint end
assert forall|piv2: Seq<int>| #[trigger] rrefp(this.b, piv2) implies piv2 == piv by { ech_piv_unique(this.b, piv, piv2); }
//@ raw
pub open spec fn range_of(vs: Seq<Mat>, a: Mat, cs: Seq<usize>) -> bool {
    &&& vs.len() == cs.len()
    &&& forall|k: int| #![trigger vs[k]] #![trigger cs[k]] 0 <= k < vs.len() ==> cs[k] < a.cols && mat_is(vs[k], a.rows as int, 1, |i: int, j: int| at(a, i, cs[k] as int))
}
// the vectors are independent and every column of a is a combination of them
pub open spec fn is_range_basis(vs: Seq<Mat>, a: Mat) -> bool {
    &&& indep(kmat(vs), a.rows as int, vs.len() as int)
    &&& forall|c: int| #![trigger col_in(vs, a, c)] 0 <= c < a.cols ==> col_in(vs, a, c)
}
pub open spec fn col_in(vs: Seq<Mat>, a: Mat, c: int) -> bool { exists|w: RM| #[trigger] comb(kmat(vs), w, rm(a), c, a.rows as int, vs.len() as int) }
pub proof fn range_px(p: Mat, b: Mat, a: Mat, piv: Seq<int>, vs: Seq<Mat>, cs: Seq<usize>, r: int, k: int)
    requires rq(p, b, a), rrefp(b, piv), leads_are(cs, piv), range_of(vs, a, cs), 0 <= r < a.rows, 0 <= k < cs.len(),
    ensures dotp(rm(p), kmat(vs), r, k, a.rows as int) == (if r < piv.len() && piv[r] == cs[k] { 1real } else { 0real })
{
    let n = a.rows as int; let c = cs[k] as int;
    assert(mat_is(vs[k], n, 1, |i: int, j: int| at(a, i, cs[k] as int)) && c < a.cols);
    assert forall|i: int| 0 <= i < n implies #[trigger] kmat(vs)(i, k) == rm(a)(i, c) by { let z = at(vs[k], i, 0); }
    dotp_ext(rm(p), kmat(vs), r, k, rm(p), rm(a), r, c, n);
    assert(dotp(rm(p), rm(a), r, c, n) == rm(b)(r, c));
    assert(cs.contains(cs[k]));
    let s = choose|s: int| 0 <= s < piv.len() && #[trigger] piv[s] == c;
    assert(at(b, s, piv[s]).v() == 1real);
    if r < piv.len() && piv[r] == c { assert(at(b, r, piv[r]).v() == 1real); } else { assert(r != s); assert(at(b, r, piv[s]).v() == 0real); }
}
pub proof fn range_basis(p: Mat, b: Mat, a: Mat, piv: Seq<int>, vs: Seq<Mat>, cs: Seq<usize>)
    requires rq(p, b, a), rrefp(b, piv), leads_are(cs, piv), range_of(vs, a, cs), ensures is_range_basis(vs, a)
{
    let n = a.rows as int; let m = a.cols as int; let l = vs.len() as int; let x = kmat(vs);
    assert forall|w: RM| #[trigger] nullcomb(x, w, n, l) implies forall|i: int| #![trigger w(i, 0)] 0 <= i < l ==> w(i, 0) == 0real by {
        assert forall|k: int| #![trigger w(k, 0)] 0 <= k < l implies w(k, 0) == 0real by {
            assert(cs.contains(cs[k]));
            let r = choose|r: int| 0 <= r < piv.len() && #[trigger] piv[r] == cs[k];
            range_one(p, b, a, piv, vs, cs, w, r, k);
            assert forall|i: int| 0 <= i < n implies #[trigger] rm(p)(r, i) == 0real || mulm(x, w, l)(i, 0) == 0real by { assert(dotp(x, w, i, 0, l) == 0real); }
            dotp_zero(rm(p), mulm(x, w, l), r, 0, 0, n);
        }
    }
    assert forall|c: int| #![trigger col_in(vs, a, c)] 0 <= c < m implies col_in(vs, a, c) by { range_span(p, b, a, piv, vs, cs, c); }
}
// row r of p (x w) is the weight of the vector that sits at the leading column of row r
pub proof fn range_one(p: Mat, b: Mat, a: Mat, piv: Seq<int>, vs: Seq<Mat>, cs: Seq<usize>, w: RM, r: int, k: int)
    requires rq(p, b, a), rrefp(b, piv), leads_are(cs, piv), range_of(vs, a, cs), 0 <= r < piv.len(), 0 <= k < cs.len(), piv[r] == cs[k],
    ensures dotp(rm(p), mulm(kmat(vs), w, vs.len() as int), r, 0, a.rows as int) == w(k, 0)
{
    let n = a.rows as int; let l = vs.len() as int; let x = kmat(vs);
    dotp_assoc(rm(p), x, w, r, 0, n, l);
    assert forall|i: int| 0 <= i < l && i != k implies #[trigger] mulm(rm(p), x, n)(r, i) == 0real || w(i, 0) == 0real by { range_px(p, b, a, piv, vs, cs, r, i); assert(cs[i] != cs[k]); }
    range_px(p, b, a, piv, vs, cs, r, k);
    dotp_one(mulm(rm(p), x, n), w, r, 0, l, k);
    mu_facts(1real, w(k, 0));
}
pub proof fn range_span(p: Mat, b: Mat, a: Mat, piv: Seq<int>, vs: Seq<Mat>, cs: Seq<usize>, c: int)
    requires rq(p, b, a), rrefp(b, piv), leads_are(cs, piv), range_of(vs, a, cs), 0 <= c < a.cols, ensures col_in(vs, a, c)
{
    let n = a.rows as int; let m = a.cols as int; let l = vs.len() as int; let x = kmat(vs);
    let q = choose|q: RM| #[trigger] inverses(rm(p), q, n);
    let w = |k: int, j: int| at(b, choose|r: int| 0 <= r < piv.len() && #[trigger] piv[r] == cs[k], c).v();
    let z = mulm(x, w, l);
    let d = |i: int, j: int| rm(a)(i, c) + mu(-1real, z(i, 0));
    assert forall|r: int| #![trigger dotp(rm(p), d, r, 0, n)] 0 <= r < n implies dotp(rm(p), d, r, 0, n) == 0real by {
        dotp_lin(rm(p), d, r, 0, rm(a), c, z, 0, -1real, n);
        assert(dotp(rm(p), rm(a), r, c, n) == rm(b)(r, c));
        let e = dotp(rm(p), z, r, 0, n);
        if r < piv.len() {
            assert(0 <= piv[r] < m);
            assert(haspiv(piv, piv.len() as int, (piv[r] as usize) as int));
            assert(cs.contains(piv[r] as usize));
            let k = choose|k: int| 0 <= k < cs.len() && cs[k] == piv[r] as usize;
            range_one(p, b, a, piv, vs, cs, w, r, k);
            let s = choose|r: int| 0 <= r < piv.len() && #[trigger] piv[r] == cs[k];
            if s < r { assert(piv[s] < piv[r]); } if r < s { assert(piv[r] < piv[s]); }
            assert(w(k, 0) == at(b, r, c).v());
            assert(e == at(b, r, c).v());
        } else {
            dotp_assoc(rm(p), x, w, r, 0, n, l);
            assert forall|i: int| 0 <= i < l implies #[trigger] mulm(rm(p), x, n)(r, i) == 0real || w(i, 0) == 0real by { range_px(p, b, a, piv, vs, cs, r, i); }
            dotp_zero(mulm(rm(p), x, n), w, r, 0, 0, l);
            assert(at(b, r, c).v() == 0real);
        }
        mu_neg(1real, e); mu_facts(1real, e); mu_def(-1real, e);
    }
    assert(killed(rm(p), n, n, d, 0));
    killed_by_product(q, rm(p), idm(), d, 0, n, n);
    assert forall|i: int| #![trigger dotp(x, w, i, 0, l)] #![trigger rm(a)(i, c)] 0 <= i < n implies dotp(x, w, i, 0, l) == rm(a)(i, c) by {
        prod_id(d, i, 0, n); assert(dotp(idm(), d, i, 0, n) == 0real);
        mu_neg(1real, z(i, 0)); mu_facts(1real, z(i, 0)); mu_def(-1real, z(i, 0));
    }
    assert(comb(x, w, rm(a), c, n, l));
}
//@ fn RowEquivalentForm__compute_range(this)
//@@ requires
rq(this.p, this.b, *this.original), is_rref(this.b)
//@@ ensures
is_range_basis(ret@, *this.original),
forall|piv: Seq<int>| #[trigger] rrefp(this.b, piv) ==> exists|cs: Seq<usize>| leads_are(cs, piv) && #[trigger] range_of(ret@, *this.original, cs)
//@@ hint start
!let ghost piv: Seq<int> = choose|piv: Seq<int>| #[trigger] rrefp(this.b, piv);
//@@ hint start
assert forall|s: Seq<usize>, g: spec_fn(usize) -> Option<usize>| #![trigger seq_filter_map(s, g)] s.len() == this.b.rows && counting(s) && (forall|r: usize| #![trigger g(r)] r < this.b.rows ==> g(r) == lead(this.b, r as int))
    implies leads_are(seq_filter_map(s, g), piv) by { leads_set(s, g, this.b, piv); }
assert forall|o: Seq<usize>, f: Seq<usize>| #![trigger o.to_set(), f.to_set()] #![trigger o.to_set(), leads_are(f, piv)] leads_are(f, piv) && o.no_duplicates() && o.to_set() == f.to_set() implies leads_are(o, piv) && lt_all(o, this.b.cols as int) by { leads_perm(o, f, this.b, piv); }
//@@ hint end
assert forall|cs: Seq<usize>| #[trigger] leads_are(cs, piv) && range_of(ret@, *this.original, cs) implies is_range_basis(ret@, *this.original) by { range_basis(this.p, this.b, *this.original, piv, ret@, cs); }
assert forall|piv2: Seq<int>| #[trigger] rrefp(this.b, piv2) implies piv2 == piv by { ech_piv_unique(this.b, piv, piv2); }
assert(exists|cs: Seq<usize>| #[trigger] leads_are(cs, piv) && range_of(ret@, *this.original, cs));
