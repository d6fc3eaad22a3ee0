//@ raw
// ---------- evaluation: the value of a monomial at x
pub open spec fn mpow(x: Seq<F>, m: Seq<int>, n: int) -> real decreases n { if n <= 0 { 1real } else { mu(mpow(x, m, n - 1), rpow(x[n - 1].v(), ex(m, n - 1) as nat)) } }
pub open spec fn wx(x: Seq<F>) -> WF { |m: Seq<int>| mpow(x, m, m.len() as int) }
pub proof fn rpow_add(x: real, p: nat, q: nat) ensures rpow(x, p + q) == rpow(x, p) * rpow(x, q) decreases p
{
    if p == 0 { assert(1real * rpow(x, q) == rpow(x, q)) by(nonlinear_arith); } else {
        rpow_add(x, (p - 1) as nat, q);
        let a = rpow(x, (p - 1) as nat); let b = rpow(x, q);
        assert(p + q - 1 == (p - 1) + q);
        assert(x * (a * b) == (x * a) * b) by(nonlinear_arith);
    }
}
pub proof fn mpow_more(x: Seq<F>, m: Seq<int>, n: int) requires n >= m.len(), ensures mpow(x, m, n) == mpow(x, m, m.len() as int) decreases n
{ if n > m.len() { mpow_more(x, m, n - 1); } }
pub proof fn mpow_add(x: Seq<F>, a: Seq<int>, b: Seq<int>, n: int)
    requires mono(a), mono(b), ensures mpow(x, madd(a, b), n) == mpow(x, a, n) * mpow(x, b, n) decreases n
{
    if n > 0 {
        mpow_add(x, a, b, n - 1); madd_ex(a, b, n - 1);
        if n - 1 < a.len() { assert(a[n - 1] >= 0); } if n - 1 < b.len() { assert(b[n - 1] >= 0); }
        let (p, q) = (ex(a, n - 1) as nat, ex(b, n - 1) as nat);
        rpow_add(x[n - 1].v(), p, q);
        let (s, t, u, v) = (mpow(x, a, n - 1), mpow(x, b, n - 1), rpow(x[n - 1].v(), p), rpow(x[n - 1].v(), q));
        assert((s * t) * (u * v) == (s * u) * (t * v)) by(nonlinear_arith);
    } else { assert(1real * 1real == 1real) by(nonlinear_arith); }
}
pub proof fn wx_madd(x: Seq<F>, a: Seq<int>, b: Seq<int>) requires mono(a), mono(b), ensures wx(x)(madd(a, b)) == wx(x)(a) * wx(x)(b)
{ let n = madd(a, b).len() as int; mpow_add(x, a, b, n); mpow_more(x, a, n); mpow_more(x, b, n); }
// evaluation is multiplicative: with the contracts of the operators (lf of a sum is the sum of the lf's, lf(f * g, w) == lf(f, cvw(g, w)))
// the value of every sum, difference, negation and product is that of the values
pub proof fn wx_shift(g: Seq<Term>, x: Seq<F>, m: Seq<int>) requires allct(g), mono(m), ensures lf(g, shw(m, wx(x))) == wx(x)(m) * lf(g, wx(x)) decreases g.len()
{
    let c = wx(x)(m);
    if g.len() > 0 {
        let d = g.drop_last(); let t = g.last();
        assert(forall|i: int| 0 <= i < d.len() ==> d[i] == g[i]); assert(ct(g[g.len() - 1]));
        wx_shift(d, x, m); mi_mono(t.mdeg.0@);
        wx_madd(x, m, tm(t));
        let (a, b, e) = (lf(d, wx(x)), t.coef.v(), wx(x)(tm(t)));
        assert(shw(m, wx(x))(tm(t)) == c * e);
        assert(c * a + b * (c * e) == c * (a + b * e)) by(nonlinear_arith);
    } else { assert(c * 0real == 0real) by(nonlinear_arith); }
}
pub proof fn C18_product(f: Seq<Term>, g: Seq<Term>, x: Seq<F>) requires allct(f), allct(g), ensures lf(f, cvw(g, wx(x))) == lf(f, wx(x)) * lf(g, wx(x)) decreases f.len()
{
    let v = lf(g, wx(x));
    if f.len() > 0 {
        let d = f.drop_last(); let t = f.last();
        assert(forall|i: int| 0 <= i < d.len() ==> d[i] == f[i]); assert(ct(f[f.len() - 1]));
        C18_product(d, g, x); mi_mono(t.mdeg.0@);
        wx_shift(g, x, tm(t));
        let (a, b, e) = (lf(d, wx(x)), t.coef.v(), wx(x)(tm(t)));
        assert(cvw(g, wx(x))(tm(t)) == e * v);
        assert(a * v + b * (e * v) == (a + b * e) * v) by(nonlinear_arith);
    } else { assert(0real * v == 0real) by(nonlinear_arith); }
}
pub proof fn rsum_lf(s: Seq<F>, t: Seq<Term>, w: WF)
    requires s.len() == t.len(), forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).v() == tf(t[i], w), ensures rsum(s) == lf(t, w) decreases s.len()
{ if s.len() > 0 { let n = s.len() - 1; assert(s[n].v() == tf(t[n], w)); rsum_lf(s.drop_last(), t.drop_last(), w); } }
//@ fn Term__eval(this, x)
//@@ panics: x@.len() < this.mdeg.0@.len()
//@@ ensures: ret.v() == tf(*this, wx(x@))
//@@ fold 1
|i, a| a.v() == mu(this.coef.v(), mpow(x@, tm(*this), i))
//@@ hint start
assert forall|i: int| 0 <= i < this.mdeg.0@.len() implies mu(this.coef.v(), #[trigger] mpow(x@, tm(*this), i)) * rpow(x@[i].v(), this.mdeg.0@[i] as nat) == mu(this.coef.v(), mpow(x@, tm(*this), i + 1)) by {
    let (c, a, b) = (this.coef.v(), mpow(x@, tm(*this), i), rpow(x@[i].v(), this.mdeg.0@[i] as nat));
    assert((c * a) * b == c * (a * b)) by(nonlinear_arith);
}
//@ fn Polynomial__eval(this, x)
//@@ panics: exists|i: int| 0 <= i < this.terms@.len() && x@.len() < (#[trigger] this.terms@[i]).mdeg.0@.len()
//@@ ensures: ret.v() == lf(this.terms@, wx(x@))
//@@ hint start
assert forall|s: Seq<F>| s.len() == this.terms@.len() && (forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).v() == tf(this.terms@[i], wx(x@))) implies #[trigger] rsum(s) == lf(this.terms@, wx(x@)) by { rsum_lf(s, this.terms@, wx(x@)); }
