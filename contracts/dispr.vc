//@ raw
pub open spec fn rat_text(n: int, d: int) -> Seq<char> {
    if n == 0 { seq!['0'] } else if d == 1 { int_text(n) } else { int_text(n) + seq!['/'] + int_text(d) }
}
pub open spec fn coef_text(n: int, d: int) -> Seq<char> {
    if n == 1 && d == 1 { Seq::empty() } else if n == -1 && d == 1 { seq!['-'] } else { rat_text(n, d) }
}
pub open spec fn term_text(n: int, d: int, m: Seq<u8>) -> Seq<char> { if m.len() == 0 { rat_text(n, d) } else { coef_text(n, d) + mdeg_text(m) } }
pub ghost struct TV { pub n: int, pub d: int, pub m: Seq<u8> }
pub open spec fn tv(t: Term) -> TV { TV { n: rn(t.coef), d: rd(t.coef), m: t.mdeg.0@ } }
pub open spec fn tvs(s: Seq<Term>) -> Seq<TV> { s.map_values(|t: Term| tv(t)) }
pub open spec fn signed_text(t: TV) -> Seq<char> {
    if t.n < 0 { seq![' ', '-', ' '] + term_text(-t.n, t.d, t.m) } else { seq![' ', '+', ' '] + term_text(t.n, t.d, t.m) }
}
pub open spec fn terms_from(s: Seq<TV>, i: int) -> Seq<char> decreases s.len() - i {
    if i >= s.len() { Seq::empty() } else { signed_text(s[i]) + terms_from(s, i + 1) }
}
pub open spec fn rest_text(s: Seq<TV>, i: int) -> Seq<char> { if i == 0 { poly_text(s) } else { terms_from(s, i) } }
pub open spec fn poly_text(s: Seq<TV>) -> Seq<char> { if s.len() == 0 { seq!['0'] } else { term_text(s[0].n, s[0].d, s[0].m) + terms_from(s, 1) } }
pub open spec fn printable(s: Seq<Term>) -> bool { forall|i: int| 0 <= i < s.len() ==> simplest((#[trigger] s[i]).coef) }
pub open spec fn is_rat(c: char) -> bool { is_num(c) || c == '/' }
pub open spec fn den_text(n: int, d: int) -> Seq<char> { if n == 0 || d == 1 { Seq::empty() } else { seq!['/'] + int_text(d) } }
pub proof fn int_zero() ensures int_text(0) == seq!['0'] {}
pub proof fn rat_split(n: int, d: int) ensures rat_text(n, d) == int_text(n) + den_text(n, d) { assert(dec(0) =~= seq!['0']); assert(rat_text(n, d) =~= int_text(n) + den_text(n, d)); }
pub proof fn rat_class(n: int, d: int) ensures rat_text(n, d).len() > 0, all_in(|c| is_rat(c), rat_text(n, d)), rat_text(n, d).len() == 1 ==> is_dgt(rat_text(n, d)[0])
{ rat_split(n, d); int_class(n); int_class(d); let t = rat_text(n, d); assert(t[0] == int_text(n)[0]); if n < 0 { assert(t.len() >= 2); } }
// a number in lowest terms is read back
pub proof fn C26_number_reads_back(n: int, d: int, m: int, e: int)
    requires d > 0, coprime(n, d), e > 0, coprime(m, e), rat_text(n, d) == rat_text(m, e), ensures n == m, d == e
{
    rat_split(n, d); rat_split(m, e); int_class(n); int_class(m);
    run_split(|c| is_num(c), int_text(n), den_text(n, d), int_text(m), den_text(m, e));
    int_inj(n, m);
    if n == 0 { coprime_zero(d); coprime_zero(e); }
    else {
        let x = den_text(n, d); let y = den_text(m, e);
        if d == 1 || e == 1 { int_class(d); int_class(e); if d != 1 { assert(x.len() > 0); } if e != 1 { assert(y.len() > 0); } }
        else { assert(x.skip(1) =~= int_text(d)); assert(y.skip(1) =~= int_text(e)); int_inj(d, e); }
    }
}
pub proof fn coprime_zero(d: int) requires d > 0, coprime(0, d), ensures d == 1 { dvd_refl(d); assert(dvd(d, 1)); dvd_one(d); }
// ---------- terms and polynomials
pub open spec fn tok(t: TV) -> bool { t.d > 0 && coprime(t.n, t.d) && canon8(t.m) }
pub proof fn coef_inj(n: int, d: int, m: int, e: int) requires d > 0, coprime(n, d), e > 0, coprime(m, e), coef_text(n, d) == coef_text(m, e), ensures n == m, d == e
{
    rat_class(n, d); rat_class(m, e); assert(!is_dgt('-'));
    let x = coef_text(n, d); let y = coef_text(m, e);
    if x.len() == 0 || y.len() == 0 {} else if x == seq!['-'] || y == seq!['-'] { assert(x[0] == '-' && y[0] == '-' && x.len() == 1 && y.len() == 1); } else { C26_number_reads_back(n, d, m, e); }
}
pub open spec fn pre_text(t: TV) -> Seq<char> { if t.m.len() == 0 { rat_text(t.n, t.d) } else { coef_text(t.n, t.d) } }
pub proof fn term_split(a: TV, b: TV, s: Seq<char>, t: Seq<char>)
    requires tok(a), tok(b), ends_term(s), ends_term(t), term_text(a.n, a.d, a.m) + s == term_text(b.n, b.d, b.m) + t, ensures a == b, s == t
{
    mdeg_head(a.m); mdeg_head(b.m); rat_class(a.n, a.d); rat_class(b.n, b.d);
    let x = pre_text(a); let y = pre_text(b); let v = mdeg_text(a.m) + s; let w = mdeg_text(b.m) + t;
    assert(term_text(a.n, a.d, a.m) + s =~= x + v); assert(term_text(b.n, b.d, b.m) + t =~= y + w);
    assert(starts_out(|c| is_rat(c), v)) by { if v.len() > 0 { if a.m.len() == 0 { assert(v[0] == s[0]); } else { assert(v[0] == mdeg_text(a.m)[0]); } } }
    assert(starts_out(|c| is_rat(c), w)) by { if w.len() > 0 { if b.m.len() == 0 { assert(w[0] == t[0]); } else { assert(w[0] == mdeg_text(b.m)[0]); } } }
    run_split(|c| is_rat(c), x, v, y, w);
    mdeg_split(a.m, b.m, s, t);
    if a.m.len() == 0 { C26_number_reads_back(a.n, a.d, b.n, b.d); } else { coef_inj(a.n, a.d, b.n, b.d); }
}
pub proof fn C26_term_reads_back(a: TV, b: TV) requires tok(a), tok(b), term_text(a.n, a.d, a.m) == term_text(b.n, b.d, b.m), ensures a == b
{ let e = Seq::<char>::empty(); assert(term_text(a.n, a.d, a.m) + e =~= term_text(a.n, a.d, a.m)); assert(term_text(b.n, b.d, b.m) + e =~= term_text(b.n, b.d, b.m)); term_split(a, b, e, e); }
pub proof fn terms_ends(s: Seq<TV>, i: int) ensures ends_term(terms_from(s, i)), i < s.len() ==> terms_from(s, i).len() > 0 { if i < s.len() { assert(terms_from(s, i)[0] == ' '); } }
pub open spec fn all_tok(s: Seq<TV>) -> bool { forall|i: int| 0 <= i < s.len() ==> tok(#[trigger] s[i]) && s[i].n != 0 }
pub open spec fn mag(x: TV) -> TV { TV { n: if x.n < 0 { -x.n } else { x.n }, d: x.d, m: x.m } }
pub proof fn signed_split(x: TV, y: TV, p: Seq<char>, q: Seq<char>)
    requires tok(x), tok(y), x.n != 0, y.n != 0, ends_term(p), ends_term(q), signed_text(x) + p == signed_text(y) + q, ensures x == y, p == q
{
    let u = signed_text(x) + p; let w = signed_text(y) + q; let x2 = mag(x); let y2 = mag(y);
    assert(u[1] == (if x.n < 0 { '-' } else { '+' })); assert(w[1] == (if y.n < 0 { '-' } else { '+' }));
    assert(u.skip(3) =~= term_text(x2.n, x2.d, x2.m) + p); assert(w.skip(3) =~= term_text(y2.n, y2.d, y2.m) + q);
    coprime_comm(x.n, x.d); coprime_comm(y.n, y.d);
    term_split(x2, y2, p, q);
}
pub proof fn terms_inj(a: Seq<TV>, b: Seq<TV>, i: int)
    requires all_tok(a), all_tok(b), 0 <= i <= a.len(), i <= b.len(), terms_from(a, i) == terms_from(b, i),
    ensures a.len() == b.len(), forall|k: int| i <= k < a.len() ==> a[k] == b[k]
    decreases a.len() - i
{
    terms_ends(a, i); terms_ends(b, i);
    if i < a.len() {
        terms_ends(a, i + 1); terms_ends(b, i + 1);
        signed_split(a[i], b[i], terms_from(a, i + 1), terms_from(b, i + 1));
        terms_inj(a, b, i + 1);
    }
}
// the coefficients one and minus one
pub proof fn unit_coefs(r: Rational) requires simplest(r), ensures (rv(r) == 1real) == (rn(r) == 1 && rd(r) == 1), (rv(r) == -1real) == (rn(r) == -1 && rd(r) == 1)
{ coprime_one(1); coprime_comm(1, 1); frac_consts(); frac_neg(1, 1); frac_cross(rn(r), rd(r), 1, 1); frac_cross(rn(r), rd(r), -1, 1); if rv(r) == 1real { simplest_unique(rn(r), rd(r), 1, 1); } if rv(r) == -1real { simplest_unique(rn(r), rd(r), -1, 1); } }
// a polynomial without zero terms, with coefficients in lowest terms and canonical exponents, is read back from its text
pub proof fn C26_polynomial_reads_back(a: Seq<TV>, b: Seq<TV>) requires all_tok(a), all_tok(b), poly_text(a) == poly_text(b), ensures a == b {
    let z = TV { n: 0, d: 1, m: Seq::empty() };
    coprime_one(0);
    if a.len() == 0 && b.len() == 0 { assert(a =~= b); }
    else {
        let x = if a.len() == 0 { z } else { a[0] }; let y = if b.len() == 0 { z } else { b[0] };
        let e = Seq::<char>::empty();
        let p = if a.len() == 0 { e } else { terms_from(a, 1) }; let q = if b.len() == 0 { e } else { terms_from(b, 1) };
        assert(seq!['0'] + e =~= seq!['0']);
        terms_ends(a, 1); terms_ends(b, 1);
        assert(tok(z)); term_split(x, y, p, q);
        terms_inj(a, b, 1); assert(a =~= b);
    }
}
// the number of the negated coefficient
pub open spec fn negated(r: Rational, q: Rational) -> bool { rn(r) == -rn(q) && rd(r) == rd(q) }
pub proof fn neg_terms(s: Seq<Term>) requires printable(s),
    ensures forall|r: Rational, q: Term| #![trigger rv(r), s.contains(q)] s.contains(q) && simplest(r) && rv(r) == -rv(q.coef) ==> negated(r, q.coef)
{
    assert forall|r: Rational, t: Term| #![trigger rv(r), s.contains(t)] s.contains(t) && simplest(r) && rv(r) == -rv(t.coef) implies negated(r, t.coef) by {
        let k = choose|k: int| 0 <= k < s.len() && s[k] == t; assert(simplest(s[k].coef));
        let q = t.coef; frac_neg(rn(q), rd(q)); coprime_comm(rn(q), rd(q)); frac_cross(rn(r), rd(r), -rn(q), rd(q)); simplest_unique(rn(r), rd(r), -rn(q), rd(q));
    }
}
//@ fn Integer__Display__fmt(this, f)
//@@ ensures: wrote(ret, *old(f), *final(f), int_text(this.0 as int))
//@ fn Rational__Display__fmt(this, f)
//@@ requires: simplest(*this)
//@@ ensures: wrote(ret, *old(f), *final(f), rat_text(rn(*this), rd(*this)))
//@@ hint start
int_zero(); if rn(*this) == 0 { zero_simplest(*this); }
//@ fn Term__Display__fmt(this, f)
//@@ requires: simplest(this.coef)
//@@ ensures: wrote(ret, *old(f), *final(f), term_text(rn(this.coef), rd(this.coef), this.mdeg.0@))
//@@ hint start
unit_coefs(this.coef);
//@ fn Polynomial_Rational__Display__fmt(this, f)
//@@ attr #[verifier::rlimit(60)]
//@@ requires: printable(this.terms@)
//@@ ensures: wrote(ret, *old(f), *final(f), poly_text(tvs(this.terms@)))
//@@ hint start
neg_terms(this.terms@);
//@@ loop 1 invariant
f.bad() == old(f).bad(),
f.text() + rest_text(tvs(this.terms@), this.terms@.len() - $s.len() + $i) == old(f).text() + poly_text(tvs(this.terms@))
//@@ hint loop 1 start
assert(this.terms@.contains(this.terms@[this.terms@.len() - $s.len() + $i - 1]));
