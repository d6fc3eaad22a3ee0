//@ raw
pub open spec fn oterm_text(c: F, m: Seq<u8>) -> Seq<char> {
    if m.len() == 0 { ftext(c) } else if feq(c, fone()) { mdeg_text(m) } else if feq(c, fneg(fone())) { seq!['-'] + mdeg_text(m) } else { ftext(c) + mdeg_text(m) }
}
pub open spec fn osigned_text(t: Term) -> Seq<char> {
    if fneg_sign(t.coef) { seq![' ', '-', ' '] + oterm_text(fneg(t.coef), t.mdeg.0@) } else { seq![' ', '+', ' '] + oterm_text(t.coef, t.mdeg.0@) }
}
pub open spec fn oterms_from(s: Seq<Term>, i: int) -> Seq<char> decreases s.len() - i {
    if i >= s.len() { Seq::empty() } else { osigned_text(s[i]) + oterms_from(s, i + 1) }
}
pub open spec fn orest_text(s: Seq<Term>, i: int) -> Seq<char> { if i == 0 { opoly_text(s) } else { oterms_from(s, i) } }
pub open spec fn opoly_text(s: Seq<Term>) -> Seq<char> { if s.len() == 0 { seq!['0'] } else { oterm_text(s[0].coef, s[0].mdeg.0@) + oterms_from(s, 1) } }
// rows r, r+1, ... of a matrix with c columns
pub open spec fn rows_from(e: Seq<F>, n: int, c: int, r: int) -> Seq<char> decreases n - r {
    if r >= n { Seq::empty() } else {
        (seq!['['] + dlist(e.subrange(r * c, r * c + c)) + seq![']']) + (if r + 1 < n { seq!['\n'] + rows_from(e, n, c, r + 1) } else { Seq::empty() })
    }
}
pub proof fn row_range(r: int, n: int, c: int) requires 0 <= r < n, c >= 0, ensures 0 <= r * c, r * c + c <= n * c
{ assert(0 <= r * c && r * c + c <= n * c) by(nonlinear_arith) requires 0 <= r < n, c >= 0; }
//@ fn Term__Display__fmt(this, f)
//@@ ensures: wrote(ret, *old(f), *final(f), oterm_text(this.coef, this.mdeg.0@))
//@ fn Polynomial_f64__Display__fmt(this, f)
//@@ ensures: wrote(ret, *old(f), *final(f), opoly_text(this.terms@))
//@@ loop 1 invariant
f.bad() == old(f).bad(),
f.text() + orest_text(this.terms@, this.terms@.len() - $s.len() + $i) == old(f).text() + opoly_text(this.terms@)
//@ fn Mat__Display__fmt(this, f)
//@@ requires: this.entries@.len() == this.rows * this.cols
//@@ ensures: wrote(ret, *old(f), *final(f), seq!['\n'] + rows_from(this.entries@, this.rows as int, this.cols as int, 0))
//@@ loop 1 invariant
f.bad() == old(f).bad(),
f.text() + rows_from(this.entries@, this.rows as int, this.cols as int, $i as int) == old(f).text() + (seq!['\n'] + rows_from(this.entries@, this.rows as int, this.cols as int, 0))
//@@ hint loop 1 start
row_range($i - 1, this.rows as int, this.cols as int);
