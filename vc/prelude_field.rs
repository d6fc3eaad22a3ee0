// ===== prelude: the coefficient field.  `F: Field` is modelled as an exact field that embeds
// in the reals (the only exact instance in this crate is Rational; C01-C03 verify its real
// operations against these laws).  F is opaque; v() is the number it denotes.
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct F { p: u8 }
impl F {
    pub uninterp spec fn v(self) -> real;
    pub uninterp spec fn of(r: real) -> F;
}
pub broadcast axiom fn ax_f_inj(a: F) ensures F::of(#[trigger] a.v()) == a;
pub uninterp spec fn fzero() -> F;
pub uninterp spec fn fone() -> F;
pub uninterp spec fn fadd(a: F, b: F) -> F;
pub uninterp spec fn fsub(a: F, b: F) -> F;
pub uninterp spec fn fmul(a: F, b: F) -> F;
pub uninterp spec fn fdiv(a: F, b: F) -> F;
pub uninterp spec fn fneg(a: F) -> F;
pub uninterp spec fn finv(a: F) -> F;
pub broadcast axiom fn ax_f_zero() ensures (#[trigger] fzero()).v() == 0real;
pub broadcast axiom fn ax_f_one() ensures (#[trigger] fone()).v() == 1real;
pub broadcast axiom fn ax_f_add(a: F, b: F) ensures (#[trigger] fadd(a, b)).v() == a.v() + b.v();
pub broadcast axiom fn ax_f_sub(a: F, b: F) ensures (#[trigger] fsub(a, b)).v() == a.v() - b.v();
pub broadcast axiom fn ax_f_mul(a: F, b: F) ensures (#[trigger] fmul(a, b)).v() == a.v() * b.v(), a.v() * b.v() == b.v() * a.v();
pub broadcast axiom fn ax_f_div(a: F, b: F) ensures b.v() != 0real ==> (#[trigger] fdiv(a, b)).v() == a.v() / b.v() && fdiv(a, b).v() * b.v() == a.v();
pub broadcast axiom fn ax_f_neg(a: F) ensures (#[trigger] fneg(a)).v() == -a.v();
pub broadcast axiom fn ax_f_inv(a: F) ensures a.v() != 0real ==> (#[trigger] finv(a)).v() == 1real / a.v();
pub open spec fn rpow(x: real, n: nat) -> real decreases n { if n == 0 { 1real } else { x * rpow(x, (n - 1) as nat) } }
pub uninterp spec fn fpow(a: F, n: int) -> F;
pub broadcast axiom fn ax_f_pow(a: F, n: int) ensures n >= 0 ==> (#[trigger] fpow(a, n)).v() == rpow(a.v(), n as nat);
pub broadcast group field_axioms { ax_f_inj, ax_f_zero, ax_f_one, ax_f_add, ax_f_sub, ax_f_mul, ax_f_div, ax_f_neg, ax_f_inv, ax_f_pow, ax_f_stab }

#[verifier::external_body] pub fn f_zero() -> (r: F) ensures r == fzero() { unimplemented!() }
#[verifier::external_body] pub fn f_one() -> (r: F) ensures r == fone() { unimplemented!() }
#[verifier::external_body] pub fn f_add(a: F, b: F) -> (r: F) ensures r == fadd(a, b) { unimplemented!() }
#[verifier::external_body] pub fn f_sub(a: F, b: F) -> (r: F) ensures r == fsub(a, b) { unimplemented!() }
#[verifier::external_body] pub fn f_mul(a: F, b: F) -> (r: F) ensures r == fmul(a, b) { unimplemented!() }
#[verifier::external_body] pub fn f_div(a: F, b: F) -> (r: F) requires b.v() != 0real, ensures r == fdiv(a, b) { unimplemented!() }
#[verifier::external_body] pub fn f_neg(a: F) -> (r: F) ensures r == fneg(a) { unimplemented!() }
#[verifier::external_body] pub fn f_inv(a: F) -> (r: F) requires a.v() != 0real, ensures r == finv(a) { unimplemented!() }
#[verifier::external_body] pub fn f_powi32(a: &F, n: i32) -> (r: F) requires n >= 0, ensures r == fpow(*a, n as int) { unimplemented!() }
pub fn f_add_assign(a: &mut F, b: F) ensures *final(a) == fadd(*old(a), b) { *a = f_add(*a, b); }
pub fn f_sub_assign(a: &mut F, b: F) ensures *final(a) == fsub(*old(a), b) { *a = f_sub(*a, b); }
pub fn f_mul_assign(a: &mut F, b: F) ensures *final(a) == fmul(*old(a), b) { *a = f_mul(*a, b); }
pub fn f_div_assign(a: &mut F, b: F) requires b.v() != 0real, ensures *final(a) == fdiv(*old(a), b) { *a = f_div(*a, b); }
#[verifier::external_body] pub fn f_eq(a: &F, b: &F) -> (r: bool) ensures r == (*a == *b) { unimplemented!() }
pub fn f_is_zero(a: &F) -> (r: bool) ensures r == (*a == fzero()) { f_eq(a, &f_zero()) }
pub fn f_is_one(a: &F) -> (r: bool) ensures r == (*a == fone()) { f_eq(a, &f_one()) }
#[verifier::external_body] pub fn f_eps_eq(a: &F, b: &F) -> (r: bool) ensures r == (*a == *b) { unimplemented!() }
// StabilityCmp: zero is strictly below every nonzero number, nothing is below zero; among nonzero
// numbers any total preorder (C03 verifies this for Rational).
pub uninterp spec fn fstabkey(a: F) -> real;
pub open spec fn fstab(a: F, b: F) -> Ordering {
    if fstabkey(a) < fstabkey(b) { Ordering::Less } else if fstabkey(a) == fstabkey(b) { Ordering::Equal } else { Ordering::Greater }
}
pub broadcast axiom fn ax_f_stab(a: F)
    ensures (#[trigger] fstabkey(a)) >= 0real, (fstabkey(a) == 0real) == (a.v() == 0real);
#[verifier::external_body] pub fn f_stab(a: &F, b: &F) -> (r: Option<Ordering>) ensures r == Some(fstab(*a, *b)) { unimplemented!() }
pub open spec fn rcmp(a: real, b: real) -> Ordering { if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater } }
#[verifier::external_body] pub fn f_partial_cmp(a: &F, b: &F) -> (r: Option<Ordering>) ensures r == Some(rcmp(a.v(), b.v())) { unimplemented!() }
#[verifier::external_body] pub fn f_lt(a: &F, b: &F) -> (r: bool) ensures r == (a.v() < b.v()) { unimplemented!() }
#[verifier::external_body] pub fn f_le(a: &F, b: &F) -> (r: bool) ensures r == (a.v() <= b.v()) { unimplemented!() }
#[verifier::external_body] pub fn f_gt(a: &F, b: &F) -> (r: bool) ensures r == (a.v() > b.v()) { unimplemented!() }
#[verifier::external_body] pub fn f_ge(a: &F, b: &F) -> (r: bool) ensures r == (a.v() >= b.v()) { unimplemented!() }
pub open spec fn rsum(s: Seq<F>) -> real decreases s.len() { if s.len() == 0 { 0real } else { rsum(s.drop_last()) + s.last().v() } }
pub fn f_sum(it: VIter<F>) -> (r: F) ensures r.v() == rsum(it@) { let mut s = it; let ghost s0 = it@; let mut acc = f_zero(); let ghost mut i: int = 0;
    proof { let z = fzero(); assert(z.v() == 0real) by { broadcast use ax_f_zero; } assert(s0.subrange(0, 0) =~= Seq::<F>::empty()); }
    while s.v.len() > 0
        invariant s0 == it@, 0 <= i <= s0.len(), s.v@ == s0.subrange(i, s0.len() as int), acc.v() == rsum(s0.subrange(0, i)),
        decreases s.v@.len()
    {
        proof { assert(s.v@[0] == s0[i]); }
        let x = s.v.remove(0);
        let ghost a0 = acc;
        acc = f_add(acc, x);
        proof {
            assert(acc.v() == a0.v() + x.v()) by { broadcast use ax_f_add; }
            assert(s0.subrange(0, i + 1).drop_last() =~= s0.subrange(0, i));
            assert(s.v@ =~= s0.subrange(i + 1, s0.len() as int));
            i = i + 1;
        }
    }
    proof { assert(i == s0.len()); assert(s0.subrange(0, i) =~= s0); }
    acc
 }
pub fn vec_f_eq(a: &Vec<F>, b: &Vec<F>) -> (r: bool) ensures r == (a@ == b@), r == (*a == *b) { if a.len() != b.len() { return false; }
    let mut i: usize = 0;
    while i < a.len()
        invariant a@.len() == b@.len(), i <= a@.len(), forall|k: int| 0 <= k < i ==> a@[k] == b@[k],
        decreases a@.len() - i
    {
        if !f_eq(&a[i], &b[i]) { return false; }
        i = i + 1;
    }
    proof { assert(a@ =~= b@); vec_ext(*a, *b); }
    true
 }
