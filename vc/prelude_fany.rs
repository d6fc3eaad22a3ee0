// ===== prelude: coefficients and entries of any type: nothing is known of them but that their texts, equality, sign and negation are functions of the value
#[verifier::external_body]
pub struct F { x: u8 }
impl Clone for F { #[verifier::external_body] fn clone(&self) -> F { unimplemented!() } }
impl Copy for F {}
pub uninterp spec fn ftext(x: F) -> Seq<char>;
pub uninterp spec fn fdbg(x: F) -> Seq<char>;
pub uninterp spec fn fone() -> F;
pub uninterp spec fn fneg(x: F) -> F;
pub uninterp spec fn feq(a: F, b: F) -> bool;
pub uninterp spec fn fneg_sign(x: F) -> bool;
// no value equals both one and minus one
pub broadcast axiom fn ax_units(x: F) ensures !(#[trigger] feq(x, fone()) && #[trigger] feq(x, fneg(fone())));
#[verifier::external_body] pub fn f_display(f: &mut Fmtr, x: &F) -> (r: Result<(), FmtError>) ensures wrote(r, *old(f), *final(f), ftext(*x)) { unimplemented!() }
#[verifier::external_body] pub fn f_debug(f: &mut Fmtr, x: &F) -> (r: Result<(), FmtError>) ensures wrote(r, *old(f), *final(f), fdbg(*x)) { unimplemented!() }
#[verifier::external_body] pub fn f_one() -> (r: F) ensures r == fone() { unimplemented!() }
#[verifier::external_body] pub fn f_neg(a: F) -> (r: F) ensures r == fneg(a) { unimplemented!() }
#[verifier::external_body] pub fn f_eq(a: &F, b: &F) -> (r: bool) ensures r == feq(*a, *b) { unimplemented!() }
#[verifier::external_body] pub fn f_is_one(a: &F) -> (r: bool) ensures r == feq(*a, fone()) { unimplemented!() }
#[verifier::external_body] pub fn f_sign_neg(a: F) -> (r: bool) ensures r == fneg_sign(a) { unimplemented!() }
// entries of a {:?} list
pub open spec fn dlist(s: Seq<F>) -> Seq<char> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else if s.len() == 1 { fdbg(s[0]) } else { dlist(s.drop_last()) + seq![',', ' '] + fdbg(s.last()) }
}
// Formatter::debug_list().entries(s).finish() with default options
pub fn fmt_debug_fs(f: &mut Fmtr, v: &[F]) -> (r: Result<(), FmtError>)
    ensures wrote(r, *old(f), *final(f), seq!['['] + dlist(v@) + seq![']'])
{
    let ghost t = f.text();
    if f.fail { return Err(FmtError {}); }
    f.put('[');
    let n = v.len(); let mut i: usize = 0;
    proof { assert(f.text() =~= t + seq!['['] + dlist(v@.take(0))); }
    while i < n invariant i <= n, n == v@.len(), !f.bad(), f.bad() == old(f).bad(), f.text() == t + seq!['['] + dlist(v@.take(i as int)), t == old(f).text() decreases n - i
    {
        let ghost w = v@.take(i as int); let ghost u = f.text();
        if i > 0 { f.put(','); f.put(' '); }
        let q = f_debug(f, &v[i]);
        match q { Ok(_) => {}, Err(e) => { return Err(e) } }
        proof { let w1 = v@.take(i + 1); assert(w1.drop_last() =~= w); assert(w1.last() == v@[i as int]); assert(f.text() =~= t + seq!['['] + dlist(w1)); }
        i = i + 1;
    }
    f.put(']');
    proof { assert(v@.take(n as int) =~= v@); assert(f.text() =~= t + (seq!['['] + dlist(v@) + seq![']'])); }
    Ok(())
}
