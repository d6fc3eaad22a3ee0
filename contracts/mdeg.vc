//@ raw
// ---------- monomials: a multidegree denotes the sequence of its exponents, 0 beyond its length
pub open spec fn mi(s: Seq<u8>) -> Seq<int> { Seq::new(s.len(), |i: int| s[i] as int) }
pub open spec fn ex(m: Seq<int>, i: int) -> int { if 0 <= i < m.len() { m[i] } else { 0 } }
// a monomial in canonical form: nonnegative exponents, no trailing zero
pub open spec fn canon(m: Seq<int>) -> bool { m.len() == 0 || m.last() != 0 }
pub open spec fn mono(m: Seq<int>) -> bool { canon(m) && forall|i: int| 0 <= i < m.len() ==> #[trigger] m[i] >= 0 }
pub open spec fn madd(a: Seq<int>, b: Seq<int>) -> Seq<int> {
    Seq::new(if a.len() >= b.len() { a.len() } else { b.len() }, |i: int| ex(a, i) + ex(b, i))
}
pub open spec fn mdvd(a: Seq<int>, b: Seq<int>) -> bool { forall|i: int| #[trigger] ex(a, i) <= ex(b, i) }
// c = a - b, exponent by exponent
pub open spec fn is_sub(c: Seq<int>, a: Seq<int>, b: Seq<int>) -> bool { forall|i: int| #[trigger] ex(c, i) == ex(a, i) - ex(b, i) }
pub open spec fn is_max(c: Seq<int>, a: Seq<int>, b: Seq<int>) -> bool { forall|i: int| #[trigger] ex(c, i) == (if ex(a, i) >= ex(b, i) { ex(a, i) } else { ex(b, i) }) }
pub open spec fn same_ex(a: Seq<int>, b: Seq<int>) -> bool { forall|i: int| #[trigger] ex(a, i) == ex(b, i) }
pub proof fn mi_inj(a: Seq<u8>, b: Seq<u8>) ensures (mi(a) == mi(b)) == (a == b)
{ assert(mi(a).len() == a.len() && mi(b).len() == b.len()); if mi(a) == mi(b) { assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by { assert(mi(a)[i] == a[i] as int); assert(mi(b)[i] == b[i] as int); } assert(mi(a).len() == mi(b).len()); assert(a =~= b); } }
// equality of canonical monomials is equality of exponents
pub proof fn canon_ext(a: Seq<int>, b: Seq<int>)
    requires canon(a), canon(b), same_ex(a, b), ensures a == b
{
    if a.len() > b.len() { assert(ex(a, a.len() - 1) == ex(b, a.len() - 1)); }
    if b.len() > a.len() { assert(ex(a, b.len() - 1) == ex(b, b.len() - 1)); }
    assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by { assert(ex(a, i) == ex(b, i)); }
    assert(a =~= b);
}
pub proof fn madd_mono(a: Seq<int>, b: Seq<int>) requires mono(a), mono(b), ensures mono(madd(a, b))
{
    let m = madd(a, b);
    if m.len() > 0 { let l = m.len() - 1; assert(m[l] == ex(a, l) + ex(b, l)); if a.len() > 0 && l < a.len() { assert(a[l] >= 0); } if l < b.len() { assert(b[l] >= 0); } }
    assert forall|i: int| 0 <= i < m.len() implies #[trigger] m[i] >= 0 by { if i < a.len() { assert(a[i] >= 0); } if i < b.len() { assert(b[i] >= 0); } }
}
pub proof fn madd_ex(a: Seq<int>, b: Seq<int>, i: int) ensures ex(madd(a, b), i) == ex(a, i) + ex(b, i) {}
pub proof fn madd_comm(a: Seq<int>, b: Seq<int>) ensures madd(a, b) == madd(b, a) { assert(madd(a, b) =~= madd(b, a)); }
pub proof fn madd_assoc(a: Seq<int>, b: Seq<int>, c: Seq<int>) ensures madd(madd(a, b), c) == madd(a, madd(b, c)) { assert(madd(madd(a, b), c) =~= madd(a, madd(b, c))); }
pub proof fn madd_zero(a: Seq<int>) ensures madd(a, Seq::empty()) == a, madd(Seq::empty(), a) == a { assert(madd(a, Seq::empty()) =~= a); assert(madd(Seq::empty(), a) =~= a); }
pub proof fn madd_cancel(a: Seq<int>, b: Seq<int>, c: Seq<int>) requires canon(a), canon(b), madd(a, c) == madd(b, c), ensures a == b
{ assert forall|i: int| #[trigger] ex(a, i) == ex(b, i) by { madd_ex(a, c, i); madd_ex(b, c, i); } canon_ext(a, b); }
pub proof fn is_sub_add(c: Seq<int>, a: Seq<int>, b: Seq<int>) requires mono(c), mono(a), mono(b), is_sub(c, a, b), ensures madd(c, b) == a, madd(b, c) == a
{ madd_mono(c, b); madd_comm(c, b); assert forall|i: int| #[trigger] ex(madd(c, b), i) == ex(a, i) by { assert(ex(c, i) == ex(a, i) - ex(b, i)); madd_ex(c, b, i); } canon_ext(madd(c, b), a); }
// subtraction undoes addition; the comparison is divisibility
pub proof fn C13_sub_undoes_add(a: Seq<int>, b: Seq<int>, c: Seq<int>)
    requires mono(a), mono(b), mono(c), is_sub(c, madd(a, b), b), ensures c == a
{ assert forall|i: int| #[trigger] ex(c, i) == ex(a, i) by { madd_ex(a, b, i); assert(ex(c, i) == ex(madd(a, b), i) - ex(b, i)); } canon_ext(c, a); }
pub proof fn C13_dvd_add(a: Seq<int>, b: Seq<int>) requires mono(a), mono(b), ensures mdvd(b, madd(a, b))
{ assert forall|i: int| #[trigger] ex(b, i) <= ex(madd(a, b), i) by { madd_ex(a, b, i); if 0 <= i < a.len() { assert(a[i] >= 0); } } }
pub proof fn C13_eq_is_equal_exponents(a: Seq<u8>, b: Seq<u8>) requires canon(mi(a)), canon(mi(b)), ensures (a == b) == same_ex(mi(a), mi(b))
{ mi_inj(a, b); if same_ex(mi(a), mi(b)) { canon_ext(mi(a), mi(b)); } }
pub proof fn trimmed(a: Seq<int>, n: int)
    requires 0 <= n <= a.len(), forall|i: int| n <= i < a.len() ==> #[trigger] a[i] == 0, ensures same_ex(a.subrange(0, n), a) {}
pub proof fn mi_mono(s: Seq<u8>) ensures mono(mi(s)) == canon(mi(s)), mi(s).len() == s.len() { assert forall|i: int| 0 <= i < mi(s).len() implies #[trigger] mi(s)[i] >= 0 by {} }
//@ fn MultiDegree__zero()
//@@ ensures: ret.0@.len() == 0, mono(mi(ret.0@))
//@ fn MultiDegree__new()
//@@ ensures: ret.0@.len() == 0, mono(mi(ret.0@))
//@ fn MultiDegree__Default__default()
//@@ ensures: ret.0@.len() == 0, mono(mi(ret.0@))
//@ fn MultiDegree__is_zero(this)
//@@ ensures: ret == (this.0@.len() == 0), canon(mi(this.0@)) ==> ret == same_ex(mi(this.0@), Seq::empty())
//@@ hint start
if canon(mi(this.0@)) && same_ex(mi(this.0@), Seq::empty()) { canon_ext(mi(this.0@), Seq::empty()); }
//@ fn MultiDegree__degs(this)
//@@ ensures: ret@.len() == this.0@.len(), forall|i: int| #![trigger ret@[i]] #![trigger this.0@[i]] 0 <= i < ret@.len() ==> *ret@[i] == this.0@[i]
//@ fn MultiDegree__len(this)
//@@ ensures: ret == this.0@.len()
//@ fn MultiDegree__Clone__clone(this)
//@@ ensures: ret == *this
//@ fn MultiDegree__PartialEq__eq(this, other)
//@@ ensures: ret == (*this == *other), ret == (this.0@ == other.0@), canon(mi(this.0@)) && canon(mi(other.0@)) ==> ret == same_ex(mi(this.0@), mi(other.0@))
//@@ hint start
if canon(mi(this.0@)) && canon(mi(other.0@)) { C13_eq_is_equal_exponents(this.0@, other.0@); }
if this.0@ == other.0@ { vec_ext(this.0, other.0); }
//@ fn MultiDegree__trim_zeros(this)
//@@ ensures: mono(mi(final(this).0@)), same_ex(mi(final(this).0@), mi(old(this).0@))
//@ fn MultiDegree__from_vec(vec)
//@@ ensures: mono(mi(ret.0@)), same_ex(mi(ret.0@), mi(vec@))
//@ fn MultiDegree__var(idx, deg)
//@@ requires: idx < usize::MAX
//@@ ensures: mono(mi(ret.0@)), forall|i: int| #[trigger] ex(mi(ret.0@), i) == (if i == idx { deg as int } else { 0 })
//@ fn MultiDegree__is_succ(this, other)
//@@ ensures: canon(mi(this.0@)) && canon(mi(other.0@)) ==> ret == mdvd(mi(this.0@), mi(other.0@))
//@@ loop 1 invariant
forall|k: int| 0 <= k < $i ==> #[trigger] ex(mi(this.0@), k) <= ex(mi(other.0@), k)
//@@ hint loop 1 before
let a = mi(this.0@); let b = mi(other.0@);
if canon(a) && canon(b) && mdvd(a, b) && a.len() > b.len() { assert(ex(a, a.len() - 1) <= ex(b, a.len() - 1)); }
//@@ hint loop 1 start
assert(ex(mi(this.0@), $i - 1) == this.0@[$i - 1] as int); assert(ex(mi(other.0@), $i - 1) == other.0@[$i - 1] as int);
//@@ hint loop 1 after
let a = mi(this.0@); let b = mi(other.0@);
assert forall|i: int| #[trigger] ex(a, i) <= ex(b, i) by { }
//@@ hint return
let a = mi(this.0@); let b = mi(other.0@);
if canon(a) && canon(b) && mdvd(a, b) && a.len() > b.len() { assert(ex(a, a.len() - 1) <= ex(b, a.len() - 1)); }
//@ fn MultiDegree__checked_sub(this, rhs)
//@@ hint start
let a = mi(this.0@); let b = mi(rhs.0@);
if canon(b) && b.len() > a.len() && mdvd(b, a) { assert(ex(b, b.len() - 1) <= ex(a, b.len() - 1)); }
//@@ ensures: canon(mi(this.0@)) && canon(mi(rhs.0@)) ==> (ret is Some) == mdvd(mi(rhs.0@), mi(this.0@)), canon(mi(this.0@)) && canon(mi(rhs.0@)) && ret is Some ==> mono(mi(ret->Some_0.0@)) && is_sub(mi(ret->Some_0.0@), mi(this.0@), mi(rhs.0@))
//@@ loop 1 invariant
degs@.len() + zero_cache == $i, $i <= rhs.0@.len() ==> canon(mi(degs@)), $i > rhs.0@.len() ==> degs@.len() == $i, forall|k: int| 0 <= k < degs@.len() ==> degs@[k] == ex(mi(this.0@), k) - ex(mi(rhs.0@), k), forall|k: int| degs@.len() <= k < $i ==> #[trigger] ex(mi(this.0@), k) == ex(mi(rhs.0@), k), forall|k: int| 0 <= k < $i ==> #[trigger] ex(mi(rhs.0@), k) <= ex(mi(this.0@), k)
//@@ hint loop 1 start
let a = mi(this.0@); let b = mi(rhs.0@);
assert(ex(a, $i - 1) == (if $i - 1 < this.0@.len() { this.0@[$i - 1] as int } else { 0 })); assert(ex(b, $i - 1) == (if $i - 1 < rhs.0@.len() { rhs.0@[$i - 1] as int } else { 0 }));
if canon(b) && b.len() > a.len() && mdvd(b, a) { assert(ex(b, b.len() - 1) <= ex(a, b.len() - 1)); }
//@ fn rMultiDegree__Add__add(this, rhs)
//@@ ensures: canon(mi(this.0@)) && canon(mi(rhs.0@)) ==> mono(mi(ret.0@)) && mi(ret.0@) == madd(mi(this.0@), mi(rhs.0@))
//@@ loop 1 invariant
degs@.len() + zero_cache == $i, canon(mi(degs@)), forall|k: int| 0 <= k < degs@.len() ==> degs@[k] == ex(mi(this.0@), k) + ex(mi(rhs.0@), k), forall|k: int| degs@.len() <= k < $i ==> #[trigger] ex(mi(this.0@), k) == 0, forall|k: int| degs@.len() <= k < $i ==> #[trigger] ex(mi(rhs.0@), k) == 0
//@@ hint loop 1 start
let a = mi(this.0@); let b = mi(rhs.0@);
assert(ex(a, $i - 1) == (if $i - 1 < this.0@.len() { this.0@[$i - 1] as int } else { 0 })); assert(ex(b, $i - 1) == (if $i - 1 < rhs.0@.len() { rhs.0@[$i - 1] as int } else { 0 }));
//@@ hint loop 1 after
let a = mi(this.0@); let b = mi(rhs.0@);
if canon(a) && canon(b) {
    if degs@.len() < a.len() && a.len() >= b.len() { assert(ex(a, a.len() - 1) == 0); }
    if degs@.len() < b.len() && b.len() >= a.len() { assert(ex(b, b.len() - 1) == 0); }
    assert(mi(degs@) =~= madd(a, b));
    mi_mono(degs@);
}
//@ fn MultiDegree__Add__add(this, rhs)
//@@ ensures: canon(mi(this.0@)) && canon(mi(rhs.0@)) ==> mono(mi(ret.0@)) && mi(ret.0@) == madd(mi(this.0@), mi(rhs.0@))
//@ fn rMultiDegree__Add__MultiDegree__add(this, rhs)
//@@ ensures: canon(mi(this.0@)) && canon(mi(rhs.0@)) ==> mono(mi(ret.0@)) && mi(ret.0@) == madd(mi(this.0@), mi(rhs.0@))
//@ fn MultiDegree__Add__rMultiDegree__add(this, rhs)
//@@ ensures: canon(mi(this.0@)) && canon(mi(rhs.0@)) ==> mono(mi(ret.0@)) && mi(ret.0@) == madd(mi(this.0@), mi(rhs.0@))
//@ raw
// ---------- monomial orders
pub open spec fn is_mono_order(g: spec_fn(Seq<int>, Seq<int>) -> Ordering) -> bool {
    &&& forall|a: Seq<int>, b: Seq<int>| mono(a) && mono(b) ==> #[trigger] g(a, b) == ord_rev(g(b, a))
    &&& forall|a: Seq<int>, b: Seq<int>| mono(a) && mono(b) ==> (#[trigger] g(a, b) == Ordering::Equal) == (a == b)
    &&& forall|a: Seq<int>, b: Seq<int>, c: Seq<int>| mono(a) && mono(b) && mono(c) && #[trigger] g(a, b) != Ordering::Greater && #[trigger] g(b, c) != Ordering::Greater ==> g(a, c) != Ordering::Greater
    &&& forall|a: Seq<int>, b: Seq<int>, c: Seq<int>| mono(a) && mono(b) && mono(c) ==> #[trigger] g(madd(a, c), madd(b, c)) == g(a, b)
    &&& forall|a: Seq<int>| mono(a) ==> #[trigger] g(Seq::empty(), a) != Ordering::Greater
}
pub open spec fn by_lt(ab: bool, ba: bool) -> Ordering { if ab { Ordering::Less } else if ba { Ordering::Greater } else { Ordering::Equal } }
pub open spec fn lex_at(a: Seq<int>, b: Seq<int>, k: int) -> bool { 0 <= k && ex(a, k) < ex(b, k) && forall|i: int| 0 <= i < k ==> #[trigger] ex(a, i) == ex(b, i) }
pub open spec fn lexlt(a: Seq<int>, b: Seq<int>) -> bool { exists|k: int| #[trigger] lex_at(a, b, k) }
pub open spec fn lexcmp(a: Seq<int>, b: Seq<int>) -> Ordering { by_lt(lexlt(a, b), lexlt(b, a)) }
pub open spec fn rev_at(a: Seq<int>, b: Seq<int>, k: int) -> bool { 0 <= k && ex(a, k) < ex(b, k) && forall|i: int| k < i ==> #[trigger] ex(a, i) == ex(b, i) }
pub open spec fn revlt(a: Seq<int>, b: Seq<int>) -> bool { exists|k: int| #[trigger] rev_at(a, b, k) }
pub open spec fn revcmp(a: Seq<int>, b: Seq<int>) -> Ordering { by_lt(revlt(a, b), revlt(b, a)) }
// sum of the first n exponents; total degree
pub open spec fn tsum(m: Seq<int>, n: int) -> int decreases n { if n <= 0 { 0 } else { tsum(m, n - 1) + ex(m, n - 1) } }
pub open spec fn tdeg(m: Seq<int>) -> int { tsum(m, m.len() as int) }
pub open spec fn grlexcmp(a: Seq<int>, b: Seq<int>) -> Ordering { if tdeg(a) != tdeg(b) { int_cmp(tdeg(a), tdeg(b)) } else { lexcmp(a, b) } }
pub open spec fn grevlexcmp(a: Seq<int>, b: Seq<int>) -> Ordering { if tdeg(a) != tdeg(b) { int_cmp(tdeg(a), tdeg(b)) } else { ord_rev(revcmp(a, b)) } }
pub proof fn lex_asym(a: Seq<int>, b: Seq<int>) ensures !(lexlt(a, b) && lexlt(b, a))
{
    if lexlt(a, b) && lexlt(b, a) {
        let k = choose|k: int| #[trigger] lex_at(a, b, k); let l = choose|k: int| #[trigger] lex_at(b, a, k);
        if k < l { assert(ex(b, k) == ex(a, k)); } else if l < k { assert(ex(a, l) == ex(b, l)); }
    }
}
pub proof fn lex_total_from(a: Seq<int>, b: Seq<int>, k: int)
    requires 0 <= k, forall|i: int| 0 <= i < k ==> #[trigger] ex(a, i) == ex(b, i),
    ensures lexlt(a, b) || lexlt(b, a) || same_ex(a, b)
    decreases a.len() + b.len() - k
{
    if k >= a.len() && k >= b.len() { }
    else if ex(a, k) < ex(b, k) { assert(lex_at(a, b, k)); }
    else if ex(b, k) < ex(a, k) { assert(lex_at(b, a, k)); }
    else { lex_total_from(a, b, k + 1); }
}
pub proof fn lex_prefix(a: Seq<int>, b: Seq<int>)
    requires mono(b), a.len() < b.len(), forall|i: int| 0 <= i < a.len() ==> #[trigger] ex(a, i) == ex(b, i),
    ensures lexcmp(a, b) == Ordering::Less, lexcmp(b, a) == Ordering::Greater
{
    lex_total_from(a, b, 0);
    lex_asym(a, b);
    if same_ex(a, b) { assert(ex(a, b.len() - 1) == ex(b, b.len() - 1)); }
    if lexlt(b, a) { let k = choose|k: int| #[trigger] lex_at(b, a, k); if k < b.len() { assert(b[k] >= 0); } }
}
pub proof fn lex_first(a: Seq<int>, b: Seq<int>, k: int)
    requires 0 <= k, ex(a, k) < ex(b, k), forall|i: int| 0 <= i < k ==> #[trigger] ex(a, i) == ex(b, i),
    ensures lexcmp(a, b) == Ordering::Less, lexcmp(b, a) == Ordering::Greater
{ assert(lex_at(a, b, k)); lex_asym(a, b); }
pub proof fn lex_refl(a: Seq<int>) ensures lexcmp(a, a) == Ordering::Equal {}
pub proof fn rev_asym(a: Seq<int>, b: Seq<int>) ensures !(revlt(a, b) && revlt(b, a))
{
    if revlt(a, b) && revlt(b, a) {
        let k = choose|k: int| #[trigger] rev_at(a, b, k); let l = choose|k: int| #[trigger] rev_at(b, a, k);
        if k > l { assert(ex(b, k) == ex(a, k)); } else if l > k { assert(ex(a, l) == ex(b, l)); }
    }
}
pub proof fn rev_total_from(a: Seq<int>, b: Seq<int>, k: int)
    requires forall|i: int| k <= i ==> #[trigger] ex(a, i) == ex(b, i),
    ensures revlt(a, b) || revlt(b, a) || same_ex(a, b)
    decreases (if k >= 0 { k } else { 0 })
{
    if k <= 0 { }
    else if ex(a, k - 1) < ex(b, k - 1) { assert(rev_at(a, b, k - 1)); }
    else if ex(b, k - 1) < ex(a, k - 1) { assert(rev_at(b, a, k - 1)); }
    else { rev_total_from(a, b, k - 1); }
}
pub proof fn rev_first(a: Seq<int>, b: Seq<int>, k: int)
    requires 0 <= k, ex(a, k) < ex(b, k), forall|i: int| k < i ==> #[trigger] ex(a, i) == ex(b, i),
    ensures revcmp(a, b) == Ordering::Less, revcmp(b, a) == Ordering::Greater
{ assert(rev_at(a, b, k)); rev_asym(a, b); }
pub proof fn rev_longer(a: Seq<int>, b: Seq<int>)
    requires mono(b), a.len() < b.len(), ensures revcmp(a, b) == Ordering::Less, revcmp(b, a) == Ordering::Greater
{ assert(b.last() >= 0); rev_first(a, b, b.len() - 1); }
pub proof fn rev_refl(a: Seq<int>) ensures revcmp(a, a) == Ordering::Equal {}
pub proof fn tsum_more(m: Seq<int>, n: int) requires n >= m.len(), ensures tsum(m, n) == tdeg(m) decreases n { if n > m.len() { tsum_more(m, n - 1); } }
pub proof fn tsum_add(a: Seq<int>, b: Seq<int>, n: int) ensures tsum(madd(a, b), n) == tsum(a, n) + tsum(b, n) decreases n { if n > 0 { tsum_add(a, b, n - 1); madd_ex(a, b, n - 1); } }
pub proof fn tdeg_add(a: Seq<int>, b: Seq<int>) ensures tdeg(madd(a, b)) == tdeg(a) + tdeg(b)
{ let n = madd(a, b).len() as int; tsum_add(a, b, n); tsum_more(a, n); tsum_more(b, n); }
pub proof fn tsum_pos(m: Seq<int>, n: int) requires mono(m), 0 <= n <= m.len(), ensures tsum(m, n) >= 0, tsum(m, n) == 0 ==> forall|i: int| 0 <= i < n ==> #[trigger] m[i] == 0 decreases n
{ if n > 0 { tsum_pos(m, n - 1); assert(m[n - 1] >= 0); } }
pub proof fn tdeg_zero(m: Seq<int>) requires mono(m), ensures tdeg(m) >= 0, (tdeg(m) == 0) == (m == Seq::<int>::empty())
{ tsum_pos(m, m.len() as int); if tdeg(m) == 0 && m.len() > 0 { assert(m[m.len() - 1] == 0); } if tdeg(m) == 0 { assert(m =~= Seq::empty()); } }
pub proof fn usum_tsum(s: Seq<usize>, m: Seq<int>)
    requires s.len() <= m.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == m[i], ensures usum(s) == tsum(m, s.len() as int) decreases s.len()
{ if s.len() > 0 { usum_tsum(s.drop_last(), m); assert(s.last() == m[s.len() - 1]); } }
// ---------- the laws
pub proof fn C14_lex() ensures is_mono_order(|a: Seq<int>, b: Seq<int>| lexcmp(a, b))
{
    let g = |a: Seq<int>, b: Seq<int>| lexcmp(a, b);
    assert forall|a: Seq<int>, b: Seq<int>| mono(a) && mono(b) implies #[trigger] g(a, b) == ord_rev(g(b, a)) by { lex_asym(a, b); }
    assert forall|a: Seq<int>, b: Seq<int>| mono(a) && mono(b) implies (#[trigger] g(a, b) == Ordering::Equal) == (a == b) by {
        lex_total_from(a, b, 0); if same_ex(a, b) { canon_ext(a, b); }
    }
    assert forall|a: Seq<int>, b: Seq<int>, c: Seq<int>| mono(a) && mono(b) && mono(c) && #[trigger] g(a, b) != Ordering::Greater && #[trigger] g(b, c) != Ordering::Greater implies g(a, c) != Ordering::Greater by {
        lex_total_from(a, b, 0); lex_total_from(b, c, 0); lex_asym(a, c); lex_asym(a, b); lex_asym(b, c);
        if same_ex(a, b) { canon_ext(a, b); } else if same_ex(b, c) { canon_ext(b, c); } else {
            let k = choose|k: int| #[trigger] lex_at(a, b, k); let l = choose|k: int| #[trigger] lex_at(b, c, k);
            let n = if k < l { k } else { l };
            assert forall|i: int| 0 <= i < n implies #[trigger] ex(a, i) == ex(c, i) by { assert(ex(a, i) == ex(b, i)); }
            if k < l { assert(ex(b, k) == ex(c, k)); } else if l < k { assert(ex(a, l) == ex(b, l)); }
            assert(lex_at(a, c, n));
        }
    }
    assert forall|a: Seq<int>, b: Seq<int>, c: Seq<int>| mono(a) && mono(b) && mono(c) implies #[trigger] g(madd(a, c), madd(b, c)) == g(a, b) by { lex_shift(a, b, c); lex_shift(b, a, c); }
    assert forall|a: Seq<int>| mono(a) implies #[trigger] g(Seq::empty(), a) != Ordering::Greater by {
        let z = Seq::<int>::empty();
        if lexlt(a, z) { let k = choose|k: int| #[trigger] lex_at(a, z, k); if k < a.len() { assert(a[k] >= 0); } }
    }
}
pub proof fn lex_shift(a: Seq<int>, b: Seq<int>, c: Seq<int>) ensures lexlt(madd(a, c), madd(b, c)) == lexlt(a, b)
{
    let x = madd(a, c); let y = madd(b, c);
    if lexlt(a, b) {
        let k = choose|k: int| #[trigger] lex_at(a, b, k);
        assert forall|i: int| 0 <= i < k implies #[trigger] ex(x, i) == ex(y, i) by { madd_ex(a, c, i); madd_ex(b, c, i); assert(ex(a, i) == ex(b, i)); }
        madd_ex(a, c, k); madd_ex(b, c, k);
        assert(lex_at(x, y, k));
    }
    if lexlt(x, y) {
        let k = choose|k: int| #[trigger] lex_at(x, y, k);
        assert forall|i: int| 0 <= i < k implies #[trigger] ex(a, i) == ex(b, i) by { madd_ex(a, c, i); madd_ex(b, c, i); assert(ex(x, i) == ex(y, i)); }
        madd_ex(a, c, k); madd_ex(b, c, k);
        assert(lex_at(a, b, k));
    }
}
pub proof fn C14_revlex() ensures is_mono_order(|a: Seq<int>, b: Seq<int>| revcmp(a, b))
{
    let g = |a: Seq<int>, b: Seq<int>| revcmp(a, b);
    assert forall|a: Seq<int>, b: Seq<int>| mono(a) && mono(b) implies #[trigger] g(a, b) == ord_rev(g(b, a)) by { rev_asym(a, b); }
    assert forall|a: Seq<int>, b: Seq<int>| mono(a) && mono(b) implies (#[trigger] g(a, b) == Ordering::Equal) == (a == b) by {
        rev_total_from(a, b, (a.len() + b.len()) as int); if same_ex(a, b) { canon_ext(a, b); }
    }
    assert forall|a: Seq<int>, b: Seq<int>, c: Seq<int>| mono(a) && mono(b) && mono(c) && #[trigger] g(a, b) != Ordering::Greater && #[trigger] g(b, c) != Ordering::Greater implies g(a, c) != Ordering::Greater by {
        rev_trans(a, b, c);
    }
    assert forall|a: Seq<int>, b: Seq<int>, c: Seq<int>| mono(a) && mono(b) && mono(c) implies #[trigger] g(madd(a, c), madd(b, c)) == g(a, b) by { rev_shift(a, b, c); rev_shift(b, a, c); }
    assert forall|a: Seq<int>| mono(a) implies #[trigger] g(Seq::empty(), a) != Ordering::Greater by {
        let z = Seq::<int>::empty();
        if revlt(a, z) { let k = choose|k: int| #[trigger] rev_at(a, z, k); if k < a.len() { assert(a[k] >= 0); } }
    }
}
pub proof fn rev_trans(a: Seq<int>, b: Seq<int>, c: Seq<int>)
    requires mono(a), mono(b), mono(c), revcmp(a, b) != Ordering::Greater, revcmp(b, c) != Ordering::Greater, ensures revcmp(a, c) != Ordering::Greater
{
    rev_total_from(a, b, (a.len() + b.len()) as int); rev_total_from(b, c, (b.len() + c.len()) as int); rev_asym(a, c); rev_asym(a, b); rev_asym(b, c);
    if same_ex(a, b) { canon_ext(a, b); } else if same_ex(b, c) { canon_ext(b, c); } else {
        let k = choose|k: int| #[trigger] rev_at(a, b, k); let l = choose|k: int| #[trigger] rev_at(b, c, k);
        let n = if k < l { l } else { k };
        assert forall|i: int| n < i implies #[trigger] ex(a, i) == ex(c, i) by { assert(ex(a, i) == ex(b, i)); assert(ex(b, i) == ex(c, i)); }
        if k < l { assert(ex(a, l) == ex(b, l)); } else if l < k { assert(ex(b, k) == ex(c, k)); }
        assert(rev_at(a, c, n));
    }
}
pub proof fn rev_shift(a: Seq<int>, b: Seq<int>, c: Seq<int>) ensures revlt(madd(a, c), madd(b, c)) == revlt(a, b)
{
    let x = madd(a, c); let y = madd(b, c);
    if revlt(a, b) {
        let k = choose|k: int| #[trigger] rev_at(a, b, k);
        assert forall|i: int| k < i implies #[trigger] ex(x, i) == ex(y, i) by { madd_ex(a, c, i); madd_ex(b, c, i); assert(ex(a, i) == ex(b, i)); }
        madd_ex(a, c, k); madd_ex(b, c, k);
        assert(rev_at(x, y, k));
    }
    if revlt(x, y) {
        let k = choose|k: int| #[trigger] rev_at(x, y, k);
        assert forall|i: int| k < i implies #[trigger] ex(a, i) == ex(b, i) by { madd_ex(a, c, i); madd_ex(b, c, i); assert(ex(x, i) == ex(y, i)); }
        madd_ex(a, c, k); madd_ex(b, c, k);
        assert(rev_at(a, b, k));
    }
}
pub proof fn C14_grlex() ensures is_mono_order(|a: Seq<int>, b: Seq<int>| grlexcmp(a, b))
{
    let g = |a: Seq<int>, b: Seq<int>| grlexcmp(a, b); let h = |a: Seq<int>, b: Seq<int>| lexcmp(a, b);
    C14_lex();
    assert forall|a: Seq<int>, b: Seq<int>| mono(a) && mono(b) implies #[trigger] g(a, b) == ord_rev(g(b, a)) by { assert(h(a, b) == ord_rev(h(b, a))); }
    assert forall|a: Seq<int>, b: Seq<int>| mono(a) && mono(b) implies (#[trigger] g(a, b) == Ordering::Equal) == (a == b) by { assert((h(a, b) == Ordering::Equal) == (a == b)); }
    assert forall|a: Seq<int>, b: Seq<int>, c: Seq<int>| mono(a) && mono(b) && mono(c) && #[trigger] g(a, b) != Ordering::Greater && #[trigger] g(b, c) != Ordering::Greater implies g(a, c) != Ordering::Greater by {
        if tdeg(a) == tdeg(b) && tdeg(b) == tdeg(c) { assert(h(a, b) != Ordering::Greater && h(b, c) != Ordering::Greater ==> h(a, c) != Ordering::Greater); }
    }
    assert forall|a: Seq<int>, b: Seq<int>, c: Seq<int>| mono(a) && mono(b) && mono(c) implies #[trigger] g(madd(a, c), madd(b, c)) == g(a, b) by {
        tdeg_add(a, c); tdeg_add(b, c); assert(h(madd(a, c), madd(b, c)) == h(a, b));
    }
    assert forall|a: Seq<int>| mono(a) implies #[trigger] g(Seq::empty(), a) != Ordering::Greater by { tdeg_zero(a); assert(h(Seq::empty(), a) != Ordering::Greater); }
}
pub proof fn C14_grevlex() ensures is_mono_order(|a: Seq<int>, b: Seq<int>| grevlexcmp(a, b))
{
    let g = |a: Seq<int>, b: Seq<int>| grevlexcmp(a, b); let h = |a: Seq<int>, b: Seq<int>| revcmp(a, b);
    C14_revlex();
    assert forall|a: Seq<int>, b: Seq<int>| mono(a) && mono(b) implies #[trigger] g(a, b) == ord_rev(g(b, a)) by { assert(h(a, b) == ord_rev(h(b, a))); }
    assert forall|a: Seq<int>, b: Seq<int>| mono(a) && mono(b) implies (#[trigger] g(a, b) == Ordering::Equal) == (a == b) by { assert((h(a, b) == Ordering::Equal) == (a == b)); }
    assert forall|a: Seq<int>, b: Seq<int>, c: Seq<int>| mono(a) && mono(b) && mono(c) && #[trigger] g(a, b) != Ordering::Greater && #[trigger] g(b, c) != Ordering::Greater implies g(a, c) != Ordering::Greater by {
        if tdeg(a) == tdeg(b) && tdeg(b) == tdeg(c) { rev_asym(a, b); rev_asym(b, c); rev_asym(a, c); rev_trans(c, b, a); }
    }
    assert forall|a: Seq<int>, b: Seq<int>, c: Seq<int>| mono(a) && mono(b) && mono(c) implies #[trigger] g(madd(a, c), madd(b, c)) == g(a, b) by {
        tdeg_add(a, c); tdeg_add(b, c); assert(h(madd(a, c), madd(b, c)) == h(a, b));
    }
    assert forall|a: Seq<int>| mono(a) implies #[trigger] g(Seq::empty(), a) != Ordering::Greater by { tdeg_zero(a); tdeg_zero(Seq::empty()); rev_refl(Seq::empty()); }
}
//@ fn Lex__MonomialOrder__cmp(a, b)
//@@ ensures: canon(mi(a.0@)) && canon(mi(b.0@)) ==> ret == lexcmp(mi(a.0@), mi(b.0@))
//@@ loop 1 invariant
iter_a@.len() <= a.0@.len(), iter_b@.len() <= b.0@.len(), a.0@.len() - iter_a@.len() == b.0@.len() - iter_b@.len(), forall|j: int| 0 <= j < iter_a@.len() ==> *(#[trigger] iter_a@[j]) == a.0@[a.0@.len() - iter_a@.len() + j], forall|j: int| 0 <= j < iter_b@.len() ==> *(#[trigger] iter_b@[j]) == b.0@[b.0@.len() - iter_b@.len() + j], forall|j: int| 0 <= j < a.0@.len() - iter_a@.len() ==> #[trigger] ex(mi(a.0@), j) == ex(mi(b.0@), j)
//@@ loop 1 decreases: iter_a@.len()
//@@ hint loop 1 start
let x = mi(a.0@); let y = mi(b.0@); let k = a.0@.len() - iter_a@.len();
mi_mono(a.0@); mi_mono(b.0@);
if canon(x) && canon(y) {
    if iter_a@.len() > 0 && iter_b@.len() > 0 {
        assert(*iter_a@[0] == a.0@[k]); assert(*iter_b@[0] == b.0@[k]);
        assert(ex(x, k) == a.0@[k]); assert(ex(y, k) == b.0@[k]);
        if ex(x, k) < ex(y, k) { lex_first(x, y, k); } else if ex(x, k) > ex(y, k) { lex_first(y, x, k); }
    } else if iter_a@.len() > 0 { lex_prefix(y, x); } else if iter_b@.len() > 0 { lex_prefix(x, y); }
    else { assert(same_ex(x, y)); canon_ext(x, y); lex_refl(x); }
}
//@ fn RevLex__MonomialOrder__cmp(a, b)
//@@ ensures: canon(mi(a.0@)) && canon(mi(b.0@)) ==> ret == revcmp(mi(a.0@), mi(b.0@))
//@@ hint start
let x = mi(a.0@); let y = mi(b.0@);
mi_mono(a.0@); mi_mono(b.0@);
if canon(x) && canon(y) { if x.len() < y.len() { rev_longer(x, y); } else if x.len() > y.len() { rev_longer(y, x); } }
//@@ loop 1 invariant
forall|j: int| a.0@.len() - $i <= j ==> #[trigger] ex(mi(a.0@), j) == ex(mi(b.0@), j)
//@@ hint loop 1 start
let x = mi(a.0@); let y = mi(b.0@); let k = a.0@.len() - $i;
assert(ex(x, k) == a.0@[k] && ex(y, k) == b.0@[k]);
if ex(x, k) < ex(y, k) { rev_first(x, y, k); } else if ex(x, k) > ex(y, k) { rev_first(y, x, k); }
//@@ hint loop 1 after
let x = mi(a.0@); let y = mi(b.0@);
if canon(x) && canon(y) { assert(same_ex(x, y)); canon_ext(x, y); rev_refl(x); }
//@ fn grad(a, b)
//@@ ensures: ret == int_cmp(tdeg(mi(a.0@)), tdeg(mi(b.0@)))
//@@ closure 1 ensures: cret == tdeg(mi(a0.0@))
//@@ closure 1 start
assert forall|s: Seq<usize>| #![trigger usum(s)] s.len() == a0.0@.len() && (forall|i: int| 0 <= i < s.len() ==> s[i] == a0.0@[i]) implies usum(s) == tdeg(mi(a0.0@)) by { usum_tsum(s, mi(a0.0@)); }
//@ fn GrLex__MonomialOrder__cmp(a, b)
//@@ ensures: canon(mi(a.0@)) && canon(mi(b.0@)) ==> ret == grlexcmp(mi(a.0@), mi(b.0@))
//@ fn GRevLex__MonomialOrder__cmp(a, b)
//@@ ensures: canon(mi(a.0@)) && canon(mi(b.0@)) ==> ret == grevlexcmp(mi(a.0@), mi(b.0@))
//@ raw
pub proof fn u8sum_tsum(s: Seq<u8>, m: Seq<int>)
    requires s.len() <= m.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == m[i], ensures u8sum(s) == tsum(m, s.len() as int) decreases s.len()
{ if s.len() > 0 { u8sum_tsum(s.drop_last(), m); assert(s.last() == m[s.len() - 1]); } }
//@ fn MultiDegree__total_deg(this)
//@@ ensures: ret == tdeg(mi(this.0@))
//@@ hint start
assert forall|s: Seq<u8>| #![trigger u8sum(s)] s.len() == this.0@.len() && (forall|i: int| 0 <= i < s.len() ==> s[i] == this.0@[i]) implies u8sum(s) == tdeg(mi(this.0@)) by { u8sum_tsum(s, mi(this.0@)); }
//@ fn MultiDegree__degs_mut(this)
//@@ ensures: ret@.len() == old(this).0@.len(), final(this).0@.len() == old(this).0@.len(), forall|i: int| 0 <= i < ret@.len() ==> *#[trigger] ret@[i] == old(this).0@[i], forall|i: int| #![trigger ret@[i]] #![trigger final(this).0@[i]] 0 <= i < ret@.len() ==> final(this).0@[i] == *final(ret@[i])
