#[allow(unused_imports)] use vstd::multiset::Multiset;
// ===== prelude: images of std / itertools (assumed contracts on dependencies) =====
#[verifier::external_body]
pub fn vpanic(Ghost(ok): Ghost<bool>) -> !
    requires ok,
{ panic!() }

#[verifier::inline] pub open spec fn vd<T>(x: &T) -> T { *x }
pub enum EitherOrBoth<A, B> { Both(A, B), Left(A), Right(B) }

pub open spec fn int_cmp(a: int, b: int) -> Ordering {
    if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater }
}
pub open spec fn ord_rev(o: Ordering) -> Ordering {
    match o { Ordering::Less => Ordering::Greater, Ordering::Equal => Ordering::Equal, Ordering::Greater => Ordering::Less }
}
pub fn ord_reverse(o: Ordering) -> (r: Ordering) ensures r == ord_rev(o) {
    match o { Ordering::Less => Ordering::Greater, Ordering::Equal => Ordering::Equal, Ordering::Greater => Ordering::Less }
}
pub fn ord_is_eq(o: Ordering) -> (r: bool) ensures r == (o == Ordering::Equal) { match o { Ordering::Equal => true, _ => false } }
pub fn ord_is_ne(o: Ordering) -> (r: bool) ensures r == (o != Ordering::Equal) { match o { Ordering::Equal => false, _ => true } }
pub fn ord_is_lt(o: Ordering) -> (r: bool) ensures r == (o == Ordering::Less) { match o { Ordering::Less => true, _ => false } }
pub fn ord_is_gt(o: Ordering) -> (r: bool) ensures r == (o == Ordering::Greater) { match o { Ordering::Greater => true, _ => false } }
pub fn ord_is_le(o: Ordering) -> (r: bool) ensures r == (o != Ordering::Greater) { match o { Ordering::Greater => false, _ => true } }
pub fn ord_is_ge(o: Ordering) -> (r: bool) ensures r == (o != Ordering::Less) { match o { Ordering::Less => false, _ => true } }
pub fn ord_then(o: Ordering, p: Ordering) -> (r: Ordering) ensures r == (if o == Ordering::Equal { p } else { o }) { match o { Ordering::Equal => p, x => x } }
pub fn ord_eq(o: Ordering, p: Ordering) -> (r: bool) ensures r == (o == p) {
    match (o, p) { (Ordering::Less, Ordering::Less) => true, (Ordering::Equal, Ordering::Equal) => true, (Ordering::Greater, Ordering::Greater) => true, _ => false }
}
pub open spec fn is_total_preorder<T>(g: spec_fn(T, T) -> Ordering) -> bool {
    &&& forall|x: T, y: T| #[trigger] g(x, y) == ord_rev(g(y, x))
    &&& forall|x: T, y: T, z: T| #[trigger] g(x, y) != Ordering::Greater && #[trigger] g(y, z) != Ordering::Greater ==> g(x, z) != Ordering::Greater
}

pub open spec fn preorder_on<T>(s: Seq<T>, g: spec_fn(T, T) -> Ordering) -> bool {
    &&& forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() ==> #[trigger] g(s[i], s[j]) == ord_rev(g(s[j], s[i]))
    &&& forall|i: int, j: int, k: int| 0 <= i < s.len() && 0 <= j < s.len() && 0 <= k < s.len()
        && #[trigger] g(s[i], s[j]) != Ordering::Greater && #[trigger] g(s[j], s[k]) != Ordering::Greater ==> g(s[i], s[k]) != Ordering::Greater
}

// k is the last position of a maximal element
pub open spec fn max_at<T>(s: Seq<T>, g: spec_fn(T, T) -> Ordering, k: int) -> bool {
    0 <= k < s.len() && (forall|i: int| 0 <= i < s.len() ==> g(#[trigger] s[i], s[k]) != Ordering::Greater)
        && (forall|i: int| k < i < s.len() ==> g(#[trigger] s[i], s[k]) == Ordering::Less)
}
// k is the first position of a minimal element
pub open spec fn min_at<T>(s: Seq<T>, g: spec_fn(T, T) -> Ordering, k: int) -> bool {
    0 <= k < s.len() && (forall|i: int| 0 <= i < s.len() ==> g(s[k], #[trigger] s[i]) != Ordering::Greater)
        && (forall|i: int| 0 <= i < k ==> g(#[trigger] s[i], s[k]) == Ordering::Greater)
}
// p holds on the first n elements and not on the next one
pub open spec fn prefix_at<T>(s: Seq<T>, p: spec_fn(T) -> bool, n: int) -> bool {
    0 <= n <= s.len() && (forall|j: int| 0 <= j < n ==> p(#[trigger] s[j])) && (n < s.len() ==> !p(s[n]))
}
pub open spec fn sorted_on<T>(s: Seq<T>, g: spec_fn(T, T) -> Ordering) -> bool {
    forall|i: int, j: int| 0 <= i < j < s.len() ==> g(#[trigger] s[i], #[trigger] s[j]) != Ordering::Greater
}
// ---- machine integers.  i64/u8/i32 arithmetic: an unrepresentable result panics (overflow
// checks) or is outside the property; the contract speaks about calls that return.
pub open spec fn t_div_spec(a: int, b: int) -> int { if a >= 0 { a / b } else { -((-a) / b) } }
pub open spec fn t_rem_spec(a: int, b: int) -> int { if a >= 0 { a % b } else { -((-a) % b) } }
pub fn i64_add(a: i64, b: i64) -> (r: i64) ensures r == a + b { match a.checked_add(b) { Some(r) => r, None => vpanic(Ghost(true)) } }
pub fn i64_sub(a: i64, b: i64) -> (r: i64) ensures r == a - b { match a.checked_sub(b) { Some(r) => r, None => vpanic(Ghost(true)) } }
pub fn i64_mul(a: i64, b: i64) -> (r: i64) ensures r == a * b { match a.checked_mul(b) { Some(r) => r, None => vpanic(Ghost(true)) } }
pub fn i64_neg(a: i64) -> (r: i64) ensures r == -a { if a == i64::MIN { vpanic(Ghost(true)) } -a }
pub proof fn neg_div(a: int, b: int) requires a >= 0, b > 0, ensures a / (-b) == -(a / b), a % (-b) == a % b {
    assert(a / (-b) == -(a / b)) by(nonlinear_arith) requires a >= 0, b > 0;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(a, b);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(a, -b);
    assert((-b) * (-(a / b)) == b * (a / b)) by(nonlinear_arith);
}
pub fn i64_uabs(a: i64) -> (r: u64) ensures r == (if a < 0 { -a } else { a as int }) { if a < 0 { (-(a as i128)) as u64 } else { a as u64 } }
pub fn i64_div(a: i64, b: i64, Ghost(ok): Ghost<bool>) -> (r: i64)
    requires b == 0 ==> ok, ensures b != 0, r == t_div_spec(a as int, b as int) {
    if b == 0 { vpanic(Ghost(ok)) }
    if a == i64::MIN && b == -1 { vpanic(Ghost(true)) }
    let (x, y) = (i64_uabs(a), i64_uabs(b));
    proof {
        if b < 0 { neg_div(x as int, y as int); }
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(x as int, y as int);
        assert(x as int / y as int >= 0) by(nonlinear_arith) requires x >= 0, y > 0;
        assert(y >= 2 ==> 2 * (x as int / y as int) <= x) by(nonlinear_arith)
            requires x as int == y as int * (x as int / y as int) + x as int % y as int, x as int % y as int >= 0, x >= 0, x as int / y as int >= 0;
    }
    let q = x / y;
    if (a < 0) == (b < 0) { q as i64 } else { (-(q as i128)) as i64 }
}
pub fn i64_rem(a: i64, b: i64, Ghost(ok): Ghost<bool>) -> (r: i64)
    requires b == 0 ==> ok, ensures b != 0, r == t_rem_spec(a as int, b as int) {
    if b == 0 { vpanic(Ghost(ok)) }
    if a == i64::MIN && b == -1 { vpanic(Ghost(true)) }
    let (x, y) = (i64_uabs(a), i64_uabs(b));
    proof { if b < 0 { neg_div(x as int, y as int); } }
    let q = x % y;
    if a >= 0 { q as i64 } else { (-(q as i128)) as i64 }
}
pub fn i64_abs(a: i64) -> (r: i64) ensures r == (if a < 0 { -a } else { a as int }) { if a < 0 { i64_neg(a) } else { a } }
pub fn i64_signum(a: i64) -> (r: i64) ensures r == (if a < 0 { -1int } else if a == 0 { 0int } else { 1int }) { if a < 0 { -1 } else if a == 0 { 0 } else { 1 } }
pub fn i64_is_negative(a: i64) -> (r: bool) ensures r == (a < 0) { a < 0 }
pub fn i64_is_positive(a: i64) -> (r: bool) ensures r == (a > 0) { a > 0 }
pub open spec fn ipow(b: int, e: nat) -> int decreases e { if e == 0 { 1 } else { b * ipow(b, (e - 1) as nat) } }
pub fn i64_pow(a: i64, e: u32) -> (r: i64) ensures r == ipow(a as int, e as nat) {
    let mut r: i64 = 1; let mut k: u32 = 0;
    while k < e invariant k <= e, r == ipow(a as int, k as nat) decreases e - k {
        proof { assert(ipow(a as int, (k + 1) as nat) == a * ipow(a as int, k as nat)); assert(a * r == r * a) by(nonlinear_arith); }
        r = match a.checked_mul(r) { Some(x) => x, None => vpanic(Ghost(true)) };
        k = k + 1;
    }
    r
}
pub fn usize_pow(a: usize, e: u32) -> (r: usize) ensures r == ipow(a as int, e as nat) {
    let mut r: usize = 1; let mut k: u32 = 0;
    while k < e invariant k <= e, r == ipow(a as int, k as nat) decreases e - k {
        proof { assert(ipow(a as int, (k + 1) as nat) == a * ipow(a as int, k as nat)); assert(a * r == r * a) by(nonlinear_arith); }
        r = match a.checked_mul(r) { Some(x) => x, None => vpanic(Ghost(true)) };
        k = k + 1;
    }
    r
}
pub fn i64_cmp(a: i64, b: i64) -> (r: Ordering) ensures r == int_cmp(a as int, b as int) {
    if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater }
}
pub fn u8_cmp(a: u8, b: u8) -> (r: Ordering) ensures r == int_cmp(a as int, b as int) {
    if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater }
}
pub fn usize_cmp(a: usize, b: usize) -> (r: Ordering) ensures r == int_cmp(a as int, b as int) {
    if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater }
}
pub fn usize_max(a: usize, b: usize) -> (r: usize) ensures r == (if a >= b { a } else { b }) { if a >= b { a } else { b } }
pub fn usize_min(a: usize, b: usize) -> (r: usize) ensures r == (if a <= b { a } else { b }) { if a <= b { a } else { b } }
pub fn u8_max(a: u8, b: u8) -> (r: u8) ensures r == (if a >= b { a } else { b }) { if a >= b { a } else { b } }
pub fn u8_min(a: u8, b: u8) -> (r: u8) ensures r == (if a <= b { a } else { b }) { if a <= b { a } else { b } }
pub fn ref_max_u8<'a>(a: &'a u8, b: &'a u8) -> (r: &'a u8) ensures *r == (if *a >= *b { *a } else { *b }) { if *a >= *b { a } else { b } }
pub fn ref_min_u8<'a>(a: &'a u8, b: &'a u8) -> (r: &'a u8) ensures *r == (if *a <= *b { *a } else { *b }) { if *a <= *b { a } else { b } }
pub fn u8_add(a: u8, b: u8) -> (r: u8) ensures r == a + b { match a.checked_add(b) { Some(r) => r, None => vpanic(Ghost(true)) } }
pub fn u8_sub(a: u8, b: u8) -> (r: u8) ensures r == a - b { match a.checked_sub(b) { Some(r) => r, None => vpanic(Ghost(true)) } }
pub fn u8_mul(a: u8, b: u8) -> (r: u8) ensures r == a * b { match a.checked_mul(b) { Some(r) => r, None => vpanic(Ghost(true)) } }
pub fn u8_div(a: u8, b: u8, Ghost(ok): Ghost<bool>) -> (r: u8) requires b == 0 ==> ok, ensures b != 0, r == a / b { if b == 0 { vpanic(Ghost(ok)) } a / b }
pub fn u8_rem(a: u8, b: u8, Ghost(ok): Ghost<bool>) -> (r: u8) requires b == 0 ==> ok, ensures b != 0, r == a % b { if b == 0 { vpanic(Ghost(ok)) } a % b }
pub fn i64_as_u32(a: i64) -> (r: u32) ensures 0 <= a <= u32::MAX ==> r == a { #[verifier::truncate] (a as u32) }
pub fn usize_as_u32(a: usize) -> (r: u32) ensures a <= u32::MAX ==> r == a { #[verifier::truncate] (a as u32) }

pub fn arr_slice<'a, T, const N: usize>(a: &'a [T; N]) -> (r: &'a [T]) ensures r@ == a@ { a.as_slice() }

// ---- Option
pub fn opt_unwrap<T>(o: Option<T>, Ghost(ok): Ghost<bool>) -> (r: T)
    requires o is None ==> ok, ensures o is Some, r == o->Some_0
{ match o { Some(x) => x, None => vpanic(Ghost(ok)) } }
pub fn opt_is_some<T>(o: &Option<T>) -> (r: bool) ensures r == (*o is Some) { match o { Some(_) => true, None => false } }
pub fn opt_is_none<T>(o: &Option<T>) -> (r: bool) ensures r == (*o is None) { match o { Some(_) => false, None => true } }
pub fn opt_unwrap_or<T>(o: Option<T>, d: T) -> (r: T) ensures r == (match o { Some(x) => x, None => d }) { match o { Some(x) => x, None => d } }
// cloning a value of a type this crate stores gives an equal value
#[verifier::external_body] pub fn val_clone<T>(x: &T) -> (r: T) ensures r == *x { unimplemented!() }
pub fn opt_cloned<T>(o: Option<&T>) -> (r: Option<T>)
    ensures r == (match o { Some(x) => Some(*x), None => None }) { match o { Some(x) => Some(val_clone(x)), None => None } }
pub fn opt_clone<T>(o: &Option<T>) -> (r: Option<T>) ensures r == *o { match o { Some(x) => Some(val_clone(x)), None => None } }

pub fn opt_as_ref<T>(o: &Option<T>) -> (r: Option<&T>) ensures match *o { Some(x) => r is Some && *r->Some_0 == x, None => r is None } { match o { Some(x) => Some(x), None => None } }
pub fn opt_take<T>(o: &mut Option<T>) -> (r: Option<T>) ensures r == *old(o), *final(o) is None { let mut t: Option<T> = None; core::mem::swap(o, &mut t); t }
pub fn mem_swap<T>(a: &mut T, b: &mut T) ensures *final(a) == *old(b), *final(b) == *old(a) { core::mem::swap(a, b) }
pub fn mem_replace<T>(a: &mut T, b: T) -> (r: T) ensures r == *old(a), *final(a) == b { let mut t = b; core::mem::swap(a, &mut t); t }

// ---- Vec and slices.  A Vec is identified with its contents.
pub axiom fn vec_ext<T>(a: Vec<T>, b: Vec<T>)
    requires a@ == b@, ensures a == b;
pub fn vec_clone<T>(v: &Vec<T>) -> (r: Vec<T>) ensures r == *v { let r = slice_to_vec(vec_as_slice(v)); proof { vec_ext(r, *v); } r }
pub fn vec_with_capacity<T>(n: usize) -> (r: Vec<T>) ensures r@ == Seq::<T>::empty() { Vec::with_capacity(n) }
pub fn vec_push<T>(v: &mut Vec<T>, x: T) ensures final(v)@ == old(v)@.push(x) { v.push(x) }
pub fn vec_pop<T>(v: &mut Vec<T>) -> (r: Option<T>)
    ensures old(v)@.len() == 0 ==> r is None && final(v)@ == old(v)@,
        old(v)@.len() > 0 ==> r == Some(old(v)@.last()) && final(v)@ == old(v)@.drop_last() { v.pop() }
pub fn vec_remove<T>(v: &mut Vec<T>, i: usize) -> (r: T)
    requires i < old(v)@.len(), ensures r == old(v)@[i as int], final(v)@ == old(v)@.remove(i as int) { v.remove(i) }
pub fn vec_swap_remove<T>(v: &mut Vec<T>, i: usize) -> (r: T)
    requires i < old(v)@.len(), ensures r == old(v)@[i as int], final(v)@ == old(v)@.update(i as int, old(v)@.last()).drop_last() { v.swap_remove(i) }
pub fn vec_insert<T>(v: &mut Vec<T>, i: usize, x: T)
    requires i <= old(v)@.len(), ensures final(v)@ == old(v)@.insert(i as int, x) { v.insert(i, x) }
pub fn vec_truncate<T>(v: &mut Vec<T>, n: usize)
    ensures final(v)@ == (if n <= old(v)@.len() { old(v)@.subrange(0, n as int) } else { old(v)@ }) { v.truncate(n) }
pub fn vec_clear<T>(v: &mut Vec<T>) ensures final(v)@ == Seq::<T>::empty() { v.clear() }
pub fn vec_append<T>(v: &mut Vec<T>, w: &mut Vec<T>)
    ensures final(v)@ == old(v)@ + old(w)@, final(w)@ == Seq::<T>::empty() { v.append(w) }
pub fn vec_len<T>(v: &Vec<T>) -> (r: usize) ensures r == v@.len() { v.len() }
pub fn vec_is_empty<T>(v: &Vec<T>) -> (r: bool) ensures r == (v@.len() == 0) { v.is_empty() }
pub fn vec_index<T>(v: &Vec<T>, i: usize) -> (r: &T) requires i < v@.len(), ensures *r == v@[i as int] { &v[i] }
pub fn vec_index_mut<T>(v: &mut Vec<T>, i: usize) -> (r: &mut T)
    requires i < old(v)@.len(), ensures *r == old(v)@[i as int], final(v)@ == old(v)@.update(i as int, *final(r)) { &mut v[i] }
pub fn slice_index<T>(v: &[T], i: usize) -> (r: &T) requires i < v@.len(), ensures *r == v@[i as int] { &v[i] }
pub fn slice_index_mut<T>(v: &mut [T], i: usize) -> (r: &mut T)
    requires i < old(v)@.len(), ensures *r == old(v)@[i as int], final(v)@ == old(v)@.update(i as int, *final(r)) { &mut v[i] }
pub fn slice_get<T>(v: &[T], i: usize) -> (r: Option<&T>)
    ensures i < v@.len() ==> r == Some(&v@[i as int]), i >= v@.len() ==> r is None { v.get(i) }
pub fn vec_deref<T>(v: &Vec<T>) -> (r: &[T]) ensures r@ == v@ { v }
pub broadcast axiom fn ax_vec_len<T>(v: Vec<T>) ensures #[trigger] v@.len() <= usize::MAX;
pub uninterp spec fn vec_deref_spec<T>(v: &Vec<T>) -> &[T];
pub broadcast axiom fn ax_vec_deref_spec<T>(v: &Vec<T>) ensures (#[trigger] vec_deref_spec(v))@ == v@;
pub fn vec_deref_mut<T>(v: &mut Vec<T>) -> (r: &mut [T]) ensures (*r)@ == old(v)@, final(v)@ == (*final(r))@ { v }
pub fn vec_as_slice<T>(v: &Vec<T>) -> (r: &[T]) ensures r@ == v@ { v }
pub fn vec_range<T>(v: &Vec<T>, a: usize, b: usize) -> (r: &[T])
    requires a <= b <= v@.len(), ensures r@ == v@.subrange(a as int, b as int) { &v[a..b] }
pub fn vec_from<T>(v: &Vec<T>, a: usize) -> (r: &[T])
    requires a <= v@.len(), ensures r@ == v@.subrange(a as int, v@.len() as int) { &v[a..] }
pub fn vec_to<T>(v: &Vec<T>, b: usize) -> (r: &[T])
    requires b <= v@.len(), ensures r@ == v@.subrange(0, b as int) { &v[..b] }
pub fn vec_full<T>(v: &Vec<T>) -> (r: &[T]) ensures r@ == v@ { &v[..] }
pub fn vec_range_mut<T>(v: &mut Vec<T>, a: usize, b: usize) -> (r: &mut [T])
    requires a <= b <= old(v)@.len(),
    ensures (*r)@ == old(v)@.subrange(a as int, b as int), 
        final(v)@ == old(v)@.subrange(0, a as int) + (*final(r))@ + old(v)@.subrange(b as int, old(v)@.len() as int) {
    let (x, _y) = vec_deref_mut(v).split_at_mut(b);
    let (_p, q) = x.split_at_mut(a);
    q
}
pub fn slice_len<T>(v: &[T]) -> (r: usize) ensures r == v@.len() { v.len() }
pub fn slice_is_empty<T>(v: &[T]) -> (r: bool) ensures r == (v@.len() == 0) { v.is_empty() }
pub fn slice_to_vec<T>(v: &[T]) -> (r: Vec<T>) ensures r@ == v@ {
    let mut r: Vec<T> = Vec::new(); let mut i: usize = 0;
    while i < v.len() invariant i <= v@.len(), r@ == v@.take(i as int) decreases v@.len() - i
    { r.push(val_clone(&v[i])); i = i + 1; proof { assert(r@ =~= v@.take(i as int)); } }
    proof { assert(r@ =~= v@); }
    r
}
pub fn slice_swap<T>(v: &mut [T], i: usize, j: usize)
    requires i < old(v)@.len(), j < old(v)@.len(),
    ensures final(v)@ == old(v)@.update(i as int, old(v)@[j as int]).update(j as int, old(v)@[i as int]) {
    if i == j { proof { assert(v@ =~= v@.update(i as int, v@[j as int]).update(j as int, v@[i as int])); } return; }
    let (p, q) = if i < j { (i, j) } else { (j, i) };
    let (x, y) = v.split_at_mut(q);
    core::mem::swap(&mut x[p], &mut y[0]);
}
pub fn slice_first<T>(v: &[T]) -> (r: Option<&T>) ensures v@.len() == 0 ==> r is None, v@.len() > 0 ==> r == Some(&v@[0]) { if v.len() == 0 { None } else { Some(&v[0]) } }
pub fn slice_last<T>(v: &[T]) -> (r: Option<&T>) ensures v@.len() == 0 ==> r is None, v@.len() > 0 ==> r == Some(&v@.last()) { let n = v.len(); if n == 0 { None } else { Some(&v[n - 1]) } }
pub fn slice_get_mut<T>(v: &mut [T], i: usize) -> (r: Option<&mut T>)
    ensures i >= old(v)@.len() ==> r is None && final(v)@ == old(v)@,
        i < old(v)@.len() ==> r is Some && *r->Some_0 == old(v)@[i as int] && final(v)@ == old(v)@.update(i as int, *final(r->Some_0)) { if i < v.len() { Some(&mut v[i]) } else { None } }
pub fn slice_last_mut<T>(v: &mut [T]) -> (r: Option<&mut T>)
    ensures old(v)@.len() == 0 ==> r is None && final(v)@ == old(v)@,
        old(v)@.len() > 0 ==> r is Some && *r->Some_0 == old(v)@.last() && final(v)@ == old(v)@.update(old(v)@.len() - 1, *final(r->Some_0)) { let n = v.len(); if n > 0 { Some(&mut v[n - 1]) } else { None } }
pub fn slice_first_mut<T>(v: &mut [T]) -> (r: Option<&mut T>)
    ensures old(v)@.len() == 0 ==> r is None && final(v)@ == old(v)@,
        old(v)@.len() > 0 ==> r is Some && *r->Some_0 == old(v)@[0] && final(v)@ == old(v)@.update(0, *final(r->Some_0)) { if v.len() > 0 { Some(&mut v[0]) } else { None } }
pub fn slice_reverse<T>(v: &mut [T]) ensures final(v)@ == old(v)@.reverse() {
    let ghost s = v@; let n = v.len(); let mut i: usize = 0;
    while i < n / 2
        invariant v@.len() == n, s.len() == n, i <= n / 2, forall|k: int| 0 <= k < i || n - i <= k < n ==> #[trigger] v@[k] == s[n - 1 - k], forall|k: int| i <= k < n - i ==> #[trigger] v@[k] == s[k],
        decreases n - i
    { slice_swap(v, i, n - 1 - i); i = i + 1; }
    proof { assert(v@ =~= s.reverse()); }
}
pub fn slice_fill<T>(v: &mut [T], x: T) ensures final(v)@.len() == old(v)@.len(), forall|i: int| 0 <= i < final(v)@.len() ==> #[trigger] final(v)@[i] == x {
    let mut i: usize = 0;
    while i < v.len() invariant i <= v@.len(), v@.len() == old(v)@.len(), forall|k: int| 0 <= k < i ==> #[trigger] v@[k] == x decreases v@.len() - i { v[i] = val_clone(&x); i = i + 1; }
}
pub fn slice_split_at<T>(v: &[T], m: usize) -> (r: (&[T], &[T])) requires m <= v@.len(), ensures r.0@ == v@.subrange(0, m as int), r.1@ == v@.subrange(m as int, v@.len() as int) { v.split_at(m) }
pub fn slice_contains_usize(v: &[usize], x: &usize) -> (r: bool) ensures r == v@.contains(*x) {
    let mut i: usize = 0;
    while i < v.len() invariant i <= v@.len(), forall|k: int| 0 <= k < i ==> #[trigger] v@[k] != *x decreases v@.len() - i { if v[i] == *x { return true; } i = i + 1; }
    false
}
pub fn slice_contains_u8(v: &[u8], x: &u8) -> (r: bool) ensures r == v@.contains(*x) {
    let mut i: usize = 0;
    while i < v.len() invariant i <= v@.len(), forall|k: int| 0 <= k < i ==> #[trigger] v@[k] != *x decreases v@.len() - i { if v[i] == *x { return true; } i = i + 1; }
    false
}
pub fn vec_swap<T>(v: &mut Vec<T>, i: usize, j: usize)
    requires i < old(v)@.len(), j < old(v)@.len(), ensures final(v)@ == old(v)@.update(i as int, old(v)@[j as int]).update(j as int, old(v)@[i as int]) { slice_swap(v.as_mut_slice(), i, j) }
pub fn vec_reserve<T>(v: &mut Vec<T>, n: usize) ensures final(v)@ == old(v)@ { v.reserve(n) }
pub fn vec_extend_from_slice<T>(v: &mut Vec<T>, w: &[T]) ensures final(v)@ == old(v)@ + w@ {
    let ghost s = v@; let mut i: usize = 0;
    while i < w.len() invariant i <= w@.len(), v@ == s + w@.subrange(0, i as int) decreases w@.len() - i { v.push(val_clone(&w[i])); i = i + 1; proof { assert(v@ =~= s + w@.subrange(0, i as int)); } }
    proof { assert(w@.subrange(0, i as int) =~= w@); }
}
pub fn vec_resize<T>(v: &mut Vec<T>, n: usize, x: T)
    ensures final(v)@.len() == n, forall|i: int| 0 <= i < n && i < old(v)@.len() ==> #[trigger] final(v)@[i] == old(v)@[i], forall|i: int| old(v)@.len() <= i < n ==> #[trigger] final(v)@[i] == x {
    if n <= v.len() { v.truncate(n); return; }
    let ghost s = v@;
    while v.len() < n invariant s.len() <= v@.len() <= n, forall|i: int| 0 <= i < s.len() ==> #[trigger] v@[i] == s[i], forall|i: int| s.len() <= i < v@.len() ==> #[trigger] v@[i] == x decreases n - v@.len()
    { v.push(val_clone(&x)); }
}
pub fn slice_sort_by<T, C: Fn(&T, &T) -> Ordering>(v: &mut [T], c: C, Ghost(g): Ghost<spec_fn(T, T) -> Ordering>)
    requires is_total_preorder(g) || preorder_on(old(v)@, g),
        forall|x: T, y: T| call_requires(c, (&x, &y)),
        forall|x: T, y: T, o: Ordering| #[trigger] call_ensures(c, (&x, &y), o) ==> o == g(x, y),
    ensures final(v)@.to_multiset() == old(v)@.to_multiset(), final(v)@.len() == old(v)@.len(), sorted_on(final(v)@, g)
{
    let ghost s0 = v@; let mut i: usize = 0;
    proof { preorder_vals(s0, g); }
    while i < v.len()
        invariant i <= v@.len(), v@.len() == s0.len(), v@.to_multiset() == s0.to_multiset(), preorder_in(s0, g),
            forall|x: T, y: T| call_requires(c, (&x, &y)),
            forall|x: T, y: T, o: Ordering| #[trigger] call_ensures(c, (&x, &y), o) ==> o == g(x, y),
            forall|a: int, b: int| 0 <= a < b < i ==> g(#[trigger] v@[a], #[trigger] v@[b]) != Ordering::Greater,
        decreases v@.len() - i
    {
        let mut j: usize = i;
        while j > 0
            invariant j <= i < v@.len(), v@.len() == s0.len(), v@.to_multiset() == s0.to_multiset(), preorder_in(s0, g),
                forall|x: T, y: T| call_requires(c, (&x, &y)),
                forall|x: T, y: T, o: Ordering| #[trigger] call_ensures(c, (&x, &y), o) ==> o == g(x, y),
                forall|a: int, b: int| 0 <= a < b <= i && a != j && b != j ==> g(#[trigger] v@[a], #[trigger] v@[b]) != Ordering::Greater,
                forall|b: int| j < b <= i ==> g(v@[j as int], #[trigger] v@[b]) != Ordering::Greater,
            ensures forall|a: int, b: int| 0 <= a < b <= i ==> g(#[trigger] v@[a], #[trigger] v@[b]) != Ordering::Greater,
                v@.len() == s0.len(), v@.to_multiset() == s0.to_multiset(),
            decreases j
        {
            let o = c(&v[j - 1], &v[j]);
            let ghost w = v@;
            proof {
                broadcast use vstd::seq_lib::group_to_multiset_ensures;
                assert forall|a: int| 0 <= a < w.len() implies s0.contains(#[trigger] w[a]) by { assert(w.contains(w[a])); assert(w.to_multiset().count(w[a]) > 0); assert(s0.to_multiset().count(w[a]) > 0); }
            }
            match o {
                Ordering::Greater => {
                    slice_swap(v, j - 1, j);
                    proof {
                        broadcast use vstd::seq_lib::group_to_multiset_ensures;
                        let k = j as int;
                        let u = w.update(k - 1, w[k]);
                        assert(u.to_multiset() =~= w.to_multiset().insert(w[k]).remove(w[k - 1]));
                        assert(u[k] == w[k]);
                        assert(v@.to_multiset() =~= u.to_multiset().insert(w[k - 1]).remove(w[k]));
                        assert(v@.to_multiset() =~= w.to_multiset());
                        assert(g(w[k - 1], w[k]) == ord_rev(g(w[k], w[k - 1])));
                        assert(v@[k - 1] == w[k] && v@[k] == w[k - 1]);
                        assert forall|a: int, b: int| 0 <= a < b <= i && a != k - 1 && b != k - 1 implies g(#[trigger] v@[a], #[trigger] v@[b]) != Ordering::Greater by {
                            if a == k { assert(g(w[k - 1], w[b]) != Ordering::Greater); } else if b == k { assert(g(w[a], w[k - 1]) != Ordering::Greater); } else { assert(v@[a] == w[a] && v@[b] == w[b]); }
                        }
                        assert forall|b: int| k - 1 < b <= i implies g(v@[k - 1], #[trigger] v@[b]) != Ordering::Greater by {
                            if b > k { assert(v@[b] == w[b]); assert(g(w[k], w[b]) != Ordering::Greater); }
                        }
                    }
                    j = j - 1;
                }
                _ => {
                    proof {
                        let k = j as int;
                        assert forall|a: int, b: int| 0 <= a < b <= i implies g(#[trigger] w[a], #[trigger] w[b]) != Ordering::Greater by {
                            if b == k && a < k - 1 { assert(g(w[a], w[k - 1]) != Ordering::Greater); }
                        }
                    }
                    break;
                }
            }
        }
        i = i + 1;
    }
}
pub fn vec_retain<T, G: Fn(&T) -> bool>(v: &mut Vec<T>, g: G, Ghost(p): Ghost<spec_fn(T) -> bool>)
    requires forall|i: int| 0 <= i < old(v)@.len() ==> call_requires(g, (&#[trigger] old(v)@[i],)),
        forall|x: T, b: bool| #[trigger] call_ensures(g, (&x,), b) ==> b == p(x),
    ensures final(v)@ == old(v)@.filter(p)
{
    let mut w: Vec<T> = Vec::new(); core::mem::swap(v, &mut w);
    let mut r = VIter { v: w }.filter(g, Ghost(p)).v;
    core::mem::swap(v, &mut r);
}
pub fn vec_extend<T>(v: &mut Vec<T>, it: VIter<T>) ensures final(v)@ == old(v)@ + it@ { let mut w = it.v; v.append(&mut w); }
pub fn vec_from_elem<T>(x: T, n: usize) -> (r: Vec<T>)
    ensures r@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] r@[i] == x {
    let mut r: Vec<T> = Vec::new(); let mut i: usize = 0;
    while i < n invariant i <= n, r@.len() == i, forall|k: int| 0 <= k < i ==> #[trigger] r@[k] == x decreases n - i
    { r.push(val_clone(&x)); i = i + 1; }
    r
}
pub fn vec_u8_eq(a: &Vec<u8>, b: &Vec<u8>) -> (r: bool) ensures r == (a@ == b@), r == (*a == *b) {
    if a.len() != b.len() { return false; }
    let mut i: usize = 0;
    while i < a.len() invariant a@.len() == b@.len(), i <= a@.len(), forall|k: int| 0 <= k < i ==> a@[k] == b@[k] decreases a@.len() - i
    { if a[i] != b[i] { return false; } i = i + 1; }
    proof { assert(a@ =~= b@); vec_ext(*a, *b); }
    true
}

// ---- HashSet<usize>
pub struct VSet { v: Vec<usize> }
impl View for VSet { type V = Set<usize>; closed spec fn view(&self) -> Set<usize> { self.v@.to_set() } }
impl VSet { #[verifier::type_invariant] closed spec fn inv(self) -> bool { self.v@.no_duplicates() } }
pub fn vset_contains(s: &VSet, x: &usize) -> (r: bool) ensures r == s@.contains(*x)
{
    let mut i: usize = 0;
    while i < s.v.len() invariant i <= s.v@.len(), forall|k: int| 0 <= k < i ==> s.v@[k] != *x decreases s.v@.len() - i
    { if s.v[i] == *x { proof { assert(s.v@[i as int] == *x); } return true; } i = i + 1; }
    false
}
pub fn vset_into_iter(s: VSet) -> (r: VIter<usize>)
    ensures r@.no_duplicates(), r@.to_set() == s@
{
    proof { use_type_invariant(&s); }
    VIter { v: s.v }
}

// ---- iterators: the finite sequence of items still to come
pub struct VIter<T> { v: Vec<T> }
impl<T> View for VIter<T> { type V = Seq<T>; closed spec fn view(&self) -> Seq<T> { self.v@ } }
pub open spec fn seq_filter_map<T, U>(s: Seq<T>, g: spec_fn(T) -> Option<U>) -> Seq<U> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else {
        let r = seq_filter_map(s.drop_last(), g);
        match g(s.last()) { Some(x) => r.push(x), None => r }
    }
}
pub open spec fn pick_of<T>(s: Seq<T>, c: Seq<int>) -> Seq<T> { Seq::new(c.len(), |i: int| s[c[i]]) }
pub open spec fn choice_of(c: Seq<int>, n: int, k: int) -> bool {
    &&& c.len() == k
    &&& forall|i: int| 0 <= i < k ==> 0 <= #[trigger] c[i] < n
    &&& forall|i: int, j: int| 0 <= i < j < k ==> #[trigger] c[i] < #[trigger] c[j]
}
pub open spec fn chosen_of(c: Seq<int>, n: int, k: int) -> bool { choice_of(c, n, k) }
pub open spec fn seq_flat<T>(s: Seq<VIter<T>>) -> Seq<T> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { seq_flat(s.drop_last()) + s.last()@ }
}
pub open spec fn seq_sum_nat<T>(s: Seq<T>, g: spec_fn(T) -> int) -> int decreases s.len() {
    if s.len() == 0 { 0 } else { seq_sum_nat(s.drop_last(), g) + g(s.last()) }
}
pub proof fn filter_step<T>(s: Seq<T>, i: int, p: spec_fn(T) -> bool) requires 0 <= i < s.len(),
    ensures s.take(i + 1).filter(p) == (if p(s[i]) { s.take(i).filter(p).push(s[i]) } else { s.take(i).filter(p) })
{ reveal(Seq::filter); assert(s.take(i + 1).drop_last() =~= s.take(i)); }
// the order laws, for values instead of positions
pub open spec fn preorder_in<T>(s: Seq<T>, g: spec_fn(T, T) -> Ordering) -> bool {
    &&& forall|x: T, y: T| s.contains(x) && s.contains(y) ==> #[trigger] g(x, y) == ord_rev(g(y, x))
    &&& forall|x: T, y: T, z: T| s.contains(x) && s.contains(y) && s.contains(z) && #[trigger] g(x, y) != Ordering::Greater && #[trigger] g(y, z) != Ordering::Greater ==> g(x, z) != Ordering::Greater
}
pub proof fn preorder_vals<T>(s: Seq<T>, g: spec_fn(T, T) -> Ordering) requires is_total_preorder(g) || preorder_on(s, g), ensures preorder_in(s, g)
{
    assert forall|x: T, y: T| s.contains(x) && s.contains(y) implies #[trigger] g(x, y) == ord_rev(g(y, x)) by {
        let i = choose|i: int| 0 <= i < s.len() && s[i] == x; let j = choose|j: int| 0 <= j < s.len() && s[j] == y; assert(g(s[i], s[j]) == ord_rev(g(s[j], s[i])));
    }
    assert forall|x: T, y: T, z: T| s.contains(x) && s.contains(y) && s.contains(z) && #[trigger] g(x, y) != Ordering::Greater && #[trigger] g(y, z) != Ordering::Greater implies g(x, z) != Ordering::Greater by {
        let i = choose|i: int| 0 <= i < s.len() && s[i] == x; let j = choose|j: int| 0 <= j < s.len() && s[j] == y; let k = choose|k: int| 0 <= k < s.len() && s[k] == z;
        assert(g(s[i], s[j]) != Ordering::Greater && g(s[j], s[k]) != Ordering::Greater);
    }
}
pub open spec fn comb_has<T>(r: Seq<Vec<T>>, s: Seq<T>, c: Seq<int>) -> bool { exists|i: int| 0 <= i < r.len() && (#[trigger] r[i])@ == pick_of(s, c) }
pub open spec fn comb_is<T>(v: Seq<T>, s: Seq<T>, m: int, k: int) -> bool { exists|c: Seq<int>| choice_of(c, m, k) && v == #[trigger] pick_of(s, c) }
pub open spec fn is_combos<T>(r: Seq<Vec<T>>, s: Seq<T>, k: int) -> bool {
    &&& forall|i: int| 0 <= i < r.len() ==> comb_is((#[trigger] r[i])@, s, s.len() as int, k)
    &&& forall|c: Seq<int>| #[trigger] chosen_of(c, s.len() as int, k) ==> exists|i: int| 0 <= i < r.len() && (#[trigger] r[i])@ == pick_of(s, c)
}
pub fn vec_choices<T>(v: &Vec<T>, m: usize, k: usize) -> (r: Vec<Vec<T>>)
    requires m <= v@.len(),
    ensures forall|i: int| 0 <= i < r@.len() ==> comb_is((#[trigger] r@[i])@, v@, m as int, k as int),
        forall|c: Seq<int>| choice_of(c, m as int, k as int) ==> #[trigger] comb_has(r@, v@, c),
    decreases m
{
    if k == 0 {
        let mut r: Vec<Vec<T>> = Vec::new(); let e: Vec<T> = Vec::new();
        r.push(e);
        proof {
            let c = Seq::<int>::empty(); assert(choice_of(c, m as int, 0)); assert(pick_of(v@, c) =~= e@); assert(comb_is(r@[0]@, v@, m as int, 0));
            assert forall|c: Seq<int>| choice_of(c, m as int, 0) implies #[trigger] comb_has(r@, v@, c) by { assert(pick_of(v@, c) =~= e@); assert(r@[0]@ == pick_of(v@, c)); }
        }
        return r;
    }
    if m == 0 {
        proof { assert forall|c: Seq<int>| choice_of(c, 0, k as int) implies #[trigger] comb_has(Seq::<Vec<T>>::empty(), v@, c) by { assert(choice_of(c, 0, k as int)); assert(c.len() == k); let z = c[0]; assert(z >= 0); assert(z < 0); } }
        return Vec::new();
    }
    let mut r = vec_choices(v, m - 1, k);
    let w = vec_choices(v, m - 1, k - 1);
    let ghost r0 = r@; let mut i: usize = 0;
    proof {
        assert forall|i: int| 0 <= i < r0.len() implies comb_is((#[trigger] r0[i])@, v@, m as int, k as int) by {
            let c = choose|c: Seq<int>| choice_of(c, m - 1, k as int) && r0[i]@ == #[trigger] pick_of(v@, c); assert(choice_of(c, m as int, k as int));
        }
    }
    while i < w.len()
        invariant i <= w@.len(), 0 < m <= v@.len(), k > 0, r@.len() == r0.len() + i,
            forall|j: int| 0 <= j < r0.len() ==> r@[j] == r0[j],
            forall|j: int| 0 <= j < w@.len() ==> comb_is((#[trigger] w@[j])@, v@, m - 1, k - 1),
            forall|j: int| 0 <= j < i ==> (#[trigger] r@[r0.len() + j])@ == w@[j]@.push(v@[m - 1]),
            forall|j: int| 0 <= j < r@.len() ==> comb_is((#[trigger] r@[j])@, v@, m as int, k as int),
        decreases w@.len() - i
    {
        let mut x = vec_clone(&w[i]);
        x.push(val_clone(&v[m - 1]));
        proof {
            let c = choose|c: Seq<int>| choice_of(c, m - 1, k - 1) && w@[i as int]@ == #[trigger] pick_of(v@, c);
            let d = c.push(m - 1); assert(choice_of(d, m as int, k as int)); assert(pick_of(v@, d) =~= x@); assert(comb_is(x@, v@, m as int, k as int));
        }
        r.push(x);
        i = i + 1;
    }
    proof {
        assert forall|c: Seq<int>| choice_of(c, m as int, k as int) implies #[trigger] comb_has(r@, v@, c) by {
            if c.last() == m - 1 {
                let d = c.drop_last(); assert(choice_of(d, m - 1, k - 1)); assert(comb_has(w@, v@, d));
                let j = choose|j: int| 0 <= j < w@.len() && (#[trigger] w@[j])@ == pick_of(v@, d);
                assert(r@[r0.len() + j]@ == w@[j]@.push(v@[m - 1])); assert(pick_of(v@, c) =~= w@[j]@.push(v@[m - 1]));
            } else {
                assert forall|j: int| 0 <= j < k implies 0 <= #[trigger] c[j] < m - 1 by { if j < k - 1 { assert(c[j] < c[k - 1]); } }
                assert(choice_of(c, m - 1, k as int)); assert(comb_has(r0, v@, c));
                let j = choose|j: int| 0 <= j < r0.len() && (#[trigger] r0[j])@ == pick_of(v@, c); assert(r@[j] == r0[j]);
            }
        }
    }
    r
}
impl<T> VIter<T> {
    pub fn has_next(&self) -> (r: bool) ensures r == (self@.len() > 0)
    {
        self.v.len() > 0
    }
    pub fn next_item(&mut self) -> (r: T)
        requires old(self)@.len() > 0, ensures r == old(self)@[0], final(self)@ == old(self)@.skip(1)
    {
        let x = self.v.remove(0);
        proof { assert(self.v@ =~= old(self).v@.skip(1)); }
        x
    }
    pub fn map<U, G: Fn(T) -> U>(self, g: G) -> (r: VIter<U>)
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(g, (#[trigger] self@[i],)),
        ensures r@.len() == self@.len(), forall|i: int| #![trigger r@[i]] #![trigger self@[i]] 0 <= i < r@.len() ==> call_ensures(g, (self@[i],), r@[i])
    {
        let mut s = self; let ghost s0 = self@; let mut r: Vec<U> = Vec::new();
        while s.v.len() > 0
            invariant r@.len() + s.v@.len() == s0.len(), forall|k: int| 0 <= k < s.v@.len() ==> #[trigger] s.v@[k] == s0[r@.len() + k],
                forall|i: int| 0 <= i < s0.len() ==> call_requires(g, (#[trigger] s0[i],)),
                forall|k: int| 0 <= k < r@.len() ==> call_ensures(g, (s0[k],), #[trigger] r@[k]),
            decreases s.v@.len()
        {
            assert(s.v@[0] == s0[r@.len() as int]);
            let x = s.v.remove(0);
            r.push(g(x));
        }
        VIter { v: r }
    }
    pub fn filter<G: Fn(&T) -> bool>(self, g: G, Ghost(p): Ghost<spec_fn(T) -> bool>) -> (r: VIter<T>)
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(g, (&#[trigger] self@[i],)),
            forall|x: T, b: bool| #[trigger] call_ensures(g, (&x,), b) ==> b == p(x),
        ensures r@ == self@.filter(p)
    {
        let mut s = self; let ghost s0 = self@; let mut r: Vec<T> = Vec::new(); let mut i: usize = 0;
        proof { ax_vec_len(self.v); }
        while s.v.len() > 0
            invariant s0 == self@, s0.len() <= usize::MAX, i + s.v@.len() == s0.len(), forall|k: int| 0 <= k < s.v@.len() ==> #[trigger] s.v@[k] == s0[i + k],
                forall|i: int| 0 <= i < s0.len() ==> call_requires(g, (&#[trigger] s0[i],)),
                forall|x: T, b: bool| #[trigger] call_ensures(g, (&x,), b) ==> b == p(x),
                r@ == s0.take(i as int).filter(p),
            decreases s.v@.len()
        {
            proof { assert(s.v@[0] == s0[i as int]); }
            let x = s.v.remove(0);
            proof { filter_step(s0, i as int, p); }
            if g(&x) { r.push(x); }
            i = i + 1;
        }
        proof { assert(s0.take(i as int) =~= s0); }
        VIter { v: r }
    }
    pub fn filter_map<U, G: Fn(T) -> Option<U>>(self, g: G, Ghost(p): Ghost<spec_fn(T) -> Option<U>>) -> (r: VIter<U>)
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(g, (#[trigger] self@[i],)),
            forall|x: T, b: Option<U>| #[trigger] call_ensures(g, (x,), b) ==> b == p(x),
        ensures r@ == seq_filter_map(self@, p)
    {
        let mut s = self; let ghost s0 = self@; let mut r: Vec<U> = Vec::new(); let mut i: usize = 0;
        proof { ax_vec_len(self.v); }
        while s.v.len() > 0
            invariant s0 == self@, s0.len() <= usize::MAX, i + s.v@.len() == s0.len(), forall|k: int| 0 <= k < s.v@.len() ==> #[trigger] s.v@[k] == s0[i + k],
                forall|i: int| 0 <= i < s0.len() ==> call_requires(g, (#[trigger] s0[i],)),
                forall|x: T, b: Option<U>| #[trigger] call_ensures(g, (x,), b) ==> b == p(x),
                r@ == seq_filter_map(s0.take(i as int), p),
            decreases s.v@.len()
        {
            proof { assert(s.v@[0] == s0[i as int]); }
            let x = s.v.remove(0);
            proof { assert(s0.take(i + 1).drop_last() =~= s0.take(i as int)); }
            match g(x) { Some(y) => { r.push(y); } None => {} }
            i = i + 1;
        }
        proof { assert(s0.take(i as int) =~= s0); }
        VIter { v: r }
    }
    pub fn find<G: Fn(&T) -> bool>(self, g: G, Ghost(p): Ghost<spec_fn(T) -> bool>) -> (r: Option<T>)
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(g, (&#[trigger] self@[i],)),
            forall|x: T, b: bool| #[trigger] call_ensures(g, (&x,), b) ==> b == p(x),
        ensures match r {
            Some(x) => exists|i: int| 0 <= i < self@.len() && x == #[trigger] self@[i] && p(x) && forall|j: int| 0 <= j < i ==> !p(#[trigger] self@[j]),
            None => forall|j: int| 0 <= j < self@.len() ==> !p(#[trigger] self@[j]) }
    {
        let mut s = self; let ghost s0 = self@;  let mut i: usize = 0;
        proof { ax_vec_len(self.v); }
        while s.v.len() > 0
            invariant s0 == self@, s0.len() <= usize::MAX, i + s.v@.len() == s0.len(), forall|k: int| 0 <= k < s.v@.len() ==> #[trigger] s.v@[k] == s0[i + k],
                forall|i: int| 0 <= i < s0.len() ==> call_requires(g, (&#[trigger] s0[i],)),
                forall|x: T, b: bool| #[trigger] call_ensures(g, (&x,), b) ==> b == p(x),
                forall|j: int| 0 <= j < i ==> !p(#[trigger] s0[j]),
            decreases s.v@.len()
        {
            proof { assert(s.v@[0] == s0[i as int]); }
            let x = s.v.remove(0);
            if g(&x) { return Some(x); }
            i = i + 1;
        }
        None
    }
    // all choices of k positions, in increasing order of position
    pub fn combinations(self, k: usize) -> (r: VIter<Vec<T>>)
        ensures is_combos(r@, self@, k as int)
    {
        let ghost s0 = self@;
        let r = vec_choices(&self.v, self.v.len(), k);
        proof {
            assert forall|c: Seq<int>| #[trigger] chosen_of(c, s0.len() as int, k as int) implies exists|i: int| 0 <= i < r@.len() && (#[trigger] r@[i])@ == pick_of(s0, c) by {
                assert(choice_of(c, s0.len() as int, k as int)); assert(comb_has(r@, s0, c));
            }
        }
        let z = VIter { v: r };
        proof { assert(z@ == r@); }
        z
    }
    pub fn position<G: Fn(T) -> bool>(self, g: G) -> (r: Option<usize>)
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(g, (#[trigger] self@[i],)),
        ensures
            r is Some ==> r->Some_0 < self@.len() && call_ensures(g, (self@[r->Some_0 as int],), true)
                && forall|i: int| 0 <= i < r->Some_0 ==> call_ensures(g, (#[trigger] self@[i],), false),
            r is None ==> forall|i: int| 0 <= i < self@.len() ==> call_ensures(g, (#[trigger] self@[i],), false)
    {
        let mut s = self; let ghost s0 = self@;  let mut i: usize = 0;
        proof { ax_vec_len(self.v); }
        while s.v.len() > 0
            invariant s0 == self@, s0.len() <= usize::MAX, i + s.v@.len() == s0.len(), forall|k: int| 0 <= k < s.v@.len() ==> #[trigger] s.v@[k] == s0[i + k],
                forall|i: int| 0 <= i < s0.len() ==> call_requires(g, (#[trigger] s0[i],)),
                forall|j: int| 0 <= j < i ==> call_ensures(g, (#[trigger] s0[j],), false),
            decreases s.v@.len()
        {
            proof { assert(s.v@[0] == s0[i as int]); }
            let x = s.v.remove(0);
            if g(x) { return Some(i); }
            i = i + 1;
        }
        None
    }
    pub fn rposition<G: Fn(T) -> bool>(self, g: G) -> (r: Option<usize>)
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(g, (#[trigger] self@[i],)),
        ensures
            r is Some ==> r->Some_0 < self@.len() && call_ensures(g, (self@[r->Some_0 as int],), true)
                && forall|i: int| r->Some_0 < i < self@.len() ==> call_ensures(g, (#[trigger] self@[i],), false),
            r is None ==> forall|i: int| 0 <= i < self@.len() ==> call_ensures(g, (#[trigger] self@[i],), false)
    {
        let mut s = self; let ghost s0 = self@;
        while s.v.len() > 0
            invariant s0 == self@, s.v@.len() <= s0.len(), forall|k: int| 0 <= k < s.v@.len() ==> #[trigger] s.v@[k] == s0[k],
                forall|i: int| 0 <= i < s0.len() ==> call_requires(g, (#[trigger] s0[i],)),
                forall|j: int| s.v@.len() <= j < s0.len() ==> call_ensures(g, (#[trigger] s0[j],), false),
            decreases s.v@.len()
        {
            let i = s.v.len() - 1;
            let x = s.v.remove(i);
            if g(x) { return Some(i); }
        }
        None
    }
    pub fn any<G: Fn(T) -> bool>(self, g: G) -> (r: bool)
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(g, (#[trigger] self@[i],)),
        ensures r ==> exists|i: int| 0 <= i < self@.len() && call_ensures(g, (#[trigger] self@[i],), true),
            !r ==> forall|i: int| 0 <= i < self@.len() ==> call_ensures(g, (#[trigger] self@[i],), false)
    {
        let mut s = self; let ghost s0 = self@;  let mut i: usize = 0;
        proof { ax_vec_len(self.v); }
        while s.v.len() > 0
            invariant s0 == self@, s0.len() <= usize::MAX, i + s.v@.len() == s0.len(), forall|k: int| 0 <= k < s.v@.len() ==> #[trigger] s.v@[k] == s0[i + k],
                forall|i: int| 0 <= i < s0.len() ==> call_requires(g, (#[trigger] s0[i],)),
                forall|j: int| 0 <= j < i ==> call_ensures(g, (#[trigger] s0[j],), false),
            decreases s.v@.len()
        {
            proof { assert(s.v@[0] == s0[i as int]); }
            let x = s.v.remove(0);
            if g(x) { return true; }
            i = i + 1;
        }
        false
    }
    pub fn all<G: Fn(T) -> bool>(self, g: G) -> (r: bool)
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(g, (#[trigger] self@[i],)),
        ensures !r ==> exists|i: int| 0 <= i < self@.len() && call_ensures(g, (#[trigger] self@[i],), false),
            r ==> forall|i: int| 0 <= i < self@.len() ==> call_ensures(g, (#[trigger] self@[i],), true)
    {
        let mut s = self; let ghost s0 = self@;  let mut i: usize = 0;
        proof { ax_vec_len(self.v); }
        while s.v.len() > 0
            invariant s0 == self@, s0.len() <= usize::MAX, i + s.v@.len() == s0.len(), forall|k: int| 0 <= k < s.v@.len() ==> #[trigger] s.v@[k] == s0[i + k],
                forall|i: int| 0 <= i < s0.len() ==> call_requires(g, (#[trigger] s0[i],)),
                forall|j: int| 0 <= j < i ==> call_ensures(g, (#[trigger] s0[j],), true),
            decreases s.v@.len()
        {
            proof { assert(s.v@[0] == s0[i as int]); }
            let x = s.v.remove(0);
            if !g(x) { return false; }
            i = i + 1;
        }
        true
    }
    pub fn zip<U>(self, o: VIter<U>) -> (r: VIter<(T, U)>)
        ensures r@.len() == (if self@.len() <= o@.len() { self@.len() } else { o@.len() }),
            forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == (self@[i], o@[i])
    {
        let mut s = self; let mut t = o; let ghost s0 = self@; let ghost t0 = o@; let mut r: Vec<(T, U)> = Vec::new();
        while s.v.len() > 0 && t.v.len() > 0
            invariant r@.len() + s.v@.len() == s0.len(), r@.len() + t.v@.len() == t0.len(),
                forall|k: int| 0 <= k < s.v@.len() ==> #[trigger] s.v@[k] == s0[r@.len() + k],
                forall|k: int| 0 <= k < t.v@.len() ==> #[trigger] t.v@[k] == t0[r@.len() + k],
                forall|k: int| 0 <= k < r@.len() ==> #[trigger] r@[k] == (s0[k], t0[k]),
            decreases s.v@.len()
        {
            assert(s.v@[0] == s0[r@.len() as int] && t.v@[0] == t0[r@.len() as int]);
            let x = s.v.remove(0); let y = t.v.remove(0);
            r.push((x, y));
        }
        VIter { v: r }
    }
    pub fn chain(self, o: VIter<T>) -> (r: VIter<T>) ensures r@ == self@ + o@
    {
        let mut s = self; let mut t = o;
        s.v.append(&mut t.v);
        s
    }
    pub fn enumerate(self) -> (r: VIter<(usize, T)>)
        ensures r@.len() == self@.len(), forall|i: int| #![trigger r@[i]] #![trigger self@[i]] 0 <= i < r@.len() ==> r@[i].0 == i && r@[i].1 == self@[i]
    {
        proof { ax_vec_len(self.v); }
        let mut s = self; let ghost s0 = self@; let mut r: Vec<(usize, T)> = Vec::new();
        while s.v.len() > 0
            invariant s0.len() <= usize::MAX, r@.len() + s.v@.len() == s0.len(), forall|k: int| 0 <= k < s.v@.len() ==> #[trigger] s.v@[k] == s0[r@.len() + k],
                forall|k: int| 0 <= k < r@.len() ==> (#[trigger] r@[k]).0 == k && r@[k].1 == s0[k],
            decreases s.v@.len()
        {
            assert(s.v@[0] == s0[r@.len() as int]);
            let x = s.v.remove(0);
            let i = r.len();
            r.push((i, x));
        }
        VIter { v: r }
    }
    pub fn rev(self) -> (r: VIter<T>)
        ensures r@.len() == self@.len(), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == self@[self@.len() - 1 - i]
    {
        let mut s = self; let ghost s0 = self@; let mut r: Vec<T> = Vec::new();
        while s.v.len() > 0
            invariant r@.len() + s.v@.len() == s0.len(), forall|k: int| 0 <= k < s.v@.len() ==> #[trigger] s.v@[k] == s0[k],
                forall|k: int| 0 <= k < r@.len() ==> #[trigger] r@[k] == s0[s0.len() - 1 - k],
            decreases s.v@.len()
        {
            let i = s.v.len() - 1;
            let x = s.v.remove(i);
            r.push(x);
        }
        VIter { v: r }
    }
    pub fn skip(self, n: usize) -> (r: VIter<T>)
        ensures r@ == (if n <= self@.len() { self@.skip(n as int) } else { Seq::empty() }),
            forall|i: int| #![trigger self@[i]] n <= i < self@.len() ==> r@[i - n] == self@[i]
    {
        let mut s = self; let ghost s0 = self@; let mut i: usize = 0;
        while i < n && s.v.len() > 0
            invariant i <= n, i <= s0.len(), s.v@ == s0.skip(i as int), s.v@.len() > 0 || i <= s0.len(),
            decreases s.v@.len()
        {
            let _x = s.v.remove(0); i = i + 1;
            proof { assert(s.v@ =~= s0.skip(i as int)); }
        }
        proof { if n as int > s0.len() { assert(s.v@ =~= Seq::empty()); } }
        s
    }
    pub fn take(self, n: usize) -> (r: VIter<T>)
        ensures r@ == (if n <= self@.len() { self@.take(n as int) } else { self@ })
    {
        let mut s = self;
        s.v.truncate(n);
        proof { assert(n <= self.v@.len() ==> s.v@ =~= self.v@.take(n as int)); }
        s
    }
    pub fn count(self) -> (r: usize) ensures r == self@.len()
    {
        self.v.len()
    }
    pub fn last(self) -> (r: Option<T>)
        ensures self@.len() == 0 ==> r is None, self@.len() > 0 ==> r == Some(self@.last())
    {
        let mut s = self;
        s.v.pop()
    }
    pub fn collect_vec(self) -> (r: Vec<T>) ensures r@ == self@
    {
        self.v
    }
    pub fn cartesian_product<U>(self, o: VIter<U>) -> (r: VIter<(T, U)>)
        ensures r@ == cart(self@, o@), r@.len() == self@.len() * o@.len(),
            forall|k: int| 0 <= k < r@.len() ==> #[trigger] r@[k] == (self@[k / (o@.len() as int)], o@[k % (o@.len() as int)])
    {
        let ghost a = self@; let ghost b = o@;
        let mut r: Vec<(T, U)> = Vec::new(); let mut i: usize = 0;
        while i < self.v.len()
            invariant a == self.v@, b == o.v@, i <= a.len(), r@.len() == i * b.len(), forall|k: int| 0 <= k < r@.len() ==> #[trigger] r@[k] == (a[k / (b.len() as int)], b[k % (b.len() as int)]),
            decreases a.len() - i
        {
            let mut j: usize = 0;
            while j < o.v.len()
                invariant a == self.v@, b == o.v@, i < a.len(), j <= b.len(), r@.len() == i * b.len() + j, forall|k: int| 0 <= k < r@.len() ==> #[trigger] r@[k] == (a[k / (b.len() as int)], b[k % (b.len() as int)]),
                decreases b.len() - j
            {
                proof {
                    let n = b.len() as int; let k = i * n + j;
                    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(k, n, i as int, j as int);
                }
                r.push((val_clone(&self.v[i]), val_clone(&o.v[j])));
                j = j + 1;
            }
            assert((i + 1) * b.len() == i * b.len() + b.len()) by(nonlinear_arith);
            i = i + 1;
        }
        proof { assert(r@ =~= cart(a, b)); }
        VIter { v: r }
    }
    pub fn zip_longest<U>(self, o: VIter<U>) -> (r: VIter<EitherOrBoth<T, U>>)
        ensures r@.len() == (if self@.len() >= o@.len() { self@.len() } else { o@.len() }),
            forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == (
                if i < self@.len() && i < o@.len() { EitherOrBoth::Both(self@[i], o@[i]) }
                else if i < self@.len() { EitherOrBoth::Left(self@[i]) } else { EitherOrBoth::Right(o@[i]) })
    {
        let mut s = self; let mut t = o; let ghost s0 = self@; let ghost t0 = o@; let mut r: Vec<EitherOrBoth<T, U>> = Vec::new();
        let ghost n: int = if s0.len() >= t0.len() { s0.len() as int } else { t0.len() as int };
        while s.v.len() > 0 || t.v.len() > 0
            invariant n == (if s0.len() >= t0.len() { s0.len() as int } else { t0.len() as int }), r@.len() <= n,
                s.v@.len() == (if r@.len() <= s0.len() { s0.len() - r@.len() } else { 0 }), t.v@.len() == (if r@.len() <= t0.len() { t0.len() - r@.len() } else { 0 }),
                forall|k: int| 0 <= k < s.v@.len() ==> #[trigger] s.v@[k] == s0[r@.len() + k],
                forall|k: int| 0 <= k < t.v@.len() ==> #[trigger] t.v@[k] == t0[r@.len() + k],
                forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == (
                    if i < s0.len() && i < t0.len() { EitherOrBoth::Both(s0[i], t0[i]) }
                    else if i < s0.len() { EitherOrBoth::Left(s0[i]) } else { EitherOrBoth::Right(t0[i]) }),
            decreases n - r@.len()
        {
            assert(s.v@.len() > 0 ==> s.v@[0] == s0[r@.len() as int]); assert(t.v@.len() > 0 ==> t.v@[0] == t0[r@.len() as int]);
            if s.v.len() > 0 {
                let x = s.v.remove(0);
                if t.v.len() > 0 { let y = t.v.remove(0); r.push(EitherOrBoth::Both(x, y)); } else { r.push(EitherOrBoth::Left(x)); }
            } else { let y = t.v.remove(0); r.push(EitherOrBoth::Right(y)); }
        }
        VIter { v: r }
    }
    pub fn fold<B, G: Fn(B, T) -> B>(self, init: B, g: G, Ghost(inv): Ghost<spec_fn(int, B) -> bool>) -> (r: B)
        requires inv(0, init),
            forall|i: int, a: B| 0 <= i < self@.len() && #[trigger] inv(i, a) ==> call_requires(g, (a, self@[i])),
            forall|i: int, a: B, b: B| 0 <= i < self@.len() && inv(i, a) && #[trigger] call_ensures(g, (a, self@[i]), b) ==> inv(i + 1, b),
        ensures inv(self@.len() as int, r)
    {
        let mut s = self; let ghost s0 = self@; let mut acc = init; let mut i: usize = 0;
        proof { ax_vec_len(self.v); }
        while s.v.len() > 0
            invariant s0 == self@, s0.len() <= usize::MAX, i + s.v@.len() == s0.len(), forall|k: int| 0 <= k < s.v@.len() ==> #[trigger] s.v@[k] == s0[i + k],
                inv(i as int, acc),
                forall|i: int, a: B| 0 <= i < s0.len() && #[trigger] inv(i, a) ==> call_requires(g, (a, s0[i])),
                forall|i: int, a: B, b: B| 0 <= i < s0.len() && inv(i, a) && #[trigger] call_ensures(g, (a, s0[i]), b) ==> inv(i + 1, b),
            decreases s.v@.len()
        {
            proof { assert(s.v@[0] == s0[i as int]); }
            let x = s.v.remove(0);
            acc = g(acc, x);
            i = i + 1;
        }
        acc
    }
    pub fn reduce<G: Fn(T, T) -> T>(self, g: G, Ghost(inv): Ghost<spec_fn(int, T) -> bool>) -> (r: Option<T>)
        requires self@.len() > 0 ==> inv(1, self@[0]),
            forall|i: int, a: T| 1 <= i < self@.len() && #[trigger] inv(i, a) ==> call_requires(g, (a, self@[i])),
            forall|i: int, a: T, b: T| 1 <= i < self@.len() && inv(i, a) && #[trigger] call_ensures(g, (a, self@[i]), b) ==> inv(i + 1, b),
        ensures self@.len() == 0 ==> r is None, self@.len() > 0 ==> r is Some && inv(self@.len() as int, r->Some_0)
    {
        let mut s = self; let ghost s0 = self@;
        if s.v.len() == 0 { return None; }
        proof { ax_vec_len(self.v); }
        let mut acc = s.v.remove(0); let mut i: usize = 1;
        while s.v.len() > 0
            invariant s0 == self@, s0.len() <= usize::MAX, 1 <= i, i + s.v@.len() == s0.len(), forall|k: int| 0 <= k < s.v@.len() ==> #[trigger] s.v@[k] == s0[i + k],
                inv(i as int, acc),
                forall|i: int, a: T| 1 <= i < s0.len() && #[trigger] inv(i, a) ==> call_requires(g, (a, s0[i])),
                forall|i: int, a: T, b: T| 1 <= i < s0.len() && inv(i, a) && #[trigger] call_ensures(g, (a, s0[i]), b) ==> inv(i + 1, b),
            decreases s.v@.len()
        {
            proof { assert(s.v@[0] == s0[i as int]); }
            let x = s.v.remove(0);
            acc = g(acc, x);
            i = i + 1;
        }
        Some(acc)
    }
    // the last of the maximal elements, as Iterator::max_by returns
    pub fn max_by<C: Fn(&T, &T) -> Ordering>(self, c: C, Ghost(g): Ghost<spec_fn(T, T) -> Ordering>) -> (r: Option<T>)
        requires
            is_total_preorder(g) || preorder_on(self@, g),
            forall|i: int, j: int| 0 <= i < self@.len() && 0 <= j < self@.len() ==> call_requires(c, (&#[trigger] self@[i], &#[trigger] self@[j])),
            forall|x: T, y: T, o: Ordering| #[trigger] call_ensures(c, (&x, &y), o) ==> o == g(x, y),
        ensures self@.len() == 0 ==> r is None,
            self@.len() > 0 ==> r is Some && exists|k: int| #[trigger] max_at(self@, g, k) && r->Some_0 == self@[k]
    {
        let mut s = self; let ghost s0 = self@;
        if s.v.len() == 0 { return None; }
        proof { ax_vec_len(self.v); }
        let ghost mut k: int = 0;
        proof { if s0.len() > 0 { assert(g(s0[0], s0[0]) == ord_rev(g(s0[0], s0[0]))); } }
        let mut best = s.v.remove(0); let mut i: usize = 1;
        while s.v.len() > 0
            invariant s0 == self@, s0.len() <= usize::MAX, 1 <= i, i + s.v@.len() == s0.len(), forall|k: int| 0 <= k < s.v@.len() ==> #[trigger] s.v@[k] == s0[i + k],
                0 <= k < i, best == s0[k], forall|j: int| 0 <= j < i ==> g(#[trigger] s0[j], s0[k]) != Ordering::Greater, forall|j: int| k < j < i ==> g(#[trigger] s0[j], s0[k]) == Ordering::Less,
                is_total_preorder(g) || preorder_on(s0, g),
                forall|i: int, j: int| 0 <= i < s0.len() && 0 <= j < s0.len() ==> call_requires(c, (&#[trigger] s0[i], &#[trigger] s0[j])),
                forall|x: T, y: T, o: Ordering| #[trigger] call_ensures(c, (&x, &y), o) ==> o == g(x, y),
            decreases s.v@.len()
        {
            proof { assert(s.v@[0] == s0[i as int]); assert(call_requires(c, (&s0[k], &s0[i as int]))); }
            let x = s.v.remove(0);
            let o = c(&best, &x);
            proof {
                assert(g(s0[k], s0[i as int]) == ord_rev(g(s0[i as int], s0[k])));
                assert(g(s0[i as int], s0[i as int]) == ord_rev(g(s0[i as int], s0[i as int])));
                if o != Ordering::Greater {
                    assert forall|j: int| 0 <= j < i implies g(#[trigger] s0[j], s0[i as int]) != Ordering::Greater by {
                        assert(g(s0[j], s0[k]) != Ordering::Greater && g(s0[k], s0[i as int]) != Ordering::Greater);
                    }
                    k = i as int;
                }
            }
            match o { Ordering::Greater => {} _ => { best = x; } }
            i = i + 1;
        }
        proof { assert(max_at(s0, g, k)); }
        Some(best)
    }
    pub fn min_by<C: Fn(&T, &T) -> Ordering>(self, c: C, Ghost(g): Ghost<spec_fn(T, T) -> Ordering>) -> (r: Option<T>)
        requires
            is_total_preorder(g) || preorder_on(self@, g),
            forall|i: int, j: int| 0 <= i < self@.len() && 0 <= j < self@.len() ==> call_requires(c, (&#[trigger] self@[i], &#[trigger] self@[j])),
            forall|x: T, y: T, o: Ordering| #[trigger] call_ensures(c, (&x, &y), o) ==> o == g(x, y),
        ensures self@.len() == 0 ==> r is None,
            self@.len() > 0 ==> r is Some && exists|k: int| #[trigger] min_at(self@, g, k) && r->Some_0 == self@[k]
    {
        let mut s = self; let ghost s0 = self@;
        if s.v.len() == 0 { return None; }
        proof { ax_vec_len(self.v); }
        let ghost mut k: int = 0;
        proof { if s0.len() > 0 { assert(g(s0[0], s0[0]) == ord_rev(g(s0[0], s0[0]))); } }
        let mut best = s.v.remove(0); let mut i: usize = 1;
        while s.v.len() > 0
            invariant s0 == self@, s0.len() <= usize::MAX, 1 <= i, i + s.v@.len() == s0.len(), forall|k: int| 0 <= k < s.v@.len() ==> #[trigger] s.v@[k] == s0[i + k],
                0 <= k < i, best == s0[k], forall|j: int| 0 <= j < i ==> g(s0[k], #[trigger] s0[j]) != Ordering::Greater, forall|j: int| 0 <= j < k ==> g(#[trigger] s0[j], s0[k]) == Ordering::Greater,
                is_total_preorder(g) || preorder_on(s0, g),
                forall|i: int, j: int| 0 <= i < s0.len() && 0 <= j < s0.len() ==> call_requires(c, (&#[trigger] s0[i], &#[trigger] s0[j])),
                forall|x: T, y: T, o: Ordering| #[trigger] call_ensures(c, (&x, &y), o) ==> o == g(x, y),
            decreases s.v@.len()
        {
            proof { assert(s.v@[0] == s0[i as int]); assert(call_requires(c, (&s0[k], &s0[i as int]))); }
            let x = s.v.remove(0);
            let o = c(&best, &x);
            proof {
                assert(g(s0[k], s0[i as int]) == ord_rev(g(s0[i as int], s0[k])));
                assert(g(s0[i as int], s0[i as int]) == ord_rev(g(s0[i as int], s0[i as int])));
                if o == Ordering::Greater {
                    assert forall|j: int| 0 <= j < i implies g(s0[i as int], #[trigger] s0[j]) != Ordering::Greater by {
                        assert(g(s0[i as int], s0[k]) != Ordering::Greater && g(s0[k], s0[j]) != Ordering::Greater);
                    }
                    assert forall|j: int| 0 <= j < i implies g(#[trigger] s0[j], s0[i as int]) == Ordering::Greater by {
                        assert(g(s0[j], s0[i as int]) == ord_rev(g(s0[i as int], s0[j]))); assert(g(s0[k], s0[j]) == ord_rev(g(s0[j], s0[k])));
                        if g(s0[j], s0[i as int]) != Ordering::Greater { assert(g(s0[k], s0[i as int]) != Ordering::Greater); }
                    }
                    k = i as int;
                }
            }
            match o { Ordering::Greater => { best = x; } _ => {} }
            i = i + 1;
        }
        proof { assert(min_at(s0, g, k)); }
        Some(best)
    }
    pub fn find_map<U, G: Fn(T) -> Option<U>>(self, g: G, Ghost(p): Ghost<spec_fn(T) -> Option<U>>) -> (r: Option<U>)
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(g, (#[trigger] self@[i],)),
            forall|x: T, b: Option<U>| #[trigger] call_ensures(g, (x,), b) ==> b == p(x),
        ensures match r {
            Some(y) => exists|i: int| 0 <= i < self@.len() && p(#[trigger] self@[i]) == r && forall|j: int| 0 <= j < i ==> p(#[trigger] self@[j]) is None,
            None => forall|j: int| 0 <= j < self@.len() ==> p(#[trigger] self@[j]) is None }
    {
        let mut s = self; let ghost s0 = self@;  let mut i: usize = 0;
        proof { ax_vec_len(self.v); }
        while s.v.len() > 0
            invariant s0 == self@, s0.len() <= usize::MAX, i + s.v@.len() == s0.len(), forall|k: int| 0 <= k < s.v@.len() ==> #[trigger] s.v@[k] == s0[i + k],
                forall|i: int| 0 <= i < s0.len() ==> call_requires(g, (#[trigger] s0[i],)),
                forall|x: T, b: Option<U>| #[trigger] call_ensures(g, (x,), b) ==> b == p(x),
                forall|j: int| 0 <= j < i ==> p(#[trigger] s0[j]) is None,
            decreases s.v@.len()
        {
            proof { assert(s.v@[0] == s0[i as int]); }
            let x = s.v.remove(0);
            match g(x) { Some(y) => { return Some(y); } None => {} }
            i = i + 1;
        }
        None
    }
    // the length of the longest prefix on which p holds
    fn prefix_len<G: Fn(&T) -> bool>(&self, g: &G, Ghost(p): Ghost<spec_fn(T) -> bool>) -> (r: usize)
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(g, (&#[trigger] self@[i],)),
            forall|x: T, b: bool| #[trigger] call_ensures(g, (&x,), b) ==> b == p(x),
        ensures prefix_at(self@, p, r as int)
    {
        let mut i: usize = 0;
        while i < self.v.len()
            invariant i <= self@.len(), self@ == self.v@, forall|i: int| 0 <= i < self@.len() ==> call_requires(g, (&#[trigger] self@[i],)),
                forall|x: T, b: bool| #[trigger] call_ensures(g, (&x,), b) ==> b == p(x),
                forall|j: int| 0 <= j < i ==> p(#[trigger] self@[j]),
            decreases self.v@.len() - i
        {
            proof { assert(self.v@[i as int] == self@[i as int]); }
            if !g(&self.v[i]) { return i; }
            i = i + 1;
        }
        i
    }
    pub fn take_while<G: Fn(&T) -> bool>(self, g: G, Ghost(p): Ghost<spec_fn(T) -> bool>) -> (r: VIter<T>)
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(g, (&#[trigger] self@[i],)),
            forall|x: T, b: bool| #[trigger] call_ensures(g, (&x,), b) ==> b == p(x),
        ensures prefix_at(self@, p, r@.len() as int), r@ == self@.take(r@.len() as int)
    { let n = self.prefix_len(&g, Ghost(p)); self.take(n) }
    pub fn skip_while<G: Fn(&T) -> bool>(self, g: G, Ghost(p): Ghost<spec_fn(T) -> bool>) -> (r: VIter<T>)
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(g, (&#[trigger] self@[i],)),
            forall|x: T, b: bool| #[trigger] call_ensures(g, (&x,), b) ==> b == p(x),
        ensures prefix_at(self@, p, self@.len() - r@.len()), r@ == self@.skip(self@.len() - r@.len())
    { let n = self.prefix_len(&g, Ghost(p)); self.skip(n) }
    pub fn nth(self, n: usize) -> (r: Option<T>) ensures n < self@.len() ==> r == Some(self@[n as int]), n >= self@.len() ==> r is None
    { let mut s = self.skip(n); if s.v.len() == 0 { None } else { Some(s.v.remove(0)) } }
    pub fn sorted_by<C: Fn(&T, &T) -> Ordering>(self, c: C, Ghost(g): Ghost<spec_fn(T, T) -> Ordering>) -> (r: VIter<T>)
        requires
            is_total_preorder(g) || preorder_on(self@, g),
            forall|x: T, y: T| call_requires(c, (&x, &y)),
            forall|x: T, y: T, o: Ordering| #[trigger] call_ensures(c, (&x, &y), o) ==> o == g(x, y),
        ensures r@.to_multiset() == self@.to_multiset(), r@.len() == self@.len(), sorted_on(r@, g)
    {
        let ghost s0 = self@;
        let mut s = self; let mut r: Vec<T> = Vec::new();
        proof { broadcast use vstd::seq_lib::group_to_multiset_ensures; assert(r@ =~= Seq::<T>::empty()); assert(r@.to_multiset() =~= Multiset::empty()); assert(r@.to_multiset().add(s.v@.to_multiset()) =~= s0.to_multiset()); }
        while s.v.len() > 0
            invariant s0 == self@, is_total_preorder(g) || preorder_on(s0, g),
                forall|x: T, y: T| call_requires(c, (&x, &y)),
                forall|x: T, y: T, o: Ordering| #[trigger] call_ensures(c, (&x, &y), o) ==> o == g(x, y),
                r@.to_multiset().add(s.v@.to_multiset()) == s0.to_multiset(), r@.len() + s.v@.len() == s0.len(), sorted_on(r@, g),
            decreases s.v@.len()
        {
            proof { broadcast use vstd::seq_lib::group_to_multiset_ensures; }
            let ghost t0 = s.v@; let ghost r0 = r@;
            let x = s.v.remove(0);
            proof {
                assert forall|y: T| #[trigger] r0.contains(y) implies s0.contains(y) by { assert(r0.to_multiset().count(y) > 0); assert(s0.to_multiset().count(y) > 0); }
                assert(t0.contains(x)) by { assert(t0[0] == x); }
                assert(t0.to_multiset().count(x) > 0); assert(s0.to_multiset().count(x) > 0); assert(s0.contains(x));
                preorder_vals(s0, g);
            }
            let mut p: usize = 0;
            while p < r.len()
                invariant p <= r@.len(), r@ == r0, forall|i: int| 0 <= i < p ==> g(x, #[trigger] r0[i]) != Ordering::Less,
                    forall|x: T, y: T| call_requires(c, (&x, &y)),
                    forall|x: T, y: T, o: Ordering| #[trigger] call_ensures(c, (&x, &y), o) ==> o == g(x, y),
                ensures p <= r@.len(), p < r@.len() ==> g(x, r0[p as int]) == Ordering::Less,
                decreases r@.len() - p
            {
                match c(&x, &r[p]) { Ordering::Less => { break; } _ => {} }
                p = p + 1;
            }
            proof {
                assert forall|i: int| 0 <= i < p implies g(#[trigger] r0[i], x) != Ordering::Greater by {
                    assert(r0.contains(r0[i])); assert(g(x, r0[i]) == ord_rev(g(r0[i], x)));
                }
                assert forall|i: int| p <= i < r0.len() implies g(x, #[trigger] r0[i]) != Ordering::Greater by {
                    assert(r0.contains(r0[i]) && r0.contains(r0[p as int]));
                    if i > p { assert(g(r0[p as int], r0[i]) != Ordering::Greater); assert(g(x, r0[p as int]) != Ordering::Greater); }
                }
                assert(r0.insert(p as int, x).to_multiset() =~= r0.to_multiset().insert(x));
                assert(t0.remove(0).to_multiset() =~= t0.to_multiset().remove(x));
            }
            r.insert(p, x);
            proof {
                assert(r@.to_multiset().add(s.v@.to_multiset()) =~= s0.to_multiset());
                assert forall|i: int, j: int| 0 <= i < j < r@.len() implies g(#[trigger] r@[i], #[trigger] r@[j]) != Ordering::Greater by {
                    let i0 = if i < p { i } else { i - 1 }; let j0 = if j < p { j } else { j - 1 };
                    if i == p { assert(r@[j] == r0[j0]); } else if j == p { assert(r@[i] == r0[i0]); } else { assert(r@[i] == r0[i0] && r@[j] == r0[j0]); }
                }
            }
        }
        proof { assert(r@.to_multiset() =~= s0.to_multiset()) by { broadcast use vstd::seq_lib::group_to_multiset_ensures; assert(s.v@.to_multiset() =~= Multiset::empty()); } }
        VIter { v: r }
    }
}
impl<T> VIter<VIter<T>> {
    pub fn flatten(self) -> (r: VIter<T>) ensures r@ == seq_flat(self@)
    {
        let mut s = self; let ghost s0 = self@; let mut r: Vec<T> = Vec::new(); let ghost mut i: int = 0;
        while s.v.len() > 0
            invariant s0 == self@, 0 <= i, i + s.v@.len() == s0.len(), forall|k: int| 0 <= k < s.v@.len() ==> #[trigger] s.v@[k] == s0[i + k], r@ == seq_flat(s0.take(i)),
            decreases s.v@.len()
        {
            proof { assert(s.v@[0] == s0[i]); assert(s0.take(i + 1).drop_last() =~= s0.take(i)); }
            let mut x = s.v.remove(0);
            r.append(&mut x.v);
            proof { i = i + 1; }
        }
        proof { assert(s0.take(i) =~= s0); }
        VIter { v: r }
    }
}
impl VIter<usize> {
    pub fn collect_set(self) -> (r: VSet) ensures r@ == self@.to_set()
    {
        let ghost s0 = self@; let mut r: Vec<usize> = Vec::new(); let mut i: usize = 0;
        while i < self.v.len()
            invariant s0 == self.v@, i <= s0.len(), r@.no_duplicates(), r@.to_set() == s0.take(i as int).to_set()
            decreases s0.len() - i
        {
            let x = self.v[i];
            let mut j: usize = 0; let mut found = false;
            while j < r.len() invariant j <= r@.len(), found == exists|k: int| 0 <= k < j && r@[k] == x decreases r@.len() - j
            { if r[j] == x { found = true; } j = j + 1; }
            let ghost r0 = r@;
            if !found { r.push(x); }
            i = i + 1;
            proof {
                let t = s0.take(i as int); let t0 = s0.take(i - 1);
                assert forall|y: usize| r@.to_set().contains(y) <==> t.to_set().contains(y) by {
                    assert(r0.to_set().contains(y) <==> t0.to_set().contains(y));
                    if t.contains(y) { let k = choose|k: int| 0 <= k < t.len() && t[k] == y; if k < i - 1 { assert(t0[k] == y); assert(t0.contains(y)); } else { assert(y == x); } }
                    if t0.contains(y) { let k = choose|k: int| 0 <= k < t0.len() && t0[k] == y; assert(t[k] == y); }
                    assert(t[i - 1] == x);
                    if r0.contains(y) { let k = choose|k: int| 0 <= k < r0.len() && r0[k] == y; assert(r@[k] == y); }
                    if r@.contains(y) { let k = choose|k: int| 0 <= k < r@.len() && r@[k] == y; if k < r0.len() { assert(r0[k] == y); } else { assert(y == x); } }
                    if !found { assert(r@[r@.len() - 1] == x); } else { let k = choose|k: int| 0 <= k < j && r@[k] == x; assert(r@.contains(x)); }
                }
                assert(r@.to_set() =~= t.to_set());
            }
        }
        proof { assert(s0.take(i as int) =~= s0); }
        VSet { v: r }
    }
}
impl<'a, T> VIter<&'a T> {
    pub fn cloned(self) -> (r: VIter<T>)
        ensures r@.len() == self@.len(), forall|i: int| #![trigger r@[i]] #![trigger self@[i]] 0 <= i < r@.len() ==> r@[i] == *self@[i]
    {
        let mut r: Vec<T> = Vec::new(); let mut i: usize = 0;
        while i < self.v.len() invariant i <= self.v@.len(), r@.len() == i, forall|k: int| 0 <= k < i ==> r@[k] == *self.v@[k] decreases self.v@.len() - i
        { r.push(val_clone(self.v[i])); i = i + 1; }
        VIter { v: r }
    }
}
pub fn viter_next<T>(it: &mut VIter<T>) -> (r: Option<T>)
    ensures old(it)@.len() == 0 ==> r is None && final(it)@ == old(it)@,
        old(it)@.len() > 0 ==> r == Some(old(it)@[0]) && final(it)@ == old(it)@.skip(1)
{
    if it.v.len() == 0 { None } else { Some(it.next_item()) }
}
pub fn viter_take<T>(it: &mut VIter<T>) -> (r: VIter<T>) ensures r@ == old(it)@
{
    let mut r: Vec<T> = Vec::new();
    r.append(&mut it.v);
    proof { assert(r@ =~= old(it).v@); }
    VIter { v: r }
}
pub fn viter_clone<T>(it: &VIter<T>) -> (r: VIter<T>) ensures r@ == it@
{
    VIter { v: vec_clone(&it.v) }
}
pub fn slice_iter<'a, T>(s: &'a [T]) -> (r: VIter<&'a T>)
    ensures r@.len() == s@.len(), forall|i: int| #![trigger r@[i]] #![trigger s@[i]] 0 <= i < r@.len() ==> *r@[i] == s@[i]
{
    let mut r: Vec<&'a T> = Vec::new(); let mut i: usize = 0;
    while i < s.len() invariant i <= s@.len(), r@.len() == i, forall|k: int| 0 <= k < i ==> *#[trigger] r@[k] == s@[k] decreases s@.len() - i
    { r.push(&s[i]); i = i + 1; }
    VIter { v: r }
}
pub fn vec_iter<'a, T>(s: &'a Vec<T>) -> (r: VIter<&'a T>)
    ensures r@.len() == s@.len(), forall|i: int| #![trigger r@[i]] #![trigger s@[i]] 0 <= i < r@.len() ==> *r@[i] == s@[i]
{
    slice_iter(vec_as_slice(s))
}
pub fn vec_into_iter<T>(s: Vec<T>) -> (r: VIter<T>) ensures r@ == s@
{
    VIter { v: s }
}
pub fn slice_iter_mut<'a, T>(s: &'a mut [T]) -> (r: VIter<&'a mut T>)
    ensures r@.len() == old(s)@.len(), final(s)@.len() == old(s)@.len(),
        forall|i: int| 0 <= i < r@.len() ==> *#[trigger] r@[i] == old(s)@[i],
        forall|i: int| #![trigger r@[i]] #![trigger final(s)@[i]] 0 <= i < r@.len() ==> final(s)@[i] == *final(r@[i])
    decreases old(s)@.len()
{
    let n = s.len();
    if n == 0 { return VIter { v: Vec::new() }; }
    let (x, y) = s.split_at_mut(n - 1);
    let mut r = slice_iter_mut(x);
    r.v.push(&mut y[0]);
    r
}
pub fn vec_iter_mut<'a, T>(s: &'a mut Vec<T>) -> (r: VIter<&'a mut T>)
    ensures r@.len() == old(s)@.len(), final(s)@.len() == old(s)@.len(),
        forall|i: int| 0 <= i < r@.len() ==> *#[trigger] r@[i] == old(s)@[i],
        forall|i: int| #![trigger r@[i]] #![trigger final(s)@[i]] 0 <= i < r@.len() ==> final(s)@[i] == *final(r@[i])
{
    slice_iter_mut(vec_deref_mut(s))
}
// an iterator that is dropped leaves what it has not yielded as it is
pub fn it_drop<'a, B>(it: VIter<&'a mut B>) ensures forall|i: int| 0 <= i < it@.len() ==> *final(#[trigger] it@[i]) == *it@[i]
{
    let mut s = it; let ghost s0 = it@;
    while s.v.len() > 0
        invariant s.v@.len() <= s0.len(), s.v@ == s0.take(s.v@.len() as int), forall|k: int| s.v@.len() <= k < s0.len() ==> *final(#[trigger] s0[k]) == *s0[k],
        decreases s.v@.len()
    {
        let i = s.v.len() - 1;
        proof { assert(s.v@[i as int] == s0[i as int]); }
        let x = s.v.remove(i);
        proof { assert(s.v@ =~= s0.take(i as int)); assert(x == s0[i as int]); }
    }
}
pub fn it_drop_2<'a, A, B>(it: VIter<(A, &'a mut B)>) ensures forall|i: int| 0 <= i < it@.len() ==> *final((#[trigger] it@[i]).1) == *it@[i].1
{
    let mut s = it; let ghost s0 = it@;
    while s.v.len() > 0
        invariant s.v@.len() <= s0.len(), s.v@ == s0.take(s.v@.len() as int), forall|k: int| s.v@.len() <= k < s0.len() ==> *final((#[trigger] s0[k]).1) == *s0[k].1,
        decreases s.v@.len()
    {
        let i = s.v.len() - 1;
        proof { assert(s.v@[i as int] == s0[i as int]); }
        let x = s.v.remove(i);
        proof { assert(s.v@ =~= s0.take(i as int)); assert(x == s0[i as int]); }
        let (a, b) = x;
    }
}
pub fn it_drop_1<'a, A, B>(it: VIter<(&'a mut A, B)>) ensures forall|i: int| 0 <= i < it@.len() ==> *final((#[trigger] it@[i]).0) == *it@[i].0
{
    let mut s = it; let ghost s0 = it@;
    while s.v.len() > 0
        invariant s.v@.len() <= s0.len(), s.v@ == s0.take(s.v@.len() as int), forall|k: int| s.v@.len() <= k < s0.len() ==> *final((#[trigger] s0[k]).0) == *s0[k].0,
        decreases s.v@.len()
    {
        let i = s.v.len() - 1;
        proof { assert(s.v@[i as int] == s0[i as int]); }
        let x = s.v.remove(i);
        proof { assert(s.v@ =~= s0.take(i as int)); assert(x == s0[i as int]); }
        let (a, b) = x;
    }
}
pub fn vrange(a: usize, b: usize) -> (r: VIter<usize>)
    ensures r@ == urange(a, b), r@.len() == (if a <= b { b - a } else { 0 }), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == a + i
{
    let mut r: Vec<usize> = Vec::new(); let mut i: usize = a;
    while i < b invariant a <= i, a <= b ==> i <= b, a > b ==> i == a, r@.len() == i - a, forall|k: int| 0 <= k < r@.len() ==> #[trigger] r@[k] == a + k decreases b - i
    { r.push(i); i = i + 1; }
    proof { assert(r@ =~= urange(a, b)); }
    VIter { v: r }
}
pub open spec fn urange(a: usize, b: usize) -> Seq<usize> { Seq::new((if a <= b { (b - a) as nat } else { 0 }), |i: int| (a + i) as usize) }
pub open spec fn cart<T, U>(a: Seq<T>, b: Seq<U>) -> Seq<(T, U)> { Seq::new(a.len() * b.len(), |k: int| (a[k / (b.len() as int)], b[k % (b.len() as int)])) }
pub open spec fn usum(s: Seq<usize>) -> int decreases s.len() { if s.len() == 0 { 0 } else { usum(s.drop_last()) + s.last() } }
pub open spec fn u8sum(s: Seq<u8>) -> int decreases s.len() { if s.len() == 0 { 0 } else { u8sum(s.drop_last()) + s.last() } }
pub open spec fn unref<'a, T>(s: Seq<&'a T>) -> Seq<T> { Seq::new(s.len(), |i: int| *s[i]) }
pub fn usize_sum(it: VIter<usize>) -> (r: usize) ensures r == usum(it@)
{
    let ghost s0 = it@; let mut r: usize = 0; let mut i: usize = 0;
    while i < it.v.len() invariant s0 == it.v@, i <= s0.len(), r == usum(s0.take(i as int)) decreases s0.len() - i
    {
        proof { assert(s0.take(i + 1).drop_last() =~= s0.take(i as int)); }
        r = match r.checked_add(it.v[i]) { Some(x) => x, None => vpanic(Ghost(true)) };
        i = i + 1;
    }
    proof { assert(s0.take(i as int) =~= s0); }
    r
}
pub fn u8_sum(it: VIter<u8>) -> (r: u8) ensures r == u8sum(it@)
{
    let ghost s0 = it@; let mut r: u8 = 0; let mut i: usize = 0;
    while i < it.v.len() invariant s0 == it.v@, i <= s0.len(), r == u8sum(s0.take(i as int)) decreases s0.len() - i
    {
        proof { assert(s0.take(i + 1).drop_last() =~= s0.take(i as int)); }
        r = match r.checked_add(it.v[i]) { Some(x) => x, None => vpanic(Ghost(true)) };
        i = i + 1;
    }
    proof { assert(s0.take(i as int) =~= s0); }
    r
}
pub fn u8_sum_ref<'a>(it: VIter<&'a u8>) -> (r: u8) ensures r == u8sum(unref(it@))
{
    let c = it.cloned();
    proof { assert(c@ =~= unref(it@)); }
    u8_sum(c)
}
pub proof fn ch_arith(i: int, m: int, n: int) requires 0 <= i < m, n > 0 ensures 0 <= i * n, i * n + n <= m * n { assert(0 <= i * n && i * n + n <= m * n) by(nonlinear_arith) requires 0 <= i < m, n > 0; }
pub proof fn ch_idx(k: int, m: int, n: int) requires 0 <= k < m * n, n > 0 ensures 0 <= k / n < m, 0 <= k % n < n, k == (k / n) * n + k % n
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(k, n);
    vstd::arithmetic::mul::lemma_mul_is_commutative(n, k / n);
    assert(0 <= k % n < n) by(nonlinear_arith) requires n > 0, k % n == k - (k / n) * n, k == (k/n)*n + k % n;
    assert(0 <= k / n < m) by(nonlinear_arith) requires 0 <= k < m * n, n > 0, k == (k / n) * n + k % n, 0 <= k % n < n;
}
pub fn slice_chunks_exact_mut<'a, T>(s: &'a mut [T], n: usize) -> (r: VIter<&'a mut [T]>)
    requires n > 0,
    ensures r@.len() == old(s)@.len() / (n as nat),
        forall|i: int| #![trigger r@[i]] 0 <= i < r@.len() ==> (*r@[i])@ == old(s)@.subrange(i * n, i * n + n) && (*r@[i])@.len() == n && 0 <= i * n && i * n + n <= old(s)@.len(),
        (forall|i: int| #![trigger r@[i]] 0 <= i < r@.len() ==> (*final(r@[i]))@.len() == n) ==> {
            &&& final(s)@.len() == old(s)@.len()
            &&& forall|k: int| #![trigger final(s)@[k]] 0 <= k < r@.len() * n ==> final(s)@[k] == (*final(r@[k / (n as int)]))@[k % (n as int)]
            &&& forall|k: int| #![trigger final(s)@[k]] r@.len() * n <= k < old(s)@.len() ==> final(s)@[k] == old(s)@[k]
        }
    decreases old(s)@.len()
{
    let ghost s0 = old(s)@;
    let m = s.len() / n;
    if m == 0 { return VIter { v: Vec::new() }; }
    proof { 
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(s0.len() as int, n as int);
        assert((m - 1) * n + n == m * n) by(nonlinear_arith);
        vstd::arithmetic::mul::lemma_mul_is_commutative(n as int, m as int);
        ch_arith(m - 1, m as int, n as int);
        vstd::arithmetic::div_mod::lemma_div_multiples_vanish(m - 1, n as int);
    }
    let (x, y) = s.split_at_mut((m - 1) * n);
    let (c, z) = y.split_at_mut(n);
    assert((*x)@ == s0.subrange(0, (m - 1) * n));
    let mut r = slice_chunks_exact_mut(x, n);
    let ghost r0 = r@;
    assert(r@.len() == m - 1);
    proof {       assert forall|i: int| #![trigger r@[i]] 0 <= i < m - 1 implies (*r@[i])@ == s0.subrange(i * n, i * n + n) by { ch_arith(i, m - 1, n as int); assert(r0[i]@.len() == n); assert(s0.subrange(0, (m - 1) * n).subrange(i * n, i * n + n) =~= s0.subrange(i * n, i * n + n)); } }
    assert((*c)@ =~= s0.subrange((m - 1) * n, (m - 1) * n + n));
    r.v.push(c);
    proof {
      assert forall|k: int| 0 <= k < m * n implies 0 <= #[trigger] (k / (n as int)) < m && 0 <= k % (n as int) < n && k == (k / (n as int)) * n + k % (n as int) by { ch_idx(k, m as int, n as int); }
      assert forall|k: int| (m - 1) * n <= k < m * n implies #[trigger] (k / (n as int)) == m - 1 && k % (n as int) == k - (m - 1) * n by { 
          ch_idx(k, m as int, n as int); 
          vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(k, n as int, m - 1, k - (m - 1) * n); }
    }
    assert forall|i: int| #![trigger r0[i]] 0 <= i < r0.len() implies r@[i] == r0[i] by {}
    assert forall|i: int| #![trigger r@[i]] 0 <= i < r@.len() implies (*r@[i])@ == s0.subrange(i * n, i * n + n) && (*r@[i])@.len() == n && 0 <= i * n && i * n + n <= s0.len() by {
        ch_arith(i, m as int, n as int);
        if i < m - 1 { assert(r@[i] == r0[i]); assert((*r0[i])@ == s0.subrange(i * n, i * n + n)); }
    }
    proof {
        assert forall|fx: Seq<T>, z: Seq<T>| (forall|i: int| #![trigger r@[i]] 0 <= i < r@.len() ==> (*final(r@[i]))@.len() == n)
            && fx.len() == (m - 1) * n && (forall|k: int| #![trigger fx[k]] 0 <= k < (m - 1) * n ==> fx[k] == (*final(r0[k / (n as int)]))@[k % (n as int)]) && z == s0.subrange(m * n, s0.len() as int)
            implies ({
                let fs = #[trigger] (fx + ((*final(r@[m - 1]))@ + z));
                &&& fs.len() == s0.len()
                &&& forall|k: int| #![trigger fs[k]] 0 <= k < r@.len() * n ==> fs[k] == (*final(r@[k / (n as int)]))@[k % (n as int)]
                &&& forall|k: int| #![trigger fs[k]] r@.len() * n <= k < s0.len() ==> fs[k] == s0[k]
            }) by {
            let fs = fx + ((*final(r@[m - 1]))@ + z);
            assert((*final(r@[m - 1]))@.len() == n);
            assert forall|k: int| #![trigger fs[k]] 0 <= k < m * n implies fs[k] == (*final(r@[k / (n as int)]))@[k % (n as int)] by {
                ch_idx(k, m as int, n as int);
                if k < (m - 1) * n { ch_idx(k, m - 1, n as int); assert(r@[k / (n as int)] == r0[k / (n as int)]); }
            }
        }
    }
    r
}
