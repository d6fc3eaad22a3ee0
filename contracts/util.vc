//@ raw
// ---------- numbers in base b, least significant digit first
pub open spec fn digits(n: int, b: int) -> Seq<int> decreases n via digits_dec { if n <= 0 || b < 2 { Seq::empty() } else { seq![n % b] + digits(n / b, b) } }
#[via_fn] proof fn digits_dec(n: int, b: int) { if n > 0 && b >= 2 { assert(n / b < n) by(nonlinear_arith) requires n > 0, b >= 2; assert(n / b >= 0) by(nonlinear_arith) requires n > 0, b >= 2; } }
pub open spec fn dig(k: int, b: int, p: int) -> int decreases p { if p <= 0 { k % b } else { dig(k / b, b, p - 1) } }
pub open spec fn dval(s: Seq<int>, b: int) -> int decreases s.len() { if s.len() == 0 { 0 } else { s[0] + b * dval(s.skip(1), b) } }
pub open spec fn digs(s: Seq<int>, b: int) -> bool { forall|p: int| 0 <= p < s.len() ==> 0 <= #[trigger] s[p] < b }
pub proof fn dm(k: int, b: int) requires k >= 0, b >= 1, ensures k == b * (k / b) + k % b, 0 <= k % b < b, 0 <= k / b <= k, b >= 2 && k > 0 ==> k / b < k
{
    assert(k == b * (k / b) + k % b && 0 <= k % b < b) by(nonlinear_arith) requires k >= 0, b >= 1;
    let q = k / b; assert(q >= 0) by(nonlinear_arith) requires k == b * q + k % b, k >= 0, k % b < b, b >= 1;
    assert(q <= b * q) by(nonlinear_arith) requires q >= 0, b >= 1;
    if b >= 2 && q > 0 { assert(q < b * q) by(nonlinear_arith) requires q > 0, b >= 2; }
}
pub proof fn step_dig(s0: int, v: int, b: int) requires 0 <= s0 < b, v >= 0, ensures (s0 + b * v) % b == s0, (s0 + b * v) / b == v, s0 + b * v >= 0
{
    let k = s0 + b * v; assert(b * v >= 0) by(nonlinear_arith) requires b > 0, v >= 0; dm(k, b); let (q, r) = (k / b, k % b);
    assert(q == v) by(nonlinear_arith) requires s0 + b * v == b * q + r, 0 <= s0 < b, 0 <= r < b;
}
// digits: in range, no leading zero, and they denote n
pub proof fn C24_digits(n: int, b: int) requires n >= 0, b >= 2, ensures digs(digits(n, b), b), dval(digits(n, b), b) == n, digits(n, b).len() > 0 ==> digits(n, b).last() != 0, (digits(n, b).len() == 0) == (n == 0) decreases n
{
    if n > 0 {
        dm(n, b); C24_digits(n / b, b); let d = digits(n / b, b); let s = digits(n, b); assert(s.skip(1) =~= d);
        assert forall|p: int| 0 <= p < s.len() implies 0 <= #[trigger] s[p] < b by { if p > 0 { assert(s[p] == d[p - 1]); } }
        if d.len() > 0 { assert(s.last() == d.last()); } else { assert(s.last() == n % b); assert(n / b == 0); assert(b * 0 == 0); }
    }
}
// and no other sequence does
pub proof fn C24_digits_only(s: Seq<int>, b: int) requires b >= 2, digs(s, b), s.len() > 0 ==> s.last() != 0, ensures dval(s, b) >= 0, s.len() > 0 ==> dval(s, b) > 0, digits(dval(s, b), b) == s decreases s.len()
{
    if s.len() == 0 { assert(digits(0, b) =~= s); }
    else {
        let t = s.skip(1); assert forall|p: int| 0 <= p < t.len() implies 0 <= #[trigger] t[p] < b by { assert(t[p] == s[p + 1]); }
        if t.len() > 0 { assert(t.last() == s.last()); }
        C24_digits_only(t, b); let v = dval(t, b); assert(0 <= s[0] < b); step_dig(s[0], v, b);
        if t.len() == 0 { assert(s.last() == s[0]); assert(b * 0 == 0); } else { assert(b * v > 0) by(nonlinear_arith) requires b > 0, v > 0; }
        assert(digits(dval(s, b), b) =~= s) by { assert(seq![s[0]] + t =~= s); }
    }
}
pub proof fn dig_digits(k: int, b: int, p: int) requires k >= 0, b >= 2, p >= 0, ensures dig(k, b, p) == (if p < digits(k, b).len() { digits(k, b)[p] } else { 0 }) decreases p
{
    if k == 0 { assert(0int % b == 0 && 0int / b == 0) by(nonlinear_arith) requires b >= 2; if p > 0 { dig_digits(0, b, p - 1); } }
    else { dm(k, b); if p > 0 { dig_digits(k / b, b, p - 1); } }
}
pub proof fn digits_len(k: int, b: int, e: nat) requires 0 <= k < ipow(b, e), b >= 2, ensures digits(k, b).len() <= e decreases e
{ if e > 0 && k > 0 { dm(k, b); let (q, r, w) = (k / b, k % b, ipow(b, (e - 1) as nat)); assert(q < w) by(nonlinear_arith) requires b * q + r < b * w, r >= 0, b >= 2; digits_len(q, b, (e - 1) as nat); } }
// every choice of e digits is the expansion of exactly one k < b^e
pub proof fn C24_all(s: Seq<int>, b: int) requires b >= 1, digs(s, b), ensures 0 <= dval(s, b) < ipow(b, s.len()), forall|p: int| 0 <= p < s.len() ==> #[trigger] dig(dval(s, b), b, p) == s[p] decreases s.len()
{
    if s.len() > 0 {
        let t = s.skip(1); assert forall|p: int| 0 <= p < t.len() implies 0 <= #[trigger] t[p] < b by { assert(t[p] == s[p + 1]); }
        C24_all(t, b); let v = dval(t, b); assert(0 <= s[0] < b); step_dig(s[0], v, b); let w = ipow(b, t.len()); let s0 = s[0];
        assert(s0 + b * v < b * w) by(nonlinear_arith) requires s0 < b, v < w, b >= 1; assert(ipow(b, s.len()) == b * w);
        assert forall|p: int| 0 <= p < s.len() implies #[trigger] dig(dval(s, b), b, p) == s[p] by { if p > 0 { assert(dig(v, b, p - 1) == t[p - 1]); } }
    }
}
pub proof fn C24_once(k: int, l: int, b: int, e: nat) requires b >= 1, 0 <= k < ipow(b, e), 0 <= l < ipow(b, e), forall|p: int| 0 <= p < e ==> #[trigger] dig(k, b, p) == dig(l, b, p), ensures k == l decreases e
{
    if e > 0 {
        dm(k, b); dm(l, b); let f = (e - 1) as nat; let w = ipow(b, f); assert(dig(k, b, 0) == dig(l, b, 0));
        let (q, r) = (k / b, k % b); assert(q < w) by(nonlinear_arith) requires b * q + r < b * w, r >= 0, b >= 1;
        let (q2, r2) = (l / b, l % b); assert(q2 < w) by(nonlinear_arith) requires b * q2 + r2 < b * w, r2 >= 0, b >= 1;
        assert forall|p: int| 0 <= p < f implies #[trigger] dig(q, b, p) == dig(q2, b, p) by { assert(dig(k, b, p + 1) == dig(l, b, p + 1)); }
        C24_once(q, q2, b, f);
    }
}
pub proof fn ipow_pos(b: int, e: nat) requires b >= 1, ensures ipow(b, e) >= 1 decreases e { if e > 0 { ipow_pos(b, (e - 1) as nat); let w = ipow(b, (e - 1) as nat); assert(b * w >= 1) by(nonlinear_arith) requires b >= 1, w >= 1; } }
pub proof fn ipow_one(e: nat) ensures ipow(1, e) == 1 decreases e { if e > 0 { ipow_one((e - 1) as nat); } }
pub proof fn dig_zero(p: int) ensures dig(0, 1, p) == 0 decreases p { if p > 0 { dig_zero(p - 1); } }
//@ fn BaseSeqIterator__Iterator__next(this)
//@@ items: this.base >= 1 && (this.base >= 2 || this.n == 0); digits(this.n as int / this.base as int, this.base as int).len() as int; |i, x| i < digits(this.n as int / this.base as int, this.base as int).len() && x == digits(this.n as int / this.base as int, this.base as int)[i]
//@@ hint start
dm(this.n as int, this.base as int); dm(this.n as int / this.base as int, this.base as int);
//@ fn num_to_seq(n, base)
//@@ requires: base >= 1, base >= 2 || n == 0, n * base <= usize::MAX
//@@ ensures: ret@.len() == digits(n as int, base as int).len(), forall|i: int| 0 <= i < ret@.len() ==> #[trigger] ret@[i] == digits(n as int, base as int)[i]
//@@ hint end
step_dig(0, n as int, base as int); assert(n * base == base * n) by(nonlinear_arith);
//@ raw
pub open spec fn kth(x: Mat, v: Seq<F>, n: int, m: int, k: int) -> bool { x.rows == n && x.cols == m && wf(x) && forall|p: int| 0 <= p < x.entries@.len() ==> #[trigger] x.entries@[p] == v[dig(k, v.len() as int, p)] }
//@ fn MatIterator__Iterator__next(this)
//@@ items: this.values@.len() >= 1 && this.n * this.m <= u32::MAX && ipow(this.values@.len() as int, (this.n * this.m) as nat) * this.values@.len() <= usize::MAX; ipow(this.values@.len() as int, (this.n * this.m) as nat) - this.num; |i, x| kth(x, this.values@, this.n as int, this.m as int, this.num + i)
//@@ hint start
let (b, e, k) = (this.values@.len() as int, (this.n * this.m) as nat, this.num as int); ipow_pos(b, e); let w = ipow(b, e); assert(0 <= this.n * this.m) by(nonlinear_arith);
if b == 1 { ipow_one(e); }
if k < w { assert(k * b <= w * b) by(nonlinear_arith) requires k < w, b >= 1; if b >= 2 { digits_len(k, b, e); C24_digits(k, b); } }
assert forall|p: int| 0 <= p && (b >= 2 || k == 0) implies #[trigger] dig(k, b, p) == (if p < digits(k, b).len() { digits(k, b)[p] } else { 0 }) by { if b >= 2 { dig_digits(k, b, p); } else if k == 0 { dig_zero(p); } }
//@@ loop 1 invariant: entries@.len() == $i, $hi == this.n * this.m, forall|p: int| 0 <= p < $i ==> #[trigger] entries@[p] == this.values@[dig(this.num as int, this.values@.len() as int, p)]
//@ fn mat_iterator(n, m, values)
//@@ requires: values@.len() >= 1, n * m <= u32::MAX, ipow(values@.len() as int, (n * m) as nat) * values@.len() <= usize::MAX
//@@ ensures: ret@.len() == ipow(values@.len() as int, (n * m) as nat), forall|k: int| 0 <= k < ret@.len() ==> kth(#[trigger] ret@[k], values@, n as int, m as int, k)
//@@ hint end
ipow_pos(values@.len() as int, (n * m) as nat);
