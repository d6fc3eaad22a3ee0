//@ raw
// ---------- matrices: at(m, r, c) is the entry in row r, column c
pub open spec fn wf(m: Mat) -> bool { m.entries@.len() == m.rows * m.cols }
pub open spec fn at(m: Mat, r: int, c: int) -> F { m.entries@[r * m.cols + c] }
pub open spec fn inm(m: Mat, r: int, c: int) -> bool { 0 <= r < m.rows && 0 <= c < m.cols }
pub open spec fn same_shape(a: Mat, b: Mat) -> bool { a.rows == b.rows && a.cols == b.cols && wf(a) && wf(b) }
// the entries of m, given as a function of the position
pub open spec fn mat_is(m: Mat, rows: int, cols: int, g: spec_fn(int, int) -> F) -> bool {
    &&& wf(m) && m.rows == rows && m.cols == cols
    &&& forall|r: int, c: int| #![trigger at(m, r, c)] 0 <= r < rows && 0 <= c < cols ==> at(m, r, c) == g(r, c)
}
pub open spec fn perm_mat(m: Mat, s: Seq<usize>) -> bool {
    mat_is(m, s.len() as int, s.len() as int, |r: int, c: int| if s[r] == c { fone() } else { fzero() })
}
pub proof fn ix_lemma(r: int, c: int, rows: int, cols: int)
    requires 0 <= r < rows, 0 <= c < cols,
    ensures 0 <= r * cols + c < rows * cols, (r * cols + c) / cols == r, (r * cols + c) % cols == c, r * cols + cols <= rows * cols, 0 <= r * cols
{
    assert(r * cols + cols <= rows * cols) by(nonlinear_arith) requires 0 <= r < rows, 0 < cols;
    assert(0 <= r * cols) by(nonlinear_arith) requires 0 <= r, 0 < cols;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(r * cols + c, cols, r, c);
}
pub proof fn ix_back(k: int, rows: int, cols: int)
    requires 0 <= k < rows * cols, rows >= 0, cols >= 0,
    ensures cols > 0, 0 <= k / cols < rows, 0 <= k % cols < cols, (k / cols) * cols + k % cols == k
{
    if cols == 0 { assert(rows * 0 == 0) by(nonlinear_arith); }
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(k, cols);
    vstd::arithmetic::div_mod::lemma_mod_bound(k, cols);
    let q = k / cols;
    assert(cols * q == q * cols) by(nonlinear_arith);
    assert(q >= 0) by(nonlinear_arith) requires k == q * cols + k % cols, k % cols < cols, k >= 0, cols > 0;
    assert(q < rows) by(nonlinear_arith) requires k == q * cols + k % cols, k % cols >= 0, k < rows * cols, cols > 0;
}
pub proof fn row_ix(r: int, rows: int, cols: int)
    requires 0 <= r < rows, 0 <= cols, ensures 0 <= r * cols, (r + 1) * cols == r * cols + cols, (r + 1) * cols <= rows * cols
{
    assert(0 <= r * cols) by(nonlinear_arith) requires 0 <= r, 0 <= cols;
    assert((r + 1) * cols == r * cols + cols) by(nonlinear_arith);
    assert((r + 1) * cols <= rows * cols) by(nonlinear_arith) requires r + 1 <= rows, 0 <= cols;
}
pub proof fn row_sep(r: int, r2: int, c2: int, cols: int)
    requires 0 <= c2 < cols, ensures r2 < r ==> r2 * cols + c2 < r * cols, r2 > r ==> r2 * cols + c2 >= r * cols + cols
{
    if r2 < r { assert(r2 * cols + cols <= r * cols) by(nonlinear_arith) requires r2 + 1 <= r, cols > 0; }
    if r2 > r { assert(r2 * cols >= r * cols + cols) by(nonlinear_arith) requires r2 >= r + 1, cols > 0; }
}
pub broadcast proof fn at_ix(m: Mat, r: int, c: int)
    requires 0 <= r < m.rows, 0 <= c < m.cols,
    ensures #[trigger] at(m, r, c) == m.entries@[r * m.cols + c], 0 <= r * m.cols + c < m.rows * m.cols,
        (r * m.cols + c) / (m.cols as int) == r, (r * m.cols + c) % (m.cols as int) == c
{ ix_lemma(r, c, m.rows as int, m.cols as int); }
// positions determine indices
pub proof fn ix_inj(r: int, c: int, r2: int, c2: int, rows: int, cols: int)
    requires 0 <= r < rows, 0 <= c < cols, 0 <= r2 < rows, 0 <= c2 < cols,
    ensures (r * cols + c == r2 * cols + c2) == (r == r2 && c == c2)
{ ix_lemma(r, c, rows, cols); ix_lemma(r2, c2, rows, cols); }
pub proof fn at_update(m: Mat, m2: Mat, r: int, c: int, x: F)
    requires wf(m), inm(m, r, c), m2.rows == m.rows, m2.cols == m.cols, m2.entries@ == m.entries@.update(r * m.cols + c, x),
    ensures wf(m2), forall|r2: int, c2: int| #![trigger at(m2, r2, c2)] inm(m, r2, c2) ==> at(m2, r2, c2) == (if r2 == r && c2 == c { x } else { at(m, r2, c2) })
{
    ix_lemma(r, c, m.rows as int, m.cols as int);
    assert forall|r2: int, c2: int| #![trigger at(m2, r2, c2)] inm(m, r2, c2) implies at(m2, r2, c2) == (if r2 == r && c2 == c { x } else { at(m, r2, c2) }) by {
        ix_lemma(r2, c2, m.rows as int, m.cols as int);
        ix_inj(r, c, r2, c2, m.rows as int, m.cols as int);
    }
}
pub proof fn mat_ext(a: Mat, b: Mat)
    requires same_shape(a, b), forall|r: int, c: int| #![trigger at(a, r, c)] inm(a, r, c) ==> at(a, r, c) == at(b, r, c), ensures a == b
{
    assert forall|k: int| 0 <= k < a.entries@.len() implies a.entries@[k] == b.entries@[k] by {
        ix_back(k, a.rows as int, a.cols as int);
        assert(at(a, k / a.cols as int, k % a.cols as int) == a.entries@[k]);
    }
    assert(a.entries@ =~= b.entries@);
    vec_ext(a.entries, b.entries);
}
pub proof fn seq_flat_at<T>(s: Seq<VIter<T>>, n: int, k: int)
    requires n >= 0, forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i])@.len() == n,
    ensures seq_flat(s).len() == s.len() * n,
        0 <= k < s.len() * n ==> 0 <= k / n < s.len() && 0 <= k % n < n && seq_flat(s)[k] == s[k / n]@[k % n]
    decreases s.len()
{
    if s.len() == 0 { assert(s.len() * n == 0) by(nonlinear_arith) requires s.len() == 0; } else {
        let t = s.drop_last();
        seq_flat_at(t, n, k);
        assert(s.len() * n == t.len() * n + n) by(nonlinear_arith) requires s.len() == t.len() + 1;
        if 0 <= k < s.len() * n {
            ix_back(k, s.len() as int, n);
            if k < t.len() * n {
                assert(seq_flat(s)[k] == seq_flat(t)[k]);
                assert(t[k / n] == s[k / n]);
            } else {
                let q = t.len() as int;
                vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(k, n, q, k - q * n);
                assert(seq_flat(s)[k] == s.last()@[k - seq_flat(t).len()]);
            }
        }
    }
}
pub open spec fn flat_at<T>(s: Seq<VIter<T>>, f: Seq<T>, n: int, k: int) -> bool {
    0 <= k / n < s.len() && 0 <= k % n < n && f[k] == s[k / n]@[k % n]
}
pub open spec fn flat_ok<T>(s: Seq<VIter<T>>, f: Seq<T>, n: int) -> bool {
    forall|k: int| #![trigger f[k]] #![trigger flat_at(s, f, n, k)] 0 <= k < f.len() ==> flat_at(s, f, n, k)
}
pub broadcast proof fn seq_flat_box<T>(s: Seq<VIter<T>>)
    requires forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i])@.len() == s[0]@.len(),
    ensures (#[trigger] seq_flat(s)).len() == s.len() * s[0]@.len(), flat_ok(s, seq_flat(s), s[0]@.len() as int)
{
    let n = s[0]@.len() as int; let f = seq_flat(s);
    seq_flat_at(s, n, 0);
    assert forall|k: int| #![trigger f[k]] #![trigger flat_at(s, f, n, k)] 0 <= k < f.len() implies flat_at(s, f, n, k) by { seq_flat_at(s, n, k); }
}
// row-major list of the positions of a box
pub open spec fn is_box(s: Seq<(usize, usize)>, rows: int, cols: int) -> bool {
    &&& s.len() == rows * cols
    &&& forall|k: int| #![trigger s[k]] 0 <= k < s.len() ==> s[k].0 < rows && s[k].1 < cols && s[k].0 == k / cols && s[k].1 == k % cols
}
//@ raw
// ---------- sums of products over the reals
pub type RM = spec_fn(int, int) -> real;
pub open spec fn rm(m: Mat) -> RM { |r: int, c: int| at(m, r, c).v() }
// sum_{i<k} a(r, i) * b(i, c)
pub open spec fn dotp(a: RM, b: RM, r: int, c: int, k: int) -> real decreases k {
    if k <= 0 { 0real } else { dotp(a, b, r, c, k - 1) + mu(a(r, k - 1), b(k - 1, c)) }
}
// inner product of two entry lists, sum of squares, plain sum
pub open spec fn dots(s: Seq<F>, t: Seq<F>, k: int) -> real decreases k { if k <= 0 { 0real } else { dots(s, t, k - 1) + mu(s[k - 1].v(), t[k - 1].v()) } }
pub proof fn dots_sq(s: Seq<F>, k: int)
    requires 0 <= k <= s.len(), ensures dots(s, s, k) >= 0real, (dots(s, s, k) == 0real) == (forall|i: int| 0 <= i < k ==> (#[trigger] s[i]).v() == 0real) decreases k
{
    if k > 0 {
        dots_sq(s, k - 1);
        let x = s[k - 1].v();
        mu_def(x, x);
        assert(x * x >= 0real) by(nonlinear_arith);
        assert((x * x == 0real) == (x == 0real)) by(nonlinear_arith);
    }
}
pub proof fn frob_zero(m: Mat)
    requires wf(m), ensures (dots(m.entries@, m.entries@, m.entries@.len() as int) == 0real) == (forall|r: int, c: int| #![trigger at(m, r, c)] inm(m, r, c) ==> at(m, r, c).v() == 0real)
{
    dots_sq(m.entries@, m.entries@.len() as int);
    let z = forall|r: int, c: int| #![trigger at(m, r, c)] inm(m, r, c) ==> at(m, r, c).v() == 0real;
    if z {
        assert forall|k: int| 0 <= k < m.entries@.len() implies (#[trigger] m.entries@[k]).v() == 0real by {
            ix_back(k, m.rows as int, m.cols as int); assert(at(m, k / m.cols as int, k % m.cols as int) == m.entries@[k]);
        }
    }
    if forall|k: int| 0 <= k < m.entries@.len() ==> (#[trigger] m.entries@[k]).v() == 0real {
        assert forall|r: int, c: int| #![trigger at(m, r, c)] inm(m, r, c) implies at(m, r, c).v() == 0real by { ix_lemma(r, c, m.rows as int, m.cols as int); }
    }
}
// the transposition of a and b
pub open spec fn tr(a: int, b: int, r: int) -> int { if r == a { b } else if r == b { a } else { r } }
pub open spec fn delta(i: int, j: int) -> real { if i == j { 1real } else { 0real } }
//@ fn get_box_iter(rows, cols)
//@@ ensures
is_box(ret@, rows as int, cols as int)
//@@ closure 1 ensures
cret@.len() == cols, forall|j: int| 0 <= j < cols ==> #[trigger] cret@[j] == (a0, j as usize)
//@@ hint start
if rows == 0 { assert(0 * cols == 0) by(nonlinear_arith); }
//@ fn Mat__new(rows, cols, entries)
//@@ ensures
ret.rows == rows, ret.cols == cols, ret.entries == entries
//@ fn Mat__rows(this)
//@@ spec: this.rows
//@ fn Mat__cols(this)
//@@ spec: this.cols
//@ fn Mat__entries(this)
//@@ ensures
ret@ == this.entries@
//@ fn Mat__get_unchecked(this, r, c)
//@@ requires
wf(*this), r < this.rows, c < this.cols
//@@ spec: &at(*this, r as int, c as int)
//@@ hint start
ix_lemma(r as int, c as int, this.rows as int, this.cols as int);
//@ fn Mat__Index__Tusize_usize__index(this, p)
//@@ requires
wf(*this), p.0 < this.rows, p.1 < this.cols
//@@ spec: &at(*this, p.0 as int, p.1 as int)
//@ fn Mat__get_mut_unchecked(this, r, c)
//@@ requires
wf(*old(this)), r < old(this).rows, c < old(this).cols
//@@ ensures
*ret == at(*old(this), r as int, c as int), final(this).rows == old(this).rows, final(this).cols == old(this).cols,
final(this).entries@ == old(this).entries@.update(r * old(this).cols + c, *final(ret)),
wf(*final(this)),
forall|r2: int, c2: int| #![trigger at(*final(this), r2, c2)] inm(*old(this), r2, c2) ==> at(*final(this), r2, c2) == (if r2 == r && c2 == c { *final(ret) } else { at(*old(this), r2, c2) })
//@@ hint start
ix_lemma(r as int, c as int, this.rows as int, this.cols as int);
//@ fn Mat__IndexMut__Tusize_usize__index_mut(this, p)
//@@ requires
wf(*old(this)), p.0 < old(this).rows, p.1 < old(this).cols
//@@ ensures
*ret == at(*old(this), p.0 as int, p.1 as int), final(this).rows == old(this).rows, final(this).cols == old(this).cols,
final(this).entries@ == old(this).entries@.update(p.0 * old(this).cols + p.1, *final(ret)),
wf(*final(this)),
forall|r2: int, c2: int| #![trigger at(*final(this), r2, c2)] inm(*old(this), r2, c2) ==> at(*final(this), r2, c2) == (if r2 == p.0 && c2 == p.1 { *final(ret) } else { at(*old(this), r2, c2) })
//@ fn Mat__identity(n)
//@@ ensures
mat_is(ret, n as int, n as int, |r: int, c: int| if r == c { fone() } else { fzero() })
//@ fn Mat__zero(rows, cols)
//@@ ensures
mat_is(ret, rows as int, cols as int, |r: int, c: int| fzero())
//@ fn Mat__e(k, n)
//@@ ensures
mat_is(ret, n as int, 1, |r: int, c: int| if r == k { fone() } else { fzero() })
//@ fn Mat__from_col_vectors(vs)
//@@ requires
vs@.len() > 0, forall|i: int| 0 <= i < vs@.len() ==> wf(#[trigger] vs@[i]) && vs@[i].cols >= 1 && vs@[i].rows >= vs@[0].rows
//@@ ensures
mat_is(ret, vs@[0].rows as int, vs@.len() as int, |r: int, c: int| at(vs@[c], r, 0))
//@ fn Mat__from_row_vectors(vs)
//@@ requires
vs@.len() > 0, forall|i: int| 0 <= i < vs@.len() ==> wf(#[trigger] vs@[i]) && vs@[i].cols >= 1 && vs@[i].rows >= vs@[0].rows
//@@ ensures
mat_is(ret, vs@.len() as int, vs@[0].rows as int, |r: int, c: int| at(vs@[r], c, 0))
//@ fn Mat__scale_mat(rows, i, scale)
//@@ ensures
mat_is(ret, rows as int, rows as int, |r: int, c: int| if r == c { if r == i { scale } else { fone() } } else { fzero() })
//@ fn Mat__permutation(rows, source, target)
//@@ ensures
mat_is(ret, rows as int, rows as int, |r: int, c: int| if c == (if r == source { target as int } else if r == target { source as int } else { r }) { fone() } else { fzero() })
//@ fn Mat__permutation_from_vec(permutation)
//@@ ensures
perm_mat(ret, permutation@)
//@ fn Mat__replacement(rows, source, target, scalar)
//@@ ensures
mat_is(ret, rows as int, rows as int, |r: int, c: int| if r == target && c == source { scalar } else if r == c { fone() } else { fzero() })
//@ fn Mat__transpose(this)
//@@ requires
wf(*this)
//@@ ensures
mat_is(ret, this.cols as int, this.rows as int, |r: int, c: int| at(*this, c, r))
//@ fn Mat__get_row_iter(this, r)
//@@ requires
wf(*this), r < this.rows
//@@ ensures
ret@.len() == this.cols, forall|k: int| #![trigger ret@[k]] #![trigger at(*this, r as int, k)] 0 <= k < ret@.len() ==> *ret@[k] == at(*this, r as int, k)
//@@ hint start
row_ix(r as int, this.rows as int, this.cols as int);
//@ fn Mat__get_row(this, r)
//@@ requires
wf(*this), r < this.rows
//@@ ensures
mat_is(ret, this.cols as int, 1, |k: int, c: int| at(*this, r as int, k)),
forall|k: int| #![trigger ret.entries@[k]] #![trigger at(*this, r as int, k)] 0 <= k < this.cols ==> ret.entries@[k] == at(*this, r as int, k)
//@ fn Mat__get_col_iter(this, c)
//@@ requires
wf(*this), c < this.cols
//@@ ensures
ret@.len() == this.rows, forall|k: int| #![trigger ret@[k]] #![trigger at(*this, k, c as int)] 0 <= k < ret@.len() ==> *ret@[k] == at(*this, k, c as int)
//@ fn Mat__get_col(this, c)
//@@ requires
wf(*this), c < this.cols
//@@ ensures
mat_is(ret, this.rows as int, 1, |k: int, c2: int| at(*this, k, c as int)),
forall|k: int| #![trigger ret.entries@[k]] #![trigger at(*this, k, c as int)] 0 <= k < this.rows ==> ret.entries@[k] == at(*this, k, c as int)
//@ fn Mat__From__I__from(iter)
//@@ ensures
ret.entries@ == iter@, ret.rows == iter@.len(), ret.cols == 1
//@ fn Mat__index_iter(this)
//@@ ensures
is_box(ret@, this.rows as int, this.cols as int)
//@@ hint end
assert forall|k: int| #![trigger ret@[k]] 0 <= k < ret@.len() implies ret@[k].0 < this.rows && ret@[k].1 < this.cols && ret@[k].0 == k / (this.cols as int) && ret@[k].1 == k % (this.cols as int) by { ix_back(k, this.rows as int, this.cols as int); }
//@ fn Mat__frobenius_norm(this)
//@@ ensures
ret.v() == dots(this.entries@, this.entries@, this.entries@.len() as int),
wf(*this) ==> (ret.v() == 0real) == (forall|r: int, c: int| #![trigger at(*this, r, c)] inm(*this, r, c) ==> at(*this, r, c).v() == 0real)
//@@ hint end
if wf(*this) { frob_zero(*this); }
//@@ fold 1: |i, a| a.v() == dots(this.entries@, this.entries@, i)
//@ fn Mat__dot(this, other)
//@@ ensures
ret.v() == dots(this.entries@, other.entries@, if this.entries@.len() <= other.entries@.len() { this.entries@.len() as int } else { other.entries@.len() as int })
//@@ fold 1: |i, a| a.v() == dots(this.entries@, other.entries@, i)
//@ fn Mat__scale_row(this, i, scalar)
//@@ requires
wf(*old(this)), i < old(this).rows
//@@ ensures
same_shape(*final(this), *old(this)),
forall|r: int, c: int| #![trigger at(*final(this), r, c)] inm(*old(this), r, c) && r != i ==> at(*final(this), r, c) == at(*old(this), r, c),
forall|r: int, c: int| #![trigger at(*final(this), r, c)] inm(*old(this), r, c) && r == i ==> at(*final(this), r, c).v() == mu(scalar.v(), at(*old(this), r, c).v())
//@@ loop 1 invariant
same_shape(*this, *old(this)),
forall|r: int, c: int| #![trigger at(*this, r, c)] inm(*old(this), r, c) && !(r == i && c < $i) ==> at(*this, r, c) == at(*old(this), r, c),
forall|r: int, c: int| #![trigger at(*this, r, c)] inm(*old(this), r, c) && r == i && c < $i ==> at(*this, r, c).v() == mu(scalar.v(), at(*old(this), r, c).v())
//@ fn Mat__permute_rows(this, source, target)
//@@ requires
wf(*old(this)), source < old(this).rows, target < old(this).rows
//@@ ensures
same_shape(*final(this), *old(this)),
forall|r: int, c: int| #![trigger at(*final(this), r, c)] inm(*old(this), r, c) ==> at(*final(this), r, c) == at(*old(this), tr(source as int, target as int, r), c)
//@@ loop 1 invariant
same_shape(*this, *old(this)),
forall|r: int, c: int| #![trigger at(*this, r, c)] inm(*old(this), r, c) ==> at(*this, r, c) == at(*old(this), if c < $i { tr(source as int, target as int, r) } else { r }, c)
//@ fn Mat__replace_row(this, source, target, scalar)
//@@ requires
wf(*old(this)), source < old(this).rows, target < old(this).rows
//@@ ensures
same_shape(*final(this), *old(this)),
forall|r: int, c: int| #![trigger at(*final(this), r, c)] inm(*old(this), r, c) && r != target ==> at(*final(this), r, c) == at(*old(this), r, c),
forall|r: int, c: int| #![trigger at(*final(this), r, c)] inm(*old(this), r, c) && r == target ==> at(*final(this), r, c).v() == at(*old(this), r, c).v() + mu(scalar.v(), at(*old(this), source as int, c).v())
//@@ loop 1 invariant
same_shape(*this, *old(this)),
forall|r: int, c: int| #![trigger at(*this, r, c)] inm(*old(this), r, c) && !(r == target && c < $i) ==> at(*this, r, c) == at(*old(this), r, c),
forall|r: int, c: int| #![trigger at(*this, r, c)] inm(*old(this), r, c) && r == target && c < $i ==> at(*this, r, c).v() == at(*old(this), r, c).v() + mu(scalar.v(), at(*old(this), source as int, c).v())
//@ fn Mat__swap(this, p, q)
//@@ requires
wf(*old(this)), p.0 < old(this).rows, p.1 < old(this).cols, q.0 < old(this).rows, q.1 < old(this).cols
//@@ ensures
same_shape(*final(this), *old(this)),
forall|r: int, c: int| #![trigger at(*final(this), r, c)] inm(*old(this), r, c) ==> at(*final(this), r, c) ==
    (if r == q.0 && c == q.1 { at(*old(this), p.0 as int, p.1 as int) } else if r == p.0 && c == p.1 { at(*old(this), q.0 as int, q.1 as int) } else { at(*old(this), r, c) })
//@@ hint start
ix_lemma(p.0 as int, p.1 as int, this.rows as int, this.cols as int); ix_lemma(q.0 as int, q.1 as int, this.rows as int, this.cols as int);
//@ fn Mat__scale(this, scalar)
//@@ requires
wf(*old(this))
//@@ ensures
same_shape(*final(this), *old(this)),
forall|r: int, c: int| #![trigger at(*final(this), r, c)] inm(*old(this), r, c) ==> at(*final(this), r, c).v() == mu(at(*old(this), r, c).v(), scalar.v())
//@@ loop 1 invariant
forall|j: int| #![trigger $s[j]] 0 <= j < $i ==> (*final($s[j])).v() == mu((*$s[j]).v(), scalar.v())
//@ fn Mat__MulAssign__F__mul_assign(this, scalar)
//@@ requires
wf(*old(this))
//@@ ensures
same_shape(*final(this), *old(this)),
forall|r: int, c: int| #![trigger at(*final(this), r, c)] inm(*old(this), r, c) ==> at(*final(this), r, c).v() == mu(at(*old(this), r, c).v(), scalar.v())
//@@ loop 1 invariant
forall|j: int| #![trigger $s[j]] 0 <= j < $i ==> (*final($s[j])).v() == mu((*$s[j]).v(), scalar.v())
//@ fn rMat__Add__add(this, other)
//@@ panics: this.rows != other.rows || this.cols != other.cols
//@@ requires
wf(*this), wf(*other)
//@@ ensures
this.rows == other.rows, this.cols == other.cols, same_shape(ret, *this),
forall|r: int, c: int| #![trigger at(ret, r, c)] #![trigger at(*this, r, c)] inm(*this, r, c) ==> at(ret, r, c).v() == at(*this, r, c).v() + at(*other, r, c).v()
//@ fn rMat__Mul__F__mul(this, scalar)
//@@ requires
wf(*this)
//@@ ensures
same_shape(ret, *this),
forall|r: int, c: int| #![trigger at(ret, r, c)] #![trigger at(*this, r, c)] inm(*this, r, c) ==> at(ret, r, c).v() == mu(at(*this, r, c).v(), scalar.v())
//@ fn rMat__Mul__mul(this, other)
//@@ panics: this.cols != other.rows
//@@ requires
wf(*this), wf(*other)
//@@ ensures
this.cols == other.rows, wf(ret), ret.rows == this.rows, ret.cols == other.cols,
forall|r: int, c: int| #![trigger at(ret, r, c)] inm(ret, r, c) ==> at(ret, r, c).v() == dotp(rm(*this), rm(*other), r, c, this.cols as int)
//@@ closure 1 requires
a0.0 < this.rows, a0.1 < other.cols
//@@ closure 1 ensures
cret.v() == dotp(rm(*this), rm(*other), a0.0 as int, a0.1 as int, this.cols as int)
//@@ fold 1: |i, a| a.v() == dotp(rm(*this), rm(*other), r as int, c as int, i)
//@ fn Mat__is_upper_triangular(this)
//@@ requires
wf(*this)
//@@ ensures
ret == forall|r: int, c: int| #![trigger at(*this, r, c)] inm(*this, r, c) && c < r ==> at(*this, r, c) == fzero()
//@@ loop 1 invariant
forall|r: int, c: int| #![trigger at(*this, r, c)] inm(*this, r, c) && c < r && r < $i ==> at(*this, r, c) == fzero()
//@@ loop 2 invariant
forall|c: int| #![trigger at(*this, r as int, c)] inm(*this, r as int, c) && c < r && c < $i ==> at(*this, r as int, c) == fzero()
//@ fn Mat__is_lower_triangular(this)
//@@ requires
wf(*this)
//@@ ensures
ret == forall|r: int, c: int| #![trigger at(*this, r, c)] inm(*this, r, c) && c > r ==> at(*this, r, c) == fzero()
//@@ loop 1 invariant
forall|r: int, c: int| #![trigger at(*this, r, c)] inm(*this, r, c) && c > r && r < $i ==> at(*this, r, c) == fzero()
//@@ loop 2 invariant
forall|c: int| #![trigger at(*this, r as int, c)] inm(*this, r as int, c) && c > r && c < $i ==> at(*this, r as int, c) == fzero()
//@ fn Mat__EpsilonEquality__epsilon_equals(this, other)
//@@ panics: this.rows != other.rows || this.cols != other.cols
//@@ requires
wf(*this), wf(*other)
//@@ ensures
this.rows == other.rows, this.cols == other.cols, ret == (forall|r: int, c: int| #![trigger at(*this, r, c)] inm(*this, r, c) ==> at(*this, r, c) == at(*other, r, c))
//@ fn Mat__PartialEq__eq(this, other)
//@@ ensures
ret == (*this == *other)
//@ fn Mat__Clone__clone(this)
//@@ ensures
ret == *this

//@ fn Mat__get_row_iter_mut(this, r)
//@@ requires
wf(*old(this)), r < old(this).rows
//@@ ensures
ret@.len() == old(this).cols, final(this).rows == old(this).rows, final(this).cols == old(this).cols, wf(*final(this)),
forall|k: int| #![trigger ret@[k]] 0 <= k < ret@.len() ==> *ret@[k] == at(*old(this), r as int, k),
forall|r2: int, c2: int| #![trigger at(*final(this), r2, c2)] inm(*old(this), r2, c2) ==> at(*final(this), r2, c2) == (if r2 == r { *final(ret@[c2]) } else { at(*old(this), r2, c2) })
//@@ hint start
row_ix(r as int, this.rows as int, this.cols as int);
assert forall|r2: int, c2: int| #![trigger inm(*this, r2, c2)] inm(*this, r2, c2) implies (r2 < r ==> r2 * this.cols + c2 < r * this.cols) && (r2 > r ==> r2 * this.cols + c2 >= r * this.cols + this.cols) by { row_sep(r as int, r2, c2, this.cols as int); }
//@ fn Mat__get_col_iter_mut(this, c)
//@@ requires
wf(*old(this)), c < old(this).cols
//@@ ensures
ret@.len() == old(this).rows, final(this).rows == old(this).rows, final(this).cols == old(this).cols, wf(*final(this)),
forall|k: int| #![trigger ret@[k]] 0 <= k < ret@.len() ==> *ret@[k] == at(*old(this), k, c as int),
forall|r2: int, c2: int| #![trigger at(*final(this), r2, c2)] inm(*old(this), r2, c2) ==> at(*final(this), r2, c2) == (if c2 == c { *final(ret@[r2]) } else { at(*old(this), r2, c2) })
//@@ hint start
ix_lemma(0, c as int, 1, this.cols as int);
vstd::arithmetic::div_mod::lemma_div_multiples_vanish(this.rows as int, this.cols as int);
assert(this.cols * this.rows == this.rows * this.cols) by(nonlinear_arith);
//@@ hint end
assert forall|r2: int, c2: int| #![trigger inm(*old(this), r2, c2)] inm(*old(this), r2, c2) implies *ret@[r2] == at(*old(this), r2, c as int) by {}
//@@ closure 1 requires
c < a0@.len()
//@@ closure 1 ensures
*cret == (*old(a0))@[c as int], (*final(a0))@ == (*old(a0))@.update(c as int, *final(cret))

//@ fn Mat__Add__rMat__add(this, other)
//@@ panics: this.rows != other.rows || this.cols != other.cols
//@@ requires
wf(this), wf(*other)
//@@ ensures
this.rows == other.rows, this.cols == other.cols, same_shape(ret, this),
forall|r: int, c: int| #![trigger at(ret, r, c)] #![trigger at(this, r, c)] inm(this, r, c) ==> at(ret, r, c).v() == at(this, r, c).v() + at(*other, r, c).v()
//@ fn rMat__Add__Mat__add(this, other)
//@@ panics: this.rows != other.rows || this.cols != other.cols
//@@ requires
wf(*this), wf(other)
//@@ ensures
this.rows == other.rows, this.cols == other.cols, same_shape(ret, *this),
forall|r: int, c: int| #![trigger at(ret, r, c)] #![trigger at(*this, r, c)] inm(*this, r, c) ==> at(ret, r, c).v() == at(*this, r, c).v() + at(other, r, c).v()
//@ fn Mat__Add__add(this, other)
//@@ panics: this.rows != other.rows || this.cols != other.cols
//@@ requires
wf(this), wf(other)
//@@ ensures
this.rows == other.rows, this.cols == other.cols, same_shape(ret, this),
forall|r: int, c: int| #![trigger at(ret, r, c)] #![trigger at(this, r, c)] inm(this, r, c) ==> at(ret, r, c).v() == at(this, r, c).v() + at(other, r, c).v()
//@ fn Mat__Mul__F__mul(this, scalar)
//@@ requires
wf(this)
//@@ ensures
same_shape(ret, this),
forall|r: int, c: int| #![trigger at(ret, r, c)] #![trigger at(this, r, c)] inm(this, r, c) ==> at(ret, r, c).v() == mu(at(this, r, c).v(), scalar.v())
//@ fn Mat__Mul__rMat__mul(this, other)
//@@ panics: this.cols != other.rows
//@@ requires
wf(this), wf(*other)
//@@ ensures
this.cols == other.rows, wf(ret), ret.rows == this.rows, ret.cols == other.cols,
forall|r: int, c: int| #![trigger at(ret, r, c)] inm(ret, r, c) ==> at(ret, r, c).v() == dotp(rm(this), rm(*other), r, c, this.cols as int)
//@ fn rMat__Mul__Mat__mul(this, other)
//@@ panics: this.cols != other.rows
//@@ requires
wf(*this), wf(other)
//@@ ensures
this.cols == other.rows, wf(ret), ret.rows == this.rows, ret.cols == other.cols,
forall|r: int, c: int| #![trigger at(ret, r, c)] inm(ret, r, c) ==> at(ret, r, c).v() == dotp(rm(*this), rm(other), r, c, this.cols as int)
//@ fn Mat__Mul__mul(this, other)
//@@ panics: this.cols != other.rows
//@@ requires
wf(this), wf(other)
//@@ ensures
this.cols == other.rows, wf(ret), ret.rows == this.rows, ret.cols == other.cols,
forall|r: int, c: int| #![trigger at(ret, r, c)] inm(ret, r, c) ==> at(ret, r, c).v() == dotp(rm(this), rm(other), r, c, this.cols as int)
