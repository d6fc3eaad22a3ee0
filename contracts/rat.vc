//@ raw
// ---------- rationals
pub open spec fn rn(r: Rational) -> int { r.numer.0 as int }
pub open spec fn rd(r: Rational) -> int { r.denom.0 as int }
pub open spec fn simplest(r: Rational) -> bool { rd(r) > 0 && coprime(rn(r), rd(r)) }
// the number n/d as a real
pub open spec fn frac(n: int, d: int) -> real { (n as real) / (d as real) }
pub open spec fn rv(r: Rational) -> real { frac(rn(r), rd(r)) }
pub open spec fn rdv(x: real, y: real) -> real { x / y }
pub proof fn mul_cast(a: int, b: int) ensures ((a * b) as real) == (a as real) * (b as real) { assert(((a * b) as real) == (a as real) * (b as real)) by(nonlinear_arith); }
pub proof fn frac_consts() ensures frac(0, 1) == 0real, frac(1, 1) == 1real { assert(0real / 1real == 0real && 1real / 1real == 1real) by(nonlinear_arith); assert((0int as real) == 0real && (1int as real) == 1real); }
pub proof fn frac_cross(n: int, d: int, m: int, e: int)
    requires d != 0, e != 0, ensures (frac(n, d) == frac(m, e)) == (n * e == m * d)
{
    let nr = n as real; let dr = d as real; let mr = m as real; let er = e as real;
    mul_cast(n, e); mul_cast(m, d);
    let x = nr / dr; let y = mr / er;
    assert(x * dr == nr) by(nonlinear_arith) requires x == nr / dr, dr != 0real;
    assert(y * er == mr) by(nonlinear_arith) requires y == mr / er, er != 0real;
    if x == y {
        assert(nr * er == mr * dr) by(nonlinear_arith) requires x * dr == nr, x * er == mr;
    } else {
        assert(nr * er != mr * dr) by(nonlinear_arith) requires x * dr == nr, y * er == mr, x != y, dr != 0real, er != 0real;
    }
}
pub proof fn frac_mul(n: int, d: int, m: int, e: int)
    requires d != 0, e != 0, ensures d * e != 0, frac(n * m, d * e) == frac(n, d) * frac(m, e)
{
    let nr = n as real; let dr = d as real; let mr = m as real; let er = e as real;
    mul_cast(n, m); mul_cast(d, e);
    assert(d * e != 0) by(nonlinear_arith) requires d != 0, e != 0;
    assert((nr * mr) / (dr * er) == (nr / dr) * (mr / er)) by(nonlinear_arith) requires dr != 0real, er != 0real;
}
pub proof fn frac_add(n: int, d: int, m: int, e: int)
    requires d != 0, e != 0, ensures d * e != 0, frac(n * e + m * d, d * e) == frac(n, d) + frac(m, e), frac(n * e - m * d, d * e) == frac(n, d) - frac(m, e)
{
    let nr = n as real; let dr = d as real; let mr = m as real; let er = e as real;
    mul_cast(n, e); mul_cast(d, e); mul_cast(m, d);
    assert(d * e != 0) by(nonlinear_arith) requires d != 0, e != 0;
    assert((n * e + m * d) as real == nr * er + mr * dr && (n * e - m * d) as real == nr * er - mr * dr);
    let x = nr / dr; let y = mr / er; let p = dr * er;
    assert(p != 0real) by(nonlinear_arith) requires p == dr * er, dr != 0real, er != 0real;
    assert(x * dr == nr) by(nonlinear_arith) requires x == nr / dr, dr != 0real;
    assert(y * er == mr) by(nonlinear_arith) requires y == mr / er, er != 0real;
    assert(nr * er + mr * dr == (x + y) * p && nr * er - mr * dr == (x - y) * p) by(nonlinear_arith) requires x * dr == nr, y * er == mr, p == dr * er;
    assert(((x + y) * p) / p == x + y && ((x - y) * p) / p == x - y) by(nonlinear_arith) requires p != 0real;
}
pub proof fn frac_lt(n: int, d: int, m: int, e: int)
    requires d > 0, e > 0, ensures (frac(n, d) < frac(m, e)) == (n * e < m * d)
{
    let nr = n as real; let dr = d as real; let mr = m as real; let er = e as real;
    mul_cast(n, e); mul_cast(m, d);
    let x = nr / dr; let y = mr / er;
    assert(x * dr == nr) by(nonlinear_arith) requires x == nr / dr, dr != 0real;
    assert(y * er == mr) by(nonlinear_arith) requires y == mr / er, er != 0real;
    let p = dr * er;
    assert(p > 0real) by(nonlinear_arith) requires p == dr * er, dr > 0real, er > 0real;
    assert(nr * er == x * p && mr * dr == y * p) by(nonlinear_arith) requires x * dr == nr, y * er == mr, p == dr * er;
    if x < y { assert(x * p < y * p) by(nonlinear_arith) requires x < y, p > 0real; }
    else { assert(x * p >= y * p) by(nonlinear_arith) requires x >= y, p > 0real; }
}
// numerators and denominators reduced by their gcd
pub proof fn reduce_ok(n: int, d: int, g: int, k: int, l: int)
    requires is_gcd(g, n, d), d != 0, n == g * k, d == g * l,
    ensures g > 0, l != 0, coprime(k, l), coprime(-k, -l), k * d == n * l
{
    if g == 0 { gcd_zero(n, d); }
    assert(l != 0) by(nonlinear_arith) requires d == g * l, d != 0;
    assert(k * d == n * l) by(nonlinear_arith) requires n == g * k, d == g * l;
    assert forall|c: int| dvd(c, k) && dvd(c, l) implies #[trigger] dvd(c, 1) by {
        dvd_scale(g, c, k); dvd_scale(g, c, l);
        assert(dvd(g * c, n) && dvd(g * c, d));
        assert(dvd(g * c, g * 1));
        dvd_cancel(g, c, 1);
    }
    coprime_comm(k, l); coprime_comm(k, -l);
    assert(coprime(-k, -l)) by { coprime_comm(l, k); coprime_comm(-l, k); assert(coprime(k, -l)); coprime_comm(k, -l); }
}
pub proof fn dvd_antisym(d: int, e: int) requires dvd(d, e), dvd(e, d), d > 0, e > 0, ensures d == e { dvd_le(d, e); dvd_le(e, d); }
// two simplest forms of the same number are the same pair
pub proof fn simplest_unique(n: int, d: int, m: int, e: int)
    requires d > 0, e > 0, coprime(n, d), coprime(m, e), n * e == m * d, ensures n == m, d == e
{
    hide(dvd); hide(coprime);
    coprime_comm(n, d); coprime_comm(m, e);
    assert(n * e == d * m) by(nonlinear_arith) requires n * e == m * d;
    dvd_intro(d, n * e, m);
    gauss(d, n, e);
    assert(m * d == e * n) by(nonlinear_arith) requires n * e == m * d;
    dvd_intro(e, m * d, n);
    gauss(e, m, d);
    dvd_antisym(d, e);
    assert(n == m) by(nonlinear_arith) requires n * e == m * e, e > 0;
}
pub proof fn zero_simplest(r: Rational) requires simplest(r), rn(r) == 0, ensures rd(r) == 1
{ dvd_refl(rd(r)); assert(dvd(rd(r), 1)); dvd_one(rd(r)); }
pub proof fn frac_zero(n: int, d: int) requires d != 0, ensures (frac(n, d) == 0real) == (n == 0)
{ frac_cross(n, d, 0, 1); frac_consts(); }
pub proof fn frac_sign(n: int, d: int) requires d > 0, ensures (frac(n, d) < 0real) == (n < 0), (frac(n, d) > 0real) == (n > 0)
{ frac_lt(n, d, 0, 1); frac_lt(0, 1, n, d); frac_consts(); assert(0 * d == 0 && n * 1 == n); }
pub proof fn frac_neg(n: int, d: int) requires d != 0, ensures frac(-n, d) == -frac(n, d)
{ let nr = n as real; let dr = d as real; assert((-n) as real == -nr); assert((-nr) / dr == -(nr / dr)) by(nonlinear_arith) requires dr != 0real; }
pub proof fn frac_inv(n: int, d: int) requires d != 0, n != 0, ensures frac(d, n) == 1real / frac(n, d), frac(d, n) * frac(n, d) == 1real
{
    let nr = n as real; let dr = d as real;
    let x = nr / dr;
    assert(x * dr == nr) by(nonlinear_arith) requires x == nr / dr, dr != 0real;
    assert(x != 0real) by(nonlinear_arith) requires x * dr == nr, nr != 0real;
    let z = dr / nr;
    assert(z * nr == dr) by(nonlinear_arith) requires z == dr / nr, nr != 0real;
    assert(z * x == 1real) by(nonlinear_arith) requires z * nr == dr, x * dr == nr, dr != 0real;
    assert(z == 1real / x) by(nonlinear_arith) requires z * x == 1real, x != 0real;
}
pub open spec fn rpow(x: real, n: nat) -> real decreases n { if n == 0 { 1real } else { x * rpow(x, (n - 1) as nat) } }
pub proof fn frac_pow(n: int, d: int, e: nat) requires d > 0, ensures ipow(d, e) > 0, frac(ipow(n, e), ipow(d, e)) == rpow(frac(n, d), e) decreases e
{
    ipow_pos(d, e);
    if e == 0 { frac_consts(); } else {
        frac_pow(n, d, (e - 1) as nat);
        ipow_pos(d, (e - 1) as nat);
        frac_mul(n, d, ipow(n, (e - 1) as nat), ipow(d, (e - 1) as nat));
    }
}
pub open spec fn rat_sum(s: Seq<Rational>) -> real decreases s.len() { if s.len() == 0 { 0real } else { rat_sum(s.drop_last()) + rv(s.last()) } }
pub open spec fn rat_prod(s: Seq<Rational>) -> real decreases s.len() { if s.len() == 0 { 1real } else { rat_prod(s.drop_last()) * rv(s.last()) } }
// C01: equality of representations is equality of numbers
pub proof fn C01_equal_iff_same_number(a: Rational, b: Rational)
    requires simplest(a), simplest(b), ensures (rv(a) == rv(b)) == (rn(a) == rn(b) && rd(a) == rd(b))
{ frac_cross(rn(a), rd(a), rn(b), rd(b)); if rv(a) == rv(b) { simplest_unique(rn(a), rd(a), rn(b), rd(b)); } }
// C03: the order is the order of the reals, hence total, antisymmetric, transitive
pub open spec fn rcmp3(a: real, b: real) -> Ordering { if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater } }

// the shape the linear algebra proofs rely on: a comparison of real keys >= 0 that vanish exactly at zero
pub open spec fn stabkey(r: Rational) -> real { if rn(r) == 0 { 0real } else { 1real / ((abs(rn(r)) + rd(r)) as real) } }
pub open spec fn fstab_rat(a: Rational, b: Rational) -> Ordering { rcmp3(stabkey(a), stabkey(b)) }
pub proof fn stabkey_cmp(a: Rational, b: Rational)
    requires simplest(a), simplest(b),
    ensures stabkey(a) >= 0real, (stabkey(a) == 0real) == (rv(a) == 0real),
        rn(a) != 0 && rn(b) != 0 ==> fstab_rat(a, b) == int_cmp(abs(rn(b)) + rd(b), abs(rn(a)) + rd(a)),
        rn(a) == 0 && rn(b) != 0 ==> fstab_rat(a, b) == Ordering::Less,
        rn(a) != 0 && rn(b) == 0 ==> fstab_rat(a, b) == Ordering::Greater,
        rn(a) == 0 && rn(b) == 0 ==> fstab_rat(a, b) == Ordering::Equal,
{
    frac_zero(rn(a), rd(a));
    let x = (abs(rn(a)) + rd(a)) as real; let y = (abs(rn(b)) + rd(b)) as real;
    assert(x > 0real && y > 0real);
    assert(1real / x > 0real) by(nonlinear_arith) requires x > 0real;
    assert(1real / y > 0real) by(nonlinear_arith) requires y > 0real;
    let p = 1real / x; let q = 1real / y;
    assert(p * x == 1real) by(nonlinear_arith) requires p == 1real / x, x > 0real;
    assert(q * y == 1real) by(nonlinear_arith) requires q == 1real / y, y > 0real;
    if x < y { assert(p > q) by(nonlinear_arith) requires p * x == 1real, q * y == 1real, x < y, p > 0real, q > 0real; }
    if y < x { assert(q > p) by(nonlinear_arith) requires p * x == 1real, q * y == 1real, y < x, p > 0real, q > 0real; }
}

//@ fn Rational__new_unchecked(numer, denom)
//@@ ensures: ret.numer == numer, ret.denom == denom
//@ fn Rational__new(numer, denom)
//@@ panics: denom.0 == 0
//@@ ensures: simplest(ret), rv(ret) == frac(numer.0 as int, denom.0 as int)
//@@ hint let gcd
let n = numer.0 as int; let d = denom.0 as int; let g = gcd.0 as int;
let k = choose|k: int| n == #[trigger] (g * k);
let l = choose|l: int| d == #[trigger] (g * l);
reduce_ok(n, d, g, k, l);
tdiv_exact(n, g, k); tdiv_exact(d, g, l); 
assert(-n == g * (-k) && -d == g * (-l)) by(nonlinear_arith) requires n == g * k, d == g * l;
tdiv_exact(-n, g, -k); tdiv_exact(-d, g, -l);
assert((d < 0) == (l < 0)) by(nonlinear_arith) requires d == g * l, g > 0;
assert((-1) * n == -n && 1 * n == n && n * 1 == n && n * -1 == -n);
assert((-k) * d == n * (-l)) by(nonlinear_arith) requires k * d == n * l;
frac_cross(k, l, n, d); frac_cross(-k, -l, n, d);
//@ fn Rational__new_i64(numer, denom)
//@@ panics: denom == 0
//@@ ensures: simplest(ret), rv(ret) == frac(numer as int, denom as int)
//@ fn Rational__new_int(int_)
//@@ ensures: simplest(ret), rv(ret) == int_.0 as real, ret.numer == int_
//@@ hint start
coprime_one(int_.0 as int); assert((int_.0 as real) / 1real == int_.0 as real);
//@ fn Rational__From__Integer__from(int_)
//@@ ensures: simplest(ret), rv(ret) == int_.0 as real
//@ fn Rational__Zero__ZERO
//@@ ensures: rn(ret) == 0, rd(ret) == 1
//@ fn Rational__One__ONE
//@@ ensures: rn(ret) == 1, rd(ret) == 1
//@ fn Rational__Zero__is_zero(this)
//@@ requires: simplest(*this)
//@@ ensures: ret == (rv(*this) == 0real)
//@@ hint start
frac_zero(rn(*this), rd(*this)); if rn(*this) == 0 { zero_simplest(*this); }
//@ fn Rational__One__is_one(this)
//@@ requires: simplest(*this)
//@@ ensures: ret == (rv(*this) == 1real)
//@@ hint start
let one = Rational { numer: Integer(1), denom: Integer(1) };
coprime_one(1); frac_consts(); C01_equal_iff_same_number(*this, one); assert(rv(one) == 1real);
frac_cross(rn(*this), rd(*this), 1, 1);
//@ fn Rational__PartialEq__eq(this, other)
//@@ requires: simplest(*this), simplest(*other)
//@@ ensures: ret == (rv(*this) == rv(*other)), ret == (*this == *other)
//@@ hint start
C01_equal_iff_same_number(*this, *other);
//@ fn Rational__Clone__clone(this)
//@@ ensures: ret == *this
//@ fn Rational__recip(this)
//@@ requires: simplest(*this)
//@@ panics: rn(*this) == 0
//@@ ensures: simplest(ret), rv(ret) == 1real / rv(*this)
//@@ hint start
if rn(*this) != 0 { frac_inv(rn(*this), rd(*this)); }
//@ fn Rational__Field__inv(this)
//@@ requires: simplest(this)
//@@ panics: rn(this) == 0
//@@ ensures: simplest(ret), rv(ret) == 1real / rv(this)
//@ fn Rational__pow(this, exp)
//@@ requires: simplest(*this), -(u32::MAX as int) <= exp.0 <= u32::MAX
//@@ panics: rn(*this) == 0 && exp.0 < 0
//@@ decreases: if exp.0 < 0 { 1int } else { 0int }
//@@ ensures
simplest(ret),
exp.0 >= 0 ==> rv(ret) == rpow(rv(*this), exp.0 as nat),
exp.0 < 0 ==> rv(ret) == rpow(1real / rv(*this), (-exp.0) as nat)
//@@ hint start
assert forall|q: Rational, e: nat| #![trigger ipow(q.numer.0 as int, e), ipow(q.denom.0 as int, e)] simplest(q)
    implies coprime(ipow(rn(q), e), ipow(rd(q), e)) && ipow(rd(q), e) > 0 && frac(ipow(rn(q), e), ipow(rd(q), e)) == rpow(rv(q), e) by {
    coprime_pow(rn(q), rd(q), e); frac_pow(rn(q), rd(q), e);
}
//@ fn Rational__powi(this, exp)
//@@ requires: simplest(*this), exp > i32::MIN
//@@ panics: rn(*this) == 0 && exp < 0
//@@ ensures
simplest(ret),
exp >= 0 ==> rv(ret) == rpow(rv(*this), exp as nat),
exp < 0 ==> rv(ret) == rpow(1real / rv(*this), (-exp) as nat)
//@ fn Rational__Field__powi32(this, p)
//@@ requires: simplest(*this), p > i32::MIN
//@@ panics: rn(*this) == 0 && p < 0
//@@ ensures
simplest(ret),
p >= 0 ==> rv(ret) == rpow(rv(*this), p as nat),
p < 0 ==> rv(ret) == rpow(1real / rv(*this), (-p) as nat)
//@ fn Rational__sgn(this)
//@@ requires: simplest(*this)
//@@ ensures
ret.0 == (if rv(*this) < 0real { -1int } else if rv(*this) == 0real { 0int } else { 1int })
//@@ hint start
frac_sign(rn(*this), rd(*this)); frac_zero(rn(*this), rd(*this));
//@ fn Rational__Add__add(this, other)
//@@ requires: simplest(this), simplest(other)
//@@ ensures: simplest(ret), rv(ret) == rv(this) + rv(other)
//@@ hint start
frac_add(rn(this), rd(this), rn(other), rd(other));
frac_zero(rn(this) * rd(other) + rn(other) * rd(this), rd(this) * rd(other));
coprime_one(0); frac_consts();
//@ fn Rational__Sub__sub(this, other)
//@@ requires: simplest(this), simplest(other)
//@@ ensures: simplest(ret), rv(ret) == rv(this) - rv(other)
//@@ hint start
frac_add(rn(this), rd(this), rn(other), rd(other));
frac_zero(rn(this) * rd(other) - rn(other) * rd(this), rd(this) * rd(other));
coprime_one(0); frac_consts();
//@ fn Rational__Mul__mul(this, other)
//@@ requires: simplest(this), simplest(other)
//@@ ensures: simplest(ret), rv(ret) == rv(this) * rv(other)
//@@ hint start
frac_mul(rn(this), rd(this), rn(other), rd(other));
//@ fn Rational__Div__div(this, other)
//@@ requires: simplest(this), simplest(other)
//@@ panics: rn(other) == 0
//@@ ensures: simplest(ret), rv(ret) == rv(this) / rv(other)
//@@ hint start
if rn(other) != 0 {
    frac_mul(rn(this), rd(this), rd(other), rn(other));
    frac_inv(rn(other), rd(other)); frac_zero(rn(other), rd(other));
    let x = rv(this); let y = rv(other);
    assert(x * (1real / y) == x / y) by(nonlinear_arith) requires y != 0real;
} else { assert(rd(this) * 0 == 0); }
//@ fn Rational__Neg__neg(this)
//@@ requires: simplest(this)
//@@ ensures: simplest(ret), rv(ret) == -rv(this)
//@@ hint start
frac_neg(rn(this), rd(this)); coprime_comm(rn(this), rd(this));
//@ fn Rational__AddAssign__add_assign(this, other)
//@@ requires: simplest(*old(this)), simplest(other)
//@@ ensures: simplest(*final(this)), rv(*final(this)) == rv(*old(this)) + rv(other)
//@ fn Rational__SubAssign__sub_assign(this, other)
//@@ requires: simplest(*old(this)), simplest(other)
//@@ ensures: simplest(*final(this)), rv(*final(this)) == rv(*old(this)) - rv(other)
//@ fn Rational__MulAssign__mul_assign(this, other)
//@@ requires: simplest(*old(this)), simplest(other)
//@@ ensures: simplest(*final(this)), rv(*final(this)) == rv(*old(this)) * rv(other)
//@ fn Rational__DivAssign__div_assign(this, other)
//@@ requires: simplest(*old(this)), simplest(other)
//@@ panics: rn(*this) == rn(*this) && rn(other) == 0
//@@ ensures: simplest(*final(this)), rv(*final(this)) == rv(*old(this)) / rv(other)
//@ fn Rational__Sum__sum(iter)
//@@ requires: forall|i: int| 0 <= i < iter@.len() ==> simplest(#[trigger] iter@[i])
//@@ ensures: simplest(ret), rv(ret) == rat_sum(iter@)
//@@ hint start
coprime_one(0); frac_consts();
//@@ hint fold 1
assert forall|i: int| 0 <= i < $s.len() implies simplest(#[trigger] $s[i]) && rat_sum($s.take(i + 1)) == rat_sum($s.take(i)) + rv($s[i]) by {
    assert($s.take(i + 1).drop_last() =~= $s.take(i));
}
assert($s.take($s.len() as int) =~= $s); assert(rat_sum($s.take(0)) == 0real);
//@@ fold 1: |i, a| simplest(a) && rv(a) == rat_sum($s.take(i))
//@ fn Rational__Product__product(iter)
//@@ requires: forall|i: int| 0 <= i < iter@.len() ==> simplest(#[trigger] iter@[i])
//@@ ensures: simplest(ret), rv(ret) == rat_prod(iter@)
//@@ hint start
coprime_one(1); frac_consts();
//@@ hint fold 1
assert forall|i: int| 0 <= i < $s.len() implies simplest(#[trigger] $s[i]) && rat_prod($s.take(i + 1)) == rat_prod($s.take(i)) * rv($s[i]) by {
    assert($s.take(i + 1).drop_last() =~= $s.take(i));
}
assert($s.take($s.len() as int) =~= $s); assert(rat_prod($s.take(0)) == 1real);
//@@ fold 1: |i, a| simplest(a) && rv(a) == rat_prod($s.take(i))
//@ fn Rational__EpsilonEquality__epsilon_equals(this, other)
//@@ requires: simplest(*this), simplest(*other)
//@@ ensures: ret == (rv(*this) == rv(*other))
//@ fn Rational__Ord__cmp(this, other)
//@@ requires: simplest(*this), simplest(*other)
//@@ ensures: ret == rcmp3(rv(*this), rv(*other))
//@@ hint start
frac_lt(rn(*this), rd(*this), rn(*other), rd(*other)); frac_cross(rn(*this), rd(*this), rn(*other), rd(*other));
//@ fn Rational__PartialOrd__partial_cmp(this, other)
//@@ requires: simplest(*this), simplest(*other)
//@@ ensures: ret == Some(rcmp3(rv(*this), rv(*other)))
//@ fn Rational__StabilityCmp__stability_cmp(this, other)
//@@ requires: simplest(*this), simplest(*other)
//@@ ensures
ret is Some,
rv(*this) == 0real && rv(*other) != 0real ==> ret == Some(Ordering::Less),
rv(*other) == 0real && rv(*this) != 0real ==> ret == Some(Ordering::Greater),
rv(*this) == 0real && rv(*other) == 0real ==> ret == Some(Ordering::Equal),
ret == Some(fstab_rat(*this, *other))
//@@ hint start
frac_zero(rn(*this), rd(*this)); frac_zero(rn(*other), rd(*other)); coprime_one(0); frac_consts();
stabkey_cmp(*this, *other);
