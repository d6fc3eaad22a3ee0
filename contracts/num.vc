//@ raw
// ---------- divisibility, coprimality (all over mathematical integers)
pub open spec fn dvd(d: int, n: int) -> bool { exists|k: int| n == #[trigger] (d * k) }
pub open spec fn is_gcd(g: int, a: int, b: int) -> bool {
    g >= 0 && dvd(g, a) && dvd(g, b) && (forall|d: int| dvd(d, a) && dvd(d, b) ==> #[trigger] dvd(d, g))
}
pub open spec fn is_lcm(l: int, a: int, b: int) -> bool {
    l >= 0 && dvd(a, l) && dvd(b, l) && (forall|m: int| dvd(a, m) && dvd(b, m) ==> #[trigger] dvd(l, m))
}
pub open spec fn coprime(a: int, b: int) -> bool { forall|d: int| dvd(d, a) && dvd(d, b) ==> #[trigger] dvd(d, 1) }
pub open spec fn same_divs(a: int, b: int, c: int, e: int) -> bool {
    forall|d: int| #![trigger dvd(d, a), dvd(d, b)] #![trigger dvd(d, c), dvd(d, e)] (dvd(d, a) && dvd(d, b)) <==> (dvd(d, c) && dvd(d, e))
}
pub proof fn dvd_intro(d: int, n: int, k: int) requires n == d * k, ensures dvd(d, n) {}
pub proof fn dvd_lin(d: int, a: int, b: int, x: int, y: int)
    requires dvd(d, a), dvd(d, b), ensures dvd(d, a * x + b * y)
{
    let k = choose|k: int| a == #[trigger] (d * k);
    let l = choose|l: int| b == #[trigger] (d * l);
    assert(a * x == d * (k * x)) by(nonlinear_arith) requires a == d * k;
    assert(b * y == d * (l * y)) by(nonlinear_arith) requires b == d * l;
    assert(d * (k * x + l * y) == d * (k * x) + d * (l * y)) by(nonlinear_arith);
    dvd_intro(d, a * x + b * y, k * x + l * y);
}
pub proof fn dvd_trans(a: int, b: int, c: int) requires dvd(a, b), dvd(b, c), ensures dvd(a, c)
{
    let k = choose|k: int| b == #[trigger] (a * k);
    let l = choose|l: int| c == #[trigger] (b * l);
    assert(c == a * (k * l)) by(nonlinear_arith) requires b == a * k, c == b * l;
    dvd_intro(a, c, k * l);
}
pub proof fn dvd_refl(a: int) ensures dvd(a, a), dvd(a, 0), dvd(1, a), dvd(a, -a), dvd(-a, a)
{ dvd_intro(a, a, 1); dvd_intro(a, 0, 0); dvd_intro(1, a, a); dvd_intro(a, -a, -1); dvd_intro(-a, a, -1); }
pub proof fn dvd_mul(d: int, a: int, x: int) requires dvd(d, a), ensures dvd(d, a * x), dvd(d, x * a)
{ dvd_lin(d, a, a, x, 0); assert(a * x + a * 0 == a * x && x * a == a * x) by(nonlinear_arith); }
pub proof fn dvd_neg(d: int, a: int) requires dvd(d, a), ensures dvd(d, -a)
{ dvd_lin(d, a, a, -1, 0); assert(a * -1 + a * 0 == -a) by(nonlinear_arith); }
pub proof fn dvd_one(d: int) requires dvd(d, 1), ensures d == 1 || d == -1
{ let k = choose|k: int| 1 == #[trigger] (d * k); assert(d == 1 || d == -1) by(nonlinear_arith) requires 1 == d * k; }
pub proof fn dvd_le(d: int, n: int) requires dvd(d, n), n > 0, ensures d <= n
{ let k = choose|k: int| n == #[trigger] (d * k); assert(d <= n) by(nonlinear_arith) requires n == d * k, n > 0; }
pub proof fn dvd_cancel(g: int, d: int, n: int) requires g != 0, dvd(g * d, g * n), ensures dvd(d, n)
{
    let k = choose|k: int| g * n == #[trigger] ((g * d) * k);
    assert(n == d * k) by(nonlinear_arith) requires g != 0, g * n == (g * d) * k;
    dvd_intro(d, n, k);
}
pub proof fn dvd_scale(g: int, d: int, n: int) requires dvd(d, n), ensures dvd(g * d, g * n)
{
    let k = choose|k: int| n == #[trigger] (d * k);
    assert(g * n == (g * d) * k) by(nonlinear_arith) requires n == d * k;
    dvd_intro(g * d, g * n, k);
}
pub proof fn tdiv_prop(a: int, b: int)
    requires b != 0,
    ensures a == b * t_div_spec(a, b) + t_rem_spec(a, b), -abs(b) < t_rem_spec(a, b) < abs(b),
        a >= 0 ==> t_rem_spec(a, b) >= 0, a <= 0 ==> t_rem_spec(a, b) <= 0
{
    let c = if a >= 0 { a } else { -a };
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(c, b);
    if b > 0 { assert(0 <= c % b < b) by(nonlinear_arith) requires b > 0; }
    else { assert(0 <= c % b < -b) by(nonlinear_arith) requires b < 0; }
    let q = c / b;
    assert(b * (-q) == -(b * q)) by(nonlinear_arith);
    if a == 0 { assert(c % b == 0) by(nonlinear_arith) requires c == 0, b != 0; }
}
pub open spec fn abs(a: int) -> int { if a < 0 { -a } else { a } }
pub proof fn tdiv_exact(a: int, b: int, k: int)
    requires b != 0, a == b * k, ensures t_div_spec(a, b) == k, t_rem_spec(a, b) == 0
{
    tdiv_prop(a, b);
    let q = t_div_spec(a, b); let r = t_rem_spec(a, b);
    assert(r == b * (k - q)) by(nonlinear_arith) requires a == b * q + r, a == b * k;
    assert(k == q) by(nonlinear_arith) requires r == b * (k - q), -abs(b) < r < abs(b), abs(b) == (if b < 0 { -b } else { b }), b != 0;
}
pub proof fn euclid_step(a: int, b: int) requires b != 0, ensures same_divs(a, b, b, t_rem_spec(a, b))
{
    tdiv_prop(a, b);
    let q = t_div_spec(a, b); let r = t_rem_spec(a, b);
    assert forall|d: int| (dvd(d, a) && dvd(d, b)) <==> (dvd(d, b) && dvd(d, r)) by {
        if dvd(d, a) && dvd(d, b) { dvd_lin(d, a, b, 1, -q); assert(r == a * 1 + b * (-q)) by(nonlinear_arith) requires a == b * q + r; }
        if dvd(d, b) && dvd(d, r) { dvd_lin(d, b, r, q, 1); }
    }
}
pub proof fn gcd_of_zero(a: int, a0: int, b0: int)
    requires same_divs(a, 0, a0, b0), ensures is_gcd(abs(a), a0, b0)
{
    dvd_refl(a); dvd_refl(abs(a)); dvd_refl(-a);
    let g = abs(a);
    assert(dvd(g, a) && dvd(a, g));
    assert(dvd(g, 0)) by { dvd_refl(g); }
    assert forall|d: int| dvd(d, a0) && dvd(d, b0) implies #[trigger] dvd(d, g) by { assert(dvd(d, a) && dvd(d, 0)); dvd_trans(d, a, g); }
}
// Bezout from the divisor characterisation
pub open spec fn bez(a: int, b: int, g: int) -> bool { exists|x: int, y: int| #![trigger (a * x), (b * y)] a * x + b * y == g }
pub proof fn bezout_ex(a: int, b: int) -> (w: (int, int, int))
    requires a >= 0, b >= 0,
    ensures a * w.0 + b * w.1 == w.2, dvd(w.2, a), dvd(w.2, b)
    decreases b
{
    if b == 0 { dvd_refl(a); assert(a * 1 + b * 0 == a) by(nonlinear_arith); (1, 0, a) } else {
        let r = a % b; let q = a / b;
        assert(a == b * q + r && 0 <= r < b) by(nonlinear_arith) requires q == a / b, r == a % b, b > 0;
        let w = bezout_ex(b, r);
        // b*x + r*y = g ; r = a - b q
        let x = w.0; let y = w.1; let g = w.2;
        assert(a * y + b * (x - q * y) == g) by(nonlinear_arith) requires b * x + r * y == g, a == b * q + r;
        dvd_lin(g, b, r, q, 1);
        (y, x - q * y, g)
    }
}
pub proof fn coprime_bez(a: int, b: int) -> (w: (int, int))
    requires coprime(a, b), ensures a * w.0 + b * w.1 == 1
{
    let aa = abs(a); let bb = abs(b);
    let w = bezout_ex(aa, bb);
    dvd_refl(aa); dvd_refl(bb); dvd_refl(a); dvd_refl(b);
    assert(dvd(w.2, a)) by { dvd_trans(w.2, aa, a); }
    assert(dvd(w.2, b)) by { dvd_trans(w.2, bb, b); }
    assert(dvd(w.2, 1));
    dvd_one(w.2);
    let s = w.2;
    let x = if (a < 0) == (s == 1) { -w.0 } else { w.0 }; let y = if (b < 0) == (s == 1) { -w.1 } else { w.1 };
    assert(a * x == s * (aa * w.0)) by(nonlinear_arith) requires s == 1 || s == -1, aa == (if a < 0 { -a } else { a }), x == (if (a < 0) == (s == 1) { -w.0 } else { w.0 });
    assert(b * y == s * (bb * w.1)) by(nonlinear_arith) requires s == 1 || s == -1, bb == (if b < 0 { -b } else { b }), y == (if (b < 0) == (s == 1) { -w.1 } else { w.1 });
    assert(s * (aa * w.0) + s * (bb * w.1) == 1) by(nonlinear_arith) requires aa * w.0 + bb * w.1 == s, s == 1 || s == -1;
    (x, y)
}
pub proof fn bez_coprime(a: int, b: int, x: int, y: int) requires a * x + b * y == 1, ensures coprime(a, b)
{ assert forall|d: int| dvd(d, a) && dvd(d, b) implies #[trigger] dvd(d, 1) by { dvd_lin(d, a, b, x, y); } }
pub proof fn coprime_comm(a: int, b: int) requires coprime(a, b), ensures coprime(b, a), coprime(-a, b), coprime(a, -b)
{
    let w = coprime_bez(a, b);
    bez_coprime(b, a, w.1, w.0);
    assert((-a) * (-w.0) + b * w.1 == 1 && a * w.0 + (-b) * (-w.1) == 1) by(nonlinear_arith) requires a * w.0 + b * w.1 == 1;
    bez_coprime(-a, b, -w.0, w.1); bez_coprime(a, -b, w.0, -w.1);
}
pub proof fn coprime_mul(a: int, b: int, c: int) requires coprime(a, b), coprime(a, c), ensures coprime(a, b * c)
{
    let w = coprime_bez(a, b); let z = coprime_bez(a, c);
    let x = w.0; let y = w.1; let u = z.0; let v = z.1;
    // b*y = 1 - a*x, c*v = 1 - a*u;  (b*y)*(c*v) = 1 - a*(x + u - a*x*u)
    let p = b * y; let q = c * v; let m = a * x; let n = a * u;
    assert(p * q == 1 - m - n + m * n) by(nonlinear_arith) requires m + p == 1, n + q == 1;
    assert((b * c) * (y * v) == p * q) by(nonlinear_arith) requires p == b * y, q == c * v;
    assert(a * (x + u - x * n) == m + n - m * n) by(nonlinear_arith) requires m == a * x, n == a * u;
    bez_coprime(a, b * c, x + u - x * n, y * v);
}
pub proof fn coprime_one(a: int) ensures coprime(a, 1), coprime(1, a) { dvd_refl(a); bez_coprime(a, 1, 0, 1); bez_coprime(1, a, 1, 0); }
pub proof fn coprime_pow_r(a: int, b: int, e: nat) requires coprime(a, b), ensures coprime(a, ipow(b, e)) decreases e
{ if e == 0 { coprime_one(a); } else { coprime_pow_r(a, b, (e - 1) as nat); coprime_mul(a, b, ipow(b, (e - 1) as nat)); } }
pub proof fn coprime_pow(a: int, b: int, e: nat) requires coprime(a, b), ensures coprime(ipow(a, e), ipow(b, e))
{ coprime_pow_r(a, b, e); coprime_comm(a, ipow(b, e)); coprime_pow_r(ipow(b, e), a, e); coprime_comm(ipow(b, e), ipow(a, e)); }
pub proof fn ipow_pos(b: int, e: nat) requires b > 0, ensures ipow(b, e) > 0 decreases e
{ if e > 0 { ipow_pos(b, (e - 1) as nat); assert(b * ipow(b, (e - 1) as nat) > 0) by(nonlinear_arith) requires b > 0, ipow(b, (e - 1) as nat) > 0; } }
pub proof fn gauss(d: int, a: int, b: int) requires coprime(d, a), dvd(d, a * b), ensures dvd(d, b)
{
    let w = coprime_bez(d, a);
    dvd_refl(d);
    // b = d*x*b + a*y*b
    dvd_mul(d, d, w.0 * b); dvd_mul(d, a * b, w.1);
    dvd_lin(d, d * (w.0 * b), (a * b) * w.1, 1, 1);
    assert((d * (w.0 * b)) * 1 + ((a * b) * w.1) * 1 == b) by(nonlinear_arith) requires d * w.0 + a * w.1 == 1;
}
pub proof fn lcm_of_gcd(a: int, b: int, g: int, k: int, l: int)
    requires is_gcd(g, a, b), g != 0, a == g * k, l == abs(k * b), ensures is_lcm(l, a, b)
{
    let m = choose|m: int| b == #[trigger] (g * m);
    let p = k * b;
    assert(p == a * m) by(nonlinear_arith) requires p == k * b, a == g * k, b == g * m;
    dvd_intro(a, p, m);
    assert(p == b * k) by(nonlinear_arith) requires p == k * b;
    dvd_intro(b, p, k);
    dvd_refl(p); dvd_refl(l);
    assert(dvd(a, l)) by { dvd_neg(a, p); }
    assert(dvd(b, l)) by { dvd_neg(b, p); }
    assert(coprime(m, k)) by {
        assert forall|d: int| dvd(d, m) && dvd(d, k) implies #[trigger] dvd(d, 1) by {
            dvd_scale(g, d, m); dvd_scale(g, d, k);
            assert(dvd(g * d, b) && dvd(g * d, a));
            assert(dvd(g * d, g * 1));
            dvd_cancel(g, d, 1);
        }
    }
    assert forall|c: int| dvd(a, c) && dvd(b, c) implies #[trigger] dvd(l, c) by {
        // c = g m t, k g | g m t => k | m t => k | t => c = g m k t'
        let t = choose|t: int| c == #[trigger] (b * t);
        assert(c == g * (m * t)) by(nonlinear_arith) requires c == b * t, b == g * m;
        assert(dvd(g * k, g * (m * t)));
        dvd_cancel(g, k, m * t);
        coprime_comm(m, k);
        gauss(k, m, t);
        let s = choose|s: int| t == #[trigger] (k * s);
        assert(c == p * s) by(nonlinear_arith) requires c == b * t, t == k * s, p == k * b;
        dvd_intro(p, c, s);
        assert(dvd(l, p)) by { dvd_refl(-p); }
        dvd_trans(l, p, c);
    }
}
pub proof fn lcm_zero(a: int, b: int) requires a == 0 || b == 0, ensures is_lcm(0, a, b)
{
    dvd_refl(a); dvd_refl(b);
    assert forall|m: int| dvd(a, m) && dvd(b, m) implies #[trigger] dvd(0, m) by {
        let k = choose|k: int| m == #[trigger] (0 * k); dvd_refl(0);
        if a == 0 { assert(dvd(0, m)); } else { assert(dvd(0, m)); }
    }
}
pub proof fn gcd_zero(a: int, b: int) requires is_gcd(0, a, b), ensures a == 0, b == 0
{ let k = choose|k: int| a == #[trigger] (0 * k); let l = choose|l: int| b == #[trigger] (0 * l); }

//@ fn Integer__sgn(this)
//@@ spec: Integer(((if this.0 < 0 { -1int } else if this.0 == 0 { 0int } else { 1int })) as i64)
//@@ ensures: ret.0 == (if this.0 < 0 { -1int } else if this.0 == 0 { 0int } else { 1int })
//@ fn Integer__is_pos(this)
//@@ spec: (this.0 > 0)
//@@ ensures: ret == (this.0 > 0)
//@ fn Integer__is_neg(this)
//@@ spec: (this.0 < 0)
//@@ ensures: ret == (this.0 < 0)
//@ fn Integer__abs(this)
//@@ spec: Integer((abs(this.0 as int)) as i64)
//@@ ensures: ret.0 == abs(this.0 as int)
//@ fn Integer__pow(this, exp)
//@@ requires: 0 <= exp.0 <= u32::MAX
//@@ spec: Integer((ipow(this.0 as int, exp.0 as nat)) as i64)
//@@ ensures: ret.0 == ipow(this.0 as int, exp.0 as nat)
//@ fn Integer__gcd(a, b)
//@@ ensures: is_gcd(ret.0 as int, a.0 as int, b.0 as int)
//@@ loop 1 invariant
same_divs(a_2 as int, b_2 as int, a.0 as int, b.0 as int)
//@@ loop 1 decreases: abs(b_2 as int)
//@@ hint loop 1 start
if b_2 != 0 { euclid_step(a_2 as int, b_2 as int); tdiv_prop(a_2 as int, b_2 as int); }
//@@ hint loop 1 after
gcd_of_zero(a_2 as int, a.0 as int, b.0 as int);
//@ fn Integer__lcm(a, b)
//@@ ensures: is_lcm(ret.0 as int, a.0 as int, b.0 as int)
//@@ hint let gcd
if gcd.0 == 0 { gcd_zero(a.0 as int, b.0 as int); lcm_zero(a.0 as int, b.0 as int); }
else {
    let k = choose|k: int| a.0 as int == #[trigger] ((gcd.0 as int) * k);
    tdiv_exact(a.0 as int, gcd.0 as int, k);
    lcm_of_gcd(a.0 as int, b.0 as int, gcd.0 as int, k, abs(k * b.0 as int));
}
//@ fn Integer__From__i64__from(val)
//@@ spec: Integer((val) as i64)
//@@ ensures: ret.0 == val
//@ fn Integer__Add__add(this, rhs)
//@@ spec: Integer((this.0 + rhs.0) as i64)
//@@ ensures: ret.0 == this.0 + rhs.0
//@ fn Integer__Sub__sub(this, rhs)
//@@ spec: Integer((this.0 - rhs.0) as i64)
//@@ ensures: ret.0 == this.0 - rhs.0
//@ fn Integer__Mul__mul(this, rhs)
//@@ spec: Integer((this.0 * rhs.0) as i64)
//@@ ensures: ret.0 == this.0 * rhs.0
//@ fn Integer__Div__div(this, rhs)
//@@ panics: rhs.0 == 0
//@@ spec: Integer((t_div_spec(this.0 as int, rhs.0 as int)) as i64)
//@@ ensures: ret.0 == t_div_spec(this.0 as int, rhs.0 as int)
//@ fn Integer__Rem__rem(this, rhs)
//@@ panics: rhs.0 == 0
//@@ spec: Integer((t_rem_spec(this.0 as int, rhs.0 as int)) as i64)
//@@ ensures: ret.0 == t_rem_spec(this.0 as int, rhs.0 as int)
//@ fn Integer__Neg__neg(this)
//@@ spec: Integer((-this.0) as i64)
//@@ ensures: ret.0 == -this.0
//@ fn Integer__Zero__is_zero(this)
//@@ spec: (this.0 == 0)
//@@ ensures: ret == (this.0 == 0)
//@ fn Integer__One__is_one(this)
//@@ spec: (this.0 == 1)
//@@ ensures: ret == (this.0 == 1)
//@ fn Integer__Zero__ZERO
//@@ spec: Integer((0) as i64)
//@@ ensures: ret.0 == 0
//@ fn Integer__One__ONE
//@@ spec: Integer((1) as i64)
//@@ ensures: ret.0 == 1
//@ fn Integer__PartialEq__eq(this, other)
//@@ spec: (this.0 == other.0)
//@@ ensures: ret == (this.0 == other.0)
//@ fn Integer__Clone__clone(this)
//@@ spec: *this
//@@ ensures: ret == *this
//@ fn Integer__Default__default
//@@ spec: Integer((0) as i64)
//@@ ensures: ret.0 == 0
//@ fn Integer__Ord__cmp(this, other)
//@@ spec: int_cmp(this.0 as int, other.0 as int)
//@@ ensures: ret == int_cmp(this.0 as int, other.0 as int)
//@ fn Integer__PartialOrd__partial_cmp(this, other)
//@@ spec: Some(int_cmp(this.0 as int, other.0 as int))
//@@ ensures: ret == Some(int_cmp(this.0 as int, other.0 as int))
