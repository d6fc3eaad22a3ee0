//! C01-C04: rationals and integers, against i128 arithmetic.
use crate::ctx::*;
use crate::ensure;
use algeo::core::num::*;
use std::cmp::Ordering;

fn g128(a: i128, b: i128) -> i128 {
    crate::q::gcd(a, b)
}
/// lowest terms as the reference computes them
fn low(n: i128, d: i128) -> (i128, i128) {
    let g = g128(n, d);
    let s = if d < 0 { -1 } else { 1 };
    (s * n / g, s * d / g)
}
fn fits(x: (i128, i128)) -> bool {
    x.0.abs() <= i64::MAX as i128 && x.1.abs() <= i64::MAX as i128
}
fn r(p: (i128, i128)) -> Rational {
    // built field by field, so that the operands do not depend on the code under test
    Rational { numer: Integer(p.0 as i64), denom: Integer(p.1 as i64) }
}
fn un(x: Rational) -> (i128, i128) {
    (x.numer.0 as i128, x.denom.0 as i128)
}
fn is_simplest(x: Rational) -> bool {
    let (n, d) = un(x);
    d > 0 && g128(n, d) == 1
}
/// small operand universe
fn small(k: i64) -> Vec<(i128, i128)> {
    let mut v = vec![];
    for d in 1..=k as i128 {
        for n in -(k as i128)..=(k as i128) {
            if g128(n, d) == 1 {
                v.push((n, d));
            }
        }
    }
    v
}
fn rnd(rng: &mut Rng) -> (i128, i128) {
    let bits = [3, 8, 16, 24, 30][rng.below(5)];
    let m = (1i64 << bits) - 1;
    let n = rng.range(-m, m);
    let d = rng.range(1, m);
    let mut p = low(n as i128, d as i128);
    if rng.chance(1, 4) {
        p = low(p.0, 1);
    }
    if rng.chance(1, 10) {
        p = (0, 1);
    }
    p
}
/// a pair of operands; often related (common factors, equal denominators, negatives)
fn rnd2(rng: &mut Rng) -> ((i128, i128), (i128, i128)) {
    let a = rnd(rng);
    let b = match rng.below(6) {
        0 => (-a.0, a.1),
        1 if a.0 != 0 => low(a.1, a.0),
        2 => low(rng.range(-1000, 1000) as i128, a.1),
        3 => a,
        _ => rnd(rng),
    };
    (a, b)
}

/// which: 'c' canonical form (C01), 'e' exact value (C02)
fn judge(which: char, got: Result<Rational, String>, want: Option<(i128, i128)>, small_in: bool) -> Out {
    match (got, want) {
        (Err(_), None) => Out::Ok(true),
        (Ok(v), None) => {
            Out::Bad(format!("returned {:?} where the result is undefined", un(v)))
        }
        (Err(m), Some(w)) => {
            if is_overflow(&m) && !small_in {
                Out::Skip
            } else {
                Out::Bad(format!("panicked ({}), expected {}/{}", m, w.0, w.1))
            }
        }
        (Ok(v), Some(w)) => {
            if !fits(w) {
                return Out::Bad(format!("returned {:?}, the exact result {}/{} does not fit i64", un(v), w.0, w.1));
            }
            if which == 'c' {
                ensure!(is_simplest(v), "returned {:?}, which is not in lowest terms with a positive denominator", un(v));
                
                // equality of values is equality of representations
                let same = un(v).0 * w.1 == w.0 * un(v).1;
                ensure!((v == r(w)) == same, "equality disagrees with value equality: {:?} vs {:?}", un(v), w);
            } else {
                let (n, d) = un(v);
                ensure!(d != 0 && n.checked_mul(w.1).unwrap_or(i128::MAX) == w.0.checked_mul(d).unwrap_or(i128::MIN), "returned {}/{}, expected {}/{}", n, d, w.0, w.1);
            }
            Out::Ok(w.0 != 0)
        }
    }
}

type Ref2 = fn((i128, i128), (i128, i128)) -> Option<(i128, i128)>;
type Op2 = (&'static str, fn(Rational, Rational) -> Rational, Ref2);
fn ops2() -> Vec<Op2> {
    fn radd(a: (i128, i128), b: (i128, i128)) -> Option<(i128, i128)> {
        Some(low(a.0 * b.1 + b.0 * a.1, a.1 * b.1))
    }
    fn rsub(a: (i128, i128), b: (i128, i128)) -> Option<(i128, i128)> {
        Some(low(a.0 * b.1 - b.0 * a.1, a.1 * b.1))
    }
    fn rmul(a: (i128, i128), b: (i128, i128)) -> Option<(i128, i128)> {
        Some(low(a.0 * b.0, a.1 * b.1))
    }
    fn rdiv(a: (i128, i128), b: (i128, i128)) -> Option<(i128, i128)> {
        if b.0 == 0 {
            None
        } else {
            Some(low(a.0 * b.1, a.1 * b.0))
        }
    }
    vec![
        ("add", |a, b| a + b, radd),
        ("sub", |a, b| a - b, rsub),
        ("mul", |a, b| a * b, rmul),
        ("div", |a, b| a / b, rdiv),
        ("add_assign", |mut a, b| { a += b; a }, radd),
        ("sub_assign", |mut a, b| { a -= b; a }, rsub),
        ("mul_assign", |mut a, b| { a *= b; a }, rmul),
        ("div_assign", |mut a, b| { a /= b; a }, rdiv),
        ("sum", |a, b| vec![a, b].into_iter().sum(), radd),
        ("product", |a, b| vec![a, b].into_iter().product(), rmul),
    ]
}

fn rpow(a: (i128, i128), e: i64) -> Option<Option<(i128, i128)>> {
    // outer None: too big to say
    if a.0 == 0 && e < 0 {
        return Some(None);
    }
    let (mut n, mut d) = if e < 0 { low(a.1, a.0) } else { a };
    let (bn, bd) = (n, d);
    n = 1;
    d = 1;
    for _ in 0..e.unsigned_abs() {
        n = n.checked_mul(bn)?;
        d = d.checked_mul(bd)?;
        if !fits((n, d)) {
            return None;
        }
    }
    Some(Some((n, d)))
}

/// a power so small that one more multiplication could not overflow either
fn roomy(w: Option<(i128, i128)>) -> bool {
    w.map_or(true, |w| w.0.abs() < 1 << 30 && w.1 < 1 << 30)
}

fn arith(c: &mut Ctx, which: char) {
    let sm = small(6);
    let ops = ops2();
    let is_small = |a: (i128, i128)| a.0.abs() < 1 << 14 && a.1 < 1 << 14;
    let one_pair = |c: &mut Ctx, a: (i128, i128), b: (i128, i128)| {
        for (name, f, rf) in &ops {
            let w = rf(a, b);
            c.case(name, false, format!("{}/{} {} {}/{}", a.0, a.1, name, b.0, b.1), || {
                judge(which, attempt(|| f(r(a), r(b))), w, is_small(a) && is_small(b))
            });
        }
    };
    for &a in &sm {
        for &b in &sm {
            one_pair(c, a, b);
        }
    }
    let unary = |c: &mut Ctx, a: (i128, i128)| {
        let s = is_small(a);
        c.case("neg", false, format!("-({}/{})", a.0, a.1), || judge(which, attempt(|| -r(a)), Some((-a.0, a.1)), s));
        let inv = if a.0 == 0 { None } else { Some(low(a.1, a.0)) };
        c.case("recip", false, format!("recip({}/{})", a.0, a.1), || judge(which, attempt(|| r(a).recip()), inv, s));
        c.case("inv", false, format!("inv({}/{})", a.0, a.1), || judge(which, attempt(|| Field::inv(r(a))), inv, s));
        for e in -6..=6i64 {
            if let Some(w) = rpow(a, e) {
                let s = roomy(w);
                c.case("pow", false, format!("({}/{})^{}", a.0, a.1, e), || judge(which, attempt(|| r(a).pow(Integer(e))), w, s));
                c.case("powi", false, format!("({}/{}).powi({})", a.0, a.1, e), || judge(which, attempt(|| r(a).powi(e as i32)), w, s));
                c.case("powi32", false, format!("({}/{}).powi32({})", a.0, a.1, e), || judge(which, attempt(|| Field::powi32(&r(a), e as i32)), w, s));
            }
        }
        if which == 'e' {
            c.case("is_zero", false, format!("is_zero({}/{})", a.0, a.1), || {
                ensure!(r(a).is_zero() == (a.0 == 0), "is_zero is wrong");
                ensure!(r(a).is_one() == (a == (1, 1)), "is_one is wrong");
                ensure!(un(<Rational as Zero>::ZERO) == (0, 1) && un(<Rational as One>::ONE) == (1, 1), "ZERO/ONE constants are wrong");
                ensure!(r(a).sgn().0 as i128 == a.0.signum(), "sgn is wrong");
                Out::Ok(true)
            });
        }
    };
    let ctors = |c: &mut Ctx, n: i64, d: i64| {
        let w = if d == 0 { None } else { Some(low(n as i128, d as i128)) };
        let s = n.unsigned_abs() < 1 << 40 && d.unsigned_abs() < 1 << 40;
        c.case("new", false, format!("new({}, {})", n, d), || judge(which, attempt(|| Rational::new(Integer(n), Integer(d))), w, s));
        c.case("new_i64", false, format!("new_i64({}, {})", n, d), || judge(which, attempt(|| Rational::new_i64(n, d)), w, s));
        c.case("new_int", false, format!("new_int({})", n), || judge(which, attempt(|| Rational::new_int(Integer(n))), Some((n as i128, 1)), true));
        c.case("from", false, format!("from({})", n), || judge(which, attempt(|| Rational::from(Integer(n))), Some((n as i128, 1)), true));
    };
    for &a in &sm {
        unary(c, a);
    }
    for n in -15..=15 {
        for d in -15..=15 {
            ctors(c, n, d);
        }
    }
    // exponents beyond small ones, on bases whose powers stay small
    for a in [(1i128, 1i128), (-1, 1), (0, 1)] {
        for e in [7i64, 10, 64, 101, 255, 1000, -7, -64, -1001] {
            if let Some(w) = rpow(a, e) {
                let s = roomy(w);
                c.case("pow", false, format!("({}/{})^{}", a.0, a.1, e), || judge(which, attempt(|| r(a).pow(Integer(e))), w, s));
            }
        }
    }
    for a in [(2i128, 1i128), (-2, 3), (3, 2), (5, 7)] {
        for e in -20..=20i64 {
            if let Some(w) = rpow(a, e) {
                let s = roomy(w);
                c.case("pow", false, format!("({}/{})^{}", a.0, a.1, e), || judge(which, attempt(|| r(a).pow(Integer(e))), w, s));
            }
        }
    }
    for _ in 0..c.n(60_000) {
        if c.over() {
            break;
        }
        let (a, b) = rnd2(&mut c.rng);
        one_pair(c, a, b);
        if c.rng.chance(1, 4) {
            unary(c, a);
            let m = 1i64 << [4, 12, 20, 31, 40, 62][c.rng.below(6)];
            let (n, d) = (c.rng.range(-m, m), c.rng.range(-m, m));
            ctors(c, n, d);
        }
        if c.rng.chance(1, 8) {
            // longer sums and products of small numbers
            let long = c.rng.chance(1, 15);
            let k = c.rng.below(if long { 60 } else { 6 });
            let xs: Vec<(i128, i128)> = (0..k).map(|_| sm[c.rng.below(sm.len())]).collect();
            let ws = xs.iter().fold((0, 1), |a, b| low(a.0 * b.1 + b.0 * a.1, a.1 * b.1));
            let ys: Vec<(i128, i128)> = if long { xs.iter().map(|x| [(1, 1), (-1, 1), (2, 1), (1, 2)][(x.0 + 3 * x.1).rem_euclid(4) as usize]).collect() } else { xs.clone() };
            let wp = ys.iter().fold((1, 1), |a, b| low(a.0 * b.0, a.1 * b.1));
            let v: Vec<Rational> = xs.iter().map(|&x| r(x)).collect();
            let v2: Vec<Rational> = ys.iter().map(|&x| r(x)).collect();
            c.case("sum", false, format!("sum {:?}", xs), || judge(which, attempt(|| v.into_iter().sum()), Some(ws), true));
            c.case("product", false, format!("product {:?}", ys), || judge(which, attempt(|| v2.into_iter().product()), Some(wp), true));
        }
    }
}

pub fn c01(c: &mut Ctx) {
    arith(c, 'c');
}
pub fn c02(c: &mut Ctx) {
    arith(c, 'e');
}

pub fn c03(c: &mut Ctx) {
    let pair = |c: &mut Ctx, a: (i128, i128), b: (i128, i128)| {
        c.case("cmp", false, format!("{}/{} cmp {}/{}", a.0, a.1, b.0, b.1), || {
            let w = (a.0 * b.1).cmp(&(b.0 * a.1));
            let (x, y) = (r(a), r(b));
            ensure!(x.cmp(&y) == w, "cmp gives {:?}, numbers compare {:?}", x.cmp(&y), w);
            ensure!(x.partial_cmp(&y) == Some(w), "partial_cmp gives {:?}, numbers compare {:?}", x.partial_cmp(&y), w);
            ensure!((x < y) == (w == Ordering::Less) && (x <= y) == (w != Ordering::Greater) && (x > y) == (w == Ordering::Greater) && (x >= y) == (w != Ordering::Less), "an order operator disagrees");
            ensure!((x == y) == (w == Ordering::Equal), "== disagrees with the order");
            ensure!(x.max(y) == if w == Ordering::Greater { x } else { y } && x.min(y) == if w == Ordering::Greater { y } else { x }, "max/min disagree");
            ensure!(x.sgn().0 as i128 == a.0.signum(), "sgn is {}", x.sgn().0);
            ensure!(x.sgn().0.cmp(&0) == x.cmp(&r((0, 1))), "order and sign function disagree");
            Out::Ok(w != Ordering::Equal)
        });
        c.case("stability_cmp", false, format!("{}/{} stability {}/{}", a.0, a.1, b.0, b.1), || {
            let s = r(a).stability_cmp(&r(b));
            let (za, zb) = (a.0 == 0, b.0 == 0);
            if za && !zb {
                ensure!(s == Some(Ordering::Less), "zero vs nonzero ranked {:?}", s);
            }
            if !za && zb {
                ensure!(s == Some(Ordering::Greater), "nonzero vs zero ranked {:?}", s);
            }
            if za && zb {
                ensure!(s == Some(Ordering::Equal), "zero vs zero ranked {:?}", s);
            }
            ensure!(s.is_some(), "two rationals are not comparable");
            Out::Ok(true)
        });
    };
    let sm = small(9);
    for &a in &sm {
        for &b in &sm {
            pair(c, a, b);
        }
    }
    for _ in 0..c.n(400_000) {
        if c.over() {
            break;
        }
        let (a, b) = rnd2(&mut c.rng);
        pair(c, a, b);
        // neighbours: compare close fractions
        let b2 = low(a.0 * 2 + 1, a.1 * 2);
        if b2.0.abs() < 1 << 31 && b2.1 < 1 << 31 {
            pair(c, a, b2);
        }
    }
    // lawful use as a maximum: total preorder on triples of small numbers
    let sm = small(4);
    for &x in &sm {
        for &y in &sm {
            for &z in &sm {
                c.case("stability_preorder", false, format!("{:?} {:?} {:?}", x, y, z), || {
                    let le = |a: (i128, i128), b: (i128, i128)| r(a).stability_cmp(&r(b)).map(|o| o != Ordering::Greater).unwrap_or(false);
                    ensure!(le(x, y) || le(y, x), "stability comparison is not total");
                    if le(x, y) && le(y, z) && z.0 == 0 {
                        ensure!(x.0 == 0, "a nonzero number is ranked at or below zero through {:?}", y);
                    }
                    Out::Ok(true)
                });
            }
        }
    }
}

pub fn c04(c: &mut Ctx) {
    let i = |x: i64| Integer(x);
    let pair = |c: &mut Ctx, a: i64, b: i64| {
        let small_in = a.unsigned_abs() < 1 << 30 && b.unsigned_abs() < 1 << 30;
        let (wa, wb) = (a as i128, b as i128);
        let g = g128(wa, wb);
        let chk = |got: Result<Integer, String>, want: Option<i128>| -> Out {
            match (got, want) {
                (Ok(v), Some(w)) if v.0 as i128 == w => Out::Ok(true),
                (Ok(v), Some(w)) => Out::Bad(format!("returned {}, expected {}", v.0, w)),
                (Ok(v), None) => Out::Bad(format!("returned {} where the result is undefined", v.0)),
                (Err(_), None) => Out::Ok(true),
                (Err(m), Some(w)) => {
                    if is_overflow(&m) && !small_in { Out::Skip } else { Out::Bad(format!("panicked ({}), expected {}", m, w)) }
                }
            }
        };
        c.case("gcd", false, format!("gcd({}, {})", a, b), || chk(attempt(|| Integer::gcd(i(a), i(b))), Some(g)));
        let l = if g == 0 { 0 } else { (wa / g * wb).abs() };
        c.case("lcm", false, format!("lcm({}, {})", a, b), || chk(attempt(|| Integer::lcm(i(a), i(b))), Some(l)));
        c.case("add", false, format!("{} + {}", a, b), || chk(attempt(|| i(a) + i(b)), Some(wa + wb)));
        c.case("sub", false, format!("{} - {}", a, b), || chk(attempt(|| i(a) - i(b)), Some(wa - wb)));
        c.case("mul", false, format!("{} * {}", a, b), || chk(attempt(|| i(a) * i(b)), Some(wa * wb)));
        c.case("div", false, format!("{} / {}", a, b), || chk(attempt(|| i(a) / i(b)), if b == 0 { None } else { Some(wa / wb) }));
        c.case("rem", false, format!("{} % {}", a, b), || chk(attempt(|| i(a) % i(b)), if b == 0 { None } else { Some(wa % wb) }));
        c.case("unary", false, format!("unary {}", a), || {
            if a == i64::MIN {
                return Out::Skip;
            }
            ensure!(i(a).sgn().0 as i128 == wa.signum(), "sgn is {}", i(a).sgn().0);
            ensure!(i(a).abs().0 as i128 == wa.abs(), "abs is {}", i(a).abs().0);
            ensure!((-i(a)).0 as i128 == -wa, "neg is {}", (-i(a)).0);
            ensure!(i(a).is_pos() == (a > 0) && i(a).is_neg() == (a < 0), "is_pos/is_neg");
            ensure!(i(a).is_zero() == (a == 0) && i(a).is_one() == (a == 1), "is_zero/is_one");
            ensure!(Integer::from(a).0 == a, "from is {}", Integer::from(a).0);
            ensure!(i(a).cmp(&i(b)) == a.cmp(&b) && (i(a) == i(b)) == (a == b), "order of integers");
            Out::Ok(true)
        });
    };
    for a in -40..=40 {
        for b in -40..=40 {
            pair(c, a, b);
        }
    }
    let pow = |c: &mut Ctx, a: i64, e: i64| {
        let mut w: i128 = 1;
        for _ in 0..e {
            w = match w.checked_mul(a as i128) {
                Some(x) if x.abs() <= i64::MAX as i128 => x,
                _ => return,
            };
        }
        c.case("pow", false, format!("{}^{}", a, e), || match attempt(|| i(a).pow(i(e))) {
            Ok(v) if v.0 as i128 == w => Out::Ok(true),
            Ok(v) => Out::Bad(format!("returned {}, expected {}", v.0, w)),
            Err(m) if is_overflow(&m) && w.abs() >= 1 << 30 => Out::Skip,
            Err(m) => Out::Bad(format!("panicked ({}), expected {}", m, w)),
        });
    };
    for a in -12..=12 {
        for e in 0..=64 {
            pow(c, a, e);
        }
    }
    for a in -1..=1 {
        for e in [65, 127, 128, 129, 255, 256, 257, 511, 512, 32767, 32768, 65535, 65536, 65537, 131071] {
            pow(c, a, e);
        }
    }
    for _ in 0..c.n(200_000) {
        if c.over() {
            break;
        }
        let m = [1i64 << 4, 1 << 10, 1 << 20, 1 << 31, 1 << 45, i64::MAX][c.rng.below(6)];
        let (mut a, mut b) = (c.rng.range(-m, m), c.rng.range(-m, m));
        if c.rng.chance(1, 3) {
            let k = 1 + c.rng.below(1000) as i64;
            a = (a % (1 << 20)) * k;
            b = (b % (1 << 20)) * k;
        }
        if c.rng.chance(1, 50) {
            a = [i64::MAX, i64::MIN + 1, 0, 1, -1][c.rng.below(5)];
        }
        pair(c, a, b);
        let e = c.rng.below(20) as i64;
        pow(c, a % 5000, e);
    }
}
