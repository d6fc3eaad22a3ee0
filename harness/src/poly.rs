//! C13-C23: monomials and polynomials over the exact field Q of q.rs; the reference is a map from
//! canonical exponent vectors to nonzero coefficients.
use crate::ctx::*;
use crate::ensure;
use crate::q::Q;
use algeo::core::num::*;
use algeo::poly::comp::Computer;
use algeo::poly::elts::{Polynomial, Term};
use algeo::poly::mdeg::MultiDegree;
use algeo::poly::ord::*;
use std::cmp::Ordering;
use std::collections::{BTreeMap, HashSet};

type M = Vec<u8>;
type P = BTreeMap<M, Q>;
type T = (Q, M);

fn trim(mut v: M) -> M {
    while v.last() == Some(&0) {
        v.pop();
    }
    v
}
fn ex(m: &M, i: usize) -> u8 {
    m.get(i).cloned().unwrap_or(0)
}
fn madd(a: &M, b: &M) -> Option<M> {
    (0..a.len().max(b.len())).map(|i| ex(a, i).checked_add(ex(b, i))).collect::<Option<M>>().map(trim)
}
fn msub(a: &M, b: &M) -> Option<M> {
    (0..a.len().max(b.len())).map(|i| ex(a, i).checked_sub(ex(b, i))).collect::<Option<M>>().map(trim)
}
fn mmax(a: &M, b: &M) -> M {
    trim((0..a.len().max(b.len())).map(|i| ex(a, i).max(ex(b, i))).collect())
}
fn mdiv(a: &M, b: &M) -> bool {
    // a divides b
    (0..a.len().max(b.len())).all(|i| ex(a, i) <= ex(b, i))
}
fn tot(a: &M) -> usize {
    a.iter().map(|&x| x as usize).sum()
}
pub const LEX: u8 = 0;
pub const REVLEX: u8 = 1;
pub const GRLEX: u8 = 2;
pub const GREVLEX: u8 = 3;
pub const ORDS: [(u8, &str); 4] = [(LEX, "Lex"), (REVLEX, "RevLex"), (GRLEX, "GrLex"), (GREVLEX, "GRevLex")];
/// the four orders by their definitions
fn mcmp(o: u8, a: &M, b: &M) -> Ordering {
    let n = a.len().max(b.len());
    match o {
        LEX => (0..n).map(|i| ex(a, i).cmp(&ex(b, i))).find(|&x| x != Ordering::Equal).unwrap_or(Ordering::Equal),
        REVLEX => (0..n).rev().map(|i| ex(a, i).cmp(&ex(b, i))).find(|&x| x != Ordering::Equal).unwrap_or(Ordering::Equal),
        GRLEX => tot(a).cmp(&tot(b)).then_with(|| mcmp(LEX, a, b)),
        _ => tot(a).cmp(&tot(b)).then_with(|| mcmp(REVLEX, a, b).reverse()),
    }
}
fn ocmp(o: u8, a: &MultiDegree, b: &MultiDegree) -> Ordering {
    match o {
        LEX => Lex::cmp(a, b),
        REVLEX => RevLex::cmp(a, b),
        GRLEX => GrLex::cmp(a, b),
        _ => GRevLex::cmp(a, b),
    }
}
macro_rules! comp {
    ($o:expr, $f:ident ( $($a:expr),* )) => {
        match $o {
            LEX => Computer::<Q, Lex>::$f($($a),*),
            REVLEX => Computer::<Q, RevLex>::$f($($a),*),
            GRLEX => Computer::<Q, GrLex>::$f($($a),*),
            _ => Computer::<Q, GRevLex>::$f($($a),*),
        }
    };
}

// ---- conversions

fn md(m: &M) -> MultiDegree {
    MultiDegree(m.clone())
}
fn tm(t: &T) -> Term<Q> {
    Term { coef: t.0, mdeg: md(&t.1) }
}
/// the polynomial with its terms in the given rotation
fn pl(p: &P, rot: usize) -> Polynomial<Q> {
    let mut v: Vec<Term<Q>> = p.iter().map(|(m, c)| Term { coef: *c, mdeg: md(m) }).collect();
    if !v.is_empty() {
        let k = rot % v.len();
        v.rotate_left(k);
        if rot % 2 == 1 {
            v.reverse();
        }
    }
    Polynomial { terms: v }
}
fn clean(p: &Polynomial<Q>) -> Result<(), String> {
    let mut seen = HashSet::new();
    for t in &p.terms {
        if t.coef.isz() {
            return Err(format!("a term has coefficient zero: {:?}", sh(p)));
        }
        if t.mdeg.0.last() == Some(&0) {
            return Err(format!("a multidegree has trailing zeros: {:?}", sh(p)));
        }
        if !seen.insert(t.mdeg.0.clone()) {
            return Err(format!("two terms have the same multidegree: {:?}", sh(p)));
        }
    }
    if p.is_zero() != p.terms.is_empty() {
        return Err("is_zero disagrees with the term list".into());
    }
    Ok(())
}
fn sh(p: &Polynomial<Q>) -> Vec<(Q, M)> {
    p.terms.iter().map(|t| (t.coef, t.mdeg.0.clone())).collect()
}
/// the polynomial a term list denotes
fn un(p: &Polynomial<Q>) -> P {
    let mut r = P::new();
    for t in &p.terms {
        addt(&mut r, t.coef, &trim(t.mdeg.0.clone()));
    }
    r
}

// ---- reference arithmetic

fn addt(p: &mut P, c: Q, m: &M) {
    let v = p.get(m).cloned().unwrap_or(Q::zero()) + c;
    if v.isz() {
        p.remove(m);
    } else {
        p.insert(m.clone(), v);
    }
}
fn padd(a: &P, b: &P) -> P {
    let mut r = a.clone();
    for (m, c) in b {
        addt(&mut r, *c, m);
    }
    r
}
fn pneg(a: &P) -> P {
    a.iter().map(|(m, c)| (m.clone(), -*c)).collect()
}
fn psub(a: &P, b: &P) -> P {
    padd(a, &pneg(b))
}
fn pscale(a: &P, s: Q) -> P {
    a.iter().filter(|_| !s.isz()).map(|(m, c)| (m.clone(), *c * s)).collect()
}
/// None: an exponent leaves u8
fn ptmul(a: &P, t: &T) -> Option<P> {
    let mut r = P::new();
    if t.0.isz() {
        return Some(r);
    }
    for (m, c) in a {
        addt(&mut r, *c * t.0, &madd(m, &t.1)?);
    }
    Some(r)
}
fn pmul(a: &P, b: &P) -> Option<P> {
    let mut r = P::new();
    for (m, c) in b {
        r = padd(&r, &ptmul(a, &(*c, m.clone()))?);
    }
    Some(r)
}
fn pt(t: &T) -> P {
    let mut r = P::new();
    addt(&mut r, t.0, &t.1);
    r
}
fn lt(o: u8, p: &P) -> Option<T> {
    p.iter().max_by(|a, b| mcmp(o, a.0, b.0)).map(|(m, c)| (*c, m.clone()))
}
fn meval(m: &M, x: &[Q]) -> Q {
    (0..m.len()).fold(Q::one(), |a, i| a * x[i].powu(m[i] as u32))
}
fn peval(p: &P, x: &[Q]) -> Q {
    p.iter().fold(Q::zero(), |a, (m, c)| a + *c * meval(m, x))
}
struct Stop;
/// remainder on division by g; steps bounds the work
fn prem(o: u8, f: &P, g: &[P], steps: &mut usize) -> Result<P, Stop> {
    let mut f = f.clone();
    let mut r = P::new();
    let lts: Vec<Option<T>> = g.iter().map(|p| lt(o, p)).collect();
    while let Some(l) = lt(o, &f) {
        if *steps == 0 {
            return Err(Stop);
        }
        *steps -= 1;
        let mut done = false;
        for (p, l2) in g.iter().zip(&lts) {
            if let Some(l2) = l2 {
                if mdiv(&l2.1, &l.1) {
                    let q = (l.0 / l2.0, msub(&l.1, &l2.1).unwrap());
                    f = psub(&f, &ptmul(p, &q).ok_or(Stop)?);
                    done = true;
                    break;
                }
            }
        }
        if !done {
            f.remove(&l.1);
            addt(&mut r, l.0, &l.1);
        }
    }
    Ok(r)
}
fn spoly(o: u8, f: &P, g: &P) -> Option<(P, M)> {
    let (a, b) = (lt(o, f)?, lt(o, g)?);
    let m = mmax(&a.1, &b.1);
    let x = ptmul(f, &(Q::one() / a.0, msub(&m, &a.1)?))?;
    let y = ptmul(g, &(Q::one() / b.0, msub(&m, &b.1)?))?;
    Some((psub(&x, &y), m))
}
fn is_gb(o: u8, g: &[P], steps: &mut usize) -> Result<bool, Stop> {
    for i in 0..g.len() {
        for j in 0..i {
            let s = spoly(o, &g[i], &g[j]).ok_or(Stop)?.0;
            if !prem(o, &s, g, steps)?.is_empty() {
                return Ok(false);
            }
        }
    }
    Ok(true)
}
/// the reduced Groebner basis, by Buchberger's algorithm
fn rgb(o: u8, g: &[P], steps: &mut usize) -> Result<Vec<P>, Stop> {
    let mut b: Vec<P> = g.iter().filter(|p| !p.is_empty()).cloned().collect();
    let mut pairs: Vec<(usize, usize)> = (0..b.len()).flat_map(|i| (0..i).map(move |j| (j, i))).collect();
    while let Some((i, j)) = pairs.pop() {
        let (a, c) = (lt(o, &b[i]).unwrap(), lt(o, &b[j]).unwrap());
        if madd(&a.1, &c.1) == Some(mmax(&a.1, &c.1)) {
            continue;
        }
        let s = spoly(o, &b[i], &b[j]).ok_or(Stop)?.0;
        let r = prem(o, &s, &b, steps)?;
        if !r.is_empty() {
            let n = b.len();
            if n > 40 {
                return Err(Stop);
            }
            b.push(r);
            pairs.extend((0..n).map(|i| (i, n)));
        }
    }
    // minimal, then reduced
    let mut i = 0;
    while i < b.len() {
        let l = lt(o, &b[i]).unwrap().1;
        if (0..b.len()).any(|j| j != i && mdiv(&lt(o, &b[j]).unwrap().1, &l)) {
            b.remove(i);
        } else {
            i += 1;
        }
    }
    for i in 0..b.len() {
        let rest: Vec<P> = (0..b.len()).filter(|&j| j != i).map(|j| b[j].clone()).collect();
        let r = prem(o, &b[i], &rest, steps)?;
        let l = lt(o, &r).unwrap();
        b[i] = pscale(&r, Q::one() / l.0);
    }
    Ok(b)
}

// ---- generators

fn rm(rng: &mut Rng, vars: usize, maxd: usize) -> M {
    trim((0..rng.below(vars + 1)).map(|_| if rng.chance(1, 3) { 0 } else { rng.below(maxd + 1) as u8 }).collect())
}
fn nz(rng: &mut Rng) -> Q {
    loop {
        let top = if rng.chance(1, 30) { 6 } else { 5 };
        let q = match rng.below(top) {
            5 => Q::new(rng.range(-100_000, 100_000) as i128, [1, 1, 7, 1000][rng.below(4)]),
            0 => Q::one(),
            1 => Q::int(-1),
            2 => Q::new(rng.range(-5, 5) as i128, rng.range(1, 4) as i128),
            _ => Q::int(rng.range(-3, 3)),
        };
        if !q.isz() {
            return q;
        }
    }
}
fn rp(rng: &mut Rng, vars: usize, maxd: usize, terms: usize) -> P {
    let mut p = P::new();
    for _ in 0..rng.below(terms + 1) {
        let m = rm(rng, vars, maxd);
        let c = nz(rng);
        addt(&mut p, c, &m);
    }
    p
}
/// the same polynomials in variables further out: index i becomes pos[i]
fn spread(rng: &mut Rng, ps: &mut [P]) {
    let n = ps.iter().flat_map(|p| p.keys().map(|m| m.len())).max().unwrap_or(0);
    let step = [1, 1, 2, 5][rng.below(4)];
    let mut pos = vec![];
    let mut at = rng.below(7);
    for _ in 0..n {
        pos.push(at);
        at += 1 + rng.below(step);
    }
    for p in ps.iter_mut() {
        *p = p.iter().map(|(m, c)| {
            let mut w = vec![0u8; m.len().checked_sub(1).map_or(0, |l| pos[l] + 1)];
            for (i, x) in m.iter().enumerate() {
                w[pos[i]] = *x;
            }
            (w, *c)
        }).collect();
    }
}
/// a partner for p: unrelated, negated, sharing terms with equal or opposite coefficients
fn partner(rng: &mut Rng, p: &P, vars: usize, maxd: usize, terms: usize) -> P {
    match rng.below(5) {
        0 => pneg(p),
        1 => p.clone(),
        2 => {
            let mut q = rp(rng, vars, maxd, terms);
            for (m, c) in p {
                if rng.chance(1, 2) {
                    let c2 = match rng.below(3) {
                        0 => -*c,
                        1 => *c,
                        _ => nz(rng),
                    };
                    q.insert(m.clone(), c2);
                }
            }
            q
        }
        _ => rp(rng, vars, maxd, terms),
    }
}

// ---- C13, C14

fn sample_mdegs(big: bool) -> Vec<M> {
    let vals: &[u8] = if big { &[0, 1, 2, 128, 255] } else { &[0, 1, 2, 3] };
    let mut v = vec![vec![]];
    for &a in vals {
        v.push(vec![a]);
        for &b in vals {
            v.push(vec![a, b]);
            for &c in vals {
                v.push(vec![a, b, c]);
            }
        }
    }
    let mut s: Vec<M> = v.into_iter().map(trim).collect();
    s.sort();
    s.dedup();
    s
}
fn rnd_mdeg(rng: &mut Rng) -> M {
    let hi = [1, 2, 5, 60, 127, 255][rng.below(6)];
    let vars = if rng.chance(1, 12) { 10 + rng.below(60) } else { 7 };
    rm(rng, vars, hi)
}
fn canon(m: &MultiDegree) -> bool {
    m.0.last() != Some(&0)
}

pub fn c13(c: &mut Ctx) {
    let raw = |c: &mut Ctx, v: M| {
        c.case("from_vec", false, format!("{:?}", v), || {
            let w = trim(v.clone());
            let g = MultiDegree::from_vec(v.clone());
            ensure!(g.0 == w, "from_vec gives {:?}", g.0);
            let mut g = MultiDegree(v.clone());
            g.trim_zeros();
            ensure!(g.0 == w, "trim_zeros gives {:?}", g.0);
            let g2 = md(&w);
            ensure!(g == g2, "equality");
            ensure!(g2.is_zero() == w.is_empty(), "is_zero");
            ensure!(g2.len() == w.len(), "len");
            ensure!(g2.degs().cloned().collect::<M>() == w, "degs");
            let mut g3 = md(&w);
            ensure!(g3.degs_mut().map(|x| *x).collect::<M>() == w, "degs_mut");
            if tot(&w) <= 255 {
                ensure!(g2.total_deg() as usize == tot(&w), "total_deg gives {}", g2.total_deg());
            }
            Out::Ok(!w.is_empty())
        });
    };
    let pair = |c: &mut Ctx, a: &M, b: &M| {
        let inp = format!("{:?} {:?}", a, b);
        c.case("add", false, inp.clone(), || {
            let w = match madd(a, b) {
                Some(w) => w,
                None => return Out::Skip,
            };
            for (k, g) in [&md(a) + &md(b), md(a) + md(b), &md(a) + md(b), md(a) + &md(b)].iter().enumerate() {
                ensure!(g.0 == w, "sum (form {}) is {:?}, expected {:?}", k, g.0, w);
            }
            let back = md(&w).checked_sub(&md(b));
            ensure!(back.as_ref().map(|x| &x.0) == Some(a), "(a+b)-b is {:?}", back);
            Out::Ok(!a.is_empty() && !b.is_empty())
        });
        c.case("checked_sub", false, inp.clone(), || {
            let w = msub(a, b);
            let g = md(a).checked_sub(&md(b));
            ensure!(g.as_ref().map(|x| x.0.clone()) == w, "difference is {:?}, expected {:?}", g, w);
            if let Some(g) = g {
                ensure!(canon(&g), "not canonical");
            }
            Out::Ok(!a.is_empty() && !b.is_empty())
        });
        c.case("is_succ", false, inp.clone(), || {
            let g = md(a).is_succ(&md(b));
            ensure!(g == mdiv(a, b), "componentwise comparison is {}", g);
            ensure!(g == md(b).checked_sub(&md(a)).is_some(), "componentwise comparison disagrees with subtraction");
            Out::Ok(!a.is_empty() && !b.is_empty())
        });
        c.case("eq", false, inp, || {
            ensure!((md(a) == md(b)) == (a == b), "equality of multidegrees");
            Out::Ok(true)
        });
    };
    for v in [MultiDegree::zero(), MultiDegree::new(), MultiDegree::default()] {
        c.case("zero", false, "zero/new/default".into(), || {
            ensure!(v.0.is_empty() && v.is_zero(), "got {:?}", v.0);
            Out::Ok(true)
        });
    }
    for i in 0..6 {
        for d in [0u8, 1, 2, 9, 10, 200, 255] {
            c.case("var", false, format!("var({}, {})", i, d), || {
                let mut w = vec![0; i];
                w.push(d);
                let g = MultiDegree::var(i, d);
                ensure!(g.0 == trim(w.clone()), "got {:?}", g.0);
                Out::Ok(d > 0)
            });
        }
    }
    for len in 0..5usize {
        for code in 0..4usize.pow(len as u32) {
            raw(c, (0..len).map(|i| [0u8, 1, 2, 255][code / 4usize.pow(i as u32) % 4]).collect());
        }
    }
    for s in [sample_mdegs(false), sample_mdegs(true)] {
        for a in &s {
            for b in &s {
                pair(c, a, b);
            }
        }
    }
    for _ in 0..c.n(100_000) {
        if c.over() {
            break;
        }
        let a = rnd_mdeg(&mut c.rng);
        let mut b = rnd_mdeg(&mut c.rng);
        if c.rng.chance(1, 2) {
            // related: below a, with some entries equal
            b = trim(a.iter().map(|&x| if c.rng.chance(1, 2) { x } else { x - c.rng.below(x as usize + 1) as u8 }).collect());
        }
        pair(c, &a, &b);
        pair(c, &b, &a);
        let mut v = a.clone();
        for _ in 0..c.rng.below(4) {
            v.push(0);
        }
        raw(c, v);
    }
}

pub fn c14(c: &mut Ctx) {
    let triple = |c: &mut Ctx, a: &M, b: &M, g: &M| {
        for (o, name) in ORDS {
            c.case(name, false, format!("{:?} {:?} {:?}", a, b, g), || {
                let w = mcmp(o, a, b);
                let r = ocmp(o, &md(a), &md(b));
                ensure!(r == w, "{}: {:?} vs {:?} gives {:?}, by definition {:?}", name, a, b, r, w);
                ensure!((r == Ordering::Equal) == (a == b), "only equal multidegrees compare equal");
                ensure!(ocmp(o, &md(b), &md(a)) == w.reverse(), "not antisymmetric");
                if let (Some(x), Some(y)) = (madd(a, g), madd(b, g)) {
                    ensure!(ocmp(o, &md(&x), &md(&y)) == w, "not preserved by adding {:?}", g);
                }
                ensure!(a.is_empty() || ocmp(o, &md(&vec![]), &md(a)) == Ordering::Less, "zero is not least");
                let (ag, bg) = (ocmp(o, &md(a), &md(g)), ocmp(o, &md(b), &md(g)));
                if w != Ordering::Greater && bg != Ordering::Greater {
                    ensure!(ag != Ordering::Greater, "not transitive");
                }
                Out::Ok(a != b)
            });
        }
        c.case("grad", false, format!("{:?} {:?}", a, b), || {
            ensure!(grad(&md(a), &md(b)) == tot(a).cmp(&tot(b)), "grad does not compare total degrees");
            Out::Ok(a != b)
        });
    };
    let s = sample_mdegs(false);
    for (i, a) in s.iter().enumerate() {
        for (j, b) in s.iter().enumerate() {
            triple(c, a, b, &s[(i * 7 + j * 13) % s.len()]);
        }
    }
    let s = sample_mdegs(true);
    for (i, a) in s.iter().enumerate() {
        for (j, b) in s.iter().enumerate() {
            triple(c, a, b, &s[(i * 7 + j * 13) % s.len()]);
        }
    }
    for _ in 0..c.n(150_000) {
        if c.over() {
            break;
        }
        let a = rnd_mdeg(&mut c.rng);
        let mut b = rnd_mdeg(&mut c.rng);
        match c.rng.below(4) {
            0 => {
                // permuted or shifted exponents: equal total degree
                b = a.clone();
                if b.len() > 1 {
                    let (i, j) = (c.rng.below(b.len()), c.rng.below(b.len()));
                    b.swap(i, j);
                    if c.rng.chance(1, 2) && b[i] > 0 && b[j] < 255 {
                        b[i] -= 1;
                        b[j] += 1;
                    }
                }
                b = trim(b);
            }
            1 => {
                b = a.clone();
                if !b.is_empty() {
                    let i = c.rng.below(b.len());
                    b[i] = b[i].wrapping_add(1);
                }
                b = trim(b);
            }
            _ => {}
        }
        let g = if c.rng.chance(1, 10) { rm(&mut c.rng, 40, 40) } else { rm(&mut c.rng, 7, 40) };
        triple(c, &a, &b, &g);
    }
}

// ---- C15

pub fn c15(c: &mut Ctx) {
    let pair = |c: &mut Ctx, s: &T, t: &T| {
        let inp = format!("{:?} {:?}", s, t);
        let nt = !s.0.isz() && !t.0.isz();
        c.case("mul", false, inp.clone(), || {
            let w: T = if nt {
                match madd(&s.1, &t.1) {
                    Some(m) => (s.0 * t.0, m),
                    None => return Out::Skip,
                }
            } else {
                (Q::zero(), vec![])
            };
            for (k, g) in [&tm(s) * &tm(t), tm(s) * tm(t), &tm(s) * tm(t), tm(s) * &tm(t)].iter().enumerate() {
                ensure!(g.coef == w.0 && g.mdeg.0 == w.1, "product (form {}) is {:?} {:?}, expected {:?}", k, g.coef, g.mdeg.0, w);
            }
            Out::Ok(nt)
        });
        c.case("div", false, inp.clone(), || {
            if s.0.isz() && t.0.isz() {
                return Out::Skip;
            }
            let w = if s.0.isz() { Some((Q::zero(), vec![])) } else if t.0.isz() { None } else { msub(&s.1, &t.1).map(|m| (s.0 / t.0, m)) };
            let g = tm(s).try_div(&tm(t));
            ensure!(g.as_ref().map(|g| (g.coef, g.mdeg.0.clone())) == w, "quotient is {:?}, expected {:?}", g, w);
            ensure!(s.0.isz() || t.0.isz() || tm(t).divides(&tm(s)) == w.is_some(), "divides is {}", !w.is_some());
            Out::Ok(true)
        });
        c.case("eq", false, inp.clone(), || {
            ensure!((tm(s) == tm(t)) == (s == t) && tm(s) == tm(s), "equality is {}", tm(s) == tm(t));
            let z: T = (t.0, s.1.clone());
            ensure!((tm(s) == tm(&z)) == (s == &z), "equality with {:?} is {}", z, tm(s) == tm(&z));
            let z: T = (s.0, t.1.clone());
            ensure!((tm(s) == tm(&z)) == (s == &z), "equality with {:?} is {}", z, tm(s) == tm(&z));
            Out::Ok(true)
        });
        c.case("lcm", false, inp.clone(), || {
            if !nt {
                return Out::Skip;
            }
            let w = mmax(&s.1, &t.1);
            let g = Computer::<Q, Lex>::monic_lcm(&tm(s), &tm(t));
            ensure!(g.coef == Q::one() && g.mdeg.0 == w, "lcm is {:?} {:?}, expected {:?}", g.coef, g.mdeg.0, w);
            Out::Ok(true)
        });
    };
    let ms = sample_mdegs(true);
    let cs = [Q::zero(), Q::one(), Q::int(-2), Q::new(3, 2)];
    for (i, a) in ms.iter().enumerate() {
        for (j, b) in ms.iter().enumerate() {
            let zero = |q: Q, m: &M| if q.isz() { (q, vec![]) } else { (q, m.clone()) };
            pair(c, &zero(cs[(i * 3 + j) % 4], a), &zero(cs[(i + j * 5 + 1) % 4], b));
        }
    }
    for m in &ms {
        for q in cs {
            c.case("ctor", false, format!("{:?} {:?}", q, m), || {
                let t = Term::new(q, md(m));
                let w = if q.isz() { vec![] } else { m.clone() };
                ensure!(t.coef == q && t.mdeg.0 == w, "new gives {:?}", t);
                ensure!(t.is_zero() == q.isz(), "is_zero");
                let t = Term::<Q>::monic(md(m));
                ensure!(t.coef == Q::one() && t.mdeg.0 == *m, "monic gives {:?}", t);
                let t = Term::from(q);
                ensure!(t.coef == q && t.mdeg.0.is_empty(), "from gives {:?}", t);
                Out::Ok(true)
            });
        }
    }
    for _ in 0..c.n(100_000) {
        if c.over() {
            break;
        }
        let a = rnd_mdeg(&mut c.rng);
        let mut b = rnd_mdeg(&mut c.rng);
        if c.rng.chance(1, 2) {
            b = trim(a.iter().map(|&x| if c.rng.chance(1, 2) { x } else { x - c.rng.below(x as usize + 1) as u8 }).collect());
        }
        let s = (nz(&mut c.rng), a);
        let t = (nz(&mut c.rng), b);
        pair(c, &s, &t);
        pair(c, &t, &s);
    }
}

// ---- C16, C17

/// which: 'k' clean (C16), 'c' coefficients (C17)
fn judge(which: char, name: &str, g: &Polynomial<Q>, w: &P) -> Result<(), String> {
    if which == 'k' {
        clean(g).map_err(|e| format!("{}: {}", name, e))
    } else if un(g) != *w {
        Err(format!("{}: got {:?}, expected {:?}", name, sh(g), w))
    } else {
        Ok(())
    }
}
macro_rules! chk {
    ($wh:expr, $n:expr, $g:expr, $w:expr) => {
        if let Err(e) = judge($wh, $n, &$g, $w) {
            return Out::Bad(e);
        }
    };
}
macro_rules! forms {
    ($wh:expr, $n:expr, $a:expr, $op:tt, $b:expr, $w:expr) => {{
        let w = $w;
        chk!($wh, concat!("&a ", $n, " &b"), &$a $op &$b, &w);
        chk!($wh, concat!("a ", $n, " &b"), $a $op &$b, &w);
        chk!($wh, concat!("&a ", $n, " b"), &$a $op $b, &w);
        chk!($wh, concat!("a ", $n, " b"), $a $op $b, &w);
    }};
}

fn parith(c: &mut Ctx, which: char) {
    let one = |c: &mut Ctx, f: &P, g: &P, t: &T, u: &T, s: Q, rot: usize| {
        let inp = format!("f={:?} g={:?} t={:?} u={:?} s={:?} rotation {}", f, g, t, u, s, rot);
        let (pf, pg) = (|| pl(f, rot), || pl(g, rot / 7));
        let nt = !f.is_empty() && !g.is_empty();
        c.case("poly_add", false, inp.clone(), || {
            forms!(which, "+", pf(), +, pg(), padd(f, g));
            Out::Ok(nt)
        });
        c.case("poly_sub", false, inp.clone(), || {
            forms!(which, "-", pf(), -, pg(), psub(f, g));
            Out::Ok(nt)
        });
        c.case("neg", false, inp.clone(), || {
            chk!(which, "-&f", -&pf(), &pneg(f));
            chk!(which, "-f", -pf(), &pneg(f));
            let (a, b) = (-&tm(t), -tm(t));
            ensure!(a.coef == -t.0 && b.coef == -t.0 && a.mdeg.0 == t.1 && b.mdeg.0 == t.1, "negated term");
            Out::Ok(nt)
        });
        c.case("poly_mul", false, inp.clone(), || match pmul(f, g) {
            None => Out::Skip,
            Some(w) => {
                forms!(which, "*", pf(), *, pg(), w);
                Out::Ok(nt)
            }
        });
        c.case("poly_term", false, inp.clone(), || {
            forms!(which, "+ (term)", pf(), +, tm(t), padd(f, &pt(t)));
            forms!(which, "(term) +", tm(t), +, pf(), padd(f, &pt(t)));
            forms!(which, "- (term)", pf(), -, tm(t), psub(f, &pt(t)));
            forms!(which, "(term) -", tm(t), -, pf(), psub(&pt(t), f));
            Out::Ok(!f.is_empty())
        });
        c.case("poly_term_mul", false, inp.clone(), || match ptmul(f, t) {
            None => Out::Skip,
            Some(w) => {
                forms!(which, "* (term)", pf(), *, tm(t), w.clone());
                forms!(which, "(term) *", tm(t), *, pf(), w);
                Out::Ok(!f.is_empty())
            }
        });
        c.case("term_term", false, inp.clone(), || {
            forms!(which, "+ (terms)", tm(t), +, tm(u), padd(&pt(t), &pt(u)));
            forms!(which, "- (terms)", tm(t), -, tm(u), psub(&pt(t), &pt(u)));
            Out::Ok(true)
        });
        c.case("scalar", false, inp.clone(), || {
            chk!(which, "&f * s", &pf() * s, &pscale(f, s));
            chk!(which, "f * s", pf() * s, &pscale(f, s));
            if !s.isz() {
                chk!(which, "&f / s", &pf() / s, &pscale(f, Q::one() / s));
                chk!(which, "f / s", pf() / s, &pscale(f, Q::one() / s));
            }
            Out::Ok(!f.is_empty())
        });
        c.case("ctor", false, inp.clone(), || {
            chk!(which, "from(t)", Polynomial::from(tm(t)), &pt(t));
            chk!(which, "from(&t)", Polynomial::from(&tm(t)), &pt(t));
            chk!(which, "from(s)", Polynomial::from(s), &pt(&(s, vec![])));
            let mut v = pl(f, rot).terms;
            v.insert(rot % (v.len() + 1), Term { coef: Q::zero(), mdeg: MultiDegree(vec![]) });
            v.push(Term { coef: Q::zero(), mdeg: MultiDegree(vec![]) });
            chk!(which, "new", Polynomial::new(v), f);
            chk!(which, "zero", Polynomial::<Q>::zero(), &P::new());
            chk!(which, "default", Polynomial::<Q>::default(), &P::new());
            chk!(which, "one", Polynomial::<Q>::one(), &pt(&(Q::one(), vec![])));
            let (i, d) = (rot % 5, [0u8, 1, 2, 77, 255][rot / 5 % 5]);
            let mut m = vec![0; i];
            m.push(d);
            chk!(which, "var", Polynomial::<Q>::var(i, d), &pt(&(Q::one(), trim(m))));
            ensure!(pf().is_zero() == f.is_empty(), "is_zero");
            let n = pf().terms().count();
            ensure!(n == f.len() && pf().terms_mut().count() == n, "terms");
            Out::Ok(true)
        });
        if which == 'k' {
            for (o, name) in ORDS {
                if o as usize == rot % 4 {
                    c.case("divide", true, format!("{} {}", name, inp), || {
                        let (r, qs) = comp!(o, divide(&pf(), &[pg()]));
                        chk!('k', "remainder", r, &P::new());
                        for q in qs {
                            chk!('k', "quotient", q, &P::new());
                        }
                        let s = comp!(o, sort_terms(&pf()));
                        chk!('k', "sorted", s, &P::new());
                        Out::Ok(nt)
                    });
                }
            }
        }
    };
    // exhaustive: polynomials in x, y with coefficients -1, 0, 1 on 1, x, y, xy
    let basis: [M; 4] = [vec![], vec![1], vec![0, 1], vec![1, 1]];
    let tiny: Vec<P> = (0..81)
        .map(|k| {
            let mut p = P::new();
            for (i, m) in basis.iter().enumerate() {
                addt(&mut p, Q::int((k / 3i64.pow(i as u32)) % 3 - 1), m);
            }
            p
        })
        .collect();
    for i in 0..tiny.len() {
        for j in 0..tiny.len() {
            let t = (Q::int((i % 3) as i64 - 1), if i % 3 == 1 { vec![] } else { basis[j % 4].clone() });
            let u = (Q::int((j % 3) as i64 - 1), if j % 3 == 1 { vec![] } else { basis[i % 4].clone() });
            one(c, &tiny[i], &tiny[j], &t, &u, Q::int((j % 4) as i64 - 1), i * 81 + j);
        }
    }
    for _ in 0..c.n(12_000) {
        if c.over() {
            break;
        }
        let (mut v, d, mut n) = ([1, 2, 3, 5][c.rng.below(4)], [1, 2, 4, 100][c.rng.below(4)], 1 + c.rng.below(6));
        if c.rng.chance(1, 25) {
            v = [2, 3, 9, 20][c.rng.below(4)];
            n = 10 + c.rng.below(35);
        }
        let f = rp(&mut c.rng, v, d, n);
        let g = partner(&mut c.rng, &f, v, d, n);
        let mut t = (nz(&mut c.rng), rm(&mut c.rng, v, d));
        if !f.is_empty() && c.rng.chance(1, 2) {
            let (m, q) = f.iter().nth(c.rng.below(f.len())).unwrap();
            t = (if c.rng.chance(1, 2) { -*q } else { nz(&mut c.rng) }, m.clone());
        }
        let mut u = (nz(&mut c.rng), rm(&mut c.rng, v, d));
        match c.rng.below(4) {
            0 => u = (-t.0, t.1.clone()),
            1 => u.1 = t.1.clone(),
            2 => u = (Q::zero(), vec![]),
            _ => {}
        }
        if c.rng.chance(1, 10) {
            t = (Q::zero(), vec![]);
        }
        let s = if c.rng.chance(1, 6) { Q::zero() } else { nz(&mut c.rng) };
        let rot = c.rng.below(1000);
        one(c, &f, &g, &t, &u, s, rot);
    }
}
pub fn c16(c: &mut Ctx) {
    parith(c, 'k');
}
pub fn c17(c: &mut Ctx) {
    parith(c, 'c');
}

// ---- C18

pub fn c18(c: &mut Ctx) {
    let one = |c: &mut Ctx, f: &P, g: &P, x: &[Q], rot: usize| {
        let inp = format!("f={:?} g={:?} x={:?} rotation {}", f, g, x, rot);
        let need = f.keys().chain(g.keys()).map(|m| m.len()).max().unwrap_or(0);
        if need > x.len() {
            c.case("short_point", false, inp, || {
                for (p, q) in [(f, pl(f, rot)), (g, pl(g, rot))] {
                    let need = p.keys().map(|m| m.len()).max().unwrap_or(0);
                    let r = attempt(|| q.eval(x));
                    ensure!(r.is_err() == (need > x.len()), "evaluation of {:?} at {:?} gave {:?}", p, x, r);
                }
                Out::Ok(true)
            });
            return;
        }
        c.case("eval", false, inp, || {
            let (pf, pg) = (pl(f, rot), pl(g, rot / 3));
            let (vf, vg) = (peval(f, x), peval(g, x));
            ensure!(pf.eval(x) == vf, "value {:?}, expected {:?}", pf.eval(x), vf);
            ensure!(pg.eval(x) == vg, "value {:?}, expected {:?}", pg.eval(x), vg);
            for t in &pf.terms {
                let w = t.coef * meval(&t.mdeg.0, x);
                ensure!(t.eval(x) == w, "value of term {:?} is {:?}, expected {:?}", t, t.eval(x), w);
            }
            ensure!((&pf + &pg).eval(x) == vf + vg, "sum");
            ensure!((&pf - &pg).eval(x) == vf - vg, "difference");
            ensure!((-&pf).eval(x) == -vf, "negation");
            if pmul(f, g).is_some() {
                ensure!((&pf * &pg).eval(x) == vf * vg, "product");
            }
            Out::Ok(!f.is_empty())
        });
    };
    c.case("zero", false, "zero polynomial".into(), || {
        ensure!(Polynomial::<Q>::zero().eval(&[]).isz() && Polynomial::<Q>::zero().eval(&[Q::one()]).isz(), "zero polynomial is not zero");
        Out::Ok(true)
    });
    for _ in 0..c.n(40_000) {
        if c.over() {
            break;
        }
        let (mut v, mut d, mut n) = ([1, 2, 3, 5][c.rng.below(4)], [1, 2, 3, 5][c.rng.below(4)], 1 + c.rng.below(5));
        if c.rng.chance(1, 25) {
            v = [1, 2, 8, 14][c.rng.below(4)];
            d = 2;
            n = 8 + c.rng.below(30);
        }
        let f = rp(&mut c.rng, v, d, n);
        let g = partner(&mut c.rng, &f, v, d, n);
        let k = c.rng.below(v + 3);
        let x: Vec<Q> = (0..k)
            .map(|_| match c.rng.below(6) {
                0 => Q::zero(),
                1 => Q::new(c.rng.range(-3, 3) as i128, 2),
                _ => Q::int(c.rng.range(-3, 3)),
            })
            .collect();
        let rot = c.rng.below(100);
        one(c, &f, &g, &x, rot);
        if c.rng.chance(1, 20) {
            // large exponents on coordinates whose powers stay small
            let f = rp(&mut c.rng, 3, 255, 3);
            let x: Vec<Q> = (0..3).map(|_| Q::int(c.rng.range(-1, 1))).collect();
            one(c, &f, &P::new(), &x, rot);
        }
    }
}

// ---- C19

pub fn c19(c: &mut Ctx) {
    let one = |c: &mut Ctx, f: &P, rot: usize| {
        for (o, name) in ORDS {
            c.case(name, false, format!("{:?} rotation {}", f, rot), || {
                let p = pl(f, rot);
                let w = lt(o, f);
                let g = comp!(o, leading_term(&p)).map(|t| (t.coef, t.mdeg.0.clone()));
                ensure!(g == w, "leading term {:?}, expected {:?}", g, w);
                let g = comp!(o, leading_coef(&p));
                ensure!(g == w.map(|t| t.0), "leading coefficient {:?}", g);
                let s = comp!(o, sort_terms(&p));
                let mut v: Vec<(Q, M)> = f.iter().map(|(m, c)| (*c, m.clone())).collect();
                v.sort_by(|a, b| mcmp(o, &a.1, &b.1));
                ensure!(sh(&s) == v, "sorted {:?}, expected {:?}", sh(&s), v);
                ensure!(sh(&p) == sh(&pl(f, rot)), "the argument changed");
                Out::Ok(f.len() > 1)
            });
        }
    };
    one(c, &P::new(), 0);
    for _ in 0..c.n(40_000) {
        if c.over() {
            break;
        }
        let (mut v, d, mut n) = (1 + c.rng.below(5), [1, 2, 3, 255][c.rng.below(4)], 1 + c.rng.below(8));
        if c.rng.chance(1, 20) {
            v = [2, 4, 9, 30][c.rng.below(4)];
            n = 10 + c.rng.below(70);
        }
        let f = rp(&mut c.rng, v, d, n);
        let rot = c.rng.below(100);
        one(c, &f, rot);
    }
}

// ---- C20

fn divide_case(c: &mut Ctx, o: u8, name: &str, f: &P, gs: &[P], rot: usize) {
    c.case("divide", true, format!("{} f={:?} by {:?} rotation {}", name, f, gs, rot), || {
        let pf = pl(f, rot);
        let pg: Vec<Polynomial<Q>> = gs.iter().enumerate().map(|(i, g)| pl(g, rot / (i + 2))).collect();
        let (r, qs) = comp!(o, divide(&pf, &pg));
        ensure!(qs.len() == gs.len(), "{} quotients for {} divisors", qs.len(), gs.len());
        let rr = un(&r);
        let mut sum = rr.clone();
        let top = lt(o, f).map(|t| t.1);
        let above = |p: &P| p.keys().any(|m| top.as_ref().map_or(true, |t| mcmp(o, m, t) == Ordering::Greater));
        for (q, g) in qs.iter().zip(gs) {
            let p = match pmul(&un(q), g) {
                Some(p) => p,
                None => return Out::Bad(format!("quotient {:?} too large", sh(q))),
            };
            ensure!(!above(&p), "a quotient-divisor product {:?} exceeds the leading term of f", p);
            sum = padd(&sum, &p);
        }
        ensure!(!above(&rr), "the remainder {:?} exceeds the leading term of f", rr);
        ensure!(sum == *f, "the combination is {:?}; remainder {:?}, quotients {:?}", sum, rr, qs.iter().map(|q| sh(q)).collect::<Vec<_>>());
        for g in gs {
            if let Some(l) = lt(o, g) {
                for m in rr.keys() {
                    ensure!(!mdiv(&l.1, m), "remainder {:?} has a term divisible by the leading term {:?}", rr, l);
                }
            }
        }
        Out::Ok(!f.is_empty() && !gs.is_empty())
    });
}

pub fn c20(c: &mut Ctx) {
    let basis: [M; 4] = [vec![], vec![1], vec![0, 1], vec![1, 1]];
    let tiny: Vec<P> = (0..81)
        .map(|k| {
            let mut p = P::new();
            for (i, m) in basis.iter().enumerate() {
                addt(&mut p, Q::int((k / 3i64.pow(i as u32)) % 3 - 1), m);
            }
            p
        })
        .collect();
    for f in &tiny {
        for g in &tiny {
            for (o, name) in ORDS {
                divide_case(c, o, name, f, &[g.clone()], 0);
            }
        }
    }
    for _ in 0..c.n(25_000) {
        if c.over() {
            break;
        }
        let (o, name) = ORDS[c.rng.below(4)];
        let (v, d, n) = (1 + c.rng.below(3), 1 + c.rng.below(3), 1 + c.rng.below(4));
        let wide = c.rng.chance(1, 15);
        let k = if wide { 4 + c.rng.below(8) } else { c.rng.below(4) };
        let mut gs: Vec<P> = (0..k).map(|_| rp(&mut c.rng, v, d, n)).collect();
        let mut f = rp(&mut c.rng, v, d + 2, if wide { 25 } else { n + 2 });
        if c.rng.chance(1, 2) {
            // a multiple of a divisor, plus something
            if let Some(g) = gs.first() {
                let h = rp(&mut c.rng, v, 2, 2);
                if let Some(p) = pmul(g, &h) {
                    f = if c.rng.chance(1, 2) { p } else { padd(&f, &p) };
                }
            }
        }
        if k > 1 && c.rng.chance(1, 4) {
            gs[1] = pscale(&gs[0], nz(&mut c.rng));
        }
        if c.rng.chance(1, 8) {
            gs.push(f);
            spread(&mut c.rng, &mut gs);
            f = gs.pop().unwrap();
        }
        let rot = c.rng.below(100);
        divide_case(c, o, name, &f, &gs, rot);
    }
}

// ---- C21

pub fn c21(c: &mut Ctx) {
    let one = |c: &mut Ctx, f: &P, g: &P, rot: usize| {
        for (o, name) in ORDS {
            c.case("try_reduce", true, format!("{} f={:?} g={:?} rotation {}", name, f, g, rot), || {
                let r = comp!(o, try_reduce(&pl(f, rot), &pl(g, rot / 3)));
                if f.is_empty() || g.is_empty() {
                    ensure!(r.is_none(), "a zero argument gave {:?}", r);
                    return Out::Ok(true);
                }
                let (w, m) = match spoly(o, f, g) {
                    Some(x) => x,
                    None => return Out::Skip,
                };
                let r = match r {
                    Some(r) => r,
                    None => return Out::Bad("nothing returned for nonzero polynomials".into()),
                };
                ensure!(un(&r) == w, "got {:?}, expected {:?}", sh(&r), w);
                for t in &r.terms {
                    ensure!(mcmp(o, &t.mdeg.0, &m) == Ordering::Less, "term {:?} is not below the lcm {:?}", t, m);
                }
                Out::Ok(true)
            });
        }
    };
    let mut z = P::new();
    one(c, &z, &z, 0);
    addt(&mut z, Q::one(), &vec![1]);
    one(c, &z, &P::new(), 0);
    one(c, &P::new(), &z, 0);
    for _ in 0..c.n(25_000) {
        if c.over() {
            break;
        }
        let (mut v, d, mut n) = (1 + c.rng.below(4), [1, 2, 4, 90][c.rng.below(4)], 1 + c.rng.below(5));
        if c.rng.chance(1, 20) {
            v = [2, 7, 12, 25][c.rng.below(4)];
            n = 6 + c.rng.below(30);
        }
        let f = rp(&mut c.rng, v, d, n);
        let g = partner(&mut c.rng, &f, v, d, n);
        let rot = c.rng.below(100);
        one(c, &f, &g, rot);
    }
}

// ---- C22, C23

fn gens(rng: &mut Rng) -> Vec<P> {
    let long = rng.chance(1, 4);
    let v = 1 + rng.below(3);
    let d = if v == 3 { 1 + rng.below(2) } else { 1 + rng.below(3) };
    let k = rng.below(4);
    let mut g = vec![];
    for _ in 0..k {
        let n = if long { 1 + rng.below(7) } else { 1 + rng.below(3) };
        let p = rp(rng, v, d, n);
        if !p.is_empty() {
            g.push(p);
        }
    }
    if rng.chance(1, 6) {
        spread(rng, &mut g);
    }
    g
}

pub fn c22(c: &mut Ctx) {
    let one = |c: &mut Ctx, o: u8, name: &str, gs: &[P], rot: usize| {
        let mut steps = 3000;
        let w = match attempt(|| is_gb(o, gs, &mut steps)) {
            Ok(Ok(w)) => w,
            _ => return,
        };
        c.case("criterion", true, format!("{} {:?} rotation {}", name, gs, rot), || {
            let v: Vec<Polynomial<Q>> = gs.iter().enumerate().map(|(i, g)| pl(g, rot / (i + 1))).collect();
            let before: Vec<_> = v.iter().map(sh).collect();
            let r = comp!(o, buchberger_criterion(&v));
            ensure!(r == w, "the test says {}, the S-polynomials say {}", r, w);
            ensure!(before == v.iter().map(sh).collect::<Vec<_>>(), "the list changed");
            Out::Ok(gs.len() > 1)
        });
    };
    one(c, LEX, "Lex", &[], 0);
    for it in 0..c.n(20_000) {
        if c.over() {
            break;
        }
        let (o, name) = ORDS[c.rng.below(4)];
        let mut g = gens(&mut c.rng);
        if it % 2 == 0 {
            // a true basis, sometimes with a repeated, scaled, dropped or perturbed member
            let mut steps = 1500;
            if let Ok(Ok(b)) = attempt(|| rgb(o, &g, &mut steps)) {
                g = b;
                match c.rng.below(5) {
                    0 if !g.is_empty() => {
                        let i = c.rng.below(g.len());
                        let p = pscale(&g[i], nz(&mut c.rng));
                        g.push(p);
                    }
                    1 if g.len() > 2 => {
                        let i = c.rng.below(g.len());
                        g.remove(i);
                    }
                    2 if !g.is_empty() => {
                        let i = c.rng.below(g.len());
                        let m = rm(&mut c.rng, 2, 1);
                        let q = nz(&mut c.rng);
                        addt(&mut g[i], q, &m);
                        if g[i].is_empty() {
                            g.remove(i);
                        }
                    }
                    3 => {
                        let k = g.len();
                        if k > 1 {
                            g.rotate_left(1 + c.rng.below(k - 1));
                        }
                    }
                    _ => {}
                }
            } else {
                continue;
            }
        }
        let rot = c.rng.below(100);
        one(c, o, name, &g, rot);
    }
}

pub fn c23(c: &mut Ctx) {
    let one = |c: &mut Ctx, o: u8, name: &str, gs: &[P], rot: usize| {
        let mut steps = 400;
        let mut w = match attempt(|| rgb(o, gs, &mut steps)) {
            Ok(Ok(w)) => w,
            _ => {
                c.skipped += 1;
                return;
            }
        };
        c.case("algorithm", true, format!("{} {:?} rotation {}", name, gs, rot), || {
            let mut v: Vec<Polynomial<Q>> = gs.iter().enumerate().map(|(i, g)| pl(g, rot / (i + 1))).collect();
            comp!(o, buchberger_algorithm(&mut v));
            let mut g = vec![];
            for p in &v {
                if let Err(e) = clean(p) {
                    return Out::Bad(format!("an element is not clean: {}", e));
                }
                ensure!(!p.is_zero(), "an element is zero");
                g.push(un(p));
            }
            for (i, p) in g.iter().enumerate() {
                ensure!(lt(o, p).unwrap().0 == Q::one(), "{:?} is not monic", p);
                for (j, q) in g.iter().enumerate() {
                    let l = lt(o, q).unwrap().1;
                    ensure!(i == j || !p.keys().any(|m| mdiv(&l, m)), "a term of {:?} is divisible by the leading term of {:?}", p, q);
                }
            }
            // the reduced Groebner basis of an ideal is unique
            g.sort_by_key(|p| format!("{:?}", p));
            w.sort_by_key(|p| format!("{:?}", p));
            ensure!(g == w, "got {:?}, the reduced Groebner basis is {:?}", g, w);
            Out::Ok(gs.len() > 1)
        });
    };
    one(c, LEX, "Lex", &[], 0);
    for _ in 0..c.n(6_000) {
        if c.over() {
            break;
        }
        let (o, name) = ORDS[c.rng.below(4)];
        let mut g = gens(&mut c.rng);
        if g.len() > 1 && c.rng.chance(1, 6) {
            g[1] = pscale(&g[0], nz(&mut c.rng));
        }
        let rot = c.rng.below(100);
        one(c, o, name, &g, rot);
    }
}

// ---- C28: only whether the call comes back; the watchdog in main.rs reports a call that does not

pub fn c28(c: &mut Ctx) {
    c.case("algorithm", true, "Lex []".into(), || {
        comp!(LEX, buchberger_algorithm(&mut vec![]));
        Out::Ok(true)
    });
    for _ in 0..c.n(6_000) {
        if c.over() {
            break;
        }
        let (o, name) = ORDS[c.rng.below(4)];
        let rot = c.rng.below(100);
        let (v, d, n) = (1 + c.rng.below(3), 1 + c.rng.below(3), 1 + c.rng.below(4));
        let k = c.rng.below(4);
        let gs: Vec<P> = (0..k).map(|_| rp(&mut c.rng, v, d, n)).collect();
        let f = rp(&mut c.rng, v, d + 2, n + 2);
        c.case("divide", true, format!("{} f={:?} by {:?} rotation {}", name, f, gs, rot), || {
            let v: Vec<Polynomial<Q>> = gs.iter().map(|g| pl(g, rot / 2)).collect();
            let _ = comp!(o, divide(&pl(&f, rot), &v));
            Out::Ok(gs.len() > 1)
        });
        let g = gens(&mut c.rng);
        let mut steps = 400;
        match attempt(|| rgb(o, &g, &mut steps)) {
            Ok(Ok(_)) => {}
            _ => {
                c.skipped += 1;
                continue;
            }
        }
        c.case("algorithm", true, format!("{} {:?} rotation {}", name, g, rot), || {
            let mut v: Vec<Polynomial<Q>> = g.iter().enumerate().map(|(i, g)| pl(g, rot / (i + 1))).collect();
            comp!(o, buchberger_algorithm(&mut v));
            Out::Ok(g.len() > 1)
        });
    }
}
