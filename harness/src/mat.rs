//! C05-C12, C24, C25: matrices over the exact field Q of q.rs, against textbook definitions.
use crate::ctx::*;
use crate::ensure;
use crate::q::*;
use algeo::core::num::*;
use algeo::linalg::mat::Mat;
use algeo::linalg::util;
use std::cmp::Ordering;

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct R {
    pub r: usize,
    pub c: usize,
    pub e: Vec<Q>,
}
impl R {
    fn zero(r: usize, c: usize) -> R {
        R { r, c, e: vec![Q::zero(); r * c] }
    }
    fn at(&self, i: usize, j: usize) -> Q {
        self.e[i * self.c + j]
    }
    fn set(&mut self, i: usize, j: usize, v: Q) {
        self.e[i * self.c + j] = v
    }
    fn fun(r: usize, c: usize, f: impl Fn(usize, usize) -> Q) -> R {
        let mut m = R::zero(r, c);
        for i in 0..r {
            for j in 0..c {
                m.set(i, j, f(i, j));
            }
        }
        m
    }
    fn id(n: usize) -> R {
        R::fun(n, n, |i, j| if i == j { Q::one() } else { Q::zero() })
    }
    fn mul(&self, o: &R) -> R {
        R::fun(self.r, o.c, |i, j| (0..self.c).fold(Q::zero(), |a, k| a + self.at(i, k) * o.at(k, j)))
    }
    fn row(&self, i: usize) -> Vec<Q> {
        (0..self.c).map(|j| self.at(i, j)).collect()
    }
    fn col(&self, j: usize) -> Vec<Q> {
        (0..self.r).map(|i| self.at(i, j)).collect()
    }
    fn mat(&self) -> Mat<Q> {
        Mat::new(self.r, self.c, self.e.clone())
    }
    /// reduced echelon form and pivot columns
    fn rref(&self) -> (R, Vec<usize>) {
        let mut m = self.clone();
        let mut piv = vec![];
        let mut r = 0;
        for c in 0..m.c {
            if r >= m.r {
                break;
            }
            if let Some(p) = (r..m.r).find(|&i| !m.at(i, c).isz()) {
                for j in 0..m.c {
                    let (x, y) = (m.at(r, j), m.at(p, j));
                    m.set(r, j, y);
                    m.set(p, j, x);
                }
                let d = m.at(r, c);
                for j in 0..m.c {
                    m.set(r, j, m.at(r, j) / d);
                }
                for i in 0..m.r {
                    let f = m.at(i, c);
                    if i != r && !f.isz() {
                        for j in 0..m.c {
                            m.set(i, j, m.at(i, j) - f * m.at(r, j));
                        }
                    }
                }
                piv.push(c);
                r += 1;
            }
        }
        (m, piv)
    }
    fn rank(&self) -> usize {
        self.rref().1.len()
    }
}
fn from_vecs(rows: &[Vec<Q>], c: usize) -> R {
    R { r: rows.len(), c, e: rows.concat() }
}
/// contents of a matrix of the code under test; None if the entry list does not fit the dimensions
fn un(m: &Mat<Q>) -> Option<R> {
    if m.entries().len() != m.rows() * m.cols() {
        return None;
    }
    Some(R { r: m.rows(), c: m.cols(), e: m.entries().to_vec() })
}
macro_rules! get {
    ($m:expr, $what:expr) => {
        match un($m) {
            Some(x) => x,
            None => return Out::Bad(format!("{}: {} entries for a {}x{} matrix", $what, ($m).entries().len(), ($m).rows(), ($m).cols())),
        }
    };
}
macro_rules! same {
    ($m:expr, $w:expr, $what:expr) => {{
        let g = get!($m, $what);
        let w = $w;
        ensure!(g == w, "{}: got {:?}, expected {:?}", $what, g, w);
    }};
}

fn val(rng: &mut Rng) -> Q {
    match rng.below(8) {
        0 | 1 | 2 => Q::zero(),
        3 => Q::one(),
        4 => Q::int(-1),
        5 | 6 => Q::int(rng.range(-4, 4)),
        _ => Q::new(rng.range(-5, 5) as i128, rng.range(1, 4) as i128),
    }
}
fn rnd(rng: &mut Rng, r: usize, c: usize) -> R {
    R { r, c, e: (0..r * c).map(|_| val(rng)).collect() }
}
/// a matrix larger than most, with few entries that are not zero
fn rnd_big(rng: &mut Rng) -> R {
    let (r, c) = (rng.below(19), rng.below(19));
    let small = |rng: &mut Rng| [Q::one(), Q::one(), Q::int(-1), Q::int(2)][rng.below(4)];
    let mut m = R::zero(r, c);
    if r * c == 0 {
        return m;
    }
    match rng.below(4) {
        0 => {
            // about two entries in each row
            for i in 0..r {
                for _ in 0..rng.below(4) {
                    let (j, v) = (rng.below(c), small(rng));
                    m.set(i, j, v);
                }
            }
        }
        1 => {
            // few entries on a shifted diagonal
            let s = rng.below(c);
            for i in 0..r.min(c) {
                if rng.chance(4, 5) {
                    let v = small(rng);
                    m.set(i, (i + s) % c, v);
                }
            }
        }
        2 => {
            // a product through a narrow middle
            let k = 1 + rng.below(3);
            let f = R::fun(r, k, |i, j| Q::int(((i * 7 + j * 3) % 5) as i64 - 2));
            let g = R { r: k, c, e: (0..k * c).map(|_| if rng.chance(1, 2) { Q::zero() } else { Q::int(rng.range(-2, 2)) }).collect() };
            m = f.mul(&g);
        }
        _ => {
            // triangular with some of the diagonal missing
            for i in 0..r {
                if i < c && rng.chance(5, 6) {
                    m.set(i, i, Q::one());
                }
                if i + 1 < c {
                    let (j, v) = (i + 1 + rng.below(c - i - 1), small(rng));
                    m.set(i, j, v);
                }
            }
            if rng.chance(1, 2) {
                let mut w = R::zero(r, c);
                for i in 0..r {
                    for j in 0..c {
                        w.set(r - 1 - i, j, m.at(i, j));
                    }
                }
                m = w;
            }
        }
    }
    m
}
/// random matrix with a random rank structure: dependent rows, repeated columns, zero rows or columns
fn rnd_struct(rng: &mut Rng, maxd: usize) -> R {
    let (r, c) = (rng.below(maxd + 1), rng.below(maxd + 1));
    let mut m = rnd(rng, r, c);
    match rng.below(5) {
        0 if r > 1 => {
            for i in 1..r {
                if rng.chance(1, 2) {
                    let (s, f, g) = (rng.below(i), val(rng), val(rng));
                    let s2 = rng.below(i);
                    for j in 0..c {
                        let v = m.at(s, j) * f + m.at(s2, j) * g;
                        m.set(i, j, v);
                    }
                }
            }
        }
        1 if c > 1 => {
            for j in 1..c {
                if rng.chance(1, 2) {
                    let (s, f) = (rng.below(j), val(rng));
                    for i in 0..r {
                        let v = m.at(i, s) * f;
                        m.set(i, j, v);
                    }
                }
            }
        }
        2 => {
            for i in 0..r {
                if rng.chance(1, 3) {
                    for j in 0..c {
                        m.set(i, j, Q::zero());
                    }
                }
            }
            for j in 0..c {
                if rng.chance(1, 3) {
                    for i in 0..r {
                        m.set(i, j, Q::zero());
                    }
                }
            }
        }
        3 => {
            for x in m.e.iter_mut() {
                *x = Q::int(rng.range(0, 1));
            }
        }
        _ => {}
    }
    m
}
/// every matrix of the given shape over the given values
fn all(r: usize, c: usize, vals: &[i64], f: &mut dyn FnMut(&R)) {
    let n = r * c;
    let mut idx = vec![0usize; n];
    loop {
        f(&R { r, c, e: idx.iter().map(|&i| Q::int(vals[i])).collect() });
        let mut k = 0;
        while k < n {
            idx[k] += 1;
            if idx[k] < vals.len() {
                break;
            }
            idx[k] = 0;
            k += 1;
        }
        if k == n {
            return;
        }
    }
}

pub fn c05(c: &mut Ctx) {
    let one = |c: &mut Ctx, a: R, b: R, d: R, s: Q| {
        // a, b same shape; a.c == d.r
        let inp = format!("a={:?} b={:?} d={:?} s={:?}", a, b, d, s);
        let nt = a.r * a.c > 0;
        c.case("add", false, inp.clone(), || {
            let w = R::fun(a.r, a.c, |i, j| a.at(i, j) + b.at(i, j));
            same!(&(&a.mat() + &b.mat()), w.clone(), "&a + &b");
            same!(&(a.mat() + b.mat()), w.clone(), "a + b");
            same!(&(&a.mat() + b.mat()), w.clone(), "&a + b");
            same!(&(a.mat() + &b.mat()), w, "a + &b");
            Out::Ok(nt)
        });
        c.case("scalar", false, inp.clone(), || {
            let w = R::fun(a.r, a.c, |i, j| a.at(i, j) * s);
            same!(&(&a.mat() * s), w.clone(), "&a * s");
            same!(&(a.mat() * s), w.clone(), "a * s");
            let mut x = a.mat();
            x *= s;
            same!(&x, w.clone(), "a *= s");
            let mut x = a.mat();
            x.scale(s);
            same!(&x, w, "a.scale(s)");
            Out::Ok(nt)
        });
        c.case("mul", false, inp.clone(), || {
            let w = a.mul(&d);
            same!(&(&a.mat() * &d.mat()), w.clone(), "&a * &d");
            same!(&(a.mat() * d.mat()), w.clone(), "a * d");
            same!(&(&a.mat() * d.mat()), w.clone(), "&a * d");
            same!(&(a.mat() * &d.mat()), w, "a * &d");
            Out::Ok(nt && d.c > 0)
        });
        c.case("transpose", false, inp.clone(), || {
            same!(&a.mat().transpose(), R::fun(a.c, a.r, |i, j| a.at(j, i)), "transpose");
            Out::Ok(nt)
        });
        c.case("dot", false, inp.clone(), || {
            let w = (0..a.e.len()).fold(Q::zero(), |x, k| x + a.e[k] * b.e[k]);
            let g = a.mat().dot(&b.mat());
            ensure!(g == w, "dot: got {:?}, expected {:?}", g, w);
            let w = (0..a.e.len()).fold(Q::zero(), |x, k| x + a.e[k] * a.e[k]);
            let g = a.mat().frobenius_norm();
            ensure!(g == w, "squared norm: got {:?}, expected {:?}", g, w);
            Out::Ok(nt)
        });
        c.case("eq", false, inp.clone(), || {
            let g = a.mat().epsilon_equals(&b.mat());
            ensure!(g == (a == b), "equality up to tolerance: got {}, expected {}", g, a == b);
            ensure!(a.mat().epsilon_equals(&a.mat()), "a matrix does not equal itself");
            if nt {
                let mut a2 = a.clone();
                let k = a2.e.len() - 1;
                a2.e[k] = a2.e[k] + Q::one();
                ensure!(!a.mat().epsilon_equals(&a2.mat()), "different matrices compare equal");
            }
            Out::Ok(nt)
        });
        c.case("triangular", false, inp.clone(), || {
            let up = (0..a.r).all(|i| (0..a.c).all(|j| j >= i || a.at(i, j).isz()));
            let lo = (0..a.r).all(|i| (0..a.c).all(|j| j <= i || a.at(i, j).isz()));
            ensure!(a.mat().is_upper_triangular() == up, "is_upper_triangular is {}", !up);
            ensure!(a.mat().is_lower_triangular() == lo, "is_lower_triangular is {}", !lo);
            Out::Ok(nt)
        });
    };
    for r in 0..4 {
        for k in 0..4 {
            for d in 0..4 {
                for _ in 0..12 {
                    let (a, b, dd, s) = (rnd(&mut c.rng, r, k), rnd(&mut c.rng, r, k), rnd(&mut c.rng, k, d), val(&mut c.rng));
                    one(c, a, b, dd, s);
                }
            }
        }
    }
    // triangularity for every zero pattern of small shapes
    for r in 0..4usize {
        for k in 0..4usize {
            if r * k <= 9 {
                all(r, k, &[0, 1], &mut |a| {
                    let up = (0..a.r).all(|i| (0..a.c).all(|j| j >= i || a.at(i, j).isz()));
                    let lo = (0..a.r).all(|i| (0..a.c).all(|j| j <= i || a.at(i, j).isz()));
                    c.case("triangular", false, format!("{:?}", a), || {
                        ensure!(a.mat().is_upper_triangular() == up, "is_upper_triangular is {}", !up);
                        ensure!(a.mat().is_lower_triangular() == lo, "is_lower_triangular is {}", !lo);
                        Out::Ok(true)
                    });
                });
            }
        }
    }
    // incompatible shapes
    for r in 0..4 {
        for k in 0..4 {
            for r2 in 0..4 {
                for k2 in 0..4 {
                    let (a, b) = (rnd(&mut c.rng, r, k), rnd(&mut c.rng, r2, k2));
                    let inp = format!("{}x{} with {}x{}", r, k, r2, k2);
                    if (r, k) != (r2, k2) {
                        c.case("add_shape", false, inp.clone(), || {
                            ensure!(attempt(|| &a.mat() + &b.mat()).is_err(), "adding incompatible shapes did not panic");
                            ensure!(attempt(|| a.mat() + b.mat()).is_err(), "adding incompatible shapes did not panic");
                            Out::Ok(true)
                        });
                    }
                    if k != r2 {
                        c.case("mul_shape", false, inp, || {
                            ensure!(attempt(|| &a.mat() * &b.mat()).is_err(), "multiplying incompatible shapes did not panic");
                            ensure!(attempt(|| a.mat() * b.mat()).is_err(), "multiplying incompatible shapes did not panic");
                            Out::Ok(true)
                        });
                    }
                }
            }
        }
    }
    for _ in 0..c.n(6000) {
        if c.over() {
            break;
        }
        let (mut r, mut k, mut d) = (c.rng.below(7), c.rng.below(7), c.rng.below(7));
        if c.rng.chance(1, 40) {
            let hi = [12, 22, 40][c.rng.below(3)];
            r = c.rng.below(hi);
            k = c.rng.below(hi);
            d = c.rng.below(hi);
        }
        let (a, mut b, dd, s) = (rnd(&mut c.rng, r, k), rnd(&mut c.rng, r, k), rnd(&mut c.rng, k, d), val(&mut c.rng));
        if c.rng.chance(1, 3) {
            b = a.clone();
            if r * k > 0 && c.rng.chance(1, 2) {
                let i = c.rng.below(r * k);
                b.e[i] = val(&mut c.rng);
            }
        }
        one(c, a, b, dd, s);
    }
}

pub fn c06(c: &mut Ctx) {
    for n in (0..7).chain([12, 17, 33]) {
        c.case("identity", false, format!("n={}", n), || {
            same!(&Mat::<Q>::identity(n), R::id(n), "identity");
            Out::Ok(true)
        });
        for k in 0..n {
            c.case("e", false, format!("e({}, {})", k, n), || {
                same!(&Mat::<Q>::e(k, n), R::fun(n, 1, |i, _| if i == k { Q::one() } else { Q::zero() }), "e");
                Out::Ok(true)
            });
            for s in [-2, 0, 1, 3] {
                let s = Q::int(s);
                c.case("scale_mat", false, format!("scale_mat({}, {}, {:?})", n, k, s), || {
                    same!(&Mat::scale_mat(n, k, s), R::fun(n, n, |i, j| if i != j { Q::zero() } else if i == k { s } else { Q::one() }), "scale_mat");
                    Out::Ok(true)
                });
                for t in 0..n {
                    if t != k {
                        c.case("replacement", false, format!("replacement({}, {}, {}, {:?})", n, k, t, s), || {
                            same!(&Mat::replacement(n, k, t, s), R::fun(n, n, |i, j| if i == j { Q::one() } else if i == t && j == k { s } else { Q::zero() }), "replacement");
                            Out::Ok(true)
                        });
                    }
                }
            }
            for t in 0..n {
                c.case("permutation", false, format!("permutation({}, {}, {})", n, k, t), || {
                    let p = |i: usize| if i == k { t } else if i == t { k } else { i };
                    same!(&Mat::<Q>::permutation(n, k, t), R::fun(n, n, |i, j| if p(i) == j { Q::one() } else { Q::zero() }), "permutation");
                    Out::Ok(true)
                });
            }
        }
        for _ in 0..20 {
            let mut p: Vec<usize> = (0..n).collect();
            for i in (1..n).rev() {
                let j = c.rng.below(i + 1);
                p.swap(i, j);
            }
            c.case("permutation_from_vec", false, format!("{:?}", p), || {
                same!(&Mat::<Q>::permutation_from_vec(p.clone()), R::fun(n, n, |i, j| if p[i] == j { Q::one() } else { Q::zero() }), "permutation_from_vec");
                Out::Ok(true)
            });
        }
        for k in 0..7 {
            c.case("zero", false, format!("zero({}, {})", n, k), || {
                same!(&Mat::<Q>::zero(n, k), R::zero(n, k), "zero");
                Out::Ok(true)
            });
        }
    }
    for it in 0..c.n(3000) {
        if c.over() {
            break;
        }
        let (r, k) = if it < 490 { (it / 10 / 7, it / 10 % 7) } else { if c.rng.chance(1, 30) { (c.rng.below(40), c.rng.below(40)) } else { (c.rng.below(8), c.rng.below(8)) } };
        // distinct entries, so that a misplaced one is seen
        let a = R::fun(r, k, |i, j| Q::new((i * 11 + j + 1) as i128, 1 + (it % 3) as i128));
        let b = rnd(&mut c.rng, r, k);
        let inp = format!("{:?}", a);
        c.case("accessors", false, inp.clone(), || {
            let m = a.mat();
            same!(&m, a.clone(), "new");
            ensure!(m.rows() == r && m.cols() == k && m.entries() == &a.e[..], "dimensions or entries");
            for i in 0..r {
                for j in 0..k {
                    ensure!(m[(i, j)] == a.at(i, j), "index ({}, {})", i, j);
                    ensure!(*m.get_unchecked(i, j) == a.at(i, j), "get_unchecked ({}, {})", i, j);
                    let mut x = a.mat();
                    x[(i, j)] = Q::int(-99);
                    let mut w = a.clone();
                    w.set(i, j, Q::int(-99));
                    same!(&x, w.clone(), "index_mut");
                    let mut x = a.mat();
                    *x.get_mut_unchecked(i, j) = Q::int(-99);
                    same!(&x, w, "get_mut_unchecked");
                }
            }
            Out::Ok(r * k > 0)
        });
        c.case("rows", false, inp.clone(), || {
            for i in 0..r {
                let m = a.mat();
                let g: Vec<Q> = m.get_row_iter(i).cloned().collect();
                ensure!(g == a.row(i), "get_row_iter({}): {:?}", i, g);
                same!(&m.get_row(i), R { r: k, c: 1, e: a.row(i) }, "get_row");
                let mut x = a.mat();
                let g: Vec<Q> = x.get_row_iter_mut(i).map(|x| *x).collect();
                ensure!(g == a.row(i), "get_row_iter_mut({}): {:?}", i, g);
                for (n, e) in x.get_row_iter_mut(i).enumerate() {
                    *e = Q::int(-100 - n as i64);
                }
                same!(&x, R::fun(r, k, |p, q| if p == i { Q::int(-100 - q as i64) } else { a.at(p, q) }), "get_row_iter_mut");
            }
            Out::Ok(r * k > 0)
        });
        c.case("cols", false, inp.clone(), || {
            for j in 0..k {
                let m = a.mat();
                let g: Vec<Q> = m.get_col_iter(j).cloned().collect();
                ensure!(g == a.col(j), "get_col_iter({}): {:?}", j, g);
                same!(&m.get_col(j), R { r, c: 1, e: a.col(j) }, "get_col");
                let mut x = a.mat();
                let g: Vec<Q> = x.get_col_iter_mut(j).map(|x| *x).collect();
                ensure!(g == a.col(j), "get_col_iter_mut({}): {:?}", j, g);
                for (n, e) in x.get_col_iter_mut(j).enumerate() {
                    *e = Q::int(-100 - n as i64);
                }
                same!(&x, R::fun(r, k, |p, q| if q == j { Q::int(-100 - p as i64) } else { a.at(p, q) }), "get_col_iter_mut");
            }
            Out::Ok(r * k > 0)
        });
        c.case("index_iter", false, inp.clone(), || {
            let g: Vec<(usize, usize)> = a.mat().index_iter().collect();
            let w: Vec<(usize, usize)> = (0..r).flat_map(|i| (0..k).map(move |j| (i, j))).collect();
            ensure!(g == w, "index_iter: {:?}", g);
            Out::Ok(r * k > 0)
        });
        c.case("vectors", false, inp.clone(), || {
            same!(&Mat::from(b.e.clone().into_iter()), R { r: r * k, c: 1, e: b.e.clone() }, "from iterator");
            if k > 0 {
                let vs: Vec<Mat<Q>> = (0..k).map(|j| R { r, c: 1, e: a.col(j) }.mat()).collect();
                same!(&Mat::from_col_vectors(&vs), a.clone(), "from_col_vectors");
            }
            if r > 0 {
                let vs: Vec<Mat<Q>> = (0..r).map(|i| R { r: k, c: 1, e: a.row(i) }.mat()).collect();
                same!(&Mat::from_row_vectors(&vs), a.clone(), "from_row_vectors");
            }
            Out::Ok(r * k > 0)
        });
        if r * k > 0 {
            let p = (c.rng.below(r), c.rng.below(k));
            let q = (c.rng.below(r), c.rng.below(k));
            c.case("swap", false, format!("swap {:?} {:?} in {}", p, q, inp), || {
                let mut x = a.mat();
                x.swap(p, q);
                let mut w = a.clone();
                w.set(p.0, p.1, a.at(q.0, q.1));
                w.set(q.0, q.1, a.at(p.0, p.1));
                same!(&x, w, "swap");
                Out::Ok(p != q)
            });
        }
    }
}

pub fn c07(c: &mut Ctx) {
    for it in 0..c.n(20000) {
        if c.over() {
            break;
        }
        let (r, k) = if it < 2000 { (1 + it % 5, (it / 5) % 6) } else if c.rng.chance(1, 60) { (1 + c.rng.below(30), c.rng.below(30)) } else { (1 + c.rng.below(6), c.rng.below(7)) };
        let mut a = rnd(&mut c.rng, r, k);
        if it % 2 == 0 {
            a = R::fun(r, k, |i, j| Q::int((i * 10 + j + 1) as i64));
        }
        let (s, t, f) = (c.rng.below(r), c.rng.below(r), val(&mut c.rng));
        let inp = format!("{:?} rows {} {} scalar {:?}", a, s, t, f);
        c.case("permute_rows", false, inp.clone(), || {
            let mut x = a.mat();
            x.permute_rows(s, t);
            let w = R::fun(r, k, |i, j| a.at(if i == s { t } else if i == t { s } else { i }, j));
            same!(&x, w.clone(), "permute_rows");
            same!(&(Mat::permutation(r, s, t) * a.mat()), w, "elementary matrix product");
            Out::Ok(k > 0 && s != t)
        });
        c.case("scale_row", false, inp.clone(), || {
            let mut x = a.mat();
            x.scale_row(s, f);
            let w = R::fun(r, k, |i, j| if i == s { a.at(i, j) * f } else { a.at(i, j) });
            same!(&x, w.clone(), "scale_row");
            same!(&(Mat::scale_mat(r, s, f) * a.mat()), w, "elementary matrix product");
            Out::Ok(k > 0)
        });
        if s != t {
            c.case("replace_row", false, inp.clone(), || {
                let mut x = a.mat();
                x.replace_row(s, t, f);
                let w = R::fun(r, k, |i, j| if i == t { a.at(t, j) + a.at(s, j) * f } else { a.at(i, j) });
                same!(&x, w.clone(), "replace_row");
                same!(&(Mat::replacement(r, s, t, f) * a.mat()), w, "elementary matrix product");
                Out::Ok(k > 0)
            });
        }
    }
}

/// pivot columns if `b` is in row echelon form with leading ones; Err says what is wrong
fn echelon(b: &R) -> Result<Vec<usize>, String> {
    let mut piv: Vec<usize> = vec![];
    let mut zero_seen = false;
    for i in 0..b.r {
        match (0..b.c).find(|&j| !b.at(i, j).isz()) {
            None => zero_seen = true,
            Some(j) => {
                if zero_seen {
                    return Err(format!("a zero row lies above row {}", i));
                }
                if let Some(&l) = piv.last() {
                    if j <= l {
                        return Err(format!("leading entries of rows {} and {} are in columns {} and {}", i - 1, i, l, j));
                    }
                }
                if b.at(i, j) != Q::one() {
                    return Err(format!("leading entry of row {} is {:?}", i, b.at(i, j)));
                }
                piv.push(j);
            }
        }
    }
    Ok(piv)
}

/// runs `f` on every small matrix and on random structured ones, under the three stability orders
fn over_matrices(c: &mut Ctx, n: usize, f: &mut dyn FnMut(&mut Ctx, &R, u8)) {
    let shapes: &[(usize, usize, &[i64])] = &[
        (0, 0, &[0]),
        (0, 3, &[0]),
        (3, 0, &[0]),
        (1, 1, &[-2, 0, 1]),
        (1, 3, &[-1, 0, 2]),
        (3, 1, &[-1, 0, 2]),
        (2, 2, &[-1, 0, 1, 2]),
        (2, 3, &[-1, 0, 2]),
        (3, 2, &[-1, 0, 2]),
        (3, 3, &[0, 1]),
        (2, 4, &[0, 1]),
        (4, 2, &[0, 1]),
        (3, 4, &[0, 1]),
        (4, 3, &[0, 1]),
    ];
    for &(r, k, vals) in shapes {
        let mut t = 0u8;
        all(r, k, vals, &mut |a| {
            if r * k >= 9 {
                t = (t + 1) % 3;
                f(c, a, t);
            } else {
                for s in 0..3 {
                    f(c, a, s);
                }
            }
        });
    }
    for _ in 0..c.n(n) {
        if c.over() {
            break;
        }
        let d = 3 + c.rng.below(4);
        let a = if c.rng.chance(1, 25) { rnd_big(&mut c.rng) } else { rnd_struct(&mut c.rng, d) };
        let s = c.rng.below(3) as u8;
        f(c, &a, s);
    }
}

pub fn c08(c: &mut Ctx) {
    over_matrices(c, 12000, &mut |c, a, s| {
        c.case("lu", false, format!("{:?} stability order {}", a, s), || {
            STAB.with(|x| x.set(s));
            let d = a.mat().lu();
            let (p, l, u) = (get!(&d.p, "p"), get!(&d.l, "l"), get!(&d.u, "u"));
            let n = a.r;
            ensure!(p.r == n && p.c == n && l.r == n && l.c == n && u.r == n && u.c == a.c, "dimensions: p {}x{} l {}x{} u {}x{}", p.r, p.c, l.r, l.c, u.r, u.c);
            for i in 0..n {
                ensure!((0..n).filter(|&j| p.at(i, j) == Q::one()).count() == 1 && (0..n).filter(|&j| p.at(i, j).isz()).count() == n - 1, "p has a bad row {}: {:?}", i, p);
                ensure!((0..n).filter(|&j| p.at(j, i) == Q::one()).count() == 1, "p has a bad column {}: {:?}", i, p);
                ensure!(!l.at(i, i).isz(), "l has a zero on the diagonal: {:?}", l);
                for j in i + 1..n {
                    ensure!(l.at(i, j).isz(), "l is not lower triangular: {:?}", l);
                }
            }
            if let Err(e) = echelon(&u) {
                return Out::Bad(format!("u is not in echelon form: {}: {:?}", e, u));
            }
            let (pa, lu) = (p.mul(a), l.mul(&u));
            ensure!(pa == lu, "p*a = {:?} but l*u = {:?}", pa, lu);
            Out::Ok(a.r * a.c > 0)
        });
    });
}

#[cfg(algeo_verif)]
fn check_form(a: &R, p: R, b: R, reduced: bool) -> Out {
    ensure!(p.r == a.r && p.c == a.r && b.r == a.r && b.c == a.c, "dimensions: p {}x{} b {}x{}", p.r, p.c, b.r, b.c);
    ensure!(p.rank() == a.r, "p is not invertible: {:?}", p);
    ensure!(p.mul(a) == b, "p*a = {:?} but b = {:?}", p.mul(a), b);
    match echelon(&b) {
        Err(e) => return Out::Bad(format!("b is not in echelon form: {}: {:?}", e, b)),
        Ok(piv) => {
            if reduced {
                for (i, &j) in piv.iter().enumerate() {
                    for i2 in 0..b.r {
                        ensure!(i2 == i || b.at(i2, j).isz(), "column {} of the reduced form has an entry in row {}: {:?}", j, i2, b);
                    }
                }
            }
        }
    }
    Out::Ok(a.r * a.c > 0)
}

pub fn c09(c: &mut Ctx) {
    over_matrices(c, 12000, &mut |c, a, s| {
        let inp = format!("{:?} stability order {}", a, s);
        c.case("row_echelon", false, inp.clone(), || {
            STAB.with(|x| x.set(s));
            let m = a.mat();
            let f = m.row_echelon();
            #[cfg(algeo_verif)]
            {
                let (p, b) = (get!(f.verif_p(), "p"), get!(f.verif_b(), "b"));
                return check_form(a, p, b, false);
            }
            #[cfg(not(algeo_verif))]
            {
                let _ = f;
                Out::Skip
            }
        });
        c.case("to_rref", false, inp, || {
            STAB.with(|x| x.set(s));
            let m = a.mat();
            let f = m.row_echelon().to_rref();
            #[cfg(algeo_verif)]
            {
                let (p, b) = (get!(f.verif_p(), "p"), get!(f.verif_b(), "b"));
                return check_form(a, p, b, true);
            }
            #[cfg(not(algeo_verif))]
            {
                let _ = f;
                Out::Skip
            }
        });
    });
}

pub fn c10(c: &mut Ctx) {
    over_matrices(c, 20000, &mut |c, a, s| {
        c.case("rank", false, format!("{:?} stability order {}", a, s), || {
            STAB.with(|x| x.set(s));
            let w = a.rank();
            let m = a.mat();
            let f = m.row_echelon();
            ensure!(f.rank() == w, "rank of the echelon form is {}, expected {}", f.rank(), w);
            ensure!(f.nullity() == a.c - w, "nullity of the echelon form is {}, expected {}", f.nullity(), a.c - w);
            let g = m.row_echelon().to_rref();
            ensure!(g.rank() == w, "rank of the reduced form is {}, expected {}", g.rank(), w);
            ensure!(g.nullity() == a.c - w, "nullity of the reduced form is {}, expected {}", g.nullity(), a.c - w);
            let z = (0..a.r).filter(|&i| a.row(i).iter().all(|x| x.isz())).count();
            ensure!(m.zero_rows() == z, "zero_rows is {}, expected {}", m.zero_rows(), z);
            Out::Ok(a.r * a.c > 0)
        });
    });
}

pub fn c11(c: &mut Ctx) {
    over_matrices(c, 15000, &mut |c, a, s| {
        c.case("kernel", false, format!("{:?} stability order {}", a, s), || {
            STAB.with(|x| x.set(s));
            let ker = a.mat().row_echelon().to_rref().compute_kernel();
            let mut vs: Vec<Vec<Q>> = vec![];
            for v in &ker {
                let v = get!(v, "kernel vector");
                ensure!(v.r == a.c && v.c == 1, "a kernel vector is {}x{}", v.r, v.c);
                ensure!(a.mul(&v).e.iter().all(|x| x.isz()), "{:?} is not mapped to zero", v.e);
                vs.push(v.e);
            }
            ensure!(vs.len() == a.c - a.rank(), "{} vectors, nullity is {}", vs.len(), a.c - a.rank());
            // right number, independent and inside the kernel: a basis
            ensure!(from_vecs(&vs, a.c).rank() == vs.len(), "the vectors {:?} are linearly dependent", vs);
            Out::Ok(a.c > 0)
        });
    });
}

pub fn c12(c: &mut Ctx) {
    over_matrices(c, 15000, &mut |c, a, s| {
        c.case("range", false, format!("{:?} stability order {}", a, s), || {
            STAB.with(|x| x.set(s));
            let m = a.mat();
            let ran = m.row_echelon().to_rref().compute_range();
            let piv = a.rref().1;
            let mut got: Vec<Vec<Q>> = vec![];
            for v in &ran {
                let v = get!(v, "range vector");
                ensure!(v.r == a.r && v.c == 1, "a range vector is {}x{}", v.r, v.c);
                got.push(v.e);
            }
            let mut want: Vec<Vec<Q>> = piv.iter().map(|&j| a.col(j)).collect();
            let key = |v: &Vec<Q>| format!("{:?}", v);
            got.sort_by_key(key);
            want.sort_by_key(key);
            ensure!(got == want, "got the columns {:?}, expected {:?}", got, want);
            Out::Ok(!piv.is_empty())
        });
    });
}

pub fn c24(c: &mut Ctx) {
    for r in 0..12 {
        for k in 0..12 {
            c.case("get_box_iter", false, format!("{} {}", r, k), || {
                let g: Vec<(usize, usize)> = util::get_box_iter(r, k).collect();
                let w: Vec<(usize, usize)> = (0..r).flat_map(|i| (0..k).map(move |j| (i, j))).collect();
                ensure!(g == w, "{:?}", g);
                Out::Ok(r * k > 0)
            });
        }
    }
    let digits = |c: &mut Ctx, n: usize, b: usize| {
        c.case("num_to_seq", false, format!("{} base {}", n, b), || {
            // at most as many digits as bits, plus one
            let g: Vec<usize> = util::num_to_seq(n, b).take(70).collect();
            let mut w = vec![];
            let mut x = n;
            while x > 0 {
                w.push(x % b);
                x /= b;
            }
            ensure!(g == w, "got {:?}, expected {:?}", g, w);
            Out::Ok(n > 0)
        });
    };
    for b in 2..=17 {
        for n in 0..1200 {
            digits(c, n, b);
        }
    }
    let vals = [Q::int(0), Q::int(1), Q::int(-1), Q::new(1, 2), Q::int(5)];
    for r in 0..4usize {
        for k in 0..4usize {
            for v in 1..=5usize {
                let total = (v as u64).pow((r * k) as u32);
                if total > 3000 {
                    continue;
                }
                c.case("mat_iterator", false, format!("{}x{} over {} values", r, k, v), || {
                    let g: Vec<R> = {
                        let mut g = vec![];
                        for m in util::mat_iterator(r, k, &vals[..v]).take(total as usize + 2) {
                            g.push(get!(&m, "matrix"));
                        }
                        g
                    };
                    ensure!(g.len() as u64 == total, "{} matrices, expected {}", g.len(), total);
                    let mut seen = std::collections::HashSet::new();
                    for m in &g {
                        ensure!(m.r == r && m.c == k, "a matrix is {}x{}", m.r, m.c);
                        ensure!(m.e.iter().all(|x| vals[..v].contains(x)), "an entry is not in the list: {:?}", m);
                        ensure!(seen.insert(m.clone()), "listed twice: {:?}", m);
                    }
                    Out::Ok(r * k > 0)
                });
            }
        }
    }
    let maxi = |c: &mut Ctx, xs: Vec<i64>| {
        c.case("get_max_index", false, format!("{:?}", xs), || {
            let g = util::get_max_index(xs.iter(), |a, b| a.partial_cmp(b));
            let m = *xs.iter().max().unwrap();
            let w = (0..xs.len()).rev().find(|&i| xs[i] == m).unwrap();
            ensure!(g == w, "got {}, expected {}", g, w);
            // the same with an order that is not the natural one, and with equal but different elements
            let le = |a: &(i64, usize), b: &(i64, usize)| -> Option<Ordering> { Some((a.0 % 3).abs().cmp(&(b.0 % 3).abs())) };
            let ys: Vec<(i64, usize)> = xs.iter().cloned().zip(0..).collect();
            let g = util::get_max_index(ys.iter().cloned(), le);
            let m = xs.iter().map(|x| (x % 3).abs()).max().unwrap();
            let w = (0..xs.len()).rev().find(|&i| (xs[i] % 3).abs() == m).unwrap();
            ensure!(g == w, "by residue: got {}, expected {}", g, w);
            Out::Ok(xs.len() > 1)
        });
    };
    for len in 1..=5usize {
        for code in 0..4usize.pow(len as u32) {
            maxi(c, (0..len).map(|i| (code / 4usize.pow(i as u32) % 4) as i64 - 1).collect());
        }
    }
    for _ in 0..c.n(50000) {
        if c.over() {
            break;
        }
        let b = 2 + c.rng.below([3, 30, 1000, 1 << 20][c.rng.0 as usize % 4]);
        let m = usize::MAX / b;
        let n = match c.rng.below(4) {
            0 => c.rng.below(100000),
            1 => m - c.rng.below(1000),
            2 => {
                let mut x = 1usize;
                while x <= m / b && !c.rng.chance(1, 5) {
                    x *= b;
                }
                x + c.rng.below(2)
            }
            _ => c.rng.next() as usize % m,
        };
        digits(c, n.min(m), b);
        let top = if c.rng.chance(1, 10) { 200 } else { 12 };
        let len = 1 + c.rng.below(top);
        let xs = (0..len).map(|_| c.rng.range(-4, 4)).collect();
        maxi(c, xs);
    }
}

#[cfg(not(algeo_verif))]
pub fn c25(c: &mut Ctx) {
    c.case("cone", false, "no access to the cone's parts".into(), || Out::Skip);
}

#[cfg(algeo_verif)]
pub fn c25(c: &mut Ctx) {
    use algeo::linalg::cone::Cone;
    let one = |c: &mut Ctx, gens: Vec<Vec<Q>>, s: u8| {
        let n = gens[0].len();
        let gm = from_vecs(&gens, n);
        let dim = gm.rank();
        if dim == 0 {
            return;
        }
        c.case("cone", false, format!("generators {:?} stability order {}", gens, s), || {
            STAB.with(|x| x.set(s));
            let k = Cone::new(gens.iter().map(|g| R { r: n, c: 1, e: g.clone() }.mat()).collect());
            let (amb, d) = k.verif_dims();
            ensure!(amb == n && d == dim, "dimensions {} in {}, expected {} in {}", d, amb, dim, n);
            ensure!(k.verif_generators().len() == gens.len(), "generators changed");
            for (g, w) in k.verif_generators().iter().zip(&gens) {
                ensure!(get!(g, "generator").e == *w, "generators changed");
            }
            let dot = |x: &[Q], y: &[Q]| x.iter().zip(y).fold(Q::zero(), |a, (&x, &y)| a + x * y);
            let mut basis = vec![];
            for b in k.verif_orth_comp_basis() {
                let b = get!(b, "orthogonal complement vector");
                ensure!(b.e.len() == n, "orthogonal complement vector of length {}", b.e.len());
                for g in &gens {
                    ensure!(dot(&b.e, g).isz(), "orthogonal complement vector {:?} is not orthogonal to {:?}", b.e, g);
                }
                basis.push(b.e);
            }
            ensure!(basis.len() == n - dim && from_vecs(&basis, n).rank() == n - dim, "{:?} is not a basis of the orthogonal complement", basis);
            let mut listed: Vec<Vec<Vec<Q>>> = vec![];
            for (nm, fg) in k.verif_facets() {
                let nm = get!(nm, "normal").e;
                ensure!(nm.len() == n && nm.iter().any(|x| !x.isz()), "bad normal {:?}", nm);
                for g in &gens {
                    ensure!(dot(&nm, g).cmpq(&Q::zero()) != Ordering::Less, "generator {:?} lies below the normal {:?}", g, nm);
                }
                let mut fs = vec![];
                for g in fg {
                    let g = get!(g, "facet generator").e;
                    ensure!(gens.contains(&g), "facet generator {:?} is not a generator", g);
                    ensure!(dot(&nm, &g).isz(), "facet generator {:?} is off the hyperplane {:?}", g, nm);
                    fs.push(g);
                }
                ensure!(fs.len() == dim - 1 && from_vecs(&fs, n).rank() == dim - 1, "facet generators {:?} for dimension {}", fs, dim);
                listed.push(fs);
            }
            // every choice of independent generators on a supporting hyperplane
            for pick in (0u32..1 << gens.len()).filter(|b| b.count_ones() as usize == dim - 1) {
                let s: Vec<Vec<Q>> = (0..gens.len()).filter(|&i| pick >> i & 1 == 1).map(|i| gens[i].clone()).collect();
                if from_vecs(&s, n).rank() < dim - 1 {
                    continue;
                }
                // a normal is the part of some generator orthogonal to the choice
                let mut orth: Vec<Vec<Q>> = vec![];
                let part = |orth: &Vec<Vec<Q>>, v: &Vec<Q>| {
                    orth.iter().fold(v.clone(), |v, o| {
                        let f = dot(&v, o) / dot(o, o);
                        v.iter().zip(o).map(|(&a, &b)| a - f * b).collect()
                    })
                };
                for v in &s {
                    let r = part(&orth, v);
                    orth.push(r);
                }
                let nm = gens.iter().map(|g| part(&orth, g)).find(|r| r.iter().any(|x| !x.isz()));
                let Some(nm) = nm else { continue };
                let side: Vec<Ordering> = gens.iter().map(|g| dot(g, &nm).cmpq(&Q::zero())).collect();
                if side.contains(&Ordering::Less) && side.contains(&Ordering::Greater) {
                    continue;
                }
                ensure!(listed.iter().any(|l| l.len() == s.len() && s.iter().all(|v| l.contains(v))), "the supporting hyperplane through {:?} is not among the facets", s);
            }
            Out::Ok(dim > 1)
        });
    };
    // every list of up to three vectors with small entries
    for n in 1..=3usize {
        let vals: &[i64] = if n == 3 { &[0, 1] } else { &[-1, 0, 1] };
        for k in 1..=(if n == 1 { 4usize } else { 3 }) {
            let mut t = 0;
            all(k, n, vals, &mut |m| {
                t = (t + 1) % 3;
                one(c, (0..k).map(|i| m.row(i)).collect(), t);
            });
        }
    }
    for _ in 0..c.n(6000) {
        if c.over() {
            break;
        }
        let top = if c.rng.chance(1, 10) { 5 } else { 4 };
        let n = 1 + c.rng.below(top);
        let top = if n < 4 && c.rng.chance(1, 8) { 12 } else { 6 };
        let k = 1 + c.rng.below(top);
        let mut gens: Vec<Vec<Q>> = (0..k).map(|_| (0..n).map(|_| Q::int(c.rng.range(-2, 2))).collect()).collect();
        match c.rng.below(4) {
            0 => gens.iter_mut().for_each(|g| g[0] = Q::int(1 + c.rng.below(2) as i64)),
            1 => {
                // inside a lower-dimensional subspace
                let m = rnd(&mut c.rng, n, n);
                gens = gens.iter().map(|g| R { r: 1, c: n, e: g.clone() }.mul(&m).e).collect();
            }
            2 => gens.iter_mut().for_each(|g| g.iter_mut().for_each(|x| *x = Q::int((x.n.abs() % 3) as i64))),
            _ => {}
        }
        let s = c.rng.below(3) as u8;
        one(c, gens, s);
    }
}
