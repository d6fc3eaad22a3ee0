//! C26: the real Display implementations, read back by a parser written here, and layouts for f64 and matrices.
use crate::ctx::*;
use crate::ensure;
use algeo::core::num::*;
use algeo::linalg::mat::Mat;
use algeo::poly::elts::{Polynomial, Term};
use algeo::poly::mdeg::MultiDegree;
use std::collections::BTreeMap;

type M = Vec<u8>;
type T = (i64, i64, M);
const SUP: &str = "⁰¹²³⁴⁵⁶⁷⁸⁹";
const VARS: &str = "xyzuv";

struct Rd<'a> {
    s: &'a [char],
    i: usize,
}
impl<'a> Rd<'a> {
    fn peek(&self) -> Option<char> {
        self.s.get(self.i).cloned()
    }
    fn eat(&mut self, c: char) -> bool {
        let y = self.peek() == Some(c);
        if y {
            self.i += 1
        }
        y
    }
    fn eats(&mut self, t: &str) -> bool {
        let v: Vec<char> = t.chars().collect();
        let y = self.s[self.i..].starts_with(&v);
        if y {
            self.i += v.len()
        }
        y
    }
    /// decimal digits without leading zeros
    fn nat(&mut self, digits: &str) -> Option<i128> {
        let ds: Vec<char> = digits.chars().collect();
        let (mut r, mut n, a) = (0i128, 0, self.i);
        while let Some(d) = self.peek().and_then(|c| ds.iter().position(|x| *x == c)) {
            r = r.checked_mul(10)?.checked_add(d as i128)?;
            n += 1;
            self.i += 1;
        }
        if n == 0 || (n > 1 && self.s[a] == ds[0]) {
            return None;
        }
        Some(r)
    }
    fn mdeg(&mut self) -> Option<M> {
        let mut m: M = vec![];
        if self.eats("X[") {
            loop {
                m.push(u8::try_from(self.nat("0123456789")?).ok()?);
                if self.eat(']') {
                    return Some(m);
                }
                if !self.eats(", ") {
                    return None;
                }
            }
        }
        for (i, v) in VARS.chars().enumerate() {
            if self.eat(v) {
                let e = match self.peek() {
                    Some(c) if SUP.contains(c) => {
                        let e = self.nat(SUP)?;
                        if e < 2 {
                            return None;
                        }
                        e
                    }
                    _ => 1,
                };
                m.resize(i, 0);
                m.push(u8::try_from(e).ok()?);
            }
        }
        Some(m)
    }
    fn term(&mut self) -> Option<(i128, i128, M)> {
        let neg = self.eat('-');
        let (mut n, mut d, mut shown) = (1, 1, false);
        if self.peek().map_or(false, |c| c.is_ascii_digit()) {
            shown = true;
            n = self.nat("0123456789")?;
            if self.eat('/') {
                d = self.nat("0123456789")?;
                if d < 2 {
                    return None;
                }
            }
        }
        let m = self.mdeg()?;
        // one is elided exactly on non-constant terms
        if (m.is_empty() && !shown) || (shown && !m.is_empty() && n == 1 && d == 1) {
            return None;
        }
        Some((if neg { -n } else { n }, d, m))
    }
}
fn read<R>(s: &str, f: impl FnOnce(&mut Rd) -> Option<R>) -> Option<R> {
    let v: Vec<char> = s.chars().collect();
    let mut r = Rd { s: &v, i: 0 };
    let x = f(&mut r)?;
    if r.i == v.len() {
        Some(x)
    } else {
        None
    }
}
fn read_poly(s: &str) -> Option<Vec<(i128, i128, M)>> {
    if s == "0" {
        return Some(vec![]);
    }
    read(s, |r| {
        let mut v = vec![r.term()?];
        while r.i < r.s.len() {
            let neg = if r.eats(" + ") {
                false
            } else if r.eats(" - ") {
                true
            } else {
                return None;
            };
            if r.peek() == Some('-') {
                return None;
            }
            let t = r.term()?;
            v.push((if neg { -t.0 } else { t.0 }, t.1, t.2));
        }
        Some(v)
    })
}
fn rat(n: i64, d: i64) -> Rational {
    Rational::new_i64(n, d)
}
fn ga(a: i64, b: i64) -> i64 {
    if b == 0 { a.abs() } else { ga(b, a % b) }
}
fn coef(r: &mut Rng) -> (i64, i64) {
    let (n, d) = match r.below(5) {
        0 => (1, 1),
        1 => (-1, 1),
        2 => (r.range(-12, 12), 1),
        3 => (r.range(-12, 12), r.range(1, 12)),
        _ => (r.range(-2_000_000_000_000, 2_000_000_000_000), r.range(1, 1_000_000_000)),
    };
    let n = if n == 0 { 1 } else { n };
    let g = ga(n, d).max(1);
    (n / g, d / g)
}
fn mon(r: &mut Rng) -> M {
    let len = [0, 1, 2, 3, 4, 5, 5, 6, 7, 12][r.below(10)];
    let mut m: M = (0..len).map(|_| [0, 1, 1, 2, 9, 10, 11, 99, 100, 120, 255, r.below(256) as u8][r.below(12)]).collect();
    if let Some(l) = m.last_mut() {
        if *l == 0 {
            *l = 1
        }
    }
    m
}
fn terms(r: &mut Rng, n: usize) -> Vec<T> {
    let mut p: BTreeMap<M, (i64, i64)> = BTreeMap::new();
    for _ in 0..n {
        let m = mon(r);
        p.insert(m, coef(r));
    }
    let mut v: Vec<T> = p.into_iter().map(|(m, (n, d))| (n, d, m)).collect();
    for i in (1..v.len()).rev() {
        let j = r.below(i + 1);
        v.swap(i, j);
    }
    v
}
fn big(v: &[T]) -> Vec<(i128, i128, M)> {
    v.iter().map(|t| (t.0 as i128, t.1 as i128, t.2.clone())).collect()
}
fn mdeg_layout(m: &M) -> String {
    if m.len() > 5 {
        return format!("X[{}]", m.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(", "));
    }
    let mut s = String::new();
    for (i, v) in VARS.chars().enumerate() {
        let e = m.get(i).cloned().unwrap_or(0);
        if e > 0 {
            s.push(v)
        }
        if e > 1 {
            s.extend(e.to_string().chars().map(|d| SUP.chars().nth(d as usize - '0' as usize).unwrap()))
        }
    }
    s
}
fn f64_term(c: f64, m: &M) -> String {
    if m.is_empty() {
        format!("{}", c)
    } else if c == 1.0 {
        mdeg_layout(m)
    } else if c == -1.0 {
        format!("-{}", mdeg_layout(m))
    } else {
        format!("{}{}", c, mdeg_layout(m))
    }
}

pub fn c26(c: &mut Ctx) {
    for n in 2..=255u8 {
        c.case("superscript", false, format!("{}", n), || {
            let s = format!("{}", MultiDegree(vec![n]));
            ensure!(read(&s, |r| { if r.eat('x') { r.nat(SUP) } else { None } }) == Some(n as i128), "{} is printed {:?}", n, s);
            Out::Ok(n > 9)
        });
    }
    for i in 0..c.n(20_000) {
        if c.over() {
            break;
        }
        let x = if i < 41 { i as i64 - 20 } else if i == 41 { i64::MIN } else { let k = c.rng.below(64); c.rng.next() as i64 >> k };
        c.case("Integer", false, format!("{}", x), || {
            let s = format!("{}", Integer::from(x));
            ensure!(s == format!("{}", x), "{} is printed {:?}", x, s);
            Out::Ok(true)
        });
        let (n, d) = if i % 50 == 0 { (0, 1) } else { coef(&mut c.rng) };
        c.case("Rational", false, format!("{}/{}", n, d), || {
            let s = format!("{}", rat(n, d));
            let g = read(&s, |r| {
                let neg = r.eat('-');
                let n = r.nat("0123456789")?;
                let d = if r.eat('/') { r.nat("0123456789")? } else { 1 };
                Some((if neg { -n } else { n }, d))
            });
            ensure!(g == Some((n as i128, d as i128)), "{}/{} is printed {:?}", n, d, s);
            Out::Ok(d > 1)
        });
        let m = mon(&mut c.rng);
        c.case("MultiDegree", false, format!("{:?}", m), || {
            let s = format!("{}", MultiDegree(m.clone()));
            ensure!(read(&s, |r| r.mdeg()) == Some(m.clone()), "{:?} is printed {:?}", m, s);
            Out::Ok(m.len() > 1)
        });
        c.case("Term", false, format!("{}/{} {:?}", n, d, m), || {
            let s = format!("{}", Term { coef: rat(n, d), mdeg: MultiDegree(m.clone()) });
            ensure!(read(&s, |r| r.term()) == Some((n as i128, d as i128, m.clone())), "({}/{}, {:?}) is printed {:?}", n, d, m, s);
            Out::Ok(n != 0 && !m.is_empty())
        });
        let k = c.rng.below(6);
        let v = terms(&mut c.rng, k);
        c.case("Polynomial<Rational>", false, format!("{:?}", v), || {
            let p = Polynomial { terms: v.iter().map(|t| Term { coef: rat(t.0, t.1), mdeg: MultiDegree(t.2.clone()) }).collect() };
            let s = format!("{}", p);
            ensure!(read_poly(&s) == Some(big(&v)), "{:?} is printed {:?}", v, s);
            Out::Ok(v.len() > 1)
        });
        c.case("Polynomial<f64>", false, format!("{:?}", v), || {
            let p = Polynomial { terms: v.iter().map(|t| Term { coef: t.0 as f64 / t.1 as f64, mdeg: MultiDegree(t.2.clone()) }).collect() };
            let s = format!("{}", p);
            let mut w = String::new();
            for (i, t) in v.iter().enumerate() {
                let x = t.0 as f64 / t.1 as f64;
                if i == 0 {
                    w += &f64_term(x, &t.2)
                } else {
                    w += if x < 0.0 { " - " } else { " + " };
                    w += &f64_term(x.abs(), &t.2)
                }
            }
            if v.is_empty() {
                w += "0"
            }
            ensure!(s == w, "{:?} is printed {:?}, expected {:?}", v, s, w);
            Out::Ok(v.len() > 1)
        });
        let (h, w) = (1 + c.rng.below(4), 1 + c.rng.below(4));
        let e: Vec<(i64, i64)> = (0..h * w).map(|_| coef(&mut c.rng)).collect();
        c.case("Mat", false, format!("{}x{} {:?}", h, w, e), || {
            let es: Vec<Rational> = e.iter().map(|x| rat(x.0, x.1)).collect();
            let s = format!("{}", Mat::new(h, w, es.clone()));
            let mut t = String::from("\n");
            for r in 0..h {
                if r > 0 {
                    t += "\n"
                }
                t += &format!("[{}]", (0..w).map(|k| format!("{:?}", es[r * w + k])).collect::<Vec<_>>().join(", "));
            }
            ensure!(s == t, "{}x{} {:?} is printed {:?}", h, w, e, s);
            Out::Ok(h > 1 && w > 1)
        });
    }
}
