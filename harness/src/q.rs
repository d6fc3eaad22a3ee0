//! Exact field used to instantiate the generic code: i128 rationals written independently of the
//! repository. Overflow panics with HARNESS_OVERFLOW and the case is skipped.
use algeo::core::num::{EpsilonEquality, Field, One, StabilityCmp, Zero};
use std::cell::Cell;
use std::cmp::Ordering;
use std::fmt;
use std::iter::{Product, Sum};
use std::ops::*;

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct Q {
    pub n: i128,
    pub d: i128,
}

thread_local! { pub static STAB: Cell<u8> = Cell::new(0); }

pub fn gcd(a: i128, b: i128) -> i128 {
    let (mut a, mut b) = (a.abs(), b.abs());
    while b != 0 {
        let t = a % b;
        a = b;
        b = t;
    }
    a
}
fn ov<T>(x: Option<T>) -> T {
    match x {
        Some(v) => v,
        None => panic!("HARNESS_OVERFLOW"),
    }
}
impl Q {
    pub fn new(n: i128, d: i128) -> Q {
        if d == 0 {
            panic!("division by zero in the field");
        }
        let g = gcd(n, d);
        let s = if d < 0 { -1 } else { 1 };
        Q { n: s * n / g, d: s * d / g }
    }
    pub fn int(n: i64) -> Q {
        Q { n: n as i128, d: 1 }
    }
    pub fn zero() -> Q {
        Q { n: 0, d: 1 }
    }
    pub fn one() -> Q {
        Q { n: 1, d: 1 }
    }
    pub fn isz(&self) -> bool {
        self.n == 0
    }
    pub fn cmpq(&self, o: &Q) -> Ordering {
        ov(self.n.checked_mul(o.d)).cmp(&ov(o.n.checked_mul(self.d)))
    }
    pub fn powu(&self, e: u32) -> Q {
        let mut r = Q::one();
        for _ in 0..e {
            r = r * *self;
        }
        r
    }
}
impl fmt::Debug for Q {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        if self.d == 1 {
            write!(f, "{}", self.n)
        } else {
            write!(f, "{}/{}", self.n, self.d)
        }
    }
}
impl fmt::Display for Q {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{:?}", self)
    }
}
impl Add for Q {
    type Output = Q;
    fn add(self, o: Q) -> Q {
        Q::new(ov(ov(self.n.checked_mul(o.d)).checked_add(ov(o.n.checked_mul(self.d)))), ov(self.d.checked_mul(o.d)))
    }
}
impl Neg for Q {
    type Output = Q;
    fn neg(self) -> Q {
        Q { n: ov(self.n.checked_neg()), d: self.d }
    }
}
impl Sub for Q {
    type Output = Q;
    fn sub(self, o: Q) -> Q {
        self + (-o)
    }
}
impl Mul for Q {
    type Output = Q;
    fn mul(self, o: Q) -> Q {
        Q::new(ov(self.n.checked_mul(o.n)), ov(self.d.checked_mul(o.d)))
    }
}
impl Div for Q {
    type Output = Q;
    fn div(self, o: Q) -> Q {
        if o.n == 0 {
            panic!("division by zero in the field");
        }
        Q::new(ov(self.n.checked_mul(o.d)), ov(self.d.checked_mul(o.n)))
    }
}
macro_rules! asg { ($($t:ident $f:ident $op:tt);*) => { $(impl $t for Q { fn $f(&mut self, o: Q) { *self = *self $op o; } })* } }
asg! { AddAssign add_assign +; SubAssign sub_assign -; MulAssign mul_assign *; DivAssign div_assign / }
impl Sum for Q {
    fn sum<I: Iterator<Item = Q>>(it: I) -> Q {
        it.fold(Q::zero(), |a, b| a + b)
    }
}
impl Product for Q {
    fn product<I: Iterator<Item = Q>>(it: I) -> Q {
        it.fold(Q::one(), |a, b| a * b)
    }
}
impl Zero for Q {
    const ZERO: Q = Q { n: 0, d: 1 };
    fn is_zero(&self) -> bool {
        self.n == 0
    }
}
impl One for Q {
    const ONE: Q = Q { n: 1, d: 1 };
    fn is_one(&self) -> bool {
        self.n == 1 && self.d == 1
    }
}
impl Field for Q {
    fn powi32(&self, p: i32) -> Q {
        if p < 0 {
            Q::one() / self.powu(p.unsigned_abs())
        } else {
            self.powu(p as u32)
        }
    }
}
impl EpsilonEquality for Q {
    fn epsilon_equals(&self, o: &Q) -> bool {
        self == o
    }
}
impl PartialOrd for Q {
    fn partial_cmp(&self, o: &Q) -> Option<Ordering> {
        Some(self.cmpq(o))
    }
}
/// three lawful stability orders (zero strictly below everything else, nothing below zero)
impl StabilityCmp for Q {
    fn stability_cmp(&self, o: &Q) -> Option<Ordering> {
        let z = |q: &Q| if q.n == 0 { 0 } else { 1 };
        Some(match STAB.with(|s| s.get()) {
            0 => Q { n: self.n.abs(), d: self.d }.cmpq(&Q { n: o.n.abs(), d: o.d }),
            1 => z(self).cmp(&z(o)).then((o.n.abs() + o.d).cmp(&(self.n.abs() + self.d))),
            _ => z(self).cmp(&z(o)),
        })
    }
}
