//! Case runner: every case is described before it runs, runs under catch_unwind, and is watched by a
//! second thread so that a call that never returns is reported as well.
use std::cell::RefCell;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

thread_local! { static LAST_PANIC: RefCell<String> = RefCell::new(String::new()); }

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let m = info.to_string().replace('\n', " ");
        LAST_PANIC.with(|l| *l.borrow_mut() = m);
    }));
}

/// result of a call: value, or the panic text
pub fn attempt<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|l| l.borrow().clone()))
}

/// overflow of i64/u8/usize arithmetic in the code under test, or of the i128 rationals of the harness
pub fn is_overflow(m: &str) -> bool {
    m.contains("with overflow") || m.contains("HARNESS_OVERFLOW")
}
pub fn is_harness_overflow(m: &str) -> bool {
    m.contains("HARNESS_OVERFLOW")
}

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    /// inclusive
    pub fn range(&mut self, a: i64, b: i64) -> i64 {
        a.wrapping_add((self.next() % (b.wrapping_sub(a) as u64).wrapping_add(1).max(1)) as i64)
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.next() % den < num
    }
}

#[derive(Clone)]
pub struct Fail {
    pub key: String,
    pub input: String,
    pub what: String,
}

pub struct Ctx {
    pub rng: Rng,
    pub start: Instant,
    pub budget: Duration,
    pub scale: f64,
    pub evals: u64,
    pub skipped: u64,
    pub nontrivial: HashSet<u64>,
    pub samples: Vec<String>,
    pub fails: Vec<Fail>,
    pub cur: Arc<Mutex<(Instant, String, String)>>,
}

pub enum Out {
    /// checked; the flag says whether the case counts as non-trivial
    Ok(bool),
    Skip,
    Bad(String),
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return $crate::ctx::Out::Bad(format!($($a)*)); } };
}

impl Ctx {
    pub fn over(&self) -> bool {
        self.start.elapsed() > self.budget || self.fails.len() >= 4
    }
    pub fn n(&self, base: usize) -> usize {
        ((base as f64) * self.scale) as usize
    }
    /// Run one case. A panic of the code under test is a failure, except overflow of the harness's own
    /// i128 rationals, and (with `ovf_ok`) machine overflow that the property excludes.
    pub fn case(&mut self, key: &str, ovf_ok: bool, input: String, f: impl FnOnce() -> Out) {
        if self.fails.iter().any(|x| x.key == key) {
            return;
        }
        *self.cur.lock().unwrap() = (Instant::now(), key.to_string(), input);
        let r = attempt(f);
        let input = {
            let mut g = self.cur.lock().unwrap();
            g.0 = Instant::now();
            g.1.clear();
            std::mem::take(&mut g.2)
        };
        match r {
            Ok(Out::Ok(nt)) => {
                self.evals += 1;
                if nt {
                    let mut h = std::collections::hash_map::DefaultHasher::new();
                    (key, &input).hash(&mut h);
                    if self.nontrivial.len() < 2_000_000 && self.nontrivial.insert(h.finish()) {
                        let k = self.nontrivial.len();
                        if k.is_power_of_two() && self.samples.len() < 12 {
                            self.samples.push(format!("{}: {}", key, input));
                        }
                    }
                }
            }
            Ok(Out::Skip) => self.skipped += 1,
            Ok(Out::Bad(what)) => self.fails.push(Fail { key: key.into(), input, what }),
            Err(m) => {
                if is_harness_overflow(&m) || (ovf_ok && is_overflow(&m)) {
                    self.skipped += 1
                } else {
                    self.fails.push(Fail { key: key.into(), input, what: format!("panicked: {}", m) })
                }
            }
        }
    }
}
