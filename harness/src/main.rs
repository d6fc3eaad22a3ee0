//! harness PROP --seed N --secs S --scale X --out FILE
//! Runs the property's bounded search on the real crate; writes a JSON report.
mod ctx;
#[cfg(feature = "num")]
mod num;
mod q;
#[cfg(feature = "mat")]
mod mat;
#[cfg(feature = "poly")]
mod disp;
#[cfg(feature = "poly")]
mod poly;

use ctx::*;
use std::collections::HashSet;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn report(out: &str, prop: &str, evals: u64, skipped: u64, nt: usize, samples: &[String], fails: &[Fail], secs: f64) {
    let f: Vec<String> = fails
        .iter()
        .map(|f| format!("{{\"key\":{},\"input\":{},\"what\":{}}}", js(&f.key), js(&f.input), js(&f.what)))
        .collect();
    let s: Vec<String> = samples.iter().map(|s| js(s)).collect();
    let t = format!(
        "{{\"property\":{},\"evaluations\":{},\"skipped\":{},\"distinct_nontrivial\":{},\"samples\":[{}],\"fails\":[{}],\"secs\":{:.2}}}\n",
        js(prop), evals, skipped, nt, s.join(","), f.join(","), secs
    );
    std::fs::write(out, t).expect("cannot write the report");
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let prop = a[1].clone();
    let get = |k: &str, d: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1).cloned()).unwrap_or(d.to_string());
    let seed: u64 = get("--seed", "1").parse().unwrap();
    let secs: f64 = get("--secs", "10").parse().unwrap();
    let scale: f64 = get("--scale", "1").parse().unwrap();
    let hang: f64 = get("--hang", "20").parse().unwrap();
    let out = get("--out", "/dev/stdout");
    install_hook();
    let cur = Arc::new(Mutex::new((Instant::now(), String::new(), String::new())));
    let start = Instant::now();
    let c2 = cur.clone();
    let (p2, o2) = (prop.clone(), out.clone());
    let h = std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(move || {
            let mut c = Ctx {
                rng: Rng(seed.wrapping_mul(0x2545F4914F6CDD1D) ^ p2.bytes().fold(7u64, |a, b| a.wrapping_mul(131) + b as u64)),
                start,
                budget: Duration::from_secs_f64(secs),
                scale,
                evals: 0,
                skipped: 0,
                nontrivial: HashSet::new(),
                samples: vec![],
                fails: vec![],
                cur: c2,
            };
            match p2.as_str() {
                #[cfg(feature = "num")]
                "C01" => num::c01(&mut c),
                #[cfg(feature = "num")]
                "C02" => num::c02(&mut c),
                #[cfg(feature = "num")]
                "C03" => num::c03(&mut c),
                #[cfg(feature = "num")]
                "C04" => num::c04(&mut c),
                #[cfg(feature = "mat")]
                "C05" => mat::c05(&mut c),
                #[cfg(feature = "mat")]
                "C06" => mat::c06(&mut c),
                #[cfg(feature = "mat")]
                "C07" => mat::c07(&mut c),
                #[cfg(feature = "mat")]
                "C08" => mat::c08(&mut c),
                #[cfg(feature = "mat")]
                "C09" => mat::c09(&mut c),
                #[cfg(feature = "mat")]
                "C10" => mat::c10(&mut c),
                #[cfg(feature = "mat")]
                "C11" => mat::c11(&mut c),
                #[cfg(feature = "mat")]
                "C12" => mat::c12(&mut c),
                #[cfg(feature = "mat")]
                "C24" => mat::c24(&mut c),
                #[cfg(feature = "mat")]
                "C25" => mat::c25(&mut c),
                #[cfg(feature = "poly")]
                "C13" => poly::c13(&mut c),
                #[cfg(feature = "poly")]
                "C14" => poly::c14(&mut c),
                #[cfg(feature = "poly")]
                "C15" => poly::c15(&mut c),
                #[cfg(feature = "poly")]
                "C16" => poly::c16(&mut c),
                #[cfg(feature = "poly")]
                "C17" => poly::c17(&mut c),
                #[cfg(feature = "poly")]
                "C18" => poly::c18(&mut c),
                #[cfg(feature = "poly")]
                "C19" => poly::c19(&mut c),
                #[cfg(feature = "poly")]
                "C20" => poly::c20(&mut c),
                #[cfg(feature = "poly")]
                "C21" => poly::c21(&mut c),
                #[cfg(feature = "poly")]
                "C22" => poly::c22(&mut c),
                #[cfg(feature = "poly")]
                "C23" => poly::c23(&mut c),
                #[cfg(feature = "poly")]
                "C26" => disp::c26(&mut c),
                #[cfg(feature = "poly")]
                "C28" => poly::c28(&mut c),
                _ => panic!("unknown property"),
            }
            report(&o2, &p2, c.evals, c.skipped, c.nontrivial.len(), &c.samples, &c.fails, start.elapsed().as_secs_f64());
        })
        .unwrap();
    while !h.is_finished() {
        std::thread::sleep(Duration::from_millis(20));
        let g = cur.lock().unwrap();
        if !g.1.is_empty() && g.0.elapsed().as_secs_f64() > hang {
            let f = Fail { key: g.1.clone(), input: g.2.clone(), what: format!("no answer within {} s", hang) };
            report(&out, &prop, 0, 0, 0, &[], &[f], start.elapsed().as_secs_f64());
            std::process::exit(0);
        }
    }
    if h.join().is_err() {
        std::process::exit(2);
    }
}
