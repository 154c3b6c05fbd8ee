//! Executes the real crate on small inputs against executable statements of the properties.
//!
//! `gaoya-replay <property> <seed> <milliseconds>` searches; the first failing case is printed.
//! `gaoya-replay <property> case <case-seed>` runs one case again.
//! Exit code: 0 nothing found, 1 a failing case was found (printed on stdout), 2 usage.
mod gen;
mod minhash_index;
mod misc;
mod simhash;
mod text_cluster;

use gen::Rng;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::{Duration, Instant};

pub type R = Result<(), String>;
pub type CaseFn = fn(&mut Rng, &mut String) -> R;

#[macro_export]
macro_rules! ck {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}

fn property(p: &str) -> Option<Vec<CaseFn>> {
    Some(match p {
        "P01" => vec![minhash_index::p01],
        "P02" => vec![minhash_index::p02],
        "P03" => vec![minhash_index::p03],
        "P04" => vec![minhash_index::p04],
        "P05" => vec![minhash_index::p05],
        "P06" => vec![minhash_index::p06],
        "P07" => vec![misc::p07],
        "P08" => vec![misc::p08],
        "P09" => vec![misc::p09],
        "P10" => vec![misc::p10],
        "P11" => vec![misc::p11, simhash::p11_simhash],
        "P12" => vec![simhash::p12],
        "P13" => vec![simhash::p13],
        "P14" => vec![simhash::p14],
        "P15" => vec![simhash::p15],
        "P16" => vec![text_cluster::p16],
        "P17" => vec![text_cluster::p17],
        "P18" => vec![text_cluster::p18],
        "P21" => vec![text_cluster::p21],
        "P19" => vec![text_cluster::p19],
        _ => return None,
    })
}

fn run_case(f: CaseFn, seed: u64) -> Result<(), (String, String)> {
    let mut log = String::new();
    let mut rng = Rng::new(seed);
    let r = catch_unwind(AssertUnwindSafe(|| f(&mut rng, &mut log)));
    match r {
        Ok(Ok(())) => Ok(()),
        Ok(Err(e)) => Err((log, e)),
        Err(p) => {
            let m = p.downcast_ref::<String>().cloned()
                .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_else(|| "?".into());
            Err((log, format!("panic: {}", m)))
        }
    }
}

/// long values are cut in the report; the case seed reproduces them
fn cut(l: &str) -> String {
    if l.chars().count() <= 3000 { return l.to_string(); }
    format!("{} ... ({} characters in all)", l.chars().take(3000).collect::<String>(), l.chars().count())
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 4 { eprintln!("usage: gaoya-replay P seed ms | P case caseseed"); std::process::exit(2); }
    let fns = match property(&a[1]) { Some(f) => f, None => std::process::exit(2) };
    std::panic::set_hook(Box::new(|_| {}));
    let report = |i: usize, cs: u64, log: &str, e: &str, n: u64| -> ! {
        println!("FAILING-INPUT property={} part={} case-seed={} (case {} of the search)", a[1], i, cs, n);
        for l in log.lines() { println!("{}", cut(l)); }
        println!("observed: {}", cut(e));
        println!("rerun: gaoya-replay {} case {}", a[1], cs);
        std::process::exit(1)
    };
    if a[2] == "case" {
        let cs: u64 = a[3].parse().unwrap();
        for (i, f) in fns.iter().enumerate() {
            if let Err((log, e)) = run_case(*f, cs) { report(i, cs, &log, &e, 0); }
        }
        println!("holds");
        return;
    }
    let seed: u64 = a[2].parse().unwrap();
    let budget = Duration::from_millis(a[3].parse().unwrap());
    let t0 = Instant::now();
    let mut n: u64 = 0;
    while t0.elapsed() < budget || n < 200 {
        for (i, f) in fns.iter().enumerate() {
            // a few cases are the same for every seed, so that small inputs always come first
            let cs = if n < 50 { n } else { gen::mix(seed.wrapping_mul(0x9E37_79B9) ^ (n << 8) ^ i as u64) };
            if let Err((log, e)) = run_case(*f, cs) { report(i, cs, &log, &e, n); }
        }
        n += 1;
        if t0.elapsed() > budget * 4 + Duration::from_secs(20) { break; }
    }
    println!("cases {}", n);
}
