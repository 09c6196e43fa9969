//! Searches for concrete inputs on which the library breaks a property. It replays and
//! explains failed proof obligations, and stands in (bounded) for functions that are not
//! under contract. It decides nothing about inputs it has not run.
mod checks;
mod model;
mod prog;
mod refparse;
mod rng;

use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::panic;
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

static CASE: AtomicU64 = AtomicU64::new(0);
static TICK: AtomicU64 = AtomicU64::new(0);
static SIZE: AtomicU64 = AtomicU64::new(0);

pub enum Out {
    /// held; the text says what was tried, the flag whether the case was non-trivial
    Ok(String, bool),
    /// broken: description of input, expectation and observation
    Bad(String),
}

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || c as u32 > 0x7e => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) { o.push_str(&format!("\\u{:04x}", u)); }
            },
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn arg(name: &str) -> Option<String> {
    let a: Vec<String> = std::env::args().collect();
    a.iter().position(|x| x == name).and_then(|i| a.get(i + 1).cloned())
}

fn run_case(prop: &str, seed: u64, size: usize) -> Out {
    let r = panic::catch_unwind(panic::AssertUnwindSafe(|| checks::case(prop, seed, size)));
    match r {
        Ok(o) => o,
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            Out::Bad(format!("panic: {}\nwhile running:\n{}", m, checks::describe()))
        },
    }
}

fn main() {
    let prop = arg("--prop").expect("--prop");
    let out = arg("--out").expect("--out");
    let start = Instant::now();
    if let Some(d) = arg("--dict") { prog::set_dict(&d); }
    panic::set_hook(Box::new(|_| ()));
    if let Some(k) = arg("--known") {
        // re-run one known finding: prints whether it still fails
        match checks::known(&k) {
            Some(m) => { println!("FAILS {}", m); },
            None => println!("HOLDS"),
        }
        return;
    }
    if let (Some(c), Some(z)) = (arg("--case"), arg("--size")) {
        match run_case(&prop, c.parse().unwrap(), z.parse().unwrap()) {
            Out::Ok(s, _) => println!("HOLDS\n{}", s),
            Out::Bad(s) => { println!("FAILS\n{}", s); std::process::exit(1); },
        }
        return;
    }
    let secs: f64 = arg("--secs").unwrap_or("10".into()).parse().unwrap();
    let seed: u64 = arg("--seed").unwrap_or("1".into()).parse().unwrap();
    let threads: u64 = arg("--threads").unwrap_or("1".into()).parse().unwrap();
    let part: u64 = arg("--part").unwrap_or("0".into()).parse().unwrap();
    let max: u64 = arg("--max").unwrap_or(u64::MAX.to_string()).parse().unwrap();
    let trace = arg("--trace");
    // watchdog: a case that runs for 20 s hangs (the slowest takes well under 1 s)
    {
        let (prop, out) = (prop.clone(), out.clone());
        std::thread::spawn(move || {
            let mut last = (u64::MAX, Instant::now());
            loop {
                std::thread::sleep(Duration::from_millis(200));
                let t = TICK.load(Ordering::SeqCst);
                if t != last.0 { last = (t, Instant::now()); continue; }
                if last.1.elapsed() > Duration::from_secs(20) {
                    let case = CASE.load(Ordering::SeqCst);
                    let size = SIZE.load(Ordering::SeqCst);
                    let d = format!("the library did not finish within 20 s while running:\n{}", checks::describe());
                    let j = format!("{{\"prop\":{},\"evaluations\":{},\"distinct_nontrivial\":0,\"samples\":[],\"bad\":{{\"case\":{},\"size\":{},\"text\":{}}}}}\n", jstr(&prop), t, case, size, jstr(&d));
                    std::fs::write(&out, j).unwrap();
                    std::process::exit(1);
                }
            }
        });
    }
    let mut n = 0u64;
    let mut i = part;
    let mut seen: HashSet<u64> = HashSet::new();
    let mut samples: Vec<String> = Vec::new();
    let mut bad = None;
    let mut slowest = (0, 0, 0);
    while start.elapsed().as_secs_f64() < secs && n < max {
        let case = rng::Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(i)).next();
        let size = 1 + ((i / threads / 40) as usize).min(40) % 12;
        CASE.store(case, Ordering::SeqCst);
        SIZE.store(size as u64, Ordering::SeqCst);
        TICK.store(n + 1, Ordering::SeqCst);
        if let Some(t) = &trace { std::fs::write(t, format!("{} {}", case, size)).unwrap(); }
        let t0 = Instant::now();
        let o = run_case(&prop, case, size);
        let ms = t0.elapsed().as_millis();
        if ms > slowest.0 { slowest = (ms, case, size); }
        match o {
            Out::Ok(s, nontrivial) => {
                let mut h = std::collections::hash_map::DefaultHasher::new();
                s.hash(&mut h);
                if nontrivial && seen.len() < 2_000_000 && seen.insert(h.finish()) && samples.len() < 5 && n % 97 == 3 { samples.push(s); }
            },
            Out::Bad(s) => { bad = Some((case, size, s)); },
        }
        n += 1;
        i += threads;
        if bad.is_some() { break; }
    }
    let mut j = format!("{{\"prop\":{},\"evaluations\":{},\"distinct_nontrivial\":{},\"samples\":[{}]", jstr(&prop), n, seen.len(), samples.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(","));
    j.push_str(&format!(",\"slowest_ms\":{},\"slowest\":\"{} {}\"", slowest.0, slowest.1, slowest.2));
    if let Some((c, z, t)) = &bad { j.push_str(&format!(",\"bad\":{{\"case\":{},\"size\":{},\"text\":{}}}", c, z, jstr(t))); }
    j.push_str("}\n");
    std::fs::write(&out, j).unwrap();
    if bad.is_some() { std::process::exit(1); }
}
