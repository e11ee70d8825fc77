//! Runs a check over the lines of a case file, in parallel, and collects results.
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Default)]
pub struct Ctx {
    pub evaluations: u64,
    pub nontrivial: u64,
    pub counters: BTreeMap<String, u64>,
    pub violations: Vec<Value>,
    pub records: Vec<Value>,
    pub samples: Vec<Value>,
    pub case: Value,
    pub prop: String,
    pub pool: [Vec<Value>; 2],
}

impl Ctx {
    pub fn count(&mut self, k: &str) { *self.counters.entry(k.to_string()).or_insert(0) += 1; }
    /// Reports a violation of the property being checked by the current case.
    pub fn fail(&mut self, what: String) {
        self.count("violations");
        if self.violations.len() < 20 {
            self.violations.push(json!({"what": what, "case": self.case}));
        }
    }
    pub fn is(&self, p: &str) -> bool { self.prop == p }
}

pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() { s.to_string() }
        else if let Some(s) = e.downcast_ref::<String>() { s.clone() }
        else { "panic".to_string() }
    })
}

pub fn quiet_panics() { std::panic::set_hook(Box::new(|i| {
    // panics of the code under test are data; those of the harness itself are not
    if i.location().map_or(false, |l| l.file().starts_with("src/") ) && std::thread::current().name() == Some("main") { eprintln!("harness: {}", i); }
})); }

/// Small deterministic generator (splitmix64).
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 { self.next() % n }
    /// Uniform in [-a, a].
    pub fn sym(&mut self, a: f64) -> f64 { (self.next() >> 11) as f64 / (1u64 << 53) as f64 * 2. * a - a }
}
pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() { h ^= b as u64; h = h.wrapping_mul(0x100000001b3); }
    h
}

pub fn run_cases(path: &str, prop: &str, threads: usize, f: fn(&mut Ctx, &Value)) -> Ctx {
    let text = std::fs::read_to_string(path).expect("case file");
    let lines: Vec<&str> = text.lines().filter(|l| !l.trim().is_empty()).collect();
    let n = threads.max(1);
    let chunks: Vec<Vec<&str>> = (0..n).map(|t| lines.iter().skip(t).step_by(n).cloned().collect()).collect();
    let mut total = Ctx { prop: prop.to_string(), ..Default::default() };
    std::thread::scope(|s| {
        let hs: Vec<_> = chunks.into_iter().map(|ls| std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(s, move || {
            let mut c = Ctx { prop: prop.to_string(), ..Default::default() };
            for l in ls {
                let v: Value = serde_json::from_str(l).unwrap_or_else(|e| panic!("bad case line: {} {}", e, l));
                c.case = v.clone();
                let before = c.nontrivial;
                // a panic that reaches this point is a fault of the harness or an
                // unexpected panic of the code: checks catch the code's panics themselves
                if let Err(e) = catch(|| f(&mut c, &v)) { c.fail(format!("unexpected panic: {}", e)); }
                if c.samples.len() < 2 && c.nontrivial > before { c.samples.push(v); }
            }
            c
        }).unwrap()).collect();
        for h in hs {
            let c = h.join().expect("worker");
            total.evaluations += c.evaluations;
            total.nontrivial += c.nontrivial;
            for (k, v) in c.counters { *total.counters.entry(k).or_insert(0) += v; }
            total.violations.extend(c.violations);
            total.records.extend(c.records);
            if total.samples.len() < 4 { total.samples.extend(c.samples); }
        }
    });
    total.samples.truncate(4);
    total
}

pub fn summary(c: &Ctx) -> Value {
    json!({"evaluations": c.evaluations, "distinct_nontrivial": c.nontrivial, "counters": c.counters,
           "violations": c.violations, "samples": c.samples})
}
