//! Shared parts of the witness programs: random numbers, case bookkeeping, a strict XML reader.
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::panic::{self, AssertUnwindSafe};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub mod xml;

pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03);
        for _ in 0..8 { r.next(); }
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    /// uniform below n
    pub fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { (self.next() % n as u64) as usize } }
    pub fn range(&mut self, a: usize, b: usize) -> usize { a + self.below(b - a + 1) }
    pub fn chance(&mut self, num: usize, den: usize) -> bool { self.below(den) < num }
    pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T { &s[self.below(s.len())] }
}

struct Watch { started: Instant, input: String, active: bool }

pub struct Ctx {
    pub prop: String,
    pub rng: Rng,
    pub seed: u64,
    pub thorough: bool,
    pub deadline: Instant,
    pub rule: String,
    evaluations: u64,
    distinct: HashSet<u64>,
    violations: Vec<serde_json::Value>,
    samples: Vec<String>,
    watch: Arc<Mutex<Watch>>,
    trace: Option<String>,
    keys: HashSet<String>,
}

pub const MAX_VIOL: usize = 4;

fn args() -> (String, u64, bool, u64, Option<String>) {
    let a: Vec<String> = std::env::args().collect();
    let get = |n: &str| a.iter().position(|x| x == n).and_then(|i| a.get(i + 1)).cloned();
    (
        a.get(1).cloned().unwrap_or_default(),
        get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1),
        get("--tier").as_deref() == Some("thorough"),
        get("--budget").and_then(|s| s.parse().ok()).unwrap_or(20),
        get("--trace"),
    )
}

impl Ctx {
    pub fn from_args() -> Ctx {
        let (prop, seed, thorough, budget, trace) = args();
        panic::set_hook(Box::new(|_| {}));
        let watch = Arc::new(Mutex::new(Watch { started: Instant::now(), input: String::new(), active: false }));
        let w2 = watch.clone();
        let p2 = prop.clone();
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            let w = w2.lock().unwrap();
            if w.active && w.started.elapsed() > Duration::from_secs(20) {
                let v = serde_json::json!({"evaluations": 1, "distinct": 1, "rule": p2, "samples": [],
                    "violations": [{"what": "did not finish within 20 s", "input": w.input}]});
                println!("{v}");
                std::process::exit(0);
            }
        });
        Ctx {
            prop, rng: Rng::new(seed), seed, thorough, deadline: Instant::now() + Duration::from_secs(budget),
            rule: String::new(), evaluations: 0, distinct: HashSet::new(), violations: vec![], samples: vec![], watch, trace, keys: HashSet::new(),
        }
    }
    /// Time left and not enough violations yet.
    pub fn more(&self) -> bool { Instant::now() < self.deadline && self.violations.len() < MAX_VIOL }
    pub fn failing(&self) -> bool { self.violations.len() >= MAX_VIOL }
    /// A fraction of the time budget, for splitting it between phases.
    pub fn slice(&self, part: f64) -> Instant {
        let now = Instant::now();
        now + self.deadline.saturating_duration_since(now).mul_f64(part)
    }
    pub fn violation(&mut self, input: &str, what: String, key: Option<&str>) {
        // a listed finding is recorded once, and does not use up the quota
        if let Some(k) = key
            && !self.keys.insert(k.to_string())
        { return; }
        let mut v = serde_json::json!({"input": input, "what": what});
        if let Some(k) = key { v["key"] = k.into(); }
        self.violations.push(v);
    }
    /// Run one case. `f` gives an error text if the property is broken; a panic counts as one too.
    pub fn case(&mut self, input: &str, f: impl FnOnce() -> Result<(), String>) -> bool {
        self.evaluations += 1;
        let mut h = std::collections::hash_map::DefaultHasher::new();
        input.hash(&mut h);
        if self.distinct.len() < 4_000_000 { self.distinct.insert(h.finish()); }
        if self.samples.len() < 6 && self.evaluations % 37 == 1 { self.samples.push(input.chars().take(300).collect()); }
        {
            let mut w = self.watch.lock().unwrap();
            w.started = Instant::now();
            w.input.clear();
            w.input.push_str(input);
            w.active = true;
        }
        if let Some(t) = &self.trace {
            if let Ok(mut f) = std::fs::File::create(t) { let _ = f.write_all(input.as_bytes()); }
        }
        let r = panic::catch_unwind(AssertUnwindSafe(f));
        self.watch.lock().unwrap().active = false;
        match r {
            Ok(Ok(())) => true,
            Ok(Err(e)) => { self.violation(input, e, None); false }
            Err(p) => {
                let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "panic".into());
                self.violation(input, format!("panicked: {m}"), None);
                false
            }
        }
    }
    pub fn finish(self) -> ! {
        let v = serde_json::json!({"evaluations": self.evaluations, "distinct": self.distinct.len(), "rule": self.rule,
            "samples": self.samples, "violations": self.violations});
        println!("{v}");
        std::process::exit(0)
    }
}

/// Run `f` on a thread with a large stack.
pub fn with_stack(f: impl FnOnce() + Send + 'static) {
    std::thread::Builder::new().stack_size(512 << 20).spawn(f).unwrap().join().unwrap_or_else(|p| {
        let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        eprintln!("the search itself panicked: {m}");
        std::process::exit(9)
    });
}
