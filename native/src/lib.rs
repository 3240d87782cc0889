//! Shared parts of the native replay harnesses: the real code of /repo is compiled here and run
//! against an executable form of the contract, to turn a failed obligation into a failing input,
//! to cross-check the assumed contracts, and as the bounded stand-in when no proof can be attempted.
pub mod movegen;
use std::collections::HashSet;
use std::hash::{DefaultHasher, Hash, Hasher};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// the case being evaluated, for the watchdog
static CURRENT: Mutex<Option<(String, Instant)>> = Mutex::new(None);
static LOCATION: Mutex<String> = Mutex::new(String::new());
/// module name whose innermost function on the stack is reported with a panic
static SITE_IN: Mutex<String> = Mutex::new(String::new());
static SITE: Mutex<String> = Mutex::new(String::new());
const HANG_SECS: u64 = 15;

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { (self.next() % n as u64) as usize }
    }
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub struct Run {
    pub rng: Rng,
    pub evals: u64,
    seen: HashSet<u64>,
    pub nontrivial: u64,
    samples: Vec<String>,
    fails: Vec<(String, String, String)>,
    deadline: Instant,
    start: Instant,
    pub thorough: bool,
    pub exhaustive: Vec<String>,
    only: Option<String>,
    trace: bool,
    max_fails: usize,
    known: Vec<String>,
    known_hits: usize,
    skip_panics: bool,
}

impl Run {
    /// args: --seed N --secs N [--thorough] [--only INPUT]
    pub fn from_args() -> Run {
        let a: Vec<String> = std::env::args().collect();
        let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
        let seed: u64 = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
        let secs: f64 = get("--secs").and_then(|s| s.parse().ok()).unwrap_or(10.0);
        std::panic::set_hook(Box::new(|i| {
            let l = i.location().map(|l| format!("{}:{}", l.file().rsplit("/repo/").next().unwrap_or(""), l.line())).unwrap_or_default();
            *LOCATION.lock().unwrap() = l;
            let m = SITE_IN.lock().unwrap().clone();
            if !m.is_empty() {
                let bt = std::backtrace::Backtrace::force_capture().to_string();
                let pat = format!("::{m}::");
                let f = bt.lines().find(|l| l.contains(&pat)).unwrap_or("");
                let f = f.split(": ").last().unwrap_or("").replace("::{{closure}}", "");
                *SITE.lock().unwrap() = f.rsplit("::").next().unwrap_or("").trim().to_string();
            }
        }));
        std::thread::spawn(|| loop {
            std::thread::sleep(Duration::from_millis(500));
            let g = CURRENT.lock().unwrap();
            if let Some((k, t)) = &*g {
                if t.elapsed().as_secs() >= HANG_SECS {
                    println!(
                        "{{\"evaluations\":1,\"distinct_nontrivial\":1,\"samples\":[],\"exhaustive\":[],\"fails\":[{{\"input\":{},\"kind\":\"hang\",\"what\":\"no result after {HANG_SECS} s\"}}],\"secs\":0}}",
                        esc(k)
                    );
                    std::process::exit(1);
                }
            }
        });
        Run {
            rng: Rng(seed.wrapping_mul(0x2545F4914F6CDD1D)),
            evals: 0,
            seen: HashSet::new(),
            nontrivial: 0,
            samples: vec![],
            fails: vec![],
            deadline: Instant::now() + Duration::from_secs_f64(secs),
            start: Instant::now(),
            thorough: a.iter().any(|x| x == "--thorough"),
            exhaustive: vec![],
            only: get("--only"),
            trace: a.iter().any(|x| x == "--trace"),
            known: a.iter().enumerate().filter(|(i, _)| *i > 0 && a[i - 1] == "--known").map(|(_, x)| x.clone()).collect(),
            known_hits: 0,
            skip_panics: false,
            max_fails: get("--max-fails").and_then(|s| s.parse().ok()).unwrap_or(3),
        }
    }
    pub fn time_left(&self) -> bool {
        Instant::now() < self.deadline && self.fails.len() < self.max_fails
    }
    pub fn failed(&self) -> bool {
        self.fails.len() >= self.max_fails
    }
    /// a panic is attributed to the innermost function of this module on the stack
    pub fn site_of(&mut self, module: &str) { *SITE_IN.lock().unwrap() = module.to_string(); }
    /// panics inside this module are another property's concern
    pub fn skip_panics_in(&mut self, module: &str) { self.site_of(module); self.skip_panics = true; }
    pub fn exhausted(&mut self, what: &str) {
        self.exhaustive.push(what.to_string());
    }
    /// One evaluation. `key` identifies the input (printed in replays); `f` returns Err(what went wrong).
    /// A panic of the code under test is a failure.
    pub fn case(&mut self, key: &str, nontrivial: bool, f: impl FnOnce() -> Result<(), String>) {
        if let Some(o) = &self.only {
            if o != key {
                return;
            }
        }
        if self.fails.len() >= self.max_fails {
            return;
        }
        self.evals += 1;
        if self.trace {
            eprintln!("CASE {key}");
        }
        let mut h = DefaultHasher::new();
        key.hash(&mut h);
        if nontrivial && self.seen.len() < 3_000_000 && self.seen.insert(h.finish()) {
            self.nontrivial += 1;
            if self.samples.len() < 3 || (self.samples.len() < 8 && self.nontrivial % 997 == 0) {
                self.samples.push(key.to_string());
            }
        }
        *CURRENT.lock().unwrap() = Some((key.to_string(), Instant::now()));
        let r = catch_unwind(AssertUnwindSafe(f));
        *CURRENT.lock().unwrap() = None;
        let (kind, msg) = match r {
            Ok(Ok(())) => return,
            Ok(Err(m)) => ("wrong result", m),
            Err(p) => {
                let m = p
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or("panic".into());
                let site = SITE.lock().unwrap().clone();
                if !site.is_empty() {
                    // a recorded finding is the call site together with what fails there
                    let id = format!("site:{site}/{}", m.split_whitespace().next().unwrap_or(""));
                    if self.skip_panics { return; }
                    if self.known.contains(&id) { self.known_hits += 1; return; }
                    ("panic", format!("{m} in {id} at {}", LOCATION.lock().unwrap()))
                } else {
                    ("panic", format!("{m} at {}", LOCATION.lock().unwrap()))
                }
            }
        };
        if self.known.iter().any(|k| k == key) { self.known_hits += 1; return; }
        if self.max_fails > 3 && self.fails.iter().any(|f| f.2.rsplit(" at ").next() == msg.rsplit(" at ").next()) { return; }
        self.fails.push((key.to_string(), kind.to_string(), msg));
    }
    pub fn finish(self) -> ! {
        let samples: Vec<String> = self.samples.iter().map(|s| esc(s)).collect();
        let fails: Vec<String> = self
            .fails
            .iter()
            .map(|(k, t, m)| format!("{{\"input\":{},\"kind\":{},\"what\":{}}}", esc(k), esc(t), esc(m)))
            .collect();
        let ex: Vec<String> = self.exhaustive.iter().map(|s| esc(s)).collect();
        println!(
            "{{\"evaluations\":{},\"distinct_nontrivial\":{},\"samples\":[{}],\"exhaustive\":[{}],\"fails\":[{}],\"known_hits\":{},\"secs\":{:.2}}}",
            self.evals,
            self.nontrivial,
            samples.join(","),
            ex.join(","),
            fails.join(","),
            self.known_hits,
            self.start.elapsed().as_secs_f64()
        );
        std::process::exit(if self.fails.is_empty() { 0 } else { 1 })
    }
}

/// all strings over `alpha` of length exactly n, as index vectors
pub fn words(alpha: usize, n: usize, mut f: impl FnMut(&[usize]) -> bool) {
    let mut w = vec![0; n];
    loop {
        if !f(&w) {
            return;
        }
        let mut i = 0;
        loop {
            if i == n {
                return;
            }
            w[i] += 1;
            if w[i] < alpha {
                break;
            }
            w[i] = 0;
            i += 1;
        }
    }
}
