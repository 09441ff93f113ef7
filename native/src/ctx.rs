//! Case runner: counts, filters (replay), panic capture, watchdog.
use std::cell::RefCell;
use std::io::{Seek, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};

pub static PROGRESS: AtomicU64 = AtomicU64::new(0);

thread_local! { pub static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) }; }

/// findings on record (known-findings.txt), and those met in this run
pub static KNOWN: std::sync::Mutex<Vec<String>> = std::sync::Mutex::new(Vec::new());
pub static MET: std::sync::Mutex<Vec<String>> = std::sync::Mutex::new(Vec::new());
/// A failure on record is noted, any other is an error
pub fn finding(key: &str, msg: String) -> Result<(), String> {
    if !KNOWN.lock().unwrap().iter().any(|k| k == key) { return Err(msg); }
    let mut m = MET.lock().unwrap();
    if !m.iter().any(|k| k == key) { m.push(key.into()); }
    Ok(())
}

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % (n as u64)) as usize
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.next() % den < num
    }
}

pub struct Ctx {
    pub seed: u64,
    pub thorough: bool,
    pub only: Option<String>,
    pub trace: Option<std::fs::File>,
    pub group: String,
    pub evals: u64,
    pub nontrivial: u64,
    pub groups: u64,
    pub samples: Vec<String>,
    pub failure: Option<(String, String)>,
    /// time for all cases; a group gets at most a third of it
    pub budget: std::time::Duration,
    pub start: std::time::Instant,
    pub group_start: std::time::Instant,
    pub skipped: u64,
}

impl Ctx {
    pub fn rng(&self) -> Rng {
        let mut h = self.seed ^ 0xcbf29ce484222325;
        for b in self.group.bytes() {
            h = (h ^ b as u64).wrapping_mul(0x100000001b3);
        }
        Rng(h)
    }
    /// Effort multiplier
    pub fn n(&self, quick: usize, thorough: usize) -> usize {
        if self.thorough { thorough } else { quick }
    }
    pub fn group(&mut self, name: impl Into<String>) {
        self.group = name.into();
        self.groups += 1;
        self.group_start = std::time::Instant::now();
    }
    pub fn stop(&self) -> bool {
        self.failure.is_some()
    }
    /// One case: `f` returns Err(what went wrong); a panic is a failure too.
    pub fn case(&mut self, desc: impl Fn() -> String, f: impl FnOnce() -> Result<(), String>) {
        if self.failure.is_some() {
            return;
        }
        if let Some(o) = &self.only {
            let id = format!("{} :: {}", self.group, desc());
            if *o != id {
                return;
            }
            println!("case: {id}");
        } else if self.start.elapsed() > self.budget || self.group_start.elapsed() > self.budget / 3 {
            self.skipped += 1;
            PROGRESS.fetch_add(1, Ordering::Relaxed);
            return;
        }
        PROGRESS.fetch_add(1, Ordering::Relaxed);
        if let Some(t) = &mut self.trace {
            // only the case under way
            let _ = t.rewind();
            let l = format!("{} :: {}\n", self.group, desc());
            let _ = t.write_all(l.as_bytes());
            let _ = t.set_len(l.len() as u64);
        }
        self.evals += 1;
        self.nontrivial += 1;
        let r = catch_unwind(AssertUnwindSafe(f));
        let msg = match r {
            Ok(Ok(())) => {
                if self.evals & (self.evals - 1) == 0 && self.samples.len() < 40 {
                    let s = format!("{} :: {}", self.group, desc());
                    self.samples.push(s);
                }
                return;
            }
            Ok(Err(m)) => m,
            Err(_) => format!("unexpected panic: {}", LAST_PANIC.with(|p| p.borrow().clone())),
        };
        self.failure = Some((format!("{} :: {}", self.group, desc()), msg));
    }
}

pub fn panics<R>(f: impl FnOnce() -> R) -> bool {
    catch_unwind(AssertUnwindSafe(|| {
        let _ = f();
    }))
    .is_err()
}
pub fn try_call<R>(f: impl FnOnce() -> R) -> Option<R> {
    catch_unwind(AssertUnwindSafe(f)).ok()
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($arg:tt)*) => { if !($c) { return Err(format!($($arg)*)); } };
}
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $what:expr) => {{
        let (a, b) = (&$a, &$b);
        if *a != *b { return Err(format!("{}: got {:?}, expected {:?}", $what, a, b)); }
    }};
}
