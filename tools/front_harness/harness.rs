// Differential harness for the front end of the clibri CLI: the real parsers of /repo/cli/src, compiled into this
// program (only the macro `stop!` differs: it unwinds with a marker instead of ending the process), against an
// independent grammar-driven reading of the same text.
#![allow(dead_code, unused, non_snake_case, clippy::all)]
use std::collections::{BTreeMap, HashMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

pub struct Stop(pub String);
#[macro_export]
macro_rules! stop { ($($arg:tt)*) => {{ std::panic::panic_any(crate::Stop(format!($($arg)*))) }} }

#[path = "@@CLI@@/src/helpers/mod.rs"]
pub mod helpers;
#[path = "@@CLI@@/src/protocol/parser.rs"]
pub mod protocol;
#[path = "@@CLI@@/src/protocol/render/render.rs"]
pub mod render;
#[path = "@@CLI@@/src/workflow/parser.rs"]
pub mod workflow;

mod proto;
mod flow;

// ------------------------------------------------------------------ random numbers
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 { let mut x = self.0; x ^= x << 13; x ^= x >> 7; x ^= x << 17; self.0 = x; x.wrapping_mul(0x2545F4914F6CDD1D) }
    pub fn n(&mut self, n: usize) -> usize { ((self.next() >> 33) as usize) % n.max(1) }
    pub fn p(&mut self, num: usize, den: usize) -> bool { self.n(den) < num }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { let k = self.n(v.len()); &v[k] }
}

// ------------------------------------------------------------------ running a case
pub enum Out<T> { Ok(T), Rejected(String), Crash(String) }
static CASE: AtomicU64 = AtomicU64::new(0);
pub fn guarded<T>(f: impl FnOnce() -> Result<T, String>) -> Out<T> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(Ok(x)) => Out::Ok(x),
        Ok(Err(e)) => Out::Rejected(e),
        Err(e) => {
            if let Some(s) = e.downcast_ref::<Stop>() { Out::Rejected(s.0.clone()) }
            else if let Some(s) = e.downcast_ref::<String>() { Out::Crash(s.clone()) }
            else if let Some(s) = e.downcast_ref::<&str>() { Out::Crash(s.to_string()) }
            else { Out::Crash("panic".into()) }
        }
    }
}
pub struct Run { pub dir: PathBuf, pub rng: Rng, pub evals: u64, pub distinct: HashSet<u64>, pub samples: Vec<String>, pub failures: Vec<String>, pub notes: BTreeMap<String, u64>, pub end: Instant, pub current: std::sync::Arc<std::sync::Mutex<String>> }
pub fn hash(s: &str) -> u64 { let mut h = 0xcbf29ce484222325u64; for b in s.bytes() { h = (h ^ b as u64).wrapping_mul(0x100000001b3); } h }
impl Run {
    pub fn more(&self) -> bool { Instant::now() < self.end && self.failures.len() < 3 }
    pub fn case(&mut self, text: &str, trivial: bool) {
        self.evals += 1;
        if !trivial { self.distinct.insert(hash(text)); }
        if self.samples.len() < 3 && text.len() > 40 { self.samples.push(text.chars().take(300).collect()); }
        *self.current.lock().unwrap() = text.to_string();
        CASE.fetch_add(1, Ordering::SeqCst);
    }
    pub fn fail(&mut self, what: String, text: &str) {
        let f = format!("{}\n--- input:\n{}\n---", what, text);
        if self.failures.len() < 3 { self.failures.push(f); }
    }
    pub fn note(&mut self, k: &str) { *self.notes.entry(k.to_string()).or_insert(0) += 1; }
    pub fn file(&self, name: &str, text: &str) -> PathBuf {
        let p = self.dir.join(name);
        std::fs::write(&p, text).expect("scratch");
        p
    }
}
fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } }
    o.push('"');
    o
}
fn report(out: &Path, evals: u64, distinct: usize, samples: &[String], failures: &[String], notes: &BTreeMap<String, u64>) {
    let j = |v: &[String]| v.iter().map(|s| esc(s)).collect::<Vec<_>>().join(",");
    let n = notes.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(",");
    std::fs::write(out, format!("{{\"evaluations\":{},\"distinct\":{},\"samples\":[{}],\"failures\":[{}],\"notes\":{{{}}}}}", evals, distinct, j(samples), j(failures), n)).unwrap();
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (mode, seed, ms, out) = (a[1].clone(), a[2].parse::<u64>().unwrap(), a[3].parse::<u64>().unwrap(), PathBuf::from(&a[4]));
    std::panic::set_hook(Box::new(|_| {}));
    let dir = out.with_extension("d");
    std::fs::create_dir_all(&dir).unwrap();
    let current = std::sync::Arc::new(std::sync::Mutex::new(String::new()));
    let mut r = Run { dir: dir.clone(), rng: Rng((seed + 77).wrapping_mul(0x9E3779B97F4A7C15) | 1), evals: 0, distinct: HashSet::new(), samples: vec![], failures: vec![], notes: BTreeMap::new(), end: Instant::now() + Duration::from_millis(ms), current: current.clone() };
    for _ in 0..8 { r.rng.next(); }
    // a case that takes more than 10 s counts as endless
    let (o2, c2) = (out.clone(), current.clone());
    std::thread::spawn(move || {
        let (mut last, mut since) = (0, Instant::now());
        loop {
            std::thread::sleep(Duration::from_millis(200));
            let n = CASE.load(Ordering::SeqCst);
            if n != last { last = n; since = Instant::now(); }
            if since.elapsed() > Duration::from_secs(10) {
                let t = c2.lock().unwrap().clone();
                report(&o2, n, 0, &[], &[format!("parsing does not come back within 10 s\n--- input:\n{}\n---", t)], &BTreeMap::new());
                std::process::exit(0);
            }
        }
    });
    // deep recursion of the code under test must not end this program
    let h = std::thread::Builder::new().stack_size(512 << 20).spawn(move || {
        match mode.as_bytes()[0] {
            b'P' => proto::run(&mut r, &mode),
            b'W' => flow::run(&mut r, &mode),
            b'p' => { proto::dump(&PathBuf::from(&a[5])); }
            _ => panic!("mode"),
        }
        r
    }).unwrap();
    match h.join() {
        Ok(r) => report(&out, r.evals, r.distinct.len(), &r.samples, &r.failures, &r.notes),
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            eprintln!("harness failed: {}", m);
            std::process::exit(3);
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
}
