//! Shared plumbing of the conformance drivers.
//!
//! A driver is a program `driver MODE --seed S --from A --to B --out FILE [--scn FILE] [--tier T]`.
//! Case number k of a mode is a pure function of (seed, mode, k) (or of line k of the scenario file
//! that TLC enumerated), so every case can be replayed alone with `--from k --to k+1`.
//! One line of JSON per case: {"id": k, "ev": [ event, ... ]}.  A panic inside the code under test is
//! data: the event carries it and the specification decides.
pub mod picture;

use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub use serde_json::{json, Map, Value};

/// what a number that cannot be represented in the scaled range is logged as
pub const BAD: i64 = 2_000_000_000;
/// largest magnitude a logged number may have by default
pub const LIM: f64 = 1.0e9;

/// x * scale rounded to the nearest integer, BAD if not finite or too large
pub fn q(x: f64, scale: f64) -> i64 {
    ql(x, scale, LIM)
}

pub fn ql(x: f64, scale: f64, lim: f64) -> i64 {
    let y = x * scale;
    if !y.is_finite() || y.abs() > lim {
        return BAD;
    }
    y.round() as i64
}

/// an exact integer value, BAD if x is not one (up to rel. rounding noise `tol`)
pub fn qi(x: f64) -> i64 {
    if !x.is_finite() || x.abs() > 1.0e8 {
        return BAD;
    }
    let y = x.round();
    if (x - y).abs() > 1e-6 * (1.0 + x.abs()) {
        return BAD;
    }
    y as i64
}

pub fn qs(v: &[f64], scale: f64) -> Vec<i64> {
    v.iter().map(|x| q(*x, scale)).collect()
}

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64, mode: &str, k: u64) -> Self {
        let mut h: u64 = 0xcbf29ce484222325 ^ seed.wrapping_mul(0x9e3779b97f4a7c15);
        for b in mode.bytes() {
            h = (h ^ b as u64).wrapping_mul(0x100000001b3);
        }
        h ^= k.wrapping_mul(0xd1342543de82ef95);
        let mut r = Rng(h);
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    /// uniform in 0..n
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % (n as u64)) as usize
    }
    /// uniform in a..=b
    pub fn int(&mut self, a: i64, b: i64) -> i64 {
        a + (self.next() % ((b - a + 1) as u64)) as i64
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.next() % den < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.below(v.len());
        &v[i]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
    pub fn perm(&mut self, n: usize) -> Vec<usize> {
        let mut p: Vec<usize> = (0..n).collect();
        self.shuffle(&mut p);
        p
    }
}

/// run code under test; a panic comes back as Err(message)
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        let m = if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        m.chars().filter(|c| c.is_ascii() && *c != '"').take(120).collect()
    })
}

pub struct Args {
    pub mode: String,
    pub seed: u64,
    pub from: u64,
    pub to: u64,
    pub out: String,
    pub thorough: bool,
    pub scn: Vec<Value>,
    pub scratch: String,
}

pub fn args() -> Args {
    let mut a = Args {
        mode: String::new(),
        seed: 1,
        from: 0,
        to: 0,
        out: String::new(),
        thorough: false,
        scn: Vec::new(),
        scratch: String::new(),
    };
    let mut it = std::env::args().skip(1);
    a.mode = it.next().expect("mode");
    while let Some(k) = it.next() {
        let v = it.next().expect("option value");
        match k.as_str() {
            "--seed" => a.seed = v.parse().unwrap(),
            "--from" => a.from = v.parse().unwrap(),
            "--to" => a.to = v.parse().unwrap(),
            "--out" => a.out = v,
            "--scratch" => a.scratch = v,
            "--tier" => a.thorough = v == "thorough",
            "--scn" => {
                let t = std::fs::read_to_string(v).unwrap();
                a.scn = t
                    .lines()
                    .filter(|l| !l.trim().is_empty())
                    .map(|l| serde_json::from_str(l).expect("scenario line"))
                    .collect();
            }
            _ => panic!("unknown option {}", k),
        }
    }
    a
}

/// run cases from..to; `f(k, rng, events)` appends the events of case k
pub fn drive(a: &Args, f: impl Fn(u64, &mut Rng, &mut Vec<Value>)) {
    if std::env::var("DRIVER_PANICS").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let out = Arc::new(Mutex::new(
        std::fs::OpenOptions::new()
            .create(true)
            .append(true)
            .open(&a.out)
            .unwrap(),
    ));
    let t0 = Instant::now();
    let started = Arc::new(AtomicU64::new(0));
    let current = Arc::new(AtomicU64::new(u64::MAX));
    let limit_ms: u64 = std::env::var("CASE_LIMIT_MS").ok().and_then(|s| s.parse().ok()).unwrap_or(20_000);
    {
        let (out, started, current) = (out.clone(), started.clone(), current.clone());
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(250));
            let c = current.load(Ordering::SeqCst);
            if c == u64::MAX {
                continue;
            }
            let s = started.load(Ordering::SeqCst);
            let now = t0.elapsed().as_millis() as u64;
            if now > s + limit_ms && current.load(Ordering::SeqCst) == c {
                let mut o = out.lock().unwrap();
                let line = json!({"id": c, "ev": [{"op": "hang"}]});
                let _ = writeln!(o, "{}", line);
                let _ = o.flush();
                std::process::exit(3);
            }
        });
    }
    for k in a.from..a.to {
        started.store(t0.elapsed().as_millis() as u64, Ordering::SeqCst);
        current.store(k, Ordering::SeqCst);
        let mut rng = Rng::new(a.seed, &a.mode, k);
        let mut ev = Vec::new();
        if let Err(m) = guard(|| f(k, &mut rng, &mut ev)) {
            ev.push(json!({"op": "panic", "msg": m}));
        }
        let line = json!({"id": k, "ev": ev}).to_string();
        let mut o = out.lock().unwrap();
        current.store(u64::MAX, Ordering::SeqCst);
        writeln!(o, "{}", line).unwrap();
    }
}
