//! Executable contracts run against the real crates: searches concrete failing inputs.
//! Everything here is a bounded complement of the proofs and is labelled so.
use num_bigint::BigInt;
use serde_json::{json, Value};
use std::collections::hash_map::DefaultHasher;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::io::{Seek, SeekFrom, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[cfg(feature = "circom_algebra")]
pub mod alg;
#[cfg(feature = "circom_algebra")]
pub mod simp;
#[cfg(feature = "constraint_list")]
pub mod sys;
#[cfg(feature = "e2e")]
pub mod e2e;
pub struct Rng(pub u64);
impl Rng {
    pub fn new(s: u64) -> Rng { Rng(s.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03) }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 { if n == 0 { 0 } else { self.next() % n } }
    pub fn us(&mut self, n: usize) -> usize { self.below(n as u64) as usize }
    pub fn chance(&mut self, num: u64, den: u64) -> bool { self.below(den) < num }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { let i = self.us(v.len()); &v[i] }
    pub fn shuffle<T>(&mut self, v: &mut Vec<T>) {
        for i in (1..v.len()).rev() { let j = self.us(i + 1); v.swap(i, j); }
    }
    /// element in [0, p), biased to the edges
    pub fn elem(&mut self, p: &BigInt) -> BigInt {
        let one = BigInt::from(1);
        let r = match self.below(12) {
            0 => BigInt::from(self.below(3)),
            1 => p - BigInt::from(1 + self.below(3)),
            2 => p / BigInt::from(2) + BigInt::from(self.below(3) as i64 - 1),
            3 => num_traits::pow(BigInt::from(2), self.us(260)),
            4 => num_traits::pow(BigInt::from(2), self.us(260)) - &one,
            5 => BigInt::from(self.below(300)),
            6 => p - BigInt::from(self.below(300)),
            _ => {
                let mut b = vec![];
                for _ in 0..(1 + self.us(33)) { b.push(self.next() as u8); }
                BigInt::from_bytes_le(num_bigint::Sign::Plus, &b)
            }
        };
        ((r % p) + p) % p
    }
    pub fn small(&mut self, p: &BigInt) -> BigInt {
        let v = BigInt::from(self.below(7) as i64 - 3);
        ((v % p) + p) % p
    }
}

pub const PRIMES: [(&str, &str); 8] = [
    ("bn128", "21888242871839275222246405745257275088548364400416034343698204186575808495617"),
    ("bls12381", "52435875175126190479447740508185965837690552500527637822603658699938581184513"),
    ("goldilocks", "18446744069414584321"),
    ("grumpkin", "21888242871839275222246405745257275088696311157297823662689037894645226208583"),
    ("pallas", "28948022309329048855892746252171976963363056481941560715954676764349967630337"),
    ("vesta", "28948022309329048855892746252171976963363056481941647379679742748393362948097"),
    ("secq256r1", "115792089210356248762697446949407573530086143415290314195533631308867097853951"),
    ("bls12377", "8444461749428370424248824938781546531375899335154063827935233455917409239041"),
];
pub fn big(s: &str) -> BigInt { BigInt::parse_bytes(s.as_bytes(), 10).unwrap() }
pub fn emod(a: &BigInt, p: &BigInt) -> BigInt { ((a % p) + p) % p }

pub struct Harness {
    pub rng: Rng,
    pub seed: u64,
    pub thorough: bool,
    pub seconds: u64,
    pub scratch: String,
    start: Instant,
    evals: u64,
    seen: HashSet<u64>,
    samples: Vec<Value>,
    failures: Vec<Value>,
    fail_keys: HashSet<String>,
    rule: String,
    current: std::fs::File,
    watch: Arc<Mutex<(Instant, String, bool)>>,
    counters: std::collections::BTreeMap<String, u64>,
}

fn out(h: &Value) {
    println!("{}", h);
    let _ = std::io::stdout().flush();
}

impl Harness {
    pub fn new(rule: &str) -> Harness {
        let a: Vec<String> = std::env::args().collect();
        let get = |k: &str, d: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned().unwrap_or(d.to_string());
        let seed: u64 = get("--seed", "1").parse().unwrap_or(1);
        let seconds: u64 = get("--seconds", "20").parse().unwrap_or(20);
        let scratch = get("--scratch", "/tmp");
        std::panic::set_hook(Box::new(|_| {}));
        let current = std::fs::File::create(format!("{}/current", scratch)).unwrap();
        let watch = Arc::new(Mutex::new((Instant::now(), String::new(), false)));
        let w2 = watch.clone();
        let rule2 = rule.to_string();
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            let g = w2.lock().unwrap();
            if g.2 && g.0.elapsed() > Duration::from_secs(60) {
                out(&json!({"evaluations": 1, "distinct_nontrivial": 1, "rule": rule2, "samples": [],
                    "failures": [{"key": "hang", "input": g.1, "detail": "the call did not return within 60 s"}]}));
                std::process::exit(0);
            }
        });
        Harness {
            rng: Rng::new(seed), seed, thorough: get("--tier", "quick") == "thorough", seconds, scratch,
            start: Instant::now(), evals: 0, seen: HashSet::new(), samples: vec![], failures: vec![],
            fail_keys: HashSet::new(), rule: rule.to_string(), current, watch, counters: Default::default(),
        }
    }
    pub fn time_left(&self) -> bool { self.start.elapsed() < Duration::from_secs(self.seconds) && self.failures.len() < 5 }
    pub fn frac(&self, f: f64) -> bool { self.start.elapsed().as_secs_f64() < self.seconds as f64 * f && self.failures.len() < 5 }
    pub fn count(&mut self, k: &str) { *self.counters.entry(k.to_string()).or_insert(0) += 1; }
    /// run one case; `key` names the contract being exercised
    pub fn case<F: FnOnce() -> Result<bool, String>>(&mut self, key: &str, desc: String, f: F) {
        self.evals += 1;
        let _ = self.current.seek(SeekFrom::Start(0));
        let _ = self.current.write_all(desc.as_bytes());
        let _ = self.current.set_len(desc.len() as u64);
        { let mut g = self.watch.lock().unwrap(); g.0 = Instant::now(); g.1 = desc.clone(); g.2 = true; }
        let r = catch_unwind(AssertUnwindSafe(f));
        { let mut g = self.watch.lock().unwrap(); g.2 = false; }
        let r = match r {
            Ok(r) => r,
            Err(p) => {
                let m = p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                Err(format!("panicked: {}", m))
            }
        };
        match r {
            Ok(nontrivial) => {
                if nontrivial && self.seen.len() < 4_000_000 {
                    let mut h = DefaultHasher::new();
                    key.hash(&mut h);
                    desc.hash(&mut h);
                    if self.seen.insert(h.finish()) {
                        let n = self.seen.len();
                        if n.is_power_of_two() && self.samples.len() < 12 {
                            self.samples.push(json!({"case": key, "input": if desc.len() > 400 { desc.chars().take(400).collect() } else { desc }}));
                        }
                    }
                }
            }
            Err(e) => {
                // a few distinct failures are enough
                let fk = key.to_string();
                if self.fail_keys.insert(fk) || self.failures.len() < 3 {
                    self.failures.push(json!({"key": key, "input": desc, "detail": e}));
                }
            }
        }
    }
    pub fn finish(self) {
        out(&json!({"evaluations": self.evals, "distinct_nontrivial": self.seen.len(), "rule": self.rule,
            "samples": self.samples, "failures": self.failures, "counters": self.counters,
            "seconds": self.start.elapsed().as_secs_f64()}));
    }
}
pub fn ensure(c: bool, msg: &str) -> Result<(), String> { if c { Ok(()) } else { Err(msg.to_string()) } }
