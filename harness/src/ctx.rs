//! Monitor runtime: cases, verdicts, evidence.
use ark_std::rand::{rngs::StdRng, SeedableRng};
use std::cell::RefCell;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::Instant;

pub type R = Result<(), String>;

thread_local! { static LAST_PANIC: RefCell<String> = RefCell::new(String::new()); }

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let msg = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "panic".into());
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{msg} at {loc}"));
    }));
}

/// Runs `f`; a panic becomes Err(description).
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|p| {
        let m = LAST_PANIC.with(|p| std::mem::take(&mut *p.borrow_mut()));
        if !m.is_empty() {
            return m;
        }
        p.downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| p.downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "panic".into())
    })
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// Whether this is the serial build without debug checks
pub const AUX: bool = cfg!(all(feature = "pool", not(feature = "parallel")));

pub struct Ctx {
    pub id: String,
    pub tier: Tier,
    pub seed: u64,
    pub start: Instant,
    pub rule: Mutex<String>,
    counters: Mutex<BTreeMap<String, u64>>,
    required: Mutex<BTreeMap<String, u64>>,
    distinct: Mutex<HashSet<u64>>,
    evals: AtomicU64,
    samples: Mutex<Vec<String>>,
    sampled: Mutex<BTreeMap<String, u64>>,
    pub viols: Mutex<Vec<(String, u64, String)>>,
    pub known_hits: Mutex<BTreeMap<String, u64>>,
    known: Vec<(String, String, String)>,
    pub stop: AtomicBool,
    pub only: Option<(String, u64)>,
    /// the second, smaller pass in the serial build without debug checks
    pub aux: bool,
    pub extra: Mutex<BTreeMap<String, serde_json::Value>>,
    /// cases that have not returned yet
    pub flying: Mutex<std::collections::HashMap<(String, u64), Instant>>,
}

pub fn h64<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

impl Ctx {
    pub fn new(id: &str, tier: Tier, seed: u64, only: Option<(String, u64)>, known_path: &str) -> Self {
        let mut known = vec![];
        if let Ok(s) = std::fs::read_to_string(known_path) {
            for l in s.lines() {
                if let Ok(v) = serde_json::from_str::<serde_json::Value>(l) {
                    if v["status"] == "known" && v["property"] == id {
                        known.push((
                            id.to_string(),
                            v["signature"].as_str().unwrap_or("").to_string(),
                            v["what"].as_str().unwrap_or("").to_string(),
                        ));
                    }
                }
            }
        }
        Ctx {
            id: id.into(),
            tier,
            seed,
            start: Instant::now(),
            rule: Mutex::new(String::new()),
            counters: Default::default(),
            required: Default::default(),
            distinct: Default::default(),
            evals: AtomicU64::new(0),
            samples: Default::default(),
            sampled: Default::default(),
            viols: Default::default(),
            known_hits: Default::default(),
            known,
            stop: AtomicBool::new(false),
            only,
            aux: AUX,
            extra: Default::default(),
            flying: Default::default(),
        }
    }
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
    /// `q` in the quick tier, `t` in the thorough tier
    pub fn n(&self, q: u64, t: u64) -> u64 {
        if self.thorough() { t } else { q }
    }
    pub fn rule(&self, s: &str) {
        *self.rule.lock().unwrap() = s.to_string();
    }
    pub fn rng(&self, label: &str, idx: u64) -> StdRng {
        let mut k = [0u8; 32];
        let a = h64(&(self.seed, &self.id, label, idx, 1u8));
        let b = h64(&(self.seed, &self.id, label, idx, if self.aux { 12u8 } else { 2u8 }));
        let c = h64(&(self.seed, label, idx, 3u8));
        let d = h64(&(self.seed, idx, 4u8, &self.id));
        for (i, x) in [a, b, c, d].iter().enumerate() {
            k[i * 8..i * 8 + 8].copy_from_slice(&x.to_le_bytes());
        }
        StdRng::from_seed(k)
    }
    pub fn count(&self, name: &str, n: u64) {
        *self.counters.lock().unwrap().entry(name.into()).or_insert(0) += n;
    }
    /// The run is inconclusive unless counter `name` reaches `min`.
    pub fn require(&self, name: &str, min: u64) {
        self.required.lock().unwrap().insert(name.into(), min);
    }
    pub fn violate(&self, kind: &str, idx: u64, msg: String) {
        for (_, sig, what) in &self.known {
            if !sig.is_empty() && msg.contains(&format!("[sig:{sig}]")) {
                let mut k = self.known_hits.lock().unwrap();
                *k.entry(what.clone()).or_insert(0) += 1;
                return;
            }
        }
        let mut v = self.viols.lock().unwrap();
        if v.len() < 16 {
            v.push((kind.into(), idx, msg));
        }
        if v.len() >= 4 {
            self.stop.store(true, Ordering::Relaxed);
        }
    }
    pub fn one(&self, kind: &str, idx: u64, f: impl Fn(&mut Case) -> R) {
        if let Some((k, i)) = &self.only {
            if k != kind || *i != idx {
                return;
            }
        }
        if self.stop.load(Ordering::Relaxed) {
            return;
        }
        let mut case = Case { ctx: self, kind, idx, rng: self.rng(kind, idx) };
        self.evals.fetch_add(1, Ordering::Relaxed);
        self.count(&format!("cases.{kind}"), 1);
        let key = (kind.to_string(), idx);
        self.flying.lock().unwrap().insert(key.clone(), Instant::now());
        let r = guard(|| f(&mut case));
        self.flying.lock().unwrap().remove(&key);
        match r {
            Ok(Ok(())) => {}
            Ok(Err(m)) => self.violate(kind, idx, m),
            Err(p) => self.violate(kind, idx, format!("panic while observing: {p}")),
        }
    }
    /// The time is up: cases normally take well under ten seconds, so one that has been running for `stuck` seconds
    /// hangs. Whatever was seen is reported; without anything to report there is no answer.
    pub fn time_up(&self, limit: u64, stuck: u64, root: &str) -> i32 {
        let hung: Vec<(String, u64, u64)> = self.flying.lock().unwrap().iter().map(|((k, i), t)| (k.clone(), *i, t.elapsed().as_secs())).filter(|x| x.2 >= stuck).collect();
        for (k, i, s) in hung { self.violate(&k, i, format!("an operation did not return within {s} s")); }
        if self.viols.lock().unwrap().is_empty() {
            println!("INCONCLUSIVE: watchdog after {limit} s");
            return 2;
        }
        self.finish(root)
    }
    #[cfg(feature = "pool")]
    pub fn cases(&self, kind: &str, n: u64, f: impl Fn(&mut Case) -> R + Sync) {
        use rayon::prelude::*;
        let t = Instant::now();
        // the second pass takes a share of the cases
        let mine = |i: u64| !self.aux || self.only.is_some() || n <= 8 || h64(&(kind, i, self.seed)) % 4 == 0;
        // some of the cases run alone, one after another, so that what one call leaves behind for the next is not
        // disturbed by other cases; the rest run concurrently
        let alone = |i: u64| h64(&(kind, i)) % 16 == 0;
        let mut upto = n;
        for i in 0..n {
            if t.elapsed().as_secs_f64() > if self.thorough() { 60.0 } else { 5.0 } {
                upto = i;
                break;
            }
            if alone(i) && mine(i) {
                self.one(kind, i, &f);
                self.count("cases_run_alone", 1);
            }
        }
        (0..n as usize).into_par_iter().with_max_len(1).for_each(|i| {
            if mine(i as u64) && (!alone(i as u64) || i as u64 >= upto) { self.one(kind, i as u64, &f) }
        });
        if std::env::var("DVE_TIMING").is_ok() {
            eprintln!("{kind}: {n} cases {:?}", t.elapsed());
        }
    }
    #[cfg(not(feature = "pool"))]
    pub fn cases(&self, kind: &str, n: u64, f: impl Fn(&mut Case) -> R + Sync) {
        for i in 0..n {
            self.one(kind, i, &f)
        }
    }
    /// Finish: print verdict lines, write evidence; returns the exit code.
    pub fn finish(&self, root: &str) -> i32 {
        let viols = self.viols.lock().unwrap();
        let counters = self.counters.lock().unwrap().clone();
        let mut inconclusive = vec![];
        if self.only.is_none() && viols.is_empty() && !self.aux {
            for (k, min) in self.required.lock().unwrap().iter() {
                let have = counters.get(k).copied().unwrap_or(0);
                if have < *min {
                    inconclusive.push(format!("{k}: observed {have}, need {min}"));
                }
            }
        }
        let tier = if self.thorough() { "thorough" } else { "quick" };
        let mut cov = serde_json::Map::new();
        cov.insert("evaluations".into(), self.evals.load(Ordering::Relaxed).into());
        cov.insert("distinct_nontrivial".into(), (self.distinct.lock().unwrap().len() as u64).into());
        cov.insert("rule".into(), self.rule.lock().unwrap().clone().into());
        cov.insert("samples".into(), serde_json::json!(*self.samples.lock().unwrap()));
        cov.insert("events_observed".into(), serde_json::json!(counters));
        cov.insert("exhaustive".into(), false.into());
        for (k, v) in self.extra.lock().unwrap().iter() {
            cov.insert(k.clone(), v.clone());
        }
        let ev = serde_json::json!({
            "property": self.id, "tier": tier, "seed": self.seed, "level": "exploration",
            "coverage": cov,
            "assumptions": ["ark-ff/ark-ec field, curve and pairing arithmetic and ark-groth16 are trusted",
                            "BLS12-381 is the only curve available offline"],
            "wall_s": self.start.elapsed().as_secs_f64(), "violations": viols.len(),
        });
        let ev = if !self.aux { ev } else {
            // a part of the evidence of the first pass
            let mut first = std::fs::read_to_string(format!("{root}/evidence/{}.json", self.id)).ok().and_then(|s| serde_json::from_str::<serde_json::Value>(&s).ok()).unwrap_or(ev.clone());
            first["violations"] = (first["violations"].as_u64().unwrap_or(0) + viols.len() as u64).into();
            first["wall_s"] = (first["wall_s"].as_f64().unwrap_or(0.0) + self.start.elapsed().as_secs_f64()).into();
            first["coverage"]["second_pass"] = serde_json::json!({
                "build": "serial, no debug assertions, no overflow checks", "evaluations": self.evals.load(Ordering::Relaxed),
                "distinct_nontrivial": self.distinct.lock().unwrap().len(), "events_observed": counters,
            });
            first
        };
        if self.only.is_none() {
            let _ = std::fs::create_dir_all(format!("{root}/evidence"));
            if let Err(e) = std::fs::write(
                format!("{root}/evidence/{}.json", self.id),
                serde_json::to_string_pretty(&ev).unwrap(),
            ) {
                println!("cannot write evidence: {e}");
                return 2;
            }
        }
        for (what, n) in self.known_hits.lock().unwrap().iter() {
            println!("KNOWN-FINDING: property={} {} ({} observations)", self.id, what, n);
        }
        println!(
            "{}{}: tier={} seed={} evaluations={} distinct={} violations={} wall={:.1}s",
            self.id,
            if self.aux { " (serial build without debug checks)" } else { "" },
            tier,
            self.seed,
            self.evals.load(Ordering::Relaxed),
            self.distinct.lock().unwrap().len(),
            viols.len(),
            self.start.elapsed().as_secs_f64()
        );
        if !viols.is_empty() {
            let dir = format!("{root}/replays");
            let _ = std::fs::create_dir_all(&dir);
            for (kind, idx, msg) in viols.iter().take(4) {
                let path = format!("{dir}/{}{}-{}-{}-{}.json", self.id, if self.aux { "-second" } else { "" }, self.seed, kind.replace(['/', ' '], "_"), idx);
                let _ = std::fs::write(
                    &path,
                    serde_json::to_string_pretty(&serde_json::json!({
                        "property": self.id, "seed": self.seed, "tier": tier, "kind": kind, "index": idx, "what": msg, "second": self.aux,
                        "replay": format!("./check.sh {} --replay {}", self.id, path),
                    }))
                    .unwrap(),
                );
                println!("  {kind}#{idx}: {msg}");
                println!("VIOLATION property={} replay={}", self.id, path);
            }
            return 1;
        }
        if !inconclusive.is_empty() {
            println!("INCONCLUSIVE {}: {}", self.id, inconclusive.join("; "));
            return 2;
        }
        0
    }
}

pub struct Case<'a> {
    pub ctx: &'a Ctx,
    pub kind: &'a str,
    pub idx: u64,
    pub rng: StdRng,
}

impl<'a> Case<'a> {
    pub fn count(&self, name: &str, n: u64) {
        self.ctx.count(name, n)
    }
    /// One more thing observed; `key` identifies it, so that repeats are not counted twice.
    pub fn seen<T: Hash>(&self, key: T) {
        self.ctx.distinct.lock().unwrap().insert(h64(&key));
    }
    pub fn sample(&self, s: impl FnOnce() -> String) {
        {
            let mut m = self.ctx.sampled.lock().unwrap();
            let e = m.entry(self.kind.to_string()).or_insert(0);
            *e += 1;
            if *e > 2 {
                return;
            }
        }
        let mut v = self.ctx.samples.lock().unwrap();
        if v.len() < 24 {
            let mut t = s();
            t.truncate(600);
            v.push(format!("{}#{}: {}", self.kind, self.idx, t));
        }
    }
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !($c) { return Err(format!($($t)*)); } };
}

/// Calls into the code under test; a panic there is reported with the given description.
#[macro_export]
macro_rules! call {
    ($what:expr, $e:expr) => {
        match $crate::ctx::guard(|| $e) {
            Ok(v) => v,
            Err(p) => return Err(format!("{} panicked: {}", $what, p)),
        }
    };
}

/// Same, for a call that must return Ok
#[macro_export]
macro_rules! ok {
    ($what:expr, $e:expr) => {
        match $crate::ctx::guard(|| $e) {
            Ok(Ok(v)) => v,
            Ok(Err(e)) => return Err(format!("{} returned an error: {:?}", $what, e)),
            Err(p) => return Err(format!("{} panicked: {}", $what, p)),
        }
    };
}

/// Same, for a call that must return Err
#[macro_export]
macro_rules! must_err {
    ($what:expr, $e:expr) => {
        match $crate::ctx::guard(|| $e) {
            Ok(Ok(_)) => return Err(format!("{} was accepted", $what)),
            Ok(Err(e)) => e,
            Err(p) => return Err(format!("{} panicked: {}", $what, p)),
        }
    };
}
