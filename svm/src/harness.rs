//! The search driver shared by all checks: deterministic generation with
//! proptest, sharded over threads, counting and classifying what was explored,
//! shrinking failures to a minimal input and writing it as a replay file.
use proptest::strategy::{Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// A violation of the property under check.
#[derive(Clone, Debug)]
pub struct Violation {
    /// stable signature (known findings are keyed on it)
    pub sig: String,
    pub msg: String,
}
impl Violation {
    pub fn new(sig: impl Into<String>, msg: impl Into<String>) -> Self {
        Violation { sig: sig.into(), msg: msg.into() }
    }
}
#[macro_export]
macro_rules! bad {
    ($sig:expr, $($arg:tt)*) => { return Err($crate::harness::Violation::new($sig, format!($($arg)*))) };
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $sig:expr, $($arg:tt)*) => { if !($c) { $crate::bad!($sig, $($arg)*) } };
}

/// What one generated case exercised.
#[derive(Default, Clone)]
pub struct Report {
    pub labels: BTreeMap<&'static str, u64>,
    /// fingerprints of the non-trivial situations met in this case
    pub nontrivial: Vec<u64>,
    /// number of oracle evaluations made (steps, comparisons)
    pub evals: u64,
    pub sample: Option<String>,
}
impl Report {
    pub fn label(&mut self, l: &'static str) {
        *self.labels.entry(l).or_insert(0) += 1;
    }
    pub fn label_n(&mut self, l: &'static str, n: u64) {
        if n > 0 {
            *self.labels.entry(l).or_insert(0) += n;
        }
    }
    pub fn hit<T: Hash>(&mut self, t: &T) {
        self.nontrivial.push(fp(t));
    }
}
pub fn fp<T: Hash>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

#[derive(Default)]
struct Totals {
    cases: u64,
    evals: u64,
    labels: BTreeMap<&'static str, u64>,
    distinct: HashSet<u64>,
    samples: Vec<String>,
}

pub struct Ctx {
    pub prop: String,
    pub tier: Tier,
    pub seed: u64,
    pub scale: f64,
    root: String,
    start: Instant,
    cap: Duration,
    threads: usize,
    known: Vec<(String, String)>,
    totals: BTreeMap<String, Totals>,
    capped: Vec<String>,
    rules: Vec<String>,
    assumptions: Vec<String>,
    violations: Vec<(String, Violation, String)>,
    found_known: HashSet<String>,
    replay: Option<(String, Value)>,
    replay_hit: bool,
}

fn env_u64(k: &str, d: u64) -> u64 {
    std::env::var(k).ok().and_then(|v| v.parse().ok()).unwrap_or(d)
}

impl Ctx {
    /// `args`: <property> <quick|thorough>  |  replay <file>
    pub fn from_args() -> Ctx {
        crate::init();
        let args: Vec<String> = std::env::args().skip(1).collect();
        let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
        let mut replay = None;
        let (prop, tier) = if args.get(0).map(|s| s.as_str()) == Some("replay") {
            let f = args.get(1).expect("replay file");
            let v: Value = serde_json::from_slice(&std::fs::read(f).expect("read replay")).expect("replay json");
            replay = Some((v["sub"].as_str().unwrap().to_string(), v["input"].clone()));
            (v["property"].as_str().unwrap().to_string(), Tier::Quick)
        } else {
            let p = args.get(0).cloned().expect("usage: <property> <quick|thorough> | replay <file>");
            let t = match args.get(1).map(|s| s.as_str()) {
                Some("thorough") => Tier::Thorough,
                _ => Tier::Quick,
            };
            (p, t)
        };
        let seed = env_u64("VERIF_SEED", 1);
        let cap = env_u64("VERIF_CAP_S", if tier == Tier::Quick { 120 } else { 700 });
        let known = std::fs::read_to_string(format!("{}/known-findings.txt", root))
            .unwrap_or_default()
            .lines()
            .filter_map(|l| {
                let l = l.strip_prefix("known: property=")?;
                let (p, rest) = l.split_once(' ')?;
                let (s, _) = rest.strip_prefix("sig=")?.split_once(' ')?;
                Some((p.to_string(), s.to_string()))
            })
            .collect();
        Ctx {
            prop,
            tier,
            seed,
            scale: std::env::var("VERIF_SCALE").ok().and_then(|v| v.parse().ok()).unwrap_or(1.0),
            root,
            start: Instant::now(),
            cap: Duration::from_secs(cap),
            threads: env_u64("VERIF_THREADS", std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(8)) as usize,
            known,
            totals: BTreeMap::new(),
            capped: vec![],
            rules: vec![],
            assumptions: vec![],
            violations: vec![],
            found_known: HashSet::new(),
            replay,
            replay_hit: false,
        }
    }
    pub fn is(&self, p: &str) -> bool {
        self.prop == p
    }
    pub fn rule(&mut self, r: &str) {
        self.rules.push(r.to_string());
    }
    pub fn assume(&mut self, r: &str) {
        self.assumptions.push(r.to_string());
    }
    pub fn failed(&self) -> bool {
        !self.violations.is_empty()
    }

    /// Explore `quick` (or `thorough`) generated cases of `strat` with `check`.
    pub fn search<T, S, F>(&mut self, sub: &str, quick: u64, thorough: u64, strat: impl Fn() -> S + Sync, check: F)
    where
        T: Serialize + DeserializeOwned + std::fmt::Debug + Clone + Send,
        S: Strategy<Value = T>,
        F: Fn(&T) -> Result<Report, Violation> + Sync,
    {
        if let Some((s, input)) = &self.replay {
            if s != sub {
                return;
            }
            let t: T = serde_json::from_str(input.as_str().expect("replay input")).expect("replay input");
            self.replay_hit = true;
            let (prop, file) = (self.prop.clone(), std::env::args().nth(2).unwrap_or_default());
            std::thread::spawn(move || {
                std::thread::sleep(STUCK);
                println!("VIOLATION property={} replay={} (does not terminate)", prop, file);
                std::process::exit(1);
            });
            match guarded(&check, &t) {
                Ok(_) => println!("replay: property={} holds on this input", self.prop),
                Err(v) => {
                    println!("replay: property={} violated: {}: {}", self.prop, v.sig, v.msg);
                    self.violations.push((sub.to_string(), v, "(replay)".into()));
                }
            }
            return;
        }
        if self.failed() {
            return;
        }
        let n = ((if self.tier == Tier::Quick { quick } else { thorough }) as f64 * self.scale).ceil() as u64;
        let shards = 64u64.min(n.max(1));
        let stop = AtomicBool::new(false);
        let hit_cap = AtomicBool::new(false);
        let next = std::sync::atomic::AtomicU64::new(0);
        let totals = Mutex::new(Totals::default());
        let found: Mutex<Option<(Violation, T)>> = Mutex::new(None);
        let known_hit: Mutex<HashSet<String>> = Mutex::new(HashSet::new());
        let known: Vec<String> = self.known.iter().filter(|k| k.0 == self.prop).map(|k| k.1.clone()).collect();
        let deadline = self.start + self.cap;
        let (seed, prop) = (self.seed, self.prop.clone());
        let slots: Vec<Mutex<Option<(Instant, T)>>> = (0..self.threads).map(|_| Mutex::new(None)).collect();
        let running = std::sync::atomic::AtomicUsize::new(self.threads);
        let (root, tier) = (self.root.clone(), self.tier);
        std::thread::scope(|sc| {
            // a case that never ends is a failure too
            sc.spawn(|| {
                while running.load(Ordering::SeqCst) > 0 {
                    std::thread::sleep(Duration::from_millis(20));
                    for s in &slots {
                        let g = s.lock().unwrap();
                        if let Some((t0, t)) = &*g {
                            if t0.elapsed() > STUCK {
                                let v = Violation::new("stuck", format!("no result after {:?}", STUCK));
                                let path = write_replay(&root, &prop, sub, seed, &v, t);
                                let ev = json!({
                                    "property": prop, "tier": if tier == Tier::Quick { "quick" } else { "thorough" }, "seed": seed, "level": "exploration",
                                    "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": "a case that does not terminate", "samples": [clip(&format!("{:?}", t), 700)],
                                        "found": [{"search": sub, "signature": "stuck", "replay": path}]},
                                    "wall_s": STUCK.as_secs_f64(), "violations": 1, "assumptions": [],
                                });
                                let _ = std::fs::create_dir_all(format!("{}/evidence", root));
                                let _ = std::fs::write(format!("{}/evidence/{}.json", root, prop), serde_json::to_vec_pretty(&ev).unwrap());
                                println!("VIOLATION property={} replay={}", prop, path);
                                std::process::exit(1);
                            }
                        }
                    }
                }
            });
            for slot in &slots {
                let (next, stop, hit_cap, totals, found, known_hit, known, prop, strat, check, running) =
                    (&next, &stop, &hit_cap, &totals, &found, &known_hit, &known, &prop, &strat, &check, &running);
                sc.spawn(move || { loop {
                    let shard = next.fetch_add(1, Ordering::SeqCst);
                    if shard >= shards || stop.load(Ordering::SeqCst) {
                        break;
                    }
                    let cases = n / shards + u64::from(shard < n % shards);
                    let mut sb = [0u8; 32];
                    for (i, c) in sb.chunks_mut(8).enumerate() {
                        c.copy_from_slice(&fp(&(seed, &prop, sub, shard, i)).to_le_bytes());
                    }
                    let mut runner = TestRunner::new_with_rng(
                        Config { failure_persistence: None, ..Config::default() },
                        TestRng::from_seed(RngAlgorithm::ChaCha, &sb),
                    );
                    let st = strat();
                    let mut loc = Totals::default();
                    for case in 0..cases {
                        if stop.load(Ordering::SeqCst) {
                            break;
                        }
                        if Instant::now() > deadline {
                            hit_cap.store(true, Ordering::SeqCst);
                            break;
                        }
                        let mut tree = st.new_tree(&mut runner).expect("generator");
                        let v = tree.current();
                        let res = timed(slot, check, &v);
                        match res {
                            Ok(r) => {
                                loc.cases += 1;
                                loc.evals += r.evals.max(1);
                                for (k, c) in r.labels {
                                    *loc.labels.entry(k).or_insert(0) += c;
                                }
                                let fresh = !r.nontrivial.is_empty();
                                loc.distinct.extend(r.nontrivial);
                                if loc.samples.len() < 1 && (fresh || case + 1 == cases) {
                                    loc.samples.push(r.sample.unwrap_or_else(|| clip(&format!("{:?}", v), 700)));
                                }
                            }
                            Err(e) if known.contains(&e.sig) => {
                                loc.cases += 1;
                                known_hit.lock().unwrap().insert(e.sig);
                            }
                            Err(e) => {
                                if stop.swap(true, Ordering::SeqCst) {
                                    break;
                                }
                                // shrink
                                let mut best = (e, v);
                                let t0 = Instant::now();
                                let mut iters = 0;
                                if tree.simplify() {
                                    loop {
                                        iters += 1;
                                        if iters > 6000 || t0.elapsed() > Duration::from_secs(40) {
                                            break;
                                        }
                                        let cur = tree.current();
                                        match timed(slot, check, &cur) {
                                            Err(e2) if !known.contains(&e2.sig) => {
                                                best = (e2, cur);
                                                if !tree.simplify() {
                                                    break;
                                                }
                                            }
                                            _ => {
                                                if !tree.complicate() {
                                                    break;
                                                }
                                            }
                                        }
                                    }
                                }
                                *found.lock().unwrap() = Some(best);
                                break;
                            }
                        }
                    }
                    let mut t = totals.lock().unwrap();
                    t.cases += loc.cases;
                    t.evals += loc.evals;
                    for (k, c) in loc.labels {
                        *t.labels.entry(k).or_insert(0) += c;
                    }
                    t.distinct.extend(loc.distinct);
                    if t.samples.len() < 3 {
                        t.samples.extend(loc.samples);
                    }
                }
                running.fetch_sub(1, Ordering::SeqCst);
                });
            }
        });
        if hit_cap.load(Ordering::SeqCst) {
            self.capped.push(sub.to_string());
        }
        self.totals.insert(sub.to_string(), totals.into_inner().unwrap());
        self.found_known.extend(known_hit.into_inner().unwrap());
        if let Some((v, input)) = found.into_inner().unwrap() {
            let path = write_replay(&self.root, &self.prop, sub, self.seed, &v, &input);
            self.violations.push((sub.to_string(), v, path));
        }
    }

    /// Writes the evidence file, prints the verdict and returns the exit code.
    pub fn finish(self) -> i32 {
        if self.replay.is_some() {
            if !self.replay_hit {
                eprintln!("replay: no such sub-check");
                return 2;
            }
            for (_, v, _) in &self.violations {
                println!("VIOLATION property={} replay={} ({})", self.prop, std::env::args().nth(2).unwrap(), v.sig);
            }
            return i32::from(!self.violations.is_empty());
        }
        let wall = self.start.elapsed().as_secs_f64();
        let mut evals = 0u64;
        let mut distinct: HashSet<(String, u64)> = HashSet::new();
        let mut samples: Vec<Value> = vec![];
        let mut subs = serde_json::Map::new();
        for (name, t) in &self.totals {
            evals += t.evals;
            distinct.extend(t.distinct.iter().map(|d| (name.clone(), *d)));
            for s in t.samples.iter().take(2) {
                samples.push(json!(format!("[{}] {}", name, s)));
            }
            subs.insert(
                name.clone(),
                json!({"cases": t.cases, "evaluations": t.evals, "distinct_nontrivial": t.distinct.len(), "labels": t.labels}),
            );
        }
        let ev = json!({
            "property": self.prop,
            "tier": if self.tier == Tier::Quick { "quick" } else { "thorough" },
            "seed": self.seed,
            "level": "exploration",
            "coverage": {
                "evaluations": evals,
                "distinct_nontrivial": distinct.len(),
                "rule": self.rules.join("; "),
                "samples": samples,
                "searches": subs,
                "time_capped": self.capped,
                "found": self.violations.iter().map(|(s, v, p)| json!({"search": s, "signature": v.sig, "message": clip(&v.msg, 2000), "replay": p})).collect::<Vec<_>>(),
            },
            "wall_s": (wall * 1000.0).round() / 1000.0,
            "violations": self.violations.len(),
            "assumptions": self.assumptions,
        });
        let dir = format!("{}/evidence", self.root);
        let _ = std::fs::create_dir_all(&dir);
        std::fs::write(format!("{}/{}.json", dir, self.prop), serde_json::to_vec_pretty(&ev).unwrap()).expect("write evidence");
        for (name, t) in &self.totals {
            println!("{} {}: {} cases, {} evaluations, {} distinct non-trivial", self.prop, name, t.cases, t.evals, t.distinct.len());
            if std::env::var("VERIF_LABELS").is_ok() {
                for (k, v) in &t.labels {
                    println!("    {:<44} {}", k, v);
                }
            }
        }
        for k in &self.found_known {
            println!("KNOWN-FINDING: property={} {}", self.prop, k);
        }
        if self.violations.is_empty() {
            if evals == 0 {
                eprintln!("no cases were run for {}", self.prop);
                return 2;
            }
            println!("OK property={} tier={:?} seed={} wall={:.1}s", self.prop, self.tier, self.seed, wall);
            return 0;
        }
        for (s, v, p) in &self.violations {
            println!("{}: {}: {}", s, v.sig, clip(&v.msg, 3000));
            println!("VIOLATION property={} replay={}", self.prop, p);
        }
        1
    }
}

const STUCK: Duration = Duration::from_secs(60);

/// A panic outside the program's own transaction boundary is a failure of the case.
fn guarded<T>(check: &impl Fn(&T) -> Result<Report, Violation>, t: &T) -> Result<Report, Violation> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| check(t))) {
        Ok(r) => r,
        Err(_) => Err(Violation::new("panic", crate::last_panic())),
    }
}
fn timed<T: Clone>(slot: &Mutex<Option<(Instant, T)>>, check: &impl Fn(&T) -> Result<Report, Violation>, t: &T) -> Result<Report, Violation> {
    *slot.lock().unwrap() = Some((Instant::now(), t.clone()));
    let r = guarded(check, t);
    *slot.lock().unwrap() = None;
    r
}

fn write_replay<T: Serialize + std::fmt::Debug>(root: &str, prop: &str, sub: &str, seed: u64, v: &Violation, input: &T) -> String {
    let j = json!({
        "property": prop, "sub": sub, "seed": seed,
        "signature": v.sig, "message": v.msg, "input": serde_json::to_string(input).unwrap(),
    });
    let dir = format!("{}/replays", root);
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{}/{}-{:016x}.json", dir, prop, fp(&format!("{:?}", input)));
    std::fs::write(&path, serde_json::to_vec_pretty(&j).unwrap()).expect("write replay");
    path
}

pub fn clip(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.to_string();
    }
    let mut e = n;
    while !s.is_char_boundary(e) {
        e -= 1;
    }
    format!("{}...", &s[..e])
}
