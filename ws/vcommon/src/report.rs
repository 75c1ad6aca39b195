//! Case runner and reporting: counts what was observed, writes violations and the evidence file.
use crate::{exec, rng::{fnv, Rng}};
use serde_json::{json, Map, Value};
use std::{
    collections::{BTreeMap, HashSet},
    path::PathBuf,
    sync::{
        atomic::{AtomicU64, AtomicUsize, Ordering},
        Mutex,
    },
    time::{Duration, Instant},
};

#[derive(Clone, Debug)]
pub struct Config {
    pub property: String,
    pub stage: String,
    pub tier: String,
    pub seed: u64,
    pub only_part: Option<String>,
    pub only_case: Option<u64>,
    pub out: PathBuf,
    pub replay_dir: PathBuf,
    pub known: Vec<Known>,
    pub deadline: Instant,
    pub threads: usize,
    /// Divides the number of cases (slow, sanitized builds).
    pub div: u64,
}

#[derive(Clone, Debug)]
pub struct Known {
    pub property: String,
    pub signature: String,
    pub what: String,
}

impl Config {
    pub fn from_args(stage: &str) -> Config {
        let a: Vec<String> = std::env::args().collect();
        let get = |n: &str| a.iter().position(|x| x == n).and_then(|i| a.get(i + 1)).cloned();
        let property = a.get(1).cloned().unwrap_or_else(|| {
            eprintln!("usage: {} PROPERTY --out FILE --replay-dir DIR [--tier quick|thorough] [--seed N] [--part P --case N] [--known FILE]", a[0]);
            std::process::exit(2)
        });
        let tier = get("--tier").unwrap_or_else(|| "quick".into());
        let known = get("--known")
            .and_then(|p| std::fs::read_to_string(p).ok())
            .map(|s| {
                s.lines()
                    .filter(|l| l.trim_start().starts_with('{'))
                    .filter_map(|l| serde_json::from_str::<Value>(l).ok())
                    .filter(|v| v["status"] == "known")
                    .map(|v| Known {
                        property: v["property"].as_str().unwrap_or("").into(),
                        signature: v["signature"].as_str().unwrap_or("").into(),
                        what: v["what"].as_str().unwrap_or("").into(),
                    })
                    .collect()
            })
            .unwrap_or_default();
        let known: Vec<Known> = known;
        let _ = KNOWN.set(known.iter().filter(|k| k.property == property).map(|k| k.signature.clone()).collect());
        let secs = get("--budget").and_then(|s| s.parse().ok()).unwrap_or(if tier == "thorough" { 700 } else { 240 });
        Config {
            property,
            stage: get("--stage").unwrap_or_else(|| stage.into()),
            tier,
            seed: get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1),
            only_part: get("--part"),
            only_case: get("--case").and_then(|s| s.parse().ok()),
            out: get("--out").unwrap_or_else(|| "/dev/null".into()).into(),
            replay_dir: get("--replay-dir").unwrap_or_else(|| "/tmp".into()).into(),
            known,
            deadline: Instant::now() + Duration::from_secs(secs),
            div: get("--div").and_then(|s| s.parse().ok()).unwrap_or(1),
            threads: get("--threads").and_then(|s| s.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8)),
        }
    }
    /// Number of cases for this tier.
    pub fn n(&self, quick: u64, thorough: u64) -> u64 {
        (if self.tier == "thorough" { thorough } else { quick } / self.div).max(1)
    }
}

/// Signatures of this property's listed findings.
static KNOWN: std::sync::OnceLock<HashSet<String>> = std::sync::OnceLock::new();

/// What one thread saw.
#[derive(Default)]
pub struct Obs {
    pub part: String,
    pub case: u64,
    pub evaluations: u64,
    pub distinct: HashSet<u64>,
    pub counters: BTreeMap<String, u64>,
    pub samples: Vec<Value>,
    pub violations: Vec<(String, Value)>,
    /// Listed findings met again: they stop nothing and hide nothing else.
    pub known: BTreeMap<String, u64>,
    pub harness_errors: Vec<String>,
}

impl Obs {
    /// One judged execution; `sig` identifies what makes it distinct (empty: trivial, not counted as distinct).
    pub fn eval(&mut self, sig: &str) {
        self.evaluations += 1;
        if !sig.is_empty() {
            self.distinct.insert(fnv(sig.as_bytes()));
        }
    }
    pub fn count(&mut self, k: &str) {
        *self.counters.entry(k.to_string()).or_default() += 1;
    }
    pub fn countn(&mut self, k: &str, n: u64) {
        *self.counters.entry(k.to_string()).or_default() += n;
    }
    pub fn sample(&mut self, f: impl FnOnce() -> Value) {
        if self.samples.len() < 1 {
            self.samples.push(f())
        }
    }
    /// The property is broken; `sig` names the failing kind exactly (used for known findings), `detail` is the witness.
    pub fn violation(&mut self, sig: impl Into<String>, detail: Value) {
        let sig = sig.into();
        if KNOWN.get().map_or(false, |k| k.contains(&sig)) {
            *self.known.entry(sig).or_default() += 1;
            return;
        }
        if self.violations.len() < 40 {
            let d = json!({"part": self.part, "case": self.case, "signature": sig, "witness": detail});
            self.violations.push((sig, d));
        }
    }
    pub fn check(&mut self, ok: bool, sig: &str, detail: impl FnOnce() -> Value) -> bool {
        if !ok {
            self.violation(sig, detail());
        }
        ok
    }
    /// The harness itself could not do what it needs; makes the run inconclusive.
    pub fn harness(&mut self, msg: impl Into<String>) {
        if self.harness_errors.len() < 20 {
            let m = format!("{}/{}: {}", self.part, self.case, msg.into());
            self.harness_errors.push(m);
        }
    }
    fn merge(&mut self, o: Obs) {
        self.evaluations += o.evaluations;
        self.distinct.extend(o.distinct);
        for (k, v) in o.counters {
            *self.counters.entry(k).or_default() += v;
        }
        let mut s = o.samples;
        while self.samples.len() < 4 && !s.is_empty() {
            self.samples.push(s.remove(0));
        }
        for (k, v) in o.known {
            *self.known.entry(k).or_default() += v;
        }
        self.violations.extend(o.violations);
        self.harness_errors.extend(o.harness_errors);
    }
}

pub struct Runner {
    pub cfg: Config,
    total: Obs,
    parts: Vec<Value>,
    pub rule: Vec<String>,
    pub assumptions: Vec<String>,
    started: Instant,
    pub cpu_hang_is_violation: bool,
}

fn thread_cpu() -> u64 {
    let mut t: libc::timespec = unsafe { std::mem::zeroed() };
    unsafe { libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut t) };
    t.tv_sec as u64 * 1000 + t.tv_nsec as u64 / 1_000_000
}

impl Runner {
    pub fn new(cfg: Config) -> Runner {
        exec::install_panic_hook();
        exec::install_crash_handler();
        Runner { cfg, total: Obs::default(), parts: vec![], rule: vec![], assumptions: vec![], started: Instant::now(), cpu_hang_is_violation: false }
    }
    pub fn rule(&mut self, s: &str) {
        self.rule.push(s.split_whitespace().collect::<Vec<_>>().join(" "))
    }
    pub fn assume(&mut self, s: &str) {
        self.assumptions.push(s.split_whitespace().collect::<Vec<_>>().join(" "))
    }
    pub fn violated(&self) -> bool {
        !self.total.violations.is_empty()
    }

    /// Runs cases 0..n of `part` on all threads. Every case is deterministic in (seed, part, case).
    pub fn cases(&mut self, part: &str, n: u64, f: impl Fn(u64, &mut Rng, &mut Obs) + Sync) {
        self.cases_on(self.cfg.threads, part, n, f)
    }

    pub fn cases_on(&mut self, threads: usize, part: &str, n: u64, f: impl Fn(u64, &mut Rng, &mut Obs) + Sync) {
        if let Some(p) = &self.cfg.only_part {
            if p != part {
                return;
            }
        }
        let static_part: &'static str = Box::leak(part.to_string().into_boxed_str());
        let cfg = self.cfg.clone();
        let next = AtomicU64::new(cfg.only_case.unwrap_or(0));
        let end = cfg.only_case.map(|c| c + 1).unwrap_or(n);
        let done = AtomicU64::new(0);
        let nviol = AtomicUsize::new(0);
        let running = AtomicUsize::new(threads);
        // Watchdog: CPU time of the case each thread is in. A case normally takes milliseconds.
        let slots: Vec<(AtomicU64, AtomicU64)> = (0..threads).map(|_| (AtomicU64::new(u64::MAX), AtomicU64::new(0))).collect();
        let pthreads: Mutex<Vec<Option<libc::pthread_t>>> = Mutex::new(vec![None; threads]);
        let merged = Mutex::new(Obs::default());
        let hang = Mutex::new(None);
        let t0 = Instant::now();
        std::thread::scope(|s| {
            for t in 0..threads {
                let (next, done, nviol, running, slots, pthreads, merged, f, cfg) = (&next, &done, &nviol, &running, &slots, &pthreads, &merged, &f, &cfg);
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, move || {
                        pthreads.lock().unwrap()[t] = Some(unsafe { libc::pthread_self() });
                        let mut obs = Obs { part: part.to_string(), ..Default::default() };
                        loop {
                            let c = next.fetch_add(1, Ordering::SeqCst);
                            if c >= end || Instant::now() > cfg.deadline || nviol.load(Ordering::Relaxed) > 30 {
                                break;
                            }
                            obs.case = c;
                            exec::set_current(static_part, c);
                            slots[t].1.store(thread_cpu(), Ordering::SeqCst);
                            slots[t].0.store(c, Ordering::SeqCst);
                            let mut rng = Rng::for_case(cfg.seed, &format!("{}/{}", cfg.property, part), c);
                            let before = obs.violations.len();
                            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(c, &mut rng, &mut obs)));
                            if r.is_err() {
                                obs.harness("the harness itself panicked");
                            }
                            nviol.fetch_add(obs.violations.len() - before, Ordering::Relaxed);
                            slots[t].0.store(u64::MAX, Ordering::SeqCst);
                            done.fetch_add(1, Ordering::Relaxed);
                        }
                        merged.lock().unwrap().merge(obs);
                        pthreads.lock().unwrap()[t] = None;
                        running.fetch_sub(1, Ordering::SeqCst);
                    })
                    .unwrap();
            }
            // watchdog loop
            while running.load(Ordering::SeqCst) > 0 {
                std::thread::sleep(Duration::from_millis(20));
                let pt = pthreads.lock().unwrap();
                for t in 0..threads {
                    let c = slots[t].0.load(Ordering::SeqCst);
                    if c == u64::MAX {
                        continue;
                    }
                    if let Some(p) = pt[t] {
                        let mut clk: libc::clockid_t = 0;
                        let mut ts: libc::timespec = unsafe { std::mem::zeroed() };
                        unsafe {
                            if libc::pthread_getcpuclockid(p, &mut clk) != 0 || libc::clock_gettime(clk, &mut ts) != 0 {
                                continue;
                            }
                        }
                        let now = ts.tv_sec as u64 * 1000 + ts.tv_nsec as u64 / 1_000_000;
                        if slots[t].0.load(Ordering::SeqCst) == c && now.saturating_sub(slots[t].1.load(Ordering::SeqCst)) > 45_000 {
                            *hang.lock().unwrap() = Some(c);
                        }
                    }
                }
                drop(pt);
                if let Some(c) = *hang.lock().unwrap() {
                    // The stuck thread cannot be stopped: report from here and leave.
                    let d = json!({"part": part, "case": c, "signature": "no-termination", "witness": "one case used more than 45 s of CPU time (normally milliseconds)"});
                    if self.cpu_hang_is_violation {
                        self.total.violations.push(("no-termination".into(), d));
                    } else {
                        self.total.harness_errors.push(format!("case {part}/{c} did not finish within 45 s of CPU time"));
                    }
                    let code = self.write();
                    std::process::exit(code);
                }
            }
        });
        let done = done.load(Ordering::SeqCst);
        let m = merged.into_inner().unwrap();
        self.parts.push(json!({"part": part, "cases_planned": n, "cases_run": done, "judged": m.evaluations, "seconds": (t0.elapsed().as_millis() as f64) / 1000.0}));
        self.total.merge(m);
    }

    pub fn single(&mut self, part: &str, f: impl Fn(&mut Rng, &mut Obs) + Sync) {
        self.cases_on(1, part, 1, |_, r, o| f(r, o))
    }

    fn write(&mut self) -> i32 {
        let cfg = &self.cfg;
        let mut known_hit = std::mem::take(&mut self.total.known);
        let mut new: Vec<(String, Value)> = vec![];
        for (sig, d) in std::mem::take(&mut self.total.violations) {
            if cfg.known.iter().any(|k| k.property == cfg.property && k.signature == sig) {
                *known_hit.entry(sig).or_default() += 1;
            } else {
                new.push((sig, d));
            }
        }
        for k in cfg.known.iter().filter(|k| k.property == cfg.property) {
            if known_hit.contains_key(&k.signature) {
                println!("KNOWN-FINDING: property={} {}", cfg.property, k.what);
            }
        }
        let mut seen = HashSet::new();
        let mut files = vec![];
        for (sig, d) in &new {
            if !seen.insert(sig.clone()) || files.len() >= 5 {
                continue;
            }
            let _ = std::fs::create_dir_all(&cfg.replay_dir);
            let clean: String = sig.chars().map(|c| if c.is_ascii_alphanumeric() { c } else { '-' }).take(60).collect();
            let path = cfg.replay_dir.join(format!("{}-{}-s{}-{}.json", cfg.property, cfg.stage, cfg.seed, clean));
            let mut m: Map<String, Value> = d.as_object().cloned().unwrap_or_default();
            m.insert("property".into(), json!(cfg.property));
            m.insert("stage".into(), json!(cfg.stage));
            m.insert("seed".into(), json!(cfg.seed));
            m.insert("tier".into(), json!(cfg.tier));
            m.insert("replay".into(), json!(format!("python3 /verif/run.py {} --replay {}", cfg.property, path.display())));
            let _ = std::fs::write(&path, serde_json::to_string_pretty(&Value::Object(m)).unwrap());
            println!("VIOLATION property={} replay={}", cfg.property, path.display());
            println!("  {} {}", sig, cut(&d.to_string(), 600));
            files.push(path.display().to_string());
        }
        for e in self.total.harness_errors.iter().take(5) {
            eprintln!("HARNESS {e}");
        }
        let o = json!({
            "stage": cfg.stage,
            "evaluations": self.total.evaluations,
            "distinct_nontrivial": self.total.distinct.len(),
            "rule": self.rule.join(" "),
            "samples": self.total.samples,
            "observed": self.total.counters,
            "parts": self.parts,
            "assumptions": self.assumptions,
            "violations": new.len(),
            "violation_files": files,
            "known_findings_hit": known_hit,
            "harness_errors": self.total.harness_errors,
            "seconds": self.started.elapsed().as_secs_f64(),
        });
        if let Err(e) = std::fs::write(&cfg.out, serde_json::to_string_pretty(&o).unwrap()) {
            eprintln!("cannot write {}: {e}", cfg.out.display());
            return 2;
        }
        if !new.is_empty() {
            1
        } else if !self.total.harness_errors.is_empty() {
            3
        } else if self.total.evaluations == 0 {
            eprintln!("nothing was observed");
            3
        } else {
            0
        }
    }

    /// Requires that the run observed at least `min` events called `k`; otherwise it is inconclusive.
    pub fn require(&mut self, k: &str, min: u64) {
        if self.cfg.only_part.is_some() || self.violated() {
            return;
        }
        let min = min / self.cfg.div;
        let v = self.total.counters.get(k).copied().unwrap_or(0);
        if v < min {
            self.total.harness_errors.push(format!("only {v} events '{k}' were observed, at least {min} expected"));
        }
    }

    pub fn finish(mut self) -> ! {
        let c = self.write();
        std::process::exit(c)
    }
}

pub fn cut(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_string()
    } else {
        s.chars().take(n).collect::<String>() + "..."
    }
}
