//! Verdicts and evidence.
use serde_json::{Value, json};
use std::collections::{BTreeMap, HashSet};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Clone, Debug)]
pub struct Violation {
    /// The properties this observation refutes.
    pub props: Vec<&'static str>,
    /// What was observed.
    pub msg: String,
    /// Workload and case seed, enough to replay it.
    pub replay: Value,
}

/// Everything one workload (or one thread of it) observed.
#[derive(Default, Debug)]
pub struct Obs {
    pub evaluations: u64,
    /// Signatures of distinct non-trivial cases.
    pub distinct: HashSet<u64>,
    pub counters: BTreeMap<String, u64>,
    pub samples: Vec<Value>,
    pub violations: Vec<Violation>,
    pub errors: Vec<String>,
}

impl Obs {
    pub fn count(&mut self, k: &str, n: u64) {
        *self.counters.entry(k.to_owned()).or_default() += n;
    }
    pub fn max(&mut self, k: &str, n: u64) {
        let e = self.counters.entry(k.to_owned()).or_default();
        *e = (*e).max(n);
    }
    pub fn violate(&mut self, props: &[&'static str], msg: impl Into<String>, replay: Value) {
        if self.violations.len() < 200 {
            self.violations.push(Violation { props: props.to_vec(), msg: msg.into(), replay });
        }
    }
    pub fn sample(&mut self, v: Value) {
        if self.samples.len() < 3 {
            self.samples.push(v);
        }
    }
    pub fn merge(&mut self, o: Obs) {
        self.evaluations += o.evaluations;
        self.distinct.extend(o.distinct);
        for (k, v) in o.counters {
            if k.starts_with("max_") {
                self.max(&k, v);
            } else {
                self.count(&k, v);
            }
        }
        for s in o.samples {
            self.sample(s);
        }
        self.violations.extend(o.violations);
        self.errors.extend(o.errors);
    }
}

pub struct Ctx {
    pub prop: &'static str,
    pub tier: Tier,
    pub seed: u64,
    pub start: Instant,
    pub obs: Obs,
    pub rules: Vec<String>,
}

impl Ctx {
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
    /// Number of cases for the tier.
    pub fn n(&self, quick: u64, thorough: u64) -> u64 {
        if self.thorough() { thorough } else { quick }
    }
    /// Did the run already refute the property under check?
    pub fn refuted(&self) -> bool {
        self.obs.violations.iter().any(|v| v.props.contains(&self.prop))
    }
    pub fn rule(&mut self, r: &str) {
        if !self.rules.iter().any(|x| x == r) {
            self.rules.push(r.to_owned());
        }
    }
    /// Replay of a single case: `Some(Some(seed))` for the workload it belongs to.
    fn only(&self, name: &str) -> Option<Option<u64>> {
        let only = std::env::var("MON_ONLY").ok()?;
        let (w, s) = only.split_once('=')?;
        let w = w.rsplit(':').next().unwrap();
        Some((w == name).then(|| s.parse().expect("case seed")))
    }
    /// For everything together: the quick tier has to come to an end.
    fn budget(&self) -> Option<Duration> {
        (self.tier == Tier::Quick).then_some(Duration::from_secs(480))
    }
    /// Runs `n` seeded cases of `f` on all cores. Stops early when the property is refuted or the
    /// (generous) real-time cap is reached; the evidence then shows fewer evaluations.
    pub fn par_cases(&mut self, name: &str, n: u64, cap: Duration, f: impl Fn(u64, &mut Obs) + Sync) {
        if self.refuted() || std::env::var("MON_WORKLOAD").is_ok_and(|w| w != name) {
            return;
        }
        if let Some(seed) = self.only(name) {
            if let Some(seed) = seed {
                let mut obs = Obs::default();
                f(seed, &mut obs);
                self.obs.merge(obs);
            }
            return;
        }
        let threads = 8.min(n.max(1));
        let dog = Watchdog::new(self, name);
        let next = std::sync::atomic::AtomicU64::new(0);
        let stop = std::sync::atomic::AtomicBool::new(false);
        let base = crate::rng::hash_of((self.seed, name));
        let prop = self.prop;
        let (begin, budget) = (self.start, self.budget());
        let start = Instant::now();
        use std::sync::atomic::Ordering::Relaxed;
        let results: Vec<Obs> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..threads)
                .map(|_| {
                    s.spawn(|| {
                        let mut obs = Obs::default();
                        loop {
                            let i = next.fetch_add(1, Relaxed);
                            if i >= n || stop.load(Relaxed) || start.elapsed() > cap || budget.is_some_and(|b| begin.elapsed() > b) {
                                break;
                            }
                            let seed = base.wrapping_add(i.wrapping_mul(0x9E37_79B9_7F4A_7C15));
                            let g = dog.enter(seed);
                            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(seed, &mut obs)));
                            drop(g);
                            if let Err(p) = r {
                                on_panic(prop, name, seed, &p, &mut obs);
                                stop.store(true, Relaxed);
                            }
                            if obs.violations.iter().any(|v| v.props.contains(&prop)) {
                                stop.store(true, Relaxed);
                            }
                        }
                        obs
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().expect("worker")).collect()
        });
        drop(dog);
        let mut n_eval = 0;
        for r in results {
            n_eval += r.evaluations;
            self.obs.merge(r);
        }
        self.obs.count(&format!("workload_{name}_cases"), n_eval);
    }
    /// One sequential workload (real threads inside).
    pub fn seq_cases(&mut self, name: &str, n: u64, cap: Duration, f: impl Fn(u64, &mut Obs)) {
        if let Some(seed) = self.only(name) {
            if let Some(seed) = seed {
                let mut obs = Obs::default();
                f(seed, &mut obs);
                self.obs.merge(obs);
            }
            return;
        }
        let start = Instant::now();
        let base = crate::rng::hash_of((self.seed, name));
        let before = self.obs.evaluations;
        let dog = Watchdog::new(self, name);
        for i in 0..n {
            if self.refuted() || start.elapsed() > cap || self.budget().is_some_and(|b| self.start.elapsed() > b) {
                break;
            }
            let seed = base.wrapping_add(i.wrapping_mul(0x9E37_79B9_7F4A_7C15));
            let mut obs = Obs::default();
            let g = dog.enter(seed);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(seed, &mut obs)));
            drop(g);
            if let Err(p) = r {
                on_panic(self.prop, name, seed, &p, &mut obs);
            }
            // a stall costs minutes and will be met again
            let bad = !obs.errors.is_empty() || obs.counters.contains_key("stalled");
            self.obs.merge(obs);
            if bad {
                break;
            }
        }
        let d = self.obs.evaluations - before;
        self.obs.count(&format!("workload_{name}_cases"), d);
    }
}

/// A case normally takes milliseconds; one that is still running after this long hangs.
const HANG: Duration = Duration::from_secs(150);

/// Watches the running cases; when one hangs, reports that and ends the process (the hanging
/// thread cannot be stopped).
struct Watchdog {
    running: std::sync::Arc<std::sync::Mutex<BTreeMap<u64, Instant>>>,
    over: std::sync::Arc<std::sync::atomic::AtomicBool>,
}

struct Guard<'a>(&'a Watchdog, u64);

impl Watchdog {
    fn new(ctx: &Ctx, name: &str) -> Self {
        let w = Watchdog { running: Default::default(), over: Default::default() };
        let (running, over) = (w.running.clone(), w.over.clone());
        let mut copy = Ctx { prop: ctx.prop, tier: ctx.tier, seed: ctx.seed, start: ctx.start, obs: Obs::default(), rules: ctx.rules.clone() };
        let name = name.to_owned();
        std::thread::spawn(move || {
            loop {
                std::thread::sleep(Duration::from_millis(500));
                if over.load(std::sync::atomic::Ordering::SeqCst) {
                    return;
                }
                let hung = running.lock().unwrap().iter().find(|x| x.1.elapsed() > HANG).map(|x| *x.0);
                if let Some(seed) = hung {
                    copy.obs.evaluations = 1;
                    let prop = copy.prop;
                    copy.obs.violate(&[prop], format!("the code under test does not come to an end: case {seed} of {name} still runs after {HANG:?} (normally milliseconds)"),
                        json!({"workload": name, "case_seed": seed}));
                    let verif = std::path::PathBuf::from(std::env::var("MON_VERIF").unwrap_or_else(|_| "/verif".into()));
                    std::process::exit(finish(copy, &verif, 0));
                }
            }
        });
        w
    }
    fn enter(&self, seed: u64) -> Guard<'_> {
        self.running.lock().unwrap().insert(seed, Instant::now());
        Guard(self, seed)
    }
}

impl Drop for Guard<'_> {
    fn drop(&mut self) {
        self.0.running.lock().unwrap().remove(&self.1);
    }
}

impl Drop for Watchdog {
    fn drop(&mut self) {
        self.over.store(true, std::sync::atomic::Ordering::SeqCst);
    }
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

/// Silences panics (many are scripted) and remembers where the last one of each thread came from.
pub fn install_panic_hook() {
    let verbose = std::env::var_os("MON_PANICS").is_some();
    std::panic::set_hook(Box::new(move |info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if verbose {
            eprintln!("panic at {loc}: {info}");
        }
        let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = loc);
    }));
}

/// A panic that reached the workload: inside the code under test it is an observation (an
/// operation panicked instead of returning), anywhere else an error of the harness.
fn on_panic(prop: &'static str, name: &str, seed: u64, p: &Box<dyn std::any::Any + Send>, obs: &mut Obs) {
    let loc = LAST_PANIC.with(|p| p.borrow().clone());
    let msg = panic_msg(p);
    if loc.contains("/repo/") {
        obs.violate(&[prop], format!("panic in the code under test at {loc}: {msg}"),
            json!({"workload": name, "case_seed": seed}));
    } else if loc.starts_with("src/") {
        // an expectation of the workload itself about what the code under test returns
        obs.violate(&[prop], format!("assertion of the workload failed at {loc}: {msg}"),
            json!({"workload": name, "case_seed": seed}));
    } else {
        obs.errors.push(format!("{name} seed {seed}: harness panic at {loc}: {msg}"));
    }
}

pub fn panic_msg(p: &Box<dyn std::any::Any + Send>) -> String {
    p.downcast_ref::<&str>()
        .map(|s| s.to_string())
        .or_else(|| p.downcast_ref::<String>().cloned())
        .unwrap_or_else(|| "?".into())
}

/// Writes the evidence, prints the verdict and returns the exit code.
pub fn finish(ctx: Ctx, verif: &std::path::Path, min_eval: u64) -> i32 {
    let prop = ctx.prop;
    let mine: Vec<&Violation> = ctx.obs.violations.iter().filter(|v| v.props.contains(&prop)).collect();
    let ev = verif.join("evidence");
    let _ = std::fs::create_dir_all(&ev);
    let mut cov = json!({
        "evaluations": ctx.obs.evaluations,
        "distinct_nontrivial": ctx.obs.distinct.len(),
        "rule": ctx.rules.join(" "),
        "samples": ctx.obs.samples,
        "observed": ctx.obs.counters,
    });
    if !ctx.obs.errors.is_empty() {
        cov["harness_errors"] = json!(ctx.obs.errors);
    }
    let other = ctx.obs.violations.len() - mine.len();
    if other > 0 {
        cov["observations_refuting_other_properties"] = json!(
            ctx.obs.violations.iter().filter(|v| !v.props.contains(&prop)).take(5)
                .map(|v| json!({"props": v.props, "what": v.msg})).collect::<Vec<_>>());
    }
    let doc = json!({
        "property": prop,
        "tier": if ctx.tier == Tier::Quick { "quick" } else { "thorough" },
        "seed": ctx.seed,
        "level": "exploration",
        "coverage": cov,
        "assumptions": [
            "Held on the executions listed, nothing more.",
            "Observed at the public API of the crates built from /repo's working tree; no hooks."
        ],
        "wall_s": ctx.start.elapsed().as_secs_f64(),
        "violations": mine.len(),
    });
    let path = ev.join(format!("{prop}.json"));
    let _ = std::fs::remove_file(ev.join(format!("{prop}.replay.json")));
    if let Err(e) = std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap()) {
        eprintln!("cannot write {}: {e}", path.display());
        return 3;
    }
    if let Some(v) = mine.first() {
        let rp = ev.join(format!("{prop}.replay.json"));
        let all: Vec<_> = mine.iter().take(20).map(|v| json!({"what": v.msg, "replay": v.replay, "props": v.props})).collect();
        let _ = std::fs::write(&rp, serde_json::to_string_pretty(&json!({"property": prop, "seed": ctx.seed, "violations": all})).unwrap());
        println!("{}: {}", prop, v.msg);
        println!("VIOLATION property={prop} replay={}", rp.display());
        return 1;
    }
    if !ctx.obs.errors.is_empty() {
        for e in &ctx.obs.errors {
            eprintln!("harness error: {e}");
        }
        return 3;
    }
    if ctx.obs.evaluations < min_eval {
        eprintln!("inconclusive: only {} evaluations (at least {min_eval} needed)", ctx.obs.evaluations);
        return 4;
    }
    println!(
        "{prop}: held on {} evaluations ({} distinct non-trivial), {:.1} s",
        ctx.obs.evaluations,
        ctx.obs.distinct.len(),
        ctx.start.elapsed().as_secs_f64()
    );
    0
}
