//! Runner: proptest drives each sub-check over choice sequences on all cores, shrinks failures,
//! writes the replay file and the evidence.

use crate::src::{mix, Src};
use proptest::prelude::*;
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub type Case = fn(&mut Src, &mut Ctx) -> Result<(), String>;

pub struct Sub {
    pub name: &'static str,
    pub f: Case,
    /// number of generated cases per tier
    pub quick: usize,
    pub thorough: usize,
    /// maximal length of the choice sequence
    pub len: usize,
    /// choice-sequence prefixes that are run in addition (systematic corner cases)
    pub fixed: Vec<Vec<u64>>,
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub subs: Vec<Sub>,
}

#[derive(Default)]
pub struct Ctx {
    pub desc: Option<String>,
    pub nontrivial: bool,
    pub classes: Vec<String>,
    pub evals: usize,
}

impl Ctx {
    /// Describe the case; the description identifies it when counting distinct cases.
    pub fn case(&mut self, nontrivial: bool, desc: String) {
        self.desc = Some(desc);
        self.nontrivial = nontrivial;
    }
    pub fn class<S: Into<String>>(&mut self, c: S) {
        self.classes.push(c.into());
    }
}

thread_local! {
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{} at {}", msg, loc));
    }));
}

/// Run code under test; a panic becomes Err(description).
pub fn no_panic<T, F: FnOnce() -> T>(f: F) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(LAST_PANIC.with(|p| format!("panic: {}", p.borrow()))),
    }
}

#[derive(Default)]
struct Stats {
    evaluations: usize,
    nontrivial: usize,
    distinct: HashSet<u64>,
    samples: Vec<String>,
    classes: BTreeMap<String, usize>,
}

pub struct Failure {
    pub sub: &'static str,
    pub choices: Vec<u64>,
    pub reason: String,
}

fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    mix(h)
}

fn run_case(f: Case, choices: &[u64], ctx: &mut Ctx) -> Result<(), String> {
    let mut src = Src::new(choices);
    match no_panic(|| f(&mut src, ctx)) {
        Ok(r) => r,
        Err(p) => Err(p),
    }
}

pub struct RunResult {
    pub failure: Option<Failure>,
    pub evidence: serde_json::Value,
}

struct Watch {
    slots: Mutex<Vec<Option<(String, Duration, usize, Vec<u64>)>>>,
}

/// More than any case needs
const MEMORY_MB: u64 = 8192;

/// Memory this process holds
fn resident_mb() -> u64 {
    let s = std::fs::read_to_string("/proc/self/statm").unwrap_or_default();
    let pages: u64 = s.split_whitespace().nth(1).and_then(|x| x.parse().ok()).unwrap_or(0);
    pages * 4096 >> 20
}

/// Processor time used by a thread of this process so far; independent of the load of the machine
fn cpu_time(task: &str) -> Duration {
    let stat = std::fs::read_to_string(format!("/proc/self/task/{}/stat", task)).unwrap_or_default();
    let f: Vec<&str> = stat.rsplit(')').next().unwrap_or("").split_whitespace().collect();
    let ticks: u64 = [11, 12].iter().filter_map(|i| f.get(*i)).filter_map(|x| x.parse::<u64>().ok()).sum();
    Duration::from_millis(ticks * 10)
}

fn task_id() -> String {
    std::fs::read_link("/proc/thread-self")
        .ok()
        .and_then(|p| p.file_name().map(|x| x.to_string_lossy().into_owned()))
        .unwrap_or_default()
}

pub fn run_prop(
    prop: &Prop,
    tier: &str,
    seed: u64,
    scale: f64,
    case_limit: Duration,
    on_hang: Box<dyn Fn(Failure) + Send + Sync>,
) -> RunResult {
    let start = Instant::now();
    let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8);
    let stats = Arc::new(Mutex::new(Stats::default()));
    let failure: Arc<Mutex<Option<Failure>>> = Arc::new(Mutex::new(None));
    let stop = Arc::new(AtomicBool::new(false));
    let watch = Arc::new(Watch {
        slots: Mutex::new(vec![None; threads]),
    });

    // Work list: (sub index, kind) in chunks so that all threads stay busy.
    struct Job {
        sub: usize,
        fixed: Option<usize>,
        cases: u32,
        seed: u64,
    }
    let mut jobs = vec![];
    for (si, s) in prop.subs.iter().enumerate() {
        for k in 0..s.fixed.len() {
            jobs.push(Job {
                sub: si,
                fixed: Some(k),
                cases: 1,
                seed: 0,
            });
        }
        let total = if tier == "thorough" { s.thorough } else { s.quick };
        let total = if total == 0 {
            0
        } else {
            ((total as f64 * scale).ceil() as usize).max(1)
        };
        // at most 64 chunks per sub-check
        let chunk = ((total + 63) / 64).max(1);
        let mut left = total;
        let mut c = 0u64;
        while left > 0 {
            let k = chunk.min(left);
            left -= k;
            jobs.push(Job {
                sub: si,
                fixed: None,
                cases: k as u32,
                seed: mix(seed ^ mix(hash_str(prop.id) ^ mix(hash_str(s.name) ^ mix(c)))),
            });
            c += 1;
        }
    }
    // interleave the sub-checks so that a failure in any of them shows early
    let njobs = jobs.len();
    let mut order: Vec<usize> = (0..njobs).collect();
    order.sort_by_key(|i| mix(*i as u64 ^ 0x5555));
    let jobs = Arc::new(jobs);
    let order = Arc::new(order);
    let next = Arc::new(AtomicUsize::new(0));
    let subs: Arc<Vec<(&'static str, Case, usize, Vec<Vec<u64>>)>> = Arc::new(
        prop.subs
            .iter()
            .map(|s| (s.name, s.f, s.len, s.fixed.clone()))
            .collect(),
    );

    // Watchdog: a case that does not come to an end is a failure of its own.
    let done = Arc::new(AtomicBool::new(false));
    {
        let (watch, done, subs) = (watch.clone(), done.clone(), subs.clone());
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            if done.load(Ordering::SeqCst) {
                return;
            }
            let slots = watch.slots.lock().unwrap();
            if resident_mb() > MEMORY_MB {
                // the case that has been running longest
                let worst = slots.iter().flatten().max_by_key(|(task, t, _, _)| {
                    cpu_time(task).checked_sub(*t).unwrap_or_default()
                });
                if let Some((_, _, si, ch)) = worst {
                    on_hang(Failure {
                        sub: subs[*si].0,
                        choices: ch.clone(),
                        reason: format!("the cases being run hold more than {} MB (ordinarily less than 300)", MEMORY_MB),
                    });
                }
            }
            for s in slots.iter() {
                if let Some((task, t, si, ch)) = s {
                    if cpu_time(task) > *t + case_limit {
                        on_hang(Failure {
                            sub: subs[*si].0,
                            choices: ch.clone(),
                            reason: format!("case did not come to an end within {:?} of processor time (ordinary cases take less than 2 s)", case_limit),
                        });
                    }
                }
            }
        });
    }

    let mut handles = vec![];
    for t in 0..threads {
        let (stats, failure, stop, watch, jobs, order, next, subs) = (
            stats.clone(),
            failure.clone(),
            stop.clone(),
            watch.clone(),
            jobs.clone(),
            order.clone(),
            next.clone(),
            subs.clone(),
        );
        handles.push(
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || loop {
                    if stop.load(Ordering::SeqCst) {
                        return;
                    }
                    let k = next.fetch_add(1, Ordering::SeqCst);
                    if k >= order.len() {
                        return;
                    }
                    let job = &jobs[order[k]];
                    let (name, f, len, fixed) = &subs[job.sub];
                    let failed = std::cell::Cell::new(false);
                    let task = task_id();
                    let shrink_secs: u64 =
                        std::env::var("VERIF_SHRINK").ok().and_then(|s| s.parse().ok()).unwrap_or(30);
                    let shrink_start = std::cell::Cell::new(Instant::now());
                    let eval = |choices: &Vec<u64>| -> Result<(), String> {
                        // another thread already has a failure: do not spend time here
                        if stop.load(Ordering::SeqCst) && !failed.get() {
                            return Ok(());
                        }
                        if failed.get() && shrink_start.get().elapsed() > Duration::from_secs(shrink_secs) {
                            return Ok(()); // end of the shrinking budget
                        }
                        watch.slots.lock().unwrap()[t] =
                            Some((task.clone(), cpu_time(&task), job.sub, choices.clone()));
                        let mut ctx = Ctx::default();
                        let r = run_case(*f, choices, &mut ctx);
                        watch.slots.lock().unwrap()[t] = None;
                        if !failed.get() {
                            let mut st = stats.lock().unwrap();
                            st.evaluations += 1 + ctx.evals;
                            for c in ctx.classes.iter() {
                                *st.classes.entry(format!("{}/{}", name, c)).or_insert(0) += 1;
                            }
                            if ctx.nontrivial {
                                st.nontrivial += 1;
                                let d = format!("{}: {}", name, ctx.desc.unwrap_or_default());
                                if st.distinct.insert(hash_str(&d)) {
                                    let c = st.samples.iter().filter(|x| x.starts_with(name)).count();
                                    if c < 3 && st.samples.len() < 40 {
                                        st.samples.push(d);
                                    }
                                }
                            }
                        }
                        if r.is_err() && !failed.get() {
                            failed.set(true);
                            shrink_start.set(Instant::now());
                            stop.store(true, Ordering::SeqCst);
                        }
                        r
                    };
                    let res: Result<(), (String, Vec<u64>)> = if let Some(i) = job.fixed {
                        let c = fixed[i].clone();
                        eval(&c).map_err(|e| (e, c))
                    } else {
                        let mut seed_bytes = [0u8; 32];
                        let mut s = job.seed;
                        for c in seed_bytes.chunks_mut(8) {
                            s = mix(s);
                            c.copy_from_slice(&s.to_le_bytes());
                        }
                        let cfg = Config {
                            cases: job.cases,
                            failure_persistence: None,
                            max_shrink_iters: 100000,
                            max_shrink_time: shrink_secs as u32 * 1000,
                            result_cache: proptest::test_runner::noop_result_cache,
                            source_file: None,
                            ..Config::default()
                        };
                        let mut runner = TestRunner::new_with_rng(
                            cfg,
                            TestRng::from_seed(RngAlgorithm::ChaCha, &seed_bytes),
                        );
                        let strat = proptest::collection::vec(any::<u64>(), *len..=*len);
                        match runner.run(&strat, |v| {
                            eval(&v).map_err(|e| TestCaseError::fail(e))
                        }) {
                            Ok(()) => Ok(()),
                            Err(TestError::Fail(r, v)) => Err((r.message().to_string(), v)),
                            Err(TestError::Abort(r)) => Err((format!("abort: {}", r.message()), vec![])),
                        }
                    };
                    if let Err((reason, mut choices)) = res {
                        while choices.last() == Some(&0) {
                            choices.pop();
                        }
                        stop.store(true, Ordering::SeqCst);
                        let mut fl = failure.lock().unwrap();
                        if fl.is_none() {
                            *fl = Some(Failure {
                                sub: name,
                                choices,
                                reason,
                            });
                        }
                        return;
                    }
                })
                .unwrap(),
        );
    }
    for h in handles {
        let _ = h.join();
    }
    done.store(true, Ordering::SeqCst);

    let st = stats.lock().unwrap();
    let failure = failure.lock().unwrap().take();
    let evidence = serde_json::json!({
        "property": prop.id,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": st.evaluations,
            "distinct_nontrivial": st.distinct.len(),
            "rule": prop.rule,
            "samples": st.samples,
            "classes": st.classes,
            "subchecks": prop.subs.iter().map(|s| s.name).collect::<Vec<_>>(),
        },
        "wall_s": start.elapsed().as_secs_f64(),
        "violations": if failure.is_some() { 1 } else { 0 },
    });
    RunResult { failure, evidence }
}

pub fn replay(prop: &Prop, sub: &str, choices: &[u64]) -> Result<(), String> {
    for s in prop.subs.iter() {
        if s.name == sub {
            // internal randomness of the code under test is not replayable: try a few times
            for _ in 0..5 {
                let mut ctx = Ctx::default();
                run_case(s.f, choices, &mut ctx)?;
            }
            return Ok(());
        }
    }
    Err(format!("unknown sub-check {}", sub))
}
