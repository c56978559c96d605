//! Stateless exploration: depth-first over choice sequences, in order of increasing number of
//! deviations. Every execution runs the real code from scratch with a choice prefix and takes
//! choice 0 at every later point.

use crate::{install, teardown, ChoiceRec, Kind, Rt, RtConfig, LAST_PANIC};
use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

/// Verdict of one execution.
#[derive(Clone, Debug)]
pub struct Violation {
    /// Stable identification of what fails (compared with the known-findings file)
    pub sig: String,
    pub msg: String,
}

pub type Verdict = Result<(), Violation>;

pub fn bad<T>(sig: impl Into<String>, msg: impl Into<String>) -> Result<T, Violation> {
    Err(Violation {
        sig: sig.into(),
        msg: msg.into(),
    })
}

#[derive(Clone, Debug)]
pub struct Config {
    pub rt: RtConfig,
    /// Deviation bound
    pub bound: usize,
    pub threads: usize,
    /// Stop after this many executions (the result is then not exhaustive)
    pub max_exec: u64,
    pub max_time: Duration,
    /// Signatures that do not stop the exploration
    pub known: Vec<String>,
}

impl Default for Config {
    fn default() -> Self {
        Config {
            rt: RtConfig::default(),
            bound: 0,
            threads: 8,
            max_exec: u64::MAX,
            max_time: Duration::from_secs(3600),
            known: Vec::new(),
        }
    }
}

pub struct ExecResult {
    pub choices: Vec<ChoiceRec>,
    pub verdict: Verdict,
    pub log: Vec<String>,
    pub log_hash: u64,
    pub state_hashes: Vec<u64>,
    pub steps: u64,
    pub diverged: Option<String>,
}

/// Run the scenario once.
pub fn run_once(rtcfg: &RtConfig, prefix: Vec<ChoiceRec>, verbose: bool, f: &dyn Fn() -> Verdict) -> ExecResult {
    install(Rt::new(rtcfg.clone(), prefix, verbose));
    let r = catch_unwind(AssertUnwindSafe(f));
    let verdict = match r {
        Ok(v) => v,
        Err(_) => {
            let m = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            bad(format!("driver-panic: {}", m), format!("panic in a direct call: {}", m))
        }
    };
    let rt = teardown();
    let Rt {
        choices,
        log,
        log_hash,
        state_hashes,
        steps,
        diverged,
        ..
    } = *rt;
    ExecResult {
        choices,
        verdict,
        log,
        log_hash,
        state_hashes,
        steps,
        diverged,
    }
}

struct Node {
    trace: Arc<Vec<ChoiceRec>>,
    /// Length of the prefix kept from `trace`, followed by `alt`
    at: u32,
    alt: u16,
}

impl Node {
    fn prefix(&self) -> Vec<ChoiceRec> {
        if self.alt == u16::MAX {
            return Vec::new();
        }
        let mut v = self.trace[..=self.at as usize].to_vec();
        v[self.at as usize].picked = self.alt;
        v
    }
}

#[derive(Clone, Debug, Default)]
pub struct Stats {
    pub executions: u64,
    pub transitions: u64,
    pub states: u64,
    pub distinct_outcomes: u64,
    pub max_choices: usize,
    pub per_bound: Vec<u64>,
    pub exhaustive: bool,
    pub capped: Option<String>,
    pub replays_checked: u64,
    pub samples: Vec<String>,
    pub known_hits: Vec<(String, String, Vec<ChoiceRec>)>,
    pub violation: Option<(Violation, Vec<ChoiceRec>, Vec<String>)>,
    pub engine_error: Option<String>,
    pub wall: f64,
}

struct Shared {
    buckets: Mutex<Buckets>,
    cv: Condvar,
    stop: AtomicBool,
    execs: AtomicU64,
    trans: AtomicU64,
    states: Vec<Mutex<HashSet<u64>>>,
    outcomes: Mutex<HashSet<u64>>,
    maxc: AtomicUsize,
    replays: AtomicU64,
    out: Mutex<Stats>,
}

struct Buckets {
    b: Vec<Vec<Node>>,
    busy: usize,
}

/// Where a worker currently is; read by the watchdog and the abort handler.
pub struct WorkerSlot {
    pub started: Mutex<Option<(Instant, Vec<ChoiceRec>)>>,
}

thread_local! {
    pub static CUR_PREFIX: std::cell::RefCell<Vec<ChoiceRec>> = const { std::cell::RefCell::new(Vec::new()) };
}

/// Called when one execution does not end or aborts the process: (what, prefix).
pub type FatalFn = fn(&str, &[ChoiceRec]);

pub fn explore(
    cfg: &Config,
    fatal: FatalFn,
    hang_secs: u64,
    f: &(dyn Fn() -> Verdict + Sync),
) -> Stats {
    let t0 = Instant::now();
    let root = Node {
        trace: Arc::new(Vec::new()),
        at: 0,
        alt: u16::MAX,
    };
    let mut b: Vec<Vec<Node>> = (0..=cfg.bound).map(|_| Vec::new()).collect();
    b[0].push(root);
    let sh = Shared {
        buckets: Mutex::new(Buckets { b, busy: 0 }),
        cv: Condvar::new(),
        stop: AtomicBool::new(false),
        execs: AtomicU64::new(0),
        trans: AtomicU64::new(0),
        states: (0..64).map(|_| Mutex::new(HashSet::new())).collect(),
        outcomes: Mutex::new(HashSet::new()),
        maxc: AtomicUsize::new(0),
        replays: AtomicU64::new(0),
        out: Mutex::new(Stats {
            per_bound: vec![0; cfg.bound + 1],
            exhaustive: true,
            ..Default::default()
        }),
    };
    let slots: Vec<WorkerSlot> = (0..cfg.threads)
        .map(|_| WorkerSlot {
            started: Mutex::new(None),
        })
        .collect();
    let done = AtomicBool::new(false);
    std::thread::scope(|s| {
        let mut hs = Vec::new();
        for w in 0..cfg.threads {
            let sh = &sh;
            let slot = &slots[w];
            hs.push(s.spawn(move || worker(cfg, sh, slot, t0, f)));
        }
        let done = &done;
        let slots = &slots;
        s.spawn(move || {
            while !done.load(Ordering::Relaxed) {
                std::thread::sleep(Duration::from_millis(20));
                for sl in slots.iter() {
                    let g = sl.started.lock().unwrap();
                    if let Some((t, p)) = &*g {
                        if t.elapsed() > Duration::from_secs(hang_secs) {
                            fatal("hang", p);
                        }
                    }
                }
            }
        });
        let mut err = None;
        for h in hs {
            if h.join().is_err() {
                err = Some("explorer worker panicked".to_string());
            }
        }
        done.store(true, Ordering::Relaxed);
        if err.is_some() {
            sh.out.lock().unwrap().engine_error = err;
        }
    });
    let mut st = sh.out.into_inner().unwrap();
    st.executions = sh.execs.load(Ordering::Relaxed);
    st.transitions = sh.trans.load(Ordering::Relaxed);
    st.states = sh.states.iter().map(|m| m.lock().unwrap().len() as u64).sum();
    st.distinct_outcomes = sh.outcomes.lock().unwrap().len() as u64;
    st.max_choices = sh.maxc.load(Ordering::Relaxed);
    st.replays_checked = sh.replays.load(Ordering::Relaxed);
    if st.capped.is_some() || st.violation.is_some() {
        st.exhaustive = false;
    }
    st.wall = t0.elapsed().as_secs_f64();
    st
}

fn cost(c: &[ChoiceRec]) -> usize {
    c.iter().filter(|c| c.kind == Kind::Dev && c.picked != 0).count()
}

fn worker(cfg: &Config, sh: &Shared, slot: &WorkerSlot, t0: Instant, f: &(dyn Fn() -> Verdict + Sync)) {
    loop {
        if sh.stop.load(Ordering::Relaxed) {
            sh.cv.notify_all();
            return;
        }
        // take from the lowest non-empty bucket
        let (node, level) = {
            let mut b = sh.buckets.lock().unwrap();
            loop {
                if sh.stop.load(Ordering::Relaxed) {
                    sh.cv.notify_all();
                    return;
                }
                let mut found = None;
                for (i, v) in b.b.iter_mut().enumerate() {
                    if let Some(n) = v.pop() {
                        found = Some((n, i));
                        break;
                    }
                }
                if let Some(x) = found {
                    b.busy += 1;
                    break x;
                }
                if b.busy == 0 {
                    sh.cv.notify_all();
                    return;
                }
                b = sh.cv.wait_timeout(b, Duration::from_millis(50)).unwrap().0;
            }
        };
        let prefix = node.prefix();
        let plen = prefix.len();
        CUR_PREFIX.with(|p| *p.borrow_mut() = prefix.clone());
        *slot.started.lock().unwrap() = Some((Instant::now(), prefix.clone()));
        let r = run_once(&cfg.rt, prefix, false, &|| f());
        let n = sh.execs.fetch_add(1, Ordering::Relaxed) + 1;
        sh.trans.fetch_add(r.steps + r.log.len() as u64, Ordering::Relaxed);
        sh.maxc.fetch_max(r.choices.len(), Ordering::Relaxed);
        for h in &r.state_hashes {
            sh.states[(*h & 63) as usize].lock().unwrap().insert(*h);
        }
        sh.outcomes.lock().unwrap().insert(r.log_hash);
        let mut err = r.diverged.clone().map(|d| format!("divergence while replaying a prefix: {}", d));
        // Determinism self-check on the first execution, on a fixed sample and on every violation.
        if err.is_none() && (n == 1 || n % 997 == 0 || r.verdict.is_err()) {
            let r2 = run_once(&cfg.rt, r.choices.clone(), false, &|| f());
            sh.replays.fetch_add(1, Ordering::Relaxed);
            let v1 = r.verdict.as_ref().err().map(|v| v.sig.clone());
            let v2 = r2.verdict.as_ref().err().map(|v| v.sig.clone());
            if r2.log_hash != r.log_hash || r2.choices != r.choices || v1 != v2 {
                err = Some(format!(
                    "replay of one schedule differs: {:?} / {:?}\n--- first\n{}\n--- second\n{}",
                    v1,
                    v2,
                    r.log.join("\n"),
                    r2.log.join("\n")
                ));
            }
        }
        *slot.started.lock().unwrap() = None;
        let trace = Arc::new(r.choices);
        let base = cost(&trace[..plen.min(trace.len())]);
        let mut kids: Vec<(usize, Node)> = Vec::new();
        for i in (plen..trace.len()).rev() {
            let c = trace[i];
            let k = base + if c.kind == Kind::Dev { 1 } else { 0 };
            if k > cfg.bound {
                continue;
            }
            for alt in (1..c.n).rev() {
                kids.push((
                    k,
                    Node {
                        trace: trace.clone(),
                        at: i as u32,
                        alt,
                    },
                ));
            }
        }
        {
            let mut o = sh.out.lock().unwrap();
            o.per_bound[level] += 1;
            if o.samples.len() < 3 && (n == 1 || n % 101 == 7) {
                o.samples.push(r.log.join(" | "));
            }
            if let Some(e) = err {
                o.engine_error.get_or_insert(e);
                sh.stop.store(true, Ordering::Relaxed);
            } else if let Err(v) = r.verdict {
                if cfg.known.contains(&v.sig) {
                    if !o.known_hits.iter().any(|k| k.0 == v.sig) {
                        o.known_hits.push((v.sig, v.msg, trace.to_vec()));
                    }
                } else {
                    let better = match &o.violation {
                        None => true,
                        Some((_, c, _)) => (cost(&trace), trace.len()) < (cost(c), c.len()),
                    };
                    if better {
                        o.violation = Some((v, trace.to_vec(), r.log));
                    }
                    sh.stop.store(true, Ordering::Relaxed);
                }
            }
            if n >= cfg.max_exec && o.capped.is_none() {
                o.capped = Some(format!("stopped after {} executions", n));
                sh.stop.store(true, Ordering::Relaxed);
            }
            if t0.elapsed() > cfg.max_time && o.capped.is_none() {
                o.capped = Some(format!("stopped after {:?}", cfg.max_time));
                sh.stop.store(true, Ordering::Relaxed);
            }
        }
        {
            let mut b = sh.buckets.lock().unwrap();
            for (k, n) in kids {
                b.b[k].push(n);
            }
            b.busy -= 1;
        }
        sh.cv.notify_all();
    }
}
