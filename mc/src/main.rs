//! Model checker for lxi-rs: exhaustive bounded exploration of the real code.
mod common;
mod dev;
mod hs;
mod props;
mod vx;

use common::*;
use mcrt::explore::*;
use mcrt::{ChoiceRec, Kind};
use std::io::Write;
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

struct Cur {
    property: String,
    scenario: String,
}
static CUR: Mutex<Option<Cur>> = Mutex::new(None);
static FATAL: AtomicBool = AtomicBool::new(false);

fn verif_dir() -> PathBuf {
    std::env::var_os("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("/verif"))
}

fn write_replay(prop: &str, scen: &str, tag: &str, choices: &[ChoiceRec], text: &str) -> PathBuf {
    let dir = verif_dir().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let safe: String = scen.chars().map(|c| if c.is_ascii_alphanumeric() { c } else { '-' }).collect();
    let p = dir.join(format!("{}-{}-{}.json", prop, safe, tag));
    let v = serde_json::json!({
        "property": prop,
        "scenario": scen,
        "tier": tier(),
        "choices": choices.iter().map(|c| serde_json::json!([c.picked, c.n, if c.kind == Kind::Free {0} else {1}, c.tag])).collect::<Vec<_>>(),
        "trace": text.lines().collect::<Vec<_>>(),
    });
    let _ = std::fs::write(&p, serde_json::to_string_pretty(&v).unwrap());
    p
}

/// An execution that never ends, or that aborts the process, is itself a violation.
fn fatal(what: &str, prefix: &[ChoiceRec]) {
    if FATAL.swap(true, Ordering::SeqCst) {
        std::thread::sleep(Duration::from_secs(60));
        return;
    }
    let (p, s) = match CUR.try_lock() {
        Ok(g) => g.as_ref().map(|c| (c.property.clone(), c.scenario.clone())).unwrap_or_default(),
        Err(_) => (String::from("?"), String::from("?")),
    };
    let f = write_replay(&p, &s, what, prefix, what);
    println!("{}: scenario {}: the code under test {}", p, s, match what {
        "hang" => "never returned from one step (endless loop)",
        _ => "aborted the process (e.g. out of memory)",
    });
    println!("VIOLATION property={} replay={}", p, f.display());
    let _ = std::io::stdout().flush();
    unsafe { _exit(1) }
}

extern "C" {
    fn signal(sig: i32, handler: usize) -> usize;
    fn _exit(code: i32) -> !;
}

extern "C" fn on_abort(_sig: i32) {
    let p = CUR_PREFIX.try_with(|p| p.try_borrow().map(|p| p.clone()).unwrap_or_default()).unwrap_or_default();
    fatal("abort", &p);
    unsafe { _exit(1) }
}

fn load_known(prop: &str) -> Vec<(String, String)> {
    let p = verif_dir().join("known_findings.txt");
    let mut v = Vec::new();
    if let Ok(s) = std::fs::read_to_string(p) {
        for l in s.lines() {
            // known: property=C01 sig=<signature> :: <what fails>
            let Some(r) = l.strip_prefix("known: property=") else { continue };
            let Some((id, r)) = r.split_once(' ') else { continue };
            if id != prop {
                continue;
            }
            let Some(r) = r.strip_prefix("sig=") else { continue };
            let (sig, what) = r.split_once(" :: ").unwrap_or((r, ""));
            v.push((sig.to_string(), what.to_string()));
        }
    }
    v
}

fn config_for(s: &Scenario, known: &[(String, String)]) -> Config {
    Config {
        rt: s.rt.clone(),
        bound: s.bound,
        threads: std::env::var("MC_THREADS").ok().and_then(|v| v.parse().ok()).unwrap_or(8),
        max_exec: s.max_exec,
        max_time: s.max_time,
        known: known.iter().map(|k| k.0.clone()).collect(),
    }
}

fn check(prop: &str) -> i32 {
    let t0 = Instant::now();
    let Some(scens) = props::scenarios(prop) else {
        eprintln!("unknown property {}", prop);
        return 3;
    };
    let known = load_known(prop);
    let only = std::env::var("MC_ONLY").ok();
    let mut all = serde_json::Map::new();
    let (mut execs, mut trans, mut states, mut outcomes, mut replays) = (0u64, 0u64, 0u64, 0u64, 0u64);
    let mut exhaustive = true;
    let mut samples: Vec<serde_json::Value> = Vec::new();
    let mut known_hit: Vec<String> = Vec::new();
    let mut violation = None;
    let mut per_scen = Vec::new();
    for s in &scens {
        if let Some(o) = &only {
            if !s.name.contains(o.as_str()) {
                continue;
            }
        }
        *CUR.lock().unwrap() = Some(Cur {
            property: prop.into(),
            scenario: s.name.clone(),
        });
        let cfg = config_for(s, &known);
        let st = explore(&cfg, fatal, 60, &*s.f);
        println!(
            "{} {}: executions={} per-deviation={:?} transitions={} states={} outcomes={} max-choices={} replayed={} {}{:.1}s",
            prop, s.name, st.executions, st.per_bound, st.transitions, st.states, st.distinct_outcomes, st.max_choices, st.replays_checked,
            st.capped.as_ref().map(|c| format!("CAPPED ({}) ", c)).unwrap_or_default(),
            st.wall
        );
        if let Some(e) = st.engine_error {
            eprintln!("ENGINE ERROR in {}: {}", s.name, e);
            return 2;
        }
        execs += st.executions;
        trans += st.transitions;
        states += st.states;
        outcomes += st.distinct_outcomes;
        replays += st.replays_checked;
        if !st.exhaustive && st.violation.is_none() {
            exhaustive = false;
        }
        for x in st.samples.iter().take(1) {
            if samples.len() < 12 {
                let mut x = x.clone();
                if x.len() > 1500 {
                    let mut n = 1500;
                    while !x.is_char_boundary(n) {
                        n -= 1;
                    }
                    x.truncate(n);
                }
                samples.push(serde_json::json!({"scenario": s.name, "trace": x}));
            }
        }
        per_scen.push(serde_json::json!({
            "scenario": s.name, "what": s.what, "executions": st.executions, "executions_per_deviation_count": st.per_bound,
            "deviation_bound": s.bound, "transitions": st.transitions, "states": st.states, "distinct_outcomes": st.distinct_outcomes,
            "max_choice_points": st.max_choices, "exhaustive": st.exhaustive, "capped": st.capped, "replays_checked": st.replays_checked, "wall_s": st.wall,
        }));
        for (sig, msg, ch) in &st.known_hits {
            if !known_hit.contains(sig) {
                known_hit.push(sig.clone());
                let f = write_replay(prop, &s.name, "known", ch, msg);
                println!("  known finding reproduced: {} ({})", sig, f.display());
            }
        }
        if let Some((v, ch, log)) = st.violation {
            violation = Some((s.name.clone(), v, ch, log));
            break;
        }
    }
    for (sig, what) in &known {
        println!("KNOWN-FINDING: property={} {} [{}]{}", prop, what, sig, if known_hit.contains(sig) { "" } else { " (not reproduced in this run)" });
    }
    all.insert("states".into(), states.into());
    all.insert("transitions".into(), trans.into());
    all.insert("traces_validated_against_impl".into(), execs.into());
    all.insert("executions".into(), execs.into());
    all.insert("distinct_outcomes".into(), outcomes.into());
    all.insert("schedules_replayed_for_determinism".into(), replays.into());
    all.insert("exhaustive".into(), (exhaustive && violation.is_none()).into());
    all.insert("samples".into(), samples.into());
    all.insert("scenarios".into(), per_scen.into());
    all.insert(
        "rule".into(),
        "every execution runs the real code from its initial state under the controlled runtime; states = distinct observable histories (prefix closed), transitions = scheduler steps, I/O operations and observable events executed".into(),
    );
    let ev = serde_json::json!({
        "property": prop,
        "tier": tier(),
        "seed": std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(1),
        "level": "model_checking",
        "coverage": all,
        "assumptions": [
            "tasks interleave at await points, spin-lock and async-mutex operations; code between two such points is atomic",
            "network, timers, task spawning and select! order are simulated (patched async-std, futures-util, spin); the code of /repo is unmodified",
            "exhaustive within the listed alphabets, depths and deviation bounds only"
        ],
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": violation.is_some() as i32,
    });
    if only.is_none() {
        let dir = verif_dir().join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        if let Err(e) = std::fs::write(dir.join(format!("{}.json", prop)), serde_json::to_string_pretty(&ev).unwrap()) {
            eprintln!("cannot write evidence: {}", e);
            return 2;
        }
    }
    if let Some((scen, v, ch, log)) = violation {
        let text = format!("{}\nsignature: {}\n{}", v.msg, v.sig, log.join("\n"));
        let f = write_replay(prop, &scen, "violation", &ch, &text);
        println!("{} {}: {}", prop, scen, v.msg);
        println!("  signature: {}", v.sig);
        for l in log.iter().take(120) {
            println!("    {}", l);
        }
        println!("VIOLATION property={} replay={}", prop, f.display());
        return 1;
    }
    println!("{}: held on {} executions ({} states, {} transitions), {:.1}s", prop, execs, states, trans, t0.elapsed().as_secs_f64());
    0
}

fn replay(file: &str) -> i32 {
    let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(file).expect("replay file")).expect("json");
    let prop = v["property"].as_str().unwrap();
    let scen = v["scenario"].as_str().unwrap();
    std::env::set_var("VERIF_TIER", v["tier"].as_str().unwrap_or("quick"));
    let choices: Vec<ChoiceRec> = v["choices"]
        .as_array()
        .unwrap()
        .iter()
        .map(|c| ChoiceRec {
            picked: c[0].as_u64().unwrap() as u16,
            n: c[1].as_u64().unwrap() as u16,
            kind: if c[2].as_u64() == Some(0) { Kind::Free } else { Kind::Dev },
            tag: c[3].as_u64().unwrap() as u32,
        })
        .collect();
    let scens = props::scenarios(prop).expect("property");
    let s = scens.iter().find(|s| s.name == scen).expect("scenario");
    let r = run_once(&s.rt, choices, true, &*s.f);
    for l in &r.log {
        println!("{}", l);
    }
    if let Some(d) = r.diverged {
        println!("DIVERGED: {}", d);
        return 2;
    }
    match r.verdict {
        Ok(()) => {
            println!("no violation on this execution");
            0
        }
        Err(v) => {
            println!("{}\nsignature: {}", v.msg, v.sig);
            println!("VIOLATION property={} replay={}", prop, file);
            1
        }
    }
}

fn main() {
    mcrt::install_panic_hook();
    unsafe {
        signal(6, on_abort as *const () as usize);
    }
    let a: Vec<String> = std::env::args().collect();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => check(&a[2]),
        Some("replay") => replay(&a[2]),
        Some("list") => {
            for id in props::IDS {
                println!("{}", id);
            }
            0
        }
        _ => {
            eprintln!("usage: mc check <property> | replay <file> | list");
            3
        }
    };
    std::process::exit(code);
}

/// Counts live heap bytes per thread (bounded-resources oracles).
struct Counting;
thread_local! {
    static LIVE: std::cell::Cell<i64> = const { std::cell::Cell::new(0) };
}
const TRACKED: usize = 0x7eac_ed01;
fn header(l: &std::alloc::Layout) -> (usize, std::alloc::Layout) {
    let h = l.align().max(16);
    (h, unsafe { std::alloc::Layout::from_size_align_unchecked(l.size() + h, h) })
}
fn add(n: i64) {
    let _ = LIVE.try_with(|c| c.set(c.get() + n));
}
unsafe impl std::alloc::GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        let (h, full) = header(&l);
        let p = std::alloc::System.alloc(full);
        if p.is_null() {
            return p;
        }
        let t = !mcrt::is_untracked();
        if t {
            add(l.size() as i64);
        }
        let p = p.add(h);
        *(p as *mut usize).sub(1) = if t { TRACKED } else { 0 };
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        let (h, full) = header(&l);
        if *(p as *mut usize).sub(1) == TRACKED {
            add(-(l.size() as i64));
        }
        std::alloc::System.dealloc(p.sub(h), full)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        let (h, full) = header(&l);
        let t = *(p as *mut usize).sub(1) == TRACKED;
        let r = std::alloc::System.realloc(p.sub(h), full, n + h);
        if r.is_null() {
            return r;
        }
        if t {
            add(n as i64 - l.size() as i64);
        }
        r.add(h)
    }
}
#[global_allocator]
static ALLOC: Counting = Counting;

pub fn live_bytes() -> i64 {
    LIVE.with(|c| c.get())
}
