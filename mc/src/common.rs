//! Things shared by the property harnesses.
pub use mcrt::explore::{bad, Verdict, Violation};
pub use mcrt::{choose, now_ns, choose_dev, event, net, note, run_for, run_idle, RtConfig, MS, SEC};
use std::time::Duration;

pub struct Scenario {
    pub name: String,
    pub what: String,
    pub rt: RtConfig,
    pub bound: usize,
    pub max_exec: u64,
    pub max_time: Duration,
    pub f: Box<dyn Fn() -> Verdict + Send + Sync>,
}

impl Scenario {
    pub fn new(name: impl Into<String>, what: impl Into<String>, f: impl Fn() -> Verdict + Send + Sync + 'static) -> Scenario {
        Scenario {
            name: name.into(),
            what: what.into(),
            rt: RtConfig::default(),
            bound: 0,
            max_exec: u64::MAX,
            max_time: Duration::from_secs(if thorough() { 3000 } else { 300 }),
            f: Box::new(f),
        }
    }
    pub fn bound(mut self, quick: usize, thor: usize) -> Scenario {
        self.bound = if thorough() { thor } else { quick };
        self
    }
    pub fn steps(mut self, n: u64) -> Scenario {
        self.rt.max_steps = n;
        self
    }
}

pub fn tier() -> String {
    std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into())
}

pub fn thorough() -> bool {
    tier() == "thorough"
}

pub fn q<T>(quick: T, thor: T) -> T {
    if thorough() {
        thor
    } else {
        quick
    }
}

/// Panics, livelocks and stuck spin locks of the execution so far, as a violation.
pub fn no_trouble() -> Verdict {
    match mcrt::trouble() {
        Some(t) => bad(t.clone(), t),
        None => Ok(()),
    }
}

/// Short printable form of bytes.
pub fn show(b: &[u8]) -> String {
    let mut s = String::new();
    for c in b.iter().take(200) {
        match c {
            b'\n' => s.push_str("\\n"),
            b'\r' => s.push_str("\\r"),
            0x20..=0x7e => s.push(*c as char),
            _ => s.push_str(&format!("\\x{:02x}", c)),
        }
    }
    if b.len() > 200 {
        s.push_str("...");
    }
    s
}

/// Runs the enumeration of private types `name` (package xdr), which is not there when /repo's sources no longer have
/// the types under these names
pub fn private_types(name: &str) -> Verdict {
    let exe = std::env::current_exe().unwrap().with_file_name(name);
    if !exe.exists() {
        eprintln!("private types: left out, they are not there under their names");
        return Ok(());
    }
    let out = match std::process::Command::new(exe).output() {
        Ok(out) => out,
        Err(err) => return bad("private types".to_string(), err.to_string()),
    };
    let text = String::from_utf8_lossy(&out.stdout).into_owned();
    if std::env::var("MC_TRACE").is_ok() {
        eprintln!("{}", text);
    }
    match text.lines().find(|l| l.starts_with("BAD ")) {
        None if out.status.success() => Ok(()),
        None => bad("private types".to_string(), format!("ends with {:?}: {}", out.status, text)),
        Some(l) => bad(format!("private {}", l[4..].split(':').next().unwrap()), l[4..].to_string()),
    }
}

/// Times that may pass between things which have nothing to do with time, in ms.
pub const PAUSES: [u64; 7] = [600, 2_000, 11_000, 61_000, 601_000, 7_300_000, 40 * 86_400_000];

pub fn pause(ms: u64) {
    if ms == 0 {
        run_idle();
    } else {
        run_for(ms * MS);
    }
}

/// The same within a task
pub async fn wait(ms: u64) {
    if ms != 0 {
        mcrt::time::Timer::after(Duration::from_millis(ms)).await;
    }
}
