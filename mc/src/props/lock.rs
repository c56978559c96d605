//! C01-C04: the device lock.
use crate::common::*;
use futures::future::FutureExt;
use futures::lock::{Mutex, MutexGuard};
use lxi_device::lock::{LockHandle, RemoteLockHandle, SharedLock, SharedLockError, SharedLockMode, SpinMutex};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;
use std::sync::Arc;

type Dev = u32;
const KEYS: [&[u8]; 3] = [b"", b"alphabet", b"alpha"];

fn err_name(e: &SharedLockError) -> String {
    format!("{:?}", e)
}

// ------------------------------------------------------------------ reference model

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Model {
    pub key: Option<usize>,
    pub holders: BTreeSet<usize>,
    pub excl: Option<usize>,
    /// who has the device itself
    guard: Option<usize>,
}

impl Model {
    pub fn can(&self, h: usize) -> Result<(), &'static str> {
        match self.excl {
            Some(e) if e == h => Ok(()),
            Some(_) => Err("LockedByExclusive"),
            None if self.holders.is_empty() || self.holders.contains(&h) => Ok(()),
            None => Err("LockedByShared"),
        }
    }
    pub fn acquire(&mut self, h: usize, k: usize) -> Result<(), &'static str> {
        if k == 0 {
            if self.excl == Some(h) {
                return Err("AlreadyLocked");
            }
            if self.excl.is_some() {
                return Err("LockedByExclusive");
            }
            if !self.holders.is_empty() && !self.holders.contains(&h) {
                return Err("LockedByShared");
            }
            self.excl = Some(h);
            Ok(())
        } else {
            if self.holders.contains(&h) {
                return Err("AlreadyLocked");
            }
            if self.holders.is_empty() {
                match self.excl {
                    Some(e) if e == h => return Err("AlreadyLocked"),
                    Some(_) => return Err("LockedByExclusive"),
                    None => {}
                }
                self.key = Some(k);
                self.holders.insert(h);
                return Ok(());
            }
            if self.key == Some(k) {
                self.holders.insert(h);
                Ok(())
            } else {
                Err("LockedByShared")
            }
        }
    }
    pub fn release(&mut self, h: usize) -> Result<&'static str, &'static str> {
        let mut r = Err("AlreadyUnlocked");
        if self.holders.remove(&h) {
            if self.holders.is_empty() {
                self.key = None;
            }
            r = Ok("Shared");
        }
        if self.excl == Some(h) {
            self.excl = None;
            r = Ok("Exclusive");
        }
        r
    }
    fn access(&self, h: usize) -> Result<(), &'static str> {
        self.can(h)?;
        if self.guard.is_some() {
            return Err("Busy");
        }
        Ok(())
    }
}

// ------------------------------------------------------------------ C01

enum H {
    Local(Box<LockHandle<Dev>>),
    Remote(Arc<SpinMutex<LockHandle<Dev>>>, Box<RemoteLockHandle<Dev>>),
}

fn mk(remote: bool, shared: &Arc<SpinMutex<SharedLock>>, dev: &Arc<Mutex<Dev>>) -> H {
    let h = LockHandle::new(shared.clone(), dev.clone());
    if remote {
        let a = Arc::new(SpinMutex::new(h));
        let r = RemoteLockHandle::new(a.clone());
        H::Remote(a, Box::new(r))
    } else {
        H::Local(Box::new(h))
    }
}

fn norm(r: Result<(), SharedLockError>) -> Result<(), String> {
    r.map_err(|e| err_name(&e))
}

impl H {
    fn try_acquire(&mut self, k: &[u8]) -> Result<(), String> {
        norm(match self {
            H::Local(h) => h.try_acquire(k),
            H::Remote(_, r) => r.try_acquire(k),
        })
    }
    /// None: still waiting (and then abandoned)
    fn async_acquire(&mut self, k: &[u8]) -> Option<Result<(), String>> {
        match self {
            H::Local(h) => h.async_acquire(k).now_or_never(),
            H::Remote(_, r) => r.async_acquire(k).now_or_never(),
        }
        .map(norm)
    }
    fn release(&mut self) -> Result<String, String> {
        let r = match self {
            H::Local(h) => h.try_release(),
            H::Remote(a, _) => a.lock().try_release(),
        };
        r.map(|m| match m {
            SharedLockMode::Shared => "Shared".to_string(),
            SharedLockMode::Exclusive => "Exclusive".to_string(),
        })
        .map_err(|e| err_name(&e))
    }
    fn force_release(&mut self) {
        match self {
            H::Local(h) => h.force_release(),
            H::Remote(a, _) => a.lock().force_release(),
        }
    }
    fn can(&self) -> Result<(), String> {
        norm(match self {
            H::Local(h) => h.can_lock(),
            H::Remote(_, r) => r.can_lock(),
        })
    }
    fn info(&self) -> (bool, u32, bool, bool) {
        match self {
            H::Local(h) => (h.lock_info().0, h.lock_info().1, h.has_shared(), h.has_exclusive()),
            H::Remote(a, _) => {
                let h = a.lock();
                (h.lock_info().0, h.lock_info().1, h.has_shared(), h.has_exclusive())
            }
        }
    }
    fn try_lock(&self) -> Result<MutexGuard<'_, Dev>, String> {
        match self {
            H::Local(h) => h.try_lock(),
            H::Remote(_, r) => r.try_lock().now_or_never().expect("try_lock does not wait"),
        }
        .map_err(|e| err_name(&e))
    }
    fn async_lock(&self) -> Option<Result<MutexGuard<'_, Dev>, String>> {
        match self {
            H::Local(h) => h.async_lock().now_or_never(),
            H::Remote(_, r) => r.async_lock().now_or_never(),
        }
        .map(|r| r.map_err(|e| err_name(&e)))
    }
}

fn exp(r: Result<(), &'static str>) -> Result<(), String> {
    r.map_err(|e| e.to_string())
}

fn c01_run(remote: bool, nh: usize, depth: usize, full: bool) -> Verdict {
    let dev = Arc::new(Mutex::new(0u32));
    let shared = SharedLock::new();
    let mut hs: Vec<Option<H>> = (0..nh).map(|_| Some(mk(remote, &shared, &dev))).collect();
    let mut m = Model::default();
    let mut guard: Option<MutexGuard<'static, Dev>> = None;
    let nops = if full { 13 } else { 8 };
    let mut used = 0usize;
    let mut trace = String::new();
    for _ in 0..depth {
        // handles are interchangeable: the first use of each is in order
        let h = choose((used + 1).min(nh), "handle");
        used = used.max(h + 1);
        let op = choose(nops, "op");
        // a handle whose guard is out is borrowed: it can only give the device back
        if m.guard == Some(h) && op != 6 {
            return Ok(());
        }
        let hd = hs[h].as_mut().unwrap();
        let (name, got, want): (String, String, String) = match op {
            0..=2 => (
                format!("h{}.try_acquire({:?})", h, show(KEYS[op])),
                format!("{:?}", hd.try_acquire(KEYS[op])),
                format!("{:?}", exp(m.acquire(h, op))),
            ),
            3 => (format!("h{}.release", h), format!("{:?}", hd.release()), format!("{:?}", m.release(h).map(|s| s.to_string()).map_err(|s| s.to_string()))),
            4 => {
                hs[h] = None;
                hs[h] = Some(mk(remote, &shared, &dev));
                let _ = m.release(h);
                (format!("h{} dropped and recreated", h), String::new(), String::new())
            }
            5 => (
                format!("h{}.try_lock", h),
                format!("{:?}", hd.try_lock().map(|_| ())),
                format!("{:?}", exp(m.access(h))),
            ),
            6 => {
                if m.guard == Some(h) {
                    guard = None;
                    m.guard = None;
                    (format!("h{} gives the device back", h), String::new(), String::new())
                } else {
                    let want = m.access(h);
                    let g = hd.try_lock();
                    let s = format!("{:?}", g.as_ref().map(|_| ()));
                    if let Ok(g) = g {
                        // the handle is boxed and not touched while the guard is out
                        guard = Some(unsafe { std::mem::transmute::<MutexGuard<'_, Dev>, MutexGuard<'static, Dev>>(g) });
                    }
                    if want.is_ok() {
                        m.guard = Some(h);
                    }
                    (format!("h{}.try_lock (kept)", h), s, format!("{:?}", exp(want)))
                }
            }
            7 => {
                hd.force_release();
                let _ = m.release(h);
                (format!("h{}.force_release", h), String::new(), String::new())
            }
            8..=10 => {
                let k = op - 8;
                let want = m.acquire(h, k);
                let got = hd.async_acquire(KEYS[k]);
                let want = match want {
                    Err("LockedByShared") | Err("LockedByExclusive") => None,
                    x => Some(exp(x)),
                };
                (format!("h{}.async_acquire({:?})", h, show(KEYS[k])), format!("{:?}", got), format!("{:?}", want))
            }
            11 => {
                let want = if m.access(h).is_ok() { Some(Ok::<(), String>(())) } else { None };
                (format!("h{}.async_lock", h), format!("{:?}", hd.async_lock().map(|r| r.map(|_| ()))), format!("{:?}", want))
            }
            _ => {
                // lock without checks: only the device itself matters
                let got = match hd {
                    H::Local(h) => h.inner_lock().now_or_never().is_some(),
                    H::Remote(_, r) => r.inner_lock().now_or_never().is_some(),
                };
                (format!("h{}.inner_lock", h), format!("{:?}", got), format!("{:?}", m.guard.is_none()))
            }
        };
        trace.push_str(&format!("{} -> {}; ", name, got));
        event(format!("{} -> {}", name, got));
        if got != want {
            return bad(format!("outcome {}", trace), format!("after [{}] expected {}", trace, want));
        }
        for (i, x) in hs.iter().enumerate() {
            if m.guard == Some(i) && !remote {
                // only shared access to the borrowed handle
            }
            let x = x.as_ref().unwrap();
            let want = (m.excl.is_some(), m.holders.len() as u32, m.holders.contains(&i), m.excl == Some(i));
            if x.info() != want {
                return bad(
                    format!("state {}", trace),
                    format!("after [{}] handle {} reports (exclusive, shared count, has shared, has exclusive)={:?}, expected {:?}", trace, i, x.info(), want),
                );
            }
            if x.can() != exp(m.can(i)) {
                return bad(format!("can_lock {}", trace), format!("after [{}] handle {} can_lock={:?}, expected {:?}", trace, i, x.can(), m.can(i)));
            }
        }
        {
            let s = shared.lock();
            if (s.exclusive_lock(), s.num_shared_locks()) != (m.excl.is_some(), m.holders.len() as u32) {
                return bad(format!("shared state {}", trace), format!("after [{}] the lock reports ({}, {})", trace, s.exclusive_lock(), s.num_shared_locks()));
            }
        }
    }
    drop(guard);
    Ok(())
}

/// Keys that are easily mistaken for one another.
pub fn similar_keys() -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = [
        b"a".as_slice(), b"A", b"b", b"aa", b"ab", b"ba", b"a ", b" a", b"a\0", b"\0a", b"\0", b"\0\0", b"\xff", b"\xfe\xff", b"\xc3\xa4", b"\xc3\x84", b"key", b"key1", b"Key", b"yek", b"ke", b"ey",
    ]
    .iter()
    .map(|k| k.to_vec())
    .collect();
    for n in [31, 32, 63, 64, 127, 128, 255, 256, 257, 300] {
        v.push(vec![b'k'; n]);
        let mut k = vec![b'k'; n];
        k[n - 1] = b'l';
        v.push(k);
    }
    v
}

/// Every ordered pair of keys: admitted if and only if equal.
fn keys01(remote: bool) -> Verdict {
    let dev = Arc::new(Mutex::new(0u32));
    let shared = SharedLock::new();
    let ks = similar_keys();
    let (i, j) = (choose(ks.len(), "key"), choose(ks.len(), "other key"));
    let upgraded = choose(2, "upgraded") == 1;
    let mut a = mk(remote, &shared, &dev);
    let mut b = mk(remote, &shared, &dev);
    let ctx = format!("key \"{}\"{} and key \"{}\"", show(&ks[i]), if upgraded { " with the exclusive lock" } else { "" }, show(&ks[j]));
    if a.try_acquire(&ks[i]).is_err() {
        return bad(format!("first {}", ctx), format!("{}: the first lock is refused", ctx));
    }
    if upgraded && a.try_acquire(b"").is_err() {
        return bad(format!("upgrade {}", ctx), format!("{}: the upgrade is refused", ctx));
    }
    let want = if i == j { Ok(()) } else { Err("LockedByShared".to_string()) };
    let now = b.try_acquire(&ks[j]);
    if now != want {
        return bad(format!("second {}", ctx), format!("{}: the second lock gives {:?}", ctx, now));
    }
    if i == j {
        b.release().ok();
    }
    let got = b.async_acquire(&ks[j]);
    if got != (if i == j { Some(Ok(())) } else { None }) {
        return bad(format!("waiting {}", ctx), format!("{}: the second lock with waiting gives {:?}", ctx, got));
    }
    a.release().ok();
    let want = if i == j { Err("AlreadyLocked".to_string()) } else { Ok(()) };
    let got = b.try_acquire(&ks[j]);
    if got != want {
        return bad(format!("after {}", ctx), format!("{}: after the release the second lock gives {:?}", ctx, got));
    }
    no_trouble()
}

/// 70000 holders of one shared lock: the state is exact at every step, and the lock is free only when the last has left.
fn many01(remote: bool) -> Verdict {
    const N: usize = 70_000;
    let dev = Arc::new(Mutex::new(0u32));
    let shared = SharedLock::new();
    let mut out = mk(remote, &shared, &dev);
    let mut hs: Vec<H> = Vec::new();
    let locked = Err("LockedByShared".to_string());
    let order = choose(2, "order");
    for step in 0..2 * N {
        let n = if step < N {
            let mut h = mk(remote, &shared, &dev);
            if h.try_acquire(KEYS[1]) != Ok(()) {
                return bad(format!("refused {}", step), format!("the shared lock with the same key is refused to client number {}", step + 1));
            }
            hs.push(h);
            step + 1
        } else {
            let k = if order == 0 { hs.len() - 1 } else { 0 };
            let mut h = hs.swap_remove(k);
            if step % 2 == 0 && h.release() != Ok("Shared".to_string()) {
                return bad(format!("release {}", hs.len()), format!("with {} other holders a release fails", hs.len()));
            }
            drop(h);
            hs.len()
        };
        let at = (n as u32, n > 0);
        if out.info() != (false, at.0, false, false) {
            return bad(format!("info {}", n), format!("with {} holders of the shared lock the state is {:?}", n, out.info()));
        }
        if at.1 && (out.can() != locked || out.try_acquire(b"") != locked || out.try_acquire(KEYS[2]) != locked || out.try_lock().map(|_| ()) != locked) {
            return bad(format!("let in {}", n), format!("with {} holders of the shared lock another client is not kept out", n));
        }
    }
    if out.try_acquire(b"") != Ok(()) {
        return bad("not free", "the lock is not free after all have left".to_string());
    }
    no_trouble()
}

pub fn c01() -> Vec<Scenario> {
    let mut v = Vec::new();
    for remote in [false, true] {
        v.push(Scenario::new(format!("{}-many", if remote { "remote" } else { "local" }), "70000 holders of one shared lock, joining and leaving one by one in 2 orders", move || many01(remote)).steps(100_000_000));
    }
    for remote in [false, true] {
        v.push(Scenario::new(
            format!("{}-keys", if remote { "remote" } else { "local" }),
            "all ordered pairs of 42 similar keys (prefixes, case, NUL, not UTF-8, long, different in the last byte only)",
            move || keys01(remote),
        ));
    }
    for remote in [false, true] {
        let r = if remote { "remote" } else { "local" };
        let d = q(4, 5);
        v.push(Scenario::new(
            format!("{}-3-handles-all-ops", r),
            format!("all operation sequences of length {} over 3 handles and 13 operations (two keys, exclusive, async variants, device access, drop)", d),
            move || c01_run(remote, 3, d, true),
        ));
        let d = q(5, 6);
        v.push(Scenario::new(
            format!("{}-3-handles-sync-ops", r),
            format!("all operation sequences of length {} over 3 handles and 8 operations", d),
            move || c01_run(remote, 3, d, false),
        ));
        let d = q(6, 7);
        v.push(Scenario::new(
            format!("{}-2-handles-sync-ops", r),
            format!("all operation sequences of length {} over 2 handles and 8 operations", d),
            move || c01_run(remote, 2, d, false),
        ));
    }
    v
}

// ------------------------------------------------------------------ C02-C04: concurrent programs

#[derive(Clone, Copy, Debug, PartialEq)]
enum Prog {
    /// wait for the device, use it, give it back
    Access,
    /// the same, without waiting
    TryAccess,
    /// take a lock (0: exclusive, 1/2: shared key), use the device, release
    Lock(usize),
    /// the same, without waiting for the lock
    TryLock(usize),
    /// shared, then exclusive, then release both
    Upgrade(usize),
    /// start waiting for the device, abandon the wait
    CancelAccess,
    /// start waiting for a lock, abandon the wait
    CancelLock(usize),
    /// take a lock and disappear (drop the handle) without releasing
    LockDrop(usize),
}

const PROGS: &[Prog] = &[
    Prog::Access,
    Prog::Lock(0),
    Prog::Lock(1),
    Prog::TryAccess,
    Prog::Upgrade(1),
    Prog::CancelAccess,
    Prog::CancelLock(0),
    Prog::Lock(2),
    Prog::TryLock(0),
    Prog::LockDrop(0),
    Prog::CancelLock(1),
    Prog::LockDrop(1),
];

/// Logical history shared by the tasks of one execution.
#[derive(Default)]
struct Hist {
    clock: u64,
    /// per task: intervals in which it certainly holds (kind, acquired-returned, release-called)
    held: Vec<(usize, usize, u64, Option<u64>)>,
    /// who is inside the device
    inside: Option<usize>,
    /// when the device was last given back (start of the drop)
    last_free: u64,
    bad: Option<String>,
}

impl Hist {
    fn tick(&mut self) -> u64 {
        self.clock += 1;
        self.clock
    }
    /// Is a lock of another task excluding `t` held during the whole of [a, b]?
    fn excluded_throughout(&self, t: usize, a: u64, b: u64) -> Option<(usize, usize)> {
        for (o, k, from, to) in &self.held {
            if *o != t && *from <= a && to.map_or(true, |x| x >= b) {
                // an exclusive lock excludes everybody else; a shared one those who do not hold it
                let mine = self.held.iter().any(|(x, kk, f, tt)| *x == t && *kk != 0 && *kk == *k && *f <= a && tt.map_or(true, |x| x >= b));
                if *k == 0 || !mine {
                    return Some((*o, *k));
                }
            }
        }
        None
    }
}

struct Shared {
    dev: Arc<Mutex<Dev>>,
    lock: Arc<SpinMutex<SharedLock>>,
    hist: RefCell<Hist>,
    remote: bool,
}

async fn pause() {
    async_std::task::yield_now().await
}

async fn use_device(s: &Shared, t: usize, called: u64, g: MutexGuard<'_, Dev>) {
    {
        let mut h = s.hist.borrow_mut();
        let now = h.tick();
        event(format!("t{} gets the device", t));
        if let Some(o) = h.inside {
            let m = format!("t{} is given the device while t{} has it", t, o);
            h.bad.get_or_insert(m);
        }
        let a = called.max(h.last_free);
        if let Some((o, k)) = h.excluded_throughout(t, a, now) {
            let m = format!("t{} is given the device although t{} held the {} lock during the whole of its request", t, o, if k == 0 { "exclusive" } else { "shared" });
            h.bad.get_or_insert(m);
        }
        h.inside = Some(t);
    }
    pause().await;
    {
        let mut h = s.hist.borrow_mut();
        h.inside = None;
        let c = h.tick();
        h.last_free = c;
        event(format!("t{} gives the device back", t));
    }
    drop(g);
}

async fn acquire(hd: &mut H, k: usize) -> bool {
    match hd {
        H::Local(h) => h.async_acquire(KEYS[k]).await,
        H::Remote(_, r) => r.async_acquire(KEYS[k]).await,
    }
    .is_ok()
}

/// Poll a future a bounded number of times, then drop it.
async fn abandon<F: std::future::Future>(f: F, polls: usize) -> Option<F::Output> {
    let mut f = Box::pin(f);
    for i in 0..polls {
        if let std::task::Poll::Ready(v) = futures::poll!(f.as_mut()) {
            return Some(v);
        }
        if i + 1 < polls {
            pause().await;
        }
    }
    None
}

async fn access(s: &Shared, t: usize, hd: &H, cancel: bool) {
    let called = s.hist.borrow_mut().tick();
    event(format!("t{} asks for the device", t));
    let g = match hd {
        H::Local(h) => {
            if cancel {
                abandon(h.async_lock(), 2).await
            } else {
                Some(h.async_lock().await)
            }
        }
        H::Remote(_, r) => {
            if cancel {
                abandon(r.async_lock(), 2).await
            } else {
                Some(r.async_lock().await)
            }
        }
    };
    match g {
        Some(Ok(g)) => use_device(s, t, called, g).await,
        Some(Err(e)) => event(format!("t{} refused: {:?}", t, e)),
        None => event(format!("t{} gave up waiting", t)),
    }
}

async fn program(s: Rc<Shared>, t: usize, p: Prog) {
    let mut hd = mk(s.remote, &s.lock, &s.dev);
    match p {
        Prog::Access => access(&s, t, &hd, false).await,
        Prog::CancelAccess => access(&s, t, &hd, true).await,
        Prog::TryAccess => {
            let called = s.hist.borrow_mut().tick();
            match hd.try_lock() {
                Ok(g) => use_device(&s, t, called, g).await,
                Err(e) => event(format!("t{} refused: {}", t, e)),
            }
        }
        Prog::Lock(_) | Prog::TryLock(_) | Prog::Upgrade(_) | Prog::CancelLock(_) | Prog::LockDrop(_) => {
            let (keys, kind): (Vec<usize>, u8) = match p {
                Prog::Lock(k) => (vec![k], 0),
                Prog::TryLock(k) => (vec![k], 1),
                Prog::Upgrade(k) => (vec![k, 0], 0),
                Prog::CancelLock(k) => (vec![k], 2),
                Prog::LockDrop(k) => (vec![k], 0),
                _ => unreachable!(),
            };
            let mut mine = Vec::new();
            for k in keys {
                event(format!("t{} asks for lock {}", t, k));
                let ok = match kind {
                    0 => acquire(&mut hd, k).await,
                    1 => hd.try_acquire(KEYS[k]).is_ok(),
                    _ => abandon(acquire(&mut hd, k), 2).await.unwrap_or(false),
                };
                let mut h = s.hist.borrow_mut();
                let now = h.tick();
                event(format!("t{} lock {}: {}", t, k, ok));
                if !ok {
                    break;
                }
                // mutual exclusion of the locks themselves
                let clash = h.held.iter().any(|(o, kk, _, to)| *o != t && to.is_none() && (if k == 0 { *kk == 0 || !mine.iter().any(|_| true) } else { *kk != 0 && *kk != k }));
                if clash {
                    let m = format!("t{} is granted lock {} while an incompatible lock is held: {:?}", t, k, h.held);
                    h.bad.get_or_insert(m);
                }
                mine.push(h.held.len());
                h.held.push((t, k, now, None));
            }
            if !mine.is_empty() && !matches!(p, Prog::LockDrop(_)) {
                access(&s, t, &hd, false).await;
            }
            pause().await;
            {
                let mut h = s.hist.borrow_mut();
                let now = h.tick();
                for i in &mine {
                    h.held[*i].3 = Some(now);
                }
                event(format!("t{} releases", t));
            }
            if !matches!(p, Prog::LockDrop(_)) && !mine.is_empty() {
                let _ = hd.release();
            }
            drop(hd);
        }
    }
    event(format!("t{} done", t));
}

struct Outcome {
    s: Rc<Shared>,
    progs: Vec<Prog>,
    ids: Vec<usize>,
}

fn run_programs(remote: bool, n: usize, menu: &[Prog]) -> Outcome {
    let s = Rc::new(Shared {
        dev: Arc::new(Mutex::new(0)),
        lock: SharedLock::new(),
        hist: RefCell::new(Hist::default()),
        remote,
    });
    let mut progs = Vec::new();
    let mut ids = Vec::new();
    let mut min = 0;
    for t in 0..n {
        // multiset of programs: tasks are symmetric up to scheduling order, so also explore all orders
        let i = choose(menu.len(), "program");
        min = min.max(i);
        progs.push(menu[i]);
        ids.push((t, menu[i]));
    }
    let mut tids = Vec::new();
    for (t, p) in ids {
        let h = mcrt::spawn_named(&format!("t{}", t), program(s.clone(), t, p));
        tids.push(h.id());
    }
    mcrt::set_explore(true, true, true, false);
    run_idle();
    mcrt::explore_off();
    Outcome { s, progs, ids: tids }
}

fn stuck(o: &Outcome) -> Option<String> {
    let left: Vec<String> = o.ids.iter().enumerate().filter(|(_, id)| !mcrt::task_done(**id)).map(|(i, _)| format!("t{}:{:?}", i, o.progs[i])).collect();
    if left.is_empty() {
        None
    } else {
        Some(left.join(","))
    }
}

fn conc(name: &str, which: u8, remote: bool, n: usize, menu: Vec<Prog>, bq: usize, bt: usize) -> Scenario {
    let r = if remote { "remote" } else { "local" };
    let what = format!("{} concurrent tasks, every choice of programs from {:?}, every interleaving with at most the stated number of deviations", n, menu);
    let mut sc = Scenario::new(format!("{}-{}-{}-tasks", name, r, n), what, move || {
        let o = run_programs(remote, n, &menu);
        no_trouble()?;
        let progs = format!("{:?}", o.progs);
        if which == 2 {
            if let Some(b) = o.s.hist.borrow().bad.clone() {
                return bad(format!("{} {}", progs, b), format!("programs {}: {}", progs, b));
            }
        }
        if which == 3 {
            if let Some(l) = stuck(&o) {
                let lk = o.s.lock.lock();
                return bad(
                    format!("stuck {} {}", progs, l),
                    format!("programs {}: {} wait forever although nobody holds a lock or the device (exclusive={}, shared={})", progs, l, lk.exclusive_lock(), lk.num_shared_locks()),
                );
            }
        }
        if which == 4 {
            if let Some(l) = stuck(&o) {
                return bad(format!("stuck {} {}", progs, l), format!("programs {}: {} still wait after the others left or gave up", progs, l));
            }
            // everything was released or abandoned: the lock must be free again and usable by anyone
            let (e, k) = {
                let l = o.s.lock.lock();
                (l.exclusive_lock(), l.num_shared_locks())
            };
            if e || k != 0 {
                return bad(format!("left {} {} {}", progs, e, k), format!("programs {}: all clients are gone but exclusive={} shared={}", progs, e, k));
            }
            let mut h = mk(remote, &o.s.lock, &o.s.dev);
            let a = h.async_acquire(b"");
            let b = h.try_lock().map(|_| ());
            let c = h.release();
            if a != Some(Ok(())) || b != Ok(()) || c != Ok("Exclusive".to_string()) {
                return bad(format!("afterwards {}", progs), format!("programs {}: afterwards a new client gets acquire={:?} access={:?} release={:?}", progs, a, b, c));
            }
        }
        Ok(())
    });
    sc.bound = q(bq, bt);
    sc
}

/// A whole crowd of clients waiting for a lock to be released: nobody gets in wrongly, everybody gets in.
fn crowd(which: u8, remote: bool) -> Verdict {
    const N: [usize; 12] = [5, 8, 9, 16, 17, 32, 33, 64, 65, 128, 129, 300];
    const KINDS: [&[Prog]; 8] = [
        &[Prog::Access],
        &[Prog::Lock(0)],
        &[Prog::Lock(1)],
        &[Prog::Lock(0), Prog::Access],
        &[Prog::Lock(1), Prog::Lock(2)],
        &[Prog::Upgrade(1), Prog::Access, Prog::Lock(2)],
        &[Prog::LockDrop(0), Prog::LockDrop(1), Prog::Access, Prog::Lock(2), Prog::Lock(0)],
        &[Prog::CancelLock(0), Prog::Lock(1), Prog::CancelAccess, Prog::CancelLock(2), Prog::Access, Prog::Lock(0)],
    ];
    let n = N[choose(N.len(), "clients")];
    let kind = KINDS[choose(KINDS.len(), "kinds")];
    let s = Rc::new(Shared { dev: Arc::new(Mutex::new(0)), lock: SharedLock::new(), hist: RefCell::new(Hist::default()), remote });
    let held = choose(3, "held");
    let mut hd = mk(remote, &s.lock, &s.dev);
    hd.try_acquire(KEYS[held]).ok();
    {
        let mut h = s.hist.borrow_mut();
        let now = h.tick();
        h.held.push((n, held, now, None));
    }
    let ids: Vec<usize> = (0..n).map(|t| mcrt::spawn_named(&format!("t{}", t), program(s.clone(), t, kind[t % kind.len()])).id()).collect();
    run_idle();
    {
        let mut h = s.hist.borrow_mut();
        let now = h.tick();
        h.held[0].3 = Some(now);
    }
    hd.release().ok();
    run_idle();
    no_trouble()?;
    let ctx = format!("{} clients {:?} waiting for lock {}", n, kind, held);
    if which == 2 {
        if let Some(b) = s.hist.borrow().bad.clone() {
            return bad(format!("crowd {} {}", ctx, b), format!("{}: {}", ctx, b));
        }
        return Ok(());
    }
    let left = ids.iter().filter(|id| !mcrt::task_done(**id)).count();
    let e = s.lock.lock().exclusive_lock();
    let k = s.lock.lock().num_shared_locks();
    if left > 0 || e || k > 0 {
        return bad(format!("crowd {} {}", ctx, left), format!("{}: {} of them wait forever (exclusive={}, shared={})", ctx, left, e, k));
    }
    Ok(())
}

fn crowds(which: u8, remote: bool) -> Scenario {
    let r = if remote { "remote" } else { "local" };
    Scenario::new(format!("{}-crowd", r), "5 to 300 clients of 8 mixtures (access, exclusive, shared with two keys, upgrades, leaving, giving up) waiting for each kind of lock to be released", move || crowd(which, remote)).steps(10_000_000)
}

pub fn c02() -> Vec<Scenario> {
    let core = vec![Prog::Access, Prog::Lock(0), Prog::Lock(1), Prog::TryAccess, Prog::Upgrade(1), Prog::Lock(2)];
    let mut v = Vec::new();
    for remote in [false, true] {
        v.push(conc("exclusion", 2, remote, 2, PROGS.to_vec(), 4, 5));
        v.push(crowds(2, remote));
        v.push(conc("exclusion", 2, remote, 3, core.clone(), if remote { 2 } else { 3 }, 3));
    }
    v
}

pub fn c03() -> Vec<Scenario> {
    let mut v = Vec::new();
    let core = vec![Prog::Access, Prog::Lock(0), Prog::Lock(1), Prog::Upgrade(1), Prog::LockDrop(0), Prog::Lock(2), Prog::CancelLock(0)];
    for remote in [false, true] {
        v.push(conc("progress", 3, remote, 2, PROGS.to_vec(), 4, 5));
        v.push(crowds(3, remote));
        v.push(conc("progress", 3, remote, 3, core.clone(), if remote { 2 } else { 3 }, 3));
    }
    v
}

/// Every cyclic history: after warm-up, repeating it must not make the live heap grow.
fn c04_growth(remote: bool, len: usize) -> Verdict {
    let dev = Arc::new(Mutex::new(0u32));
    let shared = SharedLock::new();
    let mut a = mk(remote, &shared, &dev);
    let mut b = mk(remote, &shared, &dev);
    let ops: Vec<(usize, usize)> = (0..len).map(|_| (choose(2, "handle"), choose(6, "op"))).collect();
    let one = |a: &mut H, b: &mut H| {
        for (h, op) in &ops {
            let x: &mut H = if *h == 0 { a } else { b };
            match op {
                0 => drop(x.async_lock()),
                1 => drop(x.try_lock().map(|_| ())),
                2 => drop(x.async_acquire(b"")),
                3 => drop(x.async_acquire(KEYS[1])),
                4 => drop(x.release()),
                _ => {
                    *x = mk(remote, &shared, &dev);
                }
            }
        }
    };
    for _ in 0..40 {
        one(&mut a, &mut b);
    }
    let l0 = crate::live_bytes();
    for _ in 0..40 {
        one(&mut a, &mut b);
    }
    let l1 = crate::live_bytes();
    for _ in 0..200 {
        one(&mut a, &mut b);
    }
    let l2 = crate::live_bytes();
    let names = ["async_lock", "try_lock", "async_acquire exclusive", "async_acquire shared", "release", "drop and recreate"];
    let desc: Vec<String> = ops.iter().map(|(h, o)| format!("h{}.{}", h, names[*o])).collect();
    event(desc.join(", "));
    // growth proportional to the number of repetitions
    if l2 - l1 > 200 * 8 && l2 - l0 > 240 * 8 {
        return bad(
            format!("growth {}", desc.join(", ")),
            format!("repeating [{}] makes the lock's memory grow: {} bytes more after 200 repetitions", desc.join(", "), l2 - l1),
        );
    }
    Ok(())
}

/// A request given up at any moment, from every state, leaves the lock as if it had never been made.
/// `mid` operations of others happen meanwhile, `post` operations of anybody (also a newcomer) follow.
fn c04_hist(remote: bool, mid: usize, post: usize) -> Verdict {
    const N: usize = 3;
    let dev = Arc::new(Mutex::new(0u32));
    let shared = SharedLock::new();
    let mut hs: Vec<H> = (0..N + 1).map(|_| mk(remote, &shared, &dev)).collect();
    let mut m = Model::default();
    let mut guard: Option<MutexGuard<'static, Dev>> = None;
    let mut trace = String::new();
    // the state: who shares the lock, who has the exclusive lock, who has the device
    let sharing = choose(1 << N, "sharing");
    for h in 0..N {
        if sharing >> h & 1 == 1 {
            let _ = hs[h].try_acquire(KEYS[1]);
            let _ = m.acquire(h, 1);
        }
    }
    let e = choose(N + 1, "exclusive");
    if e < N {
        if m.acquire(e, 0).is_err() {
            return Ok(());
        }
        let _ = hs[e].try_acquire(KEYS[0]);
    }
    let g = choose(N + 1, "device");
    if g < N {
        if m.access(g).is_err() {
            return Ok(());
        }
        if let Ok(x) = hs[g].try_lock() {
            guard = Some(unsafe { std::mem::transmute::<MutexGuard<'_, Dev>, MutexGuard<'static, Dev>>(x) });
        }
        m.guard = Some(g);
    }
    trace.push_str(&format!("h0-h2 sharing {:03b}, exclusive {:?}, device {:?}; ", sharing, m.excl, m.guard));
    // the request
    let w = choose(N, "who");
    let r = choose(4, "request");
    if m.guard == Some(w) {
        return Ok(());
    }
    let want = |m: &mut Model| match r {
        0..=2 => m.acquire(w, r),
        _ => m.access(w),
    };
    type Fut = std::pin::Pin<Box<dyn std::future::Future<Output = Result<Option<MutexGuard<'static, Dev>>, String>>>>;
    // handles are boxed, and not used while the request is pending
    let hp: *mut H = &mut hs[w];
    let mut fut: Option<Fut> = unsafe {
        let h: &'static mut H = &mut *hp;
        Some(match (r, h) {
            (3, H::Local(h)) => Box::pin(async move { h.async_lock().await.map(Some).map_err(|e| err_name(&e)) }),
            (3, H::Remote(_, h)) => Box::pin(async move { h.async_lock().await.map(Some).map_err(|e| err_name(&e)) }),
            (k, H::Local(h)) => Box::pin(async move { h.async_acquire(KEYS[k]).await.map(|_| None).map_err(|e| err_name(&e)) }),
            (k, H::Remote(_, h)) => Box::pin(async move { h.async_acquire(KEYS[k]).await.map(|_| None).map_err(|e| err_name(&e)) }),
        })
    };
    trace.push_str(&format!("h{} starts {}; ", w, if r == 3 { "async_lock".to_string() } else { format!("async_acquire({:?})", show(KEYS[r])) }));
    // one poll of the request and what should come of it; true once it has ended
    let mut poll = |fut: &mut Option<Fut>, m: &mut Model, trace: &mut String| -> Result<bool, (String, String)> {
        let got = match fut.as_mut().unwrap().as_mut().now_or_never() {
            None => None,
            Some(x) => Some(x.map(|g| drop(g))),
        };
        let want = match want(m) {
            Err("LockedByShared") | Err("LockedByExclusive") | Err("Busy") => None,
            x => Some(exp(x)),
        };
        if got.is_some() {
            *fut = None;
        }
        if got != want {
            return Err((format!("request {}", trace), format!("after [{}] the request gives {:?}, expected {:?}", trace, got, want)));
        }
        trace.push_str(&format!("it gives {:?}; ", got));
        Ok(got.is_some())
    };
    let fail = |x: (String, String)| bad(x.0, x.1);
    let mut ended = match poll(&mut fut, &mut m, &mut trace) {
        Ok(x) => x,
        Err(x) => return fail(x),
    };
    if ended {
        // nothing to give up: C01
        return Ok(());
    }
    let mut op = |hs: &mut Vec<H>, m: &mut Model, guard: &mut Option<MutexGuard<'static, Dev>>, h: usize, o: usize, trace: &mut String| -> Verdict {
        if m.guard == Some(h) && o != 6 {
            return Ok(());
        }
        let (name, got, want) = match o {
            0..=2 => (format!("try_acquire({:?})", show(KEYS[o])), format!("{:?}", hs[h].try_acquire(KEYS[o])), format!("{:?}", exp(m.acquire(h, o)))),
            3 => ("release".into(), format!("{:?}", hs[h].release()), format!("{:?}", m.release(h).map(|s| s.to_string()).map_err(|s| s.to_string()))),
            4 => ("try_lock".into(), format!("{:?}", hs[h].try_lock().map(|_| ())), format!("{:?}", exp(m.access(h)))),
            5 => {
                hs[h] = mk(remote, &shared, &dev);
                let _ = m.release(h);
                ("dropped and recreated".to_string(), String::new(), String::new())
            }
            _ => {
                if m.guard != Some(h) {
                    return Ok(());
                }
                *guard = None;
                m.guard = None;
                ("gives the device back".to_string(), String::new(), String::new())
            }
        };
        trace.push_str(&format!("h{} {} -> {}; ", h, name, got));
        if got != want {
            return bad(format!("outcome {}", trace), format!("after [{}] expected {}", trace, want));
        }
        Ok(())
    };
    for _ in 0..mid {
        // nothing more, or an operation by another one
        let c = choose(1 + N * 7, "meanwhile");
        if c == 0 || ended {
            break;
        }
        let (mut h, o) = ((c - 1) / 7, (c - 1) % 7);
        if h >= w {
            h += 1;
        }
        op(&mut hs, &mut m, &mut guard, h, o, &mut trace)?;
        if choose(2, "polled") == 0 {
            ended = match poll(&mut fut, &mut m, &mut trace) {
                Ok(x) => x,
                Err(x) => return fail(x),
            };
        }
    }
    if !ended {
        fut = None;
        trace.push_str(&format!("h{} gives up; ", w));
    }
    drop(fut);
    for _ in 0..post {
        let c = choose((N + 1) * 7, "afterwards");
        op(&mut hs, &mut m, &mut guard, c / 7, c % 7, &mut trace)?;
        for (i, x) in hs.iter().enumerate() {
            let want = (m.excl.is_some(), m.holders.len() as u32, m.holders.contains(&i), m.excl == Some(i));
            if x.info() != want || x.can() != exp(m.can(i)) {
                return bad(format!("state {}", trace), format!("after [{}] handle {} reports (exclusive, shared count, has shared, has exclusive)={:?} and can_lock={:?}, expected {:?} and {:?}", trace, i, x.info(), x.can(), want, m.can(i)));
            }
        }
    }
    drop(guard);
    Ok(())
}

pub fn c04() -> Vec<Scenario> {
    let mut v = Vec::new();
    let menu = vec![Prog::CancelAccess, Prog::CancelLock(0), Prog::Lock(0), Prog::CancelLock(1), Prog::LockDrop(0), Prog::Upgrade(1), Prog::LockDrop(1), Prog::TryAccess];
    for remote in [false, true] {
        let n = q(3, 4);
        v.push(Scenario::new(
            format!("growth-{}", if remote { "remote" } else { "local" }),
            format!("every cyclic history of {} operations over 2 handles, repeated 280 times", n),
            move || c04_growth(remote, n),
        ));
        let (mid, post) = (q(1, 2), 2);
        v.push(Scenario::new(
            format!("history-{}", if remote { "remote" } else { "local" }),
            format!("every state of a lock with 3 handles, every request that has to wait, up to {} operations of others while it waits, given up, then {} operations of anybody including a newcomer", mid, post),
            move || c04_hist(remote, mid, post),
        ));
        v.push(conc("abandon", 4, remote, 2, PROGS.to_vec(), 4, 5));
        v.push(crowds(4, remote));
        v.push(conc("abandon", 4, remote, 3, menu.clone(), if remote { 2 } else { 3 }, 3));
    }
    let _ = BTreeMap::<u8, u8>::new();
    v
}
