//! Controlled runtime for the model checker: every source of nondeterminism of the code under
//! test (task scheduling, preemption at synchronisation operations, `select!` order, timers,
//! network) is decided here, from a choice sequence owned by the explorer.
//!
//! One runtime per OS thread; everything is single threaded and deterministic.

pub mod explore;
pub mod hash;
pub mod net;
pub mod time;

use corosensei::stack::DefaultStack;
use corosensei::{Coroutine, CoroutineResult, Yielder};
use std::any::Any;
use std::cell::{Cell, RefCell};
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, VecDeque};
use std::future::Future;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};

pub type TaskId = usize;

/// Free: every alternative is always explored. Dev: an alternative other than 0 costs one deviation.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Kind {
    Free,
    Dev,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct ChoiceRec {
    pub n: u16,
    pub picked: u16,
    pub kind: Kind,
    pub tag: u32,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum TState {
    Runnable,
    Blocked,
    SpinWait(usize),
    Done,
    Frozen,
}

#[derive(Clone, Copy, PartialEq, Eq)]
enum Cmd {
    Go,
    Abort,
}

#[derive(Clone, Copy, PartialEq, Eq)]
enum Susp {
    Pending,
    Preempted,
    Spin(usize),
    Freeze,
}

struct Task {
    name: String,
    state: TState,
    woken: bool,
    running: bool,
    cancelled: bool,
    /// suspended in the middle of a poll
    midpoll: bool,
    preempt: bool,
    server: bool,
    co: Option<Coroutine<Cmd, Susp, (), DefaultStack>>,
    yielder: *const Yielder<Cmd, Susp>,
    on_done: Option<Box<dyn FnOnce()>>,
}

#[derive(Clone, Debug)]
pub struct RtConfig {
    /// Preemption points at synchronisation operations are choice points
    pub preempt: bool,
    /// The order in which runnable tasks run is a choice point
    pub sched: bool,
    /// `select!` order is a choice point
    pub select: bool,
    /// A timer may fire while tasks are still runnable
    pub early_timers: bool,
    /// Horizon: number of scheduler steps and I/O operations in one execution
    pub max_steps: u64,
}

impl Default for RtConfig {
    fn default() -> Self {
        RtConfig {
            preempt: false,
            sched: false,
            select: false,
            early_timers: false,
            max_steps: 20_000,
        }
    }
}

pub struct Rt {
    pub epoch: u64,
    pub cfg: RtConfig,
    tasks: Vec<Task>,
    /// tasks that may be in a spin wait
    spinners: Vec<usize>,
    queue: VecDeque<TaskId>,
    forced: Option<TaskId>,
    current: Option<TaskId>,
    pub now: u64,
    timers: BTreeMap<(u64, u64), Waker>,
    timer_seq: u64,
    pub net: net::Net,
    prefix: Vec<ChoiceRec>,
    /// number of prefix entries to verify (n, kind, tag) against
    pub choices: Vec<ChoiceRec>,
    pub diverged: Option<String>,
    pub steps: u64,
    pub livelock: bool,
    pub panics: Vec<(String, String)>,
    pub log: Vec<String>,
    pub log_hash: u64,
    pub state_hashes: Vec<u64>,
    verbose: bool,
    teardown: bool,
}

thread_local! {
    static RT: RefCell<Option<Box<Rt>>> = const { RefCell::new(None) };
    static EPOCH: Cell<u64> = const { Cell::new(1) };
    static STACKS: RefCell<Vec<DefaultStack>> = const { RefCell::new(Vec::new()) };
    pub(crate) static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

thread_local! {
    static UNTRACKED: Cell<u32> = const { Cell::new(0) };
}

/// What is allocated while this lives belongs to the runtime, not to the code under test.
pub struct Untracked(());
impl Drop for Untracked {
    fn drop(&mut self) {
        let _ = UNTRACKED.try_with(|c| c.set(c.get() - 1));
    }
}
pub fn untracked() -> Untracked {
    let _ = UNTRACKED.try_with(|c| c.set(c.get() + 1));
    Untracked(())
}
pub fn is_untracked() -> bool {
    UNTRACKED.try_with(|c| c.get() > 0).unwrap_or(true)
}

pub fn with_rt<R>(f: impl FnOnce(&mut Rt) -> R) -> R {
    let _u = untracked();
    RT.with(|c| {
        let mut b = c.borrow_mut();
        f(b.as_mut().expect("mcrt: no runtime on this thread"))
    })
}

pub fn try_rt<R>(f: impl FnOnce(&mut Rt) -> R) -> Option<R> {
    let _u = untracked();
    RT.try_with(|c| {
        let mut b = c.try_borrow_mut().ok()?;
        b.as_mut().map(|rt| f(rt))
    })
    .ok()
    .flatten()
}

pub fn active() -> bool {
    try_rt(|_| ()).is_some()
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info
            .location()
            .map(|l| {
                let f = l.file();
                let f = f.strip_prefix("/repo/").unwrap_or(f);
                format!("{}:{}", f, l.line())
            })
            .unwrap_or_default();
        if std::env::var_os("MC_BACKTRACE").is_some() {
            eprintln!("panic: {} at {}\n{}", msg, loc, std::backtrace::Backtrace::force_capture());
        }
        let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = Some(format!("{} at {}", msg, loc)));
    }));
}

fn payload_msg(_p: Box<dyn Any + Send>) -> String {
    LAST_PANIC
        .with(|p| p.borrow_mut().take())
        .unwrap_or_else(|| "panic".into())
}

// ---------------------------------------------------------------- choices

impl Rt {
    pub(crate) fn new(cfg: RtConfig, prefix: Vec<ChoiceRec>, verbose: bool) -> Rt {
        let epoch = EPOCH.with(|e| {
            let v = e.get();
            e.set(v + 1);
            v
        });
        Rt {
            epoch,
            cfg,
            tasks: Vec::new(),
            queue: VecDeque::new(),
            forced: None,
            current: None,
            now: 0,
            timers: BTreeMap::new(),
            spinners: Vec::new(),
            timer_seq: 0,
            net: net::Net::new(),
            prefix,
            choices: Vec::new(),
            diverged: None,
            steps: 0,
            livelock: false,
            panics: Vec::new(),
            log: Vec::new(),
            log_hash: 0xcbf29ce484222325,
            state_hashes: Vec::new(),
            verbose,
            teardown: false,
        }
    }

    fn choose(&mut self, n: usize, tag: &str, kind: Kind) -> usize {
        if n <= 1 || self.teardown {
            return 0;
        }
        let mut h = DefaultHasher::new();
        tag.hash(&mut h);
        let tag_h = h.finish() as u32;
        let i = self.choices.len();
        let mut picked = 0usize;
        if i < self.prefix.len() {
            let p = self.prefix[i];
            picked = p.picked as usize;
            if picked >= n || (p.n != 0 && (p.n as usize != n || p.tag != tag_h || p.kind != kind)) {
                if self.diverged.is_none() {
                    self.diverged = Some(format!(
                        "choice {} expected n={} tag={:x} picked={}, got n={} tag={} ({:x})",
                        i, p.n, p.tag, p.picked, n, tag, tag_h
                    ));
                }
                picked = picked.min(n - 1);
            }
        }
        self.choices.push(ChoiceRec {
            n: n as u16,
            picked: picked as u16,
            kind,
            tag: tag_h,
        });
        if self.verbose && picked != 0 && kind == Kind::Dev {
            self.log.push(format!("    [choice {}: {} of {} at {}]", i, picked, n, tag));
        }
        picked
    }

    pub(crate) fn tick(&mut self) -> bool {
        self.steps += 1;
        if self.steps > self.cfg.max_steps {
            self.livelock = true;
        }
        self.livelock && !self.teardown
    }

    fn event(&mut self, s: String) {
        let mut h = DefaultHasher::new();
        self.log_hash.hash(&mut h);
        s.hash(&mut h);
        self.log_hash = h.finish();
        self.state_hashes.push(self.log_hash);
        self.log.push(s);
    }

    fn make_runnable(&mut self, id: TaskId) {
        let t = &mut self.tasks[id];
        match t.state {
            TState::Blocked => {
                if t.running || t.midpoll {
                    t.woken = true;
                } else {
                    t.state = TState::Runnable;
                    self.queue.push_back(id);
                }
            }
            TState::Runnable | TState::SpinWait(_) => t.woken = true,
            TState::Done | TState::Frozen => {}
        }
    }
}

/// Explorer choice with all alternatives always explored.
pub fn choose(n: usize, tag: &str) -> usize {
    with_rt(|rt| rt.choose(n, tag, Kind::Free))
}

/// Explorer choice whose alternatives other than 0 cost a deviation.
pub fn choose_dev(n: usize, tag: &str) -> usize {
    with_rt(|rt| rt.choose(n, tag, Kind::Dev))
}

/// Used by the patched futures-util `shuffle`: index in 0..n, where n-1 means "no swap".
pub fn select_index(n: usize) -> usize {
    match try_rt(|rt| {
        if rt.cfg.select && !rt.teardown {
            Some(rt.choose(n, "select", Kind::Dev))
        } else {
            None
        }
    }) {
        Some(Some(i)) => (n - 1) - i,
        _ => n - 1,
    }
}

/// Record an observable event of this execution.
pub fn event(s: impl Into<String>) {
    let s = s.into();
    let _ = try_rt(|rt| {
        if !rt.teardown {
            // a copy of the runtime's own
            rt.event(s.clone())
        }
    });
}

/// Free-form note, visible in replays only.
pub fn note(s: impl FnOnce() -> String) {
    let v = try_rt(|rt| rt.verbose).unwrap_or(false);
    if v {
        let s = s();
        let _ = try_rt(|rt| rt.log.push(s));
    }
}

// ---------------------------------------------------------------- tasks

struct TaskWaker {
    id: TaskId,
    epoch: u64,
}

impl Wake for TaskWaker {
    fn wake(self: Arc<Self>) {
        Self::wake_by_ref(&self)
    }
    fn wake_by_ref(self: &Arc<Self>) {
        let (id, epoch) = (self.id, self.epoch);
        let _ = try_rt(|rt| {
            if rt.epoch == epoch && !rt.teardown {
                rt.make_runnable(id)
            }
        });
    }
}

fn take_stack() -> DefaultStack {
    STACKS
        .with(|s| s.borrow_mut().pop())
        .unwrap_or_else(|| DefaultStack::new(1 << 20).expect("stack"))
}

/// Suspend the current task in the middle of a poll. Returns when resumed.
fn suspend_midpoll(s: Susp) {
    let y = with_rt(|rt| {
        let id = rt.current.expect("suspend outside task");
        rt.tasks[id].midpoll = true;
        rt.tasks[id].yielder
    });
    let cmd = unsafe { (*y).suspend(s) };
    let _ = cmd;
    with_rt(|rt| {
        if let Some(id) = rt.current {
            rt.tasks[id].midpoll = false;
        }
    });
}

/// A synchronisation operation is about to happen: another task may run first.
pub fn sched_point(tag: &'static str) {
    if std::thread::panicking() {
        return;
    }
    let sw = try_rt(|rt| {
        if rt.teardown || !rt.cfg.preempt {
            return None;
        }
        let id = rt.current?;
        if !rt.tasks[id].preempt {
            return None;
        }
        let n = rt.queue.len();
        if n == 0 {
            return None;
        }
        let c = rt.choose(n + 1, tag, Kind::Dev);
        if c == 0 {
            return None;
        }
        let other = rt.queue.remove(c - 1).unwrap();
        rt.forced = Some(other);
        rt.queue.push_front(id);
        Some(())
    })
    .flatten();
    if sw.is_some() {
        suspend_midpoll(Susp::Preempted);
    }
}

/// The spin lock at `addr` is held by someone else.
pub fn spin_block(addr: usize) {
    let st = try_rt(|rt| (rt.teardown, rt.current.is_some()));
    match st {
        Some((false, true)) => suspend_midpoll(Susp::Spin(addr)),
        Some((true, _)) | None => {
            // Nobody can release it any more.
            resume_unwind(Box::new("mcrt: spin lock contended during teardown"));
        }
        Some((false, false)) => {
            panic!("mcrt: spin lock is held by a task suspended at an await point")
        }
    }
}

pub fn spin_release(addr: usize) {
    let _ = try_rt(|rt| {
        if rt.teardown {
            return;
        }
        let mut spinners = std::mem::take(&mut rt.spinners);
        spinners.sort_unstable();
        spinners.dedup();
        spinners.retain(|&id| {
            if rt.tasks[id].state == TState::SpinWait(addr) {
                rt.tasks[id].state = TState::Runnable;
                rt.queue.push_back(id);
            }
            matches!(rt.tasks[id].state, TState::SpinWait(_))
        });
        rt.spinners = spinners;
    });
}

/// Count an operation towards the horizon; an execution that exceeds it is a livelock.
pub fn op_tick() {
    let over = try_rt(|rt| rt.tick() && rt.current.is_some()).unwrap_or(false);
    if over {
        suspend_midpoll(Susp::Freeze);
    }
}

fn spawn_raw(
    name: String,
    server: bool,
    fut: Pin<Box<dyn Future<Output = ()>>>,
    on_done: Option<Box<dyn FnOnce()>>,
) -> TaskId {
    let _u = untracked();
    let stack = take_stack();
    let (id, epoch) = with_rt(|rt| (rt.tasks.len(), rt.epoch));
    let waker: Waker = Arc::new(TaskWaker { id, epoch }).into();
    let mut fut = Some(fut);
    let co = Coroutine::with_stack(stack, move |y: &Yielder<Cmd, Susp>, cmd: Cmd| {
        if cmd == Cmd::Abort {
            let f = fut.take();
            let r = catch_unwind(AssertUnwindSafe(move || drop(f)));
            drop(r);
            return;
        }
        with_rt(|rt| rt.tasks[id].yielder = y as *const _);
        let mut cx = Context::from_waker(&waker);
        loop {
            let r = catch_unwind(AssertUnwindSafe(|| fut.as_mut().unwrap().as_mut().poll(&mut cx)));
            match r {
                Ok(Poll::Ready(())) => break,
                Ok(Poll::Pending) => {
                    if y.suspend(Susp::Pending) == Cmd::Abort {
                        break;
                    }
                }
                Err(p) => {
                    let teardown = try_rt(|rt| rt.teardown).unwrap_or(true);
                    if teardown {
                        // forced unwind
                        let f = fut.take();
                        let _ = catch_unwind(AssertUnwindSafe(move || drop(f)));
                        resume_unwind(p);
                    }
                    let m = payload_msg(p);
                    with_rt(|rt| {
                        let n = rt.tasks[id].name.clone();
                        rt.event(format!("PANIC in {}: {}", n, m));
                        rt.panics.push((n, m))
                    });
                    break;
                }
            }
        }
        let f = fut.take();
        let r = catch_unwind(AssertUnwindSafe(move || drop(f)));
        if let Err(p) = r {
            let m = payload_msg(p);
            let _ = try_rt(|rt| {
                if !rt.teardown {
                    rt.panics.push(("drop".into(), m));
                }
            });
        }
    });
    with_rt(|rt| {
        rt.tasks.push(Task {
            name,
            state: TState::Runnable,
            woken: false,
            running: false,
            cancelled: false,
            midpoll: false,
            preempt: true,
            server,
            co: Some(co),
            yielder: std::ptr::null(),
            on_done,
        });
        rt.queue.push_back(id);
        id
    })
}

struct JoinState<T> {
    done: bool,
    val: Option<T>,
    wakers: Vec<Waker>,
}

/// Handle of a spawned task.
pub struct JoinHandle<T> {
    st: Arc<Mutex<JoinState<T>>>,
    id: TaskId,
    epoch: u64,
}

impl<T> std::fmt::Debug for JoinHandle<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "JoinHandle({})", self.id)
    }
}

impl<T> Unpin for JoinHandle<T> {}

impl<T> Future for JoinHandle<T> {
    type Output = T;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<T> {
        let mut st = self.st.lock().unwrap();
        if st.done {
            match st.val.take() {
                Some(v) => Poll::Ready(v),
                None => panic!("task has failed"),
            }
        } else {
            st.wakers.push(cx.waker().clone());
            Poll::Pending
        }
    }
}

impl<T> JoinHandle<T> {
    pub fn detach(self) {}
    pub fn is_done(&self) -> bool {
        self.st.lock().unwrap().done
    }
    pub fn try_take(&self) -> Option<T> {
        self.st.lock().unwrap().val.take()
    }
    pub fn id(&self) -> TaskId {
        self.id
    }
    /// Request cancellation: the task's future is dropped the next time it is scheduled.
    pub fn abort(&self) {
        let (id, epoch) = (self.id, self.epoch);
        let _ = try_rt(|rt| {
            if rt.epoch == epoch && !rt.teardown && rt.tasks[id].state != TState::Done {
                rt.tasks[id].cancelled = true;
                rt.make_runnable(id);
            }
        });
    }
    pub async fn cancel(self) -> Option<T> {
        self.abort();
        let st = self.st.clone();
        std::future::poll_fn(move |cx| {
            let mut st = st.lock().unwrap();
            if st.done {
                Poll::Ready(st.val.take())
            } else {
                st.wakers.push(cx.waker().clone());
                Poll::Pending
            }
        })
        .await
    }
}

fn spawn_inner<F>(name: String, server: bool, fut: F) -> JoinHandle<F::Output>
where
    F: Future + 'static,
    F::Output: 'static,
{
    let _u = untracked();
    let st = Arc::new(Mutex::new(JoinState {
        done: false,
        val: None,
        wakers: Vec::new(),
    }));
    let st2 = st.clone();
    let st3 = st.clone();
    let id = spawn_raw(
        name,
        server,
        Box::pin(async move {
            let v = fut.await;
            st2.lock().unwrap().val = Some(v);
        }),
        Some(Box::new(move || {
            let ws = {
                let mut s = st3.lock().unwrap();
                s.done = true;
                std::mem::take(&mut s.wakers)
            };
            for w in ws {
                w.wake()
            }
        })),
    );
    JoinHandle {
        st,
        id,
        epoch: with_rt(|rt| rt.epoch),
    }
}

/// Spawn a task of the code under test (used by the patched async-std).
pub fn spawn<F>(fut: F) -> JoinHandle<F::Output>
where
    F: Future + 'static,
    F::Output: 'static,
{
    let n = with_rt(|rt| rt.tasks.len());
    let _u = untracked();
    spawn_inner(format!("srv{}", n), true, fut)
}

/// Spawn a harness task.
pub fn spawn_named<F>(name: &str, fut: F) -> JoinHandle<F::Output>
where
    F: Future + 'static,
    F::Output: 'static,
{
    let _u = untracked();
    spawn_inner(name.to_string(), true, fut)
}

/// Spawn a harness (client) task which is never preempted in the middle of a poll.
pub fn spawn_client<F>(name: &str, fut: F) -> JoinHandle<F::Output>
where
    F: Future + 'static,
    F::Output: 'static,
{
    let _u = untracked();
    let h = spawn_inner(name.to_string(), false, fut);
    with_rt(|rt| rt.tasks[h.id].preempt = false);
    h
}

enum Step {
    Ran,
    Idle,
}

fn step_once() -> Step {
    // pick
    let picked = with_rt(|rt| {
        if rt.livelock || rt.diverged.is_some() {
            return None;
        }
        if let Some(id) = rt.forced.take() {
            return Some(id);
        }
        let n = rt.queue.len();
        if n == 0 {
            return None;
        }
        let mut idx = 0;
        if rt.cfg.sched {
            let timer = rt.cfg.early_timers && !rt.timers.is_empty();
            let total = n + timer as usize;
            idx = rt.choose(total, "sched", Kind::Dev);
            if idx == n {
                return Some(usize::MAX);
            }
        }
        rt.queue.remove(idx)
    });
    let id = match picked {
        None => return Step::Idle,
        Some(usize::MAX) => {
            fire_next_timer();
            return Step::Ran;
        }
        Some(id) => id,
    };
    let (mut co, cmd) = with_rt(|rt| {
        rt.steps += 1;
        if rt.steps > rt.cfg.max_steps {
            rt.livelock = true;
        }
        rt.current = Some(id);
        let t = &mut rt.tasks[id];
        t.running = true;
        let cmd = if t.cancelled && !t.midpoll { Cmd::Abort } else { Cmd::Go };
        if !t.midpoll {
            t.woken = false;
        }
        // while running or suspended in a poll, a wake-up sets `woken`
        t.state = TState::Blocked;
        (t.co.take().expect("coroutine"), cmd)
    });
    let r = co.resume(cmd);
    let done = with_rt(|rt| {
        rt.current = None;
        let t = &mut rt.tasks[id];
        t.running = false;
        match r {
            CoroutineResult::Yield(Susp::Pending) => {
                t.co = Some(co);
                t.midpoll = false;
                if t.woken || t.cancelled {
                    t.state = TState::Runnable;
                    rt.queue.push_back(id);
                } else {
                    t.state = TState::Blocked;
                }
                None
            }
            CoroutineResult::Yield(Susp::Preempted) => {
                t.co = Some(co);
                t.state = TState::Runnable;
                None
            }
            CoroutineResult::Yield(Susp::Spin(a)) => {
                t.co = Some(co);
                t.state = TState::SpinWait(a);
                rt.spinners.push(id);
                None
            }
            CoroutineResult::Yield(Susp::Freeze) => {
                t.co = Some(co);
                t.state = TState::Frozen;
                None
            }
            CoroutineResult::Return(()) => {
                t.state = TState::Done;
                let s = co.into_stack();
                STACKS.with(|st| st.borrow_mut().push(s));
                t.on_done.take()
            }
        }
    });
    if let Some(f) = done {
        f()
    }
    Step::Ran
}

/// Run tasks until none is runnable. Virtual time does not advance (except by an early-timer deviation).
pub fn run_idle() {
    while let Step::Ran = step_once() {}
}

/// Jump to the earliest timer and fire it. False if there is none.
pub fn fire_next_timer() -> bool {
    let w = with_rt(|rt| {
        let k = *rt.timers.keys().next()?;
        let w = rt.timers.remove(&k).unwrap();
        rt.now = rt.now.max(k.0);
        Some(w)
    });
    match w {
        Some(w) => {
            w.wake();
            true
        }
        None => false,
    }
}

/// Run until idle, then let virtual time pass up to `ns` from now, running whatever fires.
pub fn run_for(ns: u64) {
    let end = with_rt(|rt| rt.now + ns);
    loop {
        run_idle();
        let next = with_rt(|rt| {
            if rt.livelock || rt.diverged.is_some() {
                None
            } else {
                rt.timers.keys().next().copied()
            }
        });
        match next {
            Some((t, _)) if t <= end => {
                fire_next_timer();
            }
            _ => break,
        }
    }
    with_rt(|rt| rt.now = rt.now.max(end));
}

pub const MS: u64 = 1_000_000;
pub const SEC: u64 = 1_000_000_000;

pub fn now_ns() -> u64 {
    with_rt(|rt| rt.now)
}

/// Reasons why this execution is stuck or broken, if any: panics, livelock, a spin lock which is waited
/// for while no task can release it.
pub fn trouble() -> Option<String> {
    with_rt(|rt| {
        if let Some((n, m)) = rt.panics.first() {
            let n: String = n.chars().filter(|c| !c.is_ascii_digit()).collect();
            return Some(format!("panic in {}: {}", n, m));
        }
        if rt.livelock {
            return Some("livelock: execution exceeded its horizon without going quiescent".into());
        }
        if rt.queue.is_empty() && rt.forced.is_none() {
            let tasks = &rt.tasks;
            rt.spinners.retain(|i| matches!(tasks[*i].state, TState::SpinWait(_)));
            if !rt.spinners.is_empty() {
                return Some("a task busy-waits on a spin lock whose holder is suspended at an await point".into());
            }
        }
        None
    })
}

/// Tasks of the harness or server that have not finished.
pub fn alive_tasks() -> usize {
    with_rt(|rt| rt.tasks.iter().filter(|t| t.state != TState::Done).count())
}

pub fn task_done(id: TaskId) -> bool {
    with_rt(|rt| rt.tasks[id].state == TState::Done)
}

pub fn total_tasks() -> usize {
    with_rt(|rt| rt.tasks.len())
}

/// Scheduling choices on/off during an execution (set-up and final drain are not explored).
pub fn set_explore(preempt: bool, sched: bool, select: bool, early: bool) {
    with_rt(|rt| {
        rt.cfg.preempt = preempt;
        rt.cfg.sched = sched;
        rt.cfg.select = select;
        rt.cfg.early_timers = early;
    })
}

pub fn explore_off() {
    set_explore(false, false, false, false)
}

pub(crate) fn install(rt: Rt) {
    hash::seed(1);
    RT.with(|c| {
        let mut b = c.borrow_mut();
        assert!(b.is_none());
        *b = Some(Box::new(rt));
    })
}

pub(crate) fn teardown() -> Box<Rt> {
    with_rt(|rt| {
        rt.teardown = true;
        rt.current = None;
    });
    let n = with_rt(|rt| rt.tasks.len());
    for id in 0..n {
        let (co, mid) = with_rt(|rt| {
            let t = &mut rt.tasks[id];
            t.state = TState::Done;
            (t.co.take(), t.midpoll)
        });
        if let Some(mut co) = co {
            if co.done() {
                continue;
            }
            if mid {
                // Leak the pieces of a frame suspended in the middle of a poll; forced unwinding runs its drops.
                let r = catch_unwind(AssertUnwindSafe(|| {
                    co.force_unwind();
                }));
                drop(r);
                if co.done() {
                    let s = co.into_stack();
                    STACKS.with(|st| st.borrow_mut().push(s));
                } else {
                    std::mem::forget(co);
                }
            } else {
                match co.resume(Cmd::Abort) {
                    CoroutineResult::Return(()) => {
                        let s = co.into_stack();
                        STACKS.with(|st| st.borrow_mut().push(s));
                    }
                    CoroutineResult::Yield(_) => std::mem::forget(co),
                }
            }
        }
    }
    // join states and their wakers may hold further handles
    let dones: Vec<_> = with_rt(|rt| rt.tasks.iter_mut().map(|t| t.on_done.take()).collect());
    drop(dones);
    let timers = with_rt(|rt| std::mem::take(&mut rt.timers));
    drop(timers);
    let net = with_rt(|rt| std::mem::replace(&mut rt.net, net::Net::new()));
    drop(net);
    RT.with(|c| c.borrow_mut().take().unwrap())
}
