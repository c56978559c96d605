//! C16-C20: HiSLIP locks, clear, independence of channels, service requests, remote control.
use super::lock::Model;
use crate::common::*;
use crate::dev::*;
use crate::hs::*;
use lxi_device::lock::LockHandle;
use lxi_device::trigger::Source;
use lxi_hislip::server::ServerConfig;
use std::cell::RefCell;
use std::rc::Rc;

// ------------------------------------------------------------------ C16

const KEYS: [&[u8]; 3] = [b"", b"keys", b"key\0"];

struct Cl16 {
    s: Option<Sess>,
    /// pending lock request: key, deadline
    lock: Option<(usize, u64)>,
    /// pending command
    data: Option<Vec<u8>>,
    seq: u32,
}

struct W16 {
    c: Vec<Cl16>,
    m: Model,
    probe: Probe,
    trace: Vec<String>,
}

impl W16 {
    fn err(&self, sig: &str, what: String) -> Verdict {
        bad(format!("{} after {}", sig, self.trace.join(", ")), format!("{} (history: {})", what, self.trace.join(", ")))
    }
    /// Take all responses; they must be explained by granting pending requests in some order.
    fn settle(&mut self) -> Verdict {
        no_trouble()?;
        let mut granted = Vec::new();
        for i in 0..self.c.len() {
            let Some(s) = &self.c[i].s else { continue };
            let r = s.asy.msgs();
            for x in r {
                let Some((k, deadline)) = self.c[i].lock else {
                    return self.err("extra", format!("client {} received [{}]", i, x.text()));
                };
                match (x.typ, x.ctrl) {
                    (LOCK_R, 1) => granted.push((i, k)),
                    (LOCK_R, 0) if now_ns() >= deadline => {}
                    _ => return self.err("waiting", format!("client {}, waiting for a lock (deadline {} ms, now {} ms), received [{}]", i, deadline / MS, now_ns() / MS, x.text())),
                }
                self.c[i].lock = None;
            }
        }
        // some order of the grants must be possible
        let n = self.c.len();
        let mut could: Vec<bool> = (0..n).map(|i| self.m.can(i).is_ok()).collect();
        let Some((m, seen)) = order(&self.m, &granted, n) else {
            return self.err("impossible grant", format!("lock granted to {:?}, which cannot hold at once", granted.iter().map(|g| g.0).collect::<Vec<_>>()));
        };
        self.m = m;
        for (c, s) in could.iter_mut().zip(seen) {
            *c |= s
        }
        for i in 0..n {
            if let Some((k, deadline)) = self.c[i].lock {
                if self.m.clone().acquire(i, k).is_ok() {
                    return self.err("no grant", format!("client {} still waits for a lock that is available", i));
                }
                if now_ns() >= deadline {
                    return self.err("no timeout", format!("client {} still waits for a lock {} ms after its timeout", i, (now_ns() - deadline) / MS));
                }
            }
        }
        // commands
        let ex = self.probe.execs();
        let mut used = 0;
        for i in 0..n {
            let Some(s) = &self.c[i].s else { continue };
            let r = s.sync.msgs();
            let Some(d) = self.c[i].data.clone() else {
                if !r.is_empty() {
                    return self.err("extra sync", format!("client {} received [{}]", i, texts(&r)));
                }
                continue;
            };
            let done = ex.contains(&d);
            if done {
                used += 1;
            }
            if done && !could[i] {
                return self.err("locked out", format!("client {} is locked out but its command \"{}\" was executed", i, show(&d)));
            }
            if !done && self.m.can(i).is_ok() {
                return self.err("not executed", format!("the command \"{}\" of client {} was not executed", show(&d), i));
            }
            let want = if done { vec![msg(END, 0, self.c[i].seq, &rule(&d).unwrap())] } else { vec![] };
            if r != want {
                return self.err("data answer", format!("client {} received [{}], expected [{}]", i, texts(&r), texts(&want)));
            }
            if done {
                self.c[i].data = None;
            }
        }
        if used != ex.len() {
            return self.err("extra exec", format!("executed {:?}", ex));
        }
        self.probe.take();
        Ok(())
    }
}

/// Apply grants in some possible order; also tells who could use the device somewhere in between.
fn order(m: &Model, g: &[(usize, usize)], n: usize) -> Option<(Model, Vec<bool>)> {
    if g.is_empty() {
        return Some((m.clone(), (0..n).map(|i| m.can(i).is_ok()).collect()));
    }
    let mut best: Option<(Model, Vec<bool>)> = None;
    for i in 0..g.len() {
        let mut m2 = m.clone();
        if m2.acquire(g[i].0, g[i].1).is_err() {
            continue;
        }
        let mut rest = g.to_vec();
        rest.remove(i);
        if let Some((f, mut seen)) = order(&m2, &rest, n) {
            for (j, s) in seen.iter_mut().enumerate() {
                *s |= m.can(j).is_ok();
            }
            best = Some(match best {
                None => (f, seen),
                Some((f, b)) => (f, b.iter().zip(&seen).map(|(a, b)| *a || *b).collect()),
            });
        }
    }
    best
}

fn locks16(n: usize, depth: usize) -> Verdict {
    let p = Probe::new();
    let _srv = start(&p, ServerConfig::default());
    let mut w = W16 { c: Vec::new(), m: Model::default(), probe: p, trace: Vec::new() };
    for _ in 0..n {
        let s = open(V1)?;
        w.c.push(Cl16 { s: Some(s), lock: None, data: None, seq: 0 });
    }
    w.probe.take();
    for _ in 0..depth {
        let mut ops: Vec<(usize, usize)> = vec![(0, 99)];
        for i in 0..n {
            if w.c[i].s.is_none() {
                continue;
            }
            if w.c[i].lock.is_none() {
                ops.extend((0..9).map(|k| (i, k)));
            }
            if w.c[i].data.is_none() {
                ops.push((i, 10));
            }
            if w.c[i].lock.is_none() && w.c[i].data.is_none() {
                ops.push((i, 11));
            }
        }
        let k = choose(ops.len() + 1, "op");
        if k == 0 {
            break;
        }
        let (i, op) = ops[k - 1];
        match op {
            99 => {
                w.trace.push("60 ms pass".into());
                run_for(60 * MS);
            }
            0..=4 => {
                let (key, t) = [(0, 0), (1, 0), (2, 0), (0, 100), (1, 100)][op];
                w.trace.push(format!("{} locks \"{}\" timeout {}", i, show(KEYS[key]), t));
                let s = w.c[i].s.as_ref().unwrap();
                s.asy.send(LOCK, 1, t, KEYS[key]);
                match w.m.clone().acquire(i, key) {
                    Ok(()) => {
                        w.m.acquire(i, key).unwrap();
                        w.expect(i, 1)?;
                    }
                    Err("AlreadyLocked") => w.expect(i, 3)?,
                    Err(_) if t == 0 => w.expect(i, 0)?,
                    Err(_) => {
                        w.c[i].lock = Some((key, now_ns() + t as u64 * MS));
                        run_idle();
                    }
                }
            }
            5 => {
                w.trace.push(format!("{} locks an invalid key", i));
                w.c[i].s.as_ref().unwrap().asy.send(LOCK, 1, 0, b"\xff\xfe");
                w.expect(i, 3)?;
            }
            6 => {
                w.trace.push(format!("{} releases", i));
                w.c[i].s.as_ref().unwrap().asy.send(LOCK, 0, 2, b"");
                let code = match w.m.release(i) {
                    Ok("Exclusive") => 1,
                    Ok(_) => 2,
                    Err(_) => 3,
                };
                run_idle();
                let r = w.c[i].s.as_ref().unwrap().asy.msgs();
                if r.len() != 1 || r[0].typ != LOCK_R || r[0].ctrl != code {
                    return w.err("release", format!("the release of client {} is answered [{}], expected code {}", i, texts(&r), code));
                }
            }
            7 | 8 => {
                if op == 8 {
                    continue;
                }
                w.trace.push(format!("{} asks for lock info", i));
                w.c[i].s.as_ref().unwrap().asy.send(INFO, 0, 0, b"");
                run_idle();
                let r = w.c[i].s.as_ref().unwrap().asy.msgs();
                let (e, sh) = (w.m.excl.is_some() as u8, w.m.holders.len() as u32);
                // clients holding a lock: shared holders, with or without counting the exclusive one twice
                if r.len() != 1 || r[0].typ != INFO_R || r[0].ctrl != e || !(r[0].param == sh || r[0].param == sh + e as u32) {
                    return w.err("info", format!("lock info is [{}], expected exclusive {} and {} shared", texts(&r), e, sh));
                }
            }
            10 => {
                w.c[i].seq += 2;
                let d = format!("q{}.{}", i, w.c[i].seq).into_bytes();
                w.trace.push(format!("{} queries", i));
                w.c[i].s.as_ref().unwrap().sync.send(END, 0, w.c[i].seq, &d);
                w.c[i].data = Some(d);
                run_idle();
            }
            _ => {
                w.trace.push(format!("{} disconnects", i));
                w.c[i].s = None;
                let _ = w.m.release(i);
                run_idle();
            }
        }
        w.settle()?;
    }
    // everything that is pending gets its answer
    w.trace.push("200 ms pass".into());
    run_for(200 * MS);
    w.settle()
}

impl W16 {
    /// An immediate answer to a lock request. Grants change nothing for others that wait.
    fn expect(&mut self, i: usize, code: u8) -> Verdict {
        run_idle();
        no_trouble()?;
        let r = self.c[i].s.as_ref().unwrap().asy.msgs();
        if r.len() != 1 || r[0].typ != LOCK_R || r[0].ctrl != code {
            return self.err("lock", format!("the lock request of client {} is answered [{}], expected code {}", i, texts(&r), code));
        }
        Ok(())
    }
}

/// Clients racing for locks: exclusion and completion.
fn race16(n: usize, early: bool) -> Verdict {
    // the lock each client knows it holds, and whether the device was used since it knows
    let held: Rc<RefCell<Vec<Option<(usize, bool)>>>> = Rc::new(RefCell::new(vec![None; n]));
    // commands sent while nobody knew of a lock that excludes them
    let early_cmd: Rc<RefCell<Vec<bool>>> = Rc::new(RefCell::new(vec![false; n]));
    let wrong: Rc<RefCell<Option<String>>> = Rc::default();
    let p = Probe::with(rule);
    let srv = start(&p, ServerConfig::default());
    let kinds: Vec<usize> = (0..n).map(|_| choose(5, "program")).collect();
    let ss: Vec<Sess> = (0..n).map(|_| open(V1)).collect::<Result<_, _>>()?;
    p.take();
    {
        struct Shared(Rc<RefCell<Vec<Option<(usize, bool)>>>>, Rc<RefCell<Option<String>>>, Rc<RefCell<Vec<bool>>>);
        // one thread only
        unsafe impl Send for Shared {}
        let sh = Shared(held.clone(), wrong.clone(), early_cmd.clone());
        p.0.lock().unwrap().respond = Box::new(move |c| {
            let sh = &sh;
            let i = (c[1] - b'0') as usize;
            let mut h = sh.0.borrow_mut();
            let mine = h[i].map(|x| x.0);
            for (j, e) in h.iter_mut().enumerate() {
                if let Some((k, used)) = e {
                    let was_used = std::mem::replace(used, true);
                    let same = *k != 0 && mine == Some(*k);
                    // a command that had the device when the lock was granted may finish
                    let in_progress = !was_used && sh.2.borrow()[i];
                    if j != i && !same && !in_progress {
                        *sh.1.borrow_mut() = Some(format!("client {} holds lock \"{}\" but a command of client {} is executed", j, show(KEYS[*k]), i));
                    }
                }
            }
            rule(c)
        });
    }
    mcrt::set_explore(true, true, true, early);
    let mut hs = Vec::new();
    for (i, s) in ss.into_iter().enumerate() {
        let k = kinds[i];
        let held = held.clone();
        let early_cmd = early_cmd.clone();
        hs.push(mcrt::spawn_client(&format!("client{}", i), async move {
            let (key, t) = match k {
                0 => (Some(0), 1000),
                1 => (Some(1), 1000),
                2 => (Some(0), 0),
                3 => (Some(1), 0),
                _ => (None, 0),
            };
            if let Some(key) = key {
                s.asy.send(LOCK, 1, t, KEYS[key]);
                let Some(r) = s.asy.next().await else { return Err("connection closed".to_string()) };
                match (r.typ, r.ctrl) {
                    (LOCK_R, 1) => {}
                    (LOCK_R, 0) if t == 0 || early => return Ok(s),
                    _ => return Err(format!("lock request answered [{}]", r.text())),
                }
                held.borrow_mut()[i] = Some((key, false));
            }
            let c = [b'q', b'0' + i as u8];
            early_cmd.borrow_mut()[i] = held.borrow().iter().enumerate().all(|(j, e)| j == i || e.is_none());
            s.sync.send(END, 0, 2, &c);
            let r = s.sync.next().await;
            if r != Some(msg(END, 0, 2, &rule(&c).unwrap())) {
                return Err(format!("query answered [{}]", r.map_or("nothing".into(), |m| m.text())));
            }
            if let Some(key) = key {
                held.borrow_mut()[i] = None;
                s.asy.send(LOCK, 0, 2, b"");
                let r = s.asy.next().await;
                let code = if key == 0 { 1 } else { 2 };
                if r.as_ref().map(|r| (r.typ, r.ctrl)) != Some((LOCK_R, code)) {
                    return Err(format!("release answered [{}]", r.map_or("nothing".into(), |m| m.text())));
                }
            }
            Ok(s)
        }));
    }
    run_idle();
    mcrt::explore_off();
    no_trouble()?;
    if let Some(e) = wrong.borrow().clone() {
        return bad(format!("exclusion {:?}", kinds), e);
    }
    for (i, h) in hs.into_iter().enumerate() {
        match h.try_take() {
            None => return bad(format!("stuck {:?}", kinds), format!("client {} of {:?} is never answered although every lock is released", i, kinds)),
            Some(Err(e)) => return bad(format!("answer {:?} {}", kinds, e), format!("client {}: {}", i, e)),
            Some(Ok(_)) => {}
        }
    }
    let _ = srv;
    Ok(())
}

/// Lock requests with timeouts of all magnitudes: still waiting right before the end, served then or refused.
fn timeouts16() -> Verdict {
    let p = Probe::new();
    let _srv = start(&p, ServerConfig::default());
    let (a, b) = (open(V1)?, open(V1)?);
    let (ka, kb) = [(0, 0), (0, 1), (1, 0), (1, 2)][choose(4, "keys")];
    let to = super::vxi::TIMEOUTS[choose(super::vxi::TIMEOUTS.len(), "timeout")];
    let ctx = format!("one client locks \"{}\", another asks for \"{}\" with a timeout of {} ms", show(KEYS[ka]), show(KEYS[kb]), to);
    a.asy.send(LOCK, 1, 0, KEYS[ka]);
    run_idle();
    let r = a.asy.msgs();
    if r.len() != 1 || r[0].typ != LOCK_R || r[0].ctrl != 1 {
        return bad("lock", format!("{}: the first one gets [{}]", ctx, texts(&r)));
    }
    b.asy.send(LOCK, 1, to, KEYS[kb]);
    run_idle();
    run_for((to as u64 - 60) * MS);
    no_trouble()?;
    let r = b.asy.msgs();
    if !r.is_empty() {
        return bad("early", format!("{}: 60 ms before it gets [{}]", ctx, texts(&r)));
    }
    let then = choose(3, "then");
    match then {
        0 => a.asy.send(LOCK, 0, 2, b""),
        1 => {
            drop(a);
        }
        _ => run_for(120 * MS),
    }
    run_idle();
    no_trouble()?;
    let r = b.asy.msgs();
    let want = (then < 2) as u8;
    if r.len() != 1 || r[0].typ != LOCK_R || r[0].ctrl != want {
        return bad("answer", format!("{}: {}, it gets [{}], expected code {}", ctx, ["the lock is released 60 ms before", "the other leaves 60 ms before", "60 ms after"][then], texts(&r), want));
    }
    Ok(())
}

/// 300 clients that share a lock: every answer and the lock info are exact.
fn many16() -> Verdict {
    const N: u32 = 300;
    let p = Probe::new();
    let _s = start(&p, ServerConfig::default().max_num_sessions(400));
    let out = open(V1)?;
    let mut v: Vec<Sess> = Vec::new();
    let info = |n: u32, what: &str| {
        out.asy.send(INFO, 0, 0, b"");
        let r = out.asy.idle();
        no_trouble()?;
        if r != vec![msg(INFO_R, 0, n, b"")] {
            return bad(format!("info {} {}", what, n), format!("lock info with {} holders ({}): [{}]", n, what, texts(&r)));
        }
        Ok(())
    };
    let ask = |s: &Sess, ctrl: u8, key: &[u8], want: u8, n: u32| {
        s.asy.send(LOCK, ctrl, 0, key);
        let r = s.asy.idle();
        no_trouble()?;
        if r != vec![msg(LOCK_R, want, 0, b"")] {
            return bad(format!("lock {} {} {}", ctrl, n, want), format!("with {} holders of \"k\" a lock request (control {}, \"{}\") is answered by [{}]", n, ctrl, show(key), texts(&r)));
        }
        Ok(())
    };
    for i in 0..N {
        let s = open([V1, V2][i as usize % 2])?;
        ask(&s, 1, b"k", 1, i)?;
        v.push(s);
        info(i + 1, "joining")?;
        ask(&out, 1, b"", 0, i + 1)?;
        ask(&out, 1, b"j", 0, i + 1)?;
    }
    for i in (0..N).rev() {
        let k = if i % 2 == 0 { 0 } else { v.len() - 1 };
        let s = v.remove(k);
        if i % 3 != 0 {
            ask(&s, 0, b"", 2, i + 1)?;
        }
        drop(s);
        run_idle();
        info(i, "leaving")?;
        if i > 0 {
            ask(&out, 1, b"", 0, i)?;
        }
    }
    ask(&out, 1, b"", 1, 0)
}

/// Every ordered pair of lock strings: shared if and only if equal (up to NULs at the end, which terminate).
fn keys16() -> Verdict {
    let mut ks = super::lock::similar_keys();
    ks.extend([b"a\0b".to_vec(), b"a\0c".to_vec(), b"a\0\0b".to_vec(), b"a\0b\0".to_vec(), b"\0b".to_vec()]);
    ks.retain(|k| k.is_ascii() && k.len() <= 256 && k.iter().any(|c| *c != 0));
    let trim = |k: &[u8]| {
        let n = k.iter().rposition(|c| *c != 0).map_or(0, |n| n + 1);
        k[..n].to_vec()
    };
    let p = Probe::new();
    let _s = start(&p, ServerConfig::default());
    let (i, j) = (choose(ks.len(), "key"), choose(ks.len(), "other key"));
    let a = open(V1)?;
    let b = open(V1)?;
    let same = trim(&ks[i]) == trim(&ks[j]);
    let ctx = format!("lock \"{}\" by one client, \"{}\" by another", show(&ks[i]), show(&ks[j]));
    let mut got = Vec::new();
    for (s, k) in [(&a, &ks[i]), (&b, &ks[j])] {
        s.asy.send(LOCK, 1, 0, k);
        got.extend(s.asy.idle());
    }
    no_trouble()?;
    b.sync.send(END, 0, 2, b"q");
    let r = b.sync.idle();
    for s in [&a, &b] {
        s.asy.send(LOCK, 0, 0, b"");
        got.extend(s.asy.idle());
    }
    no_trouble()?;
    let codes: Vec<(u8, u8)> = got.iter().map(|m| (m.typ, m.ctrl)).collect();
    let want = [1, same as u8, 2, if same { 2 } else { 3 }].map(|c| (LOCK_R, c));
    if codes != want || r.len() != same as usize {
        return bad(format!("keys {} {:?}", ctx, codes), format!("{}, a query by the second, releases by both: answered [{}], the query [{}]", ctx, texts(&got), texts(&r)));
    }
    Ok(())
}

pub fn c16() -> Vec<Scenario> {
    let d2 = q(5, 6);
    let d3 = q(4, 5);
    let b = q(3, 4);
    let b3 = q(2, 2);
    vec![
        Scenario::new("two-clients", format!("all sequences of up to {} of lock (3 keys, with and without timeout, invalid key), release, info, query, disconnect by 2 clients and passing time", d2), move || locks16(2, d2)),
        Scenario::new("three-clients", format!("all sequences of up to {} of the same by 3 clients", d3), move || locks16(3, d3)),
        Scenario::new("many", "300 clients join and leave a shared lock; every answer and the lock info", many16).steps(10_000_000),
        Scenario::new("timeouts", "lock timeouts of 100 ms to 2^32-1 ms, the lock freed right before the end or not", timeouts16),
        Scenario::new("race-2", "2 clients that lock (5 ways), query and release, every interleaving up to the deviation bound", || race16(2, false)).bound(b, b),
        Scenario::new("race-3", "3 clients that lock (5 ways), query and release, every interleaving up to the deviation bound", || race16(3, false)).bound(b3, b3),
        Scenario::new("race-timeouts", "2 clients, timeouts may expire at any moment", || race16(2, true)).bound(b, b),
        Scenario::new("keys", "all pairs of 37 lock strings which differ in case, length, position, NULs inside and at the end", keys16),
        everything_of("C16"),
        pauses_of("C16"),
    ]
}

// ------------------------------------------------------------------ C17

fn long17(c: &[u8]) -> Option<Vec<u8>> {
    if let Some(n) = c.strip_prefix(b"long") {
        let n = std::str::from_utf8(n).ok().and_then(|n| n.parse().ok()).unwrap_or(600);
        Some(vec![b'L'; n])
    } else {
        rule(c)
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Pre {
    Nothing,
    Partial,
    Command,
    Long,
    Locked,
    CutMessage,
    TwoCommands,
    PartialLocked,
}
const PRES: [Pre; 8] = [Pre::Nothing, Pre::Partial, Pre::Command, Pre::Long, Pre::Locked, Pre::CutMessage, Pre::TwoCommands, Pre::PartialLocked];

const LONGS: [&[u8]; 4] = [b"long", b"long5000", b"long70000", b"long1100000"];

fn clear17(explore: bool, pauses: bool) -> Verdict {
    let gap = if pauses { PAUSES[choose(PAUSES.len(), "pause")] } else { 0 };
    let p = Probe::with(long17);
    let prefer = explore || choose(2, "server prefers") == 0;
    let srv = start(&p, if prefer { ServerConfig::default().prefer_overlap() } else { ServerConfig::default().prefer_synchronized() });
    let pre = PRES[choose(8, "before")];
    let extra = choose(5, "after the acknowledgement");
    let rounds = 1 + choose(2, "second clear");
    let feature = choose(2, "overlapped") as u8;
    let settle = if explore { false } else { pauses || choose(2, "settle") == 0 };
    let sb = [1usize, 16, 300][if pre == Pre::Long { choose(3, "socket buffer") } else { 0 }];
    let long = LONGS[if pre == Pre::Long && !explore { choose(LONGS.len(), "long response") } else { 0 }];
    let a = open(V1)?;
    let b = open(V1)?;
    p.take();
    if pre == Pre::Long {
        net::cfg(|c| c.server_buf = sb);
    }
    let mut locker = LockHandle::new(srv.lock.clone(), srv.dev.clone());
    let locked = pre == Pre::Locked || pre == Pre::PartialLocked;
    if pre == Pre::PartialLocked {
        // the partial command is received before the lock
        a.sync.send(DATA, 0, 2, b"partial");
        run_idle();
    }
    if locked {
        locker.try_acquire(b"").unwrap();
    }
    let ctx = format!("{:?} before the clear, extra {}, {} clear(s)", pre, ["nothing", "Data", "DataEnd", "Trigger", "a message of an unknown type"][extra], rounds);
    if explore {
        mcrt::set_explore(true, true, true, false);
    }
    let cut = msg(DATA, 0, 4, b"rest").enc();
    match pre {
        Pre::Nothing => {}
        Pre::Partial | Pre::PartialLocked => a.sync.send(DATA, 0, 2, b"partial"),
        Pre::Command | Pre::Locked => a.sync.send(END, 0, 2, b"q1"),
        Pre::Long => a.sync.send(END, 0, 2, long),
        Pre::CutMessage => a.sync.s.send(&cut[..18]),
        Pre::TwoCommands => {
            a.sync.send(END, 0, 2, b"q1");
            a.sync.send(END, 0, 3, b"q1");
        }
    }
    if settle {
        run_idle();
    }
    let h = mcrt::spawn_client("client", async move {
        let mut before = Vec::new();
        let mut after = Vec::new();
        for round in 0..rounds {
            wait(gap).await;
            a.asy.send(CLEAR, 0, 0, b"");
            match a.asy.next().await {
                Some(m) if m.typ == CLEAR_R => {}
                x => return Err(format!("the clear is answered [{}]", x.map_or("nothing".into(), |m| m.text()))),
            }
            wait(gap).await;
            if round == 0 && pre == Pre::CutMessage {
                a.sync.s.send(&cut[18..]);
                wait(gap).await;
            }
            match extra {
                1 => a.sync.send(DATA, 0, 6, b"stale"),
                2 => a.sync.send(END, 0, 6, b"staleq"),
                3 => a.sync.send(TRIGGER, 0, 6, b""),
                4 => a.sync.send(77, 0, 6, b"stale"),
                _ => {}
            }
            wait(gap).await;
            a.sync.send(CLR_COMPLETE, feature, 0, b"");
            wait(gap).await;
            loop {
                match a.sync.next().await {
                    Some(m) if m.typ == CLR_ACK => {
                        if m.ctrl & 1 != feature {
                            return Err(format!("mode {} acknowledged as {}", feature, m.ctrl));
                        }
                        break;
                    }
                    Some(m) => {
                        if round == 0 || (extra == 4 && m.typ == ERROR) {
                            before.push(m)
                        } else {
                            after.push(m)
                        }
                    }
                    None => return Err("the connection is closed instead of an acknowledgement".into()),
                }
            }
        }
        // a normal command
        wait(gap).await;
        a.sync.send(DATA, 0, 8, b"n");
        wait(gap).await;
        a.sync.send(END, 0, 8, b"q2");
        Ok((a, before, after))
    });
    run_idle();
    mcrt::explore_off();
    run_idle();
    if pauses {
        run_for(20 * gap * MS);
    }
    no_trouble()?;
    let (a, before, mut after) = match h.try_take() {
        None => return bad(format!("stuck {}", ctx), format!("{}: the clear does not finish", ctx)),
        Some(Err(e)) => return bad(format!("clear {} {}", ctx, e), format!("{}: {}", ctx, e)),
        Some(Ok(x)) => x,
    };
    // another client is served, too
    if !locked {
        must_work(&b, b"otherq", &ctx)?;
    } else {
        if !p.calls().is_empty() {
            return bad(format!("locked {}", ctx), format!("{}: the device is locked by another client, but saw [{}]", ctx, show_calls(&p.calls())));
        }
        locker.try_release().unwrap();
    }
    after.extend(a.sync.drain());
    let more = a.asy.drain();
    no_trouble()?;
    if !more.is_empty() {
        return bad(format!("async {} {}", ctx, texts(&more)), format!("{}: further messages on the asynchronous channel: [{}]", ctx, texts(&more)));
    }
    if after != vec![msg(END, 0, 8, b"<nq2>")] {
        return bad(format!("after {} {}", ctx, texts(&after)), format!("{}: after the acknowledged clear the client received [{}]", ctx, texts(&after)));
    }
    // what was answered before belongs to the commands from before
    for m in &before {
        if m.typ == ERROR && extra == 4 {
            continue;
        }
        let ok = (m.typ == DATA || m.typ == END) && (m.param == 2 || m.param == 3) && (m.payload == b"<q1>" || m.payload.iter().all(|c| *c == b'L'));
        if !ok {
            return bad(format!("before {} {}", ctx, m.text()), format!("{}: before the acknowledgement the client received [{}]", ctx, m.text()));
        }
    }
    let ex: Vec<Vec<u8>> = p.execs().into_iter().filter(|c| c != b"otherq").collect();
    let stale: &[&[u8]] = match pre {
        Pre::Command => &[b"q1"],
        Pre::TwoCommands => &[b"q1", b"q1"],
        Pre::Long => std::slice::from_ref(&long),
        _ => &[],
    };
    let n = ex.len();
    if n == 0 || ex[n - 1] != b"nq2" || n - 1 > stale.len() || ex[..n - 1].iter().zip(stale).any(|(a, b)| a != b) {
        return bad(format!("executed {} {:?}", ctx, ex), format!("{}: executed {:?}", ctx, ex.iter().map(|e| show(e)).collect::<Vec<_>>()));
    }
    let calls = p.calls();
    let clears = calls.iter().filter(|c| **c == Call::Clear).count();
    if calls.iter().any(|c| matches!(c, Call::Trigger(_))) {
        return bad(format!("trigger {}", ctx), format!("{}: a trigger from before the completion is executed", ctx));
    }
    if clears != if locked { 0 } else { rounds } {
        return bad(format!("cleared {} {}", ctx, clears), format!("{}: the device was cleared {} times", ctx, clears));
    }
    Ok(())
}

/// Once a clear is acknowledged no stale message follows, whatever the client left unread and while another client
/// holds the lock, too; repeated often.
fn cycles17(depth: usize) -> Verdict {
    let p = Probe::with(long17);
    let srv = start(&p, ServerConfig::default());
    let a = open(V1)?;
    p.take();
    let mut locker = LockHandle::new(srv.lock.clone(), srv.dev.clone());
    let mut locked = false;
    let mut trace = Vec::new();
    // what the server has to do once the device is free: the command received so far, the messages to handle
    let mut partial: Vec<u8> = Vec::new();
    let mut queue: Vec<(usize, u32)> = Vec::new();
    for i in 0..depth {
        let k = choose(7, "op");
        let id = 10 + i as u32;
        match k {
            0 => break,
            1 => {
                trace.push("partial");
                a.sync.send(DATA, 0, id, b"p");
                queue.push((k, id));
            }
            2 => {
                trace.push("query");
                a.sync.send(END, 0, id, b"q");
                queue.push((k, id));
            }
            3 => {
                trace.push("long query, clear");
                a.sync.send(END, 0, id, b"long");
                run_idle();
            }
            4 => trace.push("clear"),
            // (one that is still waiting cannot be told from the completion of a later clear)
            5 if locked => break,
            5 => {
                trace.push("unexpected completion");
                a.sync.send(CLR_COMPLETE, 1, 0, b"");
                queue.push((k, id));
            }
            _ if locked => {
                trace.push("unlock");
                locker.try_release().unwrap();
                locked = false;
            }
            _ => {
                trace.push("lock");
                locker.try_acquire(b"").unwrap();
                locked = true;
            }
        }
        if k == 3 || k == 4 {
            p.take();
            a.asy.send(CLEAR, 0, 0, b"");
            let r = a.asy.idle();
            if r.len() != 1 || r[0].typ != CLEAR_R {
                return bad(format!("ack {:?}", trace), format!("{}: the clear is answered [{}]", trace.join(", "), texts(&r)));
            }
            a.sync.send(CLR_COMPLETE, 1, 0, b"");
            let mut r = a.sync.drain();
            let last = r.pop();
            if !last.as_ref().is_some_and(|m| m.typ == CLR_ACK) || r.iter().any(|m| m.typ == CLR_ACK) {
                return bad(format!("sync ack {:?}", trace), format!("{}: the completion is answered [{}; {}]", trace.join(", "), texts(&r), last.map_or("nothing".into(), |m| m.text())));
            }
            partial.clear();
            queue.clear();
            let want = if locked { vec![] } else { vec![Call::Clear] };
            let got = p.take();
            if got != want {
                return bad(format!("device {:?} {}", trace, got.len()), format!("{}: the device saw [{}] instead of [{}]", trace.join(", "), show_calls(&got), show_calls(&want)));
            }
        } else {
            let mut want = Vec::new();
            if !locked {
                for (k, id) in queue.drain(..) {
                    match k {
                        1 => partial.push(b'p'),
                        2 => {
                            partial.push(b'q');
                            let c = std::mem::take(&mut partial);
                            want.push(msg(END, 0, id, &rule(&c).unwrap()));
                        }
                        _ => want.push(msg(ERROR, 0, 0, b"")),
                    }
                }
            }
            let mut r = a.sync.drain();
            for m in r.iter_mut().filter(|m| m.typ == ERROR) {
                *m = msg(ERROR, 0, 0, b"");
            }
            if r != want {
                return bad(format!("data {:?} {}", trace, texts(&r)), format!("{}: received [{}], expected [{}]", trace.join(", "), texts(&r), texts(&want)));
            }
        }
        no_trouble()?;
    }
    Ok(())
}

/// The device is in use (by its owner, by another client) or locked by anybody when the completion arrives and after
/// that: it is cleared as soon as it is free unless another client has locked it by then.
fn busy17(depth: usize) -> Verdict {
    let p = Probe::new();
    let srv = start(&p, ServerConfig::default());
    let a = open(V1)?;
    let b = open(V1)?;
    p.take();
    let mut locker = LockHandle::new(srv.lock.clone(), srv.dev.clone());
    let (mut held, mut locked, mut own) = (None, false, false);
    let (mut clearing, mut asked) = (false, false);
    let mut trace = Vec::new();
    for _ in 0..depth {
        let mut want = Vec::new();
        let (mut acks, mut answers) = (0, 0);
        match choose(6, "op") {
            0 => break,
            1 => {
                trace.push(if held.is_some() { "device free" } else { "device in use" });
                held = match held {
                    Some(_) => None,
                    None => srv.dev.try_lock(),
                };
                if trace.last() == Some(&"device in use") && held.is_none() {
                    return bad(format!("in use {:?}", trace), format!("{}: the device is kept although nothing executes", trace.join(", ")));
                }
            }
            2 => {
                trace.push(if locked { "another unlocks" } else { "another locks" });
                if locked {
                    locker.try_release().unwrap();
                    locked = false;
                } else {
                    locked = locker.try_acquire(b"").is_ok();
                    if locked == own {
                        return bad(format!("lock {:?}", trace), format!("{}: {}", trace.join(", "), if own { "granted twice" } else { "refused" }));
                    }
                }
            }
            3 => {
                trace.push(if own { "own release" } else { "own lock" });
                a.asy.send(LOCK, !own as u8, if own { 2 } else { 0 }, b"");
                let r = a.asy.idle();
                let code = if own || !locked { 1 } else { 0 };
                if r.len() != 1 || r[0].typ != LOCK_R || r[0].ctrl != code {
                    return bad(format!("own lock {:?}", trace), format!("{}: answered [{}]", trace.join(", "), texts(&r)));
                }
                own = !own && code == 1;
            }
            4 if asked => break,
            4 => {
                trace.push("query by another");
                b.sync.send(END, 0, 2, b"q");
                asked = true;
            }
            _ if clearing => break,
            _ => {
                trace.push("clear");
                a.asy.send(CLEAR, 0, 0, b"");
                let r = a.asy.idle();
                if r.len() != 1 || r[0].typ != CLEAR_R {
                    return bad(format!("ack {:?}", trace), format!("{}: the clear is answered [{}]", trace.join(", "), texts(&r)));
                }
                a.sync.send(CLR_COMPLETE, 1, 0, b"");
                clearing = true;
            }
        }
        run_idle();
        if clearing && (locked || held.is_none()) {
            // what was not locked when the completion came may wait for the device although it has been locked since
            if held.is_some() && trace.last() != Some(&"clear") {
                let r = a.sync.idle();
                if !r.is_empty() {
                    clearing = false;
                    if texts(&r) != texts(&[msg(CLR_ACK, 1, r[0].param, b"")]) {
                        return bad(format!("early {:?} {}", trace, texts(&r)), format!("{}: received [{}]", trace.join(", "), texts(&r)));
                    }
                }
            } else {
                clearing = false;
                acks = 1;
                if !locked {
                    want.push(Call::Clear);
                }
            }
        }
        if asked && !locked && !own && held.is_none() {
            asked = false;
            answers = 1;
            want.push(Call::Exec(b"q".to_vec()));
        }
        let mut got = p.take();
        got.sort_by_key(|c| *c != Call::Clear);
        let (ra, rb) = (a.sync.idle(), b.sync.idle());
        no_trouble()?;
        if got != want || ra.len() != acks || ra.iter().any(|m| m.typ != CLR_ACK) || rb.len() != answers {
            return bad(
                format!("busy {:?} {} {} {}", trace, show_calls(&got), texts(&ra), texts(&rb)),
                format!("{}: the device saw [{}] instead of [{}]; the client received [{}], expected {} acknowledgement(s); the other received [{}], expected {} answer(s)", trace.join(", "), show_calls(&got), show_calls(&want), texts(&ra), acks, texts(&rb), answers),
            );
        }
    }
    Ok(())
}

/// Another client's query executes while the clear completes: the device is cleared all the same.
fn beside17() -> Verdict {
    let p = Probe::new();
    let _srv = start(&p, ServerConfig::default());
    let own = choose(2, "own lock") == 1;
    let a = open(V1)?;
    let b = open(V1)?;
    p.take();
    if own {
        // (before the query: an executing query is not interrupted)
        a.asy.send(LOCK, 1, 0, b"k");
        b.asy.send(LOCK, 1, 0, b"k");
        run_idle();
        a.asy.msgs();
        b.asy.msgs();
    }
    mcrt::set_explore(true, true, true, false);
    b.sync.send(END, 0, 2, b"q");
    a.asy.send(CLEAR, 0, 0, b"");
    let h = mcrt::spawn_client("client", async move {
        let m = a.asy.next().await;
        a.sync.send(CLR_COMPLETE, 1, 0, b"");
        let n = a.sync.next().await;
        a.sync.send(END, 0, 4, b"q2");
        let o = a.sync.next().await;
        let r: Vec<Msg> = [m, n, o].into_iter().flatten().collect();
        (a, r)
    });
    run_idle();
    mcrt::explore_off();
    run_idle();
    no_trouble()?;
    let ctx = format!("clear while another client's query executes{}", if own { ", both share a lock" } else { "" });
    let Some((_a, r)) = h.try_take() else {
        return bad(format!("stuck {}", ctx), format!("{}: not finished", ctx));
    };
    let types: Vec<u8> = r.iter().map(|m| m.typ).collect();
    let rb = b.sync.msgs();
    if types != [CLEAR_R, CLR_ACK, END] || rb != vec![msg(END, 0, 2, b"<q>")] {
        return bad(format!("answers {} {} {}", ctx, texts(&r), texts(&rb)), format!("{}: received [{}], the other client [{}]", ctx, texts(&r), texts(&rb)));
    }
    let clears = p.calls().iter().filter(|c| **c == Call::Clear).count();
    if clears != 1 {
        return bad(format!("clears {} {}", ctx, clears), format!("{}: the device was cleared {} times", ctx, clears));
    }
    Ok(())
}

pub fn c17() -> Vec<Scenario> {
    let d = q(7, 9);
    let db = q(8, 9);
    let b = q(3, 3);
    vec![
        Scenario::new("points", "clear in 8 situations (idle, partial data, pending and stalled responses, waiting for a lock with and without partial data, in the middle of a message; responses up to 1100000 bytes), 5 kinds of messages before the completion, once and twice", || clear17(false, false)).steps(10_000_000),
        Scenario::new("interleaved", "the same with the clear racing what was sent before, every interleaving up to the deviation bound", || clear17(true, false)).bound(b, b),
        Scenario::new("cycles", format!("all sequences of up to {} of partial data, query, clear, clear of a pending response, stray completion, lock and unlock by another client", d), move || cycles17(d)),
        Scenario::new("slow-clear", "the same with 600 ms to 40 days before each step of the client", || clear17(false, true)).steps(10_000_000),
        Scenario::new("busy", format!("all sequences of up to {} of clear, the device in use or free, locks by another and by the client itself, a query by another", db), move || busy17(db)),
        Scenario::new("beside", "a clear beside an executing query of another client, every interleaving up to the deviation bound", beside17).bound(b, b),
        everything_of("C17"),
        pauses_of("C17"),
    ]
}

// ------------------------------------------------------------------ C18

fn async_request(c: &Conn, k: usize) -> (&'static str, u8) {
    match k {
        0 => {
            c.send(STATUS, 0, 2, b"");
            ("status query", STATUS_R)
        }
        1 => {
            c.send(INFO, 0, 0, b"");
            ("lock info", INFO_R)
        }
        2 => {
            c.send(MAXSIZE, 0, 0, &256u64.to_be_bytes());
            ("maximum message size", MAXSIZE_R)
        }
        3 => {
            c.send(CLEAR, 0, 0, b"");
            ("clear", CLEAR_R)
        }
        4 => {
            c.send(LOCK, 1, 0, b"");
            ("lock", LOCK_R)
        }
        5 => {
            c.send(LOCK, 0, 0, b"");
            ("release", LOCK_R)
        }
        6 => {
            c.send(REMOTE, 1, 0, b"");
            ("remote enable", REMOTE_R)
        }
        7 => {
            c.send(REMOTE, 5, 0, b"");
            ("remote with lockout", REMOTE_R)
        }
        _ => {
            c.send(REMOTE, 0, 0, b"");
            ("local", REMOTE_R)
        }
    }
}

/// Synchronous channel stuck in every possible way; asynchronous requests and other clients go on.
fn stuck18(large: bool) -> Verdict {
    let p = Probe::with(long17);
    let srv = start(&p, ServerConfig::default());
    let state = if large { 1 } else { choose(5, "synchronous channel") };
    let sb = [1usize, 16, 300, 4000][if state == 1 { choose(if large { 4 } else { 3 }, "socket buffer") } else { 0 }];
    let long = LONGS[if large { 1 + choose(LONGS.len() - 1, "long response") } else { 0 }];
    let a = open(V1)?;
    let b = open(V1)?;
    if large && choose(2, "message size") == 1 {
        a.asy.send(MAXSIZE, 0, 0, &(2u64 << 20).to_be_bytes());
        a.asy.idle();
    }
    p.take();
    let mut locker = LockHandle::new(srv.lock.clone(), srv.dev.clone());
    let name = ["idle", "answering a client that does not read", "waiting for a lock", "in the middle of a message", "in an error answer"][state];
    match state {
        1 => {
            net::cfg(|c| c.server_buf = sb);
            a.sync.send(END, 0, 2, long);
        }
        2 => {
            locker.try_acquire(b"").unwrap();
            a.sync.send(END, 0, 2, b"q1");
        }
        3 => a.sync.s.send(&msg(END, 0, 2, b"q1").enc()[..18]),
        4 => {
            net::cfg(|c| c.server_buf = 3);
            a.sync.send(77, 0, 2, b"q1");
        }
        _ => {}
    }
    run_idle();
    if state == 1 || state == 4 {
        a.sync.s.stall();
    }
    // (the others' connections have room again)
    net::cfg(|c| c.server_buf = usize::MAX);
    let mut ctx = format!("synchronous channel {}", name);
    let mut locked = false;
    for _ in 0..if large { 1 } else { 3 } {
        let k = choose(10, "asynchronous request");
        if k == 0 {
            break;
        }
        // going remote or local changes the device: it waits for the lock
        if state == 2 && k > 7 {
            continue;
        }
        let (what, typ) = async_request(&a.asy, k - 1);
        ctx = format!("{}, {}", ctx, what);
        let r = a.asy.idle();
        no_trouble()?;
        if r.len() != 1 || r[0].typ != typ {
            return bad(format!("unanswered {}", ctx), format!("{}: answered [{}]", ctx, texts(&r)));
        }
        match k - 1 {
            4 if r[0].ctrl == 1 => locked = true,
            5 => locked = false,
            _ => {}
        }
    }
    // the other client
    if state != 2 && !locked {
        match choose(3, "other client") {
            0 => must_work(&b, b"bq", &ctx)?,
            1 => {
                b.sync.send(TRIGGER, 0, 2, b"");
                run_idle();
                if !p.calls().contains(&Call::Trigger(Source::Bus)) {
                    return bad(format!("trigger {}", ctx), format!("{}: a trigger of another client is not executed", ctx));
                }
            }
            _ => {
                let (_, typ) = async_request(&b.asy, 7);
                let r = b.asy.idle();
                if r.len() != 1 || r[0].typ != typ {
                    return bad(format!("other {}", ctx), format!("{}: a remote request of another client is answered [{}]", ctx, texts(&r)));
                }
            }
        }
        no_trouble()?;
    } else {
        b.asy.send(STATUS, 0, 0, b"");
        let r = b.asy.idle();
        no_trouble()?;
        if r.len() != 1 || r[0].typ != STATUS_R {
            return bad(format!("other status {}", ctx), format!("{}: a status query of another client is answered [{}]", ctx, texts(&r)));
        }
    }
    Ok(())
}

/// A client that does not read its asynchronous channel.
fn astuck18() -> Verdict {
    let p = Probe::with(long17);
    let _srv = start(&p, ServerConfig::default());
    let a = open(V1)?;
    let b = open(V1)?;
    p.take();
    let k1 = choose(9, "request");
    let k2 = choose(9, "request");
    let sb = 1 + choose(2, "socket buffer") * 15;
    net::cfg(|c| c.server_buf = sb);
    async_request(&a.asy, k1);
    async_request(&a.asy, k2);
    run_idle();
    a.asy.s.stall();
    // (the others' connections have room again)
    net::cfg(|c| c.server_buf = usize::MAX);
    no_trouble()?;
    let ctx = format!("asynchronous requests {} and {} whose answers are not read", k1, k2);
    if k1 == 3 {
        a.sync.send(CLR_COMPLETE, 0, 0, b"");
        let r = a.sync.idle();
        no_trouble()?;
        if r.len() != 1 || r[0].typ != CLR_ACK {
            return bad(format!("clear {}", ctx), format!("{}: the completion of the clear is answered [{}]", ctx, texts(&r)));
        }
    }
    // (a second clear may not have been read)
    if k2 != 3 {
        must_work(&a, b"aq", &ctx)?;
    }
    // a held lock keeps the other client out
    if k1 == 4 || (k2 == 4 && sb == 1) {
        a.asy.s.unstall();
        a.asy.drain();
        if k2 != 5 {
            async_request(&a.asy, 5);
        }
        a.asy.drain();
    } else if k2 == 4 {
        a.asy.s.unstall();
        async_request(&a.asy, 5);
        a.asy.drain();
    }
    must_work(&b, b"bq", &ctx)
}

/// Messages of every type, in place or not, whose answers (errors mostly) are never read: other clients go on.
fn unread18() -> Verdict {
    let p = Probe::with(long17);
    let _srv = start(&p, ServerConfig::default());
    let place = ["synchronous channel", "synchronous channel of a session without an asynchronous one", "asynchronous channel", "new connection"];
    let w = choose(4, "where");
    let proto = [V1, V2][choose(2, "version")];
    let b = open(V1)?;
    let mut full = None;
    let half = Conn::new();
    if w == 0 || w == 2 {
        full = Some(open(proto)?);
    } else if w == 1 {
        half.send(INIT, 0, (proto as u32) << 16 | 0x5858, b"hislip0");
        half.idle();
    }
    let c = match (&full, w) {
        (Some(a), 0) => &a.sync,
        (Some(a), _) => &a.asy,
        _ => &half,
    };
    let ts: Vec<u8> = (0..=40).chain([77, 127, 128, 255]).collect();
    let k = choose(ts.len() + 3, "message");
    let clear = k == ts.len() + 2;
    if clear {
        if w != 0 {
            return Ok(());
        }
        // the completion of a clear
        async_request(&full.as_ref().unwrap().asy, 3);
        if full.as_ref().unwrap().asy.idle().len() != 1 {
            return bad("clear", "a clear is not acknowledged on the asynchronous channel");
        }
    }
    let sb = [1, 3][choose(2, "socket buffer")];
    net::cfg(|c| c.server_buf = sb);
    let times = 1 + choose(2, "times");
    for _ in 0..times {
        match ts.get(k) {
            Some(t) if w == 2 && *t == LOCK => return Ok(()),
            Some(t) => c.send(*t, 0, 2, b"x"),
            None if clear => c.send(CLR_COMPLETE, 0, 0, b""),
            None if k == ts.len() => c.s.send(b"XX\x07\0\0\0\0\x02\0\0\0\0\0\0\0\0"),
            None => c.s.send(b"HS\x07\0\0\0\0\x02\xff\0\0\0\0\0\0\0"),
        }
    }
    run_idle();
    c.s.stall();
    // (the others' connections have room again)
    net::cfg(|c| c.server_buf = usize::MAX);
    no_trouble()?;
    let ctx = format!("{}: message {} whose answer is not read", place[w], ts.get(k).map_or(["with a bad header", "that completes a clear"][clear as usize].to_string(), |t| format!("of type {}", t)));
    if let (Some(a), 0) = (&full, w) {
        if clear || [INIT, CLR_COMPLETE, 77, 128, 255].contains(ts.get(k).unwrap_or(&END)) {
            async_request(&a.asy, 0);
            let r = a.asy.idle();
            no_trouble()?;
            if r.len() != 1 || r[0].typ != STATUS_R {
                return bad(format!("status {}", ctx), format!("{}: a status query of the same session is answered [{}]", ctx, texts(&r)));
            }
        }
    }
    p.take();
    if w == 1 {
        // somebody asks for the other channel of the session
        let o = Conn::new();
        o.send(AINIT, 0, 1 + choose(3, "session") as u32, b"");
        o.s.stall();
        run_idle();
    }
    must_work(&b, b"bq", &ctx)?;
    async_request(&b.asy, 4);
    let r = b.asy.idle();
    no_trouble()?;
    if r.len() != 1 || (r[0].typ, r[0].ctrl) != (LOCK_R, 1) {
        return bad(format!("lock {}", ctx), format!("{}: a lock request of another client is answered [{}]", ctx, texts(&r)));
    }
    async_request(&b.asy, 5);
    run_idle();
    must_work(&open(V1)?, b"cq", &ctx)
}

/// Requests on both channels and of another client, in every order.
fn race18() -> Verdict {
    let p = Probe::with(long17);
    let _srv = start(&p, ServerConfig::default());
    let ks = choose(4, "synchronous");
    let ka = choose(9, "asynchronous");
    let kb = choose(4, "other client");
    let sb = [1usize, 16, 300][if ks == 1 { choose(3, "socket buffer") } else { 0 }];
    let a = open(V1)?;
    let b = open(V1)?;
    p.take();
    if ks == 1 {
        net::cfg(|c| c.server_buf = sb);
    }
    let ctx = format!("synchronous {}, asynchronous {}, other {}", ks, ka, kb);
    mcrt::set_explore(true, true, true, false);
    let Sess { sync, asy, .. } = a;
    let hs = mcrt::spawn_client("sync", async move {
        match ks {
            0 => sync.send(END, 0, 2, b"q"),
            1 => sync.send(END, 0, 2, b"long"),
            2 => sync.send(TRIGGER, 0, 2, b""),
            _ => {
                sync.send(DATA, 0, 2, b"a");
                sync.send(77, 0, 2, b"a");
            }
        }
        sync
    });
    let ha = mcrt::spawn_client("async", async move {
        let (_, typ) = async_request(&asy, ka);
        let r = asy.next().await;
        let ok = r.as_ref().is_some_and(|r| r.typ == typ);
        if ka == 4 && ok && r.as_ref().unwrap().ctrl == 1 {
            async_request(&asy, 5);
            asy.next().await;
        }
        (asy, r, ok)
    });
    let hb = mcrt::spawn_client("other", async move {
        let c = if kb == 3 { &b.asy } else { &b.sync };
        match kb {
            0 => c.send(END, 0, 2, b"bq"),
            1 => {
                b.asy.send(LOCK, 1, 60_000, b"");
                let r = b.asy.next().await;
                if r.map(|r| (r.typ, r.ctrl)) != Some((LOCK_R, 1)) {
                    return false;
                }
                c.send(END, 0, 2, b"bq");
            }
            2 => {
                c.send(TRIGGER, 0, 2, b"");
                c.send(END, 0, 2, b"bq");
            }
            _ => {
                let (_, t) = async_request(c, 7);
                return c.next().await.is_some_and(|r| r.typ == t);
            }
        }
        let ok = c.next().await == Some(msg(END, 0, 2, b"<bq>"));
        if kb == 1 {
            b.asy.send(LOCK, 0, 2, b"");
            return ok && b.asy.next().await.is_some_and(|r| (r.typ, r.ctrl) == (LOCK_R, 1));
        }
        ok
    });
    run_idle();
    mcrt::explore_off();
    no_trouble()?;
    match ha.try_take() {
        Some((_, _, true)) => {}
        Some((_, r, _)) => return bad(format!("async {}", ctx), format!("{}: the asynchronous request is answered [{}]", ctx, r.map_or("nothing".into(), |m| m.text()))),
        None => return bad(format!("async stuck {}", ctx), format!("{}: the asynchronous request is not answered", ctx)),
    }
    match hb.try_take() {
        Some(true) => {}
        Some(false) => return bad(format!("other {}", ctx), format!("{}: the other client is not served correctly", ctx)),
        None => return bad(format!("other stuck {}", ctx), format!("{}: the other client is not served", ctx)),
    }
    let sync = hs.try_take().unwrap();
    if ka == 3 {
        return Ok(());
    }
    let r = sync.drain();
    let ok = match ks {
        0 => r == vec![msg(END, 0, 2, b"<q>")],
        1 => response(&r, 2, 256) == Ok(vec![b'L'; 600]),
        2 => r.is_empty() && p.calls().contains(&Call::Trigger(Source::Bus)),
        _ => r.len() == 1 && r[0].typ == ERROR,
    };
    if !ok {
        return bad(format!("sync {} {}", ctx, texts(&r)), format!("{}: the synchronous request is answered [{}]", ctx, texts(&r)));
    }
    Ok(())
}

/// Waiting for a lock on one channel while the other one asks; then the lock is given up.
fn waiting18() -> Verdict {
    let p = Probe::new();
    let srv = start(&p, ServerConfig::default());
    let a = open(V1)?;
    let b = open(V1)?;
    p.take();
    let mut locker = LockHandle::new(srv.lock.clone(), srv.dev.clone());
    locker.try_acquire(if choose(2, "lock") == 0 { b"" } else { b"x" }).unwrap();
    let ka = choose(3, "asynchronous");
    let ks = choose(3, "synchronous");
    let kb = choose(3, "other");
    let ctx = format!("locked device, asynchronous {}, synchronous {}, other {}", ka, ks, kb);
    mcrt::set_explore(true, true, true, false);
    match ka {
        0 => a.asy.send(LOCK, 1, 60_000, b""),
        1 => a.asy.send(REMOTE, 5, 0, b""),
        _ => a.asy.send(STATUS, 0, 0, b""),
    }
    match ks {
        0 => a.sync.send(END, 0, 2, b"q"),
        1 => a.sync.send(TRIGGER, 0, 2, b""),
        _ => {}
    }
    match kb {
        0 => b.sync.send(END, 0, 2, b"bq"),
        1 => b.asy.send(REMOTE, 0, 0, b""),
        _ => b.asy.send(STATUS, 0, 0, b""),
    }
    let h = mcrt::spawn_client("locker", async move {
        locker.try_release().unwrap();
        drop(locker);
    });
    run_idle();
    mcrt::explore_off();
    no_trouble()?;
    if !h.is_done() {
        return bad(format!("locker {}", ctx), format!("{}: the lock cannot be released", ctx));
    }
    let ra = a.asy.msgs();
    let want = [LOCK_R, REMOTE_R, STATUS_R][ka];
    if ra.len() != 1 || ra[0].typ != want || (ka == 0 && ra[0].ctrl != 1) {
        return bad(format!("async {} {}", ctx, texts(&ra)), format!("{}: after the release the asynchronous request is answered [{}]", ctx, texts(&ra)));
    }
    let rs = a.sync.msgs();
    let ok = match ks {
        0 => rs == vec![msg(END, 0, 2, b"<q>")],
        1 => rs.is_empty() && p.calls().contains(&Call::Trigger(Source::Bus)),
        _ => rs.is_empty(),
    };
    if !ok {
        return bad(format!("sync {} {}", ctx, texts(&rs)), format!("{}: after the release the synchronous request is answered [{}]", ctx, texts(&rs)));
    }
    if ka == 0 {
        // the other client goes on after this one releases
        a.asy.send(LOCK, 0, 2, b"");
        run_idle();
    }
    let rb = if kb == 0 { b.sync.msgs() } else { b.asy.msgs() };
    if rb.len() != 1 || rb[0].typ != [END, REMOTE_R, STATUS_R][kb] {
        return bad(format!("other {} {}", ctx, texts(&rb)), format!("{}: after the release the other client is answered [{}]", ctx, texts(&rb)));
    }
    no_trouble()
}

pub fn c18() -> Vec<Scenario> {
    let b = q(2, 3);
    vec![
        Scenario::new("stuck-sync", "5 states of the synchronous channel (stalled answer, waiting for a lock, cut message), all sequences of up to 3 of 9 asynchronous requests, 3 requests of another client", || stuck18(false)),
        Scenario::new("stuck-large", "stalled answers of 5000 to 1100000 bytes in large and small messages, 9 asynchronous requests, 3 requests of another client", || stuck18(true)).steps(10_000_000),
        Scenario::new("stuck-async", "all pairs of 9 asynchronous requests whose answers are not read; synchronous query; another client", astuck18),
        Scenario::new("unread", "messages of 45 types, two bad headers and a completed clear in 4 places, once and twice, whose answers are never read; other clients' query, lock and new session", unread18),
        Scenario::new("race", "4 synchronous x 9 asynchronous x 4 other clients' requests, every interleaving up to the deviation bound", race18).bound(b, b),
        Scenario::new("waiting", "requests of all kinds waiting for a lock which is then released, every interleaving up to the deviation bound", waiting18).bound(b, b),
    ]
}

// ------------------------------------------------------------------ C19

#[derive(Default)]
struct Cl19 {
    s: Option<Sess>,
    /// a service request was sent since the last status query
    told: bool,
    /// statuses announced by the device since then
    later: Vec<u8>,
}

fn srq19(n: usize, depth: usize) -> Verdict {
    const VALS: [u8; 3] = [0x40, 0x41, 0x00];
    let p = Probe::new();
    let mut srv = start(&p, ServerConfig::default());
    let mut cs: Vec<Cl19> = Vec::new();
    for _ in 0..n {
        cs.push(Cl19 { s: Some(open(V1)?), ..Default::default() });
    }
    let mut trace: Vec<String> = Vec::new();
    for _ in 0..depth {
        let live: Vec<usize> = (0..cs.len()).filter(|i| cs[*i].s.is_some()).collect();
        let k = choose(1 + 3 + live.len() * 4 + 1, "op");
        if k == 0 {
            break;
        }
        let mut want: Vec<Vec<Msg>> = cs.iter().map(|_| vec![]).collect();
        if k <= 3 {
            let v = VALS[k - 1];
            trace.push(format!("status {:#x}", v));
            p.set_stb(v);
            srv.srq.send_status(v);
            for i in &live {
                if !cs[*i].told {
                    cs[*i].told = true;
                    want[*i].push(msg(SRQ, v, 0, b""));
                } else {
                    cs[*i].later.push(v);
                }
            }
        } else if k == 4 + live.len() * 4 {
            if cs.len() >= n + 1 {
                continue;
            }
            trace.push("connect".into());
            cs.push(Cl19 { s: Some(open(V1)?), ..Default::default() });
            want.push(vec![]);
        } else {
            let i = live[(k - 4) / 4];
            match (k - 4) % 4 {
                0 => {
                    trace.push(format!("{} asks for status", i));
                    cs[i].s.as_ref().unwrap().asy.send(STATUS, 0, 0xffff_ffff, b"");
                    cs[i].told = false;
                    let stb = p.0.lock().unwrap().stb;
                    want[i].push(msg(STATUS_R, stb, 0, b""));
                }
                1 => {
                    trace.push(format!("{} queries", i));
                    must_work(cs[i].s.as_ref().unwrap(), b"q", &trace.join(", "))?;
                }
                2 => {
                    trace.push(format!("{} sends another request", i));
                    cs[i].s.as_ref().unwrap().asy.send(INFO, 0, 0, b"");
                    want[i].push(msg(INFO_R, 0, 0, b""));
                }
                _ => {
                    trace.push(format!("{} disconnects", i));
                    cs[i].s = None;
                }
            }
        }
        run_idle();
        no_trouble()?;
        for i in 0..cs.len() {
            let c = &mut cs[i];
            let Some(s) = &c.s else { continue };
            let mut r = s.asy.msgs();
            // a status announced before the query may be reported after it
            if r.len() == 2 && r[0].typ == STATUS_R && r[1].typ == SRQ {
                if let Some(k) = c.later.iter().position(|v| *v == r[1].ctrl) {
                    c.later.drain(..=k);
                    r.pop();
                    c.told = true;
                }
            }
            if r != want[i] || s.asy.closed() {
                return bad(
                    format!("messages {} {}", trace.join(", "), texts(&r)),
                    format!("{}: client {} received [{}], expected [{}]{}", trace.join(", "), i, texts(&r), texts(&want[i]), if s.asy.closed() { "; its session ended" } else { "" }),
                );
            }
        }
    }
    Ok(())
}

/// A status change in the middle of a request, at every byte.
fn cut19() -> Verdict {
    let p = Probe::new();
    let mut srv = start(&p, ServerConfig::default());
    let a = open(V1)?;
    let m = [msg(INFO, 0, 0, b"payload"), msg(STATUS, 0, 0, b""), msg(MAXSIZE, 0, 0, &[0, 0, 0, 0, 0, 1, 0, 0])][choose(3, "request")].enc();
    let n = choose(m.len(), "bytes before the change");
    let twice = choose(3, "changes");
    let ctx = format!("status change after {} bytes of a request of type {}, {} more", n, m[2], twice);
    a.asy.s.send(&m[..n]);
    run_idle();
    p.set_stb(0x42);
    srv.srq.send_status(0x42);
    run_idle();
    no_trouble()?;
    let r = a.asy.msgs();
    if r != vec![msg(SRQ, 0x42, 0, b"")] {
        return bad(format!("srq {} {}", ctx, texts(&r)), format!("{}: received [{}]", ctx, texts(&r)));
    }
    for _ in 0..twice {
        srv.srq.send_status(0x43);
        run_idle();
    }
    a.asy.s.send(&m[n..]);
    let r = a.asy.idle();
    no_trouble()?;
    // the change during the request may be reported once the status was asked for
    let t = [(INFO, INFO_R), (STATUS, STATUS_R), (MAXSIZE, MAXSIZE_R)].iter().find(|x| x.0 == m[2]).unwrap().1;
    let extra_ok = r.iter().skip(1).all(|x| *x == msg(SRQ, 0x43, 0, b"")) && r.len() <= if m[2] == STATUS && twice > 0 { 2 } else { 1 };
    if r.is_empty() || r[0].typ != t || !extra_ok || a.asy.closed() {
        return bad(format!("rest {} {}", ctx, texts(&r)), format!("{}: then received [{}]{}", ctx, texts(&r), if a.asy.closed() { "; the session ended" } else { "" }));
    }
    // in step
    a.asy.send(STATUS, 0, 0, b"");
    let r = a.asy.idle();
    if !r.contains(&msg(STATUS_R, 0x42, 0, b"")) {
        return bad(format!("status {} {}", ctx, texts(&r)), format!("{}: status query answered [{}]", ctx, texts(&r)));
    }
    must_work(&a, b"q", &ctx)
}

/// Every status value.
fn values19() -> Verdict {
    let p = Probe::new();
    let mut srv = start(&p, ServerConfig::default());
    let a = open([V1, V2][choose(2, "version")])?;
    let v = choose(256, "status") as u8;
    p.set_stb(v);
    srv.srq.send_status(v);
    let r = a.asy.idle();
    if r != vec![msg(SRQ, v, 0, b"")] {
        return bad(format!("srq {:#x}", v), format!("status {:#x} announced as [{}]", v, texts(&r)));
    }
    a.asy.send(STATUS, 1, 7, b"");
    let r = a.asy.idle();
    no_trouble()?;
    // bit 4 (message available) belongs to the session
    if r.len() != 1 || r[0].typ != STATUS_R || r[0].ctrl & 0xef != v & 0xef {
        return bad(format!("status {:#x}", v), format!("status {:#x} answered as [{}]", v, texts(&r)));
    }
    // a device which cannot tell its status for a while
    let kind = choose(FAILURES as usize + 1, "status fails") as u8;
    if kind != 0 {
        p.set_status_err(kind);
        a.asy.send(STATUS, 1, 7, b"");
        let r = a.asy.idle();
        no_trouble()?;
        if r.len() != 1 || (r[0].typ != STATUS_R && r[0].typ != ERROR) {
            return bad(format!("no status {}", kind), format!("a device that cannot tell its status: the query is answered [{}]", texts(&r)));
        }
        p.set_status_err(0);
        a.asy.send(STATUS, 1, 7, b"");
        let r = a.asy.idle();
        no_trouble()?;
        if r.len() != 1 || r[0].typ != STATUS_R || r[0].ctrl & 0xef != v & 0xef {
            return bad(format!("status again {:#x}", v), format!("status {:#x} after one that could not be told: answered as [{}]", v, texts(&r)));
        }
        srv.srq.send_status(v);
        let r = a.asy.idle();
        if r != vec![msg(SRQ, v, 0, b"")] {
            return bad(format!("srq again {:#x}", v), format!("status {:#x} announced again as [{}]", v, texts(&r)));
        }
    }
    Ok(())
}

/// Status changes racing with a query.
fn race19() -> Verdict {
    let p = Probe::new();
    let srv = start(&p, ServerConfig::default());
    let a = open(V1)?;
    let b = open(V1)?;
    let n = 1 + choose(3, "changes");
    mcrt::set_explore(true, true, true, false);
    let mut srq = srv.srq.clone();
    let pp = p.clone();
    mcrt::spawn_client("status", async move {
        for i in 0..n {
            pp.set_stb(0x41 + i as u8);
            srq.send_status(0x41 + i as u8);
            async_std::task::yield_now().await;
        }
    })
    .detach();
    let h = mcrt::spawn_client("client", async move {
        a.asy.send(STATUS, 0, 0, b"");
        let mut v = Vec::new();
        while let Some(m) = a.asy.next().await {
            let end = m.typ == STATUS_R;
            v.push(m);
            if end {
                return Some((a, v));
            }
        }
        None
    });
    run_idle();
    mcrt::explore_off();
    no_trouble()?;
    let Some(Some((a, mut v))) = h.try_take() else { return bad("no answer", "the status query is not answered") };
    v.extend(a.asy.idle());
    for (w, c) in [(v, &a), (b.asy.msgs(), &b)] {
        let q: usize = w.iter().position(|m| m.typ == STATUS_R).unwrap_or(w.len());
        let srqs: Vec<u8> = w.iter().filter(|m| m.typ == SRQ).map(|m| m.ctrl).collect();
        let asked = q < w.len();
        let ok = srqs.windows(2).all(|x| x[0] < x[1]) // in order, none twice
            && srqs.len() <= 1 + asked as usize
            && w[..q].len() <= 1
            && srqs.first().is_some_and(|f| *f == 0x41 || asked)
            && w.iter().all(|m| m.typ == SRQ || m.typ == STATUS_R);
        if !ok || c.asy.closed() {
            return bad(format!("race {} {}", n, texts(&w)), format!("{} status changes: received [{}]", n, texts(&w)));
        }
        // never silent: the last state is known to the client or announced
        if asked {
            let last = 0x40 + n as u8;
            let known = w[q].ctrl == last || srqs.contains(&last) || w[q + 1..].iter().any(|m| m.typ == SRQ);
            if !known {
                return bad(format!("silent {} {}", n, texts(&w)), format!("{} status changes: received only [{}]", n, texts(&w)));
            }
        }
    }
    must_work(&a, b"q", "after status changes")
}

pub fn c19() -> Vec<Scenario> {
    let d = q(6, 7);
    let d2 = q(5, 6);
    let b = q(4, 5);
    vec![
        Scenario::new("one-client", format!("all sequences of up to {} of 3 status values, status query, other requests, connect, disconnect", d), move || srq19(1, d)),
        Scenario::new("two-clients", format!("all sequences of up to {} of the same with two clients", d2), move || srq19(2, d2)),
        Scenario::new("cut", "a status change after every byte of a request", cut19),
        everything_of("C19"),
        pauses_of("C19"),
        Scenario::new("values", "all 256 status values; the device fails to tell its status in 3 ways in between", values19),
        Scenario::new("race", "up to 3 status changes racing with a status query of one of two clients, every interleaving up to the deviation bound", race19).bound(b, b),
    ]
}

// ------------------------------------------------------------------ C20

#[derive(Clone, Debug, PartialEq, Default)]
struct Panel {
    remote: bool,
    lockout: bool,
}

impl Panel {
    fn apply(&mut self, c: &[Call]) {
        for c in c {
            match c {
                Call::Remote(x) => self.remote = *x,
                Call::Lockout(x) => self.lockout = *x,
                _ => {}
            }
        }
    }
}

const CODES: [u8; 10] = [0, 1, 2, 3, 4, 5, 6, 7, 0x80, 0xff];

/// Effect of a code on the device and on the session's remote enable.
fn effect(code: u8, p: &mut Panel, enable: &mut bool) -> bool {
    match code {
        0 | 2 => {
            *enable = false;
            p.remote = false;
            p.lockout = false;
        }
        1 => *enable = true,
        3 => {
            *enable = true;
            p.remote = true;
        }
        4 => {
            *enable = true;
            p.lockout = true;
        }
        5 => {
            *enable = true;
            p.remote = true;
            p.lockout = true;
        }
        6 => p.remote = false,
        _ => return false,
    }
    true
}

fn remote20(n: usize, depth: usize) -> Verdict {
    let p = Probe::new();
    let srv = start(&p, ServerConfig::default());
    let ss: Vec<Sess> = (0..n).map(|_| open(V1)).collect::<Result<_, _>>()?;
    p.take();
    let mut locker = LockHandle::new(srv.lock.clone(), srv.dev.clone());
    let mut locked = false;
    let mut dev = Panel::default();
    let mut want = Panel::default();
    let mut enable = vec![true; n];
    // requests which wait for the lock
    let mut pending: Vec<(usize, u8)> = Vec::new();
    let mut trace: Vec<String> = Vec::new();
    for _ in 0..depth {
        let k = choose(1 + n * 11 + 1, "op");
        if k == 0 {
            break;
        }
        let mut expect: Vec<Vec<(u8, u8)>> = vec![vec![]; n];
        let mut status = None;
        if k == 1 + n * 11 {
            locked = !locked;
            trace.push(if locked { "another client locks" } else { "the other client unlocks" }.into());
            if locked {
                locker.try_acquire(b"").unwrap();
            } else {
                locker.try_release().unwrap();
                for (i, c) in std::mem::take(&mut pending) {
                    let ok = effect(c, &mut want, &mut enable[i]);
                    expect[i].push(if ok { (REMOTE_R, 0) } else { (ERROR, 2) });
                }
            }
        } else {
            let (i, op) = ((k - 1) / 11, (k - 1) % 11);
            // the channel is busy with a request that waits
            if pending.iter().any(|x| x.0 == i) && (op == 10 || pending.len() > 1) {
                continue;
            }
            // the order among two waiting clients is free
            if pending.iter().any(|x| x.0 != i) {
                continue;
            }
            if op == 10 {
                trace.push(format!("{} asks for status", i));
                ss[i].asy.send(STATUS, 0, 0, b"");
                status = Some(i);
            } else {
                let c = CODES[op];
                trace.push(format!("{} sends code {}", i, c));
                ss[i].asy.send(REMOTE, c, 2, b"");
                let needs = matches!(c, 0 | 2 | 3 | 4 | 5 | 6);
                if locked && (needs || !pending.is_empty()) {
                    pending.push((i, c));
                } else {
                    let ok = effect(c, &mut want, &mut enable[i]);
                    expect[i].push(if ok { (REMOTE_R, 0) } else { (ERROR, 2) });
                }
            }
        }
        run_idle();
        no_trouble()?;
        let calls = p.take();
        dev.apply(&calls);
        if let Some(i) = status {
            expect[i].push((STATUS_R, 0));
            if enable[i] {
                // addressing the device takes it to remote if that is enabled
                want.remote = true;
            }
        }
        for i in 0..n {
            let r = ss[i].asy.msgs();
            let got: Vec<(u8, u8)> = r.iter().map(|m| (m.typ, m.ctrl)).collect();
            if got != expect[i] {
                return bad(format!("answer {} {}", trace.join(", "), texts(&r)), format!("{}: client {} received [{}], expected {:?}", trace.join(", "), i, texts(&r), expect[i]));
            }
        }
        if dev != want {
            return bad(format!("panel {} {:?}", trace.join(", "), dev), format!("{}: the device is {:?}, expected {:?} (calls [{}])", trace.join(", "), dev, want, show_calls(&calls)));
        }
    }
    Ok(())
}

/// A client that holds the lock itself; a device that refuses.
fn own20() -> Verdict {
    let p = Probe::new();
    let _srv = start(&p, ServerConfig::default());
    let a = open(V1)?;
    let b = open(V1)?;
    p.take();
    let key: &[u8] = [b"".as_slice(), b"key"][choose(2, "key")];
    a.asy.send(LOCK, 1, 0, key);
    run_idle();
    let share = choose(2, "share") == 1;
    if share {
        b.asy.send(LOCK, 1, 0, key);
        run_idle();
    }
    a.asy.msgs();
    b.asy.msgs();
    let kind = choose(FAILURES as usize + 1, "device refuses") as u8;
    let fail = kind != 0;
    p.set_fail(kind);
    let c1 = CODES[choose(10, "code")];
    let c2 = CODES[choose(10, "code")];
    let ctx = format!("lock \"{}\"{}, codes {} and {}{}", show(key), if share { " shared" } else { "" }, c1, c2, ["", ", device refuses", ", device does not react", ", device fails"][kind as usize]);
    let (mut want, mut e) = (Panel::default(), true);
    a.asy.send(REMOTE, c1, 0, b"");
    let r = a.asy.idle();
    no_trouble()?;
    let ok = effect(c1, &mut want, &mut e);
    let sets = matches!(c1, 0 | 2 | 3 | 5 | 6);
    let typ = if ok && !(fail && sets) { REMOTE_R } else { ERROR };
    if r.len() != 1 || r[0].typ != typ {
        return bad(format!("own {} {}", ctx, texts(&r)), format!("{}: the holder is answered [{}]", ctx, texts(&r)));
    }
    let mut d = Panel::default();
    d.apply(&p.take());
    if d != want {
        return bad(format!("own panel {} {:?}", ctx, d), format!("{}: the device is {:?}, expected {:?}", ctx, d, want));
    }
    p.set_fail(0);
    // the other one waits unless it shares the lock
    b.asy.send(REMOTE, c2, 0, b"");
    let r = b.asy.idle();
    no_trouble()?;
    let mut w2 = want.clone();
    let ok = effect(c2, &mut w2, &mut true);
    let needs = ok && c2 != 1;
    let shared_in = share && !key.is_empty();
    let waits = needs && !shared_in;
    let want_r = if waits { 0 } else { 1 };
    d.apply(&p.take());
    if r.len() != want_r || (want_r == 1 && r[0].typ != if ok { REMOTE_R } else { ERROR }) || d != if waits { want } else { w2.clone() } {
        return bad(format!("other {} {}", ctx, texts(&r)), format!("{}: the other client is answered [{}], the device is {:?}", ctx, texts(&r), d));
    }
    a.asy.send(LOCK, 0, 0, b"");
    run_idle();
    no_trouble()?;
    d.apply(&p.take());
    let r = b.asy.msgs();
    if r.len() != waits as usize || d != w2 {
        return bad(format!("later {} {}", ctx, texts(&r)), format!("{}: after the release the other client is answered [{}], the device is {:?}", ctx, texts(&r), d));
    }
    Ok(())
}

pub fn c20() -> Vec<Scenario> {
    let d = q(6, 7);
    let d2 = q(4, 5);
    vec![
        Scenario::new("one-client", format!("all sequences of up to {} of 10 codes, status query and another client locking and unlocking", d), move || remote20(1, d)),
        Scenario::new("two-clients", format!("all sequences of up to {} of the same by two clients", d2), move || remote20(2, d2)),
        Scenario::new("own-lock", "codes by the holder of an exclusive or shared lock and by another client, with a device that refuses", own20),
        everything_of("C20"),
        pauses_of("C20"),
    ]
}

// ------------------------------------------------------------------ everything at once

const EVERYTHING: &str = "all kinds of messages on both channels of two sessions, device clear, locks and service requests; whatever is not concerned by a message is not changed by it";

#[derive(Default)]
struct EvSess {
    s: Option<Sess>,
    buf: Vec<u8>,
    max: usize,
    enable: bool,
    told: bool,
    later: Vec<u8>,
}

/// A mismatch counts for the property it concerns, and for device clear if there was one.
struct Ev {
    prop: &'static str,
    trace: Vec<String>,
    cleared: bool,
}

impl Ev {
    fn fail(&self, prop: &'static str, what: String) -> Option<Verdict> {
        if prop == self.prop || (self.prop == "C17" && self.cleared) {
            Some(bad(format!("everything {} {}", prop, self.trace.join(", ")), format!("{}: {}", self.trace.join(", "), what)))
        } else {
            // the state of this execution is no longer known
            Some(Ok(()))
        }
    }
}

fn everything_op(k: usize) -> (usize, &'static str) {
    [
        (0, "Data"),
        (0, "DataEnd"),
        (0, "DataEnd, long response"),
        (0, "Trigger"),
        (0, "clear"),
        (0, "status"),
        (0, "size 16"),
        (0, "remote 0"),
        (0, "remote 3"),
        (0, "remote 4"),
        (0, "lock"),
        (0, "lock x"),
        (0, "lock xNUL"),
        (0, "release"),
        (0, "info"),
        (0, "vendor"),
        (0, "unknown"),
        (0, "stray completion"),
        (1, "DataEnd"),
        (1, "clear"),
        (1, "status"),
        (1, "remote 0"),
        (1, "lock"),
        (1, "lock x"),
        (1, "release"),
        (1, "reconnect"),
        (2, "announce"),
        (0, "unknown asynchronous"),
    ][k]
}

const NEVERY: usize = 28;

fn everything(prop: &'static str, depth: usize, pauses: bool) -> Verdict {
    let gap = if pauses { PAUSES[choose(PAUSES.len(), "pause")] } else { 0 };
    let p = Probe::with(|c| super::hislip::resp15(c).or_else(|| rule(c)));
    let mut srv = start(&p, ServerConfig::default());
    let mut ss: Vec<EvSess> = Vec::new();
    for _ in 0..2 {
        ss.push(EvSess { s: Some(open(V1)?), max: 256, enable: true, ..Default::default() });
    }
    p.take();
    let mut m = Model::default();
    let mut dev = Panel::default();
    let mut want_dev = Panel::default();
    let mut stb = 0u8;
    let mut ev = Ev { prop, trace: Vec::new(), cleared: false };
    macro_rules! check {
        ($ok:expr, $prop:expr, $($t:tt)*) => {
            if !$ok {
                if let Some(v) = ev.fail($prop, format!($($t)*)) {
                    return v;
                }
            }
        };
    }
    for step in 0..depth as u32 {
        let k = choose(NEVERY + 1, "step");
        if k == 0 {
            break;
        }
        let (i, op) = everything_op(k - 1);
        let id = 2 * step + 2;
        // nothing depends on how long a client takes
        pause(gap);
        let accessible = i == 2 || m.can(i).is_ok();
        if !accessible && matches!(op, "vendor" | "unknown" | "stray completion" | "Data" | "DataEnd" | "DataEnd, long response" | "Trigger" | "remote 0" | "remote 3" | "remote 4") {
            // would wait
            continue;
        }
        ev.trace.push(if i == 2 { op.into() } else { format!("{} {}", ["a", "b"][i], op) });
        let mut data: Option<Vec<u8>> = None;
        let mut ack = false;
        let mut calls: Vec<Call> = Vec::new();
        // answers on the asynchronous channels
        let mut want: Vec<Vec<Msg>> = vec![vec![], vec![]];
        let mut noisy = false;
        let mut about = "C15";
        if i == 2 {
            about = "C19";
            stb = 0x40 | (stb + 1) % 8;
            p.set_stb(stb);
            srv.srq.send_status(stb);
            for (j, s) in ss.iter_mut().enumerate() {
                if !s.told {
                    s.told = true;
                    want[j].push(msg(SRQ, stb, 0, b""));
                } else {
                    s.later.push(stb);
                }
            }
        } else {
            let e = &mut ss[i];
            let s = e.s.as_ref().unwrap();
            match op {
                "Data" => {
                    e.buf.push(b'a');
                    s.sync.send(DATA, 0, id, b"a");
                }
                "DataEnd" | "DataEnd, long response" => {
                    let c: &[u8] = if op == "DataEnd" { b"q" } else { b"r300" };
                    e.buf.extend(c);
                    s.sync.send(END, 0, id, c);
                    let c = std::mem::take(&mut e.buf);
                    data = super::hislip::resp15(&c).or_else(|| rule(&c));
                    calls.push(Call::Exec(c));
                }
                "Trigger" => {
                    s.sync.send(TRIGGER, 0, id, b"");
                    calls.push(Call::Trigger(Source::Bus));
                }
                "clear" => {
                    about = "C17";
                    ev.cleared = true;
                    s.asy.send(CLEAR, 0, 0, b"");
                    let mut r = s.asy.idle();
                    r.retain(|m| m.typ != SRQ);
                    no_trouble()?;
                    check!(r.len() == 1 && r[0].typ == CLEAR_R, "C17", "the clear is answered [{}]", texts(&r));
                    s.sync.send(CLR_COMPLETE, 1, 0, b"");
                    ack = true;
                    e.buf.clear();
                    if accessible {
                        calls.push(Call::Clear);
                    }
                }
                "status" => {
                    about = "C19";
                    s.asy.send(STATUS, 0, 0xffff_ffff, b"");
                    e.told = false;
                    want[i].push(msg(STATUS_R, stb, 0, b""));
                    if e.enable {
                        want_dev.remote = true;
                    }
                }
                "size 16" => {
                    s.asy.send(MAXSIZE, 0, 0, &16u64.to_be_bytes());
                    e.max = 16;
                    want[i].push(msg(MAXSIZE_R, 0, 0, b""));
                }
                "remote 0" | "remote 3" | "remote 4" => {
                    about = "C20";
                    let c = op.as_bytes()[7] - b'0';
                    s.asy.send(REMOTE, c, id, b"");
                    effect(c, &mut want_dev, &mut e.enable);
                    want[i].push(msg(REMOTE_R, 0, 0, b""));
                }
                "lock" | "lock x" | "lock xNUL" => {
                    about = "C16";
                    let (key, k): (&[u8], usize) = match op {
                        "lock" => (b"", 0),
                        "lock x" => (b"x", 1),
                        _ => (b"x\0", 1),
                    };
                    s.asy.send(LOCK, 1, 0, key);
                    let c = match m.acquire(i, k) {
                        Ok(()) => 1,
                        Err("AlreadyLocked") => 3,
                        Err(_) => 0,
                    };
                    want[i].push(msg(LOCK_R, c, 0, b""));
                }
                "release" => {
                    about = "C16";
                    s.asy.send(LOCK, 0, id, b"");
                    let c = match m.release(i) {
                        Ok("Exclusive") => 1,
                        Ok(_) => 2,
                        Err(_) => 3,
                    };
                    want[i].push(msg(LOCK_R, c, 0, b""));
                }
                "info" => {
                    about = "C16";
                    s.asy.send(INFO, 0, 0, b"");
                    want[i].push(msg(INFO_R, m.excl.is_some() as u8, m.holders.len() as u32, b""));
                }
                "vendor" => {
                    noisy = true;
                    s.sync.send(200, 0, id, b"ab");
                }
                "unknown" => {
                    noisy = true;
                    s.sync.send(77, 0, id, b"ab");
                }
                "stray completion" => {
                    noisy = true;
                    s.sync.send(CLR_COMPLETE, 0, id, b"");
                }
                "unknown asynchronous" => {
                    noisy = true;
                    s.asy.send(77, 0, id, b"ab");
                }
                _ => {
                    e.s = None;
                    let _ = m.release(i);
                    run_idle();
                    no_trouble()?;
                    *e = EvSess { s: Some(open(V1)?), max: 256, enable: true, ..Default::default() };
                }
            }
        }
        run_idle();
        no_trouble()?;
        for j in 0..2 {
            let e = &mut ss[j];
            let s = e.s.as_ref().unwrap();
            let mut r = s.sync.drain();
            if j == i && noisy {
                r.retain(|m| m.typ != ERROR);
            }
            if j == i && ack {
                let ok = r.len() == 1 && r[0].typ == CLR_ACK;
                check!(ok, "C17", "the completion is answered [{}]", texts(&r));
            } else if j == i && data.is_some() {
                let d = data.as_ref().unwrap();
                let x = response(&r, id, e.max);
                check!(x.as_ref() == Ok(d) && !r.is_empty(), "C15", "the command is answered [{}], expected \"{}\"{}", texts(&r), show(d), x.err().unwrap_or_default());
            } else {
                check!(r.is_empty(), about, "client {} received [{}]", j, texts(&r));
            }
            let mut r = s.asy.msgs();
            if j == i && noisy {
                r.retain(|m| m.typ != ERROR);
            }
            // a status announced before the query may be reported after it
            if r.len() == 2 && r[0].typ == STATUS_R && r[1].typ == SRQ {
                if let Some(k) = e.later.iter().position(|v| *v == r[1].ctrl) {
                    e.later.drain(..=k);
                    r.pop();
                    e.told = true;
                }
            }
            let same = r.len() == want[j].len()
                && r.iter().zip(&want[j]).all(|(r, w)| {
                    r.typ == w.typ
                        && match r.typ {
                            INFO_R => r.ctrl == w.ctrl && (r.param == w.param || r.param == w.param + w.ctrl as u32),
                            LOCK_R | REMOTE_R | SRQ | STATUS_R => r.ctrl == w.ctrl,
                            _ => true,
                        }
                });
            let srq = r.iter().any(|m| m.typ == SRQ) != want[j].iter().any(|m| m.typ == SRQ);
            check!(same && !s.asy.closed() && !s.sync.closed(), if srq { "C19" } else { about }, "client {} received [{}] on the asynchronous channel, expected [{}]{}", j, texts(&r), texts(&want[j]), if s.asy.closed() || s.sync.closed() { "; its session ended" } else { "" });
        }
        let got = p.take();
        dev.apply(&got);
        let seen: Vec<Call> = got.into_iter().filter(|c| matches!(c, Call::Exec(_) | Call::Trigger(_) | Call::Clear)).collect();
        check!(seen == calls, about, "the device saw [{}], expected [{}]", show_calls(&seen), show_calls(&calls));
        check!(dev == want_dev, "C20", "the device is {:?}, expected {:?}", dev, want_dev);
    }
    Ok(())
}

pub fn everything_of(prop: &'static str) -> Scenario {
    let d = q(4, 5);
    Scenario::new("everything", format!("all sequences of up to {} of {} operations: {}", d, NEVERY, EVERYTHING), move || everything(prop, d, false))
}

pub fn pauses_of(prop: &'static str) -> Scenario {
    let d = q(3, 4);
    Scenario::new("pauses", format!("all sequences of up to {} of the same with 600 ms to 40 days before each", d), move || everything(prop, d, true))
}
