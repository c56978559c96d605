//! C09, C10: one device behind all servers.
use super::lock::Model;
use super::sock::*;
use super::vxi::Shared;
use crate::common::*;
use crate::dev::*;
use crate::hs;
use crate::vx;
use crate::vx::{Op, Res, Rpc, ENDF, WAIT};
use lxi_device::lock::{LockHandle, SharedLock, SpinMutex};
use lxi_device::trigger::Source;
use mcrt::net::Sock;
use std::cell::RefCell;
use std::rc::Rc;
use std::sync::Arc;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum P {
    Raw,
    Unix,
    Tel,
    Hs,
    Vx,
}
use P::*;
pub const ALL: [P; 5] = [Raw, Unix, Tel, Hs, Vx];

/// The servers of these protocols on one device.
pub fn start_all(p: &Probe, which: &[P]) {
    start_on(p, which, SharedLock::new(), p.device())
}

fn start_on(p: &Probe, which: &[P], lock: Arc<SpinMutex<SharedLock>>, dev: Arc<futures::lock::Mutex<TDev>>) {
    for w in which {
        let (l, d) = (lock.clone(), dev.clone());
        match w {
            Raw => raw_on(Default::default(), l, d),
            Unix => unix_on(Default::default(), l, d),
            Tel => telnet_on(Default::default(), l, d),
            Hs => {
                hs::start_on(p, Default::default(), l, d);
            }
            Vx => {
                vx::start_vxi_on(p, l, d);
            }
        }
    }
}

pub fn line_connect(w: P) -> Sock {
    net::connect(match w {
        Raw => raw_addr(),
        Unix => net::unix_addr(UNIX),
        _ => telnet_addr(),
    })
    .unwrap()
}

/// A client of any protocol.
pub enum Cl {
    Line { s: Sock, tel: bool, buf: Vec<u8> },
    Hs(hs::Sess),
    Vx { r: Rpc, lid: u32 },
}

impl Cl {
    pub fn open(w: P) -> Result<Cl, Violation> {
        Ok(match w {
            Raw | Unix | Tel => {
                let s = line_connect(w);
                run_idle();
                Cl::Line { s, tel: w == Tel, buf: Vec::new() }
            }
            Hs => Cl::Hs(hs::open(hs::V1)?),
            Vx => {
                let r = Rpc::core();
                let lid = vx::link(&r)?;
                Cl::Vx { r, lid }
            }
        })
    }
    /// What a line client sees, and drop it.
    pub fn text(&mut self) -> Vec<u8> {
        let Cl::Line { s, tel, buf } = self else { unreachable!() };
        buf.extend(s.recv());
        let b = std::mem::take(buf);
        if *tel {
            strip_prompts(&strip_telnet(&b).0, true)
        } else {
            b
        }
    }
    fn eol(&self) -> &'static [u8] {
        match self {
            Cl::Line { tel: true, .. } => b"\r\n",
            _ => b"\n",
        }
    }
    /// End all connections. Kinds: 0 close, 1 reset, 2 half-close; HiSLIP: 3 close the
    /// asynchronous channel first, 4 the synchronous one first, 5 reset of one and close of the other.
    pub fn end(self, kind: usize) {
        match self {
            Cl::Line { s, .. } => end_sock(s, kind),
            Cl::Vx { r, .. } => end_sock(r.s, kind),
            Cl::Hs(s) => match kind {
                0..=2 => {
                    end_sock(s.sync.s, kind);
                    end_sock(s.asy.s, kind);
                }
                3 => {
                    end_sock(s.asy.s, 0);
                    run_idle();
                    end_sock(s.sync.s, 0);
                }
                4 => {
                    end_sock(s.sync.s, 0);
                    run_idle();
                    end_sock(s.asy.s, 0);
                }
                _ => {
                    end_sock(s.asy.s, 1);
                    end_sock(s.sync.s, 0);
                }
            },
        }
        run_idle();
    }
}

pub fn end_sock(s: Sock, kind: usize) {
    match kind {
        1 => s.reset(),
        2 => {
            let _ = s.shutdown_write();
            // keeps its reading side for as long as the execution
            std::mem::forget(s);
        }
        _ => drop(s),
    }
}

pub fn ends(w: P) -> usize {
    if w == Hs {
        6
    } else {
        3
    }
}

/// A query of any protocol is answered now.
pub fn works(c: &mut Cl, cmd: &[u8], ctx: &str) -> Verdict {
    match c {
        Cl::Hs(s) => hs::must_work(s, cmd, &format!("{} (HiSLIP)", ctx)),
        Cl::Vx { r, lid } => vx::vxi_must_work(r, *lid, cmd, &format!("{} (VXI-11)", ctx)),
        Cl::Line { tel, .. } => {
            let tel = *tel;
            c.text();
            let eol = c.eol();
            if let Cl::Line { s, .. } = c {
                s.send(&[cmd, eol].concat());
            }
            run_idle();
            no_trouble()?;
            let t = c.text();
            let want = [&rule(cmd).unwrap()[..], eol].concat();
            if t != want {
                return bad(
                    format!("{} answer", ctx),
                    format!("{} ({}): the query \"{}\" is answered by \"{}\"", ctx, if tel { "telnet" } else { "socket" }, show(cmd), show(&t)),
                );
            }
            Ok(())
        }
    }
}

/// New clients can lock (where there are locks) and use the device.
pub fn all_free(which: &[P], ctx: &str) -> Verdict {
    for w in which {
        let mut c = Cl::open(*w)?;
        match &c {
            Cl::Hs(s) => {
                s.asy.send(hs::LOCK, 1, 0, b"");
                let r = s.asy.idle();
                if r.len() != 1 || r[0].typ != hs::LOCK_R || r[0].ctrl != 1 {
                    return bad("lock left", format!("{}: a new HiSLIP client cannot lock the device: [{}]", ctx, hs::texts(&r)));
                }
            }
            Cl::Vx { r, lid } => {
                let x = r.must(&Op::Lock { lid: *lid, flags: 0, to: 0 })?;
                if x.err() != 0 {
                    return bad("lock left", format!("{}: a new VXI-11 client cannot lock the device: {:?}", ctx, x));
                }
            }
            _ => {}
        }
        works(&mut c, b"qz", ctx)?;
        c.end(0);
    }
    no_trouble()
}

// ------------------------------------------------------------------ sequences

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Exec,
    Trigger,
    Clear,
}

/// A request for the device which has not been served.
#[derive(Clone, Debug)]
struct Pend {
    kind: Kind,
    name: Vec<u8>,
    /// 0: waits for ever
    deadline: u64,
    op: Option<(Op, u32)>,
}

/// A lock request which has not been answered.
#[derive(Clone, Debug)]
struct PLock {
    key: usize,
    deadline: u64,
    op: Option<(Op, u32)>,
}

struct C {
    w: P,
    cl: Option<Cl>,
    data: Option<Pend>,
    lock: Option<PLock>,
}

/// A request of a client that has gone may still be carried out, once.
struct Ghost {
    kind: Kind,
    name: Vec<u8>,
    shared: bool,
}

struct World {
    p: Probe,
    c: Vec<C>,
    m: Model,
    ghosts: Vec<Ghost>,
    seq: u32,
    trace: Vec<String>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Act {
    Pass,
    Query,
    Trigger,
    Clear,
    /// wait for the lock (VXI-11)
    WQuery,
    WTrigger,
    WClear,
    Lock { key: usize, to: u32 },
    Unlock,
    End(usize),
    Destroy,
    Reopen,
}

const KEYS: [&[u8]; 3] = [b"", b"k", b"l"];

/// Who could use the device at some moment while these locks were granted: clients, then
/// strangers without a lock, then strangers with the shared lock.
fn order(m: &Model, g: &[(usize, usize)], n: usize) -> Option<(Model, Vec<bool>)> {
    let mut here: Vec<bool> = (0..=n).map(|i| m.can(i).is_ok()).collect();
    here.push(m.excl.is_none());
    if g.is_empty() {
        return Some((m.clone(), here));
    }
    let mut best: Option<(Model, Vec<bool>)> = None;
    for i in 0..g.len() {
        let mut m2 = m.clone();
        if m2.acquire(g[i].0, g[i].1).is_err() {
            continue;
        }
        let mut rest = g.to_vec();
        rest.remove(i);
        if let Some((f, seen)) = order(&m2, &rest, n) {
            best = Some(match best {
                None => (f, seen),
                Some((f, b)) => (f, b.iter().zip(&seen).map(|(a, b)| *a || *b).collect()),
            });
        }
    }
    best.map(|(f, s)| (f, s.iter().zip(&here).map(|(a, b)| *a || *b).collect()))
}

impl World {
    fn new(ws: &[P]) -> Result<World, Violation> {
        let p = Probe::new();
        let mut kinds = ws.to_vec();
        kinds.dedup();
        start_all(&p, &kinds);
        let mut w = World { p, c: Vec::new(), m: Model::default(), ghosts: Vec::new(), seq: 0, trace: Vec::new() };
        for k in ws {
            w.c.push(C { w: *k, cl: Some(Cl::open(*k)?), data: None, lock: None });
        }
        w.p.take();
        Ok(w)
    }

    fn err<T>(&self, sig: &str, what: String) -> Result<T, Violation> {
        bad(format!("{} {}", sig, self.trace.join("; ")), format!("after [{}]: {}", self.trace.join("; "), what))
    }

    fn menu(&self, i: usize, ops: bool, with_ends: bool) -> Vec<Act> {
        use Act::*;
        let c = &self.c[i];
        if c.cl.is_none() {
            return if with_ends { vec![Reopen] } else { vec![] };
        }
        let mut v = Vec::new();
        let idle = c.data.is_none();
        match c.w {
            Raw | Unix | Tel => {
                if idle {
                    v.push(Query);
                }
            }
            Hs => {
                if idle {
                    v.push(Query);
                    if ops {
                        v.push(Trigger);
                        // the asynchronous channel answers one request after the other
                        if c.lock.is_none() {
                            v.push(Clear);
                        }
                    }
                }
                if c.lock.is_none() {
                    v.extend([Lock { key: 0, to: 0 }, Lock { key: 0, to: 60000 }, Lock { key: 1, to: 0 }]);
                    if idle {
                        v.push(Unlock);
                    }
                }
            }
            Vx => {
                if idle && c.lock.is_none() {
                    v.extend([WQuery, Lock { key: 0, to: 0 }, Lock { key: 0, to: 60000 }, Unlock]);
                    if ops {
                        v.extend([Query, WTrigger, WClear, Trigger, Clear]);
                    }
                    if with_ends {
                        v.push(Destroy);
                    }
                }
            }
        }
        if with_ends {
            v.extend((0..ends(c.w)).map(End));
        }
        v
    }

    fn act(&mut self, i: usize, a: Act) -> Verdict {
        self.trace.push(format!("{} ({:?}) {:?}", i, self.c[i].w, a));
        self.seq += 1;
        let name = format!("q{}", self.seq).into_bytes();
        let c = &mut self.c[i];
        match (a, &mut c.cl) {
            (Act::Pass, _) => run_for(30 * SEC),
            (Act::Reopen, _) => {
                c.cl = Some(Cl::open(c.w)?);
            }
            (Act::End(k), cl) => {
                let cl = cl.take().unwrap();
                let shared = self.m.holders.contains(&i);
                if let Some(p) = c.data.take() {
                    self.ghosts.push(Ghost { kind: p.kind, name: p.name, shared });
                }
                c.lock = None;
                let _ = self.m.release(i);
                cl.end(k);
            }
            (Act::Query, Some(cl @ Cl::Line { .. })) => {
                let e = cl.eol();
                if let Cl::Line { s, .. } = cl {
                    s.send(&[&name[..], e].concat());
                }
                c.data = Some(Pend { kind: Kind::Exec, name, deadline: 0, op: None });
            }
            (Act::Query, Some(Cl::Hs(s))) => {
                s.sync.send(hs::END, 0, self.seq * 2, &name);
                c.data = Some(Pend { kind: Kind::Exec, name, deadline: 0, op: None });
            }
            (Act::Trigger, Some(Cl::Hs(s))) => {
                s.sync.send(hs::TRIGGER, 0, self.seq * 2, b"");
                c.data = Some(Pend { kind: Kind::Trigger, name, deadline: 0, op: None });
            }
            (Act::Clear, Some(Cl::Hs(s))) => {
                s.asy.send(hs::CLEAR, 0, 0, b"");
                let r = s.asy.idle();
                if r.iter().filter(|m| m.typ == hs::CLEAR_R).count() != 1 {
                    let t = hs::texts(&r);
                    return self.err("clear", format!("a device clear is answered by [{}]", t));
                }
                s.sync.send(hs::CLR_COMPLETE, 0, 0, b"");
                let r = s.sync.idle();
                if r.len() != 1 || r[0].typ != hs::CLR_ACK {
                    let t = hs::texts(&r);
                    return self.err("clear", format!("the completion of a device clear is answered by [{}]", t));
                }
                let must = self.m.can(i).is_ok() as usize;
                let n = self.p.calls().iter().filter(|c| **c == Call::Clear).count();
                if n != must {
                    return self.err("clear", format!("the device is cleared {} times, expected {}", n, must));
                }
                self.p.0.lock().unwrap().calls.retain(|c| *c != Call::Clear);
            }
            (Act::Lock { key, to }, Some(Cl::Hs(s))) => {
                s.asy.send(hs::LOCK, 1, to, KEYS[key]);
                c.lock = Some(PLock { key, deadline: now_ns() + to as u64 * MS, op: None });
            }
            (Act::Unlock, Some(Cl::Hs(s))) => {
                s.asy.send(hs::LOCK, 0, 0, b"");
                let r = s.asy.idle();
                let want = match self.m.release(i) {
                    Ok("Exclusive") => 1,
                    Ok(_) => 2,
                    Err(_) => 3,
                };
                if r.len() != 1 || r[0].typ != hs::LOCK_R || r[0].ctrl != want {
                    let t = hs::texts(&r);
                    return self.err("release", format!("the release is answered by [{}], expected code {}", t, want));
                }
            }
            (_, Some(Cl::Vx { r, lid })) => {
                let lid = *lid;
                let (flags, to) = match a {
                    Act::WQuery | Act::WTrigger | Act::WClear => (WAIT, 60000),
                    Act::Lock { to, .. } if to > 0 => (WAIT, to),
                    _ => (0, 0),
                };
                let deadline = if to > 0 { now_ns() + to as u64 * MS } else { 1 };
                let (op, kind) = match a {
                    Act::Query | Act::WQuery => (Op::Write { lid, flags: flags | ENDF, to, data: name.clone() }, Kind::Exec),
                    Act::Trigger | Act::WTrigger => (Op::Trigger { lid, flags, to }, Kind::Trigger),
                    Act::Clear | Act::WClear => (Op::Clear { lid, flags, to }, Kind::Clear),
                    Act::Lock { .. } => (Op::Lock { lid, flags, to }, Kind::Exec),
                    Act::Unlock => (Op::Unlock { lid }, Kind::Exec),
                    Act::Destroy => (Op::Destroy { lid }, Kind::Exec),
                    _ => unreachable!(),
                };
                match a {
                    Act::Unlock | Act::Destroy => {
                        let x = r.must(&op)?.err();
                        let want = if self.m.release(i).is_ok() || a == Act::Destroy { 0 } else { 12 };
                        if x != want {
                            return self.err("unlock", format!("{:?} is answered {}, expected {}", op, x, want));
                        }
                        if a == Act::Destroy {
                            c.cl = None;
                        }
                    }
                    _ => {
                        let (pr, args) = op.enc();
                        let x = r.send(pr, &args);
                        if let Act::Lock { .. } = a {
                            c.lock = Some(PLock { key: 0, deadline, op: Some((op, x)) });
                        } else {
                            c.data = Some(Pend { kind, name, deadline, op: Some((op, x)) });
                        }
                    }
                }
            }
            _ => unreachable!(),
        }
        run_idle();
        no_trouble()?;
        self.settle()
    }

    fn settle(&mut self) -> Verdict {
        let n = self.c.len();
        let now = now_ns();
        // answers to lock requests
        let mut granted = Vec::new();
        for i in 0..n {
            let c = &mut self.c[i];
            let Some(l) = c.lock.clone() else { continue };
            let ok = match c.cl.as_ref().unwrap() {
                Cl::Hs(s) => {
                    let r = s.asy.msgs();
                    match r.len() {
                        0 => None,
                        1 if r[0].typ == hs::LOCK_R && r[0].ctrl == 1 => Some(true),
                        1 if r[0].typ == hs::LOCK_R => Some(false),
                        _ => {
                            let t = hs::texts(&r);
                            return self.err("lock", format!("the lock request of {} is answered [{}]", i, t));
                        }
                    }
                }
                Cl::Vx { r, .. } => {
                    let (op, x) = l.op.clone().unwrap();
                    r.answer(&op, x)?.map(|r| r.err() == 0)
                }
                _ => None,
            };
            match ok {
                Some(true) => granted.push((i, l.key)),
                Some(false) => {
                    if l.deadline > 1 && now < l.deadline && self.m.acquire_err(i, l.key) != Some("AlreadyLocked") {
                        return self.err("lock", format!("the lock request of {} is refused before its timeout", i));
                    }
                }
                None => continue,
            }
            if ok == Some(false) && self.m.clone().acquire(i, l.key).is_ok() && granted.is_empty() {
                return self.err("lock", format!("the lock request of {} is refused although the lock is free", i));
            }
            self.c[i].lock = None;
        }
        let Some((m, seen)) = order(&self.m, &granted, n) else {
            return self.err("exclusion", format!("locks {:?} are granted at once (client, key), while {:?} holds the exclusive and {:?} the shared lock", granted, self.m.excl, self.m.holders));
        };
        self.m = m;
        for i in 0..n {
            if let Some(l) = &self.c[i].lock {
                if self.m.clone().acquire(i, l.key).is_ok() {
                    return self.err("lock waits", format!("the lock request of {} is not granted although the lock is free", i));
                }
                if l.deadline > now {
                    continue;
                }
                {
                    return self.err("lock waits", format!("the lock request of {} is not answered after its timeout", i));
                }
            }
        }
        // what reached the device
        let mut ex = self.p.execs();
        let calls = self.p.take();
        let (mut trig, mut clr) = (calls.iter().filter(|c| **c == Call::Trigger(Source::Bus)).count(), calls.iter().filter(|c| **c == Call::Clear).count());
        let total = (trig, clr);
        let mut open: Vec<Kind> = Vec::new();
        for i in 0..n {
            let Some(d) = self.c[i].data.clone() else { continue };
            let mut done = false;
            if d.kind == Kind::Exec {
                if let Some(k) = ex.iter().position(|x| *x == d.name) {
                    ex.remove(k);
                    done = true;
                }
            }
            // VXI-11 answers everything
            if let (Some((op, x)), Some(Cl::Vx { r, .. })) = (&d.op, &self.c[i].cl) {
                match r.answer(op, *x)? {
                    Some(r) if r.err() == 0 => {
                        let have = match d.kind {
                            Kind::Exec => done as usize,
                            Kind::Trigger => trig,
                            Kind::Clear => clr,
                        };
                        if have == 0 {
                            return self.err("not done", format!("{:?} of {} is answered with success but did not reach the device", op, i));
                        }
                        match d.kind {
                            Kind::Trigger => trig -= 1,
                            Kind::Clear => clr -= 1,
                            _ => {}
                        }
                        done = true;
                    }
                    Some(r) => {
                        if done {
                            return self.err("done", format!("{:?} of {} reached the device but is answered {:?}", op, i, r));
                        }
                        if d.deadline != 1 && (now < d.deadline || d.deadline == 0) {
                            return self.err("refused", format!("{:?} of {} is refused before its timeout", op, i));
                        }
                        if self.m.can(i).is_ok() && granted.is_empty() {
                            return self.err("refused", format!("{:?} of {} is refused although it may use the device", op, i));
                        }
                        self.c[i].data = None;
                        continue;
                    }
                    None if done => return self.err("no answer", format!("{:?} of {} reached the device but is not answered", op, i)),
                    None => {}
                }
            } else if d.kind != Kind::Exec {
                // triggers of HiSLIP are not answered
                if self.m.can(i).is_ok() {
                    if trig == 0 {
                        return self.err("waits", format!("the trigger of {} does not reach the device", i));
                    }
                    trig -= 1;
                    done = true;
                } else if seen[i] {
                    open.push(d.kind);
                    if trig > 0 {
                        trig -= 1;
                        done = true;
                    }
                }
            }
            if done && !seen[i] {
                return self.err("exclusion", format!("{:?} \"{}\" of {} reached the device although it is locked out", d.kind, show(&d.name), i));
            }
            if !done && self.m.can(i).is_ok() {
                return self.err("waits", format!("{:?} \"{}\" of {} waits although it may use the device", d.kind, show(&d.name), i));
            }
            if !done && d.deadline > 1 && now >= d.deadline {
                return self.err("waits", format!("{:?} of {} is not answered after its timeout", d.kind, i));
            }
            if !done {
                continue;
            }
            self.c[i].data = None;
            let r = rule(&d.name).unwrap();
            match self.c[i].cl.as_mut().unwrap() {
                cl @ Cl::Line { .. } => {
                    let t = cl.text();
                    let want = [&r[..], cl.eol()].concat();
                    if t != want {
                        return self.err("answer", format!("{} is answered \"{}\" instead of \"{}\"", i, show(&t), show(&want)));
                    }
                }
                Cl::Hs(s) if d.kind == Kind::Exec => {
                    let m = s.sync.drain();
                    let got = m.first().map(|m0| hs::response(&m, m0.param, 256));
                    if got != Some(Ok(r)) {
                        let t = hs::texts(&m);
                        return self.err("answer", format!("{} is answered [{}]", i, t));
                    }
                }
                _ => {}
            }
        }
        // the rest must be of clients that have gone
        for x in ex {
            let Some(k) = self.ghosts.iter().position(|g| g.name == x && g.kind == Kind::Exec) else {
                return self.err("unexpected", format!("\"{}\" is executed", show(&x)));
            };
            let g = self.ghosts.remove(k);
            if !seen[n] && !(g.shared && seen[n + 1]) {
                return self.err("exclusion", format!("\"{}\" of a client that has gone is executed although it is locked out", show(&x)));
            }
        }
        for (k, c) in [(Kind::Trigger, trig), (Kind::Clear, clr)] {
            for _ in 0..c {
                match self.ghosts.iter().position(|g| g.kind == k && (seen[n] || g.shared && seen[n + 1])) {
                    Some(g) => {
                        self.ghosts.remove(g);
                    }
                    None => return self.err("exclusion", format!("the device got {} triggers and {} clears which nobody may have caused", total.0, total.1)),
                }
            }
        }
        Ok(())
    }

    fn finish(mut self, which: &[P], pass: bool) -> Verdict {
        for i in 0..self.c.len() {
            if self.c[i].cl.is_some() {
                self.act(i, Act::End(0))?;
            }
        }
        if pass {
            run_for(61 * SEC);
            self.settle()?;
        }
        let ctx = format!("after [{}] and the end of all clients", self.trace.join("; "));
        all_free(which, &ctx).map_err(|v| Violation { sig: format!("{} {}", v.sig, self.trace.join("; ")), msg: v.msg })
    }
}

trait ModelExt {
    fn acquire_err(&self, i: usize, k: usize) -> Option<&'static str>;
}
impl ModelExt for Model {
    fn acquire_err(&self, i: usize, k: usize) -> Option<&'static str> {
        self.clone().acquire(i, k).err()
    }
}

fn sequences(ws: &[P], depth: usize, ops: bool, with_ends: bool) -> Verdict {
    let mut w = World::new(ws)?;
    for _ in 0..depth {
        let mut m: Vec<(usize, Act)> = Vec::new();
        for i in 0..ws.len() {
            m.extend(w.menu(i, ops, with_ends).into_iter().map(|a| (i, a)));
        }
        if w.c.iter().any(|c| c.lock.is_some() || c.data.as_ref().is_some_and(|d| d.deadline > 0)) {
            m.push((0, Act::Pass));
        }
        let (i, a) = m[choose(m.len(), "action")];
        w.act(i, a)?;
    }
    let mut which = ws.to_vec();
    which.dedup();
    w.finish(&which, true)
}

// ------------------------------------------------------------------ C10

/// One protocol's request for a lock, or use of the device, as a task.
async fn read_line(s: &Sock, tel: bool, want: &[u8]) -> Result<(), String> {
    let mut buf = Vec::new();
    loop {
        let t = if tel { strip_prompts(&strip_telnet(&buf).0, true) } else { buf.clone() };
        if t.ends_with(b"\n") {
            return if t == want { Ok(()) } else { Err(format!("answered \"{}\" instead of \"{}\"", show(&t), show(want))) };
        }
        match s.read_some(4096).await {
            Ok(b) if !b.is_empty() => buf.extend(b),
            _ => return Err("the connection was closed".into()),
        }
    }
}

/// Lock with key (0 exclusive). Ok(false): refused.
async fn lock_task(c: &Cl, key: usize, to: u32) -> Result<bool, String> {
    match c {
        Cl::Hs(s) => {
            s.asy.send(hs::LOCK, 1, to, KEYS[key]);
            match s.asy.next().await {
                Some(m) if m.typ == hs::LOCK_R && m.ctrl == 1 => Ok(true),
                Some(m) if m.typ == hs::LOCK_R && m.ctrl == 0 => Ok(false),
                m => Err(format!("lock answered {:?}", m)),
            }
        }
        Cl::Vx { r, lid } => match r.ask(&Op::Lock { lid: *lid, flags: if to > 0 { WAIT } else { 0 }, to }).await? {
            Res::Err(0) => Ok(true),
            Res::Err(11) => Ok(false),
            x => Err(format!("lock answered {:?}", x)),
        },
        _ => Ok(false),
    }
}

async fn unlock_task(c: &Cl) -> Result<(), String> {
    match c {
        Cl::Hs(s) => {
            s.asy.send(hs::LOCK, 0, 0, b"");
            match s.asy.next().await {
                Some(m) if m.typ == hs::LOCK_R && (m.ctrl == 1 || m.ctrl == 2) => Ok(()),
                m => Err(format!("release answered {:?}", m)),
            }
        }
        Cl::Vx { r, lid } => match r.ask(&Op::Unlock { lid: *lid }).await? {
            Res::Err(0) => Ok(()),
            x => Err(format!("unlock answered {:?}", x)),
        },
        _ => Ok(()),
    }
}

/// Query; Ok(false): refused.
pub async fn query_task(c: &Cl, cmd: &[u8], wait: bool) -> Result<bool, String> {
    match c {
        Cl::Line { s, tel, .. } => {
            s.send(&[cmd, c.eol()].concat());
            read_line(s, *tel, &[&rule(cmd).unwrap()[..], c.eol()].concat()).await?;
            Ok(true)
        }
        Cl::Hs(s) => {
            s.sync.send(hs::END, 0, 0x4242, cmd);
            match s.sync.next().await {
                Some(m) if m.typ == hs::END && m.payload == rule(cmd).unwrap() => Ok(true),
                m => Err(format!("query answered {:?}", m)),
            }
        }
        Cl::Vx { r, lid } => {
            let (f, to) = if wait { (WAIT, 60000) } else { (0, 0) };
            match r.ask(&Op::Write { lid: *lid, flags: f | ENDF, to, data: cmd.to_vec() }).await? {
                Res::Write { err: 0, .. } => Ok(true),
                Res::Write { err: 11 | 3, .. } if !wait => Ok(false),
                x => Err(format!("write answered {:?}", x)),
            }
        }
    }
}

/// Calls of the device and what clients know about their locks, on one time line.
fn mark(p: &Probe, s: String) {
    event(s.clone());
    p.0.lock().unwrap().calls.push(Call::Exec(s.into_bytes()));
}

/// Lockers and users of several protocols at once. A program: (protocol, lock key or none, leaves without unlocking, waits).
#[derive(Clone, Copy, Debug)]
struct Prog {
    w: P,
    lock: Option<usize>,
    leave: bool,
    wait: bool,
}

const fn prog(w: P, lock: Option<usize>, leave: bool, wait: bool) -> Prog {
    Prog { w, lock, leave, wait }
}

const PROGS: [Prog; 11] = [
    prog(Hs, Some(0), false, true),
    prog(Hs, Some(1), false, true),
    prog(Hs, Some(0), true, true),
    prog(Vx, Some(0), false, true),
    prog(Vx, Some(0), true, true),
    prog(Raw, None, false, true),
    prog(Unix, None, true, true),
    prog(Tel, None, false, true),
    prog(Hs, None, false, true),
    prog(Vx, None, false, true),
    prog(Vx, None, false, false),
];

fn race10(n: usize) -> Verdict {
    let p = Probe::new();
    let mut progs = Vec::new();
    for i in 0..n {
        // the first one locks; otherwise in ascending order
        let lo = progs.last().copied().unwrap_or(0);
        progs.push(lo + choose(if i == 0 { 5 } else { PROGS.len() - lo }, "program"));
    }
    let ps: Vec<Prog> = progs.iter().map(|k| PROGS[*k]).collect();
    let mut which: Vec<P> = ALL.to_vec();
    which.retain(|w| ps.iter().any(|p| p.w == *w));
    start_all(&p, &which);
    let mut cs = Vec::new();
    for x in &ps {
        cs.push(Cl::open(x.w)?);
    }
    p.take();
    mcrt::set_explore(true, true, true, false);
    let mut hsd = Vec::new();
    for (i, c) in cs.into_iter().enumerate() {
        let (x, p) = (ps[i], p.clone());
        let sh = Shared(c);
        hsd.push(mcrt::spawn_client(&format!("client{}", i), async move {
            let sh = { sh };
            let c = sh.0;
            if let Some(k) = x.lock {
                if !lock_task(&c, k, 60000).await? {
                    return Err("the lock is refused".to_string());
                }
                mark(&p, format!("+{}", i));
            }
            let cmd = format!("q{}", i).into_bytes();
            mark(&p, format!("?{}", i));
            let r = query_task(&c, &cmd, x.wait).await?;
            if x.lock.is_some() {
                mark(&p, format!("-{}", i));
                if !r {
                    return Err("the query of a lock holder is refused".to_string());
                }
                if !x.leave {
                    unlock_task(&c).await?;
                }
            }
            mark(&p, format!("{} {}", if r { "ok" } else { "no" }, i));
            if x.leave {
                drop(c);
                return Ok(None);
            }
            Ok(Some(Shared(c)))
        }));
    }
    run_idle();
    mcrt::explore_off();
    no_trouble()?;
    let ctx = format!("{:?}", ps);
    let mut keep = Vec::new();
    for (i, h) in hsd.iter().enumerate() {
        match h.try_take() {
            None => return bad(format!("waits {}", ctx), format!("{}: client {} is not served", ctx, i)),
            Some(Err(e)) => return bad(format!("client {}", ctx), format!("{}: client {}: {}", ctx, i, e)),
            Some(Ok(c)) => keep.push(c),
        }
    }
    // exclusion
    let log = p.execs();
    let mut holds: Vec<(usize, bool)> = Vec::new();
    // whether a query was under way when nobody held a lock
    let mut early = vec![false; n];
    let mut out = vec![0; n];
    for e in &log {
        let i = (e[e.len() - 1] - b'0') as usize;
        match e[0] {
            b'+' => {
                if let Some((j, _)) = holds.iter().find(|(j, _)| ps[*j].lock == Some(0) || ps[i].lock == Some(0)) {
                    return bad(format!("exclusion {}", ctx), format!("{}: clients {} and {} hold locks which exclude each other", ctx, i, j));
                }
                holds.push((i, false));
            }
            b'-' => holds.retain(|(j, _)| *j != i),
            b'?' => early[i] = holds.is_empty(),
            b'q' => {
                out[i] += 1;
                for (j, used) in &mut holds {
                    // a command that had the device when the lock was granted may finish
                    let progress = !*used && early[i];
                    *used = true;
                    if *j != i && ps[*j].lock == Some(0) && !progress || *j != i && ps[*j].lock == Some(1) && ps[i].lock != Some(1) && !progress {
                        return bad(format!("exclusion {}", ctx), format!("{}: a command of client {} is executed while {} holds a lock", ctx, i, j));
                    }
                }
            }
            b'o' if out[i] != 1 => return bad(format!("count {}", ctx), format!("{}: the command of client {} is executed {} times", ctx, i, out[i])),
            b'n' if out[i] != 0 => return bad(format!("count {}", ctx), format!("{}: the refused command of client {} is executed", ctx, i)),
            _ => {}
        }
    }
    drop(keep);
    run_idle();
    all_free(&which, &ctx)
}

/// A line client sends several commands at once while others lock: one that has begun may finish, no more.
fn batch10() -> Verdict {
    let p = Probe::new();
    let w = [Raw, Unix, Tel][choose(3, "protocol")];
    let locker = [Hs, Vx][choose(2, "locker")];
    let key = if locker == Hs { choose(2, "key") } else { 0 };
    let n = 2 + choose(2, "commands");
    let buf = [usize::MAX, 1, 6][choose(3, "socket buffer")];
    let cut = choose(2, "cut");
    start_all(&p, &[w, locker]);
    let a = Cl::open(w)?;
    let b = Cl::open(locker)?;
    let Cl::Line { s, .. } = &a else { unreachable!() };
    s.recv();
    run_idle();
    p.take();
    net::cfg(|c| c.server_buf = buf);
    let ctx = format!("{} commands to {:?} (socket buffer {}) while {:?} locks with key {}", n, w, buf, locker, key);
    let mut text = Vec::new();
    let mut want = Vec::new();
    for i in 0..n {
        let c = format!("q{}", i).into_bytes();
        text.extend([&c[..], a.eol()].concat());
        want.extend([&rule(&c).unwrap()[..], a.eol()].concat());
    }
    mcrt::set_explore(true, true, true, false);
    // the second part comes while a command is being executed
    let k = if cut == 0 { text.len() } else { text.len() - 3 };
    s.send(&text[..k]);
    let (p2, b2) = (p.clone(), Shared(b));
    let h = mcrt::spawn_client("locker", async move {
        let (p, b) = (p2, { b2 });
        let ok = lock_task(&b.0, key, 60000).await?;
        mark(&p, "+9".into());
        if ok {
            Ok(b)
        } else {
            Err("the lock is refused".to_string())
        }
    });
    s.send(&text[k..]);
    run_idle();
    mcrt::explore_off();
    no_trouble()?;
    let Some(r) = h.try_take() else {
        return bad(format!("lock waits {}", ctx), format!("{}: the lock is not granted", ctx));
    };
    let b = r.or_else(|e| bad(format!("lock {}", ctx), format!("{}: {}", ctx, e)))?;
    let mut got = Vec::new();
    for _ in 0..60 {
        got.extend(s.recv());
        run_idle();
    }
    let log = p.execs();
    let at = log.iter().position(|e| e == b"+9").unwrap();
    if log.len() - at - 1 > 1 {
        return bad(format!("exclusion {}", ctx), format!("{}: executed while locked: [{}]", ctx, segs_text(&log[at + 1..])));
    }
    net::cfg(|c| c.server_buf = usize::MAX);
    let mut b = b.0;
    works(&mut b, b"qz", &ctx)?;
    b.end(0);
    for _ in 0..60 {
        got.extend(s.recv());
        run_idle();
    }
    no_trouble()?;
    let tel = w == Tel;
    let t = if tel { strip_prompts(&strip_telnet(&got).0, true) } else { got };
    if t != want {
        return bad(format!("answers {}", ctx), format!("{}: the answers are \"{}\" instead of \"{}\"", ctx, show(&t), show(&want)));
    }
    let log: Vec<_> = p.execs().into_iter().filter(|e| e[0] == b'q' && e != b"qz").collect();
    if log.len() != n || log.iter().enumerate().any(|(i, e)| *e != format!("q{}", i).into_bytes()) {
        return bad(format!("count {}", ctx), format!("{}: executed [{}]", ctx, segs_text(&log)));
    }
    Ok(())
}

/// What needs the device
#[derive(Clone, Copy, Debug, PartialEq)]
enum Need {
    Query,
    Trigger,
    Clear,
    Remote,
    Lockout,
}

const NEEDS: [(P, Need, bool); 17] = [
    (Raw, Need::Query, true),
    (Unix, Need::Query, true),
    (Tel, Need::Query, true),
    (Hs, Need::Query, true),
    (Hs, Need::Trigger, true),
    (Hs, Need::Remote, true),
    (Hs, Need::Lockout, true),
    (Vx, Need::Query, true),
    (Vx, Need::Trigger, true),
    (Vx, Need::Clear, true),
    (Vx, Need::Remote, true),
    (Vx, Need::Lockout, true),
    (Vx, Need::Query, false),
    (Vx, Need::Trigger, false),
    (Vx, Need::Clear, false),
    (Vx, Need::Remote, false),
    (Vx, Need::Lockout, false),
];

async fn need_task(c: &Cl, n: Need, cmd: &[u8], wait: bool) -> Result<bool, String> {
    match c {
        _ if n == Need::Query => query_task(c, cmd, wait).await,
        Cl::Hs(s) if n == Need::Trigger => {
            s.sync.send(hs::TRIGGER, 0, 0x4242, b"");
            Ok(true)
        }
        Cl::Hs(s) => {
            s.asy.send(hs::REMOTE, if n == Need::Remote { 3 } else { 5 }, 0, b"");
            match s.asy.next().await {
                Some(m) if m.typ == hs::REMOTE_R => Ok(true),
                m => Err(format!("remote answered {:?}", m)),
            }
        }
        Cl::Vx { r, lid } => {
            let (flags, to) = if wait { (WAIT, 60000) } else { (0, 0) };
            let op = match n {
                Need::Trigger => Op::Trigger { lid: *lid, flags, to },
                Need::Clear => Op::Clear { lid: *lid, flags, to },
                Need::Remote => Op::Remote { lid: *lid, flags, to },
                _ => Op::Local { lid: *lid, flags, to },
            };
            match r.ask(&op).await? {
                Res::Err(0) => Ok(true),
                Res::Err(11 | 3) if !wait => Ok(false),
                x => Err(format!("{:?} answered {:?}", n, x)),
            }
        }
        _ => unreachable!(),
    }
}

/// The device is in use while requests arrive and a lock is taken: when the device becomes free, only the
/// holder of the lock gets it; the others do once the lock is released.
fn inuse10(n: usize) -> Verdict {
    let p = Probe::new();
    let mut ks = Vec::new();
    for i in 0..n {
        ks.push(choose(if i == 0 { NEEDS.len() } else { ks[i - 1] + 1 }, "request"));
    }
    let locker = [None, Some(Hs), Some(Vx)][choose(3, "locker")];
    let key = if locker == Some(Vx) { 0 } else { choose(2, "key") };
    let first = choose(2, "lock first") == 1;
    let explore = choose(2, "explore") == 1;
    let mut which: Vec<P> = ALL.to_vec();
    which.retain(|w| locker == Some(*w) || ks.iter().any(|k| NEEDS[*k].0 == *w));
    let (lock, dev) = (SharedLock::new(), p.device());
    start_on(&p, &which, lock.clone(), dev.clone());
    let ctx = format!("{:?} of others while the device is in use and {} locks with key {} ({})", ks.iter().map(|k| NEEDS[*k]).collect::<Vec<_>>(), locker.map_or("a handle".to_string(), |l| format!("{:?}", l)), key, if first { "before" } else { "after" });
    let mut cs = Vec::new();
    for k in &ks {
        cs.push(Cl::open(NEEDS[*k].0)?);
    }
    let mut lc = match locker {
        Some(w) => Some(Cl::open(w)?),
        None => None,
    };
    let mut local = LockHandle::new(lock.clone(), dev.clone());
    run_idle();
    p.take();
    let guard = dev.try_lock().unwrap();
    let mut tasks = Vec::new();
    if explore {
        mcrt::set_explore(true, true, true, false);
    }
    let mut locking = None;
    for step in 0..2 {
        if first == (step == 0) {
            match lc.take() {
                None => {
                    if local.try_acquire(KEYS[key]).is_err() {
                        return bad(format!("lock {}", ctx), format!("{}: the lock is not granted", ctx));
                    }
                }
                Some(c) => {
                    let sh = Shared(c);
                    locking = Some(mcrt::spawn_client("locker", async move {
                        let sh = { sh };
                        let r = lock_task(&sh.0, key, 60000).await;
                        (sh, r)
                    }));
                }
            }
        } else {
            for (i, (k, c)) in ks.iter().zip(cs.drain(..)).enumerate() {
                let (_, need, wait) = NEEDS[*k];
                let sh = Shared(c);
                let cmd = format!("q{}", i).into_bytes();
                tasks.push(mcrt::spawn_client(&format!("client{}", i), async move {
                    let sh = { sh };
                    let r = need_task(&sh.0, need, &cmd, wait).await;
                    (sh, r)
                }));
            }
        }
        if !explore {
            run_idle();
        }
    }
    run_idle();
    no_trouble()?;
    if let Some(h) = locking {
        match h.try_take() {
            Some((c, Ok(true))) => lc = Some(c.0),
            _ => return bad(format!("lock {}", ctx), format!("{}: the lock is not granted", ctx)),
        }
    }
    if !p.calls().is_empty() {
        return bad(format!("in use {}", ctx), format!("{}: {:?} reached the device while it was in use", ctx, p.calls()));
    }
    drop(guard);
    run_idle();
    mcrt::explore_off();
    no_trouble()?;
    if !p.calls().is_empty() {
        return bad(format!("exclusion {}", ctx), format!("{}: {:?} reached the device while it was locked", ctx, p.calls()));
    }
    // the holder of the lock can use it, and unlock
    match lc {
        None => {
            if local.try_lock().is_err() || local.try_release().is_err() {
                return bad(format!("holder {}", ctx), format!("{}: the handle cannot use the device", ctx));
            }
        }
        Some(mut c) => {
            works(&mut c, b"qz", &ctx)?;
            c.end(0);
        }
    }
    run_idle();
    no_trouble()?;
    let mut want: Vec<Call> = Vec::new();
    let mut keep = Vec::new();
    for (i, t) in tasks.iter().enumerate() {
        let (w, need, wait) = NEEDS[ks[i]];
        match t.try_take() {
            Some((c, Ok(r))) if r == wait => keep.push(c),
            Some((_, r)) => return bad(format!("answer {} {:?}", ctx, r), format!("{}: request {} is answered {:?}", ctx, i, r)),
            None => return bad(format!("waits {} {}", ctx, i), format!("{}: request {} is not answered after the lock was released", ctx, i)),
        }
        if wait {
            want.extend(match need {
                Need::Query => vec![Call::Exec(format!("q{}", i).into_bytes())],
                Need::Trigger => vec![Call::Trigger(Source::Bus)],
                Need::Clear => vec![Call::Clear],
                Need::Remote => vec![Call::Remote(true)],
                Need::Lockout if w == Vx => vec![Call::Remote(false)],
                Need::Lockout => vec![Call::Remote(true), Call::Lockout(true)],
            });
        }
    }
    let mut got: Vec<String> = p.calls().iter().filter(|c| **c != Call::Exec(b"qz".to_vec())).map(|c| format!("{:?}", c)).collect();
    let mut want: Vec<String> = want.iter().map(|c| format!("{:?}", c)).collect();
    // the order among those that waited is free
    got.sort();
    want.sort();
    if got != want {
        return bad(format!("calls {} {:?}", ctx, got), format!("{}: afterwards the device got {:?}, expected {:?}", ctx, got, want));
    }
    drop(keep);
    run_idle();
    all_free(&which, &ctx)
}

pub fn c10() -> Vec<Scenario> {
    let d = q(4, 5);
    let mut v = Vec::new();
    for ws in [[Raw, Hs], [Tel, Hs], [Raw, Vx], [Tel, Vx], [Hs, Vx]] {
        v.push(Scenario::new(
            format!("{:?}-{:?}", ws[0], ws[1]),
            format!("every sequence of {} of query, trigger, clear (waiting or not), lock (exclusive, shared, with and without timeout), unlock, 30 s passing", d + 1),
            move || sequences(&ws, d + 1, true, false),
        ));
    }
    for ws in [[Raw, Hs, Vx], [Tel, Hs, Vx], [Unix, Hs, Vx], [Raw, Tel, Vx], [Hs, Hs, Vx], [Hs, Vx, Vx]] {
        v.push(Scenario::new(format!("{:?}-{:?}-{:?}", ws[0], ws[1], ws[2]), format!("the same by 3 clients, {} steps", d), move || sequences(&ws, d, true, false)));
    }
    v.push(Scenario::new("race-2", "2 of 11 programs (lock by either protocol, exclusive or shared, query, unlock or leave) of 5 protocols, every interleaving up to the deviation bound", || race10(2)).bound(3, 5));
    v.push(Scenario::new("batch", "a client of a line protocol sends 2 or 3 commands in one or two segments, and may not read its answers, while a lock is taken, every interleaving up to the deviation bound", batch10).bound(3, 4));
    v.push(Scenario::new("race-3", "3 of them", || race10(3)).bound(2, 3));
    for n in 1..=2 {
        v.push(Scenario::new(format!("in-use-{}", n), format!("{} of 17 requests (5 protocols, waiting or not) and a lock (exclusive or shared, by 2 protocols or directly) while the device is in use, in either order, then the end of the use, one after another or at once under all interleavings up to the deviation bound: only the holder gets it, the others once it is unlocked", n), move || inuse10(n)).bound(if n == 1 { 3 } else { 1 }, if n == 1 { 4 } else { 2 }));
    }
    v
}

// ------------------------------------------------------------------ C09

fn intr09() -> Op {
    Op::CreateIntr { host: 0x7f00_0001, port: 7000, prog: vx::INTR, vers: 1, udp: 0 }
}

/// Requests of each protocol, as bytes per channel (true: asynchronous), and the command they execute.
fn requests(w: P, lid: u32) -> Vec<(bool, Vec<u8>, Option<&'static [u8]>)> {
    let rec = |op: Op| {
        let (pr, a) = op.enc();
        vx::record(&vx::call_bytes(7, vx::CORE, 1, pr, &a.0))
    };
    match w {
        Raw | Unix => vec![(false, b"qcut\n".to_vec(), Some(b"qcut"))],
        Tel => vec![(false, b"qcut\r\n".to_vec(), Some(b"qcut")), (false, b"q\xff\xff\xff\xfd\x01\xff\xfa\x18\x00\xff\xf0c\n".to_vec(), Some(b"q\xffc"))],
        Hs => vec![
            (false, hs::msg(hs::END, 0, 2, b"qcut").enc(), Some(b"qcut")),
            (false, hs::msg(hs::DATA, 0, 2, b"cut").enc(), None),
            (false, hs::msg(hs::TRIGGER, 0, 2, b"").enc(), None),
            (true, hs::msg(hs::LOCK, 1, 0, b"").enc(), None),
            (true, hs::msg(hs::LOCK, 1, 60000, b"k").enc(), None),
            (true, hs::msg(hs::CLEAR, 0, 0, b"").enc(), None),
            (true, hs::msg(hs::REMOTE, 1, 0, b"").enc(), None),
            (true, hs::msg(hs::STATUS, 0, 0, b"").enc(), None),
        ],
        Vx => vec![
            (false, rec(Op::Write { lid, flags: ENDF | WAIT, to: 60000, data: b"qcut".to_vec() }), Some(b"qcut")),
            (false, rec(Op::Read { lid, flags: WAIT, to: 60000, size: 100, term: 0 }), None),
            (false, rec(Op::Lock { lid, flags: WAIT, to: 60000 }), None),
            (false, rec(Op::Create { lock: true, to: 60000, dev: "inst0" }), None),
            (false, rec(Op::Trigger { lid, flags: WAIT, to: 60000 }), None),
            (false, rec(Op::Unlock { lid }), None),
            (false, rec(Op::Destroy { lid }), None),
            (false, rec(Op::Srq { lid, on: true, handle: b"h".to_vec() }), None),
            (false, [intr09(), Op::Srq { lid, on: true, handle: b"h".to_vec() }].map(rec).concat(), None),
            (false, [Op::Srq { lid, on: true, handle: b"h".to_vec() }, intr09(), Op::Lock { lid, flags: WAIT, to: 60000 }].map(rec).concat(), None),
        ],
    }
}

fn acquire_now(c: &Cl, key: usize) -> Verdict {
    let ok = match c {
        Cl::Hs(s) => {
            s.asy.send(hs::LOCK, 1, 0, KEYS[key]);
            let r = s.asy.idle();
            r.len() == 1 && r[0].typ == hs::LOCK_R && r[0].ctrl == 1
        }
        Cl::Vx { r, lid } => r.must(&Op::Lock { lid: *lid, flags: 0, to: 0 })?.err() == 0,
        _ => true,
    };
    if ok {
        Ok(())
    } else {
        bad("setup lock", "a free lock is refused")
    }
}

/// A client ends after every byte of every request, holding nothing, holding the lock or while another holds it.
fn cut09(w: P) -> Verdict {
    let p = Probe::new();
    let which = [w, if w == Hs { Vx } else { Hs }, Raw];
    let which: Vec<P> = if w == Raw { vec![Raw, Hs, Vx] } else { which.to_vec() };
    start_all(&p, &which);
    let state = choose(3, "state");
    let c = Cl::open(w)?;
    let lid = match &c {
        Cl::Vx { lid, .. } => *lid,
        _ => 0,
    };
    let other = Cl::open(which[1])?;
    let key = if w == Hs { choose(2, "key") } else { 0 };
    match state {
        1 => {
            if !matches!(w, Hs | Vx) {
                return Ok(());
            }
            acquire_now(&c, key)?
        }
        2 => acquire_now(&other, 0)?,
        _ => {}
    }
    p.take();
    // the controller's interrupt service
    let _intr = mcrt::net::TcpListen::bind("127.0.0.1:7000".parse().unwrap()).unwrap();
    let rs = requests(w, lid);
    let k = choose(rs.len(), "request");
    let (asy, bytes, cmd) = &rs[k];
    let cut = choose(bytes.len() + 1, "cut");
    let kind = choose(ends(w), "end");
    let at_once = choose(2, "at once") == 1;
    {
        let s = match &c {
            Cl::Line { s, .. } => s,
            Cl::Vx { r, .. } => &r.s,
            Cl::Hs(h) => {
                if *asy {
                    &h.asy.s
                } else {
                    &h.sync.s
                }
            }
        };
        s.send(&bytes[..cut]);
    }
    if !at_once {
        run_idle();
    }
    let ctx = format!("{:?} client {}, {} of {} bytes of request {}, end {}{}", w, ["without a lock", "with the lock", "locked out"][state], cut, bytes.len(), k, kind, if at_once { " at once" } else { "" });
    let sg = |v: Violation| Violation { sig: format!("{} {}", v.sig, ctx), msg: format!("{}: {}", ctx, v.msg) };
    c.end(kind);
    no_trouble().map_err(sg)?;
    let judge = |ex: Vec<Vec<u8>>| -> Verdict {
        let max = if cut == bytes.len() { cmd.iter().map(|c| c.to_vec()).collect::<Vec<_>>() } else { vec![] };
        if ex.iter().any(|e| !max.contains(e)) || ex.len() > 1 {
            return bad(format!("executed {}", ctx), format!("{}: executed [{}]", ctx, segs_text(&ex)));
        }
        Ok(())
    };
    let calls = p.calls();
    judge(p.execs())?;
    if cut < bytes.len() && calls.iter().any(|c| !matches!(c, Call::Status)) {
        return bad(format!("effect {}", ctx), format!("{}: the device got {}", ctx, show_calls(&calls)));
    }
    if state == 2 {
        if calls.iter().any(|c| matches!(c, Call::Exec(_) | Call::Trigger(_) | Call::Clear)) {
            return bad(format!("exclusion {}", ctx), format!("{}: the device got {}", ctx, show_calls(&calls)));
        }
        // the holder is not disturbed
        let mut o = other;
        works(&mut o, b"qo", &ctx).map_err(sg)?;
        match choose(2, "release") {
            0 => o.end(0),
            _ => {
                match &o {
                    Cl::Hs(s) => {
                        s.asy.send(hs::LOCK, 0, 0, b"");
                    }
                    Cl::Vx { r, lid } => {
                        r.send(19, &vx::X::new().u(*lid));
                    }
                    _ => {}
                }
                run_idle();
                std::mem::forget(o);
            }
        }
        run_idle();
        let ex: Vec<_> = p.execs().into_iter().filter(|e| e != b"qo").collect();
        judge(ex)?;
    }
    p.take();
    if w == Vx && state == 1 && cut == bytes.len() && k == 3 {
        // it waits for itself, until its timeout
        run_for(61 * SEC);
    }
    all_free(&which, &ctx).map_err(sg)?;
    let ex: Vec<_> = p.execs().into_iter().filter(|e| e != b"qz").collect();
    if !ex.is_empty() {
        return bad(format!("late {}", ctx), format!("{}: executed later: [{}]", ctx, segs_text(&ex)));
    }
    Ok(())
}

/// A holder ends or unlocks, one that waits ends, and a third waits: all at once.
fn race09() -> Verdict {
    let p = Probe::new();
    let holder = [Hs, Vx][choose(2, "holder")];
    let waiter = ALL[choose(5, "waiter")];
    let third = [Hs, Vx][choose(2, "third")];
    let wlock = if matches!(waiter, Hs | Vx) { choose(2, "what waits") == 1 } else { false };
    let hend = choose(3, "how the holder ends");
    let wend = choose(2, "how the waiter ends");
    let sent = choose(2, "waiter sent before") == 1;
    let mut which: Vec<P> = ALL.to_vec();
    which.retain(|w| *w == holder || *w == waiter || *w == third);
    start_all(&p, &which);
    let (h, w, t) = (Cl::open(holder)?, Cl::open(waiter)?, Cl::open(third)?);
    acquire_now(&h, 0)?;
    p.take();
    let ctx = format!("holder {:?} ends {}, waiter {:?} {} ends {}{}, third {:?}", holder, hend, waiter, if wlock { "locks" } else { "queries" }, wend, if sent { " sent before" } else { "" }, third);
    let send = move |w: &Cl| match w {
        Cl::Line { s, .. } => s.send(&[b"qw", w.eol()].concat()),
        Cl::Hs(s) if wlock => s.asy.send(hs::LOCK, 1, 60000, b""),
        Cl::Hs(s) => s.sync.send(hs::END, 0, 2, b"qw"),
        Cl::Vx { r, lid } => {
            let op = if wlock { Op::Lock { lid: *lid, flags: WAIT, to: 60000 } } else { Op::Write { lid: *lid, flags: WAIT | ENDF, to: 60000, data: b"qw".to_vec() } };
            let (pr, a) = op.enc();
            r.send(pr, &a);
        }
    };
    if sent {
        send(&w);
        run_idle();
    }
    mcrt::set_explore(true, true, true, false);
    let stop = |c: Cl, kind: usize| match c {
        Cl::Line { s, .. } => end_sock(s, kind),
        Cl::Vx { r, .. } => end_sock(r.s, kind),
        Cl::Hs(s) => {
            end_sock(s.sync.s, kind);
            end_sock(s.asy.s, kind);
        }
    };
    let (sh, sw, st) = (Shared(h), Shared(w), Shared(t));
    let keep: Rc<RefCell<Option<Cl>>> = Rc::default();
    let k2 = Shared(keep.clone());
    mcrt::spawn_client("waiter", async move {
        let w = { sw }.0;
        if !sent {
            send(&w);
        }
        async_std::task::yield_now().await;
        stop(w, wend);
    })
    .detach();
    mcrt::spawn_client("holder", async move {
        let (h, k2) = ({ sh }.0, { k2 });
        if hend == 2 {
            let _ = unlock_task(&h).await;
            *k2.0.borrow_mut() = Some(h);
        } else {
            stop(h, hend);
        }
    })
    .detach();
    let j = mcrt::spawn_client("third", async move {
        let t = { st }.0;
        if !lock_task(&t, 0, 60000).await? {
            return Err("the lock is refused".to_string());
        }
        query_task(&t, b"qt", true).await?;
        Ok(())
    });
    run_idle();
    mcrt::explore_off();
    no_trouble()?;
    match j.try_take() {
        Some(Ok(())) => {}
        Some(Err(e)) => return bad(format!("third {}", ctx), format!("{}: {}", ctx, e)),
        None => return bad(format!("third {}", ctx), format!("{}: the third client is not served", ctx)),
    }
    if p.execs().iter().filter(|e| *e == b"qw").count() > 1 {
        return bad(format!("twice {}", ctx), format!("{}: the command of the waiter is executed more than once", ctx));
    }
    let r = all_free(&which, &ctx);
    drop(keep);
    r
}

/// Clients come and go, each leaving in the middle of something: connection slots are given back as well.
fn many09() -> Verdict {
    let p = Probe::new();
    let w = ALL[choose(5, "protocol")];
    let kind = choose(ends(w), "end");
    let lock = choose(2, "with lock") == 1;
    let rs = requests(w, 1);
    let k = choose(rs.len(), "request");
    let part = choose(3, "part");
    start_all(&p, &ALL);
    let _intr = mcrt::net::TcpListen::bind("127.0.0.1:7000".parse().unwrap()).unwrap();
    let base = mcrt::alive_tasks();
    let ctx = format!("{:?} request {} part {} end {}{}", w, k, part, kind, if lock { " with lock" } else { "" });
    for i in 0..25 {
        let c = Cl::open(w).map_err(|v| Violation { sig: format!("{} {}", v.sig, ctx), msg: format!("{}, client {}: {}", ctx, i, v.msg) })?;
        if lock {
            acquire_now(&c, 0)?;
        }
        let lid = match &c {
            Cl::Vx { lid, .. } => *lid,
            _ => 0,
        };
        let (asy, b, _) = &requests(w, lid)[k];
        let n = [0, b.len() / 2, b.len()][part];
        match &c {
            Cl::Line { s, .. } => s.send(&b[..n]),
            Cl::Vx { r, .. } => r.s.send(&b[..n]),
            Cl::Hs(h) => (if *asy { &h.asy } else { &h.sync }).s.send(&b[..n]),
        }
        run_idle();
        c.end(kind);
        if w == Vx && lock && k == 3 && part == 2 {
            // it waits for itself, until its timeout
            run_for(61 * SEC);
        }
    }
    run_for(61 * SEC);
    no_trouble()?;
    let left = mcrt::alive_tasks();
    if left != base {
        return bad(format!("tasks {}", ctx), format!("{}: {} tasks of clients that have gone are still there", ctx, left as i64 - base as i64));
    }
    all_free(&ALL, &ctx).map_err(|v| Violation { sig: format!("{} {}", v.sig, ctx), msg: v.msg })
}

pub fn c09() -> Vec<Scenario> {
    let d = q(4, 5);
    let mut v = Vec::new();
    for w in ALL {
        v.push(Scenario::new(format!("cut-{:?}", w), "a client ends (3 to 6 ways, at once or later) after every byte of every request, without, with and excluded by a lock", move || cut09(w)));
    }
    for ws in [[Raw, Hs], [Tel, Hs], [Raw, Vx], [Tel, Vx], [Hs, Vx], [Hs, Hs], [Vx, Vx]] {
        v.push(Scenario::new(
            format!("{:?}-{:?}", ws[0], ws[1]),
            format!("every sequence of {} of waiting query, lock, unlock, end (3 to 6 ways), reconnect, 30 s passing", d + 1),
            move || sequences(&ws, d + 1, false, true),
        ));
    }
    for ws in [[Raw, Hs, Vx], [Tel, Hs, Vx], [Hs, Hs, Vx], [Hs, Vx, Vx]] {
        v.push(Scenario::new(format!("{:?}-{:?}-{:?}", ws[0], ws[1], ws[2]), format!("the same by 3 clients, {} steps", d), move || sequences(&ws, d, false, true)));
    }
    v.push(Scenario::new("race", "a holder ends or unlocks while one that waits ends and a third waits for the lock, all protocols, every interleaving up to the deviation bound", race09).bound(2, 3));
    v.push(Scenario::new("many", "25 clients after each other which end in the middle of something; no task and no connection slot is left behind", many09));
    v
}
