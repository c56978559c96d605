//! C22-C27: the VXI-11 core, abort and interrupt channels against a reference model.
//!
//! The model is nondeterministic: it keeps the set of states the standard and the properties allow
//! after what was observed so far. An observation that no state allows is a violation.
use crate::common::*;
use crate::dev::*;
use crate::vx::*;
use lxi_device::lock::LockHandle;
use lxi_device::trigger::Source;
use mcrt::net::{Sock, TcpListen, UdpSock};
use std::cell::RefCell;
use std::net::SocketAddr;
use std::rc::Rc;

// ------------------------------------------------------------------ model

#[derive(Clone, Copy, PartialEq, Debug)]
enum Own {
    Free,
    Link(usize),
    /// a client outside of VXI-11, exclusive or shared
    Ext,
}

#[derive(Clone, PartialEq, Debug)]
struct L {
    conn: usize,
    lid: u32,
    live: bool,
    inb: Vec<u8>,
    out: Vec<u8>,
    srq: Option<Vec<u8>>,
}

#[derive(Clone, PartialEq, Debug)]
struct Pend {
    conn: usize,
    op: Op,
    deadline: u64,
    /// its client is gone
    zombie: bool,
}

#[derive(Clone, PartialEq, Debug)]
struct St {
    own: Own,
    links: Vec<L>,
    pend: Vec<Pend>,
    /// number of the interrupt channel of each connection, and whether the controller closed it
    chan: Vec<Option<(usize, bool)>>,
    chans: usize,
    stb: u8,
    fail: u8,
    now: u64,
}

/// What an answer must look like.
#[derive(Clone, PartialEq, Debug)]
enum Pat {
    Is(Res),
    /// one of these errors
    Err(&'static [u32]),
    AnyErr,
    Created,
    /// a read with nothing to read
    NoData,
    /// a read of zero bytes
    ZeroRead,
}

impl Pat {
    fn fits(&self, r: &Res) -> bool {
        // nothing is transferred by a failed operation
        let clean = match r {
            Res::Write { err, size } => *err == 0 || *size == 0,
            Res::Read { err, data, .. } => *err == 0 || data.is_empty(),
            Res::Create { err, lid, .. } => *err == 0 || *lid == 0,
            _ => true,
        };
        clean
            && match self {
                Pat::Is(x) => x == r,
                Pat::Err(e) => e.contains(&r.err()),
                Pat::AnyErr => r.err() != 0,
                Pat::Created => matches!(r, Res::Create { err: 0, port, max, .. } if *port == async_addr().port() as u32 && *max >= 1024),
                Pat::NoData => matches!(r, Res::Read { err: 0 | 15, data, .. } if data.is_empty()),
                Pat::ZeroRead => matches!(r, Res::Read { err: 0, data, .. } if data.is_empty()),
            }
    }
}

#[derive(Clone, PartialEq, Debug)]
struct Ev {
    st: St,
    replies: Vec<(usize, Pat)>,
    abort: Option<Pat>,
    calls: Vec<Call>,
    srqs: Vec<(usize, Vec<u8>)>,
}

/// What was observed in one step.
#[derive(Clone, Debug, Default)]
pub struct Obs {
    replies: Vec<(usize, Res)>,
    abort: Option<Res>,
    calls: Vec<Call>,
    srqs: Vec<(usize, Vec<u8>)>,
}

/// the connection number of the abort channel
const ABORT: usize = usize::MAX;

impl St {
    fn new(conns: usize) -> St {
        St { own: Own::Free, links: vec![], pend: vec![], chan: vec![None; conns], chans: 0, stb: 0, fail: 0, now: 0 }
    }
    fn link(&self, conn: usize, lid: u32) -> Option<usize> {
        self.links.iter().position(|l| l.live && l.conn == conn && l.lid == lid)
    }
    fn drop_link(&mut self, i: usize) {
        self.links[i].live = false;
        self.links[i].srq = None;
        if self.own == Own::Link(i) {
            self.own = Own::Free;
        }
    }
    fn drop_conn(&mut self, c: usize) {
        for i in 0..self.links.len() {
            if self.links[i].conn == c && self.links[i].live {
                self.drop_link(i);
            }
        }
        self.chan[c] = None;
        self.pend.retain(|p| p.conn != c);
    }
    fn may_use(&self, i: usize) -> bool {
        self.own == Own::Free || self.own == Own::Link(i)
    }
}

fn parts(op: &Op) -> Option<(u32, u32, u32)> {
    // link, flags, lock timeout of the operations which use the device
    Some(match op {
        Op::Write { lid, flags, to, .. } | Op::Read { lid, flags, to, .. } | Op::Stb { lid, flags, to } | Op::Trigger { lid, flags, to } | Op::Clear { lid, flags, to } | Op::Remote { lid, flags, to } | Op::Local { lid, flags, to } | Op::Lock { lid, flags, to } => (*lid, *flags, *to),
        _ => return None,
    })
}

enum Try {
    Done(Vec<Ev>),
    Blocked,
}

/// Carry out an operation if the lock permits.
fn perform(ev: &Ev, conn: usize, op: &Op, obs: &Obs, quiet: bool) -> Try {
    let mut e = ev.clone();
    let ok = |mut e: Ev, p: Pat| {
        if !quiet {
            e.replies.push((conn, p));
        }
        Try::Done(vec![e])
    };
    // a failure of the device: operation not supported, I/O timeout, I/O error
    let dev_result = |e: &St| Pat::Err([&[0], &[8], &[15], &[17]][e.fail as usize]);
    if let Op::Create { lock, dev, .. } = op {
        if *dev != "inst0" {
            return ok(e, Pat::Err(&[3, 21]));
        }
        if *lock && e.st.own != Own::Free {
            return Try::Blocked;
        }
        let lid = if quiet {
            0
        } else {
            match obs.replies.iter().find(|(c, _)| *c == conn) {
                Some((_, Res::Create { lid, .. })) => *lid,
                _ => return Try::Done(vec![]),
            }
        };
        if e.st.links.iter().any(|l| l.live && l.lid == lid) {
            // the id of another link
            return Try::Done(vec![]);
        }
        e.st.links.push(L { conn, lid, live: true, inb: vec![], out: vec![], srq: None });
        if *lock {
            e.st.own = Own::Link(e.st.links.len() - 1);
        }
        return ok(e, Pat::Created);
    }
    if let Op::CreateIntr { port, .. } = op {
        let mut v = Vec::new();
        if e.st.chan[conn].is_some() {
            let mut x = e.clone();
            x.replies.push((conn, Pat::Err(&[29])));
            v.push(x);
        }
        // a channel which the controller closed may have been noticed
        if e.st.chan[conn].map_or(true, |c| c.1) {
            if *port == 9 {
                e.st.chan[conn] = None;
                e.replies.push((conn, Pat::AnyErr));
            } else {
                e.st.chan[conn] = Some((e.st.chans, false));
                e.st.chans += 1;
                e.replies.push((conn, Pat::Is(Res::Err(0))));
            }
            v.push(e);
        }
        return Try::Done(v);
    }
    if *op == Op::DestroyIntr {
        return match e.st.chan[conn].take() {
            Some((_, false)) => ok(e, Pat::Is(Res::Err(0))),
            Some((_, true)) => ok(e, Pat::Err(&[0, 6])),
            None => ok(e, Pat::Err(&[6])),
        };
    }
    let lid = match op {
        Op::Unlock { lid } | Op::Srq { lid, .. } | Op::Docmd { lid } | Op::Destroy { lid } => *lid,
        _ => parts(op).unwrap().0,
    };
    let Some(i) = e.st.link(conn, lid) else {
        return ok(e, if matches!(op, Op::Docmd { .. }) { Pat::Err(&[4, 8]) } else { Pat::Err(&[4]) });
    };
    match op {
        Op::Unlock { .. } => {
            return if e.st.own == Own::Link(i) {
                e.st.own = Own::Free;
                ok(e, Pat::Is(Res::Err(0)))
            } else {
                ok(e, Pat::Err(&[12]))
            }
        }
        Op::Srq { on, handle, .. } => {
            e.st.links[i].srq = on.then(|| handle.clone());
            return ok(e, Pat::Is(Res::Err(0)));
        }
        Op::Docmd { .. } => return ok(e, Pat::Err(&[8])),
        Op::Destroy { .. } => {
            e.st.drop_link(i);
            return ok(e, Pat::Is(Res::Err(0)));
        }
        Op::Lock { .. } if e.st.own == Own::Link(i) => return ok(e, Pat::AnyErr),
        _ => {}
    }
    if !e.st.may_use(i) {
        return Try::Blocked;
    }
    let l = &mut e.st.links[i];
    match op {
        Op::Lock { .. } => {
            e.st.own = Own::Link(i);
            ok(e, Pat::Is(Res::Err(0)))
        }
        Op::Write { flags, data, .. } => {
            l.inb.extend(data);
            if flags & ENDF != 0 {
                let c = std::mem::take(&mut l.inb);
                if let Some(r) = respond(&c) {
                    l.out.extend(r);
                }
                e.calls.push(Call::Exec(c));
            }
            ok(e, Pat::Is(Res::Write { err: 0, size: data.len() as u32 }))
        }
        Op::Read { flags, size, term, .. } => {
            let size = *size as usize;
            if l.out.is_empty() {
                return ok(e, Pat::NoData);
            }
            if size == 0 {
                return ok(e, Pat::ZeroRead);
            }
            let mut n = size.min(l.out.len());
            if flags & TERM != 0 {
                if let Some(p) = l.out.iter().position(|c| c == term) {
                    n = n.min(p + 1);
                }
            }
            let data: Vec<u8> = l.out.drain(..n).collect();
            let mut reason = 0;
            if n == size {
                reason |= 1;
            }
            if flags & TERM != 0 && data.last() == Some(term) {
                reason |= 2;
            }
            if l.out.is_empty() {
                reason |= 4;
            }
            ok(e, Pat::Is(Res::Read { err: 0, reason, data }))
        }
        Op::Stb { .. } => {
            let m = if l.out.is_empty() { 0 } else { 0x10 };
            e.calls.push(Call::Status);
            let stb = (e.st.stb & 0xef) as u32 | m;
            let p = if e.st.fail == 0 { Pat::Is(Res::Stb { err: 0, stb }) } else { dev_result(&e.st) };
            ok(e, p)
        }
        Op::Trigger { .. } => {
            e.calls.push(Call::Trigger(Source::Bus));
            let p = dev_result(&e.st);
            ok(e, p)
        }
        Op::Clear { .. } => {
            l.inb.clear();
            l.out.clear();
            e.calls.push(Call::Clear);
            let p = dev_result(&e.st);
            ok(e, p)
        }
        Op::Remote { .. } | Op::Local { .. } => {
            e.calls.push(Call::Remote(matches!(op, Op::Remote { .. })));
            let p = dev_result(&e.st);
            ok(e, p)
        }
        _ => unreachable!(),
    }
}

/// An operation that is refused or given up: a clear may have discarded the buffers already.
fn refused(ev: &Ev, conn: usize, op: &Op, p: Pat, quiet: bool) -> Vec<Ev> {
    let mut e = ev.clone();
    if !quiet {
        e.replies.push((conn, p));
    }
    let mut v = vec![e.clone()];
    if let Op::Clear { lid, .. } = op {
        if let Some(i) = e.st.link(conn, *lid) {
            e.st.links[i].inb.clear();
            e.st.links[i].out.clear();
            v.push(e);
        }
    }
    v
}

/// Serve what waits, in every order, until nothing more can be served.
fn settle(ev: Ev, obs: &Obs) -> Vec<Ev> {
    let mut out = Vec::new();
    let mut todo = vec![ev];
    while let Some(e) = todo.pop() {
        let mut moved = false;
        for k in 0..e.st.pend.len() {
            let p = e.st.pend[k].clone();
            match perform(&e, p.conn, &p.op, obs, p.zombie) {
                Try::Blocked => {}
                Try::Done(v) => {
                    moved = true;
                    for mut n in v {
                        n.st.pend.remove(k);
                        if p.zombie {
                            n.st.drop_conn(p.conn);
                        }
                        todo.push(n);
                    }
                }
            }
        }
        if !moved {
            out.push(e);
        }
    }
    out
}

#[derive(Clone, PartialEq, Debug)]
pub enum Act {
    Op(usize, Op),
    Close(usize),
    Open(usize),
    /// a client outside of VXI-11 locks, shared or exclusive, or unlocks
    Ext(bool),
    ExtUnlock,
    Time(u64),
    Announce(u8),
    SetStb(u8),
    Fail(u8),
    /// the controller closes its end of the interrupt channel of this connection
    Hangup(usize),
}

fn evolve(st: &St, a: &Act, obs: &Obs) -> Vec<Ev> {
    let e = Ev { st: st.clone(), replies: vec![], abort: None, calls: vec![], srqs: vec![] };
    let mut first = Vec::new();
    match a {
        Act::Op(_, Op::Abort { lid }) => {
            // a link that exists and waits
            match e.st.links.iter().position(|l| l.live && l.lid == *lid) {
                None => {
                    let mut e = e;
                    e.abort = Some(Pat::Err(&[4]));
                    first.push(e);
                }
                Some(i) => {
                    let c = e.st.links[i].conn;
                    let mut e = e;
                    let zombie = e.st.pend.iter().any(|p| p.conn == c && p.zombie);
                    if zombie {
                        // it may be gone already
                        let mut x = e.clone();
                        x.abort = Some(Pat::Err(&[4]));
                        first.push(x);
                    }
                    e.abort = Some(Pat::Is(Res::Err(0)));
                    match e.st.pend.iter().position(|p| p.conn == c && parts(&p.op).map_or(false, |x| x.0 == *lid)) {
                        Some(k) => {
                            let p = e.st.pend.remove(k);
                            for mut n in refused(&e, c, &p.op, Pat::Err(&[23]), p.zombie) {
                                if p.zombie {
                                    n.st.drop_conn(c);
                                }
                                first.push(n);
                            }
                        }
                        None => first.push(e),
                    }
                }
            }
        }
        Act::Op(c, op) => match perform(&e, *c, op, obs, false) {
            Try::Done(v) => first.extend(v),
            Try::Blocked => {
                let (wait, to) = match op {
                    Op::Create { to, .. } => (true, *to),
                    _ => {
                        let (_, f, t) = parts(op).unwrap();
                        (f & WAIT != 0, t)
                    }
                };
                if !wait || to == 0 {
                    first.extend(refused(&e, *c, op, Pat::Err(&[11]), false));
                } else {
                    let mut e = e;
                    e.st.pend.push(Pend { conn: *c, op: op.clone(), deadline: e.st.now + to as u64, zombie: false });
                    first.push(e);
                }
            }
        },
        Act::Close(c) => {
            let mut now = e.clone();
            now.st.drop_conn(*c);
            first.push(now);
            if e.st.pend.iter().any(|p| p.conn == *c) {
                // or when its request is resolved
                let mut later = e;
                for p in later.st.pend.iter_mut().filter(|p| p.conn == *c) {
                    p.zombie = true;
                }
                let mut silent = later.clone();
                first.push(later);
                silent.st.chan[*c] = None;
                for l in silent.st.links.iter_mut().filter(|l| l.conn == *c) {
                    l.srq = None;
                }
                first.push(silent);
            }
        }
        Act::Open(_) => first.push(e),
        Act::Ext(_) => {
            let mut e = e;
            if e.st.own == Own::Free {
                e.st.own = Own::Ext;
                first.push(e);
            }
        }
        Act::ExtUnlock => {
            let mut e = e;
            if e.st.own == Own::Ext {
                e.st.own = Own::Free;
                first.push(e);
            }
        }
        Act::Time(ms) => {
            let end = e.st.now + ms;
            let mut todo = vec![e];
            while let Some(mut e) = todo.pop() {
                let due = e.st.pend.iter().filter(|p| p.deadline <= end).map(|p| p.deadline).min();
                match due {
                    None => {
                        e.st.now = end;
                        first.push(e);
                    }
                    Some(d) => {
                        e.st.now = d;
                        let k = e.st.pend.iter().position(|p| p.deadline == d).unwrap();
                        let p = e.st.pend.remove(k);
                        for mut n in refused(&e, p.conn, &p.op, Pat::Err(&[11]), p.zombie) {
                            if p.zombie {
                                n.st.drop_conn(p.conn);
                            }
                            todo.extend(settle(n, obs));
                        }
                    }
                }
            }
        }
        Act::Announce(s) => {
            let mut e = e;
            let _ = s;
            for l in e.st.links.iter().filter(|l| l.live) {
                if let (Some(h), Some((n, false))) = (&l.srq, e.st.chan[l.conn]) {
                    e.srqs.push((n, h.clone()));
                }
            }
            e.srqs.sort();
            first.push(e);
        }
        Act::SetStb(s) => {
            let mut e = e;
            e.st.stb = *s;
            first.push(e);
        }
        Act::Fail(f) => {
            let mut e = e;
            e.st.fail = *f;
            first.push(e);
        }
        Act::Hangup(c) => {
            let mut e = e;
            if let Some(x) = &mut e.st.chan[*c] {
                x.1 = true;
            }
            first.push(e);
        }
    }
    first.into_iter().flat_map(|e| settle(e, obs)).collect()
}

fn fits(e: &Ev, o: &Obs) -> bool {
    e.calls == o.calls
        && e.srqs == o.srqs
        && e.replies.len() == o.replies.len()
        && e.replies.iter().all(|(c, p)| o.replies.iter().any(|(d, r)| d == c && p.fits(r)))
        && match (&e.abort, &o.abort) {
            (None, None) => true,
            (Some(p), Some(r)) => p.fits(r),
            _ => false,
        }
}

/// The device of these checks: a 'q' makes a query, answered "<command>" with line ends after each 'n'.
fn respond(c: &[u8]) -> Option<Vec<u8>> {
    if c.contains(&b'n') {
        // several lines
        return Some(c.iter().flat_map(|x| if *x == b'n' { vec![b'n', b'\n'] } else { vec![*x] }).collect());
    }
    rule(c)
}

// ------------------------------------------------------------------ harness

enum Line {
    Tcp(Sock, Vec<u8>),
    Udp(Rc<UdpSock>),
    Gone,
}

struct Chan {
    link: Line,
    prog: u32,
    vers: u32,
    /// the controller answers service requests, although nobody waits for it
    answers: bool,
}

pub struct World {
    pub v: Vxi,
    conns: Vec<Option<Rpc>>,
    busy: Vec<Option<(Op, u32)>>,
    abort: Rpc,
    ext: LockHandle<TDev>,
    ext_held: bool,
    states: Vec<St>,
    pub log: String,
    /// all links ever created: connection, id
    lids: Vec<(usize, u32)>,
    chans: Vec<Chan>,
    listen: Vec<TcpListen>,
    udp: Vec<Rc<UdpSock>>,
    last_udp: Vec<Option<usize>>,
    /// only what concerns this property counts
    only: Option<&'static str>,
    /// something else went wrong, the state is not known any more
    over: bool,
}

fn intr_addr(c: usize) -> SocketAddr {
    SocketAddr::from(([10, 0, 0, 5 + c as u8], 7000 + c as u16))
}

impl World {
    /// A server with this many connections, each with one link.
    fn new(conns: usize, links: bool) -> Result<World, Violation> {
        World::with(Probe::with(respond), conns, links)
    }
    fn with(p: Probe, conns: usize, links: bool) -> Result<World, Violation> {
        let v = start_vxi(&p);
        let ext = LockHandle::new(v.lock.clone(), v.dev.clone());
        let mut w = World {
            v,
            conns: (0..conns).map(|_| Some(Rpc::core())).collect(),
            busy: vec![None; conns],
            abort: Rpc::abort(),
            ext,
            ext_held: false,
            states: vec![St::new(conns)],
            log: String::new(),
            lids: vec![],
            chans: vec![],
            listen: (0..conns).map(|c| TcpListen::bind(intr_addr(c)).unwrap()).collect(),
            udp: (0..conns).map(|c| Rc::new(UdpSock::bind(intr_addr(c)).unwrap())).collect(),
            last_udp: vec![None; conns],
            only: None,
            over: false,
        };
        run_idle();
        if links {
            for c in 0..conns {
                w.act(Act::Op(c, Op::Create { lock: false, to: 0, dev: "inst0" }))?;
            }
        }
        Ok(w)
    }
    fn free(&self, c: usize) -> bool {
        self.conns[c].is_some() && self.busy[c].is_none()
    }
    /// One action on the real code and on the model.
    fn act(&mut self, a: Act) -> Verdict {
        event(format!("--- {:?}", a));
        self.log.push_str(&format!("{}; ", show_act(&a)));
        let mut ab = None;
        match &a {
            Act::Op(_, op @ Op::Abort { .. }) => {
                let (p, x) = op.enc();
                ab = Some(self.abort.send(p, &x));
                run_idle();
            }
            Act::Op(c, op) => {
                let (p, x) = op.enc();
                let id = self.conns[*c].as_ref().unwrap().send(p, &x);
                self.busy[*c] = Some((op.clone(), id));
                run_idle();
            }
            Act::Close(c) => {
                self.conns[*c] = None;
                self.busy[*c] = None;
                run_idle();
            }
            Act::Open(c) => {
                self.conns[*c] = Some(Rpc::core());
                run_idle();
            }
            Act::Ext(shared) => {
                self.ext.try_acquire(if *shared { b"key" } else { b"" }).map_err(|_| Violation { sig: "external lock".into(), msg: format!("{}a free lock is not granted", self.log) })?;
                self.ext_held = true;
                run_idle();
            }
            Act::ExtUnlock => {
                let _ = self.ext.try_release();
                self.ext_held = false;
                run_idle();
            }
            Act::Time(ms) => run_for(ms * MS),
            Act::Announce(s) => {
                self.v.srq.clone().send_status(*s);
                run_idle();
            }
            Act::SetStb(s) => self.v.probe.set_stb(*s),
            Act::Fail(f) => {
                self.v.probe.set_fail(*f);
                self.v.probe.set_status_err(*f);
            }
            Act::Hangup(c) => {
                let (k, _) = self.states[0].chan[*c].unwrap();
                self.chans[k].link = Line::Gone;
                run_idle();
            }
        }
        no_trouble()?;
        let obs = self.observe(ab)?;
        if let Act::Op(c, Op::CreateIntr { udp, prog, vers, .. }) = &a {
            if obs.replies.iter().any(|(d, r)| d == c && r.err() == 0) {
                let link = if *udp == 1 {
                    self.last_udp[*c] = Some(self.chans.len());
                    Line::Udp(self.udp[*c].clone())
                } else {
                    match try_accept(&self.listen[*c]) {
                        Some(s) => Line::Tcp(s, Vec::new()),
                        None => return bad("no interrupt connection", format!("{}the interrupt channel is reported as created but there is no connection", self.log)),
                    }
                };
                self.chans.push(Chan { link, prog: *prog, vers: *vers, answers: self.chans.len() % 2 == 1 });
            } else if try_accept(&self.listen[*c]).is_some() {
                return bad("extra interrupt connection", format!("{}the interrupt channel is refused but a connection is made", self.log));
            }
        }
        for (c, r) in &obs.replies {
            if let Res::Create { err: 0, lid, .. } = r {
                self.lids.push((*c, *lid));
            }
        }
        let mut next: Vec<St> = Vec::new();
        let mut could = Vec::new();
        let mut evs = Vec::new();
        for st in &self.states {
            for e in evolve(st, &a, &obs) {
                if fits(&e, &obs) {
                    if !next.contains(&e.st) {
                        next.push(e.st);
                    }
                } else {
                    let t = show_ev(&e);
                    if !could.contains(&t) {
                        could.push(t);
                    }
                    evs.push(e);
                }
            }
        }
        if next.is_empty() && self.only.is_some_and(|p| p != concerns(&a, &obs, &evs)) {
            self.over = true;
            return Ok(());
        }
        if next.is_empty() {
            let name = match &a {
                Act::Op(_, op) => format!("{:?}", op).split(|c: char| !c.is_alphanumeric()).next().unwrap().to_string(),
                a => format!("{:?}", a).split(|c: char| !c.is_alphanumeric()).next().unwrap().to_string(),
            };
            return bad(format!("{} observed {} allowed {}", name, show_obs(&obs), could.join(" | ")), format!("{}observed {}; allowed: {}", self.log, show_obs(&obs), if could.is_empty() { "nothing of the kind (e.g. the id of a live link)".into() } else { could.join(" or ") }));
        }
        self.states = next;
        Ok(())
    }
    fn observe(&mut self, ab: Option<u32>) -> Result<Obs, Violation> {
        let mut o = Obs::default();
        for c in 0..self.conns.len() {
            let Some(r) = &self.conns[c] else { continue };
            match self.busy[c].clone() {
                Some((op, id)) => {
                    if let Some(x) = r.answer(&op, id).map_err(|v| Violation { sig: v.sig, msg: format!("{}{}", self.log, v.msg) })? {
                        o.replies.push((c, x));
                        self.busy[c] = None;
                    }
                }
                None => {
                    let x = r.replies();
                    if !x.is_empty() || r.s.peer_closed() {
                        return bad(format!("unexpected on connection, closed={}", r.s.peer_closed()), format!("{}connection {} {}", self.log, c, if x.is_empty() { "is closed".into() } else { format!("receives {:?}", x) }));
                    }
                }
            }
        }
        if let Some(id) = ab {
            o.abort = self.abort.answer(&Op::Abort { lid: 0 }, id)?;
        }
        o.calls = self.v.probe.take();
        let mut udp_seen = Vec::new();
        for k in 0..self.chans.len() {
            let mut msgs: Vec<Vec<u8>> = Vec::new();
            match &mut self.chans[k].link {
                Line::Tcp(s, b) => {
                    b.extend(s.recv());
                    while b.len() >= 4 {
                        let h = u32::from_be_bytes(b[..4].try_into().unwrap());
                        let n = (h & 0x7fff_ffff) as usize;
                        if h >> 31 == 0 || b.len() < 4 + n {
                            break;
                        }
                        msgs.push(b[4..4 + n].to_vec());
                        b.drain(..4 + n);
                    }
                }
                Line::Gone => {}
                Line::Udp(u) => {
                    // the socket is shared by all channels of a connection: the last one counts
                    if self.last_udp.contains(&Some(k)) && !udp_seen.contains(&k) {
                        udp_seen.push(k);
                        while let Some((m, _)) = u.try_recv() {
                            msgs.push(m);
                        }
                    }
                }
            }
            for m in msgs {
                let ch = &self.chans[k];
                match srq_call(&m, ch.prog, ch.vers) {
                    Some(h) => {
                        if let (Line::Tcp(s, _), true) = (&ch.link, ch.answers) {
                            s.send(&record(&reply_bytes(D(&m).u().unwrap(), &Stat::Success(vec![]))));
                        }
                        o.srqs.push((k, h))
                    }
                    None => return bad("malformed srq", format!("{}the interrupt channel receives [{}], which is no service request", self.log, show(&m))),
                }
            }
        }
        o.srqs.sort();
        Ok(o)
    }
    /// Everybody leaves: nothing is left behind.
    fn end(mut self) -> Verdict {
        if self.ext_held {
            self.act(Act::ExtUnlock)?;
        }
        for c in 0..self.conns.len() {
            if self.conns[c].is_some() {
                self.act(Act::Close(c))?;
            }
        }
        self.act(Act::Time(3000))?;
        let log = format!("{}then a new client", self.log);
        self.v.probe.set_fail(0);
        self.v.probe.set_status_err(0);
        // nobody is left to hear a service request
        self.v.srq.clone().send_status(0x40);
        run_idle();
        let o = self.observe(None)?;
        if !o.srqs.is_empty() {
            return bad("srq of nobody", format!("{}: a service request is sent although all clients are gone", log));
        }
        self.v.probe.take();
        let r = Rpc::core();
        let lid = match r.must(&Op::Create { lock: true, to: 0, dev: "inst0" })? {
            Res::Create { err: 0, lid, .. } => lid,
            x => return bad("new client lock", format!("{}: cannot create a link and lock: {:?}", log, x)),
        };
        vxi_must_work(&r, lid, b"q", &log)?;
        for l in &self.lids {
            if l.1 != lid {
                let x = self.abort.must(&Op::Abort { lid: l.1 })?.err();
                if x != 4 {
                    return bad("abort of dead link", format!("{}: the abort of link {} of a client that left is answered {}", log, l.1, x));
                }
            }
        }
        if self.chans.iter().any(|c| matches!(&c.link, Line::Tcp(s, _) if !s.peer_closed())) {
            return bad("interrupt channel stays", format!("{}: an interrupt channel of a client that left is still open", log));
        }
        no_trouble()
    }
}

/// The handle in a service request.
fn srq_call(m: &[u8], prog: u32, vers: u32) -> Option<Vec<u8>> {
    let mut d = D(m);
    d.u()?;
    let want = [0, 2, prog, vers, 30, 0];
    for w in want {
        if d.u()? != w {
            return None;
        }
    }
    if !d.o()?.is_empty() || d.u()? != 0 || !d.o()?.is_empty() {
        return None;
    }
    let h = d.o()?;
    d.end().then_some(h)
}

fn show_act(a: &Act) -> String {
    match a {
        Act::Op(ABORT, op) => format!("{:?}", op),
        Act::Op(c, op) => format!("client {}: {:?}", c, op),
        Act::Close(c) => format!("client {} leaves", c),
        Act::Open(c) => format!("client {} connects", c),
        Act::Ext(s) => format!("another client locks{}", if *s { " (shared)" } else { "" }),
        Act::ExtUnlock => "another client unlocks".into(),
        Act::Time(t) => format!("{} ms pass", t),
        Act::Announce(s) => format!("the device announces {:#x}", s),
        Act::SetStb(s) => format!("the status becomes {:#x}", s),
        Act::Fail(f) => format!("the device {}", ["works", "does not support anything", "does not react", "fails"][*f as usize]),
        Act::Hangup(c) => format!("client {} closes its end of the interrupt channel", c),
    }
}

fn show_obs(o: &Obs) -> String {
    format!("{}{}{}{}", o.replies.iter().map(|(c, r)| format!("[client {} gets {:?}]", c, r)).collect::<String>(), o.abort.as_ref().map_or(String::new(), |r| format!("[abort gets {:?}]", r)), if o.calls.is_empty() { String::new() } else { format!("[device: {}]", show_calls(&o.calls)) }, if o.srqs.is_empty() { String::new() } else { format!("[service requests {:?}]", o.srqs) })
        + if o.replies.is_empty() && o.abort.is_none() && o.calls.is_empty() && o.srqs.is_empty() { "nothing" } else { "" }
}

fn show_ev(e: &Ev) -> String {
    let t = format!("{}{}{}{}", e.replies.iter().map(|(c, r)| format!("[client {} gets {:?}]", c, r)).collect::<String>(), e.abort.as_ref().map_or(String::new(), |r| format!("[abort gets {:?}]", r)), if e.calls.is_empty() { String::new() } else { format!("[device: {}]", show_calls(&e.calls)) }, if e.srqs.is_empty() { String::new() } else { format!("[service requests {:?}]", e.srqs) });
    if t.is_empty() {
        "nothing".into()
    } else {
        t
    }
}

/// The property which an observation that is not allowed breaks.
fn concerns(a: &Act, o: &Obs, allowed: &[Ev]) -> &'static str {
    if matches!(a, Act::Announce(_)) || allowed.iter().any(|e| fits(&Ev { srqs: o.srqs.clone(), ..e.clone() }, o)) {
        return "C27";
    }
    // link ids, and the lock
    let wants = |n: u32| allowed.iter().any(|e| e.replies.iter().any(|(_, p)| matches!(p, Pat::Err(x) if x.contains(&n))));
    let gets = |n: u32| o.replies.iter().any(|(_, r)| r.err() == n);
    let silent = o.replies.is_empty() || allowed.iter().all(|e| e.replies.is_empty());
    match a {
        Act::Op(ABORT, _) => "C25",
        Act::Op(_, Op::Create { lock: false, .. } | Op::Destroy { .. }) | Act::Open(_) | Act::Close(_) => "C22",
        _ if wants(4) != gets(4) => "C22",
        _ if silent || wants(11) != gets(11) || wants(12) != gets(12) => "C24",
        Act::Op(_, Op::Create { .. } | Op::Lock { .. } | Op::Unlock { .. }) | Act::Ext(_) | Act::ExtUnlock | Act::Time(_) => "C24",
        Act::Op(_, Op::Write { .. } | Op::Read { .. }) => "C23",
        Act::Op(_, Op::Srq { .. } | Op::CreateIntr { .. } | Op::DestroyIntr) | Act::Hangup(_) => "C27",
        _ => "C26",
    }
}

/// Every sequence of all operations; only what concerns one property counts.
fn everything(prop: &'static str, depth: usize, pauses: bool) -> Verdict {
    let gap = if pauses { PAUSES[choose(PAUSES.len(), "pause")] } else { 0 };
    let mut w = World::new(2, false)?;
    w.act(Act::Op(0, intr(0, false)))?;
    for (c, on) in [(0, true), (0, false), (1, false)] {
        w.act(Act::Op(c, create(false, 0)))?;
        let lid = w.lids.last().unwrap().1;
        if on {
            w.act(Act::Op(c, srq(lid, b"first")))?;
        }
    }
    w.only = Some(prop);
    for _ in 0..depth {
        let m = menu_all(&w);
        let k = choose(m.len() + 1, "action");
        if k == 0 {
            break;
        }
        if gap > 0 {
            w.act(Act::Time(gap))?;
            if w.over {
                return Ok(());
            }
        }
        w.act(m[k - 1].clone())?;
        if w.over {
            return Ok(());
        }
    }
    no_trouble()
}

fn menu_all(w: &World) -> Vec<Act> {
    let (lid, second, other) = (w.lids[0].1, w.lids[1].1, w.lids[2].1);
    let (flags, to) = (0, 0);
    let mut m = Vec::new();
    if w.free(0) {
        let ops = [
            wr(lid, 0, 0, b"a"),
            wr(lid, ENDF, 0, b"q"),
            wr(lid, ENDF | WAIT, 500, b"b"),
            rd(lid, 0, 0, 1, 0),
            rd(lid, 0, 0, 100, 0),
            Op::Stb { lid, flags, to },
            Op::Trigger { lid, flags, to },
            Op::Clear { lid, flags, to },
            Op::Remote { lid, flags, to },
            Op::Lock { lid, flags, to },
            Op::Lock { lid, flags: WAIT, to: 500 },
            Op::Unlock { lid },
            srq(lid, b"again"),
            Op::Srq { lid, on: false, handle: b"".to_vec() },
            Op::Docmd { lid },
            Op::Destroy { lid },
            create(false, 0),
            Op::DestroyIntr,
            intr(0, false),
            wr(second, ENDF, 0, b"q"),
            rd(second, 0, 0, 100, 0),
            Op::Lock { lid: second, flags, to },
            Op::Clear { lid: second, flags, to },
            Op::Destroy { lid: second },
        ];
        m.extend(ops.map(|o| Act::Op(0, o)));
    }
    if w.free(1) {
        let ops = [wr(other, ENDF, 0, b"q"), Op::Lock { lid: other, flags, to }, Op::Unlock { lid: other }, Op::Clear { lid: other, flags, to }];
        m.extend(ops.map(|o| Act::Op(1, o)));
        m.push(Act::Close(1));
    }
    m.push(Act::Op(ABORT, Op::Abort { lid }));
    m.push(Act::Announce(0x40));
    m
}

fn everything_of(prop: &'static str) -> Scenario {
    let d = q(4, 5);
    Scenario::new("everything", format!("every sequence of up to {} of all operations on a link with an interrupt channel and service requests enabled, some of them on a second link and by another client, aborts and announcements; whatever is not concerned by an operation is not changed by it", d), move || everything(prop, d, false))
}

fn pauses_of(prop: &'static str) -> Scenario {
    let d = q(3, 4);
    Scenario::new("pauses", format!("every sequence of {} of the same with 600 ms to 40 days before each", d), move || everything(prop, d, true))
}

/// Explore every sequence of actions of a menu.
fn sequences(mut w: World, depth: usize, menu: &dyn Fn(&World) -> Vec<Act>) -> Verdict {
    for _ in 0..depth {
        let m = menu(&w);
        if m.is_empty() {
            break;
        }
        let a = m[choose(m.len(), "action")].clone();
        w.act(a)?;
    }
    w.end()
}

// ------------------------------------------------------------------ menus

fn wr(lid: u32, flags: u32, to: u32, data: &[u8]) -> Op {
    Op::Write { lid, flags, to, data: data.to_vec() }
}
fn rd(lid: u32, flags: u32, to: u32, size: u32, term: u8) -> Op {
    Op::Read { lid, flags, to, size, term }
}
fn create(lock: bool, to: u32) -> Op {
    Op::Create { lock, to, dev: "inst0" }
}

/// every operation that needs a link
fn link_ops(lid: u32) -> Vec<Op> {
    vec![
        wr(lid, ENDF, 0, b"q"),
        rd(lid, 0, 0, 100, 0),
        Op::Stb { lid, flags: 0, to: 0 },
        Op::Trigger { lid, flags: 0, to: 0 },
        Op::Clear { lid, flags: 0, to: 0 },
        Op::Remote { lid, flags: 0, to: 0 },
        Op::Local { lid, flags: 0, to: 0 },
        Op::Lock { lid, flags: 0, to: 0 },
        Op::Lock { lid, flags: WAIT, to: 500 },
        wr(lid, ENDF | WAIT, 500, b"q"),
        Op::Unlock { lid },
        Op::Srq { lid, on: true, handle: b"h".to_vec() },
        Op::Srq { lid, on: false, handle: b"".to_vec() },
        Op::Docmd { lid },
        Op::Destroy { lid },
    ]
}

fn menu22(w: &World) -> Vec<Act> {
    let mut m = Vec::new();
    for c in 0..w.conns.len() {
        if w.conns[c].is_none() {
            m.push(Act::Open(c));
        } else {
            m.push(Act::Close(c));
        }
        if !w.free(c) {
            continue;
        }
        m.push(Act::Op(c, create(false, 0)));
        m.push(Act::Op(c, create(true, 0)));
        m.push(Act::Op(c, create(true, 1000)));
        m.push(Act::Op(c, Op::Create { lock: true, to: 0, dev: "inst1" }));
        for (_, lid) in &w.lids {
            m.push(Act::Op(c, Op::Destroy { lid: *lid }));
            m.push(Act::Op(c, wr(*lid, ENDF, 0, b"q")));
        }
    }
    for (_, lid) in &w.lids {
        m.push(Act::Op(ABORT, Op::Abort { lid: *lid }));
    }
    m.push(Act::Time(600));
    m
}

/// Every operation on every kind of id that is no link of this connection.
fn invalid22() -> Verdict {
    let mut w = World::new(2, true)?;
    let (l0, l1) = (w.lids[0].1, w.lids[1].1);
    w.act(Act::Op(0, create(false, 0)))?;
    let l2 = w.lids[2].1;
    // something that could be lost or disclosed
    w.act(Act::Op(1, wr(l1, ENDF, 0, b"secretq")))?;
    let lid = match choose(8, "id") {
        0 => l1,
        1 => {
            w.act(Act::Op(0, Op::Destroy { lid: l2 }))?;
            l2
        }
        2 => 0,
        3 => l2 + 1,
        4 => 0xffff_ffff,
        5 => l0 | 0x8000_0000,
        6 => {
            w.act(Act::Close(1))?;
            l1
        }
        _ => {
            // of a link that had the lock
            w.act(Act::Op(0, Op::Lock { lid: l2, flags: 0, to: 0 }))?;
            w.act(Act::Op(0, Op::Destroy { lid: l2 }))?;
            l2
        }
    };
    let locked = choose(3, "lock");
    match locked {
        1 => w.act(Act::Ext(false))?,
        2 => w.act(Act::Op(0, Op::Lock { lid: l0, flags: 0, to: 0 }))?,
        _ => {}
    }
    let ops = link_ops(lid);
    let n = ops.len();
    let k = choose(n + 1, "operation");
    w.act(Act::Op(if k == n { ABORT } else { 0 }, if k == n { Op::Abort { lid } } else { ops[k].clone() }))?;
    // the links that exist are not disturbed
    if locked == 1 {
        w.act(Act::ExtUnlock)?;
    }
    w.act(Act::Op(0, wr(l0, ENDF, 0, b"q0")))?;
    w.act(Act::Op(0, rd(l0, 0, 0, 100, 0)))?;
    if w.free(1) {
        w.act(Act::Op(1, rd(l1, 0, 0, 100, 0)))?;
    }
    w.end()
}

/// Many links: ids stay distinct, each has its own buffers.
fn many22(n: usize) -> Verdict {
    let mut w = World::new(2, false)?;
    for _ in 0..n {
        let c = choose(2, "connection");
        w.act(Act::Op(c, create(false, 0)))?;
        let k = w.lids.len();
        match choose(3, "then") {
            0 => {
                let (c, lid) = w.lids[choose(k, "link")];
                w.act(Act::Op(c, Op::Destroy { lid }))?;
            }
            1 => {
                let (c, lid) = w.lids[choose(k, "link")];
                w.act(Act::Op(c, wr(lid, ENDF, 0, format!("q{}", lid).as_bytes())))?;
            }
            _ => {}
        }
    }
    for (c, lid) in w.lids.clone() {
        w.act(Act::Op(c, rd(lid, 0, 0, 100, 0)))?;
    }
    w.end()
}

/// Links that live on while very many others come and go: no living id is given out again.
fn churn22() -> Verdict {
    let p = Probe::new();
    start_vxi(&p);
    let living = [1, 3, 300][choose(3, "living")];
    let total = [300, 1000, 70_000][choose(3, "created")];
    let conns = [Rpc::core(), Rpc::core()];
    // oldest first
    let mut l: std::collections::VecDeque<(usize, u32)> = Default::default();
    // one which stays
    let kept = link(&conns[0])?;
    conns[0].must(&wr(kept, ENDF, 0, b"keptq"))?;
    for i in 0..total {
        let c = i % 2;
        let id = link(&conns[c])?;
        if id == kept || l.len() < 400 && l.iter().any(|x| x.1 == id) {
            return bad("id given out twice", format!("the {}th link gets the id {} of a living link", i + 2, id));
        }
        l.push_back((c, id));
        if l.len() > living {
            let (c, id) = l.pop_front().unwrap();
            let x = conns[c].must(&Op::Destroy { lid: id })?.err();
            if x != 0 {
                return bad("destroy", format!("destroying link {} after {} were created is answered {}", id, i + 2, x));
            }
        }
    }
    p.take();
    // each has its own buffers
    for (c, id) in l.iter().chain([&(0, kept)]) {
        if *id != kept {
            let x = conns[*c].must(&wr(*id, ENDF, 0, format!("{}q", id).as_bytes()))?.err();
            if x != 0 {
                return bad("use", format!("writing to link {} is answered {}", id, x));
            }
        }
    }
    for (c, id) in l.iter().chain([&(0, kept)]) {
        let text = if *id == kept { "keptq".to_string() } else { format!("{}q", id) };
        let want = respond(text.as_bytes()).unwrap();
        match conns[*c].must(&rd(*id, 0, 0, 100, 0))? {
            Res::Read { err: 0, data, .. } if data == want => {}
            r => return bad("use", format!("{} links live, {} were created: link {} reads {:?} after writing {:?}", l.len() + 1, total + 1, id, r, text)),
        }
    }
    no_trouble()
}

/// Clients that create, use and destroy links at the same time.
fn race22(n: usize) -> Verdict {
    let p = Probe::new();
    let v = start_vxi(&p);
    let kinds: Vec<usize> = (0..n).map(|_| choose(3, "program")).collect();
    let rs: Vec<Rpc> = (0..n).map(|_| Rpc::core()).collect();
    run_idle();
    let live: Rc<RefCell<Vec<u32>>> = Rc::default();
    mcrt::set_explore(true, true, true, false);
    let mut hs = Vec::new();
    for (i, r) in rs.into_iter().enumerate() {
        let k = kinds[i];
        let live = Shared(live.clone());
        hs.push(mcrt::spawn_client(&format!("client{}", i), async move {
            let live = live;
            let cmd = [b'q', b'0' + i as u8];
            let lid = match r.ask(&create(k == 1, 1000)).await? {
                Res::Create { err: 0, lid, .. } => lid,
                x => return Err(format!("the link is not created: {:?}", x)),
            };
            if live.0.borrow().contains(&lid) {
                return Err(format!("link {} exists twice", lid));
            }
            live.0.borrow_mut().push(lid);
            let x = r.ask(&wr(lid, ENDF | WAIT, 1000, &cmd)).await?;
            if x != (Res::Write { err: 0, size: 2 }) {
                return Err(format!("the write is answered {:?}", x));
            }
            let x = r.ask(&rd(lid, WAIT, 1000, 100, 0)).await?;
            if x != (Res::Read { err: 0, reason: 4, data: rule(&cmd).unwrap() }) {
                return Err(format!("the read is answered {:?}", x));
            }
            if k == 2 {
                // disconnect instead
                return Ok(None);
            }
            live.0.borrow_mut().retain(|l| *l != lid);
            let x = r.ask(&Op::Destroy { lid }).await?;
            if x.err() != 0 {
                return Err(format!("destroying the link is answered {:?}", x));
            }
            Ok(Some((r, lid)))
        }));
    }
    run_idle();
    mcrt::explore_off();
    no_trouble()?;
    let ctx = format!("programs {:?}", kinds);
    finish(&hs, &ctx, |i, (r, lid): (Rpc, u32)| {
        let x = r.must(&wr(lid, ENDF, 0, b"q"))?.err();
        if x != 4 {
            return bad("destroyed link", format!("{}: the destroyed link of client {} answers {}", ctx, i, x));
        }
        Ok(())
    })?;
    let r = Rpc::core();
    match r.must(&create(true, 0))? {
        Res::Create { err: 0, lid, .. } => vxi_must_work(&r, lid, b"q", &ctx)?,
        x => return bad("lock left", format!("{}: afterwards a new client cannot lock: {:?}", ctx, x)),
    }
    drop(v);
    no_trouble()
}

pub struct Shared<T>(pub T);
// executions have one thread
unsafe impl<T> Send for Shared<T> {}

fn finish<T>(hs: &[mcrt::JoinHandle<Result<Option<T>, String>>], ctx: &str, mut f: impl FnMut(usize, T) -> Verdict) -> Verdict {
    for (i, h) in hs.iter().enumerate() {
        match h.try_take() {
            None => return bad("client waits", format!("{}: client {} is not answered", ctx, i)),
            Some(Err(e)) => return bad(e.clone(), format!("{}: client {}: {}", ctx, i, e)),
            Some(Ok(Some(x))) => f(i, x)?,
            Some(Ok(None)) => {}
        }
    }
    Ok(())
}

pub fn c22() -> Vec<Scenario> {
    let (d, m) = (q(4, 5), q(4, 5));
    vec![
        Scenario::new("sequences", format!("2 connections, every sequence of {} actions: create (plain, locked, waiting, unknown device), destroy and use any id, abort, leave, return, time", d), move || sequences(World::new(2, false)?, d, &menu22)),
        Scenario::new("established", "the same, with one link each to begin with, one step less", move || sequences(World::new(2, true)?, d - 1, &menu22)),
        Scenario::new("invalid", "every operation on every kind of invalid id", invalid22),
        Scenario::new("many-links", format!("{} links, destroyed or used in between", m), move || many22(m)),
        Scenario::new("churn", "up to 70000 links, of which up to 300 live at the same time", churn22).steps(100_000_000),
        Scenario::new("race-2", "2 clients that create, use and destroy links, every interleaving up to the deviation bound", || race22(2)).bound(q(2, 3), 3),
        Scenario::new("race-3", "3 such clients", || race22(3)).bound(1, 2),
        everything_of("C22"),
        pauses_of("C22"),
    ]
}

// ------------------------------------------------------------------ C23

fn ops23(lid: u32) -> Vec<Op> {
    vec![
        wr(lid, ENDF, 0, b"q"),
        wr(lid, ENDF, 0, b"an"),
        wr(lid, 0, 0, b"q1"),
        wr(lid, 0, 0, b"nn"),
        wr(lid, ENDF, 0, b""),
        wr(lid, ENDF, 0, b"a"),
        rd(lid, 0, 0, 100, 0),
        rd(lid, 0, 0, 1, 0),
        rd(lid, 0, 0, 3, b'n'),
        rd(lid, TERM, 0, 100, b'\n'),
        rd(lid, TERM, 0, 2, b'\n'),
        rd(lid, TERM, 0, 4, b'z'),
        rd(lid, TERM, 0, 100, b'z'),
    ]
}

fn menu23(w: &World) -> Vec<Act> {
    let mut m = Vec::new();
    for (c, lid) in &w.lids {
        for op in ops23(*lid) {
            m.push(Act::Op(*c, op));
        }
    }
    m
}

/// One connection with links, sequences of writes and reads.
fn io23(conns: usize, links: usize, depth: usize) -> Verdict {
    let mut w = World::new(conns, false)?;
    for i in 0..links {
        w.act(Act::Op(i % conns, create(false, 0)))?;
    }
    sequences(w, depth, &menu23)
}

/// Writes and reads of every size around a response of every length up to n.
fn sizes23(n: usize) -> Verdict {
    let mut w = World::new(1, true)?;
    let lid = w.lids[0].1;
    let len = choose(n, "length");
    let mut left = len;
    // in pieces
    let mut data: Vec<u8> = Vec::new();
    while left > 0 {
        let k = 1 + choose(left, "piece");
        let piece: Vec<u8> = (0..k).map(|_| [b'q', 0, 0xff, b'\n', b'n', 0x80][choose(6, "byte")]).collect();
        data.extend(&piece);
        left -= k;
        w.act(Act::Op(0, wr(lid, if left == 0 { ENDF } else { 0 }, 0, &piece)))?;
    }
    let total = respond(&data).map_or(0, |r| r.len());
    let size = 1 + choose(total + 2, "request");
    let (flags, term) = [(0, 0), (TERM, b'\n'), (TERM, 0), (TERM, 0xff), (TERM, b'>')][choose(5, "termination")];
    for _ in 0..total + 1 {
        w.act(Act::Op(0, rd(lid, flags, 0, size as u32, term)))?;
        if w.states.iter().all(|s| s.links[0].out.is_empty()) {
            break;
        }
    }
    w.end()
}

/// A message of the announced maximum size is accepted, also in one write, and read back whole.
fn big23() -> Verdict {
    let mut w = World::new(1, true)?;
    let lid = w.lids[0].1;
    let max = 128 * 1024;
    let len = [max, max - 1, max / 2, 3 * max, 20 * max][choose(5, "length")];
    let mut data: Vec<u8> = (0..len).map(|i| if i % 251 == b'n' as usize { b'm' } else { (i % 251) as u8 }).collect();
    data[len - 1] = b'q';
    let piece = [max, 4096, 60001][choose(3, "piece")];
    let mut rest = &data[..];
    while !rest.is_empty() {
        let k = rest.len().min(piece);
        w.act(Act::Op(0, wr(lid, if k == rest.len() { ENDF } else { 0 }, 0, &rest[..k])))?;
        rest = &rest[k..];
    }
    let size = [len + 2, len + 3, len + 1, 65536, 0xffff_ffff][choose(5, "request")];
    for _ in 0..60 {
        w.act(Act::Op(0, rd(lid, 0, 0, size as u32, 0)))?;
        if w.states.iter().all(|s| s.links[0].out.is_empty()) {
            break;
        }
    }
    w.end()
}

/// Links that write in pieces and read in pieces at the same time.
fn race23(n: usize) -> Verdict {
    let p = Probe::new();
    let v = start_vxi(&p);
    let kinds: Vec<usize> = (0..n).map(|_| choose(3, "program")).collect();
    let mut rs = Vec::new();
    for _ in 0..n {
        let r = Rpc::core();
        let lid = link(&r)?;
        rs.push((r, lid));
    }
    run_idle();
    mcrt::set_explore(true, true, true, false);
    let mut hs = Vec::new();
    for (i, (r, lid)) in rs.into_iter().enumerate() {
        let k = kinds[i];
        hs.push(mcrt::spawn_client(&format!("client{}", i), async move {
            let cmd = [b'q', b'0' + i as u8];
            let want = rule(&cmd).unwrap();
            if k == 1 {
                r.ask(&wr(lid, WAIT, 1000, &cmd[..1])).await?;
                r.ask(&wr(lid, WAIT | ENDF, 1000, &cmd[1..])).await?;
            } else {
                r.ask(&wr(lid, WAIT | ENDF, 1000, &cmd)).await?;
            }
            let mut got = Vec::new();
            let size = if k == 2 { 2 } else { 100 };
            loop {
                match r.ask(&rd(lid, WAIT, 1000, size, 0)).await? {
                    Res::Read { err: 0, reason, data } => {
                        got.extend(data);
                        if reason & 4 != 0 {
                            break;
                        }
                        if got.len() >= want.len() {
                            return Err(format!("no end after {:?}", show(&got)));
                        }
                    }
                    x => return Err(format!("the read is answered {:?}", x)),
                }
            }
            if got != want {
                return Err(format!("\"{}\" is answered \"{}\"", show(&cmd), show(&got)));
            }
            Ok(Some((r, lid)))
        }));
    }
    run_idle();
    mcrt::explore_off();
    no_trouble()?;
    let ctx = format!("programs {:?}", kinds);
    finish(&hs, &ctx, |_, (r, lid): (Rpc, u32)| vxi_must_work(&r, lid, b"q", &ctx))?;
    let mut e = v.probe.execs();
    e.retain(|c| c != b"q");
    e.sort();
    let want: Vec<Vec<u8>> = (0..n).map(|i| vec![b'q', b'0' + i as u8]).collect();
    if e != want {
        return bad(format!("executed {:?}", kinds), format!("{}: executed {:?}", ctx, e.iter().map(|c| show(c)).collect::<Vec<_>>()));
    }
    no_trouble()
}

/// A link's data among everything else that it and another client can do, the device locked by either at times.
fn menu23b(w: &World) -> Vec<Act> {
    let (lid, other) = (w.lids[0].1, w.lids[1].1);
    let (flags, to) = (0, 0);
    let mut m: Vec<Act> = [
        wr(lid, 0, 0, b"a"),
        wr(lid, ENDF, 0, b"q"),
        rd(lid, 0, 0, 1, 0),
        rd(lid, 0, 0, 100, 0),
        Op::Stb { lid, flags, to },
        Op::Trigger { lid, flags, to },
        Op::Clear { lid, flags, to },
        Op::Remote { lid, flags, to },
        Op::Lock { lid, flags, to },
        Op::Unlock { lid },
        Op::Srq { lid, on: true, handle: b"h".to_vec() },
        Op::Docmd { lid },
        create(false, 0),
    ]
    .into_iter()
    .map(|o| Act::Op(0, o))
    .collect();
    m.extend([wr(other, ENDF, 0, b"q"), Op::Lock { lid: other, flags, to }, Op::Unlock { lid: other }].map(|o| Act::Op(1, o)));
    m.push(Act::Op(ABORT, Op::Abort { lid }));
    m
}

pub fn c23() -> Vec<Scenario> {
    let (d, d2, n) = (q(5, 6), q(4, 5), q(4, 6));
    vec![
        Scenario::new("one-link", format!("every sequence of {} writes (with and without end) and reads (several sizes and termination characters) on a link", d), move || io23(1, 1, d)),
        Scenario::new("two-links", format!("every sequence of {} of these on 2 links of one connection", d2), move || io23(1, 2, d2)),
        Scenario::new("two-clients", format!("every sequence of {} of these on 2 connections", d2), move || io23(2, 2, d2)),
        Scenario::new("between", format!("every sequence of {} writes, reads and all other operations, among another client's write, lock and unlock", d2), move || sequences(World::new(2, true)?, d2, &menu23b)),
        Scenario::new("sizes", format!("messages of up to {} bytes written in all ways of pieces, read with all sizes and termination characters", n - 1), move || sizes23(n)),
        Scenario::new("big", "messages of the announced maximum size and more", big23),
        Scenario::new("race-2", "2 clients that write and read, every interleaving up to the deviation bound", || race23(2)).bound(q(2, 3), 3),
        Scenario::new("race-3", "3 such clients", || race23(3)).bound(1, 2),
        everything_of("C23"),
        pauses_of("C23"),
    ]
}

// ------------------------------------------------------------------ C24

fn menu24(w: &World) -> Vec<Act> {
    let mut m = Vec::new();
    for c in 0..w.conns.len() {
        if w.conns[c].is_none() {
            continue;
        }
        m.push(Act::Close(c));
        if !w.free(c) {
            continue;
        }
        for (_, lid) in w.lids.iter().filter(|(d, _)| *d == c) {
            let lid = *lid;
            for op in [
                Op::Lock { lid, flags: 0, to: 0 },
                Op::Lock { lid, flags: WAIT, to: 1000 },
                Op::Unlock { lid },
                wr(lid, ENDF | WAIT, 500, b"q"),
                wr(lid, ENDF, 0, b"q"),
                Op::Trigger { lid, flags: WAIT, to: 1000 },
                Op::Destroy { lid },
            ] {
                m.push(Act::Op(c, op));
            }
        }
        m.push(Act::Op(c, create(true, 1000)));
    }
    if w.ext_held {
        m.push(Act::ExtUnlock);
    } else if w.states.iter().all(|s| s.own == Own::Free) {
        m.push(Act::Ext(false));
        m.push(Act::Ext(true));
    }
    m.push(Act::Time(600));
    m
}

/// Every operation while the device is locked: by its own link, by another link, by somebody else.
fn matrix24() -> Verdict {
    let mut w = World::new(2, true)?;
    w.act(Act::Op(0, create(false, 0)))?;
    let (l0, l1, l2) = (w.lids[0].1, w.lids[1].1, w.lids[2].1);
    // something to read or to lose
    w.act(Act::Op(0, wr(l0, ENDF, 0, b"qqq")))?;
    w.act(Act::Op(0, wr(l0, 0, 0, b"x")))?;
    let by = choose(5, "locked by");
    match by {
        0 => w.act(Act::Op(0, Op::Lock { lid: l0, flags: 0, to: 0 }))?,
        1 => w.act(Act::Op(1, Op::Lock { lid: l1, flags: 0, to: 0 }))?,
        2 => w.act(Act::Op(0, Op::Lock { lid: l2, flags: 0, to: 0 }))?,
        3 => w.act(Act::Ext(false))?,
        _ => w.act(Act::Ext(true))?,
    }
    let mut ops = Vec::new();
    for (flags, to) in [(0, 0), (0, 1000), (WAIT, 0), (WAIT, 1000)] {
        let lid = l0;
        ops.extend([
            wr(lid, ENDF | flags, to, b"q"),
            wr(lid, flags, to, b"q"),
            rd(lid, flags, to, 100, 0),
            Op::Stb { lid, flags, to },
            Op::Trigger { lid, flags, to },
            Op::Clear { lid, flags, to },
            Op::Remote { lid, flags, to },
            Op::Local { lid, flags, to },
            Op::Lock { lid, flags, to },
        ]);
    }
    ops.extend([Op::Unlock { lid: l0 }, create(true, 0), create(true, 1000), create(false, 0), Op::Srq { lid: l0, on: true, handle: b"h".to_vec() }, Op::Destroy { lid: l2 }, Op::Destroy { lid: l0 }]);
    let op = ops[choose(ops.len(), "operation")].clone();
    w.act(Act::Op(0, op))?;
    // what happens next
    for _ in 0..2 {
        match choose(5, "then") {
            0 => w.act(Act::Time(600))?,
            1 => w.act(Act::Time(1500))?,
            2 if by == 1 && w.free(1) => w.act(Act::Op(1, Op::Unlock { lid: l1 }))?,
            2 if by >= 3 && w.ext_held => w.act(Act::ExtUnlock)?,
            3 if by == 1 && w.conns[1].is_some() => w.act(Act::Close(1))?,
            4 if w.conns[0].is_some() => w.act(Act::Close(0))?,
            _ => {}
        }
    }
    if w.ext_held {
        w.act(Act::ExtUnlock)?;
    }
    if w.free(0) {
        w.act(Act::Op(0, rd(l0, 0, 0, 100, 0)))?;
    }
    if w.free(1) {
        w.act(Act::Op(1, wr(l1, ENDF, 0, b"q")))?;
    }
    w.end()
}

pub const TIMEOUTS: [u32; 18] = [100, 255, 256, 300, 999, 1000, 32_767, 32_768, 65_535, 65_536, 65_700, 131_172, 3_600_000, 16_777_300, 86_400_000, 0x7fff_ffff, 0x8000_0000, u32::MAX];

/// Every waiting operation with lock timeouts of all magnitudes.
fn timeouts24() -> Verdict {
    let mut w = World::new(2, true)?;
    let (l0, l1) = (w.lids[0].1, w.lids[1].1);
    w.act(Act::Op(0, wr(l0, ENDF, 0, b"qqq")))?;
    let outside = choose(2, "locked by") == 1;
    if outside {
        w.act(Act::Ext(false))?;
    } else {
        w.act(Act::Op(1, Op::Lock { lid: l1, flags: 0, to: 0 }))?;
    }
    let to = TIMEOUTS[choose(TIMEOUTS.len(), "timeout")];
    let (lid, flags) = (l0, WAIT);
    let ops = [
        wr(lid, ENDF | flags, to, b"q"),
        rd(lid, flags, to, 100, 0),
        Op::Trigger { lid, flags, to },
        Op::Clear { lid, flags, to },
        Op::Remote { lid, flags, to },
        Op::Local { lid, flags, to },
        Op::Lock { lid, flags, to },
        create(true, to),
    ];
    w.act(Act::Op(0, ops[choose(ops.len(), "operation")].clone()))?;
    // right before, or after
    w.act(Act::Time(to as u64 - 60))?;
    match choose(3, "then") {
        0 => w.act(Act::Time(120))?,
        1 if outside => w.act(Act::ExtUnlock)?,
        1 => w.act(Act::Op(1, Op::Unlock { lid: l1 }))?,
        _ => {}
    }
    w.act(Act::Time(120))?;
    if w.ext_held {
        w.act(Act::ExtUnlock)?;
    }
    w.end()
}

/// Clients lock, use and unlock at the same time.
fn race24(n: usize, early: bool) -> Verdict {
    // whether each client knows that it holds the lock, and whether the device was used since
    let held: Rc<RefCell<Vec<Option<bool>>>> = Rc::new(RefCell::new(vec![None; n]));
    let early_cmd: Rc<RefCell<Vec<bool>>> = Rc::new(RefCell::new(vec![false; n]));
    let wrong: Rc<RefCell<Option<String>>> = Rc::default();
    let p = Probe::new();
    let v = start_vxi(&p);
    let kinds: Vec<usize> = (0..n).map(|_| choose(5, "program")).collect();
    let mut rs = Vec::new();
    for _ in 0..n {
        let r = Rpc::core();
        let lid = link(&r)?;
        rs.push((r, lid));
    }
    p.take();
    {
        let sh = Shared((held.clone(), wrong.clone(), early_cmd.clone()));
        p.0.lock().unwrap().respond = Box::new(move |c| {
            let (held, wrong, early_cmd) = &{ &sh }.0;
            if c.len() > 1 {
                let i = (c[1] - b'0') as usize;
                for (j, e) in held.borrow_mut().iter_mut().enumerate() {
                    if let Some(used) = e {
                        let was_used = std::mem::replace(used, true);
                        // a command that had the device when the lock was granted may finish
                        let in_progress = !was_used && early_cmd.borrow()[i];
                        if j != i && !in_progress {
                            *wrong.borrow_mut() = Some(format!("client {} holds the lock but a command of client {} is executed", j, i));
                        }
                    }
                }
            }
            rule(c)
        });
    }
    mcrt::set_explore(true, true, true, early);
    let mut hs = Vec::new();
    for (i, (r, lid)) in rs.into_iter().enumerate() {
        let k = kinds[i];
        let sh = Shared((held.clone(), early_cmd.clone()));
        hs.push(mcrt::spawn_client(&format!("client{}", i), async move {
            let sh = sh;
            let lock = match k {
                0 | 4 => Some(Op::Lock { lid, flags: WAIT, to: 1000 }),
                1 => Some(Op::Lock { lid, flags: 0, to: 0 }),
                2 => Some(create(true, 1000)),
                _ => None,
            };
            let mut l = lid;
            if let Some(op) = &lock {
                let x = r.ask(op).await?;
                match x {
                    Res::Err(0) => {}
                    Res::Create { err: 0, lid, .. } => l = lid,
                    x if x.err() == 11 && (k == 1 || early) => return Ok(Some((r, lid))),
                    x => return Err(format!("{:?} is answered {:?}", op, x)),
                }
                sh.0 .0.borrow_mut()[i] = Some(false);
            }
            let cmd = [b'q', b'0' + i as u8];
            {
                let e = sh.0 .0.borrow().iter().enumerate().all(|(j, e)| j == i || e.is_none());
                sh.0 .1.borrow_mut()[i] = e;
            }
            match r.ask(&wr(l, ENDF | WAIT, 1000, &cmd)).await? {
                Res::Write { err: 0, size: 2 } => {}
                x if early && lock.is_none() && x.err() == 11 => return Ok(Some((r, lid))),
                x => return Err(format!("the write is answered {:?}", x)),
            }
            match r.ask(&rd(l, WAIT, 1000, 100, 0)).await? {
                x if x == (Res::Read { err: 0, reason: 4, data: rule(&cmd).unwrap() }) => {}
                x if early && lock.is_none() && x.err() == 11 => return Ok(Some((r, lid))),
                x => return Err(format!("the read is answered {:?}", x)),
            }
            if lock.is_some() {
                sh.0 .0.borrow_mut()[i] = None;
                if k == 4 {
                    // leaves with the lock
                    return Ok(None);
                }
                let op = if k == 2 { Op::Destroy { lid: l } } else { Op::Unlock { lid } };
                let x = r.ask(&op).await?.err();
                if x != 0 {
                    return Err(format!("{:?} is answered {}", op, x));
                }
            }
            Ok(Some((r, lid)))
        }));
    }
    run_idle();
    mcrt::explore_off();
    no_trouble()?;
    let ctx = format!("programs {:?}", kinds);
    if let Some(e) = wrong.borrow().clone() {
        return bad(format!("exclusion {:?}", kinds), e);
    }
    finish(&hs, &ctx, |_, _: (Rpc, u32)| Ok(()))?;
    let r = Rpc::core();
    match r.must(&create(true, 0))? {
        Res::Create { err: 0, lid, .. } => vxi_must_work(&r, lid, b"q", &ctx)?,
        x => return bad("lock left", format!("{}: afterwards a new client cannot lock: {:?}", ctx, x)),
    }
    let _ = v;
    no_trouble()
}

pub fn c24() -> Vec<Scenario> {
    let (d, d2) = (q(4, 5), q(4, 5));
    vec![
        Scenario::new("sequences", format!("2 clients and one outside of VXI-11, every sequence of {} of lock, unlock, create and lock, use (with and without waiting), destroy, leave, time", d), move || sequences(World::new(2, true)?, d, &menu24)),
        Scenario::new("one-connection", format!("2 links of one connection, every sequence of {} of these", d2), move || {
            let mut w = World::new(1, true)?;
            w.act(Act::Op(0, create(false, 0)))?;
            sequences(w, d2, &menu24)
        }),
        Scenario::new("three-clients", format!("3 clients, every sequence of {} of these", d - 1), move || sequences(World::new(3, true)?, d - 1, &menu24)),
        Scenario::new("matrix", "every operation, with and without waiting, under every kind of lock, and what may follow", matrix24),
        Scenario::new("timeouts", "every waiting operation with lock timeouts of 100 ms to 2^32-1 ms, the lock freed right before the end or not", timeouts24),
        Scenario::new("race-2", "2 clients that lock (5 ways), query and unlock or leave, every interleaving up to the deviation bound", || race24(2, false)).bound(q(2, 3), 3),
        Scenario::new("race-3", "3 such clients", || race24(3, false)).bound(1, 2),
        Scenario::new("race-timeouts", "2 such clients, timeouts may expire at any moment", || race24(2, true)).bound(q(2, 3), 3),
        everything_of("C24"),
        pauses_of("C24"),
    ]
}

// ------------------------------------------------------------------ C25

fn menu25(w: &World) -> Vec<Act> {
    let mut m = Vec::new();
    for c in 0..w.conns.len() {
        if w.conns[c].is_none() {
            continue;
        }
        if w.busy[c].is_some() {
            m.push(Act::Close(c));
            continue;
        }
        for (_, lid) in w.lids.iter().filter(|(d, _)| *d == c) {
            let lid = *lid;
            for op in [
                Op::Lock { lid, flags: WAIT, to: 1000 },
                wr(lid, ENDF | WAIT, 1000, b"q"),
                wr(lid, ENDF, 0, b"q"),
                rd(lid, WAIT, 1000, 100, 0),
                Op::Unlock { lid },
            ] {
                m.push(Act::Op(c, op));
            }
        }
    }
    for (_, lid) in &w.lids {
        m.push(Act::Op(ABORT, Op::Abort { lid: *lid }));
    }
    if w.ext_held {
        m.push(Act::ExtUnlock);
    } else if w.states.iter().all(|s| s.own == Own::Free) {
        m.push(Act::Ext(false));
    }
    m.push(Act::Time(600));
    m
}

/// Every operation that waits is aborted; others are not disturbed, before or after.
fn matrix25() -> Verdict {
    let mut w = World::new(2, true)?;
    w.act(Act::Op(0, create(false, 0)))?;
    let (l0, l1, l2) = (w.lids[0].1, w.lids[1].1, w.lids[2].1);
    w.act(Act::Op(0, wr(l0, ENDF, 0, b"qqq")))?;
    w.act(Act::Op(0, wr(l0, 0, 0, b"x")))?;
    // aborts of what does not wait
    for _ in 0..choose(3, "early aborts") {
        let lid = [l0, l1][choose(2, "of")];
        w.act(Act::Op(ABORT, Op::Abort { lid }))?;
    }
    w.act(Act::Ext(choose(2, "lock") == 1))?;
    let ops = |lid: u32| {
        let (flags, to) = (WAIT, 1000);
        vec![
            wr(lid, ENDF | flags, to, b"q"),
            wr(lid, flags, to, b"q"),
            rd(lid, flags, to, 100, 0),
            Op::Stb { lid, flags, to },
            Op::Trigger { lid, flags, to },
            Op::Clear { lid, flags, to },
            Op::Remote { lid, flags, to },
            Op::Local { lid, flags, to },
            Op::Lock { lid, flags, to },
        ]
    };
    let o = ops(l0);
    let k = choose(o.len(), "operation");
    w.act(Act::Op(0, o[k].clone()))?;
    w.act(Act::Op(1, ops(l1)[choose(3, "other") * 4].clone()))?;
    if choose(2, "time") == 1 {
        w.act(Act::Time(600))?;
    }
    let lid = [l0, l1, l2][choose(3, "abort")];
    for _ in 0..1 + choose(2, "times") {
        w.act(Act::Op(ABORT, Op::Abort { lid }))?;
    }
    match choose(3, "then") {
        0 => w.act(Act::ExtUnlock)?,
        1 => w.act(Act::Time(600))?,
        _ => {}
    }
    if w.ext_held {
        w.act(Act::ExtUnlock)?;
    }
    for (c, lid) in [(0, l0), (1, l1)] {
        if w.free(c) {
            w.act(Act::Op(c, wr(lid, ENDF | WAIT, 1000, b"qz")))?;
        }
        if w.free(c) {
            w.act(Act::Op(c, rd(lid, WAIT, 1000, 100, 0)))?;
        }
    }
    w.end()
}

/// An abort at any moment of an operation: the operation is done or aborted, never both, never
/// neither; what follows is not aborted.
fn race25(early: bool) -> Verdict {
    let p = Probe::new();
    let v = start_vxi(&p);
    let r = Rpc::core();
    let lid = link(&r)?;
    let mut ext = LockHandle::new(v.lock.clone(), v.dev.clone());
    let locked = choose(2, "locked") == 1;
    if locked {
        let _ = ext.try_acquire(b"");
    }
    let k = choose(4, "operation");
    let op = match k {
        0 => Op::Lock { lid, flags: WAIT, to: 1000 },
        1 => wr(lid, ENDF | WAIT, 1000, b"q"),
        2 => Op::Trigger { lid, flags: WAIT, to: 1000 },
        _ => Op::Clear { lid, flags: WAIT, to: 1000 },
    };
    let a = Rpc::abort();
    let aborts = 1 + choose(2, "aborts");
    run_idle();
    p.take();
    mcrt::set_explore(true, true, true, early);
    let h = {
        let op = op.clone();
        mcrt::spawn_client("client", async move {
            let x = r.ask(&op).await?;
            Ok(Some((r, x.err())))
        })
    };
    let ha = mcrt::spawn_client("aborter", async move {
        for _ in 0..aborts {
            let x = a.ask(&Op::Abort { lid }).await?;
            if x.err() != 0 {
                return Err(format!("the abort is answered {:?}", x));
            }
        }
        Ok(Some(a))
    });
    let hu = {
        let e = Shared(ext);
        mcrt::spawn_client("owner", async move {
            let mut e = e;
            let _ = e.0.try_release();
            Ok::<_, String>(Some(e))
        })
    };
    run_idle();
    mcrt::explore_off();
    no_trouble()?;
    let ctx = format!("{:?} locked={} aborts={}", op, locked, aborts);
    finish(&[ha], &ctx, |_, _: Rpc| Ok(()))?;
    let mut ext = None;
    finish(&[hu], &ctx, |_, e: Shared<LockHandle<TDev>>| {
        ext = Some(e);
        Ok(())
    })?;
    let mut got = None;
    finish(&[h], &ctx, |_, x| {
        got = Some(x);
        Ok(())
    })?;
    let (r, err) = got.unwrap();
    let calls = v.probe.take();
    let want: Vec<Call> = match k {
        0 => vec![],
        1 => vec![Call::Exec(b"q".to_vec())],
        2 => vec![Call::Trigger(Source::Bus)],
        _ => vec![Call::Clear],
    };
    match err {
        0 if calls == want => {}
        23 if calls.is_empty() => {}
        11 if early && calls.is_empty() => {}
        _ => return bad(format!("answer {} with {}", err, show_calls(&calls)), format!("{}: answered {} and the device did: {}", ctx, err, show_calls(&calls))),
    }
    // the lock is held if and only if it was granted
    let e = ext.as_mut().unwrap();
    let free = e.0.try_acquire(b"").is_ok();
    if free == (k == 0 && err == 0) {
        return bad("lock after abort", format!("{}: answered {} but the lock is {}", ctx, err, if free { "free" } else { "held" }));
    }
    if free {
        // the next operation waits and is not aborted
        let op = Op::Lock { lid, flags: WAIT, to: 500 };
        if let Some(x) = r.op(&op)? {
            return bad("stale abort", format!("{}: afterwards {:?} is answered {:?} although nobody aborts it", ctx, op, x));
        }
        let _ = e.0.try_release();
        run_idle();
        match r.answer(&op, 0x1003)? {
            Some(Res::Err(0)) => {}
            x => return bad("lock after release", format!("{}: afterwards {:?} is answered {:?} when the lock becomes free", ctx, op, x)),
        }
    }
    no_trouble()
}

pub fn c25() -> Vec<Scenario> {
    let d = q(4, 5);
    vec![
        Scenario::new("sequences", format!("2 clients, every sequence of {} of waiting operations, aborts of either link, lock and unlock from outside, leave, time", d), move || sequences(World::new(2, true)?, d, &menu25)),
        Scenario::new("one-connection", format!("2 links of one connection, every sequence of {} of these", d + 1), move || {
            let mut w = World::new(1, true)?;
            w.act(Act::Op(0, create(false, 0)))?;
            sequences(w, d + 1, &menu25)
        }),
        Scenario::new("matrix", "every waiting operation aborted, or another, before or while it waits", matrix25),
        Scenario::new("race", "an operation, aborts of it and the release of the lock it waits for, every interleaving up to the deviation bound", || race25(false)).bound(q(3, 4), 4),
        Scenario::new("race-timeouts", "the same, the wait may expire at any moment", || race25(true)).bound(q(3, 4), 4),
        everything_of("C25"),
        pauses_of("C25"),
    ]
}

// ------------------------------------------------------------------ C26

fn menu26(w: &World) -> Vec<Act> {
    let mut m = Vec::new();
    for c in 0..w.conns.len() {
        if !w.free(c) {
            continue;
        }
        for (_, lid) in w.lids.iter().filter(|(d, _)| *d == c) {
            let lid = *lid;
            let (flags, to) = if c == 0 { (0, 0) } else { (WAIT, 500) };
            for op in [
                wr(lid, ENDF | flags, to, b"q"),
                wr(lid, flags, to, b"x"),
                rd(lid, flags, to, 2, 0),
                rd(lid, flags, to, 100, 0),
                Op::Stb { lid, flags, to },
                Op::Trigger { lid, flags, to },
                Op::Clear { lid, flags, to },
                Op::Remote { lid, flags, to },
                Op::Local { lid, flags, to },
                Op::Docmd { lid },
            ] {
                m.push(Act::Op(c, op));
            }
        }
    }
    let fail = w.states[0].fail;
    if fail == 0 {
        m.extend((1..=FAILURES).map(Act::Fail));
    } else {
        m.push(Act::Fail(0));
    }
    for s in [0x00, 0x40, 0xff] {
        if w.states[0].stb != s {
            m.push(Act::SetStb(s));
        }
    }
    if w.ext_held {
        m.push(Act::ExtUnlock);
    } else {
        m.push(Act::Ext(false));
    }
    m
}

/// Every status byte, with and without a response available on this and on another link.
fn stb26() -> Verdict {
    let mut w = World::new(2, true)?;
    w.act(Act::Op(0, create(false, 0)))?;
    let l: Vec<(usize, u32)> = w.lids.clone();
    w.act(Act::SetStb(choose(256, "status") as u8))?;
    for (c, lid) in &l {
        if choose(2, "response") == 1 {
            w.act(Act::Op(*c, wr(*lid, ENDF, 0, b"q")))?;
        }
    }
    for (c, lid) in &l {
        w.act(Act::Op(*c, Op::Stb { lid: *lid, flags: 0, to: 0 }))?;
    }
    w.end()
}

pub fn c26() -> Vec<Scenario> {
    let d = q(4, 5);
    vec![
        Scenario::new("one-link", format!("every sequence of {} of status, trigger, clear, remote, local, write, read, other commands, with a working and a failing device, different status bytes and locks", d), move || sequences(World::new(1, true)?, d, &menu26)),
        Scenario::new("two-clients", format!("every sequence of {} of these by 2 clients, one of which waits", d - 1), move || sequences(World::new(2, true)?, d - 1, &menu26)),
        Scenario::new("two-links", format!("every sequence of {} of these on 2 links of one connection", d - 1), move || {
            let mut w = World::new(1, true)?;
            w.act(Act::Op(0, create(false, 0)))?;
            sequences(w, d - 1, &menu26)
        }),
        Scenario::new("status-bytes", "every status byte with and without responses on 3 links", stb26),
        everything_of("C26"),
        pauses_of("C26"),
    ]
}

// ------------------------------------------------------------------ C27

fn srq(lid: u32, h: &[u8]) -> Op {
    Op::Srq { lid, on: true, handle: h.to_vec() }
}

fn intr(c: usize, udp: bool) -> Op {
    let SocketAddr::V4(a) = intr_addr(c) else { unreachable!() };
    Op::CreateIntr { host: u32::from(*a.ip()), port: a.port() as u32, prog: if udp { 0x2000_0077 } else { INTR }, vers: if udp { 3 } else { 1 }, udp: udp as u32 }
}

fn menu27(w: &World) -> Vec<Act> {
    let mut m = vec![Act::Announce(0x40)];
    for c in 0..w.conns.len() {
        if w.conns[c].is_none() {
            m.push(Act::Open(c));
            continue;
        }
        m.push(Act::Close(c));
        if !w.free(c) {
            continue;
        }
        let live: Vec<u32> = w.states[0].links.iter().filter(|l| l.live && l.conn == c).map(|l| l.lid).collect();
        for lid in &live {
            let lid = *lid;
            m.push(Act::Op(c, srq(lid, format!("handle {}", lid).as_bytes())));
            m.push(Act::Op(c, srq(lid, &[0xff; 40])));
            m.push(Act::Op(c, Op::Srq { lid, on: false, handle: b"off".to_vec() }));
            m.push(Act::Op(c, Op::Destroy { lid }));
        }
        if live.is_empty() {
            m.push(Act::Op(c, create(false, 0)));
        }
        m.push(Act::Op(c, intr(c, false)));
        m.push(Act::Op(c, intr(c, true)));
        m.push(Act::Op(c, Op::CreateIntr { host: 0x0a00_0009, port: 9, prog: INTR, vers: 1, udp: 0 }));
        m.push(Act::Op(c, Op::DestroyIntr));
        if let Some((k, false)) = w.states[0].chan[c] {
            if matches!(w.chans[k].link, Line::Tcp(..)) {
                m.push(Act::Hangup(c));
            }
        }
    }
    m
}

/// Both clients with an interrupt channel and service requests enabled.
fn established27(conns: usize, links: usize) -> Result<World, Violation> {
    let mut w = World::new(conns, false)?;
    for c in 0..conns {
        w.act(Act::Op(c, intr(c, c % 2 == 1)))?;
        for _ in 0..links {
            w.act(Act::Op(c, create(false, 0)))?;
            let lid = w.lids.last().unwrap().1;
            w.act(Act::Op(c, srq(lid, format!("handle {}", lid).as_bytes())))?;
        }
    }
    Ok(w)
}

/// Every status value is announced, every handle is passed on unchanged.
fn values27() -> Verdict {
    let mut w = World::new(1, true)?;
    let lid = w.lids[0].1;
    let h: Vec<u8> = match choose(4, "handle") {
        0 => (0..choose(41, "length")).map(|i| i as u8).collect(),
        1 => vec![0; choose(5, "length")],
        2 => vec![choose(256, "byte") as u8],
        _ => b"h".to_vec(),
    };
    w.act(Act::Op(0, intr(0, choose(2, "udp") == 1)))?;
    w.act(Act::Op(0, srq(lid, &h)))?;
    let s = if h == b"h" { choose(256, "status") as u8 } else { 0x40 };
    for _ in 0..3 {
        w.act(Act::Announce(s))?;
    }
    w.end()
}

/// The service requests received on an interrupt channel.
fn drain_srqs(s: &Sock, buf: &mut Vec<u8>) -> Result<Vec<Vec<u8>>, Violation> {
    buf.extend(s.recv());
    let mut out = Vec::new();
    while buf.len() >= 4 {
        let n = (u32::from_be_bytes(buf[..4].try_into().unwrap()) & 0x7fff_ffff) as usize;
        if buf.len() < 4 + n {
            break;
        }
        match srq_call(&buf[4..4 + n], INTR, 1) {
            Some(h) => out.push(h),
            None => return bad("malformed srq", format!("the interrupt channel receives [{}], which is no service request", show(&buf[4..4 + n]))),
        }
        buf.drain(..4 + n);
    }
    Ok(out)
}

struct Ctl {
    r: Rpc,
    lids: Vec<u32>,
    listen: TcpListen,
    chan: Option<Sock>,
    buf: Vec<u8>,
}

/// A client with an interrupt channel and this many links with service requests enabled.
fn controller(c: usize, links: usize) -> Result<Ctl, Violation> {
    let listen = TcpListen::bind(intr_addr(c)).unwrap();
    let r = Rpc::core();
    let x = r.must(&intr(c, false))?.err();
    let chan = try_accept(&listen);
    if x != 0 || chan.is_none() {
        return bad("no interrupt channel", format!("the interrupt channel is not created: {}", x));
    }
    let mut lids = Vec::new();
    for _ in 0..links {
        let lid = link(&r)?;
        r.must(&srq(lid, &[b'h', lid as u8]))?;
        lids.push(lid);
    }
    Ok(Ctl { r, lids, listen, chan, buf: vec![] })
}

/// Many links want service requests.
fn many27() -> Verdict {
    let p = Probe::new();
    let v = start_vxi(&p);
    let n = [2, 17, 33, 65, 130, 300][choose(6, "links")];
    let mut a = controller(0, 0)?;
    let mut b = controller(1, 0)?;
    let mut want = [vec![], vec![]];
    for i in 0..n {
        let c = i % 2;
        let r = if c == 0 { &a.r } else { &b.r };
        let lid = link(r)?;
        let h = format!("link {}", i).into_bytes();
        r.must(&srq(lid, &h))?;
        want[c].push((lid, h));
    }
    // some stop
    if choose(2, "disable") == 1 {
        for c in 0..2 {
            let r = if c == 0 { &a.r } else { &b.r };
            let all = std::mem::take(&mut want[c]);
            for (k, (lid, h)) in all.into_iter().enumerate() {
                if k % 3 == 1 {
                    r.must(&Op::Srq { lid, on: false, handle: vec![] })?;
                } else if k % 3 == 2 {
                    r.must(&Op::Destroy { lid })?;
                } else {
                    want[c].push((lid, h));
                }
            }
        }
    }
    for round in 0..3 {
        v.srq.clone().send_status(0x40);
        run_idle();
        for (c, ctl) in [&mut a, &mut b].into_iter().enumerate() {
            let mut got = drain_srqs(ctl.chan.as_ref().unwrap(), &mut ctl.buf)?;
            let mut w: Vec<_> = want[c].iter().map(|x| x.1.clone()).collect();
            got.sort();
            w.sort();
            if got != w {
                return bad("many", format!("{} links, announcement {}: client {} receives {} service requests, {} links want them", n, round + 1, c, got.len(), w.len()));
            }
        }
    }
    no_trouble()
}

/// Service requests while the client changes its mind.
fn race27() -> Verdict {
    let p = Probe::new();
    let v = start_vxi(&p);
    let mut a = controller(0, 2)?;
    let mut b = controller(1, 1)?;
    let k = choose(8, "program");
    let (l0, l1, l2) = (a.lids[0], a.lids[1], b.lids[0]);
    let count = 1 + choose(2, "announcements");
    run_idle();
    mcrt::set_explore(true, true, true, false);
    let Ctl { r, .. } = a;
    let h = mcrt::spawn_client("client", async move {
        let ops = match k {
            0 => vec![Op::Srq { lid: l0, on: false, handle: vec![] }],
            1 => vec![srq(l0, b"new")],
            2 => vec![Op::Destroy { lid: l0 }],
            3 => vec![Op::DestroyIntr],
            4 => vec![Op::DestroyIntr, intr(0, false)],
            5 => return Ok(None),
            6 => vec![wr(l0, ENDF | WAIT, 1000, b"q")],
            _ => vec![Op::Srq { lid: l0, on: false, handle: vec![] }, srq(l0, b"new")],
        };
        for op in ops {
            let x = r.ask(&op).await?;
            if x.err() != 0 {
                return Err(format!("{:?} is answered {:?}", op, x));
            }
        }
        Ok(Some(r))
    });
    let mut s = v.srq.clone();
    mcrt::spawn_client("device", async move {
        for _ in 0..count {
            s.send_status(0x40);
            async_std::task::yield_now().await;
        }
    });
    run_idle();
    mcrt::explore_off();
    no_trouble()?;
    let ctx = format!("program {}, {} announcements", k, count);
    let mut r = None;
    finish(&[h], &ctx, |_, x| {
        r = Some(x);
        Ok(())
    })?;
    let ha = [vec![b'h', l0 as u8], vec![b'h', l1 as u8], b"new".to_vec()];
    let hb = vec![b'h', l2 as u8];
    let got = drain_srqs(a.chan.as_ref().unwrap(), &mut a.buf)?;
    let n = |g: &[Vec<u8>], h: &[u8]| g.iter().filter(|x| *x == h).count();
    for (i, h) in ha.iter().enumerate() {
        let m = n(&got, h);
        let most = if i == 2 && k != 1 && k != 7 { 0 } else { count };
        let least = if matches!(k, 3..=5) || i != 1 && !(i == 0 && k == 6) { 0 } else { count };
        if m > most || m < least {
            return bad(format!("requests {} {}", k, i), format!("{}: {} service requests for \"{}\" are received", ctx, m, show(h)));
        }
    }
    if matches!(k, 1) && n(&got, &ha[0]) + n(&got, &ha[2]) < count {
        return bad("lost request", format!("{}: {} service requests are received although they are enabled all the time", ctx, n(&got, &ha[0]) + n(&got, &ha[2])));
    }
    if n(&got, &ha[0]) + n(&got, &ha[1]) + n(&got, &ha[2]) != got.len() {
        return bad("unknown request", format!("{}: received {:?}", ctx, got));
    }
    let got = drain_srqs(b.chan.as_ref().unwrap(), &mut b.buf)?;
    if got != vec![hb.clone(); count] {
        return bad("other client", format!("{}: the other client receives {:?}", ctx, got));
    }
    // afterwards
    let fresh = try_accept(&a.listen);
    if fresh.is_some() != (k == 4) {
        return bad("connections", format!("{}: {}", ctx, if k == 4 { "no new interrupt connection" } else { "an unexpected interrupt connection" }));
    }
    let old_open = !a.chan.as_ref().unwrap().peer_closed();
    if old_open != !matches!(k, 3..=5) {
        return bad("channel", format!("{}: afterwards the interrupt channel is {}", ctx, if old_open { "open" } else { "closed" }));
    }
    if let Some(f) = fresh {
        // what was announced last may be on it
        a.buf.clear();
        drain_srqs(&f, &mut a.buf)?;
        a.chan = Some(f);
    }
    v.srq.clone().send_status(0x40);
    run_idle();
    let mut want: Vec<Vec<u8>> = match k {
        0 | 2 => vec![ha[1].clone()],
        1 | 7 => vec![ha[1].clone(), ha[2].clone()],
        3 | 5 => vec![],
        _ => vec![ha[0].clone(), ha[1].clone()],
    };
    want.sort();
    let mut got = drain_srqs(a.chan.as_ref().unwrap(), &mut a.buf)?;
    got.sort();
    if got != want || !a.buf.is_empty() && old_open {
        return bad(format!("afterwards {}", k), format!("{}: afterwards an announcement sends {:?} instead of {:?}", ctx, got, want));
    }
    let got = drain_srqs(b.chan.as_ref().unwrap(), &mut b.buf)?;
    if got != vec![hb] {
        return bad("other client afterwards", format!("{}: the other client receives {:?}", ctx, got));
    }
    let _ = r;
    no_trouble()
}

/// A client does not read its interrupt channel: it and all others are served nevertheless.
fn stall27() -> Verdict {
    let p = Probe::new();
    let v = start_vxi(&p);
    let mut a = controller(0, 2)?;
    let mut b = controller(1, 1)?;
    let (l0, l1) = (a.lids[0], a.lids[1]);
    let one = 4 + call_bytes(0, 0, 0, 0, &X::new().o(b"hh").0).len();
    let cap = [1, one / 2, one, one + 1, 2 * one + 5][choose(5, "buffer")];
    net::cfg(|c| c.client_buf = cap);
    let count = 1 + choose(4, "announcements");
    let gap = [0, PAUSES[1], PAUSES[6]][choose(3, "pause")];
    let mut seen = 0;
    for _ in 0..count {
        v.srq.clone().send_status(0x40);
        pause(gap);
        // the other client reads
        for _ in 0..200 {
            let n = b.buf.len();
            seen += drain_srqs(b.chan.as_ref().unwrap(), &mut b.buf)?.len();
            run_idle();
            if n == b.buf.len() && b.chan.as_ref().unwrap().avail() == 0 {
                break;
            }
        }
    }
    let ctx = format!("buffer of {} bytes, {} announcements {} ms apart", cap, count, gap);
    if seen != count {
        return bad("other client", format!("{}: the other client receives {} service requests", ctx, seen));
    }
    // every request is still served
    let k = choose(9, "request");
    let op = match k {
        0 => wr(l0, ENDF, 0, b"q"),
        1 => Op::Srq { lid: l0, on: false, handle: vec![] },
        2 => srq(l0, b"new"),
        3 => Op::Destroy { lid: l0 },
        4 => Op::DestroyIntr,
        5 => intr(0, false),
        6 => create(true, 0),
        7 => Op::Unlock { lid: l0 },
        _ => Op::Stb { lid: l0, flags: 0, to: 0 },
    };
    let want = match k {
        5 => 29,
        7 => 12,
        _ => 0,
    };
    let x = a.r.must(&op)?.err();
    if x != want {
        return bad(format!("stalled {:?}", op), format!("{}: {:?} is answered {}", ctx, op, x));
    }
    let vs = a.chan.take().unwrap();
    let renewed = k == 4 && choose(2, "renew") == 1;
    if renewed {
        let x = a.r.must(&intr(0, false))?.err();
        match try_accept(&a.listen) {
            Some(s) if x == 0 => a.chan = Some(s),
            _ => return bad("renewed channel", format!("{}: a new interrupt channel is not created: {}", ctx, x)),
        }
    }
    let leaves = !renewed && choose(3, "leaves") == 1;
    if leaves {
        drop(std::mem::replace(&mut a.r, Rpc::core()));
        run_idle();
    }
    // a channel that is destroyed is closed, whether or not it is read
    if (k == 4 || leaves) && !vs.peer_closed() {
        return bad("unread channel", format!("{}, {:?}: the interrupt channel stays open while it is not read", ctx, op));
    }
    // now it reads: whole service requests, except for the last one if the channel was closed
    let mut got = Vec::new();
    loop {
        let n = vs.avail();
        got.extend(drain_srqs(&vs, &mut a.buf)?);
        run_idle();
        if n == 0 && vs.avail() == 0 {
            break;
        }
    }
    let closed = k == 4 || leaves;
    if vs.peer_closed() != closed {
        return bad("channel closed", format!("{}, {:?}: the interrupt channel is {}", ctx, op, if closed { "still open" } else { "closed" }));
    }
    if !a.buf.is_empty() && !closed {
        return bad("cut request", format!("{}, {:?}: a service request is cut after {} bytes", ctx, op, a.buf.len()));
    }
    for h in &got {
        if *h != [b'h', l0 as u8] && *h != [b'h', l1 as u8] && *h != b"new" {
            return bad("unknown request", format!("{}, {:?}: received {:?}", ctx, op, got));
        }
    }
    if got.len() > 2 * count {
        return bad("too many requests", format!("{}, {:?}: {} service requests are received", ctx, op, got.len()));
    }
    // and from now on
    net::cfg(|c| c.client_buf = usize::MAX);
    run_idle();
    let mut scrap = Vec::new();
    std::mem::swap(&mut scrap, &mut a.buf);
    if !closed {
        drain_srqs(&vs, &mut scrap)?;
        if a.chan.is_none() {
            a.chan = Some(vs);
        }
    } else if let Some(c) = &a.chan {
        drain_srqs(c, &mut a.buf)?;
    }
    v.srq.clone().send_status(0x40);
    run_idle();
    let (h0, h1) = (vec![b'h', l0 as u8], vec![b'h', l1 as u8]);
    let mut want = match k {
        _ if closed && !renewed => vec![],
        1 | 3 => vec![h1],
        2 => vec![h1, b"new".to_vec()],
        _ => vec![h0, h1],
    };
    want.sort();
    let mut got = match &a.chan {
        Some(c) => drain_srqs(c, &mut a.buf)?,
        None => vec![],
    };
    got.sort();
    if got != want {
        return bad(format!("after stall {}", k), format!("{}, {:?}: afterwards an announcement sends {:?} instead of {:?}", ctx, op, got, want));
    }
    if drain_srqs(b.chan.as_ref().unwrap(), &mut b.buf)?.len() != 1 {
        return bad("other client afterwards", format!("{}: the other client does not receive a service request", ctx));
    }
    no_trouble()
}

pub fn c27() -> Vec<Scenario> {
    let d = q(5, 6);
    vec![
        Scenario::new("one-client", format!("a link, every sequence of {} of enabling (two handles) and disabling requests, creating (TCP, UDP, unreachable) and destroying the channel, the controller closing it, destroying and creating links, leaving, announcements", d), move || sequences(World::new(1, true)?, d, &menu27)),
        Scenario::new("established", format!("the same with a channel and requests enabled, {} steps", d), move || sequences(established27(1, 1)?, d, &menu27)),
        Scenario::new("two-links", format!("2 links of one connection, {} steps", d - 1), move || sequences(established27(1, 2)?, d - 1, &menu27)),
        Scenario::new("two-clients", format!("2 clients, one with TCP and one with UDP, {} steps", d - 2), move || sequences(established27(2, 1)?, d - 2, &menu27)),
        Scenario::new("values", "every status value and handles of every length", values27),
        Scenario::new("stalled", "a client which does not read its interrupt channel", stall27),
        Scenario::new("many", "up to 300 links of 2 clients with service requests enabled, some disabled or destroyed", many27),
        Scenario::new("race", "announcements while a client changes its links and its channel (8 ways), every interleaving up to the deviation bound", race27).bound(q(2, 3), 3),
        everything_of("C27"),
        pauses_of("C27"),
    ]
}
