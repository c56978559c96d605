//! ONC RPC and VXI-11 clients of the harness, written from RFC 5531, RFC 4506, RFC 1833 and VXI-11.
use crate::common::*;
use crate::dev::*;
use lxi_device::lock::{SharedLock, SpinMutex};
use lxi_device::status::Sender;
use lxi_vxi11::server::portmapper::prelude::*;
use lxi_vxi11::server::vxi11::prelude::*;
use mcrt::net::{Sock, TcpListen};
use std::cell::{Cell, RefCell};
use std::net::SocketAddr;
use std::sync::Arc;

pub const CORE: u32 = 0x0607AF;
pub const ASYNC: u32 = 0x0607B0;
pub const INTR: u32 = 0x0607B1;
pub const PMAP: u32 = 100000;

pub fn core_addr() -> SocketAddr {
    "127.0.0.1:1024".parse().unwrap()
}
pub fn async_addr() -> SocketAddr {
    "127.0.0.1:1025".parse().unwrap()
}
pub fn pmap_addr() -> SocketAddr {
    "127.0.0.1:111".parse().unwrap()
}

// ------------------------------------------------------------------ XDR

/// XDR encoder
#[derive(Clone, Default, Debug, PartialEq)]
pub struct X(pub Vec<u8>);
impl X {
    pub fn new() -> X {
        X(Vec::new())
    }
    pub fn u(mut self, v: u32) -> X {
        self.0.extend(v.to_be_bytes());
        self
    }
    pub fn b(self, v: bool) -> X {
        self.u(v as u32)
    }
    pub fn o(mut self, v: &[u8]) -> X {
        self.0.extend((v.len() as u32).to_be_bytes());
        self.0.extend(v);
        while self.0.len() % 4 != 0 {
            self.0.push(0)
        }
        self
    }
    pub fn raw(mut self, v: &[u8]) -> X {
        self.0.extend(v);
        self
    }
}

/// XDR decoder
pub struct D<'a>(pub &'a [u8]);
impl<'a> D<'a> {
    pub fn u(&mut self) -> Option<u32> {
        if self.0.len() < 4 {
            return None;
        }
        let v = u32::from_be_bytes(self.0[..4].try_into().unwrap());
        self.0 = &self.0[4..];
        Some(v)
    }
    pub fn o(&mut self) -> Option<Vec<u8>> {
        let n = self.u()? as usize;
        let p = n.checked_add(3)? & !3;
        if self.0.len() < p || self.0[n..p].iter().any(|c| *c != 0) {
            return None;
        }
        let v = self.0[..n].to_vec();
        self.0 = &self.0[p..];
        Some(v)
    }
    pub fn end(&self) -> bool {
        self.0.is_empty()
    }
}

// ------------------------------------------------------------------ RPC

pub fn call_bytes(xid: u32, prog: u32, vers: u32, proc: u32, args: &[u8]) -> Vec<u8> {
    X::new().u(xid).u(0).u(2).u(prog).u(vers).u(proc).u(0).u(0).u(0).u(0).raw(args).0
}

/// one record in one fragment
pub fn record(b: &[u8]) -> Vec<u8> {
    X::new().u(0x8000_0000 | b.len() as u32).raw(b).0
}

#[derive(Clone, PartialEq, Debug)]
pub enum Stat {
    Success(Vec<u8>),
    ProgUnavail,
    ProgMismatch(u32, u32),
    ProcUnavail,
    GarbageArgs,
    SystemErr,
    RpcMismatch(u32, u32),
    Auth(u32),
    /// not a valid reply message
    Bad(Vec<u8>),
}

pub fn parse_reply(b: &[u8]) -> (u32, Stat) {
    fn p(d: &mut D) -> Option<(u32, Stat)> {
        let xid = d.u()?;
        if d.u()? != 1 {
            return None;
        }
        let s = match d.u()? {
            0 => {
                if d.u()? != 0 || !d.o()?.is_empty() {
                    return None;
                }
                match d.u()? {
                    0 => {
                        let v = d.0.to_vec();
                        d.0 = &[];
                        Stat::Success(v)
                    }
                    1 => Stat::ProgUnavail,
                    2 => Stat::ProgMismatch(d.u()?, d.u()?),
                    3 => Stat::ProcUnavail,
                    4 => Stat::GarbageArgs,
                    5 => Stat::SystemErr,
                    _ => return None,
                }
            }
            1 => match d.u()? {
                0 => Stat::RpcMismatch(d.u()?, d.u()?),
                1 => Stat::Auth(d.u()?),
                _ => return None,
            },
            _ => return None,
        };
        if d.end() {
            Some((xid, s))
        } else {
            None
        }
    }
    p(&mut D(b)).unwrap_or((0, Stat::Bad(b.to_vec())))
}

/// A reply message with this outcome.
pub fn reply_bytes(xid: u32, s: &Stat) -> Vec<u8> {
    let x = X::new().u(xid).u(1);
    let acc = |n: u32| X::new().u(0).u(0).u(0).u(n).0;
    match s {
        Stat::Success(v) => x.raw(&acc(0)).raw(v).0,
        Stat::ProgUnavail => x.raw(&acc(1)).0,
        Stat::ProgMismatch(a, b) => x.raw(&acc(2)).u(*a).u(*b).0,
        Stat::ProcUnavail => x.raw(&acc(3)).0,
        Stat::GarbageArgs => x.raw(&acc(4)).0,
        Stat::SystemErr => x.raw(&acc(5)).0,
        Stat::RpcMismatch(a, b) => x.u(1).u(0).u(*a).u(*b).0,
        Stat::Auth(a) => x.u(1).u(1).u(*a).0,
        Stat::Bad(v) => v.clone(),
    }
}

/// One RPC connection over TCP.
pub struct Rpc {
    pub s: Sock,
    pub prog: u32,
    pub vers: u32,
    xid: Cell<u32>,
    buf: RefCell<Vec<u8>>,
}

impl Rpc {
    pub fn new(a: SocketAddr, prog: u32, vers: u32) -> Rpc {
        Rpc::of(net::connect(a).unwrap(), prog, vers)
    }
    pub fn of(s: Sock, prog: u32, vers: u32) -> Rpc {
        Rpc { s, prog, vers, xid: Cell::new(0x1000), buf: RefCell::default() }
    }
    pub fn core() -> Rpc {
        Rpc::new(core_addr(), CORE, 1)
    }
    pub fn abort() -> Rpc {
        Rpc::new(async_addr(), ASYNC, 1)
    }
    pub fn next_xid(&self) -> u32 {
        self.xid.set(self.xid.get() + 1);
        self.xid.get()
    }
    pub fn send(&self, proc: u32, args: &X) -> u32 {
        let x = self.next_xid();
        self.s.send(&record(&call_bytes(x, self.prog, self.vers, proc, &args.0)));
        x
    }
    fn parse(&self) -> Vec<Vec<u8>> {
        let mut b = self.buf.borrow_mut();
        let mut out = Vec::new();
        loop {
            // one record: fragments up to the last one
            let mut rec = Vec::new();
            let mut o = 0;
            let mut done = false;
            while b.len() >= o + 4 {
                let h = u32::from_be_bytes(b[o..o + 4].try_into().unwrap());
                let n = (h & 0x7fff_ffff) as usize;
                if b.len() < o + 4 + n {
                    break;
                }
                rec.extend(&b[o + 4..o + 4 + n]);
                o += 4 + n;
                if h >> 31 == 1 {
                    done = true;
                    break;
                }
            }
            if !done {
                break;
            }
            b.drain(..o);
            out.push(rec);
        }
        out
    }
    /// All complete records received so far.
    pub fn records(&self) -> Vec<Vec<u8>> {
        let r = self.s.recv();
        self.buf.borrow_mut().extend(r);
        self.parse()
    }
    pub fn replies(&self) -> Vec<(u32, Stat)> {
        self.records().iter().map(|r| parse_reply(r)).collect()
    }
    /// bytes of an incomplete record
    pub fn rest(&self) -> usize {
        self.buf.borrow().len()
    }
    /// Next record, for client tasks.
    pub async fn next(&self) -> Option<Vec<u8>> {
        loop {
            if let Some(r) = {
                let mut v = self.parse();
                if v.is_empty() {
                    None
                } else {
                    // put back what follows
                    let r = v.remove(0);
                    let mut b = Vec::new();
                    for x in v {
                        b.extend(record(&x));
                    }
                    b.extend(self.buf.borrow().iter());
                    *self.buf.borrow_mut() = b;
                    Some(r)
                }
            } {
                return Some(r);
            }
            match self.s.read_some(4096).await {
                Ok(r) if !r.is_empty() => self.buf.borrow_mut().extend(r),
                _ => return None,
            }
        }
    }
    /// Call and wait, for client tasks. The result must be a success.
    pub async fn ask(&self, op: &Op) -> Result<Res, String> {
        let (p, a) = op.enc();
        let x = self.send(p, &a);
        match self.next().await {
            None => Err("connection closed".into()),
            Some(r) => match parse_reply(&r) {
                (id, Stat::Success(v)) if id == x => op.dec(&v).ok_or_else(|| format!("malformed result {:?}", show(&v))),
                (id, s) => Err(format!("reply with id {:#x} (called {:#x}): {:?}", id, x, s)),
            },
        }
    }
    /// Send a call and take its answer if there is one.
    pub fn op(&self, op: &Op) -> Result<Option<Res>, Violation> {
        let (p, a) = op.enc();
        let x = self.send(p, &a);
        run_idle();
        self.answer(op, x)
    }
    pub fn answer(&self, op: &Op, xid: u32) -> Result<Option<Res>, Violation> {
        no_trouble()?;
        let r = self.replies();
        match r.len() {
            0 if self.s.peer_closed() => bad(format!("closed {:?}", op), format!("the server closed the connection instead of answering {:?}", op)),
            0 => Ok(None),
            1 => match &r[0] {
                (id, Stat::Success(v)) if *id == xid => match op.dec(v) {
                    Some(r) => Ok(Some(r)),
                    None => bad(format!("result {:?}", op), format!("{:?} is answered by the malformed result \"{}\"", op, show(v))),
                },
                (id, s) => bad(format!("reply {:?} {:?}", op, s), format!("{:?} with id {:#x} is answered with id {:#x} and {:?}", op, xid, id, s)),
            },
            _ => bad(format!("replies {:?}", op), format!("{:?} is answered {} times", op, r.len())),
        }
    }
    /// The answer must come at once.
    pub fn must(&self, op: &Op) -> Result<Res, Violation> {
        match self.op(op)? {
            Some(r) => Ok(r),
            None => bad(format!("no answer {:?}", op), format!("{:?} is not answered", op)),
        }
    }
}

// ------------------------------------------------------------------ VXI-11

pub const WAIT: u32 = 1;
pub const ENDF: u32 = 8;
pub const TERM: u32 = 0x80;

#[derive(Clone, PartialEq, Debug)]
pub enum Op {
    Create { lock: bool, to: u32, dev: &'static str },
    Write { lid: u32, flags: u32, to: u32, data: Vec<u8> },
    Read { lid: u32, flags: u32, to: u32, size: u32, term: u8 },
    Stb { lid: u32, flags: u32, to: u32 },
    Trigger { lid: u32, flags: u32, to: u32 },
    Clear { lid: u32, flags: u32, to: u32 },
    Remote { lid: u32, flags: u32, to: u32 },
    Local { lid: u32, flags: u32, to: u32 },
    Lock { lid: u32, flags: u32, to: u32 },
    Unlock { lid: u32 },
    Srq { lid: u32, on: bool, handle: Vec<u8> },
    Docmd { lid: u32 },
    Destroy { lid: u32 },
    CreateIntr { host: u32, port: u32, prog: u32, vers: u32, udp: u32 },
    DestroyIntr,
    Abort { lid: u32 },
}

#[derive(Clone, PartialEq, Debug)]
pub enum Res {
    Err(u32),
    Create { err: u32, lid: u32, port: u32, max: u32 },
    Write { err: u32, size: u32 },
    Read { err: u32, reason: u32, data: Vec<u8> },
    Stb { err: u32, stb: u32 },
    Docmd { err: u32, data: Vec<u8> },
}

impl Res {
    pub fn err(&self) -> u32 {
        match self {
            Res::Err(e) => *e,
            Res::Create { err, .. } | Res::Write { err, .. } | Res::Read { err, .. } | Res::Stb { err, .. } | Res::Docmd { err, .. } => *err,
        }
    }
}

impl Op {
    pub fn enc(&self) -> (u32, X) {
        let x = X::new();
        let gen = |lid: &u32, flags: &u32, to: &u32| X::new().u(*lid).u(*flags).u(*to).u(1000);
        match self {
            Op::Create { lock, to, dev } => (10, x.u(0x77).b(*lock).u(*to).o(dev.as_bytes())),
            Op::Write { lid, flags, to, data } => (11, x.u(*lid).u(1000).u(*to).u(*flags).o(data)),
            Op::Read { lid, flags, to, size, term } => (12, x.u(*lid).u(*size).u(1000).u(*to).u(*flags).u(*term as u32)),
            Op::Stb { lid, flags, to } => (13, gen(lid, flags, to)),
            Op::Trigger { lid, flags, to } => (14, gen(lid, flags, to)),
            Op::Clear { lid, flags, to } => (15, gen(lid, flags, to)),
            Op::Remote { lid, flags, to } => (16, gen(lid, flags, to)),
            Op::Local { lid, flags, to } => (17, gen(lid, flags, to)),
            Op::Lock { lid, flags, to } => (18, x.u(*lid).u(*flags).u(*to)),
            Op::Unlock { lid } => (19, x.u(*lid)),
            Op::Srq { lid, on, handle } => (20, x.u(*lid).b(*on).o(handle)),
            Op::Docmd { lid } => (22, x.u(*lid).u(0).u(1000).u(0).u(7).b(true).u(1).o(b"ab")),
            Op::Destroy { lid } => (23, x.u(*lid)),
            Op::CreateIntr { host, port, prog, vers, udp } => (25, x.u(*host).u(*port).u(*prog).u(*vers).u(*udp)),
            Op::DestroyIntr => (26, x),
            Op::Abort { lid } => (1, x.u(*lid)),
        }
    }
    pub fn dec(&self, b: &[u8]) -> Option<Res> {
        let mut d = D(b);
        let r = match self {
            Op::Create { .. } => Res::Create { err: d.u()?, lid: d.u()?, port: d.u()?, max: d.u()? },
            Op::Write { .. } => Res::Write { err: d.u()?, size: d.u()? },
            Op::Read { .. } => Res::Read { err: d.u()?, reason: d.u()?, data: d.o()? },
            Op::Stb { .. } => Res::Stb { err: d.u()?, stb: d.u()? },
            Op::Docmd { .. } => Res::Docmd { err: d.u()?, data: d.o()? },
            _ => Res::Err(d.u()?),
        };
        d.end().then_some(r)
    }
}

pub struct Vxi {
    pub probe: Probe,
    pub lock: Arc<SpinMutex<SharedLock>>,
    pub dev: Arc<futures::lock::Mutex<TDev>>,
    pub srq: Sender,
}

pub fn start_vxi(p: &Probe) -> Vxi {
    start_vxi_on(p, SharedLock::new(), p.device())
}

pub fn start_vxi_on(p: &Probe, lock: Arc<SpinMutex<SharedLock>>, dev: Arc<futures::lock::Mutex<TDev>>) -> Vxi {
    let srq = Sender::new();
    let (core, abort) = VxiServerBuilder::new()
        .core_port(core_addr().port())
        .async_port(async_addr().port())
        .device("inst0".to_string(), dev.clone(), lock.clone())
        .build(srq.clone());
    mcrt::spawn_named("vxi core server", async move {
        let l = async_std::net::TcpListener::bind(core_addr()).await.unwrap();
        let r = core.serve(l).await;
        event(format!("vxi core server returned {:?}", r.map_err(|e| e.kind())));
    });
    mcrt::spawn_named("vxi async server", async move {
        let l = async_std::net::TcpListener::bind(async_addr()).await.unwrap();
        let r = abort.serve(l).await;
        event(format!("vxi async server returned {:?}", r.map_err(|e| e.kind())));
    });
    run_idle();
    Vxi { probe: p.clone(), lock, dev, srq }
}

/// Port mapper on TCP and UDP.
pub fn start_pmap<const N: usize>(m: [Mapping; N]) {
    let pm = StaticPortMap::new(m);
    mcrt::spawn_named("port mapper", async move {
        let r = pm.bind(pmap_addr()).await;
        event(format!("port mapper returned {:?}", r.map_err(|e| e.kind())));
    });
    run_idle();
}

/// Create a link; it must work.
pub fn link(c: &Rpc) -> Result<u32, Violation> {
    match c.must(&Op::Create { lock: false, to: 0, dev: "inst0" })? {
        Res::Create { err: 0, lid, .. } => Ok(lid),
        r => bad("create", format!("a link is not created: {:?}", r)),
    }
}

/// A query over VXI-11 must work.
pub fn vxi_must_work(c: &Rpc, lid: u32, cmd: &[u8], ctx: &str) -> Verdict {
    let r = c.must(&Op::Write { lid, flags: ENDF, to: 0, data: cmd.to_vec() })?;
    if r != (Res::Write { err: 0, size: cmd.len() as u32 }) {
        return bad(format!("{} write", ctx), format!("{}: the write of \"{}\" is answered {:?}", ctx, show(cmd), r));
    }
    let r = c.must(&Op::Read { lid, flags: 0, to: 0, size: 1000, term: 0 })?;
    if r != (Res::Read { err: 0, reason: 4, data: rule(cmd).unwrap() }) {
        return bad(format!("{} read", ctx), format!("{}: the read after \"{}\" is answered {:?}", ctx, show(cmd), r));
    }
    Ok(())
}

/// Accept a connection made by the code under test, if there is one.
pub fn try_accept(l: &TcpListen) -> Option<Sock> {
    let w = futures::task::noop_waker();
    match l.poll_accept(&mut std::task::Context::from_waker(&w)) {
        std::task::Poll::Ready(Ok((s, _))) => Some(s),
        _ => None,
    }
}
