//! A HiSLIP client of the harness, written from the protocol standard.
use crate::common::*;
use crate::dev::*;
use futures::task::{FutureObj, Spawn, SpawnError};
use lxi_device::lock::{SharedLock, SpinMutex};
use lxi_device::status::Sender;
use lxi_hislip::server::{ServerBuilder, ServerConfig};
use mcrt::net::Sock;
use std::cell::RefCell;
use std::net::SocketAddr;
use std::sync::Arc;

pub fn addr() -> SocketAddr {
    "127.0.0.1:4880".parse().unwrap()
}

pub const INIT: u8 = 0;
pub const INIT_R: u8 = 1;
pub const FATAL: u8 = 2;
pub const ERROR: u8 = 3;
pub const LOCK: u8 = 4;
pub const LOCK_R: u8 = 5;
pub const DATA: u8 = 6;
pub const END: u8 = 7;
pub const CLR_COMPLETE: u8 = 8;
pub const CLR_ACK: u8 = 9;
pub const REMOTE: u8 = 10;
pub const REMOTE_R: u8 = 11;
pub const TRIGGER: u8 = 12;
pub const MAXSIZE: u8 = 15;
pub const MAXSIZE_R: u8 = 16;
pub const AINIT: u8 = 17;
pub const AINIT_R: u8 = 18;
pub const CLEAR: u8 = 19;
pub const SRQ: u8 = 20;
pub const STATUS: u8 = 21;
pub const STATUS_R: u8 = 22;
pub const CLEAR_R: u8 = 23;
pub const INFO: u8 = 24;
pub const INFO_R: u8 = 25;

#[derive(Clone, PartialEq, Debug)]
pub struct Msg {
    pub typ: u8,
    pub ctrl: u8,
    pub param: u32,
    pub payload: Vec<u8>,
}

pub fn msg(typ: u8, ctrl: u8, param: u32, payload: &[u8]) -> Msg {
    Msg { typ, ctrl, param, payload: payload.to_vec() }
}

impl Msg {
    pub fn enc(&self) -> Vec<u8> {
        let mut v = vec![b'H', b'S', self.typ, self.ctrl];
        v.extend(self.param.to_be_bytes());
        v.extend((self.payload.len() as u64).to_be_bytes());
        v.extend(&self.payload);
        v
    }
    /// printable; the text of error messages is not significant
    pub fn text(&self) -> String {
        if self.typ == FATAL || self.typ == ERROR {
            format!("{} code {}", if self.typ == FATAL { "FatalError" } else { "Error" }, self.ctrl)
        } else {
            format!("type {} control {} parameter {:#x} \"{}\"", self.typ, self.ctrl, self.param, show(&self.payload))
        }
    }
}

pub fn texts(m: &[Msg]) -> String {
    m.iter().map(|m| m.text()).collect::<Vec<_>>().join("; ")
}

/// One connection.
pub struct Conn {
    pub s: Sock,
    buf: RefCell<Vec<u8>>,
}

impl Conn {
    pub fn new() -> Conn {
        Conn::of(net::connect(addr()).unwrap())
    }
    pub fn of(s: Sock) -> Conn {
        Conn { s, buf: RefCell::new(Vec::new()) }
    }
    pub fn send(&self, typ: u8, ctrl: u8, param: u32, payload: &[u8]) {
        self.s.send(&msg(typ, ctrl, param, payload).enc())
    }
    fn parse(&self) -> Vec<Msg> {
        let mut b = self.buf.borrow_mut();
        let mut out = Vec::new();
        loop {
            if b.len() < 16 {
                break;
            }
            if &b[..2] != b"HS" {
                out.push(msg(255, 255, 0, &b));
                b.clear();
                break;
            }
            let n = u64::from_be_bytes(b[8..16].try_into().unwrap()) as usize;
            if b.len() < 16 + n {
                break;
            }
            out.push(Msg { typ: b[2], ctrl: b[3], param: u32::from_be_bytes(b[4..8].try_into().unwrap()), payload: b[16..16 + n].to_vec() });
            b.drain(..16 + n);
        }
        out
    }
    /// All complete messages received so far.
    pub fn msgs(&self) -> Vec<Msg> {
        let r = self.s.recv();
        self.buf.borrow_mut().extend(r);
        self.parse()
    }
    /// Run the system and take what arrives.
    pub fn idle(&self) -> Vec<Msg> {
        run_idle();
        self.msgs()
    }
    /// Keep reading until the server has nothing more to send.
    pub fn drain(&self) -> Vec<Msg> {
        self.drain_slowly(0)
    }
    /// What there is, and again after a pause, until nothing comes
    pub fn drain_slowly(&self, ms: u64) -> Vec<Msg> {
        let mut v = Vec::new();
        loop {
            pause(ms);
            let r = self.s.recv();
            if r.is_empty() {
                break;
            }
            self.buf.borrow_mut().extend(r);
            v.extend(self.parse());
        }
        v
    }
    /// Bytes of an incomplete message
    pub fn rest(&self) -> Vec<u8> {
        self.buf.borrow().clone()
    }
    pub fn closed(&self) -> bool {
        self.s.peer_closed()
    }
    /// Next message, for client tasks. None at the end of the stream.
    pub async fn next(&self) -> Option<Msg> {
        loop {
            let need = {
                let b = self.buf.borrow();
                if b.len() < 16 {
                    16 - b.len()
                } else {
                    let n = u64::from_be_bytes(b[8..16].try_into().unwrap()) as usize;
                    (16 + n).saturating_sub(b.len())
                }
            };
            if need == 0 {
                let mut b = self.buf.borrow_mut();
                let n = u64::from_be_bytes(b[8..16].try_into().unwrap()) as usize;
                let m = Msg { typ: b[2], ctrl: b[3], param: u32::from_be_bytes(b[4..8].try_into().unwrap()), payload: b[16..16 + n].to_vec() };
                b.drain(..16 + n);
                return Some(m);
            }
            match self.s.read_some(need).await {
                Ok(r) if !r.is_empty() => self.buf.borrow_mut().extend(r),
                _ => return None,
            }
        }
    }
}

pub struct Sess {
    pub id: u16,
    pub sync: Conn,
    pub asy: Conn,
}

pub struct Server {
    pub probe: Probe,
    pub lock: Arc<SpinMutex<SharedLock>>,
    pub dev: Arc<futures::lock::Mutex<TDev>>,
    pub srq: Sender,
}

pub struct Sp;
impl Spawn for Sp {
    fn spawn_obj(&self, f: FutureObj<'static, ()>) -> Result<(), SpawnError> {
        mcrt::spawn(f).detach();
        Ok(())
    }
}

pub fn start(probe: &Probe, cfg: ServerConfig) -> Server {
    let lock = SharedLock::new();
    start_on(probe, cfg, lock, probe.device())
}

pub fn start_on(probe: &Probe, cfg: ServerConfig, lock: Arc<SpinMutex<SharedLock>>, dev: Arc<futures::lock::Mutex<TDev>>) -> Server {
    let srq = Sender::new();
    let s = srq.clone();
    let srv = ServerBuilder::new(cfg).device("hislip0".to_string(), dev.clone(), lock.clone()).build();
    mcrt::spawn_named("hislip server", async move {
        let r = srv.accept(addr(), s, Sp).await;
        event(format!("hislip server returned {:?}", r.map_err(|e| e.kind())));
    });
    run_idle();
    Server { probe: probe.clone(), lock, dev, srq }
}

pub const V1: u16 = 0x100;
pub const V2: u16 = 0x200;

/// Open a session; every step is checked.
pub fn open(proto: u16) -> Result<Sess, Violation> {
    let sync = Conn::new();
    sync.send(INIT, 0, (proto as u32) << 16 | 0x5858, b"hislip0");
    let r = sync.idle();
    no_trouble()?;
    if r.len() != 1 || r[0].typ != INIT_R || (r[0].param >> 16) as u16 != proto.min(V2) {
        return bad("open sync", format!("Initialize (version {:#x}) answered by [{}]", proto, texts(&r)));
    }
    let id = r[0].param as u16;
    let asy = Conn::new();
    asy.send(AINIT, 0, id as u32, b"");
    let r = asy.idle();
    no_trouble()?;
    if r.len() != 1 || r[0].typ != AINIT_R {
        return bad("open async", format!("AsyncInitialize of session {} answered by [{}]", id, texts(&r)));
    }
    Ok(Sess { id, sync, asy })
}

/// One query on the synchronous channel, fully answered.
pub fn query(s: &Conn, id: u32, cmd: &[u8]) -> Result<Vec<Msg>, Violation> {
    s.send(END, 0, id, cmd);
    let r = s.drain();
    no_trouble()?;
    Ok(r)
}

/// The response a list of messages carries: data up to DataEnd, all with the id of the command.
pub fn response(r: &[Msg], id: u32, max: usize) -> Result<Vec<u8>, String> {
    let mut out = Vec::new();
    for (i, m) in r.iter().enumerate() {
        let last = i + 1 == r.len();
        if m.typ != if last { END } else { DATA } {
            return Err(format!("message {} of {} is {}", i + 1, r.len(), m.text()));
        }
        if m.param != id {
            return Err(format!("message {} has id {:#x} instead of {:#x}", i + 1, m.param, id));
        }
        if m.payload.len() > max {
            return Err(format!("message {} carries {} bytes, the client accepts {}", i + 1, m.payload.len(), max));
        }
        out.extend(&m.payload);
    }
    Ok(out)
}

/// A simple query must work on this session.
pub fn must_work(s: &Sess, cmd: &[u8], ctx: &str) -> Verdict {
    let r = query(&s.sync, 0xfffe, cmd)?;
    let want = rule(cmd).unwrap();
    match response(&r, 0xfffe, 256) {
        Ok(x) if x == want && !r.is_empty() => Ok(()),
        Ok(x) => bad(format!("{} answer", ctx), format!("{}: the query \"{}\" is answered by \"{}\"", ctx, show(cmd), show(&x))),
        Err(e) => bad(format!("{} answer", ctx), format!("{}: the query \"{}\" is answered wrongly: {}", ctx, show(cmd), e)),
    }
}
