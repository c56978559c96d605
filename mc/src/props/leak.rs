//! C34: what has been served is forgotten.
use super::cross::*;
use super::faults::*;
use super::sock::*;
use crate::common::*;
use crate::dev::*;
use crate::hs;
use crate::vx;
use crate::vx::{call_bytes, record, try_accept, Op, Res, Rpc, ENDF, WAIT, X};
use lxi_device::lock::SharedLock;
use lxi_device::status::Sender;
use lxi_vxi11::server::portmapper::prelude::*;
use lxi_vxi11::server::vxi11::prelude::*;
use mcrt::net::{Sock, TcpListen, UdpSock};

/// Every server, and what announces their status.
fn start34() -> (Probe, Vec<Sender>) {
    let p = Probe::new();
    let (lock, dev) = (SharedLock::new(), p.device());
    raw_on(Default::default(), lock.clone(), dev.clone());
    unix_on(Default::default(), lock.clone(), dev.clone());
    telnet_on(Default::default(), lock.clone(), dev.clone());
    let h = hs::start_on(&p, Default::default(), lock.clone(), dev.clone());
    let v = vx::start_vxi_on(&p, lock, dev);
    vx::start_pmap([
        Mapping::new(DEVICE_CORE, DEVICE_CORE_VERSION, PORTMAPPER_PROT_TCP, vx::core_addr().port() as u32),
        Mapping::new(DEVICE_ASYNC, DEVICE_ASYNC_VERSION, PORTMAPPER_PROT_TCP, vx::async_addr().port() as u32),
    ]);
    (p, vec![h.srq, v.srq])
}

/// One visitor.
struct V {
    ep: Ep,
    s: Option<Sock>,
    asy: Option<Sock>,
    more: Vec<Sock>,
    udp: Option<UdpSock>,
    id: u32,
    lid: u32,
}

/// What a visitor does: name, complete (it leaves nothing on its connection), it waits for at
/// most a minute when another client has the lock.
type A = (&'static str, bool, bool);

const LINE: [A; 6] = [("query", true, false), ("command", true, false), ("half a query", false, true), ("three queries and a half", false, false), ("junk line", true, false), ("zero bytes", true, false)];
const TEL: [A; 8] = [
    LINE[0],
    LINE[1],
    LINE[2],
    LINE[3],
    LINE[4],
    LINE[5],
    ("negotiation", true, true),
    ("half a subnegotiation", false, true),
];
const HS: [A; 24] = [
    ("query", true, false),
    ("command", true, false),
    ("query in two messages", true, false),
    ("trigger", true, false),
    ("device clear", true, false),
    ("unknown message", true, false),
    ("maximum size", true, true),
    ("status", true, true),
    ("info", true, true),
    ("remote and local", true, false),
    ("lock and unlock", true, true),
    ("shared lock and unlock", true, true),
    ("unlock", true, true),
    ("malformed lock", true, true),
    ("lock, and wait", false, true),
    ("shared lock", false, true),
    ("AsyncDeviceClear", false, false),
    ("half a message", false, true),
    ("Data without end", false, false),
    ("half an asynchronous message", false, true),
    ("fatal error", false, false),
    ("wrong header", false, false),
    ("second asynchronous connection", false, true),
    ("huge message", false, true),
];
/// connections which get no session
const HS_OPEN: [&str; 7] = ["session", "synchronous only", "wrong device", "asynchronous, no such session", "Data first", "half an Initialize", "nothing"];
const VX: [A; 24] = [
    ("query", true, true),
    ("command", true, true),
    ("read nothing", true, true),
    ("device clear", true, true),
    ("trigger", true, true),
    ("status", true, true),
    ("another link", true, true),
    ("lock and unlock", true, true),
    ("lock twice, unlock", true, true),
    ("another link with lock", true, true),
    ("srq on and off", true, true),
    ("interrupt channel and back", true, true),
    ("srq, interrupt channel and back", true, true),
    ("wrong link and procedure", true, true),
    ("wrong device", true, true),
    ("link is destroyed twice", false, true),
    ("write without end", false, true),
    ("query, not read", false, true),
    ("lock, and wait", false, true),
    ("query, and wait", false, true),
    ("another link, left", false, true),
    ("srq and interrupt channel", false, true),
    ("half a call", false, true),
    ("huge call", false, true),
];
const ABORT: [A; 4] = [("abort", true, true), ("wrong procedure", true, true), ("half a call", false, true), ("junk", false, true)];
const PMAP: [A; 6] = [("getport", true, true), ("dump", true, true), ("set, unset", true, true), ("wrong procedure", true, true), ("half a call", false, true), ("junk", false, true)];

fn acts(ep: Ep) -> &'static [A] {
    match ep {
        Ep::P(P::Raw | P::Unix) => &LINE,
        Ep::P(P::Tel) => &TEL,
        Ep::P(P::Hs) => &HS,
        Ep::P(P::Vx) => &VX,
        Ep::Abort => &ABORT,
        Ep::Pmap => &PMAP,
        Ep::Udp => &PMAP,
    }
}

impl V {
    fn open(ep: Ep, how: usize) -> Result<V, Violation> {
        let mut v = V { ep, s: None, asy: None, more: Vec::new(), udp: None, id: 0, lid: 0 };
        if ep == Ep::Udp {
            v.udp = Some(UdpSock::bind("127.0.0.1:0".parse().unwrap()).unwrap());
            return Ok(v);
        }
        let conn = || net::connect(ep.addr()).map_err(|_| Violation { sig: "refused".into(), msg: format!("{} does not accept connections any more", ep.name()) });
        let s = conn()?;
        match ep {
            Ep::P(P::Hs) => {
                let init = hs::msg(hs::INIT, 0, (hs::V1 as u32) << 16 | 0x5858, if how == 2 { b"hislip7" } else { b"hislip0" }).enc();
                match how {
                    0 | 1 | 2 => s.send(&init),
                    3 => s.send(&hs::msg(hs::AINIT, 0, 0xabcd, b"").enc()),
                    4 => s.send(&hs::msg(hs::END, 0, 0, b"qd").enc()),
                    5 => s.send(&init[..9]),
                    _ => {}
                }
                run_idle();
                if how == 0 {
                    let c = hs::Conn::of(s);
                    let r = c.msgs();
                    if r.len() != 1 || r[0].typ != hs::INIT_R {
                        return bad("open", format!("Initialize is answered by [{}]", hs::texts(&r)));
                    }
                    v.id = r[0].param & 0xffff;
                    let a = conn()?;
                    a.send(&hs::msg(hs::AINIT, 0, v.id, b"").enc());
                    run_idle();
                    v.asy = Some(a);
                    v.s = Some(c.s);
                    return Ok(v);
                }
            }
            Ep::P(P::Vx) => {
                if how == 0 {
                    let r = Rpc::of(s, vx::CORE, 1);
                    v.lid = vx::link(&r)?;
                    v.s = Some(r.s);
                    return Ok(v);
                }
            }
            _ => {}
        }
        v.s = Some(s);
        run_idle();
        Ok(v)
    }

    /// Take what the server sends.
    fn drain(&self) {
        for s in self.s.iter().chain(&self.asy).chain(&self.more) {
            loop {
                run_idle();
                if s.recv().is_empty() {
                    break;
                }
            }
        }
        if let Some(u) = &self.udp {
            while u.try_recv().is_some() {}
        }
    }

    fn act(&mut self, k: usize) -> Verdict {
        let name = acts(self.ep)[k].0;
        let send = |b: &[u8]| self.s.as_ref().unwrap().send(b);
        match self.ep {
            Ep::P(w @ (P::Raw | P::Unix | P::Tel)) => {
                let eol: &[u8] = if w == P::Tel { b"\r\n" } else { b"\n" };
                match name {
                    "query" => send(&[b"qv", eol].concat()),
                    "command" => send(&[b"v", eol].concat()),
                    "half a query" => send(b"qha"),
                    "three queries and a half" => send(&[b"q1", eol, b"q2", eol, b"q3", eol, b"q4"].concat()),
                    "junk line" => send(&[&[0x80u8, 0xc0, 0xfe, 0x1b, 0xf5, 0x07, 0x7f][..], eol].concat()),
                    "zero bytes" => send(&[&[0u8; 300][..], eol].concat()),
                    "negotiation" => send(b"\xff\xfd\x01\xff\xfe\x01\xff\xfb\x1f\xff\xfc\x1f\xff\xfa\x18\x00vt\xff\xf0\xff\xf1"),
                    "half a subnegotiation" => send(b"\xff\xfa\x18\x00v"),
                    _ => unreachable!(),
                }
            }
            Ep::P(P::Hs) => {
                let sy = |t: u8, c: u8, p: u32, b: &[u8]| send(&hs::msg(t, c, p, b).enc());
                let asy = |t: u8, c: u8, p: u32, b: &[u8]| self.asy.as_ref().unwrap().send(&hs::msg(t, c, p, b).enc());
                match name {
                    "query" => sy(hs::END, 0, 0x10, b"qv"),
                    "command" => sy(hs::END, 0, 0x12, b"v"),
                    "query in two messages" => {
                        sy(hs::DATA, 0, 0x14, b"q");
                        sy(hs::END, 0, 0x16, b"v");
                    }
                    "trigger" => sy(hs::TRIGGER, 0, 0x18, b""),
                    "device clear" => {
                        asy(hs::CLEAR, 0, 0, b"");
                        run_idle();
                        sy(hs::CLR_COMPLETE, 0, 0, b"");
                    }
                    "unknown message" => {
                        sy(100, 0, 0, b"abc");
                        asy(101, 0, 0, b"abc");
                    }
                    "maximum size" => asy(hs::MAXSIZE, 0, 0, &1000u64.to_be_bytes()),
                    "status" => asy(hs::STATUS, 0, 0x10, b""),
                    "info" => asy(hs::INFO, 0, 0, b""),
                    "remote and local" => {
                        asy(hs::REMOTE, 1, 0, b"");
                        asy(hs::REMOTE, 0, 0, b"");
                    }
                    "lock and unlock" => {
                        asy(hs::LOCK, 1, 0, b"");
                        asy(hs::LOCK, 0, 0, b"");
                    }
                    "shared lock and unlock" => {
                        asy(hs::LOCK, 1, 0, b"k");
                        asy(hs::LOCK, 0, 0, b"");
                    }
                    "unlock" => asy(hs::LOCK, 0, 0, b""),
                    "malformed lock" => asy(hs::LOCK, 1, 0, &[0xff, 0xfe]),
                    "lock, and wait" => asy(hs::LOCK, 1, 60000, b""),
                    "shared lock" => asy(hs::LOCK, 1, 0, b"k"),
                    "AsyncDeviceClear" => asy(hs::CLEAR, 0, 0, b""),
                    "half a message" => send(&hs::msg(hs::END, 0, 0x20, b"qhalf").enc()[..18]),
                    "Data without end" => sy(hs::DATA, 0, 0x22, b"qdata"),
                    "half an asynchronous message" => self.asy.as_ref().unwrap().send(&hs::msg(hs::LOCK, 1, 0, b"key").enc()[..17]),
                    "fatal error" => sy(hs::FATAL, 0, 0, b"end"),
                    "wrong header" => send(b"XXXXXXXXXXXXXXXX"),
                    "second asynchronous connection" => {
                        let c = net::connect(hs::addr()).unwrap();
                        c.send(&hs::msg(hs::AINIT, 0, self.id, b"").enc());
                        self.more.push(c);
                    }
                    "huge message" => {
                        let mut b = hs::msg(hs::END, 0, 0x24, b"").enc();
                        b[8..16].copy_from_slice(&(1u64 << 40).to_be_bytes());
                        send(&b);
                    }
                    _ => unreachable!(),
                }
            }
            Ep::P(P::Vx) => {
                let lid = self.lid;
                let call = |o: Op| {
                    let (p, a) = o.enc();
                    send(&record(&call_bytes(7, vx::CORE, 1, p, &a.0)));
                };
                let write = |flags, to, d: &[u8]| call(Op::Write { lid, flags, to, data: d.to_vec() });
                let read = || call(Op::Read { lid, flags: 0, to: 0, size: 100, term: 0 });
                let intr = || call(Op::CreateIntr { host: 0x7f00_0001, port: 7000, prog: vx::INTR, vers: 1, udp: 0 });
                // create a link and use its id
                let link = |lock: bool| {
                    run_idle();
                    let s = self.s.as_ref().unwrap();
                    s.recv();
                    call(Op::Create { lock, to: 0, dev: "inst0" });
                    run_idle();
                    let b = s.recv();
                    if b.len() < 36 {
                        return 0;
                    }
                    u32::from_be_bytes(b[32..36].try_into().unwrap())
                };
                match name {
                    "query" => {
                        write(ENDF, 0, b"qv");
                        read();
                    }
                    "command" => write(ENDF, 0, b"v"),
                    "read nothing" => read(),
                    "device clear" => call(Op::Clear { lid, flags: 0, to: 0 }),
                    "trigger" => call(Op::Trigger { lid, flags: 0, to: 0 }),
                    "status" => call(Op::Stb { lid, flags: 0, to: 0 }),
                    "another link" => {
                        let l = link(false);
                        call(Op::Write { lid: l, flags: 0, to: 0, data: b"qleft".to_vec() });
                        call(Op::Destroy { lid: l });
                    }
                    "lock and unlock" => {
                        call(Op::Lock { lid, flags: 0, to: 0 });
                        call(Op::Unlock { lid });
                    }
                    "lock twice, unlock" => {
                        call(Op::Lock { lid, flags: 0, to: 0 });
                        call(Op::Lock { lid, flags: 0, to: 0 });
                        call(Op::Unlock { lid });
                    }
                    "another link with lock" => {
                        let l = link(true);
                        call(Op::Destroy { lid: l });
                    }
                    "srq on and off" => {
                        call(Op::Srq { lid, on: true, handle: b"h".to_vec() });
                        call(Op::Srq { lid, on: false, handle: b"h".to_vec() });
                    }
                    "interrupt channel and back" => {
                        intr();
                        call(Op::DestroyIntr);
                    }
                    "srq, interrupt channel and back" => {
                        call(Op::Srq { lid, on: true, handle: b"h".to_vec() });
                        intr();
                        call(Op::DestroyIntr);
                        call(Op::Srq { lid, on: false, handle: b"h".to_vec() });
                    }
                    "wrong link and procedure" => {
                        call(Op::Read { lid: 0x7fff_0000, flags: 0, to: 0, size: 100, term: 0 });
                        call(Op::Unlock { lid: 0x7fff_0001 });
                        send(&record(&call_bytes(8, vx::CORE, 1, 99, b"")));
                    }
                    "wrong device" => call(Op::Create { lock: true, to: 0, dev: "inst7" }),
                    "link is destroyed twice" => {
                        call(Op::Destroy { lid });
                        call(Op::Destroy { lid });
                    }
                    "write without end" => write(0, 0, b"qpart"),
                    "query, not read" => write(ENDF, 0, b"qunread"),
                    "lock, and wait" => call(Op::Lock { lid, flags: WAIT, to: 60000 }),
                    "query, and wait" => write(ENDF | WAIT, 60000, b"qwait"),
                    "another link, left" => {
                        link(false);
                    }
                    "srq and interrupt channel" => {
                        call(Op::Srq { lid, on: true, handle: b"h".to_vec() });
                        intr();
                    }
                    "half a call" => {
                        let (p, a) = Op::Write { lid, flags: ENDF, to: 0, data: b"qhalf".to_vec() }.enc();
                        let b = record(&call_bytes(7, vx::CORE, 1, p, &a.0));
                        send(&b[..b.len() / 2]);
                    }
                    "huge call" => send(&[0xff; 40]),
                    _ => unreachable!(),
                }
            }
            Ep::Abort => {
                let b = record(&call_bytes(7, vx::ASYNC, 1, 1, &X::new().u(0x7fff_fff0).0));
                match name {
                    "abort" => send(&b),
                    "wrong procedure" => send(&record(&call_bytes(7, vx::ASYNC, 1, 9, b""))),
                    "half a call" => send(&b[..20]),
                    _ => send(&[0xff; 40]),
                }
            }
            Ep::Pmap | Ep::Udp => {
                let mapping = X::new().u(0x2000_0001).u(1).u(6).u(3333).0;
                let v: Vec<Vec<u8>> = match name {
                    "getport" => vec![call_bytes(7, vx::PMAP, 2, 3, &getport())],
                    "dump" => vec![call_bytes(7, vx::PMAP, 2, 4, b"")],
                    "set, unset" => vec![call_bytes(7, vx::PMAP, 2, 1, &mapping), call_bytes(7, vx::PMAP, 2, 2, &mapping)],
                    "wrong procedure" => vec![call_bytes(7, vx::PMAP, 2, 9, b""), call_bytes(7, vx::PMAP, 9, 1, b"")],
                    "half a call" => vec![call_bytes(7, vx::PMAP, 2, 3, &getport())[..30].to_vec()],
                    _ => vec![vec![0xff; 40]],
                };
                for b in v {
                    if let Some(u) = &self.udp {
                        let _ = u.send_to(&b, vx::pmap_addr());
                    } else if name == "half a call" || name == "junk" {
                        send(&b);
                    } else {
                        send(&record(&b));
                    }
                }
            }
        }
        run_idle();
        self.drain();
        no_trouble()
    }

    /// 0 close, 1 reset, 2 half-close, 3 the asynchronous connection first
    fn end(mut self, kind: usize) {
        let mut v: Vec<Sock> = self.s.take().into_iter().chain(self.asy.take()).chain(self.more.drain(..)).collect();
        if kind == 3 {
            v.reverse();
        }
        for s in v {
            end_sock(s, kind % 3);
            if kind == 3 {
                run_idle();
            }
        }
        run_idle();
    }
}

/// A client that has a lock while the others come and go.
fn owner(k: usize) -> Result<Option<hs::Sess>, Violation> {
    if k == 0 {
        return Ok(None);
    }
    let s = hs::open(hs::V1)?;
    s.asy.send(hs::LOCK, 1, 0, if k == 1 { b"" } else { b"k" });
    let r = s.asy.idle();
    if r.len() != 1 || r[0].ctrl != 1 {
        return bad("setup lock", "a free lock is refused");
    }
    Ok(Some(s))
}

const WINDOW: usize = 40;
const ROUNDS: usize = 200;

/// Of the rounds, the memory in the last 40 is not always more than in the 20th to 60th.
struct Growth {
    first: i64,
    last: i64,
}

impl Growth {
    fn new() -> Growth {
        Growth { first: i64::MIN, last: i64::MAX }
    }
    fn round(&mut self, i: usize) {
        let n = crate::live_bytes();
        if i >= 20 && i < 20 + WINDOW {
            self.first = self.first.max(n);
        }
        if i >= ROUNDS - WINDOW {
            self.last = self.last.min(n);
        }
    }
    fn judge(&self, ctx: &str) -> Verdict {
        let more = self.last - self.first;
        if more > 0 {
            return bad(
                format!("memory {}", ctx),
                format!("{}: the servers hold at least {} bytes more in the last of {} rounds than in the first ones ({} per round)", ctx, more, ROUNDS, more / (ROUNDS - 20 - WINDOW) as i64),
            );
        }
        Ok(())
    }
}

fn finish(o: Option<hs::Sess>, ok: usize, base: usize, ctx: &str) -> Verdict {
    no_trouble()?;
    let left = mcrt::alive_tasks();
    if left != base {
        return bad(format!("tasks {}", ctx), format!("{}: {} tasks of clients which have gone are left", ctx, left as i64 - base as i64));
    }
    if let Some(s) = o {
        hs::must_work(&s, b"qo", ctx)?;
        s.asy.msgs();
        s.asy.send(hs::LOCK, 0, 0, b"");
        let r = s.asy.idle();
        // released: 1 exclusive, 2 shared
        if r.iter().filter(|m| m.typ == hs::LOCK_R).map(|m| m.ctrl as usize).collect::<Vec<_>>() != [ok] {
            return bad(format!("owner {}", ctx), format!("{}: the client that kept the lock releases it: [{}]", ctx, hs::texts(&r)));
        }
    }
    everything_works(ctx)
}

fn picks(m: &[A], n: usize, kept: bool, locked: bool) -> Vec<usize> {
    let ok: Vec<usize> = (0..m.len()).filter(|k| (!kept || m[*k].1) && (!locked || m[*k].2)).collect();
    let mut v = Vec::new();
    for _ in 0..n {
        // the last choice: nothing more
        let k = choose(ok.len() + 1, "action");
        if k == ok.len() {
            break;
        }
        v.push(ok[k]);
        // what follows would belong to it
        if ["half", "huge", "wrong header"].iter().any(|n| m[ok[k]].0.starts_with(n)) {
            break;
        }
    }
    v
}

fn names(ep: Ep, v: &[usize]) -> String {
    v.iter().map(|k| acts(ep)[*k].0).collect::<Vec<_>>().join("; ")
}

/// Clients come, do something, and go.
fn visits34(ep: Ep, n: usize) -> Verdict {
    let hs = ep == Ep::P(P::Hs);
    let how = if hs { choose(HS_OPEN.len(), "how") } else { 0 };
    let end = choose(if ep == Ep::Udp { 1 } else if hs && how == 0 { 4 } else { 3 }, "end");
    let ok = choose(3, "owner");
    let announce = choose(2, "announce") == 1;
    let v = if how == 0 { picks(acts(ep), n, false, ok != 0) } else { Vec::new() };
    let ctx = format!(
        "{} clients after each other {}{}[{}], {}{}{}",
        ep.name(),
        if hs { HS_OPEN[how] } else { "" },
        if hs { " " } else { "" },
        names(ep, &v),
        ["closing", "resetting", "half-closing", "closing the asynchronous connection first"][end],
        ["", ", while another has the exclusive lock", ", while another has a shared lock"][ok],
        if announce { ", status announced" } else { "" },
    );
    let sg = |x: Violation| Violation { sig: format!("{} {}", x.sig, ctx), msg: format!("{}: {}", ctx, x.msg) };
    let (p, mut tx) = start34();
    let intr = TcpListen::bind("127.0.0.1:7000".parse().unwrap()).unwrap();
    let o = owner(ok)?;
    let base = mcrt::alive_tasks();
    let mut g = Growth::new();
    for i in 0..ROUNDS {
        let mut c = V::open(ep, how).map_err(sg)?;
        for k in &v {
            c.act(*k).map_err(sg)?;
        }
        let mut ss = Vec::new();
        while let Some(s) = try_accept(&intr) {
            ss.push(s);
        }
        if announce {
            tx.iter_mut().for_each(|t| t.send_status(0x40));
            run_idle();
            c.drain();
        }
        if i % 2 == 1 {
            ss.clear();
        }
        c.end(end);
        drop(ss);
        if ok != 0 {
            run_for(61 * SEC);
        }
        run_idle();
        if let Some(s) = &o {
            s.asy.msgs();
            s.sync.msgs();
        }
        p.take();
        g.round(i);
    }
    run_for(61 * SEC);
    g.judge(&ctx)?;
    finish(o, ok, base, &ctx)
}

/// One client repeats complete operations.
fn kept34(ep: Ep, n: usize) -> Verdict {
    let ok = if matches!(ep, Ep::P(P::Raw | P::Unix | P::Tel)) { 0 } else { choose(3, "owner") };
    let announce = choose(2, "announce") == 1;
    let v = picks(acts(ep), n, true, ok != 0);
    let ctx = format!(
        "one {} client repeats [{}]{}{}",
        ep.name(),
        names(ep, &v),
        ["", ", while another has the exclusive lock", ", while another has a shared lock"][ok],
        if announce { ", status announced" } else { "" },
    );
    let sg = |x: Violation| Violation { sig: format!("{} {}", x.sig, ctx), msg: format!("{}: {}", ctx, x.msg) };
    let (p, mut tx) = start34();
    let intr = TcpListen::bind("127.0.0.1:7000".parse().unwrap()).unwrap();
    let o = owner(ok)?;
    let base = mcrt::alive_tasks();
    let mut c = V::open(ep, 0).map_err(sg)?;
    let one = mcrt::alive_tasks();
    let mut g = Growth::new();
    for i in 0..ROUNDS {
        for k in &v {
            c.act(*k).map_err(sg)?;
        }
        while try_accept(&intr).is_some() {}
        if announce {
            tx.iter_mut().for_each(|t| t.send_status(0x40));
            run_idle();
            c.drain();
        }
        if let Some(s) = &o {
            s.asy.msgs();
            s.sync.msgs();
        }
        run_idle();
        p.take();
        g.round(i);
    }
    g.judge(&ctx)?;
    let now = mcrt::alive_tasks();
    if now > one {
        return bad(format!("tasks {}", ctx), format!("{}: {} tasks more than at first", ctx, now - one));
    }
    if c.s.as_ref().map_or(false, |s| s.peer_closed()) {
        return bad(format!("closed {}", ctx), format!("{}: the server closes the connection", ctx));
    }
    c.end(0);
    run_for(61 * SEC);
    finish(o, ok, base, &ctx)
}

pub fn c34() -> Vec<Scenario> {
    let mut v = Vec::new();
    for ep in EPS {
        let n = match ep {
            Ep::P(P::Hs | P::Vx) => q(2, 3),
            _ => q(3, 4),
        };
        v.push(
            Scenario::new(
                format!("visits-{}", ep.name()),
                format!("200 clients after each other: every sequence of up to {} actions (of {}), every end, with and without another client's lock and status announcements; memory, tasks and connections", n, acts(ep).len()),
                move || visits34(ep, n),
            )
            .steps(4_000_000),
        );
        v.push(
            Scenario::new(format!("kept-{}", ep.name()), format!("one client repeats every sequence of up to {} complete actions 200 times; memory and tasks", n + 1), move || kept34(ep, n + 1))
                .steps(4_000_000),
        );
    }
    v
}
