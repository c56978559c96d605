//! C32, C33: connection limits; several devices behind one server.
use super::cross::*;
use super::faults::*;
use super::lock::Model;
use super::sock::*;
use super::vxi::Shared;
use crate::common::*;
use crate::dev::*;
use crate::hs;
use crate::vx;
use crate::vx::{Op, Res, Rpc, ENDF};
use lxi_device::lock::{LockHandle, SharedLock};
use lxi_device::trigger::Source;
use lxi_device::{Device, DeviceError};
use mcrt::net::Sock;
use std::sync::Arc;

// ------------------------------------------------------------------ C32

fn limited(w: P, l: usize, p: &Probe) {
    let (lock, d) = (SharedLock::new(), p.device());
    let sc = lxi_socket::server::ServerConfig::default().backpressure(l);
    match w {
        P::Raw => raw_on(sc, lock, d),
        P::Unix => unix_on(sc, lock, d),
        _ => telnet_on(lxi_telnet::server::ServerConfig::default().backpressure(l), lock, d),
    }
}

struct Lc {
    s: Option<Sock>,
    /// what it has sent
    cmds: Vec<Vec<u8>>,
    got: Vec<u8>,
    /// how it ended: 0 close, 1 reset, 2 half-close
    ended: Option<usize>,
    /// it has been served
    active: bool,
}

struct Lw {
    w: P,
    l: usize,
    p: Probe,
    c: Vec<Lc>,
    seq: usize,
    trace: Vec<String>,
}

impl Lw {
    fn eol(&self) -> &'static [u8] {
        if self.w == P::Tel {
            b"\r\n"
        } else {
            b"\n"
        }
    }
    fn connect(&mut self) {
        self.c.push(Lc { s: Some(line_connect(self.w)), cmds: Vec::new(), got: Vec::new(), ended: None, active: false });
    }
    fn query(&mut self, i: usize) {
        self.seq += 1;
        let cmd = format!("q{}", self.seq).into_bytes();
        self.c[i].s.as_ref().unwrap().send(&[&cmd[..], self.eol()].concat());
        self.c[i].cmds.push(cmd);
    }
    fn end(&mut self, i: usize, k: usize) {
        self.c[i].ended = Some(k);
        match k {
            0 => self.c[i].s = None,
            1 => self.c[i].s.take().unwrap().reset(),
            _ => drop(self.c[i].s.as_ref().unwrap().shutdown_write()),
        }
    }
    fn alive(&self) -> usize {
        self.c.iter().filter(|c| c.ended.is_none()).count()
    }
    /// Nothing moves any more: exactly the first ones are served.
    fn judge(&mut self) -> Verdict {
        run_idle();
        no_trouble()?;
        let mut n = 0;
        for c in &mut self.c {
            if n < self.l {
                c.active = true;
                if c.ended.is_none() {
                    n += 1;
                }
            }
        }
        let t = self.trace.join("; ");
        let ex = self.p.execs();
        let eol = self.eol();
        for (i, c) in self.c.iter_mut().enumerate() {
            for q in &c.cmds {
                let n = ex.iter().filter(|e| *e == q).count();
                if n > 1 || n == 1 && !c.active {
                    return bad(
                        format!("executed {:?} {} {}", self.w, self.l, t),
                        format!("{:?} server for {} clients, after [{}]: \"{}\" of client {} ({}) is executed {} times", self.w, self.l, t, show(q), i, if c.active { "served" } else { "beyond the limit" }, n),
                    );
                }
            }
            let Some(s) = &c.s else { continue };
            c.got.extend(s.recv());
            let text = if self.w == P::Tel { strip_prompts(&strip_telnet(&c.got).0, true) } else { c.got.clone() };
            let want: Vec<u8> = if c.active { c.cmds.iter().flat_map(|q| [&rule(q).unwrap()[..], eol].concat()).collect() } else { Vec::new() };
            if text != want || c.ended.is_none() && s.peer_closed() {
                return bad(
                    format!("served {:?} {} {}", self.w, self.l, t),
                    format!("{:?} server for {} clients, after [{}]: client {} ({}) sees \"{}\" instead of \"{}\"{}", self.w, self.l, t, i, if c.active { "to be served" } else { "beyond the limit" }, show(&text), show(&want), if s.peer_closed() { ", and is closed" } else { "" }),
                );
            }
        }
        Ok(())
    }
}

fn limit32(w: P, depth: usize) -> Verdict {
    let l = 1 + choose(3, "limit");
    let p = Probe::new();
    limited(w, l, &p);
    let mut x = Lw { w, l, p, c: Vec::new(), seq: 0, trace: Vec::new() };
    let base = mcrt::alive_tasks();
    for _ in 0..l {
        x.connect();
    }
    x.judge()?;
    for _ in 0..depth {
        let mut m: Vec<(usize, usize)> = Vec::new();
        if x.alive() < l + 2 {
            m.push((0, 0));
        }
        for i in 0..x.c.len() {
            if x.c[i].ended.is_none() {
                m.push((1, i));
                m.extend((2..5).map(|k| (k, i)));
            }
        }
        let (a, i) = m[choose(m.len(), "action")];
        x.trace.push(match a {
            0 => "connect".to_string(),
            1 => format!("query by {}", i),
            k => format!("{} {}", ["close", "reset", "half-close"][k - 2], i),
        });
        match a {
            0 => x.connect(),
            1 => x.query(i),
            k => x.end(i, k - 2),
        }
        // the next step may come at once
        if choose(2, "at once") == 0 {
            x.judge()?;
        }
    }
    x.judge()?;
    // all leave; then the limit is what it was
    for i in 0..x.c.len() {
        if x.c[i].ended.is_none() {
            x.query(i);
            x.judge()?;
            x.end(i, i % 3);
            x.judge()?;
        }
    }
    let left = mcrt::alive_tasks();
    if left != base {
        return bad(format!("tasks {:?} {}", w, x.trace.join("; ")), format!("{:?} server for {} clients, after [{}]: {} tasks of clients which have gone are left", w, l, x.trace.join("; "), left as i64 - base as i64));
    }
    x.trace.push("all leave".into());
    for _ in 0..l + 1 {
        x.connect();
        let i = x.c.len() - 1;
        x.query(i);
        x.judge()?;
    }
    Ok(())
}

/// Clients that come, ask and go at the same time.
fn race32(w: P) -> Verdict {
    let l = 1 + choose(2, "limit");
    let p = Probe::new();
    limited(w, l, &p);
    let ends: Vec<usize> = (0..3).map(|_| choose(3, "end")).collect();
    mcrt::set_explore(true, true, true, false);
    let mut hs = Vec::new();
    for (i, e) in ends.iter().copied().enumerate() {
        let s = Shared(line_connect(w));
        hs.push(mcrt::spawn_client(&format!("client{}", i), async move {
            let s = { s }.0;
            let c = Cl::Line { s, tel: w == P::Tel, buf: Vec::new() };
            let r = query_task(&c, format!("q{}", i).as_bytes(), true).await;
            let Cl::Line { s, .. } = c else { unreachable!() };
            end_sock(s, e);
            r
        }));
    }
    run_idle();
    mcrt::explore_off();
    no_trouble()?;
    let ctx = format!("{:?} server for {} clients, 3 clients which end {:?}", w, l, ends);
    for (i, h) in hs.iter().enumerate() {
        match h.try_take() {
            Some(Ok(true)) => {}
            r => return bad(format!("race {}", ctx), format!("{}: client {}: {:?}", ctx, i, r)),
        }
    }
    let mut x = Lw { w, l, p, c: Vec::new(), seq: 10, trace: vec![ctx] };
    for _ in 0..l + 1 {
        x.connect();
        let i = x.c.len() - 1;
        x.query(i);
        x.judge()?;
    }
    Ok(())
}

/// Connections that fail before they are served take no place.
fn faults32(w: P) -> Verdict {
    let l = 1 + choose(3, "limit");
    let p = Probe::new();
    limited(w, l, &p);
    let addr = match w {
        P::Raw => raw_addr(),
        P::Unix => net::unix_addr(UNIX),
        _ => telnet_addr(),
    };
    let mut x = Lw { w, l, p, c: Vec::new(), seq: 0, trace: Vec::new() };
    let a = choose(l + 1, "clients before");
    for i in 0..a {
        x.connect();
        x.query(i);
    }
    x.judge()?;
    let n = [1, 2, 4, 9, 40][choose(5, "faults")];
    let k = choose(4 + 3 * (w != P::Unix) as usize, "fault");
    let apart = choose(2, "apart") == 1;
    x.trace.push(format!("{} clients, {} times {}{}", a, n, ["reset at once", "closed at once", "accept error ConnectionAborted", "accept error Other", "failing to set up", "failing to set up, kept", "failing to set up, asking"][k], if apart { " after each other" } else { "" }));
    let mut kept = Vec::new();
    net::cfg(|n| n.nodelay_fails = k >= 4);
    for _ in 0..n {
        match k {
            0 => line_connect(w).reset(),
            1 | 4 => drop(line_connect(w)),
            2 => net::inject_accept_error(addr, std::io::ErrorKind::ConnectionAborted),
            3 => net::inject_accept_error(addr, std::io::ErrorKind::Other),
            5 => kept.push(line_connect(w)),
            _ => {
                let s = line_connect(w);
                s.send(b"qx\r\n");
                kept.push(s);
            }
        }
        if apart {
            run_for(SEC);
        }
    }
    run_for(20 * SEC);
    kept.clear();
    run_for(SEC);
    net::cfg(|n| n.nodelay_fails = false);
    // what it executed for them, if anything, does not matter
    x.judge()?;
    while x.alive() < l {
        x.connect();
    }
    x.connect();
    x.connect();
    for i in 0..x.c.len() {
        x.query(i);
    }
    x.judge()?;
    for k in 0..3 {
        x.end(k % x.c.len(), 0);
        // a server may pause after an error
        run_for(20 * SEC);
        x.judge()?;
        if k + 1 == x.c.len() {
            break;
        }
    }
    Ok(())
}

/// More clients than any server serves at once: all are served as others leave.
fn all32(ep: Ep) -> Verdict {
    start_everything();
    let n = 14;
    let kinds = [choose(3, "end"), choose(3, "end of every other")];
    let rev = choose(2, "last first") == 1;
    let ctx = format!("{} clients of {}, leaving {}{}", n, ep.name(), ["by closing", "by a reset", "by half-closing"][kinds[0]], if rev { " in reverse order of connecting" } else { "" });
    let mut ss: Vec<Option<Sock>> = Vec::new();
    for _ in 0..n {
        match net::connect(ep.addr()) {
            Ok(s) => ss.push(Some(s)),
            Err(_) => return bad(format!("refused {}", ctx), format!("{}: refused", ctx)),
        }
        run_idle();
    }
    let order: Vec<usize> = if rev { (0..n).rev().collect() } else { (0..n).collect() };
    // those which have been served or are gone count against the limit
    for (k, i) in order.into_iter().enumerate() {
        let s = ss[i].take().unwrap();
        if rev && i >= 10 {
            end_sock(s, kinds[k % 2]);
            run_idle();
            continue;
        }
        let mut g = G::open(ep, Some(s), &ctx)?;
        g.works(&ctx)?;
        match g {
            G::Cl(c) => c.end(kinds[k % 2]),
            G::Abort(r) | G::Pmap(r) => end_sock(r.s, kinds[k % 2]),
            _ => {}
        }
        run_idle();
    }
    everything_works(&ctx)
}

pub fn c32() -> Vec<Scenario> {
    let d = q(4, 5);
    let mut v = Vec::new();
    for w in [P::Raw, P::Unix, P::Tel] {
        v.push(Scenario::new(format!("limit-{:?}", w), format!("limits 1 to 3, that many clients, then every sequence of {} of connect, query, close, reset, half-close by any of up to 2 clients more than the limit, one after another or at once", d), move || limit32(w, d)));
        v.push(Scenario::new(format!("faults-{:?}", w), "limits 1 to 3, up to that many clients, then 1 to 40 connections which fail before they are served (7 ways, at once or after each other), then two clients more than the limit", move || faults32(w)));
        v.push(Scenario::new(format!("race-{:?}", w), "3 clients ask and leave at once, limits 1 and 2, every interleaving up to the deviation bound", move || race32(w)).bound(2, 3));
    }
    for ep in EPS {
        if ep != Ep::Udp {
            v.push(Scenario::new(format!("many-{}", ep.name()), "14 clients at once which leave one after the other, 3 ways, two orders", move || all32(ep)));
        }
    }
    v
}

// ------------------------------------------------------------------ C33

const NAMES: [&str; 3] = ["hislip0", "inst0", "gpib0,2"];

/// A HiSLIP session with this sub-address.
fn hopen(sub: &[u8]) -> Result<hs::Sess, Violation> {
    let sync = hs::Conn::new();
    sync.send(hs::INIT, 0, (hs::V1 as u32) << 16 | 0x5858, sub);
    let r = sync.idle();
    no_trouble()?;
    if r.len() != 1 || r[0].typ != hs::INIT_R {
        return bad(format!("open {}", show(sub)), format!("the initialisation for \"{}\" is answered by [{}]", show(sub), hs::texts(&r)));
    }
    let id = r[0].param as u16;
    let asy = hs::Conn::new();
    asy.send(hs::AINIT, 0, id as u32, b"");
    let r = asy.idle();
    no_trouble()?;
    if r.len() != 1 || r[0].typ != hs::AINIT_R {
        return bad(format!("open {}", show(sub)), format!("AsyncInitialize for \"{}\" is answered by [{}]", show(sub), hs::texts(&r)));
    }
    Ok(hs::Sess { id, sync, asy })
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum A33 {
    Query,
    Trigger,
    Clear,
    Remote,
    Lock(usize),
    Unlock,
    Status,
    Leave,
}

/// Clients of different devices: what one does is seen by its device only, and only its locks count.
fn devices33(vxi: bool, depth: usize) -> Verdict {
    let ps: Vec<Probe> = (0..3).map(|_| Probe::new()).collect();
    for (i, p) in ps.iter().enumerate() {
        p.set_stb(4 * (i as u8 + 1));
    }
    let locks: Vec<_> = (0..3).map(|_| SharedLock::new()).collect();
    // the order of registration does not matter
    let perm = [[0, 1, 2], [2, 1, 0], [1, 2, 0]][choose(3, "order")];
    if vxi {
        let mut b = lxi_vxi11::server::vxi11::VxiServerBuilder::new().core_port(vx::core_addr().port()).async_port(vx::async_addr().port());
        for i in perm {
            b = b.device(NAMES[i].to_string(), ps[i].device(), locks[i].clone());
        }
        let (core, _) = b.build(lxi_device::status::Sender::new());
        mcrt::spawn_named("vxi core server", async move {
            let _ = core.bind([127, 0, 0, 1].into()).await;
        });
    } else {
        let mut b = lxi_hislip::server::ServerBuilder::new(Default::default());
        for i in perm {
            b = b.device(NAMES[i].to_string(), ps[i].device(), locks[i].clone());
        }
        let srv = b.build();
        mcrt::spawn_named("hislip server", async move {
            let _ = srv.accept(hs::addr(), lxi_device::status::Sender::new(), hs::Sp).await;
        });
    }
    run_idle();
    let n = 3;
    // two clients of one device, one of another; or all of different ones
    let of: Vec<usize> = [[0, 1, 2], [0, 1, 0], [1, 1, 2], [2, 0, 2]][choose(4, "devices")].to_vec();
    // several links of one connection (VXI-11)
    let one = vxi && choose(2, "one connection") == 1;
    enum C {
        H(hs::Sess),
        V(u32),
    }
    let mut conns: Vec<Rpc> = Vec::new();
    let mut cs: Vec<Option<C>> = Vec::new();
    for i in 0..n {
        if vxi {
            if !one || i == 0 {
                conns.push(Rpc::core());
            }
            match conns.last().unwrap().must(&Op::Create { lock: false, to: 0, dev: NAMES[of[i]] })? {
                Res::Create { err: 0, lid, .. } => cs.push(Some(C::V(lid))),
                r => return bad(format!("create {}", NAMES[of[i]]), format!("a link to {} is not created: {:?}", NAMES[of[i]], r)),
            }
        } else {
            // the default
            let sub: &[u8] = if of[i] == 0 && choose(2, "default") == 1 { b"" } else { NAMES[of[i]].as_bytes() };
            cs.push(Some(C::H(hopen(sub)?)));
        }
    }
    for p in &ps {
        p.take();
    }
    let mut ms: Vec<Model> = (0..3).map(|_| Model::default()).collect();
    let mut trace: Vec<String> = Vec::new();
    for step in 0..depth {
        let mut m: Vec<(usize, A33)> = Vec::new();
        for i in 0..n {
            if cs[i].is_none() {
                continue;
            }
            m.extend([A33::Query, A33::Lock(0), A33::Unlock, A33::Status, A33::Clear, A33::Trigger, A33::Remote].map(|a| (i, a)));
            if !vxi {
                m.push((i, A33::Lock(1)));
            }
            if !one {
                m.push((i, A33::Leave));
            }
        }
        if m.is_empty() {
            break;
        }
        let (i, a) = m[choose(m.len(), "action")];
        let d = of[i];
        trace.push(format!("{:?} by client {} of {}", a, i, NAMES[d]));
        let t = trace.join("; ");
        let free = ms[d].can(i).is_ok();
        let err = |what: String| bad(format!("{} {}", what, t), format!("after [{}]: {}", t, what));
        let mut want: Vec<Call> = Vec::new();
        let cmd = format!("q{}", step).into_bytes();
        let keys: [&[u8]; 2] = [b"", b"k"];
        match cs[i].as_ref().unwrap() {
            C::H(s) => match a {
                // a locked out client would wait for ever
                A33::Query | A33::Trigger | A33::Remote if !free => {}
                A33::Query => {
                    s.sync.send(hs::END, 0, 2 * step as u32, &cmd);
                    let r = s.sync.drain();
                    if r.len() != 1 || r[0].payload != rule(&cmd).unwrap() {
                        return err(format!("the query is answered by [{}]", hs::texts(&r)));
                    }
                    want.push(Call::Exec(cmd));
                }
                A33::Trigger => {
                    s.sync.send(hs::TRIGGER, 0, 2 * step as u32, b"");
                    s.sync.idle();
                    want.push(Call::Trigger(Source::Bus));
                }
                A33::Remote => {
                    s.asy.send(hs::REMOTE, 3, 0, b"");
                    s.asy.idle();
                    want.extend([Call::Remote(true)]);
                }
                A33::Clear => {
                    s.asy.send(hs::CLEAR, 0, 0, b"");
                    s.asy.idle();
                    s.sync.send(hs::CLR_COMPLETE, 0, 0, b"");
                    s.sync.idle();
                    if free {
                        want.push(Call::Clear);
                    }
                }
                A33::Status => {
                    s.asy.send(hs::STATUS, 0, 0, b"");
                    let r = s.asy.idle();
                    if r.len() != 1 || r[0].typ != hs::STATUS_R || r[0].ctrl & !0x10 != 4 * (d as u8 + 1) {
                        return err(format!("the status query is answered by [{}]", hs::texts(&r)));
                    }
                }
                A33::Lock(k) => {
                    s.asy.send(hs::LOCK, 1, 0, keys[k]);
                    let r = s.asy.idle();
                    let w = match ms[d].acquire(i, k) {
                        Ok(_) => 1,
                        Err("AlreadyLocked") => 3,
                        Err(_) => 0,
                    };
                    if r.len() != 1 || r[0].typ != hs::LOCK_R || r[0].ctrl != w {
                        return err(format!("the lock request is answered by [{}], expected code {}", hs::texts(&r), w));
                    }
                }
                A33::Unlock => {
                    s.asy.send(hs::LOCK, 0, 0, b"");
                    let r = s.asy.idle();
                    let w = match ms[d].release(i) {
                        Ok("Exclusive") => 1,
                        Ok(_) => 2,
                        Err(_) => 3,
                    };
                    if r.len() != 1 || r[0].typ != hs::LOCK_R || r[0].ctrl != w {
                        return err(format!("the release is answered by [{}], expected code {}", hs::texts(&r), w));
                    }
                }
                A33::Leave => {
                    cs[i] = None;
                    let _ = ms[d].release(i);
                    run_idle();
                }
            },
            C::V(lid) => {
                let lid = *lid;
                let r = &conns[if one { 0 } else { i }];
                let (flags, to) = (0, 0);
                let ok = if free { 0 } else { 11 };
                let op = match a {
                    A33::Query => Op::Write { lid, flags: ENDF, to, data: cmd.clone() },
                    A33::Trigger => Op::Trigger { lid, flags, to },
                    A33::Clear => Op::Clear { lid, flags, to },
                    A33::Remote => Op::Remote { lid, flags, to },
                    A33::Status => Op::Stb { lid, flags, to },
                    A33::Lock(_) => Op::Lock { lid, flags, to },
                    A33::Unlock => Op::Unlock { lid },
                    A33::Leave => Op::Destroy { lid },
                };
                let x = r.must(&op)?;
                let w = match a {
                    A33::Lock(_) => match ms[d].acquire(i, 0) {
                        Ok(_) => 0,
                        // any error will do
                        Err("AlreadyLocked") => x.err().max(1),
                        Err(_) => 11,
                    },
                    A33::Unlock => {
                        if ms[d].release(i).is_ok() {
                            0
                        } else {
                            12
                        }
                    }
                    A33::Leave => {
                        let _ = ms[d].release(i);
                        cs[i] = None;
                        0
                    }
                    _ => ok,
                };
                if x.err() != w {
                    return err(format!("{:?} is answered {:?}, expected {}", op, x, w));
                }
                if free {
                    match a {
                        A33::Query => {
                            want.push(Call::Exec(cmd.clone()));
                            let x = r.must(&Op::Read { lid, flags, to, size: 100, term: 0 })?;
                            if x != (Res::Read { err: 0, reason: 4, data: rule(&cmd).unwrap() }) {
                                return err(format!("the response is {:?}", x));
                            }
                        }
                        A33::Trigger => want.push(Call::Trigger(Source::Bus)),
                        A33::Clear => want.push(Call::Clear),
                        A33::Remote => want.push(Call::Remote(true)),
                        A33::Status => {
                            if let Res::Stb { stb, .. } = x {
                                if stb & !0x10 != 4 * (d as u32 + 1) {
                                    return err(format!("the status is {}", stb));
                                }
                            }
                        }
                        _ => {}
                    }
                }
            }
        }
        no_trouble()?;
        for (k, p) in ps.iter().enumerate() {
            // a request of a session may put its own device into remote
            let implied = !vxi && k == d && a != A33::Remote;
            let c: Vec<Call> = p.take().into_iter().filter(|c| *c != Call::Status && !matches!(c, Call::Lockout(_)) && !(implied && *c == Call::Remote(true))).collect();
            let w = if k == d { want.clone() } else { vec![] };
            if c != w {
                return bad(format!("calls {} {}", NAMES[k], t), format!("after [{}]: {} gets [{}], expected [{}]", t, NAMES[k], show_calls(&c), show_calls(&w)));
            }
            // and the lock of each
            let h = LockHandle::new(locks[k].clone(), ps[k].device());
            let info = h.lock_info();
            let e = (ms[k].excl.is_some(), ms[k].holders.len() as u32);
            if info != e {
                return bad(format!("lock of {} {}", NAMES[k], t), format!("after [{}]: the lock of {} is {:?}, expected {:?}", t, NAMES[k], info, e));
            }
        }
    }
    Ok(())
}

/// Every call through a box, and a box of a trait object, is the call itself.
fn boxed33() -> Verdict {
    let p = Probe::new();
    let rec = TDevice(p.clone());
    let kind = choose(3, "box");
    let mut d: Box<dyn Device> = match kind {
        0 => Box::new(rec),
        1 => Box::new(Box::new(rec)),
        _ => Box::new(Box::new(rec) as Box<dyn Device>),
    };
    let mut want = Vec::new();
    p.set_stb(0x21);
    for _ in 0..2 {
        let fail = choose(FAILURES as usize + 1, "fails") as u8;
        p.set_fail(fail);
        p.set_status_err(fail);
        let ok = format!("{:?}", failure(fail));
        let a = choose(8, "call");
        let (r, w): (String, String) = match a {
            0 => {
                want.push(Call::Exec(b"qx".to_vec()));
                (format!("{:?}", d.execute(b"qx")), format!("{:?}", rule(b"qx")))
            }
            1 => {
                want.push(Call::Exec(b"x".to_vec()));
                (format!("{:?}", d.execute(b"x")), "None".into())
            }
            2 => {
                want.push(Call::Status);
                (format!("{:?}", d.get_status()), format!("{:?}", failure(fail).map(|_| 33)))
            }
            3 | 4 => {
                let s = [Source::Bus, Source::Lan7][a - 3];
                want.push(Call::Trigger(s));
                (format!("{:?}", d.trigger(s)), ok)
            }
            5 => {
                want.push(Call::Clear);
                (format!("{:?}", d.clear()), ok)
            }
            6 => {
                let v = choose(2, "value") == 1;
                want.push(Call::Remote(v));
                (format!("{:?}", d.set_remote(v)), ok)
            }
            _ => {
                let v = choose(2, "value") == 1;
                want.push(Call::Lockout(v));
                d.set_local_lockout(v);
                (String::new(), String::new())
            }
        };
        if r != w || p.calls() != want {
            return bad(format!("box {} {}", kind, a), format!("through a box: result {} (expected {}), the device got [{}] instead of [{}]", r, w, show_calls(&p.calls()), show_calls(&want)));
        }
    }
    Ok(())
}

struct TDevice(Probe);
impl TDevice {
    fn call(&self, c: Call) -> Result<(), DeviceError> {
        let mut s = (self.0).0.lock().unwrap();
        s.calls.push(c);
        failure(s.fail)
    }
}
impl Device for TDevice {
    fn execute(&mut self, cmd: &[u8]) -> Option<Vec<u8>> {
        let _ = self.call(Call::Exec(cmd.to_vec()));
        rule(cmd)
    }
    fn get_status(&mut self) -> Result<u8, DeviceError> {
        self.call(Call::Status)?;
        Ok((self.0).0.lock().unwrap().stb)
    }
    fn trigger(&mut self, source: Source) -> Result<(), DeviceError> {
        self.call(Call::Trigger(source))
    }
    fn clear(&mut self) -> Result<(), DeviceError> {
        self.call(Call::Clear)
    }
    fn set_remote(&mut self, remote: bool) -> Result<(), DeviceError> {
        self.call(Call::Remote(remote))
    }
    fn set_local_lockout(&mut self, enable: bool) {
        let _ = self.call(Call::Lockout(enable));
    }
}

/// 300 bytes
const LONG: &str = "aaaaaaaaaabbbbbbbbbbccccccccccddddddddddeeeeeeeeeeffffffffffgggggggggghhhhhhhhhhiiiiiiiiiijjjjjjjjjjkkkkkkkkkkllllllllllmmmmmmmmmmnnnnnnnnnnooooooooooppppppppppqqqqqqqqqqrrrrrrrrrrssssssssssttttttttttuuuuuuuuuuvvvvvvvvvvwwwwwwwwwwxxxxxxxxxxyyyyyyyyyyzzzzzzzzzz00000000001111111111222222222233333333334444444444";
const LONG2: &str = "aaaaaaaaaabbbbbbbbbbccccccccccddddddddddeeeeeeeeeeffffffffffgggggggggghhhhhhhhhhiiiiiiiiiijjjjjjjjjjkkkkkkkkkkllllllllllmmmmmmmmmmnnnnnnnnnnooooooooooppppppppppqqqqqqqqqqrrrrrrrrrrssssssssssttttttttttuuuuuuuuuuvvvvvvvvvvwwwwwwwwwwxxxxxxxxxxyyyyyyyyyyzzzzzzzzzz00000000001111111111222222222233333333334444444445";
const SIMILAR: [&str; 18] = [" hislip0", "hislip0 ", "hislip0\0", LONG, LONG2, "hislip0", "hislip1", "hislip10", "hislip", "hislip01", "HISLIP0", "inst0", "inst", "inst00", "Inst0", "a", "hislip0,a", "\u{e9}"];

/// Names that are easily mistaken for one another: exactly the named device, or none.
fn names33(vxi: bool) -> Verdict {
    let (a, b) = (choose(SIMILAR.len(), "first"), choose(SIMILAR.len(), "second"));
    let ask = choose(SIMILAR.len() + 1, "asked for");
    let regs: Vec<usize> = if a == b { vec![a] } else { vec![a, b] };
    let ps: Vec<Probe> = regs.iter().map(|_| Probe::new()).collect();
    // without a name the default
    let name = if ask == SIMILAR.len() { "" } else { SIMILAR[ask] };
    let means = if name.is_empty() && !vxi { "hislip0" } else { name };
    let dev = regs.iter().position(|r| SIMILAR[*r] == means);
    let ctx = format!("devices {:?}, a client asks for {:?}", regs.iter().map(|r| SIMILAR[*r]).collect::<Vec<_>>(), name);
    let created = if vxi {
        let mut b = lxi_vxi11::server::vxi11::VxiServerBuilder::new().core_port(vx::core_addr().port()).async_port(vx::async_addr().port());
        for (r, p) in regs.iter().zip(&ps) {
            b = b.device(SIMILAR[*r].to_string(), p.device(), SharedLock::new());
        }
        let (core, _) = b.build(lxi_device::status::Sender::new());
        mcrt::spawn_named("vxi core server", async move {
            let _ = core.bind([127, 0, 0, 1].into()).await;
        });
        run_idle();
        let c = Rpc::core();
        // the catalogue outlives the run
        let made = match c.must(&Op::Create { lock: false, to: 0, dev: name })? {
            Res::Create { err: 0, lid, .. } => {
                c.must(&Op::Write { lid, flags: 8, to: 0, data: b"nq".to_vec() })?;
                true
            }
            _ => false,
        };
        made
    } else {
        let mut b = lxi_hislip::server::ServerBuilder::new(Default::default());
        for (r, p) in regs.iter().zip(&ps) {
            b = b.device(SIMILAR[*r].to_string(), p.device(), SharedLock::new());
        }
        let srv = b.build();
        mcrt::spawn_named("hislip server", async move {
            let _ = srv.accept(hs::addr(), lxi_device::status::Sender::new(), hs::Sp).await;
        });
        run_idle();
        let sync = hs::Conn::new();
        sync.send(hs::INIT, 0, (hs::V1 as u32) << 16 | 0x5858, name.as_bytes());
        let r = sync.idle();
        no_trouble()?;
        let made = r.len() == 1 && r[0].typ == hs::INIT_R;
        if made {
            let asy = hs::Conn::new();
            asy.send(hs::AINIT, 0, r[0].param & 0xffff, b"");
            asy.idle();
            sync.send(hs::END, 0, 0xffff_ff00, b"nq");
            sync.idle();
        }
        made
    };
    run_idle();
    no_trouble()?;
    if created != dev.is_some() {
        return bad(format!("{} {}", created, ctx), format!("{}: {}", ctx, if created { "it gets a session although there is no such device" } else { "it is refused" }));
    }
    for (i, p) in ps.iter().enumerate() {
        let e = p.execs().len();
        let want = (dev == Some(i)) as usize;
        if e != want {
            return bad(format!("reached {}", ctx), format!("{}: {:?} executes {} commands, expected {}", ctx, SIMILAR[regs[i]], e, want));
        }
    }
    Ok(())
}

pub fn c33() -> Vec<Scenario> {
    let d = q(3, 4);
    vec![
        Scenario::new("hislip", format!("3 devices behind a HiSLIP server, 3 clients (4 assignments), every sequence of {} of query, trigger, clear, remote, status, lock (exclusive, shared), unlock, leave; every device's calls and lock state", d), move || devices33(false, d)),
        Scenario::new("vxi", format!("the same behind a VXI-11 server, on one or several connections, {} steps", d), move || devices33(true, d)),
        Scenario::new("names-hislip", "one or two devices with any of 18 similar names (prefixes, case, suffixes, blanks, 300 bytes), asked for by each name and the default", || names33(false)),
        Scenario::new("names-vxi", "the same behind a VXI-11 server", || names33(true)),
        Scenario::new("boxed", "every sequence of 2 calls through 3 kinds of boxes, failing in 3 ways or not", boxed33),
    ]
}
