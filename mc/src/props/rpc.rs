//! C21, C28-C30: RPC servers, the port mapper and the RPC clients.
use super::sock::choose_cuts;
use crate::common::*;
use crate::dev::*;
use crate::vx::*;
use lxi_vxi11::client::portmapper::prelude::PortMapperClient;
use lxi_vxi11::server::portmapper::prelude::*;
use lxi_vxi11::server::vxi11::prelude::*;
use mcrt::net::{Sock, TcpListen, UdpSock};
use std::io::ErrorKind;
use std::net::SocketAddr;

// ------------------------------------------------------------------ C21

#[derive(Clone, Copy, PartialEq, Debug)]
enum Target {
    Core,
    Async,
    Pmap,
}
const TARGETS: [Target; 3] = [Target::Core, Target::Async, Target::Pmap];

impl Target {
    fn addr(self) -> SocketAddr {
        match self {
            Target::Core => core_addr(),
            Target::Async => async_addr(),
            Target::Pmap => pmap_addr(),
        }
    }
    fn prog(self) -> (u32, u32) {
        match self {
            Target::Core => (CORE, 1),
            Target::Async => (ASYNC, 1),
            Target::Pmap => (PMAP, 2),
        }
    }
}

const MAPS: [[u32; 4]; 2] = [[CORE, 1, 6, 1024], [ASYNC, 1, 17, 1025]];

fn start_target(t: Target, p: &Probe) {
    match t {
        Target::Pmap => start_pmap(MAPS.map(|m| Mapping::new(m[0], m[1], m[2], m[3]))),
        _ => {
            start_vxi(p);
        }
    }
}

/// What must come back for a message.
#[derive(Clone, PartialEq, Debug)]
enum Want {
    Nothing,
    Stat(Stat),
    AnyAuth,
    /// success with any result of this length
    AnySuccess,
}

/// The RPC standard: what a server of program `prog` answers to this message.
/// `args`: the result of a procedure, or None if the arguments cannot be decoded.
fn standard(prog: (u32, u32), m: &[u8], procs: &[u32], args: &dyn Fn(u32, &mut D) -> Option<Want>) -> Want {
    fn head(d: &mut D) -> Option<[u32; 6]> {
        d.u()?;
        if d.u()? != 0 {
            return None;
        }
        let mut h = [d.u()?, d.u()?, d.u()?, d.u()?, 0, 0];
        h[4] = d.u()?;
        d.o()?;
        h[5] = d.u()?;
        d.o()?;
        Some(h)
    }
    let mut d = D(m);
    let Some(h) = head(&mut d) else { return Want::Nothing };
    if h[0] != 2 {
        Want::Stat(Stat::RpcMismatch(2, 2))
    } else if h[4] != 0 || h[5] != 0 {
        Want::AnyAuth
    } else if h[1] != prog.0 {
        Want::Stat(Stat::ProgUnavail)
    } else if h[2] != prog.1 {
        Want::Stat(Stat::ProgMismatch(prog.1, prog.1))
    } else if h[3] == 0 {
        Want::Stat(Stat::Success(vec![]))
    } else if !procs.contains(&h[3]) {
        Want::Stat(Stat::ProcUnavail)
    } else {
        args(h[3], &mut d).unwrap_or(Want::Stat(Stat::GarbageArgs))
    }
}

fn procs(t: Target) -> Vec<u32> {
    match t {
        Target::Core => (10..=26).filter(|p| ![21, 24].contains(p)).collect(),
        Target::Async => vec![1],
        Target::Pmap => vec![3, 4],
    }
}

fn want(t: Target, lid: u32, m: &[u8]) -> Want {
    standard(t.prog(), m, &procs(t), &|p, d| {
        Some(match (t, p) {
            (Target::Pmap, 3) => {
                let k = [d.u()?, d.u()?, d.u()?];
                d.u()?;
                let port = MAPS.iter().find(|m| m[..3] == k).map_or(0, |m| m[3]);
                Want::Stat(Stat::Success(X::new().u(port).0))
            }
            (Target::Pmap, _) => {
                let mut x = X::new();
                for m in MAPS {
                    x = x.u(1).u(m[0]).u(m[1]).u(m[2]).u(m[3]);
                }
                Want::Stat(Stat::Success(x.u(0).0))
            }
            (Target::Async, _) => {
                let l = d.u()?;
                Want::Stat(Stat::Success(X::new().u(if l == lid { 0 } else { 4 }).0))
            }
            (Target::Core, 11) => {
                let l = d.u()?;
                let (_, _, _) = (d.u()?, d.u()?, d.u()?);
                let b = d.o()?;
                Want::Stat(Stat::Success(if l == lid { X::new().u(0).u(b.len() as u32) } else { X::new().u(4).u(0) }.0))
            }
            (Target::Core, p) => {
                // the arguments of the procedure: words, then opaque data or not
                let (n, o, m) = match p {
                    10 => (3, true, 0),
                    12 => (6, false, 0),
                    13..=17 => (4, false, 0),
                    18 => (3, false, 0),
                    19 | 23 => (1, false, 0),
                    20 => (2, true, 0),
                    22 => (7, true, 0),
                    25 => (5, false, 0),
                    _ => (0, false, 0),
                };
                for _ in 0..n + m {
                    d.u()?;
                }
                if o {
                    d.o()?;
                }
                Want::AnySuccess
            }
        })
    })
}

fn fits(w: &Want, xid: u32, r: &(u32, Stat)) -> bool {
    r.0 == xid
        && match w {
            Want::Nothing => false,
            Want::Stat(s) => *s == r.1,
            Want::AnyAuth => matches!(r.1, Stat::Auth(n) if n != 0),
            Want::AnySuccess => matches!(r.1, Stat::Success(_)),
        }
}

/// The messages of the sequences. Every message gets its own id.
fn message(t: Target, lid: u32, k: usize, xid: u32) -> Vec<u8> {
    let (p, v) = t.prog();
    let ok = match t {
        Target::Core => Op::Write { lid, flags: ENDF, to: 0, data: vec![b'c', b'0' + (xid & 7) as u8] }.enc(),
        Target::Async => (1, X::new().u(77)),
        Target::Pmap => (3, X::new().u(CORE).u(1).u(6).u(0)),
    };
    let call = |rpc: u32, p: u32, v: u32, proc: u32, cf: u32, cb: &[u8], vf: u32, vb: &[u8], a: &[u8]| X::new().u(xid).u(0).u(rpc).u(p).u(v).u(proc).u(cf).o(cb).u(vf).o(vb).raw(a).0;
    let good = call_bytes(xid, p, v, ok.0, &ok.1 .0);
    match k {
        0 => good,
        1 => call_bytes(xid, p, v, 0, b""),
        2 => call_bytes(xid, p + 7, v, ok.0, &ok.1 .0),
        3 => call_bytes(xid, p, v + 1, ok.0, &ok.1 .0),
        4 => call_bytes(xid, p, v, 99, &ok.1 .0),
        5 => call(3, p, v, ok.0, 0, b"", 0, b"", &ok.1 .0),
        6 => call(2, p, v, ok.0, 1, b"\0\0\0\x01abcde", 0, b"", &ok.1 .0),
        7 => call(2, p, v, ok.0, 0, b"", 2, b"xyz", &ok.1 .0),
        8 => call(2, p, v, ok.0, 6, b"", 6, b"gss", &ok.1 .0),
        9 => good[..good.len() - 1].to_vec(),
        10 => good[..38].to_vec(),
        11 => reply_bytes(xid, &Stat::Success(vec![])),
        12 => X::new().u(xid).u(2).u(2).u(p).u(v).u(ok.0).u(0).u(0).u(0).u(0).raw(&ok.1 .0).0,
        13 => Vec::new(),
        14 => call_bytes(xid, p, 0, ok.0, &ok.1 .0),
        15 => call(2, p, v, ok.0, 0, b"ignored", 0, b"", &ok.1 .0),
        16 => call_bytes(xid, p, v, [21, 2, 5][TARGETS.iter().position(|x| *x == t).unwrap()], &ok.1 .0),
        _ => unreachable!(),
    }
}
const MESSAGES: usize = 17;

fn is_effect(t: Target, lid: u32, m: &[u8]) -> Option<Vec<u8>> {
    // a valid write to the link executes its data
    if t == Target::Core && m.len() > 24 && m[20..24] == [0, 0, 0, 11] {
        if let Want::Stat(Stat::Success(v)) = want(t, lid, m) {
            if v[..4] == [0; 4] {
                // header, id, two timeouts, flags
                let mut d = D(&m[28..]);
                d.o();
                d.u();
                d.o();
                (d.u(), d.u(), d.u(), d.u());
                return d.o();
            }
        }
    }
    None
}

fn text(w: &[Vec<u8>]) -> String {
    w.iter().map(|m| format!("[{}]", show(m))).collect::<Vec<_>>().join(" ")
}

/// Compare the replies of one connection with what was sent.
fn judge(t: Target, lid: u32, sent: &[Vec<u8>], got: &[(u32, Stat)], closed: bool, ctx: &str) -> Result<usize, Violation> {
    let mut g = 0;
    for (i, m) in sent.iter().enumerate() {
        let w = want(t, lid, m);
        if w == Want::Nothing {
            if g == got.len() && closed {
                // a message that is no call may end the connection
                return Ok(i);
            }
            continue;
        }
        let xid = u32::from_be_bytes(m[..4].try_into().unwrap());
        match got.get(g) {
            Some(r) if fits(&w, xid, r) => g += 1,
            Some(r) => return bad(format!("{:?} reply {:?} for {:?}", t, r.1, w), format!("{}: message {} [{}] is answered with id {:#x} {:?}; expected id {:#x} {:?}", ctx, i, show(m), r.0, r.1, xid, w)),
            None => return bad(format!("{:?} no reply closed={} for {:?}", t, closed, w), format!("{}: message {} [{}] is not answered{}; expected {:?}", ctx, i, show(m), if closed { ", the connection is closed" } else { "" }, w)),
        }
    }
    if g != got.len() {
        return bad(format!("{:?} extra {:?}", t, got[g].1), format!("{}: superfluous reply id {:#x} {:?}", ctx, got[g].0, got[g].1));
    }
    Ok(sent.len())
}

fn effects(t: Target, lid: u32, sent: &[Vec<u8>], p: &Probe, ctx: &str) -> Verdict {
    let e: Vec<Vec<u8>> = sent.iter().filter_map(|m| is_effect(t, lid, m)).collect();
    if p.execs() != e {
        return bad(format!("{:?} effects", t), format!("{}: the device executed [{}] instead of [{}]", ctx, p.execs().iter().map(|x| show(x)).collect::<Vec<_>>().join(", "), e.iter().map(|x| show(x)).collect::<Vec<_>>().join(", ")));
    }
    Ok(())
}

/// A new client is served as usual.
fn still_serves(t: Target, p: &Probe, ctx: &str) -> Verdict {
    no_trouble()?;
    p.take();
    let r = Rpc::new(t.addr(), t.prog().0, t.prog().1);
    let lid = if t == Target::Core { link(&r)? } else { 5 };
    let m = message(t, lid, 0, 0x5555_0001);
    r.s.send(&record(&m));
    run_idle();
    judge(t, lid, &[m.clone()], &r.replies(), r.s.peer_closed(), &format!("{}, then a new client", ctx))?;
    effects(t, lid, &[m], p, ctx)
}

/// Sequences of messages on one TCP connection.
fn seq21(len: usize) -> Verdict {
    let p = Probe::new();
    let t = TARGETS[choose(3, "server")];
    start_target(t, &p);
    let r = Rpc::new(t.addr(), t.prog().0, t.prog().1);
    let lid = if t == Target::Core { link(&r)? } else { 5 };
    let pipelined = choose(2, "pipelined") == 1;
    let sent: Vec<Vec<u8>> = (0..len).map(|i| message(t, lid, choose(MESSAGES, "message"), [0, 0xffff_fff9, 0x1234_5672][i % 3])).collect();
    let ctx = format!("{:?} server, messages {}{}", t, text(&sent), if pipelined { " at once" } else { "" });
    let mut got = Vec::new();
    for m in &sent {
        if !r.s.peer_closed() {
            r.s.send(&record(m));
            if !pipelined {
                run_idle();
                got.extend(r.replies());
            }
        }
    }
    run_idle();
    no_trouble()?;
    got.extend(r.replies());
    let n = judge(t, lid, &sent, &got, r.s.peer_closed(), &ctx)?;
    effects(t, lid, &sent[..n], &p, &ctx)?;
    still_serves(t, &p, &ctx)
}

/// Fragments and segments.
fn segs21(two_cuts: bool) -> Verdict {
    let p = Probe::new();
    let t = TARGETS[choose(3, "server")];
    start_target(t, &p);
    let r = Rpc::new(t.addr(), t.prog().0, t.prog().1);
    let lid = if t == Target::Core { link(&r)? } else { 5 };
    let m1 = message(t, lid, [0, 9][choose(2, "first message")], 1);
    let m2 = message(t, lid, 1, 2);
    // the record in one, two or three fragments, some of them empty
    let mut b = Vec::new();
    let frag = |b: &mut Vec<u8>, last: bool, d: &[u8]| b.extend(X::new().u(d.len() as u32 | (last as u32) << 31).raw(d).0);
    let ctx;
    match choose(5, "fragments") {
        0 => {
            frag(&mut b, true, &m1);
            ctx = "one fragment".to_string();
        }
        1 => {
            let k = choose(m1.len() + 1, "fragment");
            frag(&mut b, false, &m1[..k]);
            frag(&mut b, true, &m1[k..]);
            ctx = format!("fragments of {} and {} bytes", k, m1.len() - k);
        }
        2 => {
            let k = choose(m1.len() + 1, "fragment");
            frag(&mut b, false, &m1[..k]);
            frag(&mut b, false, b"");
            frag(&mut b, true, &m1[k..]);
            ctx = format!("fragments of {}, 0 and {} bytes", k, m1.len() - k);
        }
        3 => {
            for x in &m1 {
                frag(&mut b, false, &[*x]);
            }
            frag(&mut b, true, b"");
            ctx = "one fragment per byte".to_string();
        }
        _ => {
            let k = 1 + choose(8, "fragment size");
            for x in m1.chunks(k) {
                frag(&mut b, false, x);
            }
            frag(&mut b, true, b"");
            ctx = format!("fragments of {} bytes", k);
        }
    }
    b.extend(record(&m2));
    let cuts = if two_cuts {
        choose_cuts(&b)
    } else {
        let c = choose(b.len() + 1, "cut");
        if c == b.len() {
            b.iter().map(|x| vec![*x]).collect()
        } else {
            vec![b[..c].to_vec(), b[c..].to_vec()]
        }
    };
    net::cfg(|c| c.max_write = 3);
    for s in &cuts {
        r.s.send(s);
        run_idle();
    }
    no_trouble()?;
    let sent = [m1, m2];
    let ctx = format!("{:?} server, {}, segments of {:?}", t, ctx, cuts.iter().map(|c| c.len()).collect::<Vec<_>>());
    judge(t, lid, &sent, &r.replies(), r.s.peer_closed(), &ctx)?;
    effects(t, lid, &sent, &p, &ctx)
}

fn all_ops(lid: u32) -> Vec<Op> {
    vec![
        Op::Create { lock: false, to: 0, dev: "inst0" },
        Op::Write { lid, flags: ENDF, to: 0, data: b"c123".to_vec() },
        Op::Read { lid, flags: 0, to: 0, size: 10, term: 0 },
        Op::Stb { lid, flags: 0, to: 0 },
        Op::Trigger { lid, flags: 0, to: 0 },
        Op::Clear { lid, flags: 0, to: 0 },
        Op::Remote { lid, flags: 0, to: 0 },
        Op::Local { lid, flags: 0, to: 0 },
        Op::Lock { lid, flags: 0, to: 0 },
        Op::Unlock { lid },
        Op::Srq { lid, on: true, handle: b"hndl".to_vec() },
        Op::Docmd { lid },
        Op::Destroy { lid },
        Op::CreateIntr { host: 0x7f00_0001, port: 7000, prog: INTR, vers: 1, udp: 0 },
        Op::DestroyIntr,
    ]
}

/// Every procedure, its message cut at every byte: in the record, or by the end of the connection.
fn cut21() -> Verdict {
    let p = Probe::new();
    let t = TARGETS[choose(3, "server")];
    start_target(t, &p);
    let r = Rpc::new(t.addr(), t.prog().0, t.prog().1);
    let lid = if t == Target::Core { link(&r)? } else { 5 };
    let (proc, args) = match t {
        Target::Core => all_ops(lid)[choose(15, "procedure")].enc(),
        Target::Async => (1, X::new().u(77)),
        Target::Pmap => (3 + choose(2, "procedure") as u32, X::new().u(CORE).u(1).u(6).u(0)),
    };
    let m = call_bytes(0xabcd, t.prog().0, t.prog().1, proc, &args.0);
    let k = choose(m.len() + 1, "cut");
    p.take();
    let other = Rpc::new(t.addr(), t.prog().0, t.prog().1);
    run_idle();
    let mode = choose(3, "how");
    if mode == 0 {
        let s = vec![m[..k].to_vec()];
        let ctx = format!("{:?} server, procedure {} cut to {} of {} bytes", t, proc, k, m.len());
        r.s.send(&record(&s[0]));
        run_idle();
        no_trouble()?;
        judge(t, lid, &s, &r.replies(), r.s.peer_closed(), &ctx)?;
        let w = want(t, lid, &s[0]);
        if (w == Want::Nothing || w == Want::Stat(Stat::GarbageArgs)) && !p.calls().is_empty() {
            return bad(format!("effect of cut {}", proc), format!("{}: the device is called: {}", ctx, show_calls(&p.calls())));
        }
        if w == Want::Stat(Stat::GarbageArgs) {
            // and it goes on, the lock is free
            let l = call_bytes(0xabce, t.prog().0, t.prog().1, 0, b"");
            r.s.send(&record(&l));
            run_idle();
            judge(t, lid, &[l], &r.replies(), r.s.peer_closed(), &format!("{}, then", ctx))?;
        }
        if t == Target::Core {
            let l = link(&other)?;
            let locked = proc == 18 && w == Want::AnySuccess;
            let x = other.must(&Op::Lock { lid: l, flags: 0, to: 0 })?.err();
            if (x != 0) != locked {
                return bad(format!("lock after cut {}", proc), format!("{}: another client's lock is answered {}", ctx, x));
            }
            if !locked {
                other.must(&Op::Unlock { lid: l })?;
            }
        }
    } else {
        // the record promises everything but the connection ends
        let rec = record(&m);
        let k = k.min(m.len() - 1) + if mode == 2 { 4 } else { 0 };
        let ctx = format!("{:?} server, procedure {}, connection ends after {} of {} bytes", t, proc, k, rec.len());
        r.s.send(&rec[..k]);
        if choose(2, "how it ends") == 0 {
            let _ = r.s.shutdown_write();
        } else {
            r.s.reset();
        }
        run_idle();
        no_trouble()?;
        if !p.calls().is_empty() {
            return bad(format!("effect of incomplete {}", proc), format!("{}: the device is called: {}", ctx, show_calls(&p.calls())));
        }
        let g = r.replies();
        if !g.is_empty() {
            return bad(format!("reply to incomplete {}", proc), format!("{}: it is answered {:?}", ctx, g));
        }
        if t == Target::Core {
            let l = link(&other)?;
            if other.must(&Op::Lock { lid: l, flags: 0, to: 0 })?.err() != 0 {
                return bad(format!("lock of incomplete {}", proc), format!("{}: the device stays locked", ctx));
            }
            other.must(&Op::Unlock { lid: l })?;
        }
    }
    drop(r);
    run_idle();
    still_serves(t, &p, "after a cut message")
}

/// Records that are too large or never end.
fn big21() -> Verdict {
    let p = Probe::new();
    let t = TARGETS[choose(3, "server")];
    start_target(t, &p);
    let r = Rpc::new(t.addr(), t.prog().0, t.prog().1);
    let lid = if t == Target::Core { link(&r)? } else { 5 };
    let other = Rpc::new(t.addr(), t.prog().0, t.prog().1);
    run_idle();
    p.take();
    let m = message(t, lid, 0, 9);
    let sizes = [0x7fff_ffffu32, 0x7fff_fffe, 0x4000_0000, 0x0100_0000, 0x0010_0001, 0x0010_0000];
    let s = sizes[choose(sizes.len(), "size")];
    let last = (choose(2, "last fragment") as u32) << 31;
    let b = match choose(3, "where") {
        0 => X::new().u(s | last).raw(&m).0,
        // after a first fragment
        1 => X::new().u(8).raw(&m[..8]).u(s | last).raw(&m[8..]).0,
        _ => X::new().u(m.len() as u32).raw(&m).u(s | last).0,
    };
    let ctx = format!("{:?} server, a fragment of {:#x} bytes announced", t, s);
    r.s.send(&b);
    run_idle();
    no_trouble()?;
    if !r.replies().is_empty() || !p.calls().is_empty() {
        return bad("effect of oversized", format!("{}: it has an effect", ctx));
    }
    let l = call_bytes(0xabce, t.prog().0, t.prog().1, 0, b"");
    other.s.send(&record(&l));
    run_idle();
    judge(t, lid, &[l], &other.replies(), other.s.peer_closed(), &format!("{}, another client", ctx))?;
    still_serves(t, &p, &ctx)
}

fn udp_client(port: u16) -> UdpSock {
    let s = UdpSock::bind(SocketAddr::from(([127, 0, 0, 1], port))).unwrap();
    s.connect(pmap_addr()).unwrap();
    s
}

fn udp_replies(s: &UdpSock) -> Vec<(u32, Stat)> {
    let mut v = Vec::new();
    while let Some((b, _)) = s.try_recv() {
        v.push(parse_reply(&b));
    }
    v
}

/// Sequences of datagrams from two clients, with faults of the socket in between.
fn udp21(len: usize, faults: bool) -> Verdict {
    let p = Probe::new();
    let t = Target::Pmap;
    start_target(t, &p);
    let c = [udp_client(4001), udp_client(4002)];
    let mut sent = [Vec::new(), Vec::new()];
    let mut ctx = String::new();
    let mut optional: Option<(usize, usize)> = None;
    for i in 0..len {
        let who = choose(2, "client");
        let k = choose(MESSAGES, "message");
        let m = message(t, 5, k, 0x100 + i as u32);
        ctx.push_str(&format!("client {} sends [{}]; ", who, show(&m)));
        if faults && optional.is_none() {
            match choose(3, "fault") {
                0 => {}
                1 => {
                    ctx.push_str("(receive error before) ");
                    net_udp_error(false);
                }
                _ => {
                    // the reply to this datagram may be lost
                    if want(t, 5, &m) != Want::Nothing {
                        ctx.push_str("(send error) ");
                        net_udp_error(true);
                        optional = Some((who, sent[who].len()));
                    }
                }
            }
        }
        sent[who].push(m.clone());
        c[who].send(&m).unwrap();
        if choose(2, "settle") == 0 {
            run_for(SEC);
        }
    }
    run_for(2 * SEC);
    no_trouble()?;
    for w in 0..2 {
        let got = udp_replies(&c[w]);
        let mut s = sent[w].clone();
        if judge(t, 5, &s, &got, false, "").is_ok() {
            continue;
        }
        if let Some((x, k)) = optional {
            // if nothing settled in between, the error may hit another reply
            let ok = (0..s.len()).any(|d| {
                let mut s = s.clone();
                s.remove(d);
                judge(t, 5, &s, &got, false, "").is_ok()
            });
            if ok {
                continue;
            }
            if x == w {
                s.remove(k);
            }
        }
        judge(t, 5, &s, &got, false, &format!("UDP: {}replies of client {}", ctx, w))?;
    }
    // both transports work afterwards
    let m = message(t, 5, 0, 77);
    c[0].send(&m).unwrap();
    run_for(SEC);
    judge(t, 5, &[m], &udp_replies(&c[0]), false, &format!("UDP: {}then", ctx))?;
    still_serves(t, &p, &ctx)
}

fn net_udp_error(on_send: bool) {
    net::inject_udp_error(pmap_addr(), [ErrorKind::ConnectionRefused, ErrorKind::Other][choose(2, "kind")], on_send);
}

fn udpcut21() -> Verdict {
    let p = Probe::new();
    let t = Target::Pmap;
    start_target(t, &p);
    let c = udp_client(4001);
    let m = message(t, 5, [0, 6, 8, 11][choose(4, "message")], 3);
    let m = if choose(2, "padded") == 1 { [&m[..], &[0; 4]].concat() } else { m };
    let k = choose(m.len() + 1, "cut");
    let s = [m[..k].to_vec(), message(t, 5, 0, 4)];
    for x in &s {
        c.send(x).unwrap();
        run_idle();
    }
    no_trouble()?;
    let ctx = format!("UDP: datagram [{}] then a call", show(&s[0]));
    judge(t, 5, &s, &udp_replies(&c), false, &ctx)?;
    still_serves(t, &p, &ctx)
}

/// Concurrent clients: each gets its own answers.
fn race21(n: usize) -> Verdict {
    let p = Probe::new();
    let t = TARGETS[choose(3, "server")];
    start_target(t, &p);
    mcrt::set_explore(true, true, true, false);
    let mut hs = Vec::new();
    for i in 0..n {
        let m: Vec<Vec<u8>> = (0..2).map(|j| message(t, 77, [0, 1, 4][choose(3, "message")], (i * 0x100 + j) as u32)).collect();
        let s = net::connect(t.addr()).unwrap();
        hs.push(mcrt::spawn_client(&format!("client{}", i), async move {
            let r = Rpc::of(s, t.prog().0, t.prog().1);
            let mut got = Vec::new();
            for x in &m {
                r.s.send(&record(x));
                match r.next().await {
                    Some(b) => got.push(parse_reply(&b)),
                    None => return (m, got, true),
                }
            }
            (m, got, false)
        }));
    }
    run_idle();
    mcrt::explore_off();
    no_trouble()?;
    for (i, h) in hs.iter().enumerate() {
        match h.try_take() {
            None => return bad("client waits", format!("{:?} server: client {} is not answered", t, i)),
            Some((m, got, closed)) => {
                judge(t, 5, &m, &got, closed, &format!("client {}", i))?;
            }
        }
    }
    Ok(())
}

/// A client that never reads its replies, or that sends half a record, does not keep others waiting.
/// Records in many fragments, and many records at once.
fn many21() -> Verdict {
    let p = Probe::new();
    let t = TARGETS[choose(3, "server")];
    start_target(t, &p);
    let r = Rpc::new(t.addr(), t.prog().0, t.prog().1);
    let lid = if t == Target::Core { link(&r)? } else { 5 };
    let n = [2, 17, 40, 100, 300, 3000][choose(6, "how many")];
    let ctx;
    let mut b = Vec::new();
    let mut sent = Vec::new();
    match choose(3, "what") {
        0 => {
            // empty fragments in between
            let m = message(t, lid, 0, 1);
            let k = choose(m.len() + 1, "where");
            b.extend(X::new().u(k as u32).raw(&m[..k]).0);
            for _ in 0..n {
                b.extend([0; 4]);
            }
            b.extend(X::new().u((m.len() - k) as u32 | 1 << 31).raw(&m[k..]).0);
            sent.push(m);
            ctx = format!("{} empty fragments", n);
        }
        1 => {
            // a byte each: longer arguments than the procedure takes
            let mut m = message(t, lid, [0, 9][choose(2, "message")], 1);
            m.extend(vec![0; n]);
            for (i, x) in m.iter().enumerate() {
                b.extend(X::new().u(1 | ((i + 1 == m.len()) as u32) << 31).raw(&[*x]).0);
            }
            sent.push(m);
            ctx = format!("{} fragments of one byte", b.len() / 5);
        }
        _ => {
            for i in 0..n {
                let m = message(t, lid, [0, 1, 9][i % 3], 1 + i as u32);
                b.extend(record(&m));
                sent.push(m);
            }
            ctx = format!("{} records at once", n);
        }
    }
    let m = message(t, lid, 1, 0x7777_0000);
    b.extend(record(&m));
    sent.push(m);
    let size = [usize::MAX, 1000][choose(2, "segments")];
    for s in b.chunks(size.min(b.len())) {
        r.s.send(s);
        run_idle();
    }
    no_trouble()?;
    let ctx = format!("{:?} server, {}", t, ctx);
    judge(t, lid, &sent, &r.replies(), r.s.peer_closed(), &ctx)?;
    effects(t, lid, &sent, &p, &ctx)
}

/// Nothing depends on how long the bytes of a call take.
fn pauses21() -> Verdict {
    let p = Probe::new();
    let t = TARGETS[choose(3, "server")];
    start_target(t, &p);
    let gap = PAUSES[choose(PAUSES.len(), "pause")];
    let r = Rpc::new(t.addr(), t.prog().0, t.prog().1);
    let lid = if t == Target::Core { link(&r)? } else { 5 };
    pause(gap);
    let sent = [message(t, lid, 0, 1), message(t, lid, 1, 2)];
    let b = [record(&sent[0]), record(&sent[1])].concat();
    let c1 = 1 + choose(b.len() - 1, "first cut");
    let c2 = if choose(2, "three") == 1 { c1 + (b.len() - c1) / 2 } else { c1 };
    let buf = [usize::MAX, 1][choose(2, "socket buffer")];
    net::cfg(|n| n.server_buf = buf);
    for seg in [&b[..c1], &b[c1..c2], &b[c2..]] {
        if !seg.is_empty() {
            r.s.send(seg);
        }
        pause(gap);
    }
    let mut got = Vec::new();
    loop {
        run_idle();
        let n = r.s.avail();
        got.extend(r.replies());
        if n == 0 {
            break;
        }
        // byte by byte, as slowly
        if buf == 1 {
            pause(gap);
        }
    }
    no_trouble()?;
    let ctx = format!("{:?} server, segments of {}, {} and {} bytes with {} ms after each{}", t, c1, c2 - c1, b.len() - c2, gap, if buf == 1 { ", replies read byte by byte as slowly" } else { "" });
    judge(t, lid, &sent, &got, r.s.peer_closed(), &ctx)?;
    effects(t, lid, &sent, &p, &ctx)
}

fn stalled21() -> Verdict {
    let p = Probe::new();
    let t = TARGETS[choose(3, "server")];
    start_target(t, &p);
    let r = Rpc::new(t.addr(), t.prog().0, t.prog().1);
    let lid = if t == Target::Core { link(&r)? } else { 5 };
    let buf = [1, 10, 100][choose(3, "socket buffer")];
    net::cfg(|c| c.server_buf = buf);
    let k = choose(MESSAGES, "message");
    let n = if choose(2, "half a record") == 1 {
        let b = record(&message(t, lid, k, 1));
        r.s.send(&b[..choose(b.len(), "half")]);
        0
    } else {
        for i in 0..5 {
            r.s.send(&record(&message(t, lid, k, i)));
        }
        5
    };
    run_idle();
    p.take();
    let o = Rpc::new(t.addr(), t.prog().0, t.prog().1);
    let m = message(t, 77, 0, 0x99);
    o.s.send(&record(&m));
    let mut got = Vec::new();
    for _ in 0..200 {
        run_idle();
        got.extend(o.replies());
    }
    judge(t, 5, &[m], &got, o.s.peer_closed(), &format!("{:?} server, while another client does not read", t))?;
    // and what it did not read is still there, in order
    if n > 0 {
        let sent: Vec<_> = (0..5).map(|i| message(t, lid, k, i)).collect();
        let mut got = Vec::new();
        for _ in 0..1000 {
            run_idle();
            got.extend(r.replies());
        }
        judge(t, lid, &sent, &got, r.s.peer_closed(), &format!("{:?} server, the client reads later", t))?;
    }
    no_trouble()
}

pub fn c21() -> Vec<Scenario> {
    let n = q(3, 4);
    vec![
        Scenario::new("sequences", format!("3 servers, every sequence of {} of {} messages (valid, unknown, unsupported, malformed), singly or at once", n, MESSAGES), move || seq21(n)),
        Scenario::new("segments", "3 servers, 2 messages, every fragmentation into two, with empty fragments, and segmentation", move || segs21(thorough())),
        Scenario::new("cuts", "every procedure of 3 servers, its message cut at every byte, in the record or by the end of the connection", cut21),
        Scenario::new("oversized", "fragments up to 2 GiB announced, in every position", big21),
        Scenario::new("udp-sequences", format!("port mapper over UDP, 2 clients, every sequence of {} of {} messages", n, MESSAGES), move || udp21(n, false)),
        Scenario::new("udp-faults", "as before, sequences of 2, with an error of the datagram socket", move || udp21(2, true)),
        Scenario::new("udp-cuts", "datagrams cut at every byte", udpcut21),
        Scenario::new("race-2", "2 concurrent clients, every interleaving up to the deviation bound", || race21(2)).bound(3, 5),
        Scenario::new("race-3", "3 concurrent clients", || race21(3)).bound(1, 3),
        Scenario::new("stalled", "a client that does not read its replies or sends half a record", stalled21),
        Scenario::new("pauses", "two calls to 3 servers in up to three segments, 600 ms to 40 days before and after each, also unread", pauses21),
        Scenario::new("many", "records of up to 3000 fragments, up to 3000 records at once", many21).steps(10_000_000),
    ]
}

// ------------------------------------------------------------------ C28

fn start_table(m: &[[u32; 4]]) {
    let f = |i: usize| Mapping::new(m[i][0], m[i][1], m[i][2], m[i][3]);
    match m.len() {
        0 => start_pmap([]),
        1 => start_pmap([f(0)]),
        2 => start_pmap([f(0), f(1)]),
        3 => start_pmap([f(0), f(1), f(2)]),
        _ => unreachable!(),
    }
}

/// Transport independent call to the port mapper; None = no answer.
fn ask(udp: bool, rpc: &Rpc, u: &UdpSock, proc: u32, args: &X) -> Result<Stat, Violation> {
    let x = rpc.next_xid();
    let b = call_bytes(x, PMAP, 2, proc, &args.0);
    let r = if udp {
        u.send(&b).unwrap();
        run_idle();
        udp_replies(u)
    } else {
        rpc.s.send(&record(&b));
        run_idle();
        rpc.replies()
    };
    no_trouble()?;
    event(format!("{} {} {}: {:?}", if udp { "udp" } else { "tcp" }, proc, show(&args.0), r.iter().map(|(_, s)| s).collect::<Vec<_>>()));
    match &r[..] {
        [(id, s)] if *id == x => Ok(s.clone()),
        r => bad(format!("answers {}", r.len()), format!("call {:#x} of procedure {} is answered {:?}", x, proc, r)),
    }
}

fn table28(max: usize, calls: usize) -> Verdict {
    const PROGS: [u32; 2] = [CORE, 0x2000_0001];
    const VERS: [u32; 2] = [1, 2];
    const PROTS: [u32; 2] = [6, 17];
    const PORTS: [u32; 3] = [1024, 65535, 1];
    let n = choose(max + 1, "mappings");
    let mut t: Vec<[u32; 4]> = Vec::new();
    for i in 0..n {
        let k = [PROGS[choose(2, "program")], VERS[choose(2, "version")], PROTS[choose(2, "protocol")]];
        if t.iter().any(|m| m[..3] == k) {
            // each key once
            return Ok(());
        }
        t.push([k[0], k[1], k[2], PORTS[i]]);
    }
    start_table(&t);
    let rpc = Rpc::new(pmap_addr(), PMAP, 2);
    let u = udp_client(4001);
    for _ in 0..calls {
        let udp = choose(2, "transport") == 1;
        match choose(3, "procedure") {
            0 => {
                let k = [[PROGS[0], PROGS[1], 7, 0, CORE ^ 0x8000_0000][choose(if calls > 1 { 3 } else { 5 }, "program")], [1, 2, 3, 0, 0x101, u32::MAX][choose(if calls > 1 { 3 } else { 6 }, "version")], [6, 17, 1, 0, 0x106, 0x10011][choose(if calls > 1 { 3 } else { 6 }, "protocol")]];
                // the port of the request is ignored
                let port = [0, 1024][choose(2, "port")];
                let r = ask(udp, &rpc, &u, 3, &X::new().u(k[0]).u(k[1]).u(k[2]).u(port))?;
                let w = t.iter().find(|m| m[..3] == k).map_or(0, |m| m[3]);
                if r != Stat::Success(X::new().u(w).0) {
                    return bad("getport", format!("table {:?}: getport {:?} over {} is answered {:?}, the port is {}", t, k, if udp { "UDP" } else { "TCP" }, r, w));
                }
            }
            1 => {
                let r = ask(udp, &rpc, &u, 4, &X::new())?;
                let Stat::Success(b) = &r else { return bad("dump fails", format!("dump is answered {:?}", r)) };
                let mut d = D(b);
                let mut got = Vec::new();
                let ok = (|| loop {
                    match d.u()? {
                        0 => return d.end().then_some(()),
                        1 => got.push([d.u()?, d.u()?, d.u()?, d.u()?]),
                        _ => return None,
                    }
                })();
                let mut t = t.clone();
                got.sort();
                t.sort();
                if ok.is_none() || got != t {
                    return bad("dump", format!("table {:?}: dump over {} is answered {}", t, if udp { "UDP" } else { "TCP" }, show(b)));
                }
            }
            _ => {
                let p = [1, 2, 5, 6, 0xffff_ffff][choose(5, "procedure")];
                let r = ask(udp, &rpc, &u, p, &X::new().u(PROGS[0]).u(1).u(6).u(99))?;
                if r != Stat::ProcUnavail {
                    return bad("unsupported", format!("procedure {} is answered {:?}", p, r));
                }
            }
        }
    }
    Ok(())
}

/// Many mappings: every one is found and the dump holds all.
fn large28() -> Verdict {
    const SIZES: [usize; 11] = [9, 10, 11, 16, 17, 33, 65, 100, 257, 1000, 3000];
    // the same programs come back with other versions and other transports
    let f = |i: usize| [0x2000_0000 + (i / 6) as u32, 1 + (i / 2 % 3) as u32, [6, 17][i % 2], 1 + (i * 7 % 65535) as u32];
    let n = SIZES[choose(SIZES.len(), "mappings")];
    macro_rules! start {
        ($($n:literal)*) => { match n { $($n => start_pmap::<$n>(std::array::from_fn(|i| { let m = f(i); Mapping::new(m[0], m[1], m[2], m[3]) })),)* _ => unreachable!() } };
    }
    start!(9 10 11 16 17 33 65 100 257 1000 3000);
    let rpc = Rpc::new(pmap_addr(), PMAP, 2);
    let u = udp_client(4001);
    let udp = choose(2, "transport") == 1;
    // one more: not in the table
    for i in 0..n + 1 {
        let m = f(i);
        let r = ask(udp, &rpc, &u, 3, &X::new().u(m[0]).u(m[1]).u(m[2]).u(0))?;
        if r != Stat::Success(X::new().u(if i < n { m[3] } else { 0 }).0) {
            return bad("large: getport", format!("table of {} mappings: getport of the {}th, {:?}, is answered {:?}", n, i, m, r));
        }
    }
    let r = ask(udp, &rpc, &u, 4, &X::new())?;
    let Stat::Success(b) = &r else { return bad("dump fails", format!("dump of {} mappings is answered {:?}", n, r)) };
    let mut got: Vec<[u32; 4]> = Vec::new();
    let mut d = D(b);
    while d.u() == Some(1) {
        got.push([d.u(), d.u(), d.u(), d.u()].map(|v| v.unwrap_or(0)));
    }
    got.sort();
    let mut t: Vec<_> = (0..n).map(f).collect();
    t.sort();
    if got != t || b.len() != 20 * n + 4 {
        return bad("large: dump", format!("dump of {} mappings over {} holds {} in {} bytes", n, if udp { "UDP" } else { "TCP" }, got.len(), b.len()));
    }
    Ok(())
}

/// The library's own client asks the port mapper.
fn own28() -> Verdict {
    start_pmap(MAPS.map(|m| Mapping::new(m[0], m[1], m[2], m[3])));
    let udp = choose(2, "transport") == 1;
    let k = [[CORE, ASYNC, INTR][choose(3, "program")], 1 + choose(2, "version") as u32, [6, 17][choose(2, "protocol")]];
    let h = mcrt::spawn_client("client", async move {
        let mut c = if udp { PortMapperClient::connect_udp(pmap_addr()).await } else { PortMapperClient::connect_tcp(pmap_addr()).await }.map_err(|e| format!("{:?}", e))?;
        c.null().await.map_err(|e| format!("null {:?}", e))?;
        let p = c.getport(Mapping::new(k[0], k[1], k[2], 0)).await.map_err(|e| format!("{:?}", e))?;
        let s = c.set(Mapping::new(k[0], k[1], k[2], 1)).await;
        Ok::<_, String>((p, format!("{:?}", s)))
    });
    run_for(SEC);
    no_trouble()?;
    let w = MAPS.iter().find(|m| m[..3] == k).map_or(0, |m| m[3]) as u16;
    match h.try_take() {
        Some(Ok((p, s))) if p == w && s == "Err(ProcUnavail)" => Ok(()),
        r => bad("own client", format!("the library's client asks its own port mapper for {:?} over {}: {:?}, the port is {}", k, if udp { "UDP" } else { "TCP" }, r, w)),
    }
}

pub fn c28() -> Vec<Scenario> {
    let n = q(2, 3);
    vec![
        Scenario::new("tables", "every table of up to 3 mappings (2 programs, 2 versions, 2 protocols), every lookup, dump and unsupported call over TCP and UDP", move || table28(3, 1)),
        Scenario::new("histories", format!("tables of up to 1 mapping, every sequence of {} calls over either transport", n), move || table28(1, n)),
        Scenario::new("own-client", "the library's own client", own28),
        Scenario::new("large", "tables of 9 to 3000 mappings: every lookup and the dump, over TCP and UDP", large28),
    ]
}

// ------------------------------------------------------------------ C29

/// A server of the harness for one client: TCP or UDP.
enum Peer {
    Tcp(TcpListen, Option<Sock>, Vec<u8>),
    Udp(UdpSock, Option<SocketAddr>),
}

impl Peer {
    fn new(udp: bool) -> Peer {
        if udp {
            Peer::Udp(UdpSock::bind(pmap_addr()).unwrap(), None)
        } else {
            Peer::Tcp(TcpListen::bind(pmap_addr()).unwrap(), None, Vec::new())
        }
    }
    /// messages from the client
    fn take(&mut self) -> Vec<Vec<u8>> {
        match self {
            Peer::Tcp(l, s, b) => {
                if s.is_none() {
                    *s = try_accept(l);
                }
                if let Some(s) = s {
                    b.extend(s.recv());
                }
                let mut v = Vec::new();
                while b.len() >= 4 {
                    let h = u32::from_be_bytes(b[..4].try_into().unwrap());
                    let n = (h & 0x7fff_ffff) as usize;
                    if h >> 31 == 0 || b.len() < 4 + n {
                        break;
                    }
                    v.push(b[4..4 + n].to_vec());
                    b.drain(..4 + n);
                }
                v
            }
            Peer::Udp(u, from) => {
                let mut v = Vec::new();
                while let Some((b, a)) = u.try_recv() {
                    *from = Some(a);
                    v.push(b);
                }
                v
            }
        }
    }
    fn send(&self, m: &[u8]) {
        match self {
            Peer::Tcp(_, s, _) => s.as_ref().unwrap().send(&record(m)),
            Peer::Udp(u, a) => {
                let _ = u.send_to(m, a.unwrap());
            }
        }
    }
    fn raw(&self, m: &[u8]) {
        if let Peer::Tcp(_, Some(s), _) = self {
            s.send(m)
        }
    }
    fn close(&mut self) {
        if let Peer::Tcp(_, s, _) = self {
            *s = None;
        }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Call29 {
    Null,
    Set,
    Unset,
    Getport,
    Callit,
}
const CALLS: [Call29; 5] = [Call29::Null, Call29::Set, Call29::Unset, Call29::Getport, Call29::Callit];
const MAP: [u32; 4] = [0x0102_0304, 5, 17, 4322];

/// Ok(printed result) or Err
async fn do29(c: &mut PortMapperClient, k: Call29) -> Result<String, String> {
    let r = call_once29(c, k).await;
    event(format!("{:?}: {:?}", k, r));
    r
}

async fn call_once29(c: &mut PortMapperClient, k: Call29) -> Result<String, String> {
    let m = Mapping::new(MAP[0], MAP[1], MAP[2], MAP[3]);
    let e = |e| format!("{:?}", e);
    match k {
        Call29::Null => c.null().await.map(|r| format!("{:?}", r)).map_err(e),
        Call29::Set => c.set(m).await.map(|r| format!("{:?}", r)).map_err(e),
        Call29::Unset => c.unset(m).await.map(|r| format!("{:?}", r)).map_err(e),
        Call29::Getport => c.getport(m).await.map(|r| format!("{:?}", r)).map_err(e),
        Call29::Callit => c.callit::<u32, String>(7, 8, 9, 0xaabbccdd).await.map(|r| format!("{:?}", r)).map_err(e),
    }
}

/// The call as the standard requires it, without its id.
fn call29(k: Call29) -> Vec<u8> {
    let m = X::new().u(MAP[0]).u(MAP[1]).u(MAP[2]).u(MAP[3]);
    let (p, a) = match k {
        Call29::Null => (0, X::new()),
        Call29::Set => (1, m),
        Call29::Unset => (2, m),
        Call29::Getport => (3, m),
        Call29::Callit => (5, X::new().u(7).u(8).u(9).o(&[0xaa, 0xbb, 0xcc, 0xdd])),
    };
    call_bytes(0, PMAP, 2, p, &a.0)[4..].to_vec()
}

/// A result and how the client must report it.
fn result29(k: Call29, which: usize) -> (Vec<u8>, String) {
    let b = |w: usize| (X::new().u(w as u32).0, format!("{}", w == 1));
    match k {
        Call29::Null => (vec![], "()".into()),
        Call29::Set | Call29::Unset => b(1 - which),
        Call29::Getport => {
            let p = [4322u16, 65535][which];
            (X::new().u(p as u32).0, format!("{}", p))
        }
        Call29::Callit => {
            let s = ["abcdef", "wxyz"][which];
            (X::new().u(1024).o(&X::new().o(s.as_bytes()).0).0, format!("{:?}", s))
        }
    }
}

/// What the server does after a call.
#[derive(Clone, PartialEq, Debug)]
enum Act {
    /// the right reply
    Right(Vec<u8>),
    /// a reply to another call, with this id added to the right one
    Other(u32, Vec<u8>),
    /// an error reply to this call and how the client names it
    Error(Stat, &'static str),
    /// the right reply but incomplete or malformed
    Malformed(Vec<u8>),
    /// a call
    ACall(Vec<u8>),
    /// not a message at all
    Junk(Vec<u8>),
    Close,
}

fn act29(xid: u32, k: Call29, udp: bool, coarse: bool) -> (Act, Option<String>) {
    let (res, text) = result29(k, choose(2, "result"));
    let right = reply_bytes(xid, &Stat::Success(res.clone()));
    let body = |b: &[u8]| X::new().u(xid).raw(b).0;
    match choose(8, "reply") {
        0 => (Act::Right(right), Some(text)),
        1 => {
            let d = [1, 0xffff_ffff, 0x8000_0000][choose(if coarse { 2 } else { 3 }, "other id")];
            let st = match choose(if coarse { 1 } else { 3 }, "other outcome") {
                0 => Stat::Success(res),
                1 => Stat::ProcUnavail,
                _ => Stat::Auth(1),
            };
            (Act::Other(d, reply_bytes(xid.wrapping_add(d), &st)), None)
        }
        2 => {
            let (s, t) = [
                (Stat::ProgUnavail, "ProgUnavail"),
                (Stat::ProgMismatch(3, 4), "ProgMissmatch(MissmatchInfo { low: 3, high: 4 })"),
                (Stat::ProcUnavail, "ProcUnavail"),
                (Stat::GarbageArgs, "GarbageArgs"),
                (Stat::SystemErr, "SystemErr"),
                (Stat::RpcMismatch(2, 3), "RpcMissmatch(MissmatchInfo { low: 2, high: 3 })"),
                (Stat::Auth(1), "AuthError(BadCred)"),
                (Stat::Auth(5), "AuthError(TooWeak)"),
                (Stat::Auth(7), "AuthError(Failed)"),
            ][choose(if coarse { 1 } else { 9 }, "error")]
                .clone();
            (Act::Error(s, t), None)
        }
        3 => {
            let n = if coarse { right.len() - 1 } else { choose(right.len(), "cut") };
            (Act::Malformed(right[..n].to_vec()), None)
        }
        4 => {
            let m = match choose(if coarse { 1 } else { 7 }, "malformed") {
                0 => body(&X::new().u(1).u(2).u(0).u(0).u(0).raw(&res).0),
                1 => body(&X::new().u(1).u(0).u(0).u(0).u(6).raw(&res).0),
                2 => body(&X::new().u(1).u(1).u(2).u(0).u(0).0),
                3 => body(&X::new().u(3).u(0).u(0).u(0).u(0).raw(&res).0),
                4 => body(&X::new().u(1).u(0).u(0).u(9).u(0).u(0).raw(&res).0),
                5 => body(&X::new().u(1).u(0).u(0).u(0xffff_ffff).u(0).raw(&res).0),
                _ => body(&X::new().u(1).u(1).u(0).u(2).0),
            };
            (Act::Malformed(m), None)
        }
        5 => {
            let m = if choose(2, "same id") == 0 { call_bytes(xid, PMAP, 2, 3, b"\0\0\0\x01\0\0\0\x01\0\0\0\x01\0\0\0\x01") } else { call_bytes(xid + 5, PMAP, 2, 0, b"") };
            (Act::ACall(m), None)
        }
        6 => (Act::Junk([&b""[..], b"x", b"abcdefg", &[0; 64], &[0xff; 64]][if coarse { 4 } else { choose(5, "junk") }].to_vec()), None),
        _ => (if udp { Act::Junk(vec![]) } else { Act::Close }, None),
    }
}

/// The client makes `calls` calls; to each the server sends up to `replies` messages.
fn client29(calls: usize, replies: usize, coarse: bool) -> Verdict {
    let udp = choose(2, "transport") == 1;
    let ks: Vec<Call29> = (0..calls).map(|_| CALLS[choose(5, "call")]).collect();
    let mut peer = Peer::new(udp);
    let ks2 = ks.clone();
    let results = std::rc::Rc::new(std::cell::RefCell::new(Vec::new()));
    let res2 = results.clone();
    let h = local(async move {
        let mut c = if udp { PortMapperClient::connect_udp(pmap_addr()).await } else { PortMapperClient::connect_tcp(pmap_addr()).await }.unwrap();
        for k in ks2 {
            let r = do29(&mut c, k).await;
            res2.borrow_mut().push(r);
        }
    });
    let mut ctx = format!("{}: ", if udp { "UDP" } else { "TCP" });
    let mut xids: Vec<u32> = Vec::new();
    for (i, k) in ks.iter().enumerate() {
        run_idle();
        no_trouble()?;
        let m = peer.take();
        if m.is_empty() && results.borrow().len() > i {
            // the client gave up on this connection before
            if results.borrow()[i].is_ok() {
                return bad("result without call", format!("{}call {} returns {:?} without asking", ctx, i, results.borrow()[i]));
            }
            continue;
        }
        if m.len() != 1 || m[0].len() < 4 || m[0][4..] != call29(*k)[..] {
            return bad(format!("encoding {:?}", k), format!("{}call {:?} is sent as {} messages [{}]; expected [xid {}]", ctx, k, m.len(), m.iter().map(|m| show(m)).collect::<Vec<_>>().join("] ["), show(&call29(*k))));
        }
        let xid = u32::from_be_bytes(m[0][..4].try_into().unwrap());
        if xids.contains(&xid) {
            return bad("xid used twice", format!("{}id {:#x} is used for two calls", ctx, xid));
        }
        ctx.push_str(&format!("call {:?}; ", k));
        // the outcomes which are allowed for this call: the first message of this id decides
        let mut decided: Option<Result<String, Option<&'static str>>> = None;
        let mut may_fail = false;
        let mut closed = false;
        for _ in 0..replies {
            if results.borrow().len() > i || closed {
                break;
            }
            let (a, text) = if i > 0 && choose(2, "stale") == 1 {
                // the answer to the previous call once more
                let (r, _) = result29(ks[i - 1], 0);
                (Act::Other(0, reply_bytes(xids[i - 1], &Stat::Success(r))), None)
            } else {
                act29(xid, *k, udp, coarse)
            };
            ctx.push_str(&match &a {
                Act::Right(b) | Act::Other(_, b) | Act::Malformed(b) | Act::ACall(b) | Act::Junk(b) => format!("server sends [{}]; ", show(b)),
                Act::Error(s, _) => format!("server sends {:?}; ", s),
                Act::Close => "server closes; ".to_string(),
            });
            match a {
                Act::Right(b) => {
                    peer.send(&b);
                    decided.get_or_insert(Ok(text.unwrap()));
                }
                Act::Error(s, t) => {
                    peer.send(&reply_bytes(xid, &s));
                    decided.get_or_insert(Err(Some(t)));
                }
                Act::Malformed(b) => {
                    peer.send(&b);
                    if b.len() < 4 {
                        may_fail = true;
                    } else {
                        decided.get_or_insert(Err(None));
                    }
                }
                Act::Other(_, b) => {
                    peer.send(&b);
                }
                Act::ACall(b) | Act::Junk(b) => {
                    peer.send(&b);
                    may_fail = true;
                }
                Act::Close => {
                    peer.close();
                    closed = true;
                    decided.get_or_insert(Err(None));
                }
            }
            run_idle();
            no_trouble()?;
        }
        run_idle();
        no_trouble()?;
        let r = results.borrow().get(i).cloned();
        let ok = match (&r, &decided) {
            (None, None) => true,
            // an undecodable message of the right id may be skipped
            (None, Some(Err(None))) => !closed,
            (None, Some(_)) => false,
            (Some(Err(_)), None) => may_fail,
            (Some(Err(_)), Some(Ok(_))) => may_fail,
            (Some(Err(e)), Some(Err(t))) => may_fail || t.map_or(true, |t| t == e),
            (Some(Ok(a)), Some(Ok(b))) => a == b,
            (Some(Ok(_)), _) => false,
        };
        if !ok {
            return bad(format!("{:?} of {:?}", r.as_ref().map(|r| r.is_ok()), decided.as_ref().map(|d| d.is_ok())), format!("{}the client returns {:?}, expected {:?}", ctx, r, decided));
        }
        if r.is_none() {
            // it still waits: the right answer ends the wait
            let (res, text) = result29(*k, 0);
            peer.send(&reply_bytes(xid, &Stat::Success(res)));
            run_idle();
            no_trouble()?;
            let r = results.borrow().get(i).cloned();
            let malformed = matches!(decided, Some(Err(None)));
            if !matches!(&r, Some(Ok(x)) if *x == text) && !malformed && !may_fail {
                return bad("late answer", format!("{}then the answer arrives and the client returns {:?}", ctx, r));
            }
            if r.is_none() {
                return Ok(());
            }
        }
        xids.push(xid);
    }
    run_idle();
    no_trouble()?;
    let r = h.borrow_mut().take();
    match r {
        Some(()) => Ok(()),
        None => bad("client hangs", format!("{}the client does not return", ctx)),
    }
}

/// Any number of replies to other calls, at once or with time between, before the right one, call after call.
fn foreign29() -> Verdict {
    let udp = choose(2, "transport") == 1;
    let k = CALLS[choose(5, "call")];
    let n = [4, 7, 20, 65, 260, 1100][choose(6, "foreign replies")];
    let gap = [0, 100, 61_000][choose(3, "pause")];
    let lone = choose(2, "all with the same id") == 1;
    let mut peer = Peer::new(udp);
    let out = local(async move {
        let mut c = if udp { PortMapperClient::connect_udp(pmap_addr()).await } else { PortMapperClient::connect_tcp(pmap_addr()).await }.unwrap();
        let a = do29(&mut c, k).await;
        (a, do29(&mut c, k).await)
    });
    let mut texts = Vec::new();
    for i in 0..2 {
        run_idle();
        let m = peer.take();
        no_trouble()?;
        if m.len() != 1 || m[0].len() < 4 {
            return bad("call", format!("{:?} is sent as {} messages", k, m.len()));
        }
        let xid = u32::from_be_bytes(m[0][..4].try_into().unwrap());
        let (res, text) = result29(k, i);
        for j in 0..n {
            let x = if lone { xid ^ 0x100 } else { xid.wrapping_add(1 + j) };
            peer.send(&reply_bytes(x, &Stat::Success(result29(k, 1 - i).0)));
            if gap > 0 && j < 20 {
                pause(gap);
            }
        }
        peer.send(&reply_bytes(xid, &Stat::Success(res)));
        texts.push(Ok::<String, String>(text));
    }
    run_idle();
    no_trouble()?;
    let r = out.borrow_mut().take();
    let ok = matches!(&r, Some((a, b)) if *a == texts[0] && *b == texts[1]);
    if !ok {
        return bad(format!("foreign {} {:?}", n, r), format!("{} call {:?} answered after {} replies to other calls{}: the client returns {:?}, expected {:?}", if udp { "UDP" } else { "TCP" }, k, n, if gap > 0 { format!(" {} ms apart", gap) } else { String::new() }, r, texts));
    }
    Ok(())
}

/// Replies over TCP in fragments and segments, with the connection ending anywhere.
fn segs29() -> Verdict {
    let k = CALLS[choose(5, "call")];
    let mut peer = Peer::new(false);
    let out = local(async move {
        let mut c = PortMapperClient::connect_tcp(pmap_addr()).await.unwrap();
        do29(&mut c, k).await
    });
    run_idle();
    let m = peer.take();
    let xid = u32::from_be_bytes(m[0][..4].try_into().unwrap());
    let (res, text) = result29(k, 0);
    let stale = choose(2, "another reply before") == 1;
    let r = reply_bytes(xid, &Stat::Success(res));
    let mut b = Vec::new();
    if stale {
        b.extend(record(&reply_bytes(xid ^ 1, &Stat::Success(result29(k, 1).0))));
    }
    let f = choose(r.len() + 2, "fragment");
    if f <= r.len() {
        b.extend(X::new().u(f as u32).raw(&r[..f]).u(0x8000_0000 | (r.len() - f) as u32).raw(&r[f..]).0);
    } else {
        b.extend(record(&r));
    }
    let end = choose(b.len() + 1, "connection ends after");
    let cut = choose(end + 1, "segment");
    peer.raw(&b[..cut]);
    run_idle();
    peer.raw(&b[cut..end]);
    run_idle();
    if end < b.len() {
        peer.close();
        run_idle();
    }
    no_trouble()?;
    let x = out.borrow_mut().take();
    let ok = match &x {
        Some(Ok(t)) => end == b.len() && *t == text,
        Some(Err(_)) => end < b.len(),
        _ => false,
    };
    if !ok {
        return bad(format!("segments {:?}", k), format!("reply to {:?}{} in a fragment of {} bytes and the rest, ending after {} of {} bytes: the client returns {:?}, expected {}", k, if stale { " after a reply to another call" } else { "" }, f, end, b.len(), x, if end == b.len() { &text } else { "an error" }));
    }
    Ok(())
}

/// A reply which takes its time.
fn pauses29() -> Verdict {
    let udp = choose(2, "transport") == 1;
    let k = CALLS[choose(CALLS.len(), "call")];
    let mut peer = Peer::new(udp);
    let gap = PAUSES[choose(PAUSES.len(), "pause")];
    let out = local(async move {
        let mut c = if udp { PortMapperClient::connect_udp(pmap_addr()).await } else { PortMapperClient::connect_tcp(pmap_addr()).await }.map_err(|e| format!("{:?}", e))?;
        let a = do29(&mut c, k).await;
        let b = do29(&mut c, k).await;
        Ok::<_, String>((a, b))
    });
    run_idle();
    for n in 0..2 {
        let got = peer.take();
        let [m] = &got[..] else { return bad("pauses: calls", format!("{:?}: the client sends {} calls instead of one", k, got.len())) };
        let (r, _) = result29(k, n % 2);
        let xid = D(m).u().unwrap_or(0);
        let reply = reply_bytes(xid, &Stat::Success(r));
        if choose(2, "before") == 1 {
            pause(gap);
        }
        if udp {
            peer.send(&reply);
        } else {
            let b = record(&reply);
            let cut = [0, 2, 4, 10, b.len() - 1][choose(5, "cut")];
            peer.raw(&b[..cut]);
            pause(gap);
            peer.raw(&b[cut..]);
        }
        run_idle();
    }
    no_trouble()?;
    let x = out.borrow_mut().take();
    match &x {
        Some(Ok((Ok(a), Ok(b)))) if *a == result29(k, 0).1 && *b == result29(k, 1).1 => Ok(()),
        x => bad(format!("pauses {:?}", k), format!("{:?} over {}, the replies take {} ms: the client returns {:?}", k, if udp { "UDP" } else { "TCP" }, gap, x)),
    }
}

/// Run a client future; its result appears in the cell.
pub fn local<T: 'static>(f: impl std::future::Future<Output = T> + 'static) -> std::rc::Rc<std::cell::RefCell<Option<T>>> {
    struct S<F>(F);
    // one thread only
    unsafe impl<F> Send for S<F> {}
    impl<F: std::future::Future + Unpin> std::future::Future for S<F> {
        type Output = F::Output;
        fn poll(mut self: std::pin::Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> std::task::Poll<F::Output> {
            std::pin::Pin::new(&mut self.0).poll(cx)
        }
    }
    let c = std::rc::Rc::new(std::cell::RefCell::new(None));
    let c2 = c.clone();
    mcrt::spawn_client(
        "rpc client",
        S(Box::pin(async move {
            let r = f.await;
            *c2.borrow_mut() = Some(r);
        })),
    );
    c
}

/// Registration: with the client, and by the server builder.
fn register29() -> Verdict {
    let builder = choose(2, "builder") == 1;
    let mut peer = Peer::new(false);
    let p = Probe::new();
    let m = Mapping::new(MAP[0], MAP[1], MAP[2], MAP[3]);
    let ports = [(1024u16, 1025u16), (0, 1025), (1024, 0)][if builder { choose(3, "ports") } else { 0 }];
    let h = if builder {
        let (lock, dev) = (lxi_device::lock::SharedLock::new(), p.device());
        local(async move { VxiServerBuilder::new().core_port(ports.0).async_port(ports.1).device("inst0".into(), dev, lock).register_portmap(pmap_addr()).await.map(|_| ()).map_err(|e| format!("{:?}", e)) })
    } else {
        local(async move {
            let mut c = PortMapperClient::connect_tcp(pmap_addr()).await.unwrap();
            c.register(m).await.map_err(|e| format!("{:?}", e))
        })
    };
    run_idle();
    let want: Vec<(u32, [u32; 4])> = match (builder, ports.0 != 0 && ports.1 != 0) {
        (true, true) => vec![(1, [CORE, 1, 6, ports.0 as u32]), (1, [ASYNC, 1, 6, ports.1 as u32])],
        (true, false) => vec![],
        _ => vec![(2, MAP), (1, MAP)],
    };
    let mut answers = Vec::new();
    for (proc, m) in &want {
        let got = peer.take();
        let e = call_bytes(0, PMAP, 2, *proc, &X::new().u(m[0]).u(m[1]).u(m[2]).u(m[3]).0);
        if got.is_empty() && answers.iter().any(|a| *a != 0) {
            break;
        }
        if got.len() != 1 || got[0][4..] != e[4..] {
            return bad("registration call", format!("expected procedure {} with {:?}, got [{}]", proc, m, got.iter().map(|m| show(m)).collect::<Vec<_>>().join("] [")));
        }
        let a = choose(4, "answer");
        answers.push(a);
        let x = u32::from_be_bytes(got[0][..4].try_into().unwrap());
        match a {
            0 | 1 => peer.send(&reply_bytes(x, &Stat::Success(X::new().b(a == 0).0))),
            2 => peer.send(&reply_bytes(x, &Stat::SystemErr)),
            _ => peer.close(),
        }
        run_idle();
    }
    no_trouble()?;
    let ok = !want.is_empty() && answers.len() == want.len() && answers.iter().all(|a| *a == 0);
    let r = h.borrow_mut().take();
    match r {
        Some(r) if r.is_ok() == ok => Ok(()),
        r => bad("registration result", format!("registration with the answers {:?} returns {:?}", answers, r)),
    }
}

/// The port mapper on another host.
fn far29() -> Verdict {
    let udp = choose(2, "transport") == 1;
    let a: SocketAddr = ["127.0.0.1:111", "10.0.0.5:111", "127.0.0.1:30111"][choose(3, "address")].parse().unwrap();
    let mut peer = if udp { Peer::Udp(UdpSock::bind(a).unwrap(), None) } else { Peer::Tcp(TcpListen::bind(a).unwrap(), None, Vec::new()) };
    let h = local(async move {
        let mut c = if udp { PortMapperClient::connect_udp(a).await } else { PortMapperClient::connect_tcp(a).await }.map_err(|e| format!("connect: {:?}", e))?;
        do29(&mut c, Call29::Getport).await
    });
    run_idle();
    no_trouble()?;
    if let Some(m) = peer.take().first() {
        peer.send(&reply_bytes(u32::from_be_bytes(m[..4].try_into().unwrap()), &Stat::Success(result29(Call29::Getport, 0).0)));
        run_idle();
    }
    no_trouble()?;
    let r = h.borrow_mut().take();
    match &r {
        Some(Ok(t)) if *t == result29(Call29::Getport, 0).1 => Ok(()),
        r => bad("far server", format!("asking the port mapper at {} over {} returns {:?}", a, if udp { "UDP" } else { "TCP" }, r)),
    }
}

/// Arguments and results of all sizes.
fn sizes29() -> Verdict {
    const N: [usize; 22] = [0, 1, 3, 255, 256, 399, 400, 401, 979, 980, 983, 984, 985, 1024, 1455, 1456, 1500, 4096, 8191, 8192, 30000, 60000];
    let udp = choose(2, "transport") == 1;
    let (n, m) = (N[choose(N.len(), "argument size")], N[choose(N.len(), "result size")]);
    let text = |n: usize| "0123456789abc".chars().cycle().take(n).collect::<String>();
    let (arg, want) = (text(n), text(m));
    let mut peer = Peer::new(udp);
    let a = arg.clone();
    let h = local(async move {
        let mut c = if udp { PortMapperClient::connect_udp(pmap_addr()).await } else { PortMapperClient::connect_tcp(pmap_addr()).await }.unwrap();
        c.callit::<String, String>(7, 8, 9, a).await.map_err(|e| format!("{:?}", e))
    });
    run_idle();
    no_trouble()?;
    let got = peer.take();
    let e = call_bytes(0, PMAP, 2, 5, &X::new().u(7).u(8).u(9).o(&X::new().o(arg.as_bytes()).0).0);
    if got.len() != 1 || got[0][4..] != e[4..] {
        return bad("call of this size", format!("a call with an argument of {} bytes is sent as {:?} bytes which differ from the standard's {}", n, got.iter().map(|m| m.len()).collect::<Vec<_>>(), e.len()));
    }
    let x = u32::from_be_bytes(got[0][..4].try_into().unwrap());
    peer.send(&reply_bytes(x, &Stat::Success(X::new().u(1024).o(&X::new().o(want.as_bytes()).0).0)));
    run_idle();
    no_trouble()?;
    let r = h.borrow_mut().take();
    match r {
        Some(Ok(s)) if s == want => Ok(()),
        r => bad("result of this size", format!("a result of {} bytes over {} comes back as {}", m, if udp { "UDP" } else { "TCP" }, match r { Some(Ok(s)) => format!("{} bytes", s.len()), Some(Err(e)) => e, None => "nothing".into() })),
    }
}

pub fn c29() -> Vec<Scenario> {
    let n = q(3, 4);
    vec![
        Scenario::new("pauses", "5 calls over TCP and UDP, replies that take 600 ms to 40 days, also in pieces", pauses29),
        Scenario::new("replies", format!("every call of the port mapper client over TCP and UDP, every sequence of up to {} replies (right, of other calls, errors, cut at every byte, malformed, calls, junk, closed)", n), move || client29(1, n, false)),
        Scenario::new("two-calls", "two calls after another, up to 1 reply each including repeated ones", || client29(2, 1, false)),
        Scenario::new("two-calls-2", "two calls after another, up to 2 replies each of a smaller set", || client29(2, 2, true)),
        Scenario::new("segments", "replies in two fragments and segments, the connection ending anywhere", segs29),
        Scenario::new("foreign", "4 to 1100 replies to other calls, with and without time between, before the right one, two calls in a row, TCP and UDP", foreign29),
        Scenario::new("addresses", "port mappers on this and another host", far29),
        Scenario::new("sizes", "arguments and results of 0 to 60000 bytes over TCP and UDP", sizes29),
        Scenario::new("registration", "registration by the client and the server builder", register29),
    ]
}

// ------------------------------------------------------------------ C30

/// One round trip through the client: what is sent for `v`, and what is returned for these bytes.
/// `enc`: the standard's form of the value. `lax`: bytes of the encoding whose value does not matter.
fn trip<T, F, G>(v: T, enc: Vec<u8>, eq: G, call: F) -> Verdict
where
    T: Clone + std::fmt::Debug + 'static,
    G: Fn(&T, &T) -> bool,
    F: FnOnce(PortMapperClient, T) -> futures::future::LocalBoxFuture<'static, Result<T, String>> + 'static,
{
    let udp = choose(2, "transport") == 1;
    let mut peer = Peer::new(udp);
    let cut = choose(enc.len() + 1, "cut");
    let v2 = v.clone();
    let h = local(async move {
        let c = if udp { PortMapperClient::connect_udp(pmap_addr()).await } else { PortMapperClient::connect_tcp(pmap_addr()).await }.unwrap();
        call(c, v2).await
    });
    run_idle();
    no_trouble()?;
    let m = peer.take();
    let e = call_bytes(0, PMAP, 2, 5, &X::new().u(1).u(2).u(3).o(&enc).0);
    if m.len() != 1 || m[0][4..] != e[4..] {
        return bad(format!("encoding {}", std::any::type_name::<T>()), format!("{:?} is sent as [{}]; expected [xid {}]", v, m.iter().map(|m| show(m)).collect::<Vec<_>>().join("] ["), show(&e[4..])));
    }
    let x = u32::from_be_bytes(m[0][..4].try_into().unwrap());
    peer.send(&reply_bytes(x, &Stat::Success(X::new().u(1024).o(&enc[..cut]).0)));
    run_idle();
    no_trouble()?;
    let r = h.borrow_mut().take();
    match &r {
        Some(Ok(r)) if cut == enc.len() && eq(r, &v) => Ok(()),
        Some(Err(_)) if cut < enc.len() => Ok(()),
        r => bad(format!("decoding {} cut={}", std::any::type_name::<T>(), cut < enc.len()), format!("[{}], {} of {} bytes of {:?}, is decoded as {:?}", show(&enc[..cut]), cut, enc.len(), v, r)),
    }
}

macro_rules! trip {
    ($v:expr, $enc:expr) => {
        trip!($v, $enc, |a, b| a == b)
    };
    ($v:expr, $enc:expr, $eq:expr) => {
        trip($v, $enc.0, $eq, |mut c, v| Box::pin(async move { c.callit(1, 2, 3, v).await.map_err(|e| format!("{:?}", e)) }))
    };
}

fn u64s() -> u64 {
    let k = choose(2 * 64 + 2, "value");
    match k {
        0..=63 => 1u64 << k,
        64..=127 => (1u64 << (k - 64)).wrapping_neg(),
        128 => 0,
        _ => 0x0123_4567_89ab_cdef,
    }
}

fn bytes(max: usize) -> Vec<u8> {
    let n = choose(max + 1, "length");
    let c = choose(3, "content");
    (0..n).map(|i| [i as u8 + b'a', 0, 0x7f][c]).collect()
}

fn h64(x: X, v: u64) -> X {
    x.u((v >> 32) as u32).u(v as u32)
}

fn arr<T>(v: &[T], f: impl Fn(X, &T) -> X) -> X {
    v.iter().fold(X::new().u(v.len() as u32), f)
}

fn values30() -> Verdict {
    match choose(17, "type") {
        0 => {
            let v = u64s() as u32;
            trip!(v, X::new().u(v))
        }
        1 => {
            let v = u64s() as i32;
            trip!(v, X::new().u(v as u32))
        }
        2 => {
            let v = u64s();
            trip!(v, h64(X::new(), v))
        }
        3 => {
            let v = u64s() as i64;
            trip!(v, h64(X::new(), v as u64))
        }
        4 => {
            let v = u64s() as u16;
            trip!(v, X::new().u(v as u32))
        }
        5 => {
            let v = u64s() as i16;
            trip!(v, X::new().u(v as i32 as u32))
        }
        6 => {
            let v = choose(256, "value") as u8;
            trip!(v, X::new().u(v as u32))
        }
        7 => {
            let v = choose(256, "value") as u8 as i8;
            trip!(v, X::new().u(v as i32 as u32))
        }
        8 => {
            let v = choose(2, "value") == 1;
            trip!(v, X::new().u(v as u32))
        }
        9 => {
            let v = f32::from_bits(u64s() as u32);
            trip!(v, X::new().u(v.to_bits()), |a, b| a.to_bits() == b.to_bits() || a.is_nan() && b.is_nan())
        }
        10 => {
            let v = f64::from_bits(u64s());
            trip!(v, h64(X::new(), v.to_bits()), |a, b| a.to_bits() == b.to_bits() || a.is_nan() && b.is_nan())
        }
        11 => {
            let v = String::from_utf8(bytes(9)).unwrap();
            trip!(v.clone(), X::new().o(v.as_bytes()))
        }
        12 => {
            // longer in bytes than in characters
            let v = ["\u{e9}", "a\u{20ac}", "\u{1f600}ab", "\u{e9}\u{e9}\u{e9}"][choose(4, "text")].to_string();
            trip!(v.clone(), X::new().o(v.as_bytes()))
        }
        13 => {
            let v: Vec<u32> = bytes(4).iter().map(|x| *x as u32 * 0x0101_0101).collect();
            trip!(v.clone(), arr(&v, |x, e| x.u(*e)))
        }
        14 => {
            let v: Vec<String> = (0..choose(3, "elements")).map(|_| String::from_utf8(bytes(4)).unwrap()).collect();
            trip!(v.clone(), arr(&v, |x, e| x.o(e.as_bytes())))
        }
        15 => {
            let v: Option<Option<String>> = match choose(3, "option") {
                0 => None,
                1 => Some(None),
                _ => Some(Some(String::from_utf8(bytes(5)).unwrap())),
            };
            let x = match &v {
                None => X::new().u(0),
                Some(None) => X::new().u(1).u(0),
                Some(Some(s)) => X::new().u(1).u(1).o(s.as_bytes()),
            };
            trip!(v, x)
        }
        _ => match choose(3, "array") {
            0 => {
                let v = [u64s() as u32, 7, 0x8000_0000];
                trip!(v, X::new().u(v[0]).u(v[1]).u(v[2]))
            }
            1 => {
                let v = [String::from_utf8(bytes(3)).unwrap(), "xy".to_string()];
                trip!(v.clone(), X::new().o(v[0].as_bytes()).o(v[1].as_bytes()))
            }
            _ => {
                let v = Mapping::new(u64s() as u32, 2, 6, 4322);
                trip!(v, X::new().u(v.prog).u(v.vers).u(v.prot).u(v.port))
            }
        },
    }
}

/// Decode these bytes as T.
fn decode30<T: std::fmt::Debug + 'static>(raw: Vec<u8>, fail: bool, call: impl FnOnce(PortMapperClient) -> futures::future::LocalBoxFuture<'static, Result<T, String>> + 'static) -> Verdict {
    let mut peer = Peer::new(false);
    let h = local(async move { call(PortMapperClient::connect_tcp(pmap_addr()).await.unwrap()).await });
    run_idle();
    let m = peer.take();
    let x = u32::from_be_bytes(m[0][..4].try_into().unwrap());
    peer.send(&reply_bytes(x, &Stat::Success(X::new().u(1024).o(&raw).0)));
    run_idle();
    no_trouble()?;
    let r = h.borrow_mut().take();
    match &r {
        Some(Err(_)) if fail => Ok(()),
        Some(Ok(_)) if !fail => Ok(()),
        r => bad(format!("malformed {}", std::any::type_name::<T>()), format!("[{}] is decoded as {} {:?}", show(&raw), std::any::type_name::<T>(), r)),
    }
}

/// Malformed encodings: lengths beyond the data, text that is none, numbers out of range.
fn malformed30() -> Verdict {
    macro_rules! d {
        ($t:ty, $raw:expr) => {
            decode30::<$t>($raw.0, true, |mut c| Box::pin(async move { c.callit::<(), $t>(1, 2, 3, ()).await.map_err(|e| format!("{:?}", e)) }))
        };
    }
    let lens = [2u32, 5, 8, 0x7fff_ffff, 0xffff_ffff, 0xffff_fffc, 0x8000_0000];
    let l = lens[choose(lens.len(), "length")];
    let data = [&b""[..], b"a", b"abcd"][choose(3, "data")];
    match choose(8, "type") {
        0 if l as usize > data.len() => d!(String, X::new().u(l).raw(data)),
        1 if l as usize > data.len() / 4 => d!(Vec<u32>, X::new().u(l).raw(data)),
        2 => d!(Vec<String>, X::new().u(l).u(1).raw(b"a\0\0\0")),
        3 => d!(String, X::new().o(&[0xff, 0xfe, b'a'][..1 + choose(3, "bytes")])),
        4 => d!(u16, X::new().u([0x1_0000, 0x7fff_ffff, 0xffff_ffff, 0x1_0050][choose(4, "value")])),
        5 => d!(i16, X::new().u([0x8000, 0x7fff_ffff, 0xffff_7fff, 0x1_0000][choose(4, "value")])),
        6 => d!(i8, X::new().u([0x80, 0xffff_ff7f, 0x100][choose(3, "value")])),
        7 => d!(Option<String>, X::new().u(1).u(l.max(8)).raw(data)),
        _ => Ok(()),
    }
}

/// Results and arguments that fill several types: a server's own decoding, over every data length.
fn server30() -> Verdict {
    let p = Probe::with(|c| Some([c, &[b'!'][..]].concat()));
    start_vxi(&p);
    let r = Rpc::core();
    let lid = link(&r)?;
    let d = bytes(9);
    let x = r.must(&Op::Write { lid, flags: ENDF, to: 0, data: d.clone() })?;
    if x != (Res::Write { err: 0, size: d.len() as u32 }) || p.execs() != vec![d.clone()] {
        return bad("write", format!("writing \"{}\" is answered {:?}, the device executed [{}]", show(&d), x, p.execs().iter().map(|x| show(x)).collect::<Vec<_>>().join(", ")));
    }
    let want = [&d[..], b"!"].concat();
    let x = r.must(&Op::Read { lid, flags: 0, to: 0, size: 100, term: 0 })?;
    if x != (Res::Read { err: 0, reason: 4, data: want.clone() }) {
        return bad("read", format!("the response \"{}\" is read as {:?}", show(&want), x));
    }
    // the last word: every link id is decoded exactly
    let b = choose(32, "bit");
    let other = lid ^ (1 << b);
    if r.must(&Op::Stb { lid: other, flags: 0, to: 0 })?.err() != 4 || r.must(&Op::Stb { lid, flags: 0, to: 0 })?.err() != 0 {
        return bad("link id", format!("link {:#x} is taken for {:#x}", other, lid));
    }
    Ok(())
}

/// Every type of the crate's XDR modules in both directions, also the private ones (see mc/xdr).
pub fn c30() -> Vec<Scenario> {
    vec![
        Scenario::new(
            "private",
            "every type of the XDR, RPC, port mapper and VXI-11 modules (154,000 values, 2.8 million encodings): encoded in pieces and without room, decoded with other data behind it and in pieces, every prefix, numbers and alternatives out of range",
            || private_types("xdrall"),
        ),
        Scenario::new("values", "values of every XDR type (every bit position, lengths 0-9), sent and received, the encoding cut at every byte", values30),
        Scenario::new("malformed", "lengths beyond the data, invalid text, numbers out of range", malformed30),
        Scenario::new("server", "opaque data of lengths 0-9 and link ids through the VXI-11 server", server30),
    ]
}
