//! C11, C12, C31: junk, connection faults and addresses, against every server.
use super::cross::*;
use super::sock::*;
use super::vxi::Shared;
use crate::common::*;
use crate::dev::*;
use crate::hs;
use crate::vx;
use crate::vx::{call_bytes, record, Op, Res, Rpc, Stat, ENDF, WAIT, X};
use lxi_device::lock::SharedLock;
use lxi_vxi11::server::portmapper::prelude::*;
use lxi_vxi11::server::vxi11::prelude::*;
use mcrt::net::{Sock, UdpSock};
use std::io::ErrorKind;
use std::net::SocketAddr;

/// Everything that listens.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ep {
    P(P),
    Abort,
    Pmap,
    Udp,
}
pub const EPS: [Ep; 8] = [Ep::P(P::Raw), Ep::P(P::Unix), Ep::P(P::Tel), Ep::P(P::Hs), Ep::P(P::Vx), Ep::Abort, Ep::Pmap, Ep::Udp];

impl Ep {
    pub fn name(self) -> String {
        match self {
            Ep::P(p) => format!("{:?}", p),
            e => format!("{:?}", e),
        }
    }
    pub fn addr(self) -> SocketAddr {
        match self {
            Ep::P(P::Raw) => raw_addr(),
            Ep::P(P::Unix) => net::unix_addr(UNIX),
            Ep::P(P::Tel) => telnet_addr(),
            Ep::P(P::Hs) => hs::addr(),
            Ep::P(P::Vx) => vx::core_addr(),
            Ep::Abort => vx::async_addr(),
            Ep::Pmap | Ep::Udp => vx::pmap_addr(),
        }
    }
}

pub fn start_everything() -> Probe {
    let p = Probe::new();
    start_all(&p, &ALL);
    vx::start_pmap([
        Mapping::new(DEVICE_CORE, DEVICE_CORE_VERSION, PORTMAPPER_PROT_TCP, vx::core_addr().port() as u32),
        Mapping::new(DEVICE_ASYNC, DEVICE_ASYNC_VERSION, PORTMAPPER_PROT_TCP, vx::async_addr().port() as u32),
    ]);
    p
}

/// A well-behaved client.
pub enum G {
    Cl(Cl),
    Abort(Rpc),
    Pmap(Rpc),
    Udp(UdpSock, u32),
}

pub fn getport() -> Vec<u8> {
    X::new().u(vx::CORE).u(1).u(6).u(0).0
}

impl G {
    /// `s`: a connection made earlier
    pub fn open(ep: Ep, s: Option<Sock>, ctx: &str) -> Result<G, Violation> {
        let conn = || net::connect(ep.addr());
        let refused = |_| Violation { sig: format!("refused {}", ctx), msg: format!("{}: {} does not accept connections any more", ctx, ep.name()) };
        let s = match (ep, s) {
            (Ep::Udp, _) => {
                if !net::udp_bound(ep.addr()) {
                    return Err(refused(ErrorKind::Other.into()));
                }
                return Ok(G::Udp(UdpSock::bind("127.0.0.1:0".parse().unwrap()).unwrap(), 0x900));
            }
            (_, Some(s)) => s,
            _ => conn().map_err(refused)?,
        };
        Ok(match ep {
            Ep::P(w @ (P::Raw | P::Unix | P::Tel)) => {
                run_idle();
                G::Cl(Cl::Line { s, tel: w == P::Tel, buf: Vec::new() })
            }
            Ep::P(P::Hs) => {
                let sync = hs::Conn::of(s);
                sync.send(hs::INIT, 0, (hs::V1 as u32) << 16 | 0x5858, b"hislip0");
                let r = sync.idle();
                no_trouble()?;
                if r.len() != 1 || r[0].typ != hs::INIT_R {
                    return bad(format!("open {}", ctx), format!("{}: Initialize is answered by [{}]", ctx, hs::texts(&r)));
                }
                let id = r[0].param as u16;
                let asy = hs::Conn::of(conn().map_err(refused)?);
                asy.send(hs::AINIT, 0, id as u32, b"");
                let r = asy.idle();
                no_trouble()?;
                if r.len() != 1 || r[0].typ != hs::AINIT_R {
                    return bad(format!("open {}", ctx), format!("{}: AsyncInitialize is answered by [{}]", ctx, hs::texts(&r)));
                }
                G::Cl(Cl::Hs(hs::Sess { id, sync, asy }))
            }
            Ep::P(P::Vx) => {
                let r = Rpc::of(s, vx::CORE, 1);
                let lid = vx::link(&r).map_err(|v| Violation { sig: format!("{} {}", v.sig, ctx), msg: format!("{}: {}", ctx, v.msg) })?;
                G::Cl(Cl::Vx { r, lid })
            }
            Ep::Abort => G::Abort(Rpc::of(s, vx::ASYNC, 1)),
            Ep::Pmap => G::Pmap(Rpc::of(s, vx::PMAP, 2)),
            Ep::Udp => unreachable!(),
        })
    }
    pub fn works(&mut self, ctx: &str) -> Verdict {
        let sg = |v: Violation| Violation { sig: format!("{} {}", v.sig, ctx), msg: format!("{}: {}", ctx, v.msg) };
        match self {
            G::Cl(c) => works(c, b"qg", ctx).map_err(sg),
            G::Abort(r) => {
                let x = r.must(&Op::Abort { lid: 0x7fff_fff0 }).map_err(sg)?.err();
                if x != 4 {
                    return bad(format!("abort {}", ctx), format!("{}: the abort of a link that does not exist is answered {}", ctx, x));
                }
                Ok(())
            }
            G::Pmap(r) => {
                let x = r.send(3, &X::new().raw(&getport()));
                run_idle();
                no_trouble()?;
                port_of(r.replies(), x, ctx)
            }
            G::Udp(s, x) => {
                while s.try_recv().is_some() {}
                *x += 1;
                s.send_to(&call_bytes(*x, vx::PMAP, 2, 3, &getport()), vx::pmap_addr()).unwrap();
                run_idle();
                no_trouble()?;
                let mut v = Vec::new();
                while let Some((b, _)) = s.try_recv() {
                    v.push(vx::parse_reply(&b));
                }
                port_of(v, *x, ctx)
            }
        }
    }
    /// Send half of a query; what is left.
    fn half(&mut self) -> Vec<u8> {
        let b = match self {
            G::Cl(Cl::Line { tel, .. }) => {
                if *tel {
                    b"qg\r\n".to_vec()
                } else {
                    b"qg\n".to_vec()
                }
            }
            G::Cl(Cl::Hs(_)) => hs::msg(hs::END, 0, 0x20, b"qg").enc(),
            G::Cl(Cl::Vx { r, lid }) => {
                let (p, a) = Op::Write { lid: *lid, flags: ENDF, to: 0, data: b"qg".to_vec() }.enc();
                record(&call_bytes(r.next_xid(), r.prog, r.vers, p, &a.0))
            }
            G::Abort(r) => record(&call_bytes(r.next_xid(), r.prog, r.vers, 1, &[0, 0, 0, 9])),
            G::Pmap(r) => record(&call_bytes(r.next_xid(), r.prog, r.vers, 3, &getport())),
            G::Udp(..) => return Vec::new(),
        };
        let n = b.len() / 2;
        self.raw(&b[..n]);
        b[n..].to_vec()
    }
    fn raw(&self, b: &[u8]) {
        match self {
            G::Cl(Cl::Line { s, .. }) => s.send(b),
            G::Cl(Cl::Hs(h)) => h.sync.s.send(b),
            G::Cl(Cl::Vx { r, .. }) | G::Abort(r) | G::Pmap(r) => r.s.send(b),
            G::Udp(..) => {}
        }
    }
    /// The other half; it must be answered.
    fn rest(&mut self, b: &[u8], ctx: &str) -> Verdict {
        if b.is_empty() {
            return Ok(());
        }
        self.raw(b);
        run_idle();
        no_trouble()?;
        let ok = match self {
            G::Cl(c @ Cl::Line { .. }) => !c.text().is_empty(),
            G::Cl(Cl::Hs(h)) => h.sync.drain().len() == 1,
            G::Cl(Cl::Vx { r, lid }) => {
                let n = r.replies().len();
                n == 1 && r.must(&Op::Read { lid: *lid, flags: 0, to: 0, size: 100, term: 0 })?.err() == 0
            }
            G::Abort(r) | G::Pmap(r) => r.replies().len() == 1,
            G::Udp(..) => true,
        };
        if !ok {
            return bad(format!("half {}", ctx), format!("{}: a request sent in two halves is not answered", ctx));
        }
        Ok(())
    }
}

fn port_of(v: Vec<(u32, Stat)>, x: u32, ctx: &str) -> Verdict {
    let want = X::new().u(vx::core_addr().port() as u32).0;
    if v != vec![(x, Stat::Success(want))] {
        return bad(format!("port mapper {}", ctx), format!("{}: GETPORT is answered by {:?}", ctx, v));
    }
    Ok(())
}

/// A new client of every server is served; of those with locks, it can lock.
pub fn everything_works(ctx: &str) -> Verdict {
    all_free(&ALL, ctx)?;
    for ep in [Ep::Abort, Ep::Pmap, Ep::Udp] {
        G::open(ep, None, ctx)?.works(ctx)?;
    }
    no_trouble()
}

// ------------------------------------------------------------------ C12

const KINDS: [ErrorKind; 8] = [
    ErrorKind::ConnectionAborted,
    ErrorKind::ConnectionReset,
    ErrorKind::ConnectionRefused,
    ErrorKind::Interrupted,
    ErrorKind::PermissionDenied,
    ErrorKind::OutOfMemory,
    ErrorKind::TimedOut,
    ErrorKind::Other,
];

fn faults12(ep: Ep, depth: usize) -> Verdict {
    let p = start_everything();
    let mut e = G::open(ep, None, "before")?;
    let rest = if choose(2, "half a request before") == 1 { e.half() } else { Vec::new() };
    let mut trace: Vec<String> = Vec::new();
    let mut seen = Vec::new();
    for _ in 0..depth {
        let udp = ep == Ep::Udp;
        let n = if udp { 3 + 2 * KINDS.len() } else { 7 + KINDS.len() };
        let a = choose(n, "fault");
        let wait = if a == 0 || udp { true } else { choose(2, "wait") == 1 };
        trace.push(format!(
            "{}{}",
            match (udp, a) {
                (_, 0) => "good client".to_string(),
                (false, 1) => "connect, close".into(),
                (false, 2) => "connect, reset".into(),
                (false, 3) => "connect, send, close".into(),
                (false, 4) => "connect, send, reset".into(),
                (false, 5) => "connection whose options cannot be set".into(),
                (false, 6) => "good client behind".into(),
                (false, k) => format!("accept error {:?}", KINDS[k - 7]),
                (true, 1) => "empty datagram".into(),
                (true, 2) => "junk datagram".into(),
                (true, k) if k - 3 < KINDS.len() => format!("receive error {:?}", KINDS[k - 3]),
                (true, k) => format!("send error {:?}", KINDS[k - 3 - KINDS.len()]),
            },
            if wait { "" } else { " at once" }
        ));
        let ctx = format!("{} after [{}]", ep.name(), trace.join("; "));
        match (udp, a) {
            (_, 0) => {
                run_for(SEC);
                G::open(ep, None, &ctx)?.works(&ctx)?;
            }
            (false, 1..=5) => {
                if a == 5 {
                    // only this one
                    run_for(SEC);
                    net::cfg(|n| n.nodelay_fails = true);
                }
                let s = match net::connect(ep.addr()) {
                    Ok(s) => s,
                    Err(_) => return bad(format!("refused {}", ctx), format!("{}: connections are refused", ctx)),
                };
                if a == 3 || a == 4 {
                    s.send(b"qx\nqy\r\n\0\0\0\0");
                }
                if a == 2 || a == 4 {
                    s.reset();
                } else {
                    drop(s);
                }
                if a == 5 {
                    run_idle();
                    net::cfg(|n| n.nodelay_fails = false);
                }
            }
            (false, 6) => match net::connect(ep.addr()) {
                Ok(s) => seen.push(s),
                Err(_) => return bad(format!("refused {}", ctx), format!("{}: connections are refused", ctx)),
            },
            (false, k) => net::inject_accept_error(ep.addr(), KINDS[k - 7]),
            (true, k) => {
                let c = UdpSock::bind("127.0.0.1:0".parse().unwrap()).unwrap();
                let call = call_bytes(7, vx::PMAP, 2, 3, &getport());
                match k {
                    1 => drop(c.send_to(b"", vx::pmap_addr())),
                    2 => drop(c.send_to(b"\0\0\0\x01junk", vx::pmap_addr())),
                    k if k - 3 < KINDS.len() => net::inject_udp_error(vx::pmap_addr(), KINDS[k - 3], false),
                    k => {
                        net::inject_udp_error(vx::pmap_addr(), KINDS[k - 3 - KINDS.len()], true);
                        let _ = c.send_to(&call, vx::pmap_addr());
                    }
                }
            }
        }
        if wait {
            if udp {
                run_for(SEC);
            } else {
                run_idle();
            }
            no_trouble()?;
            e.works_if(rest.is_empty(), &ctx)?;
        }
    }
    let ctx = format!("{} after [{}]", ep.name(), trace.join("; "));
    run_for(2 * SEC);
    no_trouble()?;
    e.rest(&rest, &ctx)?;
    e.works(&ctx)?;
    for s in seen {
        G::open(ep, Some(s), &ctx)?.works(&ctx)?;
    }
    p.take();
    everything_works(&ctx)
}

impl G {
    fn works_if(&mut self, yes: bool, ctx: &str) -> Verdict {
        if yes {
            self.works(ctx)
        } else {
            Ok(())
        }
    }
}

/// Clients which connect, send something and go at any moment, while another works.
fn race12(w: P) -> Verdict {
    let p = start_everything();
    let g = Cl::open(w)?;
    p.take();
    let ep = Ep::P(w);
    let kinds = [choose(3, "end 1"), choose(3, "end 2")];
    let send = choose(2, "send") == 1;
    mcrt::set_explore(true, true, true, false);
    for k in kinds {
        mcrt::spawn_client("bad client", async move {
            let s = match net::connect(ep.addr()) {
                Ok(s) => s,
                Err(_) => return,
            };
            async_std::task::yield_now().await;
            if send {
                s.send(&hs::msg(hs::INIT, 0, 0x0100_5858, b"hislip0").enc());
                async_std::task::yield_now().await;
            }
            end_sock(s, k);
        })
        .detach();
    }
    let sh = Shared(g);
    let h = mcrt::spawn_client("good client", async move {
        let g = { sh }.0;
        let r = query_task(&g, b"qg", true).await;
        r.map(|ok| (ok, Shared(g)))
    });
    run_idle();
    mcrt::explore_off();
    no_trouble()?;
    let ctx = format!("{:?} ends {:?}{}", w, kinds, if send { " after sending" } else { "" });
    match h.try_take() {
        Some(Ok((true, g))) => drop(g),
        Some(Ok(_)) => return bad(format!("race {}", ctx), format!("{}: the good client is refused", ctx)),
        Some(Err(e)) => return bad(format!("race {}", ctx), format!("{}: the good client: {}", ctx, e)),
        None => return bad(format!("race {}", ctx), format!("{}: the good client is not served", ctx)),
    }
    p.take();
    everything_works(&ctx)
}

pub fn c12() -> Vec<Scenario> {
    let d = q(3, 4);
    let mut v = Vec::new();
    for ep in EPS {
        v.push(Scenario::new(
            ep.name(),
            format!("every sequence of {} of: connection closed or reset before it is accepted (without and with data sent), options that cannot be set, 8 kinds of accept errors (datagram: 8 receive and 8 send errors, empty and junk datagrams), a good client, one in the backlog behind the faults; one at a time or at once; an existing client idle or in the middle of a request", d),
            move || faults12(ep, d),
        ));
    }
    for w in ALL {
        v.push(Scenario::new(format!("race-{:?}", w), "two clients connect, send and go at any moment while a third works, every interleaving up to the deviation bound", move || race12(w)).bound(q(2, 3), 3));
    }
    v
}

// ------------------------------------------------------------------ C31

/// How the results of servers that stop are kept.
type Ends = std::sync::Arc<std::sync::Mutex<Vec<(&'static str, Option<ErrorKind>)>>>;

fn server(ends: &Ends, name: &'static str, f: impl std::future::Future<Output = std::io::Result<()>> + Send + 'static) {
    let e = ends.clone();
    mcrt::spawn_named(name, async move {
        let r = f.await;
        e.lock().unwrap().push((name, r.err().map(|e| e.kind())));
    });
}

fn vxi31() -> Verdict {
    let p = Probe::new();
    let ends = Ends::default();
    let set = choose(5, "ports set");
    let (c, a) = [(1024, 1025), (5000, 4999), (65535, 1), (4323, 4322)][choose(4, "ports")];
    let b = VxiServerBuilder::new();
    let b = match set {
        0 => b.core_port(c).async_port(a),
        1 => b.async_port(a).core_port(c),
        2 => b.core_port(c),
        3 => b.async_port(a),
        _ => b,
    };
    let (c, a) = (if set == 3 || set == 4 { 4322u16 } else { c }, if set == 2 || set == 4 { 4323u16 } else { a });
    let ip: std::net::IpAddr = ["127.0.0.1", "0.0.0.0", "10.0.0.9"][choose(3, "address")].parse().unwrap();
    let how = [choose(2, "core"), choose(2, "async")];
    let first = choose(2, "first");
    let taken = choose(if how == [0, 0] { 3 } else { 1 }, "port taken");
    // with core on 4323 and the default asynchronous port, one of both must fail
    let clash = c == a;
    if taken == 1 {
        net::cfg(|n| n.refuse_bind.push(c));
    } else if taken == 2 {
        net::cfg(|n| n.refuse_bind.push(a));
    }
    if clash && (taken > 0 || how != [0, 0]) {
        return Ok(());
    }
    let (core, abort) = b.device("inst0".to_string(), p.device(), SharedLock::new()).build(lxi_device::status::Sender::new());
    let ctx = format!("core port {} and asynchronous port {} of {} (set {}, {}{})", c, a, ip, set, ["bind", "serve"][how[0]], ["", ", core port taken", ", asynchronous port taken"][taken]);
    for k in 0..2 {
        if (k + first) % 2 == 0 {
            let core = core.clone();
            if how[0] == 0 {
                server(&ends, "core", core.bind(ip));
            } else {
                server(&ends, "core", async move { core.serve(async_std::net::TcpListener::bind((ip, c)).await?).await });
            }
        } else {
            let abort = abort.clone();
            if how[1] == 0 {
                server(&ends, "async", abort.bind(ip));
            } else {
                server(&ends, "async", async move { abort.serve(async_std::net::TcpListener::bind((ip, a)).await?).await });
            }
        }
    }
    run_idle();
    no_trouble()?;
    let failed = if clash { Some(if first == 0 { "async" } else { "core" }) } else { [None, Some("core"), Some("async")][taken] };
    let want: Vec<(&'static str, Option<ErrorKind>)> = failed.iter().map(|f| (*f, Some(ErrorKind::AddrInUse))).collect();
    if *ends.lock().unwrap() != want {
        return bad(format!("ended {}", ctx), format!("{}: servers that have ended: {:?}, expected {:?}", ctx, ends.lock().unwrap(), want));
    }
    let mut l = net::listeners();
    l.sort();
    let mut e: Vec<SocketAddr> = Vec::new();
    if failed != Some("core") {
        e.push((ip, c).into());
    }
    if failed != Some("async") {
        e.push((ip, a).into());
    }
    e.sort();
    if l != e {
        return bad(format!("listening {}", ctx), format!("{}: listening on {:?} instead of {:?}", ctx, l, e));
    }
    let to = |port: u16| -> SocketAddr {
        if ip.is_unspecified() {
            ([127, 0, 0, 1], port).into()
        } else {
            (ip, port).into()
        }
    };
    if failed != Some("core") {
        let r = Rpc::new(to(c), vx::CORE, 1);
        let Res::Create { err, lid, port, .. } = r.must(&Op::Create { lock: false, to: 0, dev: "inst0" })? else { unreachable!() };
        if err != 0 || port != a as u32 {
            return bad(format!("announced {}", ctx), format!("{}: the link is answered with error {} and asynchronous port {}", ctx, err, port));
        }
        vx::vxi_must_work(&r, lid, b"qc", &ctx)?;
        if failed != Some("async") {
            let ab = Rpc::new(to(port as u16), vx::ASYNC, 1);
            let x = ab.must(&Op::Abort { lid })?.err();
            if x != 0 {
                return bad(format!("abort {}", ctx), format!("{}: the abort of a link at the announced port is answered {}", ctx, x));
            }
        }
    } else {
        let ab = Rpc::new(to(a), vx::ASYNC, 1);
        if ab.must(&Op::Abort { lid: 1 })?.err() != 4 {
            return bad(format!("abort {}", ctx), format!("{}: the asynchronous server does not work alone", ctx));
        }
    }
    Ok(())
}

/// The other servers: they listen where they are told, and say so if they cannot.
fn others31() -> Verdict {
    let p = Probe::new();
    let ends = Ends::default();
    let ip: std::net::IpAddr = ["127.0.0.1", "0.0.0.0", "10.0.0.9"][choose(3, "address")].parse().unwrap();
    let taken = choose(5, "port taken");
    const PORTS: [u16; 4] = [5025, 5024, 4880, 111];
    const NAMES: [&str; 4] = ["raw", "telnet", "hislip", "port mapper"];
    let shift = choose(2, "other ports") as u16 * 1000;
    if taken > 0 {
        net::cfg(|n| n.refuse_bind.push(PORTS[taken - 1] + shift));
    }
    let lock = SharedLock::new();
    let dev = p.device();
    for k in 0..4 {
        let at: SocketAddr = (ip, PORTS[k] + shift).into();
        let (lock, dev) = (lock.clone(), dev.clone());
        match k {
            0 => server(&ends, NAMES[k], lxi_socket::server::ServerConfig::default().build().accept(at, lock, dev)),
            1 => server(&ends, NAMES[k], lxi_telnet::server::ServerConfig::default().build().accept(at, lock, dev)),
            2 => {
                let srv = lxi_hislip::server::ServerBuilder::new(Default::default()).device("hislip0".to_string(), dev, lock).build();
                server(&ends, NAMES[k], async move { srv.accept(at, lxi_device::status::Sender::new(), hs::Sp).await });
            }
            _ => {
                let pm = StaticPortMap::new([Mapping::new(DEVICE_CORE, DEVICE_CORE_VERSION, PORTMAPPER_PROT_TCP, vx::core_addr().port() as u32)]);
                server(&ends, NAMES[k], pm.bind(at));
            }
        }
    }
    run_idle();
    no_trouble()?;
    let ctx = format!("servers on {} ports {:?}, taken {}", ip, PORTS.map(|p| p + shift), taken);
    let want: Vec<_> = if taken > 0 { vec![(NAMES[taken - 1], Some(ErrorKind::AddrInUse))] } else { vec![] };
    if *ends.lock().unwrap() != want {
        return bad(format!("ended {}", ctx), format!("{}: servers that have ended: {:?}, expected {:?}", ctx, ends.lock().unwrap(), want));
    }
    let mut l = net::listeners();
    l.sort();
    let mut e: Vec<SocketAddr> = (0..4).filter(|k| k + 1 != taken).map(|k| (ip, PORTS[k] + shift).into()).collect();
    e.sort();
    if l != e || taken != 4 && !net::udp_bound((ip, 111 + shift).into()) {
        return bad(format!("listening {}", ctx), format!("{}: listening on {:?} instead of {:?}, datagrams: {}", ctx, l, e, net::udp_bound((ip, 111 + shift).into())));
    }
    for k in (0..4).filter(|k| k + 1 != taken) {
        let at: SocketAddr = if ip.is_unspecified() { ([127, 0, 0, 1], PORTS[k] + shift).into() } else { (ip, PORTS[k] + shift).into() };
        let s = net::connect(at).unwrap();
        let mut g = match k {
            0 | 1 => {
                run_idle();
                G::Cl(Cl::Line { s, tel: k == 1, buf: Vec::new() })
            }
            2 => {
                let sync = hs::Conn::of(s);
                sync.send(hs::INIT, 0, (hs::V1 as u32) << 16 | 0x5858, b"hislip0");
                let r = sync.idle();
                if r.len() != 1 || r[0].typ != hs::INIT_R {
                    return bad(format!("open {}", ctx), format!("{}: Initialize is answered by [{}]", ctx, hs::texts(&r)));
                }
                let asy = hs::Conn::of(net::connect(at).unwrap());
                asy.send(hs::AINIT, 0, r[0].param & 0xffff, b"");
                asy.idle();
                G::Cl(Cl::Hs(hs::Sess { id: r[0].param as u16, sync, asy }))
            }
            _ => G::Pmap(Rpc::of(s, vx::PMAP, 2)),
        };
        g.works(&ctx)?;
    }
    Ok(())
}

/// From the port mapper to an abort: what a client finds out about a server.
fn discover31() -> Verdict {
    let p = Probe::new();
    let (c, a) = [(1024u16, 1025u16), (4322, 4323), (40001, 40002)][choose(3, "ports")];
    let lib = choose(2, "client of the library") == 1;
    let udp = choose(2, "transport") == 1;
    let (core, abort) = VxiServerBuilder::new().core_port(c).async_port(a).device("inst0".to_string(), p.device(), SharedLock::new()).build(lxi_device::status::Sender::new());
    let ends = Ends::default();
    let ip: std::net::IpAddr = [127, 0, 0, 1].into();
    server(&ends, "core", core.bind(ip));
    server(&ends, "async", abort.bind(ip));
    vx::start_pmap([
        Mapping::new(DEVICE_ASYNC, DEVICE_ASYNC_VERSION, PORTMAPPER_PROT_TCP, a as u32),
        Mapping::new(DEVICE_CORE, DEVICE_CORE_VERSION, PORTMAPPER_PROT_TCP, c as u32),
    ]);
    run_idle();
    let find = |prog: u32| -> Result<u16, Violation> {
        let m = Mapping::new(prog, 1, PORTMAPPER_PROT_TCP, 0);
        let v = if lib {
            use lxi_vxi11::client::portmapper::prelude::PortMapperClient;
            let h = mcrt::spawn_client("client", async move {
                let mut c = if udp { PortMapperClient::connect_udp(vx::pmap_addr()).await } else { PortMapperClient::connect_tcp(vx::pmap_addr()).await }.map_err(|e| format!("{:?}", e))?;
                c.getport(m).await.map_err(|e| format!("{:?}", e))
            });
            run_idle();
            match h.try_take() {
                Some(Ok(v)) => v as u32,
                r => return bad("discovery", format!("the port mapper client finds no port: {:?}", r)),
            }
        } else {
            let args = X::new().u(prog).u(1).u(6).u(0).0;
            let v = if udp {
                let s = UdpSock::bind("127.0.0.1:0".parse().unwrap()).unwrap();
                s.send_to(&call_bytes(9, vx::PMAP, 2, 3, &args), vx::pmap_addr()).unwrap();
                run_idle();
                s.try_recv().map(|(b, _)| vx::parse_reply(&b).1)
            } else {
                let r = Rpc::new(vx::pmap_addr(), vx::PMAP, 2);
                r.send(3, &X::new().raw(&args));
                run_idle();
                r.replies().pop().map(|r| r.1)
            };
            match v {
                Some(Stat::Success(v)) if v.len() == 4 => u32::from_be_bytes(v[..].try_into().unwrap()),
                r => return bad("discovery", format!("the port mapper answers {:?}", r)),
            }
        };
        Ok(v as u16)
    };
    let (fc, fa) = (find(vx::CORE)?, find(vx::ASYNC)?);
    no_trouble()?;
    if (fc, fa) != (c, a) {
        return bad("discovery", format!("found the ports {} and {} instead of {} and {}", fc, fa, c, a));
    }
    let r = Rpc::new((ip, fc).into(), vx::CORE, 1);
    let Res::Create { err: 0, lid, port, .. } = r.must(&Op::Create { lock: true, to: 0, dev: "inst0" })? else {
        return bad("discovery link", "no link can be created");
    };
    if port != fa as u32 {
        return bad("discovery port", format!("the link announces the port {}, the port mapper {}", port, fa));
    }
    let other = Rpc::new((ip, fc).into(), vx::CORE, 1);
    let l2 = vx::link(&other)?;
    let op = Op::Write { lid: l2, flags: WAIT | ENDF, to: 60000, data: b"qd".to_vec() };
    let (pr, args) = op.enc();
    let x = other.send(pr, &args);
    run_idle();
    let ab = Rpc::new((ip, fa).into(), vx::ASYNC, 1);
    if ab.must(&Op::Abort { lid: l2 })?.err() != 0 || other.answer(&op, x)?.map(|r| r.err()) != Some(23) {
        return bad("discovery abort", "an abort through the port which was found does not end the waiting write");
    }
    vx::vxi_must_work(&r, lid, b"qd", "discovery")
}

/// A server that registers with a port mapper: what a client is told there is where the server works.
fn register31() -> Verdict {
    let p = Probe::new();
    let (c, a) = [(1024u16, 1025u16), (4322, 4323), (40002, 40001), (65535, 1), (0, 1025), (1024, 0)][choose(6, "ports")];
    let at: SocketAddr = ["127.0.0.1:111", "10.0.0.5:111", "127.0.0.1:30111"][choose(3, "address")].parse().unwrap();
    // what is registered already: nothing, an unrelated service, one or both programs elsewhere
    let before = choose(4, "registered before");
    let order = choose(2, "order") == 1;
    let l = mcrt::net::TcpListen::bind(at).unwrap();
    let mut table: Vec<[u32; 4]> = Vec::new();
    match before {
        1 => table.push([vx::CORE, 1, 17, 99]),
        2 => table.push([vx::ASYNC, 1, 6, 99]),
        3 => table.extend([[vx::CORE, 1, 6, 98], [vx::ASYNC, 1, 6, 99]]),
        _ => {}
    }
    let b = VxiServerBuilder::new();
    let b = if order { b.async_port(a).core_port(c) } else { b.core_port(c).async_port(a) };
    let b = b.device("inst0".to_string(), p.device(), SharedLock::new());
    let h = mcrt::spawn_client("registration", async move { Shared(b.register_portmap(at).await.map_err(|e| format!("{:?}", e))) });
    run_idle();
    let ctx = format!("ports {} and {}, port mapper at {} with {:?} registered", c, a, at, table);
    let mut s: Option<Rpc> = None;
    let mut calls = 0;
    loop {
        run_idle();
        if s.is_none() {
            s = vx::try_accept(&l).map(|s| Rpc::of(s, 0, 0));
        }
        let Some(r) = &s else { break };
        let v = r.records();
        if v.is_empty() {
            break;
        }
        calls += 1;
        if calls > 20 {
            return bad(format!("registration {}", ctx), format!("{}: the registration never ends", ctx));
        }
        for m in v {
            let w: Vec<u32> = m.chunks_exact(4).map(|c| u32::from_be_bytes(c.try_into().unwrap())).collect();
            // xid, call, rpc version, program, version, procedure, 4 of credentials, mapping
            if m.len() % 4 != 0 || w.len() < 10 || w[1..5] != [0, 2, vx::PMAP, 2] {
                return bad(format!("registration {}", ctx), format!("{}: sent \"{}\"", ctx, show(&m)));
            }
            let res = match (w[5], w.len()) {
                (0, 10) => X::new(),
                (1, 14) => {
                    let had = table.iter().any(|t| t[..3] == w[10..13]);
                    if !had {
                        table.push(w[10..14].try_into().unwrap());
                    }
                    X::new().b(!had)
                }
                (2, 14) => {
                    let n = table.len();
                    table.retain(|t| t[..2] != w[10..12]);
                    X::new().b(table.len() < n)
                }
                (3, 14) => X::new().u(table.iter().find(|t| t[..3] == w[10..13]).map_or(0, |t| t[3])),
                _ => return bad(format!("registration {}", ctx), format!("{}: sent \"{}\"", ctx, show(&m))),
            };
            r.s.send(&record(&vx::reply_bytes(w[0], &Stat::Success(res.0))));
        }
    }
    run_idle();
    no_trouble()?;
    let Some(Shared(r)) = h.try_take() else { return bad(format!("registration {}", ctx), format!("{}: the registration does not end", ctx)) };
    let port = |prog: u32| table.iter().find(|t| t[..3] == [prog, 1, 6]).map_or(0, |t| t[3]);
    let found = (port(vx::CORE), port(vx::ASYNC));
    let b = match r {
        Ok(b) => b,
        // nowhere to announce, or refused by the port mapper
        Err(_) if (c == 0 || a == 0) && table.len() == (before + 1) / 2 => return Ok(()),
        Err(_) if before >= 2 && found != (c as u32, a as u32) => return Ok(()),
        Err(e) => return bad(format!("registration {}", ctx), format!("{}: registered, but returns {}", ctx, e)),
    };
    if found != (c as u32, a as u32) || c == 0 || a == 0 {
        return bad(format!("registered {}", ctx), format!("{}: registered the ports {} and {}", ctx, found.0, found.1));
    }
    let (core, abort) = b.build(lxi_device::status::Sender::new());
    let ends = Ends::default();
    let ip: std::net::IpAddr = [127, 0, 0, 1].into();
    server(&ends, "core", core.bind(ip));
    server(&ends, "async", abort.bind(ip));
    run_idle();
    no_trouble()?;
    let r = Rpc::new((ip, found.0 as u16).into(), vx::CORE, 1);
    let Res::Create { err: 0, lid, port, .. } = r.must(&Op::Create { lock: true, to: 0, dev: "inst0" })? else {
        return bad(format!("registered link {}", ctx), format!("{}: no link can be created at the registered port", ctx));
    };
    if port != found.1 {
        return bad(format!("announced {}", ctx), format!("{}: the link announces the port {}", ctx, port));
    }
    let ab = Rpc::new((ip, found.1 as u16).into(), vx::ASYNC, 1);
    if ab.must(&Op::Abort { lid })?.err() != 0 {
        return bad(format!("abort {}", ctx), format!("{}: a link cannot be aborted at the registered port", ctx));
    }
    vx::vxi_must_work(&r, lid, b"qd", &ctx)
}

pub fn c31() -> Vec<Scenario> {
    vec![
        Scenario::new("vxi", "every way to configure (5 setter orders, 4 port pairs) and start (bind or serve of either server in either order, 3 addresses, a port taken or equal ports) the two VXI-11 servers", vxi31),
        Scenario::new("others", "raw, telnet, HiSLIP and port mapper servers on 3 addresses and 2 sets of ports, one of the ports taken", others31),
        Scenario::new("registration", "a server which registers with a port mapper (6 port pairs, 3 addresses, 4 tables), and then runs", register31),
        Scenario::new("discovery", "from the port mapper (TCP, UDP, with the client of the library or another) to a link and its abort", discover31),
    ]
}
