//! C35: one device behind all servers; the bundled devices.
use super::cross::{Cl, P};
use super::sock::{raw_addr, strip_prompts, strip_telnet, telnet_addr, UNIX};
use crate::common::*;
use crate::hs::{self, *};
use crate::vx::*;
use lxi_device::lock::SharedLock;
use lxi_device::status::Sender;
use lxi_device::trigger::Source;
use lxi_device::util::{EchoDevice, SimpleDevice};
use lxi_device::{Device, DeviceError};
use std::sync::Arc;
use P::*;

type Shared = Arc<futures::lock::Mutex<Box<dyn Device + Send>>>;

fn start_servers(d: Shared) {
    let lock = SharedLock::new();
    let (l, x) = (lock.clone(), d.clone());
    mcrt::spawn_named("raw server", async move {
        let _ = lxi_socket::server::ServerConfig::default().build().accept(raw_addr(), l, x).await;
    });
    let (l, x) = (lock.clone(), d.clone());
    mcrt::spawn_named("unix server", async move {
        let _ = lxi_socket::server::ServerConfig::default().build().accept_unix(UNIX, l, x).await;
    });
    let (l, x) = (lock.clone(), d.clone());
    mcrt::spawn_named("telnet server", async move {
        let _ = lxi_telnet::server::ServerConfig::default().build().accept(telnet_addr(), l, x).await;
    });
    let srv = lxi_hislip::server::ServerBuilder::new(Default::default()).device("hislip0".to_string(), d.clone(), lock.clone()).build();
    mcrt::spawn_named("hislip server", async move {
        let _ = srv.accept(hs::addr(), Sender::new(), hs::Sp).await;
    });
    let (core, abort) = lxi_vxi11::server::vxi11::prelude::VxiServerBuilder::new().core_port(core_addr().port()).async_port(async_addr().port()).device("inst0".to_string(), d, lock).build(Sender::new());
    mcrt::spawn_named("vxi core server", async move {
        let l = async_std::net::TcpListener::bind(core_addr()).await.unwrap();
        let _ = core.serve(l).await;
    });
    mcrt::spawn_named("vxi async server", async move {
        let l = async_std::net::TcpListener::bind(async_addr()).await.unwrap();
        let _ = abort.serve(l).await;
    });
    run_idle();
}

/// What a client does
#[derive(Clone, Copy, Debug, PartialEq)]
enum A {
    Cmd(&'static str),
    Trigger,
    Clear,
    /// HiSLIP: the control code; VXI-11: 0 local, 1 remote
    Remote(u8),
    Status,
}

/// The documented SimpleDevice, and what its HiSLIP session remembers
#[derive(Clone, Copy, PartialEq, Debug)]
struct Model {
    rmt: bool,
    trig: bool,
    clear: bool,
    enable: bool,
}

const IDN: &str = "Cyberdyne systems,T800 Model 101,A9012.C,V2.4";

fn simple(cmd: &[u8]) -> Option<Vec<u8>> {
    let c = cmd.strip_suffix(b"\n").unwrap_or(cmd).to_ascii_uppercase();
    match &c[..] {
        b"*IDN?" => Some(IDN.as_bytes().to_vec()),
        b"EVENT" => None,
        b"QUERY?" => Some(b"RESPONSE".to_vec()),
        _ => Some(cmd.iter().rev().copied().collect()),
    }
}

impl Model {
    fn new() -> Model {
        Model { rmt: false, trig: false, clear: false, enable: true }
    }
    fn stb(&self) -> u8 {
        (self.rmt as u8) << 7 | (self.trig as u8) << 6 | (self.clear as u8) << 5
    }
    fn step(&mut self, w: P, a: A) -> String {
        match a {
            A::Cmd(c) => match simple(c.as_bytes()) {
                Some(r) => show(&r),
                None => "nothing".into(),
            },
            A::Trigger => {
                self.trig = true;
                "ok".into()
            }
            A::Clear => {
                self.trig = false;
                self.clear = true;
                "ok".into()
            }
            A::Remote(k) if w == Vx => {
                self.rmt = k == 1;
                "ok".into()
            }
            A::Remote(k) => {
                match k {
                    0 | 2 => {
                        self.enable = false;
                        self.rmt = false;
                    }
                    1 | 4 => self.enable = true,
                    3 | 5 => {
                        self.enable = true;
                        self.rmt = true;
                    }
                    _ => self.rmt = false,
                }
                "ok".into()
            }
            A::Status => {
                if w == Hs && self.enable {
                    self.rmt = true;
                }
                format!("status {:#x}", self.stb())
            }
        }
    }
}

async fn act(c: &Cl, a: A) -> Result<String, String> {
    match c {
        Cl::Line { s, tel, .. } => {
            let A::Cmd(c) = a else { unreachable!() };
            let eol: &[u8] = if *tel { b"\r\n" } else { b"\n" };
            s.send(&[c.as_bytes(), eol].concat());
            if simple(c.as_bytes()).is_none() {
                return Ok("nothing".into());
            }
            let mut got = Vec::new();
            loop {
                match s.read_some(1000).await {
                    Ok(r) if !r.is_empty() => got.extend(r),
                    _ => return Err(format!("the connection ends after \"{}\"", show(&got))),
                }
                let t = if *tel { strip_prompts(&strip_telnet(&got).0, true) } else { got.clone() };
                if let Some(t) = t.strip_suffix(eol) {
                    return Ok(show(t));
                }
            }
        }
        Cl::Hs(s) => {
            async fn next(c: &Conn, typ: u8) -> Result<Msg, String> {
                match c.next().await {
                    Some(m) if m.typ == typ => Ok(m),
                    Some(m) => Err(format!("received {}", m.text())),
                    None => Err("the connection ends".into()),
                }
            }
            match a {
                A::Cmd(c) => {
                    s.sync.send(END, 0, 2, c.as_bytes());
                    if simple(c.as_bytes()).is_none() {
                        return Ok("nothing".into());
                    }
                    Ok(show(&next(&s.sync, END).await?.payload))
                }
                A::Trigger => {
                    s.sync.send(TRIGGER, 0, 2, b"");
                    // answered after it
                    s.sync.send(END, 0, 2, b"ab");
                    next(&s.sync, END).await?;
                    Ok("ok".into())
                }
                A::Clear => {
                    s.asy.send(CLEAR, 0, 0, b"");
                    next(&s.asy, CLEAR_R).await?;
                    s.sync.send(CLR_COMPLETE, 1, 0, b"");
                    next(&s.sync, CLR_ACK).await?;
                    Ok("ok".into())
                }
                A::Remote(k) => {
                    s.asy.send(REMOTE, k, 0, b"");
                    next(&s.asy, REMOTE_R).await?;
                    Ok("ok".into())
                }
                A::Status => {
                    s.asy.send(STATUS, 0, 2, b"");
                    Ok(format!("status {:#x}", next(&s.asy, STATUS_R).await?.ctrl))
                }
            }
        }
        Cl::Vx { r, lid } => {
            let (lid, flags, to) = (*lid, 1, 1000);
            let op = match a {
                A::Cmd(c) => {
                    let n = c.len() as u32;
                    match r.ask(&Op::Write { lid, flags: flags | ENDF, to, data: c.as_bytes().to_vec() }).await? {
                        Res::Write { err: 0, size } if size == n => {}
                        x => return Err(format!("{:?}", x)),
                    }
                    if simple(c.as_bytes()).is_none() {
                        return Ok("nothing".into());
                    }
                    return match r.ask(&Op::Read { lid, flags, to, size: 1000, term: 0 }).await? {
                        Res::Read { err: 0, reason: 4, data } => Ok(show(&data)),
                        x => Err(format!("{:?}", x)),
                    };
                }
                A::Status => {
                    return match r.ask(&Op::Stb { lid, flags, to }).await? {
                        Res::Stb { err: 0, stb } => Ok(format!("status {:#x}", stb)),
                        x => Err(format!("{:?}", x)),
                    }
                }
                A::Trigger => Op::Trigger { lid, flags, to },
                A::Clear => Op::Clear { lid, flags, to },
                A::Remote(1) => Op::Remote { lid, flags, to },
                A::Remote(_) => Op::Local { lid, flags, to },
            };
            match r.ask(&op).await? {
                Res::Err(0) => Ok("ok".into()),
                x => Err(format!("{:?}", x)),
            }
        }
    }
}

const MENU: &[(P, A)] = &[
    (Raw, A::Cmd("*idn?")),
    (Raw, A::Cmd("Event")),
    (Unix, A::Cmd("xyz")),
    (Tel, A::Cmd("query?")),
    (Tel, A::Cmd("abc")),
    (Hs, A::Cmd("*IDN?\n")),
    (Hs, A::Trigger),
    (Hs, A::Clear),
    (Hs, A::Remote(0)),
    (Hs, A::Remote(1)),
    (Hs, A::Remote(2)),
    (Hs, A::Remote(3)),
    (Hs, A::Remote(4)),
    (Hs, A::Remote(5)),
    (Hs, A::Remote(6)),
    (Hs, A::Status),
    (Vx, A::Cmd("query?\n")),
    (Vx, A::Trigger),
    (Vx, A::Clear),
    (Vx, A::Remote(1)),
    (Vx, A::Remote(0)),
    (Vx, A::Status),
];

fn server_device() -> Shared {
    Arc::new(futures::lock::Mutex::new(Box::new(SimpleDevice::new())))
}

/// Clients of all servers after each other: every step as if on one device.
fn sequences35(depth: usize) -> Verdict {
    let d = server_device();
    start_servers(d.clone());
    let mut cl = std::collections::BTreeMap::new();
    let mut m = Model::new();
    let mut steps = Vec::new();
    let mut want = Vec::new();
    for _ in 0..depth {
        let k = choose(MENU.len() + 1, "action");
        if k == 0 {
            break;
        }
        let (w, a) = MENU[k - 1];
        steps.push((w, a));
        want.push(m.step(w, a));
    }
    steps.push((Vx, A::Status));
    want.push(m.step(Vx, A::Status));
    for (w, _) in &steps {
        if !cl.contains_key(&(*w as usize)) {
            cl.insert(*w as usize, Cl::open(*w)?);
        }
    }
    run_idle();
    let all = steps.clone();
    let h = mcrt::spawn_client("client", async move {
        let mut out = Vec::new();
        for (w, a) in all {
            match act(&cl[&(w as usize)], a).await {
                Ok(r) => {
                    mcrt::event(format!("{:?} {:?}: {}", w, a, r));
                    out.push(r)
                }
                Err(e) => return (cl, out, Some(e)),
            }
        }
        (cl, out, None)
    });
    run_idle();
    no_trouble()?;
    let ctx = steps.iter().map(|(w, a)| format!("{:?} {:?}", w, a)).collect::<Vec<_>>().join(", ");
    let Some((_cl, out, err)) = h.try_take() else {
        return bad(format!("stuck {}", ctx), format!("{}: not finished", ctx));
    };
    if let Some(e) = err {
        return bad(format!("{} {}", ctx, e), format!("{}: {}", ctx, e));
    }
    if out != want {
        return bad(format!("{} {:?}", ctx, out), format!("{}: answered {:?}, expected {:?}", ctx, out, want));
    }
    let mut g = d.try_lock().unwrap();
    let s = g.get_status().unwrap();
    if s != m.stb() {
        return bad(format!("device {} {}", ctx, s), format!("{}: the status of the device is {:#x}, expected {:#x}", ctx, s, m.stb()));
    }
    Ok(())
}

const RACERS: [&[A]; 3] = [
    &[A::Trigger, A::Clear, A::Remote(2), A::Remote(5), A::Status, A::Cmd("ab")],
    &[A::Trigger, A::Clear, A::Remote(0), A::Remote(1), A::Status, A::Cmd("cd")],
    &[A::Cmd("*idn?"), A::Cmd("xy")],
];

/// Clients of three servers at once: the answers and the final state are those of some order of the actions.
fn race35(n: [usize; 3]) -> Verdict {
    let d = server_device();
    start_servers(d.clone());
    let ps = [Hs, Vx, [Raw, Tel][choose(2, "line")]];
    let progs: Vec<Vec<A>> = (0..3).map(|i| (0..n[i]).map(|_| RACERS[i][choose(RACERS[i].len(), "action")]).collect()).collect();
    let mut cls = Vec::new();
    for w in ps {
        cls.push(Cl::open(w)?);
    }
    run_idle();
    mcrt::set_explore(true, true, true, false);
    let mut hs = Vec::new();
    for ((c, prog), w) in cls.into_iter().zip(progs.clone()).zip(ps) {
        hs.push(mcrt::spawn_client("client", async move {
            let mut out = Vec::new();
            for a in prog {
                match act(&c, a).await {
                    Ok(r) => {
                        mcrt::event(format!("{:?} {:?}: {}", w, a, r));
                        out.push(r)
                    }
                    Err(e) => return (c, Err(e)),
                }
            }
            (c, Ok(out))
        }));
    }
    run_idle();
    mcrt::explore_off();
    run_idle();
    no_trouble()?;
    let ctx = format!("{:?} by {:?}", progs, ps);
    let mut outs = Vec::new();
    let mut keep = Vec::new();
    for h in &hs {
        match h.try_take() {
            Some((c, Ok(o))) => {
                keep.push(c);
                outs.push(o);
            }
            Some((_, Err(e))) => return bad(format!("{} {}", ctx, e), format!("{}: {}", ctx, e)),
            None => return bad(format!("stuck {}", ctx), format!("{}: not finished", ctx)),
        }
    }
    let stb = d.try_lock().unwrap().get_status().unwrap();
    fn search(m: Model, at: [usize; 3], ps: &[P; 3], progs: &[Vec<A>], outs: &[Vec<String>], stb: u8) -> bool {
        let mut any = false;
        for i in 0..3 {
            if at[i] < progs[i].len() {
                any = true;
                let mut n = m;
                let r = n.step(ps[i], progs[i][at[i]]);
                let mut at2 = at;
                at2[i] += 1;
                if r == outs[i][at[i]] && search(n, at2, ps, progs, outs, stb) {
                    return true;
                }
            }
        }
        !any && m.stb() == stb
    }
    if !search(Model::new(), [0; 3], &ps, &progs, &outs, stb) {
        return bad(format!("{} {:?} {:#x}", ctx, outs, stb), format!("{}: answered {:?}, the status in the end {:#x}: no order of the actions explains this", ctx, outs, stb));
    }
    Ok(())
}

/// The bundled devices by themselves.
fn device35(depth: usize) -> Verdict {
    let mut d = SimpleDevice::default();
    let mut m = Model::new();
    let mut trace = Vec::new();
    for _ in 0..depth {
        let k = choose(8, "call");
        let (name, ok): (&str, bool) = match k {
            0 => break,
            1 | 2 => {
                m.trig = true;
                let s = [Source::Bus, Source::Lan3][k - 1];
                ("trigger", d.trigger(s).is_ok())
            }
            3 => {
                m.trig = false;
                m.clear = true;
                ("clear", d.clear().is_ok())
            }
            4 | 5 => {
                m.rmt = k == 4;
                (["remote", "local"][k - 4], d.set_remote(k == 4).is_ok())
            }
            6 => {
                d.set_local_lockout(choose(2, "lockout") == 1);
                ("lockout", true)
            }
            _ => {
                const C: [&[u8]; 4] = [b"*IDN?", b"EVENT", b"", b"xy"];
                let c = C[choose(4, "command")];
                ("command", d.execute(c) == simple(c))
            }
        };
        trace.push(name);
        mcrt::event(name);
        if !ok {
            return bad(format!("failed {:?}", trace), format!("SimpleDevice: {} fails", trace.join(", ")));
        }
        for _ in 0..2 {
            let s: Result<u8, DeviceError> = d.get_status();
            if s.as_ref().ok() != Some(&m.stb()) {
                return bad(format!("status {:?} {:?}", trace, s), format!("SimpleDevice after {}: status {:?}, expected {:#x}", trace.join(", "), s, m.stb()));
            }
        }
    }
    Ok(())
}

/// Every command of up to two bytes; the known ones in every case, cut, extended, with line ends.
fn commands35() -> Verdict {
    let mut d = SimpleDevice::new();
    let mut e = EchoDevice;
    let mut cmds: Vec<Vec<u8>> = vec![vec![]];
    let k = choose(260, "first byte");
    if k < 256 {
        cmds.push(vec![k as u8]);
        cmds.extend((0..=255u8).map(|b| vec![k as u8, b]));
    } else if k < 259 {
        let c: &[u8] = [b"*IDN?".as_slice(), b"EVENT", b"QUERY?"][k - 256];
        for mask in 0..1u32 << c.len() {
            let v: Vec<u8> = c.iter().enumerate().map(|(i, b)| if mask >> i & 1 == 1 { b.to_ascii_lowercase() } else { *b }).collect();
            for suffix in ["", "\n", "\r\n", "\n\n", " ", ";", "?", "x"] {
                cmds.push([&v[..], suffix.as_bytes()].concat());
            }
            for i in 0..v.len() {
                cmds.push(v[..i].to_vec());
                cmds.push(v[i..].to_vec());
                for b in [b' ', b'\n', 0, v[i] ^ 0x20, v[i] ^ 0x80, v[i] ^ 0x40] {
                    let mut x = v.clone();
                    x.insert(i, b);
                    cmds.push(x.clone());
                    x.remove(i + 1);
                    cmds.push(x);
                }
            }
        }
    } else {
        cmds.extend([100usize, 255, 256, 1000, 70_000, 1_100_000].map(|n| (0..n).map(|i| (i % 251) as u8).collect::<Vec<u8>>()));
    }
    for c in cmds {
        let r = d.execute(&c);
        if r != simple(&c) {
            return bad(format!("simple {}", show(&c)), format!("SimpleDevice answers \"{}\" with {:?}", show(&c), r.map(|r| show(&r))));
        }
        if e.execute(&c).as_ref() != Some(&c) {
            return bad(format!("echo {}", show(&c)), format!("EchoDevice does not answer \"{}\" with itself", show(&c)));
        }
    }
    if d.get_status().ok() != Some(0) || e.get_status().ok() != Some(0) {
        return bad("status by command", "a command changes the status".to_string());
    }
    for ok in [e.trigger(Source::Bus), e.clear(), e.set_remote(true), e.set_remote(false)] {
        if ok.is_err() || e.get_status().ok() != Some(0) {
            return bad("echo", "EchoDevice fails".to_string());
        }
    }
    Ok(())
}

pub fn c35() -> Vec<Scenario> {
    let d = q(4, 5);
    let dd = q(5, 6);
    vec![
        Scenario::new("protocols", format!("one device behind 5 servers: every sequence of up to {} of 22 actions by a client of each (commands, triggers, clears, remote/local, status)", d), move || sequences35(d)),
        Scenario::new("race-3", "3 clients of different servers, one action each at once, every interleaving up to the deviation bound: some order of the actions explains all answers and the final state", || race35([1, 1, 1])).bound(2, 4),
        Scenario::new("race-5", "the same with two actions of two of them", || race35([2, 2, 1])).bound(1, 2),
        Scenario::new("device", format!("SimpleDevice, every sequence of up to {} calls", dd), move || device35(dd)),
        Scenario::new("commands", "every command of up to 2 bytes, and the known ones in every case, cut, extended and altered, to SimpleDevice and EchoDevice", commands35),
    ]
}
