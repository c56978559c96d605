//! C11: whatever one client sends, the others are served.
use super::cross::*;
use super::faults::*;
use super::sock::*;
use crate::common::*;
use crate::dev::*;
use crate::hs;
use crate::vx;
use crate::vx::{call_bytes, record, Op, Rpc, ENDF, X};
use mcrt::net::{Sock, UdpSock};

/// How far the junk client has got.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Stage {
    Fresh(Ep),
    /// HiSLIP: synchronous channel initialised, asynchronous not
    HsHalf,
    HsSync,
    HsAsync,
    /// during a device clear
    HsClearSync,
    HsClearAsync,
    /// VXI-11: with a link
    Link,
    /// raw, telnet: in the middle of a line
    Line(P),
}

fn stages() -> Vec<Stage> {
    let mut v: Vec<Stage> = EPS.iter().map(|e| Stage::Fresh(*e)).collect();
    v.extend([Stage::HsHalf, Stage::HsSync, Stage::HsAsync, Stage::HsClearSync, Stage::HsClearAsync, Stage::Link, Stage::Line(P::Raw), Stage::Line(P::Tel)]);
    v
}

fn ep_of(s: Stage) -> Ep {
    match s {
        Stage::Fresh(e) => e,
        Stage::Link => Ep::P(P::Vx),
        Stage::Line(p) => Ep::P(p),
        _ => Ep::P(P::Hs),
    }
}

/// The client: the socket the junk goes to, and what belongs to it.
struct Junk {
    s: Option<Sock>,
    u: Option<UdpSock>,
    more: Vec<Sock>,
    lid: u32,
}

impl Junk {
    fn new(st: Stage) -> Result<Junk, Violation> {
        let mut j = Junk { s: None, u: None, more: Vec::new(), lid: 0 };
        match st {
            Stage::Fresh(Ep::Udp) => j.u = Some(UdpSock::bind("127.0.0.1:0".parse().unwrap()).unwrap()),
            Stage::Fresh(e) => j.s = Some(net::connect(e.addr()).unwrap()),
            Stage::HsHalf => {
                let c = hs::Conn::new();
                c.send(hs::INIT, 0, 0x0100_5858, b"hislip0");
                c.idle();
                j.s = Some(c.s);
            }
            Stage::HsSync | Stage::HsAsync | Stage::HsClearSync | Stage::HsClearAsync => {
                let h = hs::open(hs::V1)?;
                if matches!(st, Stage::HsClearSync | Stage::HsClearAsync) {
                    h.asy.send(hs::CLEAR, 0, 0, b"");
                    h.asy.idle();
                }
                let (a, b) = if matches!(st, Stage::HsSync | Stage::HsClearSync) { (h.sync.s, h.asy.s) } else { (h.asy.s, h.sync.s) };
                j.s = Some(a);
                j.more.push(b);
            }
            Stage::Link => {
                let r = Rpc::core();
                j.lid = vx::link(&r)?;
                j.s = Some(r.s);
            }
            Stage::Line(p) => {
                let s = line_connect(p);
                s.send(b"q1\nabc");
                j.s = Some(s);
            }
        }
        run_idle();
        Ok(j)
    }
    fn send(&self, b: &[u8]) {
        if let Some(s) = &self.s {
            s.send(b)
        }
        if let Some(u) = &self.u {
            let _ = u.send_to(b, vx::pmap_addr());
        }
    }
    fn end(&mut self, kind: usize) {
        let mut v: Vec<Sock> = self.s.take().into_iter().collect();
        v.append(&mut self.more);
        for s in v {
            end_sock(s, kind)
        }
        self.u = None;
        run_idle();
    }
}

/// Messages, and whether they may legitimately keep others from the device while the client stays.
fn menu(st: Stage, lid: u32, big: bool) -> Vec<(Vec<u8>, bool)> {
    let mut v: Vec<(Vec<u8>, bool)> = Vec::new();
    let mut add = |b: &[u8]| v.push((b.to_vec(), false));
    let long = vec![b'x'; 70_000];
    match ep_of(st) {
        Ep::P(P::Raw | P::Unix) => {
            for b in [&b"\n"[..], b"\r\n", b"\0", b"\0\n", b"q1\n", b"q1", b"q1\r\n\r\nq2", b"\xff\xfe\x80\n", b"\xc3\x28\n", b"\n\n\n\n", b"HEAD / HTTP/1.0\r\n\r\n", b"#0\n", b"\x1a", b"\x04", &[b'q'; 300]] {
                add(b);
            }
            if big {
                add(&long);
                add(&[&long[..], b"\n"].concat());
                add(&vec![b'\n'; 3000]);
            }
        }
        Ep::P(P::Tel) => {
            for b in [
                &b"\n"[..], b"\r\n", b"\r", b"\0", b"\r\0", b"q1\r\n", b"q1", b"\xff", b"\xff\xff", b"\xff\xfb", b"\xff\xfb\x01", b"\xff\xfc\x03", b"\xff\xfd\x18", b"\xff\xfe\xff", b"\xff\xfa", b"\xff\xfa\x18\x01", b"\xff\xfa\xff\xf0",
                b"\xff\xfa\x18\xff\xff\xff\xf0", b"\xff\xf0", b"\xff\xf4", b"\xff\xf6", b"\xff\xf2", b"\xff\x00", b"\xff\xef", b"\xc3\x28\r\n",
            ] {
                add(b);
            }
            if big {
                add(&long);
                add(&[&b"\xff\xfa\x18"[..], &long].concat());
                add(&b"\xff\xfd\x01".repeat(1000));
            }
        }
        Ep::P(P::Hs) => {
            let m = |t: u8, c: u8, p: u32, b: &[u8]| hs::msg(t, c, p, b).enc();
            for t in (0..=26).chain([27, 127, 128, 255]) {
                add(&m(t, 0, 0, b""));
                add(&m(t, 255, 0xffff_ffff, b"hislip0"));
                if big {
                    add(&m(t, 1, 1, b"\0\0\0\0\0\0\0\0"));
                    add(&m(t, 2, 0x0100_5858, b"\xff\xff\xff\xff\xff\xff\xff\xff"));
                }
            }
            add(&m(hs::INIT, 0, 0x0100_5858, b"hislip0"));
            add(&m(hs::INIT, 0, 0, b"\xff"));
            add(&m(hs::AINIT, 0, 0, b"x"));
            add(&m(hs::END, 0, 2, b"q1"));
            add(&m(hs::DATA, 1, 2, &[b'x'; 1000]));
            let mut e = m(hs::END, 0, 2, b"q1");
            for l in [0u64, 1, 3, 255, 0xffff, 0x7fff_ffff, 1 << 32, 1 << 40, i64::MAX as u64, u64::MAX] {
                e[8..16].copy_from_slice(&l.to_be_bytes());
                add(&e);
            }
            add(b"HS");
            add(b"H");
            add(b"HX\0\0\0\0\0\0\0\0\0\0\0\0\0\0");
            add(b"GET / HTTP/1.0\r\n\r\n");
            add(&[0; 16]);
            add(&[0xff; 40]);
            // these may be valid requests for the lock
            for (c, to, k) in [(1, 0, &b""[..]), (1, 60000, b""), (1, 0, b"k"), (1, 0, &[b'k'; 256]), (1, 0, b"\xff\xfe"), (0, 0, b""), (2, 0, b"")] {
                v.push((m(hs::LOCK, c, to, k), true));
            }
            for x in &mut v {
                if x.0.len() > 2 && x.0[2] == hs::LOCK {
                    x.1 = true;
                }
            }
        }
        e => {
            let (prog, vers) = match e {
                Ep::P(_) => (vx::CORE, 1),
                Ep::Abort => (vx::ASYNC, 1),
                _ => (vx::PMAP, 2),
            };
            let tcp = e != Ep::Udp;
            let rec = |b: &[u8]| if tcp { record(b) } else { b.to_vec() };
            let lid = if lid != 0 { lid } else { 1 };
            let vals: Vec<Vec<u8>> = if big {
                vec![vec![], vec![0; 40], vec![0xff; 40], X::new().u(lid).u(0).u(0).u(0).u(0).u(0).0, X::new().u(lid).u(0xffff_ffff).u(0xffff_ffff).u(0xffff_ffff).u(0xffff_ffff).u(0xffff_ffff).0]
            } else {
                vec![vec![], X::new().u(lid).u(0xffff_ffff).u(0xffff_ffff).u(0xffff_ffff).u(0xffff_ffff).u(0xffff_ffff).0]
            };
            for p in (0..=27).chain([0xffff_ffff]) {
                for a in &vals {
                    // creating links and locking may keep others from the device
                    let locks = e == Ep::P(P::Vx) && matches!(p, 10 | 18) && !a.is_empty();
                    v.push((rec(&call_bytes(3, prog, vers, p, a)), locks));
                }
            }
            let mut add = |b: &[u8]| v.push((b.to_vec(), false));
            for (p, w) in [(0, 0), (prog, 0), (prog, vers + 1), (prog, u32::MAX), (vx::CORE, 1), (vx::INTR, 1), (u32::MAX, u32::MAX)] {
                add(&rec(&call_bytes(3, p, w, 0, b"")));
            }
            let good = call_bytes(3, prog, vers, 0, b"");
            for cut in [0, 1, 3, 4, 8, 12, 20, 24, 30, 39] {
                add(&rec(&good[..cut]));
            }
            for (at, val) in [(4, 1u32), (4, 2), (4, u32::MAX), (8, 0), (8, 3), (24, 1), (24, 9), (28, 1), (28, 4), (28, 0x7fff_ffff), (28, u32::MAX), (32, 1), (36, 400), (36, u32::MAX)] {
                let mut b = good.clone();
                b[at..at + 4].copy_from_slice(&val.to_be_bytes());
                add(&rec(&b));
            }
            // replies
            add(&rec(&X::new().u(3).u(1).u(0).u(0).u(0).u(0).0));
            add(&rec(&X::new().u(3).u(1).u(1).u(0).u(2).u(2).0));
            if e == Ep::P(P::Vx) {
                let op = |o: Op| {
                    let (p, a) = o.enc();
                    rec(&call_bytes(3, prog, vers, p, &a.0))
                };
                add(&op(Op::Create { lock: false, to: 0, dev: "" }));
                add(&op(Op::Create { lock: false, to: 0, dev: "inst0" }));
                add(&op(Op::Write { lid, flags: ENDF, to: 0, data: b"q1".to_vec() }));
                add(&op(Op::Write { lid, flags: 0, to: 0, data: vec![b'x'; if big { 70_000 } else { 100 }] }));
                add(&op(Op::Read { lid, flags: 0x80, to: 0, size: u32::MAX, term: 255 }));
                add(&op(Op::Srq { lid, on: true, handle: vec![0; 60] }));
                for (host, port) in [(0x7f00_0001, 1024), (0x7f00_0001, 9), (0, 0), (u32::MAX, 65535), (0x7f00_0001, 0x1_0400)] {
                    add(&op(Op::CreateIntr { host, port, prog: vx::INTR, vers: 1, udp: 0 }));
                    add(&op(Op::CreateIntr { host, port, prog: vx::INTR, vers: 1, udp: 1 }));
                }
                for n in [0xffff_ffffu32, 0x7fff_ffff, 1_000_000, 5] {
                    add(&rec(&call_bytes(3, prog, vers, 11, &X::new().u(lid).u(0).u(0).u(8).u(n).0)));
                    add(&rec(&call_bytes(3, prog, vers, 10, &X::new().u(0).u(0).u(0).u(n).raw(b"ab").0)));
                    add(&rec(&call_bytes(3, prog, vers, 20, &X::new().u(lid).u(1).u(n).raw(b"ab").0)));
                }
            }
            if tcp {
                for h in [0u32, 1, 4, 0x8000_0000, 0x8000_0001, 0x7fff_ffff, u32::MAX, 0x8010_0000, 0x0010_0000] {
                    add(&h.to_be_bytes());
                }
                add(&[0; 400]);
                add(b"\x80");
                let mut f = X::new().u(4).raw(&good[..4]).0;
                f.extend(X::new().u(0x8000_0000 | (good.len() - 4) as u32).raw(&good[4..]).0);
                add(&f);
                add(&[0xff; 40]);
            } else {
                add(&[]);
                add(&[0xff; 1500]);
                add(&vec![0; 3000]);
            }
        }
    }
    v
}

fn check_others(g: &mut Option<G>, p: &Probe, before: i64, ctx: &str) -> Verdict {
    no_trouble().map_err(|v| Violation { sig: format!("{} {}", v.sig, ctx), msg: format!("{}: {}", ctx, v.msg) })?;
    if let Some(g) = g {
        g.works(ctx)?;
    }
    let more = crate::live_bytes() - before;
    if more > 24 << 20 {
        return bad(format!("memory {}", ctx), format!("{}: the servers use {} MB more", ctx, more >> 20));
    }
    p.take();
    everything_works(ctx)
}

fn junk11(st: Stage, n: usize, big: bool) -> Verdict {
    let p = start_everything();
    let before = crate::live_bytes();
    let mut g = Some(G::open(ep_of(st), None, "before")?);
    let mut j = Junk::new(st)?;
    let m = menu(st, j.lid, big);
    let mut picks = Vec::new();
    let mut locks = false;
    for _ in 0..n {
        let k = choose(m.len(), "message");
        j.send(&m[k].0);
        run_idle();
        locks |= m[k].1;
        picks.push(k);
    }
    let ctx = format!("{:?} after [{}]", st, picks.iter().map(|k| show(&m[*k].0[..m[*k].0.len().min(60)])).collect::<Vec<_>>().join("] ["));
    let e = choose(4, "end");
    // what may wait for the device or a lock is at an end
    if e < 3 {
        j.end(e);
    } else if locks {
        return no_trouble();
    }
    let ctx = format!("{}, {}", ctx, ["closed", "reset", "half-closed", "still there"][e]);
    if locks {
        run_for(61 * SEC);
    }
    check_others(&mut g, &p, before, &ctx)
}

/// A valid session with one or two bytes of it changed, or cut anywhere.
fn mutate11(st: Stage, second: bool) -> Verdict {
    let p = start_everything();
    let before = crate::live_bytes();
    let mut g = Some(G::open(ep_of(st), None, "before")?);
    let mut j = Junk::new(st)?;
    let lid = j.lid;
    let rec = |prog, vers, o: Op| {
        let (p, a) = o.enc();
        record(&call_bytes(3, prog, vers, p, &a.0))
    };
    let core = |o: Op| rec(vx::CORE, 1, o);
    let base: Vec<Vec<u8>> = match ep_of(st) {
        Ep::P(P::Raw | P::Unix) => vec![b"q1\nab\n".to_vec()],
        Ep::P(P::Tel) => vec![b"\xff\xfd\x01q1\r\n".to_vec(), b"\xff\xfa\x18\x01\xff\xf0\r\n".to_vec()],
        Ep::P(P::Hs) => {
            let m = |t: u8, c: u8, p: u32, b: &[u8]| hs::msg(t, c, p, b).enc();
            match st {
                Stage::Fresh(_) => vec![m(hs::INIT, 0, 0x0100_5858, b"hislip0"), m(hs::AINIT, 0, 1, b"")],
                Stage::HsSync | Stage::HsHalf | Stage::HsClearSync => vec![m(hs::END, 0, 2, b"q1"), m(hs::TRIGGER, 0, 2, b""), m(hs::CLR_COMPLETE, 0, 0, b"")],
                _ => vec![m(hs::LOCK, 1, 10, b"k"), m(hs::REMOTE, 1, 2, b""), m(hs::MAXSIZE, 0, 0, &1000u64.to_be_bytes()), m(hs::STATUS, 0, 2, b""), m(hs::CLEAR, 0, 0, b""), m(hs::INFO, 0, 0, b"")],
            }
        }
        Ep::P(P::Vx) => vec![
            core(Op::Create { lock: true, to: 10, dev: "inst0" }),
            core(Op::Write { lid, flags: ENDF, to: 10, data: b"q1".to_vec() }),
            core(Op::Read { lid, flags: 0, to: 10, size: 10, term: 0 }),
            core(Op::Lock { lid, flags: 1, to: 10 }),
            core(Op::Srq { lid, on: true, handle: b"ab".to_vec() }),
            core(Op::Docmd { lid }),
            core(Op::CreateIntr { host: 0x7f00_0001, port: 1024, prog: vx::INTR, vers: 1, udp: 0 }),
            core(Op::Destroy { lid }),
        ],
        Ep::Abort => vec![rec(vx::ASYNC, 1, Op::Abort { lid: 1 })],
        Ep::Pmap => vec![record(&call_bytes(3, vx::PMAP, 2, 3, &getport())), record(&call_bytes(3, vx::PMAP, 2, 4, b"")), record(&call_bytes(3, vx::PMAP, 2, 5, &X::new().u(vx::PMAP).u(2).u(3).o(&getport()).0))],
        Ep::Udp => vec![call_bytes(3, vx::PMAP, 2, 3, &getport())],
    };
    let k = choose(base.len(), "base");
    let mut b = base[k].clone();
    let alter = |b: &mut Vec<u8>, lo: usize| -> (usize, u8) {
        let at = lo + choose(b.len() - lo, "at");
        let old = b[at];
        let vals: Vec<u8> = [0, 1, 2, 0x7f, 0x80, 0xff, old ^ 1, old.wrapping_add(1)].into_iter().filter(|v| *v != old).collect();
        b[at] = vals[choose(vals.len(), "value")];
        (at, b[at])
    };
    let how = choose(2, "how");
    let ctx = if how == 1 && !second {
        let cut = choose(b.len(), "cut");
        b.truncate(cut);
        format!("message {} cut to {} bytes", k, cut)
    } else if how == 1 {
        return Ok(());
    } else {
        let x = alter(&mut b, 0);
        let y = if second && x.0 + 1 < b.len() { Some(alter(&mut b, x.0 + 1)) } else { None };
        format!("message {} with {:?} {:?}", k, x, y)
    };
    j.send(&b);
    // whatever it is, more follows
    j.send(b"\0\0\0\0\0\0\0\0\0\0\0\0\n");
    run_idle();
    let e = choose(3, "end");
    let ctx = format!("{:?}, {}, {}", st, ctx, ["closed", "reset", "half-closed"][e]);
    j.end(e);
    // what waits has been given up by then: the longest timeout which fits
    run_for(5_000_000 * SEC);
    check_others(&mut g, &p, before, &ctx)
}

/// A telnet command or negotiation of every kind.
fn iac11() -> Verdict {
    let p = start_everything();
    let before = crate::live_bytes();
    let mut g = Some(G::open(Ep::P(P::Tel), None, "before")?);
    let mut j = Junk::new(Stage::Fresh(Ep::P(P::Tel)))?;
    let c = choose(256, "command") as u8;
    let o = choose(if (250..=254).contains(&c) { 257 } else { 3 }, "option");
    let mut b = vec![255, c];
    if o < 256 {
        b.push(o as u8);
    }
    j.send(&b);
    if choose(2, "segments") == 1 {
        run_idle();
    }
    j.send(b"q1\r\n");
    run_idle();
    let ctx = format!("telnet command {:?}", b);
    let e = choose(4, "end");
    if e < 3 {
        j.end(e);
    }
    check_others(&mut g, &p, before, &ctx)
}

/// A client which sends requests and does not read what it gets.
fn deaf11(w: P, large: bool) -> Verdict {
    let p = start_everything();
    let buf = if large { [0, 16, 4000, 66000][choose(4, "buffer")] } else { [0, 1, 3, 16, 40][choose(5, "buffer")] };
    let n = choose(if large { 2 } else { 4 }, "requests") + 1;
    let size = if large { [5_000, 70_000, 1_100_000][choose(3, "response")] } else { 0 };
    if large {
        p.0.lock().unwrap().respond = Box::new(move |c| if c.starts_with(b"qdeaf") { Some(vec![b'L'; size]) } else { rule(c) });
    }
    let mut g = Some(G::open(Ep::P(w), None, "before")?);
    let c = Cl::open(w)?;
    let before = crate::live_bytes();
    net::cfg(|n| n.server_buf = buf);
    for i in 0..n {
        match &c {
            Cl::Line { s, .. } => s.send(b"qdeaf\r\nqdeaf2\r\n"),
            Cl::Hs(h) => {
                h.sync.send(hs::END, 0, 2 * i as u32, b"qdeaf");
                h.asy.send(hs::STATUS, 0, 2, b"");
                h.asy.send(hs::MAXSIZE, 0, 2, &1000u64.to_be_bytes());
            }
            Cl::Vx { r, lid } => {
                for op in [Op::Write { lid: *lid, flags: ENDF, to: 0, data: b"qdeaf".to_vec() }, Op::Read { lid: *lid, flags: 0, to: 0, size: 2_000_000, term: 0 }, Op::Stb { lid: *lid, flags: 0, to: 0 }] {
                    let (p, a) = op.enc();
                    r.send(p, &a);
                }
            }
        }
    }
    run_idle();
    no_trouble()?;
    let ctx = format!("{:?} client which does not read, {} requests, buffer {}, responses of {}", w, n, buf, size);
    // only connections of others have room again: what the deaf one may get is unchanged
    let e = choose(4, "end");
    if e < 3 {
        c.end(e);
    } else {
        match &c {
            Cl::Line { s, .. } => s.stall(),
            Cl::Hs(h) => {
                h.sync.s.stall();
                h.asy.s.stall();
            }
            Cl::Vx { r, .. } => r.s.stall(),
        }
        net::cfg(|n| n.server_buf = usize::MAX);
        check_others(&mut g, &p, before, &ctx)?;
        drop(c);
        return Ok(());
    }
    net::cfg(|n| n.server_buf = usize::MAX);
    check_others(&mut g, &p, before, &ctx)
}

pub fn c11() -> Vec<Scenario> {
    let mut v = Vec::new();
    for st in stages() {
        let name = match st {
            Stage::Fresh(e) => e.name(),
            s => format!("{:?}", s),
        };
        v.push(Scenario::new(format!("junk-{}", name), "every sequence of 2 messages of the full catalogue of malformed, unexpected and oversized messages; the client closes, resets, half-closes or stays", move || junk11(st, 2, true)).steps(400_000));
        if thorough() {
            v.push(Scenario::new(format!("junk3-{}", name), "every sequence of 3 messages of the smaller catalogue", move || junk11(st, 3, false)));
        }
        v.push(Scenario::new(format!("mutate-{}", name), "every request with every single byte changed to 7 values, or cut at every byte", move || mutate11(st, false)));
        if !thorough() && matches!(st, Stage::Fresh(Ep::P(P::Vx)) | Stage::Link) {
            continue;
        }
        v.push(Scenario::new(format!("mutate2-{}", name), "every request with every pair of bytes changed to 7 values each", move || mutate11(st, true)));
    }
    v.push(Scenario::new("iac", "every telnet command and option", iac11));
    for w in ALL {
        v.push(Scenario::new(format!("deaf-{:?}", w), "a client that sends up to 4 requests and reads nothing, with buffers of 0 to 40 bytes", move || deaf11(w, false)));
        v.push(Scenario::new(format!("deaf-large-{:?}", w), "the same with responses of 5000 to 1100000 bytes and buffers of 0 to 66000", move || deaf11(w, true)).steps(10_000_000));
    }
    v
}
