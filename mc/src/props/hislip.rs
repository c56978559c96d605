//! C13-C15: HiSLIP framing, sessions, data.
use crate::common::*;
use lxi_device::lock::LockHandle;
use crate::dev::*;
use crate::hs::*;
use lxi_device::trigger::Source;
use lxi_hislip::server::ServerConfig;
use std::collections::BTreeMap;

// ------------------------------------------------------------------ C13

#[derive(Clone)]
enum Exp {
    Exact(Msg),
    /// type and code, parameter and text free
    Code(u8, u8),
    /// a non-fatal error of any code
    SomeError,
}

impl Exp {
    fn ok(&self, m: &Msg) -> bool {
        match self {
            Exp::Exact(x) => x == m,
            Exp::Code(t, c) => m.typ == *t && m.ctrl == *c,
            Exp::SomeError => m.typ == ERROR,
        }
    }
    fn text(&self) -> String {
        match self {
            Exp::Exact(m) => m.text(),
            Exp::Code(t, c) => msg(*t, *c, 0, b"").text(),
            Exp::SomeError => "some Error".into(),
        }
    }
}

const MAXMSG: usize = 20;

fn cfg13() -> ServerConfig {
    ServerConfig::default().max_message_size(MAXMSG as u64)
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Chan {
    Sync,
    Async,
    Fresh,
}

/// What the server must answer and do, per message.
struct Model13 {
    chan: Chan,
    proto: u16,
    buf: Vec<u8>,
    calls: Vec<Call>,
    replies: Vec<Exp>,
    ended: bool,
}

impl Model13 {
    fn new(chan: Chan, proto: u16) -> Model13 {
        Model13 { chan, proto, buf: Vec::new(), calls: Vec::new(), replies: Vec::new(), ended: false }
    }
    fn fatal(&mut self, code: u8) {
        self.replies.push(Exp::Code(FATAL, code));
        self.ended = true;
    }
    fn feed(&mut self, b: &[u8]) {
        if self.ended {
            return;
        }
        if &b[..2] != b"HS" {
            return self.fatal(1);
        }
        let (typ, ctrl) = (b[2], b[3]);
        let param = u32::from_be_bytes(b[4..8].try_into().unwrap());
        let p = &b[16..];
        if p.len() > MAXMSG {
            return self.replies.push(Exp::Code(ERROR, 4));
        }
        if (39..128).contains(&typ) {
            return self.replies.push(Exp::Code(ERROR, 1));
        }
        if typ >= 128 {
            return self.replies.push(Exp::Code(ERROR, 3));
        }
        if typ == ERROR || typ == FATAL {
            return;
        }
        match self.chan {
            Chan::Sync => match typ {
                DATA => self.buf.extend(p),
                END => {
                    self.buf.extend(p);
                    let c = std::mem::take(&mut self.buf);
                    if let Some(r) = rule(&c) {
                        self.replies.push(Exp::Exact(msg(END, 0, param, &r)));
                    }
                    self.calls.push(Call::Exec(c));
                }
                TRIGGER => self.calls.push(Call::Trigger(Source::Bus)),
                26 => {}
                28 | 31 | 34 | 36 | 37 if self.proto >= V2 => self.fatal(5),
                _ => self.replies.push(Exp::SomeError),
            },
            Chan::Async => match typ {
                MAXSIZE if p.len() != 8 => self.fatal(1),
                MAXSIZE => self.replies.push(Exp::Exact(msg(MAXSIZE_R, 0, 0, &(MAXMSG as u64).to_be_bytes()))),
                29 | 32 if self.proto >= V2 => self.fatal(if p.len() == 4 { 5 } else { 1 }),
                STATUS => {
                    self.calls.push(Call::Remote(true));
                    self.calls.push(Call::Status);
                    self.replies.push(Exp::Exact(msg(STATUS_R, 0, 0, b"")))
                }
                INFO => self.replies.push(Exp::Exact(msg(INFO_R, 0, 0, b""))),
                LOCK if ctrl == 0 => self.replies.push(Exp::Code(LOCK_R, 3)),
                CLEAR => self.replies.push(Exp::Code(CLEAR_R, 1)),
                REMOTE if ctrl == 1 => self.replies.push(Exp::Exact(msg(REMOTE_R, 0, 0, b""))),
                REMOTE if ctrl > 6 => self.replies.push(Exp::Code(ERROR, 2)),
                _ => self.replies.push(Exp::SomeError),
            },
            Chan::Fresh => match typ {
                INIT | AINIT => panic!("not in this catalogue"),
                _ => self.fatal(3),
            },
        }
    }
}

fn catalogue(chan: Chan) -> Vec<(&'static str, Vec<u8>)> {
    let m = |t: u8, c: u8, id: u32, p: &[u8]| msg(t, c, id, p).enc();
    let big = [b"HS\x07\0\0\0\0\x01\0\0\0\0\0\0\0\x01q".as_slice(), b"qqqqqqqq"].concat();
    let mut bad1 = m(END, 0, 2, b"q");
    bad1[1] = b'L';
    let mut v = vec![
        ("unknown type", m(39, 7, 9, b"HS\x07")),
        ("unknown type 127", m(127, 0, 0, b"")),
        ("vendor 128", m(128, 0, 0, b"")),
        ("vendor 255", m(255, 9, 1, b"HSx")),
        ("oversize", m(END, 0, 6, &big[..MAXMSG + 1])),
        ("oversize unknown", m(99, 0, 6, &big)),
        ("client error", m(ERROR, 4, 0, b"\xff\xfe")),
        ("client fatal error", m(FATAL, 0, 0, b"text")),
        ("bad prologue", bad1),
        ("AsyncLockResponse", m(LOCK_R, 0, 0, b"")),
    ];
    match chan {
        Chan::Sync => v.extend(vec![
            ("Data", m(DATA, 0, 2, b"a")),
            ("DataEnd query", m(END, 1, 4, b"q")),
            ("empty DataEnd", m(END, 0, 0xffffff00, b"")),
            ("largest DataEnd", m(END, 0, 8, &[b'x'; MAXMSG])),
            ("Trigger", m(TRIGGER, 0, 10, b"")),
            ("Trigger with payload", m(TRIGGER, 1, 10, b"HS")),
            ("GetDescriptors", m(26, 0, 0, b"")),
            ("AsyncLock", m(LOCK, 1, 0, b"")),
            ("Initialize", m(INIT, 0, 0x1000000, b"hislip0")),
            ("StartTLS", m(28, 0, 0, b"")),
            ("AuthenticationStart", m(36, 0, 0, b"PLAIN")),
            ("DeviceClearComplete", m(CLR_COMPLETE, 1, 0, b"")),
        ]),
        Chan::Async => v.extend(vec![
            ("AsyncMaximumMessageSize", m(MAXSIZE, 0, 0, &[0, 0, 0, 0, 0, 0, 1, 0])),
            ("AsyncMaximumMessageSize of 7 bytes", m(MAXSIZE, 0, 0, &[0; 7])),
            ("AsyncMaximumMessageSize of 9 bytes", m(MAXSIZE, 0, 0, &[0; 9])),
            ("AsyncLockInfo", m(INFO, 0, 0, b"")),
            ("AsyncLockInfo with payload", m(INFO, 0, 0, b"HSHS")),
            ("AsyncStatusQuery", m(STATUS, 0, 2, b"")),
            ("release", m(LOCK, 0, 2, b"")),
            ("DataEnd", m(END, 0, 0, b"q")),
            ("Trigger", m(TRIGGER, 0, 0, b"")),
            ("AsyncInitialize", m(AINIT, 0, 2, b"")),
            ("AsyncStartTLS", m(29, 0, 0, &[0; 4])),
            ("AsyncStartTLS of 3 bytes", m(29, 0, 0, &[0; 3])),
            ("AsyncEndTLS", m(32, 0, 0, &[0; 4])),
            ("AsyncEndTLS of 0 bytes", m(32, 0, 0, b"")),
            ("remote control 1", m(REMOTE, 1, 0, b"")),
            ("remote control 7", m(REMOTE, 7, 0, b"")),
        ]),
        Chan::Fresh => v.extend(vec![("Data", m(DATA, 0, 0, b"q")), ("AsyncLockInfo", m(INFO, 0, 0, b"")), ("InitializeResponse", m(INIT_R, 0, 0, b""))]),
    }
    v
}

/// Send segments on one channel, compare everything that comes back with the model.
fn run13(chan: Chan, proto: u16, names: &str, msgs: &[Vec<u8>], segs: &[Vec<u8>], idle: bool) -> Verdict {
    let p = Probe::new();
    let _s = start(&p, cfg13());
    let sess = open(proto)?;
    let fresh = Conn::new();
    run_idle();
    p.take();
    let ctx = format!("{:?} channel, version {:#x}, messages [{}] in {} segments{}", chan, proto, names, segs.len(), if idle { "" } else { " at once" });
    let c = match chan {
        Chan::Sync => &sess.sync,
        Chan::Async => &sess.asy,
        Chan::Fresh => &fresh,
    };
    let mut m = Model13::new(chan, proto);
    for x in msgs {
        m.feed(x)
    }
    for x in segs {
        c.s.send(x);
        if idle {
            run_idle();
        }
    }
    let got = c.drain();
    no_trouble()?;
    let ok = got.len() == m.replies.len() && got.iter().zip(&m.replies).all(|(g, e)| e.ok(g));
    if !ok {
        let want = m.replies.iter().map(|e| e.text()).collect::<Vec<_>>().join("; ");
        return bad(format!("replies {} got {}", ctx, texts(&got)), format!("{}: answered [{}], expected [{}]", ctx, texts(&got), want));
    }
    if !c.rest().is_empty() {
        return bad(format!("rest {}", ctx), format!("{}: incomplete message \"{}\" received", ctx, show(&c.rest())));
    }
    if p.calls() != m.calls {
        return bad(format!("calls {} got {}", ctx, show_calls(&p.calls())), format!("{}: device saw [{}], expected [{}]", ctx, show_calls(&p.calls()), show_calls(&m.calls)));
    }
    if c.closed() != m.ended {
        return bad(format!("ended {} {}", ctx, c.closed()), format!("{}: connection {}", ctx, if m.ended { "stays open after a fatal error" } else { "closed" }));
    }
    // another client
    let o = open(V1)?;
    must_work(&o, b"other q", &ctx)
}

fn sequences13(chan: Chan, n: usize) -> Verdict {
    let proto = [V1, V2][choose(2, "version")];
    let mode = choose(3, "segments");
    let cat = catalogue(chan);
    let mut msgs = Vec::new();
    let mut names = Vec::new();
    for _ in 0..n {
        let k = choose(cat.len() + 1, "message");
        if k == 0 {
            break;
        }
        names.push(cat[k - 1].0);
        msgs.push(cat[k - 1].1.clone());
    }
    // the probe: still in step?
    match chan {
        Chan::Sync => msgs.push(msg(END, 0, 0x77, b"zq").enc()),
        Chan::Async => msgs.push(msg(INFO, 0, 0, b"").enc()),
        Chan::Fresh => msgs.push(msg(END, 0, 0, b"").enc()),
    }
    let all = msgs.concat();
    let (segs, idle): (Vec<Vec<u8>>, bool) = match mode {
        0 => (msgs.clone(), true),
        1 => (vec![all], false),
        _ => (all.iter().map(|b| vec![*b]).collect(), true),
    };
    run13(chan, proto, &names.join(", "), &msgs, &segs, idle)
}

/// All single and double cuts of a three-message script.
fn cuts13(chan: Chan) -> Verdict {
    let msgs: Vec<Vec<u8>> = match chan {
        Chan::Sync => vec![msg(DATA, 0, 2, b"a").enc(), msg(77, 0, 0, b"HS").enc(), msg(END, 0, 4, b"q").enc()],
        _ => vec![msg(INFO, 0, 0, b"").enc(), msg(200, 0, 0, b"H").enc(), msg(INFO, 0, 0, b"").enc()],
    };
    let all = msgs.concat();
    let c1 = choose(all.len(), "first cut");
    let c2 = c1 + choose(all.len() - c1, "second cut");
    let segs: Vec<Vec<u8>> = [&all[..c1], &all[c1..c2], &all[c2..]].iter().filter(|x| !x.is_empty()).map(|x| x.to_vec()).collect();
    run13(chan, V1, &format!("script cut at {} and {}", c1, c2), &msgs, &segs, true)
}

/// Largest reads and writes of every small size.
fn short13(chan: Chan) -> Verdict {
    let mr = [usize::MAX, 1, 3, 15, 16, 17][choose(6, "largest read")];
    let mw = [usize::MAX, 1, 3, 16][choose(4, "largest write")];
    net::cfg(|n| {
        n.max_read = mr;
        n.max_write = mw;
    });
    let cat = catalogue(chan);
    let k = choose(cat.len(), "message");
    let mut msgs = vec![cat[k].1.clone()];
    if chan == Chan::Sync {
        msgs.push(msg(END, 0, 0x77, b"zq").enc());
    } else {
        msgs.push(msg(INFO, 0, 0, b"").enc());
    }
    let all = msgs.concat();
    run13(chan, V2, cat[k].0, &msgs, &[all], true)
}

/// A message cut short at any byte by the end of the connection has no effect.
fn truncated13() -> Verdict {
    let cat: Vec<(&str, Chan, Vec<u8>)> = vec![
        ("DataEnd", Chan::Sync, msg(END, 0, 4, b"abcq").enc()),
        ("Data", Chan::Sync, msg(DATA, 0, 4, b"abcq").enc()),
        ("Trigger", Chan::Sync, msg(TRIGGER, 0, 4, b"xy").enc()),
        ("AsyncLock", Chan::Async, msg(LOCK, 1, 0, b"key\0").enc()),
        ("AsyncRemoteLocalControl", Chan::Async, msg(REMOTE, 5, 0, b"zz").enc()),
        ("AsyncStatusQuery", Chan::Async, msg(STATUS, 0, 0, b"zz").enc()),
        ("oversize DataEnd", Chan::Sync, msg(END, 0, 4, &[b'q'; MAXMSG + 5]).enc()),
        ("unknown", Chan::Sync, msg(55, 0, 4, &[b'q'; 5]).enc()),
        ("Initialize", Chan::Fresh, msg(INIT, 0, 0x1000000, b"hislip0").enc()),
    ];
    let (name, chan, b) = &cat[choose(cat.len(), "message")];
    let n = choose(b.len(), "bytes");
    let end = choose(3, "ending");
    let ctx = format!("{} cut after {} bytes, then {}", name, n, ["half close", "close", "reset"][end]);
    let p = Probe::new();
    let _s = start(&p, cfg13());
    let a = open(V2)?;
    let fresh = Conn::new();
    run_idle();
    p.take();
    let Sess { sync, asy, .. } = a;
    let (c, mut keep) = match chan {
        Chan::Sync => (sync, vec![asy, fresh]),
        Chan::Async => (asy, vec![sync, fresh]),
        Chan::Fresh => (fresh, vec![sync, asy]),
    };
    if *name == "oversize DataEnd" && n >= 16 {
        // the complete header may be answered at once
        keep.push(Conn::new());
    }
    c.s.send(&b[..n]);
    run_idle();
    let early = c.msgs();
    match end {
        0 => {
            let _ = c.s.shutdown_write();
        }
        1 => drop(c),
        _ => c.s.reset(),
    }
    run_idle();
    no_trouble()?;
    if !p.calls().is_empty() {
        return bad(format!("effect {}", ctx), format!("{}: device saw [{}]", ctx, show_calls(&p.calls())));
    }
    if early.iter().any(|m| m.typ != ERROR) {
        return bad(format!("answer {}", ctx), format!("{}: answered [{}]", ctx, texts(&early)));
    }
    let o = open(V1)?;
    o.asy.send(INFO, 0, 0, b"");
    let r = o.asy.idle();
    if r != vec![msg(INFO_R, 0, 0, b"")] {
        return bad(format!("locks {}", ctx), format!("{}: afterwards the lock state is [{}]", ctx, texts(&r)));
    }
    must_work(&o, b"q", &ctx)
}

/// Every type code on every channel.
fn types13() -> Verdict {
    let chan = [Chan::Sync, Chan::Async, Chan::Fresh][choose(3, "channel")];
    let proto = [V1, 0x101, V2][choose(3, "version")];
    let t = choose(256, "type") as u8;
    let plen = choose(2, "payload") * 4;
    let needs = match chan {
        Chan::Sync => false,
        // executed requests are checked elsewhere
        Chan::Async => t == LOCK || t == REMOTE || t == CLEAR,
        Chan::Fresh => t == INIT || t == AINIT,
    };
    if needs {
        return Ok(());
    }
    let mut msgs = vec![msg(t, 0, 2, &b"HSab"[..plen]).enc()];
    match chan {
        Chan::Sync => msgs.push(msg(END, 0, 0x77, b"zq").enc()),
        Chan::Async => msgs.push(msg(INFO, 0, 0, b"").enc()),
        Chan::Fresh => msgs.push(msg(END, 0, 0, b"").enc()),
    }
    run13(chan, proto, &format!("type {}", t), &msgs, &msgs, true)
}

/// Codes survive decode and encode.
fn codes13() -> Verdict {
    use lxi_hislip::common::errors::*;
    use lxi_hislip::common::messages::MessageType;
    let t = choose(256, "code") as u8;
    let m = MessageType::from_message_type(t).map(|m| m.get_message_type());
    let want = if (39..128).contains(&t) { None } else { Some(t) };
    if m != want {
        return bad(format!("code {}", t), format!("message type {} decodes and encodes to {:?}", t, m));
    }
    if FatalErrorCode::from_error_code(t).error_code() != t || NonFatalErrorCode::from_error_code(t).error_code() != t {
        return bad(format!("error code {}", t), format!("error code {} does not survive", t));
    }
    Ok(())
}

/// Initialize with every combination of boundary values.
fn init13() -> Verdict {
    const W: [u16; 10] = [0, 1, 0xff, 0x100, 0x101, 0x1ff, 0x200, 0x201, 0x300, 0xffff];
    let v = W[choose(10, "version")];
    let vendor = W[choose(10, "vendor")];
    let ctrl = [0u8, 1, 0x80, 0xff][choose(4, "control")];
    let overlap = choose(2, "overlap") == 1;
    let p = Probe::new();
    let mut cfg = cfg13().vendor_id(0xabcd);
    cfg = if overlap { cfg.prefer_overlap() } else { cfg.prefer_synchronized() };
    let _s = start(&p, cfg);
    let c = Conn::new();
    c.send(INIT, ctrl, (v as u32) << 16 | vendor as u32, b"hislip0");
    let r = c.idle();
    no_trouble()?;
    if r.len() != 1 || r[0].typ != INIT_R || r[0].ctrl != overlap as u8 || (r[0].param >> 16) as u16 != v.min(V2) || !r[0].payload.is_empty() {
        return bad(format!("init {:x} {:x} {:x}", v, vendor, ctrl), format!("Initialize version {:#x} vendor {:#x} control {:#x} answered by [{}]", v, vendor, ctrl, texts(&r)));
    }
    let a = Conn::new();
    a.send(AINIT, ctrl, 0xffff_0000 | (r[0].param & 0xffff), b"");
    let r = a.idle();
    no_trouble()?;
    let want = msg(AINIT_R, 0, 0xabcd, b"");
    // the upper half of the request parameter is reserved
    if r != vec![want] {
        return bad(format!("ainit {:x} {:x} {:x}", v, vendor, ctrl), format!("AsyncInitialize answered by [{}]", texts(&r)));
    }
    Ok(())
}

/// Nothing depends on how long the bytes of a message take.
fn pauses13() -> Verdict {
    let p = Probe::new();
    let srv = start(&p, ServerConfig::default());
    let gap = PAUSES[choose(PAUSES.len(), "pause")];
    let s = open([V1, V2][choose(2, "version")])?;
    let asynchronous = choose(2, "asynchronous") == 1;
    let mut bytes = Vec::new();
    if asynchronous {
        bytes.extend(msg(MAXSIZE, 0, 0, &200u64.to_be_bytes()).enc());
        bytes.extend(msg(INFO, 0, 0, b"").enc());
    } else {
        bytes.extend(msg(DATA, 0, 8, b"aq").enc());
        bytes.extend(msg(END, 0, 8, b"bc").enc());
    }
    let c1 = 1 + choose(bytes.len() - 1, "first cut");
    let c2 = c1 + choose(bytes.len() - c1, "second cut");
    let buf = [usize::MAX, 1][choose(2, "socket buffer")];
    net::cfg(|n| n.server_buf = buf);
    let mut locker = LockHandle::new(srv.lock.clone(), srv.dev.clone());
    let locked = !asynchronous && choose(2, "locked") == 1;
    if locked {
        locker.try_acquire(b"").unwrap();
    }
    let c = if asynchronous { &s.asy } else { &s.sync };
    for seg in [&bytes[..c1], &bytes[c1..c2], &bytes[c2..]] {
        if !seg.is_empty() {
            c.s.send(seg);
        }
        pause(gap);
    }
    if locked {
        locker.try_release().unwrap();
        pause(gap);
    }
    let r = if buf == 1 { c.drain_slowly(gap) } else { c.drain() };
    no_trouble()?;
    let want = if asynchronous { vec![MAXSIZE_R, INFO_R] } else { vec![END] };
    let ctx = format!("{} in segments of {}, {} and {} bytes with {} ms after each{}{}", if asynchronous { "maximum size and lock info" } else { "Data and DataEnd" }, c1, c2 - c1, bytes.len() - c2, gap, if locked { ", the device locked meanwhile" } else { "" }, if buf == 1 { ", the answer read byte by byte as slowly" } else { "" });
    let ok = r.iter().map(|m| m.typ).eq(want) && (asynchronous || r[0].payload == b"<aqbc>" && r[0].param == 8);
    if !ok {
        return bad(format!("pauses {} {}", asynchronous, texts(&r)), format!("{}: answered [{}]{}", ctx, texts(&r), if s.sync.closed() || s.asy.closed() { ", the session is ended" } else { "" }));
    }
    net::cfg(|n| n.server_buf = usize::MAX);
    must_work(&s, b"stillq", &ctx)
}

/// Nothing depends on how long the initialisation takes.
fn pauses14() -> Verdict {
    let p = Probe::new();
    let _srv = start(&p, ServerConfig::default());
    let gap = PAUSES[choose(PAUSES.len(), "pause")];
    let at = choose(32, "where");
    let wait = |k: usize| if at >> k & 1 == 1 { pause(gap) } else { run_idle() };
    let v = [V1, V2][choose(2, "version")];
    let sync = Conn::new();
    wait(0);
    let b = msg(INIT, 0, (v as u32) << 16 | 0x5858, b"hislip0").enc();
    let cut = [16, 5, b.len() - 1][choose(3, "cut")];
    sync.s.send(&b[..cut]);
    wait(1);
    sync.s.send(&b[cut..]);
    wait(2);
    let r = sync.msgs();
    no_trouble()?;
    let ctx = format!("an initialisation with pauses of {} ms (mask {:#b})", gap, at);
    if r.len() != 1 || r[0].typ != INIT_R {
        return bad("pauses: sync", format!("{}: Initialize is answered [{}]", ctx, texts(&r)));
    }
    let id = r[0].param as u16;
    let asy = Conn::new();
    wait(3);
    asy.send(AINIT, 0, id as u32, b"");
    wait(4);
    let r = asy.msgs();
    no_trouble()?;
    if r.len() != 1 || r[0].typ != AINIT_R {
        return bad("pauses: async", format!("{}: AsyncInitialize is answered [{}]", ctx, texts(&r)));
    }
    let s = Sess { id, sync, asy };
    must_work(&s, b"oneq", &ctx)?;
    // another session does not get its id however long it lives
    pause(gap);
    let t = open(v)?;
    if t.id == s.id {
        return bad("pauses: id", format!("{}: the id {} of a living session is given out again", ctx, id));
    }
    must_work(&t, b"twoq", &ctx)?;
    must_work(&s, b"threeq", &ctx)
}

pub fn c13() -> Vec<Scenario> {
    let n = q(3, 4);
    vec![
        Scenario::new("pauses", "requests on either channel in up to three segments with 600 ms to 40 days after each, also behind a lock or unread", pauses13),
        Scenario::new("sync-sequences", format!("all sequences of up to {} of 22 messages on the synchronous channel, 2 versions; whole messages, one segment, single bytes", n), move || sequences13(Chan::Sync, n)),
        Scenario::new("async-sequences", format!("all sequences of up to {} of 26 messages on the asynchronous channel, 2 versions; whole messages, one segment, single bytes", n), move || sequences13(Chan::Async, n)),
        Scenario::new("fresh-sequences", format!("all sequences of up to {} messages before initialisation", n), move || sequences13(Chan::Fresh, n)),
        Scenario::new("sync-cuts", "a three-message script cut at every pair of positions", || cuts13(Chan::Sync)),
        Scenario::new("async-cuts", "a three-message script cut at every pair of positions", || cuts13(Chan::Async)),
        Scenario::new("sync-short-io", "every message with every read and write size of a boundary set", || short13(Chan::Sync)),
        Scenario::new("async-short-io", "every message with every read and write size of a boundary set", || short13(Chan::Async)),
        Scenario::new("truncated", "9 messages cut after every byte, 3 endings", truncated13),
        Scenario::new("types", "all 256 message types on every channel, 3 versions, with and without payload", types13),
        Scenario::new("codes", "all 256 type and error codes decoded and encoded", codes13),
        Scenario::new("initialize", "10 versions, 10 vendors, 4 control codes, 2 modes", init13),
        Scenario::new(
            "private",
            "every message type with its parameters, every error code and every control and parameter field of the HiSLIP module, in both directions (3.2 million cases): written and read in pieces, every prefix, unknown types, the payload limit",
            || private_types("hsall"),
        ),
    ]
}

// ------------------------------------------------------------------ C14

const LIMIT: usize = 2;

#[derive(Clone, PartialEq, Debug)]
enum Role {
    Fresh,
    Sync(u16),
    Async(u16),
    Ended,
}

#[derive(Clone, Debug)]
struct SessM {
    sync_open: bool,
    async_open: bool,
    inited: bool,
}

impl SessM {
    fn live(&self) -> bool {
        self.sync_open || self.async_open
    }
}

struct W14 {
    conns: Vec<(Option<Conn>, Role)>,
    sess: BTreeMap<u16, SessM>,
    trace: Vec<String>,
    probe: Probe,
}

impl W14 {
    fn ctx(&self) -> String {
        self.trace.join(", ")
    }
    fn err(&self, sig: &str, what: String) -> Verdict {
        bad(format!("{} after {}", sig, self.ctx()), format!("{} (history: {})", what, self.ctx()))
    }
    fn expect_fatal(&mut self, i: usize, code: u8, r: &[Msg]) -> Verdict {
        let ok = r.len() == 1 && r[0].typ == FATAL && r[0].ctrl == code && self.conns[i].0.as_ref().unwrap().closed();
        self.conns[i].1 = Role::Ended;
        if !ok {
            return self.err("no refusal", format!("expected FatalError {} and the end of the connection, got [{}]", code, texts(r)));
        }
        Ok(())
    }
}

fn sessions14(depth: usize, nconn: usize) -> Verdict {
    let p = Probe::new();
    let _s = start(&p, ServerConfig::default().max_num_sessions(LIMIT));
    let mut w = W14 { conns: Vec::new(), sess: BTreeMap::new(), trace: Vec::new(), probe: p };
    let mut ids: Vec<u16> = Vec::new();
    for _ in 0..depth {
        // operations: 0 stop; then for each existing connection: a few; plus new connection
        let mut ops: Vec<(usize, u8, u16)> = Vec::new();
        let live_conns = w.conns.iter().filter(|c| c.0.is_some() && c.1 != Role::Ended).count();
        let mut new = |i: usize| {
            ops.push((i, b'I', 0));
            ops.push((i, b'D', 0));
            ops.push((i, b'X', 0));
            for id in ids.iter() {
                ops.push((i, b'A', *id));
            }
            ops.push((i, b'A', 0x7777));
        };
        if live_conns < nconn {
            new(w.conns.len());
        }
        for (i, c) in w.conns.iter().enumerate() {
            match (&c.0, &c.1) {
                (Some(_), Role::Sync(_)) => ops.extend([(i, b'q', 0), (i, b'c', 0), (i, b'I', 0)]),
                (Some(_), Role::Async(_)) => ops.extend([(i, b's', 0), (i, b'c', 0), (i, b'a', 0)]),
                _ => {}
            }
        }
        let k = choose(ops.len() + 1, "op");
        if k == 0 {
            break;
        }
        let (i, op, arg) = ops[k - 1];
        if i == w.conns.len() {
            w.conns.push((Some(Conn::new()), Role::Fresh));
            run_idle();
        }
        step14(&mut w, &mut ids, i, op, arg)?;
        no_trouble()?;
    }
    // existing sessions still work
    for i in 0..w.conns.len() {
        let op = match (&w.conns[i].0, &w.conns[i].1) {
            (Some(_), Role::Sync(_)) => b'q',
            (Some(_), Role::Async(_)) => b's',
            _ => continue,
        };
        step14(&mut w, &mut ids, i, op, 0)?;
    }
    Ok(())
}

fn step14(w: &mut W14, ids: &mut Vec<u16>, i: usize, op: u8, arg: u16) -> Verdict {
    w.trace.push(format!("{}{}{}", op as char, i, if op == b'A' { format!("({})", arg) } else { String::new() }));
    w.probe.take();
    let role = w.conns[i].1.clone();
    if op == b'c' {
        w.conns[i].0 = None;
        run_idle();
        match role {
            Role::Sync(id) => w.sess.get_mut(&id).unwrap().sync_open = false,
            Role::Async(id) => w.sess.get_mut(&id).unwrap().async_open = false,
            _ => {}
        }
        w.conns[i].1 = Role::Ended;
        return Ok(());
    }
    {
        let c = w.conns[i].0.as_ref().unwrap();
        match op {
            b'I' => c.send(INIT, 0, 0x1000000, if i % 2 == 0 { b"hislip0" } else { b"" }),
            b'X' => c.send(INIT, 0, 0x1000000, if i % 2 == 0 { b"hislip1" } else { b"\xff\xff" }),
            b'D' | b'q' => c.send(END, 0, 2, b"q"),
            b'A' => c.send(AINIT, 0, arg as u32, b""),
            b'a' => c.send(AINIT, 0, *ids.last().unwrap_or(&0) as u32, b""),
            b's' => c.send(INFO, 0, 0, b""),
            _ => unreachable!(),
        }
    }
    let r = w.conns[i].0.as_ref().unwrap().idle();
    no_trouble()?;
    if op != b'q' && !w.probe.calls().is_empty() {
        return w.err("effect", format!("device saw [{}]", show_calls(&w.probe.calls())));
    }
    match (&role, op) {
        (Role::Fresh, b'I') => {
            let live = w.sess.values().filter(|s| s.live()).count();
            if live >= LIMIT {
                return w.expect_fatal(i, 4, &r);
            }
            if r.len() != 1 || r[0].typ != INIT_R {
                return w.err("refused", format!("Initialize answered by [{}]", texts(&r)));
            }
            let id = r[0].param as u16;
            if w.sess.get(&id).is_some_and(|s| s.live()) {
                return w.err("same id", format!("session id {} is already in use", id));
            }
            w.sess.insert(id, SessM { sync_open: true, async_open: false, inited: false });
            if !ids.contains(&id) {
                ids.push(id);
            }
            w.conns[i].1 = Role::Sync(id);
        }
        (Role::Fresh, b'X') | (Role::Fresh, b'D') => return w.expect_fatal(i, 3, &r),
        (Role::Fresh, b'A') => {
            let ok = w.sess.get(&arg).is_some_and(|s| s.live() && !s.inited);
            if !ok {
                return w.expect_fatal(i, 3, &r);
            }
            if r.len() != 1 || r[0].typ != AINIT_R {
                return w.err("async refused", format!("AsyncInitialize of session {} answered by [{}]", arg, texts(&r)));
            }
            let s = w.sess.get_mut(&arg).unwrap();
            s.inited = true;
            s.async_open = true;
            w.conns[i].1 = Role::Async(arg);
        }
        (Role::Sync(id), b'q') => {
            if w.sess[id].inited {
                if r != vec![msg(END, 0, 2, b"<q>")] || w.probe.calls() != vec![Call::Exec(b"q".to_vec())] {
                    return w.err("no service", format!("query answered by [{}], device saw [{}]", texts(&r), show_calls(&w.probe.calls())));
                }
            } else {
                w.sess.get_mut(id).unwrap().sync_open = false;
                if !w.probe.calls().is_empty() {
                    return w.err("early service", "data is served before both channels are initialised".to_string());
                }
                return w.expect_fatal(i, 2, &r);
            }
        }
        (Role::Sync(_), b'I') | (Role::Async(_), b'a') => {
            if r.len() != 1 || r[0].typ != ERROR {
                return w.err("repeat", format!("repeated initialisation answered by [{}]", texts(&r)));
            }
        }
        (Role::Async(_), b's') => {
            if r.len() != 1 || r[0].typ != INFO_R {
                return w.err("no async service", format!("AsyncLockInfo answered by [{}]", texts(&r)));
            }
        }
        x => unreachable!("{:?}", x),
    }
    Ok(())
}

/// Initialisations racing each other.
fn race14(n: usize) -> Verdict {
    let p = Probe::new();
    let _s = start(&p, ServerConfig::default().max_num_sessions(8));
    let base = Conn::new();
    base.send(INIT, 0, 0x1000000, b"");
    let id = base.idle()[0].param as u16;
    mcrt::set_explore(true, true, false, false);
    let mut hs = Vec::new();
    for i in 0..n {
        let async_init = choose(2, "kind") == 0;
        hs.push((
            async_init,
            mcrt::spawn_client(&format!("client{}", i), async move {
                let c = Conn::new();
                if async_init {
                    c.send(AINIT, 0, id as u32, b"");
                } else {
                    c.send(INIT, 0, 0x1000000, b"");
                }
                let r = c.next().await;
                (c, r)
            }),
        ));
    }
    run_idle();
    mcrt::explore_off();
    no_trouble()?;
    let mut joined = 0;
    let mut asked = 0;
    let mut ids = vec![id];
    let mut keep = Vec::new();
    for (async_init, h) in hs {
        let Some((c, r)) = h.try_take() else { return bad("stuck", "an initialisation is not answered") };
        let Some(r) = r else { return bad("closed", "an initialisation is not answered but the connection closed") };
        if async_init {
            asked += 1;
            match r.typ {
                AINIT_R => joined += 1,
                FATAL if r.ctrl == 3 => {}
                _ => return bad("async", format!("AsyncInitialize answered by [{}]", r.text())),
            }
        } else {
            if r.typ != INIT_R {
                return bad("sync", format!("Initialize answered by [{}]", r.text()));
            }
            ids.push(r.param as u16);
        }
        keep.push(c);
    }
    let mut u = ids.clone();
    u.sort();
    u.dedup();
    if u.len() != ids.len() {
        return bad("same id", format!("session ids {:?}", ids));
    }
    if joined != asked.min(1) {
        return bad("joined", format!("{} of {} asynchronous channels joined the same session", joined, asked));
    }
    if joined == 1 {
        let r = query(&base, 2, b"q")?;
        if r != vec![msg(END, 0, 2, b"<q>")] {
            return bad("no service", format!("query answered by [{}]", texts(&r)));
        }
    }
    Ok(())
}

/// Session numbers wrap around while a few sessions live on: every new one works, on its own device access and message
/// size, and those living keep working.
fn wrap14() -> Verdict {
    let p = Probe::new();
    let _s = start(&p, ServerConfig::default());
    let mut living = vec![open(V1)?];
    let size = |s: &Sess, n: u64| {
        s.asy.send(MAXSIZE, 0, 0, &n.to_be_bytes());
        s.asy.idle();
    };
    for i in 1..33000u32 {
        let c = open(V1)?;
        if let Some(l) = living.iter().find(|l| l.id == c.id) {
            return bad("wrap same id", format!("session number {} got id {} of a live session", i, l.id));
        }
        // its asynchronous channel is that of this session
        let n = i as u64 % 3 + 1;
        size(&c, n);
        let r = query(&c.sync, 2, b"q")?;
        let sizes: Vec<usize> = r.iter().map(|m| m.payload.len()).collect();
        if response(&r, 2, n as usize).ok().as_deref() != Some(b"<q>") || sizes[0] != n as usize {
            return bad("wrap joined", format!("session number {} (id {}) announces messages of {} bytes and gets [{}]", i, c.id, n, texts(&r)));
        }
        if matches!(i, 1 | 2 | 63 | 64 | 127 | 128 | 129 | 255 | 256 | 1023 | 1024 | 16383 | 16384 | 32766) {
            living.push(c);
        } else {
            drop(c);
            run_idle();
        }
        if i % 4096 == 0 || i > 32990 {
            for l in &living {
                size(l, 256);
                must_work(l, b"q", &format!("after {} sessions", i))?;
            }
        }
    }
    Ok(())
}

pub fn c14() -> Vec<Scenario> {
    let d = q(7, 8);
    let b = q(3, 4);
    vec![
        Scenario::new("sessions", format!("all sequences of up to {} operations (initialise with right/wrong/default sub-address, async-initialise of every known and an unknown id, data, info, repeated initialise, close) over up to 4 connections, session limit 2", d), move || sessions14(d, 4)),
        Scenario::new("race-2", "2 initialisations (of either kind) at once, every interleaving up to the deviation bound", || race14(2)).bound(b, b + 1),
        Scenario::new("race-3", "3 initialisations (of either kind) at once, every interleaving up to the deviation bound", || race14(3)).bound(b - 1, b),
        Scenario::new("wrap-around", "33000 complete sessions after each other while up to 15 live on", wrap14).steps(100_000_000),
        Scenario::new("answers", "10 versions, 10 vendors, 4 control codes, 2 modes: version, id and vendor in the answers", init13),
        Scenario::new("pauses", "600 ms to 40 days between any of the steps of an initialisation", pauses14),
    ]
}

// ------------------------------------------------------------------ C15

pub fn resp15(c: &[u8]) -> Option<Vec<u8>> {
    // "r<n>" answers n bytes which all differ from their neighbours
    let c = c.strip_prefix(b"r")?;
    let n: usize = std::str::from_utf8(c).ok()?.parse().ok()?;
    Some((0..n).map(|i| (i * 7 + i / 251) as u8).collect())
}

/// A response of every length, with every message size.
fn chunks15() -> Verdict {
    const SIZES: [u64; 12] = [0, 1, 2, 3, 4, 5, 16, 255, 256, 257, 1 << 32, u64::MAX];
    let lens: Vec<usize> = if thorough() { (0..40).chain(250..264).chain(505..520).chain([1000, 4096]).collect() } else { (0..12).chain([15, 16, 17, 31, 32, 33, 254, 255, 256, 257, 258, 511, 512, 513, 514]).collect() };
    let k = choose(SIZES.len() + 1, "size");
    let n = lens[choose(lens.len(), "length")];
    let mw = [usize::MAX, 1, 5, 16, 17][choose(5, "largest write")];
    let p = Probe::with(resp15);
    let _s = start(&p, ServerConfig::default());
    let a = open(V1)?;
    net::cfg(|c| c.max_write = mw);
    let max = if k == 0 {
        256
    } else {
        a.asy.send(MAXSIZE, 0, 0, &SIZES[k - 1].to_be_bytes());
        let r = a.asy.drain();
        if r != vec![msg(MAXSIZE_R, 0, 0, &(1024u64 * 1024).to_be_bytes())] {
            return bad(format!("size {}", SIZES[k - 1]), format!("AsyncMaximumMessageSize {} answered by [{}]", SIZES[k - 1], texts(&r)));
        }
        match SIZES[k - 1] {
            0 => usize::MAX,
            x => x as usize,
        }
    };
    let ctx = format!("response of {} bytes, client message size {}, largest write {}", n, if k == 0 { "default".into() } else { SIZES[k - 1].to_string() }, mw as i64);
    for round in 0..2u32 {
        let cmd = format!("r{}", n);
        let r = query(&a.sync, 0x8000_0000 + 2 * round, cmd.as_bytes())?;
        match response(&r, 0x8000_0000 + 2 * round, max) {
            Ok(x) if x == resp15(cmd.as_bytes()).unwrap() && !r.is_empty() => {}
            Ok(x) => return bad(format!("content {}", ctx), format!("{}: received {} bytes, which are not the response", ctx, x.len())),
            Err(e) => return bad(format!("framing {}", ctx), format!("{}: {}", ctx, e)),
        }
    }
    Ok(())
}

/// All splits of commands over Data and DataEnd, with triggers in between, by one or two clients.
fn sequences15(depth: usize, clients: usize) -> Verdict {
    let p = Probe::new();
    let _s = start(&p, ServerConfig::default());
    let ss: Vec<Sess> = (0..clients).map(|_| open(V1)).collect::<Result<_, _>>()?;
    p.take();
    let mut bufs = vec![Vec::new(); clients];
    let mut want: Vec<Call> = Vec::new();
    let mut trace = Vec::new();
    const PAY: [&[u8]; 4] = [b"", b"a", b"q", b"\n\0"];
    let mut id = 0xffff_fff8u32;
    for _ in 0..depth {
        let k = choose(1 + clients * 9, "message");
        if k == 0 {
            break;
        }
        let (c, k) = ((k - 1) / 9, (k - 1) % 9);
        id = id.wrapping_add(2);
        let tag = b'0' + c as u8;
        let mut expect = Vec::new();
        if k < 8 {
            let mut pay = PAY[k % 4].to_vec();
            if !pay.is_empty() {
                pay.push(tag);
            }
            let end = k >= 4;
            bufs[c].extend(&pay);
            trace.push(format!("{}{} \"{}\"", if end { "DataEnd" } else { "Data" }, c, show(&pay)));
            if end {
                let cmd = std::mem::take(&mut bufs[c]);
                if let Some(r) = rule(&cmd) {
                    expect.push(msg(END, 0, id, &r));
                }
                want.push(Call::Exec(cmd));
            }
            ss[c].sync.send(if end { END } else { DATA }, (id >> 1) as u8 & 1, id, &pay);
        } else {
            trace.push(format!("Trigger{}", c));
            want.push(Call::Trigger(Source::Bus));
            ss[c].sync.send(TRIGGER, 1, id, b"");
        }
        run_idle();
        no_trouble()?;
        for (i, s) in ss.iter().enumerate() {
            let r = s.sync.msgs();
            let e = if i == c { expect.clone() } else { vec![] };
            if r != e {
                return bad(format!("answer {:?} {}", trace, texts(&r)), format!("{}: client {} received [{}], expected [{}]", trace.join(", "), i, texts(&r), texts(&e)));
            }
        }
    }
    if p.calls() != want {
        return bad(format!("calls {:?}", trace), format!("{}: device saw [{}], expected [{}]", trace.join(", "), show_calls(&p.calls()), show_calls(&want)));
    }
    Ok(())
}

/// Everything else that happens in a session leaves its commands and responses alone.
fn between15(depth: usize) -> Verdict {
    let p = Probe::with(|c| resp15(c).or_else(|| rule(c)));
    let mut srv = start(&p, ServerConfig::default());
    let a = open(V1)?;
    let b = open(V1)?;
    p.take();
    let (mut buf, mut want, mut trace) = (Vec::new(), Vec::new(), Vec::new());
    let mut stb = 0;
    for i in 0..depth as u32 {
        let id = 2 * i + 2;
        let k = choose(18, "step");
        // what is received on the two channels, of data and of replies
        let mut data = None;
        let mut reply = None;
        match k {
            0 => break,
            1 => {
                trace.push("Data");
                buf.push(b'a');
                a.sync.send(DATA, 0, id, b"a");
            }
            2 | 3 => {
                let c: &[u8] = if k == 2 { b"q" } else { b"r300" };
                trace.push(if k == 2 { "DataEnd" } else { "DataEnd, long response" });
                buf.extend(c);
                a.sync.send(END, 0, id, c);
                let c = std::mem::take(&mut buf);
                data = resp15(&c).or_else(|| rule(&c));
                want.push(Call::Exec(c));
            }
            4 => {
                trace.push("Trigger");
                a.sync.send(TRIGGER, 0, id, b"");
                want.push(Call::Trigger(Source::Bus));
            }
            5 => {
                trace.push("vendor message");
                a.sync.send(200, 0, id, b"ab");
            }
            6 => {
                trace.push("unknown message");
                a.sync.send(77, 0, id, b"ab");
            }
            7 => {
                trace.push("GetDescriptors");
                a.sync.send(26, 0, id, b"");
            }
            8 => {
                trace.push("stray completion");
                a.sync.send(CLR_COMPLETE, 0, id, b"");
            }
            9 => {
                trace.push("error from the client");
                a.sync.send(ERROR, 0, id, b"ab");
            }
            10 => {
                trace.push("status query");
                a.asy.send(STATUS, 0, id, b"");
                reply = Some(STATUS_R);
            }
            11 => {
                trace.push("lock info");
                a.asy.send(INFO, 0, 0, b"");
                reply = Some(INFO_R);
            }
            12 => {
                trace.push("maximum size");
                a.asy.send(MAXSIZE, 0, 0, &256u64.to_be_bytes());
                reply = Some(MAXSIZE_R);
            }
            13 => {
                trace.push("remote");
                a.asy.send(REMOTE, 1, 0, b"");
                reply = Some(REMOTE_R);
            }
            14 => {
                trace.push("lock");
                a.asy.send(LOCK, 1, 0, b"");
                reply = Some(LOCK_R);
            }
            15 => {
                trace.push("release");
                a.asy.send(LOCK, 0, id, b"");
                reply = Some(LOCK_R);
            }
            16 => {
                trace.push("service request");
                stb ^= 1;
                p.set_stb(0x40 | stb);
                srv.srq.send_status(0x40 | stb);
            }
            _ => {
                trace.push("lock by another");
                // it gets it unless this client has it: whoever has it keeps it
                b.asy.send(LOCK, 1, 0, b"");
                let got = b.asy.idle().first().map_or(false, |m| m.ctrl == 1);
                b.asy.send(LOCK, 0, 0, b"");
                if b.asy.idle().len() != 1 && got {
                    return bad("release", "a lock is not released");
                }
            }
        }
        let mut r = a.sync.idle();
        let ra = a.asy.idle();
        no_trouble()?;
        if (5..=9).contains(&k) {
            r.retain(|m| [DATA, END, FATAL].contains(&m.typ));
        }
        let ok = match &data {
            Some(d) => response(&r, id, 256).as_ref() == Ok(d) && !r.is_empty(),
            None => r.is_empty(),
        };
        if !ok {
            return bad(format!("answer {:?} {}", trace, texts(&r)), format!("{}: received [{}]", trace.join(", "), texts(&r)));
        }
        let ra: Vec<u8> = ra.iter().map(|m| m.typ).filter(|t| *t != SRQ).collect();
        if ra != reply.iter().copied().collect::<Vec<_>>() {
            return bad(format!("asynchronous {:?} {:?}", trace, ra), format!("{}: received messages of the types {:?} on the asynchronous channel", trace.join(", "), ra));
        }
    }
    let calls: Vec<Call> = p.calls().into_iter().filter(|c| matches!(c, Call::Exec(_) | Call::Trigger(_) | Call::Clear)).collect();
    if calls != want {
        return bad(format!("calls {:?}", trace), format!("{}: device saw [{}], expected [{}]", trace.join(", "), show_calls(&calls), show_calls(&want)));
    }
    Ok(())
}

/// Several commands sent at once, the answers in order; every small write size.
fn pipeline15() -> Verdict {
    let p = Probe::with(resp15);
    let _s = start(&p, ServerConfig::default());
    let a = open(V1)?;
    p.take();
    let mw = [usize::MAX, 1, 7][choose(3, "largest write")];
    let sb = [usize::MAX, 1, 20, 300][choose(4, "socket buffer")];
    net::cfg(|c| {
        c.max_write = mw;
        c.server_buf = sb;
    });
    const CMDS: [&[u8]; 4] = [b"n", b"r1", b"r257", b"r513"];
    let n = 1 + choose(3, "commands");
    let mut want = Vec::new();
    let mut bytes = Vec::new();
    let mut cmds = Vec::new();
    for i in 0..n {
        let c = CMDS[choose(4, "command")];
        cmds.push(c.to_vec());
        bytes.extend(msg(END, 0, 100 + i as u32, c).enc());
        if let Some(r) = resp15(c) {
            want.push((100 + i as u32, r));
        }
    }
    let ctx = format!("commands {:?} at once", cmds.iter().map(|c| show(c)).collect::<Vec<_>>());
    a.sync.s.send(&bytes);
    let got = a.sync.drain();
    no_trouble()?;
    if p.execs() != cmds {
        return bad(format!("executed {}", ctx), format!("{}: executed {:?}", ctx, p.execs()));
    }
    let mut i = 0;
    for (id, w) in want {
        let j = (i..got.len()).find(|j| got[*j].typ == END).map_or(got.len(), |j| j + 1);
        match response(&got[i..j], id, 256) {
            Ok(x) if x == w && i < j => {}
            Ok(_) => return bad(format!("content {}", ctx), format!("{}: wrong response to message {}", ctx, id)),
            Err(e) => return bad(format!("framing {}", ctx), format!("{}: {}", ctx, e)),
        }
        i = j;
    }
    if i != got.len() {
        return bad(format!("extra {}", ctx), format!("{}: unexpected [{}]", ctx, texts(&got[i..])));
    }
    Ok(())
}

/// The short-circuited identification.
fn idn15() -> Verdict {
    let p = Probe::new();
    let _s = start(&p, ServerConfig::default().short_idn(b"ID"));
    let a = open(V1)?;
    p.take();
    let mut execs: Vec<Vec<u8>> = Vec::new();
    let mut trace = Vec::new();
    const CMDS: [&[u8]; 6] = [b"*IDN?", b"*idn?", b"*IDN?q", b"q", b"*ID", b""];
    let mut buf: Vec<u8> = Vec::new();
    for i in 0..4u32 {
        let k = choose(8, "command");
        if k == 0 {
            break;
        }
        let (c, end): (&[u8], bool) = if k == 7 { (b"*I", false) } else { (CMDS[k - 1], true) };
        trace.push(format!("{}\"{}\"", if end { "" } else { "Data " }, show(c)));
        buf.extend(c);
        a.sync.send(if end { END } else { DATA }, 0, i, c);
        let r = a.sync.idle();
        no_trouble()?;
        let mut want = Vec::new();
        if end {
            let cmd = std::mem::take(&mut buf);
            if cmd.eq_ignore_ascii_case(b"*IDN?") {
                want.push(msg(END, 0, i, b"ID"));
            } else {
                if let Some(x) = rule(&cmd) {
                    want.push(msg(END, 0, i, &x));
                }
                execs.push(cmd);
            }
        }
        if r != want {
            return bad(format!("answer {:?}", trace), format!("{}: received [{}], expected [{}]", trace.join(", "), texts(&r), texts(&want)));
        }
    }
    if p.execs() != execs {
        return bad(format!("executed {:?}", trace), format!("{}: executed {:?}", trace.join(", "), p.execs()));
    }
    Ok(())
}

/// Two clients with interleaved commands.
fn clients15() -> Verdict {
    let p = Probe::new();
    let _s = start(&p, ServerConfig::default());
    let ss: Vec<Sess> = (0..2).map(|_| open(V1)).collect::<Result<_, _>>()?;
    p.take();
    let kinds: Vec<usize> = (0..2).map(|_| choose(3, "script")).collect();
    mcrt::set_explore(true, true, false, false);
    let mut hs = Vec::new();
    for (i, s) in ss.into_iter().enumerate() {
        let k = kinds[i];
        hs.push(mcrt::spawn_client(&format!("client{}", i), async move {
            let t = b'0' + i as u8;
            match k {
                0 => {
                    s.sync.send(DATA, 0, 2, &[t]);
                    async_std::task::yield_now().await;
                    s.sync.send(END, 0, 2, &[b'q', t]);
                }
                1 => {
                    s.sync.send(END, 0, 2, &[b'n', t]);
                    s.sync.send(END, 0, 2, &[b'q', t]);
                }
                _ => {
                    s.sync.send(END, 0, 2, &[b'q', t]);
                    s.sync.send(TRIGGER, 0, 2, b"");
                }
            }
            let r = s.sync.next().await;
            (s, r)
        }));
    }
    run_idle();
    mcrt::explore_off();
    no_trouble()?;
    let calls = p.calls();
    let mut total = 0;
    for (i, h) in hs.into_iter().enumerate() {
        let t = b'0' + i as u8;
        let want: Vec<Vec<u8>> = match kinds[i] {
            0 => vec![vec![t, b'q', t]],
            1 => vec![vec![b'n', t], vec![b'q', t]],
            _ => vec![vec![b'q', t]],
        };
        let mine: Vec<Vec<u8>> = p.execs().into_iter().filter(|c| c.contains(&t)).collect();
        total += want.len() + (kinds[i] == 2) as usize;
        let Some((s, r)) = h.try_take() else { return bad("stuck", "a query is not answered") };
        let e = msg(END, 0, 2, &rule(want.last().unwrap()).unwrap());
        if mine != want || r != Some(e) || !s.sync.idle().is_empty() {
            return bad(format!("client {} {:?}", i, kinds), format!("client {}: executed {:?}, answered [{}]", i, mine, r.map_or("nothing".into(), |m| m.text())));
        }
    }
    if calls.len() != total {
        return bad(format!("calls {:?}", kinds), format!("device saw [{}]", show_calls(&calls)));
    }
    Ok(())
}

/// Commands and responses far beyond any buffer, in few or many messages.
fn large15() -> Verdict {
    const N: [usize; 10] = [4095, 4096, 4097, 65535, 65536, 65537, 1 << 20, (1 << 20) + 1, 3 << 20, (8 << 20) + 5];
    let n = N[choose(N.len(), "length")];
    let piece = [16usize, 256, 65535, 65536, 1 << 20][choose(5, "payload")];
    let max = [256u64, 65536, 1 << 20, (1 << 32) - 1, 1 << 32, 1 << 63][choose(6, "client size")];
    let twice = choose(2, "twice") == 1;
    if n / piece > 300 || n / max as usize > 300 || n > 2 << 20 && (piece < 1 << 20 || max < 1 << 63) || twice && n > 1 << 20 {
        return Ok(());
    }
    let answer = |c: &[u8]| c.iter().rev().copied().chain([7]).collect::<Vec<u8>>();
    let p = Probe::with(move |c| Some(answer(c)));
    let _s = start(&p, ServerConfig::default());
    let a = open(V1)?;
    a.asy.send(MAXSIZE, 0, 0, &max.to_be_bytes());
    a.asy.drain();
    let cmd: Vec<u8> = (0..n).map(|i| (i * 7 + i / 251) as u8).collect();
    for round in 0..1 + twice as usize {
        let id = 0xffff_ff00 + 2 * round as u32;
        let parts: Vec<&[u8]> = cmd.chunks(piece).collect();
        for (i, x) in parts.iter().enumerate() {
            a.sync.send(if i + 1 == parts.len() { END } else { DATA }, 0, id, x);
            if i % 64 == 0 {
                run_idle();
            }
        }
        let r = a.sync.drain();
        no_trouble()?;
        let ctx = format!("command number {} of {} bytes in {} messages, client size {}", round + 1, n, parts.len(), max);
        let ex = p.execs();
        if ex.len() != round + 1 || ex[round] != cmd {
            return bad(format!("executed {}", ctx), format!("{}: executed {:?} bytes", ctx, ex.iter().map(|e| e.len()).collect::<Vec<_>>()));
        }
        match response(&r, id, max as usize) {
            Ok(x) if x == answer(&cmd) => {}
            Ok(x) => return bad(format!("content {}", ctx), format!("{}: received {} bytes, which are not the response", ctx, x.len())),
            Err(e) => return bad(format!("framing {}", ctx), format!("{}: {}", ctx, e)),
        }
    }
    Ok(())
}

pub fn c15() -> Vec<Scenario> {
    let d = q(5, 6);
    let d2 = q(4, 5);
    let b = q(3, 4);
    vec![
        Scenario::new("chunks", "27 response lengths (thorough: 69) x 13 client message sizes x 5 write sizes, twice each", chunks15),
        Scenario::new("large", "commands of 10 lengths up to 8 MiB in messages of 5 sizes, answers as long with 6 client message sizes", large15).steps(10_000_000),
        Scenario::new("sequences", format!("all sequences of up to {} of Data, DataEnd with 4 payloads and Trigger by one client", d), move || sequences15(d, 1)),
        Scenario::new("two-clients", format!("all sequences of up to {} of Data, DataEnd with 4 payloads and Trigger by two clients", d2), move || sequences15(d2, 2)),
        Scenario::new("between", format!("all sequences of up to {} of Data, DataEnd, Trigger, 5 kinds of other messages and 7 asynchronous requests, service requests, another client's lock", q(4, 5)), move || between15(q(4, 5))),
        super::hislip2::everything_of("C15"),
        super::hislip2::pauses_of("C15"),
        Scenario::new("pipeline", "up to 3 commands at once, 4 response lengths, write and socket buffer sizes", pipeline15),
        Scenario::new("short-idn", "all sequences of up to 4 commands with a configured identification", idn15),
        Scenario::new("interleaved", "two clients with 3 scripts each, every interleaving up to the deviation bound", clients15).bound(b, b),
    ]
}
