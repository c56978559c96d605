//! C06-C08: raw socket and telnet servers.
use crate::common::*;
use crate::dev::*;
use lxi_device::lock::SharedLock;
use mcrt::net::Sock;
use std::net::SocketAddr;

pub fn raw_addr() -> SocketAddr {
    "127.0.0.1:5025".parse().unwrap()
}
pub fn telnet_addr() -> SocketAddr {
    "127.0.0.1:5024".parse().unwrap()
}

/// Choose a string of at most `max` symbols.
fn choose_string(max: usize, alphabet: &[&[u8]]) -> Vec<Vec<u8>> {
    let mut v = Vec::new();
    while v.len() < max {
        let c = choose(alphabet.len() + 1, "byte");
        if c == 0 {
            break;
        }
        v.push(alphabet[c - 1].to_vec());
    }
    v
}

/// Cut bytes into segments in every way.
pub fn choose_segments(b: &[u8]) -> Vec<Vec<u8>> {
    let mut out: Vec<Vec<u8>> = Vec::new();
    for (i, x) in b.iter().enumerate() {
        if i == 0 || choose(2, "cut") == 1 {
            out.push(Vec::new());
        }
        out.last_mut().unwrap().push(*x);
    }
    out
}

/// Short strings: every segmentation. Longer ones: single bytes, or at most two cuts anywhere.
pub fn choose_cuts(b: &[u8]) -> Vec<Vec<u8>> {
    if b.len() <= 8 {
        return choose_segments(b);
    }
    if choose(2, "single bytes") == 1 {
        return b.iter().map(|x| vec![*x]).collect();
    }
    let c1 = 1 + choose(b.len(), "first cut");
    let c2 = c1 + if c1 < b.len() { 1 + choose(b.len() - c1, "second cut") } else { 0 };
    [&b[..c1], &b[c1..c2.min(b.len())], &b[c2.min(b.len())..]].iter().filter(|x| !x.is_empty()).map(|x| x.to_vec()).collect()
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum End {
    Stay,
    Close,
    HalfClose,
    Reset,
}
const ENDS: [End; 4] = [End::Stay, End::Close, End::HalfClose, End::Reset];

pub fn segs_text(s: &[Vec<u8>]) -> String {
    s.iter().map(|x| format!("\"{}\"", show(x))).collect::<Vec<_>>().join(" ")
}

// ------------------------------------------------------------------ raw

#[derive(Clone, Copy)]
struct RawCfg {
    read_buffer: usize,
    rterm: u8,
    wterm: u8,
}

fn start_raw(c: Option<RawCfg>, p: &Probe) {
    let mut sc = lxi_socket::server::ServerConfig::default();
    if let Some(c) = c {
        sc = if c.rterm == c.wterm {
            lxi_socket::server::ServerConfig::new(c.read_buffer, c.rterm)
        } else {
            sc.read_buffer(c.read_buffer).read_termination(c.rterm).write_termination(c.wterm)
        };
    }
    raw_on(sc, SharedLock::new(), p.device());
}

pub type Lock = std::sync::Arc<lxi_device::lock::SpinMutex<SharedLock>>;
pub type Dev = std::sync::Arc<futures::lock::Mutex<TDev>>;

pub fn raw_on(sc: lxi_socket::server::ServerConfig, lock: Lock, d: Dev) {
    mcrt::spawn_named("raw server", async move {
        let r = sc.build().accept(raw_addr(), lock, d).await;
        event(format!("raw server returned {:?}", r.map_err(|e| e.kind())));
    });
    run_idle();
}

pub const UNIX: &str = "/run/lxi.sock";

pub fn unix_on(sc: lxi_socket::server::ServerConfig, lock: Lock, d: Dev) {
    mcrt::spawn_named("unix server", async move {
        let r = sc.build().accept_unix(UNIX, lock, d).await;
        event(format!("unix server returned {:?}", r.map_err(|e| e.kind())));
    });
    run_idle();
}

fn lines(b: &[u8], term: u8) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = b.split(|x| *x == term).map(|x| x.to_vec()).collect();
    v.pop();
    v
}

fn answers(ls: &[Vec<u8>], wterm: u8) -> Vec<u8> {
    let mut o = Vec::new();
    for l in ls {
        if let Some(r) = rule(l) {
            o.extend(r);
            o.push(wterm);
        }
    }
    o
}

fn raw_bytes(max: usize, alphabet: &'static [&'static [u8]], cfgs: &'static [(RawCfg, usize, usize)]) -> Verdict {
    let (c, max_read, max_write) = cfgs[choose(cfgs.len(), "config")];
    net::cfg(|n| {
        n.max_read = max_read;
        n.max_write = max_write;
    });
    let p = Probe::new();
    start_raw(Some(c), &p);
    let end = ENDS[choose(ENDS.len(), "end")];
    let idle = choose(2, "wait between segments") == 0;
    let bytes = choose_string(max, alphabet).concat();
    let segs = choose_segments(&bytes);
    let ctx = format!("read buffer {}, largest read {}, largest write {}, segments [{}], then {:?}", c.read_buffer, max_read as i64, max_write as i64, segs_text(&segs), end);
    let s = net::connect(raw_addr()).unwrap();
    if idle {
        run_idle();
    }
    for x in &segs {
        s.send(x);
        if idle {
            run_idle();
        }
    }
    let mut got = Vec::new();
    match end {
        End::Stay => run_idle(),
        End::Close => {
            got.extend(s.recv());
            drop(s);
            run_idle();
            // answers that cannot be delivered reset the connection
            return raw_judge(&ctx, &p, &bytes, c, None, !idle && !answers(&lines(&bytes, c.rterm), NL).is_empty());
        }
        End::HalfClose => {
            let _ = s.shutdown_write();
            run_idle();
        }
        End::Reset => {
            s.reset();
            run_idle();
            return raw_judge(&ctx, &p, &bytes, c, None, !idle);
        }
    }
    got.extend(s.recv());
    if end == End::HalfClose && !s.peer_closed() {
        return bad(format!("open {}", ctx), format!("{}: the session does not end with the stream", ctx));
    }
    raw_judge(&ctx, &p, &bytes, c, Some(got), false)
}

fn raw_judge(ctx: &str, p: &Probe, bytes: &[u8], c: RawCfg, got: Option<Vec<u8>>, prefix: bool) -> Verdict {
    no_trouble()?;
    let want = lines(bytes, c.rterm);
    let ex = p.execs();
    let ok = if prefix { want.starts_with(&ex) } else { want == ex };
    if !ok {
        return bad(format!("executed {} {:?}", ctx, ex), format!("{}: executed [{}], expected [{}]", ctx, segs_text(&ex), segs_text(&want)));
    }
    if let Some(g) = got {
        let a = answers(&want, c.wterm);
        if g != a {
            return bad(format!("answer {} {:?}", ctx, g), format!("{}: received \"{}\", expected \"{}\"", ctx, show(&g), show(&a)));
        }
    }
    Ok(())
}

const NL: u8 = b'\n';
const RAWCFG: &[(RawCfg, usize, usize)] = &[
    (RawCfg { read_buffer: 64, rterm: NL, wterm: NL }, usize::MAX, usize::MAX),
    (RawCfg { read_buffer: 64, rterm: NL, wterm: NL }, usize::MAX, 1),
    (RawCfg { read_buffer: 2, rterm: NL, wterm: NL }, usize::MAX, 2),
];
const RAWCFG2: &[(RawCfg, usize, usize)] = &[
    (RawCfg { read_buffer: 64, rterm: b'\r', wterm: NL }, usize::MAX, usize::MAX),
    (RawCfg { read_buffer: 1, rterm: NL, wterm: b'\r' }, usize::MAX, usize::MAX),
    (RawCfg { read_buffer: 3, rterm: 0, wterm: NL }, 2, usize::MAX),
    (RawCfg { read_buffer: 5, rterm: b'\r', wterm: b'\r' }, usize::MAX, usize::MAX),
];

/// Several clients at once: each one's lines in its own order, answers to the right client.
fn raw_clients(n: usize, scripts: &'static [&'static [&'static [u8]]]) -> Verdict {
    let p = Probe::new();
    start_raw(None, &p);
    let cs: Vec<(Sock, usize)> = (0..n).map(|_| (net::connect(raw_addr()).unwrap(), choose(scripts.len(), "script"))).collect();
    run_idle();
    mcrt::set_explore(true, true, false, false);
    let mut hs = Vec::new();
    for (i, (s, k)) in cs.into_iter().enumerate() {
        hs.push(mcrt::spawn_client(&format!("client{}", i), async move {
            for seg in scripts[k] {
                let b: Vec<u8> = seg.iter().map(|c| if *c == b'#' { b'0' + i as u8 } else { *c }).collect();
                s.send(&b);
                async_std::task::yield_now().await;
            }
            (s, k)
        }));
    }
    run_idle();
    mcrt::explore_off();
    no_trouble()?;
    let ex = p.execs();
    let mut total = 0;
    for (i, h) in hs.iter().enumerate() {
        let Some((s, k)) = h.try_take() else { return bad("client", "client did not finish") };
        let sent: Vec<u8> = scripts[k].concat().iter().map(|c| if *c == b'#' { b'0' + i as u8 } else { *c }).collect();
        let want = lines(&sent, NL);
        let mine: Vec<Vec<u8>> = ex.iter().filter(|e| e.contains(&(b'0' + i as u8))).cloned().collect();
        total += mine.len();
        let got = s.recv();
        if mine != want || got != answers(&want, NL) {
            return bad(
                format!("clients {} {:?} {}", i, mine, show(&got)),
                format!("client {} sent \"{}\": executed [{}], answered \"{}\"", i, show(&sent), segs_text(&mine), show(&got)),
            );
        }
    }
    if total != ex.len() {
        return bad(format!("clients extra {:?}", ex), format!("executed [{}], which is more than was sent", segs_text(&ex)));
    }
    Ok(())
}

const RAWSCRIPTS: &[&[&[u8]]] = &[&[b"#q\n", b"#b\n#cq\n"], &[b"#", b"q\n#", b"d\n"], &[b"#qx", b"\n"]];

/// A client that does not read its answers: it gets all of them later, and others are not held up.
/// Nothing depends on how long a client takes to send or to read, or on how long it waits for a lock.
fn pauses(telnet: bool) -> Verdict {
    let p = Probe::new();
    let lock = SharedLock::new();
    let dev = p.device();
    let addr = if telnet {
        telnet_on(lxi_telnet::server::ServerConfig::default(), lock.clone(), dev.clone());
        telnet_addr()
    } else {
        raw_on(lxi_socket::server::ServerConfig::default(), lock.clone(), dev.clone());
        raw_addr()
    };
    let mut locker = lxi_device::lock::LockHandle::new(lock, dev);
    let gap = PAUSES[choose(PAUSES.len(), "pause")];
    let eol: &[u8] = if telnet { b"\r\n" } else { b"\n" };
    let cmds: [&[u8]; 3] = [b"aq", b"set", b"longerq"];
    let text: Vec<u8> = cmds.iter().flat_map(|c| [*c, eol].concat()).collect();
    let s = net::connect(addr).unwrap();
    if choose(2, "first") == 0 {
        pause(gap);
    } else {
        run_idle();
    }
    let mut got = s.recv();
    run_idle();
    let buf = [usize::MAX, 1][choose(2, "socket buffer")];
    net::cfg(|n| n.server_buf = buf);
    let c1 = 1 + choose(text.len(), "first cut");
    let c2 = c1 + choose(text.len() - c1 + 1, "second cut");
    let locked = choose(2, "locked") == 1;
    if locked {
        locker.try_acquire(b"").unwrap();
    }
    for seg in [&text[..c1], &text[c1..c2], &text[c2..]] {
        if !seg.is_empty() {
            s.send(seg);
        }
        pause(gap);
    }
    if locked {
        if !p.execs().is_empty() {
            return bad("locked", "a command is executed while another client holds the lock".to_string());
        }
        locker.try_release().unwrap();
        pause(gap);
    }
    loop {
        run_idle();
        let r = s.recv();
        if r.is_empty() {
            break;
        }
        got.extend(r);
        // byte by byte, as slowly
        if buf == 1 {
            pause(gap);
        }
    }
    no_trouble()?;
    let ctx = format!("segments of {}, {} and {} bytes with {} ms after each{}", c1, c2 - c1, text.len() - c2, gap, if locked { ", the device locked meanwhile" } else { "" });
    let got = if telnet { strip_prompts(&strip_telnet(&got).0, true) } else { got };
    let want = [b"<aq>", eol, b"<longerq>", eol].concat();
    if got != want || p.execs() != cmds || s.peer_closed() {
        return bad(format!("pauses {} {:?}", show(&got), p.execs()), format!("{}: executed {:?}, answered \"{}\"{}", ctx, p.execs().iter().map(|c| show(c)).collect::<Vec<_>>(), show(&got), if s.peer_closed() { ", and the session is ended" } else { "" }));
    }
    Ok(())
}

fn slow_reader(telnet: bool) -> Verdict {
    let p = Probe::new();
    let buf = [1usize, 3, 8][choose(3, "socket buffer")];
    let nq = 1 + choose(3, "queries");
    let batch = choose(2, "in one segment") == 1;
    let addr = if telnet {
        start_telnet(&p);
        telnet_addr()
    } else {
        start_raw(None, &p);
        raw_addr()
    };
    let eol: &[u8] = if telnet { b"\r\n" } else { b"\n" };
    let a = net::connect(addr).unwrap();
    run_idle();
    a.recv();
    run_idle();
    let mut want = Vec::new();
    let mut text = Vec::new();
    net::cfg(|n| n.server_buf = buf);
    for i in 0..nq {
        let c = format!("q{}", i).into_bytes();
        text.extend([&c[..], eol].concat());
        want.extend(rule(&c).unwrap());
        want.extend(eol);
        if !batch || i + 1 == nq {
            a.send(&std::mem::take(&mut text));
            run_idle();
        }
    }
    // another client meanwhile
    let b = net::connect(addr).unwrap();
    let mut bg = Vec::new();
    for _ in 0..40 {
        run_idle();
        bg.extend(b.recv());
    }
    b.send(&[b"bq", eol].concat());
    for _ in 0..40 {
        run_idle();
        bg.extend(b.recv());
    }
    no_trouble()?;
    let bs = if telnet { strip_telnet(&bg).0 } else { bg };
    let want_b = [b"<bq>", eol].concat();
    if strip_prompts(&bs, telnet) != want_b {
        return bad(
            format!("slow reader blocks {} {}", buf, nq),
            format!("while a client does not read its {} answers (socket buffer {}), another one got \"{}\" instead of \"{}\"", nq, buf, show(&bs), show(&want_b)),
        );
    }
    let mut ag = Vec::new();
    for _ in 0..200 {
        ag.extend(a.recv());
        run_idle();
    }
    no_trouble()?;
    let ag = if telnet { strip_telnet(&ag).0 } else { ag };
    if strip_prompts(&ag, telnet) != want {
        return bad(format!("slow reader {} {} {}", buf, nq, show(&ag)), format!("a slow reader got \"{}\" instead of \"{}\"", show(&ag), show(&want)));
    }
    Ok(())
}

/// Commands and answers far beyond any buffer.
fn long_lines(telnet: bool) -> Verdict {
    const N: [usize; 21] = [1, 15, 16, 17, 126, 127, 128, 129, 255, 256, 257, 300, 1023, 1024, 1025, 4097, 8192, 65535, 65536, 65537, 524289];
    let rb = [None, Some(1), Some(16), Some(128), Some(1000)][choose(5, "read buffer")];
    let n = N[choose(N.len(), "length")];
    if n / rb.unwrap_or(usize::MAX) > 5000 {
        // as many reads
        return Ok(());
    }
    let query = choose(2, "query") == 1;
    let p = Probe::new();
    let mut cmd: Vec<u8> = (0..n).map(|i| b"abcdefghijklmnop"[i % 16]).collect();
    if query {
        cmd[n - 1] = b'q';
    }
    let bytes = [&cmd[..], b"\n", b"rq\n"].concat();
    let cut = [bytes.len(), 1, n, n + 1][choose(4, "cut")].min(bytes.len());
    let segs: Vec<Vec<u8>> = [&bytes[..cut], &bytes[cut..]].iter().filter(|x| !x.is_empty()).map(|x| x.to_vec()).collect();
    if telnet {
        let mut sc = lxi_telnet::server::ServerConfig::default();
        if let Some(rb) = rb {
            sc = sc.read_buffer(rb);
        }
        telnet_on(sc, SharedLock::new(), p.device());
        return telnet_run(&p, End::Stay, true, &bytes, &segs, false);
    }
    let mut sc = lxi_socket::server::ServerConfig::default();
    if let Some(rb) = rb {
        sc = sc.read_buffer(rb);
    }
    raw_on(sc, SharedLock::new(), p.device());
    let s = net::connect(raw_addr()).unwrap();
    run_idle();
    let mut got = Vec::new();
    for x in &segs {
        s.send(x);
        for _ in 0..3 {
            run_idle();
            got.extend(s.recv());
        }
    }
    let c = RawCfg { read_buffer: 0, rterm: b'\n', wterm: b'\n' };
    raw_judge(&format!("read buffer {:?}, a command of {} bytes", rb, n), &p, &bytes, c, Some(got), false)
}

/// Answers made of any bytes, also none and line ends: each one whole, with a line end of its own.
fn responses(telnet: bool, max: usize) -> Verdict {
    let n = choose(3, "commands") + 1;
    let mut given: Vec<Vec<u8>> = Vec::new();
    for _ in 0..n {
        given.push(choose_string(if n == 1 { max } else { 1 }, &[b"a", b"\n", b"\r", b"\xff", b"\0"]).concat());
    }
    let g = given.clone();
    let p = Probe::with(move |c| g.get(c[0] as usize - 48).cloned());
    let mw = [usize::MAX, 1][choose(2, "largest write")];
    let wterm = if telnet { NL } else { [NL, b'\r', 0][choose(3, "terminator")] };
    if telnet {
        start_telnet(&p);
    } else {
        raw_on(lxi_socket::server::ServerConfig::default().write_termination(wterm), SharedLock::new(), p.device());
    }
    net::cfg(|c| c.max_write = mw);
    let s = net::connect(if telnet { telnet_addr() } else { raw_addr() }).unwrap();
    run_idle();
    let cmds: Vec<u8> = (0..n).flat_map(|i| [48 + i as u8, NL]).collect();
    s.send(&cmds);
    run_idle();
    no_trouble()?;
    let (got, want) = if telnet {
        let (t, _) = strip_telnet(&s.recv());
        (strip_prompts(&t, true), given.iter().flat_map(|r| [&r[..], b"\r\n"].concat()).collect::<Vec<u8>>())
    } else {
        (s.recv(), given.iter().flat_map(|r| [&r[..], &[wterm]].concat()).collect::<Vec<u8>>())
    };
    if got != want || p.execs().len() != n {
        return bad(format!("responses [{}] {}", segs_text(&given), show(&got)), format!("the device answers [{}], the client receives \"{}\", expected \"{}\"", segs_text(&given), show(&got), show(&want)));
    }
    Ok(())
}

/// A stream that is not a socket (such as a serial port): reads yield the next chunk, writes take a few bytes.
struct Line {
    chunks: std::collections::VecDeque<Vec<u8>>,
    end: usize,
    lazy: bool,
    ready: bool,
}

impl async_std::io::Read for Line {
    fn poll_read(mut self: std::pin::Pin<&mut Self>, cx: &mut std::task::Context<'_>, buf: &mut [u8]) -> std::task::Poll<std::io::Result<usize>> {
        use std::task::Poll::*;
        if self.lazy && !self.ready {
            self.ready = true;
            cx.waker().wake_by_ref();
            return Pending;
        }
        self.ready = false;
        let Some(c) = self.chunks.front_mut() else {
            return match self.end {
                0 => Ready(Ok(0)),
                1 => Ready(Err(std::io::ErrorKind::BrokenPipe.into())),
                _ => Pending,
            };
        };
        let n = c.len().min(buf.len());
        buf[..n].copy_from_slice(&c[..n]);
        c.drain(..n);
        if c.is_empty() {
            self.chunks.pop_front();
        }
        Ready(Ok(n))
    }
}

struct Out {
    got: std::rc::Rc<std::cell::RefCell<Vec<u8>>>,
    most: usize,
    fails_at: usize,
    zero: bool,
    lazy: bool,
    ready: bool,
}

impl async_std::io::Write for Out {
    fn poll_write(mut self: std::pin::Pin<&mut Self>, cx: &mut std::task::Context<'_>, buf: &[u8]) -> std::task::Poll<std::io::Result<usize>> {
        use std::task::Poll::*;
        if self.lazy && !self.ready {
            self.ready = true;
            cx.waker().wake_by_ref();
            return Pending;
        }
        self.ready = false;
        let have = self.got.borrow().len();
        let n = buf.len().min(self.most).min(self.fails_at - have);
        if n == 0 && !buf.is_empty() {
            return Ready(if self.zero { Ok(0) } else { Err(std::io::ErrorKind::BrokenPipe.into()) });
        }
        self.got.borrow_mut().extend(&buf[..n]);
        Ready(Ok(n))
    }
    fn poll_flush(self: std::pin::Pin<&mut Self>, _: &mut std::task::Context<'_>) -> std::task::Poll<std::io::Result<()>> {
        std::task::Poll::Ready(Ok(()))
    }
    fn poll_close(self: std::pin::Pin<&mut Self>, _: &mut std::task::Context<'_>) -> std::task::Poll<std::io::Result<()>> {
        std::task::Poll::Ready(Ok(()))
    }
}

/// The server on any reader and writer.
fn streams06(max: usize) -> Verdict {
    let p = Probe::new();
    let (lock, dev) = (SharedLock::new(), p.device());
    let text: Vec<u8> = choose_string(max, &[b"a", b"q", b"\n"]).concat();
    let chunks = choose_segments(&text);
    let end = choose(3, "end");
    let rb = [64, 1, 3][choose(3, "read buffer")];
    let (lazy, most) = [(false, usize::MAX), (true, 1), (true, 2)][choose(3, "slow")];
    let lines: Vec<Vec<u8>> = {
        let mut v: Vec<Vec<u8>> = text.split(|b| *b == b'\n').map(|l| l.to_vec()).collect();
        v.pop();
        v
    };
    let answers: Vec<Vec<u8>> = lines.iter().map(|l| rule(l).map_or(vec![], |mut r| { r.push(b'\n'); r })).collect();
    let total: usize = answers.iter().map(|a| a.len()).sum();
    let f = choose(if total == 0 { 1 } else { total + 1 }, "write fails");
    let (fails_at, zero) = if f == 0 { (usize::MAX / 2, false) } else { (f - 1, choose(2, "write takes nothing") == 1) };
    let got = std::rc::Rc::new(std::cell::RefCell::new(Vec::new()));
    let r = Line { chunks: chunks.into(), end, lazy, ready: false };
    let w = Out { got: got.clone(), most, fails_at, zero, lazy, ready: false };
    let (l2, d2) = (lock.clone(), dev.clone());
    let srv = lxi_socket::server::ServerConfig::default().read_buffer(rb).build();
    let out = super::rpc::local(async move { srv.process_client(r, w, l2, d2, "stream").await.is_ok() });
    run_idle();
    no_trouble()?;
    // those executed: up to the one whose answer could not be written
    let mut n = 0;
    let mut wrote = 0;
    for a in &answers {
        n += 1;
        wrote += a.len();
        if wrote > fails_at {
            break;
        }
    }
    let failed = wrote > fails_at;
    let want: Vec<u8> = answers[..n].concat()[..wrote.min(fails_at)].to_vec();
    let result = out.borrow_mut().take();
    let expect = if failed { Some(false) } else { [Some(true), Some(false), None][end] };
    let ctx = format!("\"{}\" read {}, ending {}, read buffer {}, writing at most {}{}", show(&text), if lazy { "slowly" } else { "at once" }, ["there", "with an error", "never"][end], rb, most, if f > 0 { format!(", failing at byte {}", fails_at) } else { String::new() });
    if p.execs() != lines[..n] || *got.borrow() != want || result != expect {
        return bad(
            format!("stream {:?} {} {:?}", p.execs(), show(&got.borrow()), result),
            format!("{}: executed {:?}, wrote \"{}\", returned {:?}; expected {:?}, \"{}\", {:?}", ctx, p.execs().iter().map(|c| show(c)).collect::<Vec<_>>(), show(&got.borrow()), result, lines[..n].iter().map(|c| show(c)).collect::<Vec<_>>(), show(&want), expect),
        );
    }
    // nothing is kept
    if dev.try_lock().is_none() {
        return bad("stream device", format!("{}: the device is kept", ctx));
    }
    Ok(())
}

pub fn c06() -> Vec<Scenario> {
    let l = q(5, 7);
    let l2 = q(4, 6);
    let b = q(3, 5);
    let b3 = q(2, 3);
    vec![
        Scenario::new("bytes", format!("all strings of up to {} symbols over a, q, newline, 0xff; all segmentations; 4 endings; 3 configurations", l), move || {
            raw_bytes(l, &[b"a", b"q", b"\n", b"\xff"], RAWCFG)
        }),
        Scenario::new("terminators", format!("all strings of up to {} symbols over a, q, LF, CR, NUL with other terminators and buffer sizes", l2), move || {
            raw_bytes(l2, &[b"a", b"q", b"\n", b"\r", b"\0"], RAWCFG2)
        }),
        Scenario::new("two-clients", "2 clients with 3 scripts each, every interleaving up to the deviation bound", || raw_clients(2, RAWSCRIPTS)).bound(b, b),
        Scenario::new("three-clients", "3 clients with 2 scripts each, every interleaving up to the deviation bound", || raw_clients(3, &RAWSCRIPTS[..2])).bound(b3, b3),
        Scenario::new("slow-reader", "a client that does not read its answers, all socket buffer sizes and query counts", || slow_reader(false)),
        Scenario::new("pauses", "three commands in up to three segments, with 600 ms to 40 days before and after each, also behind a lock or unread", || pauses(false)),
        Scenario::new("long-lines", "commands and answers of 21 lengths up to 512 KiB and 5 read buffer sizes, whole or cut", || long_lines(false)),
        Scenario::new("responses", "1 to 3 commands whose answers are any strings of up to 4 symbols over a, LF, CR, NUL, 0xff, also empty; 3 terminators", || responses(false, q(4, 5))),
        Scenario::new("streams", format!("the server on any reader and writer: all strings of up to {} symbols over a, q, LF, all segmentations, 3 ends, 3 read buffers, slow and partial reads and writes, writes failing at every byte", l), move || streams06(l)),
    ]
}

// ------------------------------------------------------------------ telnet

pub fn start_telnet(p: &Probe) {
    telnet_on(lxi_telnet::server::ServerConfig::default(), SharedLock::new(), p.device());
}

pub fn telnet_on(sc: lxi_telnet::server::ServerConfig, lock: Lock, d: Dev) {
    mcrt::spawn_named("telnet server", async move {
        let r = sc.build().accept(telnet_addr(), lock, d).await;
        event(format!("telnet server returned {:?}", r.map_err(|e| e.kind())));
    });
    run_idle();
}

const IAC: u8 = 255;

/// What a telnet client sees: data without commands, and the negotiations.
pub fn strip_telnet(b: &[u8]) -> (Vec<u8>, Vec<(u8, u8)>) {
    let mut out = Vec::new();
    let mut neg = Vec::new();
    let mut i = 0;
    while i < b.len() {
        if b[i] != IAC {
            out.push(b[i]);
            i += 1;
            continue;
        }
        match b.get(i + 1) {
            None => i += 1,
            Some(&IAC) => {
                out.push(IAC);
                i += 2;
            }
            Some(&c @ 251..=254) => {
                if let Some(o) = b.get(i + 2) {
                    neg.push((c, *o));
                }
                i += 3;
            }
            Some(250) => {
                i += 2;
                while i < b.len() && !(b[i] == IAC && b.get(i + 1) == Some(&240)) {
                    i += if b[i] == IAC { 2 } else { 1 };
                }
                i += 2;
            }
            // anything else must be a command
            Some(&c) if c < 239 => {
                out.extend(format!("[invalid telnet command {}]", c).bytes());
                i += 2
            }
            Some(_) => i += 2,
        }
    }
    (out, neg)
}

const PROMPT: &[u8] = b"SCPI> ";

/// The text without the prompts between answers.
pub fn strip_prompts(b: &[u8], on: bool) -> Vec<u8> {
    if !on {
        return b.to_vec();
    }
    let mut out = Vec::new();
    let mut i = 0;
    while i < b.len() {
        if b[i..].starts_with(PROMPT) {
            i += PROMPT.len();
        } else {
            out.push(b[i]);
            i += 1;
        }
    }
    out
}

/// Reference model of a session's input side.
#[derive(Default)]
struct TModel {
    line: Vec<u8>,
    execs: Vec<Vec<u8>>,
    /// echoes and answers, unescaped
    out: Vec<u8>,
    echo: bool,
    local: std::collections::BTreeSet<u8>,
    replies: Vec<(u8, u8)>,
    /// options the client may still be told about when it says WONT
    remote: std::collections::BTreeSet<u8>,
    /// replies which may be missing
    maybe: Vec<usize>,
    /// the device answers every command with itself
    mirror: bool,
}

const SUPPORTED: [u8; 3] = [0, 1, 3];

impl TModel {
    fn feed(&mut self, b: &[u8]) {
        let mut i = 0;
        while i < b.len() {
            let c = b[i];
            if c != IAC {
                self.data(c);
                i += 1;
                continue;
            }
            let Some(&k) = b.get(i + 1) else { return };
            match k {
                IAC => {
                    self.data(IAC);
                    i += 2
                }
                247 => {
                    self.line.pop();
                    i += 2
                }
                248 => {
                    self.line.clear();
                    i += 2
                }
                251..=254 => {
                    let Some(&o) = b.get(i + 2) else { return };
                    self.neg(k, o);
                    i += 3
                }
                250 => {
                    i += 2;
                    loop {
                        match (b.get(i), b.get(i + 1)) {
                            (Some(&IAC), Some(240)) => {
                                i += 2;
                                break;
                            }
                            (Some(&IAC), Some(_)) => i += 2,
                            (Some(&IAC), None) | (None, _) => return,
                            _ => i += 1,
                        }
                    }
                }
                _ => i += 2,
            }
        }
    }
    /// Are these the replies?
    fn replied(&self, n: &[(u8, u8)]) -> bool {
        fn go(w: &[(u8, u8)], at: usize, maybe: &[usize], n: &[(u8, u8)]) -> bool {
            match w.first() {
                None => n.is_empty(),
                Some(x) => n.first() == Some(x) && go(&w[1..], at + 1, maybe, &n[1..]) || maybe.contains(&at) && go(&w[1..], at + 1, maybe, n),
            }
        }
        go(&self.replies, 0, &self.maybe, n)
    }
    fn neg(&mut self, k: u8, o: u8) {
        match k {
            // WILL: nothing is supported on the client's side
            251 => self.replies.push((254, o)),
            253 => {
                if !SUPPORTED.contains(&o) {
                    self.replies.push((252, o))
                } else if self.local.insert(o) {
                    self.remote.insert(o);
                    self.replies.push((251, o))
                }
            }
            252 => {
                if self.remote.remove(&o) {
                    self.maybe.push(self.replies.len());
                    self.replies.push((254, o))
                }
            }
            254 => {
                if self.local.remove(&o) {
                    self.replies.push((252, o))
                }
            }
            _ => {}
        }
        self.echo = self.local.contains(&1);
    }
    fn data(&mut self, c: u8) {
        if self.echo {
            self.out.push(c);
        }
        if c == NL {
            if self.line.last() == Some(&b'\r') {
                self.line.pop();
            }
            let l = std::mem::take(&mut self.line);
            if let Some(r) = if self.mirror { Some(l.clone()) } else { rule(&l) } {
                self.out.extend(r);
                self.out.extend(b"\r\n");
            }
            self.execs.push(l);
        } else {
            self.line.push(c);
        }
    }
}

fn telnet_bytes(max: usize, alphabet: &'static [&'static [u8]], ends: &'static [End], negotiation: bool) -> Verdict {
    let max_write = [usize::MAX, 1][choose(2, "largest write")];
    let p = Probe::new();
    start_telnet(&p);
    net::cfg(|n| n.max_write = max_write);
    let end = ends[choose(ends.len(), "end")];
    let idle = choose(2, "wait between segments") == 0;
    let bytes = choose_string(max, alphabet).concat();
    let segs = choose_cuts(&bytes);
    telnet_run(&p, end, idle, &bytes, &segs, negotiation)
}

fn telnet_run(p: &Probe, end: End, idle: bool, bytes: &[u8], segs: &[Vec<u8>], negotiation: bool) -> Verdict {
    let ctx = format!("segments [{}]{}, then {:?}", segs_text(segs), if idle { "" } else { " at once" }, end);
    let s = net::connect(telnet_addr()).unwrap();
    if idle {
        run_idle();
    }
    for x in segs {
        s.send(x);
        if idle {
            run_idle();
        }
    }
    match end {
        End::Stay => run_idle(),
        End::HalfClose => {
            let _ = s.shutdown_write();
            run_idle();
        }
        End::Reset => {
            s.reset();
            run_idle();
        }
        End::Close => {
            run_idle();
        }
    }
    no_trouble()?;
    let got = s.recv();
    let ended = s.peer_closed();
    drop(s);
    run_idle();
    no_trouble()?;
    let mut m = TModel::default();
    m.feed(bytes);
    let ex = p.execs();
    let ok = if end == End::Reset && !idle { m.execs.starts_with(&ex) } else { m.execs == ex };
    if !ok {
        return bad(format!("executed {} {:?}", ctx, ex), format!("{}: executed [{}], expected [{}]", ctx, segs_text(&ex), segs_text(&m.execs)));
    }
    if end == End::HalfClose && !ended {
        return bad(format!("open {}", ctx), format!("{}: the session does not end with the stream", ctx));
    }
    if end != End::Reset {
        let (text, neg) = strip_telnet(&got);
        let t = strip_prompts(&text, true);
        if t != m.out {
            return bad(format!("answer {} {}", ctx, show(&t)), format!("{}: the client sees \"{}\" (without prompts), expected \"{}\"", ctx, show(&t), show(&m.out)));
        }
        if negotiation && !m.replied(&neg) {
            return bad(format!("negotiation {} {:?}", ctx, neg), format!("{}: option replies {:?}, expected {:?}", ctx, neg, m.replies));
        }
    }
    Ok(())
}

pub fn c07() -> Vec<Scenario> {
    let l = q(6, 7);
    let l2 = q(5, 6);
    vec![
        Scenario::new("bytes", format!("all strings of up to {} symbols over a, q, CR, LF; all segmentations; 3 endings", l), move || {
            telnet_bytes(l, &[b"a", b"q", b"\r", b"\n"], &[End::Stay, End::HalfClose, End::Reset], false)
        }),
        Scenario::new("editing", format!("all strings of up to {} symbols over data, LF, CR LF, erase character and erase line; all segmentations", l2), move || {
            telnet_bytes(l2, &[b"a", b"q", b"\n", b"\r\n", b"\xff\xf7", b"\xff\xf8"], &[End::Stay, End::HalfClose], false)
        }),
        Scenario::new("returns", format!("all strings of up to {} symbols over data, CR, LF, erase character and erase line; all segmentations", q(5, 6)), move || {
            telnet_bytes(q(5, 6), &[b"a", b"\n", b"\r", b"\xff\xf7", b"\xff\xf8"], &[End::Stay], false)
        }),
        Scenario::new("slow-reader", "a client that does not read its answers, all socket buffer sizes and query counts", || slow_reader(true)),
        Scenario::new("pauses", "three commands in up to three segments, with 600 ms to 40 days before and after each, also behind a lock or unread", || pauses(true)),
        Scenario::new("long-lines", "commands and answers of 21 lengths up to 512 KiB and 5 read buffer sizes, whole or cut", || long_lines(true)),
        Scenario::new("responses", "1 to 3 commands whose answers are any strings of up to 4 symbols over a, LF, CR, NUL, 0xff, also empty", || responses(true, q(4, 5))),
    ]
}

/// Any content of a subnegotiation is skipped up to its end, and nothing else.
fn subneg08(max: usize) -> Verdict {
    let p = Probe::new();
    start_telnet(&p);
    let head: &[u8] = [&b"a\xff\xfa\x18"[..], b"\xff\xfa"][choose(2, "option")];
    let mut bytes = head.to_vec();
    bytes.extend(choose_string(max, &[b"\xff", b"\xf0", b"\xfa", b"\xfd\x01", b"q", b"\n"]).concat());
    let tail: &[u8] = [&b"\xff\xf0endq\r\n"[..], b"x\xff\xf0endq\r\n"][choose(2, "end")];
    bytes.extend(tail);
    let segs: Vec<Vec<u8>> = if choose(2, "single bytes") == 1 { bytes.iter().map(|b| vec![*b]).collect() } else { vec![bytes.clone()] };
    telnet_run(&p, End::Stay, true, &bytes, &segs, true)
}

pub fn c08() -> Vec<Scenario> {
    let l = q(4, 5);
    let l2 = q(4, 5);
    vec![
        Scenario::new("subnegotiation", format!("subnegotiations of all strings of up to {} symbols over IAC, SE, SB, DO ECHO and data, then a query; whole or as single bytes", q(6, 7)), || subneg08(q(6, 7))),
        Scenario::new("protocol-elements", format!("all strings of up to {} elements (data, 0xff data, LF, negotiation of supported and unsupported options, commands, subnegotiation with escaped bytes); all segmentations of up to 8 bytes, otherwise all single and double cuts and byte by byte", l), move || {
            telnet_bytes(
                l,
                &[b"q\n", b"a", b"\xff\xff", b"\n", b"\xff\xfd\x01", b"\xff\xfe\x01", b"\xff\xf1", b"\xff\xfa\x01q\n\xff\xff\xff\xf0", b"\xff\xfd\x18", b"\xff\xfb\x03", b"\xff\xfc\x01", b"\xff\xfd\x00", b"q\xff\xff\n"],
                &[End::Stay],
                true,
            )
        }),
        Scenario::new("bytes", format!("all strings of up to {} bytes from IAC, every command class, option codes and data; 3 endings", l2 + 1), move || {
            telnet_bytes(
                l2 + 1,
                &[b"\xff", b"\xfa", b"\xf0", b"\xfd", b"\xfe", b"\x01", b"q", b"\n"],
                &[End::Stay, End::HalfClose],
                true,
            )
        }),
        Scenario::new("after", "any 2 elements, then a subnegotiation that never ends or a lone IAC, then another client", || {
            let al: [&[u8]; 8] = [b"\xff\xfa\x18", b"\xff\xfa", b"\xff\xfa\xff\xf0", b"\xff", b"\xff\xfd", b"\xff\xfa\x55\xff\xf0", b"\xff\xfa\x56\xff\xf0rest", b"\xff\xef\xff\xf0"];
            let p = Probe::new();
            start_telnet(&p);
            let s = net::connect(telnet_addr()).unwrap();
            for _ in 0..3 {
                let k = choose(9, "element");
                if k > 0 {
                    s.send(al[k - 1]);
                }
                run_idle();
            }
            if choose(2, "close") == 1 {
                drop(s);
            }
            p.take();
            telnet_run(&p, End::Stay, true, b"q\n", &[b"q\n".to_vec()], false)
        }),
        Scenario::new("responses", "every byte value in a response, at the start, middle and end, after every sequence of up to 3 option negotiations", || {
            let p = Probe::with(|c| Some(c.to_vec()));
            start_telnet(&p);
            let b = choose(256, "byte") as u8;
            let mut text = vec![b'x', b, b'y'];
            match choose(4, "position") {
                0 => {
                    text.remove(0);
                }
                1 => {
                    text.pop();
                }
                2 => text.push(b),
                _ => {}
            }
            if b == NL || b == b'\r' {
                return Ok(());
            }
            let neg: [&[u8]; 8] = [b"\xff\xfd\x00", b"\xff\xfd\x01", b"\xff\xfd\x03", b"\xff\xfb\x00", b"\xff\xfe\x00", b"\xff\xfc\x00", b"\xff\xfe\x03", b"\xff\xfd\x18"];
            let mut send = choose_string(if matches!(b, 0 | 0x41 | 0xff) { q(3, 4) } else { 1 }, &neg).concat();
            let s = net::connect(telnet_addr()).unwrap();
            run_idle();
            for c in &text {
                send.push(*c);
                if *c == IAC {
                    send.push(IAC);
                }
            }
            send.extend(b"\r\n");
            s.send(&send);
            run_idle();
            no_trouble()?;
            let got = s.recv();
            let mut m = TModel { mirror: true, ..Default::default() };
            m.feed(&send);
            let (t, n) = strip_telnet(&got);
            let t = strip_prompts(&t, true);
            if p.execs() != vec![text.clone()] || t != m.out || !m.replied(&n) {
                return bad(format!("byte {} {}", b, show(&send)), format!("sent \"{}\": executed [{}], the client sees \"{}\" and {:?}, expected \"{}\" and {:?}", show(&send), segs_text(&p.execs()), show(&t), n, show(&m.out), m.replies));
            }
            Ok(())
        }),
    ]
}
