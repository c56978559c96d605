//! Simulated TCP and UDP. Segmentation, short reads and writes, back-pressure, FIN, RST and
//! injected errors are under harness control; everything else behaves like Linux loopback.

use crate::{op_tick, try_rt, with_rt};
use std::collections::VecDeque;
use std::io::{Error, ErrorKind, Result};
use std::net::{IpAddr, Ipv4Addr, SocketAddr};
use std::task::{Context, Poll, Waker};

pub const CLIENT: usize = 0;
pub const SERVER: usize = 1;

#[derive(Default)]
struct Dir {
    segs: VecDeque<VecDeque<u8>>,
    len: usize,
    fin: bool,
    r_wakers: Vec<Waker>,
    w_wakers: Vec<Waker>,
    total: u64,
}

struct Conn {
    dir: [Dir; 2],
    addr: [SocketAddr; 2],
    closed: [bool; 2],
    /// RST seen by this side; reported once to a read
    rst: [bool; 2],
    rst_reported: [bool; 2],
    peer_dead_writes: [u32; 2],
    /// this side takes no more bytes
    stalled: [bool; 2],
}

enum AcceptItem {
    Conn(usize),
    Err(ErrorKind),
}

struct Listener {
    addr: SocketAddr,
    queue: VecDeque<AcceptItem>,
    wakers: Vec<Waker>,
    open: bool,
}

struct Udp {
    addr: SocketAddr,
    peer: Option<SocketAddr>,
    queue: VecDeque<(Vec<u8>, SocketAddr)>,
    recv_errs: VecDeque<ErrorKind>,
    send_errs: VecDeque<ErrorKind>,
    wakers: Vec<Waker>,
    open: bool,
}

pub struct NetCfg {
    /// Largest number of bytes one server-side read returns
    pub max_read: usize,
    /// Largest number of bytes one server-side write accepts
    pub max_write: usize,
    /// Server-to-client buffering; a server write blocks when it is full
    pub server_buf: usize,
    /// Client-to-server buffering (client tasks only)
    pub client_buf: usize,
    /// Reads never return bytes of two different client writes
    pub seg_bounded: bool,
    /// Ports on which bind fails
    pub refuse_bind: Vec<u16>,
    /// Behave as BSD-derived stacks: setting TCP_NODELAY on a socket that has been reset fails,
    /// as does asking for the peer of a closed unix socket
    pub nodelay_fails: bool,
}

pub struct Net {
    conns: Vec<Conn>,
    listeners: Vec<Listener>,
    udps: Vec<Udp>,
    next_port: u16,
    pub cfg: NetCfg,
}

impl Net {
    pub(crate) fn new() -> Net {
        Net {
            conns: Vec::new(),
            listeners: Vec::new(),
            udps: Vec::new(),
            next_port: 40000,
            cfg: NetCfg {
                max_read: usize::MAX,
                max_write: usize::MAX,
                server_buf: usize::MAX,
                client_buf: usize::MAX,
                seg_bounded: true,
                refuse_bind: Vec::new(),
                nodelay_fails: false,
            },
        }
    }
    fn port(&mut self) -> u16 {
        self.next_port = if self.next_port == u16::MAX { 40000 } else { self.next_port + 1 };
        self.next_port
    }
}

fn wake_all(ws: Vec<Waker>) {
    for w in ws {
        w.wake()
    }
}

fn add_waker(v: &mut Vec<Waker>, cx: &Context<'_>) {
    if !v.iter().any(|w| w.will_wake(cx.waker())) {
        v.push(cx.waker().clone())
    }
}

fn matches(bound: &SocketAddr, dst: &SocketAddr) -> bool {
    bound.port() == dst.port() && (bound.ip().is_unspecified() || bound.ip() == dst.ip())
}

pub fn cfg(f: impl FnOnce(&mut NetCfg)) {
    with_rt(|rt| f(&mut rt.net.cfg));
    // buffer sizes may have grown
    let ws = with_rt(|rt| {
        let mut v = Vec::new();
        for c in rt.net.conns.iter_mut() {
            for d in c.dir.iter_mut() {
                v.append(&mut d.w_wakers);
            }
        }
        v
    });
    wake_all(ws);
}

// ------------------------------------------------------------------ TCP

/// One end of a simulated connection. Dropping it closes that end.
#[derive(Debug)]
pub struct Sock {
    conn: usize,
    side: usize,
    epoch: u64,
}

impl Drop for Sock {
    fn drop(&mut self) {
        let (c, s, e) = (self.conn, self.side, self.epoch);
        let ws = try_rt(|rt| {
            if rt.epoch != e || rt.net.conns.is_empty() {
                return Vec::new();
            }
            let conn = &mut rt.net.conns[c];
            conn.closed[s] = true;
            conn.dir[s].fin = true;
            let mut v = std::mem::take(&mut conn.dir[s].r_wakers);
            v.append(&mut conn.dir[1 - s].w_wakers);
            v
        });
        if let Some(ws) = ws {
            wake_all(ws)
        }
    }
}

fn dead() -> Error {
    Error::from(ErrorKind::NotConnected)
}

impl Sock {
    fn with<R>(&self, f: impl FnOnce(&mut Conn, &NetCfg, usize) -> R) -> Option<R> {
        try_rt(|rt| {
            if rt.epoch != self.epoch || rt.net.conns.is_empty() {
                return None;
            }
            let Net { conns, cfg, .. } = &mut rt.net;
            Some(f(&mut conns[self.conn], cfg, self.side))
        })
        .flatten()
    }

    pub fn id(&self) -> usize {
        self.conn
    }

    pub fn poll_read(&self, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<Result<usize>> {
        op_tick();
        let mut ws = Vec::new();
        let r = self.with(|c, cfg, s| {
            if buf.is_empty() {
                return Poll::Ready(Ok(0));
            }
            if c.rst[s] {
                if !c.rst_reported[s] {
                    c.rst_reported[s] = true;
                    return Poll::Ready(Err(Error::from(ErrorKind::ConnectionReset)));
                }
                return Poll::Ready(Ok(0));
            }
            let d = &mut c.dir[1 - s];
            let lim = if s == SERVER { cfg.max_read } else { usize::MAX };
            let want = buf.len().min(lim);
            let mut n = 0;
            while n < want {
                let Some(seg) = d.segs.front_mut() else { break };
                while n < want {
                    match seg.pop_front() {
                        Some(b) => {
                            buf[n] = b;
                            n += 1;
                        }
                        None => break,
                    }
                }
                if seg.is_empty() {
                    d.segs.pop_front();
                    if cfg.seg_bounded {
                        break;
                    }
                }
            }
            if n > 0 {
                d.len -= n;
                ws = std::mem::take(&mut d.w_wakers);
                return Poll::Ready(Ok(n));
            }
            if d.fin {
                return Poll::Ready(Ok(0));
            }
            add_waker(&mut d.r_wakers, cx);
            Poll::Pending
        });
        wake_all(ws);
        r.unwrap_or_else(|| Poll::Ready(Err(dead())))
    }

    pub fn peek(&self, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<Result<usize>> {
        op_tick();
        let r = self.with(|c, _cfg, s| {
            let d = &mut c.dir[1 - s];
            let mut n = 0;
            for seg in &d.segs {
                for b in seg {
                    if n < buf.len() {
                        buf[n] = *b;
                        n += 1;
                    }
                }
            }
            if n > 0 || d.fin || buf.is_empty() {
                return Poll::Ready(Ok(n));
            }
            add_waker(&mut d.r_wakers, cx);
            Poll::Pending
        });
        r.unwrap_or_else(|| Poll::Ready(Err(dead())))
    }

    pub fn poll_write(&self, cx: &mut Context<'_>, buf: &[u8]) -> Poll<Result<usize>> {
        op_tick();
        let mut ws = Vec::new();
        let r = self.with(|c, cfg, s| {
            if c.rst[s] || c.dir[s].fin {
                return Poll::Ready(Err(Error::from(ErrorKind::BrokenPipe)));
            }
            if buf.is_empty() {
                return Poll::Ready(Ok(0));
            }
            if c.closed[1 - s] {
                // The peer answers with a RST, which this side sees on its next operation.
                c.peer_dead_writes[s] += 1;
                c.rst[s] = true;
                ws = std::mem::take(&mut c.dir[1 - s].r_wakers);
                return Poll::Ready(Ok(buf.len()));
            }
            let (cap, lim) = if s == SERVER {
                (cfg.server_buf, cfg.max_write)
            } else {
                (cfg.client_buf, usize::MAX)
            };
            let cap = if c.stalled[1 - s] { 0 } else { cap };
            let d = &mut c.dir[s];
            if d.len >= cap {
                add_waker(&mut d.w_wakers, cx);
                return Poll::Pending;
            }
            let n = buf.len().min(cap - d.len).min(lim);
            d.segs.push_back(buf[..n].iter().copied().collect());
            d.len += n;
            d.total += n as u64;
            ws = std::mem::take(&mut d.r_wakers);
            Poll::Ready(Ok(n))
        });
        wake_all(ws);
        r.unwrap_or_else(|| Poll::Ready(Err(dead())))
    }

    /// shutdown(Write)
    pub fn shutdown_write(&self) -> Result<()> {
        let ws = self.with(|c, _, s| {
            if c.rst[s] {
                return Err(dead());
            }
            c.dir[s].fin = true;
            let mut v = std::mem::take(&mut c.dir[s].r_wakers);
            // a blocked write fails
            v.append(&mut c.dir[s].w_wakers);
            Ok(v)
        });
        match ws {
            Some(Ok(ws)) => {
                wake_all(ws);
                Ok(())
            }
            _ => Err(dead()),
        }
    }

    /// shutdown(Read): this side reads EOF from now on
    pub fn shutdown_read(&self) -> Result<()> {
        let ws = self
            .with(|c, _, s| {
                c.dir[1 - s].fin = true;
                c.dir[1 - s].segs.clear();
                c.dir[1 - s].len = 0;
                std::mem::take(&mut c.dir[1 - s].r_wakers)
            })
            .ok_or_else(dead)?;
        wake_all(ws);
        Ok(())
    }

    pub fn peer_addr(&self) -> Result<SocketAddr> {
        op_tick();
        self.with(|c, _, s| {
            if c.rst[s] {
                Err(dead())
            } else {
                Ok(c.addr[1 - s])
            }
        })
        .unwrap_or_else(|| Err(dead()))
    }

    /// Linux knows the peer of a unix socket for ever; BSD-derived stacks do not.
    pub fn unix_peer(&self) -> Result<()> {
        op_tick();
        self.with(|c, cfg, s| if cfg.nodelay_fails && c.closed[1 - s] { Err(dead()) } else { Ok(()) }).unwrap_or_else(|| Err(dead()))
    }

    pub fn local_addr(&self) -> Result<SocketAddr> {
        self.with(|c, _, s| c.addr[s]).ok_or_else(dead)
    }

    pub fn set_nodelay(&self) -> Result<()> {
        op_tick();
        // Linux accepts TCP_NODELAY on a reset socket; BSD-derived stacks report EINVAL.
        self.with(|_, cfg, _| if cfg.nodelay_fails { Err(Error::from(ErrorKind::InvalidInput)) } else { Ok(()) }).unwrap_or_else(|| Err(dead()))
    }

    // ---- harness side

    /// Reset the connection (the other end sees RST); unread data is lost.
    pub fn reset(&self) {
        let ws = self.with(|c, _, s| {
            c.rst[1 - s] = true;
            c.rst[s] = true;
            c.closed[s] = true;
            let mut v = Vec::new();
            for d in c.dir.iter_mut() {
                d.fin = true;
                d.segs.clear();
                d.len = 0;
                v.append(&mut d.r_wakers);
                v.append(&mut d.w_wakers);
            }
            v
        });
        if let Some(ws) = ws {
            wake_all(ws)
        }
    }

    /// Send bytes as one segment (no back-pressure).
    /// The other end cannot write on this connection any more, whatever the buffer size.
    pub fn stall(&self) {
        self.with(|c, _, s| c.stalled[s] = true);
    }

    /// It can again.
    pub fn unstall(&self) {
        let ws = self.with(|c, _, s| {
            c.stalled[s] = false;
            std::mem::take(&mut c.dir[1 - s].w_wakers)
        });
        if let Some(ws) = ws {
            wake_all(ws)
        }
    }

    pub fn send(&self, b: &[u8]) {
        if b.is_empty() {
            return;
        }
        let ws = self.with(|c, _, s| {
            if c.dir[s].fin {
                return Vec::new();
            }
            let d = &mut c.dir[s];
            d.segs.push_back(b.iter().copied().collect());
            d.len += b.len();
            d.total += b.len() as u64;
            std::mem::take(&mut d.r_wakers)
        });
        if let Some(ws) = ws {
            wake_all(ws)
        }
    }

    /// Everything received so far.
    pub fn recv(&self) -> Vec<u8> {
        self.recv_n(usize::MAX)
    }

    pub fn recv_n(&self, n: usize) -> Vec<u8> {
        let r = self.with(|c, _, s| {
            let d = &mut c.dir[1 - s];
            let mut out = Vec::new();
            while out.len() < n {
                let Some(seg) = d.segs.front_mut() else { break };
                while out.len() < n {
                    match seg.pop_front() {
                        Some(b) => out.push(b),
                        None => break,
                    }
                }
                if seg.is_empty() {
                    d.segs.pop_front();
                }
            }
            d.len -= out.len();
            (out, std::mem::take(&mut d.w_wakers))
        });
        match r {
            Some((out, ws)) => {
                wake_all(ws);
                out
            }
            None => Vec::new(),
        }
    }

    /// Bytes available without consuming them
    pub fn avail(&self) -> usize {
        self.with(|c, _, s| c.dir[1 - s].len).unwrap_or(0)
    }

    /// Unread bytes this side has sent
    pub fn unread_by_peer(&self) -> usize {
        self.with(|c, _, s| c.dir[s].len).unwrap_or(0)
    }

    /// The peer has closed its sending direction (or reset).
    pub fn peer_closed(&self) -> bool {
        self.with(|c, _, s| c.dir[1 - s].fin || c.rst[s]).unwrap_or(true)
    }

    /// The peer has dropped its end completely
    pub fn peer_dropped(&self) -> bool {
        self.with(|c, _, s| c.closed[1 - s]).unwrap_or(true)
    }

    pub async fn read_some(&self, n: usize) -> Result<Vec<u8>> {
        let mut buf = vec![0; n];
        let k = std::future::poll_fn(|cx| self.poll_read(cx, &mut buf)).await?;
        buf.truncate(k);
        Ok(buf)
    }

    /// n bytes or whatever arrived before EOF/RST
    pub async fn read_n(&self, n: usize) -> Vec<u8> {
        let mut out = Vec::new();
        while out.len() < n {
            match self.read_some(n - out.len()).await {
                Ok(v) if !v.is_empty() => out.extend(v),
                _ => break,
            }
        }
        out
    }

    pub async fn write_all(&self, b: &[u8]) -> Result<()> {
        let mut o = 0;
        while o < b.len() {
            o += std::future::poll_fn(|cx| self.poll_write(cx, &b[o..])).await?;
        }
        Ok(())
    }
}

/// Connect to a listener of the code under test. None: connection refused.
pub fn connect(dst: SocketAddr) -> Result<Sock> {
    connect_from(None, dst)
}

pub fn connect_from(src: Option<SocketAddr>, dst: SocketAddr) -> Result<Sock> {
    let r = try_rt(|rt| {
        let e = rt.epoch;
        let port = rt.net.port();
        let src = src.unwrap_or(SocketAddr::new(IpAddr::V4(Ipv4Addr::LOCALHOST), port));
        let l = rt.net.listeners.iter_mut().find(|l| l.open && matches(&l.addr, &dst));
        let Some(l) = l else {
            return Err(Error::from(ErrorKind::ConnectionRefused));
        };
        let id = rt.net.conns.len();
        rt.net.conns.push(Conn {
            dir: Default::default(),
            addr: [src, dst],
            closed: [false; 2],
            rst: [false; 2],
            rst_reported: [false; 2],
            peer_dead_writes: [0; 2],
            stalled: [false; 2],
        });
        l.queue.push_back(AcceptItem::Conn(id));
        let ws = std::mem::take(&mut l.wakers);
        Ok((
            Sock {
                conn: id,
                side: CLIENT,
                epoch: e,
            },
            ws,
        ))
    })
    .unwrap_or_else(|| Err(dead()))?;
    wake_all(r.1);
    Ok(r.0)
}

/// Where a unix socket with this path is simulated.
pub fn unix_addr(path: &str) -> SocketAddr {
    let h = path.bytes().fold(0x811c9dc5u32, |h, b| (h ^ b as u32).wrapping_mul(0x01000193));
    SocketAddr::new(IpAddr::V4(Ipv4Addr::new(127, 77, 77, 77)), 0x8000 | (h as u16 & 0x7fff))
}

/// Make the next accept() on this listener fail once.
pub fn inject_accept_error(dst: SocketAddr, k: ErrorKind) {
    let ws = with_rt(|rt| {
        let l = rt.net.listeners.iter_mut().find(|l| l.open && matches(&l.addr, &dst));
        match l {
            Some(l) => {
                l.queue.push_back(AcceptItem::Err(k));
                std::mem::take(&mut l.wakers)
            }
            None => Vec::new(),
        }
    });
    wake_all(ws);
}

pub fn listening(dst: SocketAddr) -> bool {
    with_rt(|rt| rt.net.listeners.iter().any(|l| l.open && matches(&l.addr, &dst)))
}

/// Addresses of all open listeners
pub fn listeners() -> Vec<SocketAddr> {
    with_rt(|rt| rt.net.listeners.iter().filter(|l| l.open).map(|l| l.addr).collect())
}

#[derive(Debug)]
pub struct TcpListen {
    idx: usize,
    epoch: u64,
}

impl TcpListen {
    pub fn bind(addr: SocketAddr) -> Result<TcpListen> {
        with_rt(|rt| {
            let mut a = addr;
            if a.port() == 0 {
                a.set_port(rt.net.port());
            }
            if rt.net.cfg.refuse_bind.contains(&a.port())
                || rt.net.listeners.iter().any(|l| l.open && l.addr.port() == a.port() && (l.addr.ip() == a.ip() || l.addr.ip().is_unspecified() || a.ip().is_unspecified()))
            {
                return Err(Error::from(ErrorKind::AddrInUse));
            }
            rt.net.listeners.push(Listener {
                addr: a,
                queue: VecDeque::new(),
                wakers: Vec::new(),
                open: true,
            });
            Ok(TcpListen {
                idx: rt.net.listeners.len() - 1,
                epoch: rt.epoch,
            })
        })
    }

    pub fn poll_accept(&self, cx: &mut Context<'_>) -> Poll<Result<(Sock, SocketAddr)>> {
        op_tick();
        try_rt(|rt| {
            if rt.epoch != self.epoch || rt.net.listeners.is_empty() {
                return Poll::Ready(Err(dead()));
            }
            let l = &mut rt.net.listeners[self.idx];
            match l.queue.pop_front() {
                Some(AcceptItem::Conn(id)) => {
                    let src = rt.net.conns[id].addr[CLIENT];
                    Poll::Ready(Ok((
                        Sock {
                            conn: id,
                            side: SERVER,
                            epoch: rt.epoch,
                        },
                        src,
                    )))
                }
                Some(AcceptItem::Err(k)) => Poll::Ready(Err(Error::from(k))),
                None => {
                    add_waker(&mut l.wakers, cx);
                    Poll::Pending
                }
            }
        })
        .unwrap_or_else(|| Poll::Ready(Err(dead())))
    }

    pub fn local_addr(&self) -> Result<SocketAddr> {
        try_rt(|rt| {
            if rt.epoch == self.epoch && !rt.net.listeners.is_empty() {
                Ok(rt.net.listeners[self.idx].addr)
            } else {
                Err(dead())
            }
        })
        .unwrap_or_else(|| Err(dead()))
    }
}

impl Drop for TcpListen {
    fn drop(&mut self) {
        let _ = try_rt(|rt| {
            if rt.epoch == self.epoch && !rt.net.listeners.is_empty() {
                rt.net.listeners[self.idx].open = false;
            }
        });
    }
}

// ------------------------------------------------------------------ UDP

#[derive(Debug)]
pub struct UdpSock {
    idx: usize,
    epoch: u64,
}

impl UdpSock {
    pub fn bind(addr: SocketAddr) -> Result<UdpSock> {
        with_rt(|rt| {
            let mut a = addr;
            if a.port() == 0 {
                a.set_port(rt.net.port());
            }
            if rt.net.udps.iter().any(|l| l.open && l.addr.port() == a.port() && (l.addr.ip() == a.ip() || l.addr.ip().is_unspecified() || a.ip().is_unspecified())) {
                return Err(Error::from(ErrorKind::AddrInUse));
            }
            rt.net.udps.push(Udp {
                addr: a,
                peer: None,
                queue: VecDeque::new(),
                recv_errs: VecDeque::new(),
                send_errs: VecDeque::new(),
                wakers: Vec::new(),
                open: true,
            });
            Ok(UdpSock {
                idx: rt.net.udps.len() - 1,
                epoch: rt.epoch,
            })
        })
    }

    fn with<R>(&self, f: impl FnOnce(&mut Net, usize) -> R) -> Option<R> {
        try_rt(|rt| {
            if rt.epoch != self.epoch || rt.net.udps.is_empty() {
                None
            } else {
                Some(f(&mut rt.net, self.idx))
            }
        })
        .flatten()
    }

    pub fn connect(&self, a: SocketAddr) -> Result<()> {
        self.with(|n, i| n.udps[i].peer = Some(a)).ok_or_else(dead)
    }

    pub fn peer_addr(&self) -> Result<SocketAddr> {
        self.with(|n, i| n.udps[i].peer).flatten().ok_or_else(dead)
    }

    pub fn local_addr(&self) -> Result<SocketAddr> {
        self.with(|n, i| n.udps[i].addr).ok_or_else(dead)
    }

    pub fn send_to(&self, b: &[u8], dst: SocketAddr) -> Result<usize> {
        op_tick();
        let r = self.with(|n, i| {
            if let Some(e) = n.udps[i].send_errs.pop_front() {
                return Err(Error::from(e));
            }
            // a socket bound to a loopback address cannot reach elsewhere
            let sip = n.udps[i].addr.ip();
            if sip.is_loopback() && !dst.ip().is_loopback() {
                return Err(Error::from(ErrorKind::InvalidInput));
            }
            let mut src = n.udps[i].addr;
            if src.ip().is_unspecified() {
                src.set_ip(IpAddr::V4(Ipv4Addr::LOCALHOST));
            }
            let mut ws = Vec::new();
            if let Some(u) = n
                .udps
                .iter_mut()
                .find(|u| u.open && matches(&u.addr, &dst) && u.peer.map_or(true, |p| p == src))
            {
                u.queue.push_back((b.to_vec(), src));
                ws = std::mem::take(&mut u.wakers);
            }
            Ok(ws)
        });
        match r {
            Some(Ok(ws)) => {
                wake_all(ws);
                Ok(b.len())
            }
            Some(Err(e)) => Err(e),
            None => Err(dead()),
        }
    }

    pub fn send(&self, b: &[u8]) -> Result<usize> {
        match self.peer_addr() {
            Ok(p) => self.send_to(b, p),
            Err(_) => Err(Error::from(ErrorKind::NotConnected)),
        }
    }

    pub fn poll_recv_from(&self, cx: &mut Context<'_>, buf: &mut [u8], peek: bool) -> Poll<Result<(usize, SocketAddr)>> {
        op_tick();
        self.with(|n, i| {
            let u = &mut n.udps[i];
            if let Some(e) = u.recv_errs.pop_front() {
                return Poll::Ready(Err(Error::from(e)));
            }
            let item = if peek { u.queue.front().cloned() } else { u.queue.pop_front() };
            match item {
                Some((d, src)) => {
                    let k = d.len().min(buf.len());
                    buf[..k].copy_from_slice(&d[..k]);
                    Poll::Ready(Ok((k, src)))
                }
                None => {
                    add_waker(&mut u.wakers, cx);
                    Poll::Pending
                }
            }
        })
        .unwrap_or_else(|| Poll::Ready(Err(dead())))
    }

    /// harness: next datagram, if any
    pub fn try_recv(&self) -> Option<(Vec<u8>, SocketAddr)> {
        self.with(|n, i| n.udps[i].queue.pop_front()).flatten()
    }
}

impl Drop for UdpSock {
    fn drop(&mut self) {
        let _ = self.with(|n, i| n.udps[i].open = false);
    }
}

/// Make the next receive (or send) on the UDP socket bound to `dst` fail once.
pub fn inject_udp_error(dst: SocketAddr, k: ErrorKind, on_send: bool) {
    let ws = with_rt(|rt| {
        match rt.net.udps.iter_mut().find(|u| u.open && matches(&u.addr, &dst)) {
            Some(u) => {
                if on_send {
                    u.send_errs.push_back(k);
                } else {
                    u.recv_errs.push_back(k);
                }
                std::mem::take(&mut u.wakers)
            }
            None => Vec::new(),
        }
    });
    wake_all(ws);
}

pub fn udp_bound(dst: SocketAddr) -> bool {
    with_rt(|rt| rt.net.udps.iter().any(|u| u.open && matches(&u.addr, &dst)))
}
