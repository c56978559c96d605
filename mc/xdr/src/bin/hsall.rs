//! C13: every HiSLIP message and control field in both directions, also those the server never sends or receives.
//!
//! The module `common` of the crate is compiled as it is into this one, so that its private items can be named.

#[path = "/repo/hislip/src/common/mod.rs"]
mod common;

use common::errors::*;
use common::messages::prelude::*;
use common::messages::MessageType as T;
use common::*;
use futures::executor::block_on;
use futures::io::{AsyncRead, AsyncWrite, Cursor};
use lxi_device::lock::SharedLockError;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::task::{Context, Poll};

/// Hands over and takes at most N bytes at a time
struct Slow<R>(R, usize);
impl<R: AsyncRead + Unpin> AsyncRead for Slow<R> {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &mut [u8]) -> Poll<std::io::Result<usize>> {
        let n = b.len().min(self.1);
        Pin::new(&mut self.0).poll_read(cx, &mut b[..n])
    }
}
impl<W: AsyncWrite + Unpin> AsyncWrite for Slow<W> {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<std::io::Result<usize>> {
        let n = b.len().min(self.1);
        Pin::new(&mut self.0).poll_write(cx, &b[..n])
    }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<std::io::Result<()>> {
        Pin::new(&mut self.0).poll_flush(cx)
    }
    fn poll_close(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<std::io::Result<()>> {
        Pin::new(&mut self.0).poll_close(cx)
    }
}

fn names() -> BTreeMap<u8, T> {
    // IVI-6.1, table 4
    [
        (0, T::Initialize),
        (1, T::InitializeResponse),
        (2, T::FatalError),
        (3, T::Error),
        (4, T::AsyncLock),
        (5, T::AsyncLockResponse),
        (6, T::Data),
        (7, T::DataEnd),
        (8, T::DeviceClearComplete),
        (9, T::DeviceClearAcknowledge),
        (10, T::AsyncRemoteLocalControl),
        (11, T::AsyncRemoteLocalResponse),
        (12, T::Trigger),
        (13, T::Interrupted),
        (14, T::AsyncInterrupted),
        (15, T::AsyncMaximumMessageSize),
        (16, T::AsyncMaximumMessageSizeResponse),
        (17, T::AsyncInitialize),
        (18, T::AsyncInitializeResponse),
        (19, T::AsyncDeviceClear),
        (20, T::AsyncServiceRequest),
        (21, T::AsyncStatusQuery),
        (22, T::AsyncStatusResponse),
        (23, T::AsyncDeviceClearAcknowledge),
        (24, T::AsyncLockInfo),
        (25, T::AsyncLockInfoResponse),
        (26, T::GetDescriptors),
        (27, T::GetDescriptorsResponse),
        (28, T::StartTLS),
        (29, T::AsyncStartTLS),
        (30, T::AsyncStartTLSResponse),
        (31, T::EndTLS),
        (32, T::AsyncEndTLS),
        (33, T::AsyncEndTLSResponse),
        (34, T::GetSaslMechanismList),
        (35, T::GetSaslMechanismListResponse),
        (36, T::AuthenticationStart),
        (37, T::AuthenticationExchange),
        (38, T::AuthenticationResult),
    ]
    .into_iter()
    .chain((128..=255).map(|x| (x, T::VendorSpecific(x))))
    .collect()
}

struct Run {
    cases: u64,
    bad: Vec<String>,
}

impl Run {
    fn ck(&mut self, what: &str, ok: bool, m: impl FnOnce() -> String) {
        self.cases += 1;
        if !ok && !self.bad.iter().any(|b| b.starts_with(&format!("{}: ", what))) {
            self.bad.push(format!("{}: {}", what, m()));
        }
    }
}

fn run(r: &mut Run) {
    let names = names();
    for t in 0..=255u8 {
        let m = T::from_message_type(t);
        r.ck("message type", m == names.get(&t).copied(), || format!("type {} is {:?}", t, m));
        if let Some(m) = names.get(&t) {
            r.ck("message code", m.get_message_type() == t, || format!("{:?} has code {}", m, m.get_message_type()));
        }
        let (f, n) = (FatalErrorCode::from_error_code(t), NonFatalErrorCode::from_error_code(t));
        r.ck("fatal error code", f.error_code() == t, || format!("{} decodes to {:?}", t, f));
        r.ck("error code", n.error_code() == t, || format!("{} decodes to {:?}", t, n));
    }
    use FatalErrorCode as F;
    for (c, f) in [
        (0, F::UnidentifiedError),
        (1, F::PoorlyFormattedMessageHeader),
        (2, F::AttemptUseWithoutBothChannels),
        (3, F::InvalidInitialization),
        (4, F::MaximumClientsExceeded),
        (5, F::SecureConnectionFailed),
        (6, F::Extension(6)),
        (127, F::Extension(127)),
        (200, F::DeviceDefined(200)),
    ] {
        let d = format!("{:?}", F::from_error_code(c));
        r.ck("fatal error name", f.error_code() == c && d == format!("{:?}", f), || format!("{:?} has code {}, {} decodes to {}", f, f.error_code(), c, d));
        let e = Error::Fatal(f, "text".to_string());
        r.ck("fatal error", e.is_fatal(), || format!("{:?} is not fatal", e));
        let m = Message::from(e);
        r.ck("fatal error message", m.message_type == T::FatalError && m.control_code == c && m.message_parameter == 0 && m.payload == b"text", || format!("{:?}", m));
    }
    use NonFatalErrorCode as N;
    for (c, f) in [
        (0, N::UnidentifiedError),
        (1, N::UnrecognizedMessageType),
        (2, N::UnrecognizedControlCode),
        (3, N::UnrecognizedVendorDefinedMessage),
        (4, N::MessageTooLarge),
        (5, N::AuthenticationFailed),
        (6, N::Extension(6)),
        (127, N::Extension(127)),
        (200, N::DeviceDefined(200)),
    ] {
        let d = format!("{:?}", N::from_error_code(c));
        r.ck("error name", f.error_code() == c && d == format!("{:?}", f), || format!("{:?} has code {}, {} decodes to {}", f, f.error_code(), c, d));
        let e = Error::NonFatal(f, "text".to_string());
        r.ck("error", !e.is_fatal(), || format!("{:?} is fatal", e));
        let m = Message::from(e);
        r.ck("error message", m.message_type == T::Error && m.control_code == c && m.message_parameter == 0 && m.payload == b"text", || format!("{:?}", m));
    }
    // Fields
    for v in 0..=0xffffu16 {
        let p = Protocol::from(v);
        r.ck("protocol", u16::from(p) == v && p.major() as u16 == v >> 8 && p.minor() as u16 == v & 0xff, || format!("{:#x} is {}", v, p));
        for o in [0u16, 1, 2, 0x8000, 0xffff, 0xbeef] {
            let w = (v as u32) << 16 | o as u32;
            r.ck("protocol parameter", p.as_parameter(o) == w, || format!("{} with {:#x} is {:#x}", p, o, p.as_parameter(o)));
            let i = InitializeParameter(w);
            r.ck("initialize parameter", u16::from(i.client_protocol()) == v && i.client_vendorid() == o, || format!("{:#x} is {:?}", w, i));
            let i = InitializeParameter((o as u32) << 16 | v as u32);
            r.ck("initialize parameter", u16::from(i.client_protocol()) == o && i.client_vendorid() == v, || format!("{:?}", i));
            let i = InitializeResponseParameter::new(p, o);
            r.ck("initialize response parameter", i.0 == w && u16::from(i.negotiated_protocol()) == v && i.session_id() == o, || format!("{} with {:#x} is {:?}", p, o, i));
            let i = InitializeResponseParameter::new(Protocol::from(o), v);
            r.ck("initialize response parameter", i.0 == (o as u32) << 16 | v as u32 && i.session_id() == v, || format!("{:?}", i));
            r.ck("protocol order", (Protocol::from(o) < p) == (o < v), || format!("{:#x} {:#x}", o, v));
        }
        let i = AsyncInitializeResponseParameter::new(v);
        r.ck("async initialize response parameter", i.0 == v as u32 && i.server_vendor_id() == v, || format!("{:#x} is {:?}", v, i));
    }
    r.ck("versions", u16::from(PROTOCOL_1_0) == 0x100 && u16::from(PROTOCOL_1_1) == 0x101 && u16::from(PROTOCOL_2_0) == 0x200 && SUPPORTED_PROTOCOL == PROTOCOL_2_0, || "protocol versions".into());
    for b in 0..=255u8 {
        let bit = |k: u8| b >> k & 1 == 1;
        let f = FeatureBitmap(b);
        r.ck("feature bits", f.overlapped() == bit(0) && f.encryption() == bit(1) && f.initial_encryption() == bit(2), || format!("{:#x} is {:?}", b, f));
        let c = InitializeResponseControl(b);
        r.ck(
            "initialize response control bits",
            c.prefer_overlap() == bit(0) && c.encryption_mode() == bit(1) && c.initial_encryption() == bit(2),
            || format!("{:#x} is {:?}", b, c),
        );
        let c = RmtDeliveredControl(b);
        r.ck("rmt-delivered", c.rmt_delivered() == bit(0), || format!("{:#x} is {}", b, c));
        let c = AsyncInitializeResponseControl(b);
        r.ck("async initialize response control bits", c.secure_connection() == bit(0), || format!("{:#x} is {:?}", b, c));
    }
    for k in 0..8u8 {
        let (a, b, c) = (k & 1 != 0, k & 2 != 0, k & 4 != 0);
        r.ck("feature bitmap", FeatureBitmap::new(a, b, c).0 == k, || format!("{} {} {} is {:#x}", a, b, c, FeatureBitmap::new(a, b, c).0));
        r.ck("initialize response control", InitializeResponseControl::new(a, b, c).0 == k, || format!("{} {} {} is {:#x}", a, b, c, InitializeResponseControl::new(a, b, c).0));
        r.ck("async initialize response control", AsyncInitializeResponseControl::new(a).0 == a as u8, || format!("{}", a));
    }
    let l = [RequestLockControl::Failure as u8, RequestLockControl::Success as u8, RequestLockControl::Error as u8];
    r.ck("lock response", l == [0, 1, 3], || format!("{:?}", l));
    let l = [ReleaseLockControl::SuccessExclusive as u8, ReleaseLockControl::SuccessShared as u8, ReleaseLockControl::Error as u8];
    r.ck("release response", l == [1, 2, 3], || format!("{:?}", l));
    for (e, c) in [
        (SharedLockError::Timeout, 0u8),
        (SharedLockError::LockedByShared, 0),
        (SharedLockError::LockedByExclusive, 0),
        (SharedLockError::AlreadyLocked, 3),
        (SharedLockError::AlreadyUnlocked, 3),
    ] {
        let n = format!("{:?}", e);
        let got = RequestLockControl::from(e) as u8;
        r.ck("lock refusal", got == c, || format!("{} is {}", n, got));
    }
    // Messages
    let params = (0..32).map(|k| 1u32 << k).chain([0, 0xffff_ffff, 0x0102_0304, 0xffff_ff00]);
    let params: Vec<u32> = params.collect();
    for (t, typ) in &names {
        for ctrl in [0u8, 1, 2, 0x7f, 0x80, 0xff] {
            for (i, param) in params.iter().enumerate() {
                let len = [0usize, 1, 2, 15, 16, 17, 255, 256, 300][i % 9];
                one(r, *t, *typ, ctrl, *param, len);
            }
        }
        for ctrl in 0..=255 {
            one(r, *t, *typ, ctrl, 7, 3);
        }
        for len in 0..40 {
            one(r, *t, *typ, 5, 6, len);
        }
        one(r, *t, *typ, 5, 6, 70_000);
    }
    for t in 39..128u8 {
        let b = raw(t, 1, 2, b"abc");
        let mut c = Cursor::new([&b[..], b"HS"].concat());
        let m = block_on(Message::read_from(&mut c, 100));
        r.ck("unknown type", matches!(&m, Ok(Err(e)) if !e.is_fatal()) && c.position() == b.len() as u64, || format!("type {} is read as {:?}, {} of {} bytes", t, m, c.position(), b.len()));
    }
    // The limit
    for max in [0u64, 1, 16, 100] {
        for len in [0usize, 1, 2, 15, 16, 17, 99, 100, 101, 5000] {
            let p = vec![0x48; len];
            let b = raw(6, 1, 2, &p);
            for step in [1usize, 7, 1 << 20] {
                let mut c = Slow(Cursor::new([&b[..], b"HS"].concat()), step);
                let m = block_on(Message::read_from(&mut c, max));
                let ok = match &m {
                    Ok(Ok(m)) => len as u64 <= max && m.payload == p,
                    Ok(Err(Error::NonFatal(N::MessageTooLarge, _))) => len as u64 > max,
                    _ => false,
                };
                r.ck("limit", ok && c.0.position() == b.len() as u64, || format!("{} bytes with a limit of {} read as {:?}, {} of {} bytes", len, max, m, c.0.position(), b.len()));
            }
        }
    }
    for i in 0..2 {
        for x in 0..=255u8 {
            let mut b = raw(6, 0, 0, b"");
            if b[i] == x {
                continue;
            }
            b[i] = x;
            let m = block_on(Message::read_from(&mut Cursor::new(b.clone()), 100));
            r.ck("prologue", matches!(&m, Ok(Err(e)) if e.is_fatal()), || format!("{:x?} is read as {:?}", &b[..2], m));
        }
    }
}

fn raw(t: u8, ctrl: u8, param: u32, payload: &[u8]) -> Vec<u8> {
    let mut e = vec![b'H', b'S', t, ctrl];
    e.extend(param.to_be_bytes());
    e.extend((payload.len() as u64).to_be_bytes());
    e.extend(payload);
    e
}

fn one(r: &mut Run, t: u8, typ: T, ctrl: u8, param: u32, len: usize) {
    let payload: Vec<u8> = (0..len).map(|i| (i * 7 + 3) as u8).collect();
    let e = raw(t, ctrl, param, &payload);
    let what = format!("message {:?}", typ);
    let m = typ.message_params(ctrl, param).with_payload(payload.clone());
    for step in [5usize, 1 << 20] {
        let mut out = Slow(Cursor::new(Vec::new()), step);
        let w = block_on(m.write_to(&mut out));
        let out = out.0.into_inner();
        r.ck(&what, w.is_ok() && out == e, || format!("{} {:#x} and {} bytes is written as {:?} ({:?})", ctrl, param, len, &out[..out.len().min(40)], w));
        let mut c = Slow(Cursor::new([&e[..], b"HS\x06"].concat()), step);
        let d = block_on(Message::read_from(&mut c, 1 << 20));
        let same = matches!(&d, Ok(Ok(d)) if d.message_type == typ && d.control_code == ctrl && d.message_parameter == param && d.payload == payload);
        r.ck(&what, same && c.0.position() == e.len() as u64, || format!("{:?} is read as {:?}, {} of {} bytes", &e[..16], d, c.0.position(), e.len()));
    }
    if len < 20 && ctrl < 3 {
        for k in 0..e.len() {
            let d = block_on(Message::read_from(&mut Cursor::new(&e[..k]), 1 << 20));
            r.ck(&what, d.is_err(), || format!("{} of {} bytes are read as {:?}", k, e.len(), d));
        }
    }
    let n = m.no_payload();
    r.ck("no payload", n.payload.is_empty() && n.message_type == typ && n.control_code == ctrl && n.message_parameter == param, || format!("{:?}", n));
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut r = Run { cases: 0, bad: vec![] };
    if catch_unwind(AssertUnwindSafe(|| run(&mut r))).is_err() {
        r.bad.push("panic: encoding or decoding panics".to_string());
    }
    println!("cases={}", r.cases);
    for b in &r.bad {
        println!("BAD {}", b.replace('\n', " "));
    }
    std::process::exit(if r.bad.is_empty() { 0 } else { 1 });
}
