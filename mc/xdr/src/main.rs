//! C30: the XDR types of /repo/vxi11 that no public function sends or returns, in both directions.
//!
//! The module `common` of the crate is compiled as it is into this one, so that its private types can be named.
//! Every value out of an exhaustive set of each type is encoded, compared with the standard's form, decoded (into a
//! default value, followed by other data, and in pieces), and every prefix of the encoding has to be refused.

#[path = "/repo/vxi11/src/common/mod.rs"]
mod common;


use common::portmapper::xdr as pm;
use common::vxi11::xdr as vx;
use common::xdr::prelude::*;
use std::io::{Cursor, Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[path = "/repo/vxi11/src/common/onc_rpc/xdr.rs"]
mod rpc;

struct Slow<R>(R);
impl<R: Read> Read for Slow<R> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let n = b.len().min(1);
        self.0.read(&mut b[..n])
    }
}
impl<W: Write> Write for Slow<W> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let n = b.len().min(1);
        self.0.write(&b[..n])
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

struct Full(usize);
impl Write for Full {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let n = b.len().min(self.0);
        self.0 -= n;
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// The standard's form
#[derive(Clone, Default)]
struct E(Vec<u8>);
impl E {
    fn u(mut self, v: u32) -> Self {
        self.0.extend(v.to_be_bytes());
        self
    }
    fn h(self, v: u64) -> Self {
        self.u((v >> 32) as u32).u(v as u32)
    }
    fn f(mut self, v: &[u8]) -> Self {
        self.0.extend(v);
        while self.0.len() % 4 != 0 {
            self.0.push(0);
        }
        self
    }
    fn o(self, v: &[u8]) -> Self {
        self.u(v.len() as u32).f(v)
    }
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|b| format!("{:02x}", b)).collect::<Vec<_>>().join(" ")
}

struct Run {
    cases: u64,
    values: u64,
    bad: Vec<String>,
}

impl Run {
    fn fail(&mut self, t: &str, m: String) {
        if !self.bad.iter().any(|b| b.starts_with(&format!("{}: ", t))) {
            self.bad.push(format!("{}: {}", t, m));
        }
    }

    fn v<T: XdrEncode + XdrDecode + Default + std::fmt::Debug>(&mut self, v: T, e: E) {
        let t = std::any::type_name::<T>().rsplit("::").next().unwrap().to_string();
        let e = e.0;
        let want = format!("{:?}", v);
        self.values += 1;
        let r = catch_unwind(AssertUnwindSafe(|| -> Result<u64, String> {
            let mut n = 0;
            for slow in [false, true] {
                let mut out = Vec::new();
                let r = if slow { v.write_xdr(&mut Slow(&mut out)) } else { v.write_xdr(&mut out) };
                if r.is_err() || out != e {
                    return Err(format!("{} is encoded as [{}] ({:?}), expected [{}]", want, hex(&out), r, hex(&e)));
                }
                n += 1;
            }
            for k in 0..e.len() {
                if v.write_xdr(&mut Full(k)).is_ok() {
                    return Err(format!("encoding {} succeeds with room for {} of {} bytes", want, k, e.len()));
                }
                n += 1;
            }
            for tail in [0usize, 4, 9] {
                let mut c = Cursor::new([&e[..], &vec![0xa5; tail]].concat());
                let mut d = T::default();
                let r = if tail == 9 { d.read_xdr(&mut Slow(&mut c)) } else { d.read_xdr(&mut c) };
                if r.is_err() || format!("{:?}", d) != want || c.position() != e.len() as u64 {
                    return Err(format!("[{}] is decoded as {:?} ({:?}, {} of {} bytes), expected {}", hex(&e), d, r, c.position(), e.len(), want));
                }
                n += 1;
            }
            for k in 0..e.len() {
                let mut d = T::default();
                if d.read_xdr(&mut Cursor::new(&e[..k])).is_ok() {
                    return Err(format!("{} of {} bytes of [{}] are decoded as {:?}", k, e.len(), hex(&e), d));
                }
                n += 1;
            }
            Ok(n)
        }));
        match r {
            Ok(Ok(n)) => self.cases += n,
            Ok(Err(m)) => self.fail(&t, m),
            Err(_) => self.fail(&t, format!("{} panics", want)),
        }
    }

    fn refused<T: XdrDecode + Default + std::fmt::Debug>(&mut self, e: E) {
        let t = std::any::type_name::<T>().rsplit("::").next().unwrap().to_string();
        self.cases += 1;
        let mut d = T::default();
        match catch_unwind(AssertUnwindSafe(|| d.read_xdr(&mut Cursor::new(&e.0)).is_err())) {
            Ok(true) => {}
            Ok(false) => self.fail(&t, format!("[{}] is decoded as {:?}", hex(&e.0), d)),
            Err(_) => self.fail(&t, format!("decoding [{}] panics", hex(&e.0))),
        }
    }
}

fn words() -> Vec<u64> {
    let mut v: Vec<u64> = (0..64).map(|k| 1u64 << k).chain((0..64).map(|k| (1u64 << k).wrapping_neg())).collect();
    v.extend([0, 0x0123_4567_89ab_cdef, 0x7f80_0001, 80, 111, 4322, 0xffff]);
    v
}

fn blobs() -> Vec<Vec<u8>> {
    let mut v = vec![];
    for n in (0..=13).chain([127, 255, 256, 1023]) {
        v.push((0..n).map(|i| i as u8 ^ 0x5a).collect());
        v.push(vec![0; n]);
        v.push(vec![0xff; n]);
    }
    v
}

/// Every field over all words while the others keep a value of their own
macro_rules! fields {
    ($r:expr, $n:expr, |$w:ident| $v:expr, $e:expr) => {
        for i in 0..$n {
            for x in words() {
                let mut $w: Vec<u64> = (0..$n).map(|k| 0x1112_1314 + 0x0101_0101 * k as u64).collect();
                $w[i] = x;
                let $w = |k: usize| $w[k] as u32;
                $r.v($v, $e);
            }
        }
    };
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut r = Run { cases: 0, values: 0, bad: vec![] };
    let e = E::default;
    // Basic types
    for x in words() {
        r.v(x as u32, e().u(x as u32));
        r.v(x as i32, e().u(x as u32));
        r.v(x, e().h(x));
        r.v(x as i64, e().h(x));
        r.v(x as u16, e().u(x as u16 as u32));
        r.v(x as i16, e().u(x as i16 as i32 as u32));
        r.v(x as i8, e().u(x as i8 as i32 as u32));
        r.v(x as u8, e().u(x as u8 as u32));
        r.v(Some(x as u32), e().u(1).u(x as u32));
        r.v([x as u32, 1, 2, 3], e().u(x as u32).u(1).u(2).u(3));
        r.v(vec![x as u32; 3], e().u(3).u(x as u32).u(x as u32).u(x as u32));
        let f = f32::from_bits(x as u32);
        if !f.is_nan() {
            r.v(f, e().u(f.to_bits()));
        }
        let f = f64::from_bits(x);
        if !f.is_nan() {
            r.v(f, e().h(f.to_bits()));
        }
        if x as u32 > 0xffff {
            r.refused::<u16>(e().u(x as u32));
        }
        if x as u32 as i32 > 0x7fff || (x as u32 as i32) < -0x8000 {
            r.refused::<i16>(e().u(x as u32));
        }
        if x as u32 as i32 > 0x7f || (x as u32 as i32) < -0x80 {
            r.refused::<i8>(e().u(x as u32));
        }
    }
    for x in 0..=0xffffu32 {
        r.v(x as u16, e().u(x));
        r.v(x as u16 as i16, e().u(x as u16 as i16 as i32 as u32));
    }
    for x in [false, true] {
        r.v(x, e().u(x as u32));
        r.v(vec![x; 2], e().u(2).u(x as u32).u(x as u32));
    }
    r.v((), e());
    r.v(None::<u32>, e().u(0));
    r.v(FixedOpaque([]), e());
    r.v(FixedOpaque([1]), e().f(&[1]));
    r.v(FixedOpaque([1, 2]), e().f(&[1, 2]));
    r.v(FixedOpaque([1, 2, 3]), e().f(&[1, 2, 3]));
    r.v(FixedOpaque([0xff, 2, 3, 4]), e().f(&[0xff, 2, 3, 4]));
    r.v(FixedOpaque([1, 2, 3, 4, 0x80]), e().f(&[1, 2, 3, 4, 0x80]));
    r.v(FixedOpaque([7; 32]), e().f(&[7; 32]));
    for b in blobs() {
        r.v(Opaque(b.clone()), e().o(&b));
        r.v(vec![Opaque(b.clone()), Opaque(vec![1])], e().u(2).o(&b).o(&[1]));
        r.v(Some(Opaque(b.clone())), e().u(1).o(&b));
        let s: String = b.iter().map(|x| (*x % 128) as char).collect();
        r.v(s.clone(), e().o(s.as_bytes()));
        let s: String = b.iter().map(|x| *x as char).collect();
        r.v(s.clone(), e().o(s.as_bytes()));
        r.v(vx::DeviceSrqParms::new(Opaque(b.clone())), e().o(&b));
        r.v(vx::DeviceReadResp { error: 0u32.into_code(), reason: 4, data: Opaque(b.clone()) }, e().u(0).u(4).o(&b));
        r.v(vx::DeviceEnableSrqParms { lid: 7.into(), enable: b.len() % 2 == 1, handle: Opaque(b.clone()) }, e().u(7).u(b.len() as u32 % 2).o(&b));
        r.v(vx::DeviceDocmdResp { error: 8u32.into_code(), data_out: Opaque(b.clone()) }, e().u(8).o(&b));
        r.v(
            vx::DeviceWriteParms { lid: 1.into(), io_timeout: 2, lock_timeout: 3, flags: vx::DeviceFlags(8), data: Opaque(b.clone()) },
            e().u(1).u(2).u(3).u(8).o(&b),
        );
        r.v(
            vx::CreateLinkParms { client_id: -5, lock_device: b.len() % 2 == 0, lock_timeout: 1000, device: s.clone() },
            e().u(-5i32 as u32).u((b.len() % 2 == 0) as u32).u(1000).o(s.as_bytes()),
        );
        r.v(
            vx::DeviceDocmdParms {
                lid: 1.into(),
                flags: vx::DeviceFlags(2),
                io_timeout: 3,
                lock_timeout: 4,
                cmd: -6,
                network_order: b.len() % 2 == 0,
                datasize: 5,
                data_in: Opaque(b.clone()),
            },
            e().u(1).u(2).u(3).u(4).u(-6i32 as u32).u((b.len() % 2 == 0) as u32).u(5).o(&b),
        );
        r.v(pm::Callit { prog: 1, vers: 2, proc: 3, args: Opaque(b.clone()) }, e().u(1).u(2).u(3).o(&b));
        r.v(pm::CallResult { port: 1, res: Opaque(b.clone()) }, e().u(1).o(&b));
        r.v(rpc::OpaqueAuth { flavour: rpc::AuthFlavour::Sys, body: Opaque(b.clone()) }, e().u(1).o(&b));
    }
    // VXI-11
    for x in (0..40).chain(words().into_iter().map(|x| x as u32)) {
        r.v(x.into_code(), e().u(x));
        r.v(vx::DeviceError { error: x.into_code() }, e().u(x));
        r.v(vx::DeviceReadStbResp { error: x.into_code(), stb: x as u8 }, e().u(x).u(x as u8 as u32));
        r.v(vx::DeviceLink(x), e().u(x));
        r.v(vx::DeviceFlags(x), e().u(x));
    }
    fields!(r, 3, |w| vx::CreateLinkResp { error: w(0).into_code(), lid: w(1).into(), abort_port: 4323, max_recv_size: w(2) }, e().u(w(0)).u(w(1)).u(4323).u(w(2)));
    for x in words() {
        let p = x as u16;
        r.v(vx::CreateLinkResp { error: 0u32.into_code(), lid: 1.into(), abort_port: p, max_recv_size: 2 }, e().u(0).u(1).u(p as u32).u(2));
        r.v(
            vx::DeviceRemoteFunc { host_addr: 1, host_port: p, prog_num: 2, prog_vers: 3, prog_family: vx::DeviceAddrFamily::Udp },
            e().u(1).u(p as u32).u(2).u(3).u(1),
        );
        if x as u32 > 0xffff {
            r.refused::<vx::CreateLinkResp>(e().u(0).u(1).u(x as u32).u(2));
            r.refused::<vx::DeviceRemoteFunc>(e().u(1).u(x as u32).u(2).u(3).u(1));
        }
    }
    fields!(r, 3, |w| vx::CreateLinkParms { client_id: w(0) as i32, lock_device: w(2) & 1 == 1, lock_timeout: w(1), device: "inst0".into() }, e().u(w(0)).u(w(2) & 1).u(w(1)).o(b"inst0"));
    fields!(r, 4, |w| vx::DeviceWriteParms { lid: w(0).into(), io_timeout: w(1), lock_timeout: w(2), flags: vx::DeviceFlags(w(3)), data: Opaque(vec![9]) }, e().u(w(0)).u(w(1)).u(w(2)).u(w(3)).o(&[9]));
    fields!(r, 2, |w| vx::DeviceWriteResp { error: w(0).into_code(), size: w(1) }, e().u(w(0)).u(w(1)));
    fields!(
        r,
        6,
        |w| vx::DeviceReadParms { lid: w(0).into(), request_size: w(1), io_timeout: w(2), lock_timeout: w(3), flags: vx::DeviceFlags(w(4)), term_char: w(5) as u8 },
        e().u(w(0)).u(w(1)).u(w(2)).u(w(3)).u(w(4)).u(w(5) as u8 as u32)
    );
    fields!(r, 2, |w| vx::DeviceReadResp { error: w(0).into_code(), reason: w(1), data: Opaque(vec![1, 2]) }, e().u(w(0)).u(w(1)).o(&[1, 2]));
    fields!(r, 4, |w| vx::DeviceGenericParms { lid: w(0).into(), flags: vx::DeviceFlags(w(1)), lock_timeout: w(2), io_timeout: w(3) }, e().u(w(0)).u(w(1)).u(w(2)).u(w(3)));
    fields!(
        r,
        3,
        |w| vx::DeviceRemoteFunc { host_addr: w(0), host_port: 1024, prog_num: w(1), prog_vers: w(2), prog_family: vx::DeviceAddrFamily::Tcp },
        e().u(w(0)).u(1024).u(w(1)).u(w(2)).u(0)
    );
    fields!(r, 1, |w| vx::DeviceEnableSrqParms { lid: w(0).into(), enable: true, handle: Opaque(vec![5]) }, e().u(w(0)).u(1).o(&[5]));
    fields!(r, 3, |w| vx::DeviceLockParms { lid: w(0).into(), flags: vx::DeviceFlags(w(1)), lock_timeout: w(2) }, e().u(w(0)).u(w(1)).u(w(2)));
    fields!(
        r,
        6,
        |w| vx::DeviceDocmdParms {
            lid: w(0).into(),
            flags: vx::DeviceFlags(w(1)),
            io_timeout: w(2),
            lock_timeout: w(3),
            cmd: w(4) as i32,
            network_order: false,
            datasize: w(5),
            data_in: Opaque(vec![3, 4])
        },
        e().u(w(0)).u(w(1)).u(w(2)).u(w(3)).u(w(4)).u(0).u(w(5)).o(&[3, 4])
    );
    fields!(r, 1, |w| vx::DeviceDocmdResp { error: w(0).into_code(), data_out: Opaque(vec![]) }, e().u(w(0)).o(&[]));
    // Port mapper
    fields!(r, 4, |w| pm::Mapping::new(w(0), w(1), w(2), w(3)), e().u(w(0)).u(w(1)).u(w(2)).u(w(3)));
    fields!(r, 3, |w| pm::Callit { prog: w(0), vers: w(1), proc: w(2), args: Opaque(vec![1]) }, e().u(w(0)).u(w(1)).u(w(2)).o(&[1]));
    fields!(r, 1, |w| pm::CallResult { port: w(0), res: Opaque(vec![1]) }, e().u(w(0)).o(&[1]));
    // RPC
    let auth = |f: u32, b: &[u8]| rpc::OpaqueAuth {
        flavour: match f {
            0 => rpc::AuthFlavour::None,
            1 => rpc::AuthFlavour::Sys,
            2 => rpc::AuthFlavour::Short,
            x => rpc::AuthFlavour::Other(x),
        },
        body: Opaque(b.to_vec()),
    };
    for x in (0..8).chain(words().into_iter().map(|x| x as u32)) {
        for b in [&b""[..], b"abc", b"abcd"] {
            r.v(auth(x, b), e().u(x).o(b));
            let call = || rpc::Callbody { rpc_vers: 2, prog: 3, vers: 4, proc: 5, cred: auth(x, b), verf: auth(x ^ 1, b"q") };
            r.v(call(), e().u(2).u(3).u(4).u(5).u(x).o(b).u(x ^ 1).o(b"q"));
            r.v(rpc::RpcMessage { xid: x, mtype: rpc::MsgType::Call(call()) }, e().u(x).u(0).u(2).u(3).u(4).u(5).u(x).o(b).u(x ^ 1).o(b"q"));
        }
    }
    fields!(r, 5, |w| rpc::RpcMessage::call(w(0), w(1), w(2), w(3)), e().u(w(0)).u(0).u(2).u(w(1)).u(w(2)).u(w(3)).u(0).u(0).u(0).u(0));
    fields!(r, 2, |w| rpc::MissmatchInfo { low: w(0), high: w(1) }, e().u(w(0)).u(w(1)));
    let accept = |k: u32, a: u32, b: u32| match k {
        0 => (rpc::AcceptStat::Success, e().u(0)),
        1 => (rpc::AcceptStat::ProgUnavail, e().u(1)),
        2 => (rpc::AcceptStat::ProgMissmatch(rpc::MissmatchInfo { low: a, high: b }), e().u(2).u(a).u(b)),
        3 => (rpc::AcceptStat::ProcUnavail, e().u(3)),
        4 => (rpc::AcceptStat::GarbageArgs, e().u(4)),
        _ => (rpc::AcceptStat::SystemErr, e().u(5)),
    };
    let authstat = |k: u32| match k {
        0 => rpc::AuthStat::Ok,
        1 => rpc::AuthStat::BadCred,
        2 => rpc::AuthStat::RejectedCred,
        3 => rpc::AuthStat::BadVerf,
        4 => rpc::AuthStat::RejectedVerf,
        5 => rpc::AuthStat::TooWeak,
        6 => rpc::AuthStat::InvalidResp,
        _ => rpc::AuthStat::Failed,
    };
    let reject = |k: u32, a: u32, b: u32| match k {
        0 => (rpc::RejectStat::RpcMissmatch(rpc::MissmatchInfo { low: a, high: b }), e().u(0).u(a).u(b)),
        k => (rpc::RejectStat::AuthError(authstat(k - 1)), e().u(1).u(k - 1)),
    };
    for x in words() {
        let (a, b) = (x as u32, (x >> 7) as u32 ^ 0x55);
        for k in 0..6 {
            r.v(accept(k, a, b).0, accept(k, a, b).1);
            for body in [&b""[..], b"xyz"] {
                let full = |s: E| E([e().u(a & 1).o(body).0, s.0].concat());
                let rep = || rpc::AcceptedReply { verf: auth(a & 1, body), stat: accept(k, a, b).0 };
                r.v(rep(), full(accept(k, a, b).1));
                r.v(rpc::ReplyStat::Accepted(rep()), E([e().u(0).0, full(accept(k, a, b).1).0].concat()));
                r.v(
                    rpc::RpcMessage { xid: b, mtype: rpc::MsgType::Reply(rpc::Replybody { stat: rpc::ReplyStat::Accepted(rep()) }) },
                    E([e().u(b).u(1).u(0).0, full(accept(k, a, b).1).0].concat()),
                );
            }
        }
        for k in 0..9 {
            let en = |p: E| E([p.0, reject(k, a, b).1 .0].concat());
            r.v(reject(k, a, b).0, en(e()));
            r.v(rpc::RejectedReply { stat: reject(k, a, b).0 }, en(e()));
            r.v(rpc::ReplyStat::Denied(rpc::RejectedReply { stat: reject(k, a, b).0 }), en(e().u(1)));
            r.v(
                rpc::RpcMessage { xid: a, mtype: rpc::MsgType::Reply(rpc::Replybody { stat: rpc::ReplyStat::Denied(rpc::RejectedReply { stat: reject(k, a, b).0 }) }) },
                en(e().u(a).u(1).u(1)),
            );
        }
        // Unknown alternatives of a union
        for k in [x as u32] {
            if k > 1 {
                r.refused::<rpc::MsgType>(E([e().u(k).0, vec![0; 64]].concat()));
                r.refused::<rpc::ReplyStat>(E([e().u(k).0, vec![0; 64]].concat()));
                r.refused::<rpc::RejectStat>(E([e().u(k).0, vec![0; 64]].concat()));
            }
            if k > 5 {
                r.refused::<rpc::AcceptStat>(E([e().u(k).0, vec![0; 64]].concat()));
            }
        }
    }
    for k in 0..8 {
        r.v(authstat(k), e().u(k));
    }
    println!("values={} cases={}", r.values, r.cases);
    for b in &r.bad {
        println!("BAD {}", b.replace('\n', " "));
    }
    std::process::exit(if r.bad.is_empty() { 0 } else { 1 });
}

trait IntoCode {
    fn into_code(self) -> vx::DeviceErrorCode;
}
impl IntoCode for u32 {
    fn into_code(self) -> vx::DeviceErrorCode {
        use vx::DeviceErrorCode::*;
        match self {
            0 => NoError,
            1 => SyntaxError,
            3 => DeviceNotAccessible,
            4 => InvalidLinkIdentifier,
            5 => ParameterError,
            6 => ChannelNotEstablished,
            8 => OperationNotSupported,
            9 => OutOfResources,
            11 => DeviceLockedByAnotherLink,
            12 => NoLockHeldByThisLink,
            15 => IoTimeout,
            17 => IoError,
            21 => InvalidAddress,
            23 => Abort,
            29 => ChannelAlreadyEstablished,
            x => _Reserved(x),
        }
    }
}
