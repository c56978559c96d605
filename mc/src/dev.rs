//! The device behind the servers: it records every call and answers by a fixed rule.
use lxi_device::trigger::Source;
use lxi_device::{Device, DeviceError};
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug, PartialEq)]
pub enum Call {
    Exec(Vec<u8>),
    Status,
    Trigger(Source),
    Clear,
    Remote(bool),
    Lockout(bool),
}

pub struct State {
    pub calls: Vec<Call>,
    pub stb: u8,
    /// how the status, and anything else, fails (0: not)
    pub status_err: u8,
    pub fail: u8,
    pub respond: Box<dyn Fn(&[u8]) -> Option<Vec<u8>> + Send>,
}

#[derive(Clone)]
pub struct Probe(pub Arc<Mutex<State>>);

/// Commands containing a 'q' are queries answered with "<command>".
pub fn rule(c: &[u8]) -> Option<Vec<u8>> {
    if c.contains(&b'q') {
        let mut r = vec![b'<'];
        r.extend_from_slice(c);
        r.push(b'>');
        Some(r)
    } else {
        None
    }
}

impl Probe {
    pub fn new() -> Probe {
        Probe::with(rule)
    }
    pub fn with(f: impl Fn(&[u8]) -> Option<Vec<u8>> + Send + 'static) -> Probe {
        Probe(Arc::new(Mutex::new(State {
            calls: Vec::new(),
            stb: 0,
            status_err: 0,
            fail: 0,
            respond: Box::new(f),
        })))
    }
    pub fn calls(&self) -> Vec<Call> {
        self.0.lock().unwrap().calls.clone()
    }
    pub fn take(&self) -> Vec<Call> {
        std::mem::take(&mut self.0.lock().unwrap().calls)
    }
    /// executed commands so far
    pub fn execs(&self) -> Vec<Vec<u8>> {
        self.calls()
            .into_iter()
            .filter_map(|c| match c {
                Call::Exec(v) => Some(v),
                _ => None,
            })
            .collect()
    }
    pub fn set_stb(&self, v: u8) {
        self.0.lock().unwrap().stb = v
    }
    pub fn set_fail(&self, v: u8) {
        self.0.lock().unwrap().fail = v
    }
    pub fn set_status_err(&self, v: u8) {
        self.0.lock().unwrap().status_err = v
    }
    pub fn device(&self) -> Arc<futures::lock::Mutex<TDev>> {
        Arc::new(futures::lock::Mutex::new(TDev(self.clone())))
    }
}

pub struct TDev(Probe);

impl TDev {
    fn call(&self, c: Call) -> Result<(), DeviceError> {
        // the device takes its time while other threads go on
        mcrt::sched_point("device");
        mcrt::event(format!("device: {}", show_call(&c)));
        let mut s = (self.0).0.lock().unwrap();
        s.calls.push(c);
        failure(s.fail)
    }
}

/// The ways in which a device may fail
pub const FAILURES: u8 = 3;

pub fn failure(kind: u8) -> Result<(), DeviceError> {
    match kind {
        0 => Ok(()),
        1 => Err(DeviceError::NotSupported),
        2 => Err(DeviceError::IoTimeout),
        _ => Err(DeviceError::IoError),
    }
}

pub fn show_call(c: &Call) -> String {
    match c {
        Call::Exec(v) => format!("execute \"{}\"", crate::common::show(v)),
        c => format!("{:?}", c),
    }
}

pub fn show_calls(c: &[Call]) -> String {
    c.iter().map(show_call).collect::<Vec<_>>().join(", ")
}

impl Device for TDev {
    fn execute(&mut self, cmd: &[u8]) -> Option<Vec<u8>> {
        let _ = self.call(Call::Exec(cmd.to_vec()));
        mcrt::sched_point("device");
        let s = (self.0).0.lock().unwrap();
        (s.respond)(cmd)
    }
    fn get_status(&mut self) -> Result<u8, DeviceError> {
        let mut s = (self.0).0.lock().unwrap();
        s.calls.push(Call::Status);
        failure(s.status_err).map(|_| s.stb)
    }
    fn trigger(&mut self, source: Source) -> Result<(), DeviceError> {
        self.call(Call::Trigger(source))
    }
    fn clear(&mut self) -> Result<(), DeviceError> {
        self.call(Call::Clear)
    }
    fn set_remote(&mut self, remote: bool) -> Result<(), DeviceError> {
        self.call(Call::Remote(remote))
    }
    fn set_local_lockout(&mut self, enable: bool) {
        let _ = self.call(Call::Lockout(enable));
    }
}
