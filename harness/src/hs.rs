#![allow(dead_code)]
//! A HiSLIP client for the checks, written from the IVI-6.1 tables and independent of the crate's own codec.
use crate::dev::Log;
use crate::engine::*;
use crate::net_util::chunking;
use lxi_device::lock::{Mutex as DevMutex, SharedLock, SpinMutex};
use lxi_device::status::Sender as StatusSender;
use lxi_hislip::server::{ServerBuilder, ServerConfig};
use simrt::exec::{self, SimSpawner};
use simrt::net::{self, Peer};
use std::sync::Arc;

pub const INITIALIZE: u8 = 0;
pub const INIT_RESP: u8 = 1;
pub const FATAL: u8 = 2;
pub const ERROR: u8 = 3;
pub const LOCK: u8 = 4;
pub const LOCK_RESP: u8 = 5;
pub const DATA: u8 = 6;
pub const DATA_END: u8 = 7;
pub const CLEAR_COMPLETE: u8 = 8;
pub const CLEAR_ACK: u8 = 9;
pub const RL: u8 = 10;
pub const RL_RESP: u8 = 11;
pub const TRIGGER: u8 = 12;
pub const MAX_SIZE: u8 = 15;
pub const MAX_SIZE_RESP: u8 = 16;
pub const ASYNC_INIT: u8 = 17;
pub const ASYNC_INIT_RESP: u8 = 18;
pub const ASYNC_CLEAR: u8 = 19;
pub const SRQ: u8 = 20;
pub const STATUS: u8 = 21;
pub const STATUS_RESP: u8 = 22;
pub const ASYNC_CLEAR_ACK: u8 = 23;
pub const LOCK_INFO: u8 = 24;
pub const LOCK_INFO_RESP: u8 = 25;
pub const PORT: u16 = 4880;

#[derive(Clone, PartialEq, Eq)]
pub struct Msg {
    pub typ: u8,
    pub cc: u8,
    pub param: u32,
    pub payload: Vec<u8>,
}
impl std::fmt::Debug for Msg {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "[type {} control {} parameter {:#x} {}]", self.typ, self.cc, self.param, show(&self.payload))
    }
}
pub fn frame(typ: u8, cc: u8, param: u32, payload: &[u8]) -> Vec<u8> {
    let mut v = vec![b'H', b'S', typ, cc];
    v.extend(param.to_be_bytes());
    v.extend((payload.len() as u64).to_be_bytes());
    v.extend(payload);
    v
}
pub struct HConn {
    pub p: Peer,
    rx: Vec<u8>,
    got: std::collections::VecDeque<Msg>,
}
pub fn connect() -> Result<HConn, Fail> {
    let p = net::connect(PORT).ok_or_else(|| failure("not-listening", format!("nothing listens on port {PORT}")))?;
    p.set_chunking(chunking(), chunking());
    Ok(HConn { p, rx: vec![], got: Default::default() })
}
impl HConn {
    pub fn send(&self, typ: u8, cc: u8, param: u32, payload: &[u8]) {
        self.p.write(&frame(typ, cc, param, payload))
    }
    fn parse(&mut self) -> CaseResult {
        loop {
            if self.rx.len() < 16 {
                return Ok(());
            }
            ensure!(&self.rx[..2] == b"HS", "frame", "the server sent something that is not a HiSLIP message: {}", show(&self.rx));
            let n = u64::from_be_bytes(self.rx[8..16].try_into().unwrap());
            ensure!(n < 1 << 26, "frame", "the server announced a payload of {n} bytes");
            let n = n as usize;
            if self.rx.len() < 16 + n {
                return Ok(());
            }
            let m = Msg { typ: self.rx[2], cc: self.rx[3], param: u32::from_be_bytes(self.rx[4..8].try_into().unwrap()), payload: self.rx[16..16 + n].to_vec() };
            self.rx.drain(..16 + n);
            self.got.push_back(m);
        }
    }
    /// Take what has arrived, without running anything.
    pub fn poll(&mut self) -> CaseResult {
        let d = self.p.read();
        self.rx.extend(d);
        self.parse()
    }
    /// Run and read until nothing moves; all complete messages received.
    pub fn recv(&mut self) -> Result<Vec<Msg>, Fail> {
        let mut total = 0usize;
        loop {
            exec::settle();
            let d = self.p.read();
            total += d.len();
            let none = d.is_empty();
            self.rx.extend(d);
            self.parse()?;
            if total > 1 << 24 {
                exec::with(|w| w.stuck = Some("RUNAWAY: endless output".into()));
            }
            if exec::with(|w| w.stuck.is_some() || !w.panics.is_empty()) || (none && exec::idle()) {
                break;
            }
        }
        ensure!(!self.p.gone() || self.rx.is_empty(), "frame", "the server closed the connection inside a message: {}", show(&self.rx));
        Ok(self.got.drain(..).collect())
    }
    pub fn one(&mut self, what: &str) -> Result<Msg, Fail> {
        let mut v = self.recv()?;
        ensure!(v.len() == 1, "reply-count", "{what}: expected one message, got {v:?} (connection gone: {})", self.p.gone());
        Ok(v.remove(0))
    }
    pub fn call(&mut self, typ: u8, cc: u8, param: u32, payload: &[u8]) -> Result<Msg, Fail> {
        self.send(typ, cc, param, payload);
        self.one(&format!("message type {typ} control {cc} parameter {param:#x}"))
    }
    /// The next message, as soon as it is here, whatever else is still to run.
    pub fn next(&mut self, what: &str) -> Result<Msg, Fail> {
        loop {
            self.poll()?;
            if let Some(m) = self.got.pop_front() {
                return Ok(m);
            }
            if !exec::step() {
                return Err(failure("reply-count", format!("{what}: not answered (connection gone: {})", self.p.gone())));
            }
        }
    }
    /// Send and take the answer as soon as it is here.
    pub fn promptly(&mut self, typ: u8, cc: u8, param: u32, payload: &[u8]) -> Result<Msg, Fail> {
        self.send(typ, cc, param, payload);
        self.next(&format!("message type {typ} control {cc} parameter {param:#x}"))
    }
    pub fn gone(&self) -> bool {
        self.p.gone()
    }
}

pub struct HDev {
    pub name: String,
    pub log: Log,
    pub shared: Arc<SpinMutex<SharedLock>>,
    pub device: Arc<DevMutex<crate::dev::Mock>>,
}
pub struct HEnv {
    pub devs: Vec<HDev>,
    pub status: StatusSender,
    pub cfg: ServerConfig,
}
pub fn serve(cfg: ServerConfig, names: &[&str]) -> HEnv {
    let devs: Vec<HDev> = names
        .iter()
        .map(|n| {
            let log = Log::new();
            HDev { name: n.to_string(), shared: SharedLock::new(), device: Arc::new(DevMutex::new(log.dev())), log }
        })
        .collect();
    let s = match choose(3) {
        0 => lxi_hislip::server::Server::with_config(cfg.clone(), devs.iter().map(|d| (d.name.clone(), (d.shared.clone(), d.device.clone()))).collect()),
        n => {
            let (mut b, rest) = if n == 1 {
                (ServerBuilder::new(cfg.clone()), &devs[..])
            } else {
                let d = &devs[0];
                (ServerBuilder::new_with_device(cfg.clone(), d.name.clone(), d.device.clone(), d.shared.clone()), &devs[1..])
            };
            for d in rest {
                b = b.device(d.name.clone(), d.device.clone(), d.shared.clone());
            }
            b.build()
        }
    };
    let status = StatusSender::new();
    let st = status.clone();
    exec::spawn_named("hislip server", async move {
        let _ = s.accept(("127.0.0.1", PORT), st, SimSpawner).await;
    });
    exec::settle();
    HEnv { devs, status, cfg }
}
/// An established session.
pub struct Sess {
    pub s: HConn,
    pub a: HConn,
    pub id: u16,
    pub proto: u16,
}
pub fn open(sub: &str, proto: u16) -> Result<Sess, Fail> {
    let mut s = connect()?;
    let r = s.call(INITIALIZE, 0, (proto as u32) << 16 | choose(65536) as u32, sub.as_bytes())?;
    ensure!(r.typ == INIT_RESP, "initialize", "Initialize of {sub:?} answered {r:?}");
    let id = r.param as u16;
    let mut a = connect()?;
    let q = a.call(ASYNC_INIT, 0, id as u32, &[])?;
    ensure!(q.typ == ASYNC_INIT_RESP, "initialize", "AsyncInitialize of session {id} answered {q:?}");
    Ok(Sess { s, a, id, proto: (r.param >> 16) as u16 })
}
