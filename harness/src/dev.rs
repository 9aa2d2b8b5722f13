//! Recording mock instrument. Its answers are a pure function of the command, shared with the models.
use lxi_device::{trigger::Source, Device, DeviceError};
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Ev {
    Exec(Vec<u8>),
    Trigger(String),
    Clear,
    Remote(bool),
    Lockout(bool),
    Status,
}
#[derive(Default)]
pub struct State {
    pub ev: Vec<Ev>,
    pub stb: u8,
    pub fail_status: bool,
    pub fail_trigger: bool,
    pub fail_clear: bool,
    pub fail_remote: bool,
    /// which error, instead of the usual one
    pub error: Option<DeviceError>,
}
#[derive(Clone, Default)]
pub struct Log(pub Arc<Mutex<State>>);
impl Log {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn dev(&self) -> Mock {
        Mock(self.clone())
    }
    pub fn take(&self) -> Vec<Ev> {
        std::mem::take(&mut self.0.lock().unwrap().ev)
    }
    /// events without status reads
    pub fn take_effects(&self) -> Vec<Ev> {
        self.take().into_iter().filter(|e| *e != Ev::Status).collect()
    }
    pub fn peek(&self) -> Vec<Ev> {
        self.0.lock().unwrap().ev.clone()
    }
    pub fn set_stb(&self, v: u8) {
        self.0.lock().unwrap().stb = v
    }
    pub fn set<R>(&self, f: impl FnOnce(&mut State) -> R) -> R {
        f(&mut self.0.lock().unwrap())
    }
}
pub struct Mock(Log);

/// `!...` answers nothing, `#<n>...` answers n pattern bytes, anything else is echoed behind `<`.
pub fn respond(cmd: &[u8]) -> Option<Vec<u8>> {
    match cmd.first() {
        Some(b'!') => None,
        Some(b'#') => {
            let n = cmd[1..].iter().take_while(|c| c.is_ascii_digit()).take(7).fold(0usize, |n, c| n * 10 + (c - b'0') as usize);
            Some((0..n.min(1 << 20)).map(|i| (i.wrapping_mul(31) ^ (i >> 8)) as u8).collect())
        }
        _ => {
            let mut v = vec![b'<'];
            v.extend_from_slice(cmd);
            Some(v)
        }
    }
}

impl Device for Mock {
    fn execute(&mut self, cmd: &[u8]) -> Option<Vec<u8>> {
        self.0 .0.lock().unwrap().ev.push(Ev::Exec(cmd.to_vec()));
        respond(cmd)
    }
    fn get_status(&mut self) -> Result<u8, DeviceError> {
        let mut s = self.0 .0.lock().unwrap();
        s.ev.push(Ev::Status);
        if s.fail_status {
            return Err(s.error.take().unwrap_or(DeviceError::IoError));
        }
        Ok(s.stb)
    }
    fn trigger(&mut self, source: Source) -> Result<(), DeviceError> {
        let mut s = self.0 .0.lock().unwrap();
        s.ev.push(Ev::Trigger(format!("{source:?}")));
        if s.fail_trigger {
            return Err(s.error.take().unwrap_or(DeviceError::NotSupported));
        }
        Ok(())
    }
    fn clear(&mut self) -> Result<(), DeviceError> {
        let mut s = self.0 .0.lock().unwrap();
        s.ev.push(Ev::Clear);
        if s.fail_clear {
            return Err(s.error.take().unwrap_or(DeviceError::IoError));
        }
        Ok(())
    }
    fn set_remote(&mut self, remote: bool) -> Result<(), DeviceError> {
        let mut s = self.0 .0.lock().unwrap();
        s.ev.push(Ev::Remote(remote));
        if s.fail_remote {
            return Err(s.error.take().unwrap_or(DeviceError::NotSupported));
        }
        Ok(())
    }
    fn set_local_lockout(&mut self, enable: bool) {
        self.0 .0.lock().unwrap().ev.push(Ev::Lockout(enable));
    }
}
