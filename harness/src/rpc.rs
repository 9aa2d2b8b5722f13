//! Independent ONC-RPC/XDR wire code for the VXI-11 and portmapper checks.
use crate::engine::*;
use simrt::net::Peer;

#[derive(Clone, Default)]
pub struct X(pub Vec<u8>);
impl X {
    pub fn new() -> X {
        X(vec![])
    }
    pub fn u(mut self, v: u32) -> X {
        self.0.extend(v.to_be_bytes());
        self
    }
    pub fn b(self, v: bool) -> X {
        self.u(v as u32)
    }
    pub fn o(mut self, d: &[u8]) -> X {
        self.0.extend((d.len() as u32).to_be_bytes());
        self.0.extend(d);
        while self.0.len() % 4 != 0 {
            self.0.push(0)
        }
        self
    }
}
/// Strict reader; any shortfall makes every later read fail.
pub struct Rd<'a> {
    d: &'a [u8],
    pub ok: bool,
}
impl<'a> Rd<'a> {
    pub fn new(d: &'a [u8]) -> Self {
        Rd { d, ok: true }
    }
    pub fn u(&mut self) -> u32 {
        if self.d.len() < 4 {
            self.ok = false;
            self.d = &[];
            return 0;
        }
        let v = u32::from_be_bytes(self.d[..4].try_into().unwrap());
        self.d = &self.d[4..];
        v
    }
    pub fn o(&mut self) -> Vec<u8> {
        let n = self.u() as usize;
        let t = n.saturating_add(3) / 4 * 4;
        if !self.ok || self.d.len() < t {
            self.ok = false;
            self.d = &[];
            return vec![];
        }
        let v = self.d[..n].to_vec();
        if self.d[n..t].iter().any(|b| *b != 0) {
            self.ok = false;
        }
        self.d = &self.d[t..];
        v
    }
    pub fn rest(&mut self) -> Vec<u8> {
        std::mem::take(&mut self.d).to_vec()
    }
    pub fn done(&self) -> bool {
        self.ok && self.d.is_empty()
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Reply {
    Success(Vec<u8>),
    ProgUnavail,
    ProgMismatch(u32, u32),
    ProcUnavail,
    Garbage,
    SystemErr,
    RpcMismatch(u32, u32),
    Auth(u32),
}
/// Parse one reply message strictly.
pub fn parse_reply(m: &[u8]) -> Option<(u32, Reply)> {
    let mut r = Rd::new(m);
    let xid = r.u();
    if r.u() != 1 {
        return None;
    }
    let rep = match r.u() {
        0 => {
            if r.u() != 0 || !r.o().is_empty() {
                return None;
            }
            match r.u() {
                0 if r.ok => return Some((xid, Reply::Success(r.rest()))),
                1 => Reply::ProgUnavail,
                2 => Reply::ProgMismatch(r.u(), r.u()),
                3 => Reply::ProcUnavail,
                4 => Reply::Garbage,
                5 => Reply::SystemErr,
                _ => return None,
            }
        }
        1 => match r.u() {
            0 => Reply::RpcMismatch(r.u(), r.u()),
            1 => Reply::Auth(r.u()),
            _ => return None,
        },
        _ => return None,
    };
    r.done().then_some((xid, rep))
}
pub struct Call {
    pub xid: u32,
    pub rpcvers: u32,
    pub prog: u32,
    pub vers: u32,
    pub proc: u32,
    pub cred: (u32, Vec<u8>),
    pub verf: (u32, Vec<u8>),
    pub args: Vec<u8>,
}
impl Call {
    pub fn new(xid: u32, prog: u32, vers: u32, proc: u32, args: &[u8]) -> Call {
        Call { xid, rpcvers: 2, prog, vers, proc, cred: (0, vec![]), verf: (0, vec![]), args: args.to_vec() }
    }
    pub fn bytes(&self) -> Vec<u8> {
        let mut v = X::new()
            .u(self.xid)
            .u(0)
            .u(self.rpcvers)
            .u(self.prog)
            .u(self.vers)
            .u(self.proc)
            .u(self.cred.0)
            .o(&self.cred.1)
            .u(self.verf.0)
            .o(&self.verf.1)
            .0;
        v.extend(&self.args);
        v
    }
    /// Parse a call the code under test sent; credentials must be null.
    pub fn parse(m: &[u8]) -> Option<Call> {
        let mut r = Rd::new(m);
        let xid = r.u();
        if r.u() != 0 {
            return None;
        }
        let (rpcvers, prog, vers, proc) = (r.u(), r.u(), r.u(), r.u());
        let cred = (r.u(), r.o());
        let verf = (r.u(), r.o());
        if !r.ok {
            return None;
        }
        Some(Call { xid, rpcvers, prog, vers, proc, cred, verf, args: r.rest() })
    }
}
pub fn reply_ok(xid: u32, body: &[u8]) -> Vec<u8> {
    let mut v = X::new().u(xid).u(1).u(0).u(0).o(&[]).u(0).0;
    v.extend(body);
    v
}
/// Record-mark a message, sometimes in several fragments.
pub fn record(m: &[u8]) -> Vec<u8> {
    let mut out = vec![];
    let mut at = 0;
    if chance(1, 4) {
        let many = chance(1, 100);
        let k = if many { pick(&[127, 128, 255, 256, 257, 600]) } else { choose(5) };
        for _ in 0..k {
            let n = if many { pick(&[0, 0, 1]).min(m.len() - at) } else { choose((m.len() - at) as u64 + 1) as usize };
            out.extend((n as u32).to_be_bytes());
            out.extend(&m[at..at + n]);
            at += n;
        }
    }
    out.extend((0x8000_0000u32 | (m.len() - at) as u32).to_be_bytes());
    out.extend(&m[at..]);
    out
}
/// Take every complete record off the front of `rx`.
pub fn records(rx: &mut Vec<u8>) -> Vec<Vec<u8>> {
    let mut out = vec![];
    loop {
        let (mut at, mut m) = (0, vec![]);
        let done = loop {
            if rx.len() < at + 4 {
                break false;
            }
            let h = u32::from_be_bytes(rx[at..at + 4].try_into().unwrap());
            let n = (h & 0x7fff_ffff) as usize;
            if rx.len() < at + 4 + n {
                break false;
            }
            m.extend(&rx[at + 4..at + 4 + n]);
            at += 4 + n;
            if h & 0x8000_0000 != 0 {
                break true;
            }
        };
        if !done {
            return out;
        }
        rx.drain(..at);
        out.push(m);
    }
}

pub struct Conn {
    pub p: Peer,
    pub rx: Vec<u8>,
    pub xid: u32,
}
impl Conn {
    pub fn new(p: Peer) -> Conn {
        Conn { p, rx: vec![], xid: 1000 }
    }
    pub fn send(&mut self, prog: u32, vers: u32, proc: u32, args: X) -> u32 {
        self.xid = self.xid.wrapping_add(1);
        self.p.write(&record(&Call::new(self.xid, prog, vers, proc, &args.0).bytes()));
        self.xid
    }
    /// Every complete reply received so far.
    pub fn replies(&mut self) -> Result<Vec<(u32, Reply)>, Fail> {
        let d = self.p.read();
        self.rx.extend(d);
        let mut v = vec![];
        for m in records(&mut self.rx) {
            match parse_reply(&m) {
                Some(r) => v.push(r),
                None => return Err(failure("malformed-reply", format!("malformed RPC reply {}", show(&m)))),
            }
        }
        Ok(v)
    }
    /// The same, but return as soon as the reply is here, whatever else is still to run.
    pub fn call_promptly(&mut self, prog: u32, vers: u32, proc: u32, args: X) -> Result<Vec<u8>, Fail> {
        let xid = self.send(prog, vers, proc, args);
        loop {
            match &self.replies()?[..] {
                [] if simrt::exec::step() => {}
                [(x, Reply::Success(b))] if *x == xid => return Ok(b.clone()),
                r => return Err(failure("no-answer", format!("procedure {proc}: expected one successful reply to {xid}, got {r:?}"))),
            }
        }
    }
    /// Send and expect one successful reply body right away.
    pub fn call(&mut self, prog: u32, vers: u32, proc: u32, args: X) -> Result<Vec<u8>, Fail> {
        let xid = self.send(prog, vers, proc, args);
        simrt::exec::settle();
        let r = self.replies()?;
        match &r[..] {
            [(x, Reply::Success(b))] if *x == xid => Ok(b.clone()),
            _ => Err(failure("no-answer", format!("procedure {proc}: expected one successful reply to {xid}, got {r:?}"))),
        }
    }
}
