//! C25 ONC-RPC dispatch, C26 static portmapper, C27 portmapper client.
use crate::c_vxi::*;
use crate::dev::Ev;
use crate::engine::*;
use crate::net_util::{chunking, policy};
use crate::rpc::*;
use lxi_vxi11::client::portmapper::prelude::{Mapping, PortMapperClient};
use lxi_vxi11::server::portmapper::prelude::StaticPortMap;
use simrt::exec;
use simrt::net::{self, Peer};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::net::SocketAddr;
use std::rc::Rc;
use std::time::Duration;

pub const PMAP: u32 = 100000;

// ------------------------------------------------------------------ C25
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Target {
    Core,
    Async,
    MapTcp,
    MapUdp,
}
impl Target {
    fn prog(self) -> (u32, u32) {
        match self {
            Target::Core => (CORE, 1),
            Target::Async => (ASYNC, 1),
            _ => (PMAP, 2),
        }
    }
    fn procs(self) -> &'static [u32] {
        match self {
            Target::Core => &[0, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 22, 23, 25, 26],
            Target::Async => &[0, 1],
            _ => &[0, 3, 4],
        }
    }
}
/// Well-formed arguments of a procedure which has some.
fn args_of(t: Target, proc: u32, lid: u32) -> X {
    let data = bytes(size(40, &[3, 4, 5]) as usize);
    match (t, proc) {
        (Target::Core, CREATE_LINK) => a_create("inst0", false, 0),
        (Target::Core, WRITE) => a_write(lid, END, 0, &data),
        (Target::Core, READ) => a_read(lid, 100, 0, 0, 0),
        (Target::Core, 13..=17) => a_gen(lid, 0, 0),
        (Target::Core, LOCK) => a_lock(lid, 0, 0),
        (Target::Core, UNLOCK | DESTROY_LINK) | (Target::Async, 1) => X::new().u(lid),
        (Target::Core, ENABLE_SRQ) => a_srq(lid, true, &data),
        (Target::Core, DOCMD) => a_docmd(lid),
        (Target::Core, CREATE_INTR) => X::new().u(0x7f000001).u(7000).u(INTR).u(1).u(0),
        (Target::MapTcp | Target::MapUdp, 3) => X::new().u(CORE).u(1).u(6).u(0),
        _ => X::new(),
    }
}
pub struct Link {
    conn: Option<Conn>,
    udp: Option<net::HarnessUdp>,
    port: u16,
}
impl Link {
    pub fn send(&self, m: &[u8]) {
        match (&self.conn, &self.udp) {
            (Some(c), _) => c.p.write(&record(m)),
            (_, Some(u)) => {
                u.send(m, SocketAddr::from(([127, 0, 0, 1], self.port)));
            }
            _ => {}
        }
    }
    pub fn replies(&mut self) -> Result<Vec<(u32, Reply)>, Fail> {
        match (&mut self.conn, &self.udp) {
            (Some(c), _) => c.replies(),
            (_, Some(u)) => {
                let mut v = vec![];
                for (d, from) in u.received() {
                    ensure!(from.port() == self.port, "udp-source", "datagram from {from}");
                    match parse_reply(&d) {
                        Some(r) => v.push(r),
                        None => fail!("malformed-reply", "malformed RPC reply {}", show(&d)),
                    }
                }
                Ok(v)
            }
            _ => Ok(vec![]),
        }
    }
    fn gone(&self) -> bool {
        self.conn.as_ref().is_some_and(|c| c.p.gone())
    }
}
/// A client of the portmapper.
pub fn map_client(udp: bool) -> Result<Link, Fail> {
    if udp {
        Ok(Link { conn: None, udp: Some(net::harness_udp(20000)), port: 111 })
    } else {
        Ok(Link { conn: Some(conn(111)?), udp: None, port: 111 })
    }
}
pub fn getport(c: &mut Link, xid: u32) -> Result<Option<u32>, Fail> {
    c.send(&Call::new(xid, PMAP, 2, 3, &X::new().u(CORE).u(1).u(6).u(0).0).bytes());
    exec::settle();
    Ok(match c.replies()?.as_slice() {
        [(x, Reply::Success(b))] if *x == xid && b.len() == 4 => Some(u32::from_be_bytes([b[0], b[1], b[2], b[3]])),
        _ => None,
    })
}
pub fn open_target(t: Target, e: &Env) -> Result<Link, Fail> {
    let (port, udp) = match t {
        Target::Core => (e.core, false),
        Target::Async => (e.asy, false),
        Target::MapTcp => (111, false),
        Target::MapUdp => (111, true),
    };
    if udp {
        let p = range(20000, 29999) as u16;
        Ok(Link { conn: None, udp: Some(net::harness_udp(p)), port })
    } else {
        Ok(Link { conn: Some(conn(port)?), udp: None, port })
    }
}
pub fn start_map() {
    let map = StaticPortMap::new([Mapping::new(CORE, 1, 6, 4322), Mapping::new(ASYNC, 1, 6, 4323)]);
    let l = async_std::net::TcpListener::sim_bind(([127, 0, 0, 1], 111).into()).unwrap();
    let u = async_std::net::UdpSocket::sim_bind(([127, 0, 0, 1], 111).into()).unwrap();
    exec::spawn_named("portmap tcp", map.clone().serve_tcp(l));
    exec::spawn_named("portmap udp", map.serve_udp(u));
    exec::settle();
}
#[derive(Debug, Clone)]
enum Want {
    Exactly(Reply),
    AnyAuth,
    AnySuccess,
    /// arguments that cannot be decoded (or name nothing)
    Garbage,
    /// no reply, or a dropped connection
    Nothing,
}
fn dispatch() -> CaseResult {
    exec::init(policy());
    let e = env(1);
    start_map();
    let t = pick(&[Target::Core, Target::Async, Target::MapTcp, Target::MapUdp]);
    let (prog, vers) = t.prog();
    // a link with a response and a partial command buffered, to see that nothing undecodable touches it
    let mut keep = conn(e.core)?;
    let mut c = open_target(t, &e)?;
    let lid = if t == Target::Core { open(c.conn.as_mut().unwrap(), "inst0")? } else { open(&mut keep, "inst0")? };
    e.devs[0].log.take();
    let mut odd = 0;
    'rounds: for _ in 0..range(1, 6) {
        let mut want: BTreeMap<u32, (Want, String)> = BTreeMap::new();
        let mut effects = 0usize;
        let mut broke = false;
        for _ in 0..range(1, 4) {
            let mut xid = word();
            while want.contains_key(&xid) {
                xid = xid.wrapping_add(1);
            }
            let mut q = Call::new(xid, prog, vers, 0, &[]);
            let proc = pick(t.procs());
            let kind = weighted(&[3, 2, 2, 2, 2, 2, 5, 1, 5, 1, 1]);
            let w = match kind {
                0 => Want::Exactly(Reply::Success(vec![])),
                1 => {
                    q.prog = pick(&[0, prog + 1, prog ^ 0x8000_0000, u32::MAX, INTR, 100003, prog + 0x100, prog ^ 0x1_0000, prog & 0xffff, prog ^ 0x0100_0000]);
                    q.vers = choose(4) as u32;
                    q.proc = choose(30) as u32;
                    Want::Exactly(Reply::ProgUnavail)
                }
                2 => {
                    q.vers = pick(&[0, vers + 1, u32::MAX, vers + 2, vers + 0x100, vers + 0x1_0000, vers + 0x100_0000, vers ^ 0x8000_0000]);
                    q.proc = choose(30) as u32;
                    Want::Exactly(Reply::ProgMismatch(vers, vers))
                }
                3 => {
                    loop {
                        q.proc = pick(&[1u32, 2, 5, 8, 9, 21, 24, 27, 99, u32::MAX, 0x8000_000a, 0x10a, 0x1_000b, 0x100_000c, 0x100, 0x1_0000, 0x8000_0001, 0x8000_0003]);
                        if !t.procs().contains(&q.proc) {
                            break;
                        }
                    }
                    Want::Exactly(Reply::ProcUnavail)
                }
                4 => {
                    q.rpcvers = pick(&[0u32, 1, 3, u32::MAX, 0x102, 0x1_0002, 0x100_0002, 0x8000_0002]);
                    q.proc = proc;
                    q.args = args_of(t, proc, lid).0;
                    Want::Exactly(Reply::RpcMismatch(2, 2))
                }
                5 => {
                    let f = (pick(&[1u32, 2, 3, 6, 300001, u32::MAX, 0x100, 0x1_0000, 0x8000_0000]), bytes(size(400, &[0, 64, 400]) as usize));
                    if choose(2) == 0 {
                        q.cred = f
                    } else {
                        q.verf = f
                    }
                    q.proc = proc;
                    q.args = args_of(t, proc, lid).0;
                    Want::AnyAuth
                }
                6 => {
                    q.proc = proc;
                    let a = args_of(t, proc, lid).0;
                    if a.is_empty() {
                        continue;
                    }
                    q.args = a[..choose(a.len() as u64) as usize].to_vec();
                    Want::Garbage
                }
                7 if t == Target::Core => {
                    // a length that promises more than there is
                    let n = pick(&[u32::MAX, 0x7fff_ffff, 1 << 20, 100_000, 64]);
                    q.proc = pick(&[WRITE, CREATE_LINK, ENABLE_SRQ]);
                    q.args = match q.proc {
                        WRITE => X::new().u(lid).u(0).u(0).u(END).u(n).0,
                        ENABLE_SRQ => X::new().u(lid).b(true).u(n).0,
                        _ => X::new().u(1).b(false).u(0).u(n).0,
                    };
                    q.args.extend(bytes(choose(32) as usize));
                    Want::Garbage
                }
                8 if t == Target::Core => {
                    let k = choose(3);
                    q.proc = pick(&[WRITE, TRIGGER, READSTB]);
                    q.args = match q.proc {
                        WRITE => a_write(lid, END, 0, format!("!{k}").as_bytes()).0,
                        _ => a_gen(lid, 0, 0).0,
                    };
                    if q.proc != READSTB {
                        effects += 1;
                    }
                    Want::AnySuccess
                }
                9 => {
                    // not a call at all
                    want.insert(xid, (Want::Nothing, "junk".into()));
                    let m = match choose(3) {
                        0 => bytes(choose(60) as usize),
                        1 => {
                            q.proc = proc;
                            q.args = args_of(t, proc, lid).0;
                            let b = q.bytes();
                            b[..choose(39) as usize].to_vec()
                        }
                        _ => reply_ok(xid, &[0, 0, 0, 0]),
                    };
                    // a random message may happen to be a call: its first words would say so
                    if m.len() >= 8 && m[4..8] == [0, 0, 0, 0] && m.len() >= 40 {
                        want.remove(&xid);
                        continue;
                    }
                    note(|| format!("{t:?}: junk {}", show(&m)));
                    c.send(&m);
                    broke = true;
                    odd += 1;
                    break;
                }
                10 => {
                    q.proc = proc;
                    q.args = args_of(t, proc, lid).0;
                    if t == Target::Core && matches!(proc, 11 | 14..=17) {
                        continue;
                    }
                    if t == Target::Core && proc == DESTROY_LINK {
                        continue;
                    }
                    Want::AnySuccess
                }
                _ => continue,
            };
            if !matches!(w, Want::AnySuccess) {
                odd += 1
            }
            note(|| format!("{t:?}: xid {xid} rpc {} prog {} vers {} proc {} cred {} verf {} args {} -> expecting {w:?}", q.rpcvers, q.prog, q.vers, q.proc, q.cred.0, q.verf.0, show(&q.args)));
            // replies that cannot be sent are lost, and no more than that
            if t == Target::MapUdp && chance(1, 8) {
                exec::settle();
                let u = net::harness_udp(31000);
                for _ in 0..range(1, 2) {
                    net::udp_send_error(111, pick(&[101, 105, 111, 113, 1, 90, 4]));
                    u.send(&Call::new(1, PMAP, 2, 0, &[]).bytes(), SocketAddr::from(([127, 0, 0, 1], 111)));
                }
                exec::settle();
                ensure!(u.received().is_empty(), "harness", "replies in spite of the errors");
                note(|| "replies to somebody else could not be sent".to_string());
                odd += 1;
            }
            want.insert(xid, (w, format!("prog {} vers {} proc {} args {}", q.prog, q.vers, q.proc, show(&q.args))));
            c.send(&q.bytes());
            if chance(1, 3) {
                exec::run_steps(3)
            }
        }
        reset_peak();
        let base = live_bytes();
        exec::settle();
        ensure!(peak_bytes() - base < 1 << 20, "memory", "a few small calls made the server allocate {} bytes", peak_bytes() - base);
        let got = c.replies()?;
        for (xid, r) in got {
            let Some((w, what)) = want.remove(&xid) else { fail!("stray-reply", "{t:?}: reply {r:?} with transaction id {xid}, which is not that of an unanswered call") };
            let ok = match (&w, &r) {
                (Want::Exactly(x), r) => x == r,
                (Want::AnyAuth, Reply::Auth(s)) => *s != 0,
                (Want::AnySuccess, Reply::Success(_)) => true,
                (Want::Garbage, Reply::Garbage) => true,
                // undecodable names may also be answered as unknown ones
                (Want::Garbage, Reply::Success(b)) => b.len() == 16 && b[..4] == [0, 0, 0, 21],
                _ => false,
            };
            ensure!(ok, "reply", "{t:?}: {what}: answered {r:?}, expected {w:?}");
        }
        for (xid, (w, what)) in &want {
            ensure!(matches!(w, Want::Nothing), "no-reply", "{t:?}: call {xid} ({what}) got no reply, expected {w:?}; connection gone: {}", c.gone());
        }
        let ev = e.devs[0].log.take_effects();
        ensure!(ev.len() == effects, "undecodable-effect", "the device saw {ev:?}; {effects} valid requests were sent");
        if broke && c.gone() {
            break 'rounds;
        }
        ensure!(!c.gone(), "hangup", "{t:?}: the server closed the connection");
    }
    // everything still works
    for t2 in [t, Target::MapUdp, Target::Core] {
        let mut c = open_target(t2, &e)?;
        c.send(&Call::new(77, t2.prog().0, t2.prog().1, 0, &[]).bytes());
        exec::settle();
        let r = c.replies()?;
        ensure!(r == vec![(77, Reply::Success(vec![]))], "dead", "after the exchange {t2:?} answers a null call with {r:?}");
    }
    if odd > 0 {
        nontrivial()
    }
    Ok(())
}
/// A record that never completes is never acted upon, whatever its fragments.
fn truncated() -> CaseResult {
    exec::init(policy());
    let e = env(1);
    let mut c = conn(e.core)?;
    c.p.set_chunking(chunking(), chunking());
    let lid = open(&mut c, "inst0")?;
    let huge = chance(1, 6);
    let data = bytes(size(300, &[4, 128]) as usize);
    let proc = pick(&[WRITE, TRIGGER, CLEAR, REMOTE]);
    let a = if proc == WRITE { a_write(lid, END, 0, &data) } else { a_gen(lid, 0, 0) };
    let m = Call::new(5, CORE, 1, proc, &a.0).bytes();
    let mut full = vec![];
    let mut at = 0;
    for _ in 0..choose(4) {
        let n = choose((m.len() - at) as u64 + 1) as usize;
        full.extend((n as u32).to_be_bytes());
        full.extend(&m[at..at + n]);
        at += n;
    }
    let last = full.len();
    if huge {
        full.extend((pick(&[0xffff_ffffu32, 0x7fff_ffff, 0x8010_0001, 0x4000_0000])).to_be_bytes());
        full.extend(&m[at..]);
        full.extend(bytes(choose(100) as usize));
    } else {
        full.extend((0x8000_0000u32 | (m.len() - at) as u32).to_be_bytes());
        full.extend(&m[at..]);
    }
    let cut = if huge { full.len() } else { choose(full.len() as u64) as usize };
    note(|| format!("procedure {proc}, {} of {} bytes sent, last fragment at {last}, oversized {huge}", cut, full.len()));
    reset_peak();
    let base = live_bytes();
    let mut p = 0;
    while p < cut {
        let n = range(1, (cut - p) as u64) as usize;
        c.p.write(&full[p..p + n]);
        p += n;
        exec::settle();
    }
    ensure!(c.replies()?.is_empty(), "early", "answered before the record was complete");
    c.p.shutdown_write();
    exec::settle();
    ensure!(c.replies()?.is_empty(), "early", "an incomplete record was answered");
    ensure!(peak_bytes() - base < 4 << 20, "memory", "{} bytes allocated for an incomplete record", peak_bytes() - base);
    let ev = e.devs[0].log.take_effects();
    ensure!(ev.is_empty(), "truncated-executed", "an incomplete record was executed: {ev:?}");
    ensure!(c.p.gone(), "leak", "the server keeps a connection that has ended");
    let _ = Ev::Clear;
    if cut > last {
        nontrivial()
    }
    Ok(())
}

/// A message in endlessly many fragments does not fill the memory.
fn fragments() -> CaseResult {
    exec::init(policy());
    let e = env(1);
    start_map();
    let t = pick(&[Target::Core, Target::Core, Target::Async, Target::MapTcp]);
    let mut c = open_target(t, &e)?;
    c.conn.as_ref().unwrap().p.set_chunking(Default::default(), Default::default());
    let mut sent = 0;
    let body = vec![0u8; 700 << 10];
    let head = Call::new(5, t.prog().0, t.prog().1, pick(t.procs()), &[]).bytes();
    let style = choose(6);
    // a length that is small in its low bits, and is then made good
    let liar = pick(&[0x0100_0010u32, 0x0100_0000, 0x4000_0100, 0x7f00_0040, 0x1_0000 + (16 << 20), 0x7fff_ffff]);
    reset_peak();
    let base = live_bytes();
    let mut n = 0;
    while sent < 12 << 20 && n < 2000 && !c.gone() {
        n += 1;
        let len = match style {
            0 => range(1, 700 << 10),
            1 => pick(&[0, 1, 4, 65_536, 300_000]),
            2 => pick(&[512 << 10, 524_287]),
            4 | 5 => 650_000,
            _ => 100_000,
        } as usize;
        let p = &c.conn.as_ref().unwrap().p;
        if style < 4 {
            p.write(&(len as u32).to_be_bytes());
        } else if n == 1 {
            p.write(&(if style == 4 { liar } else { liar | 0x8000_0000 }).to_be_bytes());
        }
        if n == 1 {
            let k = len.min(head.len());
            p.write(&head[..k]);
            p.write(&body[k..len]);
        } else {
            p.write(&body[..len]);
        }
        sent += len;
        exec::settle();
    }
    note(|| format!("{t:?}: {n} fragments, {sent} bytes, connection closed: {}", c.gone()));
    ensure!(peak_bytes() - base < 6 << 20, "memory", "{} bytes allocated for one unfinished message", peak_bytes() - base);
    ensure!(c.gone() || c.replies()?.is_empty(), "early", "answered before the record was complete");
    ensure!(e.devs[0].log.take_effects().is_empty(), "truncated-executed", "an incomplete record was executed");
    drop(c);
    for t2 in [t, Target::Core] {
        let mut c = open_target(t2, &e)?;
        c.send(&Call::new(77, t2.prog().0, t2.prog().1, 0, &[]).bytes());
        exec::settle();
        let r = c.replies()?;
        ensure!(r == vec![(77, Reply::Success(vec![]))], "dead", "after the exchange {t2:?} answers a null call with {r:?}");
    }
    if sent > 2 << 20 || n > 20 || style > 3 {
        nontrivial()
    }
    Ok(())
}

// ------------------------------------------------------------------ C26
/// A number, or one that is the same in its low bits.
fn alike(v: u32) -> u32 {
    if chance(1, 6) {
        v.wrapping_add(pick(&[0x100, 0x1_0000, 0x100_0000, 0x8000_0000]))
    } else {
        v
    }
}
fn portmap() -> CaseResult {
    exec::init(policy());
    let n = if chance(1, 40) { 300 } else { pick(&[0usize, 1, 2, 3, 5, 16, 40]) };
    let progs = [CORE, ASYNC, 100000, 1, u32::MAX];
    let maps: Vec<(u32, u32, u32, u32)> =
        (0..n).map(|_| (if n > 16 { word() } else { pick(&progs) }, alike(range(1, 3) as u32), pick(&[6, 17]), pick(&[0u32, 1, 111, 4322, 65535, 1023]))).collect();
    fn start<const N: usize>(m: &[(u32, u32, u32, u32)], bind: bool) {
        let a: [Mapping; N] = core::array::from_fn(|i| Mapping::new(m[i].0, m[i].1, m[i].2, m[i].3));
        let s = StaticPortMap::new(a);
        if bind {
            exec::spawn_named("portmap", s.bind("127.0.0.1:111"));
        } else {
            let l = async_std::net::TcpListener::sim_bind(([127, 0, 0, 1], 111).into()).unwrap();
            let u = async_std::net::UdpSocket::sim_bind(([127, 0, 0, 1], 111).into()).unwrap();
            exec::spawn_named("portmap tcp", s.clone().serve_tcp(l));
            exec::spawn_named("portmap udp", s.serve_udp(u));
        }
    }
    let bind = choose(2) == 0;
    match n {
        0 => start::<0>(&maps, bind),
        1 => start::<1>(&maps, bind),
        2 => start::<2>(&maps, bind),
        3 => start::<3>(&maps, bind),
        5 => start::<5>(&maps, bind),
        16 => start::<16>(&maps, bind),
        40 => start::<40>(&maps, bind),
        _ => start::<300>(&maps, bind),
    }
    exec::settle();
    note(|| format!("mappings {maps:?}"));
    let mut conns: Vec<Link> = vec![];
    for i in 0..range(1, 3) {
        conns.push(if choose(2) == 0 {
            Link { conn: Some(conn(111)?), udp: None, port: 111 }
        } else {
            Link { conn: None, udp: Some(net::harness_udp(21000 + i as u16)), port: 111 }
        });
    }
    let mut hits = 0;
    for k in 0..range(2, 12) {
        // a reply that cannot be sent is lost, and no more than that
        if chance(1, 8) {
            let errs = range(1, 3);
            for _ in 0..errs {
                net::udp_send_error(111, pick(&[101, 105, 111, 113, 1, 90, 4]));
            }
            let u = net::harness_udp(22000);
            for _ in 0..errs {
                u.send(&Call::new(1, PMAP, 2, 0, &[]).bytes(), SocketAddr::from(([127, 0, 0, 1], 111)));
                exec::settle();
            }
            note(|| format!("round {k}: {errs} replies cannot be sent"));
            let n = u.received().len();
            ensure!(n == 0, "harness", "{n} replies in spite of the errors");
        }
        // several clients at once
        let mut sent = vec![];
        for (i, c) in conns.iter().enumerate() {
            let xid = word();
            let (proc, args, want) = match weighted(&[6, 2, 1, 1]) {
                0 => {
                    let q = if !maps.is_empty() && choose(3) > 0 {
                        let mut q = pick(&maps);
                        match choose(12) {
                            0 => q.0 ^= 1,
                            1 => q.1 = q.1.wrapping_add(1),
                            2 => q.2 = 23 - q.2,
                            3 => q.0 = alike(q.0),
                            4 => q.1 = alike(q.1),
                            5 => q.2 = alike(q.2),
                            _ => {}
                        }
                        q
                    } else {
                        (pick(&progs), range(0, 4) as u32, pick(&[6, 17, 0, 1]), 0)
                    };
                    let port = maps.iter().find(|m| (m.0, m.1, m.2) == (q.0, q.1, q.2)).map_or(0, |m| m.3);
                    if port != 0 {
                        hits += 1
                    }
                    (3, X::new().u(q.0).u(q.1).u(q.2).u(word()), Reply::Success(X::new().u(port).0))
                }
                1 => {
                    let mut w = X::new();
                    for m in &maps {
                        w = w.b(true).u(m.0).u(m.1).u(m.2).u(m.3);
                    }
                    (4, X::new(), Reply::Success(w.b(false).0))
                }
                2 => (0, X::new(), Reply::Success(vec![])),
                _ => {
                    let p = pick(&[1u32, 2, 5]);
                    let a = X::new().u(CORE).u(1).u(6).u(99);
                    (p, if p == 5 { X::new().u(CORE).u(1).u(0).o(b"") } else { a }, Reply::ProcUnavail)
                }
            };
            note(|| format!("round {k}: client {i} procedure {proc} args {} -> expecting {want:?}", show(&args.0)));
            c.send(&Call::new(xid, PMAP, 2, proc, &args.0).bytes());
            sent.push((xid, proc, want));
            if choose(2) == 0 {
                exec::run_steps(2)
            }
        }
        exec::settle();
        for (i, c) in conns.iter_mut().enumerate() {
            let got = c.replies()?;
            let (xid, proc, want) = &sent[i];
            ensure!(got == vec![(*xid, want.clone())], "answer", "client {i}, procedure {proc}: got {got:?}, expected {want:?} to {xid}; mappings {maps:?}");
        }
    }
    if hits > 0 {
        nontrivial()
    }
    Ok(())
}

// ------------------------------------------------------------------ C27
/// A value of one of the XDR types a procedure called indirectly may take or return.
#[derive(Clone, Debug)]
enum Val {
    Unit,
    Int(i32),
    Short(i16),
    Word(u32),
    Hyper(i64),
    UHyper(u64),
    Flag(bool),
    Double(f64),
    Text(String),
    Triple([u32; 3]),
    Array(Vec<u16>),
    Maybe(Option<i8>),
}
const KINDS: u64 = 12;
fn val(kind: u64, room: usize) -> Val {
    match kind {
        0 => Val::Unit,
        1 => Val::Int(word() as i32),
        2 => Val::Short(word() as i16),
        3 => Val::Word(word()),
        4 => Val::Hyper((word() as i64) << 32 | word() as i64),
        5 => Val::UHyper((word() as u64) << 32 | word() as u64),
        6 => Val::Flag(choose(2) == 1),
        7 => Val::Double(f64::from_bits((word() as u64) << 32 | word() as u64)),
        8 => {
            let n = size(room as u64, &[3, 4, 255, 400, 1024, 65_536]).min(room as u64) as usize;
            let mut t: String = if n > 600 {
                let c = pick(&['a', '\u{e9}', '\0']);
                std::iter::repeat_n(c, n / c.len_utf8()).collect()
            } else {
                let mut t = String::new();
                while t.len() < n {
                    t.push(pick(&['a', 'z', '\0', ' ', '\u{e9}', '\u{20ac}', '\u{1f600}']));
                }
                t
            };
            while t.len() > room {
                t.pop();
            }
            Val::Text(t)
        }
        9 => Val::Triple([word(), word(), word()]),
        10 => Val::Array((0..size((room as u64 / 4).min(300), &[16, 255, 256])).map(|_| word() as u16).take(room / 4).collect()),
        _ => Val::Maybe(if choose(2) == 0 { None } else { Some(word() as i8) }),
    }
}
impl Val {
    fn enc(&self) -> Vec<u8> {
        let x = X::new();
        match self {
            Val::Unit => x.0,
            Val::Int(v) => x.u(*v as u32).0,
            Val::Short(v) => x.u(*v as i32 as u32).0,
            Val::Word(v) => x.u(*v).0,
            Val::Hyper(v) => v.to_be_bytes().to_vec(),
            Val::UHyper(v) => v.to_be_bytes().to_vec(),
            Val::Flag(v) => x.b(*v).0,
            Val::Double(v) => v.to_bits().to_be_bytes().to_vec(),
            Val::Text(t) => x.o(t.as_bytes()).0,
            Val::Triple(v) => x.u(v[0]).u(v[1]).u(v[2]).0,
            Val::Array(v) => v.iter().fold(x.u(v.len() as u32), |x, e| x.u(*e as u32)).0,
            Val::Maybe(None) => x.b(false).0,
            Val::Maybe(Some(v)) => x.b(true).u(*v as i32 as u32).0,
        }
    }
}
macro_rules! call_ret {
    ($c:expr, $r:expr, $p:expr, $a:expr) => {{
        let (p, q, n) = $p;
        match $r {
            0 => $c.callit::<_, ()>(p, q, n, $a).await.map(|_| Val::Unit),
            1 => $c.callit::<_, i32>(p, q, n, $a).await.map(Val::Int),
            2 => $c.callit::<_, i16>(p, q, n, $a).await.map(Val::Short),
            3 => $c.callit::<_, u32>(p, q, n, $a).await.map(Val::Word),
            4 => $c.callit::<_, i64>(p, q, n, $a).await.map(Val::Hyper),
            5 => $c.callit::<_, u64>(p, q, n, $a).await.map(Val::UHyper),
            6 => $c.callit::<_, bool>(p, q, n, $a).await.map(Val::Flag),
            7 => $c.callit::<_, f64>(p, q, n, $a).await.map(Val::Double),
            8 => $c.callit::<_, String>(p, q, n, $a).await.map(Val::Text),
            9 => $c.callit::<_, [u32; 3]>(p, q, n, $a).await.map(Val::Triple),
            10 => $c.callit::<_, Vec<u16>>(p, q, n, $a).await.map(Val::Array),
            _ => $c.callit::<_, Option<i8>>(p, q, n, $a).await.map(Val::Maybe),
        }
        .map(|v| Out::Val(v.enc()))
    }};
}
macro_rules! call_any {
    ($c:expr, $v:expr, $r:expr, $p:expr) => {
        match $v {
            Val::Unit => call_ret!($c, $r, $p, ()),
            Val::Int(a) => call_ret!($c, $r, $p, a),
            Val::Short(a) => call_ret!($c, $r, $p, a),
            Val::Word(a) => call_ret!($c, $r, $p, a),
            Val::Hyper(a) => call_ret!($c, $r, $p, a),
            Val::UHyper(a) => call_ret!($c, $r, $p, a),
            Val::Flag(a) => call_ret!($c, $r, $p, a),
            Val::Double(a) => call_ret!($c, $r, $p, a),
            Val::Text(a) => call_ret!($c, $r, $p, a),
            Val::Triple(a) => call_ret!($c, $r, $p, a),
            Val::Array(a) => call_ret!($c, $r, $p, a),
            Val::Maybe(a) => call_ret!($c, $r, $p, a),
        }
    };
}
#[derive(Clone, Debug)]
enum Op {
    Null,
    Set(Mapping),
    Unset(Mapping),
    Getport(Mapping),
    Register(Mapping),
    /// program, version, procedure, its arguments, the kind of its result
    Callit(u32, u32, u32, Val, u64),
}
#[derive(Debug, Clone, PartialEq)]
enum Out {
    Unit,
    Bool(bool),
    Num(u32),
    Val(Vec<u8>),
    Err(String),
    Timeout,
}
fn kind(e: impl std::fmt::Debug) -> String {
    let s = format!("{e:?}");
    let k: String = s.chars().take_while(|c| c.is_ascii_alphanumeric()).collect();
    match k.as_str() {
        "ProgMissmatch" | "RpcMissmatch" | "AuthError" => s,
        _ => k,
    }
}
enum Wire {
    Tcp(Conn),
    Udp(net::HarnessUdp, SocketAddr),
}
impl Wire {
    pub fn send(&self, m: &[u8]) {
        match self {
            Wire::Tcp(c) => c.p.write(&record(m)),
            Wire::Udp(u, a) => {
                u.send(m, *a);
            }
        }
    }
}
fn client() -> CaseResult {
    exec::init(policy());
    let udp = choose(2) == 0;
    let mut ops = vec![];
    for _ in 0..range(1, 6) {
        let m = Mapping::new(word(), word(), pick(&[6, 17]), choose(65536) as u32);
        let op = match choose(6) {
            0 => Op::Null,
            1 => Op::Set(m),
            2 => Op::Unset(m),
            3 => Op::Getport(m),
            4 => Op::Register(m),
            _ => Op::Callit(m.prog, m.vers, word(), val(choose(KINDS), if udp { 1400 } else { 200_000 }), choose(KINDS)),
        };
        ops.push((op, chance(1, 4)));
    }
    let res: Rc<RefCell<Vec<Out>>> = Rc::default();
    let (r2, o2) = (res.clone(), ops.clone());
    // a portmapper on this machine or another one, on either version of IP
    let addr: SocketAddr = pick(&["127.0.0.1:111", "192.0.2.77:111", "[::1]:111", "[2001:db8::77]:111", "10.20.30.40:11111"]).parse().unwrap();
    // some of its addresses cannot be used
    let mut addrs = vec![];
    if chance(1, 4) {
        for _ in 0..range(1, 3) {
            let a: SocketAddr = pick(&["192.0.2.200:111", "[2001:db8::200]:111"]).parse().unwrap();
            net::unreachable(a.ip());
            addrs.push(a);
        }
    }
    addrs.push(addr);
    note(|| format!("portmapper {addrs:?}, udp {udp}"));
    let hu = udp.then(|| net::harness_udp_at(addr.ip(), addr.port()));
    let lt = (!udp).then(|| net::listen(addr.port()));
    let task = exec::spawn_named("client", async move {
        let c = if udp { PortMapperClient::connect_udp(&addrs[..]).await } else { PortMapperClient::connect_tcp(&addrs[..]).await };
        let mut c = match c {
            Ok(c) => c,
            Err(e) => {
                r2.borrow_mut().push(Out::Err(format!("connect {e}")));
                return;
            }
        };
        for (op, timed) in o2 {
            let f = async {
                match op {
                    Op::Null => c.null().await.map(|_| Out::Unit),
                    Op::Set(m) => c.set(m).await.map(Out::Bool),
                    Op::Unset(m) => c.unset(m).await.map(Out::Bool),
                    Op::Getport(m) => c.getport(m).await.map(|p| Out::Num(p as u32)),
                    Op::Register(m) => c.register(m).await.map(|_| Out::Unit),
                    Op::Callit(a, b, p, x, r) => call_any!(c, x, r, (a, b, p)),
                }
            };
            let out = if timed {
                match simrt::time::timeout(Duration::from_millis(100), f).await {
                    Some(r) => r.unwrap_or_else(|e| Out::Err(kind(e))),
                    None => Out::Timeout,
                }
            } else {
                f.await.unwrap_or_else(|e| Out::Err(kind(e)))
            };
            r2.borrow_mut().push(out);
        }
    });
    exec::settle();
    if let Some(Out::Err(e)) = res.borrow().first() {
        ensure!(!e.starts_with("connect"), "connect", "the client cannot be used with a portmapper at {addr}, udp {udp}: {e}");
    }
    let mut wire = if udp {
        Wire::Udp(hu.unwrap(), ([127, 0, 0, 1], 0).into())
    } else {
        let p: Option<Peer> = lt.as_ref().unwrap().accept();
        ensure!(p.is_some(), "connect", "the client does not connect");
        let p = p.unwrap();
        p.set_chunking(chunking(), chunking());
        Wire::Tcp(Conn::new(p))
    };
    let mut xids: Vec<u32> = vec![];
    let mut stale: Vec<(u32, Vec<u8>)> = vec![]; // unanswered calls, and their replies
    let mut odd = 0;
    let mut inbox: Vec<Call> = vec![];
    let body = |proc: u32, op: &Op| -> (Vec<u8>, Out) {
        match proc {
            0 => (vec![], Out::Unit),
            1 | 2 => {
                let v = choose(2) == 1;
                (X::new().b(v).0, Out::Bool(v))
            }
            3 => {
                let v = choose(65536) as u32;
                (X::new().u(v).0, Out::Num(v))
            }
            _ => {
                let Op::Callit(.., r) = op else { unreachable!() };
                let v = val(*r, if udp { 900 } else { 200_000 }).enc();
                // sometimes less than the result should be
                let n = if chance(1, 8) { choose(v.len() as u64 + 1) as usize } else { v.len() };
                let out = if n < v.len() { Out::Err("Io".into()) } else { Out::Val(v.clone()) };
                (X::new().u(choose(65536) as u32).o(&v[..n]).0, out)
            }
        }
    };
    let mut hung_up = false;
    for (i, (op, timed)) in ops.iter().enumerate() {
        // the requests this operation makes, in order
        let m4 = |m: &Mapping| X::new().u(m.prog).u(m.vers).u(m.prot).u(m.port).0;
        let reqs: Vec<(u32, Vec<u8>)> = match op {
            Op::Null => vec![(0, vec![])],
            Op::Set(m) => vec![(1, m4(m))],
            Op::Unset(m) => vec![(2, m4(m))],
            Op::Getport(m) => vec![(3, m4(m))],
            Op::Register(m) => vec![(2, m4(m)), (1, m4(m))],
            Op::Callit(a, b, p, x, _) => vec![(5, X::new().u(*a).u(*b).u(*p).o(&x.enc()).0)],
        };
        let mut allowed: Vec<Out> = vec![];
        let mut exact: Option<Out> = None;
        for (ri, (proc, args)) in reqs.iter().enumerate() {
            exec::settle();
            if res.borrow().len() > i {
                break;
            }
            // fetch the request
            match &mut wire {
                Wire::Tcp(c) => {
                    let d = c.p.read();
                    c.rx.extend(d);
                    for m in records(&mut c.rx) {
                        let Some(q) = Call::parse(&m) else { fail!("request", "malformed call {}", show(&m)) };
                        inbox.push(q);
                    }
                }
                Wire::Udp(u, a) => {
                    for (d, from) in u.received() {
                        *a = from;
                        let Some(q) = Call::parse(&d) else { fail!("request", "malformed call {}", show(&d)) };
                        inbox.push(q);
                    }
                }
            }
            if hung_up && inbox.is_empty() {
                allowed.push(Out::Err("Io".into()));
                break;
            }
            ensure!(inbox.len() == 1, "request", "{op:?}: {} calls sent, expected one for procedure {proc}", inbox.len());
            let q = inbox.remove(0);
            ensure!((q.rpcvers, q.prog, q.vers, q.proc) == (2, PMAP, 2, *proc) && q.args == *args && q.cred == (0, vec![]) && q.verf == (0, vec![]), "request", "{op:?}: call to {}/{}/{} with {}, expected procedure {proc} with {}", q.prog, q.vers, q.proc, show(&q.args), show(args));
            ensure!(!xids.contains(&q.xid), "xid", "transaction id {} used again", q.xid);
            xids.push(q.xid);
            // replies to earlier calls come late
            if !stale.is_empty() && choose(2) == 0 {
                let (x, b) = stale.remove(0);
                wire.send(&reply_ok(x, &b));
                odd += 1;
                note(|| "a late reply to an earlier call arrives".to_string());
                exec::settle();
                ensure!(res.borrow().len() == i, "stale", "{op:?} took the reply to an earlier call: {:?}", res.borrow().last());
            }
            let (good, val) = body(*proc, op);
            let reply = reply_ok(q.xid, &good);
            match weighted(&[6, 2, 2, 2, 1, 1, 1]) {
                1 if *timed => {
                    // too late
                    note(|| format!("{op:?}: no reply in time"));
                    stale.push((q.xid, good.clone()));
                    allowed.push(Out::Timeout);
                    // no further than needed: the next operation's time runs from here
                    for _ in 0..40 {
                        if res.borrow().len() > i {
                            break;
                        }
                        exec::advance(5);
                    }
                    break;
                }
                2 => {
                    // error replies
                    let x = X::new().u(q.xid).u(1);
                    let (m, k) = match choose(7) {
                        0 => (x.u(0).u(0).o(&[]).u(1), "ProgUnavail".to_string()),
                        1 => (x.u(0).u(0).o(&[]).u(2).u(3).u(9), "ProgMissmatch(MissmatchInfo { low: 3, high: 9 })".into()),
                        2 => (x.u(0).u(0).o(&[]).u(3), "ProcUnavail".into()),
                        3 => (x.u(0).u(0).o(&[]).u(4), "GarbageArgs".into()),
                        4 => (x.u(0).u(0).o(&[]).u(5), "SystemErr".into()),
                        5 => (x.u(1).u(0).u(2).u(2), "RpcMissmatch(MissmatchInfo { low: 2, high: 2 })".into()),
                        _ => (x.u(1).u(1).u(5), "AuthError(TooWeak)".into()),
                    };
                    note(|| format!("{op:?}: error reply {k}"));
                    wire.send(&m.0);
                    exact = Some(Out::Err(k));
                    odd += 1;
                    break;
                }
                3 => {
                    // damaged reply, then the right one
                    let k = choose(3);
                    let m = match k {
                        0 => reply[..choose(reply.len() as u64) as usize].to_vec(),
                        1 => Call::new(q.xid, PMAP, 2, 3, &[0; 16]).bytes(),
                        _ => reply_ok(q.xid.wrapping_add(pick(&[1, 7, 0x8000_0000])), &body(*proc, op).0),
                    };
                    note(|| format!("{op:?}: {} comes first", ["a truncated reply", "a call", "a reply to another call"][k as usize]));
                    wire.send(&m);
                    exec::settle();
                    odd += 1;
                    if k == 2 {
                        ensure!(res.borrow().len() == i, "foreign-reply", "{op:?} took a reply with another transaction id: {:?}", res.borrow().last());
                    }
                    if res.borrow().len() > i {
                        allowed.push(Out::Err("Io".into()));
                        allowed.push(Out::Err("SystemErr".into()));
                        allowed.push(Out::Err("GarbageArgs".into()));
                        break;
                    }
                    wire.send(&reply);
                }
                4 if !udp => {
                    note(|| format!("{op:?}: the portmapper closes the connection"));
                    if let Wire::Tcp(c) = &mut wire {
                        c.p.write(&reply[..choose(3) as usize]);
                        c.p.close();
                    }
                    hung_up = true;
                    allowed.push(Out::Err("Io".into()));
                    odd += 1;
                    break;
                }
                _ => wire.send(&reply),
            }
            // the right reply
            match (op, ri, &val) {
                (Op::Register(_), 0, Out::Bool(false)) => {
                    // nothing was mapped: whether that stops the registration is not determined
                    exec::settle();
                    if res.borrow().len() > i {
                        exact = Some(Out::Err("Portmap".into()));
                        break;
                    }
                }
                (Op::Register(_), 0, _) => {}
                (Op::Register(_), _, Out::Bool(v)) => exact = Some(if *v { Out::Unit } else { Out::Err("Portmap".into()) }),
                _ => exact = Some(val),
            }
        }
        exec::settle();
        let r = res.borrow().get(i).cloned();
        note(|| format!("{op:?} -> {r:?}"));
        let Some(r) = r else { fail!("stuck", "{op:?} does not return although it was answered") };
        match exact {
            Some(x) => ensure!(r == x, "result", "{op:?} returned {r:?}, the portmapper's answer was {x:?}"),
            None => ensure!(allowed.contains(&r), "result", "{op:?} returned {r:?}, possible are {allowed:?}"),
        }
        if hung_up {
            break;
        }
    }
    drop(task);
    if odd > 0 {
        nontrivial()
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    let a: &[&str] = &["virtual sockets and clock stand in for the operating system's"];
    vec![
        Prop {
            id: "C25",
            rule: "dispatch: batches of 1-4 calls, random fragmentation, to the core, abort, and portmapper (TCP, UDP) services: valid, wrong program/version/procedure/RPC version, foreign authentication, every truncation of the arguments, lengths that promise too much, numbers equal to valid ones in their low bits, junk and replies, UDP replies that cannot be sent; non-trivial: at least one call that is not plainly valid. truncated: records cut anywhere or announcing too much; non-trivial: cut inside the last fragment. fragments: a message in very many fragments without a last one, or a fragment announcing 16 MB and more and then sending it, all services; non-trivial: more than 2 MB or more than 20 fragments accepted, or an excessive announcement. long: a drawn cycle of calls of every verdict on one connection repeated 240 to 66100 times, every answer checked; non-trivial: every case",
            assumptions: a,
            parts: vec![
                Part { name: "dispatch", quick: 350_000, thorough: 6_000_000, run: dispatch },
                Part { name: "truncated", quick: 120_000, thorough: 2_400_000, run: truncated },
                Part { name: "fragments", quick: 1_200, thorough: 24_000, run: fragments },
                Part { name: "long", quick: 800, thorough: 24_000, run: crate::v_long::calls },
                Part { name: "visits", quick: 800, thorough: 24_000, run: crate::v_long::visits },
            ],
        },
        Prop {
            id: "C26",
            rule: "0-300 random mappings with clashes and look-alikes, 1-3 TCP and UDP clients asking concurrently for registered, similar and unknown services, dumps, null and unsupported calls, UDP replies that cannot be sent; non-trivial: at least one registered service was asked for. long: a drawn cycle of lookups by one client repeated 240 to 66100 times, every answer checked; non-trivial: every case",
            assumptions: a,
            parts: vec![Part { name: "portmap", quick: 300_000, thorough: 6_000_000, run: portmap }, Part { name: "long", quick: 800, thorough: 24_000, run: crate::v_long::lookups }],
        },
        Prop {
            id: "C27",
            rule: "1-6 client operations over TCP or UDP, indirect calls with arguments and results of 12 types and up to 65 kB, portmappers of which the first addresses cannot be reached, against a scripted portmapper: right answers, all error replies, late replies to timed-out calls, replies with other transaction ids, truncated replies, calls instead of replies, hang-ups; non-trivial: at least one of those oddities. long: a drawn cycle of operations of one client repeated 240 to 66100 times, every answer checked; non-trivial: every case",
            assumptions: a,
            parts: vec![Part { name: "client", quick: 500_000, thorough: 8_000_000, run: client }, Part { name: "long", quick: 800, thorough: 24_000, run: crate::v_long::client }],
        },
    ]
}
