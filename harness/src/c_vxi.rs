//! C20-C24, C28: the VXI-11 instrument server.
use crate::net_util::policy;
use crate::dev::{respond, Ev, Log};
use crate::engine::*;
use crate::rpc::*;
use lxi_device::lock::{LockHandle, Mutex as DevMutex, MutexGuard, SharedLock, SharedLockError, SpinMutex};
use lxi_device::status::Sender as StatusSender;
use lxi_device::DeviceError;
use lxi_vxi11::server::vxi11::prelude::*;
use simrt::exec;
use simrt::net::{self, Chunking};
use std::net::{Ipv4Addr, SocketAddr};
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::sync::Arc;

pub const CORE: u32 = 0x0607AF;
pub const ASYNC: u32 = 0x0607B0;
pub const INTR: u32 = 0x0607B1;
pub const CREATE_LINK: u32 = 10;
pub const WRITE: u32 = 11;
pub const READ: u32 = 12;
pub const READSTB: u32 = 13;
pub const TRIGGER: u32 = 14;
pub const CLEAR: u32 = 15;
pub const REMOTE: u32 = 16;
pub const LOCAL: u32 = 17;
pub const LOCK: u32 = 18;
pub const UNLOCK: u32 = 19;
pub const ENABLE_SRQ: u32 = 20;
pub const DOCMD: u32 = 22;
pub const DESTROY_LINK: u32 = 23;
pub const CREATE_INTR: u32 = 25;
pub const DESTROY_INTR: u32 = 26;
pub const WAIT: u32 = 1;
pub const END: u32 = 8;
pub const TERM: u32 = 0x80;

type D = crate::dev::Mock;
pub struct Dev {
    pub name: String,
    pub log: Log,
    pub shared: Arc<SpinMutex<SharedLock>>,
    pub device: Arc<DevMutex<D>>,
}
pub struct Env {
    pub devs: Vec<Dev>,
    pub status: StatusSender,
    pub core: u16,
    pub asy: u16,
}
pub fn env(n: usize) -> Env {
    let names = ["inst0", "gpib0,1", "", "inst1"];
    let devs: Vec<Dev> = (0..n)
        .map(|i| {
            let log = Log::new();
            Dev { name: names[i].into(), shared: SharedLock::new(), device: Arc::new(DevMutex::new(log.dev())), log }
        })
        .collect();
    let status = StatusSender::new();
    let (core, asy) = (4322, range(4323, 4330) as u16);
    let mut b = VxiServerBuilder::new().core_port(core).async_port(asy);
    for d in &devs {
        b = b.device(d.name.clone(), d.device.clone(), d.shared.clone());
    }
    let (c, a) = b.build(status.clone());
    let lc = async_std::net::TcpListener::sim_bind(([127, 0, 0, 1], core).into()).unwrap();
    let la = async_std::net::TcpListener::sim_bind(([127, 0, 0, 1], asy).into()).unwrap();
    exec::spawn_named("core server", c.serve(lc));
    exec::spawn_named("async server", a.serve(la));
    exec::settle();
    Env { devs, status, core, asy }
}
pub fn conn(port: u16) -> Result<Conn, Fail> {
    let p = net::connect(port).ok_or_else(|| failure("not-listening", format!("nothing listens on port {port}")))?;
    p.set_chunking(pick(&[Chunking::Whole, Chunking::Random, Chunking::Single]), pick(&[Chunking::Whole, Chunking::Random]));
    exec::settle();
    Ok(Conn::new(p))
}
/// Request flags that mean nothing to the request at hand.
fn noise(proc: u32) -> u32 {
    (if proc != WRITE { pick(&[0, END]) } else { 0 }) | (if proc != READ { pick(&[0, TERM]) } else { 0 })
}
pub fn a_create(name: &str, lock: bool, timeout: u32) -> X {
    X::new().u(word()).b(lock).u(timeout).o(name.as_bytes())
}
pub fn a_write(lid: u32, flags: u32, lock_to: u32, data: &[u8]) -> X {
    X::new().u(lid).u(word()).u(lock_to).u(flags).o(data)
}
pub fn a_read(lid: u32, size: u32, flags: u32, lock_to: u32, term: u8) -> X {
    X::new().u(lid).u(size).u(word()).u(lock_to).u(flags).u(term as u32)
}
pub fn a_gen(lid: u32, flags: u32, lock_to: u32) -> X {
    X::new().u(lid).u(flags).u(lock_to).u(word())
}
pub fn a_lock(lid: u32, flags: u32, lock_to: u32) -> X {
    X::new().u(lid).u(flags).u(lock_to)
}
pub fn a_srq(lid: u32, enable: bool, handle: &[u8]) -> X {
    X::new().u(lid).b(enable).o(handle)
}
pub fn a_docmd(lid: u32) -> X {
    X::new().u(lid).u(0).u(0).u(0).u(0x20000).b(true).u(1).o(b"ab")
}
pub struct Link {
    pub err: u32,
    pub lid: u32,
    pub abort: u32,
    pub max: u32,
}
pub fn p_create(b: &[u8]) -> Result<Link, Fail> {
    let mut r = Rd::new(b);
    let l = Link { err: r.u(), lid: r.u(), abort: r.u(), max: r.u() };
    ensure!(r.done(), "malformed-reply", "create_link reply {}", show(b));
    Ok(l)
}
/// One-word reply
pub fn p_err(b: &[u8]) -> Result<u32, Fail> {
    let mut r = Rd::new(b);
    let e = r.u();
    ensure!(r.done(), "malformed-reply", "expected one error code, got {}", show(b));
    Ok(e)
}
pub fn p_two(b: &[u8]) -> Result<(u32, u32), Fail> {
    let mut r = Rd::new(b);
    let v = (r.u(), r.u());
    ensure!(r.done(), "malformed-reply", "expected two words, got {}", show(b));
    Ok(v)
}
pub fn p_read(b: &[u8]) -> Result<(u32, u32, Vec<u8>), Fail> {
    let mut r = Rd::new(b);
    let v = (r.u(), r.u(), r.o());
    ensure!(r.done(), "malformed-reply", "read reply {}", show(b));
    Ok(v)
}
/// Error code of any core reply that carries one, checking its shape.
pub fn p_any(proc: u32, b: &[u8]) -> Result<u32, Fail> {
    Ok(match proc {
        CREATE_LINK => p_create(b)?.err,
        WRITE | READSTB => p_two(b)?.0,
        READ => p_read(b)?.0,
        DOCMD => {
            let mut r = Rd::new(b);
            let e = r.u();
            r.o();
            ensure!(r.done(), "malformed-reply", "docmd reply {}", show(b));
            e
        }
        _ => p_err(b)?,
    })
}
pub fn open(c: &mut Conn, name: &str) -> Result<u32, Fail> {
    let b = c.call(CORE, 1, CREATE_LINK, a_create(name, false, 0))?;
    let l = p_create(&b)?;
    ensure!(l.err == 0, "create", "create_link({name:?}) failed with {}", l.err);
    Ok(l.lid)
}

// ------------------------------------------------------------------ C20
fn lifecycle() -> CaseResult {
    exec::init(policy());
    let nd = range(1, 3) as usize;
    let mut e = env(nd);
    let mut conns: Vec<Option<Conn>> = vec![Some(conn(e.core)?)];
    // lid -> (connection, device, holds the lock)
    let mut live: BTreeMap<u32, (usize, usize, bool)> = BTreeMap::new();
    let mut dead: Vec<u32> = vec![];
    let (mut stale, mut tag) = (0, 0u32);
    for _ in 0..range(4, 30) {
        let open: Vec<usize> = (0..conns.len()).filter(|i| conns[*i].is_some()).collect();
        let step = weighted(&[5, 2, 12, 3, 2, 2]);
        if open.is_empty() || (step == 5 && conns.len() < 5) {
            if conns.len() >= 8 {
                break;
            }
            conns.push(Some(conn(e.core)?));
            continue;
        }
        let ci = pick(&open);
        // an identifier: of this connection, of another one, dead, or never issued
        let lid = |live: &BTreeMap<u32, (usize, usize, bool)>| -> u32 {
            let own: Vec<u32> = live.iter().filter(|(_, v)| v.0 == ci).map(|(k, _)| *k).collect();
            let other: Vec<u32> = live.iter().filter(|(_, v)| v.0 != ci).map(|(k, _)| *k).collect();
            match weighted(&[6, 2, 3, 1, 2]) {
                // equal to one in use in some bits, or next to it
                4 if !live.is_empty() => {
                    let k: Vec<u32> = live.keys().copied().collect();
                    alike(pick(&k))
                }
                0 if !own.is_empty() => pick(&own),
                1 if !other.is_empty() => pick(&other),
                2 if !dead.is_empty() => pick(&dead),
                _ => loop {
                    let l = pick(&[0u32, 1, 7, 99, u32::MAX, 0x8000_0000]);
                    if !live.contains_key(&l) || live[&l].0 == ci {
                        break l;
                    }
                    if live.contains_key(&0) {
                        break l;
                    }
                    break u32::MAX - 3;
                },
            }
        };
        match step {
            0 => {
                let d = choose(nd as u64 + 1) as usize;
                let name = if d < nd { e.devs[d].name.clone() } else { pick(&["nope", "inst9", "INST0", "inst0 ", " inst0", "inst0\0", "inst", "inst00", "inst0,1", "gpib0", "gpib0,1,", "\0", " "]).to_string() };
                let b = conns[ci].as_mut().unwrap().call(CORE, 1, CREATE_LINK, a_create(&name, false, choose(100) as u32))?;
                let l = p_create(&b)?;
                note(|| format!("connection {ci}: create_link({name:?}) -> error {}, lid {}", l.err, l.lid));
                if d < nd {
                    ensure!(l.err == 0, "create", "create_link({name:?}) failed with error {}", l.err);
                    ensure!(!live.contains_key(&l.lid), "lid-reused", "link identifier {} is already in use", l.lid);
                    ensure!(l.abort == e.asy as u32, "abort-port", "abort port {}, the async server is on {}", l.abort, e.asy);
                    ensure!(l.max >= 1024, "max-recv", "maxRecvSize {}", l.max);
                    live.insert(l.lid, (ci, d, false));
                    dead.retain(|x| *x != l.lid);
                } else {
                    ensure!(l.err == 21 || l.err == 3, "create-unknown", "create_link({name:?}) for a device that does not exist: error {}", l.err);
                }
            }
            1 => {
                let l = lid(&live);
                let b = conns[ci].as_mut().unwrap().call(CORE, 1, DESTROY_LINK, X::new().u(l))?;
                let er = p_err(&b)?;
                note(|| format!("connection {ci}: destroy_link({l}) -> {er}"));
                let valid = live.get(&l).is_some_and(|v| v.0 == ci);
                ensure!(er == if valid { 0 } else { 4 }, "destroy", "destroy_link({l}) -> error {er}; the link is {}", if valid { "open on this connection" } else { "not open on this connection" });
                if valid {
                    live.remove(&l);
                    dead.push(l);
                } else {
                    stale += 1
                }
            }
            2 => {
                let l = lid(&live);
                let proc = pick(&[WRITE, READ, READSTB, TRIGGER, CLEAR, REMOTE, LOCAL, LOCK, UNLOCK, ENABLE_SRQ]);
                tag += 1;
                let flags = pick(&[0, WAIT]) | if proc == WRITE { END } else { 0 } | noise(proc);
                let args = match proc {
                    WRITE => a_write(l, flags, 0, format!("!w{tag}").as_bytes()),
                    READ => a_read(l, 100, flags, 0, 0),
                    LOCK => a_lock(l, flags, 0),
                    UNLOCK => X::new().u(l),
                    ENABLE_SRQ => a_srq(l, choose(2) == 0, b"h"),
                    _ => a_gen(l, flags, 0),
                };
                let b = conns[ci].as_mut().unwrap().call(CORE, 1, proc, args)?;
                let er = p_any(proc, &b)?;
                note(|| format!("connection {ci}: procedure {proc} on link {l} -> {er}"));
                let who = live.get(&l).filter(|v| v.0 == ci).copied();
                ensure!((er == 4) == who.is_none(), "validity", "procedure {proc} on link {l} -> error {er}; the link is {} on this connection", if who.is_some() { "open" } else { "not open" });
                let holder = |d: usize| live.iter().find(|(_, v)| v.1 == d && v.2).map(|(k, _)| *k);
                let mut want: Vec<Vec<Ev>> = vec![vec![]; nd];
                if let Some((_, d, _)) = who {
                    let free = holder(d).map_or(true, |h| h == l);
                    match proc {
                        WRITE if free => want[d].push(Ev::Exec(format!("!w{tag}").into_bytes())),
                        TRIGGER if free => want[d].push(Ev::Trigger("Bus".into())),
                        CLEAR if free => want[d].push(Ev::Clear),
                        REMOTE if free => want[d].push(Ev::Remote(true)),
                        LOCAL if free => want[d].push(Ev::Remote(false)),
                        LOCK if holder(d).is_none() => live.get_mut(&l).unwrap().2 = true,
                        UNLOCK => live.get_mut(&l).unwrap().2 = false,
                        _ => {}
                    }
                } else {
                    stale += 1
                }
                for (i, d) in e.devs.iter().enumerate() {
                    let got = d.log.take_effects();
                    ensure!(got == want[i], "effect", "procedure {proc} on link {l}: device {:?} saw {got:?}, expected {:?}", d.name, want[i]);
                }
            }
            3 => {
                // through the abort channel
                let l = lid(&live);
                let mut a = conn(e.asy)?;
                let b = a.call(ASYNC, 1, 1, X::new().u(l))?;
                let er = p_err(&b)?;
                note(|| format!("abort({l}) -> {er}"));
                let valid = live.contains_key(&l);
                ensure!(er == if valid { 0 } else { 4 }, "abort-validity", "device_abort({l}) -> error {er}; the link is {}", if valid { "open" } else { "not open" });
            }
            _ => {
                let mut c = conns[ci].take().unwrap();
                match choose(3) {
                    0 => c.p.reset(),
                    1 => {
                        c.p.write(&[0x80, 0, 0, 40, 1, 2]);
                        c.p.close()
                    }
                    _ => c.p.close(),
                }
                exec::settle();
                note(|| format!("connection {ci} is gone"));
                let gone: Vec<u32> = live.iter().filter(|(_, v)| v.0 == ci).map(|(k, _)| *k).collect();
                for l in gone {
                    live.remove(&l);
                    dead.push(l);
                }
            }
        }
        let _ = &mut e.status;
        for (i, d) in e.devs.iter().enumerate() {
            let (x, s) = {
                let g = d.shared.lock();
                (g.exclusive_lock(), g.num_shared_locks())
            };
            let h = live.values().any(|v| v.1 == i && v.2);
            ensure!(x == h && s == 0, "lock-released", "device {:?}: exclusive lock {x}, but a live link holds it: {h}", d.name);
        }
    }
    if stale > 0 && live.len() > 1 {
        nontrivial()
    }
    Ok(())
}

pub fn plain(port: u16) -> Result<Conn, Fail> {
    let mut c = conn(port)?;
    c.p.set_chunking(Chunking::Whole, Chunking::Whole);
    c.p.set_out_cap(1 << 24);
    Ok(c)
}
/// An identifier like another one.
fn alike(l: u32) -> u32 {
    match choose(6) {
        0 => l.wrapping_add(1),
        1 => l.wrapping_sub(1),
        2 => l ^ 0x100,
        3 => l ^ 0x1_0000,
        4 => l ^ 0x100_0000,
        _ => l ^ 0x8000_0000,
    }
}
/// Many links at once, on few connections.
fn many() -> CaseResult {
    exec::init(exec::Policy::Fifo);
    let nd = range(1, 3) as usize;
    let e = env(nd);
    let nc = range(1, 3) as usize;
    let mut conns: Vec<Option<Conn>> = vec![];
    for _ in 0..nc {
        conns.push(Some(plain(e.core)?));
    }
    let n = match choose(4) {
        0 => range(3, 20),
        1 => range(20, 140),
        2 => range(250, 300),
        _ => range(3, 520),
    };
    let mut live: BTreeMap<u32, (usize, usize)> = BTreeMap::new();
    let mut dead: BTreeSet<u32> = BTreeSet::new();
    let mut held = vec![None; nd];
    for _ in 0..n {
        let (c, d) = (choose(nc as u64) as usize, choose(nd as u64) as usize);
        let lock = chance(1, 10);
        let l = p_create(&conns[c].as_mut().unwrap().call(CORE, 1, CREATE_LINK, a_create(&e.devs[d].name, lock, 0))?)?;
        if lock && held[d].is_some() {
            ensure!(l.err == 11, "create-locked", "create_link with a lock another link holds: error {}", l.err);
            ensure!(!live.contains_key(&l.lid) || l.lid == 0, "lid-reused", "failed create_link names link {}", l.lid);
        } else {
            ensure!(l.err == 0, "create", "create_link number {} failed with error {}", live.len() + 1, l.err);
            ensure!(!live.contains_key(&l.lid), "lid-reused", "link identifier {} is already in use, {} links are open", l.lid, live.len());
            live.insert(l.lid, (c, d));
            dead.remove(&l.lid);
            if lock {
                held[d] = Some(l.lid)
            }
        }
        if chance(1, 12) && !live.is_empty() {
            let k: Vec<u32> = live.keys().copied().collect();
            let k = pick(&k);
            let (c, d) = live.remove(&k).unwrap();
            ensure!(p_err(&conns[c].as_mut().unwrap().call(CORE, 1, DESTROY_LINK, X::new().u(k))?)? == 0, "destroy", "destroy_link({k}) of an open link fails");
            dead.insert(k);
            if held[d] == Some(k) {
                held[d] = None
            }
        }
    }
    note(|| format!("{} links on {nc} connections, {} destroyed", live.len(), dead.len()));
    let gone = choose(nc as u64) as usize;
    for phase in 0..2 {
        if phase == 1 {
            conns[gone] = None;
            exec::settle();
            note(|| format!("connection {gone} is gone"));
            for (l, (c, d)) in live.clone() {
                if c == gone {
                    live.remove(&l);
                    dead.insert(l);
                    if held[d] == Some(l) {
                        held[d] = None
                    }
                }
            }
            for (i, d) in e.devs.iter().enumerate() {
                let x = d.shared.lock().exclusive_lock();
                ensure!(x == held[i].is_some(), "lock-released", "device {:?}: exclusive lock {x}, held by {:?}", d.name, held[i]);
            }
        }
        let mut a = plain(e.asy)?;
        // every identifier there is, and some that are not
        let mut ids: Vec<u32> = live.keys().copied().chain(dead.iter().copied()).collect();
        ids.extend([0, u32::MAX]);
        // what was taken by links that could not be created
        let top = ids.iter().filter(|l| **l < 10_000).max().copied().unwrap_or(0);
        let gaps: Vec<u32> = (1..top).filter(|l| !live.contains_key(l) && !dead.contains(l)).collect();
        ids.extend(&gaps);
        for _ in 0..5 {
            ids.push(alike(pick(&ids)));
        }
        for l in &ids {
            if ids.len() > 60 && chance(1, 2) {
                continue;
            }
            let er = p_err(&a.call(ASYNC, 1, 1, X::new().u(*l))?)?;
            let ok = live.contains_key(l);
            ensure!(er == if ok { 0 } else { 4 }, "abort-validity", "device_abort({l}) -> error {er}; the link is {}", if ok { "open" } else { "not open" });
        }
        for k in 0..range(1, 30) {
            let l = if !gaps.is_empty() && choose(3) == 0 { pick(&gaps) } else { pick(&ids) };
            let c = match live.get(&l) {
                Some((c, _)) if choose(4) > 0 => *c,
                _ => choose(nc as u64) as usize,
            };
            if conns[c].is_none() {
                continue;
            }
            let m = format!("!{phase}.{k}").into_bytes();
            let (er, _) = p_two(&conns[c].as_mut().unwrap().call(CORE, 1, WRITE, a_write(l, END, 0, &m))?)?;
            let who = live.get(&l).filter(|v| v.0 == c).map(|v| v.1);
            let want = match who {
                None => 4,
                Some(d) if held[d].map_or(false, |h| h != l) => 11,
                _ => 0,
            };
            ensure!(er == want, "validity", "write on link {l} from connection {c} -> error {er}, expected {want}; {} links are open", live.len());
            for (i, d) in e.devs.iter().enumerate() {
                let got = d.log.take_effects();
                let w = if want == 0 && who == Some(i) { vec![Ev::Exec(m.clone())] } else { vec![] };
                ensure!(got == w, "effect", "write on link {l}: device {:?} saw {got:?}, expected {w:?}", d.name);
            }
        }
    }
    if live.len() > 2 {
        nontrivial()
    }
    Ok(())
}
/// A long life: links come and go many times while a few stay.
fn long() -> CaseResult {
    exec::init(exec::Policy::Fifo);
    let e = env(2);
    let (mut keep, mut c) = (plain(e.core)?, plain(e.core)?);
    let mut kept: Vec<(u32, usize)> = vec![];
    for _ in 0..range(1, 3) {
        let d = choose(2) as usize;
        kept.push((open(&mut keep, &e.devs[d].name)?, d));
    }
    let n = match weighted(&[6, 4, 1]) {
        0 => range(240, 520),
        1 => range(1000, 5000),
        _ => range(65_520, 66_100),
    };
    note(|| format!("{n} links come and go, {kept:?} stay"));
    let mut last = 0;
    for i in 0..n {
        let d = choose(2) as usize;
        last = open(&mut c, &e.devs[d].name)?;
        ensure!(kept.iter().all(|k| k.0 != last), "lid-reused", "link number {i} got identifier {last} of an open link");
        if i % 97 == 0 || i + 3 > n {
            let m = format!("!{i}").into_bytes();
            ensure!(p_two(&c.call(CORE, 1, WRITE, a_write(last, END, 0, &m))?)?.0 == 0, "validity", "write on link {last} fails");
            ensure!(e.devs[d].log.take_effects() == [Ev::Exec(m)], "effect", "write on link {last} does not reach its device");
        }
        ensure!(p_err(&c.call(CORE, 1, DESTROY_LINK, X::new().u(last))?)? == 0, "destroy", "destroy_link({last}) of an open link fails");
    }
    let mut a = plain(e.asy)?;
    ensure!(p_err(&a.call(ASYNC, 1, 1, X::new().u(last))?)? == 4, "abort-validity", "device_abort of the destroyed link {last} succeeds");
    for (l, d) in kept {
        ensure!(p_err(&a.call(ASYNC, 1, 1, X::new().u(l))?)? == 0, "abort-validity", "device_abort of link {l} fails");
        let m = b"!still".to_vec();
        ensure!(p_two(&c.call(CORE, 1, WRITE, a_write(l, END, 0, &m))?)?.0 == 4, "validity", "link {l} works on a connection it does not belong to");
        ensure!(p_two(&keep.call(CORE, 1, WRITE, a_write(l, END, 0, &m))?)?.0 == 0, "validity", "link {l} does not work any more");
        ensure!(e.devs[d].log.take_effects() == [Ev::Exec(m)], "effect", "write on link {l} does not reach its device");
        ensure!(e.devs[1 - d].log.take_effects().is_empty(), "effect", "write on link {l} reaches another device");
    }
    nontrivial();
    Ok(())
}

// ------------------------------------------------------------------ C21
/// Long messages, many parts, many responses.
fn bulk() -> CaseResult {
    exec::init(exec::Policy::Fifo);
    let e = env(1);
    let mut c = plain(e.core)?;
    let lid = open(&mut c, "inst0")?;
    let other = open(&mut c, "inst0")?;
    let (mut inb, mut out) = (vec![], std::collections::VecDeque::new());
    let (mut moved, mut most) = (0, 0);
    for _ in 0..range(1, 4) {
        // a message
        let style = choose(4);
        let sparse = choose(2) == 1;
        let parts = pick(&[1, range(1, 20), range(200, 600)]);
        for k in 0..parts {
            let n = match style {
                0 => choose(4),
                1 => pick(&[0, 1, 255, 256, 257]),
                2 if parts < 30 => pick(&[65_535, 65_536, 65_537, 131_072, 131_073, 200_000]),
                _ => choose(2000),
            } as usize;
            let mut d: Vec<u8> = (0..n).map(|i| if sparse { 0x7e } else { (i * 13 + k as usize) as u8 }).collect();
            if sparse && n > 0 {
                // few bytes that end a read, anywhere
                for _ in 0..choose(3) {
                    d[choose(n as u64) as usize] = pick(&[1, 2]);
                }
            }
            if inb.is_empty() && !d.is_empty() {
                d[0] = pick(&[b'!', b'a'])
            }
            if inb.is_empty() && chance(1, 3) {
                d = format!("#{}x", pick(&[65_535, 65_536, 131_073, 300_000])).into_bytes();
            }
            let end = k + 1 == parts;
            let (er, size) = p_two(&c.call(CORE, 1, WRITE, a_write(lid, if end { END } else { 0 } | noise(WRITE), 0, &d))?)?;
            ensure!(er == 0 && size as usize == d.len(), "write", "write of {} bytes: error {er}, size {size}", d.len());
            moved += d.len();
            inb.extend(d);
        }
        let cmd = std::mem::take(&mut inb);
        note(|| format!("a message of {} bytes in {parts} parts", cmd.len()));
        most = most.max(cmd.len());
        let r = respond(&cmd).unwrap_or_default();
        out.extend(r);
        let got = e.devs[0].log.take_effects();
        ensure!(got.len() == 1 && got[0] == Ev::Exec(cmd.clone()), "executed", "a message of {} bytes in {parts} parts: the device saw {} commands, the first of {:?} bytes", cmd.len(), got.len(), got.first().map(|g| if let Ev::Exec(c) = g { c.len() } else { 0 }));
        // many small queries on top
        for i in 0..pick(&[0, choose(10), range(250, 400)]) {
            let q = format!("q{i}").into_bytes();
            ensure!(p_two(&c.call(CORE, 1, WRITE, a_write(lid, END, 0, &q))?)? == (0, q.len() as u32), "write", "write of a query fails");
            out.extend(respond(&q).unwrap());
        }
        e.devs[0].log.take();
        // read some or all of it
        let all = choose(2) == 0;
        for _ in 0..200 {
            if out.is_empty() || (!all && chance(1, 8)) {
                break;
            }
            let req = match choose(4) {
                0 => word().max(1),
                1 => range(1, 70_000) as u32,
                2 => pick(&[255, 256, 65_535, 65_536, 65_537]),
                _ => 1 << 20,
            };
            let term = pick(&[choose(256) as u8, 1, 2]);
            let flags = if chance(1, 3) { TERM } else { 0 } | noise(READ);
            let (er, reason, data) = p_read(&c.call(CORE, 1, READ, a_read(lid, req, flags, 0, term))?)?;
            let mut n = out.len().min(req as usize);
            let mut chr = false;
            if flags & TERM != 0 {
                if let Some(p) = out.iter().take(n).position(|x| *x == term) {
                    n = p + 1;
                    chr = true;
                }
            }
            let exp: Vec<u8> = out.drain(..n).collect();
            ensure!(er == 0 && data == exp, "read", "read of {req}: error {er}, {} bytes, expected {n}", data.len());
            let r = (n == req as usize) as u32 | (chr as u32) << 1 | (out.is_empty() as u32) << 2;
            ensure!(reason == r, "reason", "read of {n} bytes, request size {req}, {} left: reason {reason}, expected {r}", out.len());
            moved += n;
        }
        let (er, stb) = p_two(&c.call(CORE, 1, READSTB, a_gen(lid, 0, 0))?)?;
        ensure!(er == 0 && (stb & 0x10 != 0) == !out.is_empty(), "stb", "status byte {stb:#x} with {} bytes to read", out.len());
        if chance(1, 4) {
            ensure!(p_err(&c.call(CORE, 1, CLEAR, a_gen(lid, 0, 0))?)? == 0, "clear", "device_clear fails");
            out.clear();
            e.devs[0].log.take();
        }
    }
    let (er, _, data) = p_read(&c.call(CORE, 1, READ, a_read(other, 1 << 20, 0, 0, 0))?)?;
    ensure!((er == 0 || er == 15) && data.is_empty(), "other-link", "{} bytes on a link nothing was asked on", data.len());
    if most > 10_000 || moved > 50_000 {
        nontrivial()
    }
    Ok(())
}
struct DLink {
    conn: usize,
    dev: usize,
    lid: u32,
    inb: Vec<u8>,
    out: Vec<u8>,
}
fn datapath() -> CaseResult {
    exec::init(policy());
    let nd = range(1, 2) as usize;
    let e = env(nd);
    let nc = range(1, 2) as usize;
    let mut conns = vec![];
    for _ in 0..nc {
        conns.push(conn(e.core)?);
    }
    let mut links: Vec<DLink> = vec![];
    for i in 0..range(1, 3) as usize {
        let (c, d) = (i % nc, choose(nd as u64) as usize);
        let lid = open(&mut conns[c], &e.devs[d].name)?;
        links.push(DLink { conn: c, dev: d, lid, inb: vec![], out: vec![] });
    }
    let mut ext: Vec<LockHandle<D>> = e.devs.iter().map(|d| LockHandle::new(d.shared.clone(), d.device.clone())).collect();
    let mut parts = 0;
    for _ in 0..range(3, 25) {
        let li = choose(links.len() as u64) as usize;
        let (c, d, lid) = (links[li].conn, links[li].dev, links[li].lid);
        let locked = ext[d].has_exclusive();
        let mut want: Vec<Ev> = vec![];
        match weighted(&[9, 9, 2, 3, 2, 1, 2]) {
            0 => {
                let mut data = match weighted(&[3, 5, 1]) {
                    0 => vec![],
                    1 => {
                        let n = size(300, &[3, 4, 5, 128]) as usize;
                        let k = choose(3);
                        (0..n).map(|_| if k == 0 { b'a' + choose(26) as u8 } else { choose(256) as u8 }).collect()
                    }
                    _ => (0..size(140_000, &[65_536, 131_072])).map(|i| (i * 7) as u8).collect(),
                };
                let l = &mut links[li];
                if l.inb.is_empty() && !data.is_empty() {
                    match choose(5) {
                        0 => data[0] = b'!',
                        1 => {
                            data = format!("#{}z", size(5000, &[1, 127, 128, 1024])).into_bytes();
                        }
                        _ => {}
                    }
                }
                let flags = pick(&[END, 0]) | pick(&[0, WAIT]) | noise(WRITE);
                let b = conns[c].call(CORE, 1, WRITE, a_write(lid, flags, 0, &data))?;
                let (er, n) = p_two(&b)?;
                note(|| format!("link {lid}: write {} flags {flags:#x} -> error {er} size {n}", show(&data)));
                if locked {
                    ensure!(er == 11 && n == 0, "refused-write", "write while another session holds the lock: error {er}, size {n}");
                } else {
                    ensure!(er == 0 && n as usize == data.len(), "write", "write of {} bytes: error {er}, size {n}", data.len());
                    l.inb.extend(&data);
                    if flags & END != 0 {
                        let cmd = std::mem::take(&mut l.inb);
                        if let Some(r) = respond(&cmd) {
                            l.out.extend(r);
                        }
                        want.push(Ev::Exec(cmd));
                    } else {
                        parts += 1;
                    }
                }
            }
            1 => {
                let l = &mut links[li];
                let have = l.out.len() as u64;
                let term = if !l.out.is_empty() && choose(2) == 0 { l.out[choose(have.min(2000)) as usize] } else { choose(256) as u8 };
                let req = match choose(7) {
                    5 => pick(&[0x7fff_ffff, 0x8000_0000, 0xffff_fffe, 0xffff_ffff]),
                    6 => pick(&[0x1_0000, 0x1_0001, 0xff_ffff, 0x100_0000]),
                    0 => 1 << 20,
                    1 => have,
                    2 => have + 1,
                    3 => have.saturating_sub(1),
                    _ => size(have + 10, &[1, 2, 128]),
                }
                .max(1) as usize;
                let flags = pick(&[TERM, 0]) | pick(&[0, WAIT]) | noise(READ);
                let b = conns[c].call(CORE, 1, READ, a_read(lid, req as u32, flags, 0, term))?;
                let (er, reason, data) = p_read(&b)?;
                note(|| format!("link {lid}: read size {req} flags {flags:#x} term {term:#x} -> error {er} reason {reason} {}", show(&data)));
                if locked {
                    ensure!(er == 11 && data.is_empty(), "refused-read", "read while another session holds the lock: error {er}, {} bytes", data.len());
                } else if l.out.is_empty() {
                    ensure!(data.is_empty() && (er == 0 || er == 15), "read-empty", "read with nothing to read: error {er}, data {}", show(&data));
                } else {
                    let mut n = req.min(l.out.len());
                    let mut chr = false;
                    if flags & TERM != 0 {
                        if let Some(p) = l.out[..n].iter().position(|x| *x == term) {
                            n = p + 1;
                            chr = true;
                        }
                    }
                    let exp: Vec<u8> = l.out.drain(..n).collect();
                    ensure!(er == 0 && data == exp, "read", "read: error {er}, {} ({} bytes), expected {} ({n} bytes)", show(&data), data.len(), show(&exp));
                    let r = (n == req) as u32 | (chr as u32) << 1 | (l.out.is_empty() as u32) << 2;
                    ensure!(reason == r, "reason", "read of {n} bytes, request size {req}, {} left, term char {}: reason {reason}, expected {r}", l.out.len(), chr);
                    if !l.out.is_empty() {
                        label("partial read")
                    }
                }
            }
            2 => {
                let b = conns[c].call(CORE, 1, CLEAR, a_gen(lid, pick(&[0, WAIT]) | noise(CLEAR), 0))?;
                let er = p_err(&b)?;
                note(|| format!("link {lid}: clear -> {er}"));
                if locked {
                    ensure!(er == 11, "refused-clear", "clear while another session holds the lock: error {er}");
                } else {
                    ensure!(er == 0, "clear", "device_clear: error {er}");
                    links[li].inb.clear();
                    links[li].out.clear();
                    want.push(Ev::Clear);
                }
            }
            3 => {
                let stb = choose(256) as u8;
                e.devs[d].log.set_stb(stb);
                let b = conns[c].call(CORE, 1, READSTB, a_gen(lid, pick(&[0, WAIT]) | noise(READSTB), 0))?;
                let (er, got) = p_two(&b)?;
                note(|| format!("link {lid}: readstb (device says {stb:#04x}) -> error {er} stb {got:#04x}"));
                if locked {
                    ensure!(er == 11 && got == 0, "refused-stb", "readstb while another session holds the lock: error {er}");
                } else {
                    let mav = if links[li].out.is_empty() { 0 } else { 0x10 };
                    ensure!(er == 0 && got == (stb & 0xef | mav) as u32, "stb", "device status {stb:#04x}, {} bytes waiting: readstb returned error {er}, {got:#04x}", links[li].out.len());
                }
            }
            4 => {
                if locked {
                    ext[d].force_release();
                } else {
                    let _ = ext[d].try_acquire_exclusive();
                    label("locked by another")
                }
            }
            6 => {
                // the device refuses, or does not
                let proc = pick(&[TRIGGER, REMOTE, LOCAL, READSTB, CLEAR]);
                let fail = choose(3) > 0;
                let code = pick(&[8u32, 15, 17]);
                e.devs[d].log.set(|s| {
                    s.error = Some(match code {
                        8 => DeviceError::NotSupported,
                        15 => DeviceError::IoTimeout,
                        _ => DeviceError::IoError,
                    });
                    s.fail_trigger = fail;
                    s.fail_remote = fail;
                    s.fail_status = fail;
                    s.fail_clear = fail;
                });
                let b = conns[c].call(CORE, 1, proc, a_gen(lid, pick(&[0, WAIT]) | noise(proc), 0))?;
                let er = p_any(proc, &b)?;
                note(|| format!("link {lid}: procedure {proc}, the device fails: {fail} (as {code}) -> error {er}"));
                e.devs[d].log.set(|s| {
                    s.error = None;
                    s.fail_trigger = false;
                    s.fail_remote = false;
                    s.fail_status = false;
                    s.fail_clear = false;
                });
                if locked {
                    ensure!(er == 11, "refused", "procedure {proc} while another session holds the lock: error {er}");
                } else {
                    ensure!(er == if fail { code } else { 0 }, "device-error", "procedure {proc}: error {er}, the device reported an error: {fail} (as {code})");
                    match proc {
                        TRIGGER => want.push(Ev::Trigger("Bus".into())),
                        REMOTE | LOCAL => want.push(Ev::Remote(proc == REMOTE)),
                        CLEAR => {
                            want.push(Ev::Clear);
                            if fail {
                                // what is left after that is not determined
                                want.push(Ev::Clear);
                                let b = conns[c].call(CORE, 1, CLEAR, a_gen(lid, 0, 0))?;
                                ensure!(p_err(&b)? == 0, "clear", "device_clear fails after an earlier one did");
                            }
                            links[li].inb.clear();
                            links[li].out.clear();
                        }
                        _ => {}
                    }
                }
            }
            _ => {
                let b = conns[c].call(CORE, 1, DOCMD, a_docmd(lid))?;
                let er = p_any(DOCMD, &b)?;
                ensure!(er == 8, "docmd", "docmd is not supported but returned {er}");
            }
        }
        for (i, dv) in e.devs.iter().enumerate() {
            let got = dv.log.take_effects();
            let w: &[Ev] = if i == d { &want } else { &[] };
            ensure!(got == w, "executed", "device {:?} saw {got:?}, expected {w:?}", dv.name);
        }
        exec::settle();
    }
    if parts > 0 {
        nontrivial()
    }
    Ok(())
}

// ------------------------------------------------------------------ C22, C23
#[derive(Clone, Copy, PartialEq, Debug)]
enum Owner {
    Link(u32),
    Ext,
}
#[derive(Clone, PartialEq, Debug)]
struct MDev {
    excl: Option<Owner>,
    ext_shared: bool,
    guard: bool,
}
#[derive(Clone, Debug)]
struct Pend {
    proc: u32,
    lid: u32,
    dev: usize,
    wait: bool,
    deadline: u64,
    tag: Vec<u8>,
    xid: u32,
    /// was already waiting when this step began
    old: bool,
}
#[derive(Clone)]
struct LModel {
    dev: Vec<MDev>,
}
impl LModel {
    /// May this link use the device now (lock-wise)?
    fn access(&self, d: usize, lid: u32) -> bool {
        match self.dev[d].excl {
            Some(o) => o == Owner::Link(lid),
            None => !self.dev[d].ext_shared,
        }
    }
    fn holds(&self, d: usize, lid: u32) -> bool {
        self.dev[d].excl == Some(Owner::Link(lid))
    }
    /// Could the operation go ahead successfully now?
    fn enabled(&self, p: &Pend) -> bool {
        match p.proc {
            LOCK | CREATE_LINK => self.dev[p.dev].excl.is_none() && !self.dev[p.dev].ext_shared,
            _ => self.access(p.dev, p.lid) && !self.dev[p.dev].guard,
        }
    }
    fn apply(&mut self, p: &Pend, err: u32, newlid: u32, now: u64, aborted: bool) -> Result<(), String> {
        match err {
            0 if p.proc == UNLOCK => {
                if !self.holds(p.dev, p.lid) {
                    return Err("unlock succeeded without a lock".into());
                }
                self.dev[p.dev].excl = None;
            }
            0 => {
                if !self.enabled(p) {
                    return Err(format!("procedure {} on link {} succeeded although it is not allowed: {:?}", p.proc, p.lid, self.dev[p.dev]));
                }
                match p.proc {
                    LOCK => self.dev[p.dev].excl = Some(Owner::Link(p.lid)),
                    CREATE_LINK => self.dev[p.dev].excl = Some(Owner::Link(newlid)),
                    _ => {}
                }
            }
            23 if p.wait && aborted => {}
            _ if p.proc == UNLOCK => {
                if self.holds(p.dev, p.lid) || err != 12 {
                    return Err(format!("unlock: error {err}, lock held: {}", self.holds(p.dev, p.lid)));
                }
            }
            _ if p.proc == LOCK && self.holds(p.dev, p.lid) => {} // already ours: refused
            23 => return Err(format!("procedure {} on link {} was aborted, nobody asked for that", p.proc, p.lid)),
            _ => {
                if self.enabled(p) {
                    return Err(format!("procedure {} on link {} failed with error {err} although nothing stands in its way: {:?}", p.proc, p.lid, self.dev[p.dev]));
                }
                if p.wait && p.deadline > now {
                    return Err(format!("procedure {} on link {} failed with error {err} at {now} ms, before its lock timeout at {} ms", p.proc, p.lid, p.deadline));
                }
                let lockwise = if p.proc == LOCK || p.proc == CREATE_LINK { true } else { !self.access(p.dev, p.lid) };
                if lockwise && err != 11 {
                    return Err(format!("procedure {} on link {}: error {err}, the device is locked by another link (11)", p.proc, p.lid));
                }
            }
        }
        Ok(())
    }
}
struct Done {
    p: Pend,
    conn: usize,
    err: u32,
    lid: u32,
}
fn explain(m: &LModel, done: &[Done], used: &mut Vec<bool>, left: &[&Pend], now: u64, aborted: &BTreeSet<u32>, why: &mut String) -> Option<LModel> {
    if used.iter().all(|u| *u) {
        for p in left {
            if m.enabled(p) {
                *why = format!("procedure {} on link {} keeps waiting although nothing stands in its way: {:?}", p.proc, p.lid, m.dev[p.dev]);
                return None;
            }
            if p.deadline <= now {
                *why = format!("procedure {} on link {} is still waiting at {now} ms, its lock timeout was {} ms", p.proc, p.lid, p.deadline);
                return None;
            }
            if p.old && aborted.contains(&p.lid) {
                *why = format!("procedure {} on link {} is still waiting after device_abort", p.proc, p.lid);
                return None;
            }
        }
        return Some(m.clone());
    }
    for i in 0..done.len() {
        if used[i] {
            continue;
        }
        let mut n = m.clone();
        match n.apply(&done[i].p, done[i].err, done[i].lid, now, aborted.contains(&done[i].p.lid)) {
            Ok(()) => {
                used[i] = true;
                if let Some(r) = explain(&n, done, used, left, now, aborted, why) {
                    return Some(r);
                }
                used[i] = false;
            }
            Err(e) => {
                if why.is_empty() {
                    *why = e
                }
            }
        }
    }
    None
}
fn locks(aborts: bool) -> CaseResult {
    exec::init(policy());
    let nd = if chance(1, 3) { 2 } else { 1 };
    let e = env(nd);
    let nc = range(2, 4) as usize;
    let mut conns = vec![];
    // (lid, device) per connection
    let mut links: Vec<Vec<(u32, usize)>> = vec![];
    for _ in 0..nc {
        let mut c = conn(e.core)?;
        let mut l = vec![];
        for _ in 0..range(1, 2) {
            let d = choose(nd as u64) as usize;
            l.push((open(&mut c, &e.devs[d].name)?, d));
        }
        links.push(l);
        conns.push(c);
    }
    let mut abort = conn(e.asy)?;
    let mut ext: Vec<LockHandle<D>> = e.devs.iter().map(|d| LockHandle::new(d.shared.clone(), d.device.clone())).collect();
    let devices: Vec<_> = e.devs.iter().map(|d| d.device.clone()).collect();
    let mut guards: Vec<Option<MutexGuard<'_, D>>> = devices.iter().map(|_| None).collect();
    let mut m = LModel { dev: vec![MDev { excl: None, ext_shared: false, guard: false }; nd] };
    let mut pend: Vec<Option<Pend>> = vec![None; nc];
    let mut extra: Vec<VecDeque<(u32, Reply)>> = vec![VecDeque::new(); nc];
    let mut now = 0u64;
    let (mut seq, mut waited, mut aborted_any) = (0u32, false, false);
    for _ in 0..range(4, 30) {
        let mut aborted: BTreeSet<u32> = BTreeSet::new();
        for p in pend.iter_mut().flatten() {
            p.old = true;
        }
        let mut acts = 1 + choose(3);
        let mut abort_xids = vec![];
        while acts > 0 {
            acts -= 1;
            let idle: Vec<usize> = (0..nc).filter(|i| pend[*i].is_none()).collect();
            match weighted(&[10, 3, 2, if aborts { 5 } else { 0 }, 1, 2]) {
                5 if pend.iter().any(|p| p.is_some()) => {
                    // a further call is sent before the previous one has been answered
                    let c = pick(&(0..nc).filter(|i| pend[*i].is_some()).collect::<Vec<_>>());
                    let (lid, _) = pick(&links[c]);
                    let (proc, args, want) = match choose(4) {
                        0 => (0, X::new(), Reply::Success(vec![])),
                        1 => (DOCMD, a_docmd(lid), Reply::Success(X::new().u(8).o(b"").0)),
                        2 => (UNLOCK, X::new().u(lid ^ 0x4000_0000), Reply::Success(X::new().u(4).0)),
                        _ => (99, X::new(), Reply::ProcUnavail),
                    };
                    note(|| format!("t={now}: connection {c} sends procedure {proc} as well"));
                    let xid = conns[c].send(CORE, 1, proc, args);
                    extra[c].push_back((xid, want));
                }
                0 if !idle.is_empty() => {
                    let c = pick(&idle);
                    let (lid, d) = pick(&links[c]);
                    let proc = pick(&[WRITE, WRITE, LOCK, LOCK, UNLOCK, UNLOCK, READ, READSTB, TRIGGER, CLEAR, REMOTE, LOCAL, CREATE_LINK]);
                    let wait = choose(3) > 0;
                    let to = match choose(5) {
                        4 => pick(&[3_700_000u32, 0x0100_0000, 0x7fff_ffff, 0x8000_0000, 0xffff_fffe, 0xffff_ffff]),
                        0 => range(0, 150_000) as u32,
                        1 => (range(0, 3) << pick(&[8, 16])) as u32 + range(0, 40) as u32,
                        _ => pick(&[0u32, 10, 50, 200, 1000, 100_000]) + choose(3) as u32,
                    };
                    let flags = if wait { WAIT } else { 0 } | noise(proc);
                    seq += 1;
                    let tag = format!("!{seq}").into_bytes();
                    let args = match proc {
                        WRITE => a_write(lid, flags | END, to, &tag),
                        READ => a_read(lid, 10, flags, to, 0),
                        LOCK => a_lock(lid, flags, to),
                        UNLOCK => X::new().u(lid),
                        CREATE_LINK => {
                            if links[c].len() > 3 {
                                continue;
                            }
                            a_create(&e.devs[d].name, true, to)
                        }
                        _ => a_gen(lid, flags, to),
                    };
                    let wait = (wait || proc == CREATE_LINK) && proc != UNLOCK;
                    let xid = conns[c].send(CORE, 1, proc, args);
                    let lid = if proc == CREATE_LINK { 0 } else { lid };
                    note(|| format!("t={now}: connection {c} sends procedure {proc} link {lid} device {d} wait {wait} timeout {to}"));
                    pend[c] = Some(Pend { proc, lid, dev: d, wait, deadline: now + if wait { to as u64 } else { 0 }, tag, xid, old: false });
                }
                1 => {
                    let d = choose(nd as u64) as usize;
                    let h = &mut ext[d];
                    match choose(3) {
                        0 => {
                            if h.try_acquire_exclusive().is_ok() {
                                m.dev[d].excl = Some(Owner::Ext);
                            }
                        }
                        1 => {
                            if !h.has_exclusive() && h.try_acquire_shared(b"k").is_ok() {
                                m.dev[d].ext_shared = true;
                            }
                        }
                        _ => {
                            if h.has_exclusive() {
                                m.dev[d].excl = None;
                            }
                            h.force_release();
                            m.dev[d].ext_shared = false;
                        }
                    }
                    note(|| format!("t={now}: other session on device {d}: {:?}", m.dev[d]));
                    // what the requests already sent saw first is not determined: let them run
                    exec::settle();
                    acts = 0;
                }
                2 => {
                    let d = choose(nd as u64) as usize;
                    if guards[d].take().is_none() {
                        guards[d] = devices[d].try_lock();
                    }
                    m.dev[d].guard = guards[d].is_some();
                    note(|| format!("t={now}: device {d} in use by another session: {}", m.dev[d].guard));
                    acts = 0;
                }
                3 => {
                    let all: Vec<u32> = links.iter().flatten().map(|l| l.0).collect();
                    let waiting: Vec<u32> = pend.iter().flatten().filter(|p| p.old).map(|p| p.lid).filter(|l| *l != 0).collect();
                    let l = if !waiting.is_empty() && choose(3) > 0 { pick(&waiting) } else { pick(&all) };
                    if choose(6) == 0 {
                        // a link that does not exist, though one like it does
                        let l = l ^ pick(&[0x100, 0x1_0000, 0x100_0000, 0x8000_0000]);
                        note(|| format!("t={now}: abort link {l}, which does not exist"));
                        abort_xids.push((abort.send(ASYNC, 1, 1, X::new().u(l)), 4));
                        continue;
                    }
                    note(|| format!("t={now}: abort link {l}"));
                    if waiting.contains(&l) {
                        aborted_any = true
                    }
                    aborted.insert(l);
                    abort_xids.push((abort.send(ASYNC, 1, 1, X::new().u(l)), 0));
                }
                4 if aborted.is_empty() => {
                    let mut done = vec![];
                    exec::settle();
                    collect(&mut conns, &mut pend, &mut extra, &mut done)?;
                    settle_model(&mut m, &mut done, &pend, &mut links, &e, now, &aborted)?;
                    let c = choose(nc as u64) as usize;
                    if !extra[c].is_empty() {
                        // it is not noticed while there are calls which are still to be read
                        continue;
                    }
                    note(|| format!("t={now}: connection {c} is closed, another one takes its place"));
                    conns[c] = conn(e.core)?;
                    pend[c] = None;
                    for (l, d) in std::mem::take(&mut links[c]) {
                        if m.holds(d, l) {
                            m.dev[d].excl = None
                        }
                    }
                    exec::settle();
                    let d = choose(nd as u64) as usize;
                    let l = open(&mut conns[c], &e.devs[d].name)?;
                    links[c].push((l, d));
                    acts = 0;
                }
                _ => {}
            }
            // changes by the outside session must not race with requests of the same step
            if acts == 0 {
                break;
            }
        }
        exec::settle();
        if pend.iter().all(|p| p.as_ref().map_or(true, |p| p.deadline > now)) && choose(3) == 0 {
            // nothing else changes while time passes
            let dt = pick(&[1u64, 11, 60, 250, 1100, 70_000, 3_700_000, 0x8000_0000]);
            let mut done = vec![];
            collect(&mut conns, &mut pend, &mut extra, &mut done)?;
            settle_model(&mut m, &mut done, &pend, &mut links, &e, now, &aborted)?;
            for p in pend.iter_mut().flatten() {
                p.old = true;
            }
            check_abort(&mut abort, &mut abort_xids)?;
            aborted.clear();
            exec::advance(dt);
            now += dt;
            note(|| format!("time passes to t={now}"));
        }
        let mut done = vec![];
        collect(&mut conns, &mut pend, &mut extra, &mut done)?;
        check_abort(&mut abort, &mut abort_xids)?;
        settle_model(&mut m, &mut done, &pend, &mut links, &e, now, &aborted)?;
        if pend.iter().any(|p| p.is_some()) {
            waited = true;
        }
        for (i, d) in e.devs.iter().enumerate() {
            let x = d.shared.lock().exclusive_lock();
            ensure!(x == m.dev[i].excl.is_some(), "lock-state", "device {:?}: exclusive lock reported {x}, expected {:?}", d.name, m.dev[i].excl);
        }
    }
    if waited && (!aborts || aborted_any) {
        nontrivial()
    }
    // everybody leaves: nothing stays locked once the last timeout has passed
    // (while a call waits, the end of a connection is noticed only if nothing follows that call)
    let unread = extra.iter().any(|x| !x.is_empty());
    drop(conns);
    drop(guards);
    ext.clear();
    exec::advance(if unread { 0x1_0000_0000 } else { 200_000 });
    for d in &e.devs {
        let s = d.shared.lock();
        ensure!(!s.exclusive_lock() && s.num_shared_locks() == 0, "lock-leak", "device {:?} stays locked after every session has left", d.name);
    }
    Ok(())
}
fn check_abort(a: &mut Conn, xids: &mut Vec<(u32, u32)>) -> CaseResult {
    let r = a.replies()?;
    let want: Vec<(u32, u32)> = std::mem::take(xids);
    ensure!(r.len() == want.len(), "abort-answer", "device_abort was not answered at once: {} calls, {} replies", want.len(), r.len());
    for ((x, rep), (w, er)) in r.iter().zip(want) {
        ensure!(*x == w && *rep == Reply::Success(X::new().u(er).0), "abort-answer", "device_abort: reply {rep:?} to {x}, expected error {er} to {w}");
    }
    Ok(())
}
fn collect(conns: &mut [Conn], pend: &mut [Option<Pend>], extra: &mut [VecDeque<(u32, Reply)>], done: &mut Vec<Done>) -> CaseResult {
    for (i, c) in conns.iter_mut().enumerate() {
        ensure!(!c.p.gone(), "hangup", "the server closed connection {i}");
        for (xid, rep) in c.replies()? {
            if pend[i].is_none() && !extra[i].is_empty() {
                let (x, want) = extra[i].pop_front().unwrap();
                ensure!(x == xid && rep == want, "pipelined", "connection {i}: reply {rep:?} to {xid}, expected {want:?} to {x}");
                continue;
            }
            let p = match pend[i].take() {
                Some(p) if p.xid == xid => p,
                p => fail!("stray-reply", "connection {i}: reply {rep:?} to {xid}, waiting for {:?}", p.map(|p| p.xid)),
            };
            let Reply::Success(b) = rep else { fail!("reply", "connection {i}: procedure {} answered {rep:?}", p.proc) };
            let err = p_any(p.proc, &b)?;
            let lid = if p.proc == CREATE_LINK { p_create(&b)?.lid } else { 0 };
            note(|| format!("  connection {i}: procedure {} link {} -> error {err}", p.proc, p.lid));
            done.push(Done { p, conn: i, err, lid });
        }
        ensure!(pend[i].is_some() || extra[i].is_empty(), "pipelined", "connection {i}: calls {:?} are not answered although the one before them is", extra[i]);
    }
    Ok(())
}
fn settle_model(m: &mut LModel, done: &mut Vec<Done>, pend: &[Option<Pend>], links: &mut [Vec<(u32, usize)>], e: &Env, now: u64, aborted: &BTreeSet<u32>) -> CaseResult {
    let left: Vec<&Pend> = pend.iter().flatten().collect();
    let mut why = String::new();
    let mut used = vec![false; done.len()];
    match explain(m, done, &mut used, &left, now, aborted, &mut why) {
        Some(n) => *m = n,
        None => fail!("lock-rules", "{why}"),
    }
    let mut want: Vec<Vec<String>> = vec![vec![]; e.devs.len()];
    for d in done.drain(..) {
        if d.err != 0 {
            continue;
        }
        match d.p.proc {
            WRITE => want[d.p.dev].push(format!("{:?}", Ev::Exec(d.p.tag.clone()))),
            TRIGGER => want[d.p.dev].push(format!("{:?}", Ev::Trigger("Bus".into()))),
            CLEAR => want[d.p.dev].push(format!("{:?}", Ev::Clear)),
            REMOTE => want[d.p.dev].push(format!("{:?}", Ev::Remote(true))),
            LOCAL => want[d.p.dev].push(format!("{:?}", Ev::Remote(false))),
            CREATE_LINK => links[d.conn].push((d.lid, d.p.dev)),
            _ => {}
        }
    }
    for (i, d) in e.devs.iter().enumerate() {
        let mut got: Vec<String> = d.log.take_effects().iter().map(|e| format!("{e:?}")).collect();
        got.sort();
        want[i].sort();
        ensure!(got == want[i], "refused-effect", "device {:?} saw {got:?}; the successful requests are {:?}", d.name, want[i]);
    }
    Ok(())
}

// ------------------------------------------------------------------ C24
pub enum Chan {
    Tcp(net::Acceptor, Option<Conn>),
    Udp(net::HarnessUdp),
}
/// The rest of a multiset, if it contains the other one.
fn minus(a: &[Vec<u8>], b: &[Vec<u8>]) -> Option<Vec<Vec<u8>>> {
    let mut a = a.to_vec();
    for x in b {
        let k = a.iter().position(|y| y == x)?;
        a.swap_remove(k);
    }
    Some(a)
}
fn srq() -> CaseResult {
    exec::init(policy());
    let e = env(1);
    let mut st = e.status.clone();
    let nc = range(1, 3) as usize;
    struct S {
        c: Option<Conn>,
        links: Vec<(u32, Option<Vec<u8>>)>,
        chan: Option<(bool, u32, u32)>,
        ch: Option<Chan>,
        xids: Vec<u32>,
        /// the interrupt connection is lost
        broken: bool,
        /// the interrupt connection is not read: what may be in it, and what must
        stall: Option<(Vec<Vec<u8>>, Vec<Vec<u8>>)>,
        udp_port: u16,
        errs: usize,
    }
    let mut ss: Vec<S> = vec![];
    for _ in 0..nc {
        let mut c = conn(e.core)?;
        let mut links = vec![];
        let nl = if chance(1, 20) { range(3, 30) } else { range(1, 2) };
        for _ in 0..nl {
            links.push((open(&mut c, &e.devs[0].name)?, None));
        }
        ss.push(S { c: Some(c), links, chan: None, ch: None, xids: vec![], broken: false, stall: None, udp_port: 0, errs: 0 });
    }
    let (mut port, mut fired) = (pick(&[6000u16, 34_000, 65_200, 256]), 0);
    for _ in 0..range(5, 30) {
        let i = choose(nc as u64) as usize;
        let s = &mut ss[i];
        let mut op = weighted(&[4, 5, 8, 2, 2, 1, 2, 2]);
        if s.c.is_none() && op != 2 {
            continue;
        }
        // a request that has to wait for the interrupt channel
        let mut late: Option<u32> = None;
        let stalled = s.stall.is_some();
        if stalled && !matches!(op, 2 | 5 | 7) {
            let (l, c) = (choose(s.links.len().max(1) as u64) as usize, s.c.as_mut().unwrap());
            let (proc, x) = match op {
                0 | 6 => continue,
                1 if l < s.links.len() => {
                    let on = choose(2) == 0;
                    let h = bytes(choose(10) as usize);
                    let x = a_srq(s.links[l].0, on, &h);
                    s.links[l].1 = on.then_some(h);
                    (ENABLE_SRQ, x)
                }
                3 => (DESTROY_INTR, X::new()),
                4 if l < s.links.len() => (DESTROY_LINK, X::new().u(s.links.remove(l).0)),
                _ => continue,
            };
            note(|| format!("connection {i}: procedure {proc} while the interrupt channel is not read"));
            late = Some(c.send(CORE, 1, proc, x));
            exec::settle();
            // what is cut off by this must not be expected
            s.stall.as_mut().unwrap().1.clear();
        }
        match op {
            _ if late.is_some() => {}
            0 => {
                // open an interrupt channel
                port += 1;
                let udp = choose(3) == 0;
                let (prog, vers) = if choose(2) == 0 { (INTR, 1) } else { (word(), choose(5) as u32) };
                let refused = !udp && chance(1, 5);
                let host = match choose(4) {
                    0 | 1 => Ipv4Addr::LOCALHOST,
                    2 => Ipv4Addr::new(192, 0, 2, range(2, 250) as u8),
                    _ => Ipv4Addr::new(range(11, 100) as u8, choose(256) as u8, choose(256) as u8, choose(256) as u8),
                };
                let before = net::udp_ports();
                let ch = if udp {
                    Chan::Udp(net::harness_udp_at(host.into(), port))
                } else {
                    Chan::Tcp(net::listen(if refused { 5999 } else { port }), None)
                };
                net::forget();
                let b = s.c.as_mut().unwrap().call(CORE, 1, CREATE_INTR, X::new().u(host.into()).u(port as u32).u(prog).u(vers).u(udp as u32))?;
                let er = p_err(&b)?;
                note(|| format!("connection {i}: create_intr_chan {host}:{port} udp {udp} refused {refused} -> {er}"));
                if s.chan.is_some() {
                    ensure!(er == 29, "channel-exists", "create_intr_chan with a channel already open: error {er}");
                } else if refused {
                    ensure!(er == 6, "channel-refused", "create_intr_chan to a port that refuses: error {er}");
                } else {
                    ensure!(er == 0, "channel", "create_intr_chan: error {er}");
                    s.chan = Some((udp, prog, vers));
                    s.ch = Some(match ch {
                        Chan::Tcp(a, _) => {
                            let p = a.accept();
                            ensure!(p.is_some(), "channel", "create_intr_chan succeeded without a connection");
                            ensure!(net::connects() == [SocketAddr::from((host, port))], "channel", "create_intr_chan for {host}:{port} connected to {:?}", net::connects());
                            Chan::Tcp(a, p.map(Conn::new))
                        }
                        c => c,
                    });
                    s.xids.clear();
                    s.broken = false;
                    s.errs = 0;
                    s.udp_port = net::udp_ports().into_iter().find(|p| !before.contains(p) && *p != port).unwrap_or(0);
                }
            }
            1 => {
                if s.links.is_empty() {
                    continue;
                }
                let k = choose(s.links.len() as u64) as usize;
                let on = choose(4) > 0;
                let h = bytes(choose(41) as usize);
                let prompt = choose(3) == 0;
                let (c, x) = (s.c.as_mut().unwrap(), a_srq(s.links[k].0, on, &h));
                let b = if prompt { c.call_promptly(CORE, 1, ENABLE_SRQ, x)? } else { c.call(CORE, 1, ENABLE_SRQ, x)? };
                let er = p_err(&b)?;
                note(|| format!("connection {i}: enable_srq link {} {on} handle {} -> {er}", s.links[k].0, show(&h)));
                ensure!(er == 0, "enable", "device_enable_srq: error {er}");
                s.links[k].1 = on.then_some(h);
                if prompt {
                    // the answer is there: what happens now must (not) be told
                    st.send_status(0x41);
                    note(|| "status 0x41 is published as soon as this is answered".into());
                    op = 2;
                }
            }
            2 => {
                let v = if choose(2) == 0 { 0x40 | choose(256) as u8 } else { choose(256) as u8 };
                st.send_status(v);
                exec::settle();
                note(|| format!("status {v:#04x} is published"));
            }
            3 => {
                let b = s.c.as_mut().unwrap().call(CORE, 1, DESTROY_INTR, X::new())?;
                let er = p_err(&b)?;
                note(|| format!("connection {i}: destroy_intr_chan -> {er}"));
                ensure!(er == if s.chan.is_some() { 0 } else { 6 }, "destroy-channel", "destroy_intr_chan: error {er}, channel open: {}", s.chan.is_some());
                if let Some(Chan::Tcp(_, Some(c))) = &s.ch {
                    ensure!(c.p.gone(), "destroy-channel", "destroy_intr_chan leaves the interrupt connection open");
                }
                s.chan = None;
                s.ch = None;
            }
            4 => {
                if s.links.is_empty() {
                    continue;
                }
                let k = choose(s.links.len() as u64) as usize;
                let (lid, _) = s.links.remove(k);
                let prompt = choose(3) == 0;
                let (c, x) = (s.c.as_mut().unwrap(), X::new().u(lid));
                let b = if prompt { c.call_promptly(CORE, 1, DESTROY_LINK, x)? } else { c.call(CORE, 1, DESTROY_LINK, x)? };
                ensure!(p_err(&b)? == 0, "destroy", "destroy_link failed");
                note(|| format!("connection {i}: destroy_link {lid}"));
                if prompt {
                    st.send_status(0x42);
                    note(|| "status 0x42 is published as soon as this is answered".into());
                    op = 2;
                }
            }
            5 => {
                s.c = None;
                s.links.clear();
                exec::settle();
                note(|| format!("connection {i} is gone"));
                if let Some(Chan::Tcp(_, Some(c))) = &s.ch {
                    ensure!(c.p.gone(), "channel-kept", "connection {i} is gone, its interrupt channel is not");
                }
                s.stall = None;
                s.ch = None;
            }
            6 => match &mut s.ch {
                Some(Chan::Tcp(_, c)) if c.is_some() => {
                    let mut c = c.take().unwrap();
                    if choose(2) == 0 {
                        c.p.reset()
                    }
                    drop(c);
                    s.broken = true;
                    note(|| format!("connection {i}: the interrupt connection is lost"));
                }
                Some(Chan::Udp(_)) => {
                    s.errs += 1;
                    net::udp_send_error(s.udp_port, pick(&[111, 113, 1]));
                    note(|| format!("connection {i}: the next interrupt datagram cannot be sent"));
                }
                _ => continue,
            },
            _ => match &s.ch {
                Some(Chan::Tcp(_, Some(c))) if !stalled => {
                    c.p.set_out_cap(pick(&[1usize, 4, 20, 60, 100]));
                    s.stall = Some((vec![], vec![]));
                    note(|| format!("connection {i}: the interrupt connection is no longer read"));
                }
                _ => {}
            },
        }
        exec::settle();
        // read again
        let s = &mut ss[i];
        let wake = s.stall.is_some() && (late.is_some() || (op == 7 && stalled));
        let mut was = None;
        if wake {
            was = s.stall.take();
            let Some(Chan::Tcp(_, Some(c))) = &mut s.ch else { fail!("harness", "stalled without a channel") };
            c.p.set_out_cap(1 << 20);
            exec::settle();
            note(|| format!("connection {i}: the interrupt connection is read again"));
        }
        if let Some(xid) = late {
            match &s.c.as_mut().unwrap().replies()?[..] {
                [(x, Reply::Success(b))] if *x == xid => ensure!(p_err(b)? == 0, "late-reply", "connection {i}: error {} after waiting for the interrupt channel", p_err(b)?),
                r => fail!("late-reply", "connection {i}: answered {r:?} although the interrupt channel was read"),
            }
        }
        // what arrived on the interrupt channels
        for (j, s) in ss.iter_mut().enumerate() {
            if let Some((may, must)) = &mut s.stall {
                if op == 2 {
                    let now: Vec<Vec<u8>> = s.links.iter().filter_map(|l| l.1.clone()).collect();
                    if may.is_empty() {
                        *must = now.clone();
                    }
                    may.extend(now);
                }
                continue;
            }
            let mut want: Vec<Vec<u8>> = if op == 2 && s.chan.is_some() && !s.broken { s.links.iter().filter_map(|l| l.1.clone()).collect() } else { vec![] };
            let msgs = match &mut s.ch {
                None => vec![],
                Some(Chan::Tcp(_, Some(c))) => {
                    let d = c.p.read();
                    c.rx.extend(d);
                    let r = records(&mut c.rx);
                    ensure!(c.rx.is_empty(), "srq-record", "the interrupt channel carries an incomplete record {}", show(&c.rx));
                    r
                }
                Some(Chan::Tcp(..)) => vec![],
                Some(Chan::Udp(u)) => u.received().into_iter().map(|d| d.0).collect(),
            };
            let mut got = vec![];
            for m in msgs {
                let Some(c) = Call::parse(&m) else { fail!("srq-message", "malformed call on the interrupt channel: {}", show(&m)) };
                let (_, prog, vers) = s.chan.unwrap_or_default();
                ensure!((c.rpcvers, c.prog, c.vers, c.proc) == (2, prog, vers, 30), "srq-message", "interrupt call rpc {} program {} version {} procedure {}, expected program {prog} version {vers} procedure 30", c.rpcvers, c.prog, c.vers, c.proc);
                ensure!(!s.xids.contains(&c.xid), "srq-xid", "transaction id {} used twice", c.xid);
                s.xids.push(c.xid);
                let mut r = Rd::new(&c.args);
                got.push(r.o());
                ensure!(r.done(), "srq-message", "arguments of the interrupt call: {}", show(&c.args));
            }
            got.sort();
            want.sort();
            if let Some((may, must)) = was.as_ref().filter(|_| j == i) {
                let rest = minus(may, &got);
                ensure!(rest.is_some(), "srq", "connection {j}: service requests {got:?} while the channel was not read, at most {may:?} are due");
                ensure!(minus(&got, must).is_some(), "srq", "connection {j}: service requests {got:?} while the channel was not read, at least {must:?} are due");
                if op == 3 {
                    s.chan = None;
                    s.ch = None;
                }
                continue;
            }
            if op == 2 && s.errs > 0 {
                let rest = minus(&want, &got);
                ensure!(rest.as_ref().is_some_and(|r| r.len() <= s.errs), "srq", "connection {j}: service requests {got:?}, expected {want:?} but for {}", s.errs);
                s.errs -= rest.unwrap().len();
                continue;
            }
            ensure!(got == want, "srq", "connection {j}: service requests {got:?}, expected {want:?}");
            fired += got.len();
        }
    }
    if fired > 0 {
        nontrivial()
    }
    Ok(())
}

// ------------------------------------------------------------------ C28
fn builder() -> CaseResult {
    exec::init(policy());
    let log = Log::new();
    let shared = SharedLock::new();
    let device = Arc::new(DevMutex::new(log.dev()));
    let custom = choose(4) > 0;
    let core = range(1024, 9000) as u16;
    let mut asy = range(1024, 9000) as u16;
    if asy == core {
        asy += 1
    }
    let mut b = VxiServerBuilder::new();
    if custom {
        if choose(2) == 0 {
            b = b.core_port(core).async_port(asy)
        } else {
            b = b.async_port(asy).core_port(core)
        }
    }
    b = b.device("inst0".into(), device, shared);
    let (core, asy) = if custom { (core, asy) } else { (4322, 4323) };
    let (mut core_ok, mut reg) = (true, chance(2, 3));
    if reg {
        // a portmapper that answers TRUE or FALSE
        let l = net::listen(111);
        let zero = custom && chance(1, 8);
        if zero {
            b = if choose(2) == 0 { b.core_port(0) } else { b.async_port(0) };
        }
        let h = exec::spawn(async move { b.register_portmap("127.0.0.1:111").await });
        let mut seen: BTreeSet<(u32, u32, u32, u32)> = BTreeSet::new();
        let mut all = true;
        exec::settle();
        if let Some(p) = l.accept() {
            let mut c = Conn::new(p);
            for _ in 0..6 {
                exec::settle();
                let d = c.p.read();
                c.rx.extend(d);
                for m in records(&mut c.rx) {
                    let Some(q) = Call::parse(&m) else { fail!("register", "malformed call {}", show(&m)) };
                    ensure!((q.prog, q.vers) == (100000, 2), "register", "call to program {} version {}", q.prog, q.vers);
                    let mut r = Rd::new(&q.args);
                    let mp = (r.u(), r.u(), r.u(), r.u());
                    ensure!(r.done(), "register", "arguments {}", show(&q.args));
                    let yes = choose(5) > 0;
                    if q.proc == 1 {
                        seen.insert(mp);
                        all &= yes;
                    }
                    c.p.write(&record(&reply_ok(q.xid, &X::new().b(yes).0)));
                }
            }
        }
        exec::settle();
        ensure!(h.is_done(), "register", "register_portmap does not return");
        match h.try_take().unwrap() {
            Ok(x) => {
                ensure!(!zero, "register", "register_portmap succeeded with a dynamic port");
                ensure!(all, "register", "register_portmap succeeded although the portmapper refused");
                let want: BTreeSet<_> = [(CORE, 1, 6, core as u32), (ASYNC, 1, 6, asy as u32)].into();
                ensure!(seen == want, "register", "registered {seen:?}, expected {want:?}");
                b = x;
            }
            Err(_) => {
                ensure!(zero || !all, "register", "register_portmap failed although the portmapper accepted");
                ensure!(!zero || seen.is_empty(), "register", "a dynamic port was registered: {seen:?}");
                core_ok = false;
                b = VxiServerBuilder::new();
                reg = false;
            }
        }
    }
    if !core_ok {
        label("registration refused");
        return Ok(());
    }
    let (c, a) = b.build(StatusSender::new());
    let first = choose(2) == 0;
    let ip: std::net::IpAddr = [127, 0, 0, 1].into();
    if first {
        exec::spawn_named("core server", c.bind(ip));
        exec::spawn_named("async server", a.bind(ip));
    } else {
        exec::spawn_named("async server", a.bind(ip));
        exec::spawn_named("core server", c.bind(ip));
    }
    exec::settle();
    let mut want: Vec<u16> = vec![core, asy];
    let mut got: Vec<u16> = net::bound().iter().map(|a| a.port()).collect();
    want.sort();
    got.sort();
    note(|| format!("core {core} async {asy}: bound {got:?}, registered {reg}"));
    ensure!(got == want, "ports", "bound ports {got:?}, configured core {core} and async {asy}");
    let mut cc = conn(core)?;
    let bb = cc.call(CORE, 1, CREATE_LINK, a_create("inst0", false, 0))?;
    let l = p_create(&bb)?;
    ensure!(l.err == 0 && l.abort == asy as u32, "ports", "create_link: error {}, abort port {} (async server is on {asy})", l.err, l.abort);
    let mut ac = conn(asy)?;
    ensure!(p_err(&ac.call(ASYNC, 1, 1, X::new().u(l.lid))?)? == 0, "ports", "the abort channel does not know the link");
    if custom {
        nontrivial()
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    let _ = |e: SharedLockError| e;
    let a: &[&str] = &["virtual sockets and clock stand in for the operating system's"];
    vec![
        Prop {
            id: "C20",
            rule: "1-8 connections, 1-3 devices; random create/destroy/use of links with identifiers that are own, foreign, destroyed or never issued, aborts, disconnects (also mid-message and by reset); non-trivial: an invalid identifier is used while two or more links are open. many: 3-520 links at once, addressed in random order, some destroyed. long: up to 66100 links created and destroyed beside some that stay open; non-trivial: always. prompt (clients act the moment they have their answer): two or more requests refused",
            assumptions: a,
            parts: vec![
                Part { name: "lifecycle", quick: 300_000, thorough: 12_000_000, run: lifecycle },
                Part { name: "many", quick: 3_000, thorough: 120_000, run: many },
                Part { name: "long", quick: 150, thorough: 6_000, run: long },
                Part { name: "prompt", quick: 60_000, thorough: 2_400_000, run: crate::v_prompt::links },
            ],
        },
        Prop {
            id: "C21",
            rule: "1-3 links on 1-2 connections and devices; random writes (with and without END, up to 140 kB, arbitrary bytes), reads (request sizes around what is buffered, termination characters present and absent), clear, status reads, with another session locking and releasing the device; triggers, clears, status reads and mode changes the device itself fails; non-trivial: a message written in several parts. bulk: messages to 600 kB and answers to 520 kB in few large pieces; non-trivial: more than 64 kB. long: a drawn cycle of writes, reads and clears repeated 240 to 66100 times, every answer checked; non-trivial: every case",
            assumptions: a,
            parts: vec![
                Part { name: "data", quick: 100_000, thorough: 4_000_000, run: datapath },
                Part { name: "bulk", quick: 1_500, thorough: 60_000, run: bulk },
                Part { name: "long", quick: 400, thorough: 12_000, run: crate::v_long::messages },
            ],
        },
        Prop {
            id: "C22",
            rule: "2-4 connections with 1-4 links each on 1-2 devices, concurrent requests with and without waitlock and with lock timeouts 0 ms to 100 s under virtual time, create_link with lock, locks and device use by a session outside VXI-11; non-trivial: some request had to wait. long: a drawn cycle of lock requests, releases and device use repeated 240 to 66100 times, every answer checked; non-trivial: every case. prompt (clients act the moment they have their answer): two or more requests refused",
            assumptions: a,
            parts: vec![Part { name: "locks", quick: 300_000, thorough: 3_200_000, run: || locks(false) }, Part { name: "long", quick: 400, thorough: 12_000, run: || crate::v_long::locks(false) }, Part { name: "prompt", quick: 60_000, thorough: 2_400_000, run: crate::v_prompt::links }],
        },
        Prop {
            id: "C23",
            rule: "as C22, with device_abort on waiting and idle links mixed in; non-trivial: a waiting request was aborted. long: a drawn cycle of waiting requests and aborts repeated 240 to 66100 times, every answer checked; non-trivial: every case. prompt (clients act the moment they have their answer): two or more requests refused",
            assumptions: a,
            parts: vec![Part { name: "aborts", quick: 300_000, thorough: 4_000_000, run: || locks(true) }, Part { name: "long", quick: 400, thorough: 12_000, run: || crate::v_long::locks(true) }, Part { name: "prompt", quick: 60_000, thorough: 2_400_000, run: crate::v_prompt::links }],
        },
        Prop {
            id: "C24",
            rule: "1-3 connections with 1-2 links; random create/destroy of TCP and UDP interrupt channels (accepted and refused), enable/disable with random handles, published status bytes of any value, up to 30 links, ports up to 65535, destroyed links and lost connections; non-trivial: at least one service request was delivered. long: a drawn cycle of interrupt enables, publications and channel changes repeated 240 to 66100 times, every answer checked; non-trivial: every case",
            assumptions: a,
            parts: vec![Part { name: "srq", quick: 500_000, thorough: 8_000_000, run: srq }, Part { name: "long", quick: 800, thorough: 24_000, run: crate::v_long::interrupts }],
        },
        Prop {
            id: "C28",
            rule: "random core and async ports, builder call orders, portmapper answers and dynamic ports; non-trivial: non-default ports that are served",
            assumptions: a,
            parts: vec![Part { name: "builder", quick: 400_000, thorough: 4_000_000, run: builder }],
        },
    ]
}
