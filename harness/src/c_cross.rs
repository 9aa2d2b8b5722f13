//! C30-C32: all four front ends sharing one device.
use crate::c_lock::Model;
use crate::c_vxi as vx;
use crate::dev::{Ev, Log};
use crate::engine::*;
use crate::hs::{self, HConn, Sess};
use crate::net_util::{chunking, policy};
use crate::rpc::{Conn, Reply, X};
use lxi_device::lock::{LockHandle, Mutex as DevMutex, MutexGuard, SharedLock, SpinMutex};
use lxi_device::status::Sender as StatusSender;
use lxi_hislip::server::{ServerBuilder, ServerConfig as HConfig};
use lxi_vxi11::server::vxi11::prelude::*;
use simrt::exec::{self, SimSpawner};
use simrt::net::{self, Peer};
use std::sync::Arc;

const RAW: u16 = 5025;
const TELNET: u16 = 5024;
const CORE: u16 = 4322;
const ASYNC: u16 = 4323;
/// stands for the raw server's Unix socket
const UNIX: u16 = 1;
const PATH: &str = "/sim/raw";
const MAP: u16 = 111;
const PORTS: [u16; 7] = [RAW, UNIX, TELNET, hs::PORT, CORE, ASYNC, MAP];
fn dial(port: u16) -> Result<Peer, Fail> {
    if port == UNIX { net::connect_unix(PATH) } else { net::connect(port) }.ok_or_else(|| failure("not-listening", format!("nothing listens on port {port}")))
}
type D = crate::dev::Mock;
#[path = "x_long.rs"]
mod long;

struct Inst {
    log: Log,
    shared: Arc<SpinMutex<SharedLock>>,
    device: Arc<DevMutex<D>>,
    status: StatusSender,
}
/// One instrument behind a raw, a telnet, a HiSLIP and a VXI-11 server.
fn instrument(h: HConfig) -> Inst {
    let log = Log::new();
    let (shared, device, status) = (SharedLock::new(), Arc::new(DevMutex::new(log.dev())), StatusSender::new());
    let s = lxi_socket::server::ServerConfig::default().read_buffer(1024).build();
    exec::spawn_named("raw server", s.accept(("127.0.0.1", RAW), shared.clone(), device.clone()));
    let s = lxi_socket::server::ServerConfig::default().read_buffer(1024).build();
    exec::spawn_named("raw unix server", s.accept_unix(PATH, shared.clone(), device.clone()));
    let s = lxi_telnet::server::ServerConfig::default().read_buffer(1024).build();
    exec::spawn_named("telnet server", s.accept(("127.0.0.1", TELNET), shared.clone(), device.clone()));
    let s = ServerBuilder::new(h).device("hislip0".into(), device.clone(), shared.clone()).build();
    let st = status.clone();
    exec::spawn_named("hislip server", async move {
        let _ = s.accept(("127.0.0.1", hs::PORT), st, SimSpawner).await;
    });
    let (c, a) = VxiServerBuilder::new().core_port(CORE).async_port(ASYNC).device("inst0".into(), device.clone(), shared.clone()).build(status.clone());
    let lc = async_std::net::TcpListener::sim_bind(([127, 0, 0, 1], CORE).into()).unwrap();
    let la = async_std::net::TcpListener::sim_bind(([127, 0, 0, 1], ASYNC).into()).unwrap();
    exec::spawn_named("core server", c.serve(lc));
    exec::spawn_named("async server", a.serve(la));
    crate::c_rpc::start_map();
    Inst { log, shared, device, status }
}
fn config(n: usize) -> HConfig {
    HConfig::default().max_num_sessions(n).max_message_size(1 << 16)
}

// ------------------------------------------------------------------ C30
enum Side {
    Raw(Peer),
    Telnet(Peer),
    Hs(Box<Sess>),
    Vx(Conn, u32),
    Gone,
}
struct Actor {
    name: String,
    side: Side,
    /// sent and not yet executed
    q: Vec<u32>,
    /// every command sent
    sent: Vec<String>,
    /// lock asked for and not yet answered: key, waits
    lock: Option<(Vec<u8>, bool)>,
    release: bool,
    /// a VXI-11 write under way: it waits for the lock
    write: Option<bool>,
    out: Vec<u8>,
    hs_out: Vec<Vec<u8>>,
}
impl Actor {
    fn idle(&self) -> bool {
        self.q.is_empty() && self.lock.is_none() && !self.release && self.write.is_none()
    }
    fn gone(&self) -> bool {
        matches!(self.side, Side::Gone)
    }
}
#[derive(Clone, Debug)]
enum Fin {
    Lock { a: usize, key: Vec<u8>, waits: bool, granted: bool },
    Release { a: usize, held: u8 },
    /// a write that did not wait was refused
    Refused(usize),
}
struct Left<'a> {
    acts: &'a [Actor],
    guard: bool,
}
/// Is there an order of the completions that the one lock allows, after which nobody waits in vain?
fn explain(m: &Model, fins: &mut Vec<Option<Fin>>, execs: &[u32], qs: &mut Vec<Vec<u32>>, l: &Left, why: &mut String) -> Option<Model> {
    if execs.is_empty() && fins.iter().all(|f| f.is_none()) {
        for (i, a) in l.acts.iter().enumerate() {
            if let Some((k, _)) = &a.lock {
                if m.want(i, k).is_ok() {
                    *why = format!("{} still waits for lock {} although the lock state {m:?} allows it", a.name, show(k));
                    return None;
                }
            }
            if !l.guard && !qs[i].is_empty() && m.can(i).is_ok() {
                *why = format!("{}: command {} is not executed although the lock state {m:?} allows it", a.name, qs[i][0]);
                return None;
            }
        }
        return Some(m.clone());
    }
    if let Some(x) = execs.first() {
        // every command has its own number
        if let Some(i) = (0..qs.len()).find(|i| qs[*i].first() == Some(x)) {
            if m.can(i).is_ok() && !l.guard {
                qs[i].remove(0);
                let r = explain(m, fins, &execs[1..], qs, l, why);
                if r.is_some() {
                    return r;
                }
                qs[i].insert(0, *x);
            } else if why.is_empty() {
                *why = format!("{}: command {x} was executed although the lock state {m:?} (device in use: {}) forbids it", l.acts[i].name, l.guard);
            }
        } else {
            *why = format!("command {x} was executed twice, out of order, or without having been sent; waiting: {qs:?}");
            return None;
        }
    }
    for k in 0..fins.len() {
        let Some(f) = fins[k].take() else { continue };
        let mut n = m.clone();
        let ok = match &f {
            Fin::Lock { a, key, granted: true, .. } => {
                let ok = n.want(*a, key).is_ok();
                if ok {
                    n.got(*a, key)
                } else if why.is_empty() {
                    *why = format!("{} was granted lock {} although the lock state {m:?} forbids it", l.acts[*a].name, show(key));
                }
                ok
            }
            Fin::Lock { a, key, waits, .. } => {
                let w = n.want(*a, key);
                let ok = match &w {
                    Ok(()) => false,
                    Err(w) => !*waits || format!("{w:?}") == "[Already]",
                };
                if !ok && why.is_empty() {
                    *why = format!("{} was refused lock {} (waiting: {waits}) in lock state {m:?}", l.acts[*a].name, show(key));
                }
                ok
            }
            Fin::Release { a, held } => {
                let want = match n.release(*a) {
                    Ok(true) => 1,
                    Ok(false) => 2,
                    Err(_) => 3,
                };
                if want != *held && why.is_empty() {
                    *why = format!("{}: release answered {held}, expected {want}, in lock state {m:?}", l.acts[*a].name);
                }
                want == *held
            }
            Fin::Refused(a) => {
                let ok = n.can(*a).is_err();
                if !ok && why.is_empty() {
                    *why = format!("{}: a command was refused as locked in lock state {m:?}", l.acts[*a].name);
                }
                ok
            }
        };
        let r = if ok { explain(&n, fins, execs, qs, l, why) } else { None };
        fins[k] = Some(f);
        if r.is_some() {
            return r;
        }
    }
    None
}
fn collect(inst: &Inst, acts: &mut Vec<Actor>, m: &mut Model, guard: bool) -> CaseResult {
    let mut fins = vec![];
    let mut written = vec![];
    loop {
        exec::settle();
        let mut any = false;
        for (i, a) in acts.iter_mut().enumerate() {
            let Actor { side, out, hs_out, lock, release, write, name, q, .. } = a;
            match side {
                Side::Raw(p) | Side::Telnet(p) => {
                    let d = p.read();
                    any |= !d.is_empty();
                    out.extend(d);
                    ensure!(!p.gone(), "hangup", "{name}: the server closed the connection");
                }
                Side::Hs(s) => {
                    ensure!(!s.a.gone() && !s.s.gone(), "hangup", "{name}: the server closed a connection");
                    let mut end = true;
                    for r in s.s.recv()? {
                        any = true;
                        ensure!(r.typ == hs::DATA || r.typ == hs::DATA_END, "surplus", "{name}: unexpected {r:?}");
                        end = r.typ == hs::DATA_END;
                        out.extend(r.payload);
                        if end && !out.is_empty() {
                            hs_out.push(std::mem::take(out));
                        }
                    }
                    ensure!(end, "cut", "{name}: response without an end");
                    for r in s.a.recv()? {
                        any = true;
                        ensure!(r.typ == hs::LOCK_RESP, "surplus", "{name}: unexpected {r:?}");
                        note(|| format!("  {name}: lock response {}", r.cc));
                        if *release {
                            *release = false;
                            fins.push(Some(Fin::Release { a: i, held: r.cc }));
                        } else if let Some((key, waits)) = lock.take() {
                            ensure!(matches!(r.cc, 0 | 1 | 3), "surplus", "{name}: unexpected {r:?}");
                            fins.push(Some(Fin::Lock { a: i, key, waits, granted: r.cc == 1 }));
                        } else {
                            fail!("surplus", "{name}: unexpected {r:?}")
                        }
                    }
                }
                Side::Vx(c, _) => {
                    ensure!(!c.p.gone(), "hangup", "{name}: the server closed the connection");
                    for (xid, r) in c.replies()? {
                        any = true;
                        let Reply::Success(b) = &r else { fail!("surplus", "{name}: unexpected {r:?}") };
                        ensure!(xid == c.xid, "surplus", "{name}: reply to {xid}");
                        let err = vx::p_any(if write.is_some() { vx::WRITE } else { vx::LOCK }, b)?;
                        note(|| format!("  {name}: reply {err}"));
                        if let Some(waits) = write.take() {
                            ensure!(err == 0 || (err == 11 && !waits), "refused", "{name}: write (waiting: {waits}) ended with error {err}");
                            if err == 0 {
                                written.push((i, q[0]));
                            } else {
                                q.clear();
                                fins.push(Some(Fin::Refused(i)));
                            }
                        } else if *release {
                            *release = false;
                            ensure!(err == 0 || err == 12, "release", "{name}: unlock ended with error {err}");
                            // one kind of lock only
                            fins.push(Some(Fin::Release { a: i, held: if err == 0 { 1 } else { 3 } }));
                        } else if let Some((key, waits)) = lock.take() {
                            fins.push(Some(Fin::Lock { a: i, key, waits, granted: err == 0 }));
                        } else {
                            fail!("surplus", "{name}: unexpected reply")
                        }
                    }
                }
                Side::Gone => {}
            }
        }
        if (!any && exec::idle()) || exec::with(|w| w.stuck.is_some() || !w.panics.is_empty()) {
            break;
        }
    }
    for a in acts.iter() {
        ensure!(!a.release, "unanswered", "{}: release is not answered", a.name);
        if let Some((k, false)) = &a.lock {
            fail!("unanswered", "{}: a request for lock {} that does not wait is not answered", a.name, show(k))
        }
        ensure!(a.write != Some(false), "unanswered", "{}: a write that does not wait is not answered", a.name);
    }
    let mut execs = vec![];
    for ev in inst.log.take_effects() {
        match ev {
            Ev::Exec(c) => match String::from_utf8_lossy(&c).trim_start_matches('!').parse() {
                Ok(k) => execs.push(k),
                Err(_) => fail!("effect", "nobody sent command {}", show(&c)),
            },
            e => fail!("effect", "nobody asked for {e:?}"),
        }
    }
    if !execs.is_empty() {
        note(|| format!("  executed {execs:?}"));
    }
    for (i, k) in &written {
        ensure!(execs.contains(k), "lost", "{}: write of {k} was answered but the device did not execute it", acts[*i].name);
    }
    let mut qs: Vec<Vec<u32>> = acts.iter().map(|a| a.q.clone()).collect();
    let mut why = String::new();
    let r = explain(m, &mut fins, &execs, &mut qs, &Left { acts, guard }, &mut why);
    match r {
        Some(n) => {
            *m = n;
            for (a, q) in acts.iter_mut().zip(qs) {
                ensure!(!(a.write.is_some() && q.is_empty()), "unanswered", "{}: the write was executed but is not answered", a.name);
                a.q = q
            }
        }
        None => fail!("lock-rules", "{}", if why.is_empty() { format!("no order of {fins:?} and {execs:?} is allowed from {m:?}") } else { why }),
    }
    Ok(())
}
fn enter(kind: usize, n: usize) -> Result<Actor, Fail> {
    let (name, side) = match kind {
        0 | 1 => {
            let port = match kind {
                0 if chance(1, 3) => UNIX,
                0 => RAW,
                _ => TELNET,
            };
            let p = dial(port)?;
            p.set_chunking(chunking(), chunking());
            exec::settle();
            if kind == 0 { ("raw", Side::Raw(p)) } else { ("telnet", Side::Telnet(p)) }
        }
        2 => ("hislip", Side::Hs(Box::new(hs::open("", pick(&[0x0100u16, 0x0200]))?))),
        _ => {
            let mut c = vx::conn(CORE)?;
            let lid = vx::open(&mut c, "inst0")?;
            ("vxi11", Side::Vx(c, lid))
        }
    };
    Ok(Actor { name: format!("{name} {n}"), side, q: vec![], sent: vec![], lock: None, release: false, write: None, out: vec![], hs_out: vec![] })
}
/// The responses the actor must have received in full.
fn responses(a: &Actor) -> CaseResult {
    let want: Vec<&String> = a.sent.iter().filter(|s| !s.starts_with('!')).collect();
    let text: String = want
        .iter()
        .map(|s| match a.side {
            Side::Telnet(_) => format!("<{s}\r\n"),
            _ => format!("<{s}\n"),
        })
        .collect();
    match &a.side {
        Side::Raw(_) => ensure!(a.out == text.as_bytes(), "responses", "{}: received {} instead of {text:?}", a.name, show(&a.out)),
        Side::Telnet(_) => {
            let got = String::from_utf8_lossy(&a.out.iter().map(|c| if *c >= 0x80 { b'~' } else { *c }).collect::<Vec<_>>()).replace('~', "").replace("SCPI> ", "");
            ensure!(got == text, "responses", "{}: received {got:?} instead of {text:?}", a.name)
        }
        Side::Hs(_) => {
            let w: Vec<Vec<u8>> = want.iter().map(|s| format!("<{s}").into_bytes()).collect();
            ensure!(a.hs_out == w, "responses", "{}: received {:?} instead of {want:?}", a.name, a.hs_out.iter().map(|v| show(v)).collect::<Vec<_>>())
        }
        _ => {}
    }
    Ok(())
}
fn exclusion() -> CaseResult {
    exec::init(policy());
    let inst = instrument(config(64));
    let mut m = Model { key: vec![], s: vec![], x: vec![] };
    let mut acts: Vec<Actor> = vec![];
    for i in 0..range(2, 5) as usize {
        // at least one that can lock
        let kind = if i == 0 { 2 + choose(2) as usize } else { choose(4) as usize };
        acts.push(enter(kind, i)?);
        m.add();
    }
    let ext_h = acts.len();
    m.add();
    acts.push(Actor { name: "outside".into(), side: Side::Gone, q: vec![], sent: vec![], lock: None, release: false, write: None, out: vec![], hs_out: vec![] });
    let mut ext = LockHandle::new(inst.shared.clone(), inst.device.clone());
    let device = inst.device.clone();
    let mut guard: Option<MutexGuard<'_, D>> = None;
    let keys: Vec<Vec<u8>> = if chance(2, 3) {
        vec![vec![], b"k".to_vec(), b"other".to_vec()]
    } else {
        let mut v = crate::c_lock::palette(true);
        v.push(vec![]);
        v
    };
    let (mut seq, mut waited, mut kinds) = (0u32, 0, 0);
    inst.log.take();
    for _ in 0..range(4, 40) {
        let solo = choose(2) == 0;
        let mut acted: Vec<usize> = vec![];
        for _ in 0..if solo { 1 } else { range(1, 4) } {
            let live: Vec<usize> = (0..acts.len()).filter(|i| !acts[*i].gone()).collect();
            let what = weighted(&[8, 4, if solo { 4 } else { 0 }, if solo { 2 } else { 0 }, if solo { 2 } else { 0 }, if solo { 1 } else { 0 }]);
            match what {
                // a command
                0 if !live.is_empty() => {
                    let i = pick(&live);
                    let a = &mut acts[i];
                    if a.q.len() >= 3 || matches!(a.side, Side::Vx(..)) && !(a.idle() && !acted.contains(&i)) {
                        continue;
                    }
                    seq += 1;
                    let quiet = choose(2) == 0 || matches!(a.side, Side::Vx(..));
                    let text = if quiet { format!("!{seq}") } else { format!("{seq}") };
                    note(|| format!("{}: command {text}", a.name));
                    match &mut a.side {
                        Side::Raw(p) => p.write(format!("{text}\n").as_bytes()),
                        Side::Telnet(p) => p.write(format!("{text}\r\n").as_bytes()),
                        Side::Hs(s) => {
                            if choose(3) == 0 {
                                s.s.send(hs::DATA, 0, seq, &text.as_bytes()[..1]);
                                s.s.send(hs::DATA_END, 0, seq, &text.as_bytes()[1..]);
                            } else {
                                s.s.send(hs::DATA_END, 0, seq, text.as_bytes());
                            }
                        }
                        Side::Vx(c, lid) => {
                            let waits = !solo || guard.is_some() || choose(2) == 0;
                            c.send(vx::CORE, 1, vx::WRITE, vx::a_write(*lid, vx::END | if waits { vx::WAIT } else { 0 }, 1_000_000_000, text.as_bytes()));
                            a.write = Some(waits);
                        }
                        Side::Gone => {}
                    }
                    a.q.push(seq);
                    a.sent.push(text);
                    acted.push(i);
                }
                // a lock request that waits, or one that does not
                1 | 2 if !live.is_empty() => {
                    let i = pick(&live);
                    let a = &mut acts[i];
                    if a.lock.is_some() || acted.contains(&i) {
                        continue;
                    }
                    let waits = what == 1;
                    let key = pick(&keys);
                    match &mut a.side {
                        Side::Hs(s) => {
                            note(|| format!("{}: lock {} (waits: {waits})", a.name, show(&key)));
                            s.a.send(hs::LOCK, 1, if waits { 1_000_000_000 } else { 0 }, &key);
                            a.lock = Some((key, waits));
                        }
                        Side::Vx(c, lid) if a.q.is_empty() && a.write.is_none() => {
                            note(|| format!("{}: lock (waits: {waits})", a.name));
                            c.send(vx::CORE, 1, vx::LOCK, vx::a_lock(*lid, if waits { vx::WAIT } else { 0 }, 1_000_000_000));
                            a.lock = Some((vec![], waits));
                        }
                        _ => continue,
                    }
                    acted.push(i);
                }
                // a release, or a disconnect
                3 if !live.is_empty() => {
                    let i = pick(&live);
                    let a = &mut acts[i];
                    if a.lock.is_some() {
                        continue;
                    }
                    if chance(1, 4) && a.idle() {
                        note(|| format!("{} disconnects", a.name));
                        responses(a)?;
                        a.side = Side::Gone;
                        let _ = m.release(i);
                        continue;
                    }
                    match &mut a.side {
                        Side::Hs(s) => {
                            note(|| format!("{}: release", a.name));
                            s.a.send(hs::LOCK, 0, 0, b"");
                            a.release = true;
                        }
                        Side::Vx(c, lid) if a.write.is_none() => {
                            note(|| format!("{}: unlock", a.name));
                            c.send(vx::CORE, 1, vx::UNLOCK, X::new().u(*lid));
                            a.release = true;
                        }
                        _ => {}
                    }
                }
                // a session of none of the protocols
                4 => {
                    match choose(4) {
                        0 => {
                            let ok = ext.try_acquire_exclusive().is_ok();
                            ensure!(ok == m.want(ext_h, b"").is_ok(), "lock-rules", "an outside exclusive lock request ended {ok}; lock state {m:?}");
                            if ok {
                                m.got(ext_h, b"")
                            }
                        }
                        1 => {
                            let ok = ext.try_acquire_shared(b"k").is_ok();
                            ensure!(ok == m.want(ext_h, b"k").is_ok(), "lock-rules", "an outside shared lock request ended {ok}; lock state {m:?}");
                            if ok {
                                m.got(ext_h, b"k")
                            }
                        }
                        2 => {
                            ext.force_release();
                            let _ = m.release(ext_h);
                        }
                        _ => {
                            if guard.take().is_none() {
                                guard = device.try_lock();
                                ensure!(guard.is_some(), "stuck-device", "nobody is served but the device is not free");
                            }
                        }
                    }
                    note(|| format!("outside: {m:?}, device in use: {}", guard.is_some()));
                }
                5 if acts.len() < 7 => {
                    note(|| "another client".into());
                    let a = enter(choose(4) as usize, acts.len())?;
                    acts.push(a);
                    m.add();
                }
                _ => {}
            }
        }
        collect(&inst, &mut acts, &mut m, guard.is_some())?;
        let w: Vec<usize> = (0..acts.len()).filter(|i| acts[*i].lock.is_some() || !acts[*i].q.is_empty()).collect();
        if !w.is_empty() {
            waited += 1;
            for i in w {
                kinds |= match acts[i].side {
                    Side::Raw(_) => 1,
                    Side::Telnet(_) => 2,
                    Side::Hs(_) => 4,
                    Side::Vx(..) => 8,
                    Side::Gone => 0,
                };
            }
        }
        let st = inst.shared.lock();
        let (x, n) = (st.exclusive_lock(), st.num_shared_locks());
        drop(st);
        ensure!(x == m.excl() && n == m.n(), "lock-state", "the lock reports exclusive {x}, shared {n}; held: {m:?}");
    }
    if waited > 1 {
        nontrivial()
    }
    for (b, l) in [(1, "raw waits"), (2, "telnet waits"), (4, "hislip waits"), (8, "vxi11 waits")] {
        if kinds & b != 0 {
            label(l)
        }
    }
    // everybody lets go, one after the other
    drop(guard);
    collect(&inst, &mut acts, &mut m, false)?;
    ext.force_release();
    let _ = m.release(ext_h);
    collect(&inst, &mut acts, &mut m, false)?;
    for _ in 0..4 * acts.len() {
        let Some(i) = (0..acts.len()).find(|i| (m.x[*i] || m.s[*i]) && acts[*i].lock.is_none() && acts[*i].write.is_none()) else { break };
        let a = &mut acts[i];
        match &mut a.side {
            Side::Hs(s) => s.a.send(hs::LOCK, 0, 0, b""),
            Side::Vx(c, lid) => {
                c.send(vx::CORE, 1, vx::UNLOCK, X::new().u(*lid));
            }
            _ => fail!("lock-state", "{} holds a lock", a.name),
        }
        a.release = true;
        collect(&inst, &mut acts, &mut m, false)?;
    }
    // two that wait for each other may remain: each holds what the other wants
    for a in &acts {
        if a.q.is_empty() {
            responses(a)?;
        }
    }
    drop(acts);
    drop(ext);
    exec::settle();
    exec::advance(1_000_000_001);
    let l = inst.shared.lock();
    ensure!(!l.exclusive_lock() && l.num_shared_locks() == 0, "lock-leak", "the device stays locked after every client has left");
    Ok(())
}

// ------------------------------------------------------------------ C31
enum Client {
    Text(Peer, bool),
    Hs(Box<Sess>),
    Vx(Conn, u32),
    Map(crate::c_rpc::Link),
}
fn client(kind: usize) -> Result<Client, Fail> {
    if kind >= 4 {
        return Ok(Client::Map(crate::c_rpc::map_client(kind == 5)?));
    }
    Ok(match enter(kind, 0)?.side {
        Side::Raw(p) => Client::Text(p, false),
        Side::Telnet(p) => Client::Text(p, true),
        Side::Hs(s) => Client::Hs(s),
        Side::Vx(c, l) => Client::Vx(c, l),
        Side::Gone => unreachable!(),
    })
}
const KINDS: [&str; 6] = ["raw", "telnet", "hislip", "vxi11", "portmapper", "portmapper (UDP)"];
/// A query must be executed once and answered, without time passing.
fn served(inst: &Inst, c: &mut Client, what: &str, seq: &mut u32) -> CaseResult {
    *seq += 1;
    let cmd = format!("fine{seq}");
    let want = format!("<{cmd}");
    let mut got = vec![];
    match c {
        Client::Map(l) => {
            let r = crate::c_rpc::getport(l, *seq)?;
            ensure!(r == Some(CORE as u32), "bystander", "{what}: the port of the core service is reported as {r:?}");
            return Ok(());
        }
        Client::Text(p, telnet) => {
            p.read();
            p.write(format!("{cmd}{}", if *telnet { "\r\n" } else { "\n" }).as_bytes());
            loop {
                exec::settle();
                let d = p.read();
                if d.is_empty() {
                    break;
                }
                got.extend(d);
            }
            ensure!(!p.gone(), "bystander", "{what}: the server closed the connection");
        }
        Client::Hs(s) => {
            s.s.send(hs::DATA_END, 0, *seq * 2, cmd.as_bytes());
            for m in s.s.recv()? {
                ensure!(m.typ == hs::DATA || m.typ == hs::DATA_END, "bystander", "{what}: query answered {m:?}");
                got.extend(m.payload);
            }
        }
        Client::Vx(c, lid) => {
            let w = vx::p_two(&c.call(vx::CORE, 1, vx::WRITE, vx::a_write(*lid, vx::END, 0, cmd.as_bytes()))?)?;
            ensure!(w == (0, cmd.len() as u32), "bystander", "{what}: write answered {w:?}");
            let r = vx::p_read(&c.call(vx::CORE, 1, vx::READ, vx::a_read(*lid, 1000, 0, 0, 0))?)?;
            ensure!(r.0 == 0, "bystander", "{what}: read answered {r:?}");
            got = r.2;
        }
    }
    let n = inst.log.take().iter().filter(|e| matches!(e, Ev::Exec(c) if c == cmd.as_bytes())).count();
    ensure!(n == 1, "bystander", "{what}: the device executed a query {n} times; answer {}", show(&got));
    ensure!(got.windows(want.len()).any(|w| w == want.as_bytes()), "bystander", "{what}: a query was answered {}", show(&got));
    Ok(())
}
fn noise(port: u16) -> Vec<u8> {
    let n = size(4000, &[1, 4, 16, 128, 512, 1024]) as usize;
    let mode = choose(3);
    let mut v: Vec<u8> = (0..n)
        .map(|_| match mode {
            0 if port == TELNET => pick(&[255u8, 255, 240, 241, 246, 247, 248, 249, 250, 250, 251, 252, 253, 254, 0, 1, 3, 24, 34, 39, 85, 86, 255, 240]),
            0 => choose(256) as u8,
            1 => pick(&[0u8, b'\n', b'\r', b'!', b'H', b'S', 0x80, 1, 0x7f]),
            _ => pick(&[0u8, 0, 0, 1, 6, 7, b'2']),
        })
        .collect();
    if port == hs::PORT && choose(2) == 0 {
        let mut f = b"HS".to_vec();
        f.append(&mut v);
        v = f
    }
    if port == CORE || port == ASYNC || port == MAP {
        // a plausible record mark, then nonsense
        if choose(2) == 0 {
            let mut f = (0x8000_0000u32 | choose(2 * n as u64 + 1) as u32).to_be_bytes().to_vec();
            f.append(&mut v);
            v = f
        }
    }
    v
}
fn hostile() -> CaseResult {
    exec::init(policy());
    let inst = instrument(config(pick(&[32usize, 64])));
    let mut seq = 0u32;
    let mut by: Vec<Client> = vec![];
    for k in 0..6 {
        by.push(client(k)?);
    }
    let acceptor = net::listen(3000);
    let mut kept: Vec<(u16, Peer)> = vec![];
    let mut keptv: Vec<Conn> = vec![];
    let mut kepth: Vec<Sess> = vec![];
    let mut intr: Vec<Peer> = vec![];
    let big = |n: u64| size(n, &[1024, 8192, 65536]);
    for _ in 0..range(1, 12) {
        if exec::with(|w| w.stuck.is_some() || !w.panics.is_empty()) {
            return Ok(());
        }
        let port = pick(&PORTS);
        let room = |p: u16, kept: &Vec<(u16, Peer)>, v: usize| kept.iter().filter(|k| k.0 == p).count() + if p == CORE { v } else { 0 } < 5;
        match weighted(&[3, 3, 2, 2, 4, 3, 3, 1, 1]) {
            0 => {
                let mut p = dial(port)?;
                p.set_chunking(chunking(), chunking());
                if choose(2) == 0 {
                    p.set_out_cap(choose(40) as usize);
                }
                let n = noise(port);
                p.write(&n);
                if choose(2) == 0 {
                    exec::settle();
                }
                let end = choose(4);
                note(|| format!("port {port}: {} bytes of noise {}, then {}", n.len(), show(&n), ["close", "reset", "half-close", "stay"][end as usize]));
                match end {
                    0 => p.close(),
                    1 => p.reset(),
                    2 => p.shutdown_write(),
                    _ => {}
                }
                if end >= 2 && room(port, &kept, keptv.len()) {
                    p.set_out_cap(choose(40) as usize);
                    kept.push((port, p))
                }
            }
            1 => {
                let n = range(1, 4);
                note(|| format!("port {port}: {n} connections reset before they are accepted"));
                for _ in 0..n {
                    if port == UNIX {
                        net::connect_unix_reset(PATH);
                    } else {
                        net::connect_reset(port);
                    }
                }
            }
            2 => {
                // ECONNABORTED, ECONNRESET, EMFILE, EINTR, EPERM, ENOBUFS
                let e = pick(&[103, 104, 24, 4, 1, 105]);
                note(|| format!("port {port}: accept fails with error {e}"));
                if port == UNIX {
                    net::accept_error_unix(PATH, e);
                } else {
                    net::accept_error(port, e);
                }
                // the server may wait a moment before it accepts again
                exec::advance(200);
            }
            3 => {
                let n = range(2, 30);
                let mut v = vec![];
                for _ in 0..n {
                    v.push(dial(port));
                    if choose(3) == 0 {
                        exec::run_steps(choose(20));
                    }
                }
                exec::settle();
                note(|| format!("port {port}: {n} connections at once, then closed"));
                label("flood");
                drop(v);
            }
            // a client that asks for a lot and does not read
            4 if port == RAW || port == TELNET || port == UNIX => {
                if !room(port, &kept, 0) {
                    continue;
                }
                let p = dial(port)?;
                let cap = choose(100) as usize;
                p.set_out_cap(cap);
                p.set_chunking(chunking(), chunking());
                let n = big(200_000);
                for _ in 0..range(1, 3) {
                    p.write(format!("#{n}\n").as_bytes());
                }
                note(|| format!("port {port}: asks for {n} bytes, reads none, room for {cap}"));
                label("non-reader");
                kept.push((port, p));
            }
            4 if port == hs::PORT => {
                let s = hs::open("", pick(&[0x0100u16, 0x0200]))?;
                let cap = choose(100) as usize;
                s.s.p.set_out_cap(cap);
                s.a.p.set_out_cap(cap);
                let n = big(200_000);
                match choose(4) {
                    // many requests on the other channel
                    0 => {
                        for _ in 0..range(1, 30) {
                            s.a.send(pick(&[hs::STATUS, hs::LOCK_INFO, hs::MAX_SIZE, 99, 200]), 0, 0, if choose(2) == 0 { b"" } else { b"\0\0\0\0\0\0\x01\0" });
                        }
                    }
                    _ => {
                        for _ in 0..range(1, 3) {
                            s.s.send(hs::DATA_END, 0, 2, format!("#{n}").as_bytes());
                        }
                    }
                }
                note(|| format!("hislip: asks for {n} bytes, reads none, room for {cap}"));
                label("non-reader");
                if choose(3) > 0 {
                    exec::settle();
                }
                kepth.push(s);
            }
            4 | 5 => {
                if !room(CORE, &kept, keptv.len()) {
                    continue;
                }
                let mut c = vx::conn(CORE)?;
                let lid = vx::open(&mut c, "inst0")?;
                let cap = choose(100) as usize;
                let n = big(200_000);
                c.p.set_out_cap(cap);
                match choose(4) {
                    0 => {
                        // an interrupt channel nobody reads
                        c.send(vx::CORE, 1, vx::CREATE_INTR, X::new().u(0x7f000001).u(3000).u(vx::INTR).u(1).u(0));
                        c.send(vx::CORE, 1, vx::ENABLE_SRQ, vx::a_srq(lid, true, b"h"));
                        exec::settle();
                        if let Some(p) = acceptor.accept() {
                            match choose(3) {
                                0 => p.set_out_cap(choose(60) as usize),
                                1 => {
                                    let mut p = p;
                                    p.reset();
                                    continue;
                                }
                                _ => {}
                            }
                            intr.push(p);
                        }
                        note(|| "vxi11: an interrupt channel nobody reads".into());
                    }
                    _ => {
                        for _ in 0..range(1, 3) {
                            c.send(vx::CORE, 1, vx::WRITE, vx::a_write(lid, vx::END, 0, format!("#{n}").as_bytes()));
                            c.send(vx::CORE, 1, vx::READ, vx::a_read(lid, 1 << 20, 0, 0, 0));
                        }
                        note(|| format!("vxi11: asks for {n} bytes, reads none, room for {cap}"));
                        label("non-reader");
                    }
                }
                if choose(3) > 0 {
                    exec::settle();
                }
                if choose(2) == 0 {
                    keptv.push(c);
                }
            }
            // valid beginnings cut short
            6 => {
                let mut v = vec![];
                for _ in 0..range(1, 3) {
                    match port {
                        hs::PORT => v.extend(hs::frame(pick(&[hs::INITIALIZE, hs::ASYNC_INIT, hs::DATA_END, 16, 30]), choose(256) as u8, word(), &bytes(choose(40) as usize))),
                        CORE | ASYNC | MAP => v.extend(crate::rpc::record(&crate::rpc::Call::new(word(), pick(&[vx::CORE, vx::ASYNC, 100000, 7]), choose(3) as u32, pick(&[10, 11, 12, 13, 14, 15, 23, 25, 26, 1, 3, 4]), &bytes(choose(60) as usize)).bytes())),
                        _ => v.extend(bytes(choose(50) as usize).iter().map(|c| c & 0x7f)),
                    }
                }
                if choose(2) == 0 {
                    v.truncate(choose(v.len() as u64 + 1) as usize);
                }
                let mut p = dial(port)?;
                p.set_chunking(chunking(), chunking());
                let stay = choose(2) == 1 && room(port, &kept, keptv.len());
                if stay {
                    p.set_out_cap(choose(40) as usize);
                }
                p.write(&v);
                note(|| format!("port {port}: {} bytes of messages {}, stays without reading: {stay}", v.len(), show(&v)));
                exec::settle();
                if stay {
                    kept.push((port, p));
                } else if choose(2) == 0 {
                    p.reset()
                }
            }
            8 => {
                let u = net::harness_udp(range(20000, 29999) as u16);
                for _ in 0..range(1, 6) {
                    let v = if choose(2) == 0 { noise(MAP) } else { crate::rpc::Call::new(word(), pick(&[100000u32, 7]), choose(4) as u32, choose(7) as u32, &bytes(choose(60) as usize)).bytes() };
                    let v = &v[..choose(v.len() as u64 + 1) as usize];
                    u.send(v, ([127, 0, 0, 1], MAP).into());
                }
                note(|| "portmapper: odd datagrams".into());
            }
            _ => {
                for _ in 0..range(1, 5) {
                    let mut s = inst.status.clone();
                    let b = choose(64) as u8;
                    s.send_status(b | 0x80);
                    if choose(2) == 0 {
                        exec::settle();
                    }
                }
                note(|| "the device publishes status bytes".into());
            }
        }
        exec::settle();
        if chance(1, 3) {
            let k = choose(6) as usize;
            served(&inst, &mut by[k], &format!("a {} client among hostile ones", KINDS[k]), &mut seq)?;
        }
    }
    // a failed accept may delay the next one
    exec::advance(1000);
    inst.log.take();
    nontrivial();
    for (k, b) in by.iter_mut().enumerate() {
        served(&inst, b, &format!("a {} client among hostile ones", KINDS[k]), &mut seq)?;
    }
    for k in 0..6 {
        let mut c = client(k).map_err(|f| failure("newcomer", format!("a new {} client after hostile ones: {}", KINDS[k], f.msg)))?;
        served(&inst, &mut c, &format!("a new {} client after hostile ones", KINDS[k]), &mut seq)?;
        drop(c);
        exec::settle();
    }
    drop((kept, keptv, kepth, intr));
    exec::settle();
    exec::advance(1000);
    for k in 0..6 {
        let mut c = client(k).map_err(|f| failure("newcomer", format!("a new {} client after the hostile ones left: {}", KINDS[k], f.msg)))?;
        inst.log.take();
        served(&inst, &mut c, &format!("a new {} client after the hostile ones left", KINDS[k]), &mut seq)?;
    }
    Ok(())
}

// ------------------------------------------------------------------ C32
const CYCLES: [&str; 18] = [
    "raw client comes, asks and goes",
    "telnet client comes, asks and goes",
    "hislip session is opened, used and closed",
    "hislip connection never completes a session",
    "vxi11 client opens links, uses them and closes",
    "vxi11 client leaves with links, locks and service requests",
    "raw session asks",
    "telnet session asks",
    "hislip session asks, locks, queries its status",
    "hislip session is cleared in the middle of a message",
    "vxi11 connection opens, uses and destroys a link",
    "vxi11 connection waits for a lock, aborts",
    "the device publishes status bytes",
    "clients wait for a locked device and leave",
    "raw client on a Unix socket comes, asks and goes",
    "portmapper clients ask over TCP and UDP",
    "vxi11 requests are refused",
    "hislip requests are refused",
];
struct Residents {
    raw: Peer,
    telnet: Peer,
    hs: Sess,
    vx: Conn,
    vxa: Conn,
    ext: LockHandle<D>,
}
fn swallow(p: &mut Peer) {
    for _ in 0..1000 {
        exec::settle();
        if p.read().is_empty() {
            break;
        }
    }
}
fn leave(mut p: Peer, how: u64) {
    match how {
        0 => p.close(),
        1 => p.reset(),
        _ => {
            p.shutdown_write();
            exec::settle();
        }
    }
}
fn vsend(c: &mut Conn, proc: u32, args: X) -> Result<Vec<(u32, Reply)>, Fail> {
    c.send(vx::CORE, 1, proc, args);
    exec::settle();
    c.replies()
}
fn link(c: &mut Conn) -> Result<u32, Fail> {
    vx::open(c, "inst0")
}
fn cycle(op: usize, arg: u64, inst: &Inst, r: &mut Residents, acc: &net::Acceptor) -> CaseResult {
    let n = [1u64, 100, 5000][(arg / 4 % 3) as usize];
    match op {
        0 | 1 | 14 => {
            let mut p = dial([RAW, TELNET, UNIX][op.min(2)])?;
            p.write(format!("#{n}\r\n!x\n#1\npart").as_bytes());
            if arg % 4 < 3 {
                swallow(&mut p);
            }
            leave(p, arg % 3);
        }
        2 => {
            let mut s = hs::open("", 0x0200)?;
            s.s.send(hs::DATA_END, 0, 0, format!("#{n}").as_bytes());
            s.a.send(hs::LOCK, 1, 0, if arg % 2 == 0 { b"" } else { b"k" });
            s.a.send(hs::STATUS, 0, 0, b"");
            s.s.send(hs::TRIGGER, 0, 2, b"");
            s.s.send(hs::DATA, 0, 4, &vec![b'z'; n as usize]);
            s.s.recv()?;
            s.a.recv()?;
            let Sess { s, a, .. } = s;
            let (x, y) = if arg % 4 < 2 { (s.p, a.p) } else { (a.p, s.p) };
            leave(x, arg % 3);
            if arg % 5 == 0 {
                exec::settle();
            }
            leave(y, arg / 2 % 3);
        }
        3 => {
            let mut c = hs::connect()?;
            match arg % 4 {
                0 => {
                    let q = c.call(hs::INITIALIZE, 0, 0x0100_0000, b"")?;
                    ensure!(q.typ == hs::INIT_RESP, "refused", "Initialize answered {q:?}");
                }
                1 => c.send(hs::INITIALIZE, 0, 0x0100_0000, b"nowhere"),
                2 => c.send(hs::ASYNC_INIT, 0, 0xfff0, b""),
                _ => c.p.write(b"HS garbage and so on"),
            }
            c.recv()?;
            leave(c.p, arg / 4 % 3);
        }
        4 | 5 => {
            let mut c = vx::conn(CORE)?;
            let a = link(&mut c)?;
            let b = link(&mut c)?;
            vsend(&mut c, vx::WRITE, vx::a_write(a, vx::END, 0, format!("#{n}").as_bytes()))?;
            vsend(&mut c, vx::WRITE, vx::a_write(b, 0, 0, &vec![b'y'; n as usize]))?;
            vsend(&mut c, vx::READ, vx::a_read(a, 50, 0, 0, 0))?;
            if op == 5 || arg % 2 == 0 {
                vsend(&mut c, vx::LOCK, vx::a_lock(b, 0, 0))?;
                vsend(&mut c, vx::CREATE_INTR, X::new().u(0x7f000001).u(3000).u(vx::INTR).u(1).u(0))?;
                vsend(&mut c, vx::ENABLE_SRQ, vx::a_srq(a, true, b"handle"))?;
                let p = acc.accept();
                inst.status.clone().send_status(0x40);
                exec::settle();
                if op == 4 {
                    vsend(&mut c, vx::UNLOCK, X::new().u(b))?;
                    vsend(&mut c, vx::ENABLE_SRQ, vx::a_srq(a, false, b""))?;
                    vsend(&mut c, vx::DESTROY_INTR, X::new())?;
                }
                if arg % 3 == 0 {
                    drop(p);
                    exec::settle();
                    inst.status.clone().send_status(0x40);
                    exec::settle();
                }
            }
            if op == 4 {
                vsend(&mut c, vx::DESTROY_LINK, X::new().u(a))?;
                vsend(&mut c, vx::DESTROY_LINK, X::new().u(b))?;
            }
            leave(c.p, arg % 3);
        }
        6 | 7 => {
            let p = if op == 6 { &mut r.raw } else { &mut r.telnet };
            p.write(format!("#{n}\n!x\n#1\r\n").as_bytes());
            swallow(p);
            ensure!(!p.gone(), "hangup", "the server closed a connection");
        }
        8 => {
            let s = &mut r.hs;
            s.s.send(hs::DATA, 0, 0, b"#");
            s.s.send(hs::DATA_END, 0, 0, format!("{n}").as_bytes());
            s.s.send(hs::TRIGGER, 0, 2, b"");
            if arg % 2 == 0 {
                s.s.send(77, 0, 0, b"unknown");
            }
            s.s.recv()?;
            for k in [&b""[..], b"k"] {
                s.a.call(hs::LOCK, 1, 10, k)?;
                s.a.call(hs::LOCK_INFO, 0, 0, b"")?;
                s.a.call(hs::LOCK, 0, 0, b"")?;
            }
            s.a.send(hs::STATUS, 0, 0, b"");
            s.a.send(hs::RL, (arg % 7) as u8, 0, b"");
            s.a.recv()?;
        }
        9 => {
            let s = &mut r.hs;
            s.s.send(hs::DATA, 0, 0, &vec![b'z'; n as usize]);
            if arg % 2 == 0 {
                s.s.recv()?;
            }
            s.a.send(hs::ASYNC_CLEAR, 0, 0, b"");
            s.a.recv()?;
            s.s.send(hs::CLEAR_COMPLETE, 0, 0, b"");
            let v = s.s.recv()?;
            ensure!(v.iter().any(|m| m.typ == hs::CLEAR_ACK), "clear", "device clear answered {v:?}");
        }
        10 => {
            let c = &mut r.vx;
            let a = link(c)?;
            vsend(c, vx::WRITE, vx::a_write(a, 0, 0, &vec![b'y'; n as usize]))?;
            if arg % 2 == 0 {
                vsend(c, vx::CLEAR, vx::a_gen(a, 0, 0))?;
            }
            vsend(c, vx::WRITE, vx::a_write(a, vx::END, 0, format!("#{n}").as_bytes()))?;
            if arg % 3 == 0 {
                vsend(c, vx::READ, vx::a_read(a, 1 << 20, 0, 0, 0))?;
            }
            vsend(c, vx::LOCK, vx::a_lock(a, 0, 0))?;
            vsend(c, 99, X::new())?;
            vsend(c, vx::DESTROY_LINK, X::new().u(a))?;
        }
        11 => {
            let c = &mut r.vx;
            let a = link(c)?;
            let _ = r.ext.try_acquire_exclusive();
            c.send(vx::CORE, 1, if arg % 2 == 0 { vx::LOCK } else { vx::CLEAR }, if arg % 2 == 0 { vx::a_lock(a, vx::WAIT, 20) } else { vx::a_gen(a, vx::WAIT, 20) });
            exec::settle();
            match arg % 3 {
                0 => {
                    r.vxa.send(vx::ASYNC, 1, 1, X::new().u(a));
                    exec::settle();
                    r.vxa.replies()?;
                }
                1 => exec::advance(30),
                _ => {}
            }
            r.ext.force_release();
            exec::settle();
            c.replies()?;
            vsend(c, vx::DESTROY_LINK, X::new().u(a))?;
        }
        12 => {
            for k in 0..3 {
                inst.status.clone().send_status(0x40 | k);
                exec::settle();
            }
            if arg % 2 == 0 {
                r.hs.a.send(hs::STATUS, 0, 0, b"");
            }
            r.hs.a.recv()?;
        }
        15 => {
            let mut c = crate::c_rpc::map_client(arg % 2 == 0)?;
            for _ in 0..3 {
                let x = crate::c_rpc::getport(&mut c, 9)?;
                ensure!(x == Some(CORE as u32), "portmapper", "port reported as {x:?}");
            }
            c.send(&crate::rpc::Call::new(10, 100000, 2, (arg % 7) as u32, &[]).bytes());
            exec::settle();
            c.replies()?;
        }
        16 => {
            let c = &mut r.vx;
            let _ = r.ext.try_acquire_exclusive();
            vsend(c, vx::CREATE_LINK, vx::a_create("nowhere", arg % 2 == 0, 0))?;
            vsend(c, vx::CREATE_LINK, vx::a_create("inst0", true, (arg % 3) as u32))?;
            exec::advance(5);
            c.replies()?;
            r.ext.force_release();
            vsend(c, vx::DESTROY_LINK, X::new().u(1_000_000))?;
            vsend(c, vx::WRITE, vx::a_write(1_000_000, vx::END, 0, b"x"))?;
            vsend(c, vx::CREATE_INTR, X::new().u(0x7f000001).u(3999).u(vx::INTR).u(1).u((arg % 2) as u32))?;
            vsend(c, vx::DESTROY_INTR, X::new())?;
            vsend(c, vx::ENABLE_SRQ, vx::a_srq(1_000_000, true, b"h"))?;
            vsend(c, 99, X::new())?;
            r.vxa.send(vx::ASYNC, 1, 1, X::new().u(1_000_000));
            exec::settle();
            r.vxa.replies()?;
        }
        17 => {
            let s = &mut r.hs;
            let _ = r.ext.try_acquire_exclusive();
            for k in [&b""[..], b"k", b"\xff"] {
                s.a.call(hs::LOCK, 1, 0, k)?;
                s.a.call(hs::LOCK, 0, 0, b"")?;
            }
            r.ext.force_release();
            s.a.call(99, 0, 0, b"what")?;
            s.a.call(hs::RL, 77, 0, b"")?;
            s.s.send(99, 0, 0, b"what");
            s.s.recv()?;
            // a session that is refused
            let mut c = hs::connect()?;
            c.send(hs::ASYNC_INIT, 0, s.id as u32, b"");
            c.recv()?;
            leave(c.p, arg % 3);
        }
        _ => {
            let _ = r.ext.try_acquire_exclusive();
            let p = dial(if arg % 2 == 0 { RAW } else { TELNET })?;
            p.write(b"!wait\n");
            let s = hs::open("", 0x0200)?;
            s.s.send(hs::DATA_END, 0, 0, b"!wait");
            s.a.send(hs::LOCK, 1, 10, b"");
            let mut c = vx::conn(CORE)?;
            let a = link(&mut c)?;
            c.send(vx::CORE, 1, vx::TRIGGER, vx::a_gen(a, vx::WAIT, 10));
            exec::settle();
            if arg % 3 == 0 {
                exec::advance(20);
            }
            leave(p, arg % 3);
            leave(s.s.p, arg / 2 % 3);
            leave(s.a.p, arg / 4 % 3);
            leave(c.p, arg / 8 % 3);
            exec::settle();
            r.ext.force_release();
            exec::settle();
        }
    }
    exec::settle();
    exec::advance(50);
    while let Some(p) = acc.accept() {
        drop(p);
    }
    r.hs.a.recv()?;
    inst.log.take();
    net::forget();
    ensure!(exec::panics().is_empty(), "panic", "{:?}", exec::panics());
    Ok(())
}
fn memory() -> CaseResult {
    exec::init(pick(&[exec::Policy::Fifo, exec::Policy::Lifo]));
    let ops: Vec<(usize, u64)> = (0..range(1, 3)).map(|_| (choose(CYCLES.len() as u64) as usize, choose(60))).collect();
    note(|| format!("repeated: {}", ops.iter().map(|(o, a)| format!("{} ({a})", CYCLES[*o])).collect::<Vec<_>>().join("; ")));
    for (o, _) in &ops {
        label(CYCLES[*o]);
    }
    // nothing may be drawn (and recorded) while memory is measured
    let src = simrt::choice::take();
    let res = (|| {
        let inst = instrument(config(64));
        let acc = net::listen(3000);
        let need = |p: u16| net::connect(p).ok_or_else(|| failure("not-listening", "nothing listens".into()));
        let mut r = Residents {
            raw: need(RAW)?,
            telnet: need(TELNET)?,
            hs: hs::open("", 0x0200)?,
            vx: vx::conn(CORE)?,
            vxa: vx::conn(ASYNC)?,
            ext: LockHandle::new(inst.shared.clone(), inst.device.clone()),
        };
        exec::settle();
        let mut runs = |n: usize| -> CaseResult {
            for _ in 0..n {
                for (o, a) in &ops {
                    cycle(*o, *a, &inst, &mut r, &acc)?;
                }
            }
            Ok(())
        };
        runs(24)?;
        let (a, t) = (live_bytes(), exec::live_tasks());
        runs(160)?;
        let (b, u) = (live_bytes(), exec::live_tasks());
        ensure!(u <= t, "task-leak", "160 repetitions left {} more tasks running", u - t);
        if b - a > 256 {
            // not necessarily for good: capacity may still grow a little
            runs(480)?;
            let c = live_bytes();
            ensure!(c - b < 480, "leak", "160 repetitions left {} more bytes allocated, 480 more another {}", b - a, c - b);
        }
        Ok(())
    })();
    if let Some(s) = src {
        simrt::choice::install(s)
    }
    nontrivial();
    res
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C30",
        rule: "a case counts if some client had to wait for the lock or the device at least twice. long: 240 to 66100 rounds of somebody locking the device while a drawn set of clients of all servers asks; non-trivial: every case. prompt (clients of all servers act the moment they have their answer): two or more locks granted and two or more queries",
        assumptions: &["the device mock records what it executes", "virtual network and clock"],
        parts: vec![Part { name: "exclusion", quick: 240_000, thorough: 3_200_000, run: exclusion }, Part { name: "long", quick: 800, thorough: 24_000, run: long::contention }, Part { name: "prompt", quick: 40_000, thorough: 1_200_000, run: long::prompt }],
    },
    Prop {
        id: "C31",
        rule: "every case: at least one hostile step, then queries of six bystanders and of six newcomers. siege: a cycle of one to four of 25 kinds of visit repeated 240 to 66000 times; non-trivial: every case",
        assumptions: &["the device mock records what it executes", "virtual network and clock"],
        parts: vec![Part { name: "hostile", quick: 150_000, thorough: 2_000_000, run: hostile }, Part { name: "siege", quick: 1_000, thorough: 30_000, run: long::siege }],
    },
    Prop {
        id: "C32",
        rule: "every case: a cycle of one to three of 18 kinds of use with random variations, repeated 184 times; bytes allocated and tasks running after 24 and after 184 repetitions are compared, and after 664 if there are more bytes",
        assumptions: &["virtual network and clock", "a leak of less than two bytes per repetition is not seen"],
        parts: vec![Part { name: "repetition", quick: 6_000, thorough: 240_000, run: memory }],
    }]
}
