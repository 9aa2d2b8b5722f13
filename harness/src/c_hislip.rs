//! C10-C16: the HiSLIP server.
use crate::c_lock::{self, Model};
use crate::dev::{respond, Ev};
use crate::engine::*;
use crate::hs::*;
use crate::net_util::policy;
use lxi_device::lock::{LockHandle, MutexGuard};
use lxi_hislip::common::errors::{FatalErrorCode, NonFatalErrorCode};
use lxi_hislip::common::messages::MessageType;
use lxi_hislip::common::Protocol;
use lxi_hislip::server::ServerConfig;
use simrt::exec;
use std::collections::{BTreeMap, BTreeSet};

const PROTOS: [u16; 7] = [0x0100, 0x0101, 0x0200, 0x0201, 0x0300, 0xffff, 0x0102];
const NAMES: [&str; 3] = ["hislip0", "hislip1", "inst 2"];

fn config(max_sessions: usize) -> ServerConfig {
    config2(max_sessions).0
}
fn config2(max_sessions: usize) -> (ServerConfig, bool) {
    let mut c = ServerConfig::default();
    let first = choose(2) == 0;
    if first {
        c = c.max_num_sessions(max_sessions);
    }
    // the last word counts
    let (mut c, overlap) = match choose(4) {
        0 => (c.prefer_overlap(), true),
        1 => (c.prefer_synchronized(), false),
        2 => (c.prefer_synchronized().prefer_overlap(), true),
        _ => (c.prefer_overlap().prefer_synchronized(), false),
    };
    if !first {
        c = c.max_num_sessions(max_sessions);
    }
    (c, overlap)
}
fn is_fatal(v: &[Msg], code: u8) -> bool {
    matches!(v, [m] if m.typ == FATAL && m.cc == code && m.param == 0)
}

// ------------------------------------------------------------------ C10
struct S10 {
    id: u16,
    dev: usize,
    s: Option<HConn>,
    a: Option<HConn>,
    had_async: bool,
}
fn establish() -> CaseResult {
    exec::init(policy());
    let max = pick(&[1usize, 2, 3, 5, 64]);
    let nd = range(1, 3) as usize;
    let vendor = choose(65536) as u16;
    let (cfg, overlap) = config2(max);
    let e = serve(cfg.vendor_id(vendor), &NAMES[..nd]);
    for (i, d) in e.devs.iter().enumerate() {
        d.log.set_stb([0x01, 0x42, 0x88][i]);
    }
    let mut ss: Vec<S10> = vec![];
    let mut dead: BTreeSet<u16> = BTreeSet::new();
    let (mut refused, mut seq) = (0, 0u32);
    let live = |ss: &Vec<S10>| ss.iter().filter(|s| s.s.is_some() || s.a.is_some()).count();
    for _ in 0..range(4, 24) {
        match weighted(&[6, 5, 3, 3, 3, 2, 2]) {
            0 => {
                // a batch of clients initializing at once
                let k = range(1, 3) as usize;
                let mut batch = vec![];
                for _ in 0..k {
                    let (name, dev): (Vec<u8>, Option<usize>) = match weighted(&[8, 2, 1, 1, 1]) {
                        0 => {
                            let d = choose(nd as u64) as usize;
                            (NAMES[d].into(), Some(d))
                        }
                        1 => (vec![], Some(0)),
                        2 => {
                            let n = NAMES[choose(nd as u64) as usize].as_bytes().to_vec();
                            let s = |v: &[&[u8]]| v.concat();
                            (
                                match choose(12) {
                                    0 => b"hislip9".to_vec(),
                                    1 => n.to_ascii_uppercase(),
                                    2 => n[..n.len() - 1].to_vec(),
                                    3 => b"inst0".to_vec(),
                                    4 => s(&[&n, b" "]),
                                    5 => s(&[&n, b"\0"]),
                                    6 => s(&[&n, b",0"]),
                                    7 => s(&[&n, b"\r\n"]),
                                    8 => s(&[b" ", &n]),
                                    9 => s(&[b"/", &n]),
                                    10 => s(&[&n, &n]),
                                    _ => s(&[b"\0", &n]),
                                },
                                None,
                            )
                        }
                        3 => (bytes(choose(300) as usize), None),
                        _ => (vec![0xff, 0xfe], None),
                    };
                    if dev.is_none() && (name.is_empty() || NAMES[..nd].iter().any(|n| n.as_bytes() == name)) {
                        continue;
                    }
                    let c = connect()?;
                    let (proto, ven) = (pick(&PROTOS), choose(65536) as u32);
                    let f = frame(INITIALIZE, 0, (proto as u32) << 16 | ven, &name);
                    // in pieces
                    let cut = choose(f.len() as u64) as usize;
                    c.p.write(&f[..cut]);
                    if choose(2) == 0 {
                        exec::run_steps(4)
                    }
                    note(|| format!("client initializes protocol {proto:#x} sub-address {}", show(&name)));
                    batch.push((c, f[cut..].to_vec(), dev, proto));
                }
                for (c, rest, ..) in &batch {
                    c.p.write(rest);
                }
                let free = max.saturating_sub(live(&ss));
                let mut granted = 0;
                let valid = batch.iter().filter(|b| b.2.is_some()).count();
                for (mut c, _, dev, proto) in batch {
                    let v = c.recv()?;
                    match (&v[..], dev) {
                        ([m], Some(d)) if m.typ == INIT_RESP => {
                            let id = m.param as u16;
                            note(|| format!("  session {id} on {:?}", NAMES[d]));
                            ensure!(m.cc == overlap as u8, "init-control", "InitializeResponse control {:#x}, overlap preferred: {overlap}", m.cc);
                            ensure!((m.param >> 16) as u16 == proto.min(0x0200), "init-protocol", "client protocol {proto:#x}, negotiated {:#x}", m.param >> 16);
                            ensure!(m.payload.is_empty(), "init-payload", "InitializeResponse with payload {}", show(&m.payload));
                            ensure!(!ss.iter().any(|s| s.id == id && (s.s.is_some() || s.a.is_some())), "id-clash", "session identifier {id} is already in use");
                            ensure!(!c.gone(), "hangup", "connection closed after InitializeResponse");
                            granted += 1;
                            dead.remove(&id);
                            ss.push(S10 { id, dev: d, s: Some(c), a: None, had_async: false });
                        }
                        (v, None) => {
                            ensure!((is_fatal(v, 3) || is_fatal(v, 4)) && c.gone(), "bad-subaddress", "unknown sub-address answered {v:?}, connection gone: {}", c.gone());
                            refused += 1;
                        }
                        (v, _) => {
                            ensure!(is_fatal(v, 4) && c.gone(), "refusal", "Initialize answered {v:?}, connection gone: {}", c.gone());
                            refused += 1;
                        }
                    }
                }
                ensure!(granted == free.min(valid), "session-limit", "{granted} of {valid} sessions granted, {free} of {max} were free");
            }
            1 => {
                // asynchronous channel
                let open: Vec<usize> = (0..ss.len()).filter(|i| ss[*i].s.is_some() && !ss[*i].had_async).collect();
                let taken: Vec<usize> = (0..ss.len()).filter(|i| ss[*i].a.is_some()).collect();
                let (id, want) = match choose(3) {
                    0 if !taken.is_empty() && chance(1, 2) => {
                        // nobody's identifier, but close to somebody's
                        let x = ss[choose(ss.len() as u64) as usize].id ^ pick(&[1u16, 2, 0x100, 0x8000, 0x7fff, 0xff00]);
                        if ss.iter().any(|s| s.id == x && (s.s.is_some() || s.a.is_some())) {
                            continue;
                        }
                        (x, None)
                    }
                    0 if !taken.is_empty() => (ss[pick(&taken)].id, None),
                    1 => {
                        let x = if !dead.is_empty() && choose(2) == 0 { *dead.iter().nth(choose(dead.len() as u64) as usize).unwrap() } else { choose(65536) as u16 };
                        if ss.iter().any(|s| s.id == x && (s.s.is_some() || s.a.is_some())) {
                            continue;
                        }
                        (x, None)
                    }
                    _ if !open.is_empty() => {
                        let i = pick(&open);
                        (ss[i].id, Some(i))
                    }
                    _ => continue,
                };
                // sometimes by several connections at once
                let k = if chance(1, 3) { range(2, 3) as usize } else { 1 };
                note(|| format!("AsyncInitialize of session {id} by {k} connections, valid: {}", want.is_some()));
                let f = frame(ASYNC_INIT, 0, id as u32, &[]);
                let mut cs = vec![];
                for _ in 0..k {
                    let c = connect()?;
                    let cut = choose(f.len() as u64 + 1) as usize;
                    c.p.write(&f[..cut]);
                    if k > 1 && choose(2) == 0 {
                        c.p.set_out_cap(choose(8) as usize);
                    }
                    cs.push((c, cut));
                }
                for (c, cut) in &cs {
                    c.p.write(&f[*cut..]);
                    if choose(2) == 0 {
                        exec::run_steps(choose(8));
                    }
                }
                for (mut c, _) in cs {
                    c.p.set_out_cap(1 << 20);
                    let v = c.recv()?;
                    match want {
                        Some(i) if matches!(&v[..], [m] if m.typ == ASYNC_INIT_RESP) => {
                            ensure!(matches!(&v[..], [m] if m.cc == 0 && m.param == vendor as u32 && m.payload.is_empty()), "async-init", "AsyncInitialize answered {v:?}, vendor id is {vendor:#x}");
                            ensure!(!c.gone(), "hangup", "connection closed after AsyncInitializeResponse");
                            ensure!(!ss[i].had_async, "async-init-accepted", "session {id} got a second asynchronous channel");
                            ss[i].a = Some(c);
                            ss[i].had_async = true;
                        }
                        _ => {
                            ensure!(is_fatal(&v, 3) && c.gone(), "async-init-accepted", "AsyncInitialize with the identifier of no session that waits for it ({id}) answered {v:?}, connection gone: {}", c.gone());
                            refused += 1;
                        }
                    }
                }
                ensure!(want.is_none_or(|i| ss[i].had_async), "async-init", "{k} AsyncInitialize for session {id}: none was accepted");
            }
            2 => {
                // use: the message reaches the device of the session
                let both: Vec<usize> = (0..ss.len()).filter(|i| ss[*i].s.is_some() && ss[*i].a.is_some()).collect();
                if both.is_empty() {
                    continue;
                }
                let s = &mut ss[pick(&both)];
                seq += 1;
                let (id, d) = (s.id, s.dev);
                note(|| format!("session {id} sends a query"));
                let cmd = format!("q{seq}").into_bytes();
                let r = s.s.as_mut().unwrap().call(DATA_END, 0, seq, &cmd)?;
                ensure!(r == Msg { typ: DATA_END, cc: 0, param: seq, payload: respond(&cmd).unwrap() }, "query", "session {id}: query answered {r:?}");
                let r = s.a.as_mut().unwrap().call(STATUS, 0, seq, &[])?;
                // everything has been received: no message is available
                ensure!(r.typ == STATUS_RESP && r.cc == [0x01, 0x42, 0x88][d] & 0xef, "query", "session {id} on device {d}: status query answered {r:?}");
                for (i, x) in e.devs.iter().enumerate() {
                    let ex: Vec<Ev> = x.log.take().into_iter().filter(|e| matches!(e, Ev::Exec(_))).collect();
                    let want = if i == d { vec![Ev::Exec(cmd.clone())] } else { vec![] };
                    ensure!(ex == want, "wrong-device", "session {id} of {:?}: {:?} executed {ex:?}", NAMES[d], x.name);
                }
            }
            3 => {
                // early use
                let early: Vec<usize> = (0..ss.len()).filter(|i| ss[*i].s.is_some() && !ss[*i].had_async).collect();
                if early.is_empty() {
                    continue;
                }
                let s = &mut ss[pick(&early)];
                let t = pick(&[DATA, DATA_END, TRIGGER]);
                note(|| format!("session {} uses message type {t} before the asynchronous channel exists", s.id));
                let c = s.s.as_mut().unwrap();
                c.send(t, 0, 0, if t == TRIGGER { b"" } else { b"x" });
                let v = c.recv()?;
                ensure!(is_fatal(&v, 2) && c.gone(), "half-open", "message type {t} with one channel answered {v:?}, connection gone: {}", c.gone());
                let ev = e.devs[s.dev].log.take_effects();
                ensure!(ev.is_empty(), "half-open", "message type {t} with one channel reached the device: {ev:?}");
                s.s = None;
                dead.insert(s.id);
                refused += 1;
            }
            4 => {
                // leave
                let any: Vec<usize> = (0..ss.len()).filter(|i| ss[*i].s.is_some() || ss[*i].a.is_some()).collect();
                if any.is_empty() {
                    continue;
                }
                let i = pick(&any);
                let how = choose(5);
                note(|| format!("session {} leaves ({how})", ss[i].id));
                let s = &mut ss[i];
                let f = |c: &mut Option<HConn>| {
                    if let Some(mut c) = c.take() {
                        if how == 3 {
                            c.p.reset()
                        }
                    }
                };
                match how {
                    0 => f(&mut s.s),
                    1 => {
                        // only once the other one is gone, or both
                        f(&mut s.a);
                        f(&mut s.s);
                    }
                    4 => {
                        if let Some(c) = &s.s {
                            c.p.write(&frame(DATA_END, 0, 1, b"never complete")[..choose(30) as usize]);
                        }
                        f(&mut s.s);
                        f(&mut s.a);
                    }
                    _ => {
                        f(&mut s.s);
                        f(&mut s.a);
                    }
                }
                if s.s.is_none() && s.a.is_none() {
                    dead.insert(s.id);
                }
                exec::settle();
            }
            5 => {
                // something else comes first
                let mut c = connect()?;
                let t = pick(&[DATA, DATA_END, TRIGGER, LOCK, STATUS, CLEAR_COMPLETE, ASYNC_CLEAR, INIT_RESP, ASYNC_INIT_RESP, MAX_SIZE, LOCK_INFO, 26, 28, 29, 32, 34]);
                note(|| format!("a client starts with message type {t}"));
                c.send(t, choose(4) as u8, choose(100) as u32, &bytes(choose(20) as usize));
                let v = c.recv()?;
                ensure!(is_fatal(&v, 3) && c.gone(), "uninitialized", "message type {t} before initialization answered {v:?}, connection gone: {}", c.gone());
            }
            _ => {
                // a client that leaves in the middle of its initialization
                let c = connect()?;
                let f = frame(INITIALIZE, 0, 0x01000000, b"hislip0");
                c.p.write(&f[..choose(f.len() as u64) as usize]);
                drop(c);
                exec::settle();
            }
        }
        for s in &ss {
            for c in [&s.s, &s.a].into_iter().flatten() {
                ensure!(!c.gone(), "hangup", "the server closed a connection of session {}", s.id);
            }
        }
    }
    if refused > 0 && ss.len() > 1 {
        nontrivial()
    }
    // everybody leaves: all sessions are available again
    drop(ss);
    exec::settle();
    let mut v = vec![];
    for i in 0..max.min(6) {
        v.push(open("", 0x0100).map_err(|f| failure("slots-leak", format!("session {i} of {max} after everybody left: {}", f.msg)))?);
    }
    Ok(())
}
/// The limit on sessions, whatever its size.
fn limit() -> CaseResult {
    exec::init(exec::Policy::Fifo);
    let max = pick(&[7usize, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300]);
    let _e = serve(config(max), &NAMES[..1]);
    note(|| format!("limit of {max} sessions"));
    let init = || -> Result<(HConn, Option<u16>), Fail> {
        let mut c = connect()?;
        c.p.set_chunking(simrt::net::Chunking::Whole, simrt::net::Chunking::Whole);
        c.send(INITIALIZE, 0, 0x0100_4142, b"");
        let v = c.recv()?;
        match &v[..] {
            [m] if m.typ == INIT_RESP => {
                let id = m.param as u16;
                Ok((c, Some(id)))
            }
            v => {
                ensure!(is_fatal(v, 4) && c.gone(), "refusal", "Initialize answered {v:?}");
                Ok((c, None))
            }
        }
    };
    let mut ss: Vec<(u16, HConn, Option<HConn>)> = vec![];
    for _ in 0..range(1, 3) {
        while ss.len() < max {
            let (c, id) = init()?;
            let Some(id) = id else { fail!("session-limit", "session {} of {max} was refused", ss.len() + 1) };
            ensure!(!ss.iter().any(|s| s.0 == id), "id-clash", "session identifier {id} is already in use");
            let a = if choose(2) == 0 {
                let mut a = connect()?;
                let q = a.call(ASYNC_INIT, 0, id as u32, &[])?;
                ensure!(q.typ == ASYNC_INIT_RESP, "initialize", "AsyncInitialize of session {id} answered {q:?}");
                Some(a)
            } else {
                None
            };
            ss.push((id, c, a));
        }
        for _ in 0..2 {
            ensure!(init()?.1.is_none(), "session-limit", "more than {max} sessions were granted");
        }
        for _ in 0..range(1, 4).min(ss.len() as u64) {
            ss.swap_remove(choose(ss.len() as u64) as usize);
        }
        exec::settle();
    }
    nontrivial();
    Ok(())
}
/// Identifiers stay unique when they wrap around while old sessions are still open.
fn wraparound() -> CaseResult {
    exec::init(exec::Policy::Fifo);
    let _e = serve(ServerConfig::default(), &NAMES[..1]);
    let mut keep: Vec<(u16, Sess)> = vec![];
    let total = range(33_000, 34_500);
    let mut marks: Vec<u64> = (0..range(2, 10)).map(|_| choose(total)).collect();
    marks.extend([0, 1]);
    for k in 0..total {
        let mut s = connect()?;
        s.p.set_chunking(simrt::net::Chunking::Whole, simrt::net::Chunking::Whole);
        let r = s.call(INITIALIZE, 0, 0x01000000, b"")?;
        ensure!(r.typ == INIT_RESP, "initialize", "Initialize number {k} answered {r:?}");
        let id = r.param as u16;
        ensure!(!keep.iter().any(|x| x.0 == id), "id-clash", "session identifier {id} given out a second time (number {k})");
        if marks.contains(&k) {
            let mut a = connect()?;
            let q = a.call(ASYNC_INIT, 0, id as u32, &[])?;
            ensure!(q.typ == ASYNC_INIT_RESP, "initialize", "AsyncInitialize number {k} answered {q:?}");
            note(|| format!("session {id} (number {k}) stays"));
            keep.push((id, Sess { s, a, id, proto: 0x100 }));
        } else {
            drop(s);
            exec::settle();
        }
    }
    nontrivial();
    for (id, s) in keep.iter_mut() {
        let r = s.s.call(DATA_END, 0, 3, b"x")?;
        ensure!(r.payload == b"<x", "query", "session {id} answers {r:?}");
        let r = s.a.call(STATUS, 0, 3, b"")?;
        ensure!(r.typ == STATUS_RESP, "query", "session {id} answers {r:?}");
    }
    Ok(())
}

/// Every session identifier there is, at once (the server gives out every other number).
fn all_ids() -> CaseResult {
    exec::init(exec::Policy::Fifo);
    let limit = pick(&[usize::MAX, 65_536, 32_768, 40_000]);
    let _e = serve(ServerConfig::default().max_num_sessions(limit), &NAMES[..1]);
    let init = |n: usize| -> Result<(HConn, Msg), Fail> {
        let mut s = connect()?;
        s.p.set_chunking(simrt::net::Chunking::Whole, simrt::net::Chunking::Whole);
        s.send(INITIALIZE, 0, 0x01000000, b"");
        let r = s.one(&format!("Initialize number {n}"))?;
        Ok((s, r))
    };
    let mut open: BTreeMap<u16, HConn> = BTreeMap::new();
    let mut last = 0;
    // a few leave on the way
    let leave: Vec<u64> = (0..choose(4)).map(|_| choose(32_000)).collect();
    let mut n = 0;
    let refused = loop {
        n += 1;
        if n % 1024 == 0 {
            alive();
        }
        let (s, r) = init(n)?;
        if r.typ != INIT_RESP {
            break r;
        }
        last = r.param as u16;
        ensure!(open.insert(last, s).is_none(), "id-clash", "session identifier {last} given out a second time (number {n})");
        if leave.contains(&(n as u64)) {
            open.remove(&last);
            exec::settle();
        }
        ensure!(open.len() <= limit.min(65_536), "limit", "{} sessions in spite of the limit {limit}", open.len());
    };
    ensure!(refused.typ == FATAL && refused.cc == 4, "limit", "Initialize number {n} answered {refused:?}");
    ensure!(open.len() >= 32_768, "limit", "a session is refused while only {} of {limit} are open", open.len());
    nontrivial();
    // whichever of them leave, there is room for as many more
    for k in 0..range(3, 10) {
        alive();
        let gone = range(1, 4);
        for _ in 0..gone {
            let id = match choose(3) {
                0 if open.contains_key(&last) => last,
                2 => *open.keys().next().unwrap(),
                _ => *open.keys().nth(choose(open.len() as u64) as usize).unwrap(),
            };
            note(|| format!("{} sessions, session {id} leaves; the last to come was {last}", open.len()));
            open.remove(&id);
        }
        exec::settle();
        for _ in 0..gone {
            let (s, r) = init(n)?;
            ensure!(r.typ == INIT_RESP, "limit", "after {gone} sessions have left, {} are open and a new one is refused: {r:?}", open.len());
            last = r.param as u16;
            ensure!(open.insert(last, s).is_none(), "id-clash", "session identifier {last} given out a second time ({k})");
        }
        if choose(2) == 0 {
            let (_, r) = init(n)?;
            ensure!(r.typ == FATAL && r.cc == 4, "limit", "with {} sessions another one is answered {r:?}", open.len());
        }
    }
    let (id, s) = open.iter_mut().nth(range(0, 32_000) as usize).unwrap();
    let mut a = connect()?;
    let q = a.call(ASYNC_INIT, 0, *id as u32, &[])?;
    ensure!(q.typ == ASYNC_INIT_RESP, "initialize", "AsyncInitialize of session {id} answered {q:?}");
    let r = s.call(DATA_END, 0, 3, b"x")?;
    ensure!(r.payload == b"<x", "query", "session {id} answers {r:?}");
    Ok(())
}

// ------------------------------------------------------------------ C11
struct S11 {
    key: u8,
    sess: Sess,
    max: u64,
    out: Vec<u8>,
    at: usize,
    /// what must come back: message id, content, and whether it may be missing (empty)
    want: Vec<(u32, Vec<u8>)>,
    cmds: Vec<Vec<u8>>,
    got: Vec<Msg>,
}
fn transfer() -> CaseResult {
    exec::init(policy());
    let smax = pick(&[1u64 << 20, 64, 256, 1000, 17]);
    let short: Option<Vec<u8>> = if choose(2) == 0 { Some(b"ACME,1,2,3".to_vec()) } else { None };
    let mut cfg = config(64).max_message_size(smax);
    if let Some(s) = &short {
        cfg = cfg.short_idn(s);
    }
    let nd = range(1, 2) as usize;
    let e = serve(cfg, &NAMES[..nd]);
    let n = range(1, 3) as usize;
    let mut ss = vec![];
    let (mut pieces, mut chunks) = (0, 0);
    for k in 0..n {
        let d = choose(nd as u64) as usize;
        let sess = open(NAMES[d], pick(&PROTOS[..3]))?;
        ss.push(S11 { key: b'A' + k as u8, sess, max: 256, out: vec![], at: 0, want: vec![], cmds: vec![], got: vec![] });
    }
    let mut idns = 0;
    for _round in 0..range(1, 3) {
        for s in ss.iter_mut() {
            if choose(2) == 0 {
                let m = pick(&[1u64, 2, 7, 16, 255, 256, 257, 1000, 1 << 20, u64::MAX, 1 << 63, 0, 0x1_0000_0000]);
                note(|| format!("session {}: client accepts {m} bytes", s.key as char));
                let r = s.sess.a.call(MAX_SIZE, 0, 0, &m.to_be_bytes())?;
                ensure!(r == Msg { typ: MAX_SIZE_RESP, cc: 0, param: 0, payload: smax.to_be_bytes().to_vec() }, "max-size", "AsyncMaximumMessageSize answered {r:?}; the server's limit is {smax}");
                s.max = m;
            }
            if choose(2) == 0 {
                s.sess.s.p.set_out_cap(pick(&[1usize, 15, 16, 17, 40, 300]));
            } else {
                s.sess.s.p.set_out_cap(1 << 20);
            }
            let limit = if s.max < 16 { 60 } else { 5000 };
            let mut id = word();
            for _ in 0..range(0, 4) {
                id = id.wrapping_add(2);
                let mut cmd = match weighted(&[5, 2, 4, if short.is_some() || n == 1 { 2 } else { 0 }, if n == 1 { 1 } else { 0 }]) {
                    0 => vec![s.key],
                    1 => vec![b'!', s.key],
                    2 => {
                        let e = if s.max > 2 && s.max < 2000 { s.max } else { 256 };
                        let mut v = format!("#{}", size(limit, &[1, e - 1, e, 2 * e, 3 * e + 1, 256]).min(limit)).into_bytes();
                        v.push(s.key);
                        v
                    }
                    3 => {
                        idns += 1;
                        let mut v: Vec<u8> = b"*IDN?".iter().map(|c| if choose(2) == 0 { c.to_ascii_lowercase() } else { *c }).collect();
                        if n == 1 && chance(1, 3) {
                            // almost the identification query: one for the device
                            match choose(7) {
                                0 => v.push(b'\n'),
                                1 => v.insert(0, b' '),
                                2 => v.extend(b";*OPC?"),
                                3 => v.truncate(4),
                                4 => v.push(b' '),
                                5 => v.insert(0, b'*'),
                                _ => v[0] = b'?',
                            }
                        }
                        v
                    }
                    _ => vec![],
                };
                if cmd.len() > 0 && matches!(cmd[0], b'!' | b'#' | b'A'..=b'C') {
                    let l = size(2000, &[smax, 256]) as usize;
                    cmd.extend(if choose(2) == 0 { bytes(l) } else { (0..l).map(|_| b'x').collect() });
                }
                // in pieces not larger than the server accepts
                let each = choose(2) == 0;
                let (mut at, mut tiny) = (0, 0);
                loop {
                    let left = cmd.len() - at;
                    tiny += 1;
                    let k = if tiny > 20 || choose(3) == 0 { left } else { choose(left as u64 + 1) as usize }.min(smax as usize);
                    let last = at + k == cmd.len() && (tiny > 20 || choose(8) < 7);
                    s.out.extend(frame(if last { DATA_END } else { DATA }, pick(&[0, 1, 0, 1, 2, 0x7e, 0x80, 0xff]), id, &cmd[at..at + k]));
                    at += k;
                    if last {
                        break;
                    }
                    // one identifier per piece, the answer carries that of the last
                    if each {
                        id = id.wrapping_add(2);
                    }
                    pieces += 1;
                }
                note(|| format!("session {}: message {id:#x} {}", s.key as char, show(&cmd)));
                match &short {
                    Some(i) if cmd.eq_ignore_ascii_case(b"*IDN?") => s.want.push((id, i.clone())),
                    _ => {
                        s.cmds.push(cmd.clone());
                        if let Some(r) = respond(&cmd) {
                            s.want.push((id, r));
                        }
                    }
                }
            }
        }
        // everybody sends and reads in arbitrary portions
        loop {
            let busy: Vec<usize> = (0..n).filter(|i| ss[*i].at < ss[*i].out.len()).collect();
            if busy.is_empty() {
                break;
            }
            let s = &mut ss[pick(&busy)];
            let k = match choose(3) {
                0 => s.out.len() - s.at,
                1 => range(1, 40).min((s.out.len() - s.at) as u64) as usize,
                _ => range(1, (s.out.len() - s.at) as u64) as usize,
            };
            s.sess.s.p.write(&s.out[s.at..s.at + k]);
            s.at += k;
            match choose(3) {
                0 => exec::run_steps(choose(6)),
                1 => exec::settle(),
                _ => {}
            }
            if choose(3) == 0 {
                s.sess.s.poll()?;
            }
        }
        // until nothing moves for anybody
        loop {
            let mut any = false;
            for s in ss.iter_mut() {
                let v = s.sess.s.recv()?;
                any |= !v.is_empty();
                s.got.extend(v);
            }
            if !any {
                break;
            }
        }
        for s in ss.iter_mut() {
            let k = s.key as char;
            ensure!(!s.sess.s.gone() && !s.sess.a.gone(), "hangup", "session {k}: connection closed");
            let mut it = std::mem::take(&mut s.got).into_iter().peekable();
            for (id, content) in std::mem::take(&mut s.want) {
                if content.is_empty() {
                    // an empty response may be sent as an empty message or not at all
                    if matches!(it.peek(), Some(m) if m.typ == DATA_END && m.param == id && m.payload.is_empty()) {
                        it.next();
                    }
                    continue;
                }
                let mut data = vec![];
                loop {
                    let Some(m) = it.next() else { fail!("missing", "session {k}: response to {id:#x} ends after {} of {} bytes", data.len(), content.len()) };
                    ensure!(m.typ == DATA || m.typ == DATA_END, "response", "session {k}: got {m:?} in the response to {id:#x}");
                    ensure!(m.param == id, "message-id", "session {k}: response piece carries {:#x}, the query was {id:#x}", m.param);
                    ensure!(s.max == 0 || m.payload.len() as u64 <= s.max, "too-large", "session {k}: {} bytes sent in one message, the client accepts {}", m.payload.len(), s.max);
                    chunks += 1;
                    data.extend(&m.payload);
                    if m.typ == DATA_END {
                        break;
                    }
                }
                chunks -= 1;
                ensure!(data == content, "content", "session {k}: response to {id:#x} is {} expected {}", show(&data), show(&content));
            }
            let rest: Vec<Msg> = it.collect();
            ensure!(rest.is_empty(), "surplus", "session {k}: unexpected {rest:?}");
            let v = s.sess.a.recv()?;
            ensure!(v.is_empty(), "surplus", "session {k}: unexpected {v:?} on the asynchronous channel");
        }
        let mut all: Vec<Vec<u8>> = e.devs.iter().flat_map(|d| d.log.take()).filter_map(|e| if let Ev::Exec(c) = e { Some(c) } else { None }).collect();
        for s in ss.iter_mut() {
            let want = std::mem::take(&mut s.cmds);
            let mine = |c: &Vec<u8>| {
                n == 1
                    || match c.first() {
                        Some(b'!') => c.get(1) == Some(&s.key),
                        Some(b'#') => c.iter().skip(1).find(|c| !c.is_ascii_digit()) == Some(&s.key),
                        Some(c) => *c == s.key,
                        None => false,
                    }
            };
            let got: Vec<Vec<u8>> = all.iter().filter(|c| mine(c)).cloned().collect();
            ensure!(got == want, "executed", "session {}: executed {:?}, sent {:?}", s.key as char, got.iter().map(|c| show(c)).collect::<Vec<_>>(), want.iter().map(|c| show(c)).collect::<Vec<_>>());
            all.retain(|c| !mine(c));
        }
        ensure!(all.is_empty(), "executed", "nobody sent {:?}", all.iter().map(|c| show(c)).collect::<Vec<_>>());
    }
    if idns > 0 {
        label("identification queries")
    }
    if pieces > 0 && chunks > 0 {
        nontrivial()
    }
    Ok(())
}

/// Large messages, messages of very many parts, and very many messages.
fn bulk() -> CaseResult {
    exec::init(policy());
    let smax = pick(&[1u64 << 20, 65_536, 65_535, 4096, 100_000]);
    let e = serve(config(64).max_message_size(smax), &NAMES[..1]);
    let mut s = open("", pick(&PROTOS[..3]))?;
    s.s.p.set_chunking(simrt::net::Chunking::Whole, simrt::net::Chunking::Whole);
    s.a.p.set_chunking(simrt::net::Chunking::Whole, simrt::net::Chunking::Whole);
    let max = pick(&[256u64, 4095, 65_535, 65_536, 1 << 20, 1 << 32]);
    s.a.call(MAX_SIZE, 0, 0, &max.to_be_bytes())?;
    s.s.p.set_out_cap(pick(&[4096usize, 65_536, 1 << 20]));
    let edges = [255, 256, 4095, 4096, 8192, 32_767, 65_535, 65_536, 65_537, 131_072, 262_144];
    let mut id = word();
    let many = chance(1, 4);
    for k in 0..if many { range(200, 600) } else { range(1, 3) } {
        id = id.wrapping_add(2);
        let answer = if many { choose(300) } else { size(300_000, &edges) };
        let mut cmd = match choose(3) {
            0 => format!("!{k}").into_bytes(),
            1 => format!("#{answer}A").into_bytes(),
            _ => b"A".to_vec(),
        };
        let l = if many { choose(40) } else { size(200_000, &edges) };
        let a = cmd.len();
        cmd.extend((a..l as usize).map(|i| (i.wrapping_mul(17) ^ (i >> 8)) as u8 | 0x80));
        let parts = if many { 1 } else { pick(&[1usize, 2, 3, 255, 256, 257, 600]) };
        let parts = parts.max(cmd.len() / smax as usize + 1);
        note(|| format!("message {id:#x}: {} in {parts} parts", show(&cmd)));
        let step = cmd.len().div_ceil(parts).min(smax as usize).max(1);
        let mut it = cmd.chunks(step).peekable();
        while let Some(c) = it.next() {
            s.s.send(if it.peek().is_none() { DATA_END } else { DATA }, 0, id, c);
        }
        let v = s.s.recv()?;
        let ex = e.devs[0].log.take_effects();
        ensure!(ex == vec![Ev::Exec(cmd.clone())], "executed", "message of {} bytes in {parts} parts: executed {} messages, the first of {:?} bytes", cmd.len(), ex.len(), ex.first().map(|e| if let Ev::Exec(c) = e { c.len() } else { 0 }));
        let want = respond(&cmd).unwrap_or_default();
        let mut got: Vec<u8> = vec![];
        for (i, m) in v.iter().enumerate() {
            ensure!(m.param == id && m.typ == if i + 1 == v.len() { DATA_END } else { DATA } && m.payload.len() as u64 <= max, "response", "piece {i} of {} of the response to {id:#x} of {} bytes to a client that accepts {max}: type {} parameter {:#x} with {} bytes", v.len(), want.len(), m.typ, m.param, m.payload.len());
            got.extend(&m.payload);
        }
        ensure!(got == want, "content", "response has {} bytes, expected {}; equal up to {:?}", got.len(), want.len(), got.iter().zip(&want).position(|(a, b)| a != b));
    }
    nontrivial();
    if many {
        label("hundreds of messages")
    }
    Ok(())
}

// ------------------------------------------------------------------ C12
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Ch {
    Fresh,
    Sync,
    Async,
}
#[derive(Clone, Debug, PartialEq)]
pub enum React {
    Nothing,
    Anything,
    /// an empty response may be sent as an empty message or not at all
    Empty,
    Err(Option<u8>),
    /// a message type of the other channel or direction: unrecognized here, or not further identified
    Misplaced,
    Fatal(Option<u8>),
    Exactly(Msg),
}
/// A message the channel is not meant for, or a damaged one, and what must come of it.
pub fn odd(ch: Ch, proto: u16, max: u64) -> (Vec<u8>, React, String) {
    let tls = proto >= 0x0200;
    let pl = |m: u64| bytes(choose(m.min(max) + 1) as usize);
    let rnd = |t: u8| frame(t, choose(256) as u8, word(), &pl(20));
    match weighted(&[3, 3, 2, 3, 1, 6]) {
        0 => {
            let t = range(39, 127) as u8;
            (frame(t, choose(256) as u8, 5, &pl(40)), React::Err(Some(1)), format!("unknown type {t}"))
        }
        1 => {
            let t = range(128, 255) as u8;
            (frame(t, choose(256) as u8, 5, &pl(40)), React::Err(Some(3)), format!("vendor type {t}"))
        }
        2 => (rnd(pick(&[ERROR, FATAL])), React::Nothing, "client error".into()),
        3 => {
            let n = max as usize + pick(&[1usize, 1, 2, 16, 17, 100, 5000]);
            // what it contains must not be taken for messages
            let mut p = vec![];
            while p.len() < n {
                p.extend(match choose(3) {
                    0 => frame(DATA_END, 0, 9, b"!bad"),
                    1 => frame(LOCK, 1, 0, b""),
                    _ => bytes(7),
                });
            }
            p.truncate(n);
            let t = pick(&[DATA, DATA_END, LOCK, STATUS, INITIALIZE, 99, 200]);
            (frame(t, 1, 5, &p), React::Err(Some(4)), format!("type {t} with {n} bytes where {max} are allowed"))
        }
        4 => {
            let mut f = rnd(pick(&[DATA_END, STATUS, INITIALIZE]));
            f[choose(2) as usize] ^= 1 << choose(8);
            (f, React::Fatal(Some(1)), "wrong prologue".into())
        }
        _ => match ch {
            Ch::Fresh => {
                let t = pick(&[1u8, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38]);
                (rnd(t), React::Fatal(Some(3)), format!("type {t}"))
            }
            Ch::Sync => {
                let t = pick(&[0u8, 1, 4, 5, 8, 9, 10, 11, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38]);
                let r = match t {
                    26 => React::Anything,
                    28 | 31 | 34 | 36 | 37 if tls => React::Fatal(Some(5)),
                    _ => React::Misplaced,
                };
                (rnd(t), r, format!("type {t}"))
            }
            Ch::Async => match choose(4) {
                0 => {
                    let r = range(7, 255) as u8;
                    (frame(RL, r, 1, b""), React::Err(Some(2)), format!("remote/local request {r}"))
                }
                1 => {
                    let n = pick(&[0usize, 1, 4, 7, 9, 16]);
                    (frame(MAX_SIZE, 0, 0, &bytes(n)), React::Fatal(Some(1)), format!("maximum size message with {n} bytes"))
                }
                2 => (
                    frame(LOCK, 1, pick(&[0, 1000]), &[b'k', 0xc3, 0x28]),
                    React::Exactly(Msg { typ: LOCK_RESP, cc: 3, param: 0, payload: vec![] }),
                    "lock with an undecodable key".into(),
                ),
                _ => {
                    let t = pick(&[0u8, 1, 5, 6, 7, 8, 9, 11, 12, 13, 14, 16, 17, 18, 20, 22, 23, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 29, 32]);
                    let p = bytes(pick(&[4usize, 4, 0, 1, 3, 5, 8]).min(max as usize));
                    let r = match t {
                        29 if tls => React::Fatal(if p.len() == 4 { Some(5) } else { Some(1) }),
                        32 if tls => React::Fatal(if p.len() == 4 { Some(5) } else { None }),
                        _ => React::Misplaced,
                    };
                    (frame(t, choose(256) as u8, word(), &p), r, format!("type {t} with {} bytes", p.len()))
                }
            },
        },
    }
}
fn framing() -> CaseResult {
    exec::init(policy());
    let max = pick(&[4096u64, 16, 64, 300, 1000]);
    let e = serve(config(64).max_message_size(max), &NAMES[..1]);
    let dev = &e.devs[0].log;
    let mut other = open("", 0x0100)?;
    let mut odds = 0;
    for _ in 0..range(1, 5) {
        let ch = pick(&[Ch::Fresh, Ch::Sync, Ch::Async]);
        let proto = pick(&PROTOS);
        let mut sess = None;
        let mut fresh = None;
        match ch {
            Ch::Fresh => fresh = Some(connect()?),
            _ => sess = Some(open("hislip0", proto)?),
        }
        dev.take();
        let c = match (ch, &mut sess, &mut fresh) {
            (Ch::Fresh, _, Some(c)) => c,
            (Ch::Sync, Some(s), _) => &mut s.s,
            (_, Some(s), _) => &mut s.a,
            _ => unreachable!(),
        };
        c.p.set_out_cap(pick(&[1usize << 20, 1, 20]));
        let mut closed = false;
        // a message of which something is still to come
        let mut part: Option<Vec<u8>> = None;
        for _ in 0..range(1, 4) {
            // a few messages in one go
            let mut out = vec![];
            let mut want: Vec<(React, String)> = vec![];
            let mut cmds = vec![];
            for _ in 0..range(1, 4) {
                if choose(3) > 0 {
                    let (f, r, what) = odd(ch, proto, max);
                    if part.is_some() && (f[2] == DATA || f[2] == DATA_END) {
                        // what is left of a message without one of its parts is nobody's business
                        continue;
                    }
                    odds += 1;
                    out.extend(f);
                    let last = matches!(r, React::Fatal(_) | React::Anything);
                    want.push((r, what));
                    if last {
                        break;
                    }
                } else {
                    match ch {
                        Ch::Fresh => {}
                        Ch::Sync => {
                            let id = word();
                            let piece = bytes(choose(10) as usize);
                            if choose(3) == 0 {
                                out.extend(frame(DATA, 0, id, &piece));
                                part.get_or_insert_with(Vec::new).extend(&piece);
                                continue;
                            }
                            out.extend(frame(DATA_END, 0, id, &piece));
                            let mut cmd = part.take().unwrap_or_default();
                            cmd.extend(&piece);
                            if let Some(r) = respond(&cmd).filter(|r| r.len() <= 256) {
                                if !r.is_empty() {
                                    want.push((React::Exactly(Msg { typ: DATA_END, cc: 0, param: id, payload: r }), "query".into()));
                                } else {
                                    want.push((React::Empty, "query".into()));
                                }
                            }
                            cmds.push(cmd);
                        }
                        Ch::Async => {
                            out.extend(frame(LOCK_INFO, 0, 0, b""));
                            want.push((React::Exactly(Msg { typ: LOCK_INFO_RESP, cc: 0, param: 0, payload: vec![] }), "lock info".into()));
                        }
                    }
                }
            }
            note(|| format!("{ch:?} channel, protocol {proto:#x}: {want:?}"));
            if chance(1, 3) {
                // in portions
                let mut at = 0;
                while at < out.len() {
                    let k = range(1, (out.len() - at) as u64) as usize;
                    c.p.write(&out[at..at + k]);
                    at += k;
                    exec::run_steps(choose(20));
                }
            } else {
                c.p.write(&out);
            }
            let got = c.recv()?;
            let mut it = got.iter().peekable();
            for (r, what) in &want {
                match r {
                    React::Nothing => {}
                    React::Anything => {
                        if matches!(it.peek(), Some(m) if (m.typ == ERROR && m.cc != 4 && m.cc != 3 && m.cc != 1) || m.typ == 27) {
                            it.next();
                        }
                    }
                    React::Empty => {
                        if matches!(it.peek(), Some(m) if m.typ == DATA_END && m.payload.is_empty()) {
                            it.next();
                        }
                    }
                    _ => {
                        let Some(m) = it.next() else { fail!("unanswered", "{ch:?} channel: {what}: no answer (received {got:?}, gone: {})", c.gone()) };
                        let ok = match r {
                            React::Misplaced => m.typ == ERROR && m.param == 0 && m.cc <= 1,
                            React::Err(k) => m.typ == ERROR && m.param == 0 && k.map_or(true, |k| m.cc == k),
                            React::Fatal(k) => m.typ == FATAL && m.param == 0 && k.map_or(true, |k| m.cc == k),
                            React::Exactly(x) => m == x,
                            _ => false,
                        };
                        ensure!(ok, "reaction", "{ch:?} channel, protocol {proto:#x}: {what}: answered {m:?}, expected {r:?}");
                        closed |= m.typ == FATAL;
                    }
                }
            }
            let rest: Vec<_> = it.collect();
            ensure!(rest.is_empty(), "surplus", "{ch:?} channel: unexpected {rest:?} after {want:?}");
            ensure!(c.gone() == closed, "closing", "{ch:?} channel: connection gone: {}, fatal error: {closed}", c.gone());
            let ev: Vec<Ev> = dev.take_effects();
            let w: Vec<Ev> = cmds.into_iter().map(Ev::Exec).collect();
            ensure!(ev == w, "effect", "{ch:?} channel: device saw {ev:?}, expected {w:?}");
            if closed {
                break;
            }
        }
        // the connection is still good for its purpose
        if !closed {
            match ch {
                Ch::Fresh => {
                    let r = c.call(INITIALIZE, 0, 0x01000000, b"")?;
                    ensure!(r.typ == INIT_RESP, "out-of-step", "Initialize answered {r:?}");
                }
                Ch::Sync => {
                    if let Some(b) = part.take() {
                        c.send(DATA_END, 0, 7, b"");
                        c.recv()?;
                        let ev: Vec<Ev> = dev.take_effects();
                        ensure!(ev == [Ev::Exec(b.clone())], "effect", "{ch:?} channel: device saw {ev:?}, expected {}", show(&b));
                    }
                    let r = c.call(DATA_END, 0, 8, b"ok")?;
                    ensure!(r.payload == b"<ok", "out-of-step", "query answered {r:?}");
                }
                Ch::Async => {
                    let r = c.call(STATUS, 0, 8, b"")?;
                    ensure!(r.typ == STATUS_RESP, "out-of-step", "status query answered {r:?}");
                }
            }
        }
        let r = other.s.call(DATA_END, 0, 2, b"fine")?;
        ensure!(r.payload == b"<fine", "bystander", "another session's query answered {r:?}");
        let r = other.a.call(LOCK_INFO, 0, 0, b"")?;
        ensure!((r.typ, r.cc, r.param) == (LOCK_INFO_RESP, 0, 0), "bystander", "lock info after undecodable or misplaced messages: {r:?}");
        dev.take();
    }
    if odds > 1 {
        nontrivial()
    }
    Ok(())
}
/// Connections that end anywhere: only complete messages take effect.
fn cut() -> CaseResult {
    exec::init(policy());
    let max = pick(&[1u64 << 20, 400]);
    let e = serve(config(64).max_message_size(max), &NAMES[..1]);
    let dev = &e.devs[0].log;
    let mut s = open("", pick(&PROTOS))?;
    dev.take();
    let on_async = chance(1, 3);
    let mut out = vec![];
    let mut ends = vec![];
    let mut buf: Vec<u8> = vec![];
    // device effects and lock state after each message
    let mut after: Vec<(usize, bool, u32)> = vec![];
    let mut ev: Vec<Ev> = vec![];
    let (mut x, mut sh) = (false, 0);
    for _ in 0..range(1, 4) {
        if on_async {
            let k = pick(&["", "key", "another key which is longer"]);
            let r = choose(3);
            if r == 0 {
                out.extend(frame(LOCK, 0, 0, b""));
                x = false;
                sh = 0;
            } else if r == 1 {
                out.extend(frame(LOCK, 1, 0, k.as_bytes()));
                if k.is_empty() {
                    x = true
                } else if !x {
                    sh = 1
                }
            } else {
                out.extend(frame(RL, 4, 0, &bytes(choose(4) as usize)));
                ev.push(Ev::Lockout(true));
            }
        } else {
            let d = bytes(range(1, 60) as usize);
            if chance(1, 4) {
                out.extend(frame(DATA, 0, 3, &d));
                buf.extend(d);
            } else if chance(1, 5) {
                out.extend(frame(TRIGGER, 0, 3, &d[..1]));
                ev.push(Ev::Trigger("Bus".into()));
            } else {
                out.extend(frame(DATA_END, 0, 3, &d));
                buf.extend(d);
                ev.push(Ev::Exec(std::mem::take(&mut buf)));
            }
        }
        ends.push(out.len());
        after.push((ev.len(), x, sh));
    }
    let at = choose(out.len() as u64 + 1) as usize;
    let how = choose(3);
    note(|| format!("{} channel, {at} of {} bytes, messages end at {ends:?}, then {}", if on_async { "asynchronous" } else { "synchronous" }, out.len(), ["half-close", "close", "reset"][how as usize]));
    let c = if on_async { &mut s.a } else { &mut s.s };
    c.p.write(&out[..at]);
    let whole = ends.iter().filter(|e| **e <= at).count();
    let settled = how == 2 || choose(2) == 0;
    if settled {
        exec::settle();
    }
    let answered = if how == 0 { c.recv()?.len() } else { 0 };
    match how {
        0 => c.p.shutdown_write(),
        1 => c.p.close(),
        _ => c.p.reset(),
    }
    exec::settle();
    if how == 0 {
        let v = c.recv()?;
        ensure!(v.is_empty(), "truncated-answered", "a truncated message was answered with {v:?} (after {answered} answers)");
    }
    ensure!(c.gone(), "leak", "the server keeps a connection that has ended");
    let got = dev.take_effects();
    let (n, x, sh) = if whole == 0 { (0, false, 0) } else { after[whole - 1] };
    // a client that is not there for the response of one message need not see the next one executed
    let missing = how != 0 && !settled && ev[..n].starts_with(&got);
    ensure!(missing || got[..] == ev[..n], "truncated-executed", "device saw {got:?}; {whole} messages were complete, worth {:?}", &ev[..n]);
    if on_async {
        let l = e.devs[0].shared.lock();
        let (gx, gs) = (l.exclusive_lock(), l.num_shared_locks());
        drop(l);
        // what a session that lost one channel holds is not determined beyond what it asked for
        let fits = |x: bool, sh: u32| (!gx || x) && gs <= sh;
        let early = how != 0 && !settled && after[..whole].iter().any(|a| fits(a.1, a.2));
        ensure!(early || fits(x, sh), "truncated-executed", "locks after the cut: exclusive {gx}, shared {gs}; complete messages asked for exclusive {x}, shared {sh}");
    }
    if whole < ends.len() && at > ends.get(whole.wrapping_sub(1)).copied().unwrap_or(0) {
        nontrivial()
    }
    Ok(())
}
/// Arbitrary bytes on any channel: nothing but that connection suffers, memory stays within the message limit.
fn garbage() -> CaseResult {
    exec::init(policy());
    let max = pick(&[1u64 << 16, 100, 4096, u64::MAX]);
    let e = serve(config(64).max_message_size(max), &NAMES[..1]);
    let mut other = open("", 0x0101)?;
    let mut s = open("", pick(&PROTOS))?;
    let which = choose(3);
    let mut fresh = connect()?;
    exec::settle();
    e.devs[0].log.take();
    let mut out = vec![];
    let mut headers = 0;
    for _ in 0..range(1, 6) {
        match choose(4) {
            0 => out.extend(bytes(choose(80) as usize)),
            1 => {
                // a header that promises too much
                headers += 1;
                out.extend([b'H', b'S', pick(&[DATA, DATA_END, INITIALIZE, LOCK, MAX_SIZE, 77, 222, STATUS]), choose(256) as u8]);
                out.extend(bytes(4));
                let n = pick(&[u64::MAX, 1 << 63, (1 << 63) - 1, 1 << 62, 1 << 48, max, max.saturating_add(1)]);
                if max == u64::MAX && n < 1 << 48 || max == u64::MAX && n == max && false {
                    continue;
                }
                out.extend(n.to_be_bytes());
            }
            _ => {
                let mut f = frame(choose(256) as u8, choose(256) as u8, word(), &bytes(choose(30) as usize));
                if choose(3) == 0 {
                    let i = choose(f.len() as u64) as usize;
                    f[i] = choose(256) as u8;
                    // lengths in between could be satisfied by the machine and tell nothing
                    if (8..14).contains(&i) && max == u64::MAX {
                        f[i] = 0
                    }
                }
                out.extend(f)
            }
        }
    }
    note(|| format!("limit {max}, channel {which}: {}", out.iter().map(|b| format!("{b:02x}")).collect::<String>()));
    let c = match which {
        0 => &mut s.s,
        1 => &mut s.a,
        _ => &mut fresh,
    };
    reset_peak();
    let base = live_bytes();
    let mut at = 0;
    while at < out.len() {
        let k = range(1, (out.len() - at) as u64) as usize;
        c.p.write(&out[at..at + k]);
        at += k;
        exec::settle();
        let _ = c.recv();
    }
    if max < u64::MAX {
        let used = peak_bytes() - base;
        ensure!(used < (2 * max as isize) + (1 << 17), "memory", "{used} bytes allocated for {} bytes received, message limit {max}", out.len());
    }
    if choose(2) == 0 {
        c.p.shutdown_write();
        exec::settle();
        ensure!(c.gone(), "leak", "the server keeps a connection that has ended");
    } else {
        c.p.reset();
        exec::settle();
    }
    drop(s);
    drop(fresh);
    exec::settle();
    let r = other.s.call(DATA_END, 0, 2, b"fine")?;
    ensure!(r.payload == b"<fine", "bystander", "another session's query answered {r:?}");
    let r = other.a.call(LOCK_INFO, 0, 0, b"")?;
    ensure!((r.typ, r.cc, r.param) == (LOCK_INFO_RESP, 0, 0), "bystander", "lock info: {r:?}");
    open("", 0x0200)?;
    if headers > 0 {
        nontrivial()
    }
    Ok(())
}

/// Messages far beyond the limit: skipped to their last byte when that comes, and for ever when it does not.
fn oversize() -> CaseResult {
    exec::init(policy());
    let max = pick(&[1u64 << 20, 4096, 100, 65_535]);
    let e = serve(config(64).max_message_size(max), &NAMES[..1]);
    let dev = &e.devs[0].log;
    let mut other = open("", 0x0100)?;
    let mut s = open("", pick(&PROTOS[..3]))?;
    let on_async = chance(1, 3);
    dev.take();
    let probe = if on_async { frame(LOCK, 1, 0, b"") } else { frame(DATA_END, 0, 7, b"probe") };
    let c = if on_async { &mut s.a } else { &mut s.s };
    c.p.set_chunking(simrt::net::Chunking::Whole, simrt::net::Chunking::Whole);
    let typ = pick(&[DATA, DATA_END, LOCK, STATUS, TRIGGER, 99]);
    let ends = chance(1, 2);
    if ends {
        let n = (max + pick(&[1u64, 255, 65_535, 65_536, 65_537, 131_072])) as usize;
        note(|| format!("{n} bytes where {max} are allowed"));
        let mut p = vec![];
        while p.len() < n {
            p.extend(&probe)
        }
        p.truncate(n);
        let mut f = frame(typ, 1, 5, &p);
        f.extend(&probe);
        let at = range(0, f.len() as u64) as usize;
        c.p.write(&f[..at]);
        exec::settle();
        c.p.write(&f[at..]);
        let v = c.recv()?;
        ensure!(v.len() == 2 && v[0].typ == ERROR && v[0].cc == 4, "reaction", "a message of {n} bytes and a valid one were answered {v:?}");
        let ok = if on_async { v[1] == Msg { typ: LOCK_RESP, cc: 1, param: 0, payload: vec![] } } else { v[1] == Msg { typ: DATA_END, cc: 0, param: 7, payload: b"<probe".to_vec() } };
        ensure!(ok, "out-of-step", "after a message of {n} bytes a valid one was answered {:?}", v[1]);
        let ev = dev.take_effects();
        ensure!(ev.len() == !on_async as usize, "effect", "device saw {ev:?}");
    } else {
        // far more is announced than will ever come
        let k = size(3000, &[0, 1, 16, 255, 256]);
        let n = match choose(6) {
            0 => (1 << 32) + k,
            1 => (1 << 63) + k,
            2 => (0xffff_ffff << 32) + k,
            3 => (1 << 48) + k,
            4 => k << 32,
            _ => u64::MAX - k,
        };
        if n <= max + k {
            return Ok(());
        }
        note(|| format!("a message that announces {n:#x} bytes"));
        let mut f = vec![b'H', b'S', typ, 1, 0, 0, 0, 5];
        f.extend(n.to_be_bytes());
        f.extend((0..k).map(|i| i as u8));
        for _ in 0..range(1, 4) {
            f.extend(&probe);
        }
        c.p.write(&f);
        let v = c.recv()?;
        ensure!(v.len() <= 1 && v.iter().all(|m| (m.typ == ERROR && m.cc == 4) || m.typ == FATAL), "reaction", "the payload of a message that announces {n:#x} bytes was answered {v:?}");
        c.p.shutdown_write();
        exec::settle();
        let v = c.recv()?;
        ensure!(v.iter().all(|m| m.typ == ERROR || m.typ == FATAL), "reaction", "the payload of a message that announces {n:#x} bytes was answered {v:?}");
        ensure!(c.gone(), "leak", "the server keeps a connection that has ended");
        let ev = dev.take_effects();
        ensure!(ev.is_empty(), "truncated-executed", "the payload of a message that announces {n:#x} bytes was executed: {ev:?}");
        ensure!(!e.devs[0].shared.lock().exclusive_lock(), "truncated-executed", "the payload of a message that announces {n:#x} bytes took a lock");
    }
    drop(s);
    exec::settle();
    let r = other.s.call(DATA_END, 0, 2, b"fine")?;
    ensure!(r.payload == b"<fine", "bystander", "another session's query answered {r:?}");
    nontrivial();
    Ok(())
}

// ------------------------------------------------------------------ C13
#[derive(Clone, Debug, PartialEq)]
enum Sent {
    Cmd(u32),
    Trig,
}
#[derive(Clone, Debug)]
struct LockReq {
    key: Vec<u8>,
    deadline: u64,
    timeout: u32,
}
struct S13 {
    sess: Option<Sess>,
    q: Vec<Sent>,
    /// lock request under way
    lock: Option<LockReq>,
    /// release under way
    release: bool,
    /// has disconnected but may still have messages to be executed
    leaving: bool,
    /// lock request under way when it disconnected
    left: Option<Vec<u8>>,
    /// how much of the next message was sent while waiting for a lock
    ahead: usize,
}
#[derive(Clone, Debug)]
enum Fin {
    Lock(usize, LockReq, u8),
    Release(usize, u8),
    /// the session asked for this before it disconnected
    Maybe(usize, Vec<u8>),
    /// the session has ended
    Gone(usize),
}
/// Is there an order of the observed completions which the lock model allows and after which nobody waits in vain?
fn explain13(m: &Model, fins: &mut Vec<Option<Fin>>, execs: &[Sent], qs: &mut Vec<Vec<Sent>>, ss: &[S13], now: u64, guard: bool, why: &mut String) -> Option<(Model, Vec<Vec<Sent>>)> {
    if execs.is_empty() && fins.iter().all(|f| f.is_none()) {
        for (i, s) in ss.iter().enumerate() {
            if let Some(l) = &s.lock {
                if m.want(i, &l.key).is_ok() {
                    *why = format!("session {i} still waits for lock {} although the lock state {m:?} allows it", show(&l.key));
                    return None;
                }
                if now >= l.deadline {
                    *why = format!("session {i}: the lock request should have timed out at t={}", l.deadline);
                    return None;
                }
            }
            if !guard && !qs[i].is_empty() && m.can(i).is_ok() {
                *why = format!("session {i}: message {:?} is not executed although the lock state {m:?} allows it", qs[i][0]);
                return None;
            }
            if s.release {
                *why = format!("session {i}: release is not answered");
                return None;
            }
        }
        return Some((m.clone(), qs.clone()));
    }
    if !guard {
        if let Some(x) = execs.first() {
            for i in 0..qs.len() {
                if qs[i].first() == Some(x) {
                    if m.can(i).is_ok() {
                        qs[i].remove(0);
                        let r = explain13(m, fins, &execs[1..], qs, ss, now, guard, why);
                        qs[i].insert(0, x.clone());
                        if r.is_some() {
                            return r;
                        }
                    } else if why.is_empty() {
                        *why = format!("session {i}: {x:?} was executed although the lock state {m:?} forbids it");
                    }
                }
            }
        }
    }
    for k in 0..fins.len() {
        let Some(f) = fins[k].take() else { continue };
        let mut n = m.clone();
        let ok = match &f {
            Fin::Lock(i, l, 1) => {
                let ok = n.want(*i, &l.key).is_ok();
                if ok {
                    n.got(*i, &l.key)
                } else if why.is_empty() {
                    *why = format!("session {i} was granted lock {} although the lock state {m:?} forbids it", show(&l.key));
                }
                ok
            }
            Fin::Lock(i, l, code) => {
                let ok = match n.want(*i, &l.key) {
                    Ok(()) => false,
                    // an invalid request is an error, one that is not granted in time a failure
                    Err(w) => {
                        let already = w.iter().filter(|w| format!("{w:?}") == "Already").count();
                        (already > 0 && *code == 3) || (already < w.len() && now >= l.deadline && *code == 0)
                    }
                };
                if !ok && why.is_empty() {
                    *why = format!("session {i}: lock {} (timeout {}, deadline {}) ended at t={now} with code {code}; lock state {m:?}", show(&l.key), l.timeout, l.deadline);
                }
                ok
            }
            Fin::Release(i, code) => {
                let want = match n.release(*i) {
                    Ok(true) => 1,
                    Ok(false) => 2,
                    Err(_) => 3,
                };
                if *code != want && why.is_empty() {
                    *why = format!("session {i}: release answered {code}, expected {want}; lock state {m:?}");
                }
                *code == want
            }
            Fin::Maybe(i, key) => {
                if n.want(*i, key).is_ok() {
                    let mut g = n.clone();
                    g.got(*i, key);
                    let r = explain13(&g, fins, execs, qs, ss, now, guard, why);
                    if r.is_some() {
                        fins[k] = Some(f);
                        return r;
                    }
                }
                true
            }
            Fin::Gone(i) => {
                let ok = qs[*i].is_empty() && !fins.iter().flatten().any(|f| matches!(f, Fin::Maybe(j, _) if j == i));
                let _ = n.release(*i);
                ok
            }
        };
        let r = if ok { explain13(&n, fins, execs, qs, ss, now, guard, why) } else { None };
        fins[k] = Some(f);
        if r.is_some() {
            return r;
        }
    }
    None
}
fn hlocks() -> CaseResult {
    exec::init(policy());
    let e = serve(config(64), &NAMES[..1]);
    let d = &e.devs[0];
    let n = range(2, 4) as usize;
    let mut m = Model { key: vec![], s: vec![], x: vec![] };
    let mut ss = vec![];
    for _ in 0..n {
        ss.push(S13 { sess: Some(open("", pick(&PROTOS[..3]))?), q: vec![], lock: None, release: false, leaving: false, left: None, ahead: 0 });
        m.add();
    }
    let ext_h = m.add();
    let mut ext = LockHandle::new(d.shared.clone(), d.device.clone());
    let device = d.device.clone();
    let mut guard: Option<MutexGuard<'_, crate::dev::Mock>> = None;
    let mut keys = c_lock::palette(true);
    keys.extend([vec![], vec![]]);
    let (mut now, mut seq, mut waited) = (0u64, 0u32, 0);
    d.log.take();
    for _ in 0..range(4, 30) {
        let mut acts = range(1, 3);
        let mut touched = vec![];
        while acts > 0 {
            acts -= 1;
            let idle: Vec<usize> = (0..ss.len()).filter(|i| ss[*i].sess.is_some() && ss[*i].lock.is_none() && !ss[*i].release && ss[*i].ahead == 0 && !touched.contains(i)).collect();
            let open_: Vec<usize> = (0..ss.len()).filter(|i| ss[*i].sess.is_some() && ss[*i].q.len() < 3).collect();
            match weighted(&[6, 4, 8, 3, 2, 2, 1]) {
                0 if !idle.is_empty() => {
                    let i = pick(&idle);
                    let key = pick(&keys);
                    let timeout = match choose(10) {
                        0 | 1 => 0u32,
                        2 => 10,
                        3 => 50,
                        4 => 1000,
                        5 => 100_000,
                        6 => range(1, 300_000) as u32,
                        7 => pick(&[600_001u32, 1_000_000, 4_000_000, 1 << 31, u32::MAX]),
                        _ => (range(0, 3) << pick(&[8, 16])) as u32 + range(0, 40) as u32,
                    };
                    let mut wire = key.clone();
                    if !key.is_empty() && chance(1, 3) {
                        wire.push(0); // some clients send terminated strings
                    }
                    note(|| format!("t={now}: session {i} asks for lock {} timeout {timeout}", show(&wire)));
                    ss[i].sess.as_ref().unwrap().a.send(LOCK, 1, timeout, &wire);
                    ss[i].lock = Some(LockReq { key, deadline: now + timeout as u64, timeout });
                    touched.push(i);
                }
                1 if !idle.is_empty() => {
                    let i = pick(&idle);
                    note(|| format!("t={now}: session {i} releases"));
                    ss[i].sess.as_ref().unwrap().a.send(LOCK, 0, choose(100) as u32, b"");
                    ss[i].release = true;
                    touched.push(i);
                }
                2 if !open_.is_empty() => {
                    let i = pick(&open_);
                    seq += 1;
                    // one trigger at a time: they look alike
                    let what = if chance(1, 5) && !ss.iter().any(|s| s.q.contains(&Sent::Trig)) { Sent::Trig } else { Sent::Cmd(seq) };
                    note(|| format!("t={now}: session {i} sends {what:?}"));
                    let c = &ss[i].sess.as_ref().unwrap().s;
                    match &what {
                        Sent::Trig => c.send(TRIGGER, 0, seq, b""),
                        Sent::Cmd(k) => c.send(DATA_END, 0, seq, format!("!{k}").as_bytes()),
                    }
                    ss[i].q.push(what);
                }
                3 => {
                    if !touched.is_empty() {
                        continue;
                    }
                    exec::settle();
                    // what was answered so far
                    collect13(&mut m, &mut ss, d, now, guard.is_some())?;
                    match choose(3) {
                        0 => {
                            if ext.try_acquire_exclusive().is_ok() {
                                m.got(ext_h, b"")
                            }
                        }
                        1 => {
                            if ext.try_acquire_shared(b"k").is_ok() {
                                m.got(ext_h, b"k")
                            }
                        }
                        _ => {
                            ext.force_release();
                            let _ = m.release(ext_h);
                        }
                    }
                    note(|| format!("t={now}: session outside HiSLIP: {m:?}"));
                    acts = 0;
                }
                4 => {
                    if !touched.is_empty() {
                        continue;
                    }
                    exec::settle();
                    // what was answered so far
                    collect13(&mut m, &mut ss, d, now, guard.is_some())?;
                    if guard.take().is_none() {
                        guard = device.try_lock();
                    }
                    note(|| format!("t={now}: device in use by another session: {}", guard.is_some()));
                    acts = 0;
                }
                6 => {
                    let wait: Vec<usize> = (0..ss.len()).filter(|i| ss[*i].sess.is_some() && ss[*i].lock.is_some() && ss[*i].ahead == 0).collect();
                    if wait.is_empty() {
                        continue;
                    }
                    // the next message has begun to arrive: no reason to give up
                    let i = pick(&wait);
                    let k = range(1, 15) as usize;
                    note(|| format!("t={now}: session {i} sends {k} bytes of its next message"));
                    ss[i].sess.as_ref().unwrap().a.p.write(&frame(LOCK_INFO, 0, 0, b"")[..k]);
                    ss[i].ahead = k;
                }
                _ => {
                    let any: Vec<usize> = (0..ss.len()).filter(|i| ss[*i].sess.is_some() && !ss[*i].release && ss[*i].ahead == 0 && !touched.contains(i)).collect();
                    if any.is_empty() || !chance(1, 2) {
                        continue;
                    }
                    let i = pick(&any);
                    // whether it still gets the lock must not matter for long
                    let alone = ss[i].lock.is_some() && !ss[i].q.is_empty();
                    if alone {
                        exec::settle();
                        collect13(&mut m, &mut ss, d, now, guard.is_some())?;
                        if ss.iter().any(|s| s.leaving || s.left.is_some()) {
                            continue;
                        }
                    }
                    note(|| format!("t={now}: session {i} disconnects"));
                    ss[i].sess = None;
                    ss[i].left = ss[i].lock.take().map(|l| l.key);
                    ss[i].leaving = true;
                    if alone {
                        ss[i].left = None;
                        exec::settle();
                        collect13(&mut m, &mut ss, d, now, guard.is_some())?;
                    }
                }
            }
        }
        exec::settle();
        collect13(&mut m, &mut ss, d, now, guard.is_some())?;
        if choose(3) == 0 {
            let dt = pick(&[1u64, 11, 60, 1100, 70_000, 70_000, 900_000, 4_000_000, 1 << 31]);
            exec::advance(dt);
            now += dt;
            note(|| format!("time passes to t={now}"));
            collect13(&mut m, &mut ss, d, now, guard.is_some())?;
        }
        if ss.iter().any(|s| s.lock.is_some() || !s.q.is_empty()) {
            waited += 1;
        }
        // reported state
        let idle: Vec<usize> = (0..ss.len()).filter(|i| ss[*i].sess.is_some() && ss[*i].lock.is_none()).collect();
        if !idle.is_empty() {
            let i = pick(&idle);
            let i = idle.into_iter().find(|i| ss[*i].ahead > 0).unwrap_or(i);
            let k = std::mem::take(&mut ss[i].ahead);
            let a = &mut ss[i].sess.as_mut().unwrap().a;
            a.p.write(&frame(LOCK_INFO, 0, 0, b"")[k..]);
            let r = a.one("AsyncLockInfo")?;
            ensure!(r == Msg { typ: LOCK_INFO_RESP, cc: m.excl() as u8, param: m.n(), payload: vec![] }, "lock-info", "session {i}: lock info {r:?}, the locks held are {m:?}");
        }
    }
    if waited > 1 {
        nontrivial()
    }
    drop(ss);
    drop(guard);
    ext.force_release();
    drop(ext);
    exec::advance(200_000);
    let l = d.shared.lock();
    ensure!(!l.exclusive_lock() && l.num_shared_locks() == 0, "lock-leak", "the device stays locked after every session has left");
    Ok(())
}
fn collect13(m: &mut Model, ss: &mut Vec<S13>, d: &HDev, now: u64, guard: bool) -> CaseResult {
    let mut fins = vec![];
    for (i, s) in ss.iter_mut().enumerate() {
        let Some(c) = &mut s.sess else { continue };
        ensure!(!c.a.gone() && !c.s.gone(), "hangup", "session {i}: the server closed a connection");
        let v = c.s.recv()?;
        ensure!(v.is_empty(), "surplus", "session {i}: unexpected {v:?}");
        for r in c.a.recv()? {
            ensure!(r.typ == LOCK_RESP && r.param == 0 && r.payload.is_empty(), "surplus", "session {i}: unexpected {r:?}");
            note(|| format!("  session {i}: lock response {}", r.cc));
            if s.release {
                s.release = false;
                fins.push(Some(Fin::Release(i, r.cc)));
            } else if let Some(l) = s.lock.take() {
                fins.push(Some(Fin::Lock(i, l, r.cc)));
            } else {
                fail!("surplus", "session {i}: unexpected {r:?}")
            }
        }
    }
    let mut execs = vec![];
    for ev in d.log.take_effects() {
        execs.push(match ev {
            Ev::Exec(c) => Sent::Cmd(String::from_utf8_lossy(&c[1..]).parse().unwrap_or(0)),
            Ev::Trigger(_) => Sent::Trig,
            e => fail!("effect", "nobody asked for {e:?}"),
        });
    }
    if !execs.is_empty() {
        note(|| format!("  executed {execs:?}"));
    }
    for (i, s) in ss.iter_mut().enumerate() {
        if let Some(key) = s.left.take() {
            fins.push(Some(Fin::Maybe(i, key)));
        }
        if s.leaving && s.q.iter().all(|x| execs.contains(x)) {
            s.leaving = false;
            fins.push(Some(Fin::Gone(i)));
        }
    }
    let mut qs: Vec<Vec<Sent>> = ss.iter().map(|s| s.q.clone()).collect();
    let mut why = String::new();
    match explain13(m, &mut fins, &execs, &mut qs, ss, now, guard, &mut why) {
        Some((n, q)) => {
            *m = n;
            for (s, q) in ss.iter_mut().zip(q) {
                s.q = q
            }
        }
        None => fail!("lock-rules", "{}", if why.is_empty() { format!("no order of {fins:?} and {execs:?} is allowed from {m:?}") } else { why }),
    }
    Ok(())
}

// ------------------------------------------------------------------ C14
fn device_clear() -> CaseResult {
    exec::init(policy());
    let max = pick(&[1u64 << 16, 4096]);
    let e = serve(config(64).max_message_size(max), &NAMES[..1]);
    let d = &e.devs[0];
    let overlap = e.cfg.prefer_overlap as u8;
    let mut s = open("", pick(&PROTOS[..3]))?;
    let mut o = open("", 0x0100)?;
    let mut ext = LockHandle::new(d.shared.clone(), d.device.clone());
    let device = d.device.clone();
    let fail = chance(1, 5);
    d.log.set(|s| s.fail_clear = fail);
    let cap = 1 << 20;
    let mut id = word();
    let mut hard = 0;
    if choose(2) == 0 {
        let m = pick(&[16u64, 100, 1 << 16]);
        s.a.call(MAX_SIZE, 0, 0, &m.to_be_bytes())?;
    }
    for _ in 0..range(1, 4) {
        d.log.take();
        // another session in the middle of a message
        let bystander = choose(2) == 0;
        if bystander {
            o.s.send(DATA, 0, 1, b"by");
            exec::settle();
        }
        let mut guard: Option<MutexGuard<'_, crate::dev::Mock>> = None;
        let pre = choose(6);
        // complete messages sent before the clear, and how many of them are executed
        let mut before: Vec<(u32, Vec<u8>)> = vec![];
        let (mut lo, mut hi) = (0usize, 0usize);
        let mut locked = false;
        let mut queue = |s: &Sess, before: &mut Vec<(u32, Vec<u8>)>, cmd: Vec<u8>| {
            id = id.wrapping_add(2);
            if cmd.len() > 2 && chance(1, 3) {
                s.s.send(DATA, 0, id, &cmd[..1]);
                s.s.send(DATA_END, 0, id, &cmd[1..]);
            } else {
                s.s.send(DATA_END, 0, id, &cmd);
            }
            before.push((id, cmd));
        };
        let rnd = |k: u64| match choose(3) {
            0 => format!("q{k}").into_bytes(),
            1 => format!("!n{k}").into_bytes(),
            _ => format!("#{} {k}", range(1, 400)).into_bytes(),
        };
        match pre {
            0 => {}
            1 => {
                for _ in 0..range(1, 3) {
                    s.s.send(DATA, 0, 77, &bytes(range(1, 20) as usize));
                }
            }
            2 | 3 => {
                // possibly in the middle of a message already taken in
                let begun = choose(2) == 1;
                if begun {
                    s.s.send(DATA, 0, 78, &bytes(range(1, 9) as usize));
                    exec::settle();
                }
                if pre == 2 {
                    locked = ext.try_acquire_exclusive().is_ok();
                    ensure!(locked, "setup", "cannot lock the device");
                } else {
                    guard = device.try_lock();
                    ensure!(guard.is_some(), "setup", "the device stays in use");
                }
                if begun && choose(2) == 1 {
                    s.s.send(DATA, 0, 78, &bytes(range(0, 9) as usize));
                }
                for k in 0..range(!begun as u64, 3) {
                    queue(&s, &mut before, rnd(k));
                }
                hard += 1;
            }
            4 => {
                // the client does not read: the first response is stuck
                s.s.p.set_out_cap(pick(&[1usize, 10, 17, 40]));
                queue(&s, &mut before, b"#2000".to_vec());
                for k in 0..choose(3) {
                    queue(&s, &mut before, rnd(k));
                }
                lo = 1;
                hi = 1;
                hard += 1;
            }
            _ => {
                for k in 0..range(1, 3) {
                    queue(&s, &mut before, rnd(k));
                }
                hi = before.len();
            }
        }
        let waited = pre == 4 || choose(2) == 0;
        if waited {
            exec::settle();
            if hi > 0 && pre == 5 {
                lo = hi;
            }
        } else {
            exec::run_steps(choose(30));
        }
        if pre == 5 && choose(2) == 0 {
            s.s.poll()?;
        }
        note(|| format!("state {pre}, messages {:?}, settled {waited}, device clear", before.iter().map(|b| (b.0, show(&b.1))).collect::<Vec<_>>()));
        s.a.send(ASYNC_CLEAR, 0, 0, b"");
        let r = s.a.one("AsyncDeviceClear")?;
        ensure!((r.typ, r.cc, r.payload.len()) == (ASYNC_CLEAR_ACK, overlap, 0), "acknowledge", "AsyncDeviceClear answered {r:?}, overlap preferred: {overlap}");
        // what a client still sends is discarded
        let (mut odd, mut fatal) = (0, false);
        for k in 0..if choose(2) == 0 { choose(4) } else { 0 } {
            match weighted(&[3, 3, 3, 2, 1, 1]) {
                0 => s.s.send(DATA, 0, 5, b"late"),
                1 => s.s.send(TRIGGER, 0, 5, b""),
                2 => s.s.send(DATA_END, 0, 5, format!("!late{k}").as_bytes()),
                3 => {
                    // at most a complaint about what was not asked for
                    odd += 1;
                    s.s.send(pick(&[128u8, 255, LOCK, INIT_RESP, DATA - 3, 26, STATUS]), choose(4) as u8, word(), &bytes(choose(20) as usize))
                }
                4 => {
                    odd += 1;
                    s.s.send(pick(&[DATA, DATA_END]), 0, 5, &vec![b'x'; max as usize + 1 + choose(40) as usize])
                }
                _ if chance(1, 4) => {
                    fatal = true;
                    note(|| "not a HiSLIP message".into());
                    s.s.p.write(b"hS\x07\0\0\0\0\0\0\0\0\0\0\0\0\0");
                    break;
                }
                _ => {}
            }
            if choose(2) == 0 {
                exec::settle();
            }
        }
        if fatal {
            s.s.p.set_out_cap(cap);
            drop(guard);
            let v = s.s.recv()?;
            ensure!(
                matches!(v.last(), Some(m) if m.typ == FATAL && m.cc == 1) && v.iter().filter(|m| m.typ == FATAL).count() == 1 && s.s.gone(),
                "fatal", "while a device clear was under way something that is no message was answered {v:?}, connection gone: {}", s.s.gone()
            );
            let ex = d.log.take();
            ensure!(!ex.contains(&Ev::Clear), "fatal", "the device was cleared although the client never completed it: {ex:?}");
            return Ok(());
        }
        let features = choose(8) as u8;
        s.s.send(CLEAR_COMPLETE, features, 0, b"");
        if choose(2) == 0 {
            exec::settle();
        }
        s.s.p.set_out_cap(cap);
        if guard.is_some() {
            // the device is busy for somebody else: nothing reaches it
            exec::settle();
            ensure!(d.log.peek().is_empty(), "effect", "device used while somebody else has it: {:?}", d.log.peek());
            if !locked && choose(2) == 1 {
                // and when it is free again it is locked
                locked = ext.try_acquire_exclusive().is_ok();
                ensure!(locked, "setup", "cannot lock the device");
                note(|| "somebody else locks the device".into());
            }
            guard = None;
        }
        drop(guard);
        let v = s.s.recv()?;
        let mut it = v.iter().peekable();
        let ex: Vec<Ev> = d.log.take();
        let n = ex.iter().filter(|e| matches!(e, Ev::Exec(_))).count();
        let mut want: Vec<Ev> = before.iter().take(n).map(|b| Ev::Exec(b.1.clone())).collect();
        if !locked {
            want.push(Ev::Clear);
        }
        ensure!(ex == want && n >= lo && n <= hi, "effect", "device saw {ex:?}; {} complete messages had been sent, of which {lo} to {hi} may be executed, locked by somebody else: {locked}", before.len());
        // responses of what was executed, possibly cut short
        let mut cut = 0;
        for (id, cmd) in before.iter().take(n) {
            let Some(r) = respond(cmd) else { continue };
            let mut got = vec![];
            let mut ended = false;
            while let Some(m) = it.next_if(|m| !ended && (m.typ == DATA || m.typ == DATA_END) && m.param == *id) {
                got.extend(&m.payload);
                ended = m.typ == DATA_END;
            }
            ensure!(r.starts_with(&got) && (!ended || got == r), "response", "response to {} is {} ended: {ended}", show(cmd), show(&got));
            cut += (!ended) as usize;
        }
        ensure!(cut <= 1, "response", "{cut} responses were cut short");
        let (errs, ack): (Vec<&Msg>, Vec<&Msg>) = it.partition(|m| m.typ == ERROR);
        ensure!(errs.len() <= odd && (errs.is_empty() || v.last().unwrap().typ == CLEAR_ACK), "response", "{odd} odd messages during the device clear were answered {v:?}");
        ensure!(
            matches!(&ack[..], [m] if m.typ == CLEAR_ACK && m.cc == features & 1 && m.param == 0 && m.payload.is_empty()),
            "clear-acknowledge",
            "after DeviceClearComplete with features {features:#x} the client received {ack:?}"
        );
        ensure!(!s.s.gone() && !s.a.gone(), "hangup", "connection closed by a device clear");
        if locked {
            ext.force_release();
        }
        // the session works, and nothing is left of the past
        for k in 0..range(1, 2) {
            let cmd = format!("after{k}").into_bytes();
            let i = 1000 + k as u32;
            s.s.send(DATA_END, 0, i, &cmd);
            let v = s.s.recv()?;
            let mut got: Vec<u8> = vec![];
            for m in &v {
                ensure!((m.typ == DATA || m.typ == DATA_END) && m.param == i, "after", "after a device clear a query is answered {v:?}");
                got.extend(&m.payload);
            }
            ensure!(got == respond(&cmd).unwrap() && v.last().unwrap().typ == DATA_END, "after", "after a device clear a query is answered {v:?}");
            let ex = d.log.take();
            ensure!(ex == [Ev::Exec(cmd.clone())], "after", "after a device clear the device executed {ex:?} for {}", show(&cmd));
            // everything has been received: no message is available
            let r = s.a.call(STATUS, 0, i, b"")?;
            ensure!(r.typ == STATUS_RESP && r.cc & 0x10 == 0, "after", "after a device clear a status query is answered {r:?}");
            d.log.take();
        }
        if bystander {
            let r = o.s.call(DATA_END, 0, 1, b"stander")?;
            ensure!(r.payload == b"<bystander", "bystander", "another session's message was answered {r:?}");
        }
        let r = s.a.recv()?;
        ensure!(r.is_empty(), "surplus", "unexpected {r:?} on the asynchronous channel");
    }
    if hard > 0 {
        nontrivial()
    }
    Ok(())
}

// ------------------------------------------------------------------ C15
/// Service requests: two streams (published bytes, client messages) merge in any order; at most one
/// request is outstanding, and one is sent whenever a byte waits and none is.
fn srq() -> CaseResult {
    exec::init(policy());
    let e = serve(config(64), &NAMES[..1]);
    let mut status = e.status.clone();
    let d = &e.devs[0];
    #[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
    struct St {
        armed: bool,
        q: Vec<u8>,
    }
    struct C {
        s: Sess,
        states: BTreeSet<St>,
    }
    let mut cs: Vec<C> = vec![];
    let (mut pubs, mut quiet) = (0, 0);
    let mut stb = 0u8;
    for _ in 0..range(3, 16) {
        if cs.is_empty() || cs.len() < 3 && chance(1, 6) {
            let s = open("", pick(&PROTOS[..3]))?;
            note(|| format!("session {} opened", s.id));
            cs.push(C { s, states: [St { armed: true, q: vec![] }].into() });
            continue;
        }
        if cs.len() > 1 && chance(1, 12) {
            let k = choose(cs.len() as u64) as usize;
            note(|| format!("session {} leaves", cs[k].s.id));
            cs.remove(k);
            exec::settle();
            continue;
        }
        // one batch: bytes published while clients send
        let mut p: Vec<u8> = vec![];
        // per session: messages sent (status query with its reply?, lock info)
        let mut ms: Vec<Vec<u8>> = vec![vec![]; cs.len()];
        let mut rest: Vec<Vec<u8>> = vec![vec![]; cs.len()];
        let fixed = chance(1, 3);
        if fixed {
            stb = choose(256) as u8;
            d.log.set_stb(stb);
        }
        let failing = chance(1, 10);
        d.log.set(|s| s.fail_status = failing);
        for _ in 0..range(1, 6) {
            match choose(4) {
                0 | 1 => {
                    let b = choose(256) as u8;
                    note(|| format!("byte {b:#x} is published"));
                    status.send_status(b);
                    p.push(b);
                    pubs += 1;
                }
                2 => {
                    let i = choose(cs.len() as u64) as usize;
                    let t = pick(&[STATUS, STATUS, LOCK_INFO]);
                    let id = word();
                    rest[i].extend(frame(t, choose(2) as u8, id, b""));
                    ms[i].push(t);
                    let k = if choose(2) == 0 { rest[i].len() } else { choose(rest[i].len() as u64) as usize };
                    note(|| format!("session {} sends type {t}, {k} of {} bytes", cs[i].s.id, rest[i].len()));
                    let out: Vec<u8> = rest[i].drain(..k).collect();
                    cs[i].s.a.p.write(&out);
                }
                _ => exec::settle(),
            }
        }
        for (c, r) in cs.iter_mut().zip(&rest) {
            c.s.a.p.write(r)
        }
        exec::settle();
        for (k, c) in cs.iter_mut().enumerate() {
            let got = c.s.a.recv()?;
            note(|| format!("  session {} received {got:?}", c.s.id));
            ensure!(!c.s.a.gone() && !c.s.s.gone(), "hangup", "session {}: the server closed a connection (received {got:?})", c.s.id);
            for m in &got {
                ensure!(m.payload.is_empty(), "payload", "session {}: {m:?}", c.s.id);
                if m.typ == STATUS_RESP {
                    let want = if failing { 0 } else { stb & 0xef };
                    // no message was ever exchanged, so none is available
                    ensure!(m.cc == want && m.param == 0, "status", "session {}: status query answered {:#x}, device status {want:#x}", c.s.id, m.cc);
                }
            }
            // explore the merges
            let (np, nm, no) = (p.len(), ms[k].len(), got.len());
            let mut seen: BTreeSet<(St, usize, usize, usize)> = BTreeSet::new();
            let mut todo: Vec<(St, usize, usize, usize)> = c.states.iter().map(|s| (s.clone(), 0, 0, 0)).collect();
            let mut end = BTreeSet::new();
            let mut owed = false;
            while let Some(x) = todo.pop() {
                if !seen.insert(x.clone()) {
                    continue;
                }
                let (st, ip, im, io) = x;
                if ip == np && im == nm && io == no {
                    if st.armed && !st.q.is_empty() {
                        owed = true;
                    } else {
                        end.insert(st.clone());
                    }
                }
                if ip < np {
                    // the queue of a session that is behind is limited
                    let mut n = st.clone();
                    n.q.push(p[ip]);
                    if st.q.len() < 4 {
                        todo.push((n, ip + 1, im, io));
                    }
                    if st.q.len() >= 2 {
                        todo.push((st.clone(), ip + 1, im, io));
                    }
                }
                if !st.q.is_empty() {
                    let mut n = st.clone();
                    let b = n.q.remove(0);
                    if !st.armed {
                        todo.push((n, ip, im, io));
                    } else if io < no && got[io].typ == SRQ && got[io].cc == b && got[io].param == 0 {
                        n.armed = false;
                        todo.push((n, ip, im, io + 1));
                    }
                }
                if im < nm && io < no && got[io].typ == if ms[k][im] == STATUS { STATUS_RESP } else { LOCK_INFO_RESP } {
                    let mut n = st.clone();
                    if ms[k][im] == STATUS {
                        n.armed = true;
                    }
                    todo.push((n, ip, im + 1, io + 1));
                }
            }
            ensure!(
                !end.is_empty(),
                "service-request",
                "session {}: published {p:x?}, sent types {:?}, received {got:?}{}",
                c.s.id,
                ms[k],
                if owed { ": a service request is owed" } else { "" }
            );
            quiet += (np > 1) as u32;
            c.states = end;
        }
    }
    if pubs > 2 && quiet > 0 {
        nontrivial()
    }
    Ok(())
}
struct P15 {
    i: usize,
    asy: bool,
    typ: u8,
    /// needs the session to be allowed by the locks
    lock: bool,
    ev: Vec<Ev>,
}
/// Split what the device saw into the groups of the operations that may run.
fn split15(ev: &[Ev], ps: &[P15], free: &[bool], used: &mut Vec<usize>) -> bool {
    if ev.is_empty() {
        return (0..ps.len()).all(|k| used.contains(&k) || !free[k]);
    }
    for k in 0..ps.len() {
        if !free[k] || used.contains(&k) || ps[k].ev.is_empty() || !ev.starts_with(&ps[k].ev) {
            continue;
        }
        used.push(k);
        if split15(&ev[ps[k].ev.len()..], ps, free, used) {
            return true;
        }
        used.pop();
    }
    // operations without effect
    false
}
/// Remote/local, trigger and status of several sessions of one device, under locks and contention.
fn remote() -> CaseResult {
    exec::init(policy());
    let e = serve(config(64), &NAMES[..1]);
    let d = &e.devs[0];
    let n = range(1, 3) as usize;
    let mut m = Model::default();
    let mut ss = vec![];
    for _ in 0..n {
        ss.push(open("", pick(&PROTOS[..3]))?);
        m.add();
    }
    let eh = m.add();
    let mut ext = LockHandle::new(d.shared.clone(), d.device.clone());
    let device = d.device.clone();
    let mut guard: Option<MutexGuard<'_, crate::dev::Mock>> = None;
    let mut remote = vec![true; n];
    let mut ps: Vec<P15> = vec![];
    let (mut waits, mut seq) = (0, 0u32);
    let stb = choose(256) as u8;
    d.log.set_stb(stb);
    let fail = chance(1, 6);
    d.log.set(|s| {
        s.fail_remote = fail;
        s.fail_trigger = chance(1, 4)
    });
    d.log.take();
    for _ in 0..range(4, 24) {
        let mut acts = range(1, 3);
        while acts > 0 {
            acts -= 1;
            let i = choose(n as u64) as usize;
            match weighted(&[6, 3, 3, 2, 2, 3]) {
                0 | 1 if ps.iter().any(|p| p.i == i && p.asy) => {}
                2 | 5 if ps.iter().any(|p| p.i == i && !p.asy) => {}
                0 => {
                    let r = choose(7) as u8;
                    note(|| format!("session {i}: remote/local request {r}"));
                    let (on, ev) = match r {
                        0 | 2 => (Some(false), vec![Ev::Lockout(false), Ev::Remote(false)]),
                        1 => (Some(true), vec![]),
                        3 => (Some(true), vec![Ev::Remote(true)]),
                        4 => (Some(true), vec![Ev::Lockout(true)]),
                        5 => (Some(true), vec![Ev::Lockout(true), Ev::Remote(true)]),
                        _ => (None, vec![Ev::Remote(false)]),
                    };
                    if let Some(on) = on {
                        remote[i] = on
                    }
                    ss[i].a.send(RL, r, word(), b"");
                    ps.push(P15 { i, asy: true, typ: if fail && ev.iter().any(|e| matches!(e, Ev::Remote(_))) { ERROR } else { RL_RESP }, lock: true, ev });
                }
                1 => {
                    note(|| format!("session {i}: status query"));
                    ss[i].a.send(STATUS, 0, word(), b"");
                    let ev = if remote[i] { vec![Ev::Remote(true), Ev::Status] } else { vec![Ev::Status] };
                    ps.push(P15 { i, asy: true, typ: STATUS_RESP, lock: false, ev });
                }
                2 => {
                    note(|| format!("session {i}: trigger"));
                    ss[i].s.send(TRIGGER, choose(2) as u8, word(), b"");
                    ps.push(P15 { i, asy: false, typ: 0, lock: true, ev: vec![Ev::Trigger("Bus".into())] });
                }
                5 => {
                    seq += 1;
                    let cmd = format!("{}{seq}", if choose(2) == 0 { "!" } else { "" }).into_bytes();
                    note(|| format!("session {i}: message {}", show(&cmd)));
                    ss[i].s.send(DATA_END, 0, seq, &cmd);
                    ps.push(P15 { i, asy: false, typ: if respond(&cmd).is_some() { DATA_END } else { 0 }, lock: true, ev: vec![Ev::Exec(cmd)] });
                }
                3 => {
                    exec::settle();
                    collect15(&m, &mut ss, d, &mut ps, guard.is_some(), stb)?;
                    match choose(4) {
                        0 if ext.try_acquire_exclusive().is_ok() => m.got(eh, b""),
                        1 if ext.try_acquire_shared(b"k").is_ok() => m.got(eh, b"k"),
                        _ => {
                            ext.force_release();
                            let _ = m.release(eh);
                        }
                    }
                    note(|| format!("locks: {m:?}"));
                    acts = 0;
                }
                _ => {
                    exec::settle();
                    collect15(&m, &mut ss, d, &mut ps, guard.is_some(), stb)?;
                    if guard.take().is_none() {
                        guard = device.try_lock();
                        ensure!(guard.is_some(), "device-kept", "a session keeps the device while nothing runs");
                    }
                    note(|| format!("device in use: {}", guard.is_some()));
                    acts = 0;
                }
            }
        }
        exec::settle();
        collect15(&m, &mut ss, d, &mut ps, guard.is_some(), stb)?;
        waits += !ps.is_empty() as u32;
    }
    drop(guard);
    ext.force_release();
    let _ = m.release(eh);
    exec::settle();
    collect15(&m, &mut ss, d, &mut ps, false, stb)?;
    ensure!(ps.is_empty(), "stuck", "operations of sessions {:?} never end", ps.iter().map(|p| p.i).collect::<Vec<_>>());
    if waits > 1 {
        nontrivial()
    }
    Ok(())
}
fn collect15(m: &Model, ss: &mut [Sess], d: &HDev, ps: &mut Vec<P15>, guard: bool, stb: u8) -> CaseResult {
    let ev = d.log.take();
    let free: Vec<bool> = ps.iter().map(|p| p.ev.is_empty() || (!guard && (!p.lock || m.can(p.i).is_ok()))).collect();
    let mut used: Vec<usize> = (0..ps.len()).filter(|k| ps[*k].ev.is_empty()).collect();
    ensure!(
        split15(&ev, ps, &free, &mut used),
        "effect",
        "the device saw {ev:?}; operations under way: {:?}; locks {m:?}, device in use: {guard}",
        ps.iter().zip(&free).map(|(p, f)| (p.i, &p.ev, if *f { "may run" } else { "must wait" })).collect::<Vec<_>>()
    );
    for (i, s) in ss.iter_mut().enumerate() {
        ensure!(!s.a.gone() && !s.s.gone(), "hangup", "session {i}: the server closed a connection");
        for asy in [true, false] {
            let got = if asy { s.a.recv()? } else { s.s.recv()? };
            let want: Vec<u8> = ps.iter().enumerate().filter(|(k, p)| used.contains(k) && p.i == i && p.asy == asy && p.typ != 0).map(|x| x.1.typ).collect();
            ensure!(got.iter().map(|m| m.typ).collect::<Vec<_>>() == want, "answer", "session {i}: received {got:?}, expected message types {want:?}");
            for r in &got {
                ensure!(r.typ != RL_RESP || (r.cc == 0 && r.param == 0 && r.payload.is_empty()), "answer", "session {i}: remote/local response {r:?}");
                ensure!(r.typ != STATUS_RESP || r.cc & 0xef == stb & 0xef, "status", "session {i}: status {r:?}, the device says {stb:#x}");
            }
        }
    }
    let mut k = 0;
    ps.retain(|_| {
        k += 1;
        !used.contains(&(k - 1))
    });
    Ok(())
}

// ------------------------------------------------------------------ C16
fn codes() -> CaseResult {
    // the tables of IVI-6.1, type number = index
    const T: [&str; 39] = [
        "Initialize", "InitializeResponse", "FatalError", "Error", "AsyncLock", "AsyncLockResponse", "Data", "DataEnd", "DeviceClearComplete", "DeviceClearAcknowledge",
        "AsyncRemoteLocalControl", "AsyncRemoteLocalResponse", "Trigger", "Interrupted", "AsyncInterrupted", "AsyncMaximumMessageSize", "AsyncMaximumMessageSizeResponse",
        "AsyncInitialize", "AsyncInitializeResponse", "AsyncDeviceClear", "AsyncServiceRequest", "AsyncStatusQuery", "AsyncStatusResponse", "AsyncDeviceClearAcknowledge",
        "AsyncLockInfo", "AsyncLockInfoResponse", "GetDescriptors", "GetDescriptorsResponse", "StartTLS", "AsyncStartTLS", "AsyncStartTLSResponse", "EndTLS", "AsyncEndTLS",
        "AsyncEndTLSResponse", "GetSaslMechanismList", "GetSaslMechanismListResponse", "AuthenticationStart", "AuthenticationExchange", "AuthenticationResult",
    ];
    let c = choose(256) as u8;
    let t = MessageType::from_message_type(c);
    note(|| format!("code {c}: {t:?}"));
    match c {
        39..=127 => ensure!(t.is_none(), "message-type", "code {c} decodes to {t:?}"),
        _ => {
            let Some(t) = t else { fail!("message-type", "code {c} is not decoded") };
            ensure!(t.get_message_type() == c, "message-type", "code {c} decodes to {t:?}, which is encoded as {}", t.get_message_type());
            if let Some(n) = T.get(c as usize) {
                ensure!(format!("{t:?}") == *n, "message-type", "code {c} is {n}, decoded {t:?}");
            } else {
                ensure!(matches!(t, MessageType::VendorSpecific(_)), "message-type", "code {c} decodes to {t:?}");
            }
        }
    }
    let f = FatalErrorCode::from_error_code(c);
    ensure!(f.error_code() == c, "fatal-code", "fatal error {c} decodes to {f:?}, which is encoded as {}", f.error_code());
    let n = NonFatalErrorCode::from_error_code(c);
    ensure!(n.error_code() == c, "error-code", "error {c} decodes to {n:?}, which is encoded as {}", n.error_code());
    const F: [&str; 6] = ["UnidentifiedError", "PoorlyFormattedMessageHeader", "AttemptUseWithoutBothChannels", "InvalidInitialization", "MaximumClientsExceeded", "SecureConnectionFailed"];
    const N: [&str; 6] = ["UnidentifiedError", "UnrecognizedMessageType", "UnrecognizedControlCode", "UnrecognizedVendorDefinedMessage", "MessageTooLarge", "AuthenticationFailed"];
    let kind = |k: &[&str]| k.get(c as usize).map(|s| s.to_string()).unwrap_or(format!("{}({c})", if c < 128 { "Extension" } else { "DeviceDefined" }));
    ensure!(format!("{f:?}") == kind(&F), "fatal-code", "fatal error {c} decodes to {f:?}");
    ensure!(format!("{n:?}") == kind(&N), "error-code", "error {c} decodes to {n:?}");
    // versions
    let (a, b) = (choose(1 << 16) as u16, if choose(2) == 0 { choose(1 << 16) as u16 } else { pick(&PROTOS) });
    let (p, q) = (Protocol::from(a), Protocol::from(b));
    ensure!(u16::from(p) == a && (p.major(), p.minor()) == ((a >> 8) as u8, a as u8), "protocol", "version {a:#x} is {p:?}");
    ensure!(p.cmp(&q) == (a >> 8, a & 255).cmp(&(b >> 8, b & 255)), "protocol", "{p} compared to {q} is {:?}", p.cmp(&q));
    ensure!(format!("{p}") == format!("{}.{}", a >> 8, a & 255), "protocol", "version {a:#x} is shown as {p}");
    let s = choose(1 << 16) as u16;
    ensure!(p.as_parameter(s) == (a as u32) << 16 | s as u32, "protocol", "version {a:#x} session {s:#x} is parameter {:#x}", p.as_parameter(s));
    nontrivial();
    Ok(())
}

// ------------------------------------------------------------------
pub fn props() -> Vec<Prop> {
    const A: &[&str] = &["simulated network and clock", "clients implement the documented HiSLIP 2.0 framing"];
    vec![
        Prop {
            id: "C10",
            rule: "establish: at least one refused initialization or early use and two sessions; limit, wraparound, all_ids: every case. prompt (clients act the moment they have their answer): two or more queries",
            assumptions: A,
            parts: vec![
                Part { name: "establish", quick: 200_000, thorough: 2_400_000, run: establish },
                Part { name: "limit", quick: 1_200, thorough: 16_000, run: limit },
                Part { name: "wraparound", quick: 8, thorough: 100, run: wraparound },
                Part { name: "all_ids", quick: 8, thorough: 20, run: all_ids },
                Part { name: "prompt", quick: 40_000, thorough: 1_200_000, run: crate::h_prompt::sessions },
            ],
        },
        Prop {
            id: "C11",
            rule: "transfer: a message sent in several pieces and a response of several pieces; bulk (messages up to 200 kB, up to 600 parts, up to 600 messages): every case. long: a drawn cycle of queries, commands, split messages, identification queries and size changes repeated 240 to 66100 times; non-trivial: every case. prompt (clients act the moment they have their answer): every case",
            assumptions: A,
            parts: vec![
                Part { name: "transfer", quick: 120_000, thorough: 2_400_000, run: transfer },
                Part { name: "bulk", quick: 1_600, thorough: 32_000, run: bulk },
                Part { name: "long", quick: 800, thorough: 24_000, run: crate::h_long::transfers },
                Part { name: "prompt", quick: 40_000, thorough: 1_200_000, run: crate::h_prompt::sizes },
            ],
        },
        Prop {
            id: "C12",
            rule: "framing: at least two odd messages; cut: inside a message; oversize: every case; garbage: a header that promises too much. long: a drawn cycle of odd messages on one session repeated 240 to 66100 times, every answer checked; non-trivial: every case",
            assumptions: A,
            parts: vec![
                Part { name: "framing", quick: 120_000, thorough: 2_000_000, run: framing },
                Part { name: "cut", quick: 120_000, thorough: 2_000_000, run: cut },
                Part { name: "oversize", quick: 6_000, thorough: 120_000, run: oversize },
                Part { name: "garbage", quick: 120_000, thorough: 2_000_000, run: garbage },
                Part { name: "long", quick: 800, thorough: 24_000, run: crate::h_long::odds },
            ],
        },
        Prop {
            id: "C13",
            rule: "a message or lock request waited at two or more points of the history. long: a drawn cycle of lock requests, releases and messages repeated 240 to 66100 times, every answer checked; non-trivial: every case. prompt (clients act the moment they have their answer): two or more locks granted",
            assumptions: A,
            parts: vec![Part { name: "hlocks", quick: 300_000, thorough: 4_800_000, run: hlocks }, Part { name: "long", quick: 800, thorough: 24_000, run: crate::h_long::locks }, Part { name: "prompt", quick: 40_000, thorough: 1_200_000, run: crate::h_prompt::locks }],
        },
        Prop {
            id: "C14",
            rule: "a device clear while a message waits for the device or a response is stuck. long: a drawn cycle of device clears and messages repeated 240 to 66100 times, every answer checked; non-trivial: every case. prompt (clients act the moment they have their answer): every case",
            assumptions: A,
            parts: vec![Part { name: "clear", quick: 400_000, thorough: 6_000_000, run: device_clear }, Part { name: "long", quick: 800, thorough: 24_000, run: crate::h_long::clears }, Part { name: "prompt", quick: 40_000, thorough: 1_200_000, run: crate::h_prompt::clear }],
        },
        Prop {
            id: "C15",
            rule: "several bytes published in one batch / operations had to wait at two or more points. long: a drawn cycle of publications, status queries and remote/local requests repeated 240 to 66100 times, every answer checked; non-trivial: every case. prompt (clients act the moment they have their answer): two or more service requests",
            assumptions: A,
            parts: vec![
                Part { name: "srq", quick: 8_000, thorough: 320_000, run: srq },
                Part { name: "remote", quick: 80_000, thorough: 3_200_000, run: remote },
                Part { name: "long", quick: 800, thorough: 24_000, run: crate::h_long::requests },
                Part { name: "prompt", quick: 40_000, thorough: 1_200_000, run: crate::h_prompt::requests },
            ],
        },
        Prop {
            id: "C16",
            rule: "every case",
            assumptions: &[],
            parts: vec![Part { name: "codes", quick: 600_000, thorough: 8_000_000, run: codes }],
        },
    ]
}
