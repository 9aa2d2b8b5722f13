//! Clients that act the moment they have their answer, while everything else the server may still have to do is
//! not done: whatever an answer says must be true by then, for everybody.
use crate::c_lock::{palette, Model, Ref};
use crate::dev::{respond, Ev};
use crate::engine::*;
use crate::hs::*;
use lxi_device::lock::LockHandle;
use lxi_hislip::server::ServerConfig;
use simrt::exec;

fn random() {
    exec::next_yields(choose(3) != 0);
    exec::init(pick(&[exec::Policy::Random, exec::Policy::Lifo, exec::Policy::Random, exec::Policy::Fifo]));
}
/// Establish a session, each step as soon as possible.
fn begin(what: &str) -> Result<Sess, Fail> {
    let mut s = connect()?;
    let r = s.promptly(INITIALIZE, 0, 0x0100_0000 | choose(65536) as u32, b"")?;
    ensure!(r.typ == INIT_RESP, "initialize", "{what}: Initialize answered {r:?}");
    let id = r.param as u16;
    let mut a = connect()?;
    let q = a.promptly(ASYNC_INIT, 0, id as u32, &[])?;
    ensure!(q.typ == ASYNC_INIT_RESP, "initialize", "{what}: AsyncInitialize of session {id} answered {q:?}");
    Ok(Sess { s, a, id, proto: 0x0100 })
}
fn ask(s: &mut Sess, seq: &mut u32) -> CaseResult {
    *seq += 2;
    let cmd = format!("q{seq}").into_bytes();
    let r = s.s.promptly(DATA_END, 0, *seq, &cmd)?;
    ensure!(r == Msg { typ: DATA_END, cc: 0, param: *seq, payload: respond(&cmd).unwrap() }, "query", "session {}: query answered {r:?}", s.id);
    Ok(())
}

/// C10: sessions are there, unique and complete as soon as the server says so.
pub fn sessions() -> CaseResult {
    random();
    let limit = range(1, 4) as usize;
    let e = serve(ServerConfig::default().max_num_sessions(limit), &["hislip0"]);
    let mut ss: Vec<Sess> = vec![];
    let mut seq = 0;
    for _ in 0..range(3, 12) {
        match choose(5) {
            0 | 1 if ss.len() < limit => {
                let s = begin("new session")?;
                note(|| format!("session {} of {limit}", s.id));
                ensure!(ss.iter().all(|x| x.id != s.id), "id-clash", "session identifier {} given out a second time", s.id);
                ss.push(s);
            }
            0 | 1 => {
                let mut s = connect()?;
                let r = s.promptly(INITIALIZE, 0, 0x0100_0000, b"")?;
                ensure!(r.typ == FATAL && r.cc == 4, "limit", "{} of {limit} sessions are open, one more is answered {r:?}", ss.len());
            }
            2 if !ss.is_empty() => {
                // a second asynchronous channel
                let i = choose(ss.len() as u64) as usize;
                let mut a = connect()?;
                let r = a.promptly(ASYNC_INIT, 0, ss[i].id as u32, b"")?;
                ensure!(r.typ == FATAL && r.cc == 3, "second-channel", "a second asynchronous channel is answered {r:?}");
            }
            3 if !ss.is_empty() => {
                let i = choose(ss.len() as u64) as usize;
                note(|| format!("session {} leaves", ss[i].id));
                ss.remove(i);
                exec::settle();
            }
            _ if !ss.is_empty() => {
                let i = choose(ss.len() as u64) as usize;
                ask(&mut ss[i], &mut seq)?;
                let r = ss[i].a.promptly(STATUS, 0, seq, b"")?;
                ensure!(r.typ == STATUS_RESP && r.cc == 0, "query", "status query answered {r:?}");
                let ev: Vec<Ev> = e.devs[0].log.take().into_iter().filter(|e| matches!(e, Ev::Exec(_))).collect();
                ensure!(ev.len() == 1, "effect", "one query was sent, the device saw {ev:?}");
            }
            _ => {}
        }
    }
    if seq > 2 {
        nontrivial()
    }
    Ok(())
}

/// C11: a new maximum message size holds for the very next response.
pub fn sizes() -> CaseResult {
    random();
    let _e = serve(ServerConfig::default(), &["hislip0"]);
    let mut s = begin("session")?;
    let mut max = 256usize;
    let mut id = 0;
    for _ in 0..range(2, 8) {
        if choose(2) == 0 {
            max = pick(&[range(1, 40), 64, 255, 256, 257, 1000]) as usize;
            note(|| format!("maximum message size {max}"));
            let r = s.a.promptly(MAX_SIZE, 0, 0, &(max as u64).to_be_bytes())?;
            ensure!(r.typ == MAX_SIZE_RESP, "max-size", "maximum size answered {r:?}");
        }
        let cmd = format!("#{}", range(1, 300)).into_bytes();
        let want = respond(&cmd).unwrap();
        note(|| format!("query {}", show(&cmd)));
        id += 2;
        let mut r = s.s.promptly(DATA_END, 0, id, &cmd)?;
        let mut got = vec![];
        loop {
            ensure!((r.typ == DATA || r.typ == DATA_END) && r.param == id && r.payload.len() <= max, "too-large", "the client accepts {max} bytes: received {r:?}");
            got.extend(&r.payload);
            if r.typ == DATA_END {
                break;
            }
            r = s.s.next("the rest of a response")?;
        }
        ensure!(got == want, "response", "response to {}: {}", show(&cmd), show(&got));
    }
    nontrivial();
    Ok(())
}

/// C13: locks are what the answers say, for everybody, from the moment of the answer.
pub fn locks() -> CaseResult {
    random();
    let e = serve(ServerConfig::default(), &["hislip0"]);
    let d = &e.devs[0];
    let n = range(2, 3) as usize;
    let mut m = Model { key: vec![], s: vec![], x: vec![] };
    let mut ss = vec![];
    for k in 0..n {
        ss.push(begin(&format!("session {k}"))?);
        m.add();
    }
    let h = m.add();
    let mut ext = LockHandle::new(d.shared.clone(), d.device.clone());
    let mut keys = palette(true);
    keys.extend([vec![], vec![]]);
    let (mut seq, mut granted) = (0, 0);
    for _ in 0..range(5, 40) {
        let i = choose(n as u64) as usize;
        match choose(8) {
            0 | 1 => {
                let key = pick(&keys);
                note(|| format!("session {i} asks for lock {}", show(&key)));
                let r = ss[i].a.promptly(LOCK, 1, 0, &key)?;
                let ok = match m.want(i, &key) {
                    Ok(()) => r.cc == 1,
                    Err(w) => r.cc == 0 && w.iter().any(|w| *w != Ref::Already) || r.cc == 3 && w.contains(&Ref::Already),
                };
                ensure!(r.typ == LOCK_RESP && ok, "lock-rules", "session {i}: lock {} answered {r:?}; locks held: {m:?}", show(&key));
                if r.cc == 1 {
                    m.got(i, &key);
                    granted += 1;
                }
            }
            2 | 3 => {
                note(|| format!("session {i} releases"));
                let r = ss[i].a.promptly(LOCK, 0, seq, b"")?;
                let want = match m.release(i) {
                    Ok(true) => 1,
                    Ok(false) => 2,
                    Err(_) => 3,
                };
                ensure!(r.typ == LOCK_RESP && r.cc == want, "lock-rules", "session {i}: release answered {r:?}, expected {want}");
            }
            4 => {
                let r = ss[i].a.promptly(LOCK_INFO, 0, 0, b"")?;
                ensure!(r == Msg { typ: LOCK_INFO_RESP, cc: m.excl() as u8, param: m.n(), payload: vec![] }, "lock-info", "session {i}: lock info {r:?}; locks held: {m:?}");
            }
            5 => {
                let key = pick(&keys);
                let ok = ext.try_acquire(&key).is_ok();
                note(|| format!("another session acquires {}: {ok}", show(&key)));
                ensure!(ok == m.want(h, &key).is_ok(), "lock-rules", "another session: lock {} granted: {ok}; locks held: {m:?}", show(&key));
                if ok {
                    m.got(h, &key)
                }
            }
            6 => {
                ext.force_release();
                let _ = m.release(h);
                note(|| "another session releases".into());
            }
            _ if m.can(i).is_ok() => {
                note(|| format!("session {i} asks"));
                ask(&mut ss[i], &mut seq)?;
                let ok = ext.can_lock().is_ok();
                ensure!(ok == m.can(h).is_ok(), "lock-rules", "another session may use the device: {ok}; locks held: {m:?}");
            }
            _ => {}
        }
    }
    if granted > 1 {
        nontrivial()
    }
    Ok(())
}

/// C14: a device clear can be completed at once, has happened when it is acknowledged, and leaves nothing.
pub fn clear() -> CaseResult {
    random();
    let e = serve(ServerConfig::default(), &["hislip0"]);
    let d = &e.devs[0];
    let mut s = begin("session")?;
    let mut seq = 0;
    for _ in 0..range(1, 5) {
        let pre = choose(3);
        if pre > 0 {
            s.s.send(DATA, 0, seq, b"begun");
        }
        if pre == 2 {
            exec::run_steps(choose(10));
        }
        note(|| format!("device clear, a message begun: {}", pre > 0));
        let r = s.a.promptly(ASYNC_CLEAR, 0, 0, b"")?;
        ensure!(r.typ == ASYNC_CLEAR_ACK, "acknowledge", "AsyncDeviceClear answered {r:?}");
        d.log.take();
        let r = s.s.promptly(CLEAR_COMPLETE, 0, 0, b"")?;
        ensure!(r.typ == CLEAR_ACK, "clear-acknowledge", "DeviceClearComplete answered {r:?}");
        let ev = d.log.take_effects();
        ensure!(ev == [Ev::Clear], "effect", "when the clear is acknowledged the device has seen {ev:?}");
        for _ in 0..choose(3) {
            ask(&mut s, &mut seq)?;
            let ev = d.log.take_effects();
            ensure!(ev == [Ev::Exec(format!("q{seq}").into_bytes())], "after", "after a clear the device saw {ev:?}");
        }
    }
    nontrivial();
    Ok(())
}

/// C15: service requests are armed again and remote/local is in effect when the answer says so.
pub fn requests() -> CaseResult {
    random();
    let e = serve(ServerConfig::default(), &["hislip0"]);
    let d = &e.devs[0];
    let mut st = e.status.clone();
    let mut s = begin("session")?;
    exec::settle();
    let (mut remote, mut told) = (true, 0);
    d.log.set_stb(0x21);
    d.log.take();
    for _ in 0..range(2, 10) {
        if choose(2) == 0 {
            let v = choose(256) as u8;
            note(|| format!("status {v:#x} is published"));
            st.send_status(v);
            exec::settle();
            let m = s.a.one("a service request")?;
            ensure!(m.typ == SRQ && m.cc == v, "service-request", "status {v:#x} was published, received {m:?}");
            // asked for the status, the client is told of the next one
            let r = s.a.promptly(STATUS, 0, 0, b"")?;
            ensure!(r.typ == STATUS_RESP && r.cc == 0x21, "status", "status query answered {r:?}");
            let ev = d.log.take_effects();
            ensure!(ev == if remote { vec![Ev::Remote(true)] } else { vec![] }, "effect", "status query, remote enabled {remote}: the device saw {ev:?}");
            told += 1;
        } else {
            let n = choose(7) as u8;
            note(|| format!("remote/local request {n}"));
            let r = s.a.promptly(RL, n, 0, b"")?;
            ensure!(r.typ == RL_RESP, "answer", "remote/local request {n} answered {r:?}");
            let ev = d.log.take_effects();
            let want = match n {
                0 | 2 => vec![Ev::Lockout(false), Ev::Remote(false)],
                1 => vec![],
                3 => vec![Ev::Remote(true)],
                4 => vec![Ev::Lockout(true)],
                5 => vec![Ev::Lockout(true), Ev::Remote(true)],
                _ => vec![Ev::Remote(false)],
            };
            ensure!(ev == want, "effect", "when remote/local request {n} is answered the device has seen {ev:?}");
            remote = match n {
                0 | 2 => false,
                6 => remote,
                _ => true,
            };
        }
    }
    if told > 1 {
        nontrivial()
    }
    Ok(())
}
