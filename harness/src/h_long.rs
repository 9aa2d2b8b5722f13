//! Long lives of single HiSLIP sessions: the same few operations hundreds to tens of thousands of times over.
use crate::c_hislip::{odd, Ch, React};
use crate::dev::Ev;
use crate::engine::*;
use crate::hs::*;
use lxi_device::lock::LockHandle;
use lxi_hislip::server::ServerConfig;
use simrt::exec;
use simrt::net::Chunking;

/// How often.
pub fn reps() -> u64 {
    let n = match weighted(&[12, 8, 1]) {
        0 => range(240, 540),
        1 => range(1000, 4200),
        _ => range(65_520, 66_100),
    };
    note(|| format!("{n} rounds"));
    n
}
fn calm(proto: u16) -> Result<Sess, Fail> {
    let s = open("", proto)?;
    for c in [&s.s, &s.a] {
        c.p.set_chunking(Chunking::Whole, Chunking::Whole);
        c.p.set_out_cap(1 << 20);
    }
    Ok(s)
}
fn protocol() -> u16 {
    pick(&[0x0100u16, 0x0101, 0x0200])
}
/// A cycle of operations.
fn cycle(kinds: u64) -> Vec<u64> {
    let c: Vec<u64> = (0..range(1, 5)).map(|_| choose(kinds)).collect();
    note(|| format!("cycle {c:?}"));
    c
}
fn nothing(c: &mut HConn, what: &str, k: u64) -> CaseResult {
    let v = c.recv()?;
    ensure!(v.is_empty() && !c.gone(), "surplus", "round {k}: {what}: received {v:?} (connection gone: {})", c.gone());
    Ok(())
}
fn query(s: &mut Sess, k: u64, id: u32) -> CaseResult {
    let cmd = format!("q{k}").into_bytes();
    let r = s.s.call(DATA_END, 0, id, &cmd)?;
    let want = Msg { typ: DATA_END, cc: 0, param: id, payload: [b"<", &cmd[..]].concat() };
    ensure!(r == want, "query", "round {k}: query answered {r:?}, expected {want:?}");
    Ok(())
}

/// C12: every odd message is answered alike, no matter how many there were before.
pub fn odds() -> CaseResult {
    exec::init(exec::Policy::Fifo);
    let max = pick(&[64u64, 16, 300]);
    let e = serve(ServerConfig::default().max_message_size(max), &["hislip0"]);
    let dev = &e.devs[0].log;
    let mut other = calm(0x0100)?;
    let ch = pick(&[Ch::Sync, Ch::Async, Ch::Fresh]);
    let proto = protocol();
    let mut cyc = vec![];
    for t in 0..range(1, 4) + 6 {
        if t > 3 && !cyc.is_empty() {
            break;
        }
        let (f, r, what) = odd(ch, proto, max);
        if matches!(r, React::Nothing | React::Err(_) | React::Misplaced | React::Exactly(_)) {
            note(|| format!("{ch:?} channel: {what}"));
            cyc.push((f, r, what));
        }
    }
    if cyc.is_empty() {
        return Ok(());
    }
    let (mut sess, mut fresh) = (None, None);
    if ch == Ch::Fresh {
        let c = connect()?;
        c.p.set_chunking(Chunking::Whole, Chunking::Whole);
        fresh = Some(c);
    } else {
        sess = Some(calm(proto)?);
    }
    dev.take();
    let n = reps();
    let batch = pick(&[1u64, 7, 40]);
    let every = range(20, 200);
    let mut k = 0;
    while k < n {
        let c = match (&mut sess, &mut fresh) {
            (Some(s), _) if ch == Ch::Sync => &mut s.s,
            (Some(s), _) => &mut s.a,
            (_, Some(c)) => c,
            _ => unreachable!(),
        };
        let m = batch.min(n - k);
        let mut out = vec![];
        for i in k..k + m {
            out.extend(&cyc[i as usize % cyc.len()].0);
        }
        c.p.write(&out);
        let got = c.recv()?;
        let mut it = got.iter();
        for i in k..k + m {
            let (_, r, what) = &cyc[i as usize % cyc.len()];
            if *r == React::Nothing {
                continue;
            }
            let Some(m) = it.next() else { fail!("unanswered", "{ch:?} channel: {what}: no answer after {i} odd messages (gone: {})", c.gone()) };
            let ok = match r {
                React::Misplaced => m.typ == ERROR && m.param == 0 && m.cc <= 1,
                React::Err(k) => m.typ == ERROR && m.param == 0 && k.map_or(true, |k| m.cc == k),
                React::Exactly(x) => m == x,
                _ => false,
            };
            ensure!(ok, "reaction", "{ch:?} channel: {what}: answered {m:?} after {i} odd messages, expected {r:?}");
        }
        ensure!(it.next().is_none() && !c.gone(), "surplus", "{ch:?} channel: too many answers after {k} odd messages (gone: {})", c.gone());
        if k / every != (k + m) / every && ch != Ch::Fresh {
            let s = sess.as_mut().unwrap();
            query(s, k, 2)?;
            let r = s.a.call(LOCK_INFO, 0, 0, b"")?;
            ensure!((r.typ, r.cc, r.param) == (LOCK_INFO_RESP, 0, 0), "out-of-step", "lock info after {k} odd messages: {r:?}");
            ensure!(dev.take_effects().len() == 1, "effect", "the device saw more than one query after {k} odd messages");
        }
        k += m;
    }
    if let Some(c) = &mut fresh {
        let r = c.call(INITIALIZE, 0, 0x01000000, b"")?;
        ensure!(r.typ == INIT_RESP, "out-of-step", "Initialize answered {r:?} after {n} odd messages");
    }
    if let Some(s) = &mut sess {
        query(s, n, 4)?;
    }
    query(&mut other, n, 6)?;
    nontrivial();
    Ok(())
}

/// C13: locks come and go.
pub fn locks() -> CaseResult {
    exec::init(exec::Policy::Fifo);
    let e = serve(ServerConfig::default(), &["hislip0"]);
    let d = &e.devs[0];
    let (mut a, mut b) = (calm(protocol())?, calm(protocol())?);
    let mut ext = LockHandle::new(d.shared.clone(), d.device.clone());
    let key = pick(&[&b""[..], b"k", b"key two"]);
    let t = pick(&[1u32, 10, 1000]);
    let cyc = cycle(9);
    let n = reps();
    d.log.take();
    fn resp(r: &Msg, cc: u8, what: &str, k: u64) -> CaseResult {
        ensure!(*r == Msg { typ: LOCK_RESP, cc, param: 0, payload: vec![] }, "lock-rules", "round {k}: {what}: answered {r:?}, expected code {cc}");
        Ok(())
    }
    for k in 0..n {
        let op = cyc[k as usize % cyc.len()];
        let code = if key.is_empty() { 1 } else { 2 };
        match op {
            0 => {
                resp(&a.a.call(LOCK, 1, 0, key)?, 1, "lock of a free device", k)?;
                resp(&b.a.call(LOCK, 1, 0, b"")?, 0, "lock of a locked device", k)?;
                resp(&a.a.call(LOCK, 0, 0, b"")?, code, "release", k)?;
            }
            1 => {
                // waits in vain
                resp(&a.a.call(LOCK, 1, 0, key)?, 1, "lock of a free device", k)?;
                b.a.send(LOCK, 1, t, b"");
                nothing(&mut b.a, "waiting for a lock", k)?;
                exec::advance(t as u64 + 1);
                resp(&b.a.one("lock")?, 0, "lock not granted in time", k)?;
                resp(&a.a.call(LOCK, 0, 0, b"")?, code, "release", k)?;
            }
            2 => {
                // waits
                resp(&a.a.call(LOCK, 1, 0, key)?, 1, "lock of a free device", k)?;
                b.a.send(LOCK, 1, 100_000, b"");
                nothing(&mut b.a, "waiting for a lock", k)?;
                resp(&a.a.call(LOCK, 0, 0, b"")?, code, "release", k)?;
                resp(&b.a.one("lock")?, 1, "lock of a device that became free", k)?;
                resp(&b.a.call(LOCK, 0, 0, b"")?, 1, "release", k)?;
            }
            3 => {
                // a message waits
                resp(&a.a.call(LOCK, 1, 0, key)?, 1, "lock of a free device", k)?;
                let cmd = format!("!{k}").into_bytes();
                b.s.send(DATA_END, 0, k as u32, &cmd);
                nothing(&mut b.s, "message for a locked device", k)?;
                let ev = d.log.take_effects();
                ensure!(ev.is_empty(), "lock-rules", "round {k}: the locked device saw {ev:?}");
                resp(&a.a.call(LOCK, 0, 0, b"")?, code, "release", k)?;
                exec::settle();
                let ev = d.log.take_effects();
                ensure!(ev == [Ev::Exec(cmd)], "lock-rules", "round {k}: the device saw {ev:?} after the lock was released");
            }
            4 => resp(&a.a.call(LOCK, 0, 0, b"")?, 3, "release without a lock", k)?,
            5 => {
                // both at once
                resp(&a.a.call(LOCK, 1, 0, b"s")?, 1, "shared lock", k)?;
                resp(&b.a.call(LOCK, 1, 0, b"s")?, 1, "the same shared lock", k)?;
                let r = a.a.call(LOCK_INFO, 0, 0, b"")?;
                ensure!((r.typ, r.cc, r.param) == (LOCK_INFO_RESP, 0, 2), "lock-info", "round {k}: two shared locks held, lock info {r:?}");
                resp(&a.a.call(LOCK, 0, 0, b"")?, 2, "release", k)?;
                resp(&b.a.call(LOCK, 0, 0, b"")?, 2, "release", k)?;
            }
            6 => {
                // the one who has it goes on
                resp(&a.a.call(LOCK, 1, 0, key)?, 1, "lock of a free device", k)?;
                query(&mut a, k, k as u32)?;
                resp(&a.a.call(LOCK, 0, 0, b"")?, code, "release", k)?;
                d.log.take();
            }
            7 => {
                // locked by another kind of session
                ensure!(ext.try_acquire_exclusive().is_ok(), "lock-rules", "round {k}: the free device cannot be locked");
                b.a.send(LOCK, 1, 100_000, key);
                nothing(&mut b.a, "waiting for a lock", k)?;
                ext.force_release();
                resp(&b.a.one("lock")?, 1, "lock of a device that became free", k)?;
                resp(&b.a.call(LOCK, 0, 0, b"")?, code, "release", k)?;
            }
            _ => {
                // both kinds of lock
                resp(&a.a.call(LOCK, 1, 0, b"s")?, 1, "shared lock", k)?;
                resp(&a.a.call(LOCK, 1, 0, b"")?, 1, "exclusive lock on top", k)?;
                resp(&b.a.call(LOCK, 1, 0, b"other")?, 0, "another shared lock of a locked device", k)?;
                resp(&b.a.call(LOCK, 1, 0, b"s")?, 1, "joining the shared lock", k)?;
                resp(&b.a.call(LOCK, 0, 0, b"")?, 2, "release of the shared lock", k)?;
                resp(&a.a.call(LOCK, 0, 0, b"")?, 1, "release of both locks", k)?;
                resp(&a.a.call(LOCK, 0, 0, b"")?, 3, "release without a lock", k)?;
            }
        }
        if k % 16 == 0 {
            let r = b.a.call(LOCK_INFO, 0, 0, b"")?;
            ensure!((r.typ, r.cc, r.param) == (LOCK_INFO_RESP, 0, 0), "lock-info", "round {k}: nobody holds a lock, lock info {r:?}");
        }
    }
    nothing(&mut a.s, "at the end", n)?;
    nothing(&mut b.s, "at the end", n)?;
    let l = d.shared.lock();
    ensure!(!l.exclusive_lock() && l.num_shared_locks() == 0, "lock-leak", "after {n} rounds the device stays locked");
    nontrivial();
    Ok(())
}

/// C14: one device clear after the other.
pub fn clears() -> CaseResult {
    exec::init(exec::Policy::Fifo);
    let e = serve(ServerConfig::default(), &["hislip0"]);
    let d = &e.devs[0];
    let feature = e.cfg.prefer_overlap as u8;
    let (mut s, mut o) = (calm(protocol())?, calm(0x0100)?);
    let mut ext = LockHandle::new(d.shared.clone(), d.device.clone());
    let cyc = cycle(5);
    let n = reps();
    d.log.take();
    for k in 0..n {
        let op = cyc[k as usize % cyc.len()];
        let mut locked = false;
        let id = (k as u32).wrapping_mul(2);
        let mut may = vec![];
        match op {
            0 => {}
            1 => s.s.send(DATA, 0, id, b"half a message"),
            2 => {
                locked = true;
                ensure!(ext.try_acquire_exclusive().is_ok(), "setup", "round {k}: cannot lock the device");
                s.s.send(DATA_END, 0, id, b"waiting");
                exec::settle();
            }
            3 => {
                // answered, and not read
                s.s.p.set_out_cap(10);
                s.s.send(DATA_END, 0, id, b"#500");
                exec::settle();
                may.push(Ev::Exec(b"#500".to_vec()));
            }
            _ => {
                s.s.send(DATA_END, 0, id, b"!done");
                exec::settle();
                may.push(Ev::Exec(b"!done".to_vec()));
            }
        }
        let r = s.a.call(ASYNC_CLEAR, 0, 0, b"")?;
        ensure!(r == Msg { typ: ASYNC_CLEAR_ACK, cc: feature, param: 0, payload: vec![] }, "clear-ack", "round {k}: AsyncDeviceClear answered {r:?}");
        s.s.send(CLEAR_COMPLETE, 0, 0, b"");
        s.s.p.set_out_cap(1 << 20);
        let mut v = s.s.recv()?;
        let Some(last) = v.pop() else { fail!("clear-ack", "round {k}: DeviceClearComplete is not answered") };
        ensure!(last.typ == CLEAR_ACK && last.param == 0 && last.payload.is_empty(), "clear-ack", "round {k}: DeviceClearComplete answered {last:?}");
        ensure!(v.is_empty() || op == 3 && v.iter().all(|m| m.typ == DATA || m.typ == DATA_END), "surplus", "round {k}: {v:?} before the acknowledgement");
        let ev: Vec<Ev> = d.log.take_effects();
        ensure!(ev.iter().filter(|e| **e == Ev::Clear).count() == !locked as usize, "device-clear", "round {k}: the device saw {ev:?}");
        let rest: Vec<Ev> = ev.into_iter().filter(|e| *e != Ev::Clear).collect();
        ensure!(rest == may, "effect", "round {k}: the device saw {rest:?} beside the clear, expected {may:?}");
        if locked {
            ext.force_release();
            exec::settle();
        }
        query(&mut s, k, id.wrapping_add(1))?;
        if k % 16 == 0 {
            query(&mut o, k, 5)?;
            let st = s.a.call(STATUS, 0, id.wrapping_add(1), b"")?;
            ensure!(st.typ == STATUS_RESP && st.cc & 0x10 == 0, "out-of-step", "round {k}: status query answered {st:?}");
        }
        let ev = d.log.take_effects();
        ensure!(!ev.iter().any(|e| *e == Ev::Exec(b"waiting".to_vec())), "cleared", "round {k}: a message sent before the clear was executed");
    }
    nontrivial();
    Ok(())
}

/// C15: service requests, status queries, remote and local, triggers.
pub fn requests() -> CaseResult {
    exec::init(exec::Policy::Fifo);
    let e = serve(ServerConfig::default(), &["hislip0"]);
    let d = &e.devs[0];
    let mut status = e.status.clone();
    let (mut a, mut b) = (calm(protocol())?, calm(protocol())?);
    let cyc = cycle(6);
    let n = reps();
    let stb = choose(256) as u8 & 0xef;
    d.log.set_stb(stb);
    // b asks for its status only now and then
    let lazy = range(1, 8);
    let mut armed = [true, true];
    let mut sent = vec![];
    /// Ask for the status; a byte published meanwhile may follow.
    fn ask(s: &mut Sess, i: usize, stb: u8, sent: &[u8], k: u64) -> Result<bool, Fail> {
        s.a.send(STATUS, 1, k as u32, b"");
        let v = s.a.recv()?;
        let ok = v.first().is_some_and(|r| r.typ == STATUS_RESP && r.cc & 0xef == stb && r.param == 0 && r.payload.is_empty());
        ensure!(ok, "status", "round {k}: session {i}: status query answered {v:?}, device status {stb:#x}");
        match &v[1..] {
            [] => Ok(true),
            [m] if m.typ == SRQ && sent.contains(&m.cc) && m.param == 0 && m.payload.is_empty() => Ok(false),
            x => fail!("surplus", "round {k}: session {i}: {x:?} after a status query"),
        }
    }
    d.log.take();
    for k in 0..n {
        let op = cyc[k as usize % cyc.len()];
        match op {
            0 | 1 => {
                let v = (k * 37) as u8 | 0x40;
                sent.push(v);
                if sent.len() > 64 {
                    sent.remove(0);
                }
                status.send_status(v);
                for (i, s) in [&mut a, &mut b].into_iter().enumerate() {
                    let got = s.a.recv()?;
                    if armed[i] {
                        let want = Msg { typ: SRQ, cc: v, param: 0, payload: vec![] };
                        ensure!(got == [want.clone()], "service-request", "round {k}: status {v:#x} published, session {i} received {got:?}, expected {want:?}");
                        armed[i] = false;
                    } else {
                        ensure!(got.is_empty(), "service-request", "round {k}: session {i} received {got:?} before asking for its status");
                    }
                }
                for (i, s) in [&mut a, &mut b].into_iter().enumerate() {
                    if i == 1 && k % lazy != 0 {
                        continue;
                    }
                    armed[i] = ask(s, i, stb, &sent, k)?;
                }
            }
            2 => {
                d.log.take();
                let r = (k % 7) as u8;
                let m = a.a.call(RL, r, k as u32, b"")?;
                ensure!(m == Msg { typ: RL_RESP, cc: 0, param: 0, payload: vec![] }, "remote", "round {k}: remote/local request {r} answered {m:?}");
                let ev = d.log.take_effects();
                let want = match r {
                    0 | 2 => vec![Ev::Lockout(false), Ev::Remote(false)],
                    1 => vec![],
                    3 => vec![Ev::Remote(true)],
                    4 => vec![Ev::Lockout(true)],
                    5 => vec![Ev::Lockout(true), Ev::Remote(true)],
                    _ => vec![Ev::Remote(false)],
                };
                ensure!(ev == want, "remote", "round {k}: remote/local request {r}: the device saw {ev:?}, expected {want:?}");
                // back to where every message sets the device remote
                if r != 1 {
                    a.a.call(RL, 1, k as u32, b"")?;
                    d.log.take();
                }
            }
            3 => {
                d.log.take();
                a.s.send(TRIGGER, 0, k as u32, b"");
                nothing(&mut a.s, "trigger", k)?;
                let ev: Vec<Ev> = d.log.take_effects().into_iter().filter(|e| !matches!(e, Ev::Remote(_))).collect();
                ensure!(ev == [Ev::Trigger("Bus".into())], "trigger", "round {k}: trigger: the device saw {ev:?}");
            }
            4 => {
                let r = b.a.call(LOCK_INFO, 0, 0, b"")?;
                ensure!((r.typ, r.cc, r.param) == (LOCK_INFO_RESP, 0, 0), "lock-info", "round {k}: lock info {r:?}");
            }
            _ => {
                query(&mut b, k, k as u32)?;
                // until the client has told that it received it, a message is available
                armed[1] = ask(&mut b, 1, stb, &sent, k)?;
            }
        }
        if k % 64 == 0 {
            d.log.take();
        }
    }
    nontrivial();
    Ok(())
}

/// C11: message after message on one session.
pub fn transfers() -> CaseResult {
    exec::init(exec::Policy::Fifo);
    let smax = pick(&[1u64 << 20, 256, 64]);
    let e = serve(ServerConfig::default().max_message_size(smax).short_idn(b"ACME,1,2,3"), &["hislip0"]);
    let d = &e.devs[0];
    let (mut s, mut o) = (calm(protocol())?, calm(protocol())?);
    let cyc = cycle(8);
    let n = reps();
    let lazy = range(1, 50);
    let first = word();
    // message identifiers need not differ
    let step = pick(&[2u32, 2, 2, 1, 0, 0x100, 0x1_0000]);
    note(|| format!("identifiers from {first:#x} by {step:#x}"));
    let mut max = 256u64;
    let mut id = first;
    d.log.take();
    for k in 0..n {
        let mut next = || {
            id = id.wrapping_add(step);
            id
        };
        // (identifier, command) in the order sent, and what is answered without the device
        let mut sent: Vec<(u32, Vec<u8>)> = vec![];
        match cyc[k as usize % cyc.len()] {
            0 => sent.push((next(), format!("q{k}").into_bytes())),
            1 => sent.push((next(), format!("!{k}").into_bytes())),
            2 => {
                let id = next();
                let c = format!("split{k}").into_bytes();
                s.s.send(DATA, 0, id, &c[..3]);
                s.s.send(DATA, 0, id, &c[3..5]);
                s.s.send(DATA_END, 0, id, &c[5..]);
                check(&mut s.s, d, &[(id, c)], max, k)?;
            }
            3 => {
                let id = next();
                let q = if k % 2 == 0 { &b"*IDN?"[..] } else { b"*idn?" };
                let r = s.s.call(DATA_END, 0, id, q)?;
                let want = Msg { typ: DATA_END, cc: 0, param: id, payload: b"ACME,1,2,3".to_vec() };
                ensure!(r == want, "content", "round {k}: identification query answered {r:?}, expected {want:?}");
                let ev = d.log.take_effects();
                ensure!(!ev.iter().any(|e| matches!(e, Ev::Exec(_))), "executed", "round {k}: the device saw {ev:?}");
            }
            4 => sent.push((next(), format!("#{}", max * 2 + 1 + k % 3).into_bytes())),
            5 => {
                max = [64u64, 100, 256, 65][k as usize / cyc.len() % 4];
                let r = s.a.call(MAX_SIZE, 0, 0, &max.to_be_bytes())?;
                ensure!(r == Msg { typ: MAX_SIZE_RESP, cc: 0, param: 0, payload: smax.to_be_bytes().to_vec() }, "max-size", "round {k}: AsyncMaximumMessageSize answered {r:?}; the server's limit is {smax}");
            }
            6 => {
                for t in ["a", "!b", "c"] {
                    sent.push((next(), format!("{t}{k}").into_bytes()));
                }
            }
            _ => {
                // one identifier per piece, the answer carries that of the last
                s.s.send(DATA, 1, next(), b"pieces");
                let c = format!("pieces{k}").into_bytes();
                let id = next();
                s.s.send(DATA_END, 1, id, &c[6..]);
                check(&mut s.s, d, &[(id, c)], max, k)?;
            }
        }
        if !sent.is_empty() {
            let out: Vec<u8> = sent.iter().flat_map(|(id, c)| frame(DATA_END, 0, *id, c)).collect();
            s.s.p.write(&out);
            check(&mut s.s, d, &sent, max, k)?;
        }
        if k % lazy == 0 {
            query(&mut o, k, k as u32)?;
            d.log.take();
        }
    }
    nothing(&mut s.a, "at the end", n)?;
    nothing(&mut s.s, "at the end", n)?;
    query(&mut o, n, 3)?;
    nontrivial();
    Ok(())
}
/// The messages sent were executed, each once and in order, and answered.
fn check(c: &mut HConn, d: &HDev, sent: &[(u32, Vec<u8>)], max: u64, k: u64) -> CaseResult {
    let mut v = c.recv()?.into_iter();
    let got: Vec<Vec<u8>> = d.log.take().into_iter().filter_map(|e| if let Ev::Exec(c) = e { Some(c) } else { None }).collect();
    ensure!(got.iter().eq(sent.iter().map(|s| &s.1)), "executed", "round {k}: executed {:?}, sent {:?}", got.iter().map(|c| show(c)).collect::<Vec<_>>(), sent.iter().map(|c| show(&c.1)).collect::<Vec<_>>());
    for (id, cmd) in sent {
        let Some(want) = crate::dev::respond(cmd) else { continue };
        let mut data = vec![];
        loop {
            let Some(m) = v.next() else { fail!("missing", "round {k}: response to {id:#x} ends after {} of {} bytes (gone: {})", data.len(), want.len(), c.gone()) };
            ensure!((m.typ == DATA || m.typ == DATA_END) && m.param == *id, "response", "round {k}: got {m:?} in the response to {id:#x}");
            ensure!(m.payload.len() as u64 <= max, "too-large", "round {k}: {} bytes sent in one message, the client accepts {max}", m.payload.len());
            data.extend(&m.payload);
            if m.typ == DATA_END {
                break;
            }
        }
        ensure!(data == want, "content", "round {k}: response to {id:#x} is {} expected {}", show(&data), show(&want));
    }
    let rest: Vec<Msg> = v.collect();
    ensure!(rest.is_empty() && !c.gone(), "surplus", "round {k}: unexpected {rest:?} (gone: {})", c.gone());
    Ok(())
}
