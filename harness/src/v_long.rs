//! Long lives of single VXI-11, portmapper and RPC client connections: the same few operations hundreds to tens of
//! thousands of times over.
use crate::c_rpc::{getport, map_client, start_map, PMAP};
use crate::c_vxi::*;
use crate::dev::{respond, Ev};
use crate::engine::*;
use crate::rpc::*;
use lxi_device::lock::LockHandle;
use lxi_vxi11::client::portmapper::prelude::{Mapping, PortMapperClient};
use lxi_vxi11::server::portmapper::prelude::StaticPortMap;
use simrt::exec;
use simrt::net;
use std::cell::RefCell;
use std::collections::VecDeque;
use std::net::{Ipv4Addr, SocketAddr};
use std::rc::Rc;

fn reps() -> u64 {
    let n = match weighted(&[12, 8, 1]) {
        0 => range(240, 540),
        1 => range(1000, 4200),
        _ => range(65_520, 66_100),
    };
    note(|| format!("{n} rounds"));
    n
}
fn cycle(kinds: u64) -> Vec<u64> {
    let c: Vec<u64> = (0..range(1, 5)).map(|_| choose(kinds)).collect();
    note(|| format!("cycle {c:?}"));
    c
}
/// The reply to a call that waits, once it is there.
fn due(c: &mut Conn, xid: u32, what: &str, k: u64) -> Result<Vec<u8>, Fail> {
    exec::settle();
    let r = c.replies()?;
    match &r[..] {
        [(x, Reply::Success(b))] if *x == xid => Ok(b.clone()),
        _ => Err(failure("no-answer", format!("round {k}: {what}: expected one successful reply to {xid}, got {r:?}"))),
    }
}
fn waits(c: &mut Conn, what: &str, k: u64) -> CaseResult {
    exec::settle();
    let r = c.replies()?;
    ensure!(r.is_empty() && !c.p.gone(), "no-wait", "round {k}: {what}: received {r:?} (gone: {})", c.p.gone());
    Ok(())
}
fn code(e: u32, want: u32, what: &str, k: u64) -> CaseResult {
    ensure!(e == want, "error-code", "round {k}: {what}: error {e}, expected {want}");
    Ok(())
}

/// C22, C23: two links get in each other's way over and over.
pub fn locks(aborts: bool) -> CaseResult {
    exec::init(exec::Policy::Fifo);
    let e = env(1);
    let d = &e.devs[0];
    let (mut a, mut b, mut x) = (plain(e.core)?, plain(e.core)?, plain(e.asy)?);
    let (la, lb) = (open(&mut a, "inst0")?, open(&mut b, "inst0")?);
    let mut ext = LockHandle::new(d.shared.clone(), d.device.clone());
    let t = pick(&[1u32, 10, 1000]);
    let cyc = if aborts { (0..range(1, 4)).map(|_| range(8, 12)).collect() } else { cycle(9) };
    note(|| format!("cycle {cyc:?}"));
    let n = reps();
    d.log.take();
    let lock = |c: &mut Conn, l: u32| -> Result<u32, Fail> { p_err(&c.call(CORE, 1, LOCK, a_lock(l, 0, 0))?) };
    let unlock = |c: &mut Conn, l: u32| -> Result<u32, Fail> { p_err(&c.call(CORE, 1, UNLOCK, X::new().u(l))?) };
    for k in 0..n {
        let op = cyc[k as usize % cyc.len()];
        let cmd = format!("!{k}").into_bytes();
        let mut want: Vec<Ev> = vec![];
        let done = vec![Ev::Exec(cmd.clone())];
        match op {
            0 => {
                code(lock(&mut a, la)?, 0, "lock of a free device", k)?;
                code(lock(&mut b, lb)?, 11, "lock of a locked device", k)?;
                code(p_two(&b.call(CORE, 1, WRITE, a_write(lb, END, 0, &cmd))?)?.0, 11, "write to a locked device", k)?;
                code(unlock(&mut a, la)?, 0, "unlock", k)?;
            }
            1 | 7 => {
                code(lock(&mut a, la)?, 0, "lock of a free device", k)?;
                let q = if op == 1 { b.send(CORE, 1, WRITE, a_write(lb, END | WAIT, t, &cmd)) } else { b.send(CORE, 1, LOCK, a_lock(lb, WAIT, t)) };
                waits(&mut b, "waiting for the lock", k)?;
                exec::advance(t as u64 + 1);
                let r = due(&mut b, q, "waiting for the lock in vain", k)?;
                code(if op == 1 { p_two(&r)?.0 } else { p_err(&r)? }, 11, "waiting for the lock in vain", k)?;
                code(unlock(&mut a, la)?, 0, "unlock", k)?;
            }
            2 => {
                code(lock(&mut a, la)?, 0, "lock of a free device", k)?;
                let q = b.send(CORE, 1, WRITE, a_write(lb, END | WAIT, 100_000, &cmd));
                waits(&mut b, "waiting for the lock", k)?;
                code(unlock(&mut a, la)?, 0, "unlock", k)?;
                code(p_two(&due(&mut b, q, "write after the unlock", k)?)?.0, 0, "write after the unlock", k)?;
                want = done;
            }
            3 => {
                code(lock(&mut a, la)?, 0, "lock of a free device", k)?;
                let q = b.send(CORE, 1, LOCK, a_lock(lb, WAIT, 100_000));
                waits(&mut b, "waiting for the lock", k)?;
                code(unlock(&mut a, la)?, 0, "unlock", k)?;
                code(p_err(&due(&mut b, q, "lock after the unlock", k)?)?, 0, "lock after the unlock", k)?;
                code(unlock(&mut b, lb)?, 0, "unlock", k)?;
            }
            4 => code(unlock(&mut a, la)?, 12, "unlock without a lock", k)?,
            5 => {
                // a link that takes its lock with it
                let l = p_create(&a.call(CORE, 1, CREATE_LINK, a_create("inst0", true, 0))?)?;
                code(l.err, 0, "create_link with a lock", k)?;
                code(lock(&mut b, lb)?, 11, "lock of a locked device", k)?;
                code(p_err(&a.call(CORE, 1, DESTROY_LINK, X::new().u(l.lid))?)?, 0, "destroy_link", k)?;
            }
            6 => {
                code(lock(&mut a, la)?, 0, "lock of a free device", k)?;
                code(p_two(&a.call(CORE, 1, WRITE, a_write(la, END, 0, &cmd))?)?.0, 0, "write by the one who has the lock", k)?;
                code(unlock(&mut a, la)?, 0, "unlock", k)?;
                want = done;
            }
            8 => {
                // locked by another kind of session
                ensure!(ext.try_acquire_exclusive().is_ok(), "lock-rules", "round {k}: the free device cannot be locked");
                let q = b.send(CORE, 1, WRITE, a_write(lb, END | WAIT, 100_000, &cmd));
                waits(&mut b, "waiting for the lock", k)?;
                ext.force_release();
                code(p_two(&due(&mut b, q, "write after the unlock", k)?)?.0, 0, "write after the unlock", k)?;
                want = done;
            }
            9 => {
                // a call that waits is aborted
                code(lock(&mut a, la)?, 0, "lock of a free device", k)?;
                let q = if k % 2 == 0 { b.send(CORE, 1, WRITE, a_write(lb, END | WAIT, 100_000, &cmd)) } else { b.send(CORE, 1, LOCK, a_lock(lb, WAIT, 100_000)) };
                waits(&mut b, "waiting for the lock", k)?;
                code(p_err(&x.call(ASYNC, 1, 1, X::new().u(lb))?)?, 0, "device_abort", k)?;
                let r = due(&mut b, q, "an aborted call", k)?;
                code(if k % 2 == 0 { p_two(&r)?.0 } else { p_err(&r)? }, 23, "an aborted call", k)?;
                code(unlock(&mut a, la)?, 0, "unlock", k)?;
            }
            10 => {
                // nothing to abort, and nothing comes of it
                code(p_err(&x.call(ASYNC, 1, 1, X::new().u(lb))?)?, 0, "device_abort", k)?;
                code(lock(&mut a, la)?, 0, "lock of a free device", k)?;
                let q = b.send(CORE, 1, WRITE, a_write(lb, END | WAIT, 100_000, &cmd));
                waits(&mut b, "waiting for the lock after an earlier abort", k)?;
                code(unlock(&mut a, la)?, 0, "unlock", k)?;
                code(p_two(&due(&mut b, q, "write after the unlock", k)?)?.0, 0, "write after the unlock", k)?;
                want = done;
            }
            11 => {
                // aborting somebody else
                code(lock(&mut a, la)?, 0, "lock of a free device", k)?;
                let q = b.send(CORE, 1, LOCK, a_lock(lb, WAIT, 100_000));
                waits(&mut b, "waiting for the lock", k)?;
                code(p_err(&x.call(ASYNC, 1, 1, X::new().u(la))?)?, 0, "device_abort", k)?;
                waits(&mut b, "waiting for the lock while another link is aborted", k)?;
                code(unlock(&mut a, la)?, 0, "unlock", k)?;
                code(p_err(&due(&mut b, q, "lock after the unlock", k)?)?, 0, "lock after the unlock", k)?;
                code(unlock(&mut b, lb)?, 0, "unlock", k)?;
            }
            _ => {
                // an abort of a link there is not
                code(p_err(&x.call(ASYNC, 1, 1, X::new().u(la.max(lb) + 1_000_000))?)?, 4, "device_abort of an unknown link", k)?;
            }
        }
        let ev = d.log.take_effects();
        ensure!(ev == want, "effect", "round {k} (operation {op}): the device saw {ev:?}, expected {want:?}");
    }
    {
        let l = d.shared.lock();
        ensure!(!l.exclusive_lock() && l.num_shared_locks() == 0, "lock-leak", "after {n} rounds the device stays locked");
    }
    waits(&mut a, "at the end", n)?;
    waits(&mut b, "at the end", n)?;
    nontrivial();
    Ok(())
}

/// C24: very many service requests.
pub fn interrupts() -> CaseResult {
    exec::init(exec::Policy::Fifo);
    let e = env(1);
    let mut st = e.status.clone();
    let mut c = plain(e.core)?;
    let lid = open(&mut c, "inst0")?;
    let other = open(&mut c, "inst0")?;
    let udp = choose(2) == 1;
    // how often the channel is made anew, and the link enabled anew
    let (anew, able) = (pick(&[1_000_000u64, 1, 3, 100]), pick(&[1_000_000u64, 1, 2, 50]));
    let n = reps();
    note(|| format!("udp {udp}, new channel every {anew} rounds, enabled anew every {able}"));
    let port = 6000u16;
    let hu = udp.then(|| net::harness_udp_at(Ipv4Addr::LOCALHOST.into(), port));
    let acc = net::listen(port);
    let mut intr: Option<Conn> = None;
    let mut handle = bytes(choose(40) as usize);
    let mut seen: VecDeque<u32> = VecDeque::new();
    for k in 0..n {
        if k % anew == 0 {
            if k > 0 {
                code(p_err(&c.call(CORE, 1, DESTROY_INTR, X::new())?)?, 0, "destroy_intr_chan", k)?;
                ensure!(intr.as_ref().map_or(true, |i| i.p.gone()), "destroy-channel", "round {k}: destroy_intr_chan leaves the connection open");
                seen.clear();
            }
            let x = X::new().u(Ipv4Addr::LOCALHOST.into()).u(port as u32).u(INTR).u(1).u(udp as u32);
            code(p_err(&c.call(CORE, 1, CREATE_INTR, x)?)?, 0, "create_intr_chan", k)?;
            if !udp {
                let p = acc.accept();
                ensure!(p.is_some(), "channel", "round {k}: create_intr_chan succeeded without a connection");
                let p = p.unwrap();
                p.set_chunking(net::Chunking::Whole, net::Chunking::Whole);
                intr = Some(Conn::new(p));
            }
        }
        if k % able == 0 {
            if k > 0 {
                handle = (k as u32).to_be_bytes().to_vec();
                if k % 3 == 0 {
                    code(p_err(&c.call(CORE, 1, ENABLE_SRQ, a_srq(lid, false, b""))?)?, 0, "enable_srq(false)", k)?;
                    st.send_status(0x40);
                    exec::settle();
                }
            }
            code(p_err(&c.call(CORE, 1, ENABLE_SRQ, a_srq(lid, true, &handle))?)?, 0, "enable_srq", k)?;
        }
        st.send_status(0x40 | k as u8);
        exec::settle();
        let msgs = match (&mut intr, &hu) {
            (Some(c), _) => {
                let d = c.p.read();
                c.rx.extend(d);
                records(&mut c.rx)
            }
            (_, Some(u)) => u.received().into_iter().map(|d| d.0).collect(),
            _ => vec![],
        };
        ensure!(msgs.len() == 1, "srq", "round {k}: {} service requests after one status byte", msgs.len());
        let Some(q) = Call::parse(&msgs[0]) else { fail!("srq-message", "round {k}: malformed call {}", show(&msgs[0])) };
        ensure!((q.rpcvers, q.prog, q.vers, q.proc) == (2, INTR, 1, 30), "srq-message", "round {k}: interrupt call rpc {} program {} version {} procedure {}", q.rpcvers, q.prog, q.vers, q.proc);
        ensure!(q.args == X::new().o(&handle).0, "srq", "round {k}: arguments {}, the handle is {}", show(&q.args), show(&handle));
        ensure!(!seen.contains(&q.xid), "srq-xid", "round {k}: transaction id {} used again", q.xid);
        seen.push_back(q.xid);
        if seen.len() > 300 {
            seen.pop_front();
        }
        if k % 32 == 0 {
            let m = format!("!{k}").into_bytes();
            code(p_two(&c.call(CORE, 1, WRITE, a_write(if k % 64 == 0 { lid } else { other }, END, 0, &m))?)?.0, 0, "write", k)?;
            ensure!(e.devs[0].log.take_effects() == [Ev::Exec(m)], "effect", "round {k}: the write does not reach the device");
        }
    }
    nontrivial();
    Ok(())
}

/// C21: very many messages and responses on one link.
pub fn messages() -> CaseResult {
    exec::init(exec::Policy::Fifo);
    let e = env(1);
    let d = &e.devs[0];
    let mut c = plain(e.core)?;
    let lid = open(&mut c, "inst0")?;
    let cyc = cycle(7);
    let n = reps();
    for k in 0..n {
        let op = cyc[k as usize % cyc.len()];
        let mut want = vec![];
        let mut cmd = format!("{}{k}", if op == 1 { "!" } else { "" }).into_bytes();
        match op {
            0 | 1 => {
                let r = p_two(&c.call(CORE, 1, WRITE, a_write(lid, END, 0, &cmd))?)?;
                ensure!(r == (0, cmd.len() as u32), "write", "round {k}: write of {} bytes answered {r:?}", cmd.len());
                want.push(Ev::Exec(cmd.clone()));
            }
            2 => {
                // in two parts
                cmd.extend(b"+more");
                for (p, f) in [(&cmd[..1], 0), (&cmd[1..], END)] {
                    let r = p_two(&c.call(CORE, 1, WRITE, a_write(lid, f, 0, p))?)?;
                    ensure!(r == (0, p.len() as u32), "write", "round {k}: write of {} bytes answered {r:?}", p.len());
                }
                want.push(Ev::Exec(cmd.clone()));
            }
            3 => {
                // half a message, and a clear
                p_two(&c.call(CORE, 1, WRITE, a_write(lid, 0, 0, &cmd))?)?;
                code(p_err(&c.call(CORE, 1, CLEAR, a_gen(lid, 0, 0))?)?, 0, "clear", k)?;
                want.push(Ev::Clear);
            }
            4 => {
                code(p_err(&c.call(CORE, 1, TRIGGER, a_gen(lid, 0, 0))?)?, 0, "trigger", k)?;
                want.push(Ev::Trigger("Bus".into()));
            }
            5 => {
                let (er, _) = p_two(&c.call(CORE, 1, READSTB, a_gen(lid, 0, 0))?)?;
                code(er, 0, "readstb", k)?;
            }
            _ => {
                let r = p_read(&c.call(CORE, 1, READ, a_read(lid, 10, 0, 0, 0))?)?;
                ensure!(r.2.is_empty(), "read", "round {k}: a read without a response answered {r:?}");
            }
        }
        let ev = d.log.take_effects();
        ensure!(ev == want, "effect", "round {k} (operation {op}): the device saw {ev:?}, expected {want:?}");
        if op == 0 || op == 2 {
            let want = respond(&cmd).unwrap_or_default();
            let mut got = vec![];
            // in pieces
            loop {
                let r = p_read(&c.call(CORE, 1, READ, a_read(lid, if k % 2 == 0 { 3 } else { 4096 }, 0, 0, 0))?)?;
                ensure!(r.0 == 0 && !r.2.is_empty(), "read", "round {k}: read answered {r:?}");
                got.extend(&r.2);
                if r.1 & 4 != 0 || got.len() > want.len() {
                    break;
                }
            }
            ensure!(got == want, "response", "round {k}: read {}, expected {}", show(&got), show(&want));
        }
    }
    nontrivial();
    Ok(())
}

/// C25: very many calls of all kinds on one connection.
pub fn calls() -> CaseResult {
    exec::init(exec::Policy::Fifo);
    let e = env(1);
    start_map();
    let t = choose(4);
    let (port, prog, vers) = match t {
        0 => (e.core, CORE, 1),
        1 => (e.asy, ASYNC, 1),
        _ => (111, PMAP, 2),
    };
    let udp = t == 3;
    let mut tcp = if udp { None } else { Some(plain(port)?) };
    let mut hu = udp.then(|| net::harness_udp(23_000));
    let cyc = cycle(7);
    let n = reps();
    let low = choose(2) == 1;
    note(|| format!("program {prog}, udp {udp}"));
    for k in 0..n {
        // identifiers as the client likes, the same ones again included
        let xid = if low { k as u32 % 3 } else { (k as u32).wrapping_mul(0x9e37_79b1) };
        let mut q = Call::new(xid, prog, vers, 0, &[]);
        let want = match cyc[k as usize % cyc.len()] {
            0 => Reply::Success(vec![]),
            1 => {
                q.prog ^= 0x100;
                Reply::ProgUnavail
            }
            2 => {
                q.vers = 9;
                Reply::ProgMismatch(vers, vers)
            }
            3 => {
                q.proc = 77;
                Reply::ProcUnavail
            }
            4 => {
                q.rpcvers = 3;
                Reply::RpcMismatch(2, 2)
            }
            5 => {
                q.proc = if t == 0 { WRITE } else if t == 1 { 1 } else { 3 };
                q.args = vec![0; 3];
                Reply::Garbage
            }
            _ => {
                // an identifier of nothing; a service that is registered
                let (proc, args, b) = match t {
                    0 => (DESTROY_LINK, X::new().u(777), X::new().u(4)),
                    1 => (1, X::new().u(777), X::new().u(4)),
                    _ => (3, X::new().u(CORE).u(1).u(6).u(0), X::new().u(4322)),
                };
                q.proc = proc;
                q.args = args.0;
                Reply::Success(b.0)
            }
        };
        let m = q.bytes();
        let got = if let Some(c) = &mut tcp {
            c.p.write(&record(&m));
            exec::settle();
            let r = c.replies()?;
            ensure!(!c.p.gone(), "hangup", "the connection is closed after {k} calls");
            r
        } else {
            let u = hu.as_mut().unwrap();
            u.send(&m, SocketAddr::from(([127, 0, 0, 1], port)));
            exec::settle();
            let mut v = vec![];
            for (d, _) in u.received() {
                let Some(r) = parse_reply(&d) else { fail!("malformed-reply", "malformed RPC reply {}", show(&d)) };
                v.push(r);
            }
            v
        };
        ensure!(got == [(xid, want.clone())], "answer", "call {k} to {}/{} procedure {}: answered {got:?}, expected {want:?}", q.prog, q.vers, q.proc);
    }
    let ev = e.devs[0].log.take();
    ensure!(ev.is_empty(), "effect", "the device saw {ev:?}");
    nontrivial();
    Ok(())
}

/// C25: very many connections, one call or less on each.
pub fn visits() -> CaseResult {
    exec::init(exec::Policy::Fifo);
    let e = env(1);
    start_map();
    let (port, prog, vers) = pick(&[(e.core, CORE, 1), (e.asy, ASYNC, 1), (111, PMAP, 2)]);
    let n = reps();
    let slots = range(1, 5) as usize;
    let ways: Vec<u64> = (0..range(1, 4)).map(|_| choose(5)).collect();
    let cyc = cycle(5);
    note(|| format!("program {prog}, {slots} at a time, leave by {ways:?}"));
    let mut stays = plain(port)?;
    let ask = |c: &mut Conn, k: u64, bad: bool| -> CaseResult {
        let xid = (k as u32).wrapping_mul(0x9e37_79b1);
        let m = Call::new(xid, prog, vers, if bad { 77 } else { 0 }, &[]).bytes();
        c.p.write(&record(&m));
        exec::settle();
        let got = c.replies()?;
        let want = if bad { Reply::ProcUnavail } else { Reply::Success(vec![]) };
        ensure!(got == [(xid, want.clone())] && !c.p.gone(), "answer", "connection {k}: answered {got:?}, expected {want:?} (gone: {})", c.p.gone());
        Ok(())
    };
    let mut cs: Vec<Option<Conn>> = (0..slots).map(|_| None).collect();
    for k in 0..n {
        if k % 256 == 0 {
            alive();
        }
        let i = k as usize % slots;
        if let Some(mut c) = cs[i].take() {
            match ways[k as usize % ways.len()] {
                0 => c.p.close(),
                1 => c.p.reset(),
                2 => {
                    c.p.shutdown_write();
                    exec::settle();
                    ensure!(c.p.gone(), "open-after-eof", "connection {k} is kept open after end of input");
                }
                3 => {
                    // in the middle of a call
                    c.p.write(&record(&Call::new(1, prog, vers, 0, &[]).bytes())[..30]);
                    c.p.close()
                }
                _ => {
                    // without waiting for the reply
                    c.p.write(&record(&Call::new(1, prog, vers, 0, &[]).bytes()));
                    c.p.reset()
                }
            }
            exec::settle();
        }
        let mut c = plain(port)?;
        match cyc[k as usize % cyc.len()] {
            0 => ask(&mut c, k, false)?,
            1 => ask(&mut c, k, true)?,
            2 => {
                ask(&mut c, k, false)?;
                ask(&mut c, k, true)?;
            }
            3 if prog == CORE => {
                let l = open(&mut c, "inst0")?;
                if k % 2 == 0 {
                    code(p_err(&c.call(CORE, 1, DESTROY_LINK, X::new().u(l))?)?, 0, "destroy_link", k)?;
                }
            }
            _ => {}
        }
        cs[i] = Some(c);
        if k % 100 == 0 {
            ask(&mut stays, k, false)?;
        }
        net::forget();
    }
    ask(&mut stays, n, false)?;
    for c in cs.iter_mut().flatten() {
        ask(c, n, false)?;
    }
    let ev = e.devs[0].log.take();
    ensure!(ev.is_empty(), "effect", "the device saw {ev:?}");
    nontrivial();
    Ok(())
}

/// C26: very many clients, or one that asks very often.
pub fn lookups() -> CaseResult {
    exec::init(exec::Policy::Fifo);
    let maps = [(CORE, 1, 6, 4322), (ASYNC, 1, 6, range(1, 65_535) as u32), (CORE, 2, 17, 9)];
    let s = StaticPortMap::new(maps.map(|m| Mapping::new(m.0, m.1, m.2, m.3)));
    exec::spawn_named("portmap", s.bind("127.0.0.1:111"));
    exec::settle();
    let udp = choose(2) == 1;
    // every request by a client of its own
    let fresh = chance(1, 3);
    let cyc = cycle(6);
    let n = if fresh { reps().min(5000) } else { reps() };
    let hu = net::harness_udp(23_001);
    let mut c = plain(111)?;
    let mut stays = map_client(false)?;
    for k in 0..n {
        if fresh && !udp {
            c = plain(111)?;
        }
        let op = cyc[k as usize % cyc.len()];
        let (proc, args, want) = match op {
            0..=2 => {
                let m = maps[op as usize];
                (3, X::new().u(m.0).u(m.1).u(m.2).u(k as u32), Reply::Success(X::new().u(m.3).0))
            }
            3 => (3, X::new().u(CORE).u(1).u(17).u(0), Reply::Success(X::new().u(0).0)),
            4 => {
                let w = maps.iter().fold(X::new(), |w, m| w.b(true).u(m.0).u(m.1).u(m.2).u(m.3));
                (4, X::new(), Reply::Success(w.b(false).0))
            }
            _ => (1, X::new().u(CORE).u(7).u(6).u(99), Reply::ProcUnavail),
        };
        let xid = k as u32;
        let m = Call::new(xid, PMAP, 2, proc, &args.0).bytes();
        let got = if udp {
            hu.send(&m, SocketAddr::from(([127, 0, 0, 1], 111)));
            exec::settle();
            hu.received().iter().filter_map(|d| parse_reply(&d.0)).collect()
        } else {
            c.p.write(&record(&m));
            exec::settle();
            c.replies()?
        };
        ensure!(got == [(xid, want.clone())], "answer", "request {k}, procedure {proc}, udp {udp}: answered {got:?}, expected {want:?}");
    }
    let p = getport(&mut stays, 5)?;
    ensure!(p == Some(4322), "answer", "a client that waited for {n} requests is told {p:?}");
    nontrivial();
    Ok(())
}

/// C27: one client, very many calls.
pub fn client() -> CaseResult {
    exec::init(exec::Policy::Fifo);
    let udp = choose(2) == 1;
    let cyc = cycle(5);
    let n = reps();
    // replies to earlier calls come again
    let again = pick(&[0u64, 1, 7]);
    note(|| format!("udp {udp}, an old reply every {again} calls"));
    let addr: SocketAddr = "127.0.0.1:111".parse().unwrap();
    let hu = udp.then(|| net::harness_udp_at(addr.ip(), 111));
    let lt = (!udp).then(|| net::listen(111));
    let res: Rc<RefCell<Vec<(u64, String)>>> = Rc::default();
    let (r2, c2) = (res.clone(), cyc.clone());
    let task = exec::spawn_named("client", async move {
        let c = if udp { PortMapperClient::connect_udp(addr).await } else { PortMapperClient::connect_tcp(addr).await };
        let Ok(mut c) = c else { return };
        for k in 0..n {
            let m = Mapping::new(k as u32, 1, 6, 1000);
            let s = match c2[k as usize % c2.len()] {
                0 => c.null().await.map(|_| "-".to_string()).unwrap_or("error".into()),
                1 => c.set(m).await.map(|b| format!("{b}")).unwrap_or("error".into()),
                2 => c.unset(m).await.map(|b| format!("{b}")).unwrap_or("error".into()),
                3 => c.getport(m).await.map(|b| format!("{b}")).unwrap_or("error".into()),
                _ => c.callit::<u32, u32>(7, 8, 9, k as u32).await.map(|b| format!("{b}")).unwrap_or("error".into()),
            };
            r2.borrow_mut().push((k, s));
        }
    });
    exec::settle();
    let mut tcp = match &lt {
        Some(l) => {
            let p = l.accept();
            ensure!(p.is_some(), "connect", "the client does not connect");
            let p = p.unwrap();
            p.set_chunking(net::Chunking::Whole, net::Chunking::Whole);
            Some(Conn::new(p))
        }
        None => None,
    };
    let mut seen: VecDeque<u32> = VecDeque::new();
    let mut old: Vec<u8> = vec![];
    for k in 0..n {
        let mut from = addr;
        let reqs: Vec<Vec<u8>> = match (&mut tcp, &hu) {
            (Some(c), _) => {
                let d = c.p.read();
                c.rx.extend(d);
                records(&mut c.rx)
            }
            (_, Some(u)) => u
                .received()
                .into_iter()
                .map(|(d, a)| {
                    from = a;
                    d
                })
                .collect(),
            _ => vec![],
        };
        ensure!(reqs.len() == 1, "request", "call {k}: {} requests sent (results so far: {}, the last {:?})", reqs.len(), res.borrow().len(), res.borrow().last());
        let Some(q) = Call::parse(&reqs[0]) else { fail!("request", "call {k}: malformed {}", show(&reqs[0])) };
        let op = cyc[k as usize % cyc.len()];
        let m = X::new().u(k as u32).u(1).u(6).u(1000).0;
        let (proc, args, body, want) = match op {
            0 => (0, vec![], X::new(), "-".to_string()),
            1 | 2 => (op as u32, m, X::new().b(k % 3 == 0), format!("{}", k % 3 == 0)),
            3 => (3, m, X::new().u(k as u32 % 65_536), format!("{}", k % 65_536)),
            _ => (5, X::new().u(7).u(8).u(9).o(&(k as u32).to_be_bytes()).0, X::new().u(1000).o(&(!k as u32).to_be_bytes()), format!("{}", !k as u32)),
        };
        ensure!((q.rpcvers, q.prog, q.vers, q.proc) == (2, PMAP, 2, proc) && q.args == args, "request", "call {k}: request to {}/{}/{} with {}, expected procedure {proc} with {}", q.prog, q.vers, q.proc, show(&q.args), show(&args));
        ensure!(!seen.contains(&q.xid), "xid", "call {k}: transaction id {} used again", q.xid);
        seen.push_back(q.xid);
        if seen.len() > 300 {
            seen.pop_front();
        }
        let send = |r: &[u8]| match (&tcp, &hu) {
            (Some(c), _) => c.p.write(&record(r)),
            (_, Some(u)) => {
                u.send(r, from);
            }
            _ => {}
        };
        if again > 0 && k > 0 && k % again == 0 {
            send(&old);
            exec::settle();
            ensure!(res.borrow().len() as u64 == k, "stale", "call {k} took the reply to the call before: {:?}", res.borrow().last());
        }
        old = reply_ok(q.xid, &body.0);
        send(&old);
        exec::settle();
        let last = res.borrow().last().cloned();
        ensure!(last == Some((k, want.clone())), "result", "call {k} (operation {op}) returned {last:?}, the answer was {want}");
    }
    drop(task);
    nontrivial();
    Ok(())
}
