//! Very many rounds of contention, and very many hostile visitors, with all servers on one instrument.
use super::*;
use simrt::net::Chunking;

fn calm(p: Peer) -> Peer {
    p.set_chunking(Chunking::Whole, Chunking::Whole);
    p.set_out_cap(1 << 20);
    p
}
/// Somebody who asks.
enum Who {
    Text(Peer, bool),
    Hs(Box<Sess>),
    Vx(Conn, u32),
}
const WHO: [&str; 5] = ["raw", "raw (Unix)", "telnet", "hislip", "vxi11"];
impl Who {
    fn new(kind: usize) -> Result<Who, Fail> {
        Ok(match kind {
            0 => Who::Text(calm(dial(RAW)?), false),
            1 => Who::Text(calm(dial(UNIX)?), false),
            2 => Who::Text(calm(dial(TELNET)?), true),
            3 => {
                let s = hs::open("", 0x0100)?;
                let Sess { s, a, id, proto } = s;
                for c in [&s, &a] {
                    c.p.set_chunking(Chunking::Whole, Chunking::Whole);
                    c.p.set_out_cap(1 << 20);
                }
                Who::Hs(Box::new(Sess { s, a, id, proto }))
            }
            _ => {
                let mut c = vx::plain(CORE)?;
                let l = vx::open(&mut c, "inst0")?;
                Who::Vx(c, l)
            }
        })
    }
    /// Ask and wait as long as it takes.
    fn ask(&mut self, cmd: &str, k: u64) {
        match self {
            Who::Text(p, t) => p.write(format!("{cmd}{}", if *t { "\r\n" } else { "\n" }).as_bytes()),
            Who::Hs(s) => s.s.send(hs::DATA_END, 0, (k as u32).wrapping_mul(2), cmd.as_bytes()),
            Who::Vx(c, l) => {
                c.send(vx::CORE, 1, vx::WRITE, vx::a_write(*l, vx::END | vx::WAIT, 1_000_000_000, cmd.as_bytes()));
            }
        }
    }
    /// What arrived; a prompt is not counted.
    fn quiet(&mut self) -> Result<bool, Fail> {
        Ok(match self {
            Who::Text(p, t) => {
                let d = p.read();
                d.is_empty() || *t && prompts(d).is_empty()
            }
            Who::Hs(s) => s.s.recv()?.is_empty(),
            Who::Vx(c, _) => c.replies()?.is_empty(),
        })
    }
    fn answered(&mut self, cmd: &str, what: &str, k: u64) -> CaseResult {
        let want = format!("<{cmd}").into_bytes();
        let got = match self {
            Who::Text(p, t) => {
                let d = p.read();
                let mut d = if *t { prompts(d) } else { d };
                let e: &[u8] = if *t { b"\r\n" } else { b"\n" };
                ensure!(d.ends_with(e) && !p.gone(), "responses", "round {k}: {what}: received {} (gone: {})", show(&d), p.gone());
                d.truncate(d.len() - e.len());
                d
            }
            Who::Hs(s) => {
                let r = s.s.one(what)?;
                ensure!(r.typ == hs::DATA_END && r.param == (k as u32).wrapping_mul(2), "responses", "round {k}: {what}: received {r:?}");
                r.payload
            }
            Who::Vx(c, l) => {
                let v = c.replies()?;
                let [(x, Reply::Success(b))] = &v[..] else { fail!("responses", "round {k}: {what}: write answered {v:?}") };
                ensure!(*x == c.xid && vx::p_two(b)? == (0, cmd.len() as u32), "responses", "round {k}: {what}: write answered {v:?}");
                let r = vx::p_read(&c.call(vx::CORE, 1, vx::READ, vx::a_read(*l, 1000, 0, 0, 0))?)?;
                ensure!(r.0 == 0, "responses", "round {k}: {what}: read answered {r:?}");
                r.2
            }
        };
        ensure!(got == want, "responses", "round {k}: {what}: received {}, expected {}", show(&got), show(&want));
        Ok(())
    }
}
/// Without prompts and go-aheads.
fn prompts(d: Vec<u8>) -> Vec<u8> {
    let p = b"SCPI> \xff\xf9";
    let (mut v, mut i) = (vec![], 0);
    while i < d.len() {
        if d[i..].starts_with(p) {
            i += p.len();
        } else {
            v.push(d[i]);
            i += 1;
        }
    }
    v
}
fn executed(inst: &Inst) -> Vec<String> {
    inst.log.take().into_iter().filter_map(|e| if let Ev::Exec(c) = e { Some(String::from_utf8_lossy(&c).into()) } else { None }).collect()
}

/// C30: somebody locks the device, others wait, again and again.
pub fn contention() -> CaseResult {
    exec::init(pick(&[exec::Policy::Fifo, exec::Policy::Lifo]));
    let inst = instrument(config(64));
    let mut who = vec![];
    for k in 0..5 {
        who.push(Who::new(k)?);
    }
    let Who::Hs(mut h) = Who::new(3)? else { unreachable!() };
    let Who::Vx(mut v, vl) = Who::new(4)? else { unreachable!() };
    let mut ext = LockHandle::new(inst.shared.clone(), inst.device.clone());
    let device = inst.device.clone();
    // who holds the device, who waits, whether the holder asks meanwhile
    let cyc: Vec<(u64, u64, bool)> = (0..range(1, 5)).map(|_| (choose(6), range(1, 31), choose(2) == 1)).collect();
    note(|| format!("cycle {cyc:?}"));
    let n = crate::h_long::reps();
    exec::settle();
    for w in &mut who {
        w.quiet()?;
    }
    inst.log.take();
    for k in 0..n {
        if k % 256 == 0 {
            alive();
        }
        let (holder, mask, asks) = cyc[k as usize % cyc.len()];
        let mut guard: Option<MutexGuard<'_, D>> = None;
        let lockr = |r: hs::Msg, cc: u8| -> CaseResult {
            ensure!(r.typ == hs::LOCK_RESP && r.cc == cc, "lock-rules", "round {k}: lock request answered {r:?}, expected code {cc}");
            Ok(())
        };
        match holder {
            0 | 1 => lockr(h.a.call(hs::LOCK, 1, 0, if holder == 0 { b"" } else { b"k" })?, 1)?,
            2 => {
                let e = vx::p_err(&v.call(vx::CORE, 1, vx::LOCK, vx::a_lock(vl, 0, 0))?)?;
                ensure!(e == 0, "lock-rules", "round {k}: lock of a free device ended with error {e}");
            }
            3 => ensure!(ext.try_acquire_exclusive().is_ok(), "lock-rules", "round {k}: the free device cannot be locked"),
            4 => ensure!(ext.try_acquire_shared(b"k").is_ok(), "lock-rules", "round {k}: the free device cannot be locked"),
            _ => {
                guard = device.try_lock();
                ensure!(guard.is_some(), "stuck-device", "round {k}: nobody is served but the device is not free");
            }
        }
        let waiting: Vec<usize> = (0..5).filter(|i| mask >> i & 1 == 1).collect();
        let name = |i: usize| format!("{i}.{k}");
        for i in &waiting {
            who[*i].ask(&name(*i), k);
        }
        exec::settle();
        let ev = executed(&inst);
        ensure!(ev.is_empty(), "lock-rules", "round {k}: the locked device executed {ev:?}");
        for i in &waiting {
            ensure!(who[*i].quiet()?, "lock-rules", "round {k}: the {} client is answered although the device is locked", WHO[*i]);
        }
        if asks && holder < 3 {
            if holder < 2 {
                let r = h.s.call(hs::DATA_END, 0, k as u32, b"mine")?;
                ensure!(r.typ == hs::DATA_END && r.payload == b"<mine", "lock-rules", "round {k}: the holder's query answered {r:?}");
            } else {
                let r = vx::p_two(&v.call(vx::CORE, 1, vx::WRITE, vx::a_write(vl, vx::END, 0, b"!mine"))?)?;
                ensure!(r == (0, 5), "lock-rules", "round {k}: the holder's write answered {r:?}");
            }
            let ev = executed(&inst);
            ensure!(ev.len() == 1 && ev[0].ends_with("mine"), "lock-rules", "round {k}: the device executed {ev:?} for its holder");
        }
        match holder {
            0 | 1 => lockr(h.a.call(hs::LOCK, 0, 0, b"")?, 1 + (holder == 1) as u8)?,
            2 => {
                let e = vx::p_err(&v.call(vx::CORE, 1, vx::UNLOCK, X::new().u(vl))?)?;
                ensure!(e == 0, "lock-rules", "round {k}: unlock ended with error {e}");
            }
            3 | 4 => ext.force_release(),
            _ => drop(guard.take()),
        }
        exec::settle();
        let mut ev = executed(&inst);
        ev.sort();
        let want: Vec<String> = waiting.iter().map(|i| name(*i)).collect();
        ensure!(ev == want, "lock-rules", "round {k}: the device that became free executed {ev:?}, waiting were {want:?}");
        for i in &waiting {
            who[*i].answered(&name(*i), WHO[*i], k)?;
        }
        if k % 16 == 0 {
            // nobody holds it
            for (i, w) in who.iter_mut().enumerate() {
                let c = format!("free{i}");
                w.ask(&c, k);
                exec::settle();
                w.answered(&c, WHO[i], k)?;
            }
            inst.log.take();
        }
    }
    for w in &mut who {
        ensure!(w.quiet()?, "surplus", "a client receives more than it asked for");
    }
    let l = inst.shared.lock();
    ensure!(!l.exclusive_lock() && l.num_shared_locks() == 0, "lock-leak", "after {n} rounds the device stays locked");
    nontrivial();
    Ok(())
}

/// C31: hostile visitors for a long time.
pub fn siege() -> CaseResult {
    exec::init(pick(&[exec::Policy::Fifo, exec::Policy::Lifo]));
    const OWN: usize = 7;
    let ops: Vec<(usize, u64)> = (0..range(1, 4)).map(|_| (choose((CYCLES.len() + OWN) as u64) as usize, choose(60))).collect();
    let noises: Vec<(u16, Vec<u8>)> = (0..3)
        .map(|_| {
            let p = pick(&PORTS);
            (p, noise(p))
        })
        .collect();
    let n = match weighted(&[24, 12, 1]) {
        0 => range(240, 400),
        1 => range(600, 1500),
        _ => range(65_520, 66_000),
    };
    let every = range(10, 200);
    note(|| format!("{n} times: {}; {noises:?}", ops.iter().map(|(o, a)| format!("{} ({a})", CYCLES.get(*o).map_or_else(|| format!("#{}", o - CYCLES.len()), |s| s.to_string()))).collect::<Vec<_>>().join("; ")));
    // nothing is drawn from here on
    let src = simrt::choice::take();
    let res = (|| {
        let inst = instrument(config(64));
        let mut seq = 0u32;
        let mut by: Vec<Client> = vec![];
        for k in 0..6 {
            by.push(client(k)?);
        }
        let acc = net::listen(3000);
        let mut r = Residents {
            raw: dial(RAW)?,
            telnet: dial(TELNET)?,
            hs: hs::open("", 0x0200)?,
            vx: vx::conn(CORE)?,
            vxa: vx::conn(ASYNC)?,
            ext: LockHandle::new(inst.shared.clone(), inst.device.clone()),
        };
        exec::settle();
        for k in 0..n {
            if k % 64 == 0 {
                alive();
            }
            for (o, a) in &ops {
                let port = PORTS[*a as usize % PORTS.len()];
                match o.checked_sub(CYCLES.len()) {
                    None => cycle(*o, *a, &inst, &mut r, &acc)?,
                    Some(0) => {
                        let e = [103, 104, 24, 4, 1, 105][*a as usize / 7 % 6];
                        if port == UNIX {
                            net::accept_error_unix(PATH, e);
                        } else {
                            net::accept_error(port, e);
                        }
                        // the server may wait a moment before it accepts again
                        exec::advance(1000);
                    }
                    Some(1) => {
                        if port == UNIX {
                            net::connect_unix_reset(PATH);
                        } else {
                            net::connect_reset(port);
                        }
                    }
                    Some(2) => {
                        let v: Vec<_> = (0..12).map(|_| dial(port)).collect();
                        if a % 2 == 0 {
                            exec::settle();
                        }
                        drop(v);
                    }
                    Some(3) => {
                        // asks and does not read
                        let p = dial([RAW, TELNET, UNIX][*a as usize % 3])?;
                        p.set_out_cap(*a as usize);
                        p.write(b"#3000\n!x\n");
                        exec::settle();
                        leave(p, a % 2);
                    }
                    Some(4) => {
                        // does not read, with a session
                        let s = hs::open("", 0x0100)?;
                        s.s.p.set_out_cap(*a as usize);
                        s.a.p.set_out_cap(*a as usize / 4);
                        s.s.send(hs::DATA_END, 0, 2, b"#3000");
                        s.a.send(hs::STATUS, 0, 2, b"");
                        s.a.send(99, 0, 2, b"what");
                        exec::settle();
                        leave(s.s.p, a % 2);
                        leave(s.a.p, a / 2 % 2);
                    }
                    Some(5) => {
                        let mut c = vx::conn(CORE)?;
                        let l = link(&mut c)?;
                        c.p.set_out_cap(*a as usize);
                        c.send(vx::CORE, 1, vx::WRITE, vx::a_write(l, vx::END, 0, b"#3000"));
                        c.send(vx::CORE, 1, vx::READ, vx::a_read(l, 1 << 20, 0, 0, 0));
                        exec::settle();
                        leave(c.p, a % 2);
                    }
                    _ => {
                        let (port, v) = &noises[(k + a) as usize % 3];
                        let p = dial(*port)?;
                        p.write(v);
                        if a % 2 == 0 {
                            exec::settle();
                        }
                        leave(p, a % 3);
                    }
                }
                exec::settle();
                inst.log.take();
                if exec::with(|w| w.stuck.is_some() || !w.panics.is_empty()) {
                    return Ok(());
                }
            }
            net::forget();
            if k % every == 0 {
                exec::advance(1000);
                let i = (k / every) as usize % 6;
                served(&inst, &mut by[i], &format!("a {} client after {k} hostile visits", KINDS[i]), &mut seq)?;
            }
        }
        exec::advance(1000);
        inst.log.take();
        for (k, b) in by.iter_mut().enumerate() {
            served(&inst, b, &format!("a {} client after {n} hostile visits", KINDS[k]), &mut seq)?;
        }
        for k in 0..6 {
            let mut c = client(k).map_err(|f| failure("newcomer", format!("a new {} client after {n} hostile visits: {}", KINDS[k], f.msg)))?;
            inst.log.take();
            served(&inst, &mut c, &format!("a new {} client after {n} hostile visits", KINDS[k]), &mut seq)?;
        }
        Ok(())
    })();
    if let Some(s) = src {
        simrt::choice::install(s)
    }
    nontrivial();
    res
}

/// C30: clients of all servers that act the moment they have their answer.
pub fn prompt() -> CaseResult {
    exec::next_yields(choose(3) != 0);
    exec::init(pick(&[exec::Policy::Random, exec::Policy::Lifo, exec::Policy::Random, exec::Policy::Fifo]));
    let inst = instrument(config(64));
    let kinds: Vec<usize> = (0..range(3, 6)).map(|_| pick(&[3usize, 4, 0, 3, 4, 2, 1])).collect();
    let mut who = vec![];
    let mut m = crate::c_lock::Model::default();
    for k in &kinds {
        who.push(Who::new(*k)?);
        m.add();
    }
    let h = m.add();
    let mut ext = LockHandle::new(inst.shared.clone(), inst.device.clone());
    exec::settle();
    for w in &mut who {
        w.quiet()?;
    }
    inst.log.take();
    note(|| format!("clients {:?}", kinds.iter().map(|k| WHO[*k]).collect::<Vec<_>>()));
    let (mut granted, mut asked) = (0, 0);
    for k in 0..range(5, 40) {
        let i = choose(kinds.len() as u64) as usize;
        let key: &[u8] = pick(&[b"", b"", b"k", b"l"]);
        let step = choose(6);
        if step == 5 {
            if choose(2) == 0 {
                let ok = ext.try_acquire(key).is_ok();
                note(|| format!("another session acquires {}: {ok}", show(key)));
                ensure!(ok == m.want(h, key).is_ok(), "lock-rules", "another session: lock {} granted: {ok}; locks held: {m:?}", show(key));
                if ok {
                    m.got(h, key)
                }
            } else {
                note(|| "another session releases".into());
                ext.force_release();
                let _ = m.release(h);
            }
            continue;
        }
        let what = format!("{} client {i}", WHO[kinds[i]]);
        match (step, &mut who[i]) {
            (0, Who::Hs(s)) => {
                let r = s.a.promptly(hs::LOCK, 1, 0, key)?;
                note(|| format!("{what} asks for lock {}: {}", show(key), r.cc));
                ensure!(r.typ == hs::LOCK_RESP && (r.cc == 1) == m.want(i, key).is_ok(), "lock-rules", "{what}: lock {} answered {r:?}; locks held: {m:?}", show(key));
                if r.cc == 1 {
                    m.got(i, key);
                    granted += 1;
                }
            }
            (1, Who::Hs(s)) => {
                let r = s.a.promptly(hs::LOCK, 0, 0, b"")?;
                note(|| format!("{what} releases: {}", r.cc));
                let ok = m.release(i).is_ok();
                ensure!(r.typ == hs::LOCK_RESP && (r.cc != 3) == ok, "lock-rules", "{what}: release answered {r:?}, it had a lock: {ok}");
            }
            (0, Who::Vx(c, l)) => {
                let e = vx::p_err(&c.call_promptly(vx::CORE, 1, vx::LOCK, vx::a_lock(*l, 0, 0))?)?;
                note(|| format!("{what} locks: {e}"));
                ensure!((e == 0) == m.want(i, b"").is_ok(), "lock-rules", "{what}: lock ended with error {e}; locks held: {m:?}");
                if e == 0 {
                    m.got(i, b"");
                    granted += 1;
                }
            }
            (1, Who::Vx(c, l)) => {
                let e = vx::p_err(&c.call_promptly(vx::CORE, 1, vx::UNLOCK, X::new().u(*l))?)?;
                note(|| format!("{what} unlocks: {e}"));
                let ok = m.release(i).is_ok();
                ensure!((e == 0) == ok, "lock-rules", "{what}: unlock ended with error {e}, it had the lock: {ok}");
            }
            (2, Who::Vx(c, l)) if choose(2) == 0 => {
                // a new link instead of the old one
                note(|| format!("{what} gets another link"));
                let e = vx::p_err(&c.call_promptly(vx::CORE, 1, vx::DESTROY_LINK, X::new().u(*l))?)?;
                ensure!(e == 0, "destroy", "{what}: destroy_link ended with error {e}");
                let _ = m.release(i);
                let ok = ext.can_lock().is_ok();
                ensure!(ok == m.can(h).is_ok(), "lock-rules", "{what} destroyed its link, another session may use the device: {ok}; locks held: {m:?}");
                let n = vx::p_create(&c.call_promptly(vx::CORE, 1, vx::CREATE_LINK, vx::a_create("inst0", false, 0))?)?;
                ensure!(n.err == 0, "create", "{what}: create_link ended with error {}", n.err);
                *l = n.lid;
            }
            (2, _) if kinds[i] > 2 && choose(4) == 0 => {
                // leaves and comes back
                note(|| format!("{what} leaves"));
                who[i] = Who::new(kinds[i])?;
                exec::settle();
                let _ = m.release(i);
                who[i].quiet()?;
            }
            _ if m.can(i).is_ok() => {
                let cmd = format!("c{k}");
                note(|| format!("{what} asks {cmd}"));
                who[i].ask(&cmd, k);
                exec::settle();
                who[i].answered(&cmd, &what, k)?;
                let ev = executed(&inst);
                ensure!(ev == [cmd.clone()], "effect", "{what} asked {cmd}, the device executed {ev:?}");
                asked += 1;
            }
            _ => {}
        }
    }
    if granted > 1 && asked > 1 {
        nontrivial()
    }
    Ok(())
}
