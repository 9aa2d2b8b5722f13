//! VXI-11 clients that act the moment they have their answer, while everything else the server may still have to do
//! is not done.
use crate::c_lock::Model;
use crate::c_vxi::*;
use crate::dev::{respond, Ev};
use crate::engine::*;
use crate::rpc::*;
use lxi_device::lock::LockHandle;
use simrt::exec;

struct L {
    lid: u32,
    c: usize,
    d: usize,
    h: usize,
}
/// C20, C22, C23: links, locks and aborts are what the answers say, for everybody, from the moment of the answer.
pub fn links() -> CaseResult {
    exec::next_yields(choose(3) != 0);
    exec::init(pick(&[exec::Policy::Random, exec::Policy::Lifo, exec::Policy::Random, exec::Policy::Fifo]));
    let nd = range(1, 2) as usize;
    let e = env(nd);
    let nc = range(2, 3) as usize;
    let mut cs: Vec<Conn> = vec![];
    for _ in 0..nc {
        cs.push(conn(e.core)?);
    }
    let mut asy = conn(e.asy)?;
    let mut m: Vec<Model> = vec![Model::default(); nd];
    let mut ext: Vec<_> = e.devs.iter().map(|d| LockHandle::new(d.shared.clone(), d.device.clone())).collect();
    for m in &mut m {
        m.add();
    }
    let (mut live, mut dead): (Vec<L>, Vec<u32>) = (vec![], vec![]);
    let (mut tag, mut refused) = (0, 0);
    for d in &e.devs {
        d.log.take();
    }
    for _ in 0..range(5, 50) {
        let step = choose(13);
        let mut want: Vec<(usize, Vec<Ev>)> = vec![];
        if live.is_empty() && step > 2 {
            continue;
        }
        tag += 1;
        match step {
            0 | 1 if live.len() < 8 => {
                let (c, d, lock) = (choose(nc as u64) as usize, choose(nd as u64) as usize, step == 1 && choose(2) == 1);
                let h = m[d].add();
                let may = !lock || m[d].want(h, b"").is_ok();
                let r = p_create(&cs[c].call_promptly(CORE, 1, CREATE_LINK, a_create(&e.devs[d].name, lock, 0))?)?;
                note(|| format!("connection {c}: create_link to device {d}, lock {lock}: error {} link {}", r.err, r.lid));
                ensure!(r.err == if may { 0 } else { 11 }, "create", "create_link with lock {lock}: error {}; locks of the device: {:?}", r.err, m[d]);
                if may {
                    ensure!(live.iter().all(|l| l.lid != r.lid), "id-clash", "link {} is given out a second time", r.lid);
                    dead.retain(|x| *x != r.lid);
                    if lock {
                        m[d].got(h, b"");
                    }
                    live.push(L { lid: r.lid, c, d, h });
                } else {
                    refused += 1;
                }
            }
            0..=2 => {
                // somebody else locks or unlocks the device
                let d = choose(nd as u64) as usize;
                if choose(2) == 0 {
                    let key: &[u8] = pick(&[b"", b"k"]);
                    let ok = ext[d].try_acquire(key).is_ok();
                    note(|| format!("another session acquires {} of device {d}: {ok}", show(key)));
                    ensure!(ok == m[d].want(0, key).is_ok(), "lock-rules", "another session: lock {} granted: {ok}; locks of the device: {:?}", show(key), m[d]);
                    if ok {
                        m[d].got(0, key)
                    }
                } else {
                    note(|| format!("another session releases device {d}"));
                    ext[d].force_release();
                    let _ = m[d].release(0);
                }
            }
            3 | 4 => {
                let L { lid, c, d, h } = live[choose(live.len() as u64) as usize];
                let err = p_err(&cs[c].call_promptly(CORE, 1, LOCK, a_lock(lid, 0, 0))?)?;
                note(|| format!("link {lid} locks device {d}: {err}"));
                match m[d].want(h, b"") {
                    Ok(()) => {
                        ensure!(err == 0, "lock-rules", "link {lid} may have the lock, error {err}; locks of the device: {:?}", m[d]);
                        m[d].got(h, b"")
                    }
                    Err(_) if m[d].x[h] => {
                        ensure!(err != 0, "lock-rules", "link {lid} has the lock already and is given it again")
                    }
                    Err(_) => {
                        ensure!(err == 11, "lock-rules", "link {lid} may not have the lock, error {err}; locks of the device: {:?}", m[d]);
                        refused += 1
                    }
                }
            }
            5 => {
                let L { lid, c, d, h } = live[choose(live.len() as u64) as usize];
                let err = p_err(&cs[c].call_promptly(CORE, 1, UNLOCK, X::new().u(lid))?)?;
                note(|| format!("link {lid} unlocks device {d}: {err}"));
                ensure!(err == if m[d].release(h).is_ok() { 0 } else { 12 }, "lock-rules", "link {lid} unlocks: error {err}; locks of the device: {:?}", m[d]);
            }
            6 | 7 | 8 => {
                let L { lid, c, d, h } = live[choose(live.len() as u64) as usize];
                let cmd = format!("{}{tag}", if step == 6 { "!" } else { "q" }).into_bytes();
                let (proc, args, ev) = match choose(4) {
                    0 => (TRIGGER, a_gen(lid, 0, 0), Ev::Trigger("Bus".into())),
                    1 => (CLEAR, a_gen(lid, 0, 0), Ev::Clear),
                    _ => (WRITE, a_write(lid, END, 0, &cmd), Ev::Exec(cmd.clone())),
                };
                let err = p_any(proc, &cs[c].call_promptly(CORE, 1, proc, args)?)?;
                note(|| format!("link {lid} uses device {d} (procedure {proc}): {err}"));
                let may = m[d].can(h).is_ok();
                ensure!(err == if may { 0 } else { 11 }, "lock-rules", "link {lid}, procedure {proc}: error {err}; locks of the device: {:?}", m[d]);
                if may {
                    want.push((d, vec![ev]));
                    if proc == WRITE && step > 6 {
                        let r = p_read(&cs[c].call_promptly(CORE, 1, READ, a_read(lid, 1000, 0, 0, 0))?)?;
                        ensure!(r.0 == 0 && r.2 == respond(&cmd).unwrap(), "response", "link {lid}: response to {}: {r:?}", show(&cmd));
                    }
                } else {
                    refused += 1
                }
            }
            9 => {
                let i = choose(live.len() as u64) as usize;
                let L { lid, c, d, h } = live.remove(i);
                let err = p_err(&cs[c].call_promptly(CORE, 1, DESTROY_LINK, X::new().u(lid))?)?;
                note(|| format!("link {lid} is destroyed: {err}"));
                ensure!(err == 0, "destroy", "destroy_link of link {lid}: error {err}");
                let _ = m[d].release(h);
                dead.push(lid);
            }
            10 => {
                // a link that is gone, or another connection's
                let c = choose(nc as u64) as usize;
                let mut bad = dead.clone();
                bad.extend(live.iter().filter(|l| l.c != c).map(|l| l.lid));
                if !bad.is_empty() {
                    let lid = pick(&bad);
                    let (proc, args) = match choose(5) {
                        0 => (WRITE, a_write(lid, END, 0, b"!no")),
                        1 => (LOCK, a_lock(lid, 0, 0)),
                        2 => (UNLOCK, X::new().u(lid)),
                        3 => (DESTROY_LINK, X::new().u(lid)),
                        _ => (READ, a_read(lid, 10, 0, 0, 0)),
                    };
                    let err = p_any(proc, &cs[c].call_promptly(CORE, 1, proc, args)?)?;
                    note(|| format!("connection {c} uses link {lid}, which it does not have (procedure {proc}): {err}"));
                    ensure!(err == 4, "invalid-link", "connection {c} uses link {lid}, which it does not have (procedure {proc}): error {err}");
                }
            }
            11 => {
                let lid = if choose(3) == 0 && !dead.is_empty() { pick(&dead) } else { live[choose(live.len() as u64) as usize].lid };
                let there = live.iter().any(|l| l.lid == lid);
                let err = p_err(&asy.call_promptly(ASYNC, 1, 1, X::new().u(lid))?)?;
                note(|| format!("device_abort of link {lid}: {err}"));
                ensure!(err == if there { 0 } else { 4 }, "abort", "device_abort of link {lid} (open: {there}): error {err}");
            }
            _ => {
                // a connection is lost and made anew
                let c = choose(nc as u64) as usize;
                note(|| format!("connection {c} is lost"));
                cs[c] = conn(e.core)?;
                exec::settle();
                let mut keep = vec![];
                for l in live.drain(..) {
                    if l.c == c {
                        let _ = m[l.d].release(l.h);
                    } else {
                        keep.push(l)
                    }
                }
                live = keep;
            }
        }
        for (d, dev) in e.devs.iter().enumerate() {
            let ev = dev.log.take_effects();
            let w: &[Ev] = want.iter().find(|w| w.0 == d).map_or(&[], |w| &w.1);
            ensure!(ev == w, "effect", "device {d} has seen {ev:?}, expected {w:?}");
        }
    }
    if refused > 1 {
        nontrivial()
    }
    Ok(())
}
