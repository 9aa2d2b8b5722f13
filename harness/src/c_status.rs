//! C05: the status broadcast channel between a device and its sessions.
use crate::baton;
use crate::engine::*;
use futures::StreamExt;
use lxi_device::status::{Receiver, Sender};
use simrt::exec;
use std::sync::{Arc, Mutex};

struct R {
    rx: Receiver,
    /// values sent since subscription, not yet known to be delivered or skipped
    sent: Vec<u8>,
    /// position in `sent` up to which values were consumed
    pos: usize,
    /// nothing queued: the next value must arrive
    drained: bool,
    must: Option<usize>,
}
impl R {
    fn take(&mut self, id: usize) -> Result<bool, Fail> {
        match self.rx.try_next() {
            Ok(Some(v)) => {
                let at = self.sent[self.pos..].iter().position(|x| *x == v);
                let Some(d) = at else {
                    return Err(failure("invented", format!("receiver {id} got {v}, not among the values sent after its last one: {:?}", &self.sent[self.pos..])));
                };
                let i = self.pos + d;
                if let Some(m) = self.must {
                    if i > m {
                        return Err(failure("lost", format!("receiver {id} had taken everything when {} was sent, yet received {v} instead", self.sent[m])));
                    }
                    self.must = None;
                }
                self.pos = i + 1;
                Ok(true)
            }
            Ok(None) => Err(failure("closed", format!("receiver {id} was closed although a sender exists"))),
            Err(_) => {
                if let Some(m) = self.must {
                    return Err(failure("lost", format!("receiver {id} had taken everything when {} was sent, and never received it", self.sent[m])));
                }
                self.drained = true;
                Ok(false)
            }
        }
    }
}
fn c05_model() -> CaseResult {
    let mut txs = vec![Sender::new()];
    let mut rxs: Vec<R> = vec![];
    let (mut sends, mut dropped) = (0, 0);
    let mut next = choose(256) as u8;
    for _ in 0..range(1, 60) {
        match weighted(&[5, 6, 3, 2, 1, 2, 1]) {
            0 => {
                let i = choose(txs.len() as u64) as usize;
                // mostly distinct values, sometimes the same one again
                if !chance(1, 4) {
                    next = next.wrapping_add(1 + choose(3) as u8);
                }
                txs[i].send_status(next);
                note(|| format!("send {next}"));
                sends += 1;
                for r in rxs.iter_mut() {
                    r.sent.push(next);
                    if r.drained {
                        r.must = Some(r.sent.len() - 1);
                        r.drained = false;
                    }
                }
            }
            1 if !rxs.is_empty() => {
                let i = choose(rxs.len() as u64) as usize;
                let got = rxs[i].take(i)?;
                note(|| format!("receiver {i} polls: {got}"));
            }
            2 => {
                let i = choose(txs.len() as u64) as usize;
                rxs.push(R { rx: txs[i].get_new_receiver(), sent: vec![], pos: 0, drained: true, must: None });
                note(|| "subscribe".into());
            }
            3 if !rxs.is_empty() => {
                let i = choose(rxs.len() as u64) as usize;
                rxs.swap_remove(i);
                dropped += 1;
                note(|| format!("receiver {i} dropped"));
            }
            4 => txs.push(txs[0].clone()),
            5 if !rxs.is_empty() => {
                let i = choose(rxs.len() as u64) as usize;
                while rxs[i].take(i)? {}
            }
            _ if txs.len() > 1 => {
                let i = choose(txs.len() as u64) as usize;
                txs.swap_remove(i);
            }
            _ => {}
        }
    }
    for (i, r) in rxs.iter_mut().enumerate() {
        while r.take(i)? {}
    }
    if sends >= 2 && !rxs.is_empty() {
        nontrivial()
    }
    if dropped > 0 {
        label("a receiver was dropped")
    }
    // the last sender gone: every receiver ends
    drop(txs);
    for (i, r) in rxs.iter_mut().enumerate() {
        ensure!(matches!(r.rx.try_next(), Ok(None)), "not-closed", "receiver {i} is not closed when every sender is gone");
    }
    Ok(())
}

/// Tasks that wait for statuses are woken for each one they have room for.
fn c05_tasks() -> CaseResult {
    exec::init(pick(&[exec::Policy::Fifo, exec::Policy::Random, exec::Policy::Lifo]));
    let mut tx = Sender::new();
    let n = range(1, 5) as usize;
    let got: Vec<Arc<Mutex<Vec<u8>>>> = (0..n).map(|_| Arc::default()).collect();
    let hs: Vec<_> = got
        .iter()
        .map(|g| {
            let mut rx = tx.get_new_receiver();
            let g = g.clone();
            exec::spawn_named("receiver", async move {
                while let Some(v) = rx.next().await {
                    g.lock().unwrap().push(v);
                }
            })
        })
        .collect();
    let mut alive = vec![true; n];
    let mut want: Vec<Vec<u8>> = vec![vec![]; n];
    for _ in 0..range(1, 20) {
        let v = choose(256) as u8;
        exec::settle();
        if chance(1, 5) {
            let k = choose(n as u64) as usize;
            hs[k].kill_now();
            alive[k] = false;
            note(|| format!("receiver {k} dropped"));
        }
        tx.send_status(v);
        note(|| format!("send {v}"));
        for k in 0..n {
            if alive[k] {
                want[k].push(v)
            }
        }
    }
    exec::settle();
    for k in 0..n {
        let g = got[k].lock().unwrap().clone();
        ensure!(g == want[k], "lost", "waiting receiver {k} received {g:?}, sent to it {:?}", want[k]);
    }
    nontrivial();
    drop(tx);
    exec::settle();
    for k in 0..n {
        ensure!(!alive[k] || hs[k].is_done(), "not-closed", "receiver {k} still waits although the sender is gone");
    }
    Ok(())
}

/// Very many sessions.
fn c05_crowd() -> CaseResult {
    let mut txs = vec![Sender::new()];
    let n = pick(&[range(6, 40), range(60, 70), range(250, 300), range(500, 1100)]);
    // (receiver, values it may still have to deliver)
    let mut rxs: Vec<(Receiver, Vec<u8>)> = vec![];
    let mut pos = 0;
    for _ in 0..n {
        let k = choose(txs.len() as u64) as usize;
        rxs.push((txs[k].get_new_receiver(), vec![]));
        if chance(1, 20) {
            rxs.swap_remove(choose(rxs.len() as u64) as usize);
        }
        if chance(1, 50) && txs.len() < 4 {
            txs.push(txs[0].clone());
        }
    }
    for _ in 0..range(1, 8) {
        let v = choose(256) as u8;
        let k = choose(txs.len() as u64) as usize;
        txs[k].send_status(v);
        pos += 1;
        let lazy = choose(4);
        note(|| format!("{} receivers, send {v}", rxs.len()));
        for (i, (r, late)) in rxs.iter_mut().enumerate() {
            late.push(v);
            if (i as u64 + pos) % 4 < lazy {
                continue;
            }
            let mut got = vec![];
            while let Ok(Some(x)) = r.try_next() {
                got.push(x)
            }
            // in order, and the first of those outstanding
            let mut at = 0;
            for x in &got {
                match late[at..].iter().position(|y| y == x) {
                    Some(p) => at += p + 1,
                    None => fail!("invented", "receiver {i} got {got:?}, sent since it last looked: {late:?}"),
                }
            }
            ensure!(got.first() == late.first(), "lost", "receiver {i} of {n} had taken everything, then {late:?} was sent, and it got {got:?}");
            late.clear();
        }
        for _ in 0..choose(6) {
            if rxs.len() > 1 {
                rxs.swap_remove(choose(rxs.len() as u64) as usize);
            }
        }
    }
    nontrivial();
    Ok(())
}

/// Subscribing and sending from several threads at once.
fn c05_threads() -> CaseResult {
    let tx = Sender::new();
    let nt = range(2, 3) as usize;
    let sends: Vec<Vec<u8>> = (0..nt).map(|t| (0..choose(4)).map(|i| (t * 16) as u8 + i as u8).collect()).collect();
    let subs: Vec<u64> = (0..nt).map(|_| choose(3)).collect();
    note(|| format!("sends {sends:?} subscriptions {subs:?}"));
    let now = Arc::new(std::sync::atomic::AtomicU64::new(0));
    let done: Arc<Mutex<Vec<(u8, u64, u64)>>> = Arc::default();
    let rxs: Arc<Mutex<Vec<(Receiver, u64, u64)>>> = Arc::default();
    let fs: Vec<Box<dyn FnOnce() + Send>> = (0..nt)
        .map(|t| {
            let (mut tx, s, n, now, done, rxs) = (tx.clone(), sends[t].clone(), subs[t], now.clone(), done.clone(), rxs.clone());
            let f: Box<dyn FnOnce() + Send> = Box::new(move || {
                let tick = || now.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                let mut s = s.into_iter();
                for i in 0.. {
                    baton::yield_point();
                    let b = tick();
                    if i < n {
                        let r = tx.get_new_receiver();
                        rxs.lock().unwrap().push((r, b, tick()));
                    } else if let Some(v) = s.next() {
                        tx.send_status(v);
                        done.lock().unwrap().push((v, b, tick()));
                    } else {
                        break;
                    }
                }
            });
            f
        })
        .collect();
    let ran = baton::run(fs);
    ensure!(ran.panics.is_empty(), "panic", "panic in the code under test: {:?}", ran.panics);
    ensure!(!ran.stranded && !ran.spin_deadlock, "deadlock", "threads block for ever");
    let done = done.lock().unwrap().clone();
    let mut rxs = rxs.lock().unwrap();
    if ran.switches > 6 && !done.is_empty() && !rxs.is_empty() {
        nontrivial()
    }
    for (r, b, e) in rxs.iter_mut() {
        let mut got = vec![];
        while let Ok(Some(v)) = r.try_next() {
            got.push(v)
        }
        for v in &got {
            ensure!(done.iter().any(|d| d.0 == *v && d.2 > *b), "invented", "a receiver subscribed at {b} received {v}, sent before: {done:?}");
        }
        let certain = done.iter().filter(|d| d.1 > *e).count();
        ensure!(certain == 0 || !got.is_empty(), "lost", "a receiver subscribed by {e} received nothing although {certain} values were sent later");
        for (i, x) in got.iter().enumerate() {
            for y in &got[i + 1..] {
                let (dx, dy) = (done.iter().find(|d| d.0 == *x).unwrap(), done.iter().find(|d| d.0 == *y).unwrap());
                ensure!(dx.1 < dy.2, "order", "received {x} before {y}, sent the other way round");
            }
        }
    }
    Ok(())
}

/// Subscriptions that ended leave nothing behind.
fn c05_memory() -> CaseResult {
    let mut tx = Sender::new();
    let k = range(1, 4);
    let keep: Vec<_> = (0..choose(3)).map(|_| tx.get_new_receiver()).collect();
    let publish = choose(4);
    note(|| format!("{k} subscriptions; publishes while subscribed: {}, after: {}", publish & 1, publish >> 1));
    let mut round = || {
        let v: Vec<_> = (0..k).map(|_| tx.get_new_receiver()).collect();
        if publish & 1 != 0 {
            tx.send_status(1);
        }
        drop(v);
        if publish & 2 != 0 {
            tx.send_status(2);
        }
    };
    for _ in 0..64 {
        round()
    }
    let a = live_bytes();
    for _ in 0..256 {
        round()
    }
    let b = live_bytes();
    drop(keep);
    nontrivial();
    ensure!(b - a < 4096, "leak", "256 rounds of {k} subscriptions left {} bytes", b - a);
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C05",
        rule: "random histories of send/subscribe/receive/clone/drop against a per-receiver expectation; waiting tasks under random schedules; 6-1100 subscribers; senders and subscribers on preempted threads; non-trivial: two or more sends with a live receiver (model), any history (tasks, crowd), a send and a subscription over more than 6 thread switches (threads). long: a drawn cycle of subscriptions, publications and receptions repeated 240 to 66100 times, every answer checked; non-trivial: every case",
        assumptions: &["futures::channel::mpsc is trusted"],
        parts: vec![
            Part { name: "model", quick: 500_000, thorough: 20_000_000, run: c05_model },
            Part { name: "tasks", quick: 160_000, thorough: 6_400_000, run: c05_tasks },
            Part { name: "crowd", quick: 3_000, thorough: 120_000, run: c05_crowd },
            Part { name: "threads", quick: 24_000, thorough: 960_000, run: c05_threads },
            Part { name: "memory", quick: 1_000, thorough: 40_000, run: c05_memory },
            Part { name: "long", quick: 2_000, thorough: 80_000, run: crate::d_long::status },
        ],
    }]
}
