//! Long lives of device locks and status channels: the same few operations hundreds to tens of thousands of times over.
use crate::engine::*;
use lxi_device::lock::{LockHandle, Mutex as DevMutex, RemoteLockHandle, SharedLock, SharedLockError, SharedLockMode, SpinMutex};
use lxi_device::status::Sender;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

type H = LockHandle<u64>;

fn reps() -> u64 {
    let n = match weighted(&[12, 8, 1]) {
        0 => range(240, 540),
        1 => range(1000, 4200),
        _ => range(65_520, 66_100),
    };
    note(|| format!("{n} rounds"));
    n
}
fn cycle(kinds: u64) -> Vec<u64> {
    let c: Vec<u64> = (0..range(1, 5)).map(|_| choose(kinds)).collect();
    note(|| format!("cycle {c:?}"));
    c
}

/// C01: very many holders of a shared lock, or very many locks and releases.
pub fn holders() -> CaseResult {
    let shared = SharedLock::new();
    let device = Arc::new(DevMutex::new(0u64));
    let new = || LockHandle::new(shared.clone(), device.clone());
    let mut probe: H = new();
    if choose(2) == 0 {
        let n = reps();
        let step = range(1, 5);
        let mut hs: Vec<H> = vec![];
        let info = |p: &H, n: u64| -> CaseResult {
            let i = p.lock_info();
            ensure!(i == (false, n as u32), "info", "{n} handles share the lock, lock_info = {i:?}");
            if n > 0 {
                ensure!(matches!(p.can_lock(), Err(SharedLockError::LockedByShared)), "can", "{n} handles share the lock, can_lock = {:?}", p.can_lock());
            }
            Ok(())
        };
        for k in 0..n {
            let mut h = new();
            let r = h.try_acquire(b"key");
            ensure!(r.is_ok(), "refused", "handle number {k} cannot join the shared lock: {r:?}");
            hs.push(h);
            info(&probe, k + 1)?;
        }
        let r = probe.try_acquire(b"");
        ensure!(r.is_err(), "granted", "exclusive lock granted while {n} handles share the lock");
        let mut left = n;
        while let Some(mut h) = hs.pop() {
            left -= 1;
            if left % step == 0 {
                drop(h);
            } else {
                let r = h.try_release();
                ensure!(matches!(r, Ok(SharedLockMode::Shared)), "release", "release of a shared lock: {r:?}");
            }
            info(&probe, left)?;
        }
    } else {
        let cyc = cycle(6);
        let n = reps();
        let (mut a, mut b) = (new(), new());
        for k in 0..n {
            let excl = |r: Result<SharedLockMode, SharedLockError>| -> CaseResult {
                ensure!(matches!(r, Ok(SharedLockMode::Exclusive)), "release", "round {k}: release of an exclusive lock: {r:?}");
                Ok(())
            };
            let share = |r: Result<SharedLockMode, SharedLockError>| -> CaseResult {
                ensure!(matches!(r, Ok(SharedLockMode::Shared)), "release", "round {k}: release of a shared lock: {r:?}");
                Ok(())
            };
            let ok = |r: Result<(), SharedLockError>| -> CaseResult {
                ensure!(r.is_ok(), "refused", "round {k}: {r:?} from a lock nobody has");
                Ok(())
            };
            let no = |r: Result<(), SharedLockError>| -> CaseResult {
                ensure!(r.is_err(), "granted", "round {k}: a lock somebody else has was granted");
                Ok(())
            };
            match cyc[k as usize % cyc.len()] {
                0 => {
                    ok(a.try_acquire(b""))?;
                    no(b.try_acquire(b""))?;
                    no(b.try_acquire(b"k"))?;
                    no(b.try_lock().map(|_| ()))?;
                    excl(a.try_release())?;
                }
                1 => {
                    ok(a.try_acquire(b"k"))?;
                    no(b.try_acquire(b"l"))?;
                    no(b.try_lock().map(|_| ()))?;
                    ok(a.try_lock().map(|_| ()))?;
                    share(a.try_release())?;
                }
                2 => {
                    ok(a.try_acquire(b"k"))?;
                    ok(b.try_acquire(b"k"))?;
                    ok(b.try_acquire(b""))?;
                    no(a.try_lock().map(|_| ()))?;
                    excl(b.try_release())?;
                    share(a.try_release())?;
                }
                3 => {
                    let mut h = new();
                    ok(h.try_acquire(if k % 2 == 0 { b"" } else { b"k" }))?;
                    no(a.try_acquire(b""))?;
                    drop(h);
                }
                4 => {
                    let r = a.try_release();
                    ensure!(matches!(r, Err(SharedLockError::AlreadyUnlocked)), "release", "round {k}: release without a lock: {r:?}");
                }
                _ => {
                    no(a.try_acquire(b"").and_then(|_| a.try_acquire(b"")))?;
                    a.force_release();
                }
            }
            let i = probe.lock_info();
            ensure!(i == (false, 0), "info", "round {k}: nobody has a lock, lock_info = {i:?}");
        }
    }
    let i = probe.lock_info();
    ensure!(i == (false, 0) && probe.try_acquire(b"").is_ok(), "stuck", "everything is released, lock_info = {i:?} and no lock can be had");
    nontrivial();
    Ok(())
}

struct Flag(AtomicBool);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, Ordering::SeqCst)
    }
}
/// A task that is polled when it has been woken.
struct Task<T> {
    f: Pin<Box<dyn Future<Output = T>>>,
    flag: Arc<Flag>,
}
impl<T> Task<T> {
    fn new(f: impl Future<Output = T> + 'static) -> Self {
        Task { f: Box::pin(f), flag: Arc::new(Flag(AtomicBool::new(true))) }
    }
    fn run(&mut self) -> Option<T> {
        let w = Waker::from(self.flag.clone());
        while self.flag.0.swap(false, Ordering::SeqCst) {
            if let Poll::Ready(v) = self.f.as_mut().poll(&mut Context::from_waker(&w)) {
                return Some(v);
            }
        }
        None
    }
}
/// C02, C03: a session waits while others come and go; or many wait one after the other.
pub fn waits(liveness: bool) -> CaseResult {
    let shared = SharedLock::new();
    let device = Arc::new(DevMutex::new(0u64));
    let new = || LockHandle::new(shared.clone(), device.clone());
    let (mut a, mut b): (H, H) = (new(), new());
    let remote = || RemoteLockHandle::new(Arc::new(SpinMutex::new(LockHandle::new(shared.clone(), device.clone()))));
    // what it waits for, and how
    let what = choose(4);
    let own = choose(2) == 0;
    let mk = || {
        let (dev, r, mut h) = (device.clone(), remote(), new());
        Task::new(async move {
            match (what, own) {
                (0, true) => h.async_acquire(b"").await.map(|_| h.has_exclusive()),
                (1, true) => h.async_acquire(b"other").await.map(|_| h.has_shared()),
                (2 | 3, true) => h.async_lock().await.map(|g| dev.try_lock().is_none() && *g == 0),
                (0, _) => r.async_acquire(b"").await.map(|_| true),
                (1, _) => r.async_acquire(b"other").await.map(|_| true),
                _ => r.async_lock().await.map(|g| dev.try_lock().is_none() && *g == 0),
            }
        })
    };
    let name = ["the exclusive lock", "a shared lock", "the device", "the device"][what as usize];
    let kind = choose(3);
    let n = reps();
    note(|| format!("waiting for {name} (own handle {own}), kind {kind}"));
    let got = |r: Option<Result<bool, SharedLockError>>, k: u64| -> CaseResult {
        match r {
            Some(Ok(true)) => Ok(()),
            Some(x) => fail!("wait-result", "round {k}: waiting for {name} ended with {x:?}"),
            None if liveness => fail!("stranded", "round {k}: {name} is free and the one who waits for it is not told"),
            None => Ok(()),
        }
    };
    let not = |r: Option<Result<bool, SharedLockError>>, k: u64| -> CaseResult {
        ensure!(r.is_none(), "conflict", "round {k}: {name} was given to one who waits ({r:?}) although another session has it");
        Ok(())
    };
    match kind {
        0 => {
            // one waits all along
            ensure!(a.try_acquire(b"k").is_ok(), "refused", "lock refused");
            let mut t = mk();
            not(t.run(), 0)?;
            let cyc = cycle(4);
            for k in 0..n {
                match cyc[k as usize % cyc.len()] {
                    0 => {
                        ensure!(b.try_acquire(b"k").is_ok(), "refused", "round {k}: the shared lock cannot be joined");
                        b.force_release();
                    }
                    1 => {
                        let mut h = new();
                        let _ = h.try_acquire(b"k");
                        drop(h);
                    }
                    2 => drop(a.try_lock().is_ok()),
                    _ => {
                        ensure!(a.try_acquire(b"").is_ok(), "refused", "round {k}: no upgrade");
                        a.force_release();
                        // free for a moment, and taken again before anybody could run
                        ensure!(a.try_acquire(b"k").is_ok(), "refused", "round {k}: lock refused");
                    }
                }
                not(t.run(), k)?;
            }
            a.force_release();
            got(t.run(), n)?;
        }
        1 => {
            // one after the other
            for k in 0..n {
                ensure!(a.try_acquire(if k % 2 == 0 { b"" } else { b"k" }).is_ok(), "refused", "round {k}: lock refused");
                let mut t = mk();
                not(t.run(), k)?;
                a.force_release();
                got(t.run(), k)?;
            }
        }
        _ => {
            // one waits all along, others come, wait, and give up
            ensure!(a.try_acquire(b"").is_ok(), "refused", "lock refused");
            let mut t = mk();
            not(t.run(), 0)?;
            for k in 0..n {
                let mut u = mk();
                not(u.run(), k)?;
                drop(u);
                not(t.run(), k)?;
            }
            a.force_release();
            got(t.run(), n)?;
        }
    }
    let r = b.try_acquire(b"");
    ensure!(r.is_ok(), "leftover", "everybody has left, and the lock is refused: {r:?}");
    nontrivial();
    Ok(())
}

/// C05: very many status bytes, and subscribers that come and go.
pub fn status() -> CaseResult {
    let mut tx = Sender::new();
    let mut stays = tx.get_new_receiver();
    let mut idle = tx.get_new_receiver();
    let n = reps();
    let (fresh, clone, gone) = (pick(&[1u64, 3, 1_000_000]), pick(&[1u64, 5, 1_000_000]), choose(3));
    note(|| format!("a new subscriber every {fresh}, a new publisher every {clone}, {gone}"));
    let mut last = None;
    for k in 0..n {
        let v = (k * 31) as u8;
        if k % fresh == 0 {
            let r = tx.get_new_receiver();
            if gone == 1 {
                drop(r);
            } else {
                last = Some(r);
            }
        }
        if k % clone == 0 {
            let mut t = tx.clone();
            t.send_status(v);
            if gone == 2 {
                tx = t;
            }
        } else {
            tx.send_status(v);
        }
        let got = stays.try_next();
        ensure!(matches!(got, Ok(Some(x)) if x == v), "lost", "status byte number {k} ({v}): a receiver that takes them all got {got:?}");
        let got = stays.try_next();
        ensure!(got.is_err(), "twice", "status byte number {k} ({v}): then the receiver got {got:?}");
        if let Some(r) = &mut last {
            let got = r.try_next();
            ensure!(matches!(got, Ok(Some(x)) if x == v), "lost", "status byte number {k} ({v}): the latest receiver got {got:?}");
        }
    }
    // one that never looked: something of what was sent, and what is sent from now on
    let mut c = 0;
    while let Ok(Some(_)) = idle.try_next() {
        c += 1;
    }
    ensure!(c > 0 && c <= n, "lost", "a receiver that has not looked for {n} status bytes got {c}");
    tx.send_status(7);
    let got = idle.try_next();
    ensure!(matches!(got, Ok(Some(7))), "lost", "after {n} status bytes and {c} received at last, a receiver got {got:?} instead of 7");
    nontrivial();
    Ok(())
}
