//! C01-C04: the device lock shared by every front end.
use crate::baton;
use crate::engine::*;
use futures::channel::mpsc;
use futures::future::{select, Either};
use futures::StreamExt;
use lxi_device::lock::{LockHandle, Mutex as DevMutex, MutexGuard, RemoteLockHandle, SharedLock, SharedLockError, SharedLockMode, SpinMutex};
use simrt::exec;
use std::future::Future;
use std::pin::pin;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};

type Dev = u64;
type Guard = MutexGuard<'static, Dev>;
fn own(g: MutexGuard<'_, Dev>) -> Guard {
    // The device mutex lives in an Arc that outlives every guard in this file.
    unsafe { std::mem::transmute(g) }
}

// ------------------------------------------------------------------ reference model
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ref {
    Already,
    ByShared,
    ByExcl,
    NotHeld,
    Busy,
    Other,
}
fn class(e: &SharedLockError) -> Ref {
    match e {
        SharedLockError::AlreadyLocked => Ref::Already,
        SharedLockError::AlreadyUnlocked => Ref::NotHeld,
        SharedLockError::LockedByShared => Ref::ByShared,
        SharedLockError::LockedByExclusive => Ref::ByExcl,
        SharedLockError::Busy => Ref::Busy,
        _ => Ref::Other,
    }
}
/// One shared lock with a key and a holder count, one exclusive lock. Index = handle.
#[derive(Clone, Default, Debug)]
pub struct Model {
    pub key: Vec<u8>,
    pub s: Vec<bool>,
    pub x: Vec<bool>,
}
impl Model {
    pub fn add(&mut self) -> usize {
        self.s.push(false);
        self.x.push(false);
        self.s.len() - 1
    }
    pub fn n(&self) -> u32 {
        self.s.iter().filter(|b| **b).count() as u32
    }
    pub fn excl(&self) -> bool {
        self.x.contains(&true)
    }
    /// Ok, or the set of reasons that are truthful.
    pub fn can(&self, h: usize) -> Result<(), Vec<Ref>> {
        if self.x[h] {
            return Ok(());
        }
        let mut why = vec![];
        if self.excl() {
            why.push(Ref::ByExcl)
        }
        if !self.s[h] && self.n() > 0 {
            why.push(Ref::ByShared)
        }
        if why.is_empty() {
            Ok(())
        } else {
            Err(why)
        }
    }
    pub fn want(&self, h: usize, key: &[u8]) -> Result<(), Vec<Ref>> {
        if key.is_empty() {
            if self.x[h] {
                return Err(vec![Ref::Already]);
            }
            self.can(h)
        } else {
            if self.s[h] {
                return Err(vec![Ref::Already]);
            }
            let mut why = vec![];
            if self.n() > 0 {
                // joining the existing shared lock is always possible, whoever is exclusive
                if self.key != key {
                    why.push(Ref::ByShared);
                    if self.excl() {
                        why.push(Ref::ByExcl)
                    }
                }
            } else if self.x[h] {
                why.push(Ref::Already)
            } else if self.excl() {
                why.push(Ref::ByExcl)
            }
            if why.is_empty() {
                Ok(())
            } else {
                Err(why)
            }
        }
    }
    pub fn got(&mut self, h: usize, key: &[u8]) {
        if key.is_empty() {
            self.x[h] = true
        } else {
            self.key = key.to_vec();
            self.s[h] = true
        }
    }
    pub fn release(&mut self, h: usize) -> Result<bool, Ref> {
        let r = match (self.s[h], self.x[h]) {
            (_, true) => Ok(true),
            (true, false) => Ok(false),
            _ => Err(Ref::NotHeld),
        };
        self.s[h] = false;
        self.x[h] = false;
        r
    }
}
fn rel_class(r: &Result<SharedLockMode, SharedLockError>) -> Result<bool, Ref> {
    match r {
        Ok(SharedLockMode::Exclusive) => Ok(true),
        Ok(SharedLockMode::Shared) => Ok(false),
        Err(e) => Err(class(e)),
    }
}
/// Shared-lock keys for one case: unrelated, or variations of one (long) key that differ in one place.
pub fn palette(text: bool) -> Vec<Vec<u8>> {
    if chance(3, 5) {
        return [&b"a"[..], b"b", b"aa", if text { b" a" } else { b"\0" }].iter().map(|k| k.to_vec()).collect();
    }
    let n = pick(&[1usize, 2, 3, 4, 5, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 300, 1000]);
    let base: Vec<u8> = (0..n).map(|i| b"Lock-key of a client_"[i % 21]).collect();
    let mut v = vec![base.clone()];
    for _ in 0..range(1, 3) {
        let mut k = base.clone();
        let at = pick(&[0, n / 2, n - 1]);
        match choose(8) {
            0 => k.push(b'x'),
            1 => k[n - 1] = b'#',
            2 => k[at] = if k[at].is_ascii_alphabetic() { k[at] ^ 0x20 } else { b'_' },
            3 => k[at] = if text { b'*' } else { k[at] | 0x80 },
            4 => k.insert(0, b' '),
            5 => k.push(if text { b'\n' } else { 0 }),
            6 => k.insert(at, 0),
            _ => k.truncate((n - 1).max(1)),
        }
        if !v.contains(&k) {
            v.push(k)
        }
    }
    v
}
thread_local! {
    static KEYS: std::cell::RefCell<Vec<Vec<u8>>> = const { std::cell::RefCell::new(vec![]) };
}
fn new_keys() {
    let k = palette(false);
    KEYS.with(|v| *v.borrow_mut() = k)
}
fn key() -> Vec<u8> {
    if chance(1, 4) {
        return vec![];
    }
    KEYS.with(|v| pick(&v.borrow()))
}
/// Did a lock request end as the model allows?
fn judge(m: &Model, h: usize, k: &[u8], r: &Result<(), SharedLockError>, what: &str) -> CaseResult {
    match (m.want(h, k), r) {
        (Ok(()), Ok(())) => Ok(()),
        (Err(w), Err(e)) if w.contains(&class(e)) => Ok(()),
        (Ok(()), Err(e)) => Err(failure("refused", format!("{what}: handle {h} asked for {} and was refused ({e:?}); the model grants it: {m:?}", show(k)))),
        (Err(w), Ok(())) => Err(failure("granted", format!("{what}: handle {h} was granted {} although {w:?} applies: {m:?}", show(k)))),
        (Err(w), Err(e)) => Err(failure("reason", format!("{what}: handle {h} was refused {} with {e:?}; truthful reasons: {w:?}: {m:?}", show(k)))),
    }
}

// ------------------------------------------------------------------ C01: sequential state machine
fn ready<F: Future>(f: F) -> Option<F::Output> {
    let mut f = pin!(f);
    match f.as_mut().poll(&mut Context::from_waker(Waker::noop())) {
        Poll::Ready(v) => Some(v),
        Poll::Pending => None,
    }
}
struct H {
    h: Arc<SpinMutex<LockHandle<Dev>>>,
    r: RemoteLockHandle<Dev>,
    m: usize,
    probe: LockHandle<Dev>,
}
fn c01_sequential() -> CaseResult {
    new_keys();
    let shared = SharedLock::new();
    let device: Arc<DevMutex<Dev>> = Arc::new(DevMutex::new(0));
    let mut m = Model::default();
    let mut hs: Vec<H> = vec![];
    let mut guard: Option<(usize, Guard)> = None;
    let n = range(1, 40);
    let mut grants = 0;
    let mut refusals = 0;
    for _ in 0..n {
        if hs.is_empty() {
            hs.push(mk(&shared, &device, &mut m));
        }
        let i = choose(hs.len() as u64) as usize;
        let mi = hs[i].m;
        match weighted(&[6, 4, 3, 3, 2, 2, 2]) {
            0 => {
                let k = key();
                let how = choose(4);
                let r = match how {
                    0 => hs[i].h.lock().try_acquire(&k),
                    1 => hs[i].r.try_acquire(&k),
                    2 if k.is_empty() => hs[i].h.lock().try_acquire_exclusive(),
                    2 => hs[i].h.lock().try_acquire_shared(&k),
                    _ => {
                        // the waiting form must be immediate when grantable and wait otherwise
                        let expect_wait = m.want(mi, &k).is_err_and(|w| !w.contains(&Ref::Already));
                        let h = hs[i].h.clone();
                        let mut hh = h.lock();
                        let r = if choose(2) == 0 {
                            ready(hh.async_acquire(&k))
                        } else {
                            drop(hh);
                            ready(hs[i].r.async_acquire(&k))
                        };
                        match r {
                            None => {
                                ensure!(expect_wait, "refused", "waiting request for {} by handle {mi} waits although it can be decided: {m:?}", show(&k));
                                note(|| format!("h{mi} async_acquire {} waits, dropped", show(&k)));
                                continue;
                            }
                            Some(r) => {
                                ensure!(!expect_wait || r.is_ok(), "reason", "waiting request for {} by handle {mi} gave up: {r:?}: {m:?}", show(&k));
                                r
                            }
                        }
                    }
                };
                note(|| format!("h{mi} acquire[{how}] {} -> {r:?}", show(&k)));
                judge(&m, mi, &k, &r, "try_acquire")?;
                if r.is_ok() {
                    m.got(mi, &k);
                    grants += 1;
                } else {
                    refusals += 1;
                }
            }
            1 => {
                let r = rel_class(&hs[i].h.lock().try_release());
                note(|| format!("h{mi} release -> {r:?}"));
                let w = m.release(mi);
                ensure!(r == w, "release", "handle {mi} release gave {r:?}, model says {w:?} (Ok(true) = exclusive)");
            }
            2 => {
                // access
                let how = choose(3);
                let r = match how {
                    0 => hs[i].h.lock().try_lock().map(own),
                    1 => ready(hs[i].r.try_lock()).expect("try_lock waits").map(own),
                    _ => match ready(hs[i].r.async_lock()) {
                        Some(r) => r.map(own),
                        None => Err(SharedLockError::Busy),
                    },
                };
                note(|| format!("h{mi} lock device[{how}] -> {:?}", r.as_ref().map(|_| ()).map_err(class)));
                let busy = guard.is_some();
                match (m.can(mi), r) {
                    (Ok(()), Ok(g)) => {
                        ensure!(!busy, "double-guard", "handle {mi} got the device while handle {} has it", guard.as_ref().unwrap().0);
                        grants += 1;
                        guard = Some((mi, g));
                    }
                    (Ok(()), Err(e)) => ensure!(busy && class(&e) == Ref::Busy, "access-refused", "handle {mi} may use the device (free: {}) but got {e:?}: {m:?}", !busy),
                    (Err(w), Ok(_)) => fail!("access-granted", "handle {mi} was given the device although {w:?}: {m:?}"),
                    (Err(w), Err(e)) => {
                        refusals += 1;
                        ensure!(how == 2 || w.contains(&class(&e)) || (busy && class(&e) == Ref::Busy), "reason", "handle {mi} refused with {e:?}, truthful reasons {w:?}, busy {busy}")
                    }
                }
            }
            3 => {
                if guard.take().is_some() {
                    note(|| "device returned".into());
                }
            }
            4 => {
                if hs.len() < 5 {
                    hs.push(mk(&shared, &device, &mut m));
                }
            }
            5 => {
                note(|| format!("h{mi} dropped"));
                if chance(1, 3) {
                    hs[i].h.lock().force_release();
                    let _ = m.release(mi);
                    ensure!(!hs[i].h.lock().has_shared() && !hs[i].h.lock().has_exclusive(), "release", "force_release left a lock");
                }
                if guard.as_ref().is_some_and(|g| g.0 == mi) {
                    guard = None;
                }
                hs.swap_remove(i);
                let _ = m.release(mi);
            }
            _ => {
                // a device guard does not depend on locks taken through inner access
                if guard.is_none() {
                    ensure!(ready(hs[i].r.inner_lock()).is_some(), "inner", "inner_lock waits on a free device");
                }
            }
        }
        // observable state of every handle
        for h in &hs {
            let g = h.h.lock();
            let (x, cnt) = g.lock_info();
            ensure!((x, cnt) == (m.excl(), m.n()), "info", "lock_info = ({x}, {cnt}), model = ({}, {})", m.excl(), m.n());
            let (px, pc) = h.probe.lock_info();
            ensure!((px, pc) == (x, cnt), "info", "lock_info differs between handles");
            ensure!(g.has_shared() == m.s[h.m] && g.has_exclusive() == m.x[h.m], "held", "handle {}: has_shared {} has_exclusive {}, model {:?}", h.m, g.has_shared(), g.has_exclusive(), m);
            let can = g.can_lock();
            drop(g);
            let can_r = h.r.can_lock();
            ensure!(can.is_ok() == can_r.is_ok(), "can", "can_lock differs between the handle and its remote");
            match (m.can(h.m), can) {
                (Ok(()), Ok(())) => {}
                (Err(w), Err(e)) if w.contains(&class(&e)) => {}
                (w, g) => fail!("can", "can_lock of handle {} is {g:?}, model {w:?}: {m:?}", h.m),
            }
        }
    }
    if grants > 0 && refusals > 0 {
        nontrivial()
    }
    drop(guard);
    Ok(())
}
/// Many sessions on one lock.
fn c01_crowd() -> CaseResult {
    new_keys();
    let shared = SharedLock::new();
    let device: Arc<DevMutex<Dev>> = Arc::new(DevMutex::new(0));
    let n = pick(&[7usize, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 520]) ;
    let k = loop_key();
    let other = key();
    let mut m = Model::default();
    let mut hs: Vec<H> = (0..n).map(|_| mk(&shared, &device, &mut m)).collect();
    note(|| format!("{n} handles share {}", show(&k)));
    let info = |hs: &Vec<H>, m: &Model| -> CaseResult {
        let h = &hs[hs.len() / 2];
        let i = h.h.lock().lock_info();
        ensure!(i == (m.excl(), m.n()), "info", "lock_info = {i:?} with {} shared holders, exclusive {}", m.n(), m.excl());
        Ok(())
    };
    for i in 0..n {
        let mi = hs[i].m;
        let r = hs[i].h.lock().try_acquire(&k);
        judge(&m, mi, &k, &r, "try_acquire")?;
        m.got(mi, &k);
        info(&hs, &m)?;
        if chance(1, 16) {
            let r = hs[i].h.lock().try_acquire(&other);
            judge(&m, mi, &other, &r, "try_acquire")?;
            if r.is_ok() {
                m.got(mi, &other);
                let g = ready(hs[0].r.async_lock());
                ensure!(g.is_some() == m.can(0).is_ok(), "access", "handle 0 asked for the device: {:?}, model {:?}", g.is_some(), m.can(0));
            }
        }
    }
    // all but a few give it up, by releasing or by going away
    let left = choose(3) as usize;
    let late = mk(&shared, &device, &mut m);
    while hs.len() > left {
        let i = choose(hs.len() as u64) as usize;
        let mi = hs[i].m;
        if chance(1, 2) {
            let r = rel_class(&hs[i].h.lock().try_release());
            let w = m.release(mi);
            ensure!(r == w, "release", "handle {mi} release gave {r:?}, model says {w:?} (Ok(true) = exclusive)");
        } else {
            let _ = m.release(mi);
        }
        hs.swap_remove(i);
        let i = late.h.lock().lock_info();
        ensure!(i == (m.excl(), m.n()), "info", "lock_info = {i:?} with {} shared holders, exclusive {}", m.n(), m.excl());
        let can = late.h.lock().can_lock();
        ensure!(can.is_ok() == m.can(late.m).is_ok(), "can", "can_lock of a handle without lock is {can:?} with {} holders", m.n());
    }
    let r = late.h.lock().try_acquire(b"");
    judge(&m, late.m, b"", &r, "try_acquire")?;
    nontrivial();
    Ok(())
}
/// a key that is not empty
fn loop_key() -> Vec<u8> {
    KEYS.with(|v| pick(&v.borrow()))
}
fn mk(shared: &Arc<SpinMutex<SharedLock>>, device: &Arc<DevMutex<Dev>>, m: &mut Model) -> H {
    let h = Arc::new(SpinMutex::new(LockHandle::new(shared.clone(), device.clone())));
    H { r: RemoteLockHandle::new(h.clone()), h, m: m.add(), probe: LockHandle::new(shared.clone(), device.clone()) }
}

// ------------------------------------------------------------------ C02/C03: concurrent sessions
enum Hd {
    Own(LockHandle<Dev>),
    Remote(Arc<SpinMutex<LockHandle<Dev>>>, RemoteLockHandle<Dev>),
}
impl Hd {
    async fn lock(&self) -> Result<Guard, SharedLockError> {
        match self {
            Hd::Own(h) => h.async_lock().await.map(own),
            Hd::Remote(_, r) => r.async_lock().await.map(own),
        }
    }
    async fn acquire(&mut self, k: &[u8]) -> Result<(), SharedLockError> {
        match self {
            Hd::Own(h) => h.async_acquire(k).await,
            Hd::Remote(_, r) => r.async_acquire(k).await,
        }
    }
    fn try_acquire(&mut self, k: &[u8]) -> Result<(), SharedLockError> {
        match self {
            Hd::Own(h) => h.try_acquire(k),
            Hd::Remote(_, r) => r.try_acquire(k),
        }
    }
    fn try_lock(&self) -> Result<Guard, SharedLockError> {
        match self {
            Hd::Own(h) => h.try_lock().map(own),
            Hd::Remote(_, r) => ready(r.try_lock()).expect("try_lock waits").map(own),
        }
    }
    fn release(&mut self) -> Result<SharedLockMode, SharedLockError> {
        match self {
            Hd::Own(h) => h.try_release(),
            Hd::Remote(h, _) => h.lock().try_release(),
        }
    }
}
#[derive(Clone, Debug)]
enum Cmd {
    Acquire(Vec<u8>),
    TryAcquire(Vec<u8>),
    Lock,
    TryLock,
    Unlock,
    Release,
}
#[derive(Clone, Debug, PartialEq)]
enum Wait {
    Idle,
    Acquire(Vec<u8>),
    Lock,
    Gone,
}
struct Check {
    m: Model,
    holder: Option<usize>,
    wait: Vec<Wait>,
    held: Vec<bool>,
    fail: Option<Fail>,
    safety: bool,
    trace: Vec<String>,
    granted: u32,
}
impl Check {
    fn bad(&mut self, sig: &str, msg: String) {
        if self.fail.is_none() {
            self.fail = Some(failure(sig, msg))
        }
    }
    fn granted(&mut self, a: usize, h: usize) {
        self.granted += 1;
        if let Some(o) = self.holder {
            self.bad("double-guard", format!("session {a} was given the device while session {o} has it"));
        }
        self.holder = Some(a);
        self.held[a] = true;
        if let Err(w) = self.m.can(h) {
            if self.safety {
                self.bad("guard-past-lock", format!("session {a} was given the device although {w:?} applies to it (locks held elsewhere): {:?}", self.m));
            }
        }
    }
}
type Ck = Arc<Mutex<Check>>;

async fn actor(a: usize, h: usize, mut hd: Hd, mut cmds: mpsc::UnboundedReceiver<Cmd>, mut cancel: mpsc::UnboundedReceiver<()>, ck: Ck) {
    let mut guard: Option<Guard> = None;
    while let Some(cmd) = cmds.next().await {
        while let Ok(Some(())) = cancel.try_next() {}
        match cmd {
            Cmd::Acquire(k) => {
                ck.lock().unwrap().wait[a] = Wait::Acquire(k.clone());
                let r = match select(pin!(hd.acquire(&k)), cancel.next()).await {
                    Either::Left((r, _)) => Some(r),
                    Either::Right(_) => None,
                };
                let mut c = ck.lock().unwrap();
                c.wait[a] = Wait::Idle;
                c.trace.push(format!("s{a}(h{h}) acquire {} -> {r:?}", show(&k)));
                match r {
                    Some(r) => {
                        if let Err(f) = judge(&c.m, h, &k, &r, "async_acquire") {
                            c.bad(&f.sig, f.msg);
                        }
                        if r.is_ok() {
                            c.m.got(h, &k);
                        }
                    }
                    None => {}
                }
            }
            Cmd::TryAcquire(k) => {
                let r = hd.try_acquire(&k);
                let mut c = ck.lock().unwrap();
                c.trace.push(format!("s{a}(h{h}) try_acquire {} -> {r:?}", show(&k)));
                if let Err(f) = judge(&c.m, h, &k, &r, "try_acquire") {
                    c.bad(&f.sig, f.msg);
                }
                if r.is_ok() {
                    c.m.got(h, &k);
                }
            }
            Cmd::Lock => {
                if guard.is_some() {
                    continue;
                }
                ck.lock().unwrap().wait[a] = Wait::Lock;
                let r = match select(pin!(hd.lock()), cancel.next()).await {
                    Either::Left((r, _)) => Some(r),
                    Either::Right(_) => None,
                };
                let mut c = ck.lock().unwrap();
                c.wait[a] = Wait::Idle;
                c.trace.push(format!("s{a}(h{h}) async_lock -> {:?}", r.as_ref().map(|r| r.as_ref().map(|_| ()).map_err(class))));
                match r {
                    Some(Ok(g)) => {
                        c.granted(a, h);
                        guard = Some(g);
                    }
                    Some(Err(e)) => c.bad("lock-error", format!("waiting for the device ended with {e:?}")),
                    None => {}
                }
            }
            Cmd::TryLock => {
                if guard.is_some() {
                    continue;
                }
                let r = hd.try_lock();
                let mut c = ck.lock().unwrap();
                c.trace.push(format!("s{a}(h{h}) try_lock -> {:?}", r.as_ref().map(|_| ()).map_err(class)));
                if let Ok(g) = r {
                    c.granted(a, h);
                    guard = Some(g);
                }
            }
            Cmd::Unlock => {
                if guard.take().is_some() {
                    let mut c = ck.lock().unwrap();
                    c.trace.push(format!("s{a} returns the device"));
                    c.holder = None;
                    c.held[a] = false;
                }
            }
            Cmd::Release => {
                let r = hd.release();
                let mut c = ck.lock().unwrap();
                c.trace.push(format!("s{a}(h{h}) release -> {r:?}"));
                let w = c.m.release(h);
                if rel_class(&r) != w {
                    c.bad("release", format!("handle {h} release gave {r:?}, model {w:?}"));
                }
            }
        }
    }
    // session ends: guard, then handle
    let had = guard.take().is_some();
    let last = match &hd {
        Hd::Own(_) => true,
        Hd::Remote(x, _) => Arc::strong_count(x) <= 2,
    };
    drop(hd);
    let mut c = ck.lock().unwrap();
    if had {
        c.holder = None;
        c.held[a] = false;
    }
    if last {
        let _ = c.m.release(h);
    }
    c.wait[a] = Wait::Gone;
}

fn sessions(safety: bool, liveness: bool) -> CaseResult {
    exec::init(pick(&[exec::Policy::Fifo, exec::Policy::Random, exec::Policy::Lifo]));
    new_keys();
    let shared = SharedLock::new();
    let device: Arc<DevMutex<Dev>> = Arc::new(DevMutex::new(0));
    let big = chance(1, 12);
    let nh = if big { range(9, 40) } else { range(2, 4) } as usize;
    if big {
        label("9 or more sessions");
    }
    let mut m = Model::default();
    let mut map = vec![];
    let mut hds = vec![];
    for h in 0..nh {
        m.add();
        if chance(1, 2) {
            let x = Arc::new(SpinMutex::new(LockHandle::new(shared.clone(), device.clone())));
            for _ in 0..range(1, 2) {
                map.push(h);
                hds.push(Hd::Remote(x.clone(), RemoteLockHandle::new(x.clone())));
            }
        } else {
            map.push(h);
            hds.push(Hd::Own(LockHandle::new(shared.clone(), device.clone())));
        }
    }
    let na = map.len();
    let ck: Ck = Arc::new(Mutex::new(Check { m, holder: None, wait: vec![Wait::Idle; na], held: vec![false; na], fail: None, safety, trace: vec![], granted: 0 }));
    let mut tx = vec![];
    for (a, hd) in hds.into_iter().enumerate() {
        let (ct, cr) = mpsc::unbounded();
        let (xt, xr) = mpsc::unbounded();
        tx.push(Some((ct, xt)));
        exec::spawn_named("session", actor(a, map[a], hd, cr, xr, ck.clone()));
    }
    exec::settle();
    let n = if big { range(nh as u64, 120) } else { range(2, 40) };
    let mut waited = 0;
    let mut cancelled = 0;
    for i in 0..=n {
        if i == n && liveness {
            // end of the history: everybody lets go, one by one
            loop {
                exec::settle();
                stranded(&ck, &map)?;
                let act = {
                    let c = ck.lock().unwrap();
                    (0..na).find(|&a| c.held[a] && c.wait[a] == Wait::Idle).map(|a| (a, Cmd::Unlock)).or_else(|| {
                        (0..na).find(|&a| c.wait[a] == Wait::Idle && tx[a].is_some() && (c.m.s[map[a]] || c.m.x[map[a]])).map(|a| (a, Cmd::Release))
                    })
                };
                match act {
                    Some((a, c)) => {
                        let _ = tx[a].as_ref().unwrap().0.unbounded_send(c);
                    }
                    None => break,
                }
            }
            break;
        }
        if i == n {
            break;
        }
        let a = choose(na as u64) as usize;
        let Some((ct, xt)) = &tx[a] else { continue };
        let idle = ck.lock().unwrap().wait[a] == Wait::Idle;
        match weighted(&[5, 3, 6, 2, 5, 4, 3, 1]) {
            0 => drop(ct.unbounded_send(Cmd::Acquire(key()))),
            1 => drop(ct.unbounded_send(Cmd::TryAcquire(key()))),
            2 => drop(ct.unbounded_send(Cmd::Lock)),
            3 => drop(ct.unbounded_send(Cmd::TryLock)),
            4 => drop(ct.unbounded_send(Cmd::Unlock)),
            5 => drop(ct.unbounded_send(Cmd::Release)),
            6 => {
                if !idle {
                    cancelled += 1;
                    note(|| format!("cancel s{a}"));
                    let _ = xt.unbounded_send(());
                }
            }
            _ => {
                // session task is dropped outright, wherever it is: only clean when idle
                if idle {
                    note(|| format!("end s{a}"));
                    tx[a] = None;
                }
            }
        }
        match choose(4) {
            0 => exec::run_steps(1),
            1 => exec::run_steps(range(1, 4)),
            2 => {}
            _ => exec::settle(),
        }
        waited += ck.lock().unwrap().wait.iter().filter(|w| !matches!(w, Wait::Idle | Wait::Gone)).count();
        let failed = ck.lock().unwrap().fail.clone();
        if let Some(f) = failed {
            flush(&ck);
            return Err(f);
        }
        if liveness && exec::idle() {
            stranded(&ck, &map)?;
        }
    }
    exec::settle();
    flush(&ck);
    let c = ck.lock().unwrap();
    if let Some(f) = c.fail.clone() {
        return Err(f);
    }
    if waited > 0 && c.granted > 0 {
        nontrivial()
    }
    if cancelled > 0 {
        label("cancelled a waiter")
    }
    Ok(())
}
fn flush(ck: &Ck) {
    let t = std::mem::take(&mut ck.lock().unwrap().trace);
    for l in t {
        note(|| l);
    }
}
/// Nothing is runnable: every waiter must have a reason to wait.
fn stranded(ck: &Ck, map: &[usize]) -> CaseResult {
    flush(ck);
    let c = ck.lock().unwrap();
    if let Some(f) = c.fail.clone() {
        return Err(f);
    }
    for (a, w) in c.wait.iter().enumerate() {
        match w {
            Wait::Acquire(k) => ensure!(c.m.want(map[a], k).is_err(), "stranded", "session {a} still waits for lock {} which is free for it: {:?}", show(k), c.m),
            Wait::Lock => ensure!(c.m.can(map[a]).is_err() || c.holder.is_some(), "stranded", "session {a} still waits for the device, which is free and open to it: {:?}", c.m),
            _ => {}
        }
    }
    Ok(())
}
fn c02_sessions() -> CaseResult {
    sessions(true, false)
}
fn c03_sessions() -> CaseResult {
    sessions(false, true)
}

// ------------------------------------------------------------------ preemptive threads
#[derive(Clone, Debug, PartialEq)]
enum K {
    Acq(Vec<u8>),
    Rel,
    Dev,
    /// the time between being given the device and giving it back
    Hold,
}
#[derive(Clone, Debug)]
struct Rec {
    t: usize,
    h: usize,
    k: K,
    begin: u64,
    /// start of the last poll
    last: u64,
    end: u64,
    ok: bool,
}
struct Th {
    h: usize,
    hd: Hd,
    script: Vec<(Cmd, Option<u64>)>,
}
fn threads(safety: bool, liveness: bool) -> CaseResult {
    new_keys();
    let shared = SharedLock::new();
    let device: Arc<DevMutex<Dev>> = Arc::new(DevMutex::new(0));
    let nh = range(2, 3) as usize;
    let mut ths = vec![];
    for h in 0..nh {
        let mut hd = vec![];
        if chance(1, 2) {
            let x = Arc::new(SpinMutex::new(LockHandle::new(shared.clone(), device.clone())));
            for _ in 0..range(1, 2) {
                hd.push(Hd::Remote(x.clone(), RemoteLockHandle::new(x.clone())));
            }
        } else {
            hd.push(Hd::Own(LockHandle::new(shared.clone(), device.clone())));
        }
        for hd in hd {
            let mut script = vec![];
            let mut holding = false;
            for _ in 0..range(1, 5) {
                let giveup = if chance(1, 4) { Some(choose(3)) } else { None };
                if holding {
                    script.push((Cmd::Unlock, None));
                    holding = false;
                    continue;
                }
                match weighted(&[4, 3, 4, 2, 3]) {
                    0 => script.push((Cmd::Acquire(key()), giveup)),
                    1 => script.push((Cmd::TryAcquire(key()), None)),
                    2 => {
                        script.push((Cmd::Lock, giveup));
                        holding = true;
                    }
                    3 => {
                        script.push((Cmd::TryLock, None));
                        holding = true;
                    }
                    _ => script.push((Cmd::Release, None)),
                }
            }
            if holding {
                script.push((Cmd::Unlock, None));
            }
            if chance(2, 3) {
                script.push((Cmd::Release, None));
            }
            ths.push(Th { h, hd, script });
        }
    }
    for (i, t) in ths.iter().enumerate() {
        note(|| format!("thread {i} handle {}: {:?}", t.h, t.script));
    }
    let now = Arc::new(AtomicU64::new(1));
    let recs: Arc<Mutex<Vec<Rec>>> = Arc::default();
    // (thread, operation) currently waiting
    let waits: Arc<Mutex<Vec<Wait>>> = Arc::new(Mutex::new(vec![Wait::Idle; ths.len()]));
    let hmap: Vec<usize> = ths.iter().map(|t| t.h).collect();
    let ends: Arc<Mutex<Vec<Rec>>> = Arc::default();
    let fs: Vec<Box<dyn FnOnce() + Send>> = ths
        .into_iter()
        .enumerate()
        .map(|(t, th)| {
            let (now, recs, waits, ends) = (now.clone(), recs.clone(), waits.clone(), ends.clone());
            let f: Box<dyn FnOnce() + Send> = Box::new(move || {
                let Th { h, mut hd, script } = th;
                let tick = || now.fetch_add(1, Ordering::SeqCst);
                let mut guard: Option<(Guard, u64)> = None;
                for (cmd, giveup) in script {
                    baton::yield_point();
                    let begin = tick();
                    let mut last = begin;
                    match cmd {
                        Cmd::Acquire(k) => {
                            waits.lock().unwrap()[t] = Wait::Acquire(k.clone());
                            let r = baton::block_on(hd.acquire(&k), giveup, || last = tick());
                            waits.lock().unwrap()[t] = Wait::Idle;
                            recs.lock().unwrap().push(Rec { t, h, k: K::Acq(k), begin, last, end: tick(), ok: matches!(r, Some(Ok(()))) });
                        }
                        Cmd::TryAcquire(k) => {
                            let r = hd.try_acquire(&k);
                            recs.lock().unwrap().push(Rec { t, h, k: K::Acq(k), begin, last, end: tick(), ok: r.is_ok() });
                        }
                        Cmd::Lock | Cmd::TryLock => {
                            let r = if matches!(cmd, Cmd::Lock) {
                                waits.lock().unwrap()[t] = Wait::Lock;
                                let r = baton::block_on(hd.lock(), giveup, || last = tick());
                                waits.lock().unwrap()[t] = Wait::Idle;
                                r.and_then(|r| r.ok())
                            } else {
                                hd.try_lock().ok()
                            };
                            let end = tick();
                            recs.lock().unwrap().push(Rec { t, h, k: K::Dev, begin, last, end, ok: r.is_some() });
                            if let Some(g) = r {
                                guard = Some((g, end));
                            }
                        }
                        Cmd::Unlock => {
                            if let Some((g, since)) = guard.take() {
                                ends.lock().unwrap().push(Rec { t, h, k: K::Hold, begin: since, last, end: tick(), ok: true });
                                drop(g);
                            }
                        }
                        Cmd::Release => {
                            let r = hd.release();
                            recs.lock().unwrap().push(Rec { t, h, k: K::Rel, begin, last, end: tick(), ok: r.is_ok() });
                        }
                    }
                }
                baton::yield_point();
                let begin = tick();
                drop(guard);
                // a shared handle is released by whichever thread drops it last
                drop(hd);
                recs.lock().unwrap().push(Rec { t, h, k: K::Rel, begin, last: begin, end: tick(), ok: true });
            });
            f
        })
        .collect();
    let ran = baton::run(fs);
    let recs = recs.lock().unwrap().clone();
    let holds = ends.lock().unwrap().clone();
    {
        let mut all = recs.clone();
        all.extend(holds.iter().cloned());
        all.sort_by_key(|r| r.end);
        for r in &all {
            note(|| format!("thread {} handle {} {:?} [{}..{}] ok={}", r.t, r.h, r.k, r.begin, r.end, r.ok));
        }
    }
    ensure!(ran.panics.is_empty(), "panic", "panic in the code under test: {:?}", ran.panics);
    ensure!(!ran.spin_deadlock, "spin-deadlock", "a spin lock is never released");
    ensure!(!ran.overlong, "livelock", "threads keep running without finishing");
    let waits = waits.lock().unwrap().clone();
    if ran.switches > 6 && recs.iter().filter(|r| r.ok && r.k != K::Rel).count() >= 2 {
        nontrivial();
    }
    // [a, r): handle h definitely holds key k (r = begin of the first release that can end it)
    let mut definite: Vec<(usize, Vec<u8>, u64, u64)> = vec![];
    // [a, r]: handle h possibly holds k
    let mut possible: Vec<(usize, Vec<u8>, u64, u64)> = vec![];
    for r in &recs {
        if let (K::Acq(k), true) = (&r.k, r.ok) {
            // any release of the same handle that ends after the request began may have undone it
            let first = recs.iter().filter(|x| x.h == r.h && x.k == K::Rel && x.end > r.begin).map(|x| x.begin).min().unwrap_or(u64::MAX);
            if first > r.end {
                definite.push((r.h, k.clone(), r.end, first));
            }
            let lastend = recs.iter().filter(|x| x.h == r.h && x.k == K::Rel && x.begin > r.end).map(|x| x.end).max().unwrap_or(u64::MAX);
            possible.push((r.h, k.clone(), r.begin, lastend));
        }
    }
    let may = |h: usize, shared: bool, a: u64, b: u64| possible.iter().any(|p| p.0 == h && p.1.is_empty() != shared && p.2 <= b && p.3 >= a);
    if safety {
        // two handles never hold conflicting locks
        for (i, x) in definite.iter().enumerate() {
            for y in &definite[i + 1..] {
                if x.0 == y.0 {
                    continue;
                }
                let overlap = x.2 < y.3 && y.2 < x.3;
                ensure!(!(overlap && x.1.is_empty() && y.1.is_empty()), "two-exclusive", "handles {} and {} hold the exclusive lock at once", x.0, y.0);
                ensure!(!(overlap && !x.1.is_empty() && !y.1.is_empty() && x.1 != y.1), "two-keys", "handles {} and {} hold shared locks {} and {} at once", x.0, y.0, show(&x.1), show(&y.1));
            }
        }
        for g in recs.iter().filter(|r| r.k == K::Dev && r.ok) {
            for x in &holds {
                let hend = holds.iter().find(|y| y.t == g.t && y.begin == g.end).map(|y| y.end).unwrap_or(g.end);
                ensure!(x.t == g.t || x.end <= g.end || x.begin >= hend || x.begin == g.end, "double-guard", "threads {} and {} have the device at once", x.t, g.t);
            }
            for (h, k, a, r) in &definite {
                if *h == g.h || *r < g.end || *a >= g.end {
                    continue;
                }
                let entitled = may(g.h, false, g.begin, g.end) || (!k.is_empty() && may(g.h, true, g.begin, g.end));
                if entitled {
                    continue;
                }
                ensure!(*a >= g.last, "guard-past-lock", "thread {} (handle {}) was given the device during [{}, {}] although handle {h} held {} from {a} on", g.t, g.h, g.last, g.end, show(k));
                // the device itself changed hands after the lock was granted
                if let Some(w) = holds.iter().find(|w| w.begin > *a && w.end < g.end && w.t != g.t) {
                    fail!("guard-past-lock", "thread {} (handle {}) was given the device after thread {} returned it at {}, although handle {h} held {} from {a} on", g.t, g.h, w.t, w.end, show(k));
                }
            }
        }
    }
    if liveness && ran.stranded {
        // everybody is at rest, so what each handle holds is determined
        let mut m = Model::default();
        for _ in 0..nh {
            m.add();
        }
        let mut sorted = recs.clone();
        sorted.sort_by_key(|r| r.end);
        for r in &sorted {
            // concurrent use of one handle by two threads: order by end is not always the real order
            match (&r.k, r.ok) {
                (K::Acq(k), true) => m.got(r.h, k),
                (K::Rel, true) => {
                    // ending a thread releases only if it was the last user of the handle
                    let _ = m.release(r.h);
                }
                _ => {}
            }
        }
        let ambiguous = recs.iter().any(|r| r.k == K::Rel && recs.iter().any(|q| q.h == r.h && q.t != r.t && q.begin < r.end && q.end > r.begin))
            || recs.iter().any(|r| hmap.iter().filter(|h| **h == r.h).count() > 1 && r.k == K::Rel);
        if !ambiguous {
            let dev_held = recs.iter().any(|g| g.k == K::Dev && g.ok && !holds.iter().any(|x| x.t == g.t && x.begin == g.end));
            for (t, w) in waits.iter().enumerate() {
                match w {
                    Wait::Acquire(k) => ensure!(m.want(hmap[t], k).is_err(), "stranded", "thread {t} waits for ever for lock {} which is free: {m:?}", show(k)),
                    Wait::Lock => ensure!(m.can(hmap[t]).is_err() || dev_held, "stranded", "thread {t} waits for ever for the device, which is free: {m:?}"),
                    _ => {}
                }
            }
        }
        label("all threads at rest");
    }
    Ok(())
}
fn c02_threads() -> CaseResult {
    threads(true, false)
}
fn c03_threads() -> CaseResult {
    threads(false, true)
}

// ------------------------------------------------------------------ C04: memory
fn c04_memory() -> CaseResult {
    new_keys();
    let shared = SharedLock::new();
    let device: Arc<DevMutex<Dev>> = Arc::new(DevMutex::new(0));
    let mut fixed: Vec<H> = vec![];
    let mut m = Model::default();
    for _ in 0..3 {
        fixed.push(mk(&shared, &device, &mut m));
    }
    // a cycle of operations that returns to where it started
    let ops: Vec<(u64, u64, Vec<u8>)> = (0..range(1, 6)).map(|_| (choose(8), choose(3), key())).collect();
    note(|| format!("cycle: {ops:?}"));
    let pinned = choose(4);
    let _g = if pinned == 1 { Some(own(device.try_lock().unwrap())) } else { None };
    if pinned == 2 {
        let _ = fixed[0].h.lock().try_acquire(b"");
    }
    if pinned == 3 {
        let _ = fixed[0].h.lock().try_acquire(b"a");
    }
    let cycle = || {
        for (o, i, k) in &ops {
            let i = *i as usize;
            match o {
                0 => drop(ready(fixed[i].r.async_lock())),
                1 => drop(ready(fixed[i].h.lock().async_lock())),
                2 => {
                    let mut h = LockHandle::new(shared.clone(), device.clone());
                    drop(ready(h.async_acquire(k)));
                }
                3 => drop(fixed[i].h.lock().try_lock().map(|_| ())),
                4 => drop(ready(fixed[i].r.try_lock())),
                5 => {
                    // waits (if it has to), is cancelled
                    drop(ready(fixed[i].r.async_acquire(k)));
                    if !(pinned >= 2 && i == 0) {
                        fixed[i].h.lock().force_release();
                    }
                }
                6 => {
                    let h = LockHandle::new(shared.clone(), device.clone());
                    drop(ready(h.async_lock()));
                    drop(h);
                }
                _ => {
                    let g = ready(fixed[i].r.async_lock());
                    drop(ready(fixed[(i + 1) % 3].r.async_lock()));
                    drop(ready(fixed[(i + 2) % 3].h.lock().async_lock()));
                    drop(g);
                }
            }
        }
    };
    for _ in 0..64 {
        cycle();
    }
    let a = live_bytes();
    for _ in 0..512 {
        cycle();
    }
    let b = live_bytes();
    nontrivial();
    // one leaked waiter is well over 64 bytes, so 512 cycles would show as 32 kB or more
    ensure!(b - a < 8192, "leak", "512 repetitions of {ops:?} left {} more bytes allocated (locks pinned: {pinned})", b - a);
    Ok(())
}

pub fn props() -> Vec<Prop> {
    const ASSUME: &[&str] = &[
        "futures::lock::Mutex, futures::channel and the allocator are trusted",
        "one case is one choice sequence; the coin of futures::select! is the only unrecorded randomness",
    ];
    vec![
        Prop {
            id: "C01",
            rule: "random histories of up to 40 lock/release/access/create/drop operations over up to 5 handles (direct and remote API), every observable compared with a reference model after each step; crowd: 7-520 handles share one lock and let go one by one. Non-trivial: at least one request granted and one refused (sequential), all (crowd). long: a drawn cycle of lock operations by several holders repeated 240 to 66100 times, every answer checked; non-trivial: every case",
            assumptions: ASSUME,
            parts: vec![
                Part { name: "sequential", quick: 600_000, thorough: 24_000_000, run: c01_sequential },
                Part { name: "crowd", quick: 2_000, thorough: 80_000, run: c01_crowd },
                Part { name: "long", quick: 2_000, thorough: 80_000, run: crate::d_long::holders },
            ],
        },
        Prop {
            id: "C02",
            rule: "sessions: 2-8 (sometimes up to 80) concurrent sessions driven by random commands under random task schedules, with cancellation; threads: 2-6 real threads preempted at random spin-lock boundaries. Non-trivial: some operation had to wait and a device guard was granted (sessions), or at least two operations succeeded over more than 6 thread switches (threads). long: a drawn cycle of acquisitions, waits and releases repeated 240 to 66100 times, every answer checked; non-trivial: every case",
            assumptions: ASSUME,
            parts: vec![
                Part { name: "sessions", quick: 200_000, thorough: 8_000_000, run: c02_sessions },
                Part { name: "threads", quick: 24_000, thorough: 960_000, run: c02_threads },
                Part { name: "long", quick: 2_000, thorough: 80_000, run: || crate::d_long::waits(false) },
            ],
        },
        Prop {
            id: "C03",
            rule: "as C02, judged whenever nothing is runnable: each waiter must be blocked by a lock or guard that is really held; the history ends with everybody letting go. long: a drawn cycle of acquisitions, waits and releases repeated 240 to 66100 times, every answer checked; non-trivial: every case",
            assumptions: ASSUME,
            parts: vec![
                Part { name: "sessions", quick: 200_000, thorough: 8_000_000, run: c03_sessions },
                Part { name: "threads", quick: 24_000, thorough: 960_000, run: c03_threads },
                Part { name: "long", quick: 2_000, thorough: 80_000, run: || crate::d_long::waits(true) },
            ],
        },
        Prop {
            id: "C04",
            rule: "a random cycle of 1-6 operations repeated 576 times; bytes in use after cycle 64 and after cycle 576 are compared; every case is non-trivial",
            assumptions: ASSUME,
            parts: vec![Part { name: "cycles", quick: 30_000, thorough: 1_200_000, run: c04_memory }],
        },
    ]
}
