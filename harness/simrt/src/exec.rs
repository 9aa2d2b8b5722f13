use crate::choice::choose;
use crate::time::Clock;
use std::any::Any;
use std::cell::{Cell, RefCell};
use std::future::Future;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};

type Fut = Pin<Box<dyn Future<Output = ()>>>;

struct TaskWaker {
    id: usize,
    queued: AtomicBool,
    ready: Arc<Mutex<Vec<usize>>>,
}
impl Wake for TaskWaker {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref()
    }
    fn wake_by_ref(self: &Arc<Self>) {
        if !self.queued.swap(true, Ordering::SeqCst) {
            self.ready.lock().unwrap().push(self.id);
        }
    }
}

struct Slot {
    fut: Option<Fut>,
    waker: Arc<TaskWaker>,
    name: &'static str,
    gen: u64,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Policy {
    Fifo,
    Random,
    Lifo,
}

pub struct World {
    slots: Vec<Option<Slot>>,
    free: Vec<usize>,
    gen: u64,
    live: usize,
    ready: Arc<Mutex<Vec<usize>>>,
    pub clock: Clock,
    pub policy: Policy,
    pub panics: Vec<String>,
    pub polls: u64,
    pub poll_limit: u64,
    pub stuck: Option<String>,
    pub net: crate::net::NetState,
    pub epoch: u64,
}
thread_local! {
    static WORLD: RefCell<Option<World>> = const { RefCell::new(None) };
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    static OPS: Cell<u64> = const { Cell::new(0) };
    static YIELDS: Cell<(bool, bool)> = const { Cell::new((false, false)) };
    static EPOCH: Cell<u64> = const { Cell::new(0) };
}

pub struct Livelock;

/// Count one I/O operation performed inside a poll. Unwinds with `Livelock` if one settle phase
/// performs more than `OP_LIMIT` of them.
pub const OP_LIMIT: u64 = 400_000;
pub fn count_op() {
    OPS.with(|o| {
        let v = o.get() + 1;
        o.set(v);
        if v > OP_LIMIT && !std::thread::panicking() {
            o.set(0);
            std::panic::resume_unwind(Box::new(Livelock));
        }
    })
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "<panic>".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(format!("{msg} at {loc}")));
    }));
}
pub fn take_panic(payload: Box<dyn Any + Send>) -> String {
    if payload.downcast_ref::<Livelock>().is_some() {
        return "LIVELOCK: endless I/O without going idle".into();
    }
    if let Some(m) = LAST_PANIC.with(|p| p.borrow_mut().take()) {
        return m;
    }
    if let Some(s) = payload.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = payload.downcast_ref::<String>() {
        s.clone()
    } else {
        "<panic>".into()
    }
}

/// The next world puts I/O off at random.
pub fn next_yields(on: bool) {
    YIELDS.with(|y| y.set((on, y.get().1)))
}
pub(crate) fn yields() -> bool {
    YIELDS.with(|y| y.get().1)
}
pub fn init(policy: Policy) {
    reset();
    YIELDS.with(|y| y.set((false, y.get().0)));
    let epoch = EPOCH.with(|e| {
        e.set(e.get() + 1);
        e.get()
    });
    let w = World {
        slots: Vec::new(),
        free: Vec::new(),
        gen: 0,
        live: 0,
        ready: Arc::new(Mutex::new(Vec::new())),
        clock: Clock::default(),
        policy,
        panics: Vec::new(),
        polls: 0,
        poll_limit: 400_000,
        stuck: None,
        net: Default::default(),
        epoch,
    };
    WORLD.with(|c| *c.borrow_mut() = Some(w));
}

/// Drop the world: all tasks, sockets and timers.
pub fn reset() {
    // Tasks may touch the world from their destructors: take them out first.
    loop {
        let slots = WORLD.with(|c| {
            c.borrow_mut().as_mut().map(|w| {
                w.live = 0;
                std::mem::take(&mut w.slots)
            })
        });
        match slots {
            Some(s) if !s.is_empty() => {
                let _ = catch_unwind(AssertUnwindSafe(move || drop(s)));
            }
            _ => break,
        }
    }
    let w = WORLD.with(|c| c.borrow_mut().take());
    drop(w);
    OPS.with(|o| o.set(0));
}

pub fn with<R>(f: impl FnOnce(&mut World) -> R) -> R {
    WORLD.with(|c| f(c.borrow_mut().as_mut().expect("no simulation world")))
}
pub fn try_with<R>(f: impl FnOnce(&mut World) -> R) -> Option<R> {
    WORLD.try_with(|c| c.try_borrow_mut().ok().and_then(|mut w| w.as_mut().map(f))).ok().flatten()
}

fn add(fut: Fut, name: &'static str) -> (usize, u64) {
    with(|w| {
        let id = w.free.pop().unwrap_or_else(|| {
            w.slots.push(None);
            w.slots.len() - 1
        });
        w.gen += 1;
        let gen = w.gen;
        let waker = Arc::new(TaskWaker { id, queued: AtomicBool::new(true), ready: w.ready.clone() });
        w.slots[id] = Some(Slot { fut: Some(fut), waker, name, gen });
        w.live += 1;
        w.ready.lock().unwrap().push(id);
        (id, gen)
    })
}
fn kill((id, gen): (usize, u64)) {
    let s = try_with(|w| {
        if w.slots.get(id).and_then(|s| s.as_ref()).map(|s| s.gen) != Some(gen) {
            return None;
        }
        w.live -= 1;
        w.free.push(id);
        w.slots[id].take()
    })
    .flatten();
    drop(s);
}

struct JoinState<T> {
    val: Option<T>,
    done: bool,
    waker: Option<Waker>,
}
pub struct JoinHandle<T> {
    id: (usize, u64),
    epoch: u64,
    st: Arc<Mutex<JoinState<T>>>,
}
impl<T> std::fmt::Debug for JoinHandle<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "JoinHandle({})", self.id.0)
    }
}
impl<T> JoinHandle<T> {
    pub async fn cancel(self) -> Option<T> {
        if with(|w| w.epoch) == self.epoch {
            kill(self.id);
        }
        self.st.lock().unwrap().val.take()
    }
    pub fn is_done(&self) -> bool {
        self.st.lock().unwrap().done
    }
    pub fn try_take(&self) -> Option<T> {
        self.st.lock().unwrap().val.take()
    }
    /// Harness side: drop the task's future now.
    pub fn kill_now(&self) {
        if with(|w| w.epoch) == self.epoch {
            kill(self.id);
        }
    }
}
impl<T> Future for JoinHandle<T> {
    type Output = T;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<T> {
        let mut s = self.st.lock().unwrap();
        match s.val.take() {
            Some(v) => Poll::Ready(v),
            None => {
                s.waker = Some(cx.waker().clone());
                Poll::Pending
            }
        }
    }
}

pub fn spawn<F, T>(f: F) -> JoinHandle<T>
where
    F: Future<Output = T> + 'static,
    T: 'static,
{
    spawn_named("task", f)
}
pub fn spawn_named<F, T>(name: &'static str, f: F) -> JoinHandle<T>
where
    F: Future<Output = T> + 'static,
    T: 'static,
{
    let st = Arc::new(Mutex::new(JoinState { val: None, done: false, waker: None }));
    let s2 = st.clone();
    let id = add(
        Box::pin(async move {
            let v = f.await;
            let mut s = s2.lock().unwrap();
            s.val = Some(v);
            s.done = true;
            if let Some(w) = s.waker.take() {
                w.wake();
            }
        }),
        name,
    );
    JoinHandle { id, epoch: with(|w| w.epoch), st }
}

/// Run one ready task; false if none is ready.
pub fn step() -> bool {
    let next = with(|w| loop {
        let mut r = w.ready.lock().unwrap();
        if r.is_empty() {
            return None;
        }
        let i = match w.policy {
            Policy::Fifo => 0,
            Policy::Lifo => r.len() - 1,
            Policy::Random => choose(r.len() as u64) as usize,
        };
        let id = r.remove(i);
        drop(r);
        if let Some(s) = w.slots[id].as_mut() {
            if let Some(f) = s.fut.take() {
                s.waker.queued.store(false, Ordering::SeqCst);
                w.polls += 1;
                return Some(((id, s.gen), f, s.waker.clone(), s.name));
            }
        }
    });
    let Some((id, mut fut, tw, name)) = next else { return false };
    let waker = Waker::from(tw);
    let mut cx = Context::from_waker(&waker);
    let r = catch_unwind(AssertUnwindSafe(|| fut.as_mut().poll(&mut cx)));
    match r {
        Ok(Poll::Pending) => {
            let back = with(|w| match w.slots[id.0].as_mut().filter(|s| s.gen == id.1) {
                Some(s) => {
                    s.fut = Some(fut);
                    None
                }
                None => Some(fut), // cancelled while running
            });
            drop(back);
        }
        Ok(Poll::Ready(())) => {
            kill(id);
            drop(fut);
        }
        Err(p) => {
            let m = take_panic(p);
            kill(id);
            let _ = catch_unwind(AssertUnwindSafe(move || drop(fut)));
            with(|w| w.panics.push(format!("[{name}] {m}")));
        }
    }
    true
}

/// Run until nothing is ready (virtual time does not advance).
pub fn settle() {
    OPS.with(|o| o.set(0));
    let start = with(|w| w.polls);
    while step() {
        let over = with(|w| w.polls - start > w.poll_limit);
        if over {
            with(|w| w.stuck = Some("LIVELOCK: tasks keep running without going idle".into()));
            break;
        }
    }
}
/// Run at most n task polls.
pub fn run_steps(n: u64) {
    OPS.with(|o| o.set(0));
    for _ in 0..n {
        if !step() {
            break;
        }
    }
}
pub fn idle() -> bool {
    with(|w| w.ready.lock().unwrap().is_empty())
}
/// Advance virtual time by `ms`, firing timers in order and settling after each.
pub fn advance(ms: u64) {
    settle();
    let target = with(|w| w.clock.now + ms * 1000);
    loop {
        let due = with(|w| w.clock.pop_due(target));
        match due {
            Some(wk) => {
                for k in wk {
                    k.wake();
                }
                settle();
                if with(|w| w.stuck.is_some()) {
                    break;
                }
            }
            None => break,
        }
    }
    with(|w| w.clock.now = target);
}
pub fn live_tasks() -> usize {
    with(|w| w.live)
}
pub fn panics() -> Vec<String> {
    with(|w| {
        let mut p = w.panics.clone();
        p.extend(w.stuck.clone());
        p
    })
}

#[derive(Clone)]
pub struct SimSpawner;
impl futures_task::Spawn for SimSpawner {
    fn spawn_obj(&self, future: futures_task::FutureObj<'static, ()>) -> Result<(), futures_task::SpawnError> {
        add(Box::pin(future), "spawned");
        Ok(())
    }
}
impl futures_task::LocalSpawn for SimSpawner {
    fn spawn_local_obj(&self, future: futures_task::LocalFutureObj<'static, ()>) -> Result<(), futures_task::SpawnError> {
        add(Box::pin(future), "spawned");
        Ok(())
    }
}
