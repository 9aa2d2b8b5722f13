//! Real threads run one at a time; the scheduler (the case thread) chooses who runs next at every
//! spin-lock boundary, every `yield_point` and every time a thread waits for a waker.
use simrt::choose;
use spin::hook::Point;
use std::cell::RefCell;
use std::future::Future;
use std::pin::pin;
use std::sync::{Arc, Condvar, Mutex};
use std::task::{Context, Poll, Wake, Waker};

#[derive(Clone, Copy, PartialEq, Debug)]
enum Ts {
    Run,
    Spin,
    Parked,
    Done,
}
struct St {
    turn: usize,
    ts: Vec<Ts>,
    woken: Vec<bool>,
    abort: bool,
    panics: Vec<String>,
}
pub struct Baton {
    st: Mutex<St>,
    cv: Condvar,
    n: usize,
}
thread_local! {
    static CUR: RefCell<Option<(Arc<Baton>, usize)>> = const { RefCell::new(None) };
}
#[derive(Debug, Default)]
pub struct Ran {
    /// every live thread was waiting for a waker and nobody was left to wake it
    pub stranded: bool,
    pub spin_deadlock: bool,
    pub overlong: bool,
    pub switches: u64,
    pub panics: Vec<String>,
}

fn cur() -> Option<(Arc<Baton>, usize)> {
    CUR.with(|c| c.borrow().clone())
}
impl Baton {
    fn give_back(&self, tid: usize, ts: Ts) {
        let mut s = self.st.lock().unwrap();
        s.ts[tid] = ts;
        s.turn = self.n;
        self.cv.notify_all();
        while s.turn != tid {
            s = self.cv.wait(s).unwrap();
        }
        s.ts[tid] = Ts::Run;
    }
    fn aborted(&self) -> bool {
        self.st.lock().unwrap().abort
    }
}
fn hook(p: Point) {
    if std::thread::panicking() {
        return;
    }
    if let Some((b, t)) = cur() {
        if b.aborted() {
            if p == Point::Blocked {
                panic!("spin lock never released");
            }
            return;
        }
        b.give_back(t, if p == Point::Blocked { Ts::Spin } else { Ts::Run });
    }
}
pub fn yield_point() {
    hook(Point::BeforeLock)
}

struct W(Arc<Baton>, usize);
impl Wake for W {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref()
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.0.st.lock().unwrap().woken[self.1] = true;
    }
}
struct Stranded;
/// Poll to completion, calling `before` in front of every poll; None when given up after
/// `max_waits` waits.
pub fn block_on<F: Future>(f: F, max_waits: Option<u64>, mut before: impl FnMut()) -> Option<F::Output> {
    let (b, t) = cur().unwrap();
    let mut f = pin!(f);
    let w = Waker::from(Arc::new(W(b.clone(), t)));
    let mut cx = Context::from_waker(&w);
    let mut waits = 0;
    loop {
        b.st.lock().unwrap().woken[t] = false;
        before();
        if let Poll::Ready(v) = f.as_mut().poll(&mut cx) {
            return Some(v);
        }
        if let Some(m) = max_waits {
            if waits >= m {
                return None;
            }
            waits += 1;
            // a cancellable operation does not wait for ever
            b.give_back(t, Ts::Run);
            continue;
        }
        b.give_back(t, Ts::Parked);
        if b.aborted() {
            // nobody is left to wake this thread: it ends here, in the middle of its operation
            std::panic::resume_unwind(Box::new(Stranded));
        }
    }
}

pub fn run(threads: Vec<Box<dyn FnOnce() + Send>>) -> Ran {
    let n = threads.len();
    let b = Arc::new(Baton {
        st: Mutex::new(St { turn: n, ts: vec![Ts::Run; n], woken: vec![false; n], abort: false, panics: vec![] }),
        cv: Condvar::new(),
        n,
    });
    let hs: Vec<_> = threads
        .into_iter()
        .enumerate()
        .map(|(t, f)| {
            let b = b.clone();
            std::thread::Builder::new()
                .stack_size(512 << 10)
                .spawn(move || {
                    CUR.with(|c| *c.borrow_mut() = Some((b.clone(), t)));
                    {
                        let mut s = b.st.lock().unwrap();
                        while s.turn != t {
                            s = b.cv.wait(s).unwrap();
                        }
                    }
                    spin::hook::set(Some(hook));
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
                    spin::hook::set(None);
                    let mut s = b.st.lock().unwrap();
                    if let Err(p) = r.or_else(|p| if p.is::<Stranded>() { Ok(()) } else { Err(p) }) {
                        let m = simrt::exec::take_panic(p);
                        s.panics.push(m);
                    }
                    s.ts[t] = Ts::Done;
                    s.turn = b.n;
                    b.cv.notify_all();
                })
                .unwrap()
        })
        .collect();
    let mut ran = Ran::default();
    let mut last = n;
    loop {
        let mut s = b.st.lock().unwrap();
        while s.turn != n {
            s = b.cv.wait(s).unwrap();
        }
        if s.ts.iter().all(|t| *t == Ts::Done) {
            break;
        }
        let ready = |s: &St, i: usize| match s.ts[i] {
            Ts::Run => true,
            Ts::Spin => s.abort,
            Ts::Parked => s.woken[i] || s.abort,
            Ts::Done => false,
        };
        let r: Vec<usize> = (0..n).filter(|&i| ready(&s, i)).collect();
        if r.is_empty() {
            if s.ts.contains(&Ts::Spin) {
                ran.spin_deadlock = true;
            } else {
                ran.stranded = true;
            }
            s.abort = true;
            continue;
        }
        ran.switches += 1;
        if ran.switches > 20_000 && !s.abort {
            ran.overlong = true;
            s.abort = true;
        }
        let pickd = if s.abort {
            r[0]
        } else if r.contains(&last) && choose(2) == 0 {
            last
        } else {
            r[choose(r.len() as u64) as usize]
        };
        last = pickd;
        // spinning threads may look again after someone else has run
        for i in 0..n {
            if i != pickd && s.ts[i] == Ts::Spin {
                s.ts[i] = Ts::Run;
            }
        }
        s.turn = pickd;
        b.cv.notify_all();
    }
    for h in hs {
        let _ = h.join();
    }
    ran.panics = std::mem::take(&mut b.st.lock().unwrap().panics);
    ran
}
