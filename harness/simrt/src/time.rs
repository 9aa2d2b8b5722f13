use std::collections::BTreeMap;
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll, Waker};
use std::time::Duration;

/// Virtual clock, in microseconds.
#[derive(Default)]
pub struct Clock {
    pub now: u64,
    seq: u64,
    timers: BTreeMap<(u64, u64), Waker>,
}
impl Clock {
    fn register(&mut self, at: u64, w: Waker) -> (u64, u64) {
        self.seq += 1;
        let k = (at, self.seq);
        self.timers.insert(k, w);
        k
    }
    /// Pop every timer of the earliest instant <= target, moving the clock to it.
    pub fn pop_due(&mut self, target: u64) -> Option<Vec<Waker>> {
        let (&(at, _), _) = self.timers.iter().next()?;
        if at > target {
            return None;
        }
        self.now = self.now.max(at);
        let rest = self.timers.split_off(&(at, u64::MAX));
        let due = std::mem::replace(&mut self.timers, rest);
        Some(due.into_values().collect())
    }
    pub fn pending(&self) -> usize {
        self.timers.len()
    }
}

pub struct Sleep {
    at: u64,
    key: Option<(u64, u64)>,
}
pub fn sleep(d: Duration) -> Sleep {
    let us = d.as_micros().min(u64::MAX as u128 / 4) as u64;
    Sleep { at: crate::exec::with(|w| w.clock.now).saturating_add(us), key: None }
}
impl Future for Sleep {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        let at = self.at;
        let old = self.key.take();
        let r = crate::exec::with(|w| {
            if let Some(k) = old {
                w.clock.timers.remove(&k);
            }
            if w.clock.now >= at {
                None
            } else {
                Some(w.clock.register(at, cx.waker().clone()))
            }
        });
        match r {
            None => Poll::Ready(()),
            Some(k) => {
                self.key = Some(k);
                Poll::Pending
            }
        }
    }
}
impl Drop for Sleep {
    fn drop(&mut self) {
        if let Some(k) = self.key.take() {
            crate::exec::try_with(|w| w.clock.timers.remove(&k));
        }
    }
}
/// Poll the inner future first, then the deadline (as async-std does).
pub struct Timeout<F> {
    fut: F,
    delay: Sleep,
}
pub fn timeout<F: Future>(d: Duration, fut: F) -> Timeout<F> {
    Timeout { fut, delay: sleep(d) }
}
impl<F: Future> Future for Timeout<F> {
    type Output = Option<F::Output>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<F::Output>> {
        // Safety: `fut` is structurally pinned and never moved; `delay` is Unpin.
        let this = unsafe { self.get_unchecked_mut() };
        let fut = unsafe { Pin::new_unchecked(&mut this.fut) };
        if let Poll::Ready(v) = fut.poll(cx) {
            return Poll::Ready(Some(v));
        }
        match Pin::new(&mut this.delay).poll(cx) {
            Poll::Ready(()) => Poll::Ready(None),
            Poll::Pending => Poll::Pending,
        }
    }
}
