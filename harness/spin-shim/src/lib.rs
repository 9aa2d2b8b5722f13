//! `spin::Mutex` for the harness. Two differences from the real one:
//!  * contention on the simulation thread panics ("SPIN-DEADLOCK"): with one thread the holder can
//!    only be a suspended task, so a real spin lock would spin for as long as that task sleeps;
//!  * a scheduling hook runs before each acquisition and after each release, through which the
//!    harness explores preemptive interleavings.
use std::cell::{Cell, UnsafeCell};
use std::fmt;
use std::ops::{Deref, DerefMut};
use std::sync::atomic::{AtomicBool, Ordering};

pub mod hook {
    use super::*;
    thread_local! {
        /// Set on threads scheduled by the harness: called at every lock boundary.
        pub static HOOK: Cell<Option<fn(Point)>> = const { Cell::new(None) };
    }
    #[derive(Clone, Copy, PartialEq, Eq, Debug)]
    pub enum Point {
        BeforeLock,
        Blocked,
        AfterUnlock,
    }
    pub fn set(f: Option<fn(Point)>) {
        HOOK.with(|h| h.set(f));
    }
    pub(crate) fn at(p: Point) -> bool {
        match HOOK.try_with(|h| h.get()).ok().flatten() {
            Some(f) => {
                f(p);
                true
            }
            None => false,
        }
    }
}
use hook::Point;

pub struct Mutex<T: ?Sized> {
    locked: AtomicBool,
    data: UnsafeCell<T>,
}
unsafe impl<T: ?Sized + Send> Send for Mutex<T> {}
unsafe impl<T: ?Sized + Send> Sync for Mutex<T> {}
pub struct MutexGuard<'a, T: ?Sized> {
    m: &'a Mutex<T>,
}
unsafe impl<T: ?Sized + Send> Send for MutexGuard<'_, T> {}
unsafe impl<T: ?Sized + Sync> Sync for MutexGuard<'_, T> {}

impl<T> Mutex<T> {
    pub const fn new(v: T) -> Self {
        Mutex { locked: AtomicBool::new(false), data: UnsafeCell::new(v) }
    }
    pub fn into_inner(self) -> T {
        self.data.into_inner()
    }
}
impl<T: ?Sized> Mutex<T> {
    pub fn lock(&self) -> MutexGuard<'_, T> {
        hook::at(Point::BeforeLock);
        loop {
            if let Some(g) = self.raw_try() {
                return g;
            }
            if !hook::at(Point::Blocked) {
                if std::thread::panicking() {
                    // let destructors finish while unwinding
                    return MutexGuard { m: self };
                }
                panic!("SPIN-DEADLOCK: spin lock contended on a single thread (guard held across an await)");
            }
        }
    }
    fn raw_try(&self) -> Option<MutexGuard<'_, T>> {
        if self.locked.compare_exchange(false, true, Ordering::SeqCst, Ordering::SeqCst).is_ok() {
            Some(MutexGuard { m: self })
        } else {
            None
        }
    }
    pub fn try_lock(&self) -> Option<MutexGuard<'_, T>> {
        hook::at(Point::BeforeLock);
        self.raw_try()
    }
    pub fn is_locked(&self) -> bool {
        self.locked.load(Ordering::SeqCst)
    }
    pub fn get_mut(&mut self) -> &mut T {
        self.data.get_mut()
    }
    pub unsafe fn force_unlock(&self) {
        self.locked.store(false, Ordering::SeqCst)
    }
}
impl<T: ?Sized> Drop for MutexGuard<'_, T> {
    fn drop(&mut self) {
        self.m.locked.store(false, Ordering::SeqCst);
        hook::at(Point::AfterUnlock);
    }
}
impl<T: ?Sized> Deref for MutexGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.m.data.get() }
    }
}
impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.m.data.get() }
    }
}
impl<T: Default> Default for Mutex<T> {
    fn default() -> Self {
        Mutex::new(T::default())
    }
}
impl<T> From<T> for Mutex<T> {
    fn from(v: T) -> Self {
        Mutex::new(v)
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for Mutex<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self.raw_try() {
            Some(g) => write!(f, "Mutex {{ data: {:?} }}", &*g),
            None => write!(f, "Mutex {{ <locked> }}"),
        }
    }
}
pub mod mutex {
    pub use super::{Mutex, MutexGuard};
    pub use super::{Mutex as SpinMutex, MutexGuard as SpinMutexGuard};
}
