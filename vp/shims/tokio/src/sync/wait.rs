//! A counting semaphore and what is made of it: `Semaphore`, `Mutex`, `Notify`.
use crate::vp::{self, Shared};
use std::cell::UnsafeCell;
use std::collections::VecDeque;
use std::ops::{Deref, DerefMut};
use std::sync::Arc;
use std::task::{Poll, Waker};

struct Waiter {
    assigned: bool,
    waker: Option<Waker>,
}
struct Sem {
    permits: usize,
    closed: bool,
    waiters: VecDeque<Shared<Waiter>>,
}
/// Gives its slot back if the wait is abandoned.
struct Wait<'a> {
    sem: &'a Shared<Sem>,
    w: Option<Shared<Waiter>>,
}
impl Drop for Wait<'_> {
    fn drop(&mut self) {
        if let Some(w) = self.w.take() {
            let assigned = w.get().assigned;
            if assigned {
                release(self.sem, 1);
            } else {
                self.sem.get().waiters.retain(|x| !x.same(&w));
            }
        }
    }
}
fn release(s: &Shared<Sem>, n: usize) {
    for _ in 0..n {
        let w = {
            let mut s = s.get();
            match s.waiters.pop_front() {
                Some(w) => {
                    let mut w = w.get();
                    w.assigned = true;
                    w.waker.take()
                }
                None => {
                    s.permits += 1;
                    None
                }
            }
        };
        if let Some(w) = w {
            w.wake();
        }
    }
}
async fn acquire(s: &Shared<Sem>) -> Result<(), AcquireError> {
    vp::preempt();
    let mut wait = Wait { sem: s, w: None };
    std::future::poll_fn(|cx| {
        let mut s = wait.sem.get();
        if s.closed {
            return Poll::Ready(Err(AcquireError(())));
        }
        match &wait.w {
            Some(w) => {
                let mut x = w.get();
                if x.assigned {
                    drop(x);
                    wait.w = None;
                    return Poll::Ready(Ok(()));
                }
                x.waker = Some(cx.waker().clone());
            }
            None => {
                if s.permits > 0 && s.waiters.is_empty() {
                    s.permits -= 1;
                    return Poll::Ready(Ok(()));
                }
                let w = Shared::new(Waiter { assigned: false, waker: Some(cx.waker().clone()) });
                s.waiters.push_back(w.clone());
                wait.w = Some(w);
            }
        }
        Poll::Pending
    })
    .await
}
fn try_acquire(s: &Shared<Sem>, n: usize) -> bool {
    vp::preempt();
    let mut s = s.get();
    let ok = s.permits >= n && s.waiters.is_empty();
    if ok {
        s.permits -= n;
    }
    ok
}

#[derive(Debug)]
pub struct AcquireError(());
impl std::fmt::Display for AcquireError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("semaphore closed")
    }
}
impl std::error::Error for AcquireError {}
#[derive(Debug, PartialEq, Eq)]
pub enum TryAcquireError {
    Closed,
    NoPermits,
}

pub struct Semaphore(Shared<Sem>);
impl std::fmt::Debug for Semaphore {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Semaphore")
    }
}
#[derive(Debug)]
pub struct SemaphorePermit<'a>(&'a Semaphore, usize);
impl SemaphorePermit<'_> {
    pub fn forget(mut self) {
        self.1 = 0;
    }
}
impl Drop for SemaphorePermit<'_> {
    fn drop(&mut self) {
        release(&self.0 .0, self.1)
    }
}
#[derive(Debug)]
pub struct OwnedSemaphorePermit(Arc<Semaphore>, usize);
impl OwnedSemaphorePermit {
    pub fn forget(mut self) {
        self.1 = 0;
    }
}
impl Drop for OwnedSemaphorePermit {
    fn drop(&mut self) {
        release(&self.0 .0, self.1)
    }
}
impl Semaphore {
    pub fn new(permits: usize) -> Self {
        Semaphore(Shared::new(Sem { permits, closed: false, waiters: VecDeque::new() }))
    }
    pub fn available_permits(&self) -> usize {
        self.0.get().permits
    }
    pub fn add_permits(&self, n: usize) {
        release(&self.0, n)
    }
    pub async fn acquire(&self) -> Result<SemaphorePermit<'_>, AcquireError> {
        acquire(&self.0).await.map(|_| SemaphorePermit(self, 1))
    }
    pub async fn acquire_owned(self: Arc<Self>) -> Result<OwnedSemaphorePermit, AcquireError> {
        acquire(&self.0).await?;
        Ok(OwnedSemaphorePermit(self, 1))
    }
    pub fn try_acquire(&self) -> Result<SemaphorePermit<'_>, TryAcquireError> {
        if try_acquire(&self.0, 1) {
            Ok(SemaphorePermit(self, 1))
        } else {
            Err(TryAcquireError::NoPermits)
        }
    }
    pub fn try_acquire_owned(self: Arc<Self>) -> Result<OwnedSemaphorePermit, TryAcquireError> {
        if try_acquire(&self.0, 1) {
            Ok(OwnedSemaphorePermit(self, 1))
        } else {
            Err(TryAcquireError::NoPermits)
        }
    }
    pub fn close(&self) {
        let w: Vec<Waker> = {
            let mut s = self.0.get();
            s.closed = true;
            s.waiters.drain(..).filter_map(|w| w.get().waker.take()).collect()
        };
        for w in w {
            w.wake();
        }
    }
}

pub struct Mutex<T: ?Sized> {
    sem: Shared<Sem>,
    t: UnsafeCell<T>,
}
unsafe impl<T: ?Sized + Send> Send for Mutex<T> {}
unsafe impl<T: ?Sized + Send> Sync for Mutex<T> {}
impl<T: ?Sized> std::fmt::Debug for Mutex<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Mutex")
    }
}
impl<T: Default> Default for Mutex<T> {
    fn default() -> Self {
        Mutex::new(T::default())
    }
}
pub struct MutexGuard<'a, T: ?Sized>(&'a Mutex<T>);
unsafe impl<T: ?Sized + Send> Send for MutexGuard<'_, T> {}
unsafe impl<T: ?Sized + Sync> Sync for MutexGuard<'_, T> {}
#[derive(Debug)]
pub struct TryLockError(());
impl<T> Mutex<T> {
    pub fn new(t: T) -> Self {
        Mutex { sem: Shared::new(Sem { permits: 1, closed: false, waiters: VecDeque::new() }), t: UnsafeCell::new(t) }
    }
    pub fn into_inner(self) -> T {
        self.t.into_inner()
    }
}
impl<T: ?Sized> Mutex<T> {
    pub async fn lock(&self) -> MutexGuard<'_, T> {
        let _ = acquire(&self.sem).await;
        MutexGuard(self)
    }
    pub fn try_lock(&self) -> Result<MutexGuard<'_, T>, TryLockError> {
        if try_acquire(&self.sem, 1) {
            Ok(MutexGuard(self))
        } else {
            Err(TryLockError(()))
        }
    }
    pub fn get_mut(&mut self) -> &mut T {
        self.t.get_mut()
    }
}
impl<T: ?Sized> Deref for MutexGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.0.t.get() }
    }
}
impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.0.t.get() }
    }
}
impl<T: ?Sized> Drop for MutexGuard<'_, T> {
    fn drop(&mut self) {
        release(&self.0.sem, 1)
    }
}

pub struct Notify {
    sem: Shared<Sem>,
}
impl std::fmt::Debug for Notify {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Notify")
    }
}
impl Default for Notify {
    fn default() -> Self {
        Self::new()
    }
}
impl Notify {
    pub fn new() -> Self {
        Notify { sem: Shared::new(Sem { permits: 0, closed: false, waiters: VecDeque::new() }) }
    }
    pub async fn notified(&self) {
        let _ = acquire(&self.sem).await;
    }
    pub fn notify_one(&self) {
        let stored = {
            let s = self.sem.get();
            s.permits > 0 && s.waiters.is_empty()
        };
        if !stored {
            release(&self.sem, 1);
        }
        vp::preempt();
    }
    pub fn notify_waiters(&self) {
        let n = self.sem.get().waiters.len();
        release(&self.sem, n);
        vp::preempt();
    }
}
