//! `watch`: one value, whoever looks sees the latest.
use crate::vp::{self, Shared};
use std::ops::Deref;
use std::task::{Context, Poll, Waker};

pub mod error {
    #[derive(Debug, PartialEq, Eq, Clone, Copy)]
    pub struct SendError<T>(pub T);
    impl<T> std::fmt::Display for SendError<T> {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("channel closed")
        }
    }
    impl<T: std::fmt::Debug> std::error::Error for SendError<T> {}
    #[derive(Debug, Clone)]
    pub struct RecvError(pub(crate) ());
    impl std::fmt::Display for RecvError {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("channel closed")
        }
    }
    impl std::error::Error for RecvError {}
}

struct State<T> {
    value: T,
    version: u64,
    senders: usize,
    receivers: usize,
    wakers: Vec<Waker>,
}
impl<T> State<T> {
    fn wake(&mut self) -> Vec<Waker> {
        std::mem::take(&mut self.wakers)
    }
}
fn wake(ws: Vec<Waker>) {
    for w in ws {
        w.wake();
    }
    vp::preempt();
}
pub struct Sender<T>(Shared<State<T>>);
pub struct Receiver<T>(Shared<State<T>>, u64);
pub struct Ref<'a, T>(std::cell::RefMut<'a, State<T>>);
impl<T> Deref for Ref<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        &self.0.value
    }
}
macro_rules! debug {
    ($n:ident) => {
        impl<T> std::fmt::Debug for $n<T> {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                f.write_str(concat!("watch::", stringify!($n)))
            }
        }
    };
}
debug!(Sender);
debug!(Receiver);
unsafe impl<T: Send + Sync> Send for Sender<T> {}
unsafe impl<T: Send + Sync> Sync for Sender<T> {}
unsafe impl<T: Send + Sync> Send for Receiver<T> {}
unsafe impl<T: Send + Sync> Sync for Receiver<T> {}

pub fn channel<T>(init: T) -> (Sender<T>, Receiver<T>) {
    let s = Shared::new(State { value: init, version: 0, senders: 1, receivers: 1, wakers: Vec::new() });
    (Sender(s.clone()), Receiver(s, 0))
}
impl<T> Clone for Sender<T> {
    fn clone(&self) -> Self {
        self.0.get().senders += 1;
        Sender(self.0.clone())
    }
}
impl<T> Drop for Sender<T> {
    fn drop(&mut self) {
        let ws = {
            let mut s = self.0.get();
            s.senders -= 1;
            if s.senders == 0 {
                s.wake()
            } else {
                Vec::new()
            }
        };
        wake(ws);
    }
}
impl<T> Sender<T> {
    pub fn send(&self, value: T) -> Result<(), error::SendError<T>> {
        if self.0.get().receivers == 0 {
            return Err(error::SendError(value));
        }
        self.send_replace(value);
        Ok(())
    }
    pub fn send_replace(&self, value: T) -> T {
        let (old, ws) = {
            let mut s = self.0.get();
            s.version += 1;
            let old = std::mem::replace(&mut s.value, value);
            (old, s.wake())
        };
        wake(ws);
        old
    }
    pub fn send_modify(&self, f: impl FnOnce(&mut T)) {
        let ws = {
            let mut s = self.0.get();
            s.version += 1;
            f(&mut s.value);
            s.wake()
        };
        wake(ws);
    }
    pub fn borrow(&self) -> Ref<'_, T> {
        Ref(self.0.get())
    }
    pub fn subscribe(&self) -> Receiver<T> {
        let v = {
            let mut s = self.0.get();
            s.receivers += 1;
            s.version
        };
        Receiver(self.0.clone(), v)
    }
    pub fn is_closed(&self) -> bool {
        self.0.get().receivers == 0
    }
    pub fn receiver_count(&self) -> usize {
        self.0.get().receivers
    }
    pub async fn closed(&self) {
        std::future::poll_fn(|cx| {
            let mut s = self.0.get();
            if s.receivers == 0 {
                return Poll::Ready(());
            }
            s.wakers.push(cx.waker().clone());
            Poll::Pending
        })
        .await
    }
}
impl<T> Clone for Receiver<T> {
    fn clone(&self) -> Self {
        self.0.get().receivers += 1;
        Receiver(self.0.clone(), self.1)
    }
}
impl<T> Drop for Receiver<T> {
    fn drop(&mut self) {
        let ws = {
            let mut s = self.0.get();
            s.receivers -= 1;
            if s.receivers == 0 {
                s.wake()
            } else {
                Vec::new()
            }
        };
        wake(ws);
    }
}
impl<T> Receiver<T> {
    pub fn borrow(&self) -> Ref<'_, T> {
        Ref(self.0.get())
    }
    pub fn borrow_and_update(&mut self) -> Ref<'_, T> {
        let s = self.0.get();
        self.1 = s.version;
        Ref(s)
    }
    pub fn has_changed(&self) -> Result<bool, error::RecvError> {
        let s = self.0.get();
        if s.senders == 0 {
            return Err(error::RecvError(()));
        }
        Ok(s.version != self.1)
    }
    fn poll_changed(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), error::RecvError>> {
        let mut s = self.0.get();
        if s.version != self.1 {
            self.1 = s.version;
            return Poll::Ready(Ok(()));
        }
        if s.senders == 0 {
            return Poll::Ready(Err(error::RecvError(())));
        }
        s.wakers.push(cx.waker().clone());
        Poll::Pending
    }
    pub async fn changed(&mut self) -> Result<(), error::RecvError> {
        vp::preempt();
        std::future::poll_fn(|cx| self.poll_changed(cx)).await
    }
    pub async fn wait_for(&mut self, mut f: impl FnMut(&T) -> bool) -> Result<Ref<'_, T>, error::RecvError> {
        loop {
            let ok = {
                let s = self.0.get();
                self.1 = s.version;
                f(&s.value)
            };
            if ok {
                return Ok(Ref(self.0.get()));
            }
            std::future::poll_fn(|cx| self.poll_changed(cx)).await?;
        }
    }
}
