use crate::vp::{self, Shared};
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll, Waker};

pub mod error {
    #[derive(Debug, PartialEq, Eq, Clone)]
    pub struct RecvError(pub(crate) ());
    impl std::fmt::Display for RecvError {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("channel closed")
        }
    }
    impl std::error::Error for RecvError {}
    #[derive(Debug, PartialEq, Eq, Clone)]
    pub enum TryRecvError {
        Empty,
        Closed,
    }
    impl std::fmt::Display for TryRecvError {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("empty or closed")
        }
    }
    impl std::error::Error for TryRecvError {}
}
use error::*;

struct One<T> {
    value: Option<T>,
    tx_gone: bool,
    rx_closed: bool,
    taken: bool,
    rx_waker: Option<Waker>,
    tx_waker: Option<Waker>,
    _live: vp::Live,
}
pub struct Sender<T> {
    o: Shared<One<T>>,
}
pub struct Receiver<T> {
    o: Shared<One<T>>,
}
unsafe impl<T: Send> Send for Sender<T> {}
unsafe impl<T: Send> Sync for Sender<T> {}
unsafe impl<T: Send> Send for Receiver<T> {}
unsafe impl<T: Send> Sync for Receiver<T> {}
impl<T> Unpin for Sender<T> {}
impl<T> Unpin for Receiver<T> {}
impl<T> std::fmt::Debug for Sender<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("oneshot::Sender")
    }
}
impl<T> std::fmt::Debug for Receiver<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("oneshot::Receiver")
    }
}

pub fn channel<T>() -> (Sender<T>, Receiver<T>) {
    let o = Shared::new(One {
        value: None,
        tx_gone: false,
        rx_closed: false,
        taken: false,
        rx_waker: None,
        tx_waker: None,
        _live: vp::Live::new(),
    });
    (Sender { o: o.clone() }, Receiver { o })
}

impl<T> Sender<T> {
    pub fn send(self, t: T) -> Result<(), T> {
        vp::preempt();
        let w = {
            let mut o = self.o.get();
            if o.rx_closed {
                return Err(t);
            }
            o.value = Some(t);
            o.tx_gone = true;
            o.rx_waker.take()
        };
        if let Some(w) = w {
            w.wake();
        }
        Ok(())
    }
    pub fn is_closed(&self) -> bool {
        self.o.get().rx_closed
    }
    pub fn poll_closed(&mut self, cx: &mut Context<'_>) -> Poll<()> {
        let mut o = self.o.get();
        if o.rx_closed {
            return Poll::Ready(());
        }
        o.tx_waker = Some(cx.waker().clone());
        Poll::Pending
    }
    pub async fn closed(&mut self) {
        std::future::poll_fn(|cx| self.poll_closed(cx)).await
    }
}
impl<T> Drop for Sender<T> {
    fn drop(&mut self) {
        let w = {
            let mut o = self.o.get();
            o.tx_gone = true;
            o.rx_waker.take()
        };
        if let Some(w) = w {
            w.wake();
        }
    }
}
impl<T> Receiver<T> {
    pub fn try_recv(&mut self) -> Result<T, TryRecvError> {
        let mut o = self.o.get();
        if let Some(t) = o.value.take() {
            o.taken = true;
            return Ok(t);
        }
        if o.tx_gone || o.rx_closed {
            Err(TryRecvError::Closed)
        } else {
            Err(TryRecvError::Empty)
        }
    }
    pub fn close(&mut self) {
        let w = {
            let mut o = self.o.get();
            o.rx_closed = true;
            o.tx_waker.take()
        };
        if let Some(w) = w {
            w.wake();
        }
    }
}
impl<T> Future for Receiver<T> {
    type Output = Result<T, RecvError>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        if vp::coop(cx) {
            return Poll::Pending;
        }
        vp::preempt();
        let mut o = self.o.get();
        if let Some(t) = o.value.take() {
            o.taken = true;
            return Poll::Ready(Ok(t));
        }
        assert!(!o.taken, "called after complete");
        if o.tx_gone || o.rx_closed {
            return Poll::Ready(Err(RecvError(())));
        }
        o.rx_waker = Some(cx.waker().clone());
        Poll::Pending
    }
}
impl<T> Drop for Receiver<T> {
    fn drop(&mut self) {
        self.close();
        let v = self.o.get().value.take();
        drop(v);
    }
}
