//! tokio's mpsc channels: FIFO, a fair semaphore for the bounded one, a wake for the receiver when a
//! message or the last sender's departure arrives, a wake for the longest-waiting sender when a slot
//! frees up, everybody woken on close.
use crate::vp::{self, Shared};
use std::collections::VecDeque;
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll, Waker};

pub mod error {
    use std::fmt;
    #[derive(PartialEq, Eq, Clone, Copy)]
    pub struct SendError<T>(pub T);
    impl<T> fmt::Debug for SendError<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str("SendError")
        }
    }
    impl<T> fmt::Display for SendError<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str("channel closed")
        }
    }
    impl<T> std::error::Error for SendError<T> {}
    #[derive(PartialEq, Eq, Clone, Copy)]
    pub enum TrySendError<T> {
        Full(T),
        Closed(T),
    }
    impl<T> TrySendError<T> {
        pub fn into_inner(self) -> T {
            match self {
                TrySendError::Full(t) | TrySendError::Closed(t) => t,
            }
        }
    }
    impl<T> fmt::Debug for TrySendError<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str("TrySendError")
        }
    }
    impl<T> fmt::Display for TrySendError<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str("channel closed or full")
        }
    }
    impl<T> std::error::Error for TrySendError<T> {}
    #[derive(PartialEq, Eq, Clone, Copy, Debug)]
    pub enum TryRecvError {
        Empty,
        Disconnected,
    }
    impl fmt::Display for TryRecvError {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str("empty or disconnected")
        }
    }
    impl std::error::Error for TryRecvError {}
}
use error::*;

struct Waiter {
    assigned: bool,
    waker: Option<Waker>,
}

struct Chan<T> {
    queue: VecDeque<T>,
    /// Free slots not promised to anybody (bounded only).
    permits: usize,
    bound: usize,
    waiters: VecDeque<Shared<Waiter>>,
    closed: bool,
    senders: usize,
    rx_alive: bool,
    rx_waker: Option<Waker>,
    closed_wakers: Vec<Waker>,
    /// Slots reserved by permits that are not used yet.
    reserved: usize,
    _live: vp::Live,
}

impl<T> Chan<T> {
    fn new(bound: usize) -> Shared<Chan<T>> {
        Shared::new(Chan {
            queue: VecDeque::new(),
            permits: bound,
            bound,
            waiters: VecDeque::new(),
            closed: false,
            senders: 1,
            rx_alive: true,
            rx_waker: None,
            closed_wakers: Vec::new(),
            reserved: 0,
            _live: vp::Live::new(),
        })
    }
    /// One slot becomes free: hand it to the first waiter, or keep it.
    fn release(&mut self) -> Option<Waker> {
        if self.bound == usize::MAX {
            return None;
        }
        match self.waiters.pop_front() {
            Some(w) => {
                let mut w = w.get();
                w.assigned = true;
                w.waker.take()
            }
            None => {
                self.permits += 1;
                None
            }
        }
    }
    fn close(&mut self) -> Vec<Waker> {
        self.closed = true;
        let mut out: Vec<Waker> = std::mem::take(&mut self.closed_wakers);
        for w in self.waiters.drain(..) {
            out.extend(w.get().waker.take());
        }
        out
    }
}
fn wake_all(w: impl IntoIterator<Item = Waker>) {
    for w in w {
        w.wake();
    }
}

fn push<T>(c: &Shared<Chan<T>>, t: T) {
    let w = {
        let mut ch = c.get();
        ch.queue.push_back(t);
        ch.rx_waker.take()
    };
    wake_all(w);
    vp::preempt();
}
fn sender_gone<T>(c: &Shared<Chan<T>>) {
    let w = {
        let mut ch = c.get();
        ch.senders -= 1;
        if ch.senders == 0 {
            ch.rx_waker.take()
        } else {
            None
        }
    };
    wake_all(w);
}
fn poll_recv<T>(c: &Shared<Chan<T>>, cx: &mut Context<'_>) -> Poll<Option<T>> {
    if vp::coop(cx) {
        return Poll::Pending;
    }
    vp::preempt();
    let (t, w) = {
        let mut ch = c.get();
        match ch.queue.pop_front() {
            Some(t) => {
                let w = ch.release();
                (Some(t), w)
            }
            None => {
                if ch.senders == 0 || (ch.closed && ch.reserved == 0) {
                    return Poll::Ready(None);
                }
                ch.rx_waker = Some(cx.waker().clone());
                drop(ch);
                vp::preempt();
                return Poll::Pending;
            }
        }
    };
    wake_all(w);
    Poll::Ready(t)
}
fn poll_recv_many<T>(c: &Shared<Chan<T>>, cx: &mut Context<'_>, buffer: &mut Vec<T>, limit: usize) -> Poll<usize> {
    if limit == 0 {
        return Poll::Ready(0);
    }
    if vp::coop(cx) {
        return Poll::Pending;
    }
    vp::preempt();
    let mut wakes = Vec::new();
    let n = {
        let mut ch = c.get();
        let mut n = 0;
        while n < limit {
            let Some(t) = ch.queue.pop_front() else { break };
            buffer.push(t);
            wakes.extend(ch.release());
            n += 1;
        }
        if n == 0 {
            if ch.senders == 0 || (ch.closed && ch.reserved == 0) {
                return Poll::Ready(0);
            }
            ch.rx_waker = Some(cx.waker().clone());
            drop(ch);
            vp::preempt();
            return Poll::Pending;
        }
        n
    };
    wake_all(wakes);
    Poll::Ready(n)
}
fn try_recv<T>(c: &Shared<Chan<T>>) -> Result<T, TryRecvError> {
    let (t, w) = {
        let mut ch = c.get();
        match ch.queue.pop_front() {
            Some(t) => {
                let w = ch.release();
                (t, w)
            }
            None => {
                return Err(if ch.senders == 0 || ch.closed {
                    TryRecvError::Disconnected
                } else {
                    TryRecvError::Empty
                })
            }
        }
    };
    wake_all(w);
    Ok(t)
}
fn rx_close<T>(c: &Shared<Chan<T>>) {
    let w = c.get().close();
    wake_all(w);
}
fn rx_drop<T>(c: &Shared<Chan<T>>) {
    let (w, q) = {
        let mut ch = c.get();
        ch.rx_alive = false;
        ch.rx_waker = None;
        let w = ch.close();
        (w, std::mem::take(&mut ch.queue))
    };
    wake_all(w);
    drop(q);
    vp::preempt();
}

macro_rules! receiver {
    ($name:ident) => {
        pub struct $name<T> {
            c: Shared<Chan<T>>,
        }
        unsafe impl<T: Send> Send for $name<T> {}
        unsafe impl<T: Send> Sync for $name<T> {}
        impl<T> Unpin for $name<T> {}
        impl<T> std::fmt::Debug for $name<T> {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                f.write_str(stringify!($name))
            }
        }
        impl<T> Drop for $name<T> {
            fn drop(&mut self) {
                rx_drop(&self.c)
            }
        }
        impl<T> $name<T> {
            pub fn poll_recv(&mut self, cx: &mut Context<'_>) -> Poll<Option<T>> {
                poll_recv(&self.c, cx)
            }
            pub fn poll_recv_many(&mut self, cx: &mut Context<'_>, buffer: &mut Vec<T>, limit: usize) -> Poll<usize> {
                poll_recv_many(&self.c, cx, buffer, limit)
            }
            pub async fn recv(&mut self) -> Option<T> {
                std::future::poll_fn(|cx| poll_recv(&self.c, cx)).await
            }
            pub async fn recv_many(&mut self, buffer: &mut Vec<T>, limit: usize) -> usize {
                std::future::poll_fn(|cx| poll_recv_many(&self.c, cx, buffer, limit)).await
            }
            pub fn try_recv(&mut self) -> Result<T, TryRecvError> {
                try_recv(&self.c)
            }
            pub fn close(&mut self) {
                rx_close(&self.c)
            }
            pub fn is_closed(&self) -> bool {
                let c = self.c.get();
                c.closed || c.senders == 0
            }
            pub fn is_empty(&self) -> bool {
                self.c.get().queue.is_empty()
            }
            pub fn len(&self) -> usize {
                self.c.get().queue.len()
            }
        }
    };
}
receiver!(Receiver);
receiver!(UnboundedReceiver);
impl<T> Receiver<T> {
    pub fn capacity(&self) -> usize {
        self.c.get().permits
    }
    pub fn max_capacity(&self) -> usize {
        self.c.get().bound
    }
}

pub struct UnboundedSender<T> {
    c: Shared<Chan<T>>,
}
pub struct Sender<T> {
    c: Shared<Chan<T>>,
}
macro_rules! sender {
    ($name:ident, $weak:ident) => {
        pub struct $weak<T> {
            c: Shared<Chan<T>>,
        }
        unsafe impl<T: Send> Send for $weak<T> {}
        unsafe impl<T: Send> Sync for $weak<T> {}
        impl<T> Clone for $weak<T> {
            fn clone(&self) -> Self {
                $weak { c: self.c.clone() }
            }
        }
        impl<T> std::fmt::Debug for $weak<T> {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                f.write_str(stringify!($weak))
            }
        }
        impl<T> $weak<T> {
            pub fn upgrade(&self) -> Option<$name<T>> {
                let mut c = self.c.get();
                if c.senders == 0 {
                    return None;
                }
                c.senders += 1;
                drop(c);
                Some($name { c: self.c.clone() })
            }
            pub fn strong_count(&self) -> usize {
                self.c.get().senders
            }
        }
        impl<T> $name<T> {
            pub fn downgrade(&self) -> $weak<T> {
                $weak { c: self.c.clone() }
            }
        }
        unsafe impl<T: Send> Send for $name<T> {}
        unsafe impl<T: Send> Sync for $name<T> {}
        impl<T> Unpin for $name<T> {}
        impl<T> Clone for $name<T> {
            fn clone(&self) -> Self {
                self.c.get().senders += 1;
                Self { c: self.c.clone() }
            }
        }
        impl<T> Drop for $name<T> {
            fn drop(&mut self) {
                sender_gone(&self.c)
            }
        }
        impl<T> std::fmt::Debug for $name<T> {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                f.write_str(stringify!($name))
            }
        }
        impl<T> $name<T> {
            pub fn is_closed(&self) -> bool {
                self.c.get().closed
            }
            pub fn same_channel(&self, o: &Self) -> bool {
                self.c.same(&o.c)
            }
            pub fn strong_count(&self) -> usize {
                self.c.get().senders
            }
            pub async fn closed(&self) {
                std::future::poll_fn(|cx| {
                    let mut c = self.c.get();
                    if c.closed {
                        return Poll::Ready(());
                    }
                    c.closed_wakers.push(cx.waker().clone());
                    Poll::Pending
                })
                .await
            }
        }
    };
}
sender!(Sender, WeakSender);
sender!(UnboundedSender, WeakUnboundedSender);

impl<T> UnboundedSender<T> {
    pub fn send(&self, message: T) -> Result<(), SendError<T>> {
        vp::preempt();
        if self.c.get().closed {
            return Err(SendError(message));
        }
        push(&self.c, message);
        Ok(())
    }
}

/// Waiting for one slot of a bounded channel.
pub(crate) struct Acquire<T> {
    c: Shared<Chan<T>>,
    waiter: Option<Shared<Waiter>>,
}
impl<T> Acquire<T> {
    fn new(c: Shared<Chan<T>>) -> Self {
        Acquire { c, waiter: None }
    }
    /// Ready(Ok): the caller owns one slot.
    fn poll(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), ()>> {
        if let Some(w) = &self.waiter {
            let assigned = w.get().assigned;
            if assigned {
                self.waiter = None;
                let mut ch = self.c.get();
                if ch.closed {
                    return Poll::Ready(Err(()));
                }
                ch.reserved += 1;
                return Poll::Ready(Ok(()));
            }
            if self.c.get().closed {
                self.waiter = None;
                return Poll::Ready(Err(()));
            }
            w.get().waker = Some(cx.waker().clone());
            return Poll::Pending;
        }
        if vp::coop(cx) {
            return Poll::Pending;
        }
        vp::preempt();
        let mut ch = self.c.get();
        if ch.closed {
            return Poll::Ready(Err(()));
        }
        if ch.permits > 0 {
            ch.permits -= 1;
            ch.reserved += 1;
            return Poll::Ready(Ok(()));
        }
        let w = Shared::new(Waiter {
            assigned: false,
            waker: Some(cx.waker().clone()),
        });
        ch.waiters.push_back(w.clone());
        self.waiter = Some(w);
        drop(ch);
        vp::preempt();
        Poll::Pending
    }
}
impl<T> Drop for Acquire<T> {
    fn drop(&mut self) {
        if let Some(w) = self.waiter.take() {
            let wake = {
                let mut ch = self.c.get();
                if w.get().assigned {
                    ch.release()
                } else {
                    ch.waiters.retain(|x| !x.same(&w));
                    None
                }
            };
            wake_all(wake);
        }
    }
}
fn use_slot<T>(c: &Shared<Chan<T>>, t: T) {
    c.get().reserved -= 1;
    push(c, t);
}
fn free_slot<T>(c: &Shared<Chan<T>>) {
    let w = {
        let mut ch = c.get();
        ch.reserved -= 1;
        let mut w: Vec<Waker> = Vec::new();
        w.extend(ch.release());
        if ch.closed && ch.reserved == 0 {
            w.extend(ch.rx_waker.take());
        }
        w
    };
    wake_all(w);
}

pub struct Permit<'a, T> {
    c: Option<&'a Shared<Chan<T>>>,
}
impl<T> Permit<'_, T> {
    pub fn send(mut self, t: T) {
        use_slot(self.c.take().unwrap(), t);
    }
}
impl<T> Drop for Permit<'_, T> {
    fn drop(&mut self) {
        if let Some(c) = self.c {
            free_slot(c);
        }
    }
}
/// A slot owned together with its sender.
pub struct OwnedPermit<T> {
    s: Option<Sender<T>>,
}
impl<T> OwnedPermit<T> {
    pub fn send(mut self, t: T) -> Sender<T> {
        let s = self.s.take().unwrap();
        use_slot(&s.c, t);
        s
    }
    pub fn release(mut self) -> Sender<T> {
        let s = self.s.take().unwrap();
        free_slot(&s.c);
        s
    }
}
impl<T> Drop for OwnedPermit<T> {
    fn drop(&mut self) {
        if let Some(s) = &self.s {
            free_slot(&s.c);
        }
    }
}

impl<T> Sender<T> {
    pub async fn send(&self, value: T) -> Result<(), SendError<T>> {
        match self.reserve().await {
            Ok(p) => {
                p.send(value);
                Ok(())
            }
            Err(_) => Err(SendError(value)),
        }
    }
    pub async fn reserve(&self) -> Result<Permit<'_, T>, SendError<()>> {
        let mut a = Acquire::new(self.c.clone());
        match std::future::poll_fn(|cx| a.poll(cx)).await {
            Ok(()) => Ok(Permit { c: Some(&self.c) }),
            Err(()) => Err(SendError(())),
        }
    }
    pub async fn reserve_owned(self) -> Result<OwnedPermit<T>, SendError<()>> {
        let mut a = Acquire::new(self.c.clone());
        match std::future::poll_fn(|cx| a.poll(cx)).await {
            Ok(()) => Ok(OwnedPermit { s: Some(self) }),
            Err(()) => Err(SendError(())),
        }
    }
    fn try_acquire(&self) -> Result<(), TrySendError<()>> {
        vp::preempt();
        let mut ch = self.c.get();
        if ch.closed {
            return Err(TrySendError::Closed(()));
        }
        if ch.permits == 0 {
            return Err(TrySendError::Full(()));
        }
        ch.permits -= 1;
        ch.reserved += 1;
        Ok(())
    }
    pub fn try_send(&self, message: T) -> Result<(), TrySendError<T>> {
        match self.try_acquire() {
            Ok(()) => {
                use_slot(&self.c, message);
                Ok(())
            }
            Err(TrySendError::Full(())) => Err(TrySendError::Full(message)),
            Err(TrySendError::Closed(())) => Err(TrySendError::Closed(message)),
        }
    }
    pub fn try_reserve(&self) -> Result<Permit<'_, T>, TrySendError<()>> {
        self.try_acquire().map(|()| Permit { c: Some(&self.c) })
    }
    pub fn try_reserve_owned(self) -> Result<OwnedPermit<T>, TrySendError<Self>> {
        match self.try_acquire() {
            Ok(()) => Ok(OwnedPermit { s: Some(self) }),
            Err(TrySendError::Full(())) => Err(TrySendError::Full(self)),
            Err(TrySendError::Closed(())) => Err(TrySendError::Closed(self)),
        }
    }
    pub fn capacity(&self) -> usize {
        self.c.get().permits
    }
    pub fn max_capacity(&self) -> usize {
        self.c.get().bound
    }
}

pub fn channel<T>(buffer: usize) -> (Sender<T>, Receiver<T>) {
    assert!(buffer > 0, "mpsc bounded channel requires buffer > 0");
    let c = Chan::new(buffer);
    (Sender { c: c.clone() }, Receiver { c })
}
pub fn unbounded_channel<T>() -> (UnboundedSender<T>, UnboundedReceiver<T>) {
    let c = Chan::new(usize::MAX);
    (UnboundedSender { c: c.clone() }, UnboundedReceiver { c })
}

/// Harness-side accounting: messages currently in the queue of the channel.
impl<T> Sender<T> {
    pub fn vp_queued(&self) -> usize {
        self.c.get().queue.len()
    }
}

/// The reservation state machine `tokio_util::sync::PollSender` is built on.
pub struct PollAcquire<T> {
    a: Option<Acquire<T>>,
    got: bool,
}
impl<T> Default for PollAcquire<T> {
    fn default() -> Self {
        PollAcquire { a: None, got: false }
    }
}
impl<T> PollAcquire<T> {
    pub fn poll(&mut self, s: &Sender<T>, cx: &mut Context<'_>) -> Poll<Result<(), ()>> {
        if self.got {
            return Poll::Ready(Ok(()));
        }
        let a = self.a.get_or_insert_with(|| Acquire::new(s.c.clone()));
        match a.poll(cx) {
            Poll::Pending => Poll::Pending,
            Poll::Ready(r) => {
                self.a = None;
                self.got = r.is_ok();
                Poll::Ready(r)
            }
        }
    }
    pub fn reserved(&self) -> bool {
        self.got
    }
    pub fn send(&mut self, s: &Sender<T>, t: T) {
        self.got = false;
        use_slot(&s.c, t);
    }
    pub fn abort(&mut self, s: &Sender<T>) -> bool {
        self.a = None;
        if self.got {
            self.got = false;
            free_slot(&s.c);
            return true;
        }
        false
    }
}

#[allow(dead_code)]
fn _assert_future<F: Future>(_: Pin<&mut F>) {}
