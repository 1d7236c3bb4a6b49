//! `tokio_util::sync::PollSender` over the modelled channel.
pub mod sync {
    pub use crate::token::{CancellationToken, DropGuard};
    use std::fmt;
    use std::task::{Context, Poll};
    use tokio::sync::mpsc::{PollAcquire, Sender};

    pub struct PollSendError<T>(Option<T>);
    impl<T> PollSendError<T> {
        pub fn into_inner(self) -> Option<T> {
            self.0
        }
    }
    impl<T> fmt::Debug for PollSendError<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str("PollSendError")
        }
    }
    impl<T> fmt::Display for PollSendError<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str("channel closed")
        }
    }
    impl<T> std::error::Error for PollSendError<T> {}

    pub struct PollSender<T> {
        sender: Option<Sender<T>>,
        a: PollAcquire<T>,
        closed: bool,
    }
    unsafe impl<T: Send> Send for PollSender<T> {}
    unsafe impl<T: Send> Sync for PollSender<T> {}
    impl<T> Unpin for PollSender<T> {}
    impl<T> fmt::Debug for PollSender<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str("PollSender")
        }
    }
    impl<T: Send + 'static> PollSender<T> {
        pub fn new(sender: Sender<T>) -> Self {
            PollSender {
                sender: Some(sender),
                a: Default::default(),
                closed: false,
            }
        }
        pub fn poll_reserve(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), PollSendError<T>>> {
            if self.closed && !self.a.reserved() {
                return Poll::Ready(Err(PollSendError(None)));
            }
            let Some(s) = &self.sender else {
                return Poll::Ready(Err(PollSendError(None)));
            };
            match self.a.poll(s, cx) {
                Poll::Pending => Poll::Pending,
                Poll::Ready(Ok(())) => Poll::Ready(Ok(())),
                Poll::Ready(Err(())) => {
                    self.sender = None;
                    Poll::Ready(Err(PollSendError(None)))
                }
            }
        }
        pub fn send_item(&mut self, value: T) -> Result<(), PollSendError<T>> {
            match &self.sender {
                None => Err(PollSendError(Some(value))),
                Some(s) => {
                    assert!(
                        self.a.reserved(),
                        "`send_item` called without first calling `poll_reserve`"
                    );
                    self.a.send(s, value);
                    if self.closed {
                        self.sender = None;
                    }
                    Ok(())
                }
            }
        }
        pub fn is_closed(&self) -> bool {
            self.closed || self.sender.is_none()
        }
        pub fn get_ref(&self) -> Option<&Sender<T>> {
            self.sender.as_ref()
        }
        pub fn close(&mut self) {
            self.closed = true;
            if !self.a.reserved() {
                self.abort_send();
                self.sender = None;
            }
        }
        pub fn abort_send(&mut self) -> bool {
            match &self.sender {
                Some(s) => self.a.abort(s),
                None => false,
            }
        }
    }
    impl<T> Drop for PollSender<T> {
        fn drop(&mut self) {
            if let Some(s) = &self.sender {
                self.a.abort(s);
            }
        }
    }
    impl<T: Send + 'static> Clone for PollSender<T> {
        fn clone(&self) -> Self {
            PollSender {
                sender: self.sender.clone(),
                a: Default::default(),
                closed: false,
            }
        }
    }
}

mod token {
    use std::sync::Arc;
    use std::task::Poll;
    use tokio::sync::watch;

    struct Node {
        flag: watch::Sender<bool>,
        children: std::sync::Mutex<Vec<CancellationToken>>,
    }
    #[derive(Clone)]
    pub struct CancellationToken(Arc<Node>);
    #[derive(Debug)]
    pub struct DropGuard(Option<CancellationToken>);
    impl std::fmt::Debug for CancellationToken {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("CancellationToken")
        }
    }
    impl Default for CancellationToken {
        fn default() -> Self {
            Self::new()
        }
    }
    impl CancellationToken {
        pub fn new() -> Self {
            CancellationToken(Arc::new(Node { flag: watch::channel(false).0, children: Default::default() }))
        }
        pub fn child_token(&self) -> Self {
            let c = Self::new();
            if self.is_cancelled() {
                c.cancel();
            } else {
                let mut v = self.0.children.lock().unwrap();
                v.retain(|t| Arc::strong_count(&t.0) > 1);
                v.push(c.clone());
            }
            c
        }
        pub fn cancel(&self) {
            self.0.flag.send_replace(true);
            let v = std::mem::take(&mut *self.0.children.lock().unwrap());
            for t in v {
                t.cancel();
            }
        }
        pub fn is_cancelled(&self) -> bool {
            *self.0.flag.borrow()
        }
        pub async fn cancelled(&self) {
            let mut r = self.0.flag.subscribe();
            let _ = r.wait_for(|c| *c).await;
        }
        pub async fn cancelled_owned(self) {
            self.cancelled().await
        }
        pub fn drop_guard(self) -> DropGuard {
            DropGuard(Some(self))
        }
        pub async fn run_until_cancelled<F: std::future::Future>(&self, f: F) -> Option<F::Output> {
            let mut f = std::pin::pin!(f);
            let mut c = std::pin::pin!(self.cancelled());
            std::future::poll_fn(|cx| {
                if c.as_mut().poll(cx).is_ready() {
                    return Poll::Ready(None);
                }
                f.as_mut().poll(cx).map(Some)
            })
            .await
        }
    }
    use std::future::Future;
    impl DropGuard {
        pub fn disarm(mut self) -> CancellationToken {
            self.0.take().unwrap()
        }
    }
    impl Drop for DropGuard {
        fn drop(&mut self) {
            if let Some(t) = self.0.take() {
                t.cancel();
            }
        }
    }
}
