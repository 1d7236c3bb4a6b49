use crate::vp::{self, Shared};
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll, Waker};

struct Join<T> {
    out: Option<T>,
    done: bool,
    waker: Option<Waker>,
}
pub struct JoinHandle<T> {
    join: Shared<Join<T>>,
    id: vp::TaskId,
}
#[derive(Debug)]
pub struct JoinError;
impl JoinError {
    pub fn is_cancelled(&self) -> bool {
        true
    }
    pub fn is_panic(&self) -> bool {
        false
    }
}
impl std::fmt::Display for JoinError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("cancelled")
    }
}
impl std::error::Error for JoinError {}
impl<T> std::fmt::Debug for JoinHandle<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("JoinHandle")
    }
}
impl<T> Unpin for JoinHandle<T> {}
impl<T> JoinHandle<T> {
    pub fn abort(&self) {
        vp::kill(self.id);
    }
    pub fn abort_handle(&self) -> AbortHandle {
        AbortHandle(self.id)
    }
    pub fn is_finished(&self) -> bool {
        self.join.get().done || vp::done(self.id)
    }
}
#[derive(Clone, Copy, Debug)]
pub struct AbortHandle(vp::TaskId);
impl AbortHandle {
    pub fn abort(&self) {
        vp::kill(self.0);
    }
    pub fn is_finished(&self) -> bool {
        vp::done(self.0)
    }
}
impl<T> Future for JoinHandle<T> {
    type Output = Result<T, JoinError>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let mut j = self.join.get();
        if let Some(t) = j.out.take() {
            return Poll::Ready(Ok(t));
        }
        if j.done || vp::done(self.id) {
            return Poll::Ready(Err(JoinError));
        }
        j.waker = Some(cx.waker().clone());
        Poll::Pending
    }
}

/// Wakes whoever waits for a task when it is over, however that came about.
struct Ended<T>(Shared<Join<T>>);
impl<T> Drop for Ended<T> {
    fn drop(&mut self) {
        let w = {
            let mut j = self.0.get();
            j.done = true;
            j.waker.take()
        };
        if let Some(w) = w {
            w.wake();
        }
    }
}

/// Spawn on the harness executor.
pub fn spawn<F>(fut: F) -> JoinHandle<F::Output>
where
    F: Future + Send + 'static,
    F::Output: Send + 'static,
{
    let join = Shared::new(Join {
        out: None,
        done: false,
        waker: None,
    });
    let j2 = join.clone();
    let ended = Ended(j2);
    let id = vp::task(async move {
        let ended = ended;
        let out = fut.await;
        ended.0.get().out = Some(out);
    });
    JoinHandle { join, id }
}

pub async fn yield_now() {
    let mut yielded = false;
    std::future::poll_fn(move |cx| {
        if yielded {
            return Poll::Ready(());
        }
        yielded = true;
        cx.waker().wake_by_ref();
        Poll::Pending
    })
    .await
}

/// Tasks that are joined, or aborted, together.
pub struct JoinSet<T> {
    tasks: Vec<JoinHandle<T>>,
}
impl<T> std::fmt::Debug for JoinSet<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("JoinSet")
    }
}
impl<T> Default for JoinSet<T> {
    fn default() -> Self {
        Self::new()
    }
}
impl<T> JoinSet<T> {
    pub fn new() -> Self {
        JoinSet { tasks: Vec::new() }
    }
    pub fn len(&self) -> usize {
        self.tasks.len()
    }
    pub fn is_empty(&self) -> bool {
        self.tasks.is_empty()
    }
    pub fn detach_all(&mut self) {
        self.tasks.clear();
    }
}
impl<T: Send + 'static> JoinSet<T> {
    pub fn spawn<F>(&mut self, f: F) -> AbortHandle
    where
        F: Future<Output = T> + Send + 'static,
    {
        let h = spawn(f);
        let a = h.abort_handle();
        self.tasks.push(h);
        a
    }
    pub fn spawn_on<F>(&mut self, f: F, _: &crate::runtime::Handle) -> AbortHandle
    where
        F: Future<Output = T> + Send + 'static,
    {
        self.spawn(f)
    }
    pub fn abort_all(&mut self) {
        for t in &self.tasks {
            t.abort();
        }
    }
    pub fn poll_join_next(&mut self, cx: &mut Context<'_>) -> Poll<Option<Result<T, JoinError>>> {
        if self.tasks.is_empty() {
            return Poll::Ready(None);
        }
        for i in 0..self.tasks.len() {
            if let Poll::Ready(r) = Pin::new(&mut self.tasks[i]).poll(cx) {
                drop(self.tasks.swap_remove(i));
                return Poll::Ready(Some(r));
            }
        }
        Poll::Pending
    }
    pub async fn join_next(&mut self) -> Option<Result<T, JoinError>> {
        std::future::poll_fn(|cx| self.poll_join_next(cx)).await
    }
    pub fn try_join_next(&mut self) -> Option<Result<T, JoinError>> {
        let w = std::task::Waker::noop();
        match self.poll_join_next(&mut Context::from_waker(w)) {
            Poll::Ready(r) => r,
            Poll::Pending => None,
        }
    }
    pub async fn shutdown(&mut self) {
        self.abort_all();
        while self.join_next().await.is_some() {}
    }
}
impl<T> Drop for JoinSet<T> {
    fn drop(&mut self) {
        for t in &self.tasks {
            t.abort();
        }
    }
}
