pub use crate::task::JoinHandle;
use std::future::Future;

#[derive(Debug, Clone)]
pub struct Handle(());
impl Handle {
    pub fn current() -> Self {
        Handle(())
    }
    pub fn try_current() -> Result<Self, TryCurrentError> {
        Ok(Handle(()))
    }
    pub fn spawn<F>(&self, future: F) -> JoinHandle<F::Output>
    where
        F: Future + Send + 'static,
        F::Output: Send + 'static,
    {
        crate::task::spawn(future)
    }
    pub fn block_on<F: Future>(&self, future: F) -> F::Output {
        crate::vp::block_on(future).expect("block_on")
    }
}
#[derive(Debug)]
pub struct TryCurrentError;
