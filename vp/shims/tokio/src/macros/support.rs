pub use crate::maybe_done::maybe_done;
pub use std::future::{poll_fn, Future, IntoFuture};
pub use std::pin::Pin;
pub use std::task::Poll;
/// Which branch is looked at first: the first one.
pub fn thread_rng_n(_: u32) -> u32 {
    0
}
