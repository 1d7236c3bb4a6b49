//! The part of tokio that protosocket uses, as an environment model.
//!
//! protosocket's own code runs unchanged on top of this. What is modelled is tokio's documented
//! contract: readiness, wakers, channels, tasks. What the operating system and the scheduler may
//! decide (how many bytes a read returns, when it would block, which task runs next, ...) is a
//! symbolic choice of the `nd` crate.
mod maybe_done;
#[macro_use]
mod macros_def;
#[doc(hidden)]
pub mod macros {
    pub mod support;
}
#[doc(hidden)]
pub use tokio_macros::{select_priv_clean_pattern, select_priv_declare_output_enum};
pub mod io;
pub mod net;
pub mod runtime;
pub mod sync;
pub mod task;
pub mod time;
pub mod vp;

pub use task::spawn;

#[macro_export]
macro_rules! pin {
    ($($x:ident),* $(,)?) => { $( let mut $x = $x; #[allow(unused_mut)] let mut $x = unsafe { ::std::pin::Pin::new_unchecked(&mut $x) }; )* };
}
