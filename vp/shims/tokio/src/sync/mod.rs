pub mod mpsc;
pub mod oneshot;
pub mod watch;
mod wait;
pub use wait::*;
