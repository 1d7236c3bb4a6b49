//! `log` with every macro an empty body (the arguments are type-checked, never evaluated):
//! formatting is not the subject of any property.

#[macro_export]
macro_rules! vp_log_nothing {
    (target: $t:expr, $($arg:tt)+) => { { let _ = || { let _ = &$t; let _ = ::core::format_args!($($arg)+); }; } };
    ($($arg:tt)+) => { { let _ = || { let _ = ::core::format_args!($($arg)+); }; } };
}
#[macro_export]
macro_rules! trace { ($($arg:tt)+) => { $crate::vp_log_nothing!($($arg)+) }; }
#[macro_export]
macro_rules! debug { ($($arg:tt)+) => { $crate::vp_log_nothing!($($arg)+) }; }
#[macro_export]
macro_rules! info { ($($arg:tt)+) => { $crate::vp_log_nothing!($($arg)+) }; }
#[macro_export]
macro_rules! warn { ($($arg:tt)+) => { $crate::vp_log_nothing!($($arg)+) }; }
#[macro_export]
macro_rules! error { ($($arg:tt)+) => { $crate::vp_log_nothing!($($arg)+) }; }
#[macro_export]
macro_rules! log { ($lvl:expr, $($arg:tt)+) => { { let _ = &$lvl; $crate::vp_log_nothing!($($arg)+) } }; }
#[macro_export]
macro_rules! log_enabled { ($($arg:tt)+) => { false }; }

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Level {
    Error = 1,
    Warn,
    Info,
    Debug,
    Trace,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum LevelFilter {
    Off,
    Error,
    Warn,
    Info,
    Debug,
    Trace,
}
pub fn max_level() -> LevelFilter {
    LevelFilter::Off
}
