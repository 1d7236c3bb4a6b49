//! Harnesses: each `vp_*` function is one bounded world around protosocket's real code, with every
//! environment decision symbolic. See /verif/DESIGN.md.
#![allow(clippy::type_complexity)]

/// Declares the harness entry points: an exported symbol for the engine and a row for the replayer.
macro_rules! entries {
    ($($f:ident),* $(,)?) => {
        $(
            #[allow(non_snake_case)]
            pub mod $f {
                #[no_mangle]
                pub extern "C" fn $f() { super::harness::$f() }
            }
        )*
        pub const TABLE: &[(&str, fn())] = &[ $( (stringify!($f), harness::$f as fn()) ),* ];
    };
}

pub mod accept;
pub mod client;
pub mod codec;
pub mod conn;
pub mod cross;
pub mod e2e;
pub mod fair;
pub mod leak;
pub mod race;
pub mod rpc;
pub mod server;
pub mod wired;

pub fn table() -> Vec<(&'static str, fn())> {
    let mut t = Vec::new();
    t.extend_from_slice(conn::TABLE);
    t.extend_from_slice(cross::TABLE);
    t.extend_from_slice(codec::TABLE);
    t.extend_from_slice(client::TABLE);
    t.extend_from_slice(server::TABLE);
    t.extend_from_slice(accept::TABLE);
    t.extend_from_slice(leak::TABLE);
    t.extend_from_slice(e2e::TABLE);
    t.extend_from_slice(wired::TABLE);
    t.extend_from_slice(fair::TABLE);
    t.extend_from_slice(race::TABLE);
    t
}
