//! Symbolic build: one exported entry per harness.
macro_rules! entries {
    ($($(#[$m:meta])* fn $n:ident() $b:block)*) => {
        $( $(#[$m])* #[cfg_attr(feature = "sym", no_mangle)] pub extern "C" fn $n() $b )*
        #[allow(dead_code)]
        pub static ENTRIES: &[(&str, extern "C" fn())] = &[$((stringify!($n), $n as extern "C" fn())),*];
    };
}

#[path = "sx.rs"]
pub mod sx;
#[path = "peer.rs"]
pub mod peer;
#[path = "props.rs"]
pub mod props;
#[path = "p_read.rs"]
pub mod p_read;
#[path = "p_auth.rs"]
pub mod p_auth;
#[path = "p_nego.rs"]
pub mod p_nego;
#[path = "p_wire.rs"]
pub mod p_wire;
#[path = "p_cfg.rs"]
pub mod p_cfg;
#[path = "p_more.rs"]
pub mod p_more;
#[path = "p_err.rs"]
pub mod p_err;
