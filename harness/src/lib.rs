//! Harnesses: properties of rust-websocket as assertions over symbolic inputs.
#![allow(dead_code, unused_imports)]
pub mod sym;
pub mod util;
pub mod http;
#[cfg(feature = "native")]
pub mod native;

/// Each harness is an exported function in the symbolic build and a plain one in the native build.
#[macro_export]
macro_rules! harnesses {
    ($( fn $n:ident() $b:block )*) => {
        $( #[cfg_attr(not(feature = "native"), no_mangle)] pub extern "Rust" fn $n() $b )*
        pub const LIST: &[(&str, fn())] = &[ $( (stringify!($n), $n as fn()) ),* ];
    };
}
macro_rules! modules {
    ($($f:literal $m:ident),* $(,)?) => {
        $( #[cfg(feature = $f)] pub mod $m; )*
        pub fn all() -> Vec<(&'static str, fn())> { #[allow(unused_mut)] let mut v: Vec<(&'static str, fn())> = vec![]; $( #[cfg(feature = $f)] v.extend_from_slice($m::LIST); )* v }
    };
}
modules! { "m_frame" frame, "m_msg" msg, "m_conn" conn, "m_hdr" hdr, "m_srv" srv, "m_cli" cli, "m_both" both, "m_net" net, "m_info" info, "m_own" own, "m_ops" ops }
