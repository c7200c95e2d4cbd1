//! Harnesses for solver-based checking of /repo.
//!
//! Compiled by Kani, the harness functions are decided symbolically. Compiled natively, the same functions replay a
//! counterexample: `kani::any` then hands out the concrete values of the solver's model (see `shim.rs`).
#![cfg_attr(kani, feature(core_io_internals, core_io))]
#![recursion_limit = "512"]
#![allow(dead_code, unused_imports, unused_variables, static_mut_refs, unused_macros, deprecated)]

#[cfg(not(kani))]
#[path = "shim.rs"]
pub mod kani;

/// A reachability witness: under Kani it must be satisfiable, natively it tells that it was reached.
#[macro_export]
macro_rules! witness {
    ($c:expr, $name:literal) => {{
        // without them when the trace of a failing check is wanted
        #[cfg(kani)]
        if option_env!("VP_NO_WITNESSES").is_none() {
            kani::cover!($c, $name);
        }
        #[cfg(not(kani))]
        if $c {
            $crate::kani::witnessed($name);
        }
    }};
}

/// Defines harnesses, and lists them for the native replay.
#[macro_export]
macro_rules! harnesses {
    ($($(#[kani::$($m:tt)*])* fn $name:ident() $body:block)*) => {
        $(
            #[cfg_attr(kani, kani::proof)]
            $(#[cfg_attr(kani, kani::$($m)*)])*
            pub fn $name() $body
        )*
        #[cfg(not(kani))]
        pub const LIST: &[(&str, fn())] = &[$((concat!(module_path!(), "::", stringify!($name)), $name as fn())),*];
    };
}

pub mod dev;

pub mod endian;
pub mod prims;
pub mod memfile;
pub mod nullfile;
pub mod size;
pub mod sigs;
pub mod dates;
pub mod curves;
pub mod file;
pub mod long;

// What needs the hooks of /repo
#[cfg(verif_hooks)]
pub mod codec;
#[cfg(verif_hooks)]
pub mod profile;
#[cfg(verif_hooks)]
pub mod tags;
#[cfg(verif_hooks)]
pub mod ctx;
#[cfg(verif_hooks)]
pub mod open;
