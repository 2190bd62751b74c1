//! A stand-in for `std`: everything is re-exported from the real standard library except the
//! synchronization and threading primitives, which are scheduled by the model checker when the
//! process runs under it (and behave like the real ones otherwise).
#![allow(clippy::all)]
#![allow(static_mut_refs, dropping_references, unused_parens, unknown_lints, invalid_runtime_symbol_definitions)]
pub use ::std::*;

#[doc(hidden)]
pub mod proto;
#[doc(hidden)]
pub mod rt;
#[doc(hidden)]
pub mod sys;

#[cfg(not(feature = "passthrough"))]
pub mod sync;
#[cfg(not(feature = "passthrough"))]
pub mod thread;

pub mod process {
    pub use ::std::process::*;
    pub fn exit(code: i32) -> ! {
        crate::rt::output();
        ::std::process::exit(code)
    }
}

#[doc(hidden)]
pub mod real {
    pub use ::std::{print, println};
}
/// Output is one object that all threads share: its order is part of the outcome.
#[macro_export]
macro_rules! println {
    ($($a:tt)*) => {{
        $crate::rt::output();
        $crate::real::println!($($a)*)
    }};
}
#[macro_export]
macro_rules! print {
    ($($a:tt)*) => {{
        $crate::rt::output();
        $crate::real::print!($($a)*)
    }};
}
