//! A simulated node: the library under test behind a small C interface.
//!
//! The simulator loads one shared object per build configuration. Everything
//! that can fail or be scheduled crosses this boundary: text sinks, hashers,
//! number sources, scratch buffers, registers in caller memory and the global
//! allocator. No oracle lives here.

/// Run `$e` with `$T` (and `$U`/`$S`, its unsigned and signed counterparts)
/// bound to the type with number `$ty`.
#[macro_export]
macro_rules! with_type {
    ($ty:expr, $T:ident, $m:ident => $e:expr, $none:expr) => {
        match $ty {
            0 => {
                #[allow(dead_code)]
                type $T = ::i256::U256;
                #[allow(unused_imports)]
                use $crate::ops::u256 as $m;
                $e
            },
            1 => {
                #[allow(dead_code)]
                type $T = ::i256::I256;
                #[allow(unused_imports)]
                use $crate::ops::i256 as $m;
                $e
            },
            2 => {
                #[allow(dead_code)]
                type $T = ::i256::U384;
                #[allow(unused_imports)]
                use $crate::ops::u384 as $m;
                $e
            },
            3 => {
                #[allow(dead_code)]
                type $T = ::i256::I384;
                #[allow(unused_imports)]
                use $crate::ops::i384 as $m;
                $e
            },
            4 => {
                #[allow(dead_code)]
                type $T = ::i256::U512;
                #[allow(unused_imports)]
                use $crate::ops::u512 as $m;
                $e
            },
            5 => {
                #[allow(dead_code)]
                type $T = ::i256::I512;
                #[allow(unused_imports)]
                use $crate::ops::i512 as $m;
                $e
            },
            6 => {
                #[allow(dead_code)]
                type $T = ::i256::U1024;
                #[allow(unused_imports)]
                use $crate::ops::u1024 as $m;
                $e
            },
            7 => {
                #[allow(dead_code)]
                type $T = ::i256::I1024;
                #[allow(unused_imports)]
                use $crate::ops::i1024 as $m;
                $e
            },
            _ => $none,
        }
    };
}

mod abi;
mod faces;
mod inplace;
mod keyed;
mod ops;

pub use abi::*;
pub use faces::*;
pub use inplace::*;
pub use keyed::*;
