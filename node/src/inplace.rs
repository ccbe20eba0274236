//! In-place operations on registers in caller memory.

use crate::abi::{guard, slice, UNKNOWN};

pub struct InPlace<T> {
    pub name: &'static str,
    pub f: fn(&mut T, &T, u128),
}

macro_rules! table {
    ($T:ty; $x:ident, $y:ident, $n:ident; $($name:literal => $e:expr;)*) => {
        &[$(InPlace::<$T> {
            name: $name,
            f: |$x, $y, $n| {
                let _ = (&$x, &$y, &$n);
                $e
            },
        },)*]
    };
}

macro_rules! registers {
    ($m:ident, $T:ty, $O:ty, $to_other:ident) => {
        pub mod $m {
            use super::InPlace;
            pub static TABLE: &[InPlace<$T>] = table! { $T; x, y, n;
                "add_assign|o" => *x += *y;
                "sub_assign|o" => *x -= *y;
                "mul_assign|o" => *x *= *y;
                "div_assign|d" => *x /= *y;
                "rem_assign|d" => *x %= *y;
                "bitand_assign" => *x &= *y;
                "bitor_assign" => *x |= *y;
                "bitxor_assign" => *x ^= *y;
                "add_assign_ref|o" => *x += y;
                "sub_assign_ref|o" => *x -= y;
                "mul_assign_ref|o" => *x *= y;
                "div_assign_ref|d" => *x /= y;
                "rem_assign_ref|d" => *x %= y;
                "bitand_assign_ref" => *x &= y;
                "bitor_assign_ref" => *x |= y;
                "bitxor_assign_ref" => *x ^= y;
                "mul_add_assign|no" => num_traits::MulAddAssign::mul_add_assign(x, *y, <$T>::from_u128(n));
                "shl_assign_u8|s" => *x <<= n as u8;
                "shl_assign_u16|s" => *x <<= n as u16;
                "shl_assign_u32|s" => *x <<= n as u32;
                "shl_assign_u64|s" => *x <<= n as u64;
                "shl_assign_u128|s" => *x <<= n;
                "shl_assign_usize|s" => *x <<= n as usize;
                "shl_assign_i8|s" => *x <<= n as i8;
                "shl_assign_i16|s" => *x <<= n as i16;
                "shl_assign_i32|s" => *x <<= n as i32;
                "shl_assign_i64|s" => *x <<= n as i64;
                "shl_assign_i128|s" => *x <<= n as i128;
                "shl_assign_isize|s" => *x <<= n as isize;
                "shr_assign_u8|s" => *x >>= n as u8;
                "shr_assign_u16|s" => *x >>= n as u16;
                "shr_assign_u32|s" => *x >>= n as u32;
                "shr_assign_u64|s" => *x >>= n as u64;
                "shr_assign_u128|s" => *x >>= n;
                "shr_assign_usize|s" => *x >>= n as usize;
                "shr_assign_i8|s" => *x >>= n as i8;
                "shr_assign_i16|s" => *x >>= n as i16;
                "shr_assign_i32|s" => *x >>= n as i32;
                "shr_assign_i64|s" => *x >>= n as i64;
                "shr_assign_i128|s" => *x >>= n as i128;
                "shr_assign_isize|s" => *x >>= n as isize;
                "shl_assign_ref_u8|s" => *x <<= &(n as u8);
                "shr_assign_ref_u8|s" => *x >>= &(n as u8);
                "shl_assign_ref_u16|s" => *x <<= &(n as u16);
                "shr_assign_ref_u16|s" => *x >>= &(n as u16);
                "shl_assign_ref_u32|s" => *x <<= &(n as u32);
                "shr_assign_ref_u32|s" => *x >>= &(n as u32);
                "shl_assign_ref_u64|s" => *x <<= &(n as u64);
                "shr_assign_ref_u64|s" => *x >>= &(n as u64);
                "shl_assign_ref_u128|s" => *x <<= &n;
                "shr_assign_ref_u128|s" => *x >>= &n;
                "shl_assign_ref_usize|s" => *x <<= &(n as usize);
                "shr_assign_ref_usize|s" => *x >>= &(n as usize);
                "shl_assign_ref_i8|s" => *x <<= &(n as i8);
                "shr_assign_ref_i8|s" => *x >>= &(n as i8);
                "shl_assign_ref_i16|s" => *x <<= &(n as i16);
                "shr_assign_ref_i16|s" => *x >>= &(n as i16);
                "shl_assign_ref_i32|s" => *x <<= &(n as i32);
                "shr_assign_ref_i32|s" => *x >>= &(n as i32);
                "shl_assign_ref_i64|s" => *x <<= &(n as i64);
                "shr_assign_ref_i64|s" => *x >>= &(n as i64);
                "shl_assign_ref_i128|s" => *x <<= &(n as i128);
                "shr_assign_ref_i128|s" => *x >>= &(n as i128);
                "shl_assign_ref_isize|s" => *x <<= &(n as isize);
                "shr_assign_ref_isize|s" => *x >>= &(n as isize);
                "shl_assign_other|y" => *x <<= y.$to_other();
                "shl_assign_ref_other|y" => *x <<= &y.$to_other();
                "shr_assign_ref_other|y" => *x >>= &y.$to_other();
                "shr_assign_other|y" => *x >>= y.$to_other();
            };
        }
    };
}

registers!(u256, ::i256::U256, ::i256::I256, cast_signed);
registers!(i256, ::i256::I256, ::i256::U256, cast_unsigned);
registers!(u384, ::i256::U384, ::i256::I384, cast_signed);
registers!(i384, ::i256::I384, ::i256::U384, cast_unsigned);
registers!(u512, ::i256::U512, ::i256::I512, cast_signed);
registers!(i512, ::i256::I512, ::i256::U512, cast_unsigned);
registers!(u1024, ::i256::U1024, ::i256::I1024, cast_signed);
registers!(i1024, ::i256::I1024, ::i256::U1024, cast_unsigned);

macro_rules! with_table {
    ($ty:expr, $m:ident => $e:expr, $none:expr) => {
        match $ty {
            0 => { use self::u256 as $m; $e },
            1 => { use self::i256 as $m; $e },
            2 => { use self::u384 as $m; $e },
            3 => { use self::i384 as $m; $e },
            4 => { use self::u512 as $m; $e },
            5 => { use self::i512 as $m; $e },
            6 => { use self::u1024 as $m; $e },
            7 => { use self::i1024 as $m; $e },
            _ => $none,
        }
    };
}

#[no_mangle]
pub extern "C" fn node_inplace_count(ty: u32) -> u32 {
    with_table!(ty, m => m::TABLE.len() as u32, 0)
}

#[no_mangle]
pub extern "C" fn node_inplace_name(ty: u32, op: u32, len: *mut u32) -> *const u8 {
    let s = with_table!(ty, m => m::TABLE[op as usize].name, "");
    unsafe { *len = s.len() as u32 };
    s.as_ptr()
}

/// Apply an in-place operation. `src` may be the register itself, in which
/// case the operand is a copy of it.
/// # Safety
/// `reg` and `src` point at values of the type, suitably aligned.
#[no_mangle]
pub unsafe extern "C" fn node_inplace(ty: u32, op: u32, reg: *mut u8, src: *const u8, n: *const u8) -> u32 {
    let n = u128::from_le_bytes(slice(n, 16).try_into().unwrap());
    macro_rules! go {
        ($T:ty, $m:ident) => {{
            let f = $m::TABLE[op as usize].f;
            let x = &mut *(reg as *mut $T);
            if reg as *const u8 == src {
                let y = *x;
                guard(|| f(x, &y, n))
            } else {
                let y = &*(src as *const $T);
                guard(|| f(x, y, n))
            }
        }};
    }
    match ty {
        0 => go!(::i256::U256, u256),
        1 => go!(::i256::I256, i256),
        2 => go!(::i256::U384, u384),
        3 => go!(::i256::I384, i384),
        4 => go!(::i256::U512, u512),
        5 => go!(::i256::I512, i512),
        6 => go!(::i256::U1024, u1024),
        7 => go!(::i256::I1024, i1024),
        _ => UNKNOWN,
    }
}

#[no_mangle]
pub extern "C" fn node_reg_size(ty: u32) -> u32 {
    with_type!(ty, T, m => std::mem::size_of::<T>() as u32, 0)
}

/// # Safety
/// `reg` points at room for the type, `bytes` at its width in bytes.
#[no_mangle]
pub unsafe extern "C" fn node_reg_set(ty: u32, reg: *mut u8, bytes: *const u8) {
    with_type!(ty, T, m => {
        const BYTES: usize = (T::BITS / 8) as usize;
        std::ptr::write(reg as *mut T, T::from_le_bytes(slice(bytes, BYTES).try_into().unwrap()))
    }, ())
}

/// # Safety
/// As `node_reg_set`.
#[no_mangle]
pub unsafe extern "C" fn node_reg_get(ty: u32, reg: *const u8, bytes: *mut u8) {
    with_type!(ty, T, m => {
        const BYTES: usize = (T::BITS / 8) as usize;
        let x = (*(reg as *const T)).to_le_bytes();
        std::slice::from_raw_parts_mut(bytes, BYTES).copy_from_slice(&x)
    }, ())
}
