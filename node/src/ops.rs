//! By-value operations of the library, as one table per type.
//!
//! The hint after `|` tells the plan generator how operands matter:
//! `d` second operand divides, `m` number operand divides, `s` number operand
//! is a shift amount, `p` an exponent, `g` second operand is a logarithm base,
//! `o` what happens on overflow depends on the build, `n` number operand used,
//! `t` heavier than the rest.

#![allow(deprecated)]

use crate::abi::Out;

pub struct Op<T> {
    pub name: &'static str,
    pub f: fn(T, T, u128, &mut Out),
}

macro_rules! table {
    ($T:ty; $a:ident, $b:ident, $n:ident; $($name:literal => $e:expr;)*) => {
        &[$(Op::<$T> {
            name: $name,
            f: |$a, $b, $n, o| {
                let _ = (&$a, &$b, &$n);
                $crate::abi::Put::put($e, o)
            },
        },)*]
    };
}

/// Operations every type has.
macro_rules! common {
    ($T:ty) => {
        table! { $T; a, b, n;
            // plain operators
            "add|o" => a + b;
            "sub|o" => a - b;
            "mul|o" => a * b;
            "div|d" => a / b;
            "rem|d" => a % b;
            "bitand" => a & b;
            "bitor" => a | b;
            "bitxor" => a ^ b;
            "not" => !a;
            "ref_add|o" => a + &b;
            "ref_sub|o" => a - &b;
            "ref_mul|o" => a * &b;
            "ref_div|d" => a / &b;
            "ref_rem|d" => a % &b;
            "ref_bitand" => a & &b;
            "ref_bitor" => a | &b;
            "ref_bitxor" => a ^ &b;
            "shl_u8|so" => a << (n as u8);
            "ref_shl_u8|so" => a << &(n as u8);
            "shl_u16|so" => a << (n as u16);
            "ref_shl_u16|so" => a << &(n as u16);
            "shl_u32|so" => a << (n as u32);
            "ref_shl_u32|so" => a << &(n as u32);
            "shl_u64|so" => a << (n as u64);
            "ref_shl_u64|so" => a << &(n as u64);
            "shl_u128|so" => a << (n as u128);
            "ref_shl_u128|so" => a << &(n as u128);
            "shl_i8|so" => a << (n as i8);
            "ref_shl_i8|so" => a << &(n as i8);
            "shl_i16|so" => a << (n as i16);
            "ref_shl_i16|so" => a << &(n as i16);
            "shl_i32|so" => a << (n as i32);
            "ref_shl_i32|so" => a << &(n as i32);
            "shl_i64|so" => a << (n as i64);
            "ref_shl_i64|so" => a << &(n as i64);
            "shl_i128|so" => a << (n as i128);
            "ref_shl_i128|so" => a << &(n as i128);
            "shl_usize|so" => a << (n as usize);
            "ref_shl_usize|so" => a << &(n as usize);
            "shl_isize|so" => a << (n as isize);
            "ref_shl_isize|so" => a << &(n as isize);
            "shl_own|yo" => a << b;
            "ref_shl_own|yo" => a << &b;
            "shr_u8|so" => a >> (n as u8);
            "ref_shr_u8|so" => a >> &(n as u8);
            "shr_u16|so" => a >> (n as u16);
            "ref_shr_u16|so" => a >> &(n as u16);
            "shr_u32|so" => a >> (n as u32);
            "ref_shr_u32|so" => a >> &(n as u32);
            "shr_u64|so" => a >> (n as u64);
            "ref_shr_u64|so" => a >> &(n as u64);
            "shr_u128|so" => a >> (n as u128);
            "ref_shr_u128|so" => a >> &(n as u128);
            "shr_i8|so" => a >> (n as i8);
            "ref_shr_i8|so" => a >> &(n as i8);
            "shr_i16|so" => a >> (n as i16);
            "ref_shr_i16|so" => a >> &(n as i16);
            "shr_i32|so" => a >> (n as i32);
            "ref_shr_i32|so" => a >> &(n as i32);
            "shr_i64|so" => a >> (n as i64);
            "ref_shr_i64|so" => a >> &(n as i64);
            "shr_i128|so" => a >> (n as i128);
            "ref_shr_i128|so" => a >> &(n as i128);
            "shr_usize|so" => a >> (n as usize);
            "ref_shr_usize|so" => a >> &(n as usize);
            "shr_isize|so" => a >> (n as isize);
            "ref_shr_isize|so" => a >> &(n as isize);
            "shr_own|yo" => a >> b;
            "ref_shr_own|yo" => a >> &b;
            // wrapping
            "wrapping_add" => a.wrapping_add(b);
            "wrapping_sub" => a.wrapping_sub(b);
            "wrapping_mul" => a.wrapping_mul(b);
            "wrapping_div|d" => a.wrapping_div(b);
            "wrapping_rem|d" => a.wrapping_rem(b);
            "wrapping_div_rem|d" => a.wrapping_div_rem(b);
            "wrapping_div_euclid|d" => a.wrapping_div_euclid(b);
            "wrapping_rem_euclid|d" => a.wrapping_rem_euclid(b);
            "wrapping_neg" => a.wrapping_neg();
            "wrapping_shl|s" => a.wrapping_shl(n as u32);
            "wrapping_shr|s" => a.wrapping_shr(n as u32);
            "wrapping_pow|pt" => a.wrapping_pow(n as u32);
            // overflowing
            "overflowing_add" => a.overflowing_add(b);
            "overflowing_sub" => a.overflowing_sub(b);
            "overflowing_mul" => a.overflowing_mul(b);
            "overflowing_div|d" => a.overflowing_div(b);
            "overflowing_rem|d" => a.overflowing_rem(b);
            "overflowing_div_rem|d" => a.overflowing_div_rem(b);
            "overflowing_div_euclid|d" => a.overflowing_div_euclid(b);
            "overflowing_rem_euclid|d" => a.overflowing_rem_euclid(b);
            "overflowing_pow|pt" => a.overflowing_pow(n as u32);
            // checked
            "checked_add" => a.checked_add(b);
            "checked_sub" => a.checked_sub(b);
            "checked_mul" => a.checked_mul(b);
            "checked_div|d" => a.checked_div(b);
            "checked_rem|d" => a.checked_rem(b);
            "checked_div_rem|d" => a.checked_div_rem(b);
            "checked_div_euclid|d" => a.checked_div_euclid(b);
            "checked_rem_euclid|d" => a.checked_rem_euclid(b);
            "checked_neg" => a.checked_neg();
            "checked_shl|s" => a.checked_shl(n as u32);
            "checked_shr|s" => a.checked_shr(n as u32);
            "checked_pow|pt" => a.checked_pow(n as u32);
            "checked_ilog2" => a.checked_ilog2();
            "checked_ilog|gt" => a.checked_ilog(b);
            "checked_next_multiple_of|d" => a.checked_next_multiple_of(b);
            // saturating
            "saturating_add" => a.saturating_add(b);
            "saturating_sub" => a.saturating_sub(b);
            "saturating_mul" => a.saturating_mul(b);
            "saturating_div|d" => a.saturating_div(b);
            "saturating_pow|pt" => a.saturating_pow(n as u32);
            // strict
            "strict_add" => a.strict_add(b);
            "strict_sub" => a.strict_sub(b);
            "strict_mul" => a.strict_mul(b);
            "strict_div|d" => a.strict_div(b);
            "strict_rem|d" => a.strict_rem(b);
            "strict_div_euclid|d" => a.strict_div_euclid(b);
            "strict_rem_euclid|d" => a.strict_rem_euclid(b);
            "strict_neg" => a.strict_neg();
            "strict_shl|s" => a.strict_shl(n as u32);
            "strict_shr|s" => a.strict_shr(n as u32);
            "strict_pow|pt" => a.strict_pow(n as u32);
            // others
            "div_rem|d" => a.div_rem(b);
            "div_euclid|d" => a.div_euclid(b);
            "rem_euclid|d" => a.rem_euclid(b);
            "div_floor|d" => a.div_floor(b);
            "div_ceil|d" => a.div_ceil(b);
            "pow|pto" => a.pow(n as u32);
            "ilog2" => a.ilog2();
            "ilog|gt" => a.ilog(b);
            "midpoint" => a.midpoint(b);
            "abs_diff" => a.abs_diff(b);
            "unbounded_shl|s" => a.unbounded_shl(n as u32);
            "unbounded_shr|s" => a.unbounded_shr(n as u32);
            "rotate_left|s" => a.rotate_left(n as u32);
            "rotate_right|s" => a.rotate_right(n as u32);
            "swap_bytes" => a.swap_bytes();
            "reverse_bits" => a.reverse_bits();
            "count_ones" => a.count_ones();
            "count_zeros" => a.count_zeros();
            "leading_zeros" => a.leading_zeros();
            "leading_ones" => a.leading_ones();
            "trailing_zeros" => a.trailing_zeros();
            "trailing_ones" => a.trailing_ones();
            "is_even" => a.is_even();
            "is_odd" => a.is_odd();
            "cmp" => a.cmp(&b);
            "cmp_const" => a.cmp_const(b);
            "eq" => a == b;
            "eq_const" => a.eq_const(b);
            "eq_branched" => a.eq_branched(b);
            "lt_const" => a.lt_const(b);
            "le_const" => a.le_const(b);
            "gt_const" => a.gt_const(b);
            "ge_const" => a.ge_const(b);
            "ne" => a != b;
            "lt" => a < b;
            "le" => a <= b;
            "gt" => a > b;
            "ge" => a >= b;
            "partial_cmp" => a.partial_cmp(&b);
            "min" => a.min(b);
            "max" => a.max(b);
            "clamp|n" => { let c = <$T>::from_u128(n); a.clamp(b.min(c), b.max(c)) };
            "default" => <$T>::default();
            "bitor_const" => a.bitor_const(b);
            "bitand_const" => a.bitand_const(b);
            "bitxor_const" => a.bitxor_const(b);
            "not_const" => a.not_const();
            // byte order round trips
            "le_bytes" => <$T>::from_le_bytes(a.to_le_bytes());
            "le_u32" => <$T>::from_le_u32(a.to_le_u32());
            "le_u64" => <$T>::from_le_u64(a.to_le_u64());
            "le_limbs" => <$T>::from_le_limbs(a.to_le_limbs());
            "le_wide" => <$T>::from_le_wide(a.to_le_wide());
            "be_bytes" => <$T>::from_be_bytes(a.to_be_bytes());
            "be_u32" => <$T>::from_be_u32(a.to_be_u32());
            "be_u64" => <$T>::from_be_u64(a.to_be_u64());
            "be_limbs" => <$T>::from_be_limbs(a.to_be_limbs());
            "be_wide" => <$T>::from_be_wide(a.to_be_wide());
            "ne_bytes" => <$T>::from_ne_bytes(a.to_ne_bytes());
            "ne_u32" => <$T>::from_ne_u32(a.to_ne_u32());
            "ne_u64" => <$T>::from_ne_u64(a.to_ne_u64());
            "ne_limbs" => <$T>::from_ne_limbs(a.to_ne_limbs());
            "ne_wide" => <$T>::from_ne_wide(a.to_ne_wide());
            "le_u64_view|n" => a.to_le_u64()[n as u32 as usize % (<$T>::BITS as usize / 64)];
            "be_u64_view|n" => a.to_be_u64()[n as u32 as usize % (<$T>::BITS as usize / 64)];
            "le_u32_view|n" => a.to_le_u32()[n as u32 as usize % (<$T>::BITS as usize / 32)];
            "be_u32_view|n" => a.to_be_u32()[n as u32 as usize % (<$T>::BITS as usize / 32)];
            "le_bytes_view|n" => a.to_le_bytes()[n as u32 as usize % (<$T>::BITS as usize / 8)];
            "be_bytes_view|n" => a.to_be_bytes()[n as u32 as usize % (<$T>::BITS as usize / 8)];
            "le_limbs_view|n" => a.to_le_limbs()[n as u32 as usize % ((<$T>::BITS / ::i256::ULimb::BITS) as usize)];
            "be_limbs_view|n" => a.to_be_limbs()[n as u32 as usize % ((<$T>::BITS / ::i256::ULimb::BITS) as usize)];
            "le_wide_view|n" => a.to_le_wide()[n as u32 as usize % ((<$T>::BITS / ::i256::UWide::BITS) as usize)];
            "be_wide_view|n" => a.to_be_wide()[n as u32 as usize % ((<$T>::BITS / ::i256::UWide::BITS) as usize)];
            "get_limb|n" => a.get_limb(n as u32 as usize % ((<$T>::BITS / ::i256::ULimb::BITS) as usize));
            "get_wide|n" => a.get_wide(n as u32 as usize % ((<$T>::BITS / ::i256::UWide::BITS) as usize));
            "least_significant_limb" => a.least_significant_limb();
            "most_significant_limb" => a.most_significant_limb();
            "nt_be_bytes" => <$T as num_traits::FromBytes>::from_be_bytes(&num_traits::ToBytes::to_be_bytes(&a));
            "nt_le_bytes" => <$T as num_traits::FromBytes>::from_le_bytes(&num_traits::ToBytes::to_le_bytes(&a));
            "from_unsigned" => <$T>::from_unsigned(a.as_unsigned());
            "from_signed" => <$T>::from_signed(a.as_signed());
            // under their precondition only
            "unchecked_add" => a.checked_add(b).map(|_| unsafe { a.unchecked_add(b) });
            "unchecked_sub" => a.checked_sub(b).map(|_| unsafe { a.unchecked_sub(b) });
            "unchecked_mul" => a.checked_mul(b).map(|_| unsafe { a.unchecked_mul(b) });
            "unchecked_shl|s" => a.checked_shl(n as u32).map(|_| unsafe { a.unchecked_shl(n as u32) });
            "unchecked_shr|s" => a.checked_shr(n as u32).map(|_| unsafe { a.unchecked_shr(n as u32) });
            "to_be" => a.to_be();
            "from_be" => <$T>::from_be(a);
            "from_le" => <$T>::from_le(a.to_le());
            // casts
            "as_u8" => a.as_u8();
            "as_u16" => a.as_u16();
            "as_u32" => a.as_u32();
            "as_u64" => a.as_u64();
            "as_u128" => a.as_u128();
            "as_i8" => a.as_i8();
            "as_i16" => a.as_i16();
            "as_i32" => a.as_i32();
            "as_i64" => a.as_i64();
            "as_i128" => a.as_i128();
            "as_ulimb" => a.as_ulimb();
            "as_uwide" => a.as_uwide();
            "as_ilimb" => a.as_ilimb();
            "as_iwide" => a.as_iwide();
            "as_unsigned" => a.as_unsigned();
            "as_signed" => a.as_signed();
            "as_prim_u8" => AsPrimitive::<u8>::as_(a);
            "as_prim_u16" => AsPrimitive::<u16>::as_(a);
            "as_prim_u32" => AsPrimitive::<u32>::as_(a);
            "as_prim_u64" => AsPrimitive::<u64>::as_(a);
            "as_prim_u128" => AsPrimitive::<u128>::as_(a);
            "as_prim_i8" => AsPrimitive::<i8>::as_(a);
            "as_prim_i16" => AsPrimitive::<i16>::as_(a);
            "as_prim_i32" => AsPrimitive::<i32>::as_(a);
            "as_prim_i64" => AsPrimitive::<i64>::as_(a);
            "as_prim_i128" => AsPrimitive::<i128>::as_(a);
            "as_prim_usize" => AsPrimitive::<usize>::as_(a);
            "as_prim_isize" => AsPrimitive::<isize>::as_(a);
            "from_u8|n" => <$T>::from_u8(n as u8);
            "from_u16|n" => <$T>::from_u16(n as u16);
            "from_u32|n" => <$T>::from_u32(n as u32);
            "from_u64|n" => <$T>::from_u64(n as u64);
            "from_u128|n" => <$T>::from_u128(n as u128);
            "from_i8|n" => <$T>::from_i8(n as i8);
            "from_i16|n" => <$T>::from_i16(n as i16);
            "from_i32|n" => <$T>::from_i32(n as i32);
            "from_i64|n" => <$T>::from_i64(n as i64);
            "from_i128|n" => <$T>::from_i128(n as i128);
            "from_ulimb|n" => <$T>::from_ulimb(n as ::i256::ULimb);
            "from_uwide|n" => <$T>::from_uwide(n as ::i256::UWide);
            "from_ilimb|n" => <$T>::from_ilimb(n as ::i256::ILimb);
            "from_iwide|n" => <$T>::from_iwide(n as ::i256::IWide);
            "cast_u8|n" => AsPrimitive::<$T>::as_(n as u8);
            "cast_u16|n" => AsPrimitive::<$T>::as_(n as u16);
            "cast_u32|n" => AsPrimitive::<$T>::as_(n as u32);
            "cast_u64|n" => AsPrimitive::<$T>::as_(n as u64);
            "cast_u128|n" => AsPrimitive::<$T>::as_(n as u128);
            "cast_i8|n" => AsPrimitive::<$T>::as_(n as i8);
            "cast_i16|n" => AsPrimitive::<$T>::as_(n as i16);
            "cast_i32|n" => AsPrimitive::<$T>::as_(n as i32);
            "cast_i64|n" => AsPrimitive::<$T>::as_(n as i64);
            "cast_i128|n" => AsPrimitive::<$T>::as_(n as i128);
            "cast_usize|n" => AsPrimitive::<$T>::as_(n as usize);
            "cast_isize|n" => AsPrimitive::<$T>::as_(n as isize);
            "cast_bool|n" => AsPrimitive::<$T>::as_(n & 1 == 1);
            "cast_char|n" => AsPrimitive::<$T>::as_(char::from_u32(n as u32).unwrap_or('?'));
            "into_u8|n" => <$T>::from(n as u8);
            "into_u16|n" => <$T>::from(n as u16);
            "into_u32|n" => <$T>::from(n as u32);
            "into_u64|n" => <$T>::from(n as u64);
            "into_u128|n" => <$T>::from(n as u128);
            "into_bool|n" => <$T>::from(n & 1 == 1);
            "into_char|n" => <$T>::from(char::from_u32(n as u32).unwrap_or('?'));
            "prim_u8|n" => <$T as FromPrimitive>::from_u8(n as u8);
            "prim_u16|n" => <$T as FromPrimitive>::from_u16(n as u16);
            "prim_u32|n" => <$T as FromPrimitive>::from_u32(n as u32);
            "prim_u64|n" => <$T as FromPrimitive>::from_u64(n as u64);
            "prim_u128|n" => <$T as FromPrimitive>::from_u128(n as u128);
            "prim_i8|n" => <$T as FromPrimitive>::from_i8(n as i8);
            "prim_i16|n" => <$T as FromPrimitive>::from_i16(n as i16);
            "prim_i32|n" => <$T as FromPrimitive>::from_i32(n as i32);
            "prim_i64|n" => <$T as FromPrimitive>::from_i64(n as i64);
            "prim_i128|n" => <$T as FromPrimitive>::from_i128(n as i128);
            "prim_usize|n" => <$T as FromPrimitive>::from_usize(n as usize);
            "prim_isize|n" => <$T as FromPrimitive>::from_isize(n as isize);
            "to_u8" => ToPrimitive::to_u8(&a);
            "to_u16" => ToPrimitive::to_u16(&a);
            "to_u32" => ToPrimitive::to_u32(&a);
            "to_u64" => ToPrimitive::to_u64(&a);
            "to_u128" => ToPrimitive::to_u128(&a);
            "to_i8" => ToPrimitive::to_i8(&a);
            "to_i16" => ToPrimitive::to_i16(&a);
            "to_i32" => ToPrimitive::to_i32(&a);
            "to_i64" => ToPrimitive::to_i64(&a);
            "to_i128" => ToPrimitive::to_i128(&a);
            "to_usize" => ToPrimitive::to_usize(&a);
            "to_isize" => ToPrimitive::to_isize(&a);
            "nt_pow|pto" => num_traits::Pow::pow(a, n as u32);
            "nt_ref_pow|pto" => num_traits::Pow::pow(a, &(n as u32));
            "nt_mul_add|no" => num_traits::MulAdd::mul_add(a, b, <$T>::from_u128(n));
            "nt_div_euclid|d" => num_traits::Euclid::div_euclid(&a, &b);
            "nt_rem_euclid|d" => num_traits::Euclid::rem_euclid(&a, &b);
            "nt_checked_div_euclid|d" => num_traits::CheckedEuclid::checked_div_euclid(&a, &b);
            "nt_checked_rem_euclid|d" => num_traits::CheckedEuclid::checked_rem_euclid(&a, &b);
            "nt_checked_add" => num_traits::CheckedAdd::checked_add(&a, &b);
            "nt_checked_sub" => num_traits::CheckedSub::checked_sub(&a, &b);
            "nt_checked_mul" => num_traits::CheckedMul::checked_mul(&a, &b);
            "nt_checked_div|d" => num_traits::CheckedDiv::checked_div(&a, &b);
            "nt_checked_rem|d" => num_traits::CheckedRem::checked_rem(&a, &b);
            "nt_checked_neg" => num_traits::CheckedNeg::checked_neg(&a);
            "nt_checked_shl|s" => num_traits::CheckedShl::checked_shl(&a, n as u32);
            "nt_checked_shr|s" => num_traits::CheckedShr::checked_shr(&a, n as u32);
            "nt_saturating_add" => num_traits::SaturatingAdd::saturating_add(&a, &b);
            "nt_saturating_sub" => num_traits::SaturatingSub::saturating_sub(&a, &b);
            "nt_saturating_mul" => num_traits::SaturatingMul::saturating_mul(&a, &b);
            "nt_old_saturating_add" => num_traits::Saturating::saturating_add(a, b);
            "nt_old_saturating_sub" => num_traits::Saturating::saturating_sub(a, b);
            "nt_wrapping_add" => num_traits::WrappingAdd::wrapping_add(&a, &b);
            "nt_wrapping_sub" => num_traits::WrappingSub::wrapping_sub(&a, &b);
            "nt_wrapping_mul" => num_traits::WrappingMul::wrapping_mul(&a, &b);
            "nt_wrapping_neg" => num_traits::WrappingNeg::wrapping_neg(&a);
            "nt_wrapping_shl|s" => num_traits::WrappingShl::wrapping_shl(&a, n as u32);
            "nt_wrapping_shr|s" => num_traits::WrappingShr::wrapping_shr(&a, n as u32);
            "nt_signed_shl|so" => num_traits::PrimInt::signed_shl(a, n as u32);
            "nt_signed_shr|so" => num_traits::PrimInt::signed_shr(a, n as u32);
            "nt_unsigned_shl|so" => num_traits::PrimInt::unsigned_shl(a, n as u32);
            "nt_unsigned_shr|so" => num_traits::PrimInt::unsigned_shr(a, n as u32);
            "nt_prim_pow|pto" => num_traits::PrimInt::pow(a, n as u32);
            "nt_rotate_left|s" => num_traits::PrimInt::rotate_left(a, n as u32);
            "nt_rotate_right|s" => num_traits::PrimInt::rotate_right(a, n as u32);
            "nt_swap_bytes" => num_traits::PrimInt::swap_bytes(a);
            "nt_reverse_bits" => num_traits::PrimInt::reverse_bits(a);
            "nt_count_ones" => num_traits::PrimInt::count_ones(a);
            "nt_count_zeros" => num_traits::PrimInt::count_zeros(a);
            "nt_leading_ones" => num_traits::PrimInt::leading_ones(a);
            "nt_leading_zeros" => num_traits::PrimInt::leading_zeros(a);
            "nt_trailing_ones" => num_traits::PrimInt::trailing_ones(a);
            "nt_trailing_zeros" => num_traits::PrimInt::trailing_zeros(a);
            "nt_to_be" => num_traits::PrimInt::to_be(a);
            "nt_from_be" => <$T as num_traits::PrimInt>::from_be(a);
            "nt_from_le" => <$T as num_traits::PrimInt>::from_le(num_traits::PrimInt::to_le(a));
            "nt_is_zero" => num_traits::Zero::is_zero(&a);
            "nt_is_one" => num_traits::One::is_one(&a);
            "nt_zero" => <$T as num_traits::Zero>::zero();
            "nt_one" => <$T as num_traits::One>::one();
            "nt_min_value" => <$T as num_traits::Bounded>::min_value();
            "nt_max_value" => <$T as num_traits::Bounded>::max_value();
            "try_from_i8|n" => <$T>::try_from(n as i8);
            "try_from_i16|n" => <$T>::try_from(n as i16);
            "try_from_i32|n" => <$T>::try_from(n as i32);
            "try_from_i64|n" => <$T>::try_from(n as i64);
            "try_from_i128|n" => <$T>::try_from(n as i128);
            // unsigned narrow operands
            "add_u32|no" => a.add_u32(n as u32);
            "wrapping_add_u32|n" => a.wrapping_add_u32(n as u32);
            "overflowing_add_u32|n" => a.overflowing_add_u32(n as u32);
            "checked_add_u32|n" => a.checked_add_u32(n as u32);
            "sub_u32|no" => a.sub_u32(n as u32);
            "wrapping_sub_u32|n" => a.wrapping_sub_u32(n as u32);
            "overflowing_sub_u32|n" => a.overflowing_sub_u32(n as u32);
            "checked_sub_u32|n" => a.checked_sub_u32(n as u32);
            "mul_u32|no" => a.mul_u32(n as u32);
            "wrapping_mul_u32|n" => a.wrapping_mul_u32(n as u32);
            "overflowing_mul_u32|n" => a.overflowing_mul_u32(n as u32);
            "checked_mul_u32|n" => a.checked_mul_u32(n as u32);
            "div_u32|mo" => a.div_u32(n as u32);
            "wrapping_div_u32|m" => a.wrapping_div_u32(n as u32);
            "overflowing_div_u32|m" => a.overflowing_div_u32(n as u32);
            "checked_div_u32|m" => a.checked_div_u32(n as u32);
            "rem_u32|mo" => a.rem_u32(n as u32);
            "wrapping_rem_u32|m" => a.wrapping_rem_u32(n as u32);
            "overflowing_rem_u32|m" => a.overflowing_rem_u32(n as u32);
            "checked_rem_u32|m" => a.checked_rem_u32(n as u32);
            "div_rem_u32|mo" => a.div_rem_u32(n as u32);
            "wrapping_div_rem_u32|m" => a.wrapping_div_rem_u32(n as u32);
            "overflowing_div_rem_u32|m" => a.overflowing_div_rem_u32(n as u32);
            "checked_div_rem_u32|m" => a.checked_div_rem_u32(n as u32);
            "add_u64|no" => a.add_u64(n as u64);
            "wrapping_add_u64|n" => a.wrapping_add_u64(n as u64);
            "overflowing_add_u64|n" => a.overflowing_add_u64(n as u64);
            "checked_add_u64|n" => a.checked_add_u64(n as u64);
            "sub_u64|no" => a.sub_u64(n as u64);
            "wrapping_sub_u64|n" => a.wrapping_sub_u64(n as u64);
            "overflowing_sub_u64|n" => a.overflowing_sub_u64(n as u64);
            "checked_sub_u64|n" => a.checked_sub_u64(n as u64);
            "mul_u64|no" => a.mul_u64(n as u64);
            "wrapping_mul_u64|n" => a.wrapping_mul_u64(n as u64);
            "overflowing_mul_u64|n" => a.overflowing_mul_u64(n as u64);
            "checked_mul_u64|n" => a.checked_mul_u64(n as u64);
            "div_u64|mo" => a.div_u64(n as u64);
            "wrapping_div_u64|m" => a.wrapping_div_u64(n as u64);
            "overflowing_div_u64|m" => a.overflowing_div_u64(n as u64);
            "checked_div_u64|m" => a.checked_div_u64(n as u64);
            "rem_u64|mo" => a.rem_u64(n as u64);
            "wrapping_rem_u64|m" => a.wrapping_rem_u64(n as u64);
            "overflowing_rem_u64|m" => a.overflowing_rem_u64(n as u64);
            "checked_rem_u64|m" => a.checked_rem_u64(n as u64);
            "div_rem_u64|mo" => a.div_rem_u64(n as u64);
            "wrapping_div_rem_u64|m" => a.wrapping_div_rem_u64(n as u64);
            "overflowing_div_rem_u64|m" => a.overflowing_div_rem_u64(n as u64);
            "checked_div_rem_u64|m" => a.checked_div_rem_u64(n as u64);
            "add_u128|no" => a.add_u128(n);
            "wrapping_add_u128|n" => a.wrapping_add_u128(n);
            "overflowing_add_u128|n" => a.overflowing_add_u128(n);
            "checked_add_u128|n" => a.checked_add_u128(n);
            "sub_u128|no" => a.sub_u128(n);
            "wrapping_sub_u128|n" => a.wrapping_sub_u128(n);
            "overflowing_sub_u128|n" => a.overflowing_sub_u128(n);
            "checked_sub_u128|n" => a.checked_sub_u128(n);
            "mul_u128|no" => a.mul_u128(n);
            "wrapping_mul_u128|n" => a.wrapping_mul_u128(n);
            "overflowing_mul_u128|n" => a.overflowing_mul_u128(n);
            "checked_mul_u128|n" => a.checked_mul_u128(n);
            "div_u128|mo" => a.div_u128(n);
            "wrapping_div_u128|m" => a.wrapping_div_u128(n);
            "overflowing_div_u128|m" => a.overflowing_div_u128(n);
            "checked_div_u128|m" => a.checked_div_u128(n);
            "rem_u128|mo" => a.rem_u128(n);
            "wrapping_rem_u128|m" => a.wrapping_rem_u128(n);
            "overflowing_rem_u128|m" => a.overflowing_rem_u128(n);
            "checked_rem_u128|m" => a.checked_rem_u128(n);
            "div_rem_u128|mo" => a.div_rem_u128(n);
            "wrapping_div_rem_u128|m" => a.wrapping_div_rem_u128(n);
            "overflowing_div_rem_u128|m" => a.overflowing_div_rem_u128(n);
            "checked_div_rem_u128|m" => a.checked_div_rem_u128(n);
            "add_ulimb|no" => a.add_ulimb(n as ::i256::ULimb);
            "wrapping_add_ulimb|n" => a.wrapping_add_ulimb(n as ::i256::ULimb);
            "overflowing_add_ulimb|n" => a.overflowing_add_ulimb(n as ::i256::ULimb);
            "checked_add_ulimb|n" => a.checked_add_ulimb(n as ::i256::ULimb);
            "sub_ulimb|no" => a.sub_ulimb(n as ::i256::ULimb);
            "wrapping_sub_ulimb|n" => a.wrapping_sub_ulimb(n as ::i256::ULimb);
            "overflowing_sub_ulimb|n" => a.overflowing_sub_ulimb(n as ::i256::ULimb);
            "checked_sub_ulimb|n" => a.checked_sub_ulimb(n as ::i256::ULimb);
            "mul_ulimb|no" => a.mul_ulimb(n as ::i256::ULimb);
            "wrapping_mul_ulimb|n" => a.wrapping_mul_ulimb(n as ::i256::ULimb);
            "overflowing_mul_ulimb|n" => a.overflowing_mul_ulimb(n as ::i256::ULimb);
            "checked_mul_ulimb|n" => a.checked_mul_ulimb(n as ::i256::ULimb);
            "div_ulimb|mo" => a.div_ulimb(n as ::i256::ULimb);
            "wrapping_div_ulimb|m" => a.wrapping_div_ulimb(n as ::i256::ULimb);
            "overflowing_div_ulimb|m" => a.overflowing_div_ulimb(n as ::i256::ULimb);
            "checked_div_ulimb|m" => a.checked_div_ulimb(n as ::i256::ULimb);
            "rem_ulimb|mo" => a.rem_ulimb(n as ::i256::ULimb);
            "wrapping_rem_ulimb|m" => a.wrapping_rem_ulimb(n as ::i256::ULimb);
            "overflowing_rem_ulimb|m" => a.overflowing_rem_ulimb(n as ::i256::ULimb);
            "checked_rem_ulimb|m" => a.checked_rem_ulimb(n as ::i256::ULimb);
            "div_rem_ulimb|mo" => a.div_rem_ulimb(n as ::i256::ULimb);
            "wrapping_div_rem_ulimb|m" => a.wrapping_div_rem_ulimb(n as ::i256::ULimb);
            "overflowing_div_rem_ulimb|m" => a.overflowing_div_rem_ulimb(n as ::i256::ULimb);
            "checked_div_rem_ulimb|m" => a.checked_div_rem_ulimb(n as ::i256::ULimb);
            "add_uwide|no" => a.add_uwide(n as ::i256::UWide);
            "wrapping_add_uwide|n" => a.wrapping_add_uwide(n as ::i256::UWide);
            "overflowing_add_uwide|n" => a.overflowing_add_uwide(n as ::i256::UWide);
            "checked_add_uwide|n" => a.checked_add_uwide(n as ::i256::UWide);
            "sub_uwide|no" => a.sub_uwide(n as ::i256::UWide);
            "wrapping_sub_uwide|n" => a.wrapping_sub_uwide(n as ::i256::UWide);
            "overflowing_sub_uwide|n" => a.overflowing_sub_uwide(n as ::i256::UWide);
            "checked_sub_uwide|n" => a.checked_sub_uwide(n as ::i256::UWide);
            "mul_uwide|no" => a.mul_uwide(n as ::i256::UWide);
            "wrapping_mul_uwide|n" => a.wrapping_mul_uwide(n as ::i256::UWide);
            "overflowing_mul_uwide|n" => a.overflowing_mul_uwide(n as ::i256::UWide);
            "checked_mul_uwide|n" => a.checked_mul_uwide(n as ::i256::UWide);
            "div_uwide|mo" => a.div_uwide(n as ::i256::UWide);
            "wrapping_div_uwide|m" => a.wrapping_div_uwide(n as ::i256::UWide);
            "overflowing_div_uwide|m" => a.overflowing_div_uwide(n as ::i256::UWide);
            "checked_div_uwide|m" => a.checked_div_uwide(n as ::i256::UWide);
            "rem_uwide|mo" => a.rem_uwide(n as ::i256::UWide);
            "wrapping_rem_uwide|m" => a.wrapping_rem_uwide(n as ::i256::UWide);
            "overflowing_rem_uwide|m" => a.overflowing_rem_uwide(n as ::i256::UWide);
            "checked_rem_uwide|m" => a.checked_rem_uwide(n as ::i256::UWide);
            "div_rem_uwide|mo" => a.div_rem_uwide(n as ::i256::UWide);
            "wrapping_div_rem_uwide|m" => a.wrapping_div_rem_uwide(n as ::i256::UWide);
            "overflowing_div_rem_uwide|m" => a.overflowing_div_rem_uwide(n as ::i256::UWide);
            "checked_div_rem_uwide|m" => a.checked_div_rem_uwide(n as ::i256::UWide);
        }
    };
}

macro_rules! unsigned {
    ($m:ident, $T:ty, $S:ty) => {
        pub mod $m {
            use super::Op;
            use num_traits::{AsPrimitive, FromPrimitive, ToPrimitive};
            pub fn from_pattern(s: &str, radix: u32) -> Result<$T, ::i256::ParseIntError> {
                <$T>::from_str_radix(s, radix)
            }
            pub fn count() -> usize {
                COMMON.len() + OWN.len()
            }
            #[inline]
            pub fn get(i: usize) -> &'static Op<$T> {
                if i < COMMON.len() {
                    &COMMON[i]
                } else {
                    &OWN[i - COMMON.len()]
                }
            }
            static COMMON: &[Op<$T>] = common!($T);
            static OWN: &[Op<$T>] = table! { $T; a, b, n;
                "min_value" => <$T>::min_value();
                "max_value" => <$T>::max_value();
                "is_power_of_two" => a.is_power_of_two();
                "next_power_of_two|o" => a.next_power_of_two();
                "checked_next_power_of_two" => a.checked_next_power_of_two();
                "wrapping_next_power_of_two" => a.wrapping_next_power_of_two();
                "next_multiple_of|do" => a.next_multiple_of(b);
                "is_multiple_of|d" => a.is_multiple_of(b);
                "carrying_add|n" => a.carrying_add(b, n & 1 == 1);
                "borrowing_sub|n" => a.borrowing_sub(b, n & 1 == 1);
                "widening_mul" => a.widening_mul(b);
                "carrying_mul|n" => a.carrying_mul(b, <$T>::from_u128(n));
                "high_mul" => a.high_mul(b);
                "high" => a.high();
                "low" => a.low();
                "cast_signed" => a.cast_signed();
                "checked_add_signed" => a.checked_add_signed(b.cast_signed());
                "wrapping_add_signed" => a.wrapping_add_signed(b.cast_signed());
                "saturating_add_signed" => a.saturating_add_signed(b.cast_signed());
                "overflowing_add_signed" => a.overflowing_add_signed(b.cast_signed());
                "overflowing_sub_signed" => a.overflowing_sub_signed(b.cast_signed());
                "strict_add_signed" => a.strict_add_signed(b.cast_signed());
                "checked_signed_diff" => a.checked_signed_diff(b);
                "try_into_signed" => <$S>::try_from(a);
            };
        }
    };
}

macro_rules! signed {
    ($m:ident, $T:ty, $U:ty) => {
        pub mod $m {
            use super::Op;
            use num_traits::{AsPrimitive, FromPrimitive, ToPrimitive};
            pub fn from_pattern(s: &str, radix: u32) -> Result<$T, ::i256::ParseIntError> {
                <$U>::from_str_radix(s, radix).map(|x| x.cast_signed())
            }
            pub fn count() -> usize {
                COMMON.len() + OWN.len()
            }
            #[inline]
            pub fn get(i: usize) -> &'static Op<$T> {
                if i < COMMON.len() {
                    &COMMON[i]
                } else {
                    &OWN[i - COMMON.len()]
                }
            }
            static COMMON: &[Op<$T>] = common!($T);
            static OWN: &[Op<$T>] = table! { $T; a, b, n;
                "min_value" => <$T>::min_value();
                "max_value" => <$T>::max_value();
                "neg|o" => -a;
                "ref_neg|o" => -&a;
                "unchecked_neg" => a.checked_neg().map(|_| unsafe { a.unchecked_neg() });
                "nt_abs|o" => num_traits::Signed::abs(&a);
                "nt_signum" => num_traits::Signed::signum(&a);
                "nt_is_negative" => num_traits::Signed::is_negative(&a);
                "carrying_add|n" => a.carrying_add(b, n & 1 == 1);
                "borrowing_sub|n" => a.borrowing_sub(b, n & 1 == 1);
                "abs|o" => a.abs();
                "checked_abs" => a.checked_abs();
                "wrapping_abs" => a.wrapping_abs();
                "overflowing_abs" => a.overflowing_abs();
                "saturating_abs" => a.saturating_abs();
                "strict_abs" => a.strict_abs();
                "saturating_neg" => a.saturating_neg();
                "overflowing_neg" => a.overflowing_neg();
                "unsigned_abs" => a.unsigned_abs();
                "signum" => a.signum();
                "is_negative" => a.is_negative();
                "is_positive" => a.is_positive();
                "nt_is_positive" => num_traits::Signed::is_positive(&a);
                "nt_abs_sub|o" => num_traits::Signed::abs_sub(&a, &b);
                "next_multiple_of|do" => a.next_multiple_of(b);
                "overflowing_shl|s" => a.overflowing_shl(n as u32);
                "overflowing_shr|s" => a.overflowing_shr(n as u32);
                "cast_unsigned" => a.cast_unsigned();
                "checked_add_unsigned" => a.checked_add_unsigned(b.cast_unsigned());
                "checked_sub_unsigned" => a.checked_sub_unsigned(b.cast_unsigned());
                "overflowing_add_unsigned" => a.overflowing_add_unsigned(b.cast_unsigned());
                "overflowing_sub_unsigned" => a.overflowing_sub_unsigned(b.cast_unsigned());
                "saturating_add_unsigned" => a.saturating_add_unsigned(b.cast_unsigned());
                "saturating_sub_unsigned" => a.saturating_sub_unsigned(b.cast_unsigned());
                "strict_add_unsigned" => a.strict_add_unsigned(b.cast_unsigned());
                "strict_sub_unsigned" => a.strict_sub_unsigned(b.cast_unsigned());
                "wrapping_sub_unsigned" => a.wrapping_sub_unsigned(b.cast_unsigned());
                "try_into_unsigned" => <$U>::try_from(a);
                // signed narrow operands
                "add_i32|no" => a.add_i32(n as i32);
                "wrapping_add_i32|n" => a.wrapping_add_i32(n as i32);
                "overflowing_add_i32|n" => a.overflowing_add_i32(n as i32);
                "checked_add_i32|n" => a.checked_add_i32(n as i32);
                "sub_i32|no" => a.sub_i32(n as i32);
                "wrapping_sub_i32|n" => a.wrapping_sub_i32(n as i32);
                "overflowing_sub_i32|n" => a.overflowing_sub_i32(n as i32);
                "checked_sub_i32|n" => a.checked_sub_i32(n as i32);
                "mul_i32|no" => a.mul_i32(n as i32);
                "wrapping_mul_i32|n" => a.wrapping_mul_i32(n as i32);
                "overflowing_mul_i32|n" => a.overflowing_mul_i32(n as i32);
                "checked_mul_i32|n" => a.checked_mul_i32(n as i32);
                "div_i32|mo" => a.div_i32(n as i32);
                "wrapping_div_i32|m" => a.wrapping_div_i32(n as i32);
                "overflowing_div_i32|m" => a.overflowing_div_i32(n as i32);
                "checked_div_i32|m" => a.checked_div_i32(n as i32);
                "rem_i32|mo" => a.rem_i32(n as i32);
                "wrapping_rem_i32|m" => a.wrapping_rem_i32(n as i32);
                "overflowing_rem_i32|m" => a.overflowing_rem_i32(n as i32);
                "checked_rem_i32|m" => a.checked_rem_i32(n as i32);
                "div_rem_i32|mo" => a.div_rem_i32(n as i32);
                "wrapping_div_rem_i32|m" => a.wrapping_div_rem_i32(n as i32);
                "overflowing_div_rem_i32|m" => a.overflowing_div_rem_i32(n as i32);
                "checked_div_rem_i32|m" => a.checked_div_rem_i32(n as i32);
                "add_i64|no" => a.add_i64(n as i64);
                "wrapping_add_i64|n" => a.wrapping_add_i64(n as i64);
                "overflowing_add_i64|n" => a.overflowing_add_i64(n as i64);
                "checked_add_i64|n" => a.checked_add_i64(n as i64);
                "sub_i64|no" => a.sub_i64(n as i64);
                "wrapping_sub_i64|n" => a.wrapping_sub_i64(n as i64);
                "overflowing_sub_i64|n" => a.overflowing_sub_i64(n as i64);
                "checked_sub_i64|n" => a.checked_sub_i64(n as i64);
                "mul_i64|no" => a.mul_i64(n as i64);
                "wrapping_mul_i64|n" => a.wrapping_mul_i64(n as i64);
                "overflowing_mul_i64|n" => a.overflowing_mul_i64(n as i64);
                "checked_mul_i64|n" => a.checked_mul_i64(n as i64);
                "div_i64|mo" => a.div_i64(n as i64);
                "wrapping_div_i64|m" => a.wrapping_div_i64(n as i64);
                "overflowing_div_i64|m" => a.overflowing_div_i64(n as i64);
                "checked_div_i64|m" => a.checked_div_i64(n as i64);
                "rem_i64|mo" => a.rem_i64(n as i64);
                "wrapping_rem_i64|m" => a.wrapping_rem_i64(n as i64);
                "overflowing_rem_i64|m" => a.overflowing_rem_i64(n as i64);
                "checked_rem_i64|m" => a.checked_rem_i64(n as i64);
                "div_rem_i64|mo" => a.div_rem_i64(n as i64);
                "wrapping_div_rem_i64|m" => a.wrapping_div_rem_i64(n as i64);
                "overflowing_div_rem_i64|m" => a.overflowing_div_rem_i64(n as i64);
                "checked_div_rem_i64|m" => a.checked_div_rem_i64(n as i64);
                "add_i128|no" => a.add_i128(n as i128);
                "wrapping_add_i128|n" => a.wrapping_add_i128(n as i128);
                "overflowing_add_i128|n" => a.overflowing_add_i128(n as i128);
                "checked_add_i128|n" => a.checked_add_i128(n as i128);
                "sub_i128|no" => a.sub_i128(n as i128);
                "wrapping_sub_i128|n" => a.wrapping_sub_i128(n as i128);
                "overflowing_sub_i128|n" => a.overflowing_sub_i128(n as i128);
                "checked_sub_i128|n" => a.checked_sub_i128(n as i128);
                "mul_i128|no" => a.mul_i128(n as i128);
                "wrapping_mul_i128|n" => a.wrapping_mul_i128(n as i128);
                "overflowing_mul_i128|n" => a.overflowing_mul_i128(n as i128);
                "checked_mul_i128|n" => a.checked_mul_i128(n as i128);
                "div_i128|mo" => a.div_i128(n as i128);
                "wrapping_div_i128|m" => a.wrapping_div_i128(n as i128);
                "overflowing_div_i128|m" => a.overflowing_div_i128(n as i128);
                "checked_div_i128|m" => a.checked_div_i128(n as i128);
                "rem_i128|mo" => a.rem_i128(n as i128);
                "wrapping_rem_i128|m" => a.wrapping_rem_i128(n as i128);
                "overflowing_rem_i128|m" => a.overflowing_rem_i128(n as i128);
                "checked_rem_i128|m" => a.checked_rem_i128(n as i128);
                "div_rem_i128|mo" => a.div_rem_i128(n as i128);
                "wrapping_div_rem_i128|m" => a.wrapping_div_rem_i128(n as i128);
                "overflowing_div_rem_i128|m" => a.overflowing_div_rem_i128(n as i128);
                "checked_div_rem_i128|m" => a.checked_div_rem_i128(n as i128);
                "add_ilimb|no" => a.add_ilimb(n as ::i256::ILimb);
                "wrapping_add_ilimb|n" => a.wrapping_add_ilimb(n as ::i256::ILimb);
                "overflowing_add_ilimb|n" => a.overflowing_add_ilimb(n as ::i256::ILimb);
                "checked_add_ilimb|n" => a.checked_add_ilimb(n as ::i256::ILimb);
                "sub_ilimb|no" => a.sub_ilimb(n as ::i256::ILimb);
                "wrapping_sub_ilimb|n" => a.wrapping_sub_ilimb(n as ::i256::ILimb);
                "overflowing_sub_ilimb|n" => a.overflowing_sub_ilimb(n as ::i256::ILimb);
                "checked_sub_ilimb|n" => a.checked_sub_ilimb(n as ::i256::ILimb);
                "mul_ilimb|no" => a.mul_ilimb(n as ::i256::ILimb);
                "wrapping_mul_ilimb|n" => a.wrapping_mul_ilimb(n as ::i256::ILimb);
                "overflowing_mul_ilimb|n" => a.overflowing_mul_ilimb(n as ::i256::ILimb);
                "checked_mul_ilimb|n" => a.checked_mul_ilimb(n as ::i256::ILimb);
                "div_ilimb|mo" => a.div_ilimb(n as ::i256::ILimb);
                "wrapping_div_ilimb|m" => a.wrapping_div_ilimb(n as ::i256::ILimb);
                "overflowing_div_ilimb|m" => a.overflowing_div_ilimb(n as ::i256::ILimb);
                "checked_div_ilimb|m" => a.checked_div_ilimb(n as ::i256::ILimb);
                "rem_ilimb|mo" => a.rem_ilimb(n as ::i256::ILimb);
                "wrapping_rem_ilimb|m" => a.wrapping_rem_ilimb(n as ::i256::ILimb);
                "overflowing_rem_ilimb|m" => a.overflowing_rem_ilimb(n as ::i256::ILimb);
                "checked_rem_ilimb|m" => a.checked_rem_ilimb(n as ::i256::ILimb);
                "div_rem_ilimb|mo" => a.div_rem_ilimb(n as ::i256::ILimb);
                "wrapping_div_rem_ilimb|m" => a.wrapping_div_rem_ilimb(n as ::i256::ILimb);
                "overflowing_div_rem_ilimb|m" => a.overflowing_div_rem_ilimb(n as ::i256::ILimb);
                "checked_div_rem_ilimb|m" => a.checked_div_rem_ilimb(n as ::i256::ILimb);
                "add_iwide|no" => a.add_iwide(n as ::i256::IWide);
                "wrapping_add_iwide|n" => a.wrapping_add_iwide(n as ::i256::IWide);
                "overflowing_add_iwide|n" => a.overflowing_add_iwide(n as ::i256::IWide);
                "checked_add_iwide|n" => a.checked_add_iwide(n as ::i256::IWide);
                "sub_iwide|no" => a.sub_iwide(n as ::i256::IWide);
                "wrapping_sub_iwide|n" => a.wrapping_sub_iwide(n as ::i256::IWide);
                "overflowing_sub_iwide|n" => a.overflowing_sub_iwide(n as ::i256::IWide);
                "checked_sub_iwide|n" => a.checked_sub_iwide(n as ::i256::IWide);
                "mul_iwide|no" => a.mul_iwide(n as ::i256::IWide);
                "wrapping_mul_iwide|n" => a.wrapping_mul_iwide(n as ::i256::IWide);
                "overflowing_mul_iwide|n" => a.overflowing_mul_iwide(n as ::i256::IWide);
                "checked_mul_iwide|n" => a.checked_mul_iwide(n as ::i256::IWide);
                "div_iwide|mo" => a.div_iwide(n as ::i256::IWide);
                "wrapping_div_iwide|m" => a.wrapping_div_iwide(n as ::i256::IWide);
                "overflowing_div_iwide|m" => a.overflowing_div_iwide(n as ::i256::IWide);
                "checked_div_iwide|m" => a.checked_div_iwide(n as ::i256::IWide);
                "rem_iwide|mo" => a.rem_iwide(n as ::i256::IWide);
                "wrapping_rem_iwide|m" => a.wrapping_rem_iwide(n as ::i256::IWide);
                "overflowing_rem_iwide|m" => a.overflowing_rem_iwide(n as ::i256::IWide);
                "checked_rem_iwide|m" => a.checked_rem_iwide(n as ::i256::IWide);
                "div_rem_iwide|mo" => a.div_rem_iwide(n as ::i256::IWide);
                "wrapping_div_rem_iwide|m" => a.wrapping_div_rem_iwide(n as ::i256::IWide);
                "overflowing_div_rem_iwide|m" => a.overflowing_div_rem_iwide(n as ::i256::IWide);
                "checked_div_rem_iwide|m" => a.checked_div_rem_iwide(n as ::i256::IWide);
            };
        }
    };
}

unsigned!(u256, ::i256::U256, ::i256::I256);
signed!(i256, ::i256::I256, ::i256::U256);
unsigned!(u384, ::i256::U384, ::i256::I384);
signed!(i384, ::i256::I384, ::i256::U384);
unsigned!(u512, ::i256::U512, ::i256::I512);
signed!(i512, ::i256::I512, ::i256::U512);
unsigned!(u1024, ::i256::U1024, ::i256::I1024);
signed!(i1024, ::i256::I1024, ::i256::U1024);
