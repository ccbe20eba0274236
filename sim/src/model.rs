//! What each operation is specified to do, on reference integers.

use crate::big::{max, min, Big};
use crate::node;
use std::cmp::Ordering;

#[derive(Clone, Debug, PartialEq)]
pub enum Ans {
    /// Unwinds.
    Panic,
    /// Returns a refusal.
    Refuse,
    /// Returns this.
    Value(Val),
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Val {
    pub v0: Option<Big>,
    pub v1: Option<Big>,
    pub num: Option<Big>,
    pub flag: Option<bool>,
}

fn one(x: Big) -> Val {
    Val { v0: Some(x), ..Default::default() }
}

fn number(x: Big) -> Val {
    Val { num: Some(x), ..Default::default() }
}

fn yes(f: bool) -> Val {
    Val { flag: Some(f), ..Default::default() }
}

fn odd(x: &Big) -> bool {
    x.wrap(8, false).low_u128() & 1 == 1
}

/// What of a build the outcome of an operation may depend on.
#[derive(Clone, Copy, Debug)]
pub struct Build {
    pub checks: bool,
    /// Bits in a limb.
    pub limb: usize,
}

enum Exact {
    One(Big),
    /// Quotient and remainder: overflow is the quotient's.
    Two(Big, Big),
    /// The remainder, with the quotient that decides overflow.
    Rem(Big, Big),
    Zero,
}

fn exact(base: &str, a: &Big, b: &Big) -> Option<Exact> {
    let div = |f: fn(&Big, &Big) -> (Big, Big)| {
        if b.is_zero() {
            None
        } else {
            Some(f(a, b))
        }
    };
    Some(match base {
        "add" => Exact::One(a.add(b)),
        "sub" => Exact::One(a.sub(b)),
        "mul" => Exact::One(a.mul(b)),
        "neg" => Exact::One(a.neg()),
        "abs" => Exact::One(a.abs()),
        "div" => div(Big::div_rem).map_or(Exact::Zero, |x| Exact::One(x.0)),
        "rem" => div(Big::div_rem).map_or(Exact::Zero, |x| Exact::Rem(x.1, x.0)),
        "div_rem" => div(Big::div_rem).map_or(Exact::Zero, |x| Exact::Two(x.0, x.1)),
        "div_euclid" => div(Big::div_euclid).map_or(Exact::Zero, |x| Exact::One(x.0)),
        "rem_euclid" => div(Big::div_euclid).map_or(Exact::Zero, |x| Exact::Rem(x.1, x.0)),
        _ => return None,
    })
}

/// `a^e` wrapped to the type, and whether the exact power fits.
fn power(a: &Big, e: u32, bits: usize, signed: bool) -> (Big, bool) {
    if e as u64 * (a.bits() as u64).saturating_sub(1) <= 2 * bits as u64 && e < 4096 {
        let x = a.pow(e);
        return (x.wrap(bits, signed), x.fits(bits, signed));
    }
    let mut r = Big::from_u64(1);
    for i in (0..32).rev() {
        r = r.mul(&r).wrap(bits, signed);
        if e >> i & 1 == 1 {
            r = r.mul(a).wrap(bits, signed);
        }
    }
    let small = a.abs().bits() <= 1;
    (r, small)
}

/// Width and sign of a primitive integer type.
pub fn primitive(kind: &str, limb: usize) -> Option<(usize, bool)> {
    Some(match kind {
        "u8" => (8, false),
        "u16" => (16, false),
        "u32" => (32, false),
        "u64" | "usize" => (64, false),
        "u128" => (128, false),
        "i8" => (8, true),
        "i16" => (16, true),
        "i32" => (32, true),
        "i64" | "isize" => (64, true),
        "i128" => (128, true),
        "ulimb" => (limb, false),
        "ilimb" => (limb, true),
        "uwide" => (2 * limb, false),
        "iwide" => (2 * limb, true),
        _ => return None,
    })
}

/// What a primitive type makes of the number operand.
fn narrow(kind: &str, n: u128, limb: usize) -> Option<Big> {
    let (bits, signed) = primitive(kind, limb)?;
    Some(Big::from_u128(n).wrap(bits, signed))
}

/// The narrow operand that an operation's name says the number is.
pub fn operand(name: &str, n: u128, build: Build) -> Option<Big> {
    narrow(name.rsplit_once('_')?.1, n, build.limb)
}

/// The result of shifting by an amount known to be in range.
fn shifted(left: bool, a: &Big, k: usize, bits: usize, signed: bool) -> Big {
    if left {
        a.shl(k).wrap(bits, signed)
    } else {
        a.shr(k)
    }
}

/// A shift operator. `None` where neither documentation nor convention says
/// what happens (oversized amounts in builds that do not check).
fn shift_operator(left: bool, a: &Big, k: &Big, bits: usize, signed: bool, checks: bool) -> Option<Ans> {
    let in_range = !k.is_neg() && k.cmp(&Big::from_u64(bits as u64)) == Ordering::Less;
    if in_range {
        return Some(Ans::Value(one(shifted(left, a, k.low_u128() as usize, bits, signed))));
    }
    if checks {
        return Some(Ans::Panic);
    }
    None
}

/// What in-place operation `name` leaves in the target.
pub fn inplace(name: &str, ty: usize, build: Build, a: &Big, b: &Big, n: u128) -> Option<Ans> {
    let checks = build.checks;
    let (bits, signed) = (node::bits(ty), node::signed(ty));
    let base = name.strip_suffix("_ref").unwrap_or(name);
    if let Some(kind) = base.strip_prefix("shl_assign_").or_else(|| base.strip_prefix("shr_assign_")) {
        let left = base.starts_with("shl");
        let kind = kind.strip_prefix("ref_").unwrap_or(kind);
        let k = if kind == "other" { b.wrap(bits, !signed) } else { narrow(kind, n, build.limb)? };
        return shift_operator(left, a, &k, bits, signed, checks);
    }
    match base {
        "mul_add_assign" => {
            // two checked steps: each may overflow on its own
            let m = a.mul(b);
            if checks && !m.fits(bits, signed) {
                return Some(Ans::Panic);
            }
            let s = m.wrap(bits, signed).add(&Big::from_u128(n));
            if checks && !s.fits(bits, signed) {
                return Some(Ans::Panic);
            }
            Some(Ans::Value(one(s.wrap(bits, signed))))
        },
        "bitand_assign" | "bitor_assign" | "bitxor_assign" => answer(base.strip_suffix("_assign")?, ty, build, a, b, n),
        _ => answer(base.strip_suffix("_assign")?, ty, build, a, b, n),
    }
}

fn bitwise(f: fn(u8, u8) -> u8, a: &Big, b: &Big, bytes: usize, signed: bool) -> Val {
    let (x, y) = (a.to_le(bytes), b.to_le(bytes));
    let z: Vec<u8> = x.iter().zip(&y).map(|(p, q)| f(*p, *q)).collect();
    one(Big::from_le(&z, signed))
}

/// What by-value operation `name` returns; `None` if it is not modelled.
pub fn answer(name: &str, ty: usize, build: Build, a: &Big, b: &Big, n: u128) -> Option<Ans> {
    let (checks, limb) = (build.checks, build.limb);
    let (bits, signed, bytes) = (node::bits(ty), node::signed(ty), node::bytes(ty));
    let value = |v: Val| Some(Ans::Value(v));
    let n32 = n as u32;
    // Simple ones first.
    match name {
        "bitand" | "bitand_const" => return value(bitwise(|p, q| p & q, a, b, bytes, signed)),
        "bitor" | "bitor_const" => return value(bitwise(|p, q| p | q, a, b, bytes, signed)),
        "bitxor" | "bitxor_const" => return value(bitwise(|p, q| p ^ q, a, b, bytes, signed)),
        "not" | "not_const" => return value(bitwise(|p, _| !p, a, b, bytes, signed)),
        "swap_bytes" => {
            let mut x = a.to_le(bytes);
            x.reverse();
            return value(one(Big::from_le(&x, signed)));
        },
        "rotate_left" | "rotate_right" => {
            let k = n32 as usize % bits;
            let k = if name == "rotate_left" { k } else { (bits - k) % bits };
            let u = a.wrap(bits, false);
            let r = u.shl(k).wrap(bits, false).add(&u.shr(bits - k));
            return value(one(r.wrap(bits, signed)));
        },
        "wrapping_shl" | "wrapping_shr" => return value(one(shifted(name.ends_with('l'), a, n32 as usize % bits, bits, signed))),
        "overflowing_shl" | "overflowing_shr" => {
            let mut v = one(shifted(name.ends_with('l'), a, n32 as usize % bits, bits, signed));
            v.flag = Some(n32 as usize >= bits);
            return value(v);
        },
        "checked_shl" | "checked_shr" | "unchecked_shl" | "unchecked_shr" | "strict_shl" | "strict_shr" => {
            if n32 as usize >= bits {
                return Some(if !name.starts_with('s') { Ans::Refuse } else { Ans::Panic });
            }
            return value(one(shifted(name.ends_with('l'), a, n32 as usize, bits, signed)));
        },
        "widening_mul" | "carrying_mul" if !signed => {
            let mut p = a.mul(b);
            if name.starts_with('c') {
                p = p.add(&Big::from_u128(n));
            }
            return value(Val { v0: Some(p.wrap(bits, false)), v1: Some(p.shr(bits)), ..Default::default() });
        },
        "as_signed" | "cast_signed" => return value(one(a.wrap(bits, true))),
        "as_unsigned" | "cast_unsigned" => return value(one(a.wrap(bits, false))),
        "unsigned_abs" => return value(one(a.abs())),
        "abs_diff" => return value(one(a.sub(b).abs())),
        "div_floor" | "div_ceil" => {
            if b.is_zero() {
                return Some(Ans::Panic);
            }
            let q = if name == "div_floor" { a.div_floor(b).0 } else { a.neg().div_floor(b).0.neg() };
            if !q.fits(bits, signed) {
                return None;
            }
            return value(one(q));
        },
        "checked_next_power_of_two" if !signed => {
            let mut p = Big::from_u64(1);
            if !a.is_zero() {
                p = Big::pow2(a.sub(&Big::from_u64(1)).bits());
            }
            return if p.fits(bits, false) { value(one(p)) } else { Some(Ans::Refuse) };
        },
        // Panics in every build, where primitives wrap in some: either will do.
        "abs" if !checks && !a.abs().fits(bits, signed) => return None,
        "next_power_of_two" | "wrapping_next_power_of_two" if !signed => {
            let mut p = Big::from_u64(1);
            if !a.is_zero() {
                p = Big::pow2(a.sub(&Big::from_u64(1)).bits());
            }
            if p.fits(bits, false) {
                return value(one(p));
            }
            return if name.starts_with('w') || !checks { value(one(Big::zero())) } else { Some(Ans::Panic) };
        },
        "high_mul" if !signed => return value(one(a.mul(b).shr(bits))),
        "reverse_bits" => {
            let mut x = a.to_le(bytes);
            x.reverse();
            for y in x.iter_mut() {
                *y = y.reverse_bits();
            }
            return value(one(Big::from_le(&x, signed)));
        },
        "unbounded_shl" => {
            let z = if n32 as usize >= bits { Big::zero() } else { shifted(true, a, n32 as usize, bits, signed) };
            return value(one(z));
        },
        "signum" => return value(one(if a.is_neg() { Big::from_i128(-1) } else { Big::from_u64(!a.is_zero() as u64) })),
        "from_le" | "from_unsigned" | "from_signed" => return value(one(a.clone())),
        "to_be" | "from_be" => {
            let mut x = a.to_le(bytes);
            x.reverse();
            return value(one(Big::from_le(&x, signed)));
        },
        "min" => return value(one(if a.cmp(b) == Ordering::Greater { b.clone() } else { a.clone() })),
        "max" => return value(one(if a.cmp(b) == Ordering::Less { b.clone() } else { a.clone() })),
        "clamp" => {
            let c = Big::from_u128(n);
            let (lo, hi) = if b.cmp(&c) == Ordering::Less { (b.clone(), c) } else { (c, b.clone()) };
            let x = if a.cmp(&lo) == Ordering::Less {
                lo
            } else if a.cmp(&hi) == Ordering::Greater {
                hi
            } else {
                a.clone()
            };
            return value(one(x));
        },
        "default" | "zero" => return value(one(Big::zero())),
        "one" => return value(one(Big::from_u64(1))),
        "min_value" => return value(one(min(bits, signed))),
        "max_value" => return value(one(max(bits, signed))),
        "is_zero" => return value(yes(a.is_zero())),
        "is_one" => return value(yes(*a == Big::from_u64(1))),
        "is_negative" => return value(yes(a.is_neg())),
        "is_positive" => return value(yes(!a.is_neg() && !a.is_zero())),
        "is_even" => return value(yes(!odd(a))),
        "is_odd" => return value(yes(odd(a))),
        "is_power_of_two" if !signed => return value(yes(!a.is_zero() && a.sub(&Big::from_u64(1)).bits() < a.bits())),
        "is_multiple_of" if !signed => return value(yes(if b.is_zero() { a.is_zero() } else { a.div_rem(b).1.is_zero() })),
        "eq" | "eq_const" | "eq_branched" => return value(yes(a.cmp(b) == Ordering::Equal)),
        "ne" => return value(yes(a.cmp(b) != Ordering::Equal)),
        "lt" | "lt_const" => return value(yes(a.cmp(b) == Ordering::Less)),
        "le" | "le_const" => return value(yes(a.cmp(b) != Ordering::Greater)),
        "gt" | "gt_const" => return value(yes(a.cmp(b) == Ordering::Greater)),
        "ge" | "ge_const" => return value(yes(a.cmp(b) != Ordering::Less)),
        "cmp" | "cmp_const" | "partial_cmp" => {
            let k = match a.cmp(b) {
                Ordering::Less => 1,
                Ordering::Equal => 2,
                Ordering::Greater => 3,
            };
            return value(number(Big::from_u64(k)));
        },
        "count_ones" | "count_zeros" | "leading_ones" | "leading_zeros" | "trailing_ones" | "trailing_zeros" => {
            let u = a.wrap(bits, false);
            // the zeros are the ones of the complement
            let u = if name.ends_with("ones") { u } else { Big::pow2(bits).sub(&Big::from_u64(1)).sub(&u) };
            let x = u.to_le(bytes);
            let k = match name.split_once('_').unwrap().0 {
                "count" => x.iter().map(|b| b.count_ones() as usize).sum(),
                "trailing" => match x.iter().position(|b| *b != 0xff) {
                    Some(i) => 8 * i + x[i].trailing_ones() as usize,
                    None => bits,
                },
                _ => match x.iter().rev().position(|b| *b != 0xff) {
                    Some(i) => 8 * i + x[bytes - 1 - i].leading_ones() as usize,
                    None => bits,
                },
            };
            return value(number(Big::from_u64(k as u64)));
        },
        "ilog2" | "checked_ilog2" => {
            if a.is_neg() || a.is_zero() {
                return Some(if name.starts_with('c') { Ans::Refuse } else { Ans::Panic });
            }
            return value(number(Big::from_u64(a.bits() as u64 - 1)));
        },
        "ilog" | "checked_ilog" => {
            if a.is_neg() || a.is_zero() || b.cmp(&Big::from_u64(2)) == Ordering::Less {
                return Some(if name.starts_with('c') { Ans::Refuse } else { Ans::Panic });
            }
            let (mut k, mut x) = (0, a.div_rem(b).0);
            while !x.is_zero() {
                x = x.div_rem(b).0;
                k += 1;
            }
            return value(number(Big::from_u64(k)));
        },
        "high" if !signed => return value(one(a.shr(bits / 2))),
        "low" if !signed => return value(one(a.wrap(bits / 2, false))),
        "checked_signed_diff" if !signed => {
            let x = a.sub(b);
            return if x.fits(bits, true) { value(one(x)) } else { Some(Ans::Refuse) };
        },
        "try_into_signed" | "try_into_unsigned" => {
            return if a.fits(bits, !signed) { value(one(a.clone())) } else { Some(Ans::Refuse) };
        },
        "least_significant_limb" => return value(number(a.wrap(limb, false))),
        "most_significant_limb" => return value(number(a.shr(bits - limb).wrap(limb, signed))),
        "get_limb" => return value(number(a.shr(n32 as usize % (bits / limb) * limb).wrap(limb, false))),
        "get_wide" => return value(number(a.shr(n32 as usize % (bits / limb / 2) * 2 * limb).wrap(2 * limb, false))),
        "cast_bool" | "into_bool" => return value(one(Big::from_u64((n & 1) as u64))),
        "cast_char" | "into_char" => return value(one(Big::from_u64(char::from_u32(n32).unwrap_or('?') as u64))),
        "nt_mul_add" => return inplace("mul_add_assign", ty, build, a, b, n),
        "nt_signed_shl" | "nt_unsigned_shl" => return shift_operator(true, a, &Big::from_u64(n32 as u64), bits, signed, checks),
        "nt_signed_shr" | "nt_unsigned_shr" => {
            let s = name == "nt_signed_shr";
            return Some(match shift_operator(false, &a.wrap(bits, s), &Big::from_u64(n32 as u64), bits, s, checks)? {
                Ans::Value(v) => Ans::Value(one(v.v0?.wrap(bits, signed))),
                x => x,
            })
        },
        // These never check, and what is left of an oversized amount is their own affair.
        "shl_own" | "shr_own" => {
            return match shift_operator(name == "shl_own", a, b, bits, signed, false)? {
                Ans::Value(v) => value(v),
                _ => None,
            }
        },
        "carrying_add" | "borrowing_sub" => {
            let c = Big::from_u64((n & 1) as u64);
            let s = if name.starts_with('c') { a.add(b).add(&c) } else { a.sub(b).sub(&c) };
            return value(Val { v0: Some(s.wrap(bits, signed)), flag: Some(!s.fits(bits, signed)), ..Default::default() });
        },
        "abs_sub" => {
            let s = if a.cmp(b) == Ordering::Greater { a.sub(b) } else { Big::zero() };
            return if checks && !s.fits(bits, signed) { Some(Ans::Panic) } else { value(one(s.wrap(bits, signed))) };
        },
        "midpoint" => {
            // the documentation and primitives disagree about rounding
            let s = a.add(b);
            return if s.is_neg() && odd(&s) { None } else { value(one(s.shr(1))) };
        },
        "unbounded_shr" => {
            let z = if n32 as usize >= bits { Big::zero() } else { a.shr(n32 as usize) };
            return value(one(z));
        },
        "next_multiple_of" | "checked_next_multiple_of" => {
            let checked = name.starts_with('c');
            if b.is_zero() {
                return Some(if checked { Ans::Refuse } else { Ans::Panic });
            }
            let r = a.div_floor(b).1;
            let x = if r.is_zero() { a.clone() } else { a.add(&b.sub(&r)) };
            if x.fits(bits, signed) {
                return value(one(x));
            }
            if checked {
                return Some(Ans::Refuse);
            }
            return if checks { Some(Ans::Panic) } else { None };
        },
        _ => {},
    }
    if let Some(view) = name.strip_suffix("_view") {
        let (order, unit) = view.split_once('_')?;
        let w = match unit {
            "bytes" => 8,
            "limbs" => limb,
            "wide" => 2 * limb,
            _ => primitive(unit, limb)?.0,
        };
        let (count, i) = (bits / w, n32 as usize % (bits / w));
        let i = if order == "be" { count - 1 - i } else { i };
        return value(number(a.shr(i * w).wrap(w, false)));
    }
    if let Some((order, unit)) = name.split_once('_') {
        if matches!(order, "le" | "be" | "ne") && matches!(unit, "bytes" | "u32" | "u64" | "limbs" | "wide") {
            return value(one(a.clone()));
        }
    }
    // conversions
    if let Some((how, kind)) = name.rsplit_once('_') {
        if let Some((w, s)) = primitive(kind, limb) {
            let x = Big::from_u128(n).wrap(w, s);
            match how {
                "as" | "as_prim" => return value(number(a.wrap(w, s))),
                "to" => return if a.fits(w, s) { value(number(a.clone())) } else { Some(Ans::Refuse) },
                "from" | "cast" | "into" => return value(one(x.wrap(bits, signed))),
                "prim" | "try_from" => return if x.fits(bits, signed) { value(one(x)) } else { Some(Ans::Refuse) },
                "shl" | "shr" => return shift_operator(how == "shl", a, &x, bits, signed, checks),
                _ => {},
            }
        }
    }
    // other names for the same thing
    for alias in ["nt_old_", "nt_prim_", "nt_ref_", "nt_", "ref_"] {
        if let Some(plain) = name.strip_prefix(alias) {
            return answer(plain, ty, build, a, b, n);
        }
    }
    // Families: policy prefix, base operation, operand suffix.
    let (policy, rest) = ["wrapping_", "overflowing_", "checked_", "saturating_", "strict_", "unchecked_"]
        .iter()
        .find_map(|p| name.strip_prefix(p).map(|r| (p.trim_end_matches('_'), r)))
        .unwrap_or(("", name));
    // those are asked for under their precondition only
    let policy = if policy == "unchecked" { "checked" } else { policy };
    let ops = Operands { bits, signed, checks, policy };
    if rest == "pow" {
        let (w, fits) = power(a, n32, bits, signed);
        let sat = if a.is_neg() && n32 & 1 == 1 { min(bits, signed) } else { max(bits, signed) };
        return ops.decide(one(w), fits, sat);
    }
    // other-signed operands
    let (rest, b) = if let Some(r) = rest.strip_suffix("_signed") {
        (r, b.wrap(bits, true))
    } else if let Some(r) = rest.strip_suffix("_unsigned") {
        (r, b.wrap(bits, false))
    } else {
        (rest, b.clone())
    };
    let (rest, b, kind) = match rest.rsplit_once('_') {
        Some((r, suffix)) => match narrow(suffix, n, limb) {
            Some(x) => (r, x, Some(suffix)),
            None => (rest, b, None),
        },
        None => (rest, b, None),
    };
    let is_narrow = kind.is_some();
    // An unsigned remainder of a negative number: the division rounds down.
    let floor = signed && kind.map_or(false, |k| k.starts_with('u'));
    let rest = match rest {
        "div" if floor => "div_euclid",
        "rem" if floor => "rem_euclid",
        r => r,
    };
    if floor && rest == "div_rem" && !b.is_zero() {
        let (q, r) = a.div_euclid(&b);
        return ops.decide(Val { v0: Some(q), num: Some(r), ..Default::default() }, true, Big::zero());
    }
    match exact(rest, a, &b)? {
        Exact::Zero => Some(if policy == "checked" { Ans::Refuse } else { Ans::Panic }),
        Exact::One(x) => {
            let fits = x.fits(bits, signed);
            let sat = if x.is_neg() { min(bits, signed) } else { max(bits, signed) };
            ops.decide(one(x.wrap(bits, signed)), fits, sat)
        },
        Exact::Two(q, r) => {
            let fits = q.fits(bits, signed);
            let mut v = one(q.wrap(bits, signed));
            if is_narrow {
                v.num = Some(r);
            } else {
                v.v1 = Some(r);
            }
            ops.decide(v, fits, Big::zero())
        },
        Exact::Rem(r, q) => {
            let fits = q.fits(bits, signed);
            let v = if is_narrow { Val { num: Some(r), ..Default::default() } } else { one(r) };
            ops.decide(v, fits, Big::zero())
        },
    }
}

struct Operands<'a> {
    bits: usize,
    signed: bool,
    checks: bool,
    policy: &'a str,
}

impl Operands<'_> {
    fn decide(&self, wrapped: Val, fits: bool, saturated: Big) -> Option<Ans> {
        let _ = (self.bits, self.signed);
        Some(match self.policy {
            "wrapping" => Ans::Value(wrapped),
            "overflowing" => Ans::Value(Val { flag: Some(!fits), ..wrapped }),
            "checked" => {
                if fits {
                    Ans::Value(wrapped)
                } else {
                    Ans::Refuse
                }
            },
            "saturating" => Ans::Value(if fits { wrapped } else { one(saturated) }),
            "strict" => {
                if fits {
                    Ans::Value(wrapped)
                } else {
                    Ans::Panic
                }
            },
            "" => {
                if fits || !self.checks {
                    Ans::Value(wrapped)
                } else {
                    Ans::Panic
                }
            },
            _ => return None,
        })
    }
}
