//! Reference integers: sign and magnitude, schoolbook algorithms only.

use std::cmp::Ordering;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Big {
    neg: bool,
    mag: Vec<u32>,
}

fn trim(m: &mut Vec<u32>) {
    while m.last() == Some(&0) {
        m.pop();
    }
}

fn cmp_mag(a: &[u32], b: &[u32]) -> Ordering {
    a.len().cmp(&b.len()).then_with(|| a.iter().rev().cmp(b.iter().rev()))
}

fn add_mag(a: &[u32], b: &[u32]) -> Vec<u32> {
    let mut r = Vec::with_capacity(a.len().max(b.len()) + 1);
    let mut c = 0u64;
    for i in 0..a.len().max(b.len()) {
        c += *a.get(i).unwrap_or(&0) as u64 + *b.get(i).unwrap_or(&0) as u64;
        r.push(c as u32);
        c >>= 32;
    }
    if c != 0 {
        r.push(c as u32);
    }
    r
}

/// `a - b` for `a >= b`.
fn sub_mag(a: &[u32], b: &[u32]) -> Vec<u32> {
    let mut r = Vec::with_capacity(a.len());
    let mut borrow = 0i64;
    for i in 0..a.len() {
        let mut d = a[i] as i64 - *b.get(i).unwrap_or(&0) as i64 - borrow;
        borrow = (d < 0) as i64;
        if d < 0 {
            d += 1 << 32;
        }
        r.push(d as u32);
    }
    assert_eq!(borrow, 0);
    trim(&mut r);
    r
}

impl Big {
    pub fn new(neg: bool, mut mag: Vec<u32>) -> Self {
        trim(&mut mag);
        let neg = neg && !mag.is_empty();
        Big { neg, mag }
    }

    pub fn zero() -> Self {
        Big { neg: false, mag: vec![] }
    }

    pub fn from_u128(mut n: u128) -> Self {
        let mut mag = vec![];
        while n != 0 {
            mag.push(n as u32);
            n >>= 32;
        }
        Big { neg: false, mag }
    }

    pub fn from_i128(n: i128) -> Self {
        let mut r = Big::from_u128(n.unsigned_abs());
        r.neg = n < 0;
        r
    }

    pub fn from_u64(n: u64) -> Self {
        Big::from_u128(n as u128)
    }

    /// Read little-endian two's complement or plain bytes.
    pub fn from_le(bytes: &[u8], signed: bool) -> Self {
        let mut mag = vec![0u32; bytes.len().div_ceil(4)];
        for (i, b) in bytes.iter().enumerate() {
            mag[i / 4] |= (*b as u32) << (8 * (i % 4));
        }
        let r = Big::new(false, mag);
        if signed && bytes.last().map_or(false, |b| b & 0x80 != 0) {
            r.sub(&Big::pow2(8 * bytes.len()))
        } else {
            r
        }
    }

    /// The low `8 * n` bits, two's complement.
    pub fn to_le(&self, n: usize) -> Vec<u8> {
        let mut r = vec![0u8; n];
        for i in 0..n {
            r[i] = (*self.mag.get(i / 4).unwrap_or(&0) >> (8 * (i % 4))) as u8;
        }
        if self.neg {
            let mut c = 1u16;
            for b in r.iter_mut() {
                c += !*b as u16;
                *b = c as u8;
                c >>= 8;
            }
        }
        r
    }

    pub fn pow2(k: usize) -> Self {
        let mut mag = vec![0u32; k / 32 + 1];
        mag[k / 32] = 1 << (k % 32);
        Big { neg: false, mag }
    }

    pub fn is_zero(&self) -> bool {
        self.mag.is_empty()
    }

    pub fn is_neg(&self) -> bool {
        self.neg
    }

    pub fn neg(&self) -> Self {
        Big::new(!self.neg, self.mag.clone())
    }

    pub fn abs(&self) -> Self {
        Big::new(false, self.mag.clone())
    }

    pub fn bits(&self) -> usize {
        match self.mag.last() {
            None => 0,
            Some(t) => self.mag.len() * 32 - t.leading_zeros() as usize,
        }
    }

    pub fn add(&self, o: &Self) -> Self {
        if self.neg == o.neg {
            return Big::new(self.neg, add_mag(&self.mag, &o.mag));
        }
        match cmp_mag(&self.mag, &o.mag) {
            Ordering::Equal => Big::zero(),
            Ordering::Greater => Big::new(self.neg, sub_mag(&self.mag, &o.mag)),
            Ordering::Less => Big::new(o.neg, sub_mag(&o.mag, &self.mag)),
        }
    }

    pub fn sub(&self, o: &Self) -> Self {
        self.add(&o.neg())
    }

    pub fn mul(&self, o: &Self) -> Self {
        let mut r = vec![0u32; self.mag.len() + o.mag.len() + 1];
        for (i, x) in self.mag.iter().enumerate() {
            let mut c = 0u64;
            for (j, y) in o.mag.iter().enumerate() {
                c += *x as u64 * *y as u64 + r[i + j] as u64;
                r[i + j] = c as u32;
                c >>= 32;
            }
            r[i + o.mag.len()] = c as u32;
        }
        Big::new(self.neg != o.neg, r)
    }

    pub fn shl(&self, k: usize) -> Self {
        let (w, s) = (k / 32, k % 32);
        let mut r = vec![0u32; self.mag.len() + w + 1];
        for (i, x) in self.mag.iter().enumerate() {
            let v = (*x as u64) << s;
            r[i + w] |= v as u32;
            r[i + w + 1] |= (v >> 32) as u32;
        }
        Big::new(self.neg, r)
    }

    /// Shift right, rounding towards minus infinity.
    pub fn shr(&self, k: usize) -> Self {
        if self.neg {
            let one = Big::from_u64(1);
            return self.add(&one).neg().shr(k).neg().sub(&one);
        }
        let (w, s) = (k / 32, k % 32);
        let mut r = vec![];
        for i in w..self.mag.len() {
            let lo = self.mag[i] as u64;
            let hi = *self.mag.get(i + 1).unwrap_or(&0) as u64;
            r.push(((hi << 32 | lo) >> s) as u32);
        }
        Big::new(false, r)
    }

    /// Truncating division of magnitudes, one bit at a time by words: plain
    /// shift-and-subtract on 32-bit quotient digits found by binary search of
    /// the leading words, kept deliberately unlike any library's algorithm.
    fn div_mag(a: &[u32], b: &[u32]) -> (Vec<u32>, Vec<u32>) {
        assert!(!b.is_empty());
        if b.len() == 1 {
            let d = b[0] as u64;
            let mut q = vec![0u32; a.len()];
            let mut r = 0u64;
            for i in (0..a.len()).rev() {
                let cur = r << 32 | a[i] as u64;
                q[i] = (cur / d) as u32;
                r = cur % d;
            }
            let mut r = vec![r as u32];
            trim(&mut q);
            trim(&mut r);
            return (q, r);
        }
        let mut q = vec![0u32; a.len()];
        let mut r: Vec<u32> = vec![];
        for i in (0..a.len()).rev() {
            r.insert(0, a[i]);
            trim(&mut r);
            if cmp_mag(&r, b) == Ordering::Less {
                continue;
            }
            // Repeatedly subtract the largest shifted multiple estimated from
            // below: every estimate is a lower bound, so no correction exists.
            let mut digit = 0u64;
            while cmp_mag(&r, b) != Ordering::Less {
                let top = |v: &[u32], n: usize| -> u128 {
                    let mut t = 0u128;
                    for k in 0..3 {
                        let idx = n as i64 - 1 - k;
                        t = t << 32 | if idx >= 0 { *v.get(idx as usize).unwrap_or(&0) as u128 } else { 0 };
                    }
                    t
                };
                let n = r.len();
                let est = (top(&r, n) / (top(b, n) + 1)).max(1) as u64;
                let mut m = vec![];
                let mut c = 0u128;
                for y in b {
                    c += *y as u128 * est as u128;
                    m.push(c as u32);
                    c >>= 32;
                }
                while c != 0 {
                    m.push(c as u32);
                    c >>= 32;
                }
                r = sub_mag(&r, &m);
                digit += est;
            }
            q[i] = digit as u32;
        }
        trim(&mut q);
        (q, r)
    }

    /// Truncating quotient and remainder.
    pub fn div_rem(&self, o: &Self) -> (Self, Self) {
        let (q, r) = Big::div_mag(&self.mag, &o.mag);
        (Big::new(self.neg != o.neg, q), Big::new(self.neg, r))
    }

    /// Quotient rounded down, remainder with the divisor's sign.
    pub fn div_floor(&self, o: &Self) -> (Self, Self) {
        let (q, r) = self.div_rem(o);
        if !r.is_zero() && (r.neg != o.neg) {
            (q.sub(&Big::from_u64(1)), r.add(o))
        } else {
            (q, r)
        }
    }

    /// Euclidean: remainder never negative.
    pub fn div_euclid(&self, o: &Self) -> (Self, Self) {
        let (q, r) = self.div_rem(o);
        if r.neg {
            if o.neg {
                (q.add(&Big::from_u64(1)), r.sub(o))
            } else {
                (q.sub(&Big::from_u64(1)), r.add(o))
            }
        } else {
            (q, r)
        }
    }

    pub fn cmp(&self, o: &Self) -> Ordering {
        match (self.neg, o.neg) {
            (false, true) => Ordering::Greater,
            (true, false) => Ordering::Less,
            (false, false) => cmp_mag(&self.mag, &o.mag),
            (true, true) => cmp_mag(&o.mag, &self.mag),
        }
    }

    /// Keep the low `bits` bits and read them as the given signedness.
    pub fn wrap(&self, bits: usize, signed: bool) -> Self {
        Big::from_le(&self.to_le(bits / 8), signed)
    }

    pub fn fits(&self, bits: usize, signed: bool) -> bool {
        if signed {
            self.cmp(&max(bits, true)) != Ordering::Greater && self.cmp(&min(bits, true)) != Ordering::Less
        } else {
            !self.neg && self.bits() <= bits
        }
    }

    pub fn low_u128(&self) -> u128 {
        u128::from_le_bytes(self.to_le(16).try_into().unwrap())
    }

    /// Digits, most significant first, lower case, with a leading minus.
    pub fn to_text(&self, radix: u32) -> String {
        if self.is_zero() {
            return "0".into();
        }
        let mut digits = vec![];
        let mut m = self.mag.clone();
        while !m.is_empty() {
            let mut r = 0u64;
            for x in m.iter_mut().rev() {
                let cur = r << 32 | *x as u64;
                *x = (cur / radix as u64) as u32;
                r = cur % radix as u64;
            }
            trim(&mut m);
            digits.push(std::char::from_digit(r as u32, radix).unwrap());
        }
        if self.neg {
            digits.push('-');
        }
        digits.iter().rev().collect()
    }

    /// The value of a run of digits; `None` if empty or not all digits.
    pub fn from_digits(s: &str, radix: u32) -> Option<Self> {
        if s.is_empty() {
            return None;
        }
        let mut mag: Vec<u32> = vec![];
        for ch in s.chars() {
            let mut c = ch.to_digit(radix)? as u64;
            for x in mag.iter_mut() {
                c += *x as u64 * radix as u64;
                *x = c as u32;
                c >>= 32;
            }
            if c != 0 {
                mag.push(c as u32);
            }
        }
        Some(Big::new(false, mag))
    }

    pub fn pow(&self, e: u32) -> Self {
        let mut r = Big::from_u64(1);
        for i in (0..32 - e.leading_zeros()).rev() {
            r = r.mul(&r);
            if e >> i & 1 == 1 {
                r = r.mul(self);
            }
        }
        r
    }

    pub fn hex(&self) -> String {
        let s = self.to_text(16);
        match s.strip_prefix('-') {
            Some(s) => format!("-0x{s}"),
            None => format!("0x{s}"),
        }
    }
}

pub fn max(bits: usize, signed: bool) -> Big {
    Big::pow2(bits - signed as usize).sub(&Big::from_u64(1))
}

pub fn min(bits: usize, signed: bool) -> Big {
    if signed {
        Big::pow2(bits - 1).neg()
    } else {
        Big::zero()
    }
}

/// Check the reference against itself: identities and native arithmetic.
pub fn selfcheck(rng: &mut crate::rng::Rng) -> Result<(), String> {
    let fail = |w: &str| Err(format!("reference integers: {w}"));
    for _ in 0..20000 {
        let a = Big::from_i128(rng.u128() as i128 >> rng.below(128));
        let b = Big::from_i128(rng.u128() as i128 >> rng.below(128));
        let c = Big::from_u128(rng.u128() >> rng.below(128)).shl(rng.below(900) as usize).add(&b);
        if a.add(&c).sub(&c) != a || a.mul(&c) != c.mul(&a) {
            return fail("add/sub/mul");
        }
        if a.add(&b).mul(&c) != a.mul(&c).add(&b.mul(&c)) {
            return fail("distribution");
        }
        if !b.is_zero() {
            let x = a.mul(&c).add(&a);
            for (q, r) in [x.div_rem(&b), x.div_floor(&b), x.div_euclid(&b)] {
                if q.mul(&b).add(&r) != x || r.abs().cmp(&b.abs()) != Ordering::Less {
                    return fail("division");
                }
            }
            let big = b.mul(&c).add(&a);
            if !c.is_zero() {
                let (q, r) = big.div_rem(&c);
                if q.mul(&c).add(&r) != big || r.abs().cmp(&c.abs()) != Ordering::Less {
                    return fail("long division");
                }
            }
        }
        let e = rng.below(9) as u32;
        let mut p = Big::from_u64(1);
        for _ in 0..e {
            p = p.mul(&b);
        }
        if b.pow(e) != p {
            return fail("power");
        }
        let radix = rng.range(2, 36) as u32;
        let t = c.abs().to_text(radix);
        if Big::from_digits(&t, radix) != Some(c.abs()) {
            return fail("text");
        }
        if Big::from_le(&c.to_le(160), true) != c {
            return fail("bytes");
        }
        let k = rng.below(300) as usize;
        if c.shl(k).shr(k) != c || c.shr(k) != c.div_floor(&Big::pow2(k)).0 {
            return fail("shifts");
        }
    }
    for _ in 0..20000 {
        let x = rng.u128() as i128 >> (rng.below(127) + 1);
        let y = rng.u128() as i128 >> (rng.below(127) + 1);
        let (bx, by) = (Big::from_i128(x), Big::from_i128(y));
        if bx.add(&by) != Big::from_i128(x.wrapping_add(y)) || bx.cmp(&by) != x.cmp(&y) {
            return fail("native add/cmp");
        }
        if y != 0 && (bx.div_rem(&by).0 != Big::from_i128(x / y) || bx.div_euclid(&by).1 != Big::from_i128(x.rem_euclid(y))) {
            return fail("native division");
        }
        if (x as i64 as i128 * y as i64 as i128).to_string() != Big::from_i128(x as i64 as i128).mul(&Big::from_i128(y as i64 as i128)).to_text(10) {
            return fail("native multiplication");
        }
    }
    Ok(())
}
