//! What every simulated property shares: plans, the run context, violations.

use std::collections::{BTreeMap, BTreeSet};

use crate::node::Node;
use crate::rng::{Digest, Rng};

/// A plan is a list of lines; every line is self-contained enough that any of
/// them can be left out when a failing plan is minimised.
pub type Plan = Vec<String>;

#[derive(Clone, Debug, PartialEq)]
pub struct Violation {
    /// What kind of failure this is; minimisation keeps it the same.
    pub class: String,
    pub detail: String,
}

pub fn violation<T>(class: impl Into<String>, detail: impl Into<String>) -> Result<T, Violation> {
    Err(Violation { class: class.into(), detail: detail.into() })
}

/// Everything a run can see and everything it leaves behind.
pub struct Cx<'a> {
    pub nodes: &'a [Node],
    pub counters: BTreeMap<String, u64>,
    /// Signatures of the states or schedules this run reached.
    pub seen: BTreeSet<u64>,
    /// Digest of everything observed, for the determinism proof.
    pub log: Digest,
    /// Cases evaluated.
    pub evals: u64,
    /// Which plan line is running (survives a crash of the run).
    pub progress: *mut u32,
}

impl<'a> Cx<'a> {
    pub fn node(&self, name: &str) -> Option<&'a Node> {
        self.nodes.iter().find(|n| n.name == name)
    }

    pub fn count(&mut self, key: &str) {
        self.add(key, 1)
    }

    pub fn add(&mut self, key: &str, n: u64) {
        match self.counters.get_mut(key) {
            Some(v) => *v += n,
            None => {
                self.counters.insert(key.to_string(), n);
            },
        }
    }

    /// A signature that did something: counted as distinct and non-trivial.
    pub fn reach(&mut self, sig: u64) {
        if self.seen.len() < 20000 {
            self.seen.insert(sig);
        }
    }

    pub fn at_line(&mut self, i: usize) {
        unsafe { std::ptr::write_volatile(self.progress, i as u32) }
    }
}

pub trait Engine: Sync {
    fn id(&self) -> &'static str;
    /// Builds of the library this property needs.
    fn builds(&self) -> &'static [&'static str];
    /// How many scenarios a tier runs.
    fn scenarios(&self, thorough: bool) -> u64;
    /// How scenarios are made and what makes one distinct and non-trivial.
    fn rule(&self) -> &'static str;
    fn real(&self) -> &'static [&'static str];
    fn stubs(&self) -> &'static [&'static str];
    /// Counters that must not stay at zero over a whole quick batch.
    fn probes(&self) -> &'static [&'static str];
    /// What a unit of simulated time is, and the counter that measures it.
    fn time(&self) -> (&'static str, &'static str);
    /// Look around once before scenarios are generated.
    fn scout(&self, _seed: u64, _nodes: &[Node]) {}
    fn generate(&self, index: u64, rng: &mut Rng, nodes: &[Node]) -> Plan;
    fn run(&self, plan: &Plan, cx: &mut Cx) -> Result<(), Violation>;
    /// Seconds after which a run counts as hung.
    fn patience(&self) -> u32 {
        20
    }
}

pub fn hex(bytes: &[u8]) -> String {
    let mut s = String::with_capacity(2 + 2 * bytes.len());
    s.push_str("0x");
    let mut lead = true;
    for b in bytes.iter().rev() {
        if lead && *b == 0 {
            continue;
        }
        if lead {
            s.push_str(&format!("{b:x}"));
        } else {
            s.push_str(&format!("{b:02x}"));
        }
        lead = false;
    }
    if lead {
        s.push('0');
    }
    s
}

/// Read a `0x` token into `n` little-endian bytes (excess is dropped).
pub fn unhex(tok: &str, n: usize) -> Vec<u8> {
    let mut r = vec![0u8; n];
    let d: Vec<u8> = tok.trim_start_matches("0x").bytes().rev().map(|c| (c as char).to_digit(16).unwrap_or(0) as u8).collect();
    for (i, x) in d.iter().enumerate() {
        if i / 2 < n {
            r[i / 2] |= x << (4 * (i % 2));
        }
    }
    r
}

pub fn num(tok: &str) -> u128 {
    match tok.strip_prefix("0x") {
        Some(h) => {
            let h = if h.len() > 32 { &h[h.len() - 32..] } else { h };
            u128::from_str_radix(h, 16).unwrap_or(0)
        },
        None => tok.parse().unwrap_or(0),
    }
}

pub fn int(tok: Option<&&str>) -> usize {
    tok.map_or(0, |t| num(t) as usize)
}

pub fn hexn(n: u128) -> String {
    format!("0x{n:x}")
}

/// Raw bytes as a `t:` token.
pub fn blob(b: &[u8]) -> String {
    let mut s = String::from("t:");
    for x in b {
        s.push_str(&format!("{x:02x}"));
    }
    s
}

pub fn unblob(tok: &str) -> Vec<u8> {
    let h: Vec<u8> = tok.trim_start_matches("t:").bytes().map(|c| (c as char).to_digit(16).unwrap_or(0) as u8).collect();
    h.chunks(2).map(|c| c[0] << 4 | c.get(1).copied().unwrap_or(0)).collect()
}

/// A value of `n` bytes, drawn from shapes that reach carries, borrows,
/// quotient corrections and limits.
pub fn value(rng: &mut Rng, n: usize) -> Vec<u8> {
    let mut v = vec![0u8; n];
    match rng.below(13) {
        0 => {
            v[0] = rng.below(4) as u8;
        },
        1 => {
            // limits and their neighbours
            match rng.below(4) {
                0 => v.fill(0xff),
                1 => {
                    v.fill(0xff);
                    v[n - 1] = 0x7f;
                },
                2 => v[n - 1] = 0x80,
                _ => {},
            }
            let d = rng.below(3);
            if d == 1 {
                v[0] ^= 1;
            } else if d == 2 {
                v[0] = v[0].wrapping_sub(1);
            }
        },
        2 => {
            // power of two and neighbours
            let k = rng.below(8 * n as u64) as usize;
            v[k / 8] |= 1 << (k % 8);
            match rng.below(3) {
                0 => {},
                1 => v[0] |= 1,
                _ => {
                    v.fill(0);
                    for i in 0..k {
                        v[i / 8] |= 1 << (i % 8);
                    }
                },
            }
        },
        3 | 4 | 5 => {
            // words of 64 or 32 bits from a small alphabet
            let w = if rng.chance(60) { 8 } else { 4 };
            let live = rng.range(1, (n / w) as u64) as usize;
            for i in 0..live {
                let word: u64 = match rng.below(10) {
                    0 | 1 => 0,
                    2 | 3 => u64::MAX,
                    4 => 1,
                    5 => 1 << (8 * w - 1),
                    6 => u64::MAX - 1,
                    7 => u64::MAX >> 1,
                    8 => rng.below(5),
                    _ => rng.next(),
                };
                let le = word.to_le_bytes();
                // keep the top bit pattern for 32-bit words
                for j in 0..w {
                    v[i * w + j] = if w == 4 && (word == u64::MAX >> 1) && j == 3 { 0x7f } else { le[j] };
                }
            }
        },
        6 => {
            // runs of ones
            let a = rng.below(8 * n as u64);
            let b = rng.below(8 * n as u64);
            for k in a.min(b)..=a.max(b) {
                v[(k / 8) as usize] |= 1 << (k % 8);
            }
        },
        7 => {
            // one non-zero word somewhere
            let k = rng.below((n / 8) as u64) as usize;
            v[8 * k..8 * k + 8].copy_from_slice(&rng.next().to_le_bytes());
        },
        8 => {
            // 64- or 128-bit sized
            let m = *rng.pick(&[1usize, 2, 4, 8, 9, 15, 16, 17]);
            for b in v.iter_mut().take(m) {
                *b = rng.next() as u8;
            }
        },
        9 => {
            // sign-extended small
            v.fill(0xff);
            v[..8].copy_from_slice(&rng.next().to_le_bytes());
        },
        _ => {
            let m = rng.range(1, n as u64) as usize;
            for b in v.iter_mut().take(m) {
                *b = rng.next() as u8;
            }
        },
    }
    v
}

/// A value whose numeral in this radix has structure: runs of zeros, of the
/// highest digit and of random digits, of lengths where digits are grouped.
pub fn structured(rng: &mut Rng, n: usize, radix: u32, signed: bool) -> Vec<u8> {
    use crate::big::Big;
    let r = radix.max(2) as u64;
    let most = crate::big::max(8 * n, signed).to_text(radix).len() as u64;
    let total = if rng.chance(30) { most - rng.below(3) } else { rng.range(1, most) };
    let mut x = Big::zero();
    let mut left = total;
    while left > 0 {
        let run = (*rng.pick(&[1, 1, 2, 4, 8, 9, 10, 16, 18, 19, 20, 27, 32, 38, 39, 64])).min(left);
        left -= run;
        x = x.mul(&Big::from_u64(r).pow(run as u32));
        let top = Big::from_u64(r).pow(run as u32);
        x = x.add(&match rng.below(6) {
            0 | 1 => Big::zero(),
            2 => top.sub(&Big::from_u64(1)),
            3 => Big::from_u64(1),
            4 => Big::from_u64(r - 1).mul(&Big::from_u64(r).pow(run as u32 - 1)),
            _ => Big::from_le(&value(rng, 48), false).div_rem(&top).1,
        });
    }
    while x.bits() > 8 * n - signed as usize {
        x = x.div_rem(&Big::from_u64(r)).0;
    }
    if signed && rng.chance(40) {
        x = x.neg();
    }
    x.wrap(8 * n, false).to_le(n)
}

/// Two values in a relation that matters: products and sums at the limits,
/// quotients with extreme digits, values equal but for a few bits.
pub fn pair(rng: &mut Rng, n: usize, signed: bool) -> (Vec<u8>, Vec<u8>) {
    use crate::big::Big;
    let bits = 8 * n;
    let x = Big::from_le(&value(rng, n), signed);
    let small = Big::from_i128(rng.below(5) as i128 - 2);
    let flip = |rng: &mut Rng, v: Big| if signed && rng.chance(50) { v.neg() } else { v };
    let (a, b) = match rng.below(12) {
        10 | 11 => {
            // sum or difference at a limit
            let low = if signed { Big::pow2(bits - 1).neg() } else { Big::zero() };
            let limit = if rng.chance(50) { low } else { Big::pow2(if signed { bits - 1 } else { bits }) };
            let y = if rng.chance(50) { limit.sub(&x) } else { x.sub(&limit) };
            (x, y.add(&small))
        },
        8 | 9 => {
            // both at the limits
            let mut edge = || {
                let limit = match rng.below(4) {
                    0 | 1 => Big::zero(),
                    2 => Big::pow2(bits - 1),
                    _ => Big::pow2(bits),
                };
                limit.add(&Big::from_i128(rng.below(5) as i128 - 2))
            };
            (edge(), edge())
        },
        0 | 1 if !x.is_zero() => {
            let limit = Big::pow2(if signed { bits - 1 } else { bits });
            let q = limit.div_rem(&x.abs()).0.add(&small);
            (x.clone(), flip(rng, q))
        },
        2 => (x.clone(), flip(rng, x.add(&small))),
        3 => (x.clone(), x.neg().add(&small)),
        4 | 5 => {
            // dividend made from divisor, quotient and remainder
            let y = Big::from_le(&value(rng, n), false);
            let y = y.shr(rng.below(bits as u64) as usize);
            let q = Big::from_le(&value(rng, n), false).shr(y.bits());
            let r = match rng.below(4) {
                0 => Big::zero(),
                1 => y.sub(&Big::from_u64(1)),
                2 => y.shr(1),
                _ => small.clone(),
            };
            (flip(rng, q.mul(&y).add(&r)), flip(rng, y))
        },
        6 => {
            // same top, different below
            let mut v = x.to_le(n);
            let k = rng.below(n as u64) as usize;
            v[k] ^= 1 << rng.below(8);
            (x, Big::from_le(&v, signed))
        },
        _ => {
            let k = rng.below(bits as u64) as usize;
            (x.clone(), x.shl(k).add(&small))
        },
    };
    let (a, b) = (a.wrap(bits, signed).to_le(n), b.wrap(bits, signed).to_le(n));
    if rng.chance(30) {
        (b, a)
    } else {
        (a, b)
    }
}

/// A value in a relation that matters to a number operand: a dividend made
/// from it, a factor that reaches the limit, a neighbour of the limit.
pub fn mate(rng: &mut Rng, n: usize, signed: bool, operand: &crate::big::Big) -> Vec<u8> {
    use crate::big::Big;
    let bits = 8 * n;
    let small = Big::from_i128(rng.below(5) as i128 - 2);
    let d = operand.abs();
    let limit = if signed { Big::pow2(bits - 1) } else { Big::pow2(bits) };
    let x = match rng.below(6) {
        0 | 1 | 2 if !d.is_zero() => {
            let q = Big::from_le(&value(rng, n), false).shr(d.bits());
            let r = match rng.below(4) {
                0 => Big::zero(),
                1 => d.sub(&Big::from_u64(1)),
                2 => d.shr(1),
                _ => small,
            };
            q.mul(&d).add(&r)
        },
        3 if !d.is_zero() => limit.div_rem(&d).0.add(&small),
        4 => limit.sub(&d).add(&small),
        _ => d.add(&small),
    };
    let x = if signed && rng.chance(50) { x.neg() } else { x };
    x.wrap(bits, signed).to_le(n)
}

/// An exponent.
pub fn exponent(rng: &mut Rng) -> u128 {
    match rng.below(20) {
        0..=9 => rng.below(12) as u128,
        10..=13 => rng.below(300) as u128,
        14 => (1u128 << rng.below(33)) - rng.below(2) as u128,
        _ => (rng.next() as u32 >> rng.below(32)) as u128,
    }
}

/// A base whose power is next to the limit of the type.
pub fn root(rng: &mut Rng, n: usize, signed: bool, e: u128) -> Vec<u8> {
    use crate::big::Big;
    let bits = 8 * n - signed as usize;
    let small = Big::from_i128(rng.below(4) as i128 - 1);
    let mut x = Big::zero();
    if e >= 1 && e < bits as u128 {
        let limit = Big::pow2(bits);
        for k in (0..=bits / e as usize).rev() {
            let y = x.add(&Big::pow2(k));
            if y.pow(e as u32).cmp(&limit) != std::cmp::Ordering::Greater {
                x = y;
            }
        }
    }
    let x = x.add(&small);
    let x = if signed && rng.chance(50) { x.neg() } else { x };
    x.wrap(8 * n, signed).to_le(n)
}

/// A number operand: shift amounts, exponents, narrow integers.
pub fn number(rng: &mut Rng, bits: usize) -> u128 {
    match rng.below(12) {
        0 => 0,
        1 => rng.below(4) as u128,
        2 | 3 => rng.below(bits as u64) as u128,
        4 => bits as u128 - 1 + rng.below(3) as u128,
        5 => (rng.below(bits as u64 / 32) * 32) as u128,
        6 => u32::MAX as u128 >> rng.below(3),
        7 => u64::MAX as u128 - rng.below(2) as u128,
        8 => (u128::MAX >> rng.below(2)) - rng.below(3) as u128,
        9 => 1u128 << rng.below(128),
        10 => rng.u128() >> rng.below(128),
        _ => rng.next() as u128 >> rng.below(64),
    }
}
