//! One call into the library with everything it needs prepared beforehand, so
//! that making it allocates nothing and can be interrupted anywhere.

use crate::engine::*;
use crate::node::{self, Node, Out};
use crate::rng::Rng;

pub const SINK: usize = 12 << 10;

/// A sink that collects text and may refuse or panic from some byte on.
#[repr(C)]
pub struct Collect {
    pub buf: [u8; SINK],
    pub len: usize,
    /// Refuse the piece that would go past this many bytes.
    pub limit: usize,
    /// 1 refuse, 2 panic.
    pub how: u32,
    pub refused: u32,
    /// Pieces offered after the first refusal.
    pub after: u32,
}

impl Collect {
    pub fn new(limit: usize, how: u32) -> Box<Collect> {
        Box::new(Collect { buf: [0; SINK], len: 0, limit, how, refused: 0, after: 0 })
    }

    pub fn clear(&mut self) {
        self.len = 0;
        self.refused = 0;
        self.after = 0;
    }
}

pub extern "C" fn collect(ctx: *mut u8, p: *const u8, n: u64) -> u32 {
    unsafe {
        let c = &mut *(ctx as *mut Collect);
        let n = n as usize;
        if c.refused > 0 {
            c.after += 1;
        }
        if c.len + n > c.limit {
            c.refused += 1;
            return c.how;
        }
        let m = n.min(SINK - c.len);
        std::ptr::copy_nonoverlapping(p, c.buf.as_mut_ptr().add(c.len), m);
        c.len += m;
        0
    }
}

/// A source that answers queries from a value, refusing one of them.
#[repr(C)]
pub struct Supply {
    pub value: i128,
    /// This query is refused or panics.
    pub query: u32,
    pub how: u32,
}

pub extern "C" fn supply(ctx: *mut u8, query: u32, out: *mut [u64; 2]) -> u32 {
    unsafe {
        let s = &*(ctx as *const Supply);
        if s.query == query {
            return s.how;
        }
        let v = s.value;
        let some = match query {
            0 => i8::try_from(v).is_ok(),
            1 => i16::try_from(v).is_ok(),
            2 => i32::try_from(v).is_ok(),
            3 | 5 => i64::try_from(v).is_ok(),
            4 => true,
            6 => u8::try_from(v).is_ok(),
            7 => u16::try_from(v).is_ok(),
            8 => u32::try_from(v).is_ok(),
            9 | 11 => u64::try_from(v).is_ok(),
            10 => v >= 0,
            12 => {
                *out = [(v as f32).to_bits() as u64, 0];
                return 1;
            },
            _ => {
                *out = [(v as f64).to_bits(), 0];
                return 1;
            },
        };
        *out = [v as u64, (v >> 64) as u64];
        some as u32
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Op(usize),
    Do(usize),
    Encode(u32),
    Decode(u32),
    Parse(u32),
    Fmt(u32, u32, u32),
    Error(u32),
    Render(u32),
    Hash(u32),
    Cast,
}

pub struct Call<'a> {
    pub node: &'a Node,
    pub ty: usize,
    pub name: String,
    kind: Kind,
    a: Vec<u8>,
    b: Vec<u8>,
    n: u128,
    text: Vec<u8>,
    out: Box<Out>,
    sink: Box<Collect>,
    reg: Vec<u64>,
    reg2: Vec<u64>,
    buf: Vec<u8>,
    source: Box<Supply>,
    pub status: u32,
    place: (i64, u64),
}

impl<'a> Call<'a> {
    /// From the tokens of a plan line: `op U256 name a b n` and so on.
    pub fn parse(node: &'a Node, t: &[&str]) -> Option<Call<'a>> {
        let ty = node::TYPES.iter().position(|x| Some(x) == t.get(1))?;
        let w = node::bytes(ty);
        let val = |i: usize| unhex(t.get(i).unwrap_or(&"0x0"), w);
        let mut c = Call {
            node,
            ty,
            name: format!("{}:{}", t[0], t.get(2).unwrap_or(&"")),
            kind: Kind::Cast,
            a: vec![0; w],
            b: vec![0; w],
            n: 0,
            text: vec![],
            out: Out::new(),
            sink: Collect::new(SINK, 1),
            reg: vec![0; 32],
            reg2: vec![0; 32],
            buf: vec![],
            source: Box::new(Supply { value: 0, query: 99, how: 0 }),
            status: 0,
            place: (-1, 0),
        };
        match t[0] {
            "op" | "do" => {
                c.kind = if t[0] == "op" { Kind::Op(node.op_index(ty, t.get(2)?)?) } else { Kind::Do(node.inplace_index(ty, t.get(2)?)?) };
                c.a = val(3);
                c.b = val(4);
                c.n = num(t.get(5).unwrap_or(&"0"));
            },
            "enc" => {
                c.kind = Kind::Encode(int(t.get(2)) as u32 % 12);
                c.a = val(3);
            },
            "dec" => {
                c.kind = Kind::Decode(int(t.get(2)) as u32 % 12);
                c.text = unblob(t.get(3).unwrap_or(&"t:"));
            },
            "parse" => {
                let how = int(t.get(2)) as u32;
                c.kind = Kind::Parse(if how > 36 { 10 } else { how });
                c.text = unblob(t.get(3).unwrap_or(&"t:"));
            },
            "fmt" => {
                let (tr, v) = (int(t.get(2)) as u32 % 9, int(t.get(3)) as u32);
                c.kind = Kind::Fmt(tr, v % if tr == 8 { 9 } else { 12 }, (int(t.get(4)) % 2000) as u32);
                c.a = val(5);
                c.b = val(6);
                c.name = format!("fmt:{tr}");
                if let Some(limit) = t.get(7) {
                    c.sink.limit = num(limit) as usize;
                    c.sink.how = 1 + int(t.get(8)) as u32 % 2;
                }
            },
            "err" => {
                c.kind = Kind::Error(int(t.get(2)) as u32 % 11);
                c.text = unblob(t.get(3).unwrap_or(&"t:"));
            },
            "render" => {
                let radix = int(t.get(2)) as u32;
                c.kind = Kind::Render(radix);
                c.name = "render".into();
                c.a = val(3);
                let len = t.get(4).map_or(8 * w + 1, |x| num(x) as usize).min(4096);
                c.buf = vec![0x5a; len];
            },
            "hash" => {
                c.kind = Kind::Hash(int(t.get(2)) as u32 % 3);
                c.a = val(3);
                if let Some(limit) = t.get(4) {
                    c.sink.limit = num(limit) as usize;
                    c.sink.how = 2;
                }
            },
            "cast" => {
                c.kind = Kind::Cast;
                c.source.value = num(t.get(2).unwrap_or(&"0")) as i128;
                c.source.query = t.get(3).map_or(99, |x| num(x) as u32);
                c.source.how = if int(t.get(4)) % 2 == 0 { 0 } else { 2 };
                c.name = "cast".into();
            },
            _ => return None,
        }
        Some(c)
    }

    /// Make the call. Allocates nothing itself.
    pub fn make(&mut self) {
        let ty = self.ty as u32;
        let api = &self.node.api;
        let n = self.n.to_le_bytes();
        self.out.clear();
        self.sink.clear();
        self.place = (-1, 0);
        let ctx = &mut *self.sink as *mut Collect as *mut u8;
        let out: *mut Out = &mut *self.out;
        unsafe {
            self.status = match self.kind {
                Kind::Op(op) => (api.op)(ty, op as u32, self.a.as_ptr(), self.b.as_ptr(), n.as_ptr(), out),
                Kind::Do(op) => {
                    let (p, q) = (self.reg.as_mut_ptr() as *mut u8, self.reg2.as_mut_ptr() as *mut u8);
                    (api.reg_set)(ty, p, self.a.as_ptr());
                    (api.reg_set)(ty, q, self.b.as_ptr());
                    let s = (api.inplace)(ty, op as u32, p, q, n.as_ptr());
                    (api.reg_get)(ty, p, self.out.v0.as_mut_ptr());
                    s
                },
                Kind::Encode(e) => (api.encode)(ty, e, self.a.as_ptr(), out),
                Kind::Decode(e) => (api.decode)(ty, e, self.text.as_ptr(), self.text.len() as u32, out),
                Kind::Parse(h) => (api.parse)(ty, h, self.text.as_ptr(), self.text.len() as u32, out),
                Kind::Fmt(t, v, w) => (api.fmt)(ty, t, v, w, self.a.as_ptr(), self.b.as_ptr(), collect, ctx),
                Kind::Error(h) => (api.fmt_error)(ty, h, self.text.as_ptr(), self.text.len() as u32, collect, ctx),
                Kind::Render(r) => {
                    self.buf.fill(0x5a);
                    (api.render)(ty, self.a.as_ptr(), r, self.buf.as_mut_ptr(), self.buf.len() as u64, &mut self.place.0, &mut self.place.1)
                },
                Kind::Hash(h) => {
                    let p = self.reg.as_mut_ptr() as *mut u8;
                    (api.reg_set)(ty, p, self.a.as_ptr());
                    (api.hash)(ty, h, p, collect, ctx)
                },
                Kind::Cast => (api.numcast)(ty, supply, &mut *self.source as *mut Supply as *mut u8, out),
            }
        }
    }

    /// Everything the caller can see of how the call ended.
    pub fn outcome(&self) -> Vec<u8> {
        let mut v = vec![self.status as u8];
        if self.status == node::RETURNED || matches!(self.kind, Kind::Do(_)) {
            // what a panicking call left half-written is nobody's to read
            v.extend_from_slice(&self.out.image());
        }
        v.extend_from_slice(&self.sink.buf[..self.sink.len]);
        if self.status == node::RETURNED && self.place.0 >= 0 {
            let at = self.place.0 as usize;
            v.extend_from_slice(&self.buf[at..at + self.place.1 as usize]);
        }
        v
    }

    pub fn describe(&self) -> String {
        let status = ["returned", "panicked", "unknown", "failed", "passed on an injected panic"].get(self.status as usize).unwrap_or(&"?").to_string();
        let n = node::bytes(self.ty);
        let mut s = format!("{status} some={} {}", self.out.some, hex(&self.out.v0[..n]));
        if self.out.num != [0, 0] {
            s.push_str(&format!(" num={:#x}:{:x}", self.out.num[1], self.out.num[0]));
        }
        if self.out.len > 0 {
            s.push_str(&format!(" text={:?}", String::from_utf8_lossy(&self.out.text()[..self.out.text().len().min(120)])));
        }
        if self.sink.len > 0 {
            s.push_str(&format!(" sink={:?}", String::from_utf8_lossy(&self.sink.buf[..self.sink.len.min(120)])));
        }
        s
    }
}

/// A value small enough that turning it into digits does not take forever.
fn short(rng: &mut Rng, n: usize, wide: bool) -> Vec<u8> {
    let mut v = value(rng, n);
    let bytes = 8;
    if rng.chance(if wide { 20 } else { 85 }) {
        let keep = rng.range(0, bytes.min(n as u64)) as usize;
        v[keep..].fill(0);
    }
    v
}

pub fn numeral(rng: &mut Rng, radix: u32, max: u64) -> Vec<u8> {
    let mut t = vec![];
    match rng.below(6) {
        0 => t.push(b'-'),
        1 => t.push(b'+'),
        _ => {},
    }
    for _ in 0..rng.below(max) {
        let d = rng.below(radix as u64) as u32;
        t.push(std::char::from_digit(d, radix).unwrap() as u8);
    }
    if rng.chance(10) && !t.is_empty() {
        let k = rng.below(t.len() as u64) as usize;
        t[k] = *rng.pick(b"g_ +-./:@`{zZ");
    }
    t
}

/// A random call as plan tokens. `text` is how often (percent) it is one of
/// the calls that handle text, hashes or sources; `wide` asks for long texts.
pub fn random(rng: &mut Rng, node: &Node, ty: usize, text: u64, wide: bool) -> String {
    let bytes = node::bytes(ty);
    let bits = node::bits(ty);
    let name = node::TYPES[ty];
    if !rng.chance(text) {
        let table = rng.chance(75);
        let op = if table { rng.pick(&node.ops[ty]) } else { rng.pick(&node.inplace[ty]) };
        let (mut a, mut b) = if rng.chance(40) { pair(rng, bytes, node::signed(ty)) } else { (value(rng, bytes), value(rng, bytes)) };
        if op.has('d') && rng.chance(5) {
            b.fill(0);
        }
        if op.has('y') {
            b.fill(0);
            b[0] = rng.next() as u8;
        }
        let n = if op.has('p') {
            if wide { exponent(rng) } else { rng.below(12) as u128 }
        } else if op.has('s') && rng.chance(80) {
            rng.below(bits as u64) as u128
        } else {
            number(rng, bits)
        };
        if op.name.contains("pow") && rng.chance(70) {
            a = short(rng, bytes, false);
            a[4..].fill(0);
        }
        return format!("{} {name} {} {} {} {}", if table { "op" } else { "do" }, op.name, hex(&a), hex(&b), hexn(n));
    }
    let most = if wide { 1200 } else { 60 };
    match rng.below(13) {
        0 | 1 | 2 => {
            let t = rng.below(9);
            let v = rng.below(if t == 8 { 9 } else { 12 });
            format!("fmt {name} {t} {v} {} {} {}", rng.below(most), hex(&short(rng, bytes, wide)), hex(&short(rng, bytes, wide)))
        },
        3 => {
            let t = rng.below(9);
            let v = rng.below(if t == 8 { 9 } else { 12 });
            format!("fmt {name} {t} {v} {} {} {} {} {}", rng.below(most), hex(&short(rng, bytes, wide)), hex(&short(rng, bytes, wide)), rng.below(24), rng.below(2))
        },
        4 | 5 => {
            let how = rng.below(37);
            let radix = if how < 2 { 10 } else { how as u32 };
            let max = if wide { node::bits(ty) as u64 / 3 + 8 } else if rng.chance(80) { 12 } else { 90 };
            format!("parse {name} {how} {}", blob(&numeral(rng, radix, max)))
        },
        6 | 7 => format!("enc {name} {} {}", rng.below(12), hex(&short(rng, bytes, wide))),
        8 => {
            let e = *rng.pick(&[0u64, 1, 2, 3, 4, 9, 10]);
            let mut d = vec![0u8; bytes];
            d.iter_mut().for_each(|x| *x = rng.next() as u8);
            format!("dec {name} {e} {}", blob(&d))
        },
        9 => {
            let radix = if rng.chance(90) { rng.range(2, 36) } else { rng.below(40) };
            format!("render {name} {radix} {}", hex(&short(rng, bytes, wide)))
        },
        10 => {
            if rng.chance(70) {
                format!("hash {name} {} {}", rng.below(3), hex(&value(rng, bytes)))
            } else {
                format!("hash {name} {} {} {}", rng.below(3), hex(&value(rng, bytes)), rng.below(40))
            }
        },
        11 => format!("err {name} {} {}", rng.below(11), blob(&numeral(rng, 10, 4))),
        _ => {
            let v = rng.u128() >> rng.below(128);
            if rng.chance(70) {
                format!("cast {name} {}", hexn(v))
            } else {
                format!("cast {name} {} {} {}", hexn(v), rng.below(14), rng.below(2))
            }
        },
    }
}

/// A call like this one, differing in something small: the kind of pair that
/// state kept between calls would confuse.
pub fn relative(rng: &mut Rng, node: &Node, line: &str) -> String {
    let mut t: Vec<String> = line.split_whitespace().map(|s| s.to_string()).collect();
    let ty = node::TYPES.iter().position(|x| *x == t[1]).unwrap_or(0);
    let hexes: Vec<usize> = (2..t.len()).filter(|i| t[*i].starts_with("0x")).collect();
    match rng.below(8) {
        0 if t[0] != "dec" => {
            // same words, another type
            let other = rng.below(8) as usize;
            t[1] = node::TYPES[other].into();
            if t[0] == "op" && node.op_index(other, &t[2]).is_none() || t[0] == "do" && node.inplace_index(other, &t[2]).is_none() {
                t[1] = node::TYPES[ty].into();
            }
        },
        1 if hexes.len() >= 2 => t.swap(hexes[0], hexes[1]),
        2 if t[0] == "op" => {
            // a neighbour in the table: usually the same family
            if let Some(k) = node.op_index(ty, &t[2]) {
                let d = rng.range(1, 6) as usize;
                let k = if rng.chance(50) { k.saturating_sub(d) } else { (k + d).min(node.ops[ty].len() - 1) };
                t[2] = node.ops[ty][k].name.clone();
            }
        },
        3 if matches!(t[0].as_str(), "fmt" | "parse" | "enc" | "render" | "hash") => {
            let m = match t[0].as_str() {
                "fmt" => 8,
                "parse" => 37,
                "render" => 37,
                "hash" => 3,
                _ => 12,
            };
            t[2] = rng.below(m).to_string();
        },
        _ => {
            if !hexes.is_empty() {
                let i = *rng.pick(&hexes);
                let n = if i + 1 == t.len() && matches!(t[0].as_str(), "op" | "do") { 16 } else { node::bytes(ty) };
                let mut v = unhex(&t[i], n);
                match rng.below(5) {
                    0 => v[0] ^= 1 << rng.below(8),
                    1 => {
                        let k = rng.below(n as u64) as usize;
                        v[k] ^= 1 << rng.below(8);
                    },
                    2 => {
                        // same lowest word, different above
                        let keep = (*rng.pick(&[4usize, 8, 16])).min(n);
                        for x in v[keep..].iter_mut() {
                            *x = if rng.chance(30) { 0 } else { rng.next() as u8 };
                        }
                    },
                    3 => {
                        // same highest words, different below
                        let keep = n - (*rng.pick(&[4usize, 8, 16])).min(n);
                        for x in v[..keep].iter_mut() {
                            *x = rng.next() as u8;
                        }
                    },
                    _ => v = value(rng, n),
                }
                t[i] = hex(&v);
            } else if let Some(i) = (2..t.len()).find(|i| t[*i].starts_with("t:")) {
                let mut v = unblob(&t[i]);
                if !v.is_empty() {
                    let k = rng.below(v.len() as u64) as usize;
                    match rng.below(3) {
                        0 if t[0] != "dec" => v.truncate(k),
                        _ => v[k] = if t[0] == "dec" { rng.next() as u8 } else { b'0' + rng.below(10) as u8 },
                    }
                }
                t[i] = blob(&v);
            }
        },
    }
    t.join(" ")
}
