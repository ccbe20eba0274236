//! The sides of the library that call back into caller-supplied code:
//! formatting sinks, hashers and number sources.

use std::fmt::{self, Write};
use std::hash::{Hash, Hasher};
use std::io;

use crate::abi::{guard, inject_panic, slice, Out, Put, FAILED, UNKNOWN};

/// What a sink does with a piece of text: 0 take it, 1 fail, 2 panic.
pub type SinkFn = extern "C" fn(ctx: *mut u8, p: *const u8, n: u64) -> u32;

/// What a byte stream does with a piece: number of bytes taken, or
/// -1 interrupted, -2 would block, -3 broken, -4 panic.
pub type StreamFn = extern "C" fn(ctx: *mut u8, p: *const u8, n: u64) -> i64;

/// What a number source answers to a query: 0 nothing, 1 a value, 2 panic.
pub type SourceFn = extern "C" fn(ctx: *mut u8, query: u32, value: *mut [u64; 2]) -> u32;

struct Sink {
    f: SinkFn,
    ctx: *mut u8,
}

impl Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        match (self.f)(self.ctx, s.as_ptr(), s.len() as u64) {
            0 => Ok(()),
            1 => Err(fmt::Error),
            _ => inject_panic(),
        }
    }
}

struct Stream {
    f: StreamFn,
    ctx: *mut u8,
}

impl io::Write for Stream {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        match (self.f)(self.ctx, b.as_ptr(), b.len() as u64) {
            -1 => Err(io::ErrorKind::Interrupted.into()),
            -2 => Err(io::ErrorKind::WouldBlock.into()),
            -3 => Err(io::ErrorKind::BrokenPipe.into()),
            n if n >= 0 => Ok(n as usize),
            _ => inject_panic(),
        }
    }

    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

/// Numbers inside other things users print.
#[derive(Debug)]
#[allow(dead_code)]
struct Record<T> {
    id: u32,
    value: T,
    pair: (T, T),
}

macro_rules! variants {
    ($w:ident, $v:ident, $a:ident, $width:ident, $t:literal) => {
        match $v {
            0 => write!($w, concat!("{:", $t, "}"), $a),
            1 => write!($w, concat!("{:#", $t, "}"), $a),
            2 => write!($w, concat!("{:+", $t, "}"), $a),
            3 => write!($w, concat!("{:1$", $t, "}"), $a, $width),
            4 => write!($w, concat!("{:01$", $t, "}"), $a, $width),
            5 => write!($w, concat!("{:#1$", $t, "}"), $a, $width),
            6 => write!($w, concat!("{:#01$", $t, "}"), $a, $width),
            7 => write!($w, concat!("{:*<1$", $t, "}"), $a, $width),
            8 => write!($w, concat!("{:*^1$", $t, "}"), $a, $width),
            9 => write!($w, concat!("{:*>1$", $t, "}"), $a, $width),
            10 => write!($w, concat!("{:é^#1$", $t, "}"), $a, $width),
            _ => write!($w, concat!("{:+#", $t, "}"), $a),
        }
    };
}

macro_rules! specs {
    ($w:ident, $t:expr, $v:expr, $a:ident, $b:ident, $width:ident, $err:ty) => {{
        let v = $v;
        match $t {
            0 => variants!($w, v, $a, $width, ""),
            1 => variants!($w, v, $a, $width, "?"),
            2 => variants!($w, v, $a, $width, "x"),
            3 => variants!($w, v, $a, $width, "X"),
            4 => variants!($w, v, $a, $width, "b"),
            5 => variants!($w, v, $a, $width, "o"),
            6 => variants!($w, v, $a, $width, "e"),
            7 => variants!($w, v, $a, $width, "E"),
            8 => match v {
                0 => write!($w, "{} {}", $a, $b),
                1 => write!($w, "[{:#x}|{:b}]", $a, $b),
                2 => write!($w, "{:?}", [$a, $b]),
                3 => write!($w, "{:?}", Record { id: 7, value: $a, pair: ($b, $a) }),
                4 => write!($w, "{:#?}", Record { id: 7, value: $a, pair: ($b, $a) }),
                5 => write!($w, "{:?}", Some($a)),
                6 => write!($w, "{0}+{1}={0:o}", $a, $b),
                7 => write!($w, "{:#x?}", ($a, $b)),
                _ => write!($w, "{:e},{:E}", $a, $b),
            },
            _ => unreachable!(),
        }
    }};
}

fn fmt_sink<T>(w: &mut Sink, t: u32, v: u32, a: T, b: T, width: usize) -> fmt::Result
where
    T: Copy
        + fmt::Display
        + fmt::Debug
        + fmt::LowerHex
        + fmt::UpperHex
        + fmt::Binary
        + fmt::Octal
        + fmt::LowerExp
        + fmt::UpperExp,
{
    specs!(w, t, v, a, b, width, fmt::Error)
}

fn fmt_stream<T>(w: &mut Stream, t: u32, v: u32, a: T, b: T, width: usize) -> io::Result<()>
where
    T: Copy
        + fmt::Display
        + fmt::Debug
        + fmt::LowerHex
        + fmt::UpperHex
        + fmt::Binary
        + fmt::Octal
        + fmt::LowerExp
        + fmt::UpperExp,
{
    use io::Write;
    specs!(w, t, v, a, b, width, io::Error)
}

/// Format into a scripted text sink.
/// # Safety
/// Operands as in `node_op`.
#[no_mangle]
pub unsafe extern "C" fn node_fmt(ty: u32, t: u32, v: u32, width: u32, a: *const u8, b: *const u8, f: SinkFn, ctx: *mut u8) -> u32 {
    let mut sink = Sink { f, ctx };
    with_type!(ty, T, m => {
        const BYTES: usize = (T::BITS / 8) as usize;
        let x = T::from_le_bytes(slice(a, BYTES).try_into().unwrap());
        let y = T::from_le_bytes(slice(b, BYTES).try_into().unwrap());
        let mut failed = false;
        let status = guard(|| failed = fmt_sink(&mut sink, t, v, x, y, width as usize).is_err());
        if status == 0 && failed { FAILED } else { status }
    }, UNKNOWN)
}

/// Format into a scripted byte stream.
/// # Safety
/// Operands as in `node_op`.
#[no_mangle]
pub unsafe extern "C" fn node_fmt_io(ty: u32, t: u32, v: u32, width: u32, a: *const u8, b: *const u8, f: StreamFn, ctx: *mut u8) -> u32 {
    let mut stream = Stream { f, ctx };
    with_type!(ty, T, m => {
        const BYTES: usize = (T::BITS / 8) as usize;
        let x = T::from_le_bytes(slice(a, BYTES).try_into().unwrap());
        let y = T::from_le_bytes(slice(b, BYTES).try_into().unwrap());
        let mut failed = false;
        let status = guard(|| failed = fmt_stream(&mut stream, t, v, x, y, width as usize).is_err());
        if status == 0 && failed { FAILED } else { status }
    }, UNKNOWN)
}

/// Print the error a refused text produces: `how` 0 `{}`, 1 `{:?}`, 2 `{:#?}`,
/// 3 the conversion error instead.
/// # Safety
/// `text` points at `len` bytes of UTF-8.
#[no_mangle]
pub unsafe extern "C" fn node_fmt_error(ty: u32, how: u32, text: *const u8, len: u32, f: SinkFn, ctx: *mut u8) -> u32 {
    let mut sink = Sink { f, ctx };
    let s = match std::str::from_utf8(slice(text, len as usize)) {
        Ok(s) => s,
        Err(_) => return UNKNOWN,
    };
    with_type!(ty, T, m => {
        let mut failed = false;
        let status = guard(|| {
            failed = match (T::from_str_radix(s, 10), how) {
                (Err(e), 0) => write!(sink, "{e}").is_err(),
                (Err(e), 1) => write!(sink, "{e:?}").is_err(),
                (Err(e), 2) => write!(sink, "{e:#?}").is_err(),
                (Err(e), 4) => write!(sink, "{e:60}").is_err(),
                (Err(e), 5) => write!(sink, "{e:>50.9}").is_err(),
                (Err(e), 6) => write!(sink, "{:?}", e.kind()).is_err(),
                (_, 3 | 7 | 8 | 9) => match (::i256::U256::try_from(::i256::I256::MIN), how) {
                    (Err(e), 3) => write!(sink, "{e}").is_err(),
                    (Err(e), 7) => write!(sink, "{e:^70}").is_err(),
                    (Err(e), 8) => write!(sink, "{e:*<9.3}").is_err(),
                    (Err(e), _) => write!(sink, "[{e:.4}] {e:1}").is_err(),
                    (Ok(_), _) => false,
                },
                (_, 10) => match s.parse::<u8>() {
                    Err(e) => write!(sink, "{:55}", ::i256::ParseIntError::from(e)).is_err(),
                    Ok(_) => false,
                },
                _ => false,
            }
        });
        if status == 0 && failed { FAILED } else { status }
    }, UNKNOWN)
}

struct Scripted {
    f: SinkFn,
    ctx: *mut u8,
}

impl Hasher for Scripted {
    fn write(&mut self, b: &[u8]) {
        if (self.f)(self.ctx, b.as_ptr(), b.len() as u64) != 0 {
            inject_panic()
        }
    }

    fn finish(&self) -> u64 {
        0
    }
}

/// Feed a value held in caller memory to a scripted hasher. `how` 0 the value,
/// 1 a slice of it twice, 2 inside a tuple.
/// # Safety
/// `reg` points at a value of the type.
#[no_mangle]
pub unsafe extern "C" fn node_hash(ty: u32, how: u32, reg: *const u8, f: SinkFn, ctx: *mut u8) -> u32 {
    let mut h = Scripted { f, ctx };
    with_type!(ty, T, m => {
        let x = &*(reg as *const T);
        guard(|| match how {
            0 => x.hash(&mut h),
            1 => Hash::hash_slice(&[*x, *x], &mut h),
            _ => (x, 5u8).hash(&mut h),
        })
    }, UNKNOWN)
}

struct Source {
    f: SourceFn,
    ctx: *mut u8,
}

impl Source {
    fn ask(&self, query: u32) -> Option<u128> {
        let mut v = [0u64; 2];
        match (self.f)(self.ctx, query, &mut v) {
            0 => None,
            1 => Some(v[0] as u128 | (v[1] as u128) << 64),
            _ => inject_panic(),
        }
    }
}

impl num_traits::ToPrimitive for Source {
    fn to_i8(&self) -> Option<i8> {
        self.ask(0).map(|x| x as i8)
    }
    fn to_i16(&self) -> Option<i16> {
        self.ask(1).map(|x| x as i16)
    }
    fn to_i32(&self) -> Option<i32> {
        self.ask(2).map(|x| x as i32)
    }
    fn to_i64(&self) -> Option<i64> {
        self.ask(3).map(|x| x as i64)
    }
    fn to_i128(&self) -> Option<i128> {
        self.ask(4).map(|x| x as i128)
    }
    fn to_isize(&self) -> Option<isize> {
        self.ask(5).map(|x| x as isize)
    }
    fn to_u8(&self) -> Option<u8> {
        self.ask(6).map(|x| x as u8)
    }
    fn to_u16(&self) -> Option<u16> {
        self.ask(7).map(|x| x as u16)
    }
    fn to_u32(&self) -> Option<u32> {
        self.ask(8).map(|x| x as u32)
    }
    fn to_u64(&self) -> Option<u64> {
        self.ask(9).map(|x| x as u64)
    }
    fn to_u128(&self) -> Option<u128> {
        self.ask(10)
    }
    fn to_usize(&self) -> Option<usize> {
        self.ask(11).map(|x| x as usize)
    }
    fn to_f32(&self) -> Option<f32> {
        self.ask(12).map(|x| f32::from_bits(x as u32))
    }
    fn to_f64(&self) -> Option<f64> {
        self.ask(13).map(|x| f64::from_bits(x as u64))
    }
}

/// Convert from a scripted number source.
/// # Safety
/// `out` is a valid result.
#[no_mangle]
pub unsafe extern "C" fn node_numcast(ty: u32, f: SourceFn, ctx: *mut u8, out: *mut Out) -> u32 {
    let o = &mut *out;
    o.some = 0;
    o.flag = 0;
    o.len = 0;
    o.aux = 0;
    let source = Source { f, ctx };
    with_type!(ty, T, m => guard(|| <T as num_traits::NumCast>::from(source).put(o)), UNKNOWN)
}
