//! The C interface and the pieces every call shares.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cmp::Ordering;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering as Mem};

pub const MAX_BYTES: usize = 128;
pub const MAX_TEXT: usize = 2304;

pub const RETURNED: u32 = 0;
pub const PANICKED: u32 = 1;
pub const UNKNOWN: u32 = 2;
/// The call reported failure to its caller.
pub const FAILED: u32 = 3;
/// A panic raised by a simulated component came through.
pub const INJECTED: u32 = 4;

/// Where an operation leaves what it returned.
#[repr(C)]
pub struct Out {
    pub some: u32,
    pub flag: u32,
    pub len: u32,
    pub aux: u32,
    pub num: [u64; 2],
    pub v0: [u8; MAX_BYTES],
    pub v1: [u8; MAX_BYTES],
    pub text: [u8; MAX_TEXT],
}

impl Out {
    #[inline]
    pub fn push_bytes(&mut self, bytes: &[u8]) {
        for b in bytes {
            let n = self.len as usize;
            if n < MAX_TEXT {
                self.text[n] = *b;
            }
            self.len += 1;
        }
    }
}

/// A sink into the result's own text area: no allocation, never fails.
impl std::fmt::Write for Out {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.push_bytes(s.as_bytes());
        Ok(())
    }
}

/// Store whatever an operation returns.
pub trait Put {
    fn put(self, o: &mut Out);
}

use ::i256::{I1024 as S1024, I256 as S256, I384 as S384, I512 as S512, U1024 as B1024, U256 as B256, U384 as B384, U512 as B512};

macro_rules! put_big {
    ($($t:ty)*) => ($(
        impl Put for $t {
            #[inline]
            fn put(self, o: &mut Out) {
                let b = self.to_le_bytes();
                o.v0[..b.len()].copy_from_slice(&b);
                o.some = 1;
            }
        }
        impl Put for ($t, $t) {
            #[inline]
            fn put(self, o: &mut Out) {
                let b = self.1.to_le_bytes();
                o.v1[..b.len()].copy_from_slice(&b);
                self.0.put(o);
            }
        }
        impl Put for ($t, u32) { #[inline] fn put(self, o: &mut Out) { self.1.put(o); self.0.put(o); } }
        impl Put for ($t, u64) { #[inline] fn put(self, o: &mut Out) { self.1.put(o); self.0.put(o); } }
        impl Put for ($t, u128) { #[inline] fn put(self, o: &mut Out) { self.1.put(o); self.0.put(o); } }
        impl Put for ($t, i32) { #[inline] fn put(self, o: &mut Out) { self.1.put(o); self.0.put(o); } }
        impl Put for ($t, i64) { #[inline] fn put(self, o: &mut Out) { self.1.put(o); self.0.put(o); } }
        impl Put for ($t, i128) { #[inline] fn put(self, o: &mut Out) { self.1.put(o); self.0.put(o); } }
    )*);
}
put_big! { B256 S256 B384 S384 B512 S512 B1024 S1024 }

macro_rules! put_int {
    ($($t:ty)*) => ($(
        impl Put for $t {
            #[inline]
            fn put(self, o: &mut Out) {
                let v = self as i128 as u128;
                o.num = [v as u64, (v >> 64) as u64];
                o.some = 1;
            }
        }
    )*);
}
put_int! { u8 u16 u32 u64 u128 i8 i16 i32 i64 i128 usize isize }

impl Put for bool {
    #[inline]
    fn put(self, o: &mut Out) {
        o.flag = self as u32;
        o.some = 1;
    }
}

impl Put for Ordering {
    #[inline]
    fn put(self, o: &mut Out) {
        o.num[0] = match self {
            Ordering::Less => 1,
            Ordering::Equal => 2,
            Ordering::Greater => 3,
        };
        o.some = 1;
    }
}

impl<T: Put> Put for Option<T> {
    #[inline]
    fn put(self, o: &mut Out) {
        match self {
            Some(v) => v.put(o),
            None => o.some = 0,
        }
    }
}

impl<T: Put> Put for (T, bool) {
    #[inline]
    fn put(self, o: &mut Out) {
        self.0.put(o);
        o.flag = self.1 as u32;
    }
}

/// A number for each way of refusing.
pub trait Refusal {
    fn number(&self) -> u32;
}

impl Refusal for ::i256::ParseIntError {
    fn number(&self) -> u32 {
        match self.kind() {
            ::i256::IntErrorKind::Empty => 1,
            ::i256::IntErrorKind::InvalidDigit => 2,
            ::i256::IntErrorKind::PosOverflow => 3,
            ::i256::IntErrorKind::NegOverflow => 4,
            _ => 5,
        }
    }
}

impl Refusal for ::i256::TryFromIntError {
    fn number(&self) -> u32 {
        6
    }
}

impl Refusal for std::convert::Infallible {
    fn number(&self) -> u32 {
        7
    }
}

impl<T: Put, E: Refusal> Put for Result<T, E> {
    #[inline]
    fn put(self, o: &mut Out) {
        match self {
            Ok(v) => v.put(o),
            Err(e) => {
                o.some = 0;
                o.aux = e.number();
            },
        }
    }
}

// ---------------------------------------------------------------------------
// The simulated allocator.

/// 0: serve everything; 1: refuse once `ALLOC_LEFT` reaches zero; 2: refuse
/// the requests whose bit in `ALLOC_LEFT` is set.
static ALLOC_MODE: AtomicU32 = AtomicU32::new(0);
static ALLOC_LEFT: AtomicU64 = AtomicU64::new(0);
static ALLOC_REQUESTS: AtomicU64 = AtomicU64::new(0);
static ALLOC_REFUSED: AtomicU64 = AtomicU64::new(0);
static PANICS: AtomicU32 = AtomicU32::new(0);

struct SimAlloc;

fn refuse() -> bool {
    let mode = ALLOC_MODE.load(Mem::Relaxed);
    if mode == 0 {
        return false;
    }
    let request = ALLOC_REQUESTS.fetch_add(1, Mem::Relaxed);
    let left = ALLOC_LEFT.load(Mem::Relaxed);
    if mode == 2 {
        let no = left >> (request % 64) & 1 == 1;
        ALLOC_REFUSED.fetch_add(no as u64, Mem::Relaxed);
        return no;
    }
    if left == 0 {
        ALLOC_REFUSED.fetch_add(1, Mem::Relaxed);
        return true;
    }
    ALLOC_LEFT.store(left - 1, Mem::Relaxed);
    false
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        if refuse() {
            return std::ptr::null_mut();
        }
        System.alloc(layout)
    }

    unsafe fn dealloc(&self, ptr: *mut u8, layout: Layout) {
        System.dealloc(ptr, layout)
    }

    unsafe fn realloc(&self, ptr: *mut u8, layout: Layout, size: usize) -> *mut u8 {
        if refuse() {
            return std::ptr::null_mut();
        }
        System.realloc(ptr, layout, size)
    }
}

#[global_allocator]
static GLOBAL: SimAlloc = SimAlloc;

/// Arm the allocator: refuse every request after the next `grant` ones.
#[no_mangle]
pub extern "C" fn node_alloc_arm(grant: u64) {
    ALLOC_REQUESTS.store(0, Mem::Relaxed);
    ALLOC_REFUSED.store(0, Mem::Relaxed);
    ALLOC_LEFT.store(grant, Mem::Relaxed);
    ALLOC_MODE.store(1, Mem::Relaxed);
}

/// Arm the allocator: refuse the requests whose bit is set.
#[no_mangle]
pub extern "C" fn node_alloc_pattern(mask: u64) {
    node_alloc_arm(mask);
    ALLOC_MODE.store(2, Mem::Relaxed);
}

/// Disarm; returns (requests << 32 | refused) seen while armed.
#[no_mangle]
pub extern "C" fn node_alloc_disarm() -> u64 {
    ALLOC_MODE.store(0, Mem::Relaxed);
    let a = ALLOC_REQUESTS.load(Mem::Relaxed);
    let b = ALLOC_REFUSED.load(Mem::Relaxed);
    (a << 32) | (b & 0xffff_ffff)
}

/// Make one request, so that the fault itself can be tested. 1 if refused.
#[no_mangle]
pub extern "C" fn node_alloc_probe() -> u32 {
    unsafe {
        let l = Layout::from_size_align_unchecked(64, 8);
        let p = std::hint::black_box(std::alloc::alloc(l));
        if p.is_null() {
            return 1;
        }
        std::alloc::dealloc(p, l);
    }
    0
}

// ---------------------------------------------------------------------------
// Set-up and identification.

/// Panics stay silent; a panic in progress suspends allocator faults, since
/// the panic machinery of the harness itself allocates.
#[no_mangle]
pub extern "C" fn node_init() {
    std::panic::set_hook(Box::new(|_| {
        PANICS.fetch_add(1, Mem::Relaxed);
        ALLOC_MODE.store(0, Mem::Relaxed);
    }));
    // First panic initialises lazily created state in the runtime.
    let _ = catch_unwind(|| {
        if std::hint::black_box(true) {
            panic!("warm up");
        }
    });
}

/// Number of panics started so far (read by the instruction scheduler).
#[no_mangle]
pub extern "C" fn node_panics() -> *const u32 {
    PANICS.as_ptr()
}

/// bit 0: 32-bit limbs, bit 1: overflow checks, bit 2: no assembly.
#[no_mangle]
pub extern "C" fn node_info() -> u32 {
    let limb32 = (::i256::ULimb::BITS == 32) as u32;
    let checks = overflow_checks() as u32;
    limb32 | checks << 1 | (cfg!(feature = "noasm") as u32) << 2
}

/// Whether this build of the library checks for overflow is the build's
/// profile, which the library takes over; ask the profile, not the library.
fn overflow_checks() -> bool {
    cfg!(debug_assertions)
}

#[inline]
pub unsafe fn slice<'a>(p: *const u8, n: usize) -> &'a [u8] {
    if n == 0 {
        &[]
    } else {
        std::slice::from_raw_parts(p, n)
    }
}

/// The payload of a panic raised by a simulated component.
pub struct Injected;

#[cold]
pub fn inject_panic() -> ! {
    std::panic::panic_any(Injected)
}

#[inline]
pub fn guard(f: impl FnOnce()) -> u32 {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(()) => RETURNED,
        Err(e) => if e.is::<Injected>() { INJECTED } else { PANICKED },
    }
}

// ---------------------------------------------------------------------------
// By-value operations.

#[no_mangle]
pub extern "C" fn node_op_count(ty: u32) -> u32 {
    with_type!(ty, T, m => m::count() as u32, 0)
}

/// Name and hint of an operation, as `name|hint`.
#[no_mangle]
pub extern "C" fn node_op_name(ty: u32, op: u32, len: *mut u32) -> *const u8 {
    let s = with_type!(ty, T, m => m::get(op as usize).name, "");
    unsafe { *len = s.len() as u32 };
    s.as_ptr()
}

/// # Safety
/// `a`, `b` point at the operand bytes (little-endian, type width).
#[no_mangle]
pub unsafe extern "C" fn node_op(ty: u32, op: u32, a: *const u8, b: *const u8, n: *const u8, out: *mut Out) -> u32 {
    let o = &mut *out;
    o.some = 0;
    o.flag = 0;
    o.len = 0;
    o.aux = 0;
    let n = u128::from_le_bytes(slice(n, 16).try_into().unwrap());
    with_type!(ty, T, m => {
        const BYTES: usize = (T::BITS / 8) as usize;
        let x = T::from_le_bytes(slice(a, BYTES).try_into().unwrap());
        let y = T::from_le_bytes(slice(b, BYTES).try_into().unwrap());
        let f = m::get(op as usize).f;
        guard(|| f(x, y, n, o))
    }, UNKNOWN)
}

// ---------------------------------------------------------------------------
// Parsing and rendering.

/// `how` 0: the standard string conversion; otherwise the radix to read in.
/// # Safety
/// `text` points at `len` bytes of UTF-8.
#[no_mangle]
pub unsafe extern "C" fn node_parse(ty: u32, how: u32, text: *const u8, len: u32, out: *mut Out) -> u32 {
    let o = &mut *out;
    o.some = 0;
    o.flag = 0;
    o.len = 0;
    o.aux = 0;
    let s = match std::str::from_utf8(slice(text, len as usize)) {
        Ok(s) => s,
        Err(_) => return UNKNOWN,
    };
    with_type!(ty, T, m => guard(|| match how {
        0 => s.parse::<T>().put(o),
        1 => <T as num_traits::Num>::from_str_radix(s, 10).put(o),
        r => T::from_str_radix(s, r).put(o),
    }), UNKNOWN)
}

/// Render into the caller's buffer. On return `*at`/`*n` locate the numeral
/// relative to the start of the buffer (`*at` is -1 if it is not inside).
/// # Safety
/// `buf` points at `len` writable bytes.
#[no_mangle]
pub unsafe extern "C" fn node_render(ty: u32, a: *const u8, radix: u32, buf: *mut u8, len: u64, at: *mut i64, n: *mut u64) -> u32 {
    *at = -1;
    *n = 0;
    let buffer = if len == 0 { &mut [] } else { std::slice::from_raw_parts_mut(buf, len as usize) };
    with_type!(ty, T, m => {
        const BYTES: usize = (T::BITS / 8) as usize;
        let x = T::from_le_bytes(slice(a, BYTES).try_into().unwrap());
        guard(|| {
            let s = x.to_str_radix(buffer, radix);
            let off = (s.as_ptr() as i64).wrapping_sub(buf as i64);
            *n = s.len() as u64;
            *at = if off >= 0 && off as u64 + s.len() as u64 <= len { off } else { -1 };
        })
    }, UNKNOWN)
}

/// Encode for a snapshot. 0 LE bytes, 1 BE bytes, 2 native bytes, 3 LE u32
/// words, 4 BE u64 words, 5 decimal text, 6 hex text, 7 radix-36 text,
/// 8 binary text, 9 LE u64 words, 10 BE u32 words, 11 octal text.
/// # Safety
/// `a` as in `node_op`.
#[no_mangle]
pub unsafe extern "C" fn node_encode(ty: u32, enc: u32, a: *const u8, out: *mut Out) -> u32 {
    use std::fmt::Write;
    let o = &mut *out;
    o.some = 1;
    o.len = 0;
    with_type!(ty, T, m => {
        const BYTES: usize = (T::BITS / 8) as usize;
        let x = T::from_le_bytes(slice(a, BYTES).try_into().unwrap());
        guard(|| match enc {
            0 => o.push_bytes(&x.to_le_bytes()),
            1 => o.push_bytes(&x.to_be_bytes()),
            2 => o.push_bytes(&x.to_ne_bytes()),
            3 => for w in x.to_le_u32() { o.push_bytes(&w.to_le_bytes()) },
            4 => for w in x.to_be_u64() { o.push_bytes(&w.to_be_bytes()) },
            5 => { let _ = write!(o, "{x}"); },
            6 => { let _ = write!(o, "{x:x}"); },
            7 => {
                let mut b = [0u8; T::BITS as usize + 1];
                o.push_bytes(x.to_str_radix(&mut b, 36));
            },
            8 => { let _ = write!(o, "{x:b}"); },
            9 => for w in x.to_le_u64() { o.push_bytes(&w.to_le_bytes()) },
            10 => for w in x.to_be_u32() { o.push_bytes(&w.to_be_bytes()) },
            _ => { let _ = write!(o, "{x:o}"); },
        })
    }, UNKNOWN)
}

/// The inverse of `node_encode`. Bit patterns printed in hex, binary and octal
/// are those of the unsigned counterpart.
/// # Safety
/// `p` points at `len` bytes.
#[no_mangle]
pub unsafe extern "C" fn node_decode(ty: u32, enc: u32, p: *const u8, len: u32, out: *mut Out) -> u32 {
    let o = &mut *out;
    o.some = 0;
    o.len = 0;
    let d = slice(p, len as usize);
    with_type!(ty, T, m => {
        const BYTES: usize = (T::BITS / 8) as usize;
        if enc <= 4 || enc == 9 || enc == 10 {
            if d.len() != BYTES {
                return RETURNED;
            }
        }
        let text = || std::str::from_utf8(d).unwrap_or("");
        guard(|| match enc {
            0 => T::from_le_bytes(d.try_into().unwrap()).put(o),
            1 => T::from_be_bytes(d.try_into().unwrap()).put(o),
            2 => T::from_ne_bytes(d.try_into().unwrap()).put(o),
            3 => {
                let mut w = [0u32; BYTES / 4];
                for i in 0..w.len() { w[i] = u32::from_le_bytes(d[4 * i..4 * i + 4].try_into().unwrap()); }
                T::from_le_u32(w).put(o)
            },
            4 => {
                let mut w = [0u64; BYTES / 8];
                for i in 0..w.len() { w[i] = u64::from_be_bytes(d[8 * i..8 * i + 8].try_into().unwrap()); }
                T::from_be_u64(w).put(o)
            },
            9 => {
                let mut w = [0u64; BYTES / 8];
                for i in 0..w.len() { w[i] = u64::from_le_bytes(d[8 * i..8 * i + 8].try_into().unwrap()); }
                T::from_le_u64(w).put(o)
            },
            10 => {
                let mut w = [0u32; BYTES / 4];
                for i in 0..w.len() { w[i] = u32::from_be_bytes(d[4 * i..4 * i + 4].try_into().unwrap()); }
                T::from_be_u32(w).put(o)
            },
            5 => text().parse::<T>().put(o),
            6 => m::from_pattern(text(), 16).put(o),
            7 => T::from_str_radix(text(), 36).put(o),
            8 => m::from_pattern(text(), 2).put(o),
            _ => m::from_pattern(text(), 8).put(o),
        })
    }, UNKNOWN)
}
