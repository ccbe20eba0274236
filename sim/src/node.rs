//! Builds of the library under test, loaded as shared objects.

use std::collections::HashMap;
use std::ffi::{CStr, CString};
use std::os::raw::{c_char, c_int, c_void};

pub const MAX_BYTES: usize = 128;
pub const MAX_TEXT: usize = 2304;

pub const RETURNED: u32 = 0;
pub const PANICKED: u32 = 1;
pub const FAILED: u32 = 3;
pub const INJECTED: u32 = 4;

#[repr(C)]
pub struct Out {
    pub some: u32,
    pub flag: u32,
    pub len: u32,
    pub aux: u32,
    pub num: [u64; 2],
    pub v0: [u8; MAX_BYTES],
    pub v1: [u8; MAX_BYTES],
    pub text: [u8; MAX_TEXT],
}

impl Out {
    pub fn new() -> Box<Out> {
        Box::new(Out {
            some: 0,
            flag: 0,
            len: 0,
            aux: 0,
            num: [0; 2],
            v0: [0; MAX_BYTES],
            v1: [0; MAX_BYTES],
            text: [0; MAX_TEXT],
        })
    }

    /// Forget everything, so that what an operation does not set is equal.
    pub fn clear(&mut self) {
        self.some = 0;
        self.flag = 0;
        self.len = 0;
        self.aux = 0;
        self.num = [0; 2];
        self.v0 = [0; MAX_BYTES];
        self.v1 = [0; MAX_BYTES];
    }

    pub fn text(&self) -> &[u8] {
        &self.text[..(self.len as usize).min(MAX_TEXT)]
    }

    /// Everything an operation can have left here.
    pub fn image(&self) -> Vec<u8> {
        let mut v = vec![];
        for w in [self.some, self.flag, self.len, self.aux] {
            v.extend_from_slice(&w.to_le_bytes());
        }
        for w in self.num {
            v.extend_from_slice(&w.to_le_bytes());
        }
        v.extend_from_slice(&self.v0);
        v.extend_from_slice(&self.v1);
        v.extend_from_slice(self.text());
        v
    }
}

pub type SinkFn = extern "C" fn(*mut u8, *const u8, u64) -> u32;
pub type StreamFn = extern "C" fn(*mut u8, *const u8, u64) -> i64;
pub type SourceFn = extern "C" fn(*mut u8, u32, *mut [u64; 2]) -> u32;

macro_rules! node_api {
    ($($name:ident: fn($($arg:ty),*) $(-> $ret:ty)?;)*) => {
        #[allow(dead_code)]
        pub struct Api {
            $(pub $name: unsafe extern "C" fn($($arg),*) $(-> $ret)?,)*
        }
        impl Api {
            unsafe fn load(handle: *mut c_void) -> Result<Self, String> {
                Ok(Api {
                    $($name: {
                        let sym = concat!("node_", stringify!($name), "\0");
                        let p = libc::dlsym(handle, sym.as_ptr() as *const c_char);
                        if p.is_null() {
                            return Err(format!("missing symbol {}", sym));
                        }
                        std::mem::transmute::<*mut c_void, unsafe extern "C" fn($($arg),*) $(-> $ret)?>(p)
                    },)*
                })
            }
        }
    };
}

node_api! {
    init: fn();
    info: fn() -> u32;
    panics: fn() -> *const u32;
    alloc_arm: fn(u64);
    alloc_pattern: fn(u64);
    alloc_disarm: fn() -> u64;
    alloc_probe: fn() -> u32;
    op_count: fn(u32) -> u32;
    op_name: fn(u32, u32, *mut u32) -> *const u8;
    op: fn(u32, u32, *const u8, *const u8, *const u8, *mut Out) -> u32;
    inplace_count: fn(u32) -> u32;
    inplace_name: fn(u32, u32, *mut u32) -> *const u8;
    inplace: fn(u32, u32, *mut u8, *const u8, *const u8) -> u32;
    reg_size: fn(u32) -> u32;
    reg_set: fn(u32, *mut u8, *const u8);
    reg_get: fn(u32, *const u8, *mut u8);
    parse: fn(u32, u32, *const u8, u32, *mut Out) -> u32;
    render: fn(u32, *const u8, u32, *mut u8, u64, *mut i64, *mut u64) -> u32;
    encode: fn(u32, u32, *const u8, *mut Out) -> u32;
    decode: fn(u32, u32, *const u8, u32, *mut Out) -> u32;
    fmt: fn(u32, u32, u32, u32, *const u8, *const u8, SinkFn, *mut u8) -> u32;
    fmt_io: fn(u32, u32, u32, u32, *const u8, *const u8, StreamFn, *mut u8) -> u32;
    fmt_error: fn(u32, u32, *const u8, u32, SinkFn, *mut u8) -> u32;
    hash: fn(u32, u32, *const u8, SinkFn, *mut u8) -> u32;
    numcast: fn(u32, SourceFn, *mut u8, *mut Out) -> u32;
    map_new: fn(u32, u32, u32, SinkFn, *mut u8) -> *mut u8;
    map_free: fn(*mut u8);
    map_act: fn(*mut u8, u32, *const u8, u64, *mut Out) -> u32;
    map_dump: fn(*mut u8, SinkFn, *mut u8) -> u32;
}

pub struct OpInfo {
    pub name: String,
    pub hint: String,
}

impl OpInfo {
    pub fn has(&self, c: char) -> bool {
        self.hint.contains(c)
    }
}

pub struct Node {
    pub name: String,
    pub api: Api,
    pub limb32: bool,
    pub checks: bool,
    op_by_name: Vec<HashMap<String, usize>>,
    inplace_by_name: Vec<HashMap<String, usize>>,
    pub ops: Vec<Vec<OpInfo>>,
    pub inplace: Vec<Vec<OpInfo>>,
    /// Executable address range of the shared object.
    pub text: (usize, usize),
    /// Writable address ranges of the shared object, in whole pages.
    pub data: Vec<(usize, usize)>,
}

pub const TYPES: [&str; 8] = ["U256", "I256", "U384", "I384", "U512", "I512", "U1024", "I1024"];

pub fn bits(ty: usize) -> usize {
    [256, 256, 384, 384, 512, 512, 1024, 1024][ty]
}

pub fn bytes(ty: usize) -> usize {
    bits(ty) / 8
}

pub fn signed(ty: usize) -> bool {
    ty % 2 == 1
}

struct Find {
    inside: usize,
    text: (usize, usize),
    data: Vec<(usize, usize)>,
}

unsafe extern "C" fn on_object(info: *mut libc::dl_phdr_info, _size: usize, data: *mut c_void) -> c_int {
    let find = &mut *(data as *mut Find);
    let i = &*info;
    let mut mine = false;
    let mut text = (usize::MAX, 0);
    let mut data = vec![];
    let mut relro = (0, 0);
    for k in 0..i.dlpi_phnum as usize {
        let ph = &*i.dlpi_phdr.add(k);
        let lo = i.dlpi_addr as usize + ph.p_vaddr as usize;
        let hi = lo + ph.p_memsz as usize;
        if ph.p_type == libc::PT_GNU_RELRO {
            relro = (lo & !4095, (hi + 4095) & !4095);
        }
        if ph.p_type != libc::PT_LOAD {
            continue;
        }
        if ph.p_flags & libc::PF_W != 0 {
            data.push((lo & !4095, (hi + 4095) & !4095));
        }
        if find.inside >= lo && find.inside < hi {
            mine = true;
        }
        if ph.p_flags & libc::PF_X != 0 {
            text = (text.0.min(lo), text.1.max(hi));
        }
    }
    if mine {
        find.text = text;
        for (lo, hi) in data {
            // what the loader made read-only is not writable memory
            if relro.0 <= lo && relro.1 > lo {
                if relro.1 < hi {
                    find.data.push((relro.1, hi));
                }
            } else {
                find.data.push((lo, hi));
            }
        }
        return 1;
    }
    0
}

impl Node {
    pub fn load(name: &str, path: &str) -> Result<Node, String> {
        unsafe {
            let c = CString::new(path).unwrap();
            let handle = libc::dlopen(c.as_ptr(), libc::RTLD_NOW | libc::RTLD_LOCAL);
            if handle.is_null() {
                return Err(format!("{path}: {}", CStr::from_ptr(libc::dlerror()).to_string_lossy()));
            }
            let api = Api::load(handle)?;
            let info = (api.info)();
            let mut find = Find { inside: api.op as usize, text: (0, 0), data: vec![] };
            libc::dl_iterate_phdr(Some(on_object), &mut find as *mut _ as *mut c_void);
            (api.init)();
            let list = |count: u32, get: unsafe extern "C" fn(u32, u32, *mut u32) -> *const u8, ty: u32| {
                (0..count)
                    .map(|op| {
                        let mut n = 0u32;
                        let p = get(ty, op, &mut n);
                        let s = std::str::from_utf8(std::slice::from_raw_parts(p, n as usize)).unwrap();
                        let (name, hint) = s.split_once('|').unwrap_or((s, ""));
                        OpInfo { name: name.into(), hint: hint.into() }
                    })
                    .collect::<Vec<_>>()
            };
            let ops: Vec<Vec<OpInfo>> = (0..8).map(|t| list((api.op_count)(t), api.op_name, t)).collect();
            let inplace: Vec<Vec<OpInfo>> = (0..8).map(|t| list((api.inplace_count)(t), api.inplace_name, t)).collect();
            let index = |all: &[Vec<OpInfo>]| all.iter().map(|t| t.iter().enumerate().map(|(i, o)| (o.name.clone(), i)).collect()).collect();
            Ok(Node {
                op_by_name: index(&ops),
                inplace_by_name: index(&inplace),
                name: name.into(),
                limb32: info & 1 != 0,
                checks: info & 2 != 0,
                api,
                ops,
                inplace,
                text: find.text,
                data: find.data,
            })
        }
    }

    pub fn build(&self) -> crate::model::Build {
        crate::model::Build { checks: self.checks, limb: if self.limb32 { 32 } else { 64 } }
    }

    pub fn op_index(&self, ty: usize, name: &str) -> Option<usize> {
        self.op_by_name[ty].get(name).copied()
    }

    pub fn inplace_index(&self, ty: usize, name: &str) -> Option<usize> {
        self.inplace_by_name[ty].get(name).copied()
    }

    /// Run a by-value operation; operands are little-endian bytes.
    pub fn op(&self, ty: usize, op: usize, a: &[u8], b: &[u8], n: u128, out: &mut Out) -> u32 {
        out.clear();
        unsafe { (self.api.op)(ty as u32, op as u32, a.as_ptr(), b.as_ptr(), n.to_le_bytes().as_ptr(), out) }
    }

    pub fn parse(&self, ty: usize, how: u32, s: &[u8], out: &mut Out) -> u32 {
        out.clear();
        unsafe { (self.api.parse)(ty as u32, how, s.as_ptr(), s.len() as u32, out) }
    }

    pub fn encode(&self, ty: usize, enc: u32, a: &[u8], out: &mut Out) -> u32 {
        out.clear();
        unsafe { (self.api.encode)(ty as u32, enc, a.as_ptr(), out) }
    }

    pub fn decode(&self, ty: usize, enc: u32, d: &[u8], out: &mut Out) -> u32 {
        out.clear();
        unsafe { (self.api.decode)(ty as u32, enc, d.as_ptr(), d.len() as u32, out) }
    }
}
