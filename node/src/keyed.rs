//! Collections keyed by numbers, with a caller-supplied hasher.

use std::collections::{BTreeMap, HashMap};
use std::hash::{BuildHasher, Hash, Hasher};

use crate::abi::{guard, inject_panic, Out, RETURNED, UNKNOWN};
use crate::faces::SinkFn;

/// Mixes what it is fed, unless told to panic; may be weak on purpose.
#[derive(Clone, Copy)]
struct Build {
    f: SinkFn,
    ctx: *mut u8,
    /// 0 all bits, 1 a few, 2 none.
    weak: u32,
}

struct Mixer {
    b: Build,
    state: u64,
}

impl BuildHasher for Build {
    type Hasher = Mixer;
    fn build_hasher(&self) -> Mixer {
        Mixer { b: *self, state: 0xcbf2_9ce4_8422_2325 }
    }
}

impl Hasher for Mixer {
    fn finish(&self) -> u64 {
        let h = self.state ^ self.state >> 29;
        match self.b.weak {
            0 => h,
            1 => h & 3,
            _ => 7,
        }
    }

    fn write(&mut self, b: &[u8]) {
        if (self.b.f)(self.b.ctx, b.as_ptr(), b.len() as u64) != 0 {
            inject_panic()
        }
        for x in b {
            self.state = (self.state ^ *x as u64).wrapping_mul(0x100_0000_01b3);
        }
        self.state = self.state.rotate_left(11);
    }
}

/// What one does with a map; keys are registers.
trait Keyed {
    unsafe fn act(&mut self, what: u32, key: *const u8, val: u64, o: &mut Out);
    unsafe fn dump(&self, f: SinkFn, ctx: *mut u8);
}

struct Hashed<T, K>(HashMap<K, u64, Build>, fn(T) -> K, fn(&K) -> T);
struct Sorted<T>(BTreeMap<T, u64>);

fn note(o: &mut Out, r: Option<u64>) {
    o.some = r.is_some() as u32;
    o.num = [r.unwrap_or(0), 0];
}

impl<T: Copy, K: Hash + Eq + Clone> Keyed for Hashed<T, K> {
    unsafe fn act(&mut self, what: u32, key: *const u8, val: u64, o: &mut Out) {
        let k = (self.1)(*(key as *const T));
        let m = &mut self.0;
        match what {
            0 => note(o, m.insert(k, val)),
            1 => note(o, m.get(&k).copied()),
            2 => note(o, m.remove(&k)),
            3 => {
                let e = m.entry(k).or_insert(0);
                *e += val;
                note(o, Some(*e));
            },
            4 => {
                m.reserve(val as usize);
                note(o, None)
            },
            5 => {
                m.shrink_to_fit();
                note(o, None)
            },
            6 => {
                m.retain(|_, v| *v % 3 != val % 3);
                note(o, None)
            },
            7 => {
                m.clear();
                note(o, None)
            },
            8 => {
                // moves through another map
                let all: Vec<(K, u64)> = m.iter().map(|(k, v)| (k.clone(), *v)).collect();
                let mut n = HashMap::with_hasher(*m.hasher());
                n.extend(all);
                *m = n;
                note(o, None)
            },
            _ => note(o, Some(m.len() as u64)),
        }
    }

    unsafe fn dump(&self, f: SinkFn, ctx: *mut u8) {
        for (k, v) in &self.0 {
            let k = (self.2)(k);
            f(ctx, &k as *const T as *const u8, *v);
        }
    }
}

impl<T: Copy + Ord> Keyed for Sorted<T> {
    unsafe fn act(&mut self, what: u32, key: *const u8, val: u64, o: &mut Out) {
        let k = *(key as *const T);
        let m = &mut self.0;
        match what {
            0 => note(o, m.insert(k, val)),
            1 => note(o, m.get(&k).copied()),
            2 => note(o, m.remove(&k)),
            3 => {
                let e = m.entry(k).or_insert(0);
                *e += val;
                note(o, Some(*e));
            },
            6 => {
                m.retain(|_, v| *v % 3 != val % 3);
                note(o, None)
            },
            7 => {
                m.clear();
                note(o, None)
            },
            8 => {
                let mut high = m.split_off(&k);
                m.append(&mut high);
                note(o, None)
            },
            4 | 5 => note(o, None),
            _ => note(o, Some(m.len() as u64)),
        }
    }

    unsafe fn dump(&self, f: SinkFn, ctx: *mut u8) {
        for (k, v) in &self.0 {
            f(ctx, k as *const T as *const u8, *v);
        }
    }
}

fn same<T: Copy>(x: T) -> T {
    x
}

fn peek<T: Copy>(x: &T) -> T {
    *x
}

fn twice<T: Copy>(x: T) -> [T; 2] {
    [x, x]
}

fn first<T: Copy>(x: &[T; 2]) -> T {
    x[0]
}

fn some<T: Copy>(x: T) -> (u8, Option<T>) {
    (1, Some(x))
}

fn inner<T: Copy>(x: &(u8, Option<T>)) -> T {
    x.1.unwrap()
}

type Handle = Box<dyn Keyed>;

/// A new map: 0 hashed, 1 sorted, 2 hashed on an array of the number, 3 hashed
/// on the number inside other things.
#[no_mangle]
pub extern "C" fn node_map_new(ty: u32, kind: u32, weak: u32, f: SinkFn, ctx: *mut u8) -> *mut u8 {
    let b = Build { f, ctx, weak };
    with_type!(ty, T, m => {
        let h: Handle = match kind {
            0 => Box::new(Hashed::<T, T>(HashMap::with_hasher(b), same, peek)),
            1 => Box::new(Sorted::<T>(BTreeMap::new())),
            2 => Box::new(Hashed::<T, [T; 2]>(HashMap::with_hasher(b), twice, first)),
            _ => Box::new(Hashed::<T, (u8, Option<T>)>(HashMap::with_hasher(b), some, inner)),
        };
        Box::into_raw(Box::new(h)) as *mut u8
    }, std::ptr::null_mut())
}

/// # Safety
/// `map` came from `node_map_new` and is not used again.
#[no_mangle]
pub unsafe extern "C" fn node_map_free(map: *mut u8) {
    if !map.is_null() {
        drop(Box::from_raw(map as *mut Handle));
    }
}

/// Act on a map with the key in a register.
/// # Safety
/// `map` came from `node_map_new`; `key` points at a value of its type.
#[no_mangle]
pub unsafe extern "C" fn node_map_act(map: *mut u8, what: u32, key: *const u8, val: u64, out: *mut Out) -> u32 {
    if map.is_null() {
        return UNKNOWN;
    }
    let o = &mut *out;
    o.some = 0;
    o.num = [0, 0];
    let m = &mut *(map as *mut Handle);
    guard(|| m.act(what, key, val, o))
}

/// Every entry: the callback gets the key's register and the value.
/// # Safety
/// As for `node_map_act`.
#[no_mangle]
pub unsafe extern "C" fn node_map_dump(map: *mut u8, f: SinkFn, ctx: *mut u8) -> u32 {
    if map.is_null() {
        return UNKNOWN;
    }
    (*(map as *mut Handle)).dump(f, ctx);
    RETURNED
}
