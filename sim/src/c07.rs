//! C07: hashers and number sources that refuse or panic part-way.

use std::cmp::Ordering;
use std::collections::BTreeMap;

use crate::big::Big;
use crate::engine::*;
use crate::node::{self, Node, Out};
use crate::rng::{hash_str, mix, Rng};

pub struct C07;

/// A hasher's side of the story: what it was fed, piece by piece.
#[derive(Default)]
struct Feed {
    pieces: Vec<Vec<u8>>,
    /// Panic at this piece, counted from when it was set.
    panic_in: Option<u64>,
    fired: u64,
    record: bool,
}

extern "C" fn feed(ctx: *mut u8, p: *const u8, n: u64) -> u32 {
    let f = unsafe { &mut *(ctx as *mut Feed) };
    match f.panic_in {
        Some(0) => {
            f.panic_in = None;
            f.fired += 1;
            return 2;
        },
        Some(ref mut k) => *k -= 1,
        None => {},
    }
    if f.record {
        f.pieces.push(unsafe { std::slice::from_raw_parts(p, n as usize) }.to_vec());
    }
    0
}

/// A source's side: its value, and which queries it will not answer.
struct Source {
    value: Big,
    /// Queries answered with nothing, as a mask.
    silent: u32,
    /// Queries that panic, as a mask.
    panics: u32,
    asked: u32,
    fired: u32,
}

extern "C" fn answer(ctx: *mut u8, query: u32, out: *mut [u64; 2]) -> u32 {
    let s = unsafe { &mut *(ctx as *mut Source) };
    s.asked |= 1 << query;
    if s.panics >> query & 1 != 0 {
        s.fired |= 1 << query;
        return 2;
    }
    if s.silent >> query & 1 != 0 {
        s.fired |= 1 << query;
        return 0;
    }
    let (bits, signed) = match query {
        0 => (8, true),
        1 => (16, true),
        2 => (32, true),
        3 | 5 => (64, true),
        4 => (128, true),
        6 => (8, false),
        7 => (16, false),
        8 => (32, false),
        9 | 11 => (64, false),
        10 => (128, false),
        _ => {
            // exact for what fits 53 bits, otherwise near
            let v = s.value.wrap(128, s.value.is_neg()).to_le(16);
            let x = u128::from_le_bytes(v.try_into().unwrap());
            let f = if s.value.is_neg() { x as i128 as f64 } else { x as f64 };
            unsafe { *out = [if query == 12 { (f as f32).to_bits() as u64 } else { f.to_bits() }, 0] };
            return 1;
        },
    };
    if !s.value.fits(bits, signed) {
        return 0;
    }
    let v = s.value.wrap(128, true).to_le(16);
    unsafe { *out = [u64::from_le_bytes(v[..8].try_into().unwrap()), u64::from_le_bytes(v[8..].try_into().unwrap())] };
    1
}

/// A map in the node and what should be in it.
struct Map {
    handle: *mut u8,
    kind: u32,
    ty: usize,
    model: BTreeMap<Vec<u8>, u64>,
}

struct Dump<'a> {
    node: &'a Node,
    ty: usize,
    entries: Vec<(Vec<u8>, u64)>,
}

extern "C" fn dump(ctx: *mut u8, p: *const u8, v: u64) -> u32 {
    let d = unsafe { &mut *(ctx as *mut Dump) };
    let mut b = vec![0u8; node::MAX_BYTES];
    unsafe { (d.node.api.reg_get)(d.ty as u32, p, b.as_mut_ptr()) };
    b.truncate(node::bytes(d.ty));
    d.entries.push((b, v));
    0
}

struct World<'a> {
    node: &'a Node,
    feed: Box<Feed>,
    maps: BTreeMap<usize, Map>,
    /// What each number fed to a hasher the first time.
    sequences: BTreeMap<(usize, u32, Vec<u8>), Vec<Vec<u8>>>,
    reg: Vec<u64>,
    aux: Vec<u64>,
    out: Box<Out>,
}

impl Drop for World<'_> {
    fn drop(&mut self) {
        for m in self.maps.values() {
            unsafe { (self.node.api.map_free)(m.handle) }
        }
    }
}

const WAYS: u64 = 8;

impl World<'_> {
    /// Put a number into the register, computed this way. Returns its bytes.
    fn compute(&mut self, ty: usize, way: u64, value: &[u8], aux: &[u8]) -> Vec<u8> {
        let node = self.node;
        let n = 0u128.to_le_bytes();
        let (r, a) = (self.reg.as_mut_ptr() as *mut u8, self.aux.as_mut_ptr() as *mut u8);
        let set = |v: &[u8]| unsafe { (node.api.reg_set)(ty as u32, r, v.as_ptr()) };
        let go = |op: &str, src: *const u8| match node.inplace_index(ty, op) {
            Some(k) => unsafe { (node.api.inplace)(ty as u32, k as u32, r, src, n.as_ptr()) == node::RETURNED },
            None => false,
        };
        unsafe { (node.api.reg_set)(ty as u32, a, aux.as_ptr()) };
        set(value);
        let mut ok = true;
        match way {
            1 => ok = go("bitxor_assign", a) && go("bitxor_assign_ref", a),
            2 => ok = go("sub_assign", a) && go("add_assign_ref", a),
            3 => ok = go("add_assign", a) && go("sub_assign", a),
            4 | 5 => {
                let enc = if way == 4 { 5 } else { 1 };
                node.encode(ty, enc, value, &mut self.out);
                let text = self.out.text().to_vec();
                let status = if way == 4 { node.parse(ty, 0, &text, &mut self.out) } else { node.decode(ty, 1, &text, &mut self.out) };
                if status == node::RETURNED && self.out.some != 0 {
                    let v = self.out.v0[..node::bytes(ty)].to_vec();
                    set(&v);
                }
            },
            6 => {
                // quotient and remainder put together again
                if aux.iter().any(|x| *x != 0) {
                    let (q, m) = (node.op_index(ty, "div"), node.op_index(ty, "rem"));
                    if let (Some(q), Some(m)) = (q, m) {
                        let s1 = node.op(ty, q, value, aux, 0, &mut self.out);
                        let quotient = self.out.v0[..node::bytes(ty)].to_vec();
                        let s2 = node.op(ty, m, value, aux, 0, &mut self.out);
                        let rest = self.out.v0[..node::bytes(ty)].to_vec();
                        if s1 == node::RETURNED && s2 == node::RETURNED {
                            set(&quotient);
                            ok = go("mul_assign", a);
                            unsafe { (node.api.reg_set)(ty as u32, a, rest.as_ptr()) };
                            ok = ok && go("add_assign", a);
                        }
                    }
                }
            },
            7 => ok = go("bitor_assign", a) && {
                // clear what was set beside the value
                let mask: Vec<u8> = value.iter().zip(aux).map(|(v, x)| v | !x).collect();
                unsafe { (node.api.reg_set)(ty as u32, a, mask.as_ptr()) };
                go("bitand_assign", a)
            },
            _ => {},
        }
        if !ok {
            // overflow on the way, where that is checked
            set(value);
        }
        let mut b = vec![0u8; node::MAX_BYTES];
        unsafe { (node.api.reg_get)(ty as u32, r, b.as_mut_ptr()) };
        b.truncate(node::bytes(ty));
        b
    }

    fn contents(&self, m: &Map) -> Vec<(Vec<u8>, u64)> {
        let mut d = Dump { node: self.node, ty: m.ty, entries: vec![] };
        unsafe { (self.node.api.map_dump)(m.handle, dump, &mut d as *mut Dump as *mut u8) };
        d.entries
    }
}

impl Engine for C07 {
    fn id(&self) -> &'static str {
        "C07"
    }

    fn builds(&self) -> &'static [&'static str] {
        &["n64r", "n64c", "n32r", "n32c", "n64n"]
    }

    fn scenarios(&self, thorough: bool) -> u64 {
        if thorough { 5_000_000 } else { 350_000 }
    }

    fn rule(&self) -> &'static str {
        "scenario = a history of hashings, operations on maps keyed by numbers and conversions from number sources, with hashers panicking at some piece and sources silent or panicking at some query; distinct = (build, type, act, way the number was computed, fault fired, how it ended, size of the map); non-trivial = an outcome was compared with the model"
    }

    fn real(&self) -> &'static [&'static str] {
        &["the library (five builds)", "std HashMap and BTreeMap", "num_traits::NumCast", "unwinding"]
    }

    fn stubs(&self) -> &'static [&'static str] {
        &["hashers", "number sources"]
    }

    fn probes(&self) -> &'static [&'static str] {
        &["fault.hasher_panic", "fault.map_hasher_panic", "fault.silent_query", "fault.source_panic", "hash.repeated", "hash.computed_otherwise", "map.acts", "map.reconciled", "cast.value", "cast.refused"]
    }

    fn time(&self) -> (&'static str, &'static str) {
        ("hashings, map operations and conversions", "acts")
    }

    fn generate(&self, _index: u64, rng: &mut Rng, nodes: &[Node]) -> Plan {
        let node = rng.pick(nodes);
        let mut plan = vec![format!("build {}", node.name)];
        let ty = rng.below(8) as usize;
        let n = node::bytes(ty);
        // few numbers, so that they meet again
        let mut pool: Vec<Vec<u8>> = (0..rng.range(1, 6)).map(|_| value(rng, n)).collect();
        if rng.chance(50) {
            // neighbours in one bit
            let mut v = pool[0].clone();
            v[rng.below(n as u64) as usize] ^= 1 << rng.below(8);
            pool.push(v);
        }
        let mix_of = *rng.pick(&[(60, 30), (10, 85), (5, 5), (34, 33)]);
        let maps = rng.range(1, 2);
        for k in 0..maps {
            plan.push(format!("new {k} {} {} {}", node::TYPES[ty], rng.below(4), *rng.pick(&[0, 0, 1, 1, 2])));
        }
        let many = rng.chance(20);
        for _ in 0..(if many { rng.range(30, 120) } else { rng.range(3, 20) }) {
            let key = |rng: &mut Rng| {
                let v = if many && rng.chance(70) {
                    let mut v = vec![0u8; n];
                    v[rng.below(n as u64) as usize] = rng.below(60) as u8;
                    v
                } else {
                    rng.pick(&pool).clone()
                };
                let a = if rng.chance(50) { rng.pick(&pool).clone() } else { value(rng, n) };
                let way = if rng.chance(40) { 0 } else { rng.below(WAYS) };
                format!("{way} {} {}", hex(&v), hex(&a))
            };
            let d = rng.below(100);
            if d < mix_of.0 {
                let limit = if rng.chance(30) { rng.below(3) as i64 } else { -1 };
                let k = key(rng);
                let what = format!("hash {} {} {k}", node::TYPES[ty], rng.below(3));
                // the same failure over and over, between two that work
                let times = match rng.below(12) {
                    0 if limit >= 0 => rng.range(2, 8),
                    1 if limit >= 0 => rng.range(8, 80),
                    _ => 1,
                };
                if times > 1 {
                    plan.push(format!("{what} none"));
                }
                for _ in 0..times {
                    plan.push(if limit < 0 { format!("{what} none") } else { format!("{what} {limit}") });
                }
                // a failed hashing is followed by one that works
                if limit >= 0 {
                    plan.push(format!("{what} none"));
                }
            } else if d < mix_of.0 + mix_of.1 {
                let k = key(rng);
                let act = *rng.pick(&[0u64, 0, 0, 0, 1, 1, 2, 3, 3, 4, 5, 6, 7, 8, 9]);
                let act = if act == 7 && rng.chance(70) { 0 } else { act };
                let limit = if rng.chance(12) { rng.below(if many { 60 } else { 5 }) as i64 } else { -1 };
                let val = if act == 4 { rng.below(60) } else { rng.below(1000) };
                plan.push(format!("act {} {act} {k} {val} {}", rng.below(maps), if limit < 0 { "none".into() } else { limit.to_string() }));
            } else {
                let to = rng.below(8) as usize;
                let v = match rng.below(5) {
                    0 => rng.below(300) as u128,
                    1 => u128::MAX - rng.below(3) as u128,
                    2 => (1u128 << 127).wrapping_add(rng.below(3) as u128).wrapping_sub(1),
                    _ => rng.u128() >> rng.below(128),
                };
                let sign = if rng.chance(50) { "-" } else { "+" };
                let over = if rng.chance(10) { rng.range(1, 9) } else { 0 };
                let silent = match rng.below(4) {
                    0 => 0,
                    1 => 1u64 << rng.below(14),
                    2 => rng.below(1 << 14),
                    _ => *rng.pick(&[1 << 4, 1 << 10, 1 << 4 | 1 << 10, 0x3fef, 0x3bff]),
                };
                let any = rng.below(14);
                let panics = if rng.chance(25) { 1u64 << *rng.pick(&[4, 10, 4, 10, any]) } else { 0 };
                let line = format!("cast {} {sign} {} {over} {} {}", node::TYPES[to], hexn(v), hexn(silent as u128), hexn(panics as u128));
                let times = if panics > 0 && rng.chance(10) { rng.range(2, 30) } else { 1 };
                for _ in 0..times {
                    plan.push(line.clone());
                }
            }
        }
        plan
    }

    fn run(&self, plan: &Plan, cx: &mut Cx) -> Result<(), Violation> {
        let mut world: Option<World> = None;
        for (i, line) in plan.iter().enumerate() {
            cx.at_line(i);
            let t: Vec<&str> = line.split_whitespace().collect();
            if t.first() == Some(&"build") {
                if let Some(node) = t.get(1).and_then(|n| cx.node(n)) {
                    world = Some(World {
                        node,
                        feed: Box::default(),
                        maps: BTreeMap::new(),
                        sequences: BTreeMap::new(),
                        reg: vec![0; 32],
                        aux: vec![0; 32],
                        out: Out::new(),
                    });
                }
                continue;
            }
            let Some(w) = world.as_mut() else { continue };
            match t.first() {
                Some(&"new") => {
                    let Some(ty) = node::TYPES.iter().position(|x| Some(x) == t.get(2)) else { continue };
                    let kind = int(t.get(3)) as u32 % 4;
                    let ctx = &mut *w.feed as *mut Feed as *mut u8;
                    let handle = unsafe { (w.node.api.map_new)(ty as u32, kind, int(t.get(4)) as u32 % 3, feed, ctx) };
                    if let Some(old) = w.maps.insert(int(t.get(1)), Map { handle, kind, ty, model: BTreeMap::new() }) {
                        unsafe { (w.node.api.map_free)(old.handle) };
                    }
                },
                Some(&"hash") => self.hash(w, &t, line, cx)?,
                Some(&"act") => self.act(w, &t, line, cx)?,
                Some(&"cast") => self.cast(w, &t, line, cx)?,
                _ => {},
            }
        }
        Ok(())
    }
}

impl C07 {
    /// `hash TY how way value aux limit`
    fn hash(&self, w: &mut World, t: &[&str], line: &str, cx: &mut Cx) -> Result<(), Violation> {
        let Some(ty) = node::TYPES.iter().position(|x| Some(x) == t.get(1)) else { return Ok(()) };
        let how = int(t.get(2)) as u32 % 3;
        let way = int(t.get(3)) as u64 % WAYS;
        let v = unhex(t.get(4).unwrap_or(&"0x0"), node::bytes(ty));
        let a = unhex(t.get(5).unwrap_or(&"0x0"), node::bytes(ty));
        let limit = t.get(6).and_then(|x| x.parse::<u64>().ok());
        let v = w.compute(ty, way, &v, &a);
        w.feed.pieces.clear();
        w.feed.record = true;
        w.feed.fired = 0;
        w.feed.panic_in = limit;
        let ctx = &mut *w.feed as *mut Feed as *mut u8;
        let before = w.reg.clone();
        let status = unsafe { (w.node.api.hash)(ty as u32, how, w.reg.as_ptr() as *const u8, feed, ctx) };
        w.feed.record = false;
        w.feed.panic_in = None;
        cx.count("acts");
        cx.evals += 1;
        let got = std::mem::take(&mut w.feed.pieces);
        for p in &got {
            cx.log.bytes(p);
        }
        cx.log.word(status as u64);
        let fired = w.feed.fired > 0;
        if w.reg != before {
            return violation("hashing-changed-number", format!("{line} on {}", w.node.name));
        }
        if fired {
            cx.count("fault.hasher_panic");
        }
        let want = if fired { node::INJECTED } else { node::RETURNED };
        if status != want {
            return violation("hasher-panic-lost", format!("{line} on {}: status {status}, hasher panicked: {fired}", w.node.name));
        }
        let key = (ty, how, v);
        let known = w.sequences.get(&key);
        match known {
            Some(s) => {
                cx.count(if way == 0 { "hash.repeated" } else { "hash.computed_otherwise" });
                let same = if fired { got.len() < s.len() && got[..] == s[..got.len()] } else { got == *s };
                if !same {
                    return violation("sequence-changed", format!("{line} on {}: fed {:?}, before {:?}", w.node.name, got, s));
                }
            },
            None if !fired => {
                w.sequences.insert(key, got);
            },
            None => {},
        }
        cx.reach(mix(hash_str(&w.node.name) ^ (ty as u64) << 4 ^ (how as u64) << 8 ^ way << 12 ^ (fired as u64) << 16 ^ limit.unwrap_or(99) << 20));
        Ok(())
    }

    /// `act map what way value aux val limit`
    fn act(&self, w: &mut World, t: &[&str], line: &str, cx: &mut Cx) -> Result<(), Violation> {
        let id = int(t.get(1));
        let Some(ty) = w.maps.get(&id).map(|m| m.ty) else { return Ok(()) };
        let what = int(t.get(2)) as u32 % 10;
        let way = int(t.get(3)) as u64 % WAYS;
        let v = unhex(t.get(4).unwrap_or(&"0x0"), node::bytes(ty));
        let a = unhex(t.get(5).unwrap_or(&"0x0"), node::bytes(ty));
        let val = int(t.get(6)) as u64;
        let limit = t.get(7).and_then(|x| x.parse::<u64>().ok());
        let key = w.compute(ty, way, &v, &a);
        w.feed.fired = 0;
        w.feed.panic_in = limit;
        let handle = w.maps[&id].handle;
        let status = unsafe { (w.node.api.map_act)(handle, what, w.reg.as_ptr() as *const u8, if what == 4 { val % 64 } else { val }, &mut *w.out) };
        w.feed.panic_in = None;
        let fired = w.feed.fired > 0;
        let got = (w.out.some != 0).then_some(w.out.num[0]);
        cx.count("acts");
        cx.count("map.acts");
        cx.evals += 1;
        cx.log.word(status as u64);
        cx.log.word(got.unwrap_or(u64::MAX));
        if status != if fired { node::INJECTED } else { node::RETURNED } {
            return violation("hasher-panic-lost", format!("{line} on {}: status {status}, hasher panicked: {fired}", w.node.name));
        }
        let m = &w.maps[&id];
        let mut model = m.model.clone();
        // What the act means.
        let answer = match what {
            0 => model.insert(key.clone(), val),
            1 => model.get(&key).copied(),
            2 => model.remove(&key),
            3 => {
                let e = model.entry(key.clone()).or_insert(0);
                *e += val;
                Some(*e)
            },
            6 => {
                model.retain(|_, v| *v % 3 != val % 3);
                None
            },
            7 => {
                model.clear();
                None
            },
            4 | 5 | 8 => None,
            _ => Some(model.len() as u64),
        };
        let mut now = w.contents(m);
        if m.kind == 1 {
            // sorted maps list numbers in their order
            for p in now.windows(2) {
                let (x, y) = (Big::from_le(&p[0].0, node::signed(ty)), Big::from_le(&p[1].0, node::signed(ty)));
                if x.cmp(&y) != Ordering::Less {
                    return violation("out-of-order", format!("{line} on {}: {} before {}", w.node.name, x.hex(), y.hex()));
                }
            }
        }
        now.sort();
        if !fired {
            if got != answer {
                return violation("wrong-answer", format!("{line} on {}: {got:?} instead of {answer:?}", w.node.name));
            }
            if !now.iter().cloned().eq(model.iter().map(|(k, v)| (k.clone(), *v))) {
                return violation("map-differs", format!("{line} on {}: holds {} entries, should hold {}", w.node.name, now.len(), model.len()));
            }
        } else {
            cx.count("fault.map_hasher_panic");
            // Before or after the act, nothing else. The standard map may lose
            // entries when the hasher panics while it moves them around.
            let old = &m.model;
            for (k, v) in &now {
                if old.get(k) != Some(v) && model.get(k) != Some(v) {
                    return violation("map-corrupted", format!("{line} on {}: {} holds {v}", w.node.name, hex(k)));
                }
            }
            for p in now.windows(2) {
                if p[0].0 == p[1].0 {
                    return violation("map-corrupted", format!("{line} on {}: {} twice", w.node.name, hex(&p[0].0)));
                }
            }
            let moves = matches!(what, 0 | 3 | 4 | 5 | 8);
            if !moves && now.len() < old.len().min(model.len()) {
                return violation("map-lost-entries", format!("{line} on {}: {} of {}", w.node.name, now.len(), old.len()));
            }
            cx.count("map.reconciled");
            model = now.into_iter().collect();
        }
        let size = model.len() as u64;
        let kind = m.kind;
        if let Some(m) = w.maps.get_mut(&id) {
            m.model = model;
        }
        cx.reach(mix(hash_str(&w.node.name) ^ (ty as u64) << 4 ^ (what as u64) << 8 ^ way << 12 ^ (fired as u64) << 16 ^ (kind as u64) << 20 ^ size << 24 ^ (got.is_some() as u64) << 40));
        Ok(())
    }

    /// `cast TY sign magnitude over silent panics`
    fn cast(&self, w: &mut World, t: &[&str], line: &str, cx: &mut Cx) -> Result<(), Violation> {
        let Some(ty) = node::TYPES.iter().position(|x| Some(x) == t.get(1)) else { return Ok(()) };
        let mut value = Big::from_le(&num(t.get(3).unwrap_or(&"0")).to_le_bytes(), false);
        value = value.shl(int(t.get(4)).min(512));
        if t.get(2) == Some(&"-") {
            value = value.neg();
        }
        let silent = num(t.get(5).unwrap_or(&"0")) as u32;
        let panics = num(t.get(6).unwrap_or(&"0")) as u32;
        let mut s = Box::new(Source { value: value.clone(), silent, panics, asked: 0, fired: 0 });
        w.out.clear();
        let status = unsafe { (w.node.api.numcast)(ty as u32, answer, &mut *s as *mut Source as *mut u8, &mut *w.out) };
        let got = (status == node::RETURNED && w.out.some != 0).then(|| Big::from_le(&w.out.v0[..node::bytes(ty)], node::signed(ty)));
        cx.count("acts");
        cx.evals += 1;
        cx.log.word(status as u64);
        cx.log.word(s.asked as u64);
        if let Some(g) = &got {
            cx.log.bytes(&g.to_le(node::bytes(ty)));
        }
        let panicked = s.fired & panics != 0;
        if panicked {
            cx.count("fault.source_panic");
        }
        if s.fired & silent & !panics != 0 {
            cx.count("fault.silent_query");
        }
        let shown = || got.as_ref().map_or("nothing".to_string(), |g| g.hex());
        let want = if panicked { node::INJECTED } else { node::RETURNED };
        if status != want {
            return violation("source-panic-lost", format!("{line} on {}: status {status}, source panicked: {panicked}", w.node.name));
        }
        if let Some(g) = &got {
            if g.cmp(&value) != Ordering::Equal {
                return violation("another-number", format!("{line} on {}: {} from a source of {}", w.node.name, shown(), value.hex()));
            }
        }
        // It is the value if nothing went wrong and both sides can hold it.
        let told = value.fits(128, false) || value.fits(128, true);
        let fits = value.fits(node::bits(ty), node::signed(ty));
        if s.fired == 0 && told && fits && got.is_none() {
            return violation("value-refused", format!("{line} on {}: nothing from a source of {}", w.node.name, value.hex()));
        }
        cx.count(if got.is_some() { "cast.value" } else { "cast.refused" });
        cx.reach(mix(hash_str(&w.node.name) ^ (ty as u64) << 4 ^ (s.asked as u64) << 8 ^ (s.fired as u64) << 24 ^ (got.is_some() as u64) << 40 ^ (value.bits() as u64) << 44 ^ (value.is_neg() as u64) << 43));
        Ok(())
    }
}
