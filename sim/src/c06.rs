//! C06: a cluster of replicas, each on its own build, fed one log.

use std::collections::{BTreeMap, BTreeSet};

use crate::big::Big;
use crate::engine::*;
use crate::model;
use crate::node::{self, Node, Out, FAILED, INJECTED, PANICKED, RETURNED};
use crate::rng::{hash_str, mix, Rng};

pub struct C06;

const REGS: usize = 5;
const ENCODINGS: usize = 12;

/// One log entry, decoded.
#[derive(Clone)]
enum Entry {
    Set(usize, String),
    /// By-value operation written back to a register.
    Op { name: String, dst: usize, a: usize, b: usize, n: u128 },
    /// In-place operation.
    Do { name: String, dst: usize, b: usize, n: u128 },
    /// Text of a register appended to the replica's output.
    Text { enc: u32, a: usize },
    /// Register read from text.
    Read { dst: usize, radix: u32, text: Vec<u8> },
}

fn entry(t: &[&str]) -> Option<Entry> {
    let reg = |k: usize| int(t.get(k)) % REGS;
    Some(match *t.get(1)? {
        "set" => Entry::Set(reg(2), t.get(3)?.to_string()),
        "op" => Entry::Op { name: t.get(2)?.to_string(), dst: reg(3), a: reg(4), b: reg(5), n: num(t.get(6)?) },
        "do" => Entry::Do { name: t.get(2)?.to_string(), dst: reg(3), b: reg(4), n: num(t.get(5)?) },
        "text" => Entry::Text { enc: (int(t.get(2)) % ENCODINGS) as u32, a: reg(3) },
        "read" => Entry::Read { dst: reg(2), radix: (int(t.get(3)) as u32).clamp(2, 36), text: unblob(t.get(4)?) },
        _ => return None,
    })
}

struct Snapshot {
    pos: usize,
    enc: u32,
    by: String,
    data: Vec<Vec<u8>>,
}

struct Replica<'a> {
    node: &'a Node,
    up: bool,
    regs: Vec<Vec<u8>>,
    /// Entries applied.
    pos: usize,
    /// Delivered but not yet applicable.
    early: BTreeSet<usize>,
}

/// Memory for one value, aligned generously.
#[repr(C, align(64))]
struct Slot([u8; 256]);

impl Engine for C06 {
    fn id(&self) -> &'static str {
        "C06"
    }

    fn builds(&self) -> &'static [&'static str] {
        &["n64r", "n64c", "n32r", "n32c", "n64n"]
    }

    fn scenarios(&self, thorough: bool) -> u64 {
        if thorough { 2_500_000 } else { 350_000 }
    }

    fn rule(&self) -> &'static str {
        "scenario = 2-5 replicas on random different builds, one log of 6-40 build-independent operations, an event-queue schedule of deliveries (delay, duplicate, reorder, drop and resend), crashes, snapshots in random encodings and restores from any replica's snapshot; distinct = (operation, type, set of builds compared, how it ended, operand shape) and (snapshot encoding, type, writer build, reader build); non-trivial = a log position or snapshot seen by at least two different builds"
    }

    fn real(&self) -> &'static [&'static str] {
        &["the library, one build per replica (five builds)", "encoders, decoders, parsers and formatters used for snapshots"]
    }

    fn stubs(&self) -> &'static [&'static str] {
        &["network", "replica lifecycle", "snapshot store", "log"]
    }

    fn probes(&self) -> &'static [&'static str] {
        &["fault.duplicate", "fault.early", "fault.crash", "fault.lost_while_down", "fault.resend", "restore.other_build", "restore.same_build", "op.refused", "op.panicked", "op.returned"]
    }

    fn time(&self) -> (&'static str, &'static str) {
        ("network and lifecycle events", "events")
    }

    fn generate(&self, _index: u64, rng: &mut Rng, nodes: &[Node]) -> Plan {
        let ty = *rng.pick(&[0, 0, 0, 1, 1, 1, 2, 3, 4, 5, 6, 7]);
        let (bits, bytes) = (node::bits(ty), node::bytes(ty));
        let mut plan = vec![format!("type {}", node::TYPES[ty])];
        // replicas: different builds first
        let mut order: Vec<usize> = (0..nodes.len()).collect();
        rng.shuffle(&mut order);
        let n = rng.range(2, 5) as usize;
        for r in 0..n {
            plan.push(format!("replica {r} {}", nodes[order[r % order.len()]].name));
        }
        // the log
        let sample = &nodes[0];
        let any: Vec<&str> = sample.ops[ty].iter().map(|o| o.name.as_str()).collect();
        let vocab: Vec<&str> = (0..rng.range(2, 10)).map(|_| *rng.pick(&any)).collect();
        let dos: Vec<&str> = sample.inplace[ty].iter().map(|o| o.name.as_str()).collect();
        let mut log = 0usize;
        for r in 0..REGS {
            plan.push(format!("entry set {r} {}", hex(&value(rng, bytes))));
            log += 1;
        }
        let fresh = *rng.pick(&[10, 30, 60]);
        for _ in 0..rng.range(3, 34) {
            if rng.chance(fresh) {
                plan.push(format!("entry set {} {}", rng.below(REGS as u64), hex(&value(rng, bytes))));
                log += 1;
            }
            let (d, a, b) = (rng.below(REGS as u64), rng.below(REGS as u64), rng.below(REGS as u64));
            if rng.chance(25) {
                let (x, y) = pair(rng, bytes, node::signed(ty));
                plan.push(format!("entry set {a} {}", hex(&x)));
                plan.push(format!("entry set {b} {}", hex(&y)));
                log += 2;
            }
            match rng.below(20) {
                0 => plan.push(format!("entry text {} {a}", rng.below(ENCODINGS as u64))),
                1 => {
                    let radix = *rng.pick(&[2u64, 8, 10, 10, 16, 36, 3, 7, 11, 17, 32]);
                    let v = Big::from_le(&value(rng, bytes), node::signed(ty));
                    let mut s = v.to_text(radix as u32).into_bytes();
                    if rng.chance(30) {
                        s.truncate(rng.below(s.len() as u64 + 1) as usize);
                    }
                    if rng.chance(10) {
                        s.extend(b"0".repeat(rng.range(1, 40) as usize));
                    }
                    plan.push(format!("entry read {d} {radix} {}", blob(&s)));
                },
                2 | 3 if !dos.is_empty() => {
                    let name = rng.pick(&dos);
                    let k = if name.starts_with("sh") { rng.below(bits as u64) as u128 } else { number(rng, bits) };
                    plan.push(format!("entry do {name} {d} {b} {}", hexn(k)));
                },
                _ => {
                    let name = rng.pick(&vocab);
                    let info = &sample.ops[ty][sample.op_index(ty, name).unwrap()];
                    let k = if info.has('p') {
                        exponent(rng)
                    } else if info.has('s') && rng.chance(60) {
                        rng.below(bits as u64) as u128
                    } else {
                        number(rng, bits)
                    };
                    if (info.has('m') || info.has('n')) && rng.chance(50) {
                        let build = model::Build { checks: false, limb: *rng.pick(&[32, 64]) };
                        if let Some(x) = model::operand(name, k, build) {
                            plan.push(format!("entry set {a} {}", hex(&mate(rng, bytes, node::signed(ty), &x))));
                            log += 1;
                        }
                    }
                    if info.has('p') && rng.chance(12) {
                        plan.push(format!("entry set {a} {}", hex(&root(rng, bytes, node::signed(ty), k))));
                        log += 1;
                    }
                    plan.push(format!("entry op {name} {d} {a} {b} {}", hexn(k)));
                },
            }
            log += 1;
        }
        // the network: an event queue in virtual time
        let swarm = (rng.chance(60), rng.chance(60), rng.chance(50), rng.chance(60));
        let mut queue: BTreeMap<(u64, u64), String> = BTreeMap::new();
        let mut seq = 0u64;
        let mut push = |at: u64, line: String| {
            seq += 1;
            queue.insert((at, seq), line);
        };
        for i in 0..log {
            let sent = i as u64 * 10;
            for r in 0..n {
                let mut at = sent + rng.below(if swarm.0 { 200 } else { 10 });
                if swarm.1 && rng.chance(15) {
                    // dropped; the sender retries later
                    at += rng.range(50, 400);
                    push(at, format!("resend {r} {i}"));
                } else {
                    push(at, format!("deliver {r} {i}"));
                }
                if swarm.1 && rng.chance(10) {
                    push(at + rng.below(300), format!("deliver {r} {i}"));
                }
            }
        }
        let end = log as u64 * 10 + 100;
        let mut slot = 0u64;
        if swarm.3 {
            for _ in 0..rng.range(1, 5) {
                push(rng.below(end), format!("snap {} {} {slot}", rng.below(n as u64), rng.below(ENCODINGS as u64)));
                slot += 1;
            }
        }
        if swarm.2 {
            for _ in 0..rng.range(1, 4) {
                let r = rng.below(n as u64);
                let at = rng.below(end);
                push(at, format!("crash {r}"));
                push(at + rng.range(1, 250), format!("restore {r} {}", rng.below(slot.max(1))));
            }
        }
        plan.extend(queue.into_values());
        plan
    }

    fn run(&self, plan: &Plan, cx: &mut Cx) -> Result<(), Violation> {
        let mut ty = 0usize;
        let mut log: Vec<Entry> = vec![];
        let mut reps: Vec<Replica> = vec![];
        for line in plan {
            let t: Vec<&str> = line.split_whitespace().collect();
            match t.first() {
                Some(&"type") => ty = node::TYPES.iter().position(|x| Some(x) == t.get(1)).unwrap_or(0),
                Some(&"replica") => {
                    if let Some(node) = t.get(2).and_then(|n| cx.node(n)) {
                        reps.push(Replica { node, up: true, regs: vec![], pos: 0, early: BTreeSet::new() });
                    }
                },
                Some(&"entry") => log.extend(entry(&t)),
                _ => {},
            }
        }
        if reps.is_empty() {
            return Ok(());
        }
        let bytes = node::bytes(ty);
        for r in reps.iter_mut() {
            r.regs = vec![vec![0; bytes]; REGS];
        }
        let mut table: BTreeMap<usize, (Vec<u8>, Vec<Vec<u8>>, String)> = BTreeMap::new();
        let mut snaps: BTreeMap<usize, Snapshot> = BTreeMap::new();
        let mut out = Out::new();
        for (i, line) in plan.iter().enumerate() {
            cx.at_line(i);
            let t: Vec<&str> = line.split_whitespace().collect();
            let r = int(t.get(1)) % reps.len();
            match t.first() {
                Some(&what @ ("deliver" | "resend")) => {
                    cx.count("events");
                    let k = int(t.get(2));
                    if k >= log.len() {
                        continue;
                    }
                    if !reps[r].up {
                        cx.count("fault.lost_while_down");
                        continue;
                    }
                    if what == "resend" {
                        cx.count("fault.resend");
                    }
                    if k < reps[r].pos || reps[r].early.contains(&k) {
                        cx.count("fault.duplicate");
                        continue;
                    }
                    if k > reps[r].pos {
                        cx.count("fault.early");
                    }
                    reps[r].early.insert(k);
                    self.advance(&mut reps[r], ty, &log, &mut table, &mut out, cx)?;
                },
                Some(&"snap") => {
                    cx.count("events");
                    if !reps[r].up {
                        continue;
                    }
                    let enc = (int(t.get(2)) % ENCODINGS) as u32;
                    let mut data = vec![];
                    for v in &reps[r].regs {
                        let st = reps[r].node.encode(ty, enc, v, &mut out);
                        if st != RETURNED {
                            return violation("snapshot-failed", format!("encoding {enc} of {} on {} {}", hex(v), reps[r].node.name, node::TYPES[ty]));
                        }
                        data.push(out.text().to_vec());
                    }
                    cx.count("snapshots");
                    snaps.insert(int(t.get(3)), Snapshot { pos: reps[r].pos, enc, by: reps[r].node.name.clone(), data });
                },
                Some(&"crash") => {
                    cx.count("events");
                    if reps[r].up {
                        cx.count("fault.crash");
                        let rep = &mut reps[r];
                        rep.up = false;
                        rep.early.clear();
                        rep.pos = 0;
                        rep.regs = vec![vec![0; bytes]; REGS];
                    }
                },
                Some(&"restore") => {
                    cx.count("events");
                    let rep = &mut reps[r];
                    if rep.up {
                        continue;
                    }
                    rep.up = true;
                    if let Some(s) = snaps.get(&int(t.get(2))) {
                        for (k, d) in s.data.iter().enumerate() {
                            let st = rep.node.decode(ty, s.enc, d, &mut out);
                            let what = || format!("encoding {} position {} register {k} written by {} as {} read by {} {}", s.enc, s.pos, s.by, String::from_utf8_lossy(d), rep.node.name, node::TYPES[ty]);
                            if st != RETURNED || out.some == 0 {
                                return violation("snapshot-refused", what());
                            }
                            rep.regs[k] = out.v0[..bytes].to_vec();
                            let agreed = if s.pos == 0 { vec![0; bytes] } else { table[&(s.pos - 1)].1[k].clone() };
                            if rep.regs[k] != agreed {
                                return violation("snapshot-differs", format!("{}: got {} instead of {}", what(), hex(&rep.regs[k]), hex(&agreed)));
                            }
                        }
                        rep.pos = s.pos;
                        cx.evals += 1;
                        cx.count(if s.by == rep.node.name { "restore.same_build" } else { "restore.other_build" });
                        cx.reach(mix(hash_str(&s.by) ^ mix(hash_str(&rep.node.name) ^ (s.enc as u64) << 8 ^ ty as u64)));
                    } else {
                        cx.count("restore.from_nothing");
                    }
                },
                _ => {},
            }
        }
        // Everybody comes back and catches up.
        for r in reps.iter_mut() {
            r.up = true;
            r.early.extend(r.pos..log.len());
            self.advance(r, ty, &log, &mut table, &mut out, cx)?;
        }
        Ok(())
    }
}

/// Whether the operation on these operands is one whose outcome the build is
/// not allowed to influence. Overflow of the plain operators is: some builds
/// check for it.
fn independent(name: &str, hint_o: bool, ty: usize, inplace: bool, a: &[u8], b: &[u8], n: u128) -> bool {
    let (a, b) = (Big::from_le(a, node::signed(ty)), Big::from_le(b, node::signed(ty)));
    let ask = |checks, limb| {
        let build = model::Build { checks, limb };
        if inplace {
            model::inplace(name, ty, build, &a, &b, n)
        } else {
            model::answer(name, ty, build, &a, &b, n)
        }
    };
    match ask(true, 64) {
        Some(x) => [(false, 64), (true, 32)].iter().all(|(c, l)| ask(*c, *l).as_ref() == Some(&x)),
        None => !inplace && !hint_o && !matches!(name, "div_floor" | "div_ceil") && ask(false, 64).is_none(),
    }
}

impl C06 {
    fn advance(&self, r: &mut Replica, ty: usize, log: &[Entry], table: &mut BTreeMap<usize, (Vec<u8>, Vec<Vec<u8>>, String)>, out: &mut Out, cx: &mut Cx) -> Result<(), Violation> {
        while r.early.remove(&r.pos) {
            let before = r.regs.clone();
            let outcome = apply(r, ty, &log[r.pos], out, cx);
            cx.evals += 1;
            let e = &log[r.pos];
            match table.get(&r.pos) {
                None => {
                    table.insert(r.pos, (outcome, r.regs.clone(), r.node.name.clone()));
                },
                Some((o, regs, by)) => {
                    if *o != outcome || *regs != r.regs {
                        let (name, what) = describe(e, &before);
                        return violation(
                            format!("diverged:{name}"),
                            format!("position {} {} {what}: {} and {} differ: {} / {}", r.pos, node::TYPES[ty], by, r.node.name, show(o, ty), show(&outcome, ty)),
                        );
                    }
                    if *by != r.node.name && outcome != [8] {
                        let (name, _) = describe(e, &before);
                        let shape = match e {
                            Entry::Op { a, b, .. } => width(&before[*a]) << 8 ^ width(&before[*b]),
                            Entry::Do { dst, b, .. } => width(&before[*dst]) << 8 ^ width(&before[*b]),
                            Entry::Text { a, .. } => width(&before[*a]),
                            Entry::Read { text, .. } => text.len() as u64 / 8,
                            _ => 0,
                        };
                        let pair = hash_str(by) ^ hash_str(&r.node.name);
                        cx.reach(mix(hash_str(&name) ^ mix(pair ^ (ty as u64) << 40 ^ (outcome[0] as u64) << 48 ^ shape << 8)));
                    }
                },
            }
            for v in &r.regs {
                cx.log.bytes(v);
            }
            r.pos += 1;
        }
        Ok(())
    }
}

fn width(v: &[u8]) -> u64 {
    v.iter().rposition(|b| *b != 0).map_or(0, |p| p as u64 / 2 + 1)
}

fn show(o: &[u8], ty: usize) -> String {
    let b = node::bytes(ty);
    match o.first() {
        Some(&1) => "unwound".into(),
        Some(&0) if o.len() >= 33 + 128 => {
            let f = |k: usize| u32::from_le_bytes(o[k..k + 4].try_into().unwrap());
            if f(1) == 0 {
                return format!("refused ({})", f(13));
            }
            format!("value {} second {} flag {} number {} text {}", hex(&o[33..33 + b]), hex(&o[161..161 + b]), f(5), hex(&o[17..33]), String::from_utf8_lossy(&o[289..]))
        },
        _ => format!("{o:?}"),
    }
}

fn describe(e: &Entry, regs: &[Vec<u8>]) -> (String, String) {
    match e {
        Entry::Set(..) => ("set".into(), String::new()),
        Entry::Op { name, a, b, n, .. } => (name.clone(), format!("{name} {} {} number {n:#x}", hex(&regs[*a]), hex(&regs[*b]))),
        Entry::Do { name, dst, b, n } => (name.clone(), format!("{name} {} {} number {n:#x}", hex(&regs[*dst]), hex(&regs[*b]))),
        Entry::Text { enc, a } => (format!("text-{enc}"), format!("encoding {enc} of {}", hex(&regs[*a]))),
        Entry::Read { radix, text, .. } => ("read".into(), format!("radix {radix} text {}", String::from_utf8_lossy(text))),
    }
}

/// Apply one entry; the result is everything the caller can observe.
fn apply(r: &mut Replica, ty: usize, e: &Entry, out: &mut Out, cx: &mut Cx) -> Vec<u8> {
    let bytes = node::bytes(ty);
    let mut seen = |st: u32, out: &Out| -> Vec<u8> {
        cx.count(match st {
            PANICKED => "op.panicked",
            FAILED | INJECTED => "op.failed",
            _ if out.some == 0 => "op.refused",
            _ => "op.returned",
        });
        let mut v = vec![st as u8];
        if st == RETURNED {
            v.extend(out.image());
        }
        v
    };
    match e {
        Entry::Set(k, v) => {
            r.regs[*k] = unhex(v, bytes);
            vec![0]
        },
        Entry::Op { name, dst, a, b, n } => {
            let Some(op) = r.node.op_index(ty, name) else { return vec![9] };
            if !independent(name, r.node.ops[ty][op].has('o'), ty, false, &r.regs[*a], &r.regs[*b], *n) {
                return vec![8];
            }
            let st = r.node.op(ty, op, &r.regs[*a], &r.regs[*b], *n, out);
            if st == RETURNED && out.some != 0 {
                r.regs[*dst] = out.v0[..bytes].to_vec();
            }
            seen(st, out)
        },
        Entry::Do { name, dst, b, n } => {
            let Some(op) = r.node.inplace_index(ty, name) else { return vec![9] };
            if !independent(name, true, ty, true, &r.regs[*dst], &r.regs[*b], *n) {
                return vec![8];
            }
            let mut x = Box::new(Slot([0; 256]));
            let mut y = Box::new(Slot([0; 256]));
            let (p, q) = (x.0.as_mut_ptr(), y.0.as_mut_ptr());
            let st = unsafe {
                (r.node.api.reg_set)(ty as u32, p, r.regs[*dst].as_ptr());
                (r.node.api.reg_set)(ty as u32, q, r.regs[*b].as_ptr());
                let st = (r.node.api.inplace)(ty as u32, op as u32, p, q, n.to_le_bytes().as_ptr());
                (r.node.api.reg_get)(ty as u32, p, r.regs[*dst].as_mut_ptr());
                st
            };
            vec![st as u8]
        },
        Entry::Text { enc, a } => {
            let st = r.node.encode(ty, *enc, &r.regs[*a], out);
            seen(st, out)
        },
        Entry::Read { dst, radix, text } => {
            let st = r.node.parse(ty, *radix, text, out);
            if st == RETURNED && out.some != 0 {
                r.regs[*dst] = out.v0[..bytes].to_vec();
            }
            seen(st, out)
        },
    }
}
