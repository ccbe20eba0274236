//! C03: callers sharing a set of numbers, operated on in place.

use crate::big::Big;
use crate::engine::*;
use crate::model::{self, Ans};
use crate::node::{self, Node, Out};
use crate::rng::{hash_str, mix, Rng};

pub struct C03;

const REGS: usize = 6;
const SLOT: usize = 256;
const CANARY: u8 = 0xa5;

/// Registers in caller memory, each between guard bytes.
struct Regs {
    mem: Vec<u8>,
    base: usize,
    ty: usize,
}

impl Regs {
    fn new(ty: usize) -> Self {
        let mem = vec![CANARY; SLOT * (REGS + 1) + 64];
        let base = 64 - (mem.as_ptr() as usize % 64);
        Regs { mem, base, ty }
    }

    fn at(&mut self, k: usize) -> *mut u8 {
        unsafe { self.mem.as_mut_ptr().add(self.base + 64 + SLOT * (k % REGS)) }
    }

    fn set(&mut self, node: &Node, k: usize, bytes: &[u8]) {
        let (p, ty) = (self.at(k), self.ty);
        unsafe { (node.api.reg_set)(ty as u32, p, bytes.as_ptr()) }
    }

    fn get(&mut self, node: &Node, k: usize) -> Vec<u8> {
        let mut v = vec![0u8; node::bytes(self.ty)];
        let p = self.at(k);
        unsafe { (node.api.reg_get)(self.ty as u32, p, v.as_mut_ptr()) };
        v
    }

    fn guards_ok(&self, size: usize) -> bool {
        for (i, b) in self.mem.iter().enumerate() {
            let off = i as i64 - self.base as i64 - 64;
            let inside = off >= 0 && (off as usize) < SLOT * REGS && (off as usize) % SLOT < size;
            if !inside && *b != CANARY {
                return false;
            }
        }
        true
    }
}

impl Engine for C03 {
    fn id(&self) -> &'static str {
        "C03"
    }

    fn builds(&self) -> &'static [&'static str] {
        &["n64r", "n64c", "n32r", "n32c", "n64n"]
    }

    fn scenarios(&self, thorough: bool) -> u64 {
        if thorough { 8_000_000 } else { 1_000_000 }
    }

    fn rule(&self) -> &'static str {
        "scenario = random build, type, 2-4 callers with interleaved programs of in-place and write-back operations on shared registers; distinct = (build, type, operation, how it ended, operand shape); non-trivial = every operation counted here really ran and was compared with the model"
    }

    fn real(&self) -> &'static [&'static str] {
        &["the library (five builds)", "unwinding", "register memory"]
    }

    fn stubs(&self) -> &'static [&'static str] {
        &["callers and their scheduler"]
    }

    fn probes(&self) -> &'static [&'static str] {
        &["fault.overflow_panic", "fault.zero_divisor", "fault.refused", "fault.shift_panic", "ok.inplace", "ok.writeback"]
    }

    fn time(&self) -> (&'static str, &'static str) {
        ("operations applied to registers", "ops")
    }

    fn generate(&self, _index: u64, rng: &mut Rng, nodes: &[Node]) -> Plan {
        let node = rng.pick(nodes);
        let ty = *rng.pick(&[0, 0, 0, 1, 1, 1, 2, 3, 4, 5, 6, 7]);
        let (bits, bytes) = (node::bits(ty), node::bytes(ty));
        let mut plan = vec![format!("build {}", node.name), format!("type {}", node::TYPES[ty])];
        // swarm: a small vocabulary per scenario
        let vocab: Vec<(bool, &crate::node::OpInfo)> = (0..rng.range(3, 14))
            .map(|_| loop {
                let (inplace, op) = if rng.chance(45) {
                    (true, rng.pick(&node.inplace[ty]))
                } else {
                    (false, rng.pick(&node.ops[ty]))
                };
                if inplace || modelled(&op.name, ty) {
                    break (inplace, op);
                }
            })
            .collect();
        let regs = rng.range(2, REGS as u64);
        for r in 0..regs {
            plan.push(format!("set {r} {}", hex(&value(rng, bytes))));
        }
        // several callers, each with a program; the schedule interleaves them
        let callers = rng.range(2, 4) as usize;
        let mut programs: Vec<Vec<String>> = vec![];
        for c in 0..callers {
            let mut p = vec![];
            for _ in 0..rng.range(2, 14) {
                if rng.chance(35) {
                    p.push(format!("set {} {}", rng.below(regs), hex(&value(rng, bytes))));
                }
                let (inplace, op) = *rng.pick(&vocab);
                let (dst, src, src2) = (rng.below(regs), rng.below(regs), rng.below(regs));
                if rng.chance(40) {
                    let (x, y) = pair(rng, bytes, node::signed(ty));
                    let (p1, p2) = if inplace { (dst, src) } else { (src, src2) };
                    p.push(format!("set {p1} {}", hex(&x)));
                    if p1 != p2 {
                        p.push(format!("set {p2} {}", hex(&y)));
                    }
                }
                let second = if inplace { src } else { src2 };
                if op.has('d') && rng.chance(12) {
                    p.push(format!("set {second} 0x0"));
                }
                if op.has('y') {
                    // shift by a register: mostly in range
                    let k = if rng.chance(70) { hexn(rng.below(bits as u64) as u128) } else { hex(&value(rng, bytes)) };
                    p.push(format!("set {second} {k}"));
                }
                let n = if op.has('p') {
                    exponent(rng)
                } else if op.has('s') && rng.chance(60) {
                    rng.below(bits as u64) as u128
                } else {
                    number(rng, bits)
                };
                if !inplace && (op.has('m') || op.has('n')) && rng.chance(50) {
                    if let Some(x) = model::operand(&op.name, n, node.build()) {
                        p.push(format!("set {src} {}", hex(&mate(rng, bytes, node::signed(ty), &x))));
                    }
                }
                if !inplace && op.has('p') && rng.chance(12) {
                    p.push(format!("set {src} {}", hex(&root(rng, bytes, node::signed(ty), n))));
                }
                if inplace {
                    p.push(format!("do {c} {} {dst} {src} {}", op.name, hexn(n)));
                } else {
                    p.push(format!("wb {c} {} {dst} {src} {src2} {}", op.name, hexn(n)));
                }
            }
            p.reverse();
            programs.push(p);
        }
        while programs.iter().any(|p| !p.is_empty()) {
            let c = rng.below(callers as u64) as usize;
            if let Some(l) = programs[c].pop() {
                plan.push(l);
            }
        }
        plan
    }

    fn run(&self, plan: &Plan, cx: &mut Cx) -> Result<(), Violation> {
        let mut node: Option<&Node> = None;
        let mut ty = 0usize;
        let mut regs = Regs::new(0);
        let mut model: Vec<Big> = vec![Big::zero(); REGS];
        let mut out = Out::new();
        for (i, line) in plan.iter().enumerate() {
            cx.at_line(i);
            let t: Vec<&str> = line.split_whitespace().collect();
            match t.first() {
                Some(&"build") => node = t.get(1).and_then(|n| cx.node(n)),
                Some(&"type") => {
                    ty = node::TYPES.iter().position(|x| Some(x) == t.get(1)).unwrap_or(0);
                    regs = Regs::new(ty);
                    model = vec![Big::zero(); REGS];
                    let Some(node) = node else { return Ok(()) };
                    for k in 0..REGS {
                        regs.set(node, k, &vec![0; node::bytes(ty)]);
                    }
                },
                Some(&"set") => {
                    let Some(node) = node else { return Ok(()) };
                    let k = int(t.get(1)) % REGS;
                    let v = unhex(t.get(2).unwrap_or(&"0x0"), node::bytes(ty));
                    regs.set(node, k, &v);
                    model[k] = Big::from_le(&v, node::signed(ty));
                },
                Some(&op @ ("do" | "wb")) => {
                    let Some(node) = node else { return Ok(()) };
                    let inplace = op == "do";
                    let name = t.get(2).unwrap_or(&"");
                    let dst = int(t.get(3)) % REGS;
                    let src = int(t.get(4)) % REGS;
                    let src2 = int(t.get(5)) % REGS;
                    let n = num(t.last().unwrap());
                    self.step(node, ty, inplace, name, dst, src, src2, n, &mut regs, &mut model, &mut out, cx)?;
                },
                _ => {},
            }
        }
        Ok(())
    }
}

impl C03 {
    #[allow(clippy::too_many_arguments)]
    fn step(&self, node: &Node, ty: usize, inplace: bool, name: &str, dst: usize, src: usize, src2: usize, n: u128, regs: &mut Regs, model: &mut [Big], out: &mut Out, cx: &mut Cx) -> Result<(), Violation> {
        let (a, b) = if inplace { (model[dst].clone(), model[src].clone()) } else { (model[src].clone(), model[src2].clone()) };
        let expected = if inplace {
            let Some(op) = node.inplace_index(ty, name) else { return Ok(()) };
            let Some(e) = model::inplace(name, ty, node.build(), &a, &b, n) else { return Ok(()) };
            (op, e)
        } else {
            let Some(op) = node.op_index(ty, name) else { return Ok(()) };
            let Some(e) = model::answer(name, ty, node.build(), &a, &b, n) else { return Ok(()) };
            (op, e)
        };
        let (op, expected) = expected;
        let what = || format!("{} on {} {}: operands {} {} number {:#x}", name, node.name, node::TYPES[ty], a.hex(), b.hex(), n);
        let status;
        let mut returned = None;
        if inplace {
            let (p, q) = (regs.at(dst), regs.at(src));
            status = unsafe { (node.api.inplace)(ty as u32, op as u32, p, q, n.to_le_bytes().as_ptr()) };
        } else {
            let (x, y) = (regs.get(node, src), regs.get(node, src2));
            status = node.op(ty, op, &x, &y, n, out);
            if status == node::RETURNED {
                returned = Some(out.some != 0);
                if out.some != 0 {
                    let v = out.v0[..node::bytes(ty)].to_vec();
                    if let Ans::Value(e) = &expected {
                        if let Some(v1) = &e.v1 {
                            if out.v1[..node::bytes(ty)] != v1.to_le(node::bytes(ty))[..] {
                                return violation(format!("wrong-result:{name}"), format!("{} second result {}", what(), hex(&out.v1[..node::bytes(ty)])));
                            }
                        }
                        if let Some(m) = &e.num {
                            let got = out.num[0] as u128 | (out.num[1] as u128) << 64;
                            if got != m.wrap(128, false).low_u128() {
                                return violation(format!("wrong-result:{name}"), format!("{} second result {got:#x}", what()));
                            }
                        }
                        if let Some(f) = e.flag {
                            if (out.flag != 0) != f {
                                return violation(format!("wrong-flag:{name}"), format!("{} flag {}", what(), out.flag));
                            }
                        }
                    }
                    if matches!(&expected, Ans::Value(e) if e.v0.is_none()) {
                        // a narrow result: nothing to write back
                    } else {
                        regs.set(node, dst, &v);
                    }
                }
            }
        }
        cx.count("ops");
        cx.evals += 1;
        cx.log.word(status as u64);
        let ended = match (&expected, status) {
            (Ans::Panic, node::PANICKED) => {
                let zero = b.is_zero() && (name.contains("div") || name.contains("rem"));
                let kind = if zero {
                    "fault.zero_divisor"
                } else if name.contains("sh") {
                    "fault.shift_panic"
                } else {
                    "fault.overflow_panic"
                };
                cx.count(kind);
                1u64
            },
            (Ans::Panic, _) => return violation(format!("missing-failure:{name}"), format!("{} should fail but returned", what())),
            (_, node::PANICKED) => return violation(format!("spurious-panic:{name}"), format!("{} panicked", what())),
            (Ans::Refuse, _) => {
                if returned != Some(false) {
                    return violation(format!("missing-refusal:{name}"), format!("{} should be refused", what()));
                }
                cx.count("fault.refused");
                2
            },
            (Ans::Value(v), _) => {
                if returned == Some(false) {
                    return violation(format!("spurious-refusal:{name}"), format!("{} refused", what()));
                }
                if let Some(x) = &v.v0 {
                    model[dst] = x.wrap(node::bits(ty), node::signed(ty));
                }
                cx.count(if inplace { "ok.inplace" } else { "ok.writeback" });
                3
            },
        };
        // Every register, after every operation.
        for k in 0..REGS {
            let got = regs.get(node, k);
            cx.log.bytes(&got);
            if got != model[k].to_le(node::bytes(ty)) {
                let failed = ended != 3;
                let class = match (failed, k == dst) {
                    (true, true) => "target-changed-by-failed",
                    (true, false) => "bystander-changed-by-failed",
                    (false, true) => "wrong-result",
                    (false, false) => "bystander-changed",
                };
                return violation(format!("{class}:{name}"), format!("{}: register {k} is {} instead of {}", what(), hex(&got), hex(&model[k].to_le(node::bytes(ty)))));
            }
        }
        if !regs.guards_ok(unsafe { (node.api.reg_size)(ty as u32) } as usize) {
            return violation(format!("stray-write:{name}"), what());
        }
        let shape = (a.bits() as u64 / 16) << 16 | (b.bits() as u64 / 16) << 2 | (a.is_neg() as u64) << 1 | b.is_neg() as u64;
        cx.reach(mix(hash_str(name) ^ mix(hash_str(&node.name) ^ (ty as u64) << 40 ^ ended << 48 ^ shape)));
        Ok(())
    }
}

/// Whether it is known what a by-value operation returns.
fn modelled(name: &str, ty: usize) -> bool {
    let build = model::Build { checks: false, limb: 64 };
    model::answer(name, ty, build, &Big::from_u64(6), &Big::from_u64(2), 2).is_some()
}
