//! C05: every call with an allocator that refuses.

use crate::call::{self, Call};
use crate::engine::*;
use crate::node::{self, Node};
use crate::rng::{hash_str, mix, Rng};

pub struct C05;

impl Engine for C05 {
    fn id(&self) -> &'static str {
        "C05"
    }

    fn builds(&self) -> &'static [&'static str] {
        &["n64r", "n64c", "n32r", "n32c", "n64n"]
    }

    fn scenarios(&self, thorough: bool) -> u64 {
        if thorough { 8_000_000 } else { 700_000 }
    }

    fn rule(&self) -> &'static str {
        "scenario = a history of calls of every kind while the allocator refuses from the start, from some request on or by a pattern, each compared with the same call under a working allocator before or after; distinct = (build, type, call, refusal pattern kind, order, how it ended); non-trivial = the allocator was armed and shown to refuse"
    }

    fn real(&self) -> &'static [&'static str] {
        &["the library (five builds)", "core::fmt", "unwinding", "the global allocator underneath"]
    }

    fn stubs(&self) -> &'static [&'static str] {
        &["global allocator front (grants or refuses)", "sinks, hashers and number sources"]
    }

    fn probes(&self) -> &'static [&'static str] {
        &["fault.refuse_all", "fault.refuse_later", "fault.refuse_pattern", "fault.probe_refused", "ok.returned", "ok.panicked"]
    }

    fn time(&self) -> (&'static str, &'static str) {
        ("calls made with the allocator refusing", "calls")
    }

    fn generate(&self, _index: u64, rng: &mut Rng, nodes: &[Node]) -> Plan {
        let node = rng.pick(nodes);
        let mut plan = vec![format!("build {}", node.name)];
        let ty = rng.below(8) as usize;
        let text = *rng.pick(&[10, 60, 100]);
        for _ in 0..rng.range(2, 10) {
            if rng.chance(40) || plan.len() == 1 {
                plan.push(match rng.below(6) {
                    0 | 1 | 2 => "arm 0".into(),
                    3 | 4 => format!("arm {}", rng.range(1, 4)),
                    _ => format!("pattern {}", hexn(rng.next() as u128)),
                });
            }
            let order = if rng.chance(60) { "refused" } else { "working" };
            let wide = rng.chance(60);
            plan.push(format!("call {order} {}", call::random(rng, node, ty, text, wide)));
        }
        plan
    }

    fn run(&self, plan: &Plan, cx: &mut Cx) -> Result<(), Violation> {
        let mut node: Option<&Node> = None;
        let mut mode = (0u32, 0u64);
        for (i, line) in plan.iter().enumerate() {
            cx.at_line(i);
            let t: Vec<&str> = line.split_whitespace().collect();
            match t.first() {
                Some(&"build") => node = t.get(1).and_then(|n| cx.node(n)),
                Some(&"arm") => mode = (1, int(t.get(1)) as u64),
                Some(&"pattern") => mode = (2, num(t.get(1).unwrap_or(&"0")) as u64),
                Some(&"call") if t.len() > 4 => {
                    let Some(node) = node else { continue };
                    let Some(mut c) = Call::parse(node, &t[2..]) else { continue };
                    let refused_first = t[1] == "refused";
                    let mut outcomes = [vec![], vec![]];
                    let mut shown = [String::new(), String::new()];
                    let order = if refused_first { [true, false] } else { [false, true] };
                    for refused in order {
                        if refused {
                            unsafe {
                                match mode.0 {
                                    0 => (node.api.alloc_arm)(0),
                                    1 => (node.api.alloc_arm)(mode.1),
                                    _ => (node.api.alloc_pattern)(mode.1),
                                }
                            }
                        }
                        c.make();
                        if refused {
                            let seen = unsafe { (node.api.alloc_disarm)() };
                            cx.add("library_requests", seen >> 32);
                            cx.add("fault.library_request_refused", seen & 0xffff_ffff);
                        }
                        let k = refused as usize;
                        outcomes[k] = c.outcome();
                        shown[k] = c.describe();
                    }
                    cx.count("calls");
                    cx.evals += 1;
                    cx.log.bytes(&outcomes[1]);
                    let kind = match mode {
                        (0, _) | (1, 0) => "fault.refuse_all",
                        (1, _) => "fault.refuse_later",
                        _ => "fault.refuse_pattern",
                    };
                    cx.count(kind);
                    cx.count(if c.status == node::PANICKED { "ok.panicked" } else { "ok.returned" });
                    if outcomes[0] != outcomes[1] {
                        return violation(
                            format!("refusal-changed-outcome:{}", c.name),
                            format!("{} on {}: refused {}; working {}", t[2..].join(" "), node.name, shown[1], shown[0]),
                        );
                    }
                    cx.reach(mix(hash_str(&node.name) ^ hash_str(&c.name).rotate_left(9) ^ (c.ty as u64) << 4 ^ hash_str(kind) ^ (refused_first as u64) << 40 ^ (c.status as u64) << 44));
                },
                _ => {},
            }
        }
        // The fault itself: an armed allocator does refuse.
        if let Some(node) = node {
            unsafe {
                (node.api.alloc_arm)(0);
                if (node.api.alloc_probe)() == 1 {
                    cx.count("fault.probe_refused");
                }
                (node.api.alloc_disarm)();
            }
        }
        Ok(())
    }
}
