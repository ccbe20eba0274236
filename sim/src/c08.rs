//! C08: digits rendered into buffers that were used, spoiled and abandoned
//! before.

use crate::big::Big;
use crate::engine::*;
use crate::node::{self, Node};
use crate::rng::{hash_str, mix, Rng};
use crate::sched::{Event, Sched, Task, What};

pub struct C08;

const SPACE: usize = 8192;

/// One rendering request: where it goes and what it is.
#[derive(Clone)]
struct Job {
    ty: usize,
    v: Vec<u8>,
    radix: u32,
    at: usize,
    len: usize,
}

/// How a rendering ended.
#[derive(Clone, Copy)]
#[repr(C)]
struct Ended {
    status: u32,
    at: i64,
    n: u64,
}

const UNFINISHED: u32 = 77;

impl Job {
    /// `TY radix value at len`
    fn parse(t: &[&str]) -> Option<Job> {
        let ty = node::TYPES.iter().position(|x| Some(x) == t.first())?;
        let at = int(t.get(3)).min(SPACE);
        Some(Job {
            ty,
            radix: num(t.get(1)?) as u32,
            v: unhex(t.get(2).unwrap_or(&"0x0"), node::bytes(ty)),
            at,
            len: int(t.get(4)).min(SPACE - at),
        })
    }

    fn numeral(&self) -> Option<Vec<u8>> {
        if !(2..=36).contains(&self.radix) {
            return None;
        }
        let v = Big::from_le(&self.v, node::signed(self.ty));
        let mut s = v.to_text(self.radix).to_ascii_uppercase();
        if s.starts_with('+') {
            s.remove(0);
        }
        Some(s.into_bytes())
    }

    fn possible(&self) -> bool {
        (2..=36).contains(&self.radix) && self.len >= node::bits(self.ty) + node::signed(self.ty) as usize
    }

    fn make(&self, node: &Node, space: *mut u8) -> Ended {
        let mut e = Ended { status: UNFINISHED, at: -1, n: 0 };
        e.status = unsafe { (node.api.render)(self.ty as u32, self.v.as_ptr(), self.radix, space.add(self.at), self.len as u64, &mut e.at, &mut e.n) };
        e
    }

    /// Does what it reported match the number?
    fn check(&self, node: &Node, e: Ended, space: &[u8], line: &str) -> Result<&'static str, Violation> {
        let need = node::bits(self.ty) + node::signed(self.ty) as usize;
        let want = self.numeral();
        let shown = || match e.status {
            node::RETURNED if e.at >= 0 => format!("{:?}", String::from_utf8_lossy(&space[self.at + e.at as usize..][..e.n as usize])),
            node::RETURNED => "something outside the buffer".into(),
            _ => "a panic".into(),
        };
        match (&want, e.status) {
            (_, node::RETURNED) if e.at < 0 => violation("outside-buffer", format!("{line} on {}", node.name)),
            (None, node::RETURNED) => violation("radix-accepted", format!("{line} on {}: {}", node.name, shown())),
            (Some(_), node::RETURNED) if self.len < need => violation("short-buffer-accepted", format!("{line} on {}: {} with {need} needed", node.name, shown())),
            (Some(w), node::RETURNED) => {
                if &space[self.at + e.at as usize..][..e.n as usize] != &w[..] {
                    return violation("wrong-numeral", format!("{line} on {}: {} instead of {:?}", node.name, shown(), String::from_utf8_lossy(w)));
                }
                Ok("ok.rendered")
            },
            (None, node::PANICKED) => Ok("fault.bad_radix"),
            (Some(_), node::PANICKED) if self.len < need => Ok("fault.short_buffer"),
            _ => violation("failed-rendering", format!("{line} on {}: {} with a buffer of {} and {need} needed", node.name, shown(), self.len)),
        }
    }
}

impl Engine for C08 {
    fn id(&self) -> &'static str {
        "C08"
    }

    fn builds(&self) -> &'static [&'static str] {
        &["n64r", "n64c", "n32r", "n32c", "n64n"]
    }

    fn scenarios(&self, thorough: bool) -> u64 {
        if thorough { 2_500_000 } else { 220_000 }
    }

    fn rule(&self) -> &'static str {
        "scenario = a history of renderings into windows of one shared buffer, some refused (radix, length), some abandoned at a machine instruction, some interleaved at one with a rendering into a neighbouring window; distinct = (build, type, radix, what the window held before, how it ended, digits) and schedules by where they were cut; non-trivial = a numeral or a failure was compared with the number's"
    }

    fn real(&self) -> &'static [&'static str] {
        &["the library (five builds), at its machine instructions when abandoned or interleaved", "unwinding"]
    }

    fn stubs(&self) -> &'static [&'static str] {
        &["instruction scheduler", "the caller's buffer"]
    }

    fn probes(&self) -> &'static [&'static str] {
        &["fault.bad_radix", "fault.short_buffer", "fault.abandoned", "fault.interleaved", "fault.dirty", "ok.rendered", "ok.rendered_after_fault"]
    }

    fn time(&self) -> (&'static str, &'static str) {
        ("renderings", "renderings")
    }

    fn generate(&self, _index: u64, rng: &mut Rng, nodes: &[Node]) -> Plan {
        let node = rng.pick(nodes);
        let mut plan = vec![format!("build {}", node.name), format!("fill {}", rng.below(1 << 30))];
        let types: Vec<usize> = (0..rng.range(1, 3)).map(|_| rng.below(8) as usize).collect();
        let radices: Vec<u64> = (0..rng.range(1, 3)).map(|_| if rng.chance(25) { *rng.pick(&[2, 10, 16, 36]) } else { rng.range(2, 36) }).collect();
        // windows are reused, so that later renderings find earlier ones' leftovers
        let windows: Vec<usize> = (0..rng.range(1, 2)).map(|_| rng.below(64) as usize).collect();
        let mut stepped = 0;
        for _ in 0..rng.range(2, 10) {
            let job = |rng: &mut Rng, small: bool| {
                let ty = *rng.pick(&types);
                let n = node::bytes(ty);
                let need = node::bits(ty) + node::signed(ty) as usize;
                let mut v = value(rng, n);
                if rng.chance(30) || small {
                    let keep = rng.below(if small { 3 } else { n as u64 }) as usize;
                    v[keep..].fill(0);
                    if node::signed(ty) && rng.chance(40) {
                        v.iter_mut().for_each(|x| *x = !*x);
                    }
                }
                let radix = if rng.chance(8) { *rng.pick(&[0u64, 1, 37, 38, 64, 256, 258, 0xffff_ffff]) } else { *rng.pick(&radices) };
                if !small && (2..=36).contains(&radix) && rng.chance(20) {
                    v = structured(rng, n, radix as u32, node::signed(ty));
                }
                let span = 1 << rng.range(4, 12);
                let len = match rng.below(8) {
                    0 if !small => rng.below(need as u64) as usize,
                    1 => need - rng.below(3) as usize,
                    2 => need + rng.below(40) as usize,
                    3 if !small => need + rng.below(span) as usize,
                    _ => need,
                };
                (format!("{} {radix} {}", node::TYPES[ty], hex(&v)), len)
            };
            let kind = rng.below(12);
            if kind == 0 && stepped < 2 {
                stepped += 1;
                let (j, len) = job(rng, false);
                let most = 1 << rng.range(4, 12);
                plan.push(format!("abandon {} {j} {} {len}", rng.range(1, most), rng.pick(&windows)));
            } else if kind == 1 && stepped < 2 {
                stepped += 1;
                let ((a, la), (b, lb)) = (job(rng, true), job(rng, true));
                let first = *rng.pick(&windows);
                let most = 1 << rng.range(4, 11);
                plan.push(format!("both {} {a} {first} {la} {b} {} {lb}", rng.range(1, most), first + la));
            } else {
                let (j, len) = job(rng, false);
                let times = if rng.chance(6) { rng.range(2, 40) } else { 1 };
                plan.push(format!("render {j} {} {len}{}", rng.pick(&windows), if times > 1 { format!(" times {times}") } else { String::new() }));
                if rng.chance(20) {
                    plan.push(format!("scribble {}", rng.below(1 << 30)));
                }
            }
        }
        plan
    }

    fn run(&self, plan: &Plan, cx: &mut Cx) -> Result<(), Violation> {
        let mut node: Option<&Node> = None;
        let mut space = vec![0u8; SPACE];
        let mut dirty = 0u64;
        for (i, line) in plan.iter().enumerate() {
            cx.at_line(i);
            let t: Vec<&str> = line.split_whitespace().collect();
            match t.first() {
                Some(&"build") => node = t.get(1).and_then(|n| cx.node(n)),
                Some(&"fill") | Some(&"scribble") => {
                    let mut r = Rng::new(int(t.get(1)) as u64);
                    space.iter_mut().for_each(|x| *x = r.next() as u8);
                    dirty = 1;
                    cx.count("fault.dirty");
                },
                Some(&"render") => {
                    let (Some(node), Some(job)) = (node, Job::parse(&t[1..])) else { continue };
                    let times = if t.get(6) == Some(&"times") { int(t.get(7)).clamp(1, 1000) } else { 1 };
                    for _ in 0..times {
                        let before = space.clone();
                        let e = job.make(node, space.as_mut_ptr());
                        self.judge(node, &job, e, &space, &before, line, &mut dirty, cx)?;
                    }
                },
                Some(&"abandon") => {
                    let (Some(node), Some(job)) = (node, t.get(2..).and_then(Job::parse)) else { continue };
                    let before = space.clone();
                    let ended = self.stepped(node, &[job.clone()], vec![Event { op: 0, step: int(t.get(1)) as u64, what: What::Abandon }], &mut space, cx);
                    if ended[0].status == UNFINISHED {
                        cx.count("fault.abandoned");
                        self.outside(&job, &space, &before, line)?;
                        dirty = 4;
                        cx.evals += 1;
                        cx.count("renderings");
                    } else {
                        self.judge(node, &job, ended[0], &space, &before, line, &mut dirty, cx)?;
                    }
                },
                Some(&"both") => {
                    let (Some(node), Some(a), Some(b)) = (node, t.get(2..).and_then(Job::parse), t.get(7..).and_then(Job::parse)) else { continue };
                    if a.at + a.len > b.at {
                        continue;
                    }
                    let ended = self.stepped(node, &[a.clone(), b.clone()], vec![Event { op: 0, step: int(t.get(1)) as u64, what: What::SwitchTo(1) }], &mut space, cx);
                    if ended[0].status == UNFINISHED || ended[1].status == UNFINISHED {
                        return violation("never-finished", format!("{line} on {}", node.name));
                    }
                    cx.count("fault.interleaved");
                    let now = space.clone();
                    for (job, e) in [(&a, ended[0]), (&b, ended[1])] {
                        self.judge(node, job, e, &now, &now, line, &mut dirty, cx)?;
                    }
                },
                _ => {},
            }
        }
        Ok(())
    }
}

impl C08 {
    /// Nothing outside the window it was given changes.
    fn outside(&self, job: &Job, space: &[u8], before: &[u8], line: &str) -> Result<(), Violation> {
        for (k, (x, y)) in space.iter().zip(before).enumerate() {
            if x != y && (k < job.at || k >= job.at + job.len) {
                return violation("wrote-outside", format!("{line}: byte {k} changed"));
            }
        }
        Ok(())
    }

    #[allow(clippy::too_many_arguments)]
    fn judge(&self, node: &Node, job: &Job, e: Ended, space: &[u8], before: &[u8], line: &str, dirty: &mut u64, cx: &mut Cx) -> Result<(), Violation> {
        cx.count("renderings");
        cx.evals += 1;
        cx.log.word(e.status as u64);
        if e.status == node::RETURNED && e.at >= 0 {
            cx.log.bytes(&space[job.at + e.at as usize..][..e.n as usize]);
        }
        self.outside(job, space, before, line)?;
        let how = job.check(node, e, space, line)?;
        cx.count(how);
        if how == "ok.rendered" && *dirty > 2 {
            cx.count("ok.rendered_after_fault");
        }
        cx.reach(mix(hash_str(&node.name) ^ (job.ty as u64) << 4 ^ (job.radix as u64) << 8 ^ *dirty << 40 ^ hash_str(how) ^ e.n << 48));
        *dirty = match how {
            "ok.rendered" => 2,
            _ => 3,
        };
        Ok(())
    }

    /// Run renderings one instruction at a time; the events are the first's.
    fn stepped(&self, node: &Node, jobs: &[Job], events: Vec<Event>, space: &mut [u8], cx: &mut Cx) -> Vec<Ended> {
        let mut ended = vec![Ended { status: UNFINISHED, at: -1, n: 0 }; jobs.len()];
        let mut tasks = vec![];
        let base = space.as_mut_ptr();
        let slots = ended.as_mut_ptr();
        // An unwinding thread cannot be left or shared: that is the platform's
        // rule, not the library's. Renderings that must fail run undisturbed.
        let mut events = if jobs.iter().all(|j| j.possible()) { Some(events) } else { None };
        for (k, job) in jobs.iter().enumerate() {
            let job = job.clone();
            // The scheduler's tasks outlive no borrow: they end before this does.
            let node: &'static Node = unsafe { &*(node as *const Node) };
            let body = Box::new(move |_| unsafe {
                let e = job.make(node, base);
                std::ptr::write_volatile(slots.add(k), e);
            });
            tasks.push(Task::new(1, body, Box::new(|_| 2_000_000), events.take().unwrap_or_default()));
        }
        let mut sched = Sched::new(node, tasks, false).coasting();
        sched.run();
        cx.add("instructions", sched.total);
        cx.log.word(sched.trace);
        for p in &sched.places {
            cx.reach(mix(hash_str(&node.name) ^ *p));
        }
        ended
    }
}
