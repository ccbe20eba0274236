//! C04: calls interrupted, interleaved and abandoned between machine
//! instructions, and calls with long histories behind them.

use std::cell::RefCell;
use std::rc::Rc;
use std::sync::OnceLock;

use crate::call::{self, Call};
use crate::engine::*;
use crate::node::{self, Node};
use crate::rng::{hash_str, mix, Rng};
use crate::runner::Shared;
use crate::sched::{self, Event, Sched, Task, What};

pub struct C04;

/// Calls longer than this are not run instruction by instruction.
const LONG: u64 = 5000;
/// How often every operation is tried when looking for state.
const TRIES: u64 = 12;
/// Processor seconds a call may take when it runs free.
const FREE_S: i64 = 4;

/// How a call ends in a fresh process that makes no other call.
struct Alone {
    outcome: Vec<u8>,
    panicked: bool,
    /// Instructions inside the library; none if not measured or too long.
    steps: Option<u64>,
    touched: Vec<u64>,
    shown: String,
}

fn cpu_limit(seconds: i64) {
    unsafe {
        let t = libc::itimerval { it_interval: libc::timeval { tv_sec: 0, tv_usec: 0 }, it_value: libc::timeval { tv_sec: seconds, tv_usec: 0 } };
        libc::setitimer(libc::ITIMER_VIRTUAL, &t, std::ptr::null_mut());
    }
}

/// Run a call in a fork of this still pristine process.
fn alone(call: &mut Call, line: &str, measure: bool, page: &Shared) -> Result<Option<Alone>, Violation> {
    page.reset();
    let pid = unsafe { libc::fork() };
    if pid < 0 {
        return Ok(None);
    }
    if pid == 0 {
        cpu_limit(FREE_S);
        let (mut steps, mut touched) = (u64::MAX, vec![]);
        if measure {
            let node = call.node;
            let c: *mut Call = call;
            let body: Box<dyn FnMut(u32)> = Box::new(move |_| unsafe { (*(c as *mut Call<'static>)).make() });
            let task = Task::new(1, unsafe { std::mem::transmute(body) }, Box::new(|_| LONG), vec![]).measuring();
            let mut s = Sched::new(node, vec![task], true);
            s.run();
            if !s.tasks[0].over {
                steps = s.tasks[0].taken[0];
            }
            touched = s.tasks[0].touched.clone();
        } else {
            call.make();
        }
        let mut v = vec![];
        v.extend_from_slice(&steps.to_le_bytes());
        v.extend_from_slice(&(touched.len() as u64).to_le_bytes());
        for x in touched {
            v.extend_from_slice(&x.to_le_bytes());
        }
        let o = call.outcome();
        v.extend_from_slice(&(o.len() as u64).to_le_bytes());
        v.extend_from_slice(&o);
        v.extend_from_slice(call.describe().as_bytes());
        page.put(&v);
        unsafe { libc::_exit(0) };
    }
    let mut status = 0;
    while unsafe { libc::waitpid(pid, &mut status, 0) } < 0 {}
    if libc::WIFSIGNALED(status) && libc::WTERMSIG(status) == libc::SIGVTALRM {
        return violation(format!("unbounded:{}", call.name), format!("{line}: alone in a fresh process, still running after {FREE_S} s of processor time"));
    }
    if !libc::WIFEXITED(status) || libc::WEXITSTATUS(status) != 0 {
        return Ok(None);
    }
    let d = page.take();
    let word = |i: usize| u64::from_le_bytes(d[i..i + 8].try_into().unwrap());
    let n = word(8) as usize;
    let touched = (0..n).map(|k| word(16 + 8 * k)).collect();
    let at = 16 + 8 * n;
    let len = word(at) as usize;
    let outcome = d[at + 8..at + 8 + len].to_vec();
    let status = outcome[0] as u32;
    Ok(Some(Alone {
        panicked: status == node::PANICKED || status == node::INJECTED,
        outcome,
        steps: if word(0) == u64::MAX { None } else { Some(word(0)) },
        touched,
        shown: String::from_utf8_lossy(&d[at + 8 + len..]).into_owned(),
    }))
}

/// Where in the call an event happens: every other value aims at an
/// instruction that touched the library's own memory, if there is any.
fn place(frac: u64, a: &Alone) -> u64 {
    let steps = a.steps.unwrap_or(1);
    if frac % 2 == 1 && !a.touched.is_empty() {
        let k = frac / 2;
        let n = a.touched.len() as u64;
        return a.touched[(k % n) as usize] + (k / n) % 3;
    }
    1 + (frac % 1024) * steps / 1024
}

/// Calls that were seen to touch the library's own memory, with their build:
/// none, unless the library keeps state. Half of the scenarios are about
/// these. Plans name the calls they make, so replays do not need this.
static HOT: OnceLock<Vec<(usize, String)>> = OnceLock::new();

/// Try every operation on one type of one build a few times.
fn scout(rng: &mut Rng, node: &Node, ty: usize) -> Vec<String> {
    let mut hot: Vec<String> = vec![];
    let name = node::TYPES[ty];
    let mut try_one = |line: String| {
        let t: Vec<&str> = line.split_whitespace().collect();
        let Some(mut c) = Call::parse(node, &t) else { return };
        let touched = sched::touches(node, &mut || c.make());
        let status = c.outcome()[0] as u32;
        if touched && status != node::PANICKED && status != node::INJECTED {
            hot.push(line);
        }
    };
    for k in 0..TRIES {
        for (what, table) in [("op", &node.ops[ty]), ("do", &node.inplace[ty])] {
            for op in table {
                let line = call::random(rng, node, ty, 0, false);
                let mut t: Vec<&str> = line.split_whitespace().collect();
                // the words of some call, the operation of this one
                t[0] = what;
                t[1] = name;
                t[2] = &op.name;
                try_one(t.join(" "));
            }
        }
        for _ in 0..200 {
            try_one(call::random(rng, node, ty, 100, k % 8 == 0));
        }
    }
    hot
}

impl Engine for C04 {
    fn id(&self) -> &'static str {
        "C04"
    }

    fn builds(&self) -> &'static [&'static str] {
        &["n64r", "n64c", "n32r", "n32c", "n64n"]
    }

    fn scenarios(&self, thorough: bool) -> u64 {
        if thorough { 400_000 } else { 50_000 }
    }

    fn rule(&self) -> &'static str {
        "scenario = a few related calls with their outcomes alone in a fresh process; then a history of those calls and 2-3 tasks stepped instruction by instruction with suspensions and abandonments; distinct = schedules that switched or abandoned at least once, by (build, call, instruction address, direction), plus histories by (build, call, call before it)"
    }

    fn real(&self) -> &'static [&'static str] {
        &["the library (five builds)", "processor, trap flag and signal delivery", "task stacks and register state", "unwinding"]
    }

    fn stubs(&self) -> &'static [&'static str] {
        &["thread scheduler (instruction scheduler in one thread)", "callers"]
    }

    fn probes(&self) -> &'static [&'static str] {
        &["fault.suspend", "fault.abandon", "fault.panic_in_history", "history.calls", "after.calls"]
    }

    fn time(&self) -> (&'static str, &'static str) {
        ("instructions of the library stepped", "steps")
    }

    fn scout(&self, seed: u64, nodes: &[Node]) {
        let mut at = vec![];
        for k in 0..nodes.len() {
            for ty in 0..node::TYPES.len() {
                let page = Shared::new(1 << 20);
                let pid = unsafe { libc::fork() };
                if pid == 0 {
                    unsafe { libc::alarm(120) };
                    let mut rng = Rng::new(mix(seed ^ mix((k * 8 + ty) as u64)));
                    let mut hot = scout(&mut rng, &nodes[k], ty);
                    hot.retain(|l| l.len() < 2000);
                    hot.truncate(400);
                    page.put(hot.join("\n").as_bytes());
                    unsafe { libc::_exit(0) };
                }
                at.push((k, pid, page));
            }
        }
        let mut hot = vec![];
        for (k, pid, page) in at {
            let mut status = 0;
            while pid > 0 && unsafe { libc::waitpid(pid, &mut status, 0) } < 0 {}
            for l in String::from_utf8_lossy(&page.take()).lines() {
                hot.push((k, l.to_string()));
            }
        }
        if !hot.is_empty() {
            println!("the library keeps state: {} calls touch its memory", hot.len());
        }
        let _ = HOT.set(hot);
    }

    fn generate(&self, index: u64, rng: &mut Rng, nodes: &[Node]) -> Plan {
        let mut node = rng.pick(nodes);
        let hot = HOT.get().filter(|h| !h.is_empty() && index % 4 > 1).map(|h| rng.pick(h));
        if let Some((k, _)) = hot {
            node = &nodes[*k];
        }
        let mut plan = vec![format!("build {}", node.name)];
        let ty = *rng.pick(&[0, 0, 1, 1, 2, 3, 4, 5, 6, 7]);
        let specs = rng.range(2, 5);
        let text = *rng.pick(&[0, 20, 35, 100]);
        let mut lines: Vec<String> = vec![];
        for _ in 0..specs {
            let l = if let (true, Some((_, l))) = (lines.is_empty(), hot) {
                l.clone()
            } else if lines.is_empty() || rng.chance(25) {
                call::random(rng, node, ty, text, false)
            } else {
                let of = rng.pick(&lines).clone();
                call::relative(rng, node, &of)
            };
            lines.push(l);
        }
        for (i, l) in lines.iter().enumerate() {
            plan.push(format!("call {i} {l}"));
        }
        if index % 2 == 0 {
            // histories at full speed
            for _ in 0..rng.range(1, 4) {
                match rng.below(8) {
                    0 => plan.push(format!("loop {} {}", rng.below(specs), 1 << rng.below(13))),
                    1 | 2 => plan.push(format!("mixed {} {}", rng.below(1 << 30), rng.range(20, 2000))),
                    _ => {
                        let n = rng.range(2, 12);
                        let s: Vec<String> = (0..n).map(|_| rng.below(specs).to_string()).collect();
                        plan.push(format!("hist {}", s.join(" ")));
                    },
                }
            }
            if rng.chance(2) {
                plan.push(format!("loop {} {}", rng.below(specs), 70_000));
                plan.push(format!("mixed {} 40", rng.below(1 << 30)));
            }
            if hot.is_some() && node.name.ends_with('r') && !lines[0].contains("pow") && rng.chance(4) {
                // state: let it grow
                plan.push("loop 0 1100000".into());
            }
            return plan;
        }
        if rng.chance(30) {
            plan.push(format!("mixed {} {}", rng.below(1 << 30), rng.range(2, 12)));
        }
        let tasks = rng.range(2, 3);
        for _ in 0..tasks {
            let n = rng.range(1, 3);
            let s: Vec<String> = (0..n).map(|_| rng.below(specs).to_string()).collect();
            plan.push(format!("task {}", s.join(" ")));
        }
        for _ in 0..rng.range(1, 8) {
            let t = rng.below(tasks);
            plan.push(format!("preempt {t} {} {} {}", rng.below(3), rng.below(1024), (t + rng.range(1, tasks - 1)) % tasks));
        }
        if rng.chance(40) {
            plan.push(format!("kill {} {} {}", rng.below(tasks), rng.below(2), rng.below(1024)));
        }
        let n = rng.range(1, 4);
        let s: Vec<String> = (0..n).map(|_| rng.below(specs).to_string()).collect();
        plan.push(format!("after {}", s.join(" ")));
        plan
    }

    fn run(&self, plan: &Plan, cx: &mut Cx) -> Result<(), Violation> {
        let Some(node) = plan.iter().find_map(|l| l.strip_prefix("build ").and_then(|n| cx.node(n))) else { return Ok(()) };
        let page = Shared::new(64 << 10);
        // Which calls have to be measured.
        let stepped = plan.iter().any(|l| l.starts_with("task") || l.starts_with("after"));
        let mut calls: Vec<(Call, Alone, String)> = vec![];
        let mut index: Vec<Option<usize>> = vec![];
        for (i, l) in plan.iter().enumerate() {
            let t: Vec<&str> = l.split_whitespace().collect();
            if t.first() != Some(&"call") || t.len() < 4 {
                continue;
            }
            cx.at_line(i);
            let k = int(t.get(1)) % 64;
            if index.len() <= k {
                index.resize(k + 1, None);
            }
            let Some(mut c) = Call::parse(node, &t[2..]) else { continue };
            let line = t[2..].join(" ");
            match alone(&mut c, &line, stepped, &page)? {
                Some(a) => {
                    cx.log.bytes(&a.outcome);
                    cx.log.word(a.steps.unwrap_or(0));
                    if !a.touched.is_empty() {
                        cx.count("library_memory_touched");
                    }
                    index[k] = Some(calls.len());
                    calls.push((c, a, line));
                },
                None => cx.count("calls.died_alone"),
            }
        }
        if calls.is_empty() {
            return Ok(());
        }
        let get = |tok: &str| -> Option<usize> { index.get(num(tok) as usize % 64).copied().flatten() };

        // Histories, at full speed.
        let mut last = usize::MAX;
        let mut history = 0u64;
        for (i, l) in plan.iter().enumerate() {
            let t: Vec<&str> = l.split_whitespace().collect();
            let mut seq: Vec<usize> = vec![];
            match t.first() {
                Some(&"hist") => seq.extend(t[1..].iter().filter_map(|x| get(x))),
                Some(&"loop") => {
                    if let Some(k) = t.get(1).and_then(|x| get(x)) {
                        seq.resize(int(t.get(2)).min(1_100_000), k);
                    }
                },
                Some(&"mixed") => {
                    let mut r = Rng::new(num(t.get(1).unwrap_or(&"0")) as u64);
                    for _ in 0..int(t.get(2)).min(20_000) {
                        seq.push(r.below(calls.len() as u64) as usize);
                    }
                },
                _ => continue,
            }
            cx.at_line(i);
            for k in seq {
                let before = if last == usize::MAX { String::new() } else { calls[last].0.name.clone() };
                let (c, a, line) = &mut calls[k];
                if history % 64 == 0 {
                    cpu_limit(FREE_S);
                }
                c.make();
                history += 1;
                if a.panicked {
                    cx.count("fault.panic_in_history");
                }
                if c.outcome() != a.outcome {
                    return violation(
                        format!("history-changed-outcome:{}", c.name),
                        format!("{line} on {}: after {} earlier calls {}; alone {}", node.name, history - 1, c.describe(), a.shown),
                    );
                }
                if last != k {
                    cx.reach(mix(hash_str(&node.name) ^ hash_str(&c.name).rotate_left(7) ^ hash_str(&before).rotate_left(13) ^ c.ty as u64));
                }
                last = k;
            }
        }
        cx.add("history.calls", history);
        cx.evals += history;
        cx.log.word(history);
        cpu_limit(0);
        if !stepped {
            return Ok(());
        }

        // Tasks under the instruction scheduler.
        let mut programs: Vec<Vec<usize>> = vec![];
        let mut after: Vec<usize> = vec![];
        for l in plan {
            let t: Vec<&str> = l.split_whitespace().collect();
            let fit = |x: &&str| get(x).filter(|k| calls[*k].1.steps.is_some() && !calls[*k].1.panicked);
            match t.first() {
                Some(&"task") => programs.push(t[1..].iter().filter_map(fit).collect()),
                Some(&"after") => after.extend(t[1..].iter().filter_map(fit)),
                _ => {},
            }
        }
        programs.truncate(8);
        let mut events: Vec<Vec<Event>> = vec![vec![]; programs.len()];
        for l in plan {
            let t: Vec<&str> = l.split_whitespace().collect();
            let kill = t.first() == Some(&"kill");
            if !kill && t.first() != Some(&"preempt") || programs.is_empty() {
                continue;
            }
            let k = int(t.get(1)) % programs.len();
            if programs[k].is_empty() {
                continue;
            }
            let op = int(t.get(2)) % programs[k].len();
            let step = place(int(t.get(3)) as u64, &calls[programs[k][op]].1);
            let what = if kill { What::Abandon } else { What::SwitchTo(int(t.get(4)) % programs.len()) };
            events[k].push(Event { op: op as u32, step, what });
        }
        self.stage("interleaved", node, &calls, &programs, events, cx)?;
        let none = vec![vec![]];
        self.stage("after", node, &calls, &[after], none, cx)
    }
}

impl C04 {
    fn stage(&self, stage: &str, node: &Node, calls: &[(Call, Alone, String)], programs: &[Vec<usize>], events: Vec<Vec<Event>>, cx: &mut Cx) -> Result<(), Violation> {
        if programs.iter().all(|p| p.is_empty()) {
            return Ok(());
        }
        // Every task has its own copies of its calls: callers share nothing.
        let mut own: Vec<Vec<Rc<RefCell<Call>>>> = vec![];
        let mut tasks = vec![];
        for (p, ev) in programs.iter().zip(events) {
            let mut mine = vec![];
            for k in p {
                let t: Vec<&str> = calls[*k].2.split_whitespace().collect();
                let Some(c) = Call::parse(node, &t) else { return Ok(()) };
                mine.push(Rc::new(RefCell::new(c)));
            }
            let raw: Vec<*mut Call> = mine.iter().map(|c| c.as_ptr()).collect();
            let limits: Vec<u64> = p.iter().map(|k| calls[*k].1.steps.unwrap_or(0) * 8 + 20_000).collect();
            let body: Box<dyn FnMut(u32)> = Box::new(move |j| unsafe { (*(raw[j as usize] as *mut Call<'static>)).make() });
            let body: Box<dyn FnMut(u32)> = unsafe { std::mem::transmute(body) };
            tasks.push(Task::new(p.len() as u32, body, Box::new(move |j| limits[j as usize]), ev));
            own.push(mine);
        }
        let mut s = Sched::new(node, tasks, false);
        s.run();
        cx.add("steps", s.total);
        cx.add("fault.suspend", s.switches);
        cx.add("fault.abandon", s.abandoned);
        cx.log.word(s.total);
        cx.log.word(s.trace);
        for p in &s.places {
            cx.reach(mix(hash_str(&node.name) ^ *p));
        }
        for (k, t) in s.tasks.iter().enumerate() {
            if let Some(op) = t.stuck() {
                let (c, a, line) = &calls[programs[k][op as usize]];
                return violation(
                    format!("unbounded:{}", c.name),
                    format!("{line} on {} ({stage}): not finished after {} of its own instructions, {} when alone", node.name, t.taken[op as usize], a.steps.unwrap_or(0)),
                );
            }
            let finished = if t.done() { programs[k].len() } else { t.reached() as usize };
            for j in 0..finished {
                let (c, a, line) = &calls[programs[k][j]];
                let got = own[k][j].borrow();
                cx.evals += 1;
                cx.count(if stage == "after" { "after.calls" } else { "interleaved.calls" });
                cx.log.bytes(&got.outcome());
                if got.outcome() != a.outcome {
                    return violation(
                        format!("{stage}-changed-outcome:{}", c.name),
                        format!("{line} on {}: {} in task {k}; alone {}", node.name, got.describe(), a.shown),
                    );
                }
            }
        }
        // An abandoned task's memory is never looked at again, nor freed.
        std::mem::forget(s);
        std::mem::forget(own);
        Ok(())
    }
}
