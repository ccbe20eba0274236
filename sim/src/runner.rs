//! Running scenarios: each in a fresh fork of a pristine process, so that no
//! scenario can see another and a crash or hang is just one more outcome.

use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::Instant;

use crate::engine::*;
use crate::node::Node;
use crate::rng::{hash_str, mix, Digest, Rng};

/// Anonymous memory shared between a process and its forks.
pub struct Shared {
    pub p: *mut u8,
    pub len: usize,
}

impl Shared {
    pub fn new(len: usize) -> Self {
        let p = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                len,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
                -1,
                0,
            )
        };
        assert!(p != libc::MAP_FAILED);
        Shared { p: p as *mut u8, len }
    }

    fn progress(&self) -> *mut u32 {
        self.p as *mut u32
    }

    pub fn put(&self, data: &[u8]) {
        let n = data.len().min(self.len - 16);
        unsafe {
            std::ptr::copy_nonoverlapping(data.as_ptr(), self.p.add(16), n);
            std::ptr::write_volatile(self.p.add(8) as *mut u64, n as u64);
        }
    }

    pub fn take(&self) -> Vec<u8> {
        unsafe {
            let n = std::ptr::read_volatile(self.p.add(8) as *mut u64) as usize;
            std::slice::from_raw_parts(self.p.add(16), n.min(self.len - 16)).to_vec()
        }
    }

    pub fn reset(&self) {
        unsafe {
            std::ptr::write_volatile(self.p.add(8) as *mut u64, 0);
            std::ptr::write_volatile(self.p as *mut u32, 0);
        }
    }
}

impl Drop for Shared {
    fn drop(&mut self) {
        unsafe { libc::munmap(self.p as *mut libc::c_void, self.len) };
    }
}

/// What one scenario came to.
#[derive(Clone, Debug, Default)]
pub struct Report {
    pub violation: Option<Violation>,
    /// A failure of the simulator itself.
    pub broken: Option<String>,
    pub log: u64,
    pub evals: u64,
    pub counters: BTreeMap<String, u64>,
    pub seen: BTreeSet<u64>,
}

impl Report {
    fn encode(&self) -> Vec<u8> {
        let mut s = String::new();
        if let Some(v) = &self.violation {
            s.push_str(&format!("v\t{}\t{}\n", v.class, v.detail.replace('\n', " ")));
        }
        if let Some(b) = &self.broken {
            s.push_str(&format!("b\t{}\n", b.replace('\n', " ")));
        }
        s.push_str(&format!("l\t{:x}\t{}\n", self.log, self.evals));
        for (k, n) in &self.counters {
            s.push_str(&format!("c\t{k}\t{n}\n"));
        }
        for x in &self.seen {
            s.push_str(&format!("s\t{x:x}\n"));
        }
        s.push_str("end\n");
        s.into_bytes()
    }

    fn decode(data: &[u8]) -> Option<Report> {
        let s = String::from_utf8_lossy(data);
        let mut r = Report::default();
        let mut complete = false;
        for line in s.lines() {
            let t: Vec<&str> = line.splitn(3, '\t').collect();
            match t[0] {
                "v" => r.violation = Some(Violation { class: t[1].into(), detail: t.get(2).unwrap_or(&"").to_string() }),
                "b" => r.broken = Some(t[1].into()),
                "l" => {
                    r.log = u64::from_str_radix(t[1], 16).ok()?;
                    r.evals = t[2].parse().ok()?;
                },
                "c" => {
                    r.counters.insert(t[1].into(), t[2].parse().ok()?);
                },
                "s" => {
                    r.seen.insert(u64::from_str_radix(t[1], 16).ok()?);
                },
                "end" => complete = true,
                _ => {},
            }
        }
        if complete {
            Some(r)
        } else {
            None
        }
    }
}

pub fn scenario_seed(seed: u64, id: &str, index: u64) -> u64 {
    mix(mix(seed ^ hash_str(id)) ^ index)
}

/// Run one scenario in a fork. `plan` is made there unless given.
pub fn run_one(engine: &dyn Engine, nodes: &[Node], index: u64, seed: u64, plan: Option<&Plan>, page: &Shared, patience: u32) -> Report {
    page.reset();
    let pid = unsafe { libc::fork() };
    if pid < 0 {
        return Report { broken: Some("fork failed".into()), ..Default::default() };
    }
    if pid == 0 {
        unsafe {
            libc::signal(libc::SIGALRM, libc::SIG_DFL);
            libc::alarm(patience);
        }
        let mut cx = Cx {
            nodes,
            counters: BTreeMap::new(),
            seen: BTreeSet::new(),
            log: Digest::new(),
            evals: 0,
            progress: page.progress(),
        };
        let result = catch_unwind(AssertUnwindSafe(|| {
            let made;
            let plan = match plan {
                Some(p) => p,
                None => {
                    let mut rng = Rng::new(scenario_seed(seed, engine.id(), index));
                    made = engine.generate(index, &mut rng, nodes);
                    &made
                },
            };
            engine.run(plan, &mut cx)
        }));
        let mut r = Report {
            log: cx.log.0,
            evals: cx.evals,
            counters: std::mem::take(&mut cx.counters),
            seen: std::mem::take(&mut cx.seen),
            ..Default::default()
        };
        match result {
            Ok(Ok(())) => {},
            Ok(Err(v)) => r.violation = Some(v),
            Err(e) => {
                let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()));
                r.broken = Some(format!("simulator panicked: {}", m.unwrap_or_default()));
            },
        }
        page.put(&r.encode());
        unsafe { libc::_exit(0) };
    }
    let mut status = 0;
    while unsafe { libc::waitpid(pid, &mut status, 0) } < 0 {}
    if libc::WIFEXITED(status) && libc::WEXITSTATUS(status) == 0 {
        return match Report::decode(&page.take()) {
            Some(r) => r,
            None => Report { broken: Some("incomplete report".into()), ..Default::default() },
        };
    }
    let line = unsafe { std::ptr::read_volatile(page.progress()) };
    let class = if libc::WIFSIGNALED(status) {
        match libc::WTERMSIG(status) {
            libc::SIGALRM | libc::SIGVTALRM => "hang".to_string(),
            libc::SIGFPE => "process-killed:SIGFPE".to_string(),
            libc::SIGSEGV | libc::SIGBUS => "process-killed:SIGSEGV".to_string(),
            libc::SIGILL => "process-killed:SIGILL".to_string(),
            libc::SIGABRT => "process-killed:SIGABRT".to_string(),
            s => format!("process-killed:signal-{s}"),
        }
    } else {
        format!("process-exited:{}", libc::WEXITSTATUS(status))
    };
    // The digest of a killed run is how and where it died.
    let mut d = Digest::new();
    d.bytes(class.as_bytes());
    d.word(line as u64);
    Report {
        violation: Some(Violation { class, detail: format!("while running plan line {line}") }),
        log: d.0,
        ..Default::default()
    }
}

#[derive(Default)]
pub struct Batch {
    pub done: u64,
    pub evals: u64,
    pub counters: BTreeMap<String, u64>,
    pub seen: BTreeSet<u64>,
    pub digests: BTreeMap<u64, u64>,
    /// Lowest scenario that violated the property.
    pub violation: Option<(u64, Violation, u64)>,
    pub broken: Vec<String>,
    pub capped: bool,
}

/// Run scenarios `indices` spread over `workers` processes. Which worker runs
/// which scenario is not decided here and cannot matter.
#[allow(clippy::too_many_arguments)]
pub fn batch(engine: &dyn Engine, nodes: &[Node], seed: u64, count: u64, stride: u64, workers: usize, cap_s: f64, keep: u64) -> Batch {
    let control = Shared::new(4096);
    let next = unsafe { &*(control.p as *const AtomicU64) };
    let stop = unsafe { &*(control.p.add(64) as *const AtomicU64) };
    stop.store(u64::MAX, Ordering::SeqCst);
    let start = Instant::now();
    let mut pages = vec![];
    let mut pids = vec![];
    for _ in 0..workers {
        let page = Shared::new(96 << 20);
        let pid = unsafe { libc::fork() };
        if pid == 0 {
            let scratch = Shared::new(2 << 20);
            let mut total = Batch::default();
            loop {
                let k = next.fetch_add(1, Ordering::SeqCst);
                if k >= count {
                    break;
                }
                let i = k * stride;
                if i > stop.load(Ordering::SeqCst) {
                    break;
                }
                if start.elapsed().as_secs_f64() > cap_s {
                    total.capped = true;
                    break;
                }
                let r = run_one(engine, nodes, i, seed, None, &scratch, engine.patience());
                total.done += 1;
                total.evals += r.evals;
                for (k, n) in r.counters {
                    *total.counters.entry(k).or_insert(0) += n;
                }
                if total.seen.len() < 1_500_000 {
                    total.seen.extend(r.seen);
                }
                if i % keep == 0 {
                    total.digests.insert(i, r.log);
                }
                if let Some(b) = r.broken {
                    total.broken.push(format!("scenario {i}: {b}"));
                }
                if let Some(v) = r.violation {
                    stop.fetch_min(i, Ordering::SeqCst);
                    if total.violation.as_ref().map_or(true, |x| i < x.0) {
                        total.violation = Some((i, v, r.log));
                    }
                }
            }
            let mut s = String::new();
            s.push_str(&format!("d\t{}\t{}\t{}\n", total.done, total.evals, total.capped as u32));
            for (k, n) in &total.counters {
                s.push_str(&format!("c\t{k}\t{n}\n"));
            }
            for (i, d) in &total.digests {
                s.push_str(&format!("g\t{i}\t{d:x}\n"));
            }
            for b in &total.broken {
                s.push_str(&format!("b\t{}\n", b.replace('\n', " ")));
            }
            if let Some((i, v, log)) = &total.violation {
                s.push_str(&format!("v\t{i}\t{log:x}\t{}\t{}\n", v.class, v.detail));
            }
            s.push_str("seen\n");
            let mut bytes = s.into_bytes();
            for x in &total.seen {
                bytes.extend_from_slice(&x.to_le_bytes());
            }
            page.put(&bytes);
            unsafe { libc::_exit(0) };
        }
        pages.push(page);
        pids.push(pid);
    }
    let mut total = Batch::default();
    for (page, pid) in pages.iter().zip(pids) {
        let mut status = 0;
        while unsafe { libc::waitpid(pid, &mut status, 0) } < 0 {}
        let data = page.take();
        let mark = b"seen\n";
        let Some(cut) = data.windows(mark.len()).position(|w| w == mark) else {
            total.broken.push("a worker process died".into());
            continue;
        };
        for line in String::from_utf8_lossy(&data[..cut]).lines() {
            let t: Vec<&str> = line.splitn(5, '\t').collect();
            match t[0] {
                "d" => {
                    total.done += t[1].parse::<u64>().unwrap_or(0);
                    total.evals += t[2].parse::<u64>().unwrap_or(0);
                    total.capped |= t[3] == "1";
                },
                "c" => *total.counters.entry(t[1].into()).or_insert(0) += t[2].parse::<u64>().unwrap_or(0),
                "g" => {
                    total.digests.insert(t[1].parse().unwrap_or(0), u64::from_str_radix(t[2], 16).unwrap_or(0));
                },
                "b" => total.broken.push(t[1].into()),
                "v" => {
                    let i: u64 = t[1].parse().unwrap_or(0);
                    if total.violation.as_ref().map_or(true, |x| i < x.0) {
                        let v = Violation { class: t[3].into(), detail: t.get(4).unwrap_or(&"").to_string() };
                        total.violation = Some((i, v, u64::from_str_radix(t[2], 16).unwrap_or(0)));
                    }
                },
                _ => {},
            }
        }
        for c in data[cut + mark.len()..].chunks_exact(8) {
            total.seen.insert(u64::from_le_bytes(c.try_into().unwrap()));
        }
    }
    total
}

/// Make a failing plan smaller while it fails in the same way.
pub fn minimise(engine: &dyn Engine, nodes: &[Node], plan: &Plan, class: &str, budget_s: f64) -> (Plan, u64) {
    let page = Shared::new(2 << 20);
    let start = Instant::now();
    let mut tried = 0u64;
    let hang = class == "hang";
    let patience = if hang { 6 } else { engine.patience() };
    let mut best = plan.clone();
    let fails = |p: &Plan, tried: &mut u64| -> bool {
        *tried += 1;
        let r = run_one(engine, nodes, 0, 0, Some(p), &page, patience);
        r.violation.map_or(false, |v| v.class == class)
    };
    let over = |start: &Instant| start.elapsed().as_secs_f64() > budget_s;
    loop {
        let before = best.clone();
        // drop runs of lines
        let mut chunk = (best.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < best.len() {
                if over(&start) {
                    return (best, tried);
                }
                let mut p = best.clone();
                let end = (i + chunk).min(p.len());
                p.drain(i..end);
                if !p.is_empty() && fails(&p, &mut tried) {
                    best = p;
                } else {
                    i += chunk;
                }
            }
            if chunk == 1 {
                break;
            }
            chunk /= 2;
        }
        // shrink numbers
        for i in 0..best.len() {
            let count = best[i].split_whitespace().count();
            for k in 0..count {
                let mut rounds = 0;
                loop {
                    let toks: Vec<String> = best[i].split_whitespace().map(|s| s.to_string()).collect();
                    let mut improved = false;
                    for c in smaller(&toks[k]) {
                        if over(&start) {
                            return (best, tried);
                        }
                        let mut t = toks.clone();
                        t[k] = c;
                        let mut p = best.clone();
                        p[i] = t.join(" ");
                        if fails(&p, &mut tried) {
                            best = p;
                            improved = true;
                            break;
                        }
                    }
                    rounds += 1;
                    if !improved || rounds > 200 {
                        break;
                    }
                }
            }
        }
        if best == before {
            return (best, tried);
        }
    }
}

/// Simpler candidates for one token, simplest first.
fn smaller(tok: &str) -> Vec<String> {
    let mut r: Vec<String> = vec![];
    if let Some(h) = tok.strip_prefix("0x") {
        if h == "0" {
            return r;
        }
        r.push("0x0".into());
        if h != "1" {
            r.push("0x1".into());
        }
        let n = h.len();
        if n > 1 {
            for cut in [n / 2, n / 4, 1] {
                if cut >= 1 && cut < n {
                    let t = h[cut..].trim_start_matches('0');
                    r.push(format!("0x{}", if t.is_empty() { "0" } else { t }));
                    r.push(format!("0x{}", &h[..n - cut]));
                }
            }
        }
        for (i, c) in h.char_indices() {
            if c != '0' && n > 1 {
                let mut s: Vec<char> = h.chars().collect();
                s[i] = '0';
                let s: String = s.into_iter().collect();
                let s = s.trim_start_matches('0');
                r.push(format!("0x{}", if s.is_empty() { "0" } else { s }));
            }
        }
    } else if let Some(h) = tok.strip_prefix("t:") {
        let n = h.len() / 2;
        if n > 0 {
            for cut in [n, n / 2, n / 4, 1] {
                if cut >= 1 {
                    r.push(format!("t:{}", &h[2 * cut..]));
                    r.push(format!("t:{}", &h[..2 * (n - cut)]));
                }
            }
        }
    } else if !tok.is_empty() && tok.bytes().all(|b| b.is_ascii_digit()) {
        if let Ok(v) = tok.parse::<u64>() {
            if v > 0 {
                for c in [0, 1, v / 2, v - v / 4, v - 1] {
                    if c < v {
                        r.push(c.to_string());
                    }
                }
            }
        }
    }
    r.retain(|s| s != tok && s.len() <= tok.len());
    r.dedup();
    r
}
