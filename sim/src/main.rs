//! Deterministic simulation of callers, nodes and faults around the library.

mod big;
mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;
mod c07;
mod c08;
mod call;
mod engine;
mod model;
mod node;
mod rng;
mod runner;
mod sched;

use std::fmt::Write as _;
use std::io::Write as _;
use std::time::Instant;

use engine::{Engine, Plan};
use node::Node;
use runner::Shared;

fn engines() -> Vec<Box<dyn Engine>> {
    vec![Box::new(c01::C01), Box::new(c02::C02), Box::new(c03::C03), Box::new(c04::C04), Box::new(c05::C05), Box::new(c06::C06), Box::new(c07::C07), Box::new(c08::C08)]
}

fn fail(msg: &str) -> ! {
    eprintln!("simulator error: {msg}");
    std::process::exit(3)
}

/// Addresses are the same in every run, so that nothing can depend on them.
fn fix_addresses() {
    const NO_RANDOMIZE: libc::c_ulong = 0x0040000;
    unsafe {
        let cur = libc::personality(0xffff_ffff);
        if cur >= 0 && cur as libc::c_ulong & NO_RANDOMIZE == 0 && std::env::var_os("SIM_FIXED").is_none() {
            libc::personality(cur as libc::c_ulong | NO_RANDOMIZE);
            use std::os::unix::process::CommandExt;
            let e = std::process::Command::new("/proc/self/exe").args(std::env::args().skip(1)).env("SIM_FIXED", "1").exec();
            eprintln!("re-exec failed: {e}");
        }
    }
}

fn json_str(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => r.push_str("\\\""),
            '\\' => r.push_str("\\\\"),
            '\n' => r.push_str("\\n"),
            '\t' => r.push_str("\\t"),
            c if (c as u32) < 32 => {
                let _ = write!(r, "\\u{:04x}", c as u32);
            },
            c => r.push(c),
        }
    }
    r.push('"');
    r
}

fn json_list(v: &[&str]) -> String {
    format!("[{}]", v.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", "))
}

struct Args {
    libs: String,
    seed: u64,
    thorough: bool,
    out: String,
    replays: String,
    workers: usize,
    count: Option<u64>,
    rest: Vec<String>,
}

fn args() -> Args {
    let mut a = Args {
        libs: String::new(),
        seed: 1,
        thorough: false,
        out: String::new(),
        replays: String::new(),
        workers: std::thread::available_parallelism().map_or(4, |n| n.get()),
        count: None,
        rest: vec![],
    };
    let mut it = std::env::args().skip(1);
    while let Some(x) = it.next() {
        match x.as_str() {
            "--libs" => a.libs = it.next().unwrap_or_default(),
            "--seed" => a.seed = it.next().and_then(|s| s.parse().ok()).unwrap_or(1),
            "--tier" => a.thorough = it.next().as_deref() == Some("thorough"),
            "--out" => a.out = it.next().unwrap_or_default(),
            "--replays" => a.replays = it.next().unwrap_or_default(),
            "--workers" => a.workers = it.next().and_then(|s| s.parse().ok()).unwrap_or(4),
            "--count" => a.count = it.next().and_then(|s| s.parse().ok()),
            _ => a.rest.push(x),
        }
    }
    a
}

fn load(engine: &dyn Engine, libs: &str) -> Vec<Node> {
    engine
        .builds()
        .iter()
        .map(|b| match Node::load(b, &format!("{libs}/{b}.so")) {
            Ok(n) => {
                let want = (b.starts_with("n32"), b.ends_with('c'));
                if (n.limb32, n.checks) != want {
                    fail(&format!("build {b} is not what its name says"));
                }
                n
            },
            Err(e) => fail(&e),
        })
        .collect()
}

fn find(id: &str) -> Box<dyn Engine> {
    engines().into_iter().find(|e| e.id() == id).unwrap_or_else(|| fail(&format!("no such property: {id}")))
}

fn write_replay(path: &str, id: &str, seed: u64, index: u64, class: &str, detail: &str, log: u64, plan: &Plan, from: usize) {
    let mut s = String::new();
    let _ = writeln!(s, "# simulation replay: run with  bash bin/replay.sh <this file>");
    let _ = writeln!(s, "property {id}");
    let _ = writeln!(s, "seed {seed}");
    let _ = writeln!(s, "scenario {index}");
    let _ = writeln!(s, "class {class}");
    let _ = writeln!(s, "digest {log:x}");
    let _ = writeln!(s, "detail {}", detail.replace('\n', " "));
    let _ = writeln!(s, "minimised-from {from} lines");
    let _ = writeln!(s, "plan");
    for l in plan {
        let _ = writeln!(s, "{l}");
    }
    if let Err(e) = std::fs::write(path, s) {
        fail(&format!("cannot write {path}: {e}"));
    }
}

fn main() {
    fix_addresses();
    let a = args();
    match a.rest.first().map(|s| s.as_str()) {
        Some("run") => run(&a),
        Some("replay") => replay(&a),
        Some("selfcheck") => selfcheck(&a),
        Some("survey") => survey(&a),
        Some("plan") => {
            let e = find(a.rest.get(1).map_or("", |s| s));
            let nodes = load(&*e, &a.libs);
            e.scout(a.seed, &nodes);
            let i = a.rest.get(2).and_then(|s| s.parse().ok()).unwrap_or(0);
            let mut rng = rng::Rng::new(runner::scenario_seed(a.seed, e.id(), i));
            for l in e.generate(i, &mut rng, &nodes) {
                println!("{l}");
            }
        },
        _ => fail("usage: sim run|replay|selfcheck|survey|plan ..."),
    }
}

fn run(a: &Args) {
    let id = a.rest.get(1).cloned().unwrap_or_default();
    let e = find(&id);
    let start = Instant::now();
    if let Err(m) = big::selfcheck(&mut rng::Rng::new(7)) {
        fail(&m);
    }
    let nodes = load(&*e, &a.libs);
    e.scout(a.seed, &nodes);
    let count = a.count.unwrap_or_else(|| e.scenarios(a.thorough));
    let cap = if a.thorough { 600.0 } else { 240.0 };
    println!("property {id} tier {} seed {} scenarios {count} workers {}", if a.thorough { "thorough" } else { "quick" }, a.seed, a.workers);
    let keep = (count / 256).max(1);
    let b = runner::batch(&*e, &nodes, a.seed, count, 1, a.workers, cap, keep);
    let sim_s = start.elapsed().as_secs_f64();
    if !b.broken.is_empty() {
        for m in b.broken.iter().take(5) {
            eprintln!("{m}");
        }
        if b.violation.is_none() {
            fail("scenarios broke the simulator");
        }
    }
    // Determinism: run a sample again with another number of workers.
    let again = runner::batch(&*e, &nodes, a.seed, count.div_ceil(keep), keep, (a.workers / 2).max(1) + 1, 60.0, keep);
    let mut same = 0u64;
    let mut differ = vec![];
    for (i, d) in &again.digests {
        match b.digests.get(i) {
            Some(x) if x == d => same += 1,
            Some(_) => differ.push(*i),
            None => {},
        }
    }
    if !differ.is_empty() {
        eprintln!("scenarios that ran differently when repeated: {:?}", &differ[..differ.len().min(8)]);
    }
    // A hang must also hang when it has the machine to itself.
    let mut verdict: Option<(u64, engine::Violation, u64, Plan, usize, u64)> = None;
    let mut unconfirmed = vec![];
    if let Some((i, v, _)) = &b.violation {
        let page = Shared::new(2 << 20);
        let mut rng = rng::Rng::new(runner::scenario_seed(a.seed, e.id(), *i));
        let plan = e.generate(*i, &mut rng, &nodes);
        let mut confirmed = None;
        for _ in 0..3 {
            let r = runner::run_one(&*e, &nodes, *i, a.seed, Some(&plan), &page, e.patience() * 3);
            if let Some(w) = r.violation {
                confirmed = Some((w, r.log));
                break;
            }
        }
        match confirmed {
            None => unconfirmed.push(format!("scenario {i}: {} {}", v.class, v.detail)),
            Some((w, _)) => {
                let (small, tried) = runner::minimise(&*e, &nodes, &plan, &w.class, if a.thorough { 120.0 } else { 60.0 });
                let r = runner::run_one(&*e, &nodes, *i, a.seed, Some(&small), &page, e.patience() * 3);
                match r.violation {
                    Some(x) if x.class == w.class => verdict = Some((*i, x, r.log, small, plan.len(), tried)),
                    _ => verdict = Some((*i, w, r.log, plan.clone(), plan.len(), tried)),
                }
            },
        }
    }
    for u in &unconfirmed {
        eprintln!("not reproduced, not reported: {u}");
    }
    let mut replay_path = String::new();
    if let Some((i, v, log, plan, from, _)) = &verdict {
        let _ = std::fs::create_dir_all(&a.replays);
        replay_path = format!("{}/{id}-seed{}-{i}.replay", a.replays, a.seed);
        write_replay(&replay_path, &id, a.seed, *i, &v.class, &v.detail, *log, plan, *from);
    }
    // Evidence.
    let wall = start.elapsed().as_secs_f64();
    let (unit, unit_key) = e.time();
    let mut samples = vec![];
    for i in 0..3u64 {
        let mut rng = rng::Rng::new(runner::scenario_seed(a.seed, e.id(), i * 17));
        let p = e.generate(i * 17, &mut rng, &nodes);
        samples.push(json_str(&p.join(" ; ").chars().take(900).collect::<String>()));
    }
    let mut faults = vec![];
    let mut other = vec![];
    for (k, n) in &b.counters {
        match k.strip_prefix("fault.") {
            Some(f) => faults.push(format!("{}: {n}", json_str(f))),
            None => other.push(format!("{}: {n}", json_str(k))),
        }
    }
    let idle: Vec<&str> = e.probes().iter().copied().filter(|p| b.counters.get(*p).copied().unwrap_or(0) == 0).collect();
    let mut s = String::from("{\n");
    let _ = writeln!(s, " \"property\": {},", json_str(&id));
    let _ = writeln!(s, " \"tier\": \"{}\",", if a.thorough { "thorough" } else { "quick" });
    let _ = writeln!(s, " \"seed\": {},", a.seed);
    let _ = writeln!(s, " \"level\": \"exploration\",");
    let _ = writeln!(s, " \"wall_s\": {wall:.2},");
    let _ = writeln!(s, " \"violations\": {},", verdict.is_some() as u32);
    let _ = writeln!(s, " \"coverage\": {{");
    let _ = writeln!(s, "  \"evaluations\": {},", b.evals);
    let _ = writeln!(s, "  \"distinct_nontrivial\": {},", b.seen.len());
    let _ = writeln!(s, "  \"rule\": {},", json_str(e.rule()));
    let _ = writeln!(s, "  \"samples\": [{}],", samples.join(", "));
    let _ = writeln!(s, "  \"scenarios\": {},", b.done);
    let _ = writeln!(s, "  \"scenarios_planned\": {count},");
    let _ = writeln!(s, "  \"scenarios_per_hour\": {:.0},", b.done as f64 / sim_s * 3600.0);
    let _ = writeln!(s, "  \"stopped_by_wall_cap\": {},", b.capped);
    let _ = writeln!(s, "  \"simulated_time\": {{\"unit\": {}, \"amount\": {}}},", json_str(unit), b.counters.get(unit_key).copied().unwrap_or(0));
    let _ = writeln!(s, "  \"faults_fired\": {{{}}},", faults.join(", "));
    let _ = writeln!(s, "  \"counters\": {{{}}},", other.join(", "));
    let _ = writeln!(s, "  \"probes_never_hit\": {},", json_list(&idle));
    let _ = writeln!(s, "  \"determinism\": {{\"rerun_scenarios\": {}, \"identical\": {same}, \"different\": {}, \"workers\": [{}, {}]}},", again.digests.len(), differ.len(), a.workers, (a.workers / 2).max(1) + 1);
    let _ = writeln!(s, "  \"unconfirmed\": {},", json_list(&unconfirmed.iter().map(|x| x.as_str()).collect::<Vec<_>>()));
    let _ = writeln!(s, "  \"real_components\": {},", json_list(e.real()));
    let _ = writeln!(s, "  \"stub_components\": {},", json_list(e.stubs()));
    let _ = writeln!(s, "  \"builds\": {}", json_list(e.builds()));
    let _ = writeln!(s, " }},");
    let _ = writeln!(s, " \"assumptions\": [\"sampled, not enumerated: a clean batch is evidence\", \"x86-64 Linux, the compiler in this image\"]");
    s.push_str("}\n");
    if !a.out.is_empty() {
        if let Some(d) = std::path::Path::new(&a.out).parent() {
            let _ = std::fs::create_dir_all(d);
        }
        if let Err(e) = std::fs::write(&a.out, s) {
            fail(&format!("cannot write evidence: {e}"));
        }
    }
    println!(
        "{} scenarios, {} evaluations, {} distinct, {:.1}s; determinism {}/{} identical",
        b.done,
        b.evals,
        b.seen.len(),
        wall,
        same,
        again.digests.len()
    );
    if !idle.is_empty() {
        println!("probes never hit: {idle:?}");
    }
    if let Some((i, v, _, plan, from, tried)) = &verdict {
        println!("scenario {i}: {}", v.class);
        println!("{}", v.detail);
        println!("minimised from {from} to {} lines in {tried} runs:", plan.len());
        for l in plan {
            println!("  {l}");
        }
        // The replay must fail the same way in a fresh process.
        let st = std::process::Command::new("/proc/self/exe").args(["replay", &replay_path, "--libs", &a.libs]).env_remove("SIM_FIXED").stdout(std::process::Stdio::null()).status();
        println!("replay in a fresh process: {}", match st.map(|s| s.code()) {
            Ok(Some(1)) => "same violation",
            _ => "DIFFERENT",
        });
        println!("VIOLATION property={id} replay={replay_path}");
        let _ = std::io::stdout().flush();
        std::process::exit(1);
    }
    println!("held");
}

/// Exit 1 if the recorded violation happens again, exactly; 0 if it does not.
fn replay(a: &Args) {
    let path = a.rest.get(1).cloned().unwrap_or_default();
    let text = std::fs::read_to_string(&path).unwrap_or_else(|e| fail(&format!("{path}: {e}")));
    let mut plan = vec![];
    let (mut id, mut class, mut digest) = (String::new(), String::new(), 0u64);
    let mut body = false;
    for l in text.lines() {
        if body {
            plan.push(l.to_string());
            continue;
        }
        match l.split_once(' ') {
            Some(("property", x)) => id = x.into(),
            Some(("class", x)) => class = x.into(),
            Some(("digest", x)) => digest = u64::from_str_radix(x, 16).unwrap_or(0),
            _ => body = l == "plan",
        }
    }
    let e = find(&id);
    let nodes = load(&*e, &a.libs);
    let page = Shared::new(2 << 20);
    let r = runner::run_one(&*e, &nodes, 0, 0, Some(&plan), &page, e.patience() * 3);
    match r.violation {
        Some(v) => {
            println!("{}\n{}", v.class, v.detail);
            let same = v.class == class && r.log == digest;
            println!("{}", if same { "identical to the recording" } else { "not identical to the recording" });
            println!("VIOLATION property={id} replay={path}");
            std::process::exit(1);
        },
        None => println!("no violation"),
    }
}

/// Many seeds twice, across processes and worker counts.
fn selfcheck(a: &Args) {
    if let Err(m) = big::selfcheck(&mut rng::Rng::new(a.seed)) {
        fail(&m);
    }
    let only = a.rest.get(1).cloned();
    for e in engines() {
        if only.as_ref().map_or(false, |o| o != e.id()) {
            continue;
        }
        let nodes = load(&*e, &a.libs);
        e.scout(a.seed, &nodes);
        let count = a.count.unwrap_or(300);
        let (mut runs, mut bad) = (0u64, 0u64);
        for seed in 1..=8u64 {
            let mut first = None;
            for w in [a.workers, 1 + seed as usize % 3, 40] {
                let b = runner::batch(&*e, &nodes, seed, count, 1, w, 600.0, 1);
                runs += b.digests.len() as u64;
                match &first {
                    None => first = Some(b.digests),
                    Some(f) => bad += f.iter().filter(|(i, d)| b.digests.get(i) != Some(d)).count() as u64,
                }
            }
        }
        println!("{}: {runs} runs over 8 seeds at three worker counts, {bad} differ", e.id());
    }
}

/// Every violation class a range of scenarios shows, without stopping.
fn survey(a: &Args) {
    let e = find(a.rest.get(1).map_or("", |s| s));
    let nodes = load(&*e, &a.libs);
    e.scout(a.seed, &nodes);
    let page = Shared::new(2 << 20);
    let mut classes: std::collections::BTreeMap<String, (u64, u64, String)> = Default::default();
    let from = a.rest.get(2).and_then(|s| s.parse().ok()).unwrap_or(0u64);
    for i in from..from + a.count.unwrap_or(2000) {
        let r = runner::run_one(&*e, &nodes, i, a.seed, None, &page, e.patience());
        if let Some(b) = r.broken {
            println!("scenario {i} broke the simulator: {b}");
        }
        if let Some(v) = r.violation {
            classes.entry(v.class).or_insert((0, i, v.detail)).0 += 1;
        }
    }
    for (c, (n, i, d)) in classes {
        println!("{n:6} {c} first {i}: {d}");
    }
}
