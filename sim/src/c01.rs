//! C01: formatting into sinks that refuse, recover, split or panic.

use crate::big::Big;
use crate::engine::*;
use crate::node::{self, Node};
use crate::rng::{hash_str, mix, Rng};

pub struct C01;

const CAP: usize = 24 << 10;

/// A scripted sink: takes text until its script says otherwise.
struct Sink {
    taken: Vec<u8>,
    calls: u64,
    /// Refuse the piece that reaches this byte, or this call.
    byte: u64,
    call: u64,
    /// How it refuses.
    how: How,
    /// Most bytes a stream takes at once, and every how many calls it is
    /// interrupted first.
    chunk: u64,
    every: u64,
    refusals: u64,
    interruptions: u64,
    /// Pieces offered after the first refusal.
    after: u64,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum How {
    Never,
    /// Refuse this and everything later.
    Refuse,
    /// Refuse one piece, take everything later.
    Once,
    /// Take what fits, then refuse.
    Split,
    Panic,
    /// Streams only.
    WouldBlock,
    Broken,
    Full,
}

impl How {
    fn parse(s: &str) -> How {
        match s {
            "refuse" => How::Refuse,
            "once" => How::Once,
            "split" => How::Split,
            "panic" => How::Panic,
            "wouldblock" => How::WouldBlock,
            "broken" => How::Broken,
            "full" => How::Full,
            _ => How::Never,
        }
    }
}

impl Sink {
    fn take(&mut self, p: &[u8]) {
        if self.taken.len() + p.len() <= CAP {
            self.taken.extend_from_slice(p);
        }
    }

    /// Whether the script refuses this piece.
    fn trips(&self, n: usize) -> bool {
        if self.how == How::Never {
            return false;
        }
        if self.refusals > 0 {
            return self.how != How::Once;
        }
        // an empty piece reaches no byte
        (self.taken.len() + n) as u64 > self.byte || self.calls > self.call
    }
}

extern "C" fn offer(ctx: *mut u8, p: *const u8, n: u64) -> u32 {
    let s = unsafe { &mut *(ctx as *mut Sink) };
    let piece = unsafe { std::slice::from_raw_parts(p, n as usize) };
    s.calls += 1;
    if s.refusals > 0 {
        s.after += 1;
    }
    if s.trips(piece.len()) {
        if s.how == How::Split && s.refusals == 0 {
            let room = (s.byte as usize).saturating_sub(s.taken.len()).min(piece.len());
            s.take(&piece[..room]);
        }
        s.refusals += 1;
        return if s.how == How::Panic { 2 } else { 1 };
    }
    s.take(piece);
    0
}

extern "C" fn stream(ctx: *mut u8, p: *const u8, n: u64) -> i64 {
    let s = unsafe { &mut *(ctx as *mut Sink) };
    let piece = unsafe { std::slice::from_raw_parts(p, n as usize) };
    s.calls += 1;
    if s.refusals > 0 {
        s.after += 1;
    }
    if s.every > 0 && s.calls % s.every == 0 && s.refusals == 0 {
        s.interruptions += 1;
        return -1;
    }
    let left = s.byte.saturating_sub(s.taken.len() as u64);
    if s.how != How::Never && (left == 0 || s.refusals > 0) && !piece.is_empty() {
        if s.refusals > 0 && s.how == How::Once {
            s.take(piece);
            return n as i64;
        }
        s.refusals += 1;
        return match s.how {
            How::WouldBlock => -2,
            How::Full => 0,
            How::Panic => -4,
            _ => -3,
        };
    }
    let mut room = (piece.len() as u64).min(s.chunk.max(1));
    if s.how != How::Never {
        room = room.min(left);
    }
    s.take(&piece[..room as usize]);
    room as i64
}

/// Complete texts delivered so far.
type Seen = std::collections::BTreeMap<(String, Vec<u8>, Vec<u8>), Vec<u8>>;

/// What one formatting call is of.
#[derive(Debug)]
enum Thing {
    Number { t: u32, v: u32, w: u32 },
    Error { how: u32, text: Vec<u8> },
}

impl Thing {
    fn key(&self) -> u64 {
        match self {
            Thing::Number { t, v, .. } => 100 + 16 * *t as u64 + *v as u64,
            Thing::Error { how, .. } => *how as u64,
        }
    }
}

fn numeral(x: &Big, t: u32, bits: usize) -> String {
    match t {
        0 | 1 => x.to_text(10),
        2 => x.wrap(bits, false).to_text(16).to_lowercase(),
        3 => x.wrap(bits, false).to_text(16).to_uppercase(),
        4 => x.wrap(bits, false).to_text(2),
        _ => x.wrap(bits, false).to_text(8),
    }
}

/// Whether text in exponent form denotes the value.
fn denotes(text: &str, x: &Big, upper: bool) -> bool {
    let (text, neg) = match text.strip_prefix('-') {
        Some(r) => (r, true),
        None => (text.strip_prefix('+').unwrap_or(text), false),
    };
    let Some((m, e)) = text.split_once(if upper { 'E' } else { 'e' }) else { return false };
    let (int, frac) = m.split_once('.').unwrap_or((m, ""));
    let Ok(e) = e.parse::<usize>() else { return false };
    if int.is_empty() || frac.len() > e || e > 400 {
        return false;
    }
    let Some(d) = Big::from_digits(&format!("{int}{frac}"), 10) else { return false };
    let v = d.mul(&Big::from_u64(10).pow((e - frac.len()) as u32));
    let v = if neg { v.neg() } else { v };
    v.cmp(x) == std::cmp::Ordering::Equal
}

/// Whether `text` spells the value under this trait and variant. Padding is
/// not part of what is spelled.
fn spells(text: &str, t: u32, v: u32, x: &Big, y: &Big, bits: usize) -> bool {
    let dec = |x: &Big| numeral(x, 0, bits);
    if t == 8 {
        let (a, b) = (dec(x), dec(y));
        return match v {
            0 => text == format!("{a} {b}"),
            1 => text == format!("[0x{}|{}]", numeral(x, 2, bits), numeral(y, 4, bits)),
            2 => text == format!("[{a}, {b}]"),
            3 => text == format!("Record {{ id: 7, value: {a}, pair: ({b}, {a}) }}"),
            4 => text == format!("Record {{\n    id: 7,\n    value: {a},\n    pair: (\n        {b},\n        {a},\n    ),\n}}"),
            5 => text == format!("Some({a})"),
            6 => text == format!("{a}+{b}={}", numeral(x, 5, bits)),
            7 => {
                let hex = |x: &Big| format!("0x{}", numeral(x, 2, bits));
                text == format!("(\n    {a},\n    {b},\n)") || text == format!("(\n    {},\n    {},\n)", hex(x), hex(y))
            },
            _ => text.split_once(',').map_or(false, |(p, q)| denotes(p, x, false) && denotes(q, y, true)),
        };
    }
    // fill characters of the padded variants
    let plain: String = match v {
        3 | 5 => text.replace(' ', ""),
        7..=9 => text.replace('*', ""),
        10 => text.replace('é', ""),
        4 | 6 => text.replace(' ', ""),
        _ => text.to_string(),
    };
    let plain = if v == 2 || v == 11 { plain.replacen('+', "", 1) } else { plain };
    if t == 6 || t == 7 {
        return denotes(&plain, x, t == 7);
    }
    let digits = numeral(x, t, bits);
    let prefix = if matches!(v, 1 | 5 | 6 | 10 | 11) {
        match t {
            2 | 3 => "0x",
            4 => "0b",
            5 => "0o",
            _ => "",
        }
    } else {
        ""
    };
    if v == 4 || v == 6 {
        // zeros between prefix or sign and digits are padding
        let (neg, digits) = match digits.strip_prefix('-') {
            Some(r) => (true, r.to_string()),
            None => (false, digits),
        };
        let Some(rest) = plain.strip_prefix(if neg { "-" } else { "" }).and_then(|r| r.strip_prefix(prefix)) else { return false };
        return match rest.strip_suffix(digits.as_str()) {
            Some(zeros) => zeros.bytes().all(|b| b == b'0'),
            None => false,
        };
    }
    plain == format!("{prefix}{digits}")
}

fn likely_length(t: u64, x: &[u8], w: u64) -> u64 {
    let bits = Big::from_le(x, false).bits() as u64;
    2 + w
        + match t {
            2 | 3 => bits / 4,
            4 => bits,
            5 => bits / 3,
            8 => bits,
            _ => bits * 3 / 10,
        }
}

impl Engine for C01 {
    fn id(&self) -> &'static str {
        "C01"
    }

    fn builds(&self) -> &'static [&'static str] {
        &["n64r", "n64c", "n32r", "n32c", "n64n"]
    }

    fn scenarios(&self, thorough: bool) -> u64 {
        if thorough { 8_000_000 } else { 700_000 }
    }

    fn rule(&self) -> &'static str {
        "scenario = a sequence of format calls of numbers and errors into scripted sinks and streams, each repeated afterwards into a working sink; distinct = (build, type, trait and flags, how the sink failed, where in the text in sixteenths, size of the value); non-trivial = the sink really refused or panicked"
    }

    fn real(&self) -> &'static [&'static str] {
        &["the library (five builds)", "core::fmt and std::io::Write adapters", "unwinding"]
    }

    fn stubs(&self) -> &'static [&'static str] {
        &["text sinks", "byte streams"]
    }

    fn probes(&self) -> &'static [&'static str] {
        &["fault.refuse", "fault.once", "fault.split", "fault.panic", "fault.io_wouldblock", "fault.io_broken", "fault.io_full", "fault.io_interrupted", "fault.io_short_write", "fault.error_value_refused", "fault.failed_repeatedly", "ok.retry"]
    }

    fn time(&self) -> (&'static str, &'static str) {
        ("pieces offered to sinks", "pieces")
    }

    fn generate(&self, _index: u64, rng: &mut Rng, nodes: &[Node]) -> Plan {
        let node = rng.pick(nodes);
        let mut plan = vec![format!("build {}", node.name)];
        let ty = rng.below(8) as usize;
        // swarm: few traits, few values per scenario
        let traits: Vec<u64> = (0..rng.range(1, 3)).map(|_| rng.below(9)).collect();
        let bytes = node::bytes(ty);
        let values: Vec<Vec<u8>> = (0..rng.range(1, 3))
            .map(|_| {
                if rng.chance(20) {
                    let radix = *rng.pick(&[10, 10, 10, 16, 8, 2]);
                    return structured(rng, bytes, radix, node::signed(ty));
                }
                let mut v = value(rng, bytes);
                if rng.chance(25) {
                    let k = rng.below(bytes as u64) as usize;
                    v[k..].fill(0);
                }
                v
            })
            .collect();
        for _ in 0..rng.range(2, 8) {
            let (what, len) = if rng.chance(8) {
                let text: &[u8] = rng.pick(&[&b""[..], b"x", b"-", b"12a", b"99999999999999999999999999999999999999999999999999999999999999999999999999999999", b"-1"]);
                (format!("err {} {} {}", node::TYPES[ty], rng.below(11), blob(text)), 40)
            } else {
                let t = *rng.pick(&traits);
                let v = rng.below(if t == 8 { 9 } else { 12 });
                let w = match rng.below(4) {
                    0 => 0,
                    1 => rng.below(12),
                    2 => rng.below(90),
                    _ => rng.below(node::bits(ty) as u64 + 20),
                };
                let (a, b) = (rng.pick(&values).clone(), rng.pick(&values).clone());
                let padded = matches!(v, 3..=10) && t != 8;
                (format!("fmt {} {t} {v} {w} {} {}", node::TYPES[ty], hex(&a), hex(&b)), likely_length(t, &a, if padded { w } else { 0 }))
            };
            let at = match rng.below(5) {
                0 => rng.below(3),
                1 => len.saturating_sub(rng.below(4)),
                _ => rng.below(len + 2),
            };
            let script = if what.starts_with("fmt") && rng.chance(30) {
                let how = *rng.pick(&["wouldblock", "broken", "full", "panic", "once", "never"]);
                format!("stream {how} {at} {} {}", if rng.chance(40) { rng.range(1, 5) } else { 4096 }, if rng.chance(30) { rng.range(2, 5) } else { 0 })
            } else {
                let most = if rng.chance(70) { 4 } else { 40 };
                match rng.below(8) {
                    0 => "sink never 0".into(),
                    1 | 2 => format!("call {} {}", rng.pick(&["refuse", "once", "panic"]), rng.below(most)),
                    _ => format!("sink {} {at}", rng.pick(&["refuse", "once", "split", "panic"])),
                }
            };
            // the same failure over and over before the sink works again
            let times = match rng.below(40) {
                0..=3 => rng.range(2, 5),
                4 | 5 => rng.range(5, 40),
                6 => rng.range(40, 300),
                _ => 1,
            };
            plan.push(if times > 1 { format!("{what} {script} times {times}") } else { format!("{what} {script}") });
        }
        plan
    }

    fn run(&self, plan: &Plan, cx: &mut Cx) -> Result<(), Violation> {
        let mut node: Option<&Node> = None;
        let mut seen = Seen::new();
        for (i, line) in plan.iter().enumerate() {
            cx.at_line(i);
            let mut t: Vec<&str> = line.split_whitespace().collect();
            let mut times = 1;
            if t.len() > 2 && t[t.len() - 2] == "times" {
                times = int(t.last()).clamp(1, 1000) as u64;
                t.truncate(t.len() - 2);
            }
            let ty = node::TYPES.iter().position(|x| Some(x) == t.get(1));
            match (t.first(), ty) {
                (Some(&"build"), _) => node = t.get(1).and_then(|n| cx.node(n)),
                (Some(&"fmt"), Some(ty)) => {
                    let Some(node) = node else { continue };
                    let tr = int(t.get(2)) as u32 % 9;
                    let v = int(t.get(3)) as u32 % if tr == 8 { 9 } else { 12 };
                    let w = (int(t.get(4)) % 3000) as u32;
                    let a = unhex(t.get(5).unwrap_or(&"0x0"), node::bytes(ty));
                    let b = unhex(t.get(6).unwrap_or(&"0x0"), node::bytes(ty));
                    self.step(node, ty, &Thing::Number { t: tr, v, w }, &a, &b, t.get(7..).unwrap_or(&[]), times, &mut seen, cx)?;
                },
                (Some(&"err"), Some(ty)) => {
                    let Some(node) = node else { continue };
                    let thing = Thing::Error { how: int(t.get(2)) as u32 % 11, text: unblob(t.get(3).unwrap_or(&"t:")) };
                    self.step(node, ty, &thing, &[], &[], t.get(4..).unwrap_or(&[]), times, &mut seen, cx)?;
                },
                _ => {},
            }
        }
        Ok(())
    }
}

impl C01 {
    fn send(&self, node: &Node, ty: usize, thing: &Thing, a: &[u8], b: &[u8], sink: &mut Sink, io: bool) -> u32 {
        let ctx = sink as *mut Sink as *mut u8;
        unsafe {
            match thing {
                Thing::Number { t, v, w } if io => (node.api.fmt_io)(ty as u32, *t, *v, *w, a.as_ptr(), b.as_ptr(), stream, ctx),
                Thing::Number { t, v, w } => (node.api.fmt)(ty as u32, *t, *v, *w, a.as_ptr(), b.as_ptr(), offer, ctx),
                Thing::Error { how, text } => (node.api.fmt_error)(ty as u32, *how, text.as_ptr(), text.len() as u32, offer, ctx),
            }
        }
    }

    #[allow(clippy::too_many_arguments)]
    fn step(&self, node: &Node, ty: usize, thing: &Thing, a: &[u8], b: &[u8], script: &[&str], times: u64, seen: &mut Seen, cx: &mut Cx) -> Result<(), Violation> {
        let fresh = || Sink {
            taken: Vec::with_capacity(CAP),
            calls: 0,
            byte: u64::MAX,
            call: u64::MAX,
            how: How::Never,
            chunk: u64::MAX,
            every: 0,
            refusals: 0,
            interruptions: 0,
            after: 0,
        };
        let io = script.first() == Some(&"stream") && matches!(thing, Thing::Number { .. });
        let scripted = || {
            let mut s = fresh();
            s.how = How::parse(script.get(1).unwrap_or(&""));
            let at = int(script.get(2)) as u64;
            match script.first() {
                Some(&"call") => s.call = at,
                _ => s.byte = at,
            }
            if io {
                s.chunk = script.get(3).map_or(u64::MAX, |x| num(x) as u64);
                s.every = int(script.get(4)) as u64;
                if s.every == 1 {
                    s.every = 2;
                }
            } else if matches!(s.how, How::WouldBlock | How::Broken | How::Full) {
                s.how = How::Refuse;
            }
            s
        };
        let signed = node::signed(ty);
        let (x, y) = (Big::from_le(a, signed), Big::from_le(b, signed));
        let bits = node::bits(ty);
        let trait_name = match thing {
            Thing::Number { t, .. } => ["Display", "Debug", "LowerHex", "UpperHex", "Binary", "Octal", "LowerExp", "UpperExp", "composite"][*t as usize],
            Thing::Error { .. } => "error",
        };
        let what = |s: &Sink| {
            let v = match thing {
                Thing::Number { v, w, .. } => format!("variant {v} width {w} of {} {}", x.hex(), y.hex()),
                Thing::Error { how, text } => format!("form {how} after parsing {:?}", String::from_utf8_lossy(text)),
            };
            format!("{trait_name} {v} on {} {}; sink {:?} took {:?}", node.name, node::TYPES[ty], s.how, String::from_utf8_lossy(&s.taken[..s.taken.len().min(200)]))
        };

        // The call under fault, as often as the plan says.
        let mut attempts = vec![];
        for _ in 0..times {
            let mut s = scripted();
            let status = self.send(node, ty, thing, a, b, &mut s, io);
            cx.add("pieces", s.calls);
            cx.log.word(status as u64);
            cx.log.bytes(&s.taken);
            attempts.push((status, s));
        }
        // The same again into a working sink.
        let mut ok = fresh();
        let again = self.send(node, ty, thing, a, b, &mut ok, false);
        cx.add("pieces", ok.calls);
        cx.count("ok.retry");
        cx.evals += 1 + times;
        cx.log.bytes(&ok.taken);
        if again != node::RETURNED {
            return violation(format!("working-sink-failed:{trait_name}"), format!("{}; a working sink got status {again}", what(&ok)));
        }
        let Ok(text) = std::str::from_utf8(&ok.taken) else { return violation(format!("not-text:{trait_name}"), what(&ok)) };
        match thing {
            Thing::Number { t, v, .. } => {
                if !spells(text, *t, *v, &x, &y, bits) {
                    return violation(format!("wrong-text:{trait_name}"), what(&ok));
                }
            },
            Thing::Error { .. } => {},
        }
        // Every complete text of one value in one form is the same.
        let key = (format!("{} {:?}", node::TYPES[ty], thing), a.to_vec(), b.to_vec());
        match seen.get(&key) {
            Some(before) if *before != ok.taken => {
                return violation(format!("text-changed:{trait_name}"), format!("{}; before {:?}", what(&ok), String::from_utf8_lossy(before)));
            },
            Some(_) => {},
            None => {
                seen.insert(key, ok.taken.clone());
            },
        }
        if attempts.iter().filter(|x| x.1.refusals > 0).count() > 1 {
            cx.count("fault.failed_repeatedly");
        }
        for (status, s) in &attempts {
            let status = *status;
            // Failure is reported exactly when the sink refused.
            let expected = match (s.refusals > 0, s.how) {
                (false, _) => node::RETURNED,
                (true, How::Panic) => node::INJECTED,
                _ => node::FAILED,
            };
            if status != expected {
                return violation(format!("failure-not-surfaced:{trait_name}"), format!("{}; {} refusals, status {status}", what(s), s.refusals));
            }
            if s.after > 0 {
                return violation(format!("wrote-after-failure:{trait_name}"), format!("{}; {} pieces after the refusal", what(s), s.after));
            }
            if !ok.taken.starts_with(&s.taken) {
                return violation(format!("not-a-prefix:{trait_name}"), format!("{}; complete text {:?}", what(s), text));
            }
            if s.refusals == 0 && s.taken != ok.taken {
                return violation(format!("incomplete:{trait_name}"), format!("{}; complete text {:?}", what(s), text));
            }
            if s.interruptions > 0 {
                cx.add("fault.io_interrupted", s.interruptions);
            }
            if io && s.chunk < 16 {
                cx.count("fault.io_short_write");
            }
            if s.refusals > 0 {
                let kind = match (io, s.how) {
                    (true, How::WouldBlock) => "fault.io_wouldblock",
                    (true, How::Full) => "fault.io_full",
                    (true, How::Panic) => "fault.io_panic",
                    (true, _) => "fault.io_broken",
                    (false, How::Refuse) => "fault.refuse",
                    (false, How::Once) => "fault.once",
                    (false, How::Split) => "fault.split",
                    _ => "fault.panic",
                };
                cx.count(kind);
                if matches!(thing, Thing::Error { .. }) {
                    cx.count("fault.error_value_refused");
                }
                let part = if ok.taken.is_empty() { 0 } else { 16 * s.taken.len() as u64 / ok.taken.len() as u64 };
                cx.reach(mix(hash_str(&node.name) ^ (ty as u64) << 8 ^ thing.key() << 16 ^ hash_str(kind) ^ part << 32 ^ (x.bits() as u64 / 32) << 48));
            }
        }
        Ok(())
    }
}
