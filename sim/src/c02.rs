//! C02: journals of numbers on storage that tears, loses, repeats and flips.

use std::cmp::Ordering;

use crate::big::Big;
use crate::engine::*;
use crate::node::{self, Node, Out};
use crate::rng::{hash_str, mix, Rng};

pub struct C02;

const SECTOR: usize = 32;
const DISK: usize = 64 << 10;

/// A disk with a write cache: what is not synced can vanish in a crash.
struct Disk {
    /// What survives power loss.
    media: Vec<u8>,
    /// What reads see.
    view: Vec<u8>,
    /// Where the next record goes.
    head: usize,
    /// What each sector held in the generation before.
    old: Vec<u8>,
    /// Bytes of the current write still accepted before power is cut.
    left: usize,
    /// Most bytes taken by one write, and every how many writes one is
    /// interrupted.
    chunk: usize,
    every: u64,
    writes: u64,
}

extern "C" fn disk_write(ctx: *mut u8, p: *const u8, n: u64) -> i64 {
    let d = unsafe { &mut *(ctx as *mut Disk) };
    let piece = unsafe { std::slice::from_raw_parts(p, n as usize) };
    d.writes += 1;
    if d.every > 1 && d.writes % d.every == 0 {
        return -1;
    }
    if piece.is_empty() {
        return 0;
    }
    if d.left == 0 {
        return -3;
    }
    let k = piece.len().min(d.left).min(d.chunk.max(1));
    d.put(&piece[..k]);
    d.left -= k;
    k as i64
}

impl Disk {
    fn new() -> Disk {
        Disk { media: vec![], view: vec![], head: 0, old: vec![], left: DISK, chunk: DISK, every: 0, writes: 0 }
    }

    fn put(&mut self, b: &[u8]) {
        for x in b {
            if self.head >= DISK {
                return;
            }
            if self.head < self.view.len() {
                self.view[self.head] = *x;
            } else {
                self.view.push(*x);
            }
            self.head += 1;
        }
    }
}

/// A record that was written completely.
struct Record {
    at: usize,
    bytes: Vec<u8>,
    text: std::ops::Range<usize>,
    value: Big,
    ty: usize,
    radix: u32,
    by: usize,
}

/// The number a text spells in a radix: an optional sign and digits.
fn spelled(text: &str, radix: u32) -> Option<Big> {
    let (neg, digits) = match text.strip_prefix('-') {
        Some(r) => (true, r),
        None => (false, text.strip_prefix('+').unwrap_or(text)),
    };
    if digits.is_empty() || !digits.bytes().all(|b| (b as char).to_digit(radix).is_some()) {
        return None;
    }
    let v = Big::from_digits(digits, radix)?;
    Some(if neg { v.neg() } else { v })
}

/// What ends up next to or inside numerals: line ends of other systems, padding,
/// signs, prefixes, separators, and characters just outside the digits.
fn foreign(rng: &mut Rng) -> Vec<u8> {
    match rng.below(6) {
        0 => {
            let most = if rng.chance(20) { 1200 } else { 40 };
            vec![b'0'; rng.range(1, most) as usize]
        },
        1 => rng.pick(&["+", "-", "--", "+-", "-+", "++", "-0", "+0", "0x", "0X", "0b", "0o", "x", "#"]).as_bytes().to_vec(),
        2 => rng.pick(&["\r", " ", "\t", "\0", "\0\0\0", "  ", " \r", "\u{b}", "\u{c}", "\u{85}", "\u{a0}", "\u{feff}", "\u{2003}", "\u{1a}", "\u{7f}"]).as_bytes().to_vec(),
        3 => rng.pick(&["_", ",", ".", "'", "e", "E", ".0", "e0", "/", ":", ";", "@", "[", "`", "{", "u8", "n", "L", "h"]).as_bytes().to_vec(),
        4 => rng.pick(&["\u{660}", "\u{663}", "\u{ff11}", "\u{ff21}", "\u{b2}", "\u{2212}", "\u{ff0b}", "\u{e9}", "\u{1d7d8}"]).as_bytes().to_vec(),
        _ => vec![rng.below(256) as u8],
    }
}

impl Engine for C02 {
    fn id(&self) -> &'static str {
        "C02"
    }

    fn builds(&self) -> &'static [&'static str] {
        &["n64r", "n64c", "n32r", "n32c", "n64n"]
    }

    fn scenarios(&self, thorough: bool) -> u64 {
        if thorough { 5_000_000 } else { 500_000 }
    }

    fn rule(&self) -> &'static str {
        "scenario = a journal of numbers written by some builds in some radices through a write cache, with crashes and storage faults, read back record by record and line by line by other builds; distinct = (writer, reader, type read, radix, damage kinds so far, accepted or refused, length of the text read); non-trivial = a text was read and compared with what it spells"
    }

    fn real(&self) -> &'static [&'static str] {
        &["the library (five builds), writing and reading", "core::fmt and std::io::Write adapters"]
    }

    fn stubs(&self) -> &'static [&'static str] {
        &["disk and write cache", "journal layout (one numeral per line)"]
    }

    fn probes(&self) -> &'static [&'static str] {
        &[
            "fault.crash_mid_record", "fault.power_loss", "fault.bit_flip", "fault.lost_sector", "fault.repeated_sector", "fault.stale_sector", "fault.torn_record", "fault.lost_bytes", "fault.repeated_bytes", "fault.foreign_bytes",
            "read.undamaged", "read.damaged_accepted", "read.damaged_refused", "read.overflow_refused",
        ]
    }

    fn time(&self) -> (&'static str, &'static str) {
        ("records and lines read back", "reads")
    }

    fn generate(&self, _index: u64, rng: &mut Rng, nodes: &[Node]) -> Plan {
        let mut plan = vec![];
        // swarm: few radices, few types, few fault kinds per scenario
        let radices: Vec<u64> = (0..rng.range(1, 3)).map(|_| {
            let any = rng.range(2, 36);
            *rng.pick(&[10, 10, 16, 16, 2, 8, 36, any])
        }).collect();
        let types: Vec<usize> = (0..rng.range(1, 2)).map(|_| rng.below(8) as usize).collect();
        let faults: Vec<u64> = (0..rng.range(1, 3)).map(|_| rng.below(10)).collect();
        let calm = rng.chance(15);
        for generation in 0..rng.range(1, 2) {
            if generation > 0 {
                plan.push("rewind".into());
            }
            for _ in 0..rng.range(1, 6) {
                let ty = *rng.pick(&types);
                let n = node::bytes(ty);
                let radix = *rng.pick(&radices);
                let mut v = if rng.chance(30) {
                    // near the limits of some type, where one digit more or less matters
                    let other = rng.below(8) as usize;
                    let limit = if rng.chance(50) { crate::big::max(node::bits(other), node::signed(other)) } else { crate::big::min(node::bits(other), node::signed(other)) };
                    let d = Big::from_i128(rng.below(3) as i128 - 1);
                    limit.add(&d).wrap(8 * n, false).to_le(n)
                } else if rng.chance(25) {
                    structured(rng, n, radix as u32, node::signed(ty))
                } else {
                    value(rng, n)
                };
                if rng.chance(15) {
                    let k = rng.below(n as u64) as usize;
                    v[k..].fill(0);
                }
                let style = rng.below(4);
                let (chunk, every) = if rng.chance(30) { (rng.range(1, 9), rng.range(0, 4)) } else { (DISK as u64, 0) };
                let writer = rng.pick(nodes).name.clone();
                if !calm && rng.chance(8) {
                    plan.push(format!("crash {writer} {} {radix} {style} {} {}", node::TYPES[ty], hex(&v), rng.below(90)));
                } else {
                    plan.push(format!("rec {writer} {} {radix} {style} {} {chunk} {every}", node::TYPES[ty], hex(&v)));
                }
                if rng.chance(50) {
                    plan.push("sync".into());
                }
            }
            if !calm {
                for _ in 0..rng.below(4) {
                    let off = rng.below(600);
                    plan.push(match *rng.pick(&faults) {
                        0 => format!("powerloss {}", rng.below(2)),
                        1 => format!("flip {off} {}", rng.below(8)),
                        2 => format!("lose {}", off / 32),
                        3 => format!("repeat {} {}", off / 32, rng.below(20)),
                        4 => format!("stale {}", off / 32),
                        5 => format!("tear {off}"),
                        6 => format!("drop {off} {}", rng.range(1, 6)),
                        7 => format!("dup {off} {}", rng.range(1, 40)),
                        _ => format!("put {} {} {}", rng.pick(&["over", "head", "tail", "tail"]), if rng.chance(50) { rng.below(6) } else { off }, blob(&foreign(rng))),
                    });
                }
            }
            for _ in 0..rng.range(1, 3) {
                plan.push(format!("read {} {} {}", rng.pick(nodes).name, rng.below(3), rng.below(1 << 20)));
            }
        }
        plan
    }

    fn run(&self, plan: &Plan, cx: &mut Cx) -> Result<(), Violation> {
        let mut disk = Disk::new();
        let mut records: Vec<Record> = vec![];
        let mut damage = 0u64;
        for (i, line) in plan.iter().enumerate() {
            cx.at_line(i);
            let t: Vec<&str> = line.split_whitespace().collect();
            let size = disk.view.len();
            let hit = |cx: &mut Cx, damage: &mut u64, k: u64, name: &str| {
                *damage |= 1 << k;
                cx.count(name);
            };
            match t.first() {
                Some(&cmd @ ("rec" | "crash")) => {
                    let Some(writer) = t.get(1).and_then(|n| cx.nodes.iter().position(|x| x.name == *n)) else { continue };
                    let Some(ty) = node::TYPES.iter().position(|x| Some(x) == t.get(2)) else { continue };
                    let radix = int(t.get(3)).clamp(2, 36) as u32;
                    let style = int(t.get(4)) as u32;
                    let v = unhex(t.get(5).unwrap_or(&"0x0"), node::bytes(ty));
                    let at = disk.head;
                    if cmd == "crash" {
                        disk.left = int(t.get(6));
                        disk.chunk = DISK;
                        disk.every = 0;
                    } else {
                        disk.left = DISK;
                        disk.chunk = t.get(6).map_or(DISK, |x| num(x) as usize);
                        disk.every = int(t.get(7)) as u64;
                    }
                    let done = write_record(&cx.nodes[writer], ty, radix, style, &v, &mut disk);
                    cx.log.word(done.tag());
                    match done {
                        Done::Panicked => {
                            return violation("write-panicked", format!("{line}: writing panicked"));
                        },
                        Done::Complete(read_radix) => {
                            let end = disk.head;
                            disk.put(b"\n");
                            if disk.head > end {
                                records.push(Record {
                                    at,
                                    bytes: disk.view[at..end + 1].to_vec(),
                                    text: at..end,
                                    value: Big::from_le(&v, node::signed(ty)),
                                    ty,
                                    radix: read_radix,
                                    by: writer,
                                });
                            }
                        },
                        Done::Cut => {
                            hit(cx, &mut damage, 0, "fault.crash_mid_record");
                            // what follows the crash starts on a new line or not
                            if style % 2 == 0 {
                                disk.put(b"\n");
                            }
                        },
                    }
                },
                Some(&"sync") => disk.media = disk.view.clone(),
                Some(&"rewind") => {
                    disk.old = disk.view.clone();
                    disk.head = 0;
                    records.clear();
                },
                Some(&"powerloss") => {
                    // unsynced sectors survive or not, each on its own
                    let pick = int(t.get(1)) as u64;
                    let mut k = 0;
                    while k < size {
                        let end = (k + SECTOR).min(size);
                        if mix(pick ^ k as u64) & 1 == 0 {
                            for j in k..end {
                                disk.view[j] = disk.media.get(j).copied().unwrap_or(0);
                            }
                        }
                        k += SECTOR;
                    }
                    disk.media = disk.view.clone();
                    hit(cx, &mut damage, 1, "fault.power_loss");
                },
                Some(&"flip") if size > 0 => {
                    disk.view[int(t.get(1)) % size] ^= 1 << (int(t.get(2)) % 8);
                    hit(cx, &mut damage, 2, "fault.bit_flip");
                },
                Some(&"lose") if size > 0 => {
                    let k = (int(t.get(1)) * SECTOR) % size / SECTOR * SECTOR;
                    let end = (k + SECTOR).min(size);
                    disk.view[k..end].fill(0);
                    hit(cx, &mut damage, 3, "fault.lost_sector");
                },
                Some(&"repeat") if size > 0 => {
                    let from = (int(t.get(1)) * SECTOR) % size / SECTOR * SECTOR;
                    let to = (int(t.get(2)) * SECTOR) % size / SECTOR * SECTOR;
                    let n = SECTOR.min(size - from).min(size - to);
                    disk.view.copy_within(from..from + n, to);
                    hit(cx, &mut damage, 4, "fault.repeated_sector");
                },
                Some(&"stale") if size > 0 => {
                    let k = (int(t.get(1)) * SECTOR) % size / SECTOR * SECTOR;
                    for j in k..(k + SECTOR).min(size) {
                        disk.view[j] = disk.old.get(j).copied().unwrap_or(0);
                    }
                    hit(cx, &mut damage, 5, "fault.stale_sector");
                },
                Some(&"tear") if size > 0 => {
                    // the sector's tail is what was there before
                    let from = int(t.get(1)) % size;
                    let end = ((from / SECTOR + 1) * SECTOR).min(size);
                    for j in from..end {
                        disk.view[j] = disk.old.get(j).copied().unwrap_or(b'0');
                    }
                    hit(cx, &mut damage, 6, "fault.torn_record");
                },
                Some(&"drop") if size > 0 => {
                    let from = int(t.get(1)) % size;
                    let n = int(t.get(2)).min(size - from);
                    disk.view.drain(from..from + n);
                    disk.head = disk.head.min(disk.view.len());
                    hit(cx, &mut damage, 7, "fault.lost_bytes");
                },
                Some(&"dup") if size > 0 => {
                    let from = int(t.get(1)) % size;
                    let n = int(t.get(2)).min(size - from).min(DISK - size.min(DISK));
                    let again = disk.view[from..from + n].to_vec();
                    for (j, x) in again.into_iter().enumerate() {
                        disk.view.insert(from + n + j, x);
                    }
                    hit(cx, &mut damage, 8, "fault.repeated_bytes");
                },
                Some(&"put") if size > 0 => {
                    // bytes meant for somewhere else
                    let bytes = unblob(t.get(3).unwrap_or(&"t:"));
                    let k = int(t.get(2));
                    let lines = disk.view.iter().filter(|b| **b == b'\n').count().max(1);
                    let mut start = 0;
                    for _ in 0..k % lines {
                        start += disk.view[start..].iter().position(|b| *b == b'\n').map_or(0, |x| x + 1);
                    }
                    match t.get(1) {
                        Some(&"over") => {
                            for (j, x) in bytes.iter().enumerate() {
                                disk.view[(k + j) % size] = *x;
                            }
                        },
                        Some(&"head") => {
                            disk.view.splice(start..start, bytes);
                        },
                        _ => {
                            let end = disk.view[start..].iter().position(|b| *b == b'\n').map_or(size, |x| start + x);
                            disk.view.splice(end..end, bytes);
                        },
                    }
                    disk.view.truncate(DISK);
                    hit(cx, &mut damage, 9, "fault.foreign_bytes");
                },
                Some(&"read") => {
                    let Some(reader) = t.get(1).and_then(|n| cx.node(n)) else { continue };
                    self.read_all(reader, int(t.get(2)) as u32, int(t.get(3)) as u64, &disk, &records, damage, cx)?;
                },
                _ => {},
            }
        }
        Ok(())
    }
}

#[derive(Clone, Copy)]
enum Done {
    /// In this radix.
    Complete(u32),
    Cut,
    Panicked,
}

impl Done {
    fn tag(self) -> u64 {
        match self {
            Done::Complete(r) => r as u64,
            Done::Cut => 100,
            Done::Panicked => 101,
        }
    }
}

/// Write one numeral: through a formatting trait where there is one for the
/// radix, otherwise by rendering digits and handing them over.
fn write_record(node: &Node, ty: usize, radix: u32, style: u32, v: &[u8], disk: &mut Disk) -> Done {
    let negative = node::signed(ty) && v[v.len() - 1] & 0x80 != 0;
    let t = match radix {
        10 => Some(style % 2),
        // negative numbers print as bit patterns here, which is another number
        16 if !negative => Some(2 + style % 2),
        2 if !negative => Some(4),
        8 if !negative => Some(5),
        _ => None,
    };
    let ctx = disk as *mut Disk as *mut u8;
    if let Some(t) = t.filter(|_| style < 3) {
        let variant = if style == 2 && radix == 10 { 2 } else { 0 };
        let s = unsafe { (node.api.fmt_io)(ty as u32, t, variant, 0, v.as_ptr(), v.as_ptr(), disk_write, ctx) };
        return match s {
            node::RETURNED => Done::Complete(radix),
            node::FAILED => Done::Cut,
            _ => Done::Panicked,
        };
    }
    let mut buf = vec![b'?'; node::bits(ty) + 1 + style as usize];
    let (mut at, mut n) = (-1i64, 0u64);
    let s = unsafe { (node.api.render)(ty as u32, v.as_ptr(), radix, buf.as_mut_ptr(), buf.len() as u64, &mut at, &mut n) };
    if s != node::RETURNED || at < 0 {
        return Done::Panicked;
    }
    let digits = &buf[at as usize..at as usize + n as usize];
    let k = digits.len().min(disk.left);
    disk.put(&digits[..k]);
    if k < digits.len() {
        return Done::Cut;
    }
    Done::Complete(radix)
}

impl C02 {
    #[allow(clippy::too_many_arguments)]
    fn read_all(&self, reader: &Node, how: u32, salt: u64, disk: &Disk, records: &[Record], damage: u64, cx: &mut Cx) -> Result<(), Violation> {
        // Complete records first, each where it was put.
        for r in records {
            let intact = disk.view.get(r.at..r.at + r.bytes.len()) == Some(&r.bytes[..]);
            if !intact {
                continue;
            }
            let text = std::str::from_utf8(&disk.view[r.text.clone()]).unwrap_or("?");
            let got = self.read(reader, r.ty, r.radix, how, text, damage, cx)?;
            cx.count("read.undamaged");
            if got.as_ref().map_or(true, |g| g.cmp(&r.value) != Ordering::Equal) {
                return violation(
                    "undamaged-record-lost",
                    format!("{} written by {} in radix {} as {text:?} was read by {} as {}", r.value.hex(), cx.nodes[r.by].name, r.radix, reader.name, got.map_or("nothing".into(), |g| g.hex())),
                );
            }
        }
        // Then line by line, whatever the lines are now, as records of the
        // same and of other types and radices.
        for (k, line) in disk.view.split(|b| *b == b'\n').enumerate() {
            let text = String::from_utf8_lossy(line);
            let z = mix(salt ^ k as u64);
            let (ty, radix) = match records.get(k % records.len().max(1)) {
                Some(r) if z % 4 != 0 => (if z & 0x100 != 0 { (z >> 16) as usize % 8 } else { r.ty }, r.radix),
                _ => ((z >> 16) as usize % 8, 2 + (z >> 24) as u32 % 35),
            };
            let got = self.read(reader, ty, radix, how, &text, damage, cx)?;
            cx.count(match (&got, spelled(&text, radix)) {
                (Some(_), _) => "read.damaged_accepted",
                (None, Some(_)) => "read.overflow_refused",
                _ => "read.damaged_refused",
            });
        }
        Ok(())
    }

    #[allow(clippy::too_many_arguments)]
    fn read(&self, reader: &Node, ty: usize, radix: u32, how: u32, text: &str, damage: u64, cx: &mut Cx) -> Result<Option<Big>, Violation> {
        let mut out = Out::new();
        let how = if radix == 10 && how < 2 { how } else { radix };
        let status = reader.parse(ty, how, text.as_bytes(), &mut out);
        cx.count("reads");
        cx.evals += 1;
        let (bits, signed) = (node::bits(ty), node::signed(ty));
        let what = || format!("{text:?} read as {} in radix {radix} by {}", node::TYPES[ty], reader.name);
        if status != node::RETURNED {
            return violation("read-panicked", what());
        }
        let got = if out.some != 0 { Some(Big::from_le(&out.v0[..node::bytes(ty)], signed)) } else { None };
        cx.log.word(out.some as u64);
        cx.log.bytes(&out.v0[..node::bytes(ty)]);
        let number = spelled(text, radix);
        match (&got, &number) {
            (Some(g), Some(n)) if g.cmp(n) == Ordering::Equal => {},
            (Some(g), Some(n)) => return violation("read-another-number", format!("{}: {} instead of {}", what(), g.hex(), n.hex())),
            (Some(g), None) => return violation("read-from-nonsense", format!("{}: {}", what(), g.hex())),
            (None, Some(n)) => {
                // `-0` spells no unsigned numeral
                if n.fits(bits, signed) && !(text.starts_with('-') && !signed) {
                    return violation("refused-number", format!("{}: refused {}", what(), n.hex()));
                }
            },
            (None, None) => {},
        }
        let len = text.len() as u64;
        cx.reach(mix(hash_str(&reader.name) ^ (ty as u64) << 4 ^ (radix as u64) << 8 ^ damage << 16 ^ (got.is_some() as u64) << 32 ^ len << 36));
        Ok(got)
    }
}
