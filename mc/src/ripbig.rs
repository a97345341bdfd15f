//! ripdlt on files of more than 4 GiB and of more than 65536 messages.
use crate::engine::*;
use crate::huge::{G2, G4};
use crate::proc::{self, *};
use crate::rip::*;
use crate::streams::*;

/// `n` messages, every third without extended header, of alternating ECUs; each `len` bytes long (without storage header)
fn row(n: u64, len: u16, secs: &dyn Fn(u64) -> u32, ts: &dyn Fn(u64) -> u32) -> (Vec<(u64, Vec<u8>)>, Vec<M>) {
    let (mut parts, mut m) = (vec![], vec![]);
    let size = len as usize + 16;
    for k in 0..n {
        let ecu = if k % 2 == 0 { b"ECU1" } else { b"ECU2" };
        let with = k % 3 != 0;
        let mut b = head(len, if with { 0x31 } else { 0x30 }, secs(k), ecu);
        b.extend_from_slice(&ts(k).to_be_bytes());
        if with { b.extend(ext(0x41)) }
        let off = k as usize * size;
        m.push(M { off, len: size, ecu: *ecu, secs: secs(k), std_ecu: None, ts: Some(ts(k)), msin: with.then_some(0x41), payload: Some((off + b.len(), off + size)) });
        parts.push((off as u64, b));
    }
    (parts, m)
}
pub fn judge(s: &mut Server, acc: &str, cmd: &str, procs: u32, e: &[String], ctx: &mut Ctx) -> Result<(), String> {
    let mut r = Run::new(&["ripdlt", acc, cmd, FILE]);
    r.cpu = 50;
    r.procs = procs;
    let d = s.run(&r);
    ctx.exec(); ctx.alive();
    if !d.ok() { return Err(format!("{acc} {cmd}: {}", d.how())) }
    let got: Vec<String> = lines(&d.out).into_iter().filter(|l| !l.starts_with("available parallelism")).collect();
    if !same(got.clone(), e.to_vec()) { 
        let (mut g, mut w) = (got, e.to_vec());
        g.sort(); w.sort();
        let cut = |v: Vec<String>| -> String { let n = v.len(); let s = format!("{:?}", v.into_iter().take(6).collect::<Vec<_>>()); format!("{n} lines {}", s.chars().take(600).collect::<String>()) };
        let (a, b) = (g.iter().filter(|l| w.binary_search(l).is_err()).cloned().collect(), w.iter().filter(|l| g.binary_search(l).is_err()).cloned().collect());
        return Err(format!("{acc} {cmd}: {} lines, expected {}; not expected: {}; missing: {}", g.len(), w.len(), cut(a), cut(b)))
     }
    Ok(())
}
type Times = fn(u64) -> u32;
const RISING: Times = |k| k as u32 * 3;
const FALLING: Times = |k| 3_000_000 - k as u32 * 3;
const SAW: Times = |k| if k % 4 < 2 { 5 } else { 100_000 };
const LONG: Times = |k| (k % 400) as u32 * 50_000;
const TIMES: [(&str, Times); 4] = [("rising", RISING), ("falling", FALLING), ("alternating", SAW), ("long runs", LONG)];

/// many small messages: numbers that do not fit 16 bits
pub fn many(t: Tier, cmds: &'static [&'static str]) -> Phase {
    let sizes = t.pick(vec![65_535u64, 65_537, 140_000], vec![32_767, 32_769, 65_535, 65_536, 65_537, 131_073, 140_000, 300_000]);
    let n = sizes.len() as u64;
    let s2 = sizes.clone();
    Phase {
        name: "many messages".into(), bounds: format!("{sizes:?} messages of 34 to 40 bytes with rising, alternating times and long runs, and 20000 with falling ones, both access methods, {cmds:?}"),
        total: n * 4, chunk: 1, cpu_limit: 60,
        run: Box::new(move |i, ctx| {
            let f = TIMES[(i % 4) as usize].1;
            // merging compares every period with every other one: fewer of them where none can be merged
            let count = if i % 4 == 1 { sizes[(i / 4) as usize].min(20_000) } else { sizes[(i / 4) as usize] };
            let (parts, m) = row(count, 18 + (i % 4) as u16 * 2, &f, &f);
            let mut b = vec![b'p'; m.last().unwrap().off + m[0].len];
            for (o, p) in &parts { b[*o as usize..*o as usize + p.len()].copy_from_slice(p) }
            ctx.state(mix(i) ^ 0x123); ctx.trans(m.len() as u64);
            proc::with("ripdlt", |s| {
                s.file(&b);
                for cmd in cmds { for acc in ["mmap", "read"] {
                    let e = report(cmd, &b, &m);
                    ctx.outcome(hash_bytes(e.join("\n").as_bytes()));
                    judge(s, acc, cmd, 0, &e, ctx)?
                } }
                Ok(())
            })
        }),
        describe: Box::new(move |i| format!("{} messages, {} times", s2[(i / 4) as usize], TIMES[(i % 4) as usize].0)),
    }
}
/// maximum-size messages, together more than 4 GiB (the file takes memory only where the messages start)
pub fn dense(t: Tier, cmds: &'static [&'static str]) -> Phase {
    Phase {
        name: "more than 4 GiB of messages".into(), bounds: format!("65700 messages of 65551 bytes (4.3e9 bytes) with {} kinds of times, {cmds:?}", t.pick(1, 4)),
        total: t.pick(1, 4), chunk: 4, cpu_limit: 120,
        run: Box::new(move |i, ctx| {
            let f = TIMES[[3, 0, 1, 2][i as usize]].1;
            let (parts, m) = row(65_700, 65_535, &f, &f);
            ctx.state(mix(i) ^ 0x321); ctx.trans(m.len() as u64);
            proc::with("ripdlt", |s| {
                s.sparse(65_700 * 65_551, &parts);
                let r = (|| {
                    for cmd in cmds {
                        let e = if *cmd == "par_count" { vec!["65700 messages".to_string()] } else { report(cmd, &[], &m) };
                        ctx.outcome(hash_bytes(e.join("\n").as_bytes()));
                        judge(s, "mmap", cmd, if cmd.starts_with("par") { 5 } else { 0 }, &e, ctx)?
                    }
                    Ok(())
                })();
                s.file(b"");
                r
            })
        }),
        describe: Box::new(move |i| format!("{} times", TIMES[[3, 0, 1, 2][i as usize]].0)),
    }
}
/// matching messages around 2 GiB and 4 GiB
pub fn far(t: Tier, cmds: &'static [&'static str]) -> Phase {
    let n = t.pick(2, 6);
    Phase {
        name: "beyond 4 GiB".into(), bounds: format!("a file of 4 GiB + 150 MB with matching messages around 2 GiB and 4 GiB, each with a line end behind it, shifted so that the borders lie in front of, in and behind them ({n} shifts), {cmds:?}"),
        total: n, chunk: n, cpu_limit: 300,
        run: Box::new(move |i, ctx| {
            let d = [30u64, 0, 10, 45, 51, 200][i as usize];
            let m = p2(b"say Hello World"); // 35 bytes
            let l = m.len() as u64;
            let (g2, g4) = (G2 as u64, G4 as u64);
            let at = [3, g2 - d, g2 - d + l, g4 - d, g4 - d + l, g4 + 5_032_704 - l, g4 + 5_032_704, g4 + 140_000_000];
            // a line end behind each: a greedy pattern looks for its end up to there
            let parts: Vec<(u64, Vec<u8>)> = at.iter().map(|o| (*o, cat(&[&m, b"\n"]))).collect();
            let mut h = std::collections::BTreeMap::new();
            for o in at { *h.entry(o / 100_000_000).or_insert(0) += 1 }
            ctx.state(mix(i) ^ 0x213); ctx.trans(at.len() as u64); ctx.outcome(i);
            proc::with("ripdlt", |s| {
                s.sparse(g4 + 150_000_000, &parts);
                let r = (|| {
                    for cmd in cmds {
                        let e = match *cmd {
                            "histogram_hello_world" => h.iter().map(|(k, v)| format!("Offset {}M-{}M: {v}", k * 100, (k + 1) * 100)).chain(["Distribution of 'Hello World' matches:".to_string()]).collect(),
                            "count_hello_world_raw" => vec![format!("{} raw hello world matches", at.len())],
                            "count" | "par_count" => vec![format!("{} messages", at.len())],
                            _ => vec![format!("{} hello world messages", at.len())],
                        };
                        judge(s, "mmap", cmd, if cmd.starts_with("par") { 4 } else { 0 }, &e, ctx)?;
                    }
                    Ok(())
                })();
                s.file(b"");
                r
            })
        }),
        describe: Box::new(move |i| format!("shift number {i}")),
    }
}

pub const HOW: [&str; 4] = ["pairs of messages, each pair of another ECU and duration", "first messages of all ECUs, then second ones in the opposite order", "one ECU, each period of another duration and in front of those before", "two messages of each length, one ECU for each hundred"];
pub fn kinds_file(n: u64, how: u64) -> Vec<u8> {
    let id = |k: u64| -> [u8; 4] { let c = |d: u64| 33 + (k / 90u64.pow(d as u32) % 90) as u8; [c(0), c(3), c(1), c(2)] };
    // a period is compared with all others of its ECU, and the messages of all lengths together are no more than 20 MB
    let n = match how { 2 => n.min(3000), 3 => n.min(5000), _ => n };
    let mut b = vec![];
    let mut put = |ecu: &[u8; 4], secs: u64, ts: u64, len: u64, ty: u8| {
        let m = full(0x31, secs as u32, ecu, &cat(&[&(ts as u32).to_be_bytes(), &ext(ty), &vec![b'k'; len as usize]]));
        b.extend(m)
    };
    let ty = |k: u64| (k % 256) as u8;
    match how {
        0 => for k in 1..=n { put(&id(k), 0, 0, k % 50, ty(k)); put(&id(k), k, k * 10_000, 3, 0x41) },
        1 => { for k in 1..=n { put(&id(k), 9, 7, 1, ty(k)) } for k in (1..=n).rev() { put(&id(k), 9 + k, 7 + k * 10_000, 2, 0x41) } }
        2 => { let mut s = 4_000_000_000u64; for k in 1..=n { s -= k + 2; put(b"ECU1", s, 1, k % 20, 0x41); put(b"ECU1", s + k, 1 + k * 10_000, 0, ty(k)) } }
        _ => for k in 1..=n { for _ in 0..2 { put(&id(k / 100), k / 3, k * 5_000, k, ty(k)) } },
    }
    b
}
/// so many different ids, durations and sizes that numbers of 8 or 16 bits do not tell them apart
pub fn kinds(t: Tier, cmds: &'static [&'static str]) -> Phase {
    let sizes = t.pick(vec![2u64, 200, 256, 257, 4097, 65_537], vec![2, 3, 16, 17, 64, 65, 127, 128, 129, 200, 255, 256, 257, 1000, 4096, 4097, 32_769, 65_535, 65_536, 65_537, 100_000]);
    let n = sizes.len() as u64;
    let s2 = sizes.clone();
    Phase {
        name: "many kinds".into(), bounds: format!("{s2:?} different kinds: {HOW:?} (of those in one ECU at most 3000, of lengths at most 5000), both access methods, {cmds:?}"),
        total: n * 4, chunk: 1, cpu_limit: 60,
        run: Box::new(move |i, ctx| {
            let b = kinds_file(sizes[(i / 4) as usize], i % 4);
            let m = read_all(&b);
            ctx.state(mix(i) ^ 0x412); ctx.trans(m.len() as u64);
            proc::with("ripdlt", |s| {
                s.file(&b);
                for cmd in cmds { for acc in ["mmap", "read"] {
                    let e = report(cmd, &b, &m);
                    ctx.outcome(hash_bytes(e.join("\n").as_bytes()));
                    judge(s, acc, cmd, 0, &e, ctx)?
                } }
                Ok(())
            })
        }),
        describe: Box::new(move |i| format!("{} kinds, {}", s2[(i / 4) as usize], HOW[(i % 4) as usize])),
    }
}

/// a file made of some parts
type Sparse = (u64, Vec<(u64, Vec<u8>)>);
/// every command ends with a report on files of many messages, many kinds and many gigabytes
pub fn survive(t: Tier) -> Phase {
    let mut cases: Vec<(String, Box<dyn Fn() -> Sparse>)> = vec![];
    let whole = |b: Vec<u8>| -> Sparse { (b.len() as u64, vec![(0, b)]) };
    for n in t.pick(vec![140_000u64], vec![65_535, 65_537, 140_000, 300_000]) { for (name, f) in TIMES {
        cases.push((format!("{n} small messages, {name} times"), Box::new(move || {
            let (parts, m) = row(if name == "falling" { n.min(20_000) } else { n }, 18, &f, &f);
            (m.last().unwrap().off as u64 + m[0].len as u64, parts)
        })))
    } }
    for n in t.pick(vec![257u64, 65_537], vec![257, 4097, 65_537, 100_000]) { for how in 0..4 {
        cases.push((format!("{n} kinds, {}", HOW[how as usize]), Box::new(move || whole(kinds_file(n, how)))))
    } }
    for (name, f) in TIMES.into_iter().filter(|x| t == Tier::Thorough || x.0 == "long runs") {
        cases.push((format!("65700 messages of 65551 bytes, {name} times"), Box::new(move || { let (parts, _) = row(65_700, 65_535, &f, &f); (65_700 * 65_551, parts) })))
    }
    // every third message is too short for its flags, every third has all fields that it announces
    cases.push(("65700 messages of 65551 bytes of many kinds".into(), Box::new(|| {
        let parts = (0..65_700u64).map(|k| {
            let mut b = head(65_535, k as u8, k as u32 ^ 0x8000_0000, &(k as u32).to_be_bytes());
            b.extend((0..26u64).map(|j| mix(k ^ j << 32) as u8 & 0xf7));
            (k * 65_551, b)
        }).collect();
        (65_700 * 65_551, parts)
    })));
    for d in t.pick(vec![30u64], vec![0, 10, 30, 45, 51, 200]) {
        cases.push((format!("a file of 4 GiB + 150 MB, messages around 2 GiB and 4 GiB, {d} bytes in front of them"), Box::new(move || {
            let m = cat(&[&p2(b"say Hello World"), b"\n"]);
            (G4 as u64 + 150_000_000, [3, G2 as u64 - d, G2 as u64 - d + 36, G4 as u64 - d, G4 as u64 - d + 36, G4 as u64 + 140_000_000].iter().map(|o| (*o, m.clone())).collect())
        })))
    }
    for n in t.pick(vec![5_000_000_000u64, (1 << 31) + 1], vec![5_000_000_000u64, (1 << 31) + 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 1]) {
        cases.push((format!("{n} zero bytes"), Box::new(move || (n, vec![]))))
    }
    // the same fragment over and over: markers, heads that nothing follows, messages that overlap or nest
    let size = t.pick(8usize << 20, 40 << 20);
    for (k, (name, unit)) in crate::reading::long_cases().into_iter().enumerate() {
        cases.push((format!("{name} repeated to {size} bytes{}", ["", ", then a message"][k % 2]), Box::new(move || {
            let mut b: Vec<u8> = unit.iter().copied().cycle().take(size / unit.len() * unit.len()).collect();
            if k % 2 == 1 { b.extend(p2(b"say Hello World")) }
            whole(b)
        })))
    }
    for (k, (name, _)) in crate::part::long_streams(64).into_iter().enumerate() {
        let name = format!("{} to {size} bytes", name.trim_end_matches(" x 64").trim_end_matches(" at 64"));
        cases.push((name, Box::new(move || whole(crate::part::long_streams(size).swap_remove(k).1))))
    }
    let names: Vec<String> = cases.iter().map(|c| c.0.clone()).collect();
    // the large files take memory: no more than three at a time
    let large: Vec<usize> = (0..cases.len()).filter(|k| names[*k].contains("65700") || names[*k].contains("GiB") || names[*k].contains("zero")).collect();
    let mut lanes: Vec<Vec<usize>> = (0..3).map(|l| large.iter().copied().skip(l).step_by(3).collect()).collect();
    lanes.extend((0..cases.len()).filter(|k| !large.contains(k)).map(|k| vec![k]));
    let n2 = names.clone();
    let l2 = lanes.clone();
    Phase {
        name: "large files".into(), bounds: format!("{names:?} x all commands on one and 5 processors, files of up to 2 GB by both access methods"),
        total: lanes.len() as u64, chunk: 1, cpu_limit: 900,
        run: Box::new(move |i, ctx| lanes[i as usize].iter().try_for_each(|k| {
            let i = *k as u64;
            let (size, parts) = cases[*k].1();
            ctx.state(mix(i) ^ 0x515); ctx.trans(parts.len() as u64);
            proc::with("ripdlt", |s| {
                s.sparse(size, &parts);
                let r = (|| {
                    for cmd in all_cmds() { for acc in ["mmap", "read"] {
                        if acc == "read" && size > 2_000_000_000 { continue }
                        let mut r = Run::new(&["ripdlt", acc, cmd, FILE]);
                        r.cpu = 100;
                        r.procs = 5;
                        let d = s.run(&r);
                        ctx.exec(); ctx.alive(); ctx.outcome(hash_bytes(&d.out));
                        if !d.ok() { return Err(format!("{}: {acc} {cmd}: {}", names[*k], d.how())) }
                        if lines(&d.out).is_empty() { return Err(format!("{}: {acc} {cmd}: no report", names[*k])) }
                    } }
                    Ok(())
                })();
                s.file(b"");
                r
            })
        })),
        describe: Box::new(move |i| format!("{:?}", l2[i as usize].iter().map(|k| &n2[*k]).collect::<Vec<_>>())),
    }
}
/// the words at every position of a payload of the greatest length
pub fn deep(t: Tier, cmds: &'static [&'static str]) -> Phase {
    const LEN: usize = 65_531;
    let step = t.pick(3, 1);
    let last = LEN - 11;
    let files = last.div_ceil(64);
    Phase {
        name: "deep in a payload".into(), bounds: format!("files of 64 messages of the greatest length with 'Hello World' at consecutive positions and one without, so that every {step} of the {last} positions behind the first byte is covered, both access methods, {cmds:?}"),
        total: files.div_ceil(step) as u64, chunk: 4, cpu_limit: 60,
        run: Box::new(move |i, ctx| {
            // the last file is always among them
            let first = last.saturating_sub(i as usize * step * 64 + 63).max(1);
            let mut b = vec![];
            for at in first..first + 64 {
                let mut p = vec![b'.'; LEN];
                // a greedy pattern looks for its end up to the next line
                p[0] = b'\n';
                if at <= last && at != first + 20 { p[at..at + 11].copy_from_slice(b"Hello World") }
                b.extend(p2(&p))
            }
            let m = read_all(&b);
            ctx.state(hash_bytes(&b)); ctx.trans(64); ctx.outcome(i);
            proc::with("ripdlt", |s| {
                s.file(&b);
                for cmd in cmds { 
                    let e = report(cmd, &b, &m);
                    for acc in ["mmap", "read"] { judge(s, acc, cmd, 0, &e, ctx)? }
                }
                Ok(())
            })
        }),
        describe: Box::new(move |i| format!("positions from {}", last.saturating_sub(i as usize * step * 64 + 63).max(1))),
    }
}
