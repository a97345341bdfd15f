//! C19–C23: the ripdlt program, run for real, against statistics computed from the reference reading.
use crate::engine::*;
use crate::fields::{layout, ref_info};
use crate::proc::{self, *};
use crate::refmodel::*;
use crate::streams::*;
use rapiddlt::dlt_v1::DltStorageEntry;
use std::collections::BTreeMap;
use std::rc::Rc;

#[derive(Clone)]
pub struct M { pub off: usize, pub len: usize, pub ecu: [u8; 4], pub secs: u32, pub std_ecu: Option<[u8; 4]>, pub ts: Option<u32>, pub msin: Option<u8>, pub payload: Option<(usize, usize)> }
pub fn read_all(b: &[u8]) -> Vec<M> {
    messages::<DltStorageEntry>(b).into_iter().map(|(off, len)| {
        let m = &b[off..off + len];
        let t = &m[20..];
        let l = layout(m[16]);
        let fit = |o: Option<usize>, n: usize| o.filter(|o| o + n <= t.len()).map(|o| &t[o..o + n]);
        M {
            off, len, ecu: m[12..16].try_into().unwrap(), secs: u32::from_le_bytes(m[4..8].try_into().unwrap()),
            std_ecu: fit(l.ecu, 4).map(|x| x.try_into().unwrap()),
            ts: fit(l.tmsp, 4).map(|x| u32::from_be_bytes(x.try_into().unwrap())),
            msin: fit(l.ext, 10).map(|x| x[0]),
            payload: if l.end <= t.len() { Some((off + 20 + l.end, off + len)) } else { None },
        }
    }).collect()
}
type Hist = BTreeMap<u64, u64>;
fn hist(it: impl Iterator<Item = u64>) -> Hist { let mut h = Hist::new(); for k in it { *h.entry(k).or_default() += 1 } h }
/// (first, last) of every maximal run
fn runs<T: Clone>(v: &[T], joined: impl Fn(&T, &T) -> bool) -> Vec<(T, T)> {
    let mut out: Vec<(T, T)> = vec![];
    for x in v { match out.last_mut() { Some(r) if joined(&r.1, x) => r.1 = x.clone(), _ => out.push((x.clone(), x.clone())) } }
    out
}
/// closed intervals that share a point become one
fn unite(mut v: Vec<(u32, u32)>) -> Vec<(u32, u32)> {
    v.sort();
    let mut out: Vec<(u32, u32)> = vec![];
    for x in v { match out.last_mut() { Some(l) if x.0 <= l.1 => l.1 = l.1.max(x.1), _ => out.push(x) } }
    out
}
type PerEcu = BTreeMap<[u8; 4], (Hist, u64)>;
fn by_ecu(m: &[M]) -> BTreeMap<[u8; 4], Vec<M>> { let mut g: BTreeMap<[u8; 4], Vec<M>> = BTreeMap::new(); for x in m { g.entry(x.ecu).or_default().push(x.clone()) } g }
fn split_timestamp(m: &[M]) -> PerEcu {
    by_ecu(m).into_iter().map(|(e, v)| {
        let r = runs(&v, |a, b| b.secs >= a.secs).into_iter().map(|(a, b)| (a.secs, b.secs)).collect();
        (e, (hist(unite(r).into_iter().map(|(a, b)| (b - a) as u64)), v.len() as u64))
    }).collect()
}
fn split_lifecycles(m: &[M]) -> PerEcu {
    let t: Vec<M> = m.iter().filter(|m| m.ts.is_some()).cloned().collect();
    by_ecu(&t).into_iter().map(|(e, v)| (e, (hist(runs(&v, |a, b| b.ts >= a.ts).into_iter().map(|(a, b)| ((b.ts.unwrap() - a.ts.unwrap()) / 10000) as u64)), v.len() as u64))).collect()
}
fn per_ecu_lines(p: &PerEcu) -> Vec<String> { p.iter().map(|(e, (h, n))| format!("{} #lifecycles: ({:?}, {n})", String::from_utf8_lossy(e), h)).collect() }
fn secs_lines(h: &Hist) -> Vec<String> { h.iter().map(|(k, v)| format!("{k}-{} secs: {v}", k + 1)).collect() }
fn histogram_timestamp(m: &[M]) -> Hist { hist(runs(m, |a, b| b.secs >= a.secs).into_iter().map(|(a, b)| (b.secs - a.secs) as u64)) }
fn lifecycles(m: &[M]) -> u64 {
    let t: Vec<u32> = m.iter().filter_map(|m| m.ts).collect();
    runs(&t, |a, b| b >= a).into_iter().filter(|(a, b)| b - a >= 18_000_000).count() as u64
}
fn occurrences(b: &[u8], p: &[u8]) -> u64 {
    let (mut n, mut i) = (0, 0);
    while i + p.len() <= b.len() { if &b[i..i + p.len()] == p { n += 1; i += p.len() } else { i += 1 } }
    n
}
const HW: &[u8] = b"Hello World";
fn payload_hits(b: &[u8], m: &[M]) -> u64 { m.iter().filter(|m| m.payload.is_some_and(|(s, e)| occurrences(&b[s..e], HW) > 0)).count() as u64 }
thread_local! { static RE: regex::bytes::Regex = regex::bytes::Regex::new("H.* World").unwrap(); }
fn grep_hits(b: &[u8], m: &[M]) -> Vec<usize> { RE.with(|re| m.iter().filter(|m| re.is_match(&b[m.off + 4..m.off + m.len])).map(|m| m.off).collect()) }

const H_LC: &str = "Distribution of lifecycle durations:";
const H_TS: &str = "Durations of periods where DLT storage header timestamps are continuous:";

/// the report of a sequential command, as lines
pub fn report(cmd: &str, b: &[u8], m: &[M]) -> Vec<String> {
    let sized = |title: &str, unit: &str, total: &str, h: Hist| -> Vec<String> {
        let mut v = vec![format!("{title}:")];
        v.extend(h.iter().map(|(k, n)| format!("{k}b: {n}, overall: {} kB", k * n / 1024)));
        v.push(format!("{unit} in total: {} kB{total}", h.iter().map(|(k, n)| k * n).sum::<u64>() / 1024));
        v
    };
    let titled = |t: &str, mut l: Vec<String>| { l.insert(0, t.to_string()); l };
    match cmd {
        "count" => vec![format!("{} messages", m.len())],
        "histogram_payload_size" => sized("Distribution of payload length", "Payload", "", hist(m.iter().map(|m| m.payload.map_or(0, |(s, e)| (e - s) as u64)))),
        "histogram_message_size" => sized("Distribution of DLT message length", "DLT messages", "", hist(m.iter().map(|m| m.len as u64))),
        "histogram_message_type" => {
            let mut h: BTreeMap<String, u64> = BTreeMap::new();
            for x in m.iter().filter_map(|m| m.msin) { *h.entry(format!("{:?}", (x & 1 == 1, ref_info(x)))).or_default() += 1 }
            titled("(verbose, message type): # dlt messages", h.iter().map(|(k, v)| format!("{k}: {v}")).collect())
        }
        "histogram_lifecycles" => {
            let t: Vec<M> = m.iter().filter(|m| m.ts.is_some()).cloned().collect();
            titled(H_LC, secs_lines(&hist(runs(&t, |a, b| a.std_ecu == b.std_ecu && b.ts >= a.ts).into_iter().map(|(a, b)| ((b.ts.unwrap() - a.ts.unwrap()) / 10000) as u64))))
        }
        "split_lifecycles" => titled(H_LC, per_ecu_lines(&split_lifecycles(m))),
        "split_timestamp" => titled(H_TS, per_ecu_lines(&split_timestamp(m))),
        "histogram_timestamp" => titled(H_TS, secs_lines(&histogram_timestamp(m))),
        "iter" | "itertools" => vec![format!("{} lifecycles >= 1800s", lifecycles(m))],
        "count_hello_world" => vec![format!("{} hello world messages", payload_hits(b, m))],
        "count_hello_world_raw" => vec![format!("{} raw hello world matches", occurrences(b, HW))],
        "count_hello_world_grepit" => vec![format!("{} hello world messages", grep_hits(b, m).len())],
        "histogram_hello_world" => titled("Distribution of 'Hello World' matches:", hist(grep_hits(b, m).into_iter().map(|o| o as u64 / 100_000_000)).iter().map(|(k, v)| format!("Offset {}M-{}M: {v}", k * 100, (k + 1) * 100)).collect()),
        _ => unreachable!("{cmd}"),
    }
}
/// the report of a parallel command for given partitions
pub fn par_report(cmd: &str, slices: &[&[u8]], num: u32) -> Vec<String> {
    let parts: Vec<(Vec<M>, &[u8])> = slices.iter().map(|s| (read_all(s), *s)).collect();
    let sum = |f: &dyn Fn(&[u8], &[M]) -> u64| parts.iter().map(|(m, b)| f(b, m)).sum::<u64>();
    let head = format!("available parallelism = {num}, slices = {}", slices.len());
    let mut v = match cmd {
        "par_count" => vec![format!("{} messages", sum(&|_, m| m.len() as u64))],
        "par_count_hello_world" => vec![format!("{} hello world messages", sum(&payload_hits))],
        "par_count_hello_world_raw" => vec![format!("{} hello world messages", sum(&|b, _| occurrences(b, HW)))],
        "par_count_hello_world_grepit" => vec![format!("{} hello world messages", sum(&|b, m| grep_hits(b, m).len() as u64))],
        "par_iter" => parts.iter().map(|(m, _)| format!("{} lifecycles >= 1800s", lifecycles(m))).collect(),
        "par_histogram_timestamp" => {
            let mut h = Hist::new();
            for (m, _) in &parts { for (k, v) in histogram_timestamp(m) { *h.entry(k).or_default() += v } }
            let mut l = secs_lines(&h);
            l.insert(0, H_TS.into());
            l
        }
        "par_split_timestamp" => {
            let mut t = PerEcu::new();
            for (m, _) in &parts { for (e, (h, n)) in split_timestamp(m) { let x = t.entry(e).or_default(); for (k, v) in h { *x.0.entry(k).or_default() += v } x.1 += n } }
            let mut l = per_ecu_lines(&t);
            l.insert(0, H_TS.into());
            l
        }
        _ => unreachable!("{cmd}"),
    };
    v.push(head);
    v
}
pub const SEQ: [&str; 14] = ["count", "histogram_payload_size", "histogram_message_size", "histogram_message_type", "histogram_lifecycles", "split_lifecycles", "split_timestamp", "histogram_timestamp", "iter", "itertools", "count_hello_world", "count_hello_world_raw", "count_hello_world_grepit", "histogram_hello_world"];
pub const PAR: [&str; 7] = ["par_count", "par_count_hello_world", "par_count_hello_world_raw", "par_count_hello_world_grepit", "par_iter", "par_histogram_timestamp", "par_split_timestamp"];

/// the lines behind the one that echoes the arguments
pub fn lines(out: &[u8]) -> Vec<String> { String::from_utf8_lossy(out).lines().skip(1).map(|s| s.to_string()).collect() }
pub fn same(mut a: Vec<String>, mut b: Vec<String>) -> bool { a.sort(); b.sort(); a == b }

/// runs the commands on `b` by both access methods and compares their reports with the reference
fn compare(cmds: &[&str], b: &[u8], ctx: &mut Ctx) -> Result<(), String> {
    let m = read_all(b);
    if m.is_empty() { ctx.trivial += 1 }
    ctx.state(hash_bytes(b));
    ctx.trans(m.len() as u64 + 1);
    proc::with("ripdlt", |s| {
        s.file(b);
        for cmd in cmds {
            let e = report(cmd, b, &m);
            ctx.outcome(hash_bytes(e.join("\n").as_bytes()));
            for acc in ["mmap", "read"] {
                let d = s.run(&Run::new(&["ripdlt", acc, cmd, FILE]));
                ctx.exec(); ctx.alive();
                if !d.ok() { return Err(format!("{acc} {cmd}: {}", d.how())) }
                let got = lines(&d.out);
                if !same(got.clone(), e.clone()) { return Err(format!("{acc} {cmd} reports {got:?}, expected {e:?}")) }
            }
        }
        Ok(())
    })
}
fn stream_phase(name: &str, bounds: &str, cmds: &'static [&'static str], tk: Tokens) -> Phase {
    let tk = Rc::new(tk);
    let t2 = tk.clone();
    Phase {
        name: name.into(), bounds: format!("{bounds}: all sequences of at most {} of {} fragments, both access methods, {cmds:?}", tk.depth, tk.toks.len()),
        total: tk.total(), chunk: 4, cpu_limit: 30,
        run: Box::new(move |i, ctx| compare(cmds, &tk.build(i), ctx)),
        describe: Box::new(move |i| t2.describe(i)),
    }
}
/// a message with the given flags and tail
pub fn full(htyp: u8, secs: u32, ecu: &[u8; 4], tail: &[u8]) -> Vec<u8> {
    let mut b = head(4 + tail.len() as u16, htyp, secs, ecu);
    b.extend_from_slice(tail);
    b
}
pub fn ext(msin: u8) -> Vec<u8> { let mut v = vec![msin, 1]; v.extend_from_slice(b"APP1CTX1"); v }
pub fn cat(p: &[&[u8]]) -> Vec<u8> { p.concat() }

const C19_CMDS: &[&str] = &["count", "histogram_payload_size", "histogram_message_size", "histogram_message_type"];
pub fn c19(t: Tier) -> Plan {
    let toks = Tokens::new(t.pick(3, 4), vec![
        ("empty", full(0x20, 1, b"ECU1", b"")),
        ("p1", full(0x20, 1, b"ECU1", b"a")),
        ("p1000", full(0x20, 1, b"ECU1", &[b'b'; 1000])),
        ("p30000", full(0x20, 1, b"ECU1", &[b'c'; 30000])),
        ("log info", full(0x21, 2, b"ECU2", &cat(&[&ext(0x41), b"hello"]))),
        ("log warn, no payload", full(0x21, 2, b"ECU2", &ext(0x31))),
        ("all fields", full(0x3f, 2, b"ECU2", &cat(&[b"ECU3", &[0; 4], &[0, 0, 0, 9], &ext(0x26), b"xyz"]))),
        ("undefined type", full(0x31, 2, b"ECU2", &cat(&[&[0, 0, 1, 0], &ext(0xf0)]))),
        ("undefined info", full(0x21, 2, b"ECU2", &cat(&[&ext(0xf1), b"q"]))),
        ("too short for ext", full(0x3d, 2, b"ECU2", &[1; 17])),
        ("too short for ts", full(0x30, 2, b"ECU2", &[1; 3])),
        ("exactly ts", full(0x30, 2, b"ECU2", &[1; 4])),
        ("nested", full(0x20, 3, b"ECU1", &full(0x21, 3, b"ECU4", &cat(&[&ext(0x16), b"in"])))),
        ("garbage", b"some bytes D DL DLT".to_vec()),
        ("broken head", h(2)),
        ("cut head", h(40)),
    ]);
    Plan {
        phases: vec![
            crate::ripbig::many(t, C19_CMDS),
            crate::ripbig::kinds(t, C19_CMDS),
            crate::ripbig::dense(t, C19_CMDS),
            stream_phase("streams", "messages with and without optional fields, too short ones, nested ones, garbage, broken and cut heads", C19_CMDS, toks),
            Phase {
                name: "types".into(), bounds: "all 256 message info bytes x the 8 header types that keep an extended header, three messages of one and one of another type".into(), total: 256 * 8, chunk: 4, cpu_limit: 30,
                run: Box::new(|i, ctx| {
                    let m = i as u8;
                    let ht = 0x21 | ((i / 256) as u8) << 2;
                    let l = layout(ht).end;
                    let mk = |x: u8, n: usize| { let mut t = vec![0x77; l - 10]; t.extend(ext(x)); t.extend(vec![b'p'; n]); full(ht, 1, b"ECU1", &t) };
                    compare(&["histogram_message_type"], &cat(&[&mk(m, 0), &mk(m, 5), &mk(m.wrapping_add(1), 2), &mk(m, 1)]), ctx)
                }),
                describe: Box::new(|i| format!("message info 0x{:02x}, header type 0x{:02x}", i as u8, 0x21 | ((i / 256) as u8) << 2)),
            },
            Phase {
                name: "header types".into(), bounds: "all 256 header types x 0..=30 bytes behind the standard header, as a single message and repeated".into(), total: 256 * 31 * 2, chunk: 8, cpu_limit: 30,
                run: Box::new(|i, ctx| {
                    let (ht, n, rep) = (i as u8, (i / 256 % 31) as usize, i / 256 / 31);
                    let tail: Vec<u8> = (0..n).map(|k| (0x41 + k * 7) as u8 & 0x7f).collect();
                    let one = full(ht, 1, b"ECU1", &tail);
                    let b = if rep == 0 { one } else { cat(&[&one, &full(0x21, 1, b"ECU1", &ext(0x41)), &one]) };
                    compare(C19_CMDS, &b, ctx)
                }),
                describe: Box::new(|i| format!("header type 0x{:02x}, {} bytes behind the standard header{}", i as u8, i / 256 % 31, if i / 256 / 31 == 0 { "" } else { ", repeated" })),
            },
            Phase {
                name: "sizes".into(), bounds: "every message length 4..=600 and around 1024, 2048, 4096, 32768 and 65535; 1, 2, 3 and 40 messages of it".into(), total: 4 * 680, chunk: 8, cpu_limit: 30,
                run: Box::new(|i, ctx| {
                    let k = i / 4;
                    let l = if k < 597 { 4 + k as u16 } else { let j = k - 597; match [1024u16, 2048, 4096, 32768, 65535].get((j / 17) as usize) { Some(c) => c.saturating_sub(8).saturating_add((j % 17) as u16), None => return Ok(()) } };
                    let m = msg(l, b'z');
                    compare(C19_CMDS, &m.repeat([1, 2, 3, 40][(i % 4) as usize]), ctx)
                }),
                describe: Box::new(|i| format!("length number {}, {} messages", i / 4, [1, 2, 3, 40][(i % 4) as usize])),
            },
        ],
        assumptions: vec!["longer files behave like the explored ones".into()],
    }
}

const C20_STORAGE: &[&str] = &["split_timestamp", "histogram_timestamp"];
const C20_HEADER: &[&str] = &["histogram_lifecycles", "split_lifecycles", "iter", "itertools"];
const C20_ALL: &[&str] = &["split_timestamp", "histogram_timestamp", "histogram_lifecycles", "split_lifecycles", "iter", "itertools"];
pub fn c20(t: Tier) -> Plan {
    let st = |secs: u32, ecu: &[u8; 4]| full(0x20, secs, ecu, b"x");
    let ts = |ts: u32, ecu: &[u8; 4]| full(0x30, 5, ecu, &ts.to_be_bytes());
    let tse = |t: u32, ecu: &[u8; 4]| full(0x34, 5, ecu, &cat(&[ecu, &t.to_be_bytes()]));
    Plan {
        phases: vec![
            crate::ripbig::many(t, C20_ALL),
            crate::ripbig::kinds(t, C20_ALL),
            crate::ripbig::dense(t, C20_ALL),
            stream_phase("storage times", "messages of two ECUs with storage times 1, 2, 3, 4", C20_STORAGE, Tokens::new(t.pick(4, 5), vec![
                ("A1", st(1, b"A   ")), ("A2", st(2, b"A   ")), ("A3", st(3, b"A   ")), ("A4", st(4, b"A   ")),
                ("B1", st(1, b"B   ")), ("B2", st(2, b"B   ")), ("B3", st(3, b"B   ")), ("B4", st(4, b"B   ")),
            ])),
            stream_phase("one ECU", "messages of one ECU with storage times 1, 2, 3, 5, 8", &["split_timestamp"], Tokens::new(t.pick(6, 7), vec![
                ("1", st(1, b"A   ")), ("2", st(2, b"A   ")), ("3", st(3, b"A   ")), ("5", st(5, b"A   ")), ("8", st(8, b"A   ")),
            ])),
            stream_phase("extreme storage times", "storage times 0, 1, 2^31-1, 2^31, 2^32-1 of two ECUs, garbage", C20_STORAGE, Tokens::new(t.pick(3, 4), vec![
                ("A0", st(0, b"A\0\0\0")), ("A1", st(1, b"A\0\0\0")), ("A2^31-1", st(0x7fff_ffff, b"A\0\0\0")), ("A2^31", st(0x8000_0000, b"A\0\0\0")), ("A2^32-1", st(u32::MAX, b"A\0\0\0")),
                ("B0", st(0, b"\xff\xfe\0\x80")), ("B2^32-1", st(u32::MAX, b"\xff\xfe\0\x80")), ("B2^31", st(0x8000_0000, b"\xff\xfe\0\x80")), ("garbage", b"DLT DLT".to_vec()),
            ])),
            stream_phase("lifecycles", "timestamps around the bucket and threshold boundaries, of two ECUs, with messages that have none", C20_HEADER, Tokens::new(t.pick(3, 4), vec![
                ("A0", ts(0, b"A   ")), ("A1", ts(1, b"A   ")), ("A9999", ts(9999, b"A   ")), ("A10000", ts(10000, b"A   ")), ("A10001", ts(10001, b"A   ")),
                ("A17999999", ts(17_999_999, b"A   ")), ("A18000000", ts(18_000_000, b"A   ")), ("A18000001", ts(18_000_001, b"A   ")), ("A36000001", ts(36_000_001, b"A   ")), ("Amax", ts(u32::MAX, b"A   ")),
                ("B0", ts(0, b"B   ")), ("B20000", ts(20000, b"B   ")), ("B18000000", ts(18_000_000, b"B   ")),
                ("eA5", tse(5, b"A   ")), ("eB10006", tse(10006, b"B   ")), ("none", full(0x20, 1, b"A   ", b"abcd")), ("short", full(0x30, 1, b"A   ", &[0, 0, 1])),
            ])),
            stream_phase("runs", "timestamps 0, 1, 18000000, 18000001, 36000001 of one ECU and one without", C20_HEADER, Tokens::new(t.pick(4, 6), vec![
                ("0", ts(0, b"A   ")), ("1", ts(1, b"A   ")), ("18000000", ts(18_000_000, b"A   ")), ("18000001", ts(18_000_001, b"A   ")), ("36000001", ts(36_000_001, b"A   ")), ("none", full(0x20, 1, b"A   ", b"abcd")),
            ])),
            stream_phase("stored and header ECU", "stored ECU ids A and B x header ECU ids absent, A and B x timestamps 1 and 20000", C20_HEADER, Tokens::new(t.pick(3, 4), {
                let mut v = vec![];
                for s in [b"A   ", b"B   "] { for e in [None, Some(b"A   "), Some(b"B   ")] { for x in [1u32, 20000] {
                    let b = match e { None => full(0x30, 5, s, &x.to_be_bytes()), Some(e) => full(0x34, 5, s, &cat(&[e, &x.to_be_bytes()])) };
                    v.push((&*Box::leak(format!("{}/{}/{x}", s[0] as char, e.map_or('-', |e| e[0] as char)).into_boxed_str()), b));
                } } }
                v
            })),
            Phase {
                name: "durations".into(), bounds: "all pairs of 40 timestamps and of 40 storage times around powers of two and ten, one ECU".into(), total: 1600, chunk: 4, cpu_limit: 30,
                run: Box::new(|i, ctx| {
                    let mut v: Vec<u32> = vec![0, 1, 2, 3];
                    for p in [255u32, 9999, 10_000, 19_999, 65_535, 99_999, 17_999_999, 18_000_000, 1 << 24, (1 << 31) - 1] { v.extend([p, p + 1]) }
                    v.extend([u32::MAX, u32::MAX - 1, u32::MAX - 9_999, u32::MAX - 10_000, u32::MAX - 18_000_000, 5000, 15_000, 25_000, 1_000_000, 30_000, 36_000_000, 54_000_000, 100, 1000, 123_456, 7]);
                    let (a, b) = (v[(i / 40) as usize], v[(i % 40) as usize]);
                    compare(C20_ALL, &cat(&[&full(0x30, a, b"A   ", &a.to_be_bytes()), &full(0x30, b, b"A   ", &b.to_be_bytes())]), ctx)
                }),
                describe: Box::new(|i| format!("pair {} {}", i / 40, i % 40)),
            },
            Phase {
                name: "header types".into(), bounds: "all 256 header types x 0..=20 bytes behind the standard header, between messages with timestamps".into(), total: 256 * 21, chunk: 8, cpu_limit: 30,
                run: Box::new(|i, ctx| {
                    let tail: Vec<u8> = (0..(i / 256) as usize).map(|k| (k * 3) as u8).collect();
                    let f = |x: u32| full(0x30, 5, b"ECU1", &x.to_be_bytes());
                    compare(C20_HEADER, &cat(&[&f(100), &full(i as u8, 1, b"ECU1", &tail), &f(50_000_000)]), ctx)
                }),
                describe: Box::new(|i| format!("header type 0x{:02x}, {} bytes behind the standard header", i as u8, i / 256)),
            },
        ],
        assumptions: vec!["longer files behave like the explored ones".into()],
    }
}

const C21_CMDS: &[&str] = &["count_hello_world", "count_hello_world_raw", "count_hello_world_grepit", "histogram_hello_world"];
pub fn c21(t: Tier) -> Plan {
    let p = |s: &[u8]| full(0x20, 1, b"ECU1", s);
    let tokens = |depth: u32| Tokens::new(depth, vec![
        ("hit", p(b"xxHello Worldxx")),
        ("two hits", p(b"Hello WorldHello World")),
        ("start of hit", p(b"..Hello ")),
        ("end of hit", p(b"World..")),
        ("H only", p(b"ends with H")),
        ("_World", p(b" World")),
        ("H..World", p(b"Hallo, World")),
        ("H\\nWorld", p(b"Hello\n World")),
        ("non-utf8 between", p(b"H\xff\xfe World")),
        ("empty", p(b"")),
        ("hit in header fields", full(0x2d, 1, b"ECU1", &cat(&[b"Hell", b"o Wo", b"rl", b"d...........", b"no"]))),
        ("too short", full(0x3d, 1, b"ECU1", b"Hello World")),
        ("ecu H", full(0x20, 1, b"  H ", b" World")),
        ("garbage hit", b"~Hello World~".to_vec()),
        ("garbage start", b"Hello W".to_vec()),
        ("garbage end", b"orld".to_vec()),
        ("cut head", h(60)),
    ]);
    Plan {
        phases: vec![
            crate::ripbig::far(t, C21_CMDS),
            crate::ripbig::deep(t, C21_CMDS),
            Phase {
                name: "streams".into(), bounds: format!("all sequences of at most {} of 17 fragments with full, partial, split and repeated occurrences in payloads, headers and garbage, no marker inside a message; {C21_CMDS:?}, both access methods", t.pick(3, 4)),
                total: tokens(t.pick(3, 4)).total(), chunk: 4, cpu_limit: 30,
                run: { let tk = tokens(t.pick(3, 4)); Box::new(move |i, ctx| {
                    let b = tk.build(i);
                    if nested::<DltStorageEntry>(&b, &messages::<DltStorageEntry>(&b)) {
                        ctx.trivial += 1;
                        // the payload and raw searches do not depend on the absence of markers
                        return compare(&C21_CMDS[..2], &b, ctx);
                    }
                    compare(C21_CMDS, &b, ctx)
                }) },
                describe: { let tk = tokens(t.pick(3, 4)); Box::new(move |i| tk.describe(i)) },
            },
            Phase {
                name: "positions".into(), bounds: "'Hello World', 'Hxx World', 'H World' and 'Hello World' with each byte changed, at every position of a 40 byte message (over its header and both ends) with 0 to 3 messages around it".into(),
                total: 14 * 60 * 4, chunk: 8, cpu_limit: 30,
                run: Box::new(|i, ctx| {
                    let w: Vec<u8> = match i % 14 { 0 => HW.to_vec(), 1 => b"Hxx World".to_vec(), 2 => b"H World".to_vec(), k => { let mut w = HW.to_vec(); w[(k - 3) as usize] ^= 0x20; w } };
                    let (pos, n) = ((i / 14 % 60) as usize, i / 14 / 60);
                    let one = full(0x31, 1, b"ECU1", &cat(&[&[0; 4], &ext(0x41), b"0123456789"]));
                    let mut b = cat(&[&one, &one, b"..........."]);
                    if pos < 20 { b[one.len() + 4 + pos..][..w.len().min(7)].copy_from_slice(&w[..w.len().min(7)]) } else { b[pos..pos + w.len()].copy_from_slice(&w) }
                    if n & 1 == 1 { b = cat(&[&p2(b"Hello World"), &b]) }
                    if n & 2 == 2 { b = cat(&[&b, &p2(b"Hello World"), &p2(b" World")]) }
                    if nested::<DltStorageEntry>(&b, &messages::<DltStorageEntry>(&b)) { ctx.trivial += 1; return Ok(()) }
                    compare(C21_CMDS, &b, ctx)
                }),
                describe: Box::new(|i| format!("text {}, position {}, surroundings {}", i % 14, i / 14 % 60, i / 14 / 60)),
            },
            Phase {
                name: "large offsets".into(), bounds: "a matching message at 24 offsets around 100, 200 and 300 million bytes of a sparse file, one in each bucket before it; both access methods".into(),
                total: 24 * 2, chunk: 1, cpu_limit: 60,
                run: Box::new(|i, ctx| {
                    let k = i / 2;
                    let base = [100_000_000u64, 200_000_000, 300_000_000][(k / 8) as usize];
                    let off = base - 40 + [0u64, 8, 20, 39, 40, 41, 60, 80][(k % 8) as usize];
                    let m = p2(b"say Hello World");
                    let mut parts = vec![(3u64, m.clone()), (off, m.clone())];
                    if k / 8 >= 1 { parts.push((150_000_000, m.clone())) }
                    if k / 8 >= 2 { parts.push((250_000_000, m.clone())); parts.push((260_000_000, m.clone())) }
                    let mut h = Hist::new();
                    for (o, _) in &parts { *h.entry(*o / 100_000_000).or_default() += 1 }
                    let mut e: Vec<String> = h.iter().map(|(k, v)| format!("Offset {}M-{}M: {v}", k * 100, (k + 1) * 100)).collect();
                    e.push("Distribution of 'Hello World' matches:".into());
                    ctx.state(mix(i) ^ 0xabc); ctx.trans(parts.len() as u64); ctx.outcome(i);
                    proc::with("ripdlt", |s| {
                        s.sparse(off + m.len() as u64 + 1000, &parts);
                        let acc = ["mmap", "read"][(i % 2) as usize];
                        for (cmd, e) in [("histogram_hello_world", e), ("count_hello_world_grepit", vec![format!("{} hello world messages", parts.len())]), ("count_hello_world", vec![format!("{} hello world messages", parts.len())])] {
                            let mut r = Run::new(&["ripdlt", acc, cmd, FILE]);
                            r.cpu = 20;
                            let d = s.run(&r);
                            ctx.exec(); ctx.alive();
                            if !d.ok() { return Err(format!("{acc} {cmd}: {}", d.how())) }
                            let got = lines(&d.out);
                            if !same(got.clone(), e.clone()) { return Err(format!("{acc} {cmd} reports {got:?}, expected {e:?}")) }
                        }
                        s.file(b"");
                        Ok(())
                    })
                }),
                describe: Box::new(|i| format!("offset number {}, {}", i / 2, ["mmap", "read"][(i % 2) as usize])),
            },
        ],
        assumptions: vec!["no message contains a further marker (as the property says); longer files behave like the explored ones".into()],
    }
}
pub fn p2(s: &[u8]) -> Vec<u8> { full(0x20, 1, b"ECU1", s) }

/// every command on a malformed file ends with a report
fn survives(b: &[u8], cmds: &[&str], procs: u32, ctx: &mut Ctx) -> Result<(), String> {
    ctx.state(hash_bytes(b) ^ procs as u64);
    ctx.trans(1);
    proc::with("ripdlt", |s| {
        s.file(b);
        for cmd in cmds {
            for acc in ["mmap", "read"] {
                let mut r = Run::new(&["ripdlt", acc, cmd, FILE]);
                r.procs = procs;
                let d = s.run(&r);
                ctx.exec(); ctx.alive();
                if !d.ok() { return Err(format!("{acc} {cmd}: {}", d.how())) }
                if lines(&d.out).is_empty() { return Err(format!("{acc} {cmd}: no report")) }
                ctx.outcome(hash_bytes(&d.out));
            }
        }
        Ok(())
    })
}
pub fn all_cmds() -> Vec<&'static str> { SEQ.iter().chain(PAR.iter()).copied().collect() }
pub fn c23(t: Tier) -> Plan {
    let f = |ht: u8, tail: &[u8]| full(ht, 1, b"ECU1", tail);
    let toks = Tokens::new(t.pick(2, 3), vec![
        ("good", f(0x35, &cat(&[b"ECU1", &[0, 0, 1, 0], &ext(0x41), b"payload"]))),
        ("good later", f(0x35, &cat(&[b"ECU1", &[0, 0, 1, 1], &ext(0x41), b"Hello World"]))),
        ("earlier", f(0x30, &[0, 0, 0, 1])),
        ("max time", full(0x30, u32::MAX, b"ECU1", &[0xff; 4])),
        ("zero time", full(0x30, 0, b"ECU1", &[0; 4])),
        ("empty", f(0x20, b"")),
        ("ts flag, no ts", f(0x30, b"")),
        ("ts flag, 3 bytes", f(0x30, b"abc")),
        ("ext flag, none", f(0x21, b"")),
        ("ext flag, 9 bytes", f(0x21, &[0x41; 9])),
        ("ecu flag, 2 bytes", f(0x24, b"ab")),
        ("all flags, none", f(0x3f, b"")),
        ("all flags, 21 bytes", f(0x3f, &[7; 21])),
        ("all bits", f(0xff, &[0xff; 40])),
        ("non-text ecu", full(0x20, 1, b"\xff\xfe\x80\x00", b"x")),
        ("undefined type", f(0x21, &ext(0xff))),
        ("nested", f(0x20, &f(0x30, b"ab"))),
        ("garbage", b"\x00\xffDLT\x02DL".to_vec()),
        ("length 0", h(0)),
        ("length 3", h(3)),
        ("length 65535", h(65535)),
        ("storage header only", h(8)[..16].to_vec()),
        ("marker", b"DLT\x01".to_vec()),
        ("half marker", b"DL".to_vec()),
    ]);
    let toks = Rc::new(toks);
    let t2 = toks.clone();
    let cmds = Rc::new(all_cmds());
    let (c1, c2, c3, c4, c5) = (cmds.clone(), cmds.clone(), cmds.clone(), cmds.clone(), cmds.clone());
    let cuts: Rc<Vec<u8>> = Rc::new(cat(&[&f(0x35, &cat(&[b"ECU1", &[0, 0, 1, 0], &ext(0x41), b"Hello World"])), &full(0x3f, 9, b"\xff\xfe\xfd\xfc", &cat(&[&[1; 12], &ext(0x17), b"q"])), &f(0x20, &f(0x30, b"ab"))]));
    let (u1, u2) = (cuts.clone(), cuts);
    let n = u1.len() as u64;
    Plan {
        phases: vec![
            crate::ripbig::survive(t),
            Phase {
                name: "streams".into(), bounds: format!("all sequences of at most {} of 24 well-formed and malformed fragments x {} commands x both access methods, 2 processors", toks.depth, cmds.len()), total: toks.total(), chunk: 2, cpu_limit: 30,
                run: Box::new(move |i, ctx| survives(&toks.build(i), &c1, 2, ctx)),
                describe: Box::new(move |i| t2.describe(i)),
            },
            Phase {
                name: "flags".into(), bounds: format!("all 256 header types x 0..=30 bytes behind the standard header x {} commands x both access methods, in groups of 31 lengths, alone and between good messages", cmds.len()), total: 256 * 31 * 2, chunk: 8, cpu_limit: 30,
                run: Box::new(move |i, ctx| {
                    let ht = i as u8;
                    let n = (i / 256 % 31) as usize;
                    let one = full(ht, 7, b"ECU1", &vec![0x26; n]);
                    let good = full(0x35, 1, b"ECU1", &cat(&[b"ECU1", &[0, 0, 1, 0], &ext(0x41), b"payload"]));
                    let b = if i / 256 / 31 == 0 { one } else { cat(&[&good, &one, &good]) };
                    survives(&b, if t == Tier::Thorough || i / 256 / 31 == 0 { &c2[..] } else { &c2[3..10] }, 1, ctx)
                }),
                describe: Box::new(|i| format!("header type 0x{:02x}, {} bytes behind the standard header{}", i as u8, i / 256 % 31, if i / 256 / 31 == 0 { "" } else { ", between good messages" })),
            },
            Phase {
                name: "bytes".into(), bounds: format!("a file of three messages with each of its {n} bytes set to each of {} values x {} commands x both access methods", t.pick(8, 256), cmds.len()), total: n * t.pick(8, 256), chunk: 4, cpu_limit: 30,
                run: Box::new(move |i, ctx| {
                    let mut b = u1.to_vec();
                    let v = if t == Tier::Thorough { (i / n) as u8 } else { [0u8, 1, 0x7f, 0x80, 0xff, 0x44, 0x3d, 0x10][(i / n) as usize] };
                    b[(i % n) as usize] = v;
                    survives(&b, &c3, 2, ctx)
                }),
                describe: Box::new(move |i| format!("byte {} set to value {}", i % n, i / n)),
            },
            Phase {
                name: "truncated".into(), bounds: format!("a file of three messages cut at every byte, from either end x {} commands x both access methods x 1, 3 and 8 processors", cmds.len()), total: (n + 1) * 2 * 3, chunk: 4, cpu_limit: 30,
                run: Box::new(move |i, ctx| {
                    let k = (i / 6) as usize;
                    survives(if i % 2 == 0 { &u2[..k] } else { &u2[k..] }, &c4, [1, 3, 8][(i / 2 % 3) as usize], ctx)
                }),
                describe: Box::new(|i| format!("cut at {}, {} part, {} processors", i / 6, ["first", "second"][(i % 2) as usize], [1, 3, 8][(i / 2 % 3) as usize])),
            },
            Phase {
                name: "ecu bytes".into(), bounds: format!("stored ECU ids with each byte set to each of 256 values x {} commands x both access methods", cmds.len()), total: 1024, chunk: 4, cpu_limit: 30,
                run: Box::new(move |i, ctx| {
                    let mut e = *b"ECU1";
                    e[(i / 256) as usize] = i as u8;
                    survives(&cat(&[&full(0x30, 1, &e, &[0, 0, 0, 9]), &full(0x34, 1, b"ECU1", &cat(&[&e, &[0, 0, 0, 9]]))]), &c5, 1, ctx)
                }),
                describe: Box::new(|i| format!("byte {} set to 0x{:02x}", i / 256, i as u8)),
            },
        ],
        assumptions: vec!["longer files behave like the explored ones".into()],
    }
}

/// files whose reports have few and many lines
fn report_files() -> Vec<(&'static str, Vec<u8>)> {
    let ts = |secs: u32, t: u32, ecu: &[u8; 4], msin: u8, p: &[u8]| full(0x31, secs, ecu, &cat(&[&t.to_be_bytes(), &ext(msin), p]));
    let mut many = vec![];
    for k in 0..12u32 {
        many.extend(ts(k * k % 31, k * k * 30_000 % 700_001, [b"ECU1", b"ECU2", b"ECU3"][k as usize % 3], [0x41, 0x31, 0x16, 0x26][k as usize % 4], &b"Hello World, and so on"[..(k as usize * 5 % 22)]));
        many.extend_from_slice(b"gap");
    }
    vec![
        ("empty", vec![]),
        ("one message", ts(1, 7, b"ECU1", 0x41, b"Hello World")),
        ("three messages", cat(&[&ts(1, 7, b"ECU1", 0x41, b"Hello World"), &ts(9, 700_007, b"ECU2", 0x31, b"x"), &ts(2, 800_007, b"ECU1", 0x41, b"Hello World")])),
        ("twelve messages", many),
    ]
}
fn delivered(d: &Done, r: &IoPlan, w: &IoPlan, want: &[u8]) -> Result<bool, String> {
    let failed = r.at.iter().any(|a| crate::buf::fatal(a.1) && a.1 != Act::Zero && a.0 < d.reads) || w.at.iter().any(|a| crate::buf::fatal(a.1) && a.0 < d.writes);
    let e = |what: String| Err(format!("read outcomes {:?} {:?}, write outcomes {:?} {:?}: {what}", r.mode, r.at, w.mode, w.at));
    if !want.starts_with(&d.out) { return e(format!("output {:?} is not the beginning of {:?}", String::from_utf8_lossy(&d.out), String::from_utf8_lossy(want))) }
    if failed { if d.ok() || d.timeout { return e(format!("{}, with {} of {} bytes written", d.how(), d.out.len(), want.len())) } return Ok(true) }
    if !d.ok() { return e(d.how()) }
    if d.out.len() != want.len() { return e(format!("success with {} of {} bytes", d.out.len(), want.len())) }
    Ok(false)
}
const BAD: [(&str, &str, &str); 30] = [
    ("mmap", "count", "/nowhere/file"), ("read", "count", "/nowhere/file"), ("mmap", "count", "/proc/self/fd"), ("read", "count", "/proc/self/fd"), ("mmap", "count", ""), ("read", "count", ""),
    ("mmap", "count", "/dev/null/x"), ("read", "count", "/dev/null/x"), ("mmap", "count", "/"), ("read", "count", "/"), ("mmap", "histogram_message_type", "/nowhere"), ("read", "par_count", "/nowhere"),
    ("", "count", FILE), ("MMAP", "count", FILE), ("mmapp", "count", FILE), ("map", "count", FILE), ("reads", "count", FILE), ("count", "mmap", FILE), (" read", "count", FILE), ("write", "count", FILE),
    ("mmap", "", FILE), ("read", "", FILE), ("mmap", "counts", FILE), ("read", "Count", FILE), ("mmap", "par_itertools", FILE), ("read", "histogram", FILE), ("mmap", "par_", FILE), ("read", "count ", FILE), ("mmap", "count_hello", FILE), ("read", FILE, "count"),
];
pub fn c28(t: Tier) -> Plan {
    const WA: [Act; 8] = [Act::One, Act::Half, Act::AllBut1, Act::Eintr, Act::Eio, Act::Enospc, Act::Epipe, Act::Zero];
    const RA: [Act; 4] = [Act::One, Act::Half, Act::Eintr, Act::Eio];
    const MODES: [Mode; 5] = [Mode::None, Mode::One, Mode::EintrOne, Mode::Seven, Mode::EintrTwice];
    let files = Rc::new(report_files());
    let (f2, f3, f4) = (files.clone(), files.clone(), files.clone());
    let cmds = Rc::new(all_cmds());
    let (c2, c3, c4) = (cmds.clone(), cmds.clone(), cmds.clone());
    let (nf, nc) = (files.len() as u64, cmds.len() as u64);
    let depth = t.pick(2, 3);
    Plan {
        phases: vec![
            Phase {
                name: "outcomes".into(), bounds: format!("{nc} commands (the parallel ones on one processor) x {nf} files with reports of 2 to 40 lines, x all outcomes of the write calls {WA:?}, or by the read method of the read calls {RA:?} and the write calls, that deviate from plain ones at no more than {depth} calls ({} if there are at most 4 calls): the same report, or no success and a beginning of it", depth + 1),
                total: nf * nc * 2, chunk: 1, cpu_limit: 120,
                run: Box::new(move |i, ctx| {
                    let (f, cmd, acc) = (&files[(i / nc / 2) as usize].1, cmds[(i / 2 % nc) as usize], ["mmap", "read"][(i % 2) as usize]);
                    proc::with("ripdlt", |s| {
                        s.file(f);
                        let mut r = Run::new(&["ripdlt", acc, cmd, FILE]);
                        r.procs = 1;
                        let plain = s.run(&r);
                        if !plain.ok() { return Err(plain.how()) }
                        let want = plain.out;
                        let ra: &[Act] = if acc == "read" { &RA } else { &[] };
                        let n = plain.writes + if acc == "read" { plain.reads } else { 0 };
                        crate::dd::explore_both(ra, &WA, if n <= 4 { depth + 1 } else { depth }, |rp, wp| {
                            r.reads = rp.clone();
                            r.writes = wp.clone();
                            let d = s.run(&r);
                            ctx.alive(); ctx.exec(); ctx.trans((d.reads + d.writes) as u64);
                            let mut h = mix(i);
                            for a in &rp.at { h = mix(h ^ (a.0 as u64) << 8 ^ a.1.code() as u64) }
                            for a in &wp.at { h = mix(h ^ (a.0 as u64) << 8 ^ a.1.code() as u64 ^ 1 << 50) }
                            ctx.state(h);
                            ctx.outcome(d.status as u64 | (d.out.len() as u64) << 32);
                            Ok(if delivered(&d, rp, wp, &want)? { (0, 0) } else { (d.reads, d.writes) })
                        })
                    })
                }),
                describe: Box::new(move |i| format!("{} {}, file: {}", ["mmap", "read"][(i % 2) as usize], c2[(i / 2 % nc) as usize], f2[(i / nc / 2) as usize].0)),
            },
            Phase {
                name: "persistent".into(), bounds: format!("{nc} commands x {nf} files x every write call one byte, seven bytes, interrupted before every byte or interrupted twice, or plain; alone and with a failing write at every call up to {} and at the last ones", t.pick(30, 400)),
                total: nf * nc * 5, chunk: 1, cpu_limit: 120,
                run: Box::new(move |i, ctx| {
                    let (f, cmd, m) = (&f3[(i / nc / 5) as usize].1, c3[(i / 5 % nc) as usize], MODES[(i % 5) as usize]);
                    proc::with("ripdlt", |s| {
                        s.file(f);
                        let mut r = Run::new(&["ripdlt", "read", cmd, FILE]);
                        r.procs = 1;
                        let plain = s.run(&r);
                        if !plain.ok() { return Err(plain.how()) }
                        let want = plain.out;
                        r.writes.mode = m;
                        let d = s.run(&r);
                        ctx.alive(); ctx.exec(); ctx.trans(d.writes as u64); ctx.state(mix(i) ^ 0x55);
                        ctx.outcome(d.out.len() as u64);
                        delivered(&d, &r.reads, &r.writes, &want)?;
                        for k in (0..d.writes).filter(|k| *k < t.pick(30, 400) || *k + 3 >= d.writes) {
                            r.writes.at = vec![(k, [Act::Eio, Act::Enospc, Act::Epipe, Act::Zero][(k % 4) as usize])];
                            let d = s.run(&r);
                            ctx.alive(); ctx.exec(); ctx.trans(d.writes as u64); ctx.state(mix(i) ^ 0x56 ^ (k as u64) << 8);
                            if d.writes <= k { return Err(format!("write call {k} is not reached any more")) }
                            delivered(&d, &r.reads, &r.writes, &want)?;
                        }
                        Ok(())
                    })
                }),
                describe: Box::new(move |i| format!("command number {}, file number {}, every write {:?}", i / 5 % nc, i / nc / 5, MODES[(i % 5) as usize])),
            },
            Phase {
                name: "every error number".into(), bounds: format!("{nc} commands x files of one and twelve messages x every error number 1..133 but the interruption and the closed stream x every write call up to {} and the last one, and every read call of the file", t.pick(3, 40)),
                total: 2 * nc * 133, chunk: 16, cpu_limit: 60,
                run: Box::new(move |i, ctx| {
                    let (f, cmd) = (&f4[[1, 3][(i % 2) as usize]].1, c4[(i / 2 % nc) as usize]);
                    let Some(&act) = proc::errnos(true).get((i / 2 / nc) as usize) else { return Ok(()) };
                    proc::with("ripdlt", |s| {
                        s.file(f);
                        let mut r = Run::new(&["ripdlt", "read", cmd, FILE]);
                        r.procs = 1;
                        let plain = s.run(&r);
                        if !plain.ok() { return Err(plain.how()) }
                        for (which, n) in [(0, plain.reads), (1, plain.writes)] { for k in (0..n).filter(|k| *k < t.pick(3, 40) || k + 1 == n) {
                            r.reads.at = if which == 0 { vec![(k, act)] } else { vec![] };
                            r.writes.at = if which == 1 { vec![(k, act)] } else { vec![] };
                            let d = s.run(&r);
                            ctx.alive(); ctx.exec(); ctx.trans((d.reads + d.writes) as u64); ctx.state(mix(i) ^ 0x57 ^ (k as u64) << 8 ^ which << 60);
                            ctx.outcome(mix(i));
                            delivered(&d, &r.reads, &r.writes, &plain.out)?;
                        } }
                        Ok(())
                    })
                }),
                describe: Box::new(move |i| format!("command number {}, file number {}, {:?}", i / 2 % nc, [1, 3][(i % 2) as usize], proc::errnos(true).get((i / 2 / nc) as usize))),
            },
            Phase {
                name: "arguments".into(), bounds: format!("files that cannot be opened, unknown access methods and unknown commands ({} combinations) x a file of 0, 1 and 12 messages: no success, and nothing but the echoed arguments is reported", BAD.len()),
                total: BAD.len() as u64 * 3, chunk: 1, cpu_limit: 30,
                run: Box::new(|i, ctx| {
                    let (acc, cmd, path) = BAD[(i / 3) as usize];
                    proc::with("ripdlt", |s| {
                        s.file(&report_files()[[0, 1, 3][(i % 3) as usize]].1);
                        let d = s.run(&Run::new(&["ripdlt", acc, cmd, path]));
                        ctx.exec(); ctx.trans(1); ctx.state(mix(i) ^ 0x99); ctx.outcome(d.status as u64);
                        if d.ok() || d.timeout { return Err(d.how()) }
                        if d.out.iter().filter(|b| **b == b'\n').count() > 1 { return Err(format!("reports {:?}", lines(&d.out))) }
                        Ok(())
                    })
                }),
                describe: Box::new(|i| format!("{:?}, file number {}", BAD[(i / 3) as usize], i % 3)),
            },
            Phase {
                name: "arguments missing".into(), bounds: "no, one and two arguments x 9 choices of them: no file is reported about, and the program does not crash".into(),
                total: 3 * 9, chunk: 1, cpu_limit: 30,
                run: Box::new(|i, ctx| {
                    let words = ["mmap", "count", "seqread", "lifecycle_it", "", "--help", "/dev/null", "x", "\u{e9}"];
                    let mut a = vec!["ripdlt"];
                    for k in 0..i / 9 { a.push(words[((i % 9 + k * (i % 3 + 1)) % 9) as usize]) }
                    proc::with("ripdlt", |s| {
                        let d = s.run(&Run::new(&a));
                        ctx.exec(); ctx.trans(1); ctx.state(mix(i) ^ 0x9a); ctx.outcome(d.status as u64);
                        if d.timeout || d.code().is_none_or(|c| c == 101) { return Err(format!("arguments {:?}: {}", &a[1..], d.how())) }
                        let s = String::from_utf8_lossy(&d.out).to_lowercase();
                        if !(s + &d.err.to_lowercase()).contains("usage") { return Err(format!("arguments {:?}: no usage, but {:?}", &a[1..], lines(&d.out))) }
                        Ok(())
                    })
                }),
                describe: Box::new(|i| format!("{} arguments, choice {}", i / 9, i % 9)),
            },
        ],
        assumptions: vec!["an output that is closed from the start (EBADF) counts as no output; write calls that two threads make at the same time are not explored".into()],
    }
}
