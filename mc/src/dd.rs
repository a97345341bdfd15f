//! C24, C25: the dd_dlt program, run for real.
use crate::buf::fatal;
use crate::engine::*;
use crate::fields::layout;
use crate::proc::{self, *};
use crate::streams::*;
use std::rc::Rc;

/// what the program has to write, built field by field
fn wrapped(ecu: &[u8], app: &[u8], size: usize, input: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    for (k, p) in input.chunks_exact(size).enumerate() {
        let k = k as u32;
        o.extend_from_slice(b"DLT\x01");
        o.extend_from_slice(&(k / 100).to_le_bytes());
        o.extend_from_slice(&((k % 100) * 10_000).to_le_bytes());
        o.extend_from_slice(ecu);
        o.extend_from_slice(&[0x31, k as u8]); // version 1, with timestamp and extended header
        o.extend_from_slice(&((4 + 4 + 10 + size) as u16).to_be_bytes());
        o.extend_from_slice(&k.wrapping_mul(100).to_be_bytes());
        o.extend_from_slice(&[0x41, 0]); // verbose, log, info
        o.extend_from_slice(app);
        o.extend_from_slice(app);
        o.extend_from_slice(p);
    }
    o
}
/// reads a stream of messages as a viewer would and says where it is not what was to be wrapped
fn reads_back(out: &[u8], ecu: &[u8], app: &[u8], size: usize, input: &[u8]) -> Result<(), String> {
    let mut o = 0;
    let mut payload = vec![];
    let mut k = 0u32;
    while o < out.len() {
        let m = &out[o..];
        let e = |what: String| Err(format!("message {k} at {o}: {what}"));
        if m.len() < 20 { return e(format!("only {} bytes of a head", m.len())) }
        if &m[..4] != b"DLT\x01" { return e(format!("starts with {:?}", &m[..4])) }
        let (secs, us) = (u32::from_le_bytes(m[4..8].try_into().unwrap()), i32::from_le_bytes(m[8..12].try_into().unwrap()));
        if (secs as u64 * 1_000_000 + us as u64, us < 1_000_000) != (k as u64 * 10_000, true) { return e(format!("storage time {secs} s {us} us")) }
        if &m[12..16] != ecu { return e(format!("ECU id {:?}", &m[12..16])) }
        let len = u16::from_be_bytes([m[18], m[19]]) as usize;
        let l = layout(m[16]);
        if m[17] != k as u8 { return e(format!("message counter {}", m[17])) }
        if m[16] >> 5 != 1 { return e(format!("header type 0x{:02x} is not of version 1", m[16])) }
        if m[16] & 2 != 0 { return e(format!("header type 0x{:02x} announces a payload of the other byte order", m[16])) }
        if len < 4 + l.end || m.len() < 16 + len { return e(format!("length {len} with {} bytes left", m.len())) }
        let t = &m[20..16 + len];
        let (Some(ts), Some(ex)) = (l.tmsp, l.ext) else { return e(format!("header type 0x{:02x}", m[16])) };
        if t[ts..ts + 4] != k.wrapping_mul(100).to_be_bytes() { return e(format!("timestamp {:?}", &t[ts..ts + 4])) }
        if t[ex] != 0x41 { return e(format!("message info 0x{:02x}", t[ex])) }
        if &t[ex + 2..ex + 6] != app || &t[ex + 6..ex + 10] != app { return e(format!("application and context id {:?}", &t[ex + 2..ex + 10])) }
        if t.len() - l.end != size { return e(format!("payload of {} bytes", t.len() - l.end)) }
        payload.extend_from_slice(&t[l.end..]);
        o += 16 + len;
        k += 1;
    }
    let want = &input[..input.len() / size * size];
    if payload.len() != want.len() { return Err(format!("{} bytes of payload instead of {}", payload.len(), want.len())) }
    if payload != want { let i = (0..).find(|&i| payload[i] != want[i]).unwrap(); return Err(format!("payload byte {i} is {} instead of {}", payload[i], want[i])) }
    Ok(())
}
fn run<'a>(ecu: &str, app: &str, size: &str, input: &'a [u8]) -> Run<'a> {
    let mut r = Run::new(&["dd_dlt", ecu, app, size]);
    r.stdin = input;
    r
}
fn good(ecu: &str, app: &str, size: usize, input: &[u8], ctx: &mut Ctx) -> Result<(), String> {
    let d = proc::with("dd_dlt", |s| s.run(&run(ecu, app, &size.to_string(), input)));
    ctx.alive(); ctx.exec();
    ctx.trans((input.len() / size) as u64 + 1);
    ctx.state(hash_bytes(&d.out));
    ctx.outcome(hash_bytes(&d.out));
    if !d.ok() { return Err(format!("payload size {size}, {} bytes of input: {}", input.len(), d.how())) }
    reads_back(&d.out, ecu.as_bytes(), app.as_bytes(), size, input).map_err(|e| format!("payload size {size}, {} bytes of input: {e}", input.len()))?;
    let w = wrapped(ecu.as_bytes(), app.as_bytes(), size, input);
    assert!(reads_back(&w, ecu.as_bytes(), app.as_bytes(), size, input).is_ok(), "the reference disagrees with itself");
    Ok(())
}
fn refused(size: &str, ctx: &mut Ctx) -> Result<(), String> {
    let input = [b'x'; 200_000];
    for n in [0usize, 1, 20, 70_000, 200_000] {
        let d = proc::with("dd_dlt", |s| s.run(&run("ECU1", "APP1", size, &input[..n])));
        ctx.alive(); ctx.exec(); ctx.trans(1); ctx.state(hash_bytes(size.as_bytes()) ^ mix(n as u64));
        ctx.outcome(d.status as u64);
        if !d.out.is_empty() { return Err(format!("payload size {size:?}, {n} bytes of input: {} bytes of output", d.out.len())) }
        if d.ok() || d.timeout { return Err(format!("payload size {size:?}, {n} bytes of input: {}", d.how())) }
    }
    Ok(())
}
fn bytes(n: usize, k: u64) -> Vec<u8> {
    match k {
        0 => (0..n).map(|i| (i * 7 + i / 251) as u8).collect(),
        1 => vec![b'\n'; n],
        2 => (0..n).map(|i| b"line of text\n"[i % 13]).collect(),
        _ => { let mut v = vec![]; while v.len() < n { v.extend(wrapped(b"ECU9", b"APP9", 5, b"01234")) } v.truncate(n); v }
    }
}
const SPECIAL: [usize; 24] = [999, 1000, 1001, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097, 8190, 8191, 8192, 8193, 16384, 32749, 32750, 32768, 65498, 65499, 65500, 65516, 65517];

pub fn c24(t: Tier) -> Plan {
    let step = t.pick(97u64, 1);
    let mk = |depth| Tokens::new(depth, vec![
        ("0", vec![0]), ("newline", b"\n".to_vec()), ("0xff", vec![0xff]), ("text", b"abc".to_vec()), ("marker", b"DLT\x01".to_vec()),
        ("message", wrapped(b"ECU9", b"APP9", 5, b"hello")), ("lines", b"ab\ncd\n".to_vec()), ("long", bytes(70, 0)),
    ]);
    let tk = Rc::new(mk(t.pick(3, 4)));
    let t2 = tk.clone();
    Plan {
        phases: vec![
            Phase {
                name: "sizes".into(), bounds: format!("payload sizes 1..=300, {} around powers of two and the largest one, and every {step}th of 301..=65517 x 4 kinds of contents x input lengths of 0, 1, 2 and 3 blocks, and one byte less and more", SPECIAL.len()),
                total: (300 + SPECIAL.len() as u64 + (65517 - 300) / step) * 4, chunk: 16, cpu_limit: 30,
                run: Box::new(move |i, ctx| {
                    let (k, c) = (i / 4, i % 4);
                    let n = SPECIAL.len() as u64;
                    let size = if k < 300 { k + 1 } else if k < 300 + n { SPECIAL[(k - 300) as usize] as u64 } else { 300 + (k - 300 - n + 1) * step } as usize;
                    if k >= 300 + n && t == Tier::Thorough && c != size as u64 % 4 { return Ok(()) } // contents in turn
                    let all = bytes(3 * size + 1, c);
                    let mut lens: Vec<usize> = [0, size - 1, size, size + 1, 2 * size - 1, 2 * size, 2 * size + 1, 3 * size - 1, 3 * size, 3 * size + 1].to_vec();
                    if k >= 300 + n && t == Tier::Thorough { lens = vec![size, 3 * size - 1] }
                    lens.dedup();
                    for l in lens { good("ECU1", "APP1", size, &all[..l], ctx)? }
                    Ok(())
                }),
                describe: Box::new(move |i| format!("payload size number {}, contents {}", i / 4, i % 4)),
            },
            Phase {
                name: "contents".into(), bounds: format!("all sequences of at most {} of {} pieces of input (zero, newline, text, markers, whole messages) x payload sizes 1..=40", tk.depth, tk.toks.len()),
                total: tk.total(), chunk: 4, cpu_limit: 30,
                run: Box::new(move |i, ctx| { let b = tk.build(i); for s in 1..=40 { good("ECU1", "APP1", s, &b, ctx)? } Ok(()) }),
                describe: Box::new(move |i| t2.describe(i)),
            },
            Phase {
                name: "counts".into(), bounds: format!("0..=520 messages and 12 numbers of messages up to {} x payload sizes 1, 2, 7 and 100; the latter x 4 kinds of contents, and with blocks that are all the same", t.pick(140_000, 1_000_000)),
                total: (521 + 12 * 5) * 4, chunk: 4, cpu_limit: 60,
                run: Box::new(move |i, ctx| {
                    let big = [999usize, 1000, 1001, 10_000, 25_599, 25_600, 25_601, 65_535, 65_536, 65_537, 131_073, t.pick(140_000, 1_000_000)];
                    let k = (i / 4) as usize;
                    let size = [1usize, 2, 7, 100][(i % 4) as usize];
                    let n = if k <= 520 { k } else { big[(k - 521) % 12] };
                    if n * size > 2_000_000 { ctx.trivial += 1; return Ok(()) }
                    let kind = if k <= 520 { 0 } else { (k - 521) / 12 };
                    let input = if kind == 4 { b"1234567"[..size.min(7)].iter().chain(&[b'8'; 93]).copied().take(size).cycle().take(n * size + size / 2).collect() } else { bytes(n * size + size / 2, kind as u64) };
                    good("E\u{e9}U", "a b ", size, &input, ctx)
                }),
                describe: Box::new(|i| format!("number of messages number {}, payload size {}", i / 4, [1, 2, 7, 100][(i % 4) as usize])),
            },
            Phase {
                name: "long streams".into(), bounds: "215,000, 430,000, 2,148,000, 22,000,000 and 42,949,600 messages of payload size 1 (the greatest number whose timestamps fit 32 bits), and 100,000 messages of payload size 3000".into(),
                total: 6, chunk: 6, cpu_limit: 300,
                run: Box::new(move |i, ctx| {
                    let (n, size) = ([215_000usize, 430_000, 2_148_000, 22_000_000, 42_949_600, 100_000][i as usize], if i == 5 { 3000 } else { 1 });
                    let input = bytes(n * size, 0);
                    let s = size.to_string();
                    let mut r = run("ECU1", "APP1", &s, &input);
                    r.cpu = 200;
                    let d = proc::with("dd_dlt", |s| s.run(&r));
                    ctx.alive(); ctx.exec(); ctx.trans(n as u64); ctx.state(mix(i) ^ 0x717); ctx.outcome(d.out.len() as u64);
                    if !d.ok() { return Err(format!("{n} messages: {}", d.how())) }
                    reads_back(&d.out, b"ECU1", b"APP1", size, &input).map_err(|e| format!("{n} messages: {e}"))
                }),
                describe: Box::new(|i| format!("number of messages number {i}")),
            },
            Phase {
                name: "ids".into(), bounds: "ECU and application ids with each of their four bytes set to each of the ASCII values 1..=127, and of two-byte characters; ids of other lengths write nothing".into(),
                total: 8 * 127 + 40, chunk: 8, cpu_limit: 30,
                run: Box::new(|i, ctx| {
                    let input = bytes(50, 0);
                    if i < 8 * 127 {
                        let mut ids = [*b"ECU1", *b"APP1"];
                        ids[(i / 127 / 4) as usize][(i / 127 % 4) as usize] = (i % 127) as u8 + 1;
                        return good(std::str::from_utf8(&ids[0]).unwrap(), std::str::from_utf8(&ids[1]).unwrap(), 9, &input, ctx);
                    }
                    let odd = ["", "A", "AB", "ABC", "ABCDE", "ABCDEFGH", "\u{e9}", "\u{20ac}", "\u{e9}\u{e9}\u{e9}", "    \u{e9}"];
                    let even = ["\u{e9}\u{e9}", "a\u{20ac}", "\u{1f600}", "\u{80}\u{7ff}", "    ", "\u{20ac}b", "0000", "A\u{e9}B", "-1\n\r", "%s%n"];
                    let k = (i - 8 * 127) as usize;
                    if k >= 20 { let s = even[k % 10]; return if k < 30 { good(s, "APP1", 9, &input, ctx) } else { good("ECU1", s, 9, &input, ctx) } }
                    let (e, a) = if k < 10 { (odd[k], "APP1") } else { ("ECU1", odd[k % 10]) };
                    let d = proc::with("dd_dlt", |s| s.run(&run(e, a, "9", &input)));
                    ctx.exec(); ctx.trans(1); ctx.state(i ^ 0x77);
                    if !d.out.is_empty() || d.ok() { return Err(format!("ids {e:?} and {a:?}: {} bytes of output, {}", d.out.len(), d.how())) }
                    Ok(())
                }),
                describe: Box::new(|i| format!("ids number {i}")),
            },
            Phase {
                name: "arguments missing".into(), bounds: "no, one and two arguments x 9 choices of them x inputs of 0, 5, 100 and 70000 bytes: nothing is written, and the program does not crash".into(),
                total: 3 * 9, chunk: 1, cpu_limit: 30,
                run: Box::new(|i, ctx| {
                    let words = ["ECU1", "APP1", "5", "", "ABCDE", "0", "--help", "70000", "\u{e9}"];
                    let mut a = vec!["dd_dlt"];
                    for k in 0..i / 9 { a.push(words[((i % 9 + k * 2) % 9) as usize]) }
                    let input = bytes(70_000, 0);
                    for n in [0usize, 5, 100, 70_000] {
                        let mut r = Run::new(&a);
                        r.stdin = &input[..n];
                        let d = proc::with("dd_dlt", |s| s.run(&r));
                        ctx.alive(); ctx.exec(); ctx.trans(1); ctx.state(mix(i) ^ n as u64); ctx.outcome(d.status as u64);
                        if !d.out.is_empty() { return Err(format!("arguments {:?}, {n} bytes of input: {} bytes of output", &a[1..], d.out.len())) }
                        if d.timeout || d.code().is_none_or(|c| c == 101) { return Err(format!("arguments {:?}, {n} bytes of input: {}", &a[1..], d.how())) }
                    }
                    Ok(())
                }),
                describe: Box::new(|i| format!("{} arguments, choice {}", i / 9, i % 9)),
            },
            Phase {
                name: "refused".into(), bounds: "payload sizes 0, 65518..=66100, multiples of 65536 up to 2^20 plus 0..=20, around powers of two up to 2^64, negative, fractional and not numbers; inputs of 0 to 200000 bytes".into(),
                total: 583 + 16 * 21 + 40, chunk: 4, cpu_limit: 30,
                run: Box::new(|i, ctx| {
                    let words = ["0", "00", "-1", "-0", "-5", "abc", "", " ", "5 ", " 5", "1.5", "0x10", "1e3", "5b", "five", "NaN", "4294967296", "4294967301", "4294967295", "2147483648", "2147483653", "-2147483648", "-4294967291", "18446744073709551616", "18446744073709551621", "18446744073709551615", "9223372036854775807", "9223372036854775813", "-18446744073709551611", "340282366920938463463374607431768211461", "10000000000000000000000000000000000000000000005", "1,5", "1_000", "5\n", "\n5", "++5", "--5", "6553600", "655170", "99999"];
                    if i < 583 { return refused(&(65518 + i).to_string(), ctx) }
                    let j = i - 583;
                    if j < 16 * 21 { return refused(&((j / 21 + 1) * 65536 + j % 21).to_string(), ctx) }
                    refused(words[(j - 16 * 21) as usize], ctx)
                }),
                describe: Box::new(|i| format!("refused size number {i}")),
            },
        ],
        assumptions: vec!["longer inputs are wrapped like the explored ones".into()],
    }
}

/// Every set of at most `depth` deviations from plain calls, on reads and writes together, found by running.
pub fn explore_both(ra: &[Act], wa: &[Act], depth: u32, mut f: impl FnMut(&IoPlan, &IoPlan) -> Result<(u32, u32), String>) -> Result<(), String> {
    let p = |at: &Vec<(u32, Act)>| IoPlan { mode: Mode::None, at: at.clone() };
    let mut todo: Vec<(Vec<(u32, Act)>, Vec<(u32, Act)>, u32)> = vec![(vec![], vec![], depth)];
    while let Some((r, w, left)) = todo.pop() {
        let (nr, nw) = f(&p(&r), &p(&w))?;
        if left == 0 { continue }
        if w.is_empty() {
            for k in r.last().map_or(0, |x| x.0 + 1)..nr { for &a in ra { let mut r = r.clone(); r.push((k, a)); todo.push((r, vec![], left - 1)) } }
        }
        for k in w.last().map_or(0, |x| x.0 + 1)..nw { for &a in wa { let mut w = w.clone(); w.push((k, a)); todo.push((r.clone(), w, left - 1)) } }
    }
    Ok(())
}
fn judge(d: &Done, r: &IoPlan, w: &IoPlan, want: &[u8]) -> Result<bool, String> {
    let failed = r.at.iter().any(|a| fatal(a.1) && a.1 != Act::Zero && a.0 < d.reads) || w.at.iter().any(|a| fatal(a.1) && a.0 < d.writes);
    let e = |what: String| Err(format!("read outcomes {:?} {:?}, write outcomes {:?} {:?}: {what}", r.mode, r.at, w.mode, w.at));
    if !want.starts_with(&d.out) { let i = (0..).find(|&i| d.out.get(i) != want.get(i)).unwrap(); return e(format!("output differs from byte {i} of {}", want.len())) }
    if failed { if d.ok() || d.timeout { return e(format!("{}, with {} of {} bytes written", d.how(), d.out.len(), want.len())) } return Ok(true) }
    if !d.ok() { return e(d.how()) }
    if d.out.len() != want.len() { return e(format!("success with {} of {} bytes", d.out.len(), want.len())) }
    Ok(false)
}
pub fn c25(t: Tier) -> Plan {
    const FEW: [(usize, usize); 6] = [(1, 0), (2, 5), (40, 130), (1000, 3500), (8192, 20_000), (65_517, 140_000)];
    const RA: [Act; 5] = [Act::One, Act::Half, Act::AllBut1, Act::Eintr, Act::Eio];
    const WA: [Act; 8] = [Act::One, Act::Half, Act::AllBut1, Act::Eintr, Act::Eio, Act::Enospc, Act::Epipe, Act::Zero];
    const MODES: [Mode; 5] = [Mode::None, Mode::One, Mode::EintrOne, Mode::Seven, Mode::EintrTwice];
    // payload size, length of input
    let mut shapes: Vec<(usize, usize)> = vec![(1, 0), (1, 1), (1, 3), (2, 5), (5, 4), (5, 5), (5, 12), (40, 130), (100, 400), (200, 999), (1000, 1000), (1000, 3500), (1024, 2048), (3000, 7000), (8192, 8192), (8192, 20_000), (8200, 8300), (20_000, 45_000), (65_517, 65_517), (65_517, 140_000)];
    if t == Tier::Thorough { shapes.extend([(1, 40), (3, 100), (10, 300), (50, 2000), (500, 5000), (982, 982 * 4), (8158, 16_400), (4096, 40_000), (16_384, 50_000), (33_000, 200_000)]) }
    let shapes = Rc::new(shapes);
    let n = shapes.len() as u64;
    let (s1, s2, s3, s4) = (shapes.clone(), shapes.clone(), shapes.clone(), shapes.clone());
    let depth = t.pick(3, 4);
    let kinds = ["counting bytes", "newlines", "lines", "messages"];
    Plan {
        phases: vec![
            Phase {
                name: "outcomes".into(), bounds: format!("{n} payload sizes and input lengths x 4 kinds of contents x all outcomes of the read calls ({RA:?}) and write calls ({WA:?}) that deviate from plain ones at no more than {depth} calls ({} if there are more than {} calls)", depth - 1, t.pick(14, 30)),
                total: n * 4, chunk: 1, cpu_limit: 120,
                run: Box::new(move |i, ctx| {
                    let (size, len) = s1[(i / 4) as usize];
                    let input = bytes(len, i % 4);
                    proc::with("dd_dlt", |s| {
                        // inputs with many calls: one deviation less
                        let mut r = run("ECU1", "APP1", Box::leak(size.to_string().into_boxed_str()), &input);
                        let d = s.run(&r);
                        // what is correct without faults is not the question here
                        let want = d.out.clone();
                        judge(&d, &r.reads, &r.writes, &want)?;
                        let depth = if d.reads + d.writes > t.pick(14, 30) { depth - 1 } else { depth };
                        explore_both(&RA, &WA, depth, |rp, wp| {
                            r.reads = rp.clone();
                            r.writes = wp.clone();
                            let d = s.run(&r);
                            ctx.alive(); ctx.exec(); ctx.trans((d.reads + d.writes) as u64);
                            let mut h = mix(i);
                            for a in &rp.at { h = mix(h ^ (a.0 as u64) << 8 ^ a.1.code() as u64) }
                            for a in &wp.at { h = mix(h ^ (a.0 as u64) << 8 ^ a.1.code() as u64 ^ 1 << 50) }
                            ctx.state(h);
                            ctx.outcome(d.status as u64 | (d.out.len() as u64) << 32);
                            let failed = judge(&d, rp, wp, &want)?;
                            Ok(if failed { (0, 0) } else { (d.reads, d.writes) })
                        })
                    })
                }),
                describe: Box::new(move |i| format!("payload size and input length {:?}, {}", s2[(i / 4) as usize], kinds[(i % 4) as usize])),
            },
            Phase {
                name: "persistent".into(), bounds: format!("{n} payload sizes and input lengths (at most 9000 bytes) x 4 kinds of contents x every read and every write call plain, one byte, seven bytes, interrupted before every byte or interrupted twice; each alone and with one failing read or write at every position up to {} and at the last ones", t.pick(40, 400)),
                total: n * 4 * 25, chunk: 2, cpu_limit: 120,
                run: Box::new(move |i, ctx| {
                    let (size, len) = s3[(i / 100) as usize];
                    let input = bytes(len.min(9000), i % 4);
                    proc::with("dd_dlt", |s| {
                        let text = size.to_string();
                        let mut r = run("ECU1", "APP1", &text, &input);
                        let want = s.run(&r).out;
                        r.reads.mode = MODES[(i / 4 % 5) as usize];
                        r.writes.mode = MODES[(i / 20 % 5) as usize];
                        let d = s.run(&r);
                        ctx.alive(); ctx.exec(); ctx.trans((d.reads + d.writes) as u64); ctx.state(mix(i) ^ 0x55);
                        judge(&d, &r.reads, &r.writes, &want)?;
                        for (which, n) in [(0, d.reads), (1, d.writes)] {
                            for k in (0..n).filter(|k| *k < t.pick(40, 400) || *k + 3 >= n) {
                                r.reads.at = if which == 0 { vec![(k, Act::Eio)] } else { vec![] };
                                r.writes.at = if which == 1 { vec![(k, [Act::Eio, Act::Enospc, Act::Epipe][(k % 3) as usize])] } else { vec![] };
                                let d = s.run(&r);
                                ctx.alive(); ctx.exec(); ctx.trans((d.reads + d.writes) as u64); ctx.state(mix(i) ^ 0x56 ^ (k as u64) << 8 ^ which << 60);
                                judge(&d, &r.reads, &r.writes, &want)?;
                            }
                        }
                        Ok(())
                    })
                }),
                describe: Box::new(move |i| format!("payload size and input length {:?}, {}, reads {:?}, writes {:?}", s4[(i / 100) as usize], kinds[(i % 4) as usize], MODES[(i / 4 % 5) as usize], MODES[(i / 20 % 5) as usize])),
            },
            Phase {
                name: "every error number".into(), bounds: "6 payload sizes and input lengths x every error number 1..133 but the interruption and the closed stream x every read and every write call".into(),
                total: 6 * 133, chunk: 8, cpu_limit: 60,
                run: Box::new(|i, ctx| {
                    let (size, len) = FEW[(i % 6) as usize];
                    let Some(&act) = proc::errnos(true).get((i / 6) as usize) else { return Ok(()) };
                    let input = bytes(len, 2);
                    proc::with("dd_dlt", |s| {
                        let text = size.to_string();
                        let mut r = run("ECU1", "APP1", &text, &input);
                        let d = s.run(&r);
                        let want = d.out.clone();
                        for (which, n) in [(0, d.reads), (1, d.writes)] { for k in 0..n {
                            r.reads.at = if which == 0 { vec![(k, act)] } else { vec![] };
                            r.writes.at = if which == 1 { vec![(k, act)] } else { vec![] };
                            let d = s.run(&r);
                            ctx.alive(); ctx.exec(); ctx.trans((d.reads + d.writes) as u64); ctx.state(mix(i) ^ 0x57 ^ (k as u64) << 8 ^ which << 60);
                            ctx.outcome(mix(i));
                            judge(&d, &r.reads, &r.writes, &want)?;
                        } }
                        Ok(())
                    })
                }),
                describe: Box::new(|i| format!("payload size and input length {:?}, {:?}", FEW[(i % 6) as usize], proc::errnos(true).get((i / 6) as usize))),
            },
        ],
        assumptions: vec!["an output that is closed from the start (EBADF) counts as no output; what is written to the error stream is not explored".into()],
    }
}
