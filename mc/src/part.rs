//! C07–C10: partitioning and the containment query.
use crate::engine::*;
use crate::huge;
use crate::reading::space;
use crate::refmodel::*;
use crate::streams::*;
use matchit::searchable::readfallbackit::ReadFallbackIterator;
use matchit::{partition_from, ContainedBySearch};
use rapiddlt::dlt_v1::DltStorageEntry;
use rapiddlt::dltbuffer::DltBuffer;

fn ranges(b: &[u8], parts: &[&[u8]]) -> Vec<(usize, usize)> {
    parts.iter().map(|p| ((p.as_ptr() as usize).wrapping_sub(b.as_ptr() as usize), p.len())).collect()
}
fn lossless(what: &str, b: &[u8], hb: u64, num: usize, parts: &[&[u8]], ctx: &mut Ctx) -> Result<(), String> {
    let r = ranges(b, parts);
    let mut p = 0;
    for (i, &(o, n)) in r.iter().enumerate() {
        if n == 0 { return Err(format!("{what} into {num}: partition {i} is empty: {r:?}")) }
        if o != p { return Err(format!("{what} into {num}: partition {i} starts at {} instead of {p}: {r:?}", o as isize)) }
        p += n;
        ctx.state(hb ^ mix(num as u64 ^ (p as u64) << 32));
    }
    if p != b.len() { return Err(format!("{what} into {num}: only the first {p} of {} bytes are in partitions: {r:?}", b.len())) }
    ctx.trans(r.len() as u64);
    ctx.exec();
    let mut h = r.len() as u64;
    for x in r { h = mix(h ^ x.1 as u64); }
    ctx.outcome(h);
    Ok(())
}
/// the partitions are the buffer, cut into pieces
pub fn covers(b: &[u8], parts: &[&[u8]]) -> Result<(), String> {
    if parts.concat() != b { return Err(format!("the partitions {:?} are not the file", ranges(b, parts))) }
    Ok(())
}
fn nums(len: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (1..=len + 2).collect();
    v.extend([2 * len + 3, 1 << 20, usize::MAX]);
    v
}
/// reading the parts gives the same messages as reading the whole, and no boundary is inside a message
fn same_messages<'b, P: Probe<'b>>(b: &'b [u8], hb: u64, num: usize, parts: &[&'b [u8]], msgs: &[(usize, usize)], whole: &[(usize, usize)], ctx: &mut Ctx) -> Result<(), String> {
    let base = b.as_ptr() as usize;
    let mut got = vec![];
    for p in parts {
        let o = (p.as_ptr() as usize).wrapping_sub(base);
        for (off, t) in ReadFallbackIterator::<P>::new(p, 0) {
            ctx.trans(1);
            let (a, n) = t.span()?;
            if a != p.as_ptr() as usize + off { return Err(format!("num {num}: message at {off} of the part at {o} refers to other bytes")) }
            got.push((o + off, n));
        }
        let end = o + p.len();
        ctx.state(hb ^ mix(end as u64));
        let k = msgs.partition_point(|&(m, _)| m < end);
        if k > 0 && msgs[k - 1].0 + msgs[k - 1].1 > end && end != b.len() {
            return Err(format!("partitioning into {num}: boundary {end} is inside the message {:?}", msgs[k - 1]));
        }
    }
    ctx.exec();
    if got != whole {
        let i = (0..).find(|&i| got.get(i) != whole.get(i)).unwrap();
        return Err(format!("partitioning into {num}: message {i} read from the parts is {:?}, from the whole {:?} (offset, length); parts {:?}", got.get(i), whole.get(i), ranges(b, parts)));
    }
    Ok(())
}
fn whole<'b, P: Probe<'b>>(b: &'b [u8]) -> Vec<(usize, usize)> {
    ReadFallbackIterator::<P>::new(b, 0).map(|(o, t)| (o, t.len())).collect()
}
fn c07_case<'b, P: Probe<'b>>(b: &'b [u8], ctx: &mut Ctx) -> Result<(), String> {
    if b.is_empty() { ctx.trivial += 1 }
    let hb = hash_bytes(b);
    for n in nums(b.len()) { lossless("partition_from", b, hb, n, &partition_from::<P>(b, n), ctx)?; }
    Ok(())
}
fn c07_dlt(b: &[u8], ctx: &mut Ctx) -> Result<(), String> {
    c07_case::<DltStorageEntry>(b, ctx)?;
    let buf = DltBuffer::Read(b.to_vec());
    for n in [1, 2, 3, 5, 8, b.len() + 1] { lossless("DltBuffer::partition", buf.as_slice(), 1, n, &buf.partition::<DltStorageEntry>(n), ctx)?; }
    Ok(())
}
fn c08_case<'b, P: Probe<'b>>(b: &'b [u8], ctx: &mut Ctx) -> Result<(), String> {
    let m = messages::<P>(b);
    let w = whole::<P>(b);
    if m.len() < 2 { ctx.trivial += 1 }
    let mut h = m.len() as u64;
    for &(o, n) in &m { h = mix(h ^ (o << 16 | n) as u64); }
    ctx.outcome(h);
    let hb = hash_bytes(b);
    for n in nums(b.len()) { same_messages::<P>(b, hb, n, &partition_from::<P>(b, n), &m, &w, ctx)?; }
    Ok(())
}

fn c08_dlt(b: &[u8], ctx: &mut Ctx) -> Result<(), String> {
    c08_case::<DltStorageEntry>(b, ctx)?;
    let buf = DltBuffer::Read(b.to_vec());
    let b = buf.as_slice();
    let (m, w) = (messages::<DltStorageEntry>(b), whole::<DltStorageEntry>(b));
    for n in [2, 3, 5, 8, b.len() + 1] { same_messages::<DltStorageEntry>(b, 1, n, &buf.partition::<DltStorageEntry>(n), &m, &w, ctx).map_err(|e| format!("DltBuffer: {e}"))?; }
    Ok(())
}

/// Streams of maximum-size and overlapping messages: every sequence of gaps between heads of one length.
struct Big { lens: Vec<u16>, gaps: Vec<usize>, depth: u32 }
impl Big {
    fn new(t: Tier) -> Big {
        Big { lens: vec![65535, 65534, 40000], gaps: vec![1, 4, 20, 21, 16000, 32775, 65500, 65550, 65551, 65552, 70000], depth: t.pick(3, 4) }
    }
    fn toks(&self) -> Tokens { Tokens::new(self.depth, self.gaps.iter().map(|_| ("", vec![])).collect()) }
    fn total(&self) -> u64 { self.toks().total() * self.lens.len() as u64 * 2 }
    fn build(&self, i: u64) -> (Vec<u8>, String) {
        let k = self.lens.len() as u64;
        let (l, pre, s) = (self.lens[(i % k) as usize], i / k % 2, self.toks().seq(i / k / 2));
        let mut pos = vec![0usize];
        for g in s { pos.push(pos.last().unwrap() + self.gaps[g]); }
        let end = pos.last().unwrap() + 16 + l as usize + 30;
        let p0 = if pre == 1 { 33 } else { 0 };
        let mut b = vec![b'.'; p0 + end];
        if pre == 1 { b[..20].copy_from_slice(&msg(4, 0)); }
        for &p in &pos { let q = p0 + p; b[q..q + 20].copy_from_slice(&h(l)); }
        let n = b.len();
        b[n - 25..n - 5].copy_from_slice(&msg(4, 0));
        (b, format!("heads announcing {l} bytes at {:?}", pos.iter().map(|p| p + p0).collect::<Vec<_>>()))
    }
    fn phase(t: Tier, run: Box<dyn Fn(&[u8], &mut Ctx) -> Result<(), String>>) -> Phase {
        let (a, d) = (Big::new(t), Big::new(t));
        Phase {
            name: "maximum-size overlaps".into(),
            bounds: format!("1 to {} heads announcing 65535, 65534 or 40000 bytes, the gaps between them each of {:?}, with and without messages around", a.depth + 1, a.gaps),
            total: a.total(), chunk: 4, cpu_limit: 20,
            run: Box::new(move |i, c| { let (b, _) = a.build(i); run(&b, c) }),
            describe: Box::new(move |i| d.build(i).1),
        }
    }
}
const FEW: [usize; 14] = [1, 2, 3, 4, 5, 6, 7, 8, 11, 16, 33, 64, 200, 1000];

/// Long streams: chains of embedded and overlapping messages, garbage, markers.
pub fn long_streams(size: usize) -> Vec<(String, Vec<u8>)> {
    let mut v: Vec<(String, Vec<u8>)> = vec![];
    let rep = |name: &str, unit: &[u8]| -> (String, Vec<u8>) { (format!("{name} x {size}"), unit.iter().copied().cycle().take(size).collect()) };
    v.push(rep("zeros", &[0]));
    v.push(rep("markers", b"DLT\x01"));
    v.push(rep("M4", &msg(4, 0)));
    v.push(rep("M300 g7", &[msg(300, b'p'), vec![b'g'; 7]].concat()));
    v.push(rep("M65535", &msg(65535, b'p')));
    for (d, l) in [(20usize, 24u16), (20, 64), (20, 4000), (20, 65535), (21, 5), (28, 12), (36, 20), (40, 24), (44, 40), (78, 65000), (4000, 65535), (20, 3)] {
        // a head announcing l bytes every d bytes
        let mut u = h(l); u.resize(d, b'.');
        v.push(rep(&format!("head({l}) every {d}"), &u));
    }
    // each head ends exactly at the end of the buffer, up to the largest possible
    let mut b = vec![b'.'; size];
    for p in (0..size.saturating_sub(20)).step_by(24) { let l = size - p - 16; if l <= 65535 { b[p..p + 20].copy_from_slice(&h(l as u16)); } }
    v.push((format!("heads every 24 that all end at {size}"), b));
    // nested messages as dd_dlt makes them from dd_dlt output
    for ps in [40usize, 44, 46, 50, 77, 100] {
        let inner: Vec<u8> = msg(29, b'h').iter().copied().cycle().take(size / 2).collect();
        let mut b = vec![];
        for c in inner.chunks_exact(ps) { b.extend_from_slice(&h((4 + 14 + ps) as u16)); b.extend_from_slice(&[1; 14]); b.extend_from_slice(c); }
        v.push((format!("45-byte messages in {ps}-byte payloads"), b));
    }
    v
}
fn long_phase(size: usize, run: Box<dyn Fn(&[u8], &mut Ctx) -> Result<(), String>>) -> Phase {
    let n = long_streams(64).len() as u64;
    Phase {
        name: "long streams".into(),
        bounds: format!("{n} repeated patterns of markers, messages and heads whose messages overlap or nest, to {size} bytes: 20 s CPU, 8 MB stack"),
        total: n, chunk: 1, cpu_limit: 20,
        run: Box::new(move |i, c| { let (_, b) = long_streams(size).swap_remove(i as usize); run(&b, c) }),
        describe: Box::new(move |i| long_streams(size).swap_remove(i as usize).0),
    }
}

const ALLN: &str = "each partitioned into every number of parts from 1 to length+2, and into 2*length+3, 2^20 and usize::MAX";

pub fn c07(t: Tier) -> Plan {
    Plan {
        phases: vec![
            space("dlt fragments", dlt_tokens(t.pick(4, 5)), ALLN, 16, Box::new(c07_dlt)),
            space("small-type bytes", mini_bytes(t.pick(8, 10)), ALLN, 1024, Box::new(|b, c| c07_case::<Mini>(b, c))),
            space("small-type fragments", mini_tokens(t.pick(6, 7)), ALLN, 1024, Box::new(|b, c| c07_case::<Mini>(b, c))),
            space("single-byte marker", one_bytes(t.pick(8, 10)), ALLN, 512, Box::new(|b, c| c07_case::<One>(b, c))),
            space("no greatest length", endless_tokens(t.pick(6, 8)), ALLN, 512, Box::new(|b, c| c07_case::<Endless>(b, c))),
            Big::phase(t, Box::new(|b, c| { let hb = hash_bytes(b); for n in FEW { lossless("partition_from", b, hb, n, &partition_from::<DltStorageEntry>(b, n), c)?; } Ok(()) })),
            long_phase(t.pick(1 << 20, 8 << 20), Box::new(|b, c| {
                let hb = hash_bytes(b);
                for n in [1, 2, 7, 64, 1000, 100_000] { c.alive(); lossless("partition_from", b, hb, n, &partition_from::<DltStorageEntry>(b, n), c)?; }
                Ok(())
            })),
            boundaries(t, |b, n, c| lossless("partition_from", b, b.len() as u64, n, &partition_from::<DltStorageEntry>(b, n), c)),
            huge::phase(t, huge::LEN, "partitioned into 1, 2, 3, 8 and 1000 parts", Box::new(|b, _, c| {
                for n in [1, 2, 3, 8, 1000] { c.alive(); lossless("partition_from", b, 1, n, &partition_from::<DltStorageEntry>(b, n), c)?; }
                Ok(())
            })),
        ],
        assumptions: vec!["streams longer than the bounds behave like the explored ones".into()],
    }
}
pub fn c08(t: Tier) -> Plan {
    let some = |ns: &'static [usize]| -> Box<dyn Fn(&[u8], &mut Ctx) -> Result<(), String>> { Box::new(move |b, c| {
        let (m, w) = (messages::<DltStorageEntry>(b), whole::<DltStorageEntry>(b));
        let hb = hash_bytes(b);
        let mut o = mix(m.len() as u64);
        for &n in ns { c.alive(); let p = partition_from::<DltStorageEntry>(b, n); for x in &p { o = mix(o ^ x.len() as u64) } same_messages::<DltStorageEntry>(b, hb, n, &p, &m, &w, c)?; }
        c.outcome(o);
        Ok(())
    }) };
    Plan {
        phases: vec![
            space("dlt fragments", dlt_tokens(t.pick(4, 5)), ALLN, 16, Box::new(c08_dlt)),
            space("small-type bytes", mini_bytes(t.pick(8, 10)), ALLN, 1024, Box::new(|b, c| c08_case::<Mini>(b, c))),
            space("small-type fragments", mini_tokens(t.pick(6, 7)), ALLN, 1024, Box::new(|b, c| c08_case::<Mini>(b, c))),
            space("single-byte marker", one_bytes(t.pick(8, 10)), ALLN, 512, Box::new(|b, c| c08_case::<One>(b, c))),
            space("no greatest length", endless_tokens(t.pick(6, 8)), ALLN, 512, Box::new(|b, c| c08_case::<Endless>(b, c))),
            Big::phase(t, some(&FEW)),
            long_phase(t.pick(1 << 20, 8 << 20), some(&[2, 7, 64, 1000, 100_000])),
            boundaries(t, |b, n, c| {
                let (m, w) = (messages::<DltStorageEntry>(b), whole::<DltStorageEntry>(b));
                c.outcome(b.len() as u64);
                same_messages::<DltStorageEntry>(b, b.len() as u64, n, &partition_from::<DltStorageEntry>(b, n), &m, &w, c)
            }),
            huge::phase(t, huge::G4 / 2 * 3 + 1000, "its start partitioned into 2 and 3 parts so that a boundary would fall into a message at 2 GiB or 4 GiB", Box::new(|b, e, c| {
                for &(o, l) in &e[1..e.len() - 1] {
                    for p in [o + 1, o + l - 1] {
                        // the first boundary moves in front of the message it falls into, the second counts from there
                        let s = e.iter().map(|m| (m, p.wrapping_sub(m.0))).find(|&(m, s)| m.0 <= s && s < m.0 + m.1).map_or(p / 2, |x| x.1);
                        let (n, len) = if o < huge::G4 - 1000 { (2, 2 * p) } else { (3, s * 3) };
                        let (b, e) = (&b[..len.min(b.len())], e.iter().copied().filter(|m| m.0 + m.1 <= len).collect::<Vec<_>>());
                        c.alive();
                        let parts = partition_from::<DltStorageEntry>(b, n);
                        let r = ranges(b, &parts);
                        if let Some(x) = r.iter().skip(1).find(|x| e.iter().any(|m| m.0 < x.0 && x.0 < m.0 + m.1)) { return Err(format!("{} bytes in {n} parts: the boundary {} is inside a message: {r:?}", b.len(), x.0)) }
                        if r.iter().any(|x| x.0 == o) { c.outcome(o as u64) }
                        c.trans(n as u64); c.exec();
                    }
                }
                Ok(())
            })),
        ],
        assumptions: vec!["streams longer than the bounds behave like the explored ones".into()],
    }
}

/// `unit` repeated and cut to `len`; the last message may be truncated and is then none
fn c09_case<'b, P: Probe<'b>>(b: &'b [u8], ctx: &mut Ctx) -> Result<(), String> { c09_parts::<P>(b, 1.., &|n| partition_from::<P>(b, n), ctx) }
fn c09_dlt(b: &[u8], ctx: &mut Ctx) -> Result<(), String> {
    c09_case::<DltStorageEntry>(b, ctx)?;
    let buf = DltBuffer::Read(b.to_vec());
    c09_parts::<DltStorageEntry>(buf.as_slice(), 1.., &|n| buf.partition::<DltStorageEntry>(n), ctx).map_err(|e| format!("DltBuffer: {e}"))
}
fn c09_parts<'b, P: Probe<'b>>(b: &'b [u8], nums: impl IntoIterator<Item = usize>, part: &dyn Fn(usize) -> Vec<&'b [u8]>, ctx: &mut Ctx) -> Result<(), String> {
    let maxl = messages::<P>(b).iter().map(|m| m.1).max().unwrap_or(0);
    let mut n = 0;
    let hb = hash_bytes(b);
    for num in nums {
        let size = b.len() / num;
        if num * (maxl + 1) > size / 4 { break }
        n += 1;
        ctx.alive();
        let parts = part(num);
        let r = ranges(b, &parts);
        ctx.trans(parts.len() as u64);
        if parts.len() != num { return Err(format!("{} bytes, longest message {maxl}: {} partitions instead of {num}: {r:?}", b.len(), parts.len())) }
        for (i, p) in parts.iter().enumerate() {
            ctx.state(hb ^ mix((num << 16 | i) as u64));
            if i + 1 < num && (p.len() + maxl < size || p.len() > size + maxl) {
                return Err(format!("{} bytes, longest message {maxl}, {num} partitions: partition {i} has {} bytes, expected {size} give or take one message: {r:?}", b.len(), p.len()));
            }
        }
        ctx.exec();
    }
    if n < 2 { ctx.trivial += 1 }
    ctx.outcome(n << 32 | maxl as u64);
    Ok(())
}
fn c09_phase<'x>(name: &str, toks: Tokens, lens: Vec<usize>, run: fn(&[u8], &mut Ctx) -> Result<(), String>) -> Phase {
    let n = toks.total() - 1;
    let k = lens.len() as u64;
    let toks = std::rc::Rc::new(toks);
    let (t1, l1) = (toks.clone(), lens.clone());
    let make = move |i: u64| -> Vec<u8> { let u = t1.build(1 + i % n); u.iter().copied().cycle().take(l1[(i / n) as usize]).collect() };
    Phase {
        name: name.into(),
        bounds: format!("every repeated sequence of at most {} of {} fragments, cut to each of {} total lengths {}..={}; every partition count with count x (longest message + 1) <= partition size / 4", toks.depth, toks.toks.len(), k, lens[0], lens[lens.len() - 1]),
        total: n * k, chunk: 32, cpu_limit: 10,
        run: Box::new(move |i, c| run(&make(i), c)),
        describe: Box::new(move |i| format!("{} repeated to {} bytes", toks.describe(1 + i % n), lens[(i / n) as usize])),
    }
}
pub fn c09(t: Tier) -> Plan {
    let mini_lens: Vec<usize> = [28 * 2 * 2, 28 * 3 * 3, 28 * 4 * 4, 28 * 7 * 7].iter().flat_map(|&b| (0..t.pick(8, 30)).map(move |d| b + d)).collect();
    let dlt = Tokens::new(t.pick(3, 4), vec![
        ("M4", msg(4, 0)), ("M5", msg(5, b'p')), ("M9", msg(9, b'q')), ("M31", msg(31, b'r')), ("H24", h(24)), ("H3!", h(3)), ("g", b"g".to_vec()), ("g13", vec![b'g'; 13]),
    ]);
    let dlt_lens: Vec<usize> = [4 * 2 * 2 * 60, 4 * 5 * 5 * 60, 4 * 8 * 8 * 60, 4 * 16 * 16 * 40].iter().flat_map(|&b| (0..t.pick(5, 25)).map(move |d| b + d * 3)).collect();
    Plan {
        phases: vec![
            c09_phase("small-type streams", mini_tokens(t.pick(4, 5)), mini_lens, |b, c| c09_case::<Mini>(b, c)),
            c09_phase("dlt streams", dlt, dlt_lens, c09_dlt),
            c09_phase("large dlt streams", Tokens::new(2, vec![("M4", msg(4, 0)), ("M62", msg(62, b'q')), ("M300", msg(300, b'r')), ("g", b"g".to_vec())]),
                vec![1_000_000, 1_000_003, 4_000_000], c09_dlt),
            Phase {
                name: "many partitions".into(), bounds: format!("messages of 20 bytes, and of 20 and 31 in turn, repeated to {} MB, directly and as a buffer: 22 numbers of partitions up to 2049 as far as the partitions are large enough", t.pick(120, 400)),
                total: 4, chunk: 1, cpu_limit: 60,
                run: Box::new(move |i, c| {
                    let unit = if i / 2 == 0 { msg(4, 0) } else { [msg(4, 0), msg(15, b'x')].concat() };
                    let v: Vec<u8> = unit.iter().copied().cycle().take(t.pick(120, 400) * 1_000_000 + 7).collect();
                    let nums = [1usize, 2, 63, 64, 65, 127, 128, 129, 255, 256, 257, 500, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049];
                    if i % 2 == 0 { return c09_parts::<DltStorageEntry>(&v, nums, &|n| partition_from::<DltStorageEntry>(&v, n), c) }
                    let buf = DltBuffer::Read(v);
                    c09_parts::<DltStorageEntry>(buf.as_slice(), nums, &|n| buf.partition::<DltStorageEntry>(n), c)
                }),
                describe: Box::new(|i| format!("{}, {}", ["messages of 20 bytes", "messages of 20 and 31 bytes"][(i / 2) as usize], ["partition_from", "DltBuffer::partition"][(i % 2) as usize])),
            },
        ],
        assumptions: vec!["streams longer or less regular than the explored ones behave like them".into()],
    }
}

/// bytes inside a long message: none that begin a marker, many that do, heads of messages that fit and heads that do not
const INSIDE: [&str; 4] = ["zeros", "DLT", "heads of messages of 24 bytes every 40 bytes", "heads announcing 2 bytes every 33 bytes"];
fn inside(f: usize, n: usize) -> Vec<u8> {
    let unit = match f { 0 => vec![0], 1 => b"DLT".to_vec(), 2 => { let mut u = h(8); u.resize(40, b'.'); u } _ => { let mut u = h(2); u.resize(33, b'D'); u } };
    unit.into_iter().cycle().take(n).collect()
}
/// one long message, in front of it nothing or a short one, behind it a short one
fn container(l: u16, f: usize, pre: bool) -> Vec<u8> {
    let mut b = if pre { msg(5, b'f') } else { vec![] };
    b.extend(h(l));
    b.extend(inside(f, l as usize - 4));
    b.extend(msg(4, 0));
    b.extend_from_slice(b"end");
    b
}
/// every position of the first boundary inside a message of maximum size
fn boundaries(t: Tier, run: fn(&[u8], usize, &mut Ctx) -> Result<(), String>) -> Phase {
    let lens = [65535u16, 32768, 255];
    let every = t.pick(7usize, 1);
    let mut list: Vec<(u16, usize, bool, usize)> = vec![];
    for l in lens { for f in 0..INSIDE.len() { for pre in [false, true] {
        let (o, n) = (if pre { 21 } else { 0 }, l as usize + 16);
        // every position at which messages inside begin and end, those near the ends, and of the others every third
        for p in 1..n { if p < 200 || p + 200 > n || (p - 20) % 40 < 2 || p % every == 0 { list.push((l, f, pre, o + p)) } }
    } } }
    let list = std::rc::Rc::new(list);
    let l2 = list.clone();
    let k = list.len() as u64;
    Phase {
        name: "every boundary".into(),
        bounds: format!("one message of {lens:?} bytes with {INSIDE:?} in it, alone or behind a short one; the size of the parts chosen so that the first boundary would fall on {} of its bytes", if every == 1 { "each" } else { "each seventh, and each near its ends or the begin of a message inside" }),
        total: k, chunk: 64, cpu_limit: 10,
        run: Box::new(move |i, c| {
            let (l, f, pre, p) = list[i as usize];
            let mut b = container(l, f, pre);
            let n = (b.len() / p + 1).max(2);
            b.resize(p * n, b'#');
            run(&b, n, c)
        }),
        describe: Box::new(move |i| { let (l, f, pre, p) = l2[i as usize]; format!("a message of {l} bytes of {}{}, the first boundary at {p}", INSIDE[f], if pre { " behind a short one" } else { "" }) }),
    }
}
/// every distance of a query from the head of the message around it
fn lookback(t: Tier) -> Phase {
    const BLOCK: usize = 2048;
    let mut list: Vec<(u16, usize, bool, usize)> = vec![];
    for l in [65535u16, 4096, 300] { for f in 0..INSIDE.len() { for pre in [false, true] { for k in 0..(l as usize + 100).div_ceil(BLOCK) { list.push((l, f, pre, k * BLOCK)) } } } }
    let list = std::rc::Rc::new(list);
    let l2 = list.clone();
    let lens: &[usize] = t.pick(&[1], &[1, 2, 3, 4, 20, 1000, 40000, 65530]);
    Phase {
        name: "every distance".into(),
        bounds: format!("messages of 65535, 4096 and 300 bytes with {INSIDE:?} in them, alone or behind a short one: asked at each byte for ranges of {lens:?} bytes and for those that end with the message and one behind it"),
        total: list.len() as u64, chunk: 1, cpu_limit: 20,
        run: Box::new(move |i, c| {
            let (l, f, pre, from) = list[i as usize];
            let b = container(l, f, pre);
            let m = messages::<DltStorageEntry>(&b);
            let s = ContainedBySearch::<DltStorageEntry>::new();
            let end = b.len() - 23;
            let hb = hash_bytes(&b);
            for p in (from..from + BLOCK).take_while(|p| *p < b.len()) {
                for &n in lens { c10_query(&b, &s, (p, p + n), &m, c)?; }
                if p < end { c10_query(&b, &s, (p, end), &m, c)?; c10_query(&b, &s, (p, end + 1), &m, c)?; }
                c.state(hb ^ mix(p as u64));
                if p % 64 == 0 { c.alive() }
            }
            c.outcome(mix(i));
            Ok(())
        }),
        describe: Box::new(move |i| { let (l, f, pre, k) = l2[i as usize]; format!("a message of {l} bytes of {}{}, positions from {k}", INSIDE[f], if pre { " behind a short one" } else { "" }) }),
    }
}

fn c10_query<'b, P: Probe<'b>>(b: &'b [u8], s: &ContainedBySearch<P>, r: (usize, usize), msgs: &[(usize, usize)], ctx: &mut Ctx) -> Result<(), String> {
    let k = msgs.partition_point(|&(m, _)| m < r.0);
    let exp = if r.0 < r.1 && r.1 <= b.len() && k > 0 && msgs[k - 1].0 + msgs[k - 1].1 >= r.1 { Some(msgs[k - 1]) } else { None };
    let got = s.contained_by(b, r);
    ctx.trans(1);
    ctx.exec();
    let g = got.as_ref().map(|(o, t)| (*o, t.len()));
    if g != exp { return Err(format!("contained_by({}..{}): {g:?}, expected {exp:?} (offset, length)", r.0, r.1)) }
    if let Some((o, t)) = got {
        let (p, n) = t.span()?;
        if (p.wrapping_sub(b.as_ptr() as usize), n) != (o, exp.unwrap().1) { return Err(format!("contained_by({}..{}): refers to other bytes", r.0, r.1)) }
    }
    Ok(())
}
fn c10_case<'b, P: Probe<'b>>(b: &'b [u8], ctx: &mut Ctx) -> Result<(), String> {
    let m = messages::<P>(b);
    let s = ContainedBySearch::<P>::new();
    let hb = hash_bytes(b);
    for i in 0..=b.len() + 1 {
        ctx.state(hb ^ mix(i as u64));
        for j in 0..=b.len() + 2 { c10_query(b, &s, (i, j), &m, ctx)?; }
    }
    let mut h = m.len() as u64;
    for &(o, n) in &m { h = mix(h ^ (o << 16 | n) as u64); }
    ctx.outcome(h);
    if m.is_empty() { ctx.trivial += 1 }
    Ok(())
}
/// ranges around every message boundary, every valid head, and the look-back distance
fn c10_edges(b: &[u8], ctx: &mut Ctx) -> Result<(), String> {
    let v = valid_at::<DltStorageEntry>(b);
    let m = parse(&v, 0);
    let s = ContainedBySearch::<DltStorageEntry>::new();
    let mut pts: Vec<usize> = vec![0, 1, b.len() / 2, b.len() - 1, b.len()];
    let pick: Vec<(usize, usize)> = if v.len() <= 12 { v.clone() } else { let n = v.len(); [0, 1, n / 3, n / 2, n - 2, n - 1].iter().map(|&i| v[i]).collect() };
    for &(o, l) in &pick { for p in [o, o + 1, o + 3, o + 4, o + 20, o + l, o + l / 2] { for d in [-1i64, 0, 1] { let q = p as i64 + d; if q >= 0 && q as usize <= b.len() { pts.push(q as usize) } } } }
    pts.sort(); pts.dedup();
    let hb = hash_bytes(b);
    for &i in &pts {
        ctx.alive();
        ctx.state(hb ^ mix(i as u64));
        for len in [1, 2, 4, 20, 65535] { c10_query(b, &s, (i, i + len), &m, ctx)?; }
        for &j in pts.iter().filter(|&&j| j > i).take(6) { c10_query(b, &s, (i, j), &m, ctx)?; }
    }
    ctx.outcome(mix(hb));
    Ok(())
}
pub fn c10(t: Tier) -> Plan {
    const ALLR: &str = "each asked for every range (i, j) with i <= length+1, j <= length+2";
    Plan {
        phases: vec![
            space("dlt fragments", dlt_tokens(t.pick(4, 5)), ALLR, 8, Box::new(|b, c| c10_case::<DltStorageEntry>(b, c))),
            space("small-type bytes", mini_bytes(t.pick(8, 10)), ALLR, 512, Box::new(|b, c| c10_case::<Mini>(b, c))),
            space("small-type fragments", mini_tokens(t.pick(6, 7)), ALLR, 512, Box::new(|b, c| c10_case::<Mini>(b, c))),
            space("single-byte marker", one_bytes(t.pick(8, 10)), ALLR, 512, Box::new(|b, c| c10_case::<One>(b, c))),
            space("no greatest length", endless_tokens(t.pick(6, 8)), ALLR, 512, Box::new(|b, c| c10_case::<Endless>(b, c))),
            Big::phase(t, Box::new(c10_edges)),
            huge::phase(t, huge::LEN, "asked for ranges at each message", Box::new(|b, e, c| {
                let s = ContainedBySearch::<DltStorageEntry>::new();
                for &(o, l) in e.iter().filter(|m| m.0 > huge::G2) {
                    c.alive();
                    for r in [(o + 1, o + 2), (o + 4, o + l), (o + l - 1, o + l), (o + 3, o + l + 1)] { c10_query(b, &s, r, e, c)?; }
                }
                Ok(())
            })),
            lookback(t),
            long_phase(t.pick(1 << 20, 8 << 20), Box::new(c10_edges)),
        ],
        assumptions: vec!["streams longer than the bounds behave like the explored ones".into()],
    }
}
