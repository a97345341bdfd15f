//! C04, C05, C06: header fields, message info, header serialisation, over their complete finite domains.
use crate::engine::*;
use crate::streams::*;
use matchit::FromBytesReadableTrait;
use rapiddlt::dlt_v1::*;
use zerocopy::{AsBytes, FromBytes};

/// offset of every optional field in the tail (behind the standard header), by the flags of the header type
pub struct Layout { pub ecu: Option<usize>, pub tmsp: Option<usize>, pub ext: Option<usize>, pub end: usize }
pub fn layout(htyp: u8) -> Layout {
    let mut p = 0;
    let mut take = |on: bool, n: usize| { if on { p += n; Some(p - n) } else { None } };
    let ecu = take(htyp & 4 != 0, 4);
    take(htyp & 8 != 0, 4);
    let tmsp = take(htyp & 16 != 0, 4);
    let ext = take(htyp & 1 != 0, 10);
    Layout { ecu, tmsp, ext, end: p }
}
fn be(b: &[u8]) -> u32 { (b[0] as u32) << 24 | (b[1] as u32) << 16 | (b[2] as u32) << 8 | b[3] as u32 }

/// every accessor of one entry whose standard header lies at `at` in `b` and announces `len` bytes
pub fn entry_check(b: &[u8], at: usize, len: usize, e: &DltEntry<'_>, ctx: &mut Ctx) -> Result<(), String> {
    let htyp = b[at];
    let tail = &b[at + 4..at + len];
    let l = layout(htyp);
    let base = b.as_ptr() as usize;
    macro_rules! eq { ($what:expr, $got:expr, $exp:expr) => { { let (g, x) = ($got, $exp); if g != x { return Err(format!("{}: {:?}, expected {:?}", $what, g, x)) } } } }
    let fit = |o: Option<usize>, n: usize| o.filter(|&o| o + n <= tail.len());
    eq!("tail address", (e.tail.as_ptr() as usize - base, e.tail.len()), (at + 4, len - 4));
    eq!("header address", e.header as *const _ as usize - base, at);
    eq!("announced length", e.header.length(), len);
    eq!("len()", e.len(), len);
    let t = &e.header.header_type;
    eq!("flag extended", t.is_extended_header(), htyp & 1 != 0);
    eq!("flag msb first", t.is_msb_first(), htyp & 2 != 0);
    eq!("flag ecu", t.is_with_ecu_id(), htyp & 4 != 0);
    eq!("flag session", t.is_with_session_id(), htyp & 8 != 0);
    eq!("flag timestamp", t.is_with_timestamp(), htyp & 16 != 0);
    eq!("version", t.version(), htyp >> 5);
    eq!("header bytes", e.header.as_bytes(), &b[at..at + 4]);
    eq!("ecu_id()", e.ecu_id(), fit(l.ecu, 4).map(|o| be(&tail[o..])));
    eq!("timestamp()", e.timestamp(), fit(l.tmsp, 4).map(|o| be(&tail[o..])));
    let x = e.extended_header();
    eq!("extended_header() address", x.map(|x| x as *const _ as usize - base), fit(l.ext, 10).map(|o| at + 4 + o));
    if let (Some(x), Some(o)) = (x, fit(l.ext, 10)) {
        eq!("extended header msin", x.msin.as_bytes(), &tail[o..o + 1]);
        eq!("extended header noar", x.noar, tail[o + 1]);
        eq!("extended header apid", &x.apid[..], &tail[o + 2..o + 6]);
        eq!("extended header ctid", &x.ctid[..], &tail[o + 6..o + 10]);
    }
    let p = e.payload();
    eq!("payload()", p.map(|p| (p.as_ptr() as usize - base, p.len())), if l.end <= tail.len() { Some((at + 4 + l.end, tail.len() - l.end)) } else { None });
    ctx.trans(6);
    ctx.exec();
    let has = |b: bool| b as u64;
    ctx.outcome((htyp as u64) << 8 | has(e.ecu_id().is_some()) | has(e.timestamp().is_some()) << 1 | has(x.is_some()) << 2 | has(p.is_some()) << 3 | has(p.is_some_and(|p| p.is_empty())) << 4);
    Ok(())
}
/// the message alone and behind a storage header, at address `align` modulo 8, followed by `trail` bytes
fn message_check(tail: &[u8], htyp: u8, align: usize, trail: usize, ctx: &mut Ctx) -> Result<(), String> {
    let len = tail.len() + 4;
    let mut v = vec![0xee; align]; // the allocation is 8-byte aligned or better
    v.reserve_exact(20 + tail.len() + trail);
    let s = v.len();
    v.extend_from_slice(&head(len as u16, htyp, 0x0a0b0c0d, b"ECU9"));
    v.extend_from_slice(tail);
    v.resize(v.len() + trail, 0xff);
    let Some((n, e)) = DltEntry::try_read(&v[s + 16..]) else { return Err("DltEntry::try_read finds no message".into()) };
    if n != len { return Err(format!("DltEntry::try_read: {n} bytes, expected {len}")) }
    entry_check(&v, s + 16, len, &e, ctx)?;
    let Some((n, e)) = DltStorageEntry::try_read(&v[s..]) else { return Err("DltStorageEntry::try_read finds no message".into()) };
    if n != len + 16 || e.len() != len + 16 { return Err(format!("DltStorageEntry: {n} bytes, len() {}, expected {}", e.len(), len + 16)) }
    let sh = e.storage_header;
    if sh as *const _ as usize != v.as_ptr() as usize + s { return Err("storage header has another address".into()) }
    if (sh.pattern, sh.secs.get(), sh.msecs.get(), sh.ecu) != (*b"DLT\x01", 0x0a0b0c0d, 0x00022a30, *b"ECU9") {
        return Err(format!("storage header: {sh:?}"));
    }
    entry_check(&v, s + 16, len, &e.dlt, ctx)
}
fn fill(n: usize, seed: usize) -> Vec<u8> { (0..n).map(|i| (i * 37 + 11 + seed * 101) as u8).collect() }

pub fn c04(t: Tier) -> Plan {
    let mut lens: Vec<usize> = (0..=t.pick(40, 300)).collect();
    lens.extend([254, 255, 256, 257, 1000, 4096, 65529, 65530, 65531]);
    lens.dedup();
    let n = lens.len() as u64;
    const AL: u64 = 8;
    const TR: [usize; 4] = [0, 1, 12, 70];
    let l2 = lens.clone();
    let split = move |i: u64| { let (h, r) = ((i % 256) as u8, i / 256); let (l, r) = (lens[(r % n) as usize], r / n); (h, l, (r % AL) as usize, TR[(r / AL) as usize]) };
    let split2 = split.clone();
    let val = |i: u64| { let (v, r) = ((i % 256) as u8, i / 256); let (pos, r) = ((r % 26) as usize, r / 26); let (fl, r) = (r % 32, r / 32); (v, pos, fl as u8, [0x20u8, 0x00, 0xe0][(r % 3) as usize] as u8) };
    Plan {
        phases: vec![
            Phase {
                name: "layout".into(),
                bounds: format!("all 256 header types x {} tail lengths (0..={} and around 256, 4096, 65531) x 8 address alignments x {:?} bytes behind the message, with and without storage header: every accessor against the field table of the DLT standard", l2.len(), t.pick(40, 300), TR),
                total: 256 * n * AL * TR.len() as u64, chunk: 1024, cpu_limit: 10,
                run: Box::new(move |i, ctx| {
                    let (h, l, a, tr) = split(i);
                    ctx.state(mix(i));
                    message_check(&fill(l, h as usize), h, a, tr, ctx)
                }),
                describe: Box::new(move |i| { let (h, l, a, tr) = split2(i); format!("header type 0x{h:02x}, {l} bytes behind the standard header, address +{a}, {tr} further bytes") }),
            },
            Phase {
                name: "field values".into(),
                bounds: "all 32 flag combinations x 3 versions x each of the first 26 tail bytes set to each of 256 values (others 0x00 and 0xff)".into(),
                total: 256 * 26 * 32 * 3, chunk: 1024, cpu_limit: 10,
                run: Box::new(move |i, ctx| {
                    let (v, pos, fl, ver) = val(i);
                    ctx.state(mix(i ^ 0x77));
                    for bg in [0u8, 0xff] {
                        let mut tail = vec![bg; 30];
                        tail[pos] = v;
                        message_check(&tail, fl | ver, 1, 3, ctx)?;
                    }
                    Ok(())
                }),
                describe: Box::new(move |i| { let (v, pos, fl, ver) = val(i); format!("header type 0x{:02x}, tail byte {pos} = 0x{v:02x}", fl | ver) }),
            },
        ],
        assumptions: vec!["accessors depend on the header type, the tail length and the field bytes only".into()],
    }
}

pub fn ref_info(m: u8) -> Option<DltMessageType> {
    use DltMessageType::*;
    let i = m >> 4;
    Some(match (m >> 1) & 7 {
        0 => { use DltLogMessageTypeInfo::*; DltTypeLog(*[DltLogFatal, DltLogDltError, DltLogWarn, DltLogInfo, DltLogDebug, DltLogVerbose].get((i as usize).checked_sub(1)?)?) }
        1 => { use DltTraceMessageTypeInfo::*; DltTypeAppTrace(*[DltTraceVariable, DltTraceFunctionIn, DltTraceFunctionOut, DltTraceState, DltTraceVfb].get((i as usize).checked_sub(1)?)?) }
        2 => { use DltNetworkMessageTypeInfo::*; DltTypeNwTrace(*[DltNwTraceIpc, DltNwTraceCan, DltNwTraceFlexray, DltNwTraceMost, DltNwTraceEthernet, DltNwTraceSomeip].get((i as usize).checked_sub(1)?)?) }
        3 => { use DltControlMessageTypeInfo::*; DltTypeControl(*[DltControlRequest, DltControlResponse].get((i as usize).checked_sub(1)?)?) }
        _ => return None,
    })
}
fn all_types() -> Vec<(DltMessageType, u8)> {
    // type and info numbers of the DLT standard, type-specific info in the upper four bits
    (0..=255u8).filter(|m| m & 1 == 0).filter_map(|m| ref_info(m).map(|t| (t, m))).collect()
}
pub fn c05(_t: Tier) -> Plan {
    assert_eq!(all_types().len(), 6 + 5 + 6 + 2);
    Plan {
        phases: vec![
            Phase {
                name: "decode".into(), bounds: "all 256 message info bytes x all 8 settings of the other header flags that allow an extended header".into(), total: 256 * 8, chunk: 16, cpu_limit: 10,
                run: Box::new(|i, ctx| {
                    let m = i as u8;
                    let htyp = 0x21 | ((i / 256) as u8) << 2;
                    ctx.state(i);
                    let exp = ref_info(m);
                    let check = |what: &str, t: &MessageType| -> Result<(), String> {
                        if t.is_verbose() != (m & 1 == 1) { return Err(format!("{what}: byte 0x{m:02x}: verbose {}", t.is_verbose())) }
                        if t.message_type() != exp { return Err(format!("{what}: byte 0x{m:02x}: type {:?}, expected {exp:?}", t.message_type())) }
                        if t.info() != (m & 1 == 1, exp) { return Err(format!("{what}: byte 0x{m:02x}: info {:?}", t.info())) }
                        Ok(())
                    };
                    check("MessageType", MessageType::ref_from(&[m]).unwrap())?;
                    let mut v = h(4);
                    v[16] = htyp;
                    v.extend(std::iter::repeat(m ^ 0xff).take(layout(htyp).end - 10));
                    v.push(m);
                    v.extend_from_slice(&[m ^ 0xff; 12]);
                    let n = v.len() - 16;
                    v[18] = 0; v[19] = n as u8;
                    let (_, e) = DltStorageEntry::try_read(&v).ok_or("message not read")?;
                    check("message", &e.dlt.extended_header().ok_or("no extended header")?.msin)?;
                    ctx.trans(3); ctx.exec(); ctx.exec();
                    ctx.outcome(hash_bytes(format!("{exp:?}").as_bytes()));
                    Ok(())
                }),
                describe: Box::new(|i| format!("message info byte 0x{:02x}, header type 0x{:02x}", i as u8, 0x21 | ((i / 256) as u8) << 2)),
            },
            Phase {
                name: "create".into(), bounds: "verbose or not x all 19 types and infos of the standard".into(), total: 38, chunk: 1, cpu_limit: 10,
                run: Box::new(|i, ctx| {
                    let (t, m) = all_types()[(i / 2) as usize];
                    let verbose = i % 2 == 1;
                    let byte = m | verbose as u8;
                    ctx.state(i ^ 0x1000); ctx.trans(1);
                    let c = MessageType::create_message_type(verbose, t);
                    if c.as_bytes() != [byte] { return Err(format!("{t:?}, verbose {verbose}: byte {:02x?}, expected 0x{byte:02x}", c.as_bytes())) }
                    if c.info() != (verbose, Some(t)) { return Err(format!("{t:?}, verbose {verbose}: decodes to {:?}", c.info())) }
                    ctx.exec(); ctx.outcome(byte as u64);
                    Ok(())
                }),
                describe: Box::new(|i| format!("{:?}, verbose {}", all_types()[(i / 2) as usize].0, i % 2 == 1)),
            },
        ],
        assumptions: vec!["type and info numbers as in the AUTOSAR DLT v1 specification".into()],
    }
}

fn htyp_new(b: u8) -> DltHTyp { DltHTyp::new(b & 1 != 0, b & 2 != 0, b & 4 != 0, b & 8 != 0, b & 16 != 0, b >> 5) }
const EDGES: [u32; 12] = [0, 1, 0x7f, 0x80, 0xff, 0x100, 0xffff, 0x10000, 0x01020304, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff];
const IDS: [[u8; 4]; 5] = [*b"ECU1", [0; 4], [0xff; 4], *b"DLT\x01", [1, 2, 3, 4]];

pub fn c06(t: Tier) -> Plan {
    let pl: Vec<usize> = (0..=t.pick(9usize, 40)).chain([127, 128, 255, 256, 257, 4095, 65505, 65531]).collect();
    let np = pl.len() as u64;
    let pl2 = pl.clone();
    Plan {
        phases: vec![
            Phase {
                name: "standard header".into(), bounds: "all 256 header types x all 256 counters, and all 65536 lengths x 4 header types x 3 counters".into(), total: 65536 * 13, chunk: 4096, cpu_limit: 10,
                run: Box::new(|i, ctx| {
                    let (ht, ctr, len) = std_case(i);
                    ctx.state(mix(i)); ctx.trans(1);
                    let x = htyp_new(ht);
                    if x.as_bytes() != [ht] { return Err(format!("header type {:02x?}, expected 0x{ht:02x}", x.as_bytes())) }
                    let s = DltStandardHeader::new(x, ctr, len);
                    let exp = [ht, ctr, (len >> 8) as u8, len as u8];
                    if s.as_bytes() != exp { return Err(format!("standard header {:02x?}, expected {exp:02x?}", s.as_bytes())) }
                    if s.length() != len as usize { return Err(format!("length() {}, expected {len}", s.length())) }
                    let y = &s.header_type;
                    let fl = (y.is_extended_header(), y.is_msb_first(), y.is_with_ecu_id(), y.is_with_session_id(), y.is_with_timestamp(), y.version());
                    if fl != (ht & 1 != 0, ht & 2 != 0, ht & 4 != 0, ht & 8 != 0, ht & 16 != 0, ht >> 5) { return Err(format!("flags {fl:?} of 0x{ht:02x}")) }
                    ctx.exec(); ctx.outcome(ht as u64 | (len as u64 & 0xff) << 8);
                    Ok(())
                }),
                describe: Box::new(|i| { let (a, b, c) = std_case(i); format!("header type 0x{a:02x}, counter {b}, length {c}") }),
            },
            Phase {
                name: "storage header".into(), bounds: "12 seconds x 12 microseconds boundary values x 5 patterns x 5 ids, and each byte of both times with each value".into(), total: 12 * 12 * 25 + 8 * 256, chunk: 64, cpu_limit: 10,
                run: Box::new(|i, ctx| {
                    let (s, us, pat, ecu) = sto_case(i);
                    ctx.state(i ^ 0x5555_0000); ctx.trans(1);
                    let x = DltStorageHeader::new(pat, s, us, ecu);
                    let mut exp = pat.to_vec();
                    for k in 0..4 { exp.push((s >> (8 * k)) as u8); }
                    for k in 0..4 { exp.push((us >> (8 * k)) as u8); }
                    exp.extend_from_slice(&ecu);
                    if x.as_bytes() != &exp[..] { return Err(format!("storage header {:02x?}, expected {exp:02x?}", x.as_bytes())) }
                    if (x.pattern, x.secs.get(), x.msecs.get(), x.ecu) != (pat, s, us, ecu) { return Err(format!("fields {x:?}")) }
                    ctx.exec(); ctx.outcome(i);
                    Ok(())
                }),
                describe: Box::new(|i| format!("{:?}", sto_case(i))),
            },
            Phase {
                name: "extended header".into(), bounds: "19 types x verbosity x 256 argument counts x 5 application ids x 5 context ids".into(), total: 38 * 256 * 25, chunk: 1024, cpu_limit: 10,
                run: Box::new(|i, ctx| {
                    let (t, v, noar, ap, ct) = ext_case(i);
                    ctx.state(i ^ 0x9999_0000); ctx.trans(1);
                    let x = DltExtendedHeader::new(MessageType::create_message_type(v, t.0), noar, ap, ct);
                    let mut exp = vec![t.1 | v as u8, noar];
                    exp.extend_from_slice(&ap); exp.extend_from_slice(&ct);
                    if x.as_bytes() != &exp[..] { return Err(format!("extended header {:02x?}, expected {exp:02x?}", x.as_bytes())) }
                    ctx.exec(); ctx.outcome(i);
                    Ok(())
                }),
                describe: Box::new(|i| format!("{:?}", ext_case(i))),
            },
            Phase {
                name: "whole messages".into(),
                bounds: format!("all 256 header types x {np} payload lengths (0..={} and up to the largest that fits) x 5 id and time settings: assembled from the library's headers, read back", t.pick(9, 40)),
                total: 256 * np * 5, chunk: 64, cpu_limit: 10,
                run: Box::new(move |i, ctx| {
                    let ht = i as u8;
                    let k = (i / 256 / np) as usize;
                    let l = layout(ht);
                    let n = pl[(i / 256 % np) as usize].min(65535 - 4 - l.end);
                    let (secs, us, tm, id) = (EDGES[k], EDGES[11 - k] as i32, EDGES[(k * 5 + 3) % 12], IDS[k]);
                    ctx.state(i ^ 0xbbbb_0000); ctx.trans(2);
                    let msin = MessageType::create_message_type(k % 2 == 0, all_types()[(i % 19) as usize].0);
                    let mut v = DltStorageHeader::new(*b"DLT\x01", secs, us, id).as_bytes().to_vec();
                    v.extend_from_slice(DltStandardHeader::new(htyp_new(ht), i as u8, (4 + l.end + n) as u16).as_bytes());
                    if l.ecu.is_some() { v.extend_from_slice(&id) }
                    if ht & 8 != 0 { v.extend_from_slice(b"sess") }
                    if l.tmsp.is_some() { v.extend_from_slice(&tm.to_be_bytes()) }
                    if l.ext.is_some() { v.extend_from_slice(DltExtendedHeader::new(msin, k as u8, id, IDS[4 - k]).as_bytes()) }
                    let payload = fill(n, k);
                    v.extend_from_slice(&payload);
                    let (m, e) = DltStorageEntry::try_read(&v).ok_or("assembled message is not read")?;
                    macro_rules! eq { ($w:expr, $a:expr, $b:expr) => { { let (a, b) = ($a, $b); if a != b { return Err(format!("{}: {:?}, expected {:?}", $w, a, b)) } } } }
                    eq!("length", m, v.len());
                    eq!("len()", e.len(), v.len());
                    let s = e.storage_header;
                    eq!("storage header", (s.pattern, s.secs.get(), s.msecs.get(), s.ecu), (*b"DLT\x01", secs, us, id));
                    eq!("header length", e.dlt.header.length(), 4 + l.end + n);
                    eq!("ecu id", e.dlt.ecu_id(), l.ecu.map(|_| be(&id)));
                    eq!("timestamp", e.dlt.timestamp(), l.tmsp.map(|_| tm));
                    let x = e.dlt.extended_header();
                    eq!("extended header", x.map(|x| (x.msin, x.noar, x.apid, x.ctid)), l.ext.map(|_| (msin, k as u8, id, IDS[4 - k])));
                    eq!("payload", e.dlt.payload(), Some(&payload[..]));
                    // one byte short: no message
                    if DltStorageEntry::try_read(&v[..v.len() - 1]).is_some() { return Err("read although its last byte is missing".into()) }
                    ctx.exec(); ctx.exec(); ctx.outcome(i);
                    Ok(())
                }),
                describe: Box::new(move |i| format!("header type 0x{:02x}, {} payload bytes, setting {}", i as u8, pl2[(i / 256 % np) as usize], i / 256 / np)),
            },
        ],
        assumptions: vec!["times and ids outside the listed boundary values behave like them".into()],
    }
}
fn std_case(i: u64) -> (u8, u8, u16) {
    if i < 65536 { (i as u8, (i >> 8) as u8, 0x1234) } else {
        let j = i - 65536;
        let k = j / 65536;
        ([0x20u8, 0xff, 0x31, 0x02][(k % 4) as usize], [0u8, 0x7f, 255][(k / 4) as usize], j as u16)
    }
}
fn sto_case(i: u64) -> (u32, i32, [u8; 4], [u8; 4]) {
    if i < 3600 { (EDGES[(i % 12) as usize], EDGES[(i / 12 % 12) as usize] as i32, IDS[(i / 144 % 5) as usize], IDS[(i / 720) as usize]) } else {
        let j = i - 3600;
        let (b, k) = (j % 256, j / 256);
        if k < 4 { ((b << (8 * k)) as u32, 1, *b"DLT\x01", *b"ECU2") } else { (2, (b << (8 * (k - 4))) as u32 as i32, *b"DLT\x01", *b"ECU2") }
    }
}
fn ext_case(i: u64) -> ((DltMessageType, u8), bool, u8, [u8; 4], [u8; 4]) {
    let r = i / 256;
    (all_types()[(r / 2 % 19) as usize], r % 2 == 1, i as u8, IDS[(r / 38 % 5) as usize], IDS[(r / 190) as usize])
}
