//! C01, C02, C03, C26: the readers, in lock step with the reference parser from every start offset.
use crate::engine::*;
use crate::huge;
use crate::refmodel::*;
use crate::streams::*;
use matchit::readit::ReadIterator;
use matchit::searchable::readfallbackit::ReadFallbackIterator;
use matchit::searchable::searchit::{RevSearchIterator, SearchIterator};
use matchit::searchable::{search_last_marker, search_marker};
use matchit::{FromBytesReadableTrait, TIterator};
use rapiddlt::dlt_v1::{dltit, dltit_offset, DltEntry, DltStorageEntry};

/// Runs `it` against the expected (offset, length) list, item by item.
pub fn lockstep<'b, P: Probe<'b>, I: Iterator<Item = (usize, P)>>(
    what: &str, b: &'b [u8], o: usize, mut it: I, expect: &[(usize, usize)], ctx: &mut Ctx, state: &dyn Fn(usize) -> u64,
) -> Result<(), String> {
    let base = b.as_ptr() as usize;
    ctx.state(state(o));
    for (i, &(m, l)) in expect.iter().enumerate() {
        ctx.trans(1);
        match it.next() {
            None => return Err(format!("{what} from offset {o}: ends after {i} messages, message at {m} (length {l}) is missing")),
            Some((off, t)) => {
                if (off, t.len()) != (m, l) {
                    return Err(format!("{what} from offset {o}: item {i} is (offset {off}, length {}), expected (offset {m}, length {l})", t.len()));
                }
                let (p, n) = t.span().map_err(|e| format!("{what} from offset {o}: item {i}: {e}"))?;
                if (p.wrapping_sub(base), n) != (m, l) {
                    return Err(format!("{what} from offset {o}: item {i} refers to bytes {}..+{n}, expected {m}..+{l}", p.wrapping_sub(base) as isize));
                }
                ctx.state(state(m + l));
            }
        }
    }
    for again in 0..3 {
        ctx.trans(1);
        if let Some((off, t)) = it.next() {
            return Err(format!("{what} from offset {o}: yields a further item (offset {off}, length {}) {}", t.len(),
                if again == 0 { "that is no message".to_string() } else { format!("on call {} after its end", again) }));
        }
    }
    ctx.exec();
    Ok(())
}

pub type Runner = Box<dyn Fn(&[u8], &mut Ctx) -> Result<(), String>>;

pub fn space(name: &str, toks: Tokens, oracle: &str, chunk: u64, run: Runner) -> Phase {
    let toks = std::rc::Rc::new(toks);
    let (t1, t2) = (toks.clone(), toks.clone());
    Phase {
        name: name.into(),
        bounds: format!("all sequences of at most {} of the {} fragments {:?}, {oracle}", toks.depth, toks.toks.len(), toks.toks.iter().map(|t| t.0.as_str()).collect::<Vec<_>>()),
        total: toks.total(), chunk, cpu_limit: 10,
        run: Box::new(move |i, ctx| {
            let b = t1.build(i);
            // no spare bytes around the stream, and an odd address: nothing may depend on alignment
            let mut v = Vec::with_capacity(b.len() + 1);
            v.push(0x55);
            v.extend_from_slice(&b);
            ctx.sample(|| format!("{} = {}", t1.describe(i), hex(&b)));
            run(&v[1..], ctx)
        }),
        describe: Box::new(move |i| format!("{} = {}", t2.describe(i), hex(&t2.build(i)))),
    }
}

/// Long streams: no exhaustion of stack or time.
pub fn long_cases() -> Vec<(&'static str, Vec<u8>)> {
    vec![
        ("zeros", vec![0]), ("D", b"D".to_vec()), ("DLT", b"DLT".to_vec()), ("bare markers", b"DLT\x01".to_vec()),
        ("markers+1", b"DLT\x01\x00".to_vec()), ("markers+3", b"DLT\x01\x00\x00\x00".to_vec()), ("storage headers", h(5)[..16].to_vec()),
        ("zero-length heads", h(0)), ("length-3 heads", h(3)), ("M4", msg(4, 0)), ("M300", msg(300, b'a')),
        ("M4 + garbage", [msg(4, 0), vec![b'g'; 37]].concat()), ("invalid + valid", [h(1), msg(9, 1)].concat()),
        ("nested", [h(24), h(24)].concat()), ("M4096", msg(4096, b'z')), ("M65535", msg(65535, 0)),
    ]
}
fn long_phase(size: usize, run: Runner) -> Phase {
    let n = long_cases().len() as u64;
    let make = move |i: u64| -> Vec<u8> {
        let (_, unit) = &long_cases()[(i % n) as usize];
        let mut b = Vec::with_capacity(size + 100);
        while b.len() + unit.len() <= size { b.extend_from_slice(unit); }
        if i >= n { b.extend_from_slice(&msg(11, b'q')); b.extend_from_slice(b"tail"); }
        b
    };
    Phase {
        name: "long streams".into(),
        bounds: format!("{n} repeated fragments to {size} bytes, alone and followed by one valid message: 8 MB stack, 20 s CPU"),
        total: 2 * n, chunk: 1, cpu_limit: 20,
        run: Box::new(move |i, ctx| { let b = make(i); run(&b, ctx) }),
        describe: Box::new(move |i| format!("{} repeated to {size} bytes{}", long_cases()[(i % n) as usize].0, if i >= n { ", then one valid message and 'tail'" } else { "" })),
    }
}

fn huge_offsets() -> [usize; 4] { [0, huge::G4 - 500, huge::G4 + 5000, huge::G4 + 149_999] }
fn outcome_of(e: &[(usize, usize)], ctx: &mut Ctx) {
    let mut h = e.len() as u64;
    for &(m, l) in e { h = mix(h ^ ((m as u64) << 20 | l as u64)); }
    ctx.outcome(h);
    if e.is_empty() { ctx.trivial += 1 }
}

/// The offsets from which a stream is read.
#[derive(Clone, Copy, PartialEq)]
enum Of { All, Long, Far }
const FAR: [usize; 30] = {
    let mut f = [0; 30];
    let mut i = 0;
    while i < 24 { f[i] = usize::MAX - i; i += 1 }
    f[24] = 1 << 31; f[25] = (1 << 32) - 1; f[26] = 1 << 32; f[27] = isize::MAX as usize; f[28] = 1 << 63; f[29] = usize::MAX - 65_535;
    f
};
const FARS: &str = "each read from 30 offsets far behind its end, up to usize::MAX and around powers of two";

fn seq_check<'b, P: Probe<'b>>(b: &'b [u8], ctx: &mut Ctx, of: Of) -> Result<(), String> {
    let long = of == Of::Long;
    let valid = valid_at::<P>(b);
    let sh = if long { vec![] } else { suffix_hashes(b) };
    let st = |p: usize| if long { p as u64 } else { sh[p.min(b.len())] };
    let e0 = parse(&valid, 0);
    outcome_of(&e0, ctx);
    let offs: Vec<usize> = match of { Of::Long => vec![0, 1, b.len() / 2, b.len()], Of::All => (0..=b.len() + 2).collect(), Of::Far => FAR.to_vec() };
    for o in offs {
        let e = parse(&valid, o);
        lockstep("sequential reader", b, o, ReadFallbackIterator::<P>::new(b, o), &e, ctx, &st)?;
    }
    lockstep("sequential reader (as TIterator)", b, 0, <ReadFallbackIterator<P> as TIterator>::new(b, 0), &e0, ctx, &st)
}
fn dlt_helpers(b: &[u8], ctx: &mut Ctx) -> Result<(), String> {
    let e = messages::<DltStorageEntry>(b);
    let sh = |p: usize| p as u64;
    lockstep("dltit_offset", b, 0, dltit_offset(b), &e, ctx, &sh)?;
    let base = b.as_ptr() as usize;
    let mut it = dltit(b);
    for (i, &(m, l)) in e.iter().enumerate() {
        let Some(t) = it.next() else { return Err(format!("dltit ends after {i} of {} messages", e.len())) };
        let (p, n) = t.span()?;
        if (p - base, n) != (m, l) { return Err(format!("dltit: item {i} refers to {}..+{n}, expected {m}..+{l}", p - base)) }
        if t.storage_header.pattern != *b"DLT\x01" { return Err(format!("dltit: item {i}: pattern {:?}", t.storage_header.pattern)) }
    }
    for _ in 0..3 { if it.next().is_some() { return Err("dltit: item after the last message".into()) } }
    ctx.exec();
    Ok(())
}
fn fwd_check<'b, P: Probe<'b>>(b: &'b [u8], ctx: &mut Ctx, of: Of) -> Result<(), String> {
    let long = of == Of::Long;
    let valid = valid_at::<P>(b);
    let sh = if long { vec![] } else { suffix_hashes(b) };
    let st = |p: usize| if long { p as u64 } else { sh[p.min(b.len())] };
    outcome_of(&parse(&valid, 0), ctx);
    let offs: Vec<usize> = match of { Of::Long => vec![0, 1, b.len() / 2, b.len()], Of::All => (0..=b.len() + 2).collect(), Of::Far => FAR.to_vec() };
    for o in offs {
        lockstep("forward search", b, o, <SearchIterator<P> as TIterator>::new(b, o), &parse(&valid, o), ctx, &st)?;
    }
    Ok(())
}
fn rev_check<'b, P: Probe<'b>>(b: &'b [u8], ctx: &mut Ctx, of: Of) -> Result<(), String> {
    let long = of == Of::Long;
    let valid = valid_at::<P>(b);
    let k = P::MARK.len();
    let hb = if long { 0 } else { hash_bytes(b) };
    let st = |p: usize| hb ^ mix(p as u64);
    let all: Vec<(usize, usize)> = valid.iter().rev().copied().collect();
    outcome_of(&all, ctx);
    let offs: Vec<usize> = match of { Of::Long => vec![b.len(), b.len() - 1, b.len() / 2, 0], Of::All => (0..=b.len() + 2).rev().collect(), Of::Far => FAR.to_vec() };
    for o in offs {
        let e: Vec<(usize, usize)> = all.iter().copied().filter(|&(m, _)| m + k <= o).collect();
        lockstep("backward search", b, o, <RevSearchIterator<P> as TIterator>::new(b, o), &e, ctx, &st)?;
    }
    Ok(())
}

pub fn strict_ref(b: &[u8], o: usize, len: &dyn Fn(&[u8]) -> Option<usize>) -> Vec<(usize, usize)> {
    let mut v = vec![];
    let mut p = o;
    while p < b.len() { match len(&b[p..]) { Some(l) => { v.push((p, l)); p += l } None => break } }
    v
}
fn strict_check<'b, T: FromBytesReadableTrait<'b>>(what: &str, b: &'b [u8], ctx: &mut Ctx, len: &dyn Fn(&[u8]) -> Option<usize>, start: &dyn Fn(&T) -> (usize, usize)) -> Result<(), String> {
    let sh = suffix_hashes(b);
    let base = b.as_ptr() as usize;
    for o in (0..=b.len() + 2).chain([1 << 32, usize::MAX - 3, usize::MAX]) {
        let e = strict_ref(b, o, len);
        if o == 0 { outcome_of(&e, ctx) }
        ctx.state(sh[o.min(b.len())] ^ 5);
        for via in 0..2 {
            let mut it: ReadIterator<T> = if via == 0 { ReadIterator::new(b, o) } else { <ReadIterator<T> as TIterator>::new(b, o) };
            for (i, &(m, l)) in e.iter().enumerate() {
                ctx.trans(1);
                let Some((off, t)) = it.next() else { return Err(format!("{what} from {o}: ends after {i} of {} values", e.len())) };
                let (p, n) = start(&t);
                if (off, t.len()) != (m, l) || (p.wrapping_sub(base), n) != (m, l) {
                    return Err(format!("{what} from {o}: item {i}: offset {off}, length {}, refers to {}..+{n}; expected {m}..+{l}", t.len(), p.wrapping_sub(base) as isize));
                }
                ctx.state(sh[m + l] ^ 5);
            }
            for _ in 0..3 {
                ctx.trans(1);
                if let Some((off, t)) = it.next() { return Err(format!("{what} from {o}: further item (offset {off}, length {})", t.len())) }
            }
            ctx.exec();
        }
    }
    Ok(())
}

const OR: &str = "each read from every offset 0..=len+2 and called three times after its end, in lock step with the reference parser";

pub fn c01(t: Tier) -> Plan {
    Plan {
        phases: vec![
            space("dlt fragments", dlt_tokens(t.pick(5, 6)), OR, 256, Box::new(|b, c| { seq_check::<DltStorageEntry>(b, c, Of::All)?; dlt_helpers(b, c) })),
            space("small-type bytes", mini_bytes(t.pick(9, 11)), OR, 4096, Box::new(|b, c| seq_check::<Mini>(b, c, Of::All))),
            space("small-type fragments", mini_tokens(t.pick(7, 8)), OR, 4096, Box::new(|b, c| seq_check::<Mini>(b, c, Of::All))),
            space("single-byte marker", one_bytes(t.pick(9, 11)), OR, 4096, Box::new(|b, c| seq_check::<One>(b, c, Of::All))),
            space("no greatest length", endless_tokens(t.pick(6, 8)), OR, 4096, Box::new(|b, c| seq_check::<Endless>(b, c, Of::All))),
            space("dlt fragments, offsets far behind the end", dlt_tokens(3), FARS, 256, Box::new(|b, c| seq_check::<DltStorageEntry>(b, c, Of::Far))),
            space("small-type fragments, offsets far behind the end", mini_tokens(t.pick(5, 6)), FARS, 4096, Box::new(|b, c| seq_check::<Mini>(b, c, Of::Far))),
            header_phase(Box::new(|b, c| seq_check::<DltStorageEntry>(b, c, Of::All))),
            lengths_phase(t, Box::new(|b, c| { seq_check::<DltStorageEntry>(b, c, Of::Long)?; dlt_helpers(b, c) })),
            distances_phase(t, Box::new(|b, c| { seq_check::<DltStorageEntry>(b, c, Of::Long)?; dlt_helpers(b, c) })),
            long_phase(t.pick(8 << 20, 64 << 20), Box::new(|b, c| { seq_check::<DltStorageEntry>(b, c, Of::Long)?; dlt_helpers(b, c) })),
            huge::phase(t, huge::LEN, "read from the start, from in front of 4 GiB and from behind it", Box::new(|b, e, c| {
                for o in huge_offsets() {
                    c.alive();
                    let e: Vec<(usize, usize)> = e.iter().copied().filter(|&(m, _)| m >= o).collect();
                    lockstep("sequential reader", b, o, ReadFallbackIterator::<DltStorageEntry>::new(b, o), &e, c, &|p| mix(p as u64))?;
                }
                lockstep("dltit_offset", b, 0, dltit_offset(b), e, c, &|p| mix(p as u64))
            })),
        ],
        assumptions: vec!["streams longer than the bounds behave like the explored ones; the generic readers treat the small message type and DLT messages alike".into()],
    }
}
/// every announced length 0..=65535, with 0, 1 and 2 bytes too few, exactly enough, and trailing bytes
fn lengths_phase(t: Tier, run: Runner) -> Phase {
    let step = t.pick(1u64, 1);
    let make = |i: u64| -> (u16, i64, Vec<u8>) {
        let l = (i / 5) as u16;
        let delta = [-2i64, -1, 0, 1, 25][(i % 5) as usize];
        let mut b = h(l);
        let total = (16 + (l as i64).max(4) + delta).max(0) as usize;
        b.resize(total.max(if total < 20 { total } else { 20 }), b'.');
        if delta == 25 { let n = b.len() - 25; b.truncate(n); b.extend_from_slice(&msg(9, b'e')); }
        (l, delta, b)
    };
    Phase {
        name: "all announced lengths".into(),
        bounds: "one head announcing each length 0..=65535 with 2 or 1 bytes missing, exactly complete, one byte more, or another message behind it".into(),
        total: 65536 * 5 / step, chunk: 64, cpu_limit: 10,
        run: Box::new(move |i, c| { let (_, _, b) = make(i); run(&b, c) }),
        describe: Box::new(move |i| { let (l, d, b) = make(i); format!("announced length {l}, {d:+} bytes, stream of {} bytes", b.len()) }),
    }
}
/// messages at many distances from each other
pub fn distances_phase(t: Tier, run: Runner) -> Phase {
    let d = std::rc::Rc::new(Distances::new(t.pick(600, 5000), t.pick(20, 24), t.pick(66_000, 140_000)));
    let d2 = d.clone();
    Phase {
        name: "distances".into(), bounds: d.bounds(), total: d.total(), chunk: 16, cpu_limit: 10,
        run: Box::new(move |i, c| { let b = d.build(i); run(&b, c) }),
        describe: Box::new(move |i| d2.describe(i)),
    }
}
fn header_phase(run: Runner) -> Phase {
    let make = |i: u64| if i < HEADER_BYTE { header_byte_case(i) } else { header_bytes_case(i - HEADER_BYTE) };
    Phase {
        name: "header bytes".into(), bounds: format!("each of the 20 header bytes of a message set to each of 256 values, and each pair of them to each pair of 9 values, between two good messages, {OR}"),
        total: HEADER_BYTE + HEADER_BYTES, chunk: 64, cpu_limit: 10,
        run: Box::new(move |i, c| run(&make(i), c)),
        describe: Box::new(move |i| hex(&make(i))),
    }
}
pub fn c02(t: Tier) -> Plan {
    Plan {
        phases: vec![
            space("dlt fragments", dlt_tokens(t.pick(5, 6)), OR, 256, Box::new(|b, c| fwd_check::<DltStorageEntry>(b, c, Of::All))),
            space("small-type bytes", mini_bytes(t.pick(9, 11)), OR, 4096, Box::new(|b, c| fwd_check::<Mini>(b, c, Of::All))),
            space("small-type fragments", mini_tokens(t.pick(7, 8)), OR, 4096, Box::new(|b, c| fwd_check::<Mini>(b, c, Of::All))),
            space("single-byte marker", one_bytes(t.pick(9, 11)), OR, 4096, Box::new(|b, c| fwd_check::<One>(b, c, Of::All))),
            space("no greatest length", endless_tokens(t.pick(6, 8)), OR, 4096, Box::new(|b, c| fwd_check::<Endless>(b, c, Of::All))),
            space("dlt fragments, offsets far behind the end", dlt_tokens(3), FARS, 256, Box::new(|b, c| fwd_check::<DltStorageEntry>(b, c, Of::Far))),
            space("small-type fragments, offsets far behind the end", mini_tokens(t.pick(5, 6)), FARS, 4096, Box::new(|b, c| fwd_check::<Mini>(b, c, Of::Far))),
            header_phase(Box::new(|b, c| fwd_check::<DltStorageEntry>(b, c, Of::All))),
            lengths_phase(t, Box::new(|b, c| fwd_check::<DltStorageEntry>(b, c, Of::Long))),
            distances_phase(t, Box::new(|b, c| fwd_check::<DltStorageEntry>(b, c, Of::Long))),
            long_phase(t.pick(8 << 20, 64 << 20), Box::new(|b, c| fwd_check::<DltStorageEntry>(b, c, Of::Long))),
            huge::phase(t, huge::LEN, "searched from the start, from in front of 4 GiB and from behind it", Box::new(|b, e, c| {
                for o in huge_offsets() {
                    c.alive();
                    let e: Vec<(usize, usize)> = e.iter().copied().filter(|&(m, _)| m >= o).collect();
                    lockstep("forward search", b, o, <SearchIterator<DltStorageEntry> as TIterator>::new(b, o), &e, c, &|p| mix(p as u64))?;
                }
                Ok(())
            })),
        ],
        assumptions: vec!["streams longer than the bounds behave like the explored ones".into()],
    }
}
pub fn c03(t: Tier) -> Plan {
    Plan {
        phases: vec![
            space("dlt fragments", dlt_tokens(t.pick(5, 6)), OR, 256, Box::new(|b, c| rev_check::<DltStorageEntry>(b, c, Of::All))),
            space("small-type bytes", mini_bytes(t.pick(9, 11)), OR, 4096, Box::new(|b, c| rev_check::<Mini>(b, c, Of::All))),
            space("small-type fragments", mini_tokens(t.pick(7, 8)), OR, 4096, Box::new(|b, c| rev_check::<Mini>(b, c, Of::All))),
            space("single-byte marker", one_bytes(t.pick(9, 11)), OR, 4096, Box::new(|b, c| rev_check::<One>(b, c, Of::All))),
            space("no greatest length", endless_tokens(t.pick(6, 8)), OR, 4096, Box::new(|b, c| rev_check::<Endless>(b, c, Of::All))),
            space("dlt fragments, offsets far behind the end", dlt_tokens(3), FARS, 256, Box::new(|b, c| rev_check::<DltStorageEntry>(b, c, Of::Far))),
            space("small-type fragments, offsets far behind the end", mini_tokens(t.pick(5, 6)), FARS, 4096, Box::new(|b, c| rev_check::<Mini>(b, c, Of::Far))),
            header_phase(Box::new(|b, c| rev_check::<DltStorageEntry>(b, c, Of::All))),
            lengths_phase(t, Box::new(|b, c| rev_check::<DltStorageEntry>(b, c, Of::Long))),
            distances_phase(t, Box::new(|b, c| rev_check::<DltStorageEntry>(b, c, Of::Long))),
            long_phase(t.pick(8 << 20, 64 << 20), Box::new(|b, c| rev_check::<DltStorageEntry>(b, c, Of::Long))),
            huge::phase(t, huge::LEN, "searched backwards from the end", Box::new(|b, e, c| {
                let e: Vec<(usize, usize)> = e.iter().rev().copied().collect();
                lockstep("backward search", b, b.len(), <RevSearchIterator<DltStorageEntry> as TIterator>::new(b, b.len()), &e, c, &|p| mix(p as u64))
            })),
        ],
        assumptions: vec!["streams longer than the bounds behave like the explored ones".into()],
    }
}
pub fn c26(t: Tier) -> Plan {
    // without storage header: standard headers back to back
    let std = |l: u16| vec![0x20, 1, (l >> 8) as u8, l as u8];
    let entry = Tokens::new(t.pick(5, 6), vec![
        ("E4", std(4)), ("E5", [std(5), vec![9]].concat()), ("h8", std(8)), ("h9", std(9)), ("h3!", std(3)), ("h0!", std(0)), ("h65535", std(65535)), ("0", vec![0]), ("4", vec![4]), ("5", vec![5]),
    ]);
    let sto = |b: &[u8], c: &mut Ctx| strict_check::<DltStorageEntry>("strict reader of stored messages", b, c,
        &|b| if b.starts_with(b"DLT\x01") { dlt_len(b) } else { None }, &|t| t.span().unwrap_or((0, 0)));
    Plan {
        phases: vec![
            space("dlt fragments", dlt_tokens(t.pick(5, 6)), OR, 256, Box::new(sto)),
            space("unstored messages", entry, OR, 256, Box::new(|b, c| strict_check::<DltEntry>("strict reader of unstored messages", b, c,
                &|b| { if b.len() < 4 { return None } let l = (b[2] as usize) << 8 | b[3] as usize; if l < 4 || l > b.len() { None } else { Some(l) } },
                &|t| { let p = t.header as *const _ as usize; if t.tail.as_ptr() as usize == p + 4 { (p, 4 + t.tail.len()) } else { (0, 0) } }))),
            huge::phase(t, huge::LEN, "read strictly from each message", Box::new(|b, e, c| {
                for (i, &(o, _)) in e.iter().enumerate() {
                    let mut p = o;
                    let e: Vec<(usize, usize)> = e[i..].iter().copied().take_while(|&(m, l)| { let k = m == p; p = m + l; k }).collect();
                    lockstep("strict reader", b, o, ReadIterator::<DltStorageEntry>::new(b, o), &e, c, &|p| mix(p as u64))?;
                }
                Ok(())
            })),
            space("single-byte marker", one_bytes(t.pick(8, 10)), OR, 4096, Box::new(|b, c| strict_check::<One>("strict reader", b, c,
                &|b| if b.starts_with(b"M") { One::ref_len(b) } else { None }, &|t| t.span().unwrap()))),
            space("no greatest length", endless_tokens(t.pick(6, 8)), OR, 4096, Box::new(|b, c| strict_check::<Endless>("strict reader", b, c,
                &|b| if b.starts_with(b"MNO") { Endless::ref_len(b) } else { None }, &|t| t.span().unwrap()))),
            space("small-type bytes", mini_bytes(t.pick(8, 10)), OR, 4096, Box::new(|b, c| strict_check::<Mini>("strict reader", b, c,
                &|b| if b.starts_with(b"MN") { Mini::ref_len(b) } else { None }, &|t| t.span().unwrap()))),
        ],
        assumptions: vec!["streams longer than the bounds behave like the explored ones".into()],
    }
}

/// one call each, at every position: marker searches, single forward and backward search, direct reads
fn single_check<'b, P: Probe<'b>>(b: &'b [u8], ctx: &mut Ctx, offs: &[usize]) -> Result<(), String> {
    let (k, base) = (P::MARK.len(), b.as_ptr() as usize);
    let marks: Vec<usize> = (0..b.len().saturating_sub(k - 1)).filter(|&m| b[m..m + k] == *P::MARK).collect();
    let at = |m: Option<usize>| m.and_then(|m| P::ref_len(&b[m..]).map(|l| (m, l)));
    let found = |what: &str, o: usize, got: Option<(usize, P)>, e: Option<(usize, usize)>| -> Result<(), String> {
        let g = match &got { None => None, Some((m, t)) => { let (p, n) = t.span().map_err(|e| format!("{what} from {o}: {e}"))?; Some((*m, t.len(), p.wrapping_sub(base), n)) } };
        if g != e.map(|(m, l)| (m, l, m, l)) { return Err(format!("{what} from {o}: {g:?} (offset, length, start, bytes referred to), expected {e:?}")) }
        Ok(())
    };
    let fwd = <SearchIterator<P> as TIterator>::new(b, 0);
    let rev = <RevSearchIterator<P> as TIterator>::new(b, b.len());
    let hb = hash_bytes(b);
    if marks.is_empty() { ctx.trivial += 1 }
    for &o in offs {
        ctx.state(hb ^ mix(o as u64)); ctx.trans(6);
        let c = o.min(b.len());
        let (first, last) = (marks.iter().copied().find(|&m| m >= o), marks.iter().copied().rev().find(|&m| m + k <= o));
        if search_marker::<P>(&b[c..]) != first.map(|m| m - c) { return Err(format!("first marker from {o}: {:?}, expected {first:?}", search_marker::<P>(&b[c..]).map(|m| m + c))) }
        if search_last_marker::<P>(&b[..c]) != last { return Err(format!("last marker in front of {o}: {:?}, expected {last:?}", search_last_marker::<P>(&b[..c]))) }
        found("single forward search", o, fwd.search(b, o), at(first))?;
        if o <= b.len() { found("single backward search", o, rev.search(b, o), at(last))? }
        if o > b.len() { continue }
        let d = &b[o..];
        let marked = d.starts_with(P::MARK);
        let got = P::try_read(d).map(|(n, t)| { if n == t.len() { Ok((o, t)) } else { Err(format!("read at {o}: {n} bytes, of length {}", t.len())) } }).transpose()?;
        if let Some((_, t)) = &got { if t.len() > P::max_len() { return Err(format!("read at {o}: length {} above the maximum {}", t.len(), P::max_len())) } }
        found("read", o, got, if marked { at(Some(o)) } else { None })?;
        if marked { found("read behind a known marker", o, P::try_read_valid_marker(d).map(|(n, t)| (if n == t.len() { o } else { usize::MAX }, t)), at(Some(o)))? }
    }
    let n = offs.iter().filter(|&&o| P::ref_len(&b[o.min(b.len())..]).is_some()).count();
    ctx.outcome(mix(marks.len() as u64) ^ n as u64);
    ctx.exec();
    Ok(())
}
fn entry_check(b: &[u8], ctx: &mut Ctx) -> Result<(), String> {
    for o in 0..=b.len() {
        let d = &b[o..];
        let l = if d.len() < 4 { None } else { let l = (d[2] as usize) << 8 | d[3] as usize; if l < 4 || l > d.len() { None } else { Some(l) } };
        ctx.trans(1); ctx.state(hash_bytes(d));
        let g = DltEntry::try_read(d).map(|(n, t)| (n, t.len(), t.header as *const _ as usize - d.as_ptr() as usize, t.tail.as_ptr() as usize - d.as_ptr() as usize, t.tail.len()));
        if g != l.map(|l| (l, l, 0, 4, l - 4)) { return Err(format!("unstored message at {o}: {g:?} (bytes, length, start, tail, tail length), expected length {l:?}")) }
        if l.is_some_and(|l| l > DltEntry::max_len()) { return Err("longer than the maximum".into()) }
        ctx.outcome(l.map_or(0, |l| l as u64 + 1));
    }
    ctx.exec();
    Ok(())
}
const OR1: &str = "one search forwards and backwards, one marker search each way and one direct read at every position 0..=len+2, against the positions of markers and valid messages";
pub fn c27(t: Tier) -> Plan {
    fn all<'b, P: Probe<'b>>(b: &'b [u8], c: &mut Ctx) -> Result<(), String> { single_check::<P>(b, c, &(0..=b.len() + 2).chain([1 << 32, usize::MAX - 3, usize::MAX]).collect::<Vec<_>>()) }
    let std = |l: u16| vec![0x20, 1, (l >> 8) as u8, l as u8];
    let entry = Tokens::new(t.pick(5, 6), vec![
        ("E4", std(4)), ("E5", [std(5), vec![9]].concat()), ("h8", std(8)), ("h9", std(9)), ("h3!", std(3)), ("h0!", std(0)), ("h65535", std(65535)), ("0", vec![0]), ("4", vec![4]), ("5", vec![5]),
    ]);
    Plan {
        phases: vec![
            space("dlt fragments", dlt_tokens(t.pick(4, 5)), OR1, 256, Box::new(|b, c| { all::<DltStorageEntry>(b, c)?; entry_check(b, c) })),
            space("unstored messages", entry, "one direct read at every position", 256, Box::new(entry_check)),
            space("small-type bytes", mini_bytes(t.pick(8, 10)), OR1, 4096, Box::new(|b, c| all::<Mini>(b, c))),
            space("small-type fragments", mini_tokens(t.pick(6, 7)), OR1, 4096, Box::new(|b, c| all::<Mini>(b, c))),
            space("single-byte marker", one_bytes(t.pick(8, 10)), OR1, 4096, Box::new(|b, c| all::<One>(b, c))),
            space("no greatest length", endless_tokens(t.pick(6, 8)), OR1, 4096, Box::new(|b, c| all::<Endless>(b, c))),
            header_phase(Box::new(|b, c| all::<DltStorageEntry>(b, c))),
            lengths_phase(t, Box::new(|b, c| {
                single_check::<DltStorageEntry>(b, c, &[0, 1, 16, b.len() - 1, b.len(), b.len() + 1])?;
                let d = &b[16..]; // the same message without storage header
                let l = if d.len() < 4 { 0 } else { (d[2] as usize) << 8 | d[3] as usize };
                let e = if d.len() >= 4 && l >= 4 && l <= d.len() { Some((l, l - 4)) } else { None };
                let g = DltEntry::try_read(d).map(|(n, t)| (n, t.tail.len()));
                if g != e { return Err(format!("unstored: {g:?}, expected {e:?}")) }
                Ok(())
            })),
            distances_phase(t, Box::new(|b, c| {
                // the positions at which something begins or ends, and their neighbours
                let (x, n) = (b.len() as i64 - 3 - 20, b.len() as i64);
                let l = x / 2;
                let mut o: Vec<usize> = [0, l - 25, l, l + 25, x, x + 4, x + 20, n].iter().flat_map(|&p| (-4..=4).map(move |d| p + d)).filter(|&p| p >= 0 && p <= n + 1).map(|p| p as usize).collect();
                o.sort(); o.dedup();
                if b.len() > 20_000 { o = o.into_iter().step_by(3).collect() }
                single_check::<DltStorageEntry>(b, c, &o)
            })),
            huge::phase(t, huge::LEN, "searched once from in front of and behind each message, and read at each", Box::new(|b, e, c| {
                let base = b.as_ptr() as usize;
                let fwd = <SearchIterator<DltStorageEntry> as TIterator>::new(b, 0);
                let rev = <RevSearchIterator<DltStorageEntry> as TIterator>::new(b, b.len());
                for (i, &(m, l)) in e.iter().enumerate() {
                    c.alive(); c.trans(4); c.state(mix(m as u64)); c.exec();
                    let prev = if i > 0 { e[i - 1].0 + e[i - 1].1 } else { 0 };
                    let at = |x: Option<(usize, DltStorageEntry)>| x.map(|(o, t)| (o, t.len(), t.storage_header as *const _ as usize - base));
                    let want = Some((m, l, m));
                    if at(fwd.search(b, prev)) != want { return Err(format!("forward search from {prev}: {:?}, expected {want:?}", at(fwd.search(b, prev)))) }
                    if at(rev.search(b, m + 4)) != want { return Err(format!("backward search from {}: {:?}, expected {want:?}", m + 4, at(rev.search(b, m + 4)))) }
                    if at(DltStorageEntry::try_read(&b[m..]).map(|(_, t)| (m, t))) != want { return Err(format!("message at {m} is not read")) }
                    if search_marker::<DltStorageEntry>(&b[prev..]) != Some(m - prev) { return Err(format!("first marker from {prev} is not found at {m}")) }
                    let next = e.get(i + 1).map_or(b.len(), |e| e.0);
                    if search_last_marker::<DltStorageEntry>(&b[..next]) != Some(m) { return Err(format!("last marker in front of {next} is not found at {m}")) }
                }
                Ok(())
            })),
        ],
        assumptions: vec!["streams longer than the bounds behave like the explored ones".into()],
    }
}
