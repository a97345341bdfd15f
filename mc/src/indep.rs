//! C29: readers, searches, queries and pipelines do not influence each other: whatever else runs in the
//! process, in whatever order, on whatever thread, each gives what it gives alone.
use crate::engine::*;
use crate::fields;
use crate::gen::{ref_merge, ref_runs};
use crate::part::covers;
use crate::reading::strict_ref;
use crate::refmodel::*;
use crate::streams::*;
use matchit::fromgenerator::{FromAdaptFn, FromAdaptFnCall};
use matchit::generator::adapter::*;
use matchit::generator::generator::Generator;
use matchit::generator::groupby::Merge;
use matchit::generator::reducer::*;
use matchit::readit::ReadIterator;
use matchit::searchable::grepit::{GrepIterator, RegExMatcherIterator};
use matchit::searchable::readfallbackit::ReadFallbackIterator;
use matchit::searchable::searchit::{RevSearchIterator, SearchIterator};
use matchit::searchable::{search_last_marker, search_marker};
use matchit::{partition_from, ContainedBySearch, FromBytesReadableTrait, TIterator};
use rapiddlt::dlt_v1::{dltit, DltStandardHeader, DltHTyp, DltStorageEntry};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;
use std::sync::mpsc::{channel, Receiver, Sender};
use zerocopy::AsBytes;

type D = DltStorageEntry<'static>;
/// What one user of the library sees, step by step; None once it has come to its end.
type Steps = Box<dyn FnMut() -> Option<u64>>;
struct Kind { name: &'static str, make: fn(&'static [u8]) -> Steps, expect: fn(&[u8]) -> Vec<u64> }

fn code(o: usize, l: usize) -> u64 { (o as u64) << 20 | l as u64 }
fn text(s: String) -> u64 { hash_bytes(s.as_bytes()) }
fn listed(v: Vec<(usize, usize)>) -> Vec<u64> { v.into_iter().map(|(o, l)| code(o, l)).collect() }
fn at(b: &[u8], t: &D) -> u64 { match t.span() { Ok((a, n)) => code(a - b.as_ptr() as usize, n), Err(e) => text(e) } }
fn spans(b: &[u8]) -> Vec<(usize, usize)> { messages::<DltStorageEntry>(unsafe { std::mem::transmute::<&[u8], &'static [u8]>(b) }) }
fn near(a: &(usize, usize), b: &(usize, usize)) -> Option<(usize, usize)> { if a.0 <= b.1 + 1 && b.0 <= a.1 + 1 { Some((a.0.min(b.0), a.1.max(b.1))) } else { None } }
fn lens(b: &[u8]) -> Vec<usize> { spans(b).into_iter().map(|m| m.1).collect() }
fn ge(a: &usize, b: &usize) -> bool { b >= a }
/// pushes one value per step, then gives the result
fn pushed<R: ReducerTrait + 'static>(r: R, mut v: std::vec::IntoIter<R::Input>, show: fn(R::Reduced) -> String) -> Steps where R::Input: 'static {
    let mut r = Some(r);
    Box::new(move || match v.next() {
        Some(x) => { r.as_mut().unwrap().next(x); Some(0) }
        None => r.take().map(|r| text(show(r.finalize()))),
    })
}
fn push_expect(n: usize, s: String) -> Vec<u64> { let mut v = vec![0; n]; v.push(text(s)); v }
fn matching(b: &[u8], re: &str) -> Vec<(usize, usize)> {
    let re = regex::bytes::Regex::new(re).unwrap();
    spans(b).into_iter().filter(|&(o, l)| re.is_match(&b[o + 4..o + l])).collect()
}
fn grep(p: &'static str, b: &'static [u8]) -> Steps { let mut it = GrepIterator::<D>::new(p, b, 0); Box::new(move || it.next().map(|(_, t)| at(b, &t))) }
fn capture(p: &'static str, b: &'static [u8]) -> Steps { let mut it = RegExMatcherIterator::<D>::new(p, b, 0); Box::new(move || it.next().map(|(m, g)| text(format!("{m} {g:?}")))) }
fn captured(b: &[u8], re: &str) -> Vec<u64> {
    let re = regex::bytes::Regex::new(re).unwrap();
    spans(b).into_iter().filter_map(|(o, l)| re.captures(&b[o + 4..o + l]).map(|c| { let g = c.get(1).unwrap(); text(format!("{o} {:?}", (o + 4 + g.start(), o + 4 + g.end()))) })).collect()
}
const POINTS: usize = 7;
fn point(b: &[u8], k: usize) -> usize { k * b.len() / (POINTS - 1) }
fn steps(n: usize, mut f: impl FnMut(usize) -> u64 + 'static) -> Steps { let mut k = 0; Box::new(move || { k += 1; if k <= n { Some(f(k - 1)) } else { None } }) }

const KINDS: &[Kind] = &[
    Kind { name: "dltit", make: |b| { let mut it = dltit(b); Box::new(move || it.next().map(|t| at(b, &t))) }, expect: |b| listed(spans(b)) },
    Kind { name: "sequential reader", make: |b| { let mut it = ReadFallbackIterator::<D>::new(b, 0); Box::new(move || it.next().map(|(_, t)| at(b, &t))) }, expect: |b| listed(spans(b)) },
    Kind { name: "forward search", make: |b| { let mut it = <SearchIterator<D> as TIterator>::new(b, 0); Box::new(move || it.next().map(|(_, t)| at(b, &t))) }, expect: |b| listed(spans(b)) },
    Kind { name: "backward search", make: |b| { let mut it = <RevSearchIterator<D> as TIterator>::new(b, b.len()); Box::new(move || it.next().map(|(_, t)| at(b, &t))) }, expect: |b| { let mut v = spans(b); v.reverse(); listed(v) } },
    Kind { name: "strict reader", make: |b| { let mut it = ReadIterator::<D>::new(b, 0); Box::new(move || it.next().map(|(_, t)| at(b, &t))) },
        expect: |b| listed(strict_ref(b, 0, &|b| if b.starts_with(b"DLT\x01") { dlt_len(b) } else { None })) },
    Kind { name: "grep H.*World", make: |b| grep("H.*World", b), expect: |b| listed(matching(b, "H.*World")) },
    Kind { name: "grep W.*oHrld", make: |b| grep("W.*oHrld", b), expect: |b| listed(matching(b, "W.*oHrld")) },
    Kind { name: "grep [A-Z]o", make: |b| grep("[A-Z]o", b), expect: |b| listed(matching(b, "[A-Z]o")) },
    Kind { name: "capture H(.*)World", make: |b| capture("H(.*)World", b), expect: |b| captured(b, "H(.*)World") },
    Kind { name: "capture (o.)", make: |b| capture("(o.)", b), expect: |b| captured(b, "(o.)") },
    Kind { name: "fields of each message", make: |b| {
        let mut it = dltit(b);
        Box::new(move || it.next().map(|t| {
            let (o, l) = match t.span() { Ok((a, n)) => (a - b.as_ptr() as usize, n), Err(e) => return text(e) };
            match fields::entry_check(b, o + 16, l - 16, &t.dlt, &mut Ctx::aside()) { Ok(()) => code(o, l), Err(e) => text(e) }
        }))
    }, expect: |b| listed(spans(b)) },
    Kind { name: "grouped when pulled", make: |b| { let mut it = dltit(b).map(|t| t.len()).groupby(ge); Box::new(move || it.next().map(|g| text(format!("{g:?}")))) },
        expect: |b| ref_runs(&lens(b), &ge).into_iter().map(|g| text(format!("{g:?}"))).collect() },
    Kind { name: "grouped when pushed", make: |b| pushed(Generator::groupby(ge).collect(), lens(b).into_iter(), |r| format!("{r:?}")),
        expect: |b| push_expect(lens(b).len(), format!("{:?}", ref_runs(&lens(b), &ge))) },
    Kind { name: "merged when pulled", make: |b| { let mut it = FromAdaptFn::new(Merge::new(near, |a: &(usize, usize)| *a), ReadFallbackIterator::<D>::new(b, 0).map(|(o, t)| (o, o + t.len() - 1)));
        Box::new(move || it.next().map(|g| text(format!("{g:?}")))) },
        expect: |b| ref_merge(&spans(b).into_iter().map(|(o, l)| (o, o + l - 1)).collect::<Vec<_>>(), &near, &|a| *a).into_iter().map(|g| text(format!("{g:?}"))).collect() },
    Kind { name: "merged when pushed", make: |b| pushed(Generator::merge(near, |a: &(usize, usize)| *a).collect(), spans(b).into_iter().map(|(o, l)| (o, o + l - 1)).collect::<Vec<_>>().into_iter(), |r| format!("{r:?}")),
        expect: |b| push_expect(spans(b).len(), format!("{:?}", ref_merge(&spans(b).into_iter().map(|(o, l)| (o, o + l - 1)).collect::<Vec<_>>(), &near, &|a| *a))) },
    Kind { name: "split, forked, counted", make: |b| pushed(
            Generator::map(|x: &usize| x + 1).fork(Generator::split(|x: &usize| x % 3, |_| Generator::filter(|x: &usize| *x != 40).sum()), Generator::filter(|x: &usize| x % 2 == 0).count()),
            lens(b).into_iter(), |(m, n)| format!("{m:?} {n}")),
        expect: |b| {
            let mut m = BTreeMap::new();
            for x in lens(b) { *m.entry((x + 1) % 3).or_insert(0usize) += if x + 1 == 40 { 0 } else { x + 1 } }
            push_expect(lens(b).len(), format!("{m:?} {}", lens(b).into_iter().filter(|x| x % 2 == 1).count()))
        } },
    Kind { name: "containment queries", make: |b| { let s = ContainedBySearch::<D>::new(); steps(POINTS - 1, move |k| { let p = point(b, k); s.contained_by(b, (p, p + 1)).map_or(1, |(_, t)| at(b, &t)) }) },
        expect: |b| (0..POINTS - 1).map(|k| { let p = point(b, k); spans(b).into_iter().find(|&(o, l)| o < p && p < o + l).map_or(1, |(o, l)| code(o, l)) }).collect() },
    Kind { name: "partitioning", make: |b| steps(5, move |k| {
            let parts = partition_from::<D>(b, k + 1);
            if let Err(e) = covers(b, &parts) { return text(e) }
            let n: usize = parts.iter().map(|p| ReadFallbackIterator::<D>::new(p, 0).count()).sum();
            text(format!("{:?} {n}", parts.iter().map(|p| p.len()).collect::<Vec<_>>()))
        }), expect: |b| (0..5).map(|k| text(format!("{:?} {}", partition_from::<DltStorageEntry>(b, k + 1).iter().map(|p| p.len()).collect::<Vec<_>>(), spans(b).len()))).collect() },
    Kind { name: "marker searches", make: |b| steps(POINTS * 2, move |k| { let p = point(b, k / 2); code(1, (if k % 2 == 0 { search_marker::<D>(&b[p..]) } else { search_last_marker::<D>(&b[..p]) }).map_or(0, |x| x + 1)) }),
        expect: |b| (0..POINTS * 2).map(|k| { let p = point(b, k / 2); code(1, (if k % 2 == 0 { b[p..].windows(4).position(|w| w == b"DLT\x01") } else { b[..p].windows(4).rposition(|w| w == b"DLT\x01") }).map_or(0, |x| x + 1)) }).collect() },
    Kind { name: "single messages read", make: |b| { let v = spans(b); let n = v.len(); steps(n, move |k| D::try_read(&b[v[k].0..]).map_or(1, |(n, t)| if n == t.len() { at(b, &t) } else { 2 })) }, expect: |b| listed(spans(b)) },
    Kind { name: "headers built", make: |b| { let v = spans(b); let n = v.len(); steps(n, move |k| { let m = &b[v[k].0 + 16..]; let t = m[0];
            text(format!("{:?}", DltStandardHeader::new(DltHTyp::new(t & 1 != 0, t & 2 != 0, t & 4 != 0, t & 8 != 0, t & 16 != 0, t >> 5), m[1], v[k].1 as u16 - 16).as_bytes())) }) },
        expect: |b| spans(b).into_iter().map(|(o, _)| text(format!("{:?}", &b[o + 16..o + 20]))).collect() },
];

/// streams of one length: the same messages and stray bytes in several orders, and one whose messages are cut short
pub struct Streams(pub Vec<(&'static str, &'static [u8])>);
fn message(htyp: u8, secs: u32, ecu: &[u8; 4], tail: &[u8]) -> Vec<u8> { let mut b = head(4 + tail.len() as u16, htyp, secs, ecu); b.extend_from_slice(tail); b }
fn streams(n: usize) -> Streams {
    let a = message(0x20, 1, b"ECU1", b"Hello World");
    let a2 = message(0x20, 9, b"ECU2", b"Hullo Would");
    let c = message(0x31, 2, b"ECU1", b"\x00\x00\x00\x09\x41\x01APP1CTX1Hey World");
    let c2 = message(0x25, 2, b"ECU1", b"ECU9\x41\x01APP1CTX1Wor oHrld");
    let d = message(0x3d, 3, b"ECU3", b"ECU3SESSTIMEExTeNdHeadHo World.");
    let mut bad = a.clone();
    bad[19] = 2; // announces less than its header
    let (x, dl): (&[u8], &[u8]) = (b"x", b"DL");
    let lists: Vec<(&str, Vec<&[u8]>)> = if n == 0 {
        vec![("a c x a2", vec![&a, &c, x, &a2]), ("c2 a2 a x", vec![&c2, &a2, &a, x]), ("x a bad c", vec![x, &a, &bad, &c])]
    } else {
        vec![("a x c", vec![&a, x, &c]), ("c2 x a2", vec![&c2, x, &a2]), ("x a bad' cut", vec![x, &a, &c[..32]])]
    };
    let mut v: Vec<(&str, &'static [u8])> = lists.into_iter().map(|(n, l)| (n, &*l.concat().leak())).collect();
    if n == 0 { v.push(("d DL", [&d[..], dl].concat().leak())) }
    for (_, b) in &v { assert!(!nested::<D>(b, &spans(b))) }
    Streams(v)
}

/// Two further threads; a job runs on one of them while everything else stands still.
struct Hands { to: Vec<Sender<Job>>, done: Receiver<()> }
type Job = Box<dyn FnOnce() + Send>;
struct Sent<T>(T);
unsafe impl<T> Send for Sent<T> {}
impl Hands {
    fn new(n: usize) -> Hands {
        let (dt, done) = channel();
        let to = (0..n).map(|_| { let (t, r) = channel::<Job>(); let dt = dt.clone();
            std::thread::spawn(move || for j in r { let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(j)); let _ = dt.send(()); }); t }).collect();
        Hands { to, done }
    }
    /// runs `f` on thread `t` (0: this one); None if it panics
    fn run<R>(&self, t: usize, f: impl FnOnce() -> R) -> Option<R> {
        if t == 0 { return Some(f()) }
        let mut out = None;
        let p = Sent((f, &mut out as *mut Option<R>));
        let job: Box<dyn FnOnce() + '_> = Box::new(move || { let p = p; let (f, out) = p.0; let r = f(); unsafe { *out = Some(r) } });
        // this thread waits until the job is done: nothing it refers to goes away, and nothing runs beside it
        let job: Job = unsafe { std::mem::transmute::<Sent<Box<dyn FnOnce() + '_>>, Sent<Box<dyn FnOnce() + 'static>>>(Sent(job)) }.into_job();
        self.to[t - 1].send(job).unwrap();
        self.done.recv().unwrap();
        out
    }
}
impl Sent<Box<dyn FnOnce() + 'static>> { fn into_job(self) -> Job { let s = self; Box::new(move || { let s = s; (s.0)() }) } }

struct Agent { kind: usize, stream: &'static [u8], want: Vec<u64>, steps: Option<Steps>, done: usize }
impl Agent {
    fn new(kind: usize, stream: &'static [u8]) -> Agent { Agent { kind, stream, want: (KINDS[kind].expect)(stream), steps: None, done: 0 } }
    /// creation, every item, and the end twice
    fn length(&self) -> usize { self.want.len() + 3 }
    fn reset(&mut self) { self.steps = None; self.done = 0; }
    fn step(&mut self) -> Result<(), String> {
        let k = self.done;
        self.done += 1;
        if k == 0 { self.steps = Some((KINDS[self.kind].make)(self.stream)); return Ok(()) }
        let got = self.steps.as_mut().unwrap()();
        let want = self.want.get(k - 1).copied();
        if got != want { return Err(format!("{}: step {k} gives {got:x?}, alone it gives {want:x?}", KINDS[self.kind].name)) }
        Ok(())
    }
}
/// every way of interleaving the steps; `left` steps are left of each agent
fn interleavings(left: &mut Vec<usize>, order: &mut Vec<u8>, f: &mut dyn FnMut(&[u8]) -> Result<(), String>) -> Result<(), String> {
    if left.iter().all(|l| *l == 0) { return f(order) }
    for a in 0..left.len() {
        if left[a] == 0 { continue }
        left[a] -= 1; order.push(a as u8);
        let r = interleavings(left, order, f);
        left[a] += 1; order.pop();
        r?;
    }
    Ok(())
}
fn together(agents: &mut [Agent], names: &str, hands: Option<&Hands>, most: &[usize], ctx: &mut Ctx) -> Result<(), String> {
    let mut left: Vec<usize> = agents.iter().zip(most).map(|(a, m)| a.length().min(*m)).collect();
    let salt = hash_bytes(names.as_bytes());
    let (mut n, mut states) = (0u64, vec![]);
    interleavings(&mut left, &mut vec![], &mut |order| {
        n += 1;
        if n % 2048 == 0 { ctx.alive() }
        for a in agents.iter_mut() { a.reset() }
        let mut r = Ok(());
        let mut h = salt;
        for &a in order {
            let ag = &mut agents[a as usize];
            r = match hands { None => ag.step(), Some(hs) => hs.run(a as usize, || ag.step()).unwrap_or_else(|| Err(format!("{}: panic", KINDS[agents[a as usize].kind].name))) };
            if let Err(e) = r { r = Err(format!("{e}; order of the steps (first: creation): {order:?}")); break }
            h = agents.iter().fold(salt, |h, a| mix(h ^ a.done as u64 + 1));
            states.push(h);
        }
        if let Some(hs) = hands { for (a, ag) in agents.iter_mut().enumerate() { hs.run(a, || ag.reset()); } }
        ctx.trans(order.len() as u64); ctx.exec();
        ctx.outcome(h);
        if states.len() > 4096 { for s in states.drain(..) { ctx.state(s) } }
        r
    })?;
    for s in states { ctx.state(s) }
    Ok(())
}
fn pairs_phase(name: &str, set: usize, threads: bool, second: &'static [usize], cap: usize) -> Phase {
    let k = KINDS.len() as u64;
    let s = Rc::new(streams(set));
    let s2 = s.clone();
    let ns = second.len() as u64;
    let hands = std::cell::OnceCell::new(); // made in the worker that runs cases
    let show = move |i: u64, s: &Streams| { let (x, y, z) = ((i % k) as usize, (i / k % k) as usize, second[(i / k / k) as usize]); format!("{} of [{}] with {} of [{}]", KINDS[x].name, s.0[0].0, KINDS[y].name, s.0[z].0) };
    Phase {
        name: name.into(),
        bounds: format!("{k} users of the library (readers, searches, queries, pipelines) on one stream, each beside each of the {k} on each of {ns} streams of the same process, {}: all interleavings of their steps (creation, items, end; at most {cap} each), each item against the reference",
            if threads { "each on its own thread and one step at a time" } else { "on one thread" }),
        total: k * k * ns, chunk: 1, cpu_limit: 60,
        run: Box::new(move |i, ctx| {
            let (x, y, z) = ((i % k) as usize, (i / k % k) as usize, second[(i / k / k) as usize]);
            let mut ag = [Agent::new(x, s.0[0].1), Agent::new(y, s.0[z].1)];
            let h = if threads { Some(hands.get_or_init(|| Hands::new(2))) } else { None };
            together(&mut ag, &show(i, &s), h, &[cap, cap], ctx)
        }),
        describe: Box::new(move |i| show(i, &s2)),
    }
}
fn triples_phase(t: Tier) -> Phase {
    let k = KINDS.len() as u64;
    let s = Rc::new(streams(1));
    let s2 = s.clone();
    let cap = t.pick(3, 4);
    let all: Rc<Vec<[usize; 3]>> = Rc::new((0..k as usize).flat_map(|a| (a..k as usize).flat_map(move |b| (b..k as usize).map(move |c| [a, b, c]))).collect());
    let a2 = all.clone();
    let show = move |i: u64, s: &Streams| (0..3).map(|a| format!("{} of [{}]", KINDS[a2[i as usize][a]].name, s.0[a].0)).collect::<Vec<_>>().join(", ");
    let show = Rc::new(show);
    let sh2 = show.clone();
    Phase {
        name: "three side by side".into(), bounds: format!("all {} triples of the {k} users, on three streams: all interleavings of their first {cap} steps", all.len()),
        total: all.len() as u64, chunk: 4, cpu_limit: 60,
        run: Box::new(move |i, ctx| {
            let mut ag: Vec<Agent> = (0..3).map(|a| Agent::new(all[i as usize][a], s.0[a].1)).collect();
            together(&mut ag, &show(i, &s), None, &[cap; 3], ctx)
        }),
        describe: Box::new(move |i| sh2(i, &s2)),
    }
}
/// one user whose steps are made by two threads in turn
fn moved_phase(t: Tier) -> Phase {
    let k = KINDS.len() as u64;
    let s = Rc::new(streams(0));
    let s2 = s.clone();
    let n = s.0.len() as u64;
    let cap = t.pick(6, 10);
    let hands = std::cell::OnceCell::new();
    Phase {
        name: "moved between threads".into(), bounds: format!("each of {k} users on each of {n} streams: all assignments of its first {cap} steps to two threads"),
        total: k * n, chunk: 1, cpu_limit: 60,
        run: Box::new(move |i, ctx| {
            let hs = hands.get_or_init(|| Hands::new(2));
            let mut ag = Agent::new((i % k) as usize, s.0[(i / k) as usize].1);
            let len = ag.length().min(cap);
            for w in 0..1u32 << len {
                ag.reset();
                for j in 0..len {
                    let on = 1 + (w >> j & 1) as usize;
                    hs.run(on, || ag.step()).unwrap_or(Err("panic".into())).map_err(|e| format!("{e}; threads of the steps: {:?}", (0..=j).map(|j| 1 + (w >> j & 1)).collect::<Vec<_>>()))?;
                    ctx.state(mix(i) ^ mix((w & ((2 << j) - 1)) as u64 + ((j as u64) << 32)));
                }
                hs.run(2, || ag.reset());
                ctx.trans(len as u64); ctx.exec();
            }
            ctx.outcome(mix(i));
            Ok(())
        }),
        describe: Box::new(move |i| format!("{} of [{}]", KINDS[(i % k) as usize].name, s2.0[(i / k) as usize].0)),
    }
}
/// the bytes at one address change between two users: the second sees the new ones
fn reuse_phase(t: Tier) -> Phase {
    let k = KINDS.len() as u64;
    let a = message(0x20, 1, b"ECU1", b"Hello World");
    let c = message(0x31, 2, b"ECU1", b"\x00\x00\x00\x09\x41\x01APP1CTX1Hey World");
    let e = message(0x20, 3, b"ECU2", b"Wo oHrld");
    let toks = Rc::new(Tokens::new(t.pick(2, 3), vec![("a", a), ("c", c), ("e", e), ("cut", h(60000)), ("x", vec![b'x'; 31])]));
    let n = toks.total();
    let size = 51 * toks.depth as usize;
    let fill = { let t = toks.clone(); move |i: u64, b: &mut [u8]| { let v = t.build(i); b.fill(b'.'); b[..v.len()].copy_from_slice(&v); } };
    let t2 = toks.clone();
    Phase {
        name: "buffers used again".into(), bounds: format!("one buffer of {size} bytes holds one stream, then another, for all pairs of the streams of at most {} of {} fragments, and each of {k} users reads it each time, with and without another user in between", toks.depth, toks.toks.len()),
        total: n * n, chunk: 1, cpu_limit: 60,
        run: Box::new(move |i, ctx| {
            let mut buf = vec![0u8; size].into_boxed_slice();
            let bytes: &'static [u8] = unsafe { std::slice::from_raw_parts(buf.as_ptr(), size) };
            for x in 0..k as usize {
                for between in [None, Some((x + 1) % k as usize)] {
                    for s in [i % n, i / n, i % n] {
                        fill(s, &mut buf);
                        let mut ag = Agent::new(x, bytes);
                        for _ in 0..ag.length() { ag.step().map_err(|e| format!("{e}; the buffer held, one after the other, {} and {}", toks.describe(i % n), toks.describe(i / n)))?; ctx.trans(1); }
                        if let Some(y) = between { let mut ag = Agent::new(y, bytes); for _ in 0..ag.length() { ag.step()? } }
                        ctx.exec();
                    }
                }
                ctx.state(mix(i) ^ mix(x as u64 + 1));
            }
            ctx.outcome(mix(i));
            Ok(())
        }),
        describe: Box::new(move |i| format!("{} then {}", t2.describe(i % n), t2.describe(i / n))),
    }
}
/// queries that one object answers, for whatever bytes are given with them, while it is iterated itself
fn shared_phase(t: Tier) -> Phase {
    let s = Rc::new(streams(0));
    const POS: u64 = 5;
    const OBJ: [&str; 6] = ["grep", "capture", "containment", "forward search", "backward search", "containment shared with partitioning"];
    // op 0: next(); others: a query on stream q at position p
    let nq = 3 * POS + 1;
    let depth = t.pick(3, 4);
    let sq = Rc::new(Tokens::new(depth, (0..nq).map(|q| ("", vec![q as u8])).collect()));
    let total = sq.total();
    let name = |q: usize| if q == 0 { "next".to_string() } else { format!("stream {} at {}/{POS}", (q as u64 - 1) / POS, (q as u64 - 1) % POS) };
    let sq2 = sq.clone();
    Phase {
        name: "one object, many queries".into(), bounds: format!("each of {} objects: all sequences of at most {depth} of next() and queries at {POS} positions of 3 streams", OBJ.len()),
        total: total * OBJ.len() as u64, chunk: 256, cpu_limit: 10,
        run: Box::new(move |i, ctx| {
            let (obj, seq) = ((i / total) as usize, sq.seq(i % total));
            let own = s.0[0].1;
            let g = GrepIterator::<D>::new("H.*World", own, 0);
            let c = RegExMatcherIterator::<D>::new("H(.*)World", own, 0);
            let f = <SearchIterator<D> as TIterator>::new(own, 0);
            let r = <RevSearchIterator<D> as TIterator>::new(own, own.len());
            let cs = ContainedBySearch::<D>::new();
            let (g, c, f, r) = (RefCell::new(g), RefCell::new(c), RefCell::new(f), RefCell::new(r));
            let all = spans(own);
            let mut nexts = 0;
            for (k, &q) in seq.iter().enumerate() {
                let (st, p) = (s.0[(q.max(1) - 1) / POS as usize].1, (q.max(1) as u64 - 1) % POS);
                let p = (p as usize * st.len()) / (POS as usize - 1);
                let ms = spans(st);
                let (got, want): (Option<u64>, Option<u64>) = match (obj, q) {
                    (0, 0) => (g.borrow_mut().next().map(|(_, t)| at(own, &t)), matching(own, "H.*World").get(nexts).map(|m| code(m.0, m.1))),
                    (0, _) => (g.borrow().search(st, p).map(|(_, t)| at(st, &t)), { let re = regex::bytes::Regex::new("H.*World").unwrap(); ms.iter().find(|m| { let a = (m.0 + 4).max(p); a < m.0 + m.1 && re.is_match(&st[a..m.0 + m.1]) }).map(|m| code(m.0, m.1)) }),
                    (1, 0) => (c.borrow_mut().next().map(|(m, g)| text(format!("{m} {g:?}"))), captured(own, "H(.*)World").get(nexts).copied()),
                    (1, _) => (c.borrow().capture(st, p).map(|(m, g)| text(format!("{m} {g:?}"))), { let re = regex::bytes::Regex::new("H(.*)World").unwrap();
                        ms.iter().find_map(|m| { let a = (m.0 + 4).max(p); if a >= m.0 + m.1 { return None } let g = re.captures(&st[a..m.0 + m.1])?.get(1)?.range(); Some(text(format!("{} {:?}", m.0, (a + g.start, a + g.end)))) }) }),
                    (3, 0) => (f.borrow_mut().next().map(|(_, t)| at(own, &t)), all.get(nexts).map(|m| code(m.0, m.1))),
                    (3, _) => { if markers_invalid(st) { continue } (f.borrow().search(st, p).map(|(_, t)| at(st, &t)), ms.iter().find(|m| m.0 >= p).map(|m| code(m.0, m.1))) }
                    (4, 0) => (r.borrow_mut().next().map(|(_, t)| at(own, &t)), all.iter().rev().nth(nexts).map(|m| code(m.0, m.1))),
                    (4, _) => { if markers_invalid(st) { continue } (r.borrow().search(st, p).map(|(_, t)| at(st, &t)), ms.iter().rev().find(|m| m.0 + 4 <= p).map(|m| code(m.0, m.1))) }
                    (_, 0) => { if obj == 5 { covers(own, &partition_from::<D>(own, 3))? } continue }
                    _ => (cs.contained_by(st, (p, p + 1)).map(|(_, t)| at(st, &t)), ms.iter().find(|&&(o, l)| o < p && p < o + l).map(|&(o, l)| code(o, l))),
                };
                if q == 0 { nexts += 1 }
                ctx.trans(1);
                ctx.state(mix(obj as u64 + 1) ^ seq[..=k].iter().fold(7, |h, x| mix(h ^ *x as u64 + 9)));
                if got != want { return Err(format!("{}: {} behind {:?} gives {got:x?}, alone it gives {want:x?}", OBJ[obj], name(q), seq[..k].iter().map(|&q| name(q)).collect::<Vec<_>>())) }
                ctx.outcome(mix(got.unwrap_or(0) ^ q as u64));
            }
            ctx.exec();
            Ok(())
        }),
        describe: Box::new(move |i| format!("{}: {:?}", OBJ[(i / total) as usize], sq2.seq(i % total).iter().map(|&q| name(q)).collect::<Vec<_>>())),
    }
}
/// words of `n` letters of an alphabet of `k`, in order
fn word(mut i: u64, k: u64, n: u32) -> Vec<u8> { (0..n).map(|_| { let c = b'a' + (i % k) as u8; i /= k; c }).collect() }
/// very many patterns in the life of one process: each finds its own word and nothing else
pub fn many_patterns(t: Tier, both: bool, capture: bool) -> Phase {
    let k = 26u64;
    // (name, number of patterns, the pattern of a word, what matches, what does not)
    type Lane = (&'static str, u64, Box<dyn Fn(u64) -> (String, Vec<u8>, Vec<u8>)>);
    let other = |w: &[u8], i: u64, k: u64| { let mut o = w.to_vec(); let p = i as usize % o.len(); o[p] = b'a' + ((o[p] - b'a') as u64 + 1 + i % (k - 1)) as u8 % k as u8; o };
    let text = |w: Vec<u8>| String::from_utf8(w).unwrap();
    let lanes: Rc<Vec<Lane>> = Rc::new(vec![
        ("words of 4 letters", k.pow(4), Box::new(move |i| { let w = word(i, k, 4); (text(w.clone()), w.clone(), other(&w, i, k)) })),
        ("words of 8 letters", t.pick(200_000, 1_000_000), Box::new(move |i| { let w = word(mix(i) >> 16, 26, 8); (text(w.clone()), w.clone(), other(&w, i, 26)) })),
        ("numbers", t.pick(200_000, 1_000_000), Box::new(move |i| { let s = format!("{}", i + 7); (format!("<{s}>"), format!("<{s}>").into_bytes(), format!("<{}>", i + 8).into_bytes()) })),
        ("classes", t.pick(200_000, 1_000_000), Box::new(move |i| { let w = word(i, 26, 4); let o = other(&w, i, 26); (w.iter().map(|c| format!("[{}{}]", *c as char, *c as char)).collect(), w, o) })),
        ("words of growing length", t.pick(2_000, 4_000), Box::new(move |i| { let w: Vec<u8> = (0..i + 1).map(|j| b'a' + (mix(j ^ i << 40) % 26) as u8).collect(); (text(w.clone()), w.clone(), other(&w, i, 26)) })),
    ]);
    let l2 = lanes.clone();
    let reps = if both { 2 } else { 1 };
    Phase {
        name: "very many patterns".into(), bounds: format!("{:?} one after the other in one process: each on a message with its word and one with a similar word", lanes.iter().map(|l| (l.0, l.1)).collect::<Vec<_>>()),
        total: lanes.len() as u64 * reps, chunk: 1, cpu_limit: 120,
        run: Box::new(move |i, ctx| {
            let (name, n, f) = &lanes[(i / reps) as usize];
            let cap = if both { i % reps == 1 } else { capture };
            for j in 0..*n {
                let (p, yes, no) = f(j);
                let mut b = vec![];
                let at = if j % 2 == 0 { 0 } else { no.len() + 30 };
                for w in if j % 2 == 0 { [&yes, &no] } else { [&no, &yes] } {
                    b.extend(head(w.len() as u16 + 14, 0x20, 1, b"ECU1"));
                    b.extend_from_slice(b"---- "); b.extend_from_slice(w); b.extend_from_slice(b" ----");
                }
                let (a, e) = (at + 25, at + 25 + yes.len());
                let (got, want) = if cap {
                    (RegExMatcherIterator::<DltStorageEntry>::new(&format!("({p})"), &b, 0).take(3).map(|(m, g)| (m, g)).collect::<Vec<_>>(), (at, (a, e)))
                } else {
                    (GrepIterator::<DltStorageEntry>::new(&p, &b, 0).take(3).map(|(o, _)| (o, (0, 0))).collect(), (at, (0, 0)))
                };
                ctx.trans(1);
                if j % 512 == 0 { ctx.alive(); ctx.exec(); ctx.state(mix(i << 32 | j)) }
                if &b[a..e] != yes { return Err("the reference is wrong".into()) }
                if got != [want] { return Err(format!("{name}: the {j}th pattern {p:?} gives {got:?}, expected {want:?}")) }
            }
            ctx.outcome(i);
            Ok(())
        }),
        describe: Box::new(move |i| l2[(i / reps) as usize].0.to_string()),
    }
}
/// very many users at the same time
fn crowd_phase(t: Tier) -> Phase {
    let s = Rc::new(streams(0));
    let sizes = t.pick(vec![3usize, 9, 17, 33, 65, 129, 257, 1025, 4097], vec![3usize, 5, 9, 17, 33, 65, 129, 257, 513, 1025, 2049, 4097, 10_001]);
    const ORDER: [&str; 4] = ["in turn", "the last one first", "one after the other", "some of them in turn, until each has ended and the next one starts"];
    let k = KINDS.len();
    let total = sizes.len() * ORDER.len() * (k + 1);
    let sz = sizes.clone();
    let show = move |i: u64| { let i = i as usize; format!("{} users ({}), {}", sz[i / ORDER.len() / (k + 1)], if i / ORDER.len() % (k + 1) == k { "all kinds" } else { KINDS[i / ORDER.len() % (k + 1)].name }, ORDER[i % ORDER.len()]) };
    Phase {
        name: "a crowd".into(), bounds: format!("{sizes:?} users of the same kind ({k} kinds) and of all kinds that exist at the same time, on 4 streams, their steps made {ORDER:?}"),
        total: total as u64, chunk: 1, cpu_limit: 60,
        run: Box::new(move |i, ctx| {
            let i = i as usize;
            let (n, kind, order) = (sizes[i / ORDER.len() / (k + 1)], i / ORDER.len() % (k + 1), i % ORDER.len());
            if kind == k && n > 4097 { return Ok(()) }
            let mut known: BTreeMap<(usize, usize), Vec<u64>> = BTreeMap::new();
            let mut agents: Vec<Agent> = (0..n).map(|a| {
                // no period in common with the numbers of users
                let (kd, st) = (if kind == k { a % k } else { kind }, (a / if kind == k { k } else { 1 } + a / 7) % s.0.len());
                let want = known.entry((kd, st)).or_insert_with(|| (KINDS[kd].expect)(s.0[st].1)).clone();
                Agent { kind: kd, stream: s.0[st].1, want, steps: None, done: 0 }
            }).collect();
            let go = |a: &mut Agent, ctx: &mut Ctx| -> Result<bool, String> {
                if a.done >= a.length() { return Ok(false) }
                ctx.trans(1);
                a.step()?;
                Ok(true)
            };
            match order {
                0 | 1 => loop {
                    let mut any = false;
                    for x in 0..n { any |= go(&mut agents[if order == 0 { x } else { n - 1 - x }], ctx)? }
                    ctx.alive();
                    if !any { break }
                },
                2 => { for a in &mut agents { go(a, ctx)?; } for a in &mut agents { while go(a, ctx)? {} ctx.alive() } }
                _ => {
                    let (mut open, mut next) = ((0..n.min(n / 2 + 1)).collect::<Vec<usize>>(), n / 2 + 1);
                    while !open.is_empty() {
                        for slot in 0..open.len() {
                            if slot >= open.len() { break }
                            if !go(&mut agents[open[slot]], ctx)? {
                                agents[open[slot]].steps = None;
                                if next < n { open[slot] = next; next += 1; go(&mut agents[open[slot]], ctx)?; } else { open.swap_remove(slot); }
                            }
                        }
                        ctx.alive();
                    }
                }
            }
            ctx.exec(); ctx.state(mix(i as u64) ^ 0xc0); ctx.outcome(mix(agents.iter().map(|a| a.want.len() as u64).sum()));
            Ok(())
        }),
        describe: Box::new(show),
    }
}
/// The instrumented program: each argument K:S is a thread on which a user of kind K works on stream S.
pub fn users_main(args: &[String]) {
    let s = streams(1);
    // nothing shared between the threads apart from what the library shares
    struct Job { kind: usize, stream: &'static [u8], got: Vec<u64> }
    extern "C" fn work(j: *mut libc::c_void) -> *mut libc::c_void {
        let j = unsafe { &mut *(j as *mut Job) };
        let mut it = (KINDS[j.kind].make)(j.stream);
        while let Some(x) = it() { j.got.push(x); if j.got.len() > 100 { break } }
        std::ptr::null_mut()
    }
    let mut jobs: Vec<Job> = args.iter().map(|a| {
        let (k, st) = a.split_once(':').expect("users");
        Job { kind: k.parse().unwrap(), stream: s.0[st.parse::<usize>().unwrap()].1, got: vec![] }
    }).collect();
    unsafe {
        let ids: Vec<libc::pthread_t> = jobs.iter_mut().map(|j| { let mut id = 0; assert!(libc::pthread_create(&mut id, std::ptr::null(), work, j as *mut Job as _) == 0); id }).collect();
        for id in ids { libc::pthread_join(id, std::ptr::null_mut()); }
    }
    for j in jobs { println!("{:x?}", j.got) }
}
/// users on threads that the scheduler interrupts anywhere
fn interrupted_phase(t: Tier, name: &'static str, threads: usize, bound: usize, seconds: u64, some: Vec<Vec<(usize, usize)>>) -> Phase {
    let (cap, n) = (t.pick(10_000, 50_000), some.len() as u64);
    let pace = crate::par::Pace::new(seconds, n);
    let some = Rc::new(some);
    let s2 = some.clone();
    let show = |v: &[(usize, usize)]| { let s = streams(1); v.iter().map(|&(k, st)| format!("{} of [{}]", KINDS[k].name, s.0[st].0)).collect::<Vec<_>>().join(" | ") };
    Phase {
        name: name.into(),
        bounds: format!("{n} choices of {threads} users, each on a thread of its own from its creation to its end: every schedule with at most {bound} preemptions at atomic operations, accesses to global data and blocking calls (at most {cap} schedules and {seconds} s)"),
        total: n, chunk: 4, cpu_limit: 60,
        run: Box::new(move |i, ctx| {
            let users = &some[i as usize];
            let s = streams(1);
            let want: Vec<String> = users.iter().map(|&(k, st)| format!("{:x?}", (KINDS[k].expect)(s.0[st].1))).collect();
            ctx.outcome(hash_bytes(want.join("\n").as_bytes()));
            let h = hash_bytes(show(users).as_bytes());
            let end = pace.next();
            let all = crate::proc::with("sched/mc", |srv| {
                let args: Vec<String> = ["mc".into(), "users".into()].into_iter().chain(users.iter().map(|(k, s)| format!("{k}:{s}"))).collect();
                let mut r = crate::proc::Run::new(&args.iter().map(|a| &a[..]).collect::<Vec<_>>());
                crate::par::schedules(bound, cap, end, ctx, |plan, ctx| {
                    r.plan = plan.to_vec();
                    let d = srv.run(&r);
                    ctx.alive();
                    match d.code() {
                        Some(78) | Some(79) => return Ok(None),
                        Some(77) => return Err(format!("{} with schedule {plan:?}", d.how())),
                        _ if d.trace_full && !d.ok() => return Ok(None),
                        _ => {}
                    }
                    ctx.exec();
                    let t = &d.trace;
                    ctx.trans(t.len() as u64 + 1);
                    let mut x = h;
                    for c in t { x = mix(x ^ ((c.n as u64) << 8 | c.chosen as u64)); ctx.state(x) }
                    let got = String::from_utf8_lossy(&d.out).lines().map(|l| l.to_string()).collect::<Vec<_>>();
                    if !d.ok() || got != want { return Err(format!("{}: {got:?}, alone {want:?}; schedule {:?}", d.how(), t.iter().map(|c| c.chosen).collect::<Vec<_>>())) }
                    Ok(if d.trace_full { None } else { Some(d.trace) })
                })
            })?;
            if !all { ctx.cut += 1 }
            Ok(())
        }),
        describe: Box::new(move |i| show(&s2[i as usize])),
    }
}
fn markers_invalid(b: &[u8]) -> bool { b.windows(4).filter(|w| w == b"DLT\x01").count() != spans(b).len() }

pub fn c29(t: Tier) -> Plan {
    let k = KINDS.len();
    // pattern searches have many scheduling points
    let re = |a: usize| KINDS[a].name.starts_with("grep") || KINDS[a].name.starts_with("capture");
    let pairs = |res: bool| (0..k).flat_map(|a| (0..k).flat_map(move |b| [0, 1].map(|s| vec![(a, 0), (b, s)]))).filter(|v| (re(v[0].0) || re(v[1].0)) == res && !(res && t == Tier::Quick && v[1].1 == 0)).collect();
    Plan {
        phases: vec![
            pairs_phase("two side by side", 0, false, &[0, 1, 2, 3], t.pick(6, 8)),
            pairs_phase("two on two threads", 1, true, &[0, 1], t.pick(4, 6)),
            triples_phase(t),
            moved_phase(t),
            reuse_phase(t),
            shared_phase(t),
            many_patterns(t, true, false),
            crowd_phase(t),
            interrupted_phase(t, "interrupted anywhere", 2, t.pick(2, 4), t.pick(100, 600), pairs(false)),
            interrupted_phase(t, "patterns interrupted anywhere", 2, t.pick(1, 2), t.pick(100, 600), pairs(true)),
            interrupted_phase(t, "three interrupted anywhere", 3, t.pick(1, 2), t.pick(60, 600), (0..k).flat_map(|a| (0..k).flat_map(move |b| t.pick(vec![2], vec![0, 1, 2]).into_iter().map(move |s| vec![(a, 0), (b, 1), (a, s)]))).filter(|v| t == Tier::Thorough || !re(v[0].0) && !re(v[1].0)).collect()),
        ],
        assumptions: vec!["threads interleave at atomic operations, accesses to global data and blocking calls, sequentially consistent in between".into(), "more users, longer streams and other message types behave like the explored ones".into()],
    }
}
