//! C30: an iterator of the library is its sequence of items, whichever methods of Iterator it is used through.
use crate::engine::*;
use crate::gen::{ref_merge, ref_runs};
use crate::reading::strict_ref;
use crate::refmodel::*;
use crate::streams::*;
use matchit::fromgenerator::{FromAdaptFn, FromAdaptFnCall};
use matchit::generator::groupby::Merge;
use matchit::readit::ReadIterator;
use matchit::searchable::grepit::{GrepIterator, RegExMatcherIterator};
use matchit::searchable::readfallbackit::ReadFallbackIterator;
use matchit::searchable::searchit::{RevSearchIterator, SearchIterator};
use matchit::{NoOffsetIterator, TIterator};
use rapiddlt::dlt_v1::{dltit, DltStorageEntry};
use std::ops::ControlFlow;
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op { Next, Nth(usize), SizeHint, Take(usize), UntilFirst, Find(usize), SkipNext(usize), Peek, Count, Last, Collect, Fold, ForEach, StepBy(usize), Max, Partition, Fuse, Chain, Rev3 }
use Op::*;
/// operations after which the iterator is still there, and those that use it up
const STAY: [Op; 12] = [Next, Nth(0), Nth(1), Nth(2), Nth(9), SizeHint, Take(2), UntilFirst, Find(1), SkipNext(1), Peek, Nth(usize::MAX)];
const END: [Op; 11] = [Count, Last, Collect, Fold, ForEach, StepBy(2), Max, Partition, Fuse, Chain, Rev3];

fn script(i: u64, depth: u32) -> (Vec<Op>, Op) {
    let t = Tokens::new(depth, STAY.iter().map(|_| ("", vec![])).collect());
    (t.seq(i / END.len() as u64).into_iter().map(|j| STAY[j]).collect(), END[(i % END.len() as u64) as usize])
}
fn scripts(depth: u32) -> u64 { Tokens::new(depth, STAY.iter().map(|_| ("", vec![])).collect()).total() * END.len() as u64 }

/// runs the script on the iterator itself (no adapter in between) and on the list, operation by operation
fn run<I: Iterator>(mut it: I, enc: impl Fn(I::Item) -> u64 + Copy, want: &[u64], ops: &[Op], end: Op) -> Result<u64, String> {
    let mut w = want.iter().copied();
    for (k, &op) in ops.iter().enumerate() {
        let (g, e): (Vec<u64>, Vec<u64>) = match op {
            Next => (it.next().map(enc).into_iter().collect(), w.next().into_iter().collect()),
            Nth(n) => (it.nth(n).map(enc).into_iter().collect(), w.nth(n).into_iter().collect()),
            Take(n) => (it.by_ref().take(n).map(enc).collect(), w.by_ref().take(n).collect()),
            UntilFirst => (match it.try_for_each(|x| ControlFlow::Break(enc(x))) { ControlFlow::Break(x) => vec![x], _ => vec![] }, w.next().into_iter().collect()),
            Find(n) => { let (mut a, mut b) = (0, 0); (it.find(|_| { a += 1; a > n }).map(enc).into_iter().collect(), w.find(|_| { b += 1; b > n }).into_iter().collect()) }
            SkipNext(n) => (it.by_ref().skip(n).next().map(enc).into_iter().collect(), w.by_ref().skip(n).next().into_iter().collect()),
            Peek => { let (mut a, mut b) = (it.by_ref().peekable(), w.by_ref().peekable()); a.peek(); b.peek(); (a.next().map(enc).into_iter().collect(), b.next().into_iter().collect()) }
            SizeHint => {
                let ((lo, hi), n) = (it.size_hint(), w.len());
                if lo > n || hi.is_some_and(|h| h < n) { return Err(format!("size_hint() behind {:?} is {:?}, {n} items follow", &ops[..k], (lo, hi))) }
                (vec![], vec![])
            }
            _ => unreachable!(),
        };
        if g != e { return Err(format!("{op:?} behind {:?} gives {g:x?}, expected {e:x?}", &ops[..k])) }
    }
    let rest: Vec<u64> = w.collect();
    let (g, e): (Vec<u64>, Vec<u64>) = match end {
        Count => (vec![it.count() as u64], vec![rest.len() as u64]),
        Last => (it.last().map(enc).into_iter().collect(), rest.last().copied().into_iter().collect()),
        Collect => (it.collect::<Vec<_>>().into_iter().map(enc).collect(), rest),
        Fold => (it.fold(vec![], |mut v, x| { v.push(enc(x)); v }), rest),
        ForEach => { let mut v = vec![]; it.for_each(|x| v.push(enc(x))); (v, rest) }
        StepBy(n) => (it.step_by(n).map(enc).collect(), rest.into_iter().step_by(n).collect()),
        Max => (it.map(enc).max().into_iter().collect(), rest.into_iter().max().into_iter().collect()),
        Partition => { let (a, b): (Vec<u64>, Vec<u64>) = it.map(enc).partition(|x| x % 2 == 0); ([a, vec![u64::MAX], b].concat(), { let (a, b): (Vec<u64>, Vec<u64>) = rest.into_iter().partition(|x| x % 2 == 0); [a, vec![u64::MAX], b].concat() }) }
        Fuse => { let mut v = vec![]; let mut f = it.fuse(); while let Some(x) = f.next() { v.push(enc(x)) } (v, rest) }
        Chain => { let mut v: Vec<u64> = it.map(enc).chain([7]).skip(1).collect(); v.push(0); (v, rest.into_iter().chain([7]).skip(1).chain([0]).collect()) }
        Rev3 => { // the end, three times
            let mut v = vec![];
            while let Some(x) = it.next() { v.push(enc(x)) }
            for _ in 0..3 { if let Some(x) = it.next() { v.push(enc(x)); v.push(u64::MAX) } if let Some(x) = it.nth(1) { v.push(enc(x)); v.push(u64::MAX) } }
            v.push(it.count() as u64);
            (v, rest.into_iter().chain([0]).collect())
        }
        _ => unreachable!(),
    };
    if g != e { return Err(format!("{end:?} behind {ops:?} gives {g:x?}, expected {e:x?}")) }
    Ok(ops.len() as u64 + 1)
}

fn code(o: usize, l: usize) -> u64 { (o as u64) << 24 | l as u64 }
fn pair(a: (usize, usize)) -> u64 { code(a.0, a.1) }
fn listed(v: &[(usize, usize)]) -> Vec<u64> { v.iter().map(|&(o, l)| code(o, l)).collect() }
fn near(a: &(usize, usize), b: &(usize, usize)) -> Option<(usize, usize)> { if a.0 <= b.1 + 1 && b.0 <= a.1 + 1 { Some((a.0.min(b.0), a.1.max(b.1))) } else { None } }
fn ge(a: &usize, b: &usize) -> bool { b >= a }

const TYPES: [&str; 9] = ["sequential reader", "forward search", "backward search", "strict reader", "without offsets", "pattern search", "captures", "groups pulled", "merged pulled"];
fn on<'b, P: Probe<'b> + 'b>(ty: usize, b: &'b [u8], o: usize, ops: &[Op], end: Op) -> Result<Option<u64>, String> {
    let valid = valid_at::<P>(b);
    let ms = parse(&valid, o);
    let enc = |(o, t): (usize, P)| code(o, t.len());
    let base = b.as_ptr() as usize;
    let re = |capture: bool| -> Option<Vec<(usize, usize)>> {
        let (all, re) = (messages::<P>(b), regex::bytes::Regex::new("([x.])").unwrap());
        if nested::<P>(b, &all) { return None }
        Some(all.iter().filter_map(|&(m, l)| { let s = (m + P::MARK.len()).max(o); if s >= m + l { return None } re.captures(&b[s..m + l]).map(|c| if capture { (m, s + c.get(1).unwrap().start()) } else { (m, l) }) }).collect())
    };
    Ok(Some(match ty {
        0 => run(ReadFallbackIterator::<P>::new(b, o), enc, &listed(&ms), ops, end)?,
        1 => run(<SearchIterator<P> as TIterator>::new(b, o), enc, &listed(&ms), ops, end)?,
        2 => { let v: Vec<(usize, usize)> = valid.iter().rev().copied().filter(|m| m.0 + P::MARK.len() <= b.len() - o.min(b.len())).collect(); run(<RevSearchIterator<P> as TIterator>::new(b, b.len() - o.min(b.len())), enc, &listed(&v), ops, end)? }
        3 => run(ReadIterator::<P>::new(b, o), enc, &listed(&strict_ref(b, o, &|b| if b.starts_with(P::MARK) { P::ref_len(b) } else { None })), ops, end)?,
        4 => run(NoOffsetIterator::new(ReadFallbackIterator::<P>::new(b, o)), |t: P| t.span().map_or(1, |(a, l)| code(a - base, l)), &listed(&ms), ops, end)?,
        5 => { let Some(v) = re(false) else { return Ok(None) }; run(GrepIterator::<P>::new("([x.])", b, o), enc, &listed(&v), ops, end)? }
        6 => { let Some(v) = re(true) else { return Ok(None) }; run(RegExMatcherIterator::<P>::new("([x.])", b, o), |(m, g)| code(m, g.0), &listed(&v), ops, end)? }
        7 => { let l: Vec<usize> = ms.iter().map(|m| m.1).collect(); run(ReadFallbackIterator::<P>::new(b, o).map(|(_, t)| t.len()).groupby(ge), pair, &listed(&ref_runs(&l, &ge)), ops, end)? }
        _ => { let l: Vec<(usize, usize)> = ms.iter().map(|m| (m.0, m.0 + m.1 - 1)).collect(); run(FromAdaptFn::new(Merge::new(near, |a: &(usize, usize)| *a), ReadFallbackIterator::<P>::new(b, o).map(|(o, t)| (o, o + t.len() - 1))), pair, &listed(&ref_merge(&l, &near, &|a| *a)), ops, end)? }
    }))
}
fn phase(name: &str, toks: Tokens, depth: u32, offs: &'static [usize], f: fn(usize, &[u8], usize, &[Op], Op) -> Result<Option<u64>, String>) -> Phase {
    let toks = Rc::new(toks);
    let t2 = toks.clone();
    let n = scripts(depth);
    Phase {
        name: name.into(),
        bounds: format!("all sequences of at most {} of the {} fragments {:?} x {} iterator types x start offsets {offs:?} x all sequences of at most {depth} of the {} operations {STAY:?}, ended by each of {END:?}: operation by operation against the list of items", toks.depth, toks.toks.len(), toks.toks.iter().map(|t| t.0.as_str()).collect::<Vec<_>>(), TYPES.len(), STAY.len()),
        total: toks.total(), chunk: 1, cpu_limit: 60,
        run: Box::new(move |i, ctx| {
            let b = toks.build(i);
            let hb = hash_bytes(&b);
            for ty in 0..TYPES.len() { for &o in offs { for s in 0..n {
                let (ops, end) = script(s, depth);
                match f(ty, &b, o, &ops, end).map_err(|e| format!("{} from offset {o}: {e}", TYPES[ty]))? {
                    None => ctx.trivial += 1,
                    Some(k) => { ctx.trans(k); ctx.exec(); ctx.state(hb ^ mix(s << 8 | (o as u64) << 4 | ty as u64)) }
                }
            } ctx.alive(); } }
            ctx.outcome(hb);
            Ok(())
        }),
        describe: Box::new(move |i| format!("{} = {}", t2.describe(i), hex(&t2.build(i)))),
    }
}
fn wide(t: Tier) -> Phase {
    let d = t.pick(2, 3);
    let n = scripts(d);
    let k = TYPES.len() as u64 + 1;
    let b: Rc<Vec<u8>> = Rc::new((0..40u16).flat_map(|i| [msg(4 + i * 5 % 7, b'x'), vec![b'.'; i as usize % 3]].concat()).collect());
    Phase {
        name: "many messages".into(), bounds: format!("each of the {} iterator types and dltit on 40 DLT messages: all sequences of at most {d} operations and an ending, against the list of items", TYPES.len()),
        total: n * k, chunk: 64, cpu_limit: 10,
        run: Box::new(move |i, ctx| {
            let ((ops, end), ty) = (script(i / k, d), (i % k) as usize);
            let base = b.as_ptr() as usize;
            let m = if ty == TYPES.len() { run(dltit(&b), |t: DltStorageEntry| t.span().map_or(1, |(a, l)| code(a - base, l)), &listed(&messages::<DltStorageEntry>(&b)), &ops, end) }
                else { on::<DltStorageEntry>(ty, &b, 0, &ops, end).map(|m| m.unwrap_or(0)).map_err(|e| format!("{}: {e}", TYPES[ty])) }?;
            ctx.trans(m); ctx.exec(); ctx.state(mix(i)); ctx.outcome(i % 997);
            Ok(())
        }),
        describe: Box::new(move |i| { let (ops, end) = script(i / k, d); format!("{} {ops:?}, {end:?}", if i % k == k - 1 { "dltit" } else { TYPES[(i % k) as usize] }) }),
    }
}
/// a backward search set to another position through its public field goes on from there
fn seek(t: Tier) -> Phase {
    let toks = Rc::new(mini_tokens(t.pick(3, 4)));
    let t2 = toks.clone();
    Phase {
        name: "backward search set anew".into(), bounds: format!("all sequences of at most {} of {} fragments; all pairs of positions, the first from the start, the second set after 0, 1 or 2 items or the end: the valid messages in front of it follow, the last first", toks.depth, toks.toks.len()),
        total: toks.total(), chunk: 16, cpu_limit: 20,
        run: Box::new(move |i, ctx| {
            let b = toks.build(i);
            let (valid, hb) = (valid_at::<Mini>(&b), hash_bytes(&b));
            if valid.is_empty() { ctx.trivial += 1 }
            for p in 0..=b.len() { for q in 0..=b.len() { for k in 0..4 {
                let mut it = <RevSearchIterator<Mini> as TIterator>::new(&b, p);
                let n = if k == 3 { usize::MAX } else { k };
                for _ in 0..n { if it.next().is_none() { break } }
                it.offset = q;
                let e: Vec<(usize, usize)> = valid.iter().rev().copied().filter(|m| m.0 + 2 <= q).collect();
                let g: Vec<(usize, usize)> = it.take(e.len() + 2).map(|(o, t)| (o, t.0.len())).collect();
                ctx.trans(g.len() as u64 + 1); ctx.exec(); ctx.state(hb ^ mix((p << 20 | q << 8 | k) as u64));
                if g != e { return Err(format!("backward search from {p}, set to {q} after {n} items: {g:?}, expected {e:?}")) }
            } } }
            ctx.outcome(hb);
            Ok(())
        }),
        describe: Box::new(move |i| format!("{} = {}", t2.describe(i), hex(&t2.build(i)))),
    }
}
pub fn c30(t: Tier) -> Plan {
    Plan {
        phases: vec![
            phase("small-type fragments", mini_tokens(3), t.pick(2, 3), &[0, 2], |ty, b, o, ops, end| on::<Mini>(ty, unsafe { std::mem::transmute::<&[u8], &'static [u8]>(b) }, o, ops, end)),
            phase("small-type fragments, more operations", mini_tokens(t.pick(2, 2)), t.pick(3, 4), &[0], |ty, b, o, ops, end| on::<Mini>(ty, unsafe { std::mem::transmute::<&[u8], &'static [u8]>(b) }, o, ops, end)),
            phase("dlt fragments", dlt_tokens(t.pick(2, 3)), t.pick(1, 2), &[0, 4], |ty, b, o, ops, end| on::<DltStorageEntry>(ty, unsafe { std::mem::transmute::<&[u8], &'static [u8]>(b) }, o, ops, end)),
            wide(t),
            seek(t),
        ],
        assumptions: vec!["longer streams and longer sequences of operations behave like the explored ones".into()],
    }
}
