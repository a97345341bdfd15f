//! C13–C16: grouping, merging, pipelines of adapters and reducers, push and pull.
use crate::engine::*;
use matchit::fromgenerator::{FromAdaptFn, FromAdaptFnCall};
use matchit::generator::adapter::*;
use matchit::generator::generator::Generator;
use matchit::generator::groupby::{GroupBy, Merge};
use matchit::generator::reducer::*;
use std::cell::Cell;
use std::collections::BTreeMap;
use std::ops::ControlFlow;
use std::rc::Rc;

/// all sequences of at most `depth` values below `k`, shortest first
#[derive(Clone, Copy)]
pub struct Seqs { pub k: u64, pub depth: u32 }
impl Seqs {
    pub fn total(&self) -> u64 { (0..=self.depth).map(|d| self.k.pow(d)).sum() }
    pub fn get(&self, mut i: u64) -> Vec<usize> {
        let mut d = 0;
        while i >= self.k.pow(d) { i -= self.k.pow(d); d += 1; }
        let mut v = vec![0; d as usize];
        for j in (0..d as usize).rev() { v[j] = (i % self.k) as usize; i /= self.k; }
        v
    }
}

pub fn ref_runs<T: Clone>(v: &[T], rel: &dyn Fn(&T, &T) -> bool) -> Vec<(T, T)> {
    let mut out = vec![];
    let mut i = 0;
    while i < v.len() {
        let mut j = i;
        while j + 1 < v.len() && rel(&v[j], &v[j + 1]) { j += 1 }
        if j > i || rel(&v[i], &v[i]) { out.push((v[i].clone(), v[j].clone())) }
        i = j + 1;
    }
    out
}
pub fn ref_merge<T: Clone, K: Ord>(v: &[T], f: &dyn Fn(&T, &T) -> Option<T>, key: &dyn Fn(&T) -> K) -> Vec<T> {
    let mut s: Vec<T> = v.to_vec();
    'again: loop {
        for i in 0..s.len() { for j in i + 1..s.len() {
            if let Some(m) = f(&s[i], &s[j]) { s.remove(j); s[i] = m; continue 'again }
        } }
        break;
    }
    s.sort_by_key(|a| key(a));
    s
}

const LONG: [usize; 11] = [255, 256, 257, 258, 65_535, 65_536, 65_537, 65_538, 65_600, 131_073, 140_000];
type El = (usize, usize); // value and position, so that results tell which element they are

pub fn c13(t: Tier) -> Plan {
    let mk = |k: u64, depth: u32| -> Phase {
        let sq = Seqs { k, depth };
        let rels = 1u64 << (k * k);
        let n = sq.total();
        Phase {
            name: format!("{k} values"),
            bounds: format!("all {rels} relations over {k} values x all sequences of at most {depth} of them; pushed and pulled, against maximal runs"),
            total: rels * n, chunk: 4096, cpu_limit: 10,
            run: Box::new(move |i, ctx| {
                let (r, v) = (i / n, sq.get(i % n));
                let rel = move |a: &El, b: &El| r >> (a.0 as u64 * k + b.0 as u64) & 1 == 1;
                let v: Vec<El> = v.into_iter().enumerate().map(|(p, x)| (x, p)).collect();
                let e = ref_runs(&v, &rel);
                ctx.state(mix(i) ^ k);
                ctx.trans(v.len() as u64 * 2 + 2);
                if v.len() < 2 { ctx.trivial += 1 }
                let mut h = k;
                for x in &e { h = mix(h ^ (x.0.1 * 64 + x.1.1) as u64); }
                ctx.outcome(h);
                let mut g = Generator::groupby(rel).collect();
                for &x in &v { g.next(x) }
                let got = g.finalize();
                if got != e { return Err(format!("pushed: {got:?}, expected {e:?} ((value, position) of first and last)")) }
                let got: Vec<(El, El)> = v.clone().into_iter().groupby(rel).take(v.len() + 2).collect();
                if got != e { return Err(format!("pulled: {got:?}, expected {e:?} ((value, position) of first and last)")) }
                ctx.exec(); ctx.exec();
                Ok(())
            }),
            describe: Box::new(move |i| {
                let r = i / n;
                let pairs: Vec<String> = (0..k * k).filter(|b| r >> b & 1 == 1).map(|b| format!("{}~{}", b / k, b % k)).collect();
                format!("relation {{{}}}, sequence {:?}", pairs.join(" "), sq.get(i % n))
            }),
        }
    };
    let mut phases = vec![mk(2, t.pick(14, 18)), mk(3, t.pick(8, 10))];
    phases.push(mk(4, t.pick(4, 5)));
    phases.push(Phase {
        name: "integer relations".into(),
        bounds: format!("the relations >=, >, =, successor, difference at most 1, not equal on 5 integers x all sequences of at most {} of them", t.pick(8, 9)),
        total: 6 * Seqs { k: 5, depth: t.pick(8, 9) }.total(), chunk: 4096, cpu_limit: 10,
        run: Box::new(move |i, ctx| {
            let v: Vec<El> = Seqs { k: 5, depth: 9 }.get(i / 6).into_iter().enumerate().map(|(p, x)| (x, p)).collect();
            let rel = move |a: &El, b: &El| match i % 6 { 0 => b.0 >= a.0, 1 => b.0 > a.0, 2 => a.0 == b.0, 3 => b.0 == a.0 + 1, 4 => a.0.abs_diff(b.0) <= 1, _ => a.0 != b.0 };
            let e = ref_runs(&v, &rel);
            ctx.state(mix(i) ^ 99); ctx.trans(v.len() as u64 * 2 + 2);
            let mut h = 1;
            for x in &e { h = mix(h ^ (x.0.1 * 64 + x.1.1) as u64); }
            ctx.outcome(h);
            let mut g = Generator::groupby(rel).collect();
            for &x in &v { g.next(x) }
            let got = g.finalize();
            if got != e { return Err(format!("pushed: {got:?}, expected {e:?} ((value, position) of first and last)")) }
            let got: Vec<(El, El)> = v.clone().into_iter().groupby(rel).take(v.len() + 2).collect();
            if got != e { return Err(format!("pulled: {got:?}, expected {e:?} ((value, position) of first and last)")) }
            ctx.exec(); ctx.exec();
            Ok(())
        }),
        describe: Box::new(move |i| format!("relation {}, sequence {:?}", [">=", ">", "=", "successor", "difference <= 1", "!="][(i % 6) as usize], Seqs { k: 5, depth: 9 }.get(i / 6))),
    });
    let words = Seqs { k: 3, depth: t.pick(3, 4) };
    let nw = words.total() - 1;
    phases.push(Phase {
        name: "long sequences".into(),
        bounds: format!("the relations >=, >, =, successor, not equal and all on each word of at most {} of 3 values repeated to each of {} lengths around 2^8, 2^16 and 2^17, and rising sequences of these lengths, against maximal runs", words.depth, LONG.len()),
        total: 6 * (nw + 1) * LONG.len() as u64, chunk: 8, cpu_limit: 20,
        run: Box::new(move |i, ctx| {
            let (r, w, n) = (i % 6, i / 6 % (nw + 1), LONG[(i / 6 / (nw + 1)) as usize]);
            let v: Vec<El> = if w == nw { (0..n).map(|p| (p, p)).collect() } else { words.get(w + 1).into_iter().cycle().take(n).enumerate().map(|(p, x)| (x, p)).collect() };
            let rel = move |a: &El, b: &El| match r { 0 => b.0 >= a.0, 1 => b.0 > a.0, 2 => a.0 == b.0, 3 => b.0 == a.0 + 1, 4 => a.0 != b.0, _ => true };
            let e = ref_runs(&v, &rel);
            ctx.state(mix(i) ^ 0x77); ctx.trans(v.len() as u64 * 2 + 2);
            ctx.outcome(mix(e.len() as u64));
            // no list in the reducer: it is copied with every item
            let seen = Rc::new(std::cell::RefCell::new(vec![]));
            let s2 = seen.clone();
            let mut g = Generator::groupby(rel).fold(0usize, move |n: usize, x: (El, El)| { s2.borrow_mut().push(x); n + 1 });
            for &x in &v { g.next(x) }
            let n = g.finalize();
            for (how, got) in [("pushed", seen.take()), ("pulled", v.iter().copied().groupby(rel).take(v.len() + 2).collect())] {
                if got != e { let j = (0..).find(|&j| got.get(j) != e.get(j)).unwrap(); return Err(format!("{how}: {} runs instead of {}; run {j} is {:?}, expected {:?} ((value, position) of first and last)", got.len(), e.len(), got.get(j), e.get(j))) }
            }
            if n != e.len() { return Err(format!("counted {n} runs instead of {}", e.len())) }
            ctx.exec(); ctx.exec();
            Ok(())
        }),
        describe: Box::new(move |i| format!("relation {}, {:?} repeated to {} values", [">=", ">", "=", "successor", "!=", "all"][(i % 6) as usize], if i / 6 % (nw + 1) == nw { vec![] } else { words.get(i / 6 % (nw + 1) + 1) }, LONG[(i / 6 / (nw + 1)) as usize])),
    });
    Plan { phases, assumptions: vec!["relations over more values and longer sequences behave like the explored ones".into()] }
}

// ---------------------------------------------------------------- C14
type Iv = (i32, i32);
fn union(a: &Iv, b: &Iv, gap: i32) -> Option<Iv> { if a.0 <= b.1 + gap && b.0 <= a.1 + gap { Some((a.0.min(b.0), a.1.max(b.1))) } else { None } }
fn intervals(n: i32) -> Vec<Iv> { (0..n).flat_map(|a| (a..n).map(move |b| (a, b))).collect() }
fn merge_phase<T: Clone + std::fmt::Debug + PartialEq + 'static, K: Ord + Clone + 'static>(
    name: &str, bounds: &str, alphabet: Vec<T>, depth: u32, f: impl Fn(&T, &T) -> Option<T> + Clone + 'static, key: impl Fn(&T) -> K + Clone + 'static, canon: Option<fn(&[T]) -> Vec<T>>,
) -> Phase {
    let sq = Seqs { k: alphabet.len() as u64, depth };
    let al2 = alphabet.clone();
    let salt = hash_bytes(name.as_bytes());
    Phase {
        name: name.into(), bounds: format!("{bounds}: all sequences of at most {depth} of {} values, pushed and pulled, against the closure under merging", alphabet.len()),
        total: sq.total(), chunk: 2048, cpu_limit: 10,
        run: Box::new(move |i, ctx| {
            let v: Vec<T> = sq.get(i).into_iter().map(|j| alphabet[j].clone()).collect();
            let e = ref_merge(&v, &f, &|a: &T| key(a));
            if let Some(c) = canon { let c = c(&v); if c != e { return Err(format!("reference is inconsistent: {e:?} {c:?}")) } }
            ctx.state(salt ^ mix(i)); ctx.trans(v.len() as u64 * 2);
            if e.len() == v.len() { ctx.trivial += 1 }
            ctx.outcome(hash_bytes(format!("{e:?}").as_bytes()));
            let mut g = Generator::merge(f.clone(), key.clone()).collect();
            for x in &v { g.next(x.clone()) }
            let got: Vec<T> = g.finalize();
            if got != e { return Err(format!("pushed: {got:?}, expected {e:?}")) }
            let got: Vec<T> = FromAdaptFn::new(Merge::new(f.clone(), key.clone()), v.clone().into_iter()).take(v.len() + 2).collect();
            if got != e { return Err(format!("pulled: {got:?}, expected {e:?}")) }
            ctx.exec(); ctx.exec();
            Ok(())
        }),
        describe: Box::new(move |i| format!("{:?}", sq.get(i).into_iter().map(|j| &al2[j]).collect::<Vec<_>>())),
    }
}
/// connected unions of closed intervals, by sweeping over sorted starts
fn sweep(v: &[Iv]) -> Vec<Iv> {
    let mut s = v.to_vec();
    s.sort();
    let mut out: Vec<Iv> = vec![];
    for x in s { match out.last_mut() { Some(l) if x.0 <= l.1 => l.1 = l.1.max(x.1), _ => out.push(x) } }
    out
}
/// many values: most of them merge, or few, in several orders of arrival
fn merge_many(t: Tier) -> Phase {
    const GAPS: [i32; 3] = [0, 1, 3];
    let sizes = t.pick(vec![255usize, 256, 257, 1000, 3000], vec![255, 256, 257, 1000, 5000, 20_000]);
    let ns = sizes.len() as u64;
    let longs = t.pick(4u64, 8);
    // values, their order of arrival
    let order = |k: u64, n: usize| -> Vec<i32> {
        let n = n as i32;
        match k {
            0 => (0..n).collect(), 1 => (0..n).rev().collect(),
            2 => (0..n).map(|i| if i % 2 == 0 { i / 2 } else { n - 1 - i / 2 }).collect(),
            3 => (0..n).step_by(2).chain((0..n).skip(1).step_by(2)).collect(),
            _ => { let mut s = 1; while s * s < n { s += 1 } (0..s).flat_map(|a| (a..n).step_by(s as usize)).collect() }
        }
    };
    // many values, none of which merges with another, and one more behind them that merges with some
    let closings: Vec<(u64, usize, usize)> = [5000usize, 12_000].into_iter().chain(t.pick(None, Some(30_000))).flat_map(|n| (0..5).flat_map(move |k| (0..4).map(move |c| (k, n, c))))
        .chain([(0, 66_000, 0), (1, 66_000, 0)]).chain(t.pick(vec![], vec![(0, 100_000, 0)])).collect();
    let nc = closings.len() as u64;
    let make = move |i: u64| -> (Vec<Iv>, String) {
        if i < nc {
            let (k, n, c) = closings[i as usize];
            let last = n as i32 * 4;
            let close = [(0, last), (0, 2), (last / 2, last / 2 + 9), (last - 4, last)][c];
            return (order(k, n).into_iter().map(|a| (a * 4, a * 4 + 1)).chain([close]).collect(), format!("{n} intervals apart from each other, order of arrival {k}, and then {close:?}"))
        }
        let i = i - nc;
        if i < 5 * ns * 4 {
            let (k, n, g) = (i % 5, sizes[(i / 5 % ns) as usize], i / 5 / ns);
            let v: Vec<Iv> = order(k, n).into_iter().map(|a| if g < 3 { (a * 4, a * 4 + GAPS[g as usize]) } else { (a * 2, a * 2 + 2) }).collect();
            (v, format!("{n} intervals of length {}, order of arrival {k}", if g < 3 { GAPS[g as usize].to_string() } else { "2, each touching the next".into() }))
        } else {
            let j = i - 5 * ns * 4;
            let al = intervals(5);
            let (w, n) = (Seqs { k: al.len() as u64, depth: 2 }.get(1 + j / longs), LONG[3 + (j % longs) as usize]);
            (w.iter().map(|&x| al[x]).cycle().take(n).collect(), format!("{:?} repeated to {n} intervals", w.iter().map(|&x| al[x]).collect::<Vec<_>>()))
        }
    };
    let make = Rc::new(make);
    let m2 = make.clone();
    let words = Seqs { k: intervals(5).len() as u64, depth: 2 }.total() - 1;
    Phase {
        name: "many values".into(),
        bounds: format!("up to {} closed intervals that touch their neighbours or do not, in 5 orders of arrival, up to {} apart from each other in front of one that reaches all, the first, a middle or the last of them, and each word of at most 2 of the intervals over 0..5 repeated to {longs} lengths up to {}; pushed and pulled, against the closure under merging", if t == Tier::Quick { 3000 } else { 20_000 }, t.pick(66_000, 100_000), LONG[2 + longs as usize]),
        total: nc + 5 * ns * 4 + words * longs, chunk: 1, cpu_limit: 120,
        run: Box::new(move |i, ctx| {
            let (v, _) = make(i);
            let e = sweep(&v);
            ctx.state(mix(i) ^ 0x14); ctx.trans(v.len() as u64 * 2); ctx.outcome(mix(e.len() as u64));
            let f = |a: &Iv, b: &Iv| union(a, b, 0);
            let seen = Rc::new(std::cell::RefCell::new(vec![]));
            let s2 = seen.clone();
            let mut g = Generator::merge(f, |a: &Iv| *a).fold(0usize, move |n: usize, x: Iv| { s2.borrow_mut().push(x); n + 1 });
            for &x in &v { g.next(x) }
            let n = g.finalize();
            ctx.alive();
            for (how, got) in [("pushed", seen.take()), ("pulled", FromAdaptFn::new(Merge::new(f, |a: &Iv| *a), v.iter().copied()).take(v.len() + 2).collect())] {
                if got != e { let j = (0..).find(|&j| got.get(j) != e.get(j)).unwrap(); return Err(format!("{how}: {} values instead of {}; value {j} is {:?}, expected {:?}", got.len(), e.len(), got.get(j), e.get(j))) }
            }
            if n != e.len() { return Err(format!("counted {n} values instead of {}", e.len())) }
            ctx.exec(); ctx.exec();
            Ok(())
        }),
        describe: Box::new(move |i| m2(i).1),
    }
}
pub fn c14(t: Tier) -> Plan {
    Plan {
        phases: vec![
            merge_phase("overlapping intervals", "closed intervals over 0..5, merged when they share a point", intervals(5), t.pick(5, 7), |a, b| union(a, b, 0), |a: &Iv| *a, Some(sweep)),
            merge_phase("intervals by start", "closed intervals over 0..5, merged when they share a point, keyed by their start alone", intervals(5), t.pick(5, 6), |a, b| union(a, b, 0), |a: &Iv| a.0, Some(sweep)),
            merge_phase("intervals by negated end", "closed intervals over 0..5, keyed so that later ones come first", intervals(5), t.pick(5, 6), |a, b| union(a, b, 0), |a: &Iv| -a.1, None),
            merge_phase("points and long intervals", "ten points and the intervals 0-9, 2-4, 4-6, 5-8", (0..10).map(|a| (a, a)).chain([(0, 9), (2, 4), (4, 6), (5, 8)]).collect(), t.pick(5, 7), |a, b| union(a, b, 0), |a: &Iv| *a, Some(sweep)),
            merge_phase("adjacent intervals", "closed intervals over 0..5, merged when they touch", intervals(5), t.pick(5, 6), |a, b| union(a, b, 1), |a: &Iv| *a, None),
            merge_phase("sets", "all non-empty subsets of 4 elements, merged when they intersect", (1..16u32).collect(), t.pick(5, 7), |a, b| if a & b != 0 { Some(a | b) } else { None }, |a: &u32| *a, None),
            merge_phase("keyed counters", "key 0..3 with a weight, merged when the keys are equal", (0..6u32).map(|i| (i % 3, 1 + i / 3 * 10)).collect(), t.pick(8, 9), |a: &(u32, u32), b: &(u32, u32)| if a.0 == b.0 { Some((a.0, a.1 + b.1)) } else { None }, |a: &(u32, u32)| a.0, None),
            merge_many(t),
            merge_phase("classes", "ten numbers, merged when they have the same remainder of 3, keyed by the number", (0..10usize).collect(), t.pick(5, 6), |a: &usize, b: &usize| if a % 3 == b % 3 { Some(*a.min(b)) } else { None }, |a: &usize| *a, None),
            merge_phase("nothing merges", "six values that never merge with others", (0..6u32).collect(), t.pick(7, 8), |a: &u32, b: &u32| if a == b { Some(*a) } else { None }, |a: &u32| 100 - *a, None),
        ],
        assumptions: vec!["the merge function is a join and values that cannot be merged have different keys; longer sequences behave like the explored ones".into()],
    }
}

// ---------------------------------------------------------------- C15: pipelines
/// one stage of a pipeline over usize
#[derive(Clone, Copy, Debug, PartialEq)]
enum St { Odd, Not2, Inc, Half, RunsGe, RunsLt, RunsNe, Sets, Mod3, Lag, Rest }
const STAGES: [St; 9] = [St::Odd, St::Not2, St::Inc, St::Half, St::RunsGe, St::RunsLt, St::RunsNe, St::Sets, St::Mod3];
/// stages together with two of the user's own
const OWN: [St; 7] = [St::Lag, St::Rest, St::Odd, St::Inc, St::RunsGe, St::RunsNe, St::Sets];
/// A stage of the user's own: it releases every item two items later.
struct Lag(std::collections::VecDeque<usize>);
impl AdaptFnTrait for Lag {
    type Input = usize;
    type Output = usize;
    fn adapt(&mut self, x: usize) -> ControlFlow<(), Option<usize>> {
        self.0.push_back(x);
        ControlFlow::Continue(if self.0.len() > 2 { self.0.pop_front() } else { None })
    }
    fn finalize(&mut self) -> ControlFlow<(), Option<usize>> { match self.0.pop_front() { Some(x) => ControlFlow::Continue(Some(x)), None => ControlFlow::Break(()) } }
}
/// Another one: odd items pass at once, the even ones are kept to the end, where one of them is looked at per call, last one
/// first, and multiples of four are left out (so that a call at the end may give nothing although there is more).
struct Rest(Vec<usize>);
impl AdaptFnTrait for Rest {
    type Input = usize;
    type Output = usize;
    fn adapt(&mut self, x: usize) -> ControlFlow<(), Option<usize>> {
        if x % 2 == 1 { return ControlFlow::Continue(Some(x)) }
        self.0.push(x);
        ControlFlow::Continue(None)
    }
    fn finalize(&mut self) -> ControlFlow<(), Option<usize>> {
        match self.0.pop() { Some(x) => ControlFlow::Continue(if x % 4 == 0 { None } else { Some(x) }), None => ControlFlow::Break(()) }
    }
}
fn pred(s: St) -> fn(&usize) -> bool { match s { St::Odd => |x| x % 2 == 1, _ => |x| *x != 2 } }
fn mapf(s: St) -> fn(&usize) -> usize { match s { St::Inc => |x| x + 1, _ => |x| x / 2 } }
fn rel(s: St) -> fn(&usize, &usize) -> bool { match s { St::RunsGe => |a, b| b >= a, St::RunsLt => |a, b| a < b, _ => |a, b| a != b } }
fn pair(p: &(usize, usize)) -> usize { p.0.wrapping_mul(5).wrapping_add(p.1) & 0xffff }
fn mrg(s: St) -> fn(&usize, &usize) -> Option<usize> { match s {
    St::Sets => |a, b| if a == b || a & b != 0 { Some(a | b) } else { None },
    _ => |a, b| if a % 3 == b % 3 { Some(*a.max(b)) } else { None } } }
fn mkey(s: St) -> fn(&usize) -> usize { match s { St::Sets => |a| *a, _ => |a| 2 - a % 3 } }
fn ref_stage(s: St, v: Vec<usize>) -> Vec<usize> {
    match s {
        St::Odd | St::Not2 => v.into_iter().filter(|x| pred(s)(x)).collect(),
        St::Inc | St::Half => v.iter().map(mapf(s)).collect(),
        St::RunsGe | St::RunsLt | St::RunsNe => ref_runs(&v, &rel(s)).iter().map(pair).collect(),
        St::Sets | St::Mod3 => ref_merge(&v, &mrg(s), &mkey(s)),
        St::Lag => v,
        St::Rest => v.iter().filter(|x| *x % 2 == 1).chain(v.iter().rev().filter(|x| *x % 4 == 2)).copied().collect(),
    }
}

/// a boxed adapter, so that pipelines of any shape can be put together at run time from the library's links
trait Obj { fn adapt(&mut self, x: usize) -> ControlFlow<(), Option<usize>>; fn finalize(&mut self) -> ControlFlow<(), Option<usize>>; }
impl<A: AdapterTrait<Input = usize, Output = usize>> Obj for A {
    fn adapt(&mut self, x: usize) -> ControlFlow<(), Option<usize>> { AdapterTrait::adapt(self, x) }
    fn finalize(&mut self) -> ControlFlow<(), Option<usize>> { AdapterTrait::finalize(self) }
}
struct Dyn(Box<dyn Obj>);
impl AdapterTrait for Dyn {
    type Input = usize;
    type Output = usize;
    fn adapt(&mut self, x: usize) -> ControlFlow<(), Option<usize>> { (*self.0).adapt(x) }
    fn finalize(&mut self) -> ControlFlow<(), Option<usize>> { (*self.0).finalize() }
}
fn dyn_stage(d: Dyn, s: St) -> Dyn {
    Dyn(match s {
        St::Odd | St::Not2 => Box::new(d.filter(pred(s))),
        St::Inc | St::Half => Box::new(d.map(mapf(s))),
        St::RunsGe | St::RunsLt | St::RunsNe => Box::new(d.groupby(rel(s)).map(pair)),
        St::Sets | St::Mod3 => Box::new(d.merge(mrg(s), mkey(s))),
        St::Lag => Box::new(Adapter::new(Lag(Default::default()), d)),
        St::Rest => Box::new(Adapter::new(Rest(vec![]), d)),
    })
}

/// what a reducer returns, as text
type Out = String;
#[derive(Clone, Copy, Debug, PartialEq)]
enum Red { Collect, Count, Sum, Fold, SplitCollect, SplitRuns, ForkCountCollect, ForkSplitFork, SplitForkSplit, ForkFork }
const REDS: [Red; 10] = [Red::Collect, Red::Count, Red::Sum, Red::Fold, Red::SplitCollect, Red::SplitRuns, Red::ForkCountCollect, Red::ForkSplitFork, Red::SplitForkSplit, Red::ForkFork];
fn key2(x: &usize) -> usize { x % 2 }
fn split_ref<R>(v: &[usize], f: impl Fn(Vec<usize>) -> R) -> BTreeMap<usize, R> {
    let mut m: BTreeMap<usize, Vec<usize>> = BTreeMap::new();
    for x in v { m.entry(key2(x)).or_default().push(*x) }
    m.into_iter().map(|(k, v)| (k, f(v))).collect()
}
fn ref_red(r: Red, v: &[usize]) -> Out {
    let runs = |v: Vec<usize>| ref_runs(&v, &|a, b| b >= a);
    let sum = |v: &[usize]| v.iter().sum::<usize>();
    let fold = |v: &[usize]| v.iter().fold(7usize, |a, x| a.wrapping_mul(31).wrapping_add(*x));
    let runsplit = |v: Vec<usize>| { let mut m: BTreeMap<usize, usize> = BTreeMap::new(); for (a, b) in runs(v) { *m.entry(b - a).or_default() += 1 } m };
    match r {
        Red::Collect => format!("{:?}", v),
        Red::Count => format!("{}", v.len()),
        Red::Sum => format!("{}", sum(v)),
        Red::Fold => format!("{}", fold(v)),
        Red::SplitCollect => format!("{:?}", split_ref(v, |v| v)),
        Red::SplitRuns => format!("{:?}", split_ref(v, |v| runs(v))),
        Red::ForkCountCollect => format!("{:?}", (v.len(), v.to_vec())),
        Red::ForkSplitFork => format!("{:?}", (split_ref(v, |v| (v.len(), fold(&v))), sum(v))),
        Red::SplitForkSplit => format!("{:?}", split_ref(v, |v| { let n = v.len(); (runsplit(v), n) })),
        Red::ForkFork => format!("{:?}", ((v.len(), runs(v.to_vec())), (ref_stage(St::Sets, ref_stage(St::Odd, v.to_vec())), fold(v)))),
    }
}
fn collect_vec() -> impl ReducerTrait<Input = usize, Reduced = Vec<usize>> { Generator::fold(vec![], |mut a: Vec<usize>, x: usize| { a.push(x); a }) }
fn fold31() -> impl ReducerTrait<Input = usize, Reduced = usize> { Generator::fold(7usize, |a: usize, x: usize| a.wrapping_mul(31).wrapping_add(x)) }
fn push<R: ReducerTrait<Input = usize>>(mut r: R, v: &[usize]) -> R::Reduced { for &x in v { r.next(x) } r.finalize() }
fn ge(a: &usize, b: &usize) -> bool { b >= a }
fn diff(p: &(usize, usize)) -> usize { p.1 - p.0 }
/// reduces with the library's reducers behind adapter `$a` (an expression building it anew)
macro_rules! reduce { ($a:expr, $r:expr, $v:expr) => { match $r {
    Red::Collect => format!("{:?}", push($a.fold(vec![], |mut a: Vec<usize>, x: usize| { a.push(x); a }), $v)),
    Red::Count => format!("{:?}", push($a.fold(0usize, |a: usize, _x: usize| a + 1), $v)),
    Red::Sum => format!("{:?}", push($a.fold(0usize, |a: usize, x: usize| a + x), $v)),
    Red::Fold => format!("{:?}", push($a.fold(7usize, |a: usize, x: usize| a.wrapping_mul(31).wrapping_add(x)), $v)),
    Red::SplitCollect => format!("{:?}", push($a.split(key2, |_| collect_vec()), $v)),
    Red::SplitRuns => format!("{:?}", push($a.split(key2, |_| Generator::groupby(ge).collect()), $v)),
    Red::ForkCountCollect => format!("{:?}", push($a.fork(Generator::count(), collect_vec()), $v)),
    Red::ForkSplitFork => format!("{:?}", push($a.fork(Generator::split(key2, |_| Generator::fork(Generator::count(), fold31())), Generator::sum()), $v)),
    Red::SplitForkSplit => format!("{:?}", push($a.split(key2, |_| Generator::fork(Generator::groupby(ge).map(diff).split(|k: &usize| *k, |_| Generator::count()), Generator::count())), $v)),
    Red::ForkFork => format!("{:?}", push($a.fork(Generator::fork(Generator::count(), Generator::groupby(ge).collect()),
        Generator::fork(Generator::filter(pred(St::Odd)).merge(mrg(St::Sets), mkey(St::Sets)).collect(), fold31())), $v)),
} } }

// statically typed pipelines: every shape up to three stages through the library's builder methods
fn typed<A: AdapterTrait<Input = usize, Output = usize>>(a: A, r: Red, v: &[usize]) -> Out { reduce!(a, r, v) }
fn typed_rich<I, A>(a: Adapter<I, A>, r: Red, v: &[usize]) -> Out where A: AdapterTrait<Input = usize>, I: AdaptFnTrait<Input = A::Output, Output = usize> {
    // count, sum and collect as methods of adapters
    match r {
        Red::Collect => format!("{:?}", push(a.collect::<usize>(), v)),
        Red::Count => format!("{:?}", push(a.count::<usize>(), v)),
        Red::Sum => format!("{:?}", push(a.sum::<usize>(), v)),
        _ => typed(a, r, v),
    }
}
fn lists<I, A>(a: Adapter<I, A>, v: &[usize]) -> Out where A: AdapterTrait<Input = usize>, I: AdaptFnTrait<Input = A::Output, Output = usize> {
    format!("{:?}", push(a.collect::<usize>(), v))
}
macro_rules! level { ($name:ident, $next:ident, $end:expr) => {
    fn $name<I, A>(a: Adapter<I, A>, st: &[St], r: Red, v: &[usize]) -> Out where A: AdapterTrait<Input = usize>, I: AdaptFnTrait<Input = A::Output, Output = usize> {
        let Some(&s) = st.first() else { return $end(a, r, v) };
        match s {
            St::Odd | St::Not2 => $next(a.filter(pred(s)), &st[1..], r, v),
            St::Inc | St::Half => $next(a.map(mapf(s)), &st[1..], r, v),
            St::RunsGe | St::RunsLt | St::RunsNe => $next(a.groupby(rel(s)).map(pair), &st[1..], r, v),
            St::Sets | St::Mod3 => $next(a.merge(mrg(s), mkey(s)), &st[1..], r, v),
            St::Lag | St::Rest => unreachable!(),
        }
    }
} }
fn lv0<I, A>(a: Adapter<I, A>, st: &[St], r: Red, v: &[usize]) -> Out where A: AdapterTrait<Input = usize>, I: AdaptFnTrait<Input = A::Output, Output = usize> {
    assert!(st.is_empty() && r == Red::Collect); // three stages: collected only, to keep the number of types small
    lists(a, v)
}
level!(lv1, lv0, typed_rich);
level!(lv2, lv1, typed_rich);
fn typed_pipeline(st: &[St], r: Red, v: &[usize]) -> Out {
    let Some(&s) = st.first() else {
        return match r {
            Red::Count => format!("{:?}", push(Generator::count(), v)),
            Red::Sum => format!("{:?}", push(Generator::sum(), v)),
            Red::SplitCollect => format!("{:?}", push(Generator::split(key2, |_| collect_vec()), v)),
            Red::ForkCountCollect => format!("{:?}", push(Generator::fork(Generator::count(), collect_vec()), v)),
            Red::Fold => format!("{:?}", push(fold31(), v)),
            _ => typed(NilAdapter::<usize>::new(), r, v),
        }
    };
    match s {
        St::Odd | St::Not2 => lv2(Generator::filter(pred(s)), &st[1..], r, v),
        St::Inc | St::Half => lv2(Generator::map(mapf(s)), &st[1..], r, v),
        St::RunsGe | St::RunsLt | St::RunsNe => lv2(Generator::groupby(rel(s)).map(pair), &st[1..], r, v),
        St::Sets | St::Mod3 => lv2(Generator::merge(mrg(s), mkey(s)), &st[1..], r, v),
        St::Lag | St::Rest => unreachable!(),
    }
}
fn shape(stages: &[St], sq: Seqs, i: u64) -> Vec<St> { sq.get(i).into_iter().map(|j| stages[j]).collect() }

fn pipe_phase(name: &str, how: &str, stages: &'static [St], depth: u32, seqs: Seqs, typed: bool) -> Phase {
    let sq = Seqs { k: stages.len() as u64, depth };
    let (np, nr) = (sq.total(), REDS.len() as u64);
    let dec = move |i: u64| { let st = shape(stages, sq, i % np); let r = if typed && st.len() > 2 { Red::Collect } else { REDS[(i / np % nr) as usize] }; (st, r) };
    let skip = move |i: u64| typed && i / np > 0 && shape(stages, sq, i % np).len() > 2;
    Phase {
        name: name.into(),
        bounds: format!("{how}: all chains of at most {} of the {} stages {stages:?} into each of the {nr} reducers {REDS:?}, fed all sequences of at most {} of {} values, against stage-by-stage list functions", sq.depth, stages.len(), seqs.depth, seqs.k),
        total: np * nr, chunk: 8, cpu_limit: 10,
        run: Box::new(move |i, ctx| {
            if skip(i) { return Ok(()) }
            let (st, r) = dec(i);
            for j in 0..seqs.total() {
                let v = seqs.get(j);
                let mut x = v.clone();
                for &s in &st { x = ref_stage(s, x) }
                let e = ref_red(r, &x);
                let got = if typed { typed_pipeline(&st, r, &v) } else {
                    let mut d = Dyn(Box::new(NilAdapter::new()));
                    for &s in &st { d = dyn_stage(d, s) }
                    reduce!(d, r, &v)
                };
                ctx.state(mix(i) ^ mix(j + 7) ^ typed as u64);
                ctx.trans(v.len() as u64 * (st.len() as u64 + 1));
                ctx.exec();
                if j % 64 == 0 { ctx.alive() }
                ctx.outcome(hash_bytes(e.as_bytes()));
                if got != e { return Err(format!("input {v:?}: {got}, expected {e}")) }
            }
            Ok(())
        }),
        describe: Box::new(move |i| format!("{:?}", dec(i))),
    }
}
/// Short words repeated many times, through short chains: counters and positions beyond 16 bits.
fn many_phase(t: Tier, pull: bool) -> Phase {
    const RS: [Red; 5] = [Red::Count, Red::Sum, Red::Fold, Red::SplitForkSplit, Red::Collect];
    let (sq, words) = (Seqs { k: 9, depth: 2 }, Seqs { k: 4, depth: t.pick(2, 3) });
    let (np, nw, nl) = (sq.total(), words.total() - 1, t.pick(3u64, 5));
    let xl = 10 * 4; // at most one stage, words of one value
    let one = Seqs { k: 9, depth: 1 };
    let nr = if pull { 1 } else { 4 };
    let dec = move |i: u64| if i < xl { (shape(&STAGES, one, i % 10), vec![(i / 10) as usize], t.pick(3_000_000, 20_000_000), if pull { Red::Collect } else { Red::Fold }) } else { let i = i - xl; (shape(&STAGES, sq, i % np), words.get(1 + i / np % nw), [257usize, 65_537, 140_000, 1_000_000, 300_000][(i / np / nw % nl) as usize], if pull { Red::Collect } else { RS[(i / np / nw / nl) as usize] }) };
    Phase {
        name: "many values".into(),
        bounds: format!("all chains of at most 2 of the stages into {}, fed all words of at most {} of 4 values repeated to {nl} lengths up to {}{}, against stage-by-stage list functions", if pull { "nothing, pulled".into() } else { format!("{:?}", &RS[..4]) }, words.depth, t.pick(140_000, 1_000_000), format!(", and {} times the same value through at most one stage", t.pick(3_000_000, 20_000_000))),
        total: xl + np * nw * nl * nr, chunk: 4, cpu_limit: 60,
        run: Box::new(move |i, ctx| {
            let (st, w, n, r) = dec(i);
            let v: Vec<usize> = w.into_iter().cycle().take(n).collect();
            let mut x = v.clone();
            for &s in &st { x = ref_stage_fast(s, x) }
            ctx.state(mix(i) ^ 0x15); ctx.trans(n as u64); ctx.exec();
            if pull {
                let mut it: Box<dyn Iterator<Item = usize>> = Box::new(v.iter().copied());
                for &s in &st { it = pull_stage(it, s) }
                let got: Vec<usize> = it.by_ref().take(n + 2).collect();
                ctx.outcome(mix(got.len() as u64));
                if got != x { let j = (0..).find(|&j| got.get(j) != x.get(j)).unwrap(); return Err(format!("{} items instead of {}; item {j} is {:?}, expected {:?}", got.len(), x.len(), got.get(j), x.get(j))) }
                if it.next().is_some() { return Err("yields an item after its end".into()) }
                return Ok(())
            }
            let e = ref_red(r, &x);
            let mut d = Dyn(Box::new(NilAdapter::new()));
            for &s in &st { d = dyn_stage(d, s) }
            let got = reduce!(d, r, &v);
            ctx.outcome(hash_bytes(e.as_bytes()));
            if got != e { return Err(format!("{got}, expected {e}")) }
            // the same through the library's own count and sum
            if st.is_empty() && r == Red::Count {
                let got = format!("{:?}", push(Generator::count(), &v));
                if got != e { return Err(format!("count: {got}, expected {e}")) }
            }
            if st.len() == 1 || st.is_empty() && r == Red::Sum {
                let got = typed_pipeline(&st, r, &v);
                if got != e { return Err(format!("typed: {got}, expected {e}")) }
            }
            Ok(())
        }),
        describe: Box::new(move |i| format!("{:?} (stages, word, length, reducer)", dec(i))),
    }
}
/// as `ref_stage`; merging goes through the distinct values, which is the same for a join
fn ref_stage_fast(s: St, v: Vec<usize>) -> Vec<usize> {
    if !matches!(s, St::Sets | St::Mod3) { return ref_stage(s, v) }
    let mut seen = std::collections::BTreeSet::new();
    ref_stage(s, v.into_iter().filter(|x| seen.insert(*x)).collect())
}
pub fn c15(t: Tier) -> Plan {
    Plan {
        phases: vec![
            pipe_phase("typed pipelines", "chains built with the library's builder methods (those of three stages are collected only)", &STAGES, 3, Seqs { k: 4, depth: t.pick(5, 6) }, true),
            pipe_phase("boxed pipelines", "chains of the library's links with boxed joints", &STAGES, t.pick(4, 5), Seqs { k: 3, depth: t.pick(5, 5) }, false),
            pipe_phase("long inputs", "chains of the library's links with boxed joints", &STAGES, 2, Seqs { k: 4, depth: t.pick(6, 8) }, false),
            pipe_phase("stages of one's own", "chains of the library's links and of two stages that implement its trait, with boxed joints", &OWN, t.pick(4, 5), Seqs { k: 5, depth: 4 }, false),
            many_phase(t, false),
        ],
        assumptions: vec!["longer chains and inputs and other closures behave like the explored ones".into()],
    }
}

// ---------------------------------------------------------------- C16: pull
struct Counting<I>(I, Rc<Cell<usize>>);
impl<I: Iterator> Iterator for Counting<I> { type Item = I::Item; fn next(&mut self) -> Option<I::Item> { let x = self.0.next(); if x.is_some() { self.1.set(self.1.get() + 1) } x } }
fn pull_stage<'a>(it: Box<dyn Iterator<Item = usize> + 'a>, s: St) -> Box<dyn Iterator<Item = usize> + 'a> {
    match s {
        St::Odd | St::Not2 => Box::new(FromAdaptFn::new(Filter::new(pred(s)), it)),
        St::Inc | St::Half => Box::new(FromAdaptFn::new(Map::new(mapf(s)), it)),
        St::RunsGe => Box::new(FromAdaptFn::new(Map::new(pair), it.groupby(rel(s)))),
        St::RunsLt | St::RunsNe => Box::new(FromAdaptFn::new(Map::new(pair), FromAdaptFn::new(GroupBy::new(rel(s)), it))),
        St::Sets | St::Mod3 => Box::new(FromAdaptFn::new(Merge::new(mrg(s), mkey(s)), it)),
        St::Lag => Box::new(FromAdaptFn::new(Lag(Default::default()), it)),
        St::Rest => Box::new(FromAdaptFn::new(Rest(vec![]), it)),
    }
}
pub fn c16(t: Tier) -> Plan {
    let chain = |stages: &'static [St], depth: u32, seqs: Seqs, name: &str| -> Phase {
        let sq = Seqs { k: stages.len() as u64, depth };
        Phase {
            name: name.into(),
            bounds: format!("all chains of at most {} of the {} stages {stages:?}, pulled from all sequences of at most {} of {} values; items, how much input each needs, and three further calls, against the same chain pushed", sq.depth, stages.len(), seqs.depth, seqs.k),
            total: sq.total(), chunk: 4, cpu_limit: 10,
            run: Box::new(move |i, ctx| {
                let st = shape(stages, sq, i);
                for j in 0..seqs.total() {
                    let v = seqs.get(j);
                    // push, noting after how many inputs each output arrives
                    let mut d = Dyn(Box::new(NilAdapter::new()));
                    for &s in &st { d = dyn_stage(d, s) }
                    let now = Rc::new(Cell::new(0));
                    let n2 = now.clone();
                    let mut r = d.fold(vec![], move |mut a: Vec<(usize, usize)>, x: usize| { a.push((x, n2.get())); a });
                    for &x in &v { now.set(now.get() + 1); r.next(x) }
                    let pushed = r.finalize();
                    let used = Rc::new(Cell::new(0));
                    let mut it: Box<dyn Iterator<Item = usize>> = Box::new(Counting(v.clone().into_iter(), used.clone()));
                    for &s in &st { it = pull_stage(it, s) }
                    let mut got = vec![];
                    while let Some(x) = it.next() { got.push((x, used.get())); if got.len() > v.len() + 2 { break } }
                    ctx.state(mix(i) ^ mix(j + 3)); ctx.trans(got.len() as u64 + 1); ctx.exec();
                    if j % 64 == 0 { ctx.alive() }
                    ctx.outcome(hash_bytes(format!("{pushed:?}").as_bytes()));
                    if got.len() != pushed.len() || got.iter().zip(&pushed).any(|(g, p)| g.0 != p.0 || g.1 > p.1) {
                        return Err(format!("input {v:?}: pulled {got:?}, pushed {pushed:?} (item, inputs consumed before it)"));
                    }
                    for _ in 0..3 { if let Some(x) = it.next() { return Err(format!("input {v:?}: yields {x} after its end")) } }
                }
                Ok(())
            }),
            describe: Box::new(move |i| format!("{:?}", shape(stages, sq, i))),
        }
    };
    let gs = Seqs { k: 3, depth: t.pick(8, 10) };
    let n = gs.total();
    Plan {
        phases: vec![
            chain(&STAGES, t.pick(4, 5), Seqs { k: 4, depth: t.pick(5, 5) }, "chains"),
            chain(&STAGES, 2, Seqs { k: 4, depth: t.pick(7, 8) }, "long inputs"),
            chain(&OWN, t.pick(4, 5), Seqs { k: 5, depth: 4 }, "stages of one's own"),
            many_phase(t, true),
            Phase {
                name: "grouping".into(), bounds: format!("all 512 relations over 3 values x all sequences of at most {} of them, pulled through groupby, against pushing", gs.depth), total: 512 * n, chunk: 4096, cpu_limit: 10,
                run: Box::new(move |i, ctx| {
                    let (r, v) = (i / n, gs.get(i % n));
                    let rel = move |a: &usize, b: &usize| r >> (a * 3 + b) & 1 == 1;
                    let mut g = Generator::groupby(rel).collect();
                    for &x in &v { g.next(x) }
                    let p: Vec<(usize, usize)> = g.finalize();
                    let mut it = v.clone().into_iter().groupby(rel);
                    let got: Vec<(usize, usize)> = it.by_ref().take(v.len() + 2).collect();
                    ctx.state(mix(i) ^ 0x1234); ctx.trans(got.len() as u64 + 1); ctx.exec();
                    ctx.outcome(hash_bytes(format!("{p:?}").as_bytes()));
                    if got != p { return Err(format!("pulled {got:?}, pushed {p:?}")) }
                    for _ in 0..3 { if it.next().is_some() { return Err("yields an item after its end".into()) } }
                    Ok(())
                }),
                describe: Box::new(move |i| format!("relation bits {:#b}, sequence {:?}", i / n, gs.get(i % n))),
            },
            Phase {
                name: "split".into(), bounds: format!("all 27 key functions over 3 values x all sequences of at most {} of them, split into counts, lists and runs, against pushing and against lists", gs.depth), total: 27 * n, chunk: 1024, cpu_limit: 10,
                run: Box::new(move |i, ctx| {
                    let (k, v) = (i / n, gs.get(i % n));
                    let key = move |x: &usize| (k / 3u64.pow(*x as u32) % 3) as usize;
                    ctx.state(mix(i) ^ 0x4321); ctx.trans(v.len() as u64 * 3); ctx.exec();
                    let mut e: BTreeMap<usize, Vec<usize>> = BTreeMap::new();
                    for x in &v { e.entry(key(x)).or_default().push(*x) }
                    ctx.outcome(hash_bytes(format!("{e:?}").as_bytes()));
                    macro_rules! cmp { ($red:expr, $exp:expr) => { {
                        let a = v.clone().into_iter().split(key, $red);
                        let b = push(Generator::split(key, $red), &v);
                        let e: BTreeMap<usize, _> = e.iter().map(|(k, v)| (*k, $exp(v.clone()))).collect();
                        if a != b { return Err(format!("pulled {a:?}, pushed {b:?}")) }
                        if a != e { return Err(format!("split {a:?}, expected {e:?}")) }
                    } } }
                    cmp!(|_: &usize| Generator::count(), |v: Vec<usize>| v.len());
                    cmp!(|_: &usize| collect_vec(), |v: Vec<usize>| v);
                    cmp!(|_: &usize| Generator::groupby(ge).collect(), |v: Vec<usize>| ref_runs(&v, &ge));
                    Ok(())
                }),
                describe: Box::new(move |i| format!("key function {}, sequence {:?}", i / n, gs.get(i % n))),
            },
        ],
        assumptions: vec!["the source iterator stays ended; longer chains and inputs and other closures behave like the explored ones".into()],
    }
}
