//! C31: pipelines are streams: each function sees each item that reaches it once, in order, as soon as the
//! item reaches it, and nothing is kept that is not needed any more.
use crate::engine::*;
use crate::gen::Seqs;
use matchit::fromgenerator::FromAdaptFn;
use matchit::generator::adapter::*;
use matchit::generator::generator::Generator;
use matchit::generator::groupby::{GroupBy, Merge};
use matchit::generator::reducer::*;
use std::cell::{Cell, RefCell};
use std::ops::ControlFlow;
use std::rc::Rc;

/// An item that can be traced: copies of it, and of what is made from it, share the counter.
#[derive(Clone)]
struct Tok { v: usize, alive: Rc<()> }
impl std::fmt::Debug for Tok { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{}", self.v) } }
type Log = Rc<RefCell<Vec<(usize, usize)>>>; // which function, which value

#[derive(Clone, Copy, Debug, PartialEq)]
enum St { Map, Filter, Runs, Merge, FilterOut }
const STAGES: [St; 5] = [St::Map, St::Filter, St::Runs, St::Merge, St::FilterOut];
const VALUES: u64 = 3;
fn mapped(v: usize) -> usize { (v + 1) % 7 }
fn kept(v: usize) -> bool { v % 3 != 1 }
fn related(a: usize, b: usize) -> bool { a <= b }
fn paired(a: usize, b: usize) -> usize { (a * 3 + b) % 7 }
fn merged(a: usize, b: usize) -> Option<usize> { if a % 2 == b % 2 { Some(a.max(b)) } else { None } }

// ---- the stages, one at a time, on plain values
enum Ref { Map, Filter(bool), Runs(Option<(usize, usize)>), Merge(Vec<usize>) }
struct Model { st: Vec<Ref>, log: Vec<(usize, usize)>, out: Vec<usize> }
impl Model {
    fn new(st: &[St]) -> Model { Model { st: st.iter().map(|s| match s { St::Map => Ref::Map, St::Filter => Ref::Filter(false), St::FilterOut => Ref::Filter(true), St::Runs => Ref::Runs(None), St::Merge => Ref::Merge(vec![]) }).collect(), log: vec![], out: vec![] } }
    fn push(&mut self, from: usize, v: usize) {
        if from == self.st.len() { self.log.push((from, v)); self.out.push(v); return }
        let n = match &mut self.st[from] {
            Ref::Map => { self.log.push((from, v)); Some(mapped(v)) }
            Ref::Filter(none) => { self.log.push((from, v)); if kept(v) && !*none { Some(v) } else { None } }
            Ref::Runs(s) => match *s {
                None => { *s = Some((v, v)); None }
                Some((a, b)) if related(b, v) => { *s = Some((a, v)); None }
                Some((a, b)) => { *s = Some((v, v)); self.log.push((from, paired(a, b))); Some(paired(a, b)) }
            },
            Ref::Merge(s) => {
                let mut v = v;
                while let Some(i) = s.iter().position(|x| merged(*x, v).is_some()) { v = merged(s.remove(i), v).unwrap() }
                s.push(v);
                None
            }
        };
        if let Some(n) = n { self.push(from + 1, n) }
    }
    fn finish(&mut self) {
        for i in 0..self.st.len() {
            let left: Vec<usize> = match &mut self.st[i] {
                Ref::Runs(s) => { let r = s.take().map(|(a, b)| paired(a, b)); if let Some(p) = r { self.log.push((i, p)) } r.into_iter().collect() }
                Ref::Merge(s) => { let mut s = std::mem::take(s); s.sort_by_key(|v| v % 2); s }
                _ => vec![],
            };
            for v in left { self.push(i + 1, v) }
        }
    }
    /// how many items have to be kept: those of open runs and of merging
    fn pending(&self) -> bool { self.st.iter().any(|s| match s { Ref::Runs(s) => s.is_some(), Ref::Merge(s) => !s.is_empty(), _ => false }) }
}

// ---- the same from the library's links
trait Obj { fn adapt(&mut self, x: Tok) -> ControlFlow<(), Option<Tok>>; fn finalize(&mut self) -> ControlFlow<(), Option<Tok>>; }
impl<A: AdapterTrait<Input = Tok, Output = Tok>> Obj for A {
    fn adapt(&mut self, x: Tok) -> ControlFlow<(), Option<Tok>> { AdapterTrait::adapt(self, x) }
    fn finalize(&mut self) -> ControlFlow<(), Option<Tok>> { AdapterTrait::finalize(self) }
}
struct Dyn(Box<dyn Obj>);
impl AdapterTrait for Dyn {
    type Input = Tok;
    type Output = Tok;
    fn adapt(&mut self, x: Tok) -> ControlFlow<(), Option<Tok>> { (*self.0).adapt(x) }
    fn finalize(&mut self) -> ControlFlow<(), Option<Tok>> { (*self.0).finalize() }
}
fn f_map(i: usize, log: Log) -> impl Fn(&Tok) -> Tok { move |t| { log.borrow_mut().push((i, t.v)); Tok { v: mapped(t.v), alive: t.alive.clone() } } }
fn f_filter(i: usize, log: Log, none: bool) -> impl Fn(&Tok) -> bool { move |t| { log.borrow_mut().push((i, t.v)); kept(t.v) && !none } }
fn f_rel(a: &Tok, b: &Tok) -> bool { related(a.v, b.v) }
fn f_pair(i: usize, log: Log) -> impl Fn(&(Tok, Tok)) -> Tok { move |p| { let v = paired(p.0.v, p.1.v); log.borrow_mut().push((i, v)); Tok { v, alive: p.1.alive.clone() } } }
fn f_merge(a: &Tok, b: &Tok) -> Option<Tok> { merged(a.v, b.v).map(|v| Tok { v, alive: b.alive.clone() }) }
fn f_key(a: &Tok) -> usize { a.v % 2 }
fn push_stage(d: Dyn, s: St, i: usize, log: &Log) -> Dyn {
    let l = log.clone();
    Dyn(match s {
        St::Map => Box::new(d.map(f_map(i, l))),
        St::Filter => Box::new(d.filter(f_filter(i, l, false))),
        St::FilterOut => Box::new(d.filter(f_filter(i, l, true))),
        St::Runs => Box::new(d.groupby(f_rel).map(f_pair(i, l))),
        St::Merge => Box::new(d.merge(f_merge, f_key)),
    })
}
fn pull_stage(it: Box<dyn Iterator<Item = Tok>>, s: St, i: usize, log: &Log) -> Box<dyn Iterator<Item = Tok>> {
    let l = log.clone();
    match s {
        St::Map => Box::new(FromAdaptFn::new(Map::new(f_map(i, l)), it)),
        St::Filter => Box::new(FromAdaptFn::new(Filter::new(f_filter(i, l, false)), it)),
        St::FilterOut => Box::new(FromAdaptFn::new(Filter::new(f_filter(i, l, true)), it)),
        St::Runs => Box::new(FromAdaptFn::new(Map::new(f_pair(i, l)), FromAdaptFn::new(GroupBy::new(f_rel), it))),
        St::Merge => Box::new(FromAdaptFn::new(Merge::new(f_merge, f_key), it)),
    }
}

fn sorted_stagewise(log: &[(usize, usize)], n: usize) -> Vec<Vec<usize>> { (0..=n).map(|i| log.iter().filter(|l| l.0 == i).map(|l| l.1).collect()).collect() }

fn pushed(st: &[St], v: &[usize], ctx: &mut Ctx) -> Result<(), String> {
    let n = st.len();
    // up to `stop` items, then the result, or the pipeline is dropped as it is
    for stop in 0..=v.len() { for finish in [true, false] {
        if stop < v.len() && finish { continue }
        let alive = Rc::new(());
        let log: Log = Rc::default();
        let mut m = Model::new(st);
        let mut d = Dyn(Box::new(NilAdapter::new()));
        for (i, &s) in st.iter().enumerate() { d = push_stage(d, s, i, &log) }
        let l2 = log.clone();
        let mut r = d.fold(0usize, move |a: usize, t: Tok| { l2.borrow_mut().push((n, t.v)); a * 7 + t.v + 1 });
        for (k, &x) in v[..stop].iter().enumerate() {
            r.next(Tok { v: x, alive: alive.clone() });
            m.push(0, x);
            // per function the order counts; what one item causes, it causes now
            if sorted_stagewise(&log.borrow(), n) != sorted_stagewise(&m.log, n) { return Err(format!("after item {k} of {v:?}: calls {:?}, expected {:?} (function, value)", log.borrow(), m.log)) }
            if !m.pending() && Rc::strong_count(&alive) != 1 { return Err(format!("after item {k} of {v:?}: {} items are kept, none is needed", Rc::strong_count(&alive) - 1)) }
            ctx.trans(1);
        }
        if finish {
            let got = r.finalize();
            m.finish();
            if sorted_stagewise(&log.borrow(), n) != sorted_stagewise(&m.log, n) { return Err(format!("at the end of {v:?}: calls {:?}, expected {:?} (function, value)", log.borrow(), m.log)) }
            let e = m.out.iter().fold(0usize, |a, t| a * 7 + t + 1);
            if got != e { return Err(format!("{v:?} folds to {got}, expected {e}")) }
        } else { drop(r) }
        if Rc::strong_count(&alive) != 1 { return Err(format!("{} items of {v:?} are kept for good ({stop} pushed, {})", Rc::strong_count(&alive) - 1, if finish { "finalized" } else { "dropped" })) }
        ctx.exec();
    } }
    Ok(())
}
struct Source { v: Vec<usize>, used: Rc<Cell<usize>>, alive: Rc<()>, endless: bool }
impl Iterator for Source {
    type Item = Tok;
    fn next(&mut self) -> Option<Tok> {
        let k = self.used.get();
        if k >= self.v.len() && !self.endless { return None }
        assert!(k < 10_000, "reads on and on");
        self.used.set(k + 1);
        Some(Tok { v: self.v[k % self.v.len()], alive: self.alive.clone() })
    }
}
fn pulled(st: &[St], v: &[usize], endless: bool, ctx: &mut Ctx) -> Result<(), String> {
    let n = st.len();
    if endless && v.is_empty() { return Ok(()) }
    // what each item out needs: its value, the items read and the calls made by then
    let mut m = Model::new(st);
    let mut want: Vec<(usize, usize)> = vec![]; // value, items read
    let feed = if endless { 6 * v.len() } else { v.len() };
    for k in 0..feed { m.push(0, v[k % v.len()]); while want.len() < m.out.len() { want.push((m.out[want.len()], k + 1)) } }
    if !endless { m.finish(); while want.len() < m.out.len() { want.push((m.out[want.len()], feed)) } }
    for stop in 0..=want.len() {
        let (log, used, alive): (Log, Rc<Cell<usize>>, Rc<()>) = Default::default();
        let mut it: Box<dyn Iterator<Item = Tok>> = Box::new(Source { v: v.to_vec(), used: used.clone(), alive: alive.clone(), endless });
        for (i, &s) in st.iter().enumerate() { it = pull_stage(it, s, i, &log) }
        if used.get() != 0 { return Err("reads before it is asked".into()) }
        for k in 0..stop {
            let Some(t) = it.next() else { return Err(format!("{v:?}: ends after {k} of {} items", want.len())) };
            if t.v != want[k].0 { return Err(format!("{v:?}: item {k} is {}, expected {}", t.v, want[k].0)) }
            if used.get() > want[k].1 { return Err(format!("{v:?}: item {k} is given after {} items, {} determine it", used.get(), want[k].1)) }
            ctx.trans(1);
        }
        if stop == want.len() && !endless {
            if it.next().is_some() { return Err(format!("{v:?}: a further item")) }
            let (mut a, mut b) = (sorted_stagewise(&log.borrow(), n), sorted_stagewise(&m.log, n));
            a.pop(); b.pop();
            if a != b { return Err(format!("{v:?}: calls {:?}, expected {:?} (function, value)", log.borrow(), m.log)) }
        }
        drop(it);
        if Rc::strong_count(&alive) != 1 { return Err(format!("{v:?}: {} items are kept for good after {stop} items", Rc::strong_count(&alive) - 1)) }
        ctx.exec();
    }
    Ok(())
}
/// reducers that pass each item on to others
fn branched(which: usize, v: &[usize], ctx: &mut Ctx) -> Result<(), String> {
    let alive = Rc::new(());
    let log: Log = Rc::default();
    let count = |i: usize| { let l = log.clone(); move |a: usize, t: Tok| { l.borrow_mut().push((i, t.v)); a + 1 } };
    let tok = |x: usize| Tok { v: x, alive: alive.clone() };
    let lists: Vec<Vec<usize>>;
    let mut held = 0;
    macro_rules! go { ($r:expr) => { { let mut r = $r; for &x in v { r.next(tok(x)); held = held.max(Rc::strong_count(&alive) - 1); ctx.trans(1) } r.finalize(); } } }
    let all = v.to_vec();
    match which {
        0 => { go!(Generator::fork(Generator::fold(0, count(0)), Generator::fold(0, count(1)))); lists = vec![all.clone(), all] }
        1 => { go!(Generator::split(|t: &Tok| t.v, |k: &usize| Generator::fold(0, count(*k)))); lists = (0..VALUES as usize).map(|k| all.iter().copied().filter(|x| *x == k).collect()).collect() }
        2 => { go!(Generator::fork(Generator::split(|t: &Tok| t.v, |k: &usize| Generator::fold(0, count(*k))), Generator::filter(|t: &Tok| kept(t.v)).fold(0, count(3))));
            lists = (0..VALUES as usize).map(|k| all.iter().copied().filter(|x| *x == k).collect()).chain([all.iter().copied().filter(|x| kept(*x)).collect()]).collect() }
        _ => { go!(Generator::split(|t: &Tok| t.v, |k: &usize| Generator::fork(Generator::fold(0, count(2 * k)), Generator::map(|t: &Tok| t.clone()).fold(0, count(2 * k + 1)))));
            lists = (0..2 * VALUES as usize).map(|k| all.iter().copied().filter(|x| *x == k / 2).collect()).collect() }
    }
    let got = sorted_stagewise(&log.borrow(), lists.len() - 1);
    if got != lists { return Err(format!("{v:?}: the functions saw {got:?}, expected {lists:?}")) }
    if held != 0 { return Err(format!("{v:?}: {held} items are kept, none is needed")) }
    if Rc::strong_count(&alive) != 1 { return Err(format!("{v:?}: items are kept for good")) }
    ctx.exec();
    Ok(())
}

pub fn c31(t: Tier) -> Plan {
    let mk = |name: &str, stages: u32, depth: u32| -> Phase {
        let (sq, vs) = (Seqs { k: STAGES.len() as u64, depth: stages }, Seqs { k: VALUES, depth });
        Phase {
            name: name.into(),
            bounds: format!("all chains of at most {stages} of the stages {STAGES:?} x all sequences of at most {depth} of {VALUES} values: pushed (finished, and dropped after each item) and pulled (dropped after each item out, from an ended and from an endless source); calls of each function after each step, items read, and items still alive, against the stages run one item at a time"),
            total: sq.total(), chunk: 1, cpu_limit: 20,
            run: Box::new(move |i, ctx| {
                let st: Vec<St> = sq.get(i).into_iter().map(|j| STAGES[j]).collect();
                for j in 0..vs.total() {
                    let v = vs.get(j);
                    pushed(&st, &v, ctx)?;
                    pulled(&st, &v, false, ctx)?;
                    pulled(&st, &v, true, ctx)?;
                    ctx.state(mix(i) ^ mix(j + 1));
                    if j % 64 == 0 { ctx.alive() }
                }
                ctx.outcome(mix(i));
                Ok(())
            }),
            describe: Box::new(move |i| format!("{:?}", sq.get(i).into_iter().map(|j| STAGES[j]).collect::<Vec<_>>())),
        }
    };
    let bs = Seqs { k: VALUES, depth: t.pick(8, 11) };
    Plan {
        phases: vec![
            mk("chains", t.pick(5, 6), t.pick(4, 5)),
            mk("long inputs", 2, t.pick(7, 9)),
            Phase {
                name: "branches".into(), bounds: format!("4 combinations of fork and split x all sequences of at most {} of {VALUES} values: what each function sees, and items still alive", bs.depth),
                total: 4 * bs.total(), chunk: 256, cpu_limit: 10,
                run: Box::new(move |i, ctx| { let v = bs.get(i / 4); ctx.state(mix(i) ^ 5); ctx.outcome(mix(i / 4)); branched((i % 4) as usize, &v, ctx) }),
                describe: Box::new(move |i| format!("combination {}, {:?}", i % 4, bs.get(i / 4))),
            },
        ],
        assumptions: vec!["longer chains and inputs and other functions behave like the explored ones".into()],
    }
}
