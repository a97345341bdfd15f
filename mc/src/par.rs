//! C22: the parallel commands, under every schedule of the worker threads within a preemption bound.
use crate::engine::*;
use crate::part::covers;
use crate::proc::{self, *};
use crate::refmodel::*;
use crate::rip::*;
use crate::streams::*;
use matchit::partition_from;
use rapiddlt::dlt_v1::DltStorageEntry;
use std::cell::Cell;
use std::rc::Rc;
use std::time::{Duration, Instant};

/// The time that the cases of a phase may take in one worker process. Programs with many more scheduling points than
/// expected are explored with fewer preemptions (counted as cut short) instead of without end.
pub struct Pace { seconds: f64, total: u64, state: Cell<(Option<Instant>, u64)> }
impl Pace {
    pub fn new(seconds: u64, total: u64) -> Self { Pace { seconds: seconds as f64, total, state: Cell::new((None, 0)) } }
    /// the end of the next case
    pub fn next(&self) -> Instant {
        let (start, n) = self.state.get();
        let start = start.unwrap_or_else(Instant::now);
        self.state.set((Some(start), n + 1));
        let workers = std::thread::available_parallelism().map_or(4, |n| n.get()) as f64;
        // a single large case may use a third of it at any time
        let share = (self.seconds / 3.0 + self.seconds * (n + 1) as f64 * workers / self.total as f64).min(self.seconds);
        (start + Duration::from_secs_f64(share)).max(Instant::now() + Duration::from_millis(200))
    }
}

/// Runs every schedule with at most `bound` preemptions (those with fewer first), at most `cap` of them and until `end`.
/// `run` executes one schedule and judges it. Returns whether all were run.
pub fn schedules(bound: usize, cap: usize, end: Instant, ctx: &mut Ctx, mut run: impl FnMut(&[u8], &mut Ctx) -> Result<Option<Vec<Choice>>, String>) -> Result<bool, String> {
    let mut todo: Vec<Vec<Vec<u8>>> = vec![vec![]; bound + 1];
    todo[0].push(vec![]);
    let mut n = 0;
    while let Some(cost) = todo.iter().position(|q| !q.is_empty()) {
        let plan = todo[cost].pop().unwrap();
        if n >= cap || n % 16 == 15 && Instant::now() > end { return Ok(false) }
        n += 1;
        let Some(t) = run(&plan, ctx)? else { return Ok(false) };
        for k in plan.len()..t.len() {
            let c = cost + (t[k].kind == PREEMPT) as usize;
            if c > bound { continue }
            for a in 1..t[k].n {
                let mut p: Vec<u8> = t[..k].iter().map(|c| c.chosen).collect();
                p.push(a);
                todo[c].push(p);
            }
        }
    }
    Ok(true)
}

/// what a parallel command has to print, from the reference reading of the whole file and of its partitions
fn expected(cmd: &str, b: &[u8], procs: u32) -> Result<Vec<String>, String> {
    let slices = partition_from::<DltStorageEntry>(b, procs as usize);
    covers(b, &slices)?;
    let e = par_report(cmd, &slices, procs);
    let m = read_all(b);
    let nested = nested::<DltStorageEntry>(b, &messages::<DltStorageEntry>(b));
    let seq = match cmd {
        "par_count" | "par_count_hello_world" => true,
        "par_count_hello_world_grepit" => !nested,
        _ => false,
    };
    if seq && !e.contains(&report(&cmd[4..], b, &m)[0]) { return Err(format!("{cmd} on {procs} processors: the sum over the partitions {:?} is not the sequential result {:?}", e, report(&cmd[4..], b, &m))) }
    if cmd == "par_count_hello_world_raw" {
        // occurrences across the end of a message may be split
        let inside: usize = m.iter().map(|m| count_in(&b[m.off..m.off + m.len])).sum();
        let got: usize = slices.iter().map(|s| count_in(s)).sum();
        let all = count_in(b);
        if got < inside || got > all { return Err(format!("{cmd} on {procs} processors: {got} occurrences in the partitions, {inside} inside of messages, {all} overall")) }
    }
    if cmd == "par_split_timestamp" {
        let mut total = std::collections::BTreeMap::<[u8; 4], usize>::new();
        for x in &m { *total.entry(x.ecu).or_default() += 1 }
        let mut ends = std::collections::HashMap::<&str, Vec<&str>>::new();
        for x in &e { if let Some((a, b)) = x.split_once(" #lifecycles:") { ends.entry(a).or_default().push(b) } }
        for (k, n) in total {
            let l = String::from_utf8_lossy(&k);
            // ids that are not text may be printed alike
            if !ends.get(&*l).is_some_and(|v| v.iter().any(|x| x.ends_with(&format!(", {n})")))) { return Err(format!("{cmd} on {procs} processors: not {n} messages of {l} in {e:?}")) }
        }
    }
    Ok(e)
}
fn count_in(b: &[u8]) -> usize {
    let (mut n, mut i) = (0, 0);
    while i + 11 <= b.len() { if &b[i..i + 11] == b"Hello World" { n += 1; i += 11 } else { i += 1 } }
    n
}
fn judge(cmd: &str, acc: &str, procs: u32, e: &[String], d: &Done) -> Result<(), String> {
    if !d.ok() { return Err(format!("{acc} {cmd} on {procs} processors: {}", d.how())) }
    let got = lines(&d.out);
    if !same(got.clone(), e.to_vec()) { return Err(format!("{acc} {cmd} on {procs} processors reports {got:?}, expected {e:?}")) }
    Ok(())
}

fn scheduled(b: &[u8], cmds: &[&str], procs: &[u32], bound: usize, cap: usize, end: Instant, ctx: &mut Ctx) -> Result<(), String> {
    let h = hash_bytes(b);
    let mut left = (procs.len() * cmds.len()) as u32;
    for &p in procs {
        for cmd in cmds {
            let now = Instant::now();
            let end = now + end.saturating_duration_since(now).mul_f64(if left > 1 { 0.6 } else { 1.0 });
            left -= 1;
            let e = expected(cmd, b, p)?;
            ctx.outcome(hash_bytes(e.join("\n").as_bytes()));
            let (x0, t0) = (ctx.execs, ctx.transitions);
            let all = proc::with("sched/ripdlt", |s| {
                s.file(b);
                let mut r = Run::new(&["ripdlt", "mmap", cmd, FILE]);
                r.procs = p;
                schedules(bound, cap, end, ctx, |plan, ctx| {
                    r.plan = plan.to_vec();
                    let d = s.run(&r);
                    ctx.alive();
                    match d.code() {
                        // not followed further: more threads or scheduling points than the explorer handles, or a
                        // schedule that does not replay because of threads outside of its control
                        Some(78) | Some(79) => return Ok(None),
                        Some(77) => return Err(format!("{cmd} on {p} processors: {} with schedule {:?}", d.how(), plan)),
                        _ if d.trace_full && !d.ok() => return Ok(None),
                        _ => {}
                    }
                    ctx.exec();
                    let t = &d.trace;
                    if t.is_empty() { ctx.trivial += 1 }
                    ctx.trans(t.len() as u64 + 1);
                    let mut x = h ^ mix(p as u64) ^ hash_bytes(cmd.as_bytes());
                    for c in t { x = mix(x ^ ((c.n as u64) << 8 | c.chosen as u64)); ctx.state(x) }
                    if ctx.verbose && judge(cmd, "mmap", p, &e, &d).is_err() { println!("{t:?}") }
                    judge(cmd, "mmap", p, &e, &d).map_err(|e| format!("{e}, with schedule {:?}", t.iter().map(|c| c.chosen).collect::<Vec<_>>()))?;
                    Ok(if d.trace_full { None } else { Some(d.trace) })
                })
            })?;
            if ctx.verbose { println!("{cmd} on {p}: {} schedules{}, {} choices", ctx.execs - x0, if all { "" } else { " and more" }, ctx.transitions - t0) }
            if !all { ctx.cut += 1 }
        }
    }
    Ok(())
}

/// messages with what the parallel commands look at: storage times up and down, two ECUs, timestamps, hits
fn tokens(depth: u32) -> Tokens {
    let ts = |secs: u32, ecu: &[u8; 4], t: u32, p: &[u8]| full(0x30, secs, ecu, &cat(&[&t.to_be_bytes(), p]));
    Tokens::new(depth, vec![
        ("A 10 hit", ts(10, b"ECUA", 1, b"Hello World")),
        ("A 12", ts(12, b"ECUA", 20_000_000, b"Hxx World")),
        ("A 5", ts(5, b"ECUA", 10, b"")),
        ("B 11 hits", ts(11, b"ECUB", 40_000_000, b"Hello World Hello World")),
        ("B 9 plain", full(0x20, 9, b"ECUB", b"no timestamp")),
        ("B long", full(0x20, 14, b"ECUB", &[b'z'; 150])),
        ("garbage hit", b"..Hello World..".to_vec()),
        ("nested", full(0x20, 13, b"ECUA", &cat(&[&ts(3, b"ECUC", 7, b"Hello World"), b"tail"]))),
    ])
}

const OTHERS: &[&str] = &[PAR[0], PAR[1], PAR[2], PAR[4], PAR[5], PAR[6]];
pub fn c22(t: Tier) -> Plan {
    let mk = |name: &'static str, depth: u32, cmds: &'static [&'static str], procs: &'static [u32], bound: usize, seconds: u64| {
        let tk = Rc::new(tokens(depth));
        let t2 = tk.clone();
        let cap = t.pick(30_000, 100_000);
        let pace = Pace::new(seconds, tk.total());
        Phase {
            name: name.into(),
            bounds: format!("all sequences of at most {depth} of {} fragments x {procs:?} processors x {cmds:?} x every schedule of the workers, every choice of stolen jobs, with at most {bound} preemptions at atomic operations and accesses to global data (at most {cap} schedules per run and {seconds} s)", tk.toks.len()),
            total: tk.total(), chunk: 1, cpu_limit: 60,
            run: Box::new(move |i, ctx| scheduled(&tk.build(i), cmds, procs, bound, cap, pace.next(), ctx)),
            describe: Box::new(move |i| t2.describe(i)),
        }
    };
    // two ECUs, steps and periods of the same length in several partitions
    let periods = {
        let ts = |secs: u32, ecu: &[u8; 4], t: u32| full(0x30, secs, ecu, &t.to_be_bytes());
        let tk = Rc::new(Tokens::new(t.pick(4, 5), vec![
            ("A 10", ts(10, b"ECUA", 10)),
            ("A 15", ts(15, b"ECUA", 30_000_010)),
            ("A 17", ts(17, b"ECUA", 30_000_011)),
            ("B 10", ts(10, b"ECUB", 11)),
            ("B 15", ts(15, b"ECUB", 30_000_020)),
        ]));
        let t2 = tk.clone();
        let pace = Pace::new(t.pick(90, 600), tk.total());
        let cmds = &["par_iter", "par_histogram_timestamp", "par_split_timestamp"];
        Phase {
            name: "periods".into(),
            bounds: format!("all sequences of at most {} of 5 messages of the same size x [2, 3] processors x {cmds:?} x every schedule without preemptions and every choice of stolen jobs", t.pick(4, 5)),
            total: tk.total(), chunk: 1, cpu_limit: 60,
            run: Box::new(move |i, ctx| scheduled(&tk.build(i), cmds, &[2, 3], 0, 1000, pace.next(), ctx)),
            describe: Box::new(move |i| t2.describe(i)),
        }
    };
    let real = |name: &str, tk: Tokens, depth: u32, procs: &'static [u32], cmds: &'static [&'static str]| {
        let tk = Rc::new(tk);
        let t2 = tk.clone();
        Phase {
            name: name.into(),
            bounds: format!("all sequences of at most {depth} of {} fragments x {procs:?} processors x {cmds:?} x both access methods on the unmodified thread pool, in whatever order it runs the slices", tk.toks.len()),
            total: tk.total(), chunk: 1, cpu_limit: 60,
            run: Box::new(move |i, ctx| {
                let b = tk.build(i);
                ctx.state(hash_bytes(&b));
                for &p in procs {
                    for &cmd in cmds {
                        let e = expected(cmd, &b, p)?;
                        ctx.trans(1);
                        ctx.outcome(hash_bytes(e.join("\n").as_bytes()));
                        proc::with("ripdlt", |s| {
                            s.file(&b);
                            let acc = ["mmap", "read"][(p % 2) as usize];
                            let mut r = Run::new(&["ripdlt", acc, cmd, FILE]);
                            r.procs = p;
                            let d = s.run(&r);
                            ctx.exec(); ctx.alive();
                            // the pool's own schedule is not under control: a wrong report counts when it is seen
                            judge(cmd, acc, p, &e, &d).map_err(|e| if d.ok() { format!("{OBSERVED}{e}") } else { e })
                        })?;
                    }
                }
                Ok(())
            }),
            describe: Box::new(move |i| t2.describe(i)),
        }
    };
    let kinds = {
        let sizes = t.pick(vec![257u64, 5000, 66_000], vec![200, 255, 257, 1000, 5000, 32_800, 65_535, 66_000]);
        let s2 = sizes.clone();
        let (procs, cmds): (&[u32], _) = (t.pick(&[2, 8], &[2, 3, 5, 8, 16]), &["par_count", "par_iter", "par_histogram_timestamp", "par_split_timestamp"]);
        Phase {
            name: "real pool, many kinds".into(),
            bounds: format!("{sizes:?} different kinds: {:?} (of those in one ECU at most 3000, of lengths at most 5000) x {procs:?} processors x {cmds:?} on the unmodified thread pool", crate::ripbig::HOW),
            total: sizes.len() as u64 * 4, chunk: 1, cpu_limit: 60,
            run: Box::new(move |i, ctx| {
                let b = crate::ripbig::kinds_file(sizes[(i / 4) as usize], i % 4);
                for &p in procs {
                    for &cmd in cmds {
                        let e: Vec<String> = expected(cmd, &b, p)?.into_iter().filter(|l| !l.starts_with("available parallelism")).collect();
                        ctx.trans(1); ctx.state(mix(i << 8 | p as u64));
                        ctx.outcome(hash_bytes(e.join("\n").as_bytes()));
                        proc::with("ripdlt", |s| {
                            s.file(&b);
                            crate::ripbig::judge(s, "mmap", cmd, p, &e, ctx).map_err(|e| if e.contains(" lines, expected ") { format!("{OBSERVED}{e}") } else { e })
                        })?;
                    }
                }
                Ok(())
            }),
            describe: Box::new(move |i| format!("{} kinds, {}", s2[(i / 4) as usize], crate::ripbig::HOW[(i % 4) as usize])),
        }
    };
    let crowd = {
        const P: [u32; 16] = [17, 31, 32, 40, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300];
        let make = |i: u64| { // the fragments from the i-th on, over and over
            let tk = tokens(1);
            let n = tk.toks.len();
            let mut b = vec![];
            for k in 0..600usize { b.extend_from_slice(&tk.toks[(i as usize / P.len() + k + k / n) % n].1) }
            b
        };
        Phase {
            name: "real pool, many processors".into(),
            bounds: format!("600 fragments in 4 arrangements x {P:?} processors x {PAR:?} on the unmodified thread pool"),
            total: 4 * P.len() as u64, chunk: 1, cpu_limit: 60,
            run: Box::new(move |i, ctx| {
                let (b, p) = (make(i), P[i as usize % P.len()]);
                ctx.state(hash_bytes(&b) ^ p as u64);
                for cmd in PAR {
                    let e = expected(cmd, &b, p)?;
                    ctx.trans(1);
                    ctx.outcome(hash_bytes(e.join("\n").as_bytes()));
                    proc::with("ripdlt", |s| {
                        s.file(&b);
                        let acc = ["mmap", "read"][(i / P.len() as u64 % 2) as usize];
                        let mut r = Run::new(&["ripdlt", acc, cmd, FILE]);
                        r.procs = p;
                        let d = s.run(&r);
                        ctx.exec(); ctx.alive();
                        judge(cmd, acc, p, &e, &d).map_err(|e| if d.ok() { format!("{OBSERVED}{e}") } else { e })
                    })?;
                }
                Ok(())
            }),
            describe: Box::new(|i| format!("arrangement {}, {} processors", i / P.len() as u64, P[i as usize % P.len()])),
        }
    };
    let mut phases = vec![];
    phases.push(mk("schedules", t.pick(3, 4), OTHERS, &[2, 3], 2, t.pick(160, 1500)));
    phases.push(mk("more workers", 3, t.pick(&["par_count", "par_iter", "par_histogram_timestamp", "par_split_timestamp"], OTHERS), t.pick(&[1, 4], &[1, 4, 5]), 1, t.pick(180, 600)));
    phases.push(mk("pattern search", t.pick(2, 3), &["par_count_hello_world_grepit"], &[2, 3], 1, t.pick(60, 300)));
    if t == Tier::Thorough {
        phases.push(mk("more preemptions", 3, OTHERS, &[2, 3, 4], 4, 900));
        phases.push(mk("pattern search, two", 2, &["par_count_hello_world_grepit"], &[2], 2, 300));
    }
    phases.push(periods);
    phases.push(real("real pool", tokens(t.pick(3, 4)), t.pick(3, 4), &[1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 33], &PAR));
    let ts = |secs: u32, ecu: &[u8; 4], t: u32| full(0x30, secs, ecu, &t.to_be_bytes());
    let few = Tokens::new(t.pick(6, 8), vec![("A 10", ts(10, b"ECUA", 10)), ("A 15", ts(15, b"ECUA", 30_000_010)), ("B 15", ts(15, b"ECUB", 30_000_020))]);
    phases.push(real("real pool, periods", few, t.pick(6, 8), &[2, 3, 4], &["par_iter", "par_histogram_timestamp", "par_split_timestamp"]));
    phases.push(kinds);
    phases.push(crowd);
    phases.push(crate::ripbig::dense(t, &["par_count"]));
    phases.push(crate::ripbig::far(t, &["par_count", "par_count_hello_world", "par_count_hello_world_raw", "par_count_hello_world_grepit"]));
    Plan {
        phases,
        assumptions: vec![
            "threads interleave at atomic operations, accesses to global data and blocking calls, sequentially consistent in between".into(),
            "rayon's joins behave as its documentation says: the second job is either run by the same worker afterwards or by another one concurrently".into(),
        ],
    }
}
