//! Exhaustive-exploration engine: a supervisor deals the case indices of every phase to worker
//! processes, watches them (hang, crash, memory), replays what fails, and writes the evidence.
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::io::{BufRead, BufReader, Read, Write};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering::*};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier { Quick, Thorough }
impl Tier {
    pub fn name(self) -> &'static str { if self == Tier::Quick { "quick" } else { "thorough" } }
    pub fn pick<T>(self, q: T, t: T) -> T { if self == Tier::Quick { q } else { t } }
}

/// One exhaustively enumerated family of cases: case `i` for every `i < total`.
pub struct Phase {
    pub name: String,
    /// what is enumerated, within which bounds, against which oracle
    pub bounds: String,
    pub total: u64,
    pub chunk: u64,
    /// CPU seconds after which one case counts as not terminating
    pub cpu_limit: u64,
    pub run: Box<dyn Fn(u64, &mut Ctx) -> Result<(), String>>,
    pub describe: Box<dyn Fn(u64) -> String>,
}

pub struct Plan {
    pub phases: Vec<Phase>,
    pub assumptions: Vec<String>,
}

/// starts the message about an execution of uncontrolled threads: replaying it may take another course
pub const OBSERVED: &str = "observed: ";

const HDR: usize = 1 << 16;
const MAX_WORKERS: usize = 64;

/// Shared between supervisor and workers: claim counters, progress slots and a bit-state table.
pub struct Shared { base: *mut u8, bits: u64 }
unsafe impl Send for Shared {}
unsafe impl Sync for Shared {}
impl Shared {
    fn map(fd: i32, bits: u64) -> Shared {
        let len = HDR + (bits / 8) as usize;
        let p = unsafe { libc::mmap(std::ptr::null_mut(), len, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_NORESERVE, fd, 0) };
        if p == libc::MAP_FAILED { eprintln!("engine: mmap failed"); std::process::exit(2) }
        Shared { base: p as *mut u8, bits }
    }
    fn word(&self, i: usize) -> &AtomicU64 { unsafe { &*(self.base.add(i * 8) as *const AtomicU64) } }
    fn claim(&self, phase: usize) -> &AtomicU64 { self.word(phase) }
    fn slot(&self, w: usize, k: usize) -> &AtomicU64 { self.word(2048 + w * 8 + k) }
    /// true if this state had not been seen (bit-state hashing: never over-counts distinct states)
    fn mark(&self, h: u64) -> bool {
        let h = mix(h) % self.bits;
        let w = unsafe { &*(self.base.add(HDR + (h / 64 * 8) as usize) as *const AtomicU64) };
        let m = 1u64 << (h % 64);
        if w.load(Relaxed) & m != 0 { return false }
        w.fetch_or(m, Relaxed) & m == 0
    }
}

pub fn mix(mut h: u64) -> u64 {
    h ^= h >> 33; h = h.wrapping_mul(0xff51afd7ed558ccd);
    h ^= h >> 33; h = h.wrapping_mul(0xc4ceb9fe1a85ec53);
    h ^ (h >> 33)
}
pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64 ^ (b.len() as u64);
    let mut it = b.chunks_exact(8);
    for c in it.by_ref() {
        h = (h ^ u64::from_le_bytes(c.try_into().unwrap())).wrapping_mul(0x9E3779B97F4A7C15);
        h ^= h >> 29;
    }
    for &x in it.remainder() { h = (h ^ x as u64).wrapping_mul(0x100000001b3); }
    mix(h)
}

pub struct Ctx<'s> {
    shared: Option<&'s Shared>,
    worker: usize,
    salt: u64,
    pub states: u64,
    pub transitions: u64,
    pub execs: u64,
    pub trivial: u64,
    pub outcomes: HashSet<u64>,
    pub samples: Vec<String>,
    pub want_sample: bool,
    pub verbose: bool,
    /// cases whose exploration ended at a limit on executions, below the stated bound
    pub cut: u64,
}
impl<'s> Ctx<'s> {
    fn new(shared: Option<&'s Shared>, worker: usize) -> Self {
        Ctx { shared, worker, salt: 0, states: 0, transitions: 0, execs: 0, trivial: 0, outcomes: HashSet::new(), samples: vec![], want_sample: false, verbose: false, cut: 0 }
    }
    /// for what is run on the side and not counted
    pub fn aside() -> Ctx<'static> { Ctx::new(None, 0) }
    /// a state of the explored system was reached
    #[inline] pub fn state(&mut self, h: u64) {
        match self.shared { Some(s) => if s.mark(h ^ self.salt) { self.states += 1 }, None => self.states += 1 }
    }
    #[inline] pub fn trans(&mut self, n: u64) { self.transitions += n }
    /// one complete execution of the implementation was compared with the reference
    #[inline] pub fn exec(&mut self) { self.execs += 1 }
    #[inline] pub fn outcome(&mut self, h: u64) { if self.outcomes.len() < 20000 { self.outcomes.insert(h); } }
    pub fn sample(&mut self, f: impl FnOnce() -> String) { if self.want_sample && self.samples.len() < 3 { self.samples.push(f()); } }
    /// the case is still making progress (for cases that consist of many executions)
    pub fn alive(&mut self) { if let Some(s) = self.shared { s.slot(self.worker, 3).fetch_add(1, Relaxed); } }
}

thread_local! { static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) }; }

fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = i.payload().downcast_ref::<&str>().map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{msg} ({loc})"));
    }));
}

fn run_case(ph: &Phase, idx: u64, ctx: &mut Ctx) -> Result<(), String> {
    match catch_unwind(AssertUnwindSafe(|| (ph.run)(idx, ctx))) {
        Ok(r) => r,
        Err(_) => Err(format!("panic: {}", LAST_PANIC.with(|p| p.borrow().clone()))),
    }
}

fn limit(res: u32, soft: u64, hard: u64) {
    let r = libc::rlimit { rlim_cur: soft, rlim_max: hard };
    unsafe { libc::setrlimit(res as _, &r); }
}

fn on_big_stack<R: Send + 'static>(f: impl FnOnce() -> R + Send + 'static) -> R {
    // the stack a main thread has: recursion that overflows there must overflow here
    std::thread::Builder::new().stack_size(8 << 20).spawn(f).unwrap().join().unwrap()
}

struct SendPlan(Plan);
unsafe impl Send for SendPlan {}

pub fn worker_main(plan: Plan, w: usize, fd: i32, bits: u64) -> i32 {
    install_panic_hook();
    limit(libc::RLIMIT_AS as u32, 12 << 30, 12 << 30);
    limit(libc::RLIMIT_CORE as u32, 0, 0);
    let plan = SendPlan(plan);
    on_big_stack(move || {
        let plan = plan; // move the wrapper, not the field
        let plan = plan.0;
        let shared = Shared::map(fd, bits);
        let out = std::io::stdout();
        let mut violations = 0;
        for (pi, ph) in plan.phases.iter().enumerate() {
            let mut ctx = Ctx::new(Some(&shared), w);
            ctx.salt = mix(pi as u64 + 77);
            let mut cases = 0u64;
            let t0 = Instant::now();
            'claim: loop {
                let a = shared.claim(pi).fetch_add(ph.chunk, Relaxed);
                if a >= ph.total { break }
                let _ = writeln!(out.lock(), "CLM\t{pi}\t{a}");
                for i in a..(a + ph.chunk).min(ph.total) {
                    shared.slot(w, 0).store(pi as u64, Relaxed);
                    shared.slot(w, 1).store(i, Relaxed);
                    shared.slot(w, 2).fetch_add(1, SeqCst);
                    cases += 1;
                    // samples come from the middle of the space: the first cases are trivial
                    ctx.want_sample = i >= ph.total / 2;
                    if let Err(e) = run_case(ph, i, &mut ctx) {
                        violations += 1;
                        let mut o = out.lock();
                        let _ = writeln!(o, "VIOL\t{pi}\t{i}\t{}", e.replace('\\', "\\\\").replace('\n', "\\n"));
                        let _ = o.flush();
                        if violations >= 3 { break 'claim }
                    }
                }
            }
            let mut o = out.lock();
            let _ = writeln!(o, "STAT\t{pi}\t{cases}\t{}\t{}\t{}\t{}\t{}\t{}", ctx.states, ctx.transitions, ctx.execs, ctx.trivial, t0.elapsed().as_millis(), ctx.cut);
            let mut line = format!("OUTC\t{pi}");
            for h in ctx.outcomes.iter() { let _ = write!(line, "\t{h:x}"); }
            let _ = writeln!(o, "{line}");
            for s in &ctx.samples { let _ = writeln!(o, "SAMP\t{pi}\t{}", s.replace('\n', "\\n")); }
            let _ = o.flush();
            if violations >= 3 { break }
        }
        let _ = writeln!(out.lock(), "DONE");
        0
    })
}

/// Replays one case in this process; exit 0: held, 1: violated, anything else: crashed.
pub fn one_main(plan: Plan, phase: &str, idx: u64, verbose: bool) -> i32 {
    install_panic_hook();
    limit(libc::RLIMIT_AS as u32, 12 << 30, 12 << 30);
    limit(libc::RLIMIT_CORE as u32, 0, 0);
    let (plan, phase) = (SendPlan(plan), phase.to_string());
    on_big_stack(move || {
        let plan = plan;
        let plan = plan.0;
        let Some(ph) = plan.phases.iter().find(|p| p.name == phase) else { eprintln!("no phase {phase}"); return 2 };
        if idx >= ph.total { eprintln!("no case {idx}"); return 2 }
        limit(libc::RLIMIT_CPU as u32, ph.cpu_limit * 2, ph.cpu_limit * 2 + 5);
        let mut ctx = Ctx::new(None, 0);
        ctx.verbose = verbose;
        if verbose { println!("case: {}", (ph.describe)(idx)); }
        match run_case(ph, idx, &mut ctx) {
            Ok(()) => { if verbose { println!("property holds on this case") } 0 }
            Err(e) => { println!("VIOLATED: {e}"); 1 }
        }
    })
}

/// Replays a history of cases in this process, up to and including case `idx` of phase number `target`:
/// what one case does must not depend on what ran before it. Exit codes as for one case.
pub fn hist_main(plan: Plan, hist: &str, target: usize, idx: u64) -> i32 {
    install_panic_hook();
    limit(libc::RLIMIT_AS as u32, 12 << 30, 12 << 30);
    limit(libc::RLIMIT_CORE as u32, 0, 0);
    let hist: Vec<(usize, u64)> = hist.split(',').filter_map(|c| { let (p, a) = c.split_once(':')?; Some((p.parse().ok()?, a.parse().ok()?)) }).collect();
    let plan = SendPlan(plan);
    on_big_stack(move || {
        let plan = plan;
        let plan = plan.0;
        let mut ctx = Ctx::new(None, 0);
        for (p, a) in hist {
            let Some(ph) = plan.phases.get(p) else { return 2 };
            for i in a..(a + ph.chunk).min(ph.total) {
                let r = run_case(ph, i, &mut ctx);
                if (p, i) == (target, idx) {
                    match r { Ok(()) => return 0, Err(e) => { println!("VIOLATED: {e}"); return 1 } }
                }
            }
        }
        eprintln!("the history does not contain the case");
        2
    })
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn cpu_ms(pid: u32) -> Option<u64> {
    let s = std::fs::read_to_string(format!("/proc/{pid}/stat")).ok()?;
    let f: Vec<&str> = s.rsplit_once(')')?.1.split_whitespace().collect();
    let t: u64 = f.get(11)?.parse::<u64>().ok()? + f.get(12)?.parse::<u64>().ok()?;
    Some(t * 1000 / unsafe { libc::sysconf(libc::_SC_CLK_TCK) } as u64)
}

struct W { child: Child, last: (u64, u64), cpu0: u64, wall0: Instant, done: Arc<Mutex<bool>>, reader: Option<std::thread::JoinHandle<()>>, exited: Option<std::process::ExitStatus> }

#[derive(Clone)]
struct Finding { phase: usize, idx: u64, what: String, worker: usize, hist: String }

enum Confirm { Holds, Violated(String), Crash(String), Hang }

fn confirm(id: &str, tier: Tier, plan: &Plan, phase: usize, idx: u64) -> Confirm {
    let ph = &plan.phases[phase];
    replayed(&["one", id, tier.name(), &ph.name, &idx.to_string()], ph.cpu_limit * 2 + 100)
}

fn replayed(args: &[&str], wall: u64) -> Confirm {
    let exe = std::env::current_exe().unwrap();
    let mut c = Command::new(exe).args(args)
        .stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().unwrap();
    let mut so = c.stdout.take().unwrap();
    let th = std::thread::spawn(move || { let mut s = String::new(); let _ = so.read_to_string(&mut s); s });
    let mut se = c.stderr.take().unwrap();
    let th2 = std::thread::spawn(move || { let mut s = vec![]; let _ = se.read_to_end(&mut s); String::from_utf8_lossy(&s).into_owned() });
    let t0 = Instant::now();
    let st = loop {
        if let Some(s) = c.try_wait().unwrap() { break Some(s) }
        if t0.elapsed() > Duration::from_secs(wall) { let _ = c.kill(); let _ = c.wait(); break None }
        std::thread::sleep(Duration::from_millis(20));
    };
    let Some(st) = st else { return Confirm::Hang };
    let text = th.join().unwrap_or_default();
    let err = th2.join().unwrap_or_default();
    match (st.code(), st.signal()) {
        (Some(0), _) => Confirm::Holds,
        (Some(1), _) => Confirm::Violated(text.trim().trim_start_matches("VIOLATED: ").to_string()),
        (_, Some(libc::SIGXCPU)) | (_, Some(libc::SIGKILL)) => Confirm::Hang,
        (_, Some(s)) => Confirm::Crash(format!("the process dies with signal {s}: {}", err.trim().lines().next().unwrap_or(""))),
        (c, _) => Confirm::Crash(format!("the process exits with {c:?}: {}", err.trim())),
    }
}

/// The shortest tail of what the worker did that leads to the violation again (in two fresh processes).
fn confirm_history(id: &str, tier: Tier, f: &Finding, claims: &[(usize, u64)], plan: &Plan, wall: u64) -> Option<(String, String)> {
    let chunk = plan.phases[f.phase].chunk;
    let end = claims.iter().rposition(|&(p, a)| p == f.phase && (a..a + chunk).contains(&f.idx))? + 1;
    let mut n = 1;
    loop {
        n = n.min(end);
        let hist = claims[end - n..end].iter().map(|(p, a)| format!("{p}:{a}")).collect::<Vec<_>>().join(",");
        // the list may be long: it is passed through a file
        let path = std::env::temp_dir().join(format!("mc-hist-{}", std::process::id()));
        std::fs::write(&path, &hist).ok()?;
        let run = || match replayed(&["hist", id, tier.name(), path.to_str().unwrap(), &f.phase.to_string(), &f.idx.to_string()], wall) {
            Confirm::Violated(x) => Some(x),
            Confirm::Crash(x) => Some(x),
            _ => None,
        };
        let r = run().and_then(|x| run().map(|_| x));
        let _ = std::fs::remove_file(&path);
        if let Some(x) = r { return Some((hist, x)) }
        if n == end { return None }
        n *= 8;
    }
}

pub fn supervise(id: &str, tier: Tier, plan: Plan, verif: &str) -> i32 {
    match supervise_once(id, tier, &plan, verif, 1) {
        // a case took longer than allowed, but ended when it ran alone: the machine was busy
        SLOW => { eprintln!("engine: run again with more time per case"); match supervise_once(id, tier, &plan, verif, 6) { SLOW => 2, r => r } }
        r => r,
    }
}
const SLOW: i32 = 100;

fn supervise_once(id: &str, tier: Tier, plan: &Plan, verif: &str, slack: u64) -> i32 {
    let t0 = Instant::now();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let nw = std::env::var("MC_WORKERS").ok().and_then(|s| s.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4)).clamp(1, MAX_WORKERS);
    let bits: u64 = tier.pick(1 << 31, 1 << 33);
    let fd = unsafe { libc::memfd_create(c"mcstate".as_ptr(), 0) };
    if fd < 0 || unsafe { libc::ftruncate(fd, (HDR as u64 + bits / 8) as i64) } != 0 { eprintln!("engine: no shared memory"); return 2 }
    let shared = Shared::map(fd, bits);
    assert!(plan.phases.len() < 2000);
    let exe = std::env::current_exe().unwrap();

    let lines: Arc<Mutex<Vec<String>>> = Arc::new(Mutex::new(vec![]));
    let claims: Arc<Mutex<Vec<Vec<(usize, u64)>>>> = Arc::new(Mutex::new(vec![vec![]; nw]));
    let mut ws: Vec<W> = vec![];
    for w in 0..nw {
        shared.slot(w, 2).store(0, SeqCst);
        let mut cmd = Command::new(&exe);
        cmd.args(["worker", id, tier.name(), &w.to_string(), &fd.to_string(), &bits.to_string()])
            .stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::null());
        cmd.process_group(0);
        let mut child = cmd.spawn().unwrap();
        let so = child.stdout.take().unwrap();
        let (l2, c2, done) = (lines.clone(), claims.clone(), Arc::new(Mutex::new(false)));
        let d2 = done.clone();
        let reader = std::thread::spawn(move || {
            for line in BufReader::new(so).lines().map_while(Result::ok) {
                if line == "DONE" { *d2.lock().unwrap() = true }
                else if let Some(c) = line.strip_prefix("CLM\t") { if let Some((p, a)) = c.split_once('\t') { c2.lock().unwrap()[w].push((p.parse().unwrap(), a.parse().unwrap())) } }
                else if line.starts_with("VIOL") { l2.lock().unwrap().push(format!("{line}\t{w}")) }
                else { l2.lock().unwrap().push(line) }
            }
        });
        ws.push(W { child, last: (0, 0), cpu0: 0, wall0: Instant::now(), done, reader: Some(reader), exited: None });
    }
    let mut suspects: Vec<(Finding, bool)> = vec![]; // (case, hang?)
    let kill_group = |c: &mut Child| { unsafe { libc::kill(-(c.id() as i32), libc::SIGKILL); } let _ = c.wait(); };
    loop {
        let mut live = 0;
        for i in 0..ws.len() {
            if ws[i].exited.is_some() { continue }
            let cur = (shared.slot(i, 0).load(SeqCst), shared.slot(i, 1).load(SeqCst));
            if let Some(st) = ws[i].child.try_wait().unwrap() {
                ws[i].exited = Some(st);
                if let Some(r) = ws[i].reader.take() { let _ = r.join(); }
                if !*ws[i].done.lock().unwrap() {
                    suspects.push((Finding { phase: cur.0 as usize, idx: cur.1, what: format!("worker ended with {st}"), worker: i, hist: String::new() }, false));
                }
                continue;
            }
            live += 1;
            let seq = shared.slot(i, 2).load(SeqCst) + (shared.slot(i, 3).load(SeqCst) << 40);
            let cpu = cpu_ms(ws[i].child.id()).unwrap_or(0);
            if ws[i].last != (seq, 1) { ws[i].last = (seq, 1); ws[i].cpu0 = cpu; ws[i].wall0 = Instant::now(); continue }
            if seq & ((1 << 40) - 1) == 0 { continue }
            let lim = plan.phases[cur.0 as usize].cpu_limit * slack;
            if cpu.saturating_sub(ws[i].cpu0) > lim * 1000 || ws[i].wall0.elapsed() > Duration::from_secs(lim * 2 + 120) {
                suspects.push((Finding { phase: cur.0 as usize, idx: cur.1, what: "no end".into(), worker: i, hist: String::new() }, true));
                kill_group(&mut ws[i].child);
                ws[i].exited = Some(ExitStatusExt::from_raw(9));
            }
        }
        let viol = lines.lock().unwrap().iter().any(|l| l.starts_with("VIOL"));
        if !suspects.is_empty() || live == 0 { break }
        if viol { std::thread::sleep(Duration::from_millis(300)); break }
        std::thread::sleep(Duration::from_millis(if t0.elapsed() < Duration::from_secs(2) { 10 } else { 100 }));
    }
    for w in ws.iter_mut() {
        if w.exited.is_none() { kill_group(&mut w.child); }
        if let Some(r) = w.reader.take() { let _ = r.join(); }
    }
    // ---- collect
    let n = plan.phases.len();
    let (mut cases, mut states, mut trans, mut execs, mut trivial) = (vec![0u64; n], vec![0u64; n], vec![0u64; n], vec![0u64; n], vec![0u64; n]);
    let (mut ms, mut cut) = (vec![0u64; n], vec![0u64; n]);
    let mut outc: Vec<HashSet<String>> = vec![HashSet::new(); n];
    let mut samples: BTreeMap<usize, Vec<String>> = BTreeMap::new();
    let mut found: Vec<Finding> = vec![];
    for l in lines.lock().unwrap().iter() {
        let f: Vec<&str> = l.split('\t').collect();
        let Some(pi) = f.get(1).and_then(|s| s.parse::<usize>().ok()) else { continue };
        match f[0] {
            "STAT" => {
                let v: Vec<u64> = f[2..].iter().map(|s| s.parse().unwrap()).collect();
                cases[pi] += v[0]; states[pi] += v[1]; trans[pi] += v[2]; execs[pi] += v[3]; trivial[pi] += v[4]; ms[pi] = ms[pi].max(v[5]); cut[pi] += v[6];
            }
            "OUTC" => for h in &f[2..] { outc[pi].insert(h.to_string()); },
            "SAMP" => samples.entry(pi).or_default().push(f[2..].join("\t").replace("\\n", "\n")),
            "VIOL" => found.push(Finding { phase: pi, idx: f[2].parse().unwrap(), what: f[3..f.len() - 1].join("\t"), worker: f[f.len() - 1].parse().unwrap(), hist: String::new() }),
            _ => {}
        }
    }
    // ---- confirm what failed by replaying it in fresh processes
    found.sort_by_key(|f| (f.phase, f.idx));
    let known = load_known(verif, id);
    let mut confirmed: Vec<Finding> = vec![];
    let mut known_hits: Vec<String> = vec![];
    let mut errors: Vec<String> = vec![];
    let mut slow = 0;
    let todo: Vec<(Finding, bool)> = found.iter().take(8).cloned().map(|f| (f, false)).chain(suspects.iter().cloned()).collect();
    for (f, hang) in todo {
        if !confirmed.is_empty() && (hang || confirmed.len() >= 3) { continue } // one is enough
        if f.phase >= plan.phases.len() { errors.push(format!("worker failed before its first case: {}", f.what)); continue }
        if let Some(x) = f.what.strip_prefix(OBSERVED) { confirmed.push(Finding { what: x.to_string(), ..f }); continue }
        let a = confirm(id, tier, plan, f.phase, f.idx);
        let mut hist = String::new();
        let what = match a {
            Confirm::Violated(x) => match confirm(id, tier, plan, f.phase, f.idx) {
                Confirm::Violated(y) if x == y => x,
                Confirm::Violated(y) => format!("{y} [another replay of this case: {x}]"),
                _ => { errors.push(format!("{} case {}: replays disagree ({x})", plan.phases[f.phase].name, f.idx)); continue }
            },
            Confirm::Crash(x) => x,
            Confirm::Hang => format!("does not end: more than {} s of CPU on this case", plan.phases[f.phase].cpu_limit * 2),
            Confirm::Holds => match if hang { None } else { confirm_history(id, tier, &f, &claims.lock().unwrap()[f.worker], plan, t0.elapsed().as_secs() * 4 + 60) } {
                // alone it holds: what ran before it in the same process matters
                Some((h, x)) => { hist = h; format!("after other cases in the same process: {x}") }
                None => { slow += hang as usize; errors.push(format!("{} case {}: '{}' (hang: {hang}) is not reproducible", plan.phases[f.phase].name, f.idx, f.what)); continue }
            },
        };
        let sig = format!("{}:{}", plan.phases[f.phase].name, (plan.phases[f.phase].describe)(f.idx));
        if known.iter().any(|k| *k == sig) { known_hits.push(format!("{sig}: {what}")); continue }
        confirmed.push(Finding { what, hist, ..f });
    }
    // ---- report
    for k in &known_hits { println!("KNOWN-FINDING: property={id} {}", k.replace('\n', " ")); }
    let mut replay = String::new();
    for (i, f) in confirmed.iter().enumerate().take(3) {
        let ph = &plan.phases[f.phase];
        let dir = format!("{verif}/replays");
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{dir}/{id}-{i}.json");
        let _ = std::fs::write(&path, format!("{{\n \"property\": {},\n \"tier\": {},\n \"phase\": {},\n \"index\": {},\n \"case\": {},\n \"what\": {},\n \"phase_number\": {}, \"history\": {},\n \"replay\": {}\n}}\n",
            jstr(id), jstr(tier.name()), jstr(&ph.name), f.idx, jstr(&(ph.describe)(f.idx)), jstr(&f.what), f.phase, jstr(&f.hist),
            jstr(&format!("cd /verif && ./check.sh replay {path}"))));
        println!("{} [{}] case {}: {}", id, ph.name, f.idx, (ph.describe)(f.idx));
        println!("    {}", f.what);
        println!("VIOLATION property={id} replay={path}");
        if replay.is_empty() { replay = path }
    }
    let complete = confirmed.is_empty() && errors.is_empty() && (0..n).all(|i| cases[i] == plan.phases[i].total);
    let exhaustive = complete && cut.iter().all(|c| *c == 0);
    if confirmed.is_empty() && errors.is_empty() && !complete {
        errors.push(format!("not every case was run: {:?}", (0..n).map(|i| (cases[i], plan.phases[i].total)).collect::<Vec<_>>()));
    }
    for e in &errors { eprintln!("engine error: {e}"); }
    let wall = t0.elapsed().as_secs_f64();
    let mut ev = String::new();
    let _ = write!(ev, "{{\n \"property\": {}, \"tier\": {}, \"seed\": {seed}, \"level\": \"model_checking\",\n \"coverage\": {{\n", jstr(id), jstr(tier.name()));
    let _ = write!(ev, "  \"states\": {}, \"transitions\": {}, \"traces_validated_against_impl\": {}, \"exhaustive\": {exhaustive},\n",
        states.iter().sum::<u64>(), trans.iter().sum::<u64>(), execs.iter().sum::<u64>());
    let _ = write!(ev, "  \"states_rule\": \"distinct states reached, counted with a shared {bits}-bit hash table (a lower bound)\",\n  \"phases\": [\n");
    for (i, p) in plan.phases.iter().enumerate() {
        let _ = write!(ev, "   {{\"name\": {}, \"bounds\": {}, \"cases_total\": {}, \"cases_run\": {}, \"states\": {}, \"transitions\": {}, \"executions_compared\": {}, \"vacuous_cases\": {}, \"cases_cut_short\": {}, \"distinct_outcomes\": {}}}{}\n",
            jstr(&p.name), jstr(&p.bounds), p.total, cases[i], states[i], trans[i], execs[i], trivial[i], cut[i], outc[i].len(), if i + 1 < n { "," } else { "" });
    }
    let mut sm: Vec<String> = vec![];
    for (pi, v) in &samples { for s in v.iter().take(2) { sm.push(jstr(&format!("[{}] {}", plan.phases[*pi].name, s))); } }
    if sm.is_empty() { for p in &plan.phases { if p.total > 0 { sm.push(jstr(&format!("[{}] {}", p.name, (p.describe)(p.total / 2)))) } } }
    let _ = write!(ev, "  ],\n  \"samples\": [\n   {}\n  ]\n }},\n", sm.join(",\n   "));
    let _ = write!(ev, " \"assumptions\": [{}],\n", plan.assumptions.iter().map(|a| jstr(a)).collect::<Vec<_>>().join(", "));
    let _ = write!(ev, " \"violations\": {}, \"wall_s\": {wall:.2}\n}}\n", confirmed.len());
    let _ = std::fs::create_dir_all(format!("{verif}/evidence"));
    if let Err(e) = std::fs::write(format!("{verif}/evidence/{id}.json"), ev) { eprintln!("engine: evidence: {e}"); return 2 }
    println!("{id} {}: {} cases, {} states, {} transitions, {} executions compared, {} workers, {wall:.1} s{}", tier.name(),
        cases.iter().sum::<u64>(), states.iter().sum::<u64>(), trans.iter().sum::<u64>(), execs.iter().sum::<u64>(), nw, if exhaustive { ", exhaustive within bounds" } else { "" });
    for (i, p) in plan.phases.iter().enumerate() {
        println!("  {:<28} {:>11} cases {:>12} states {:>12} transitions {:>6} outcomes {:>9} vacuous {:>6.1} s{}", p.name, cases[i], states[i], trans[i], outc[i].len(), trivial[i], ms[i] as f64 / 1000.0, if cut[i] > 0 { format!(", {} cut short", cut[i]) } else { String::new() });
    }
    if !confirmed.is_empty() { 1 } else if slow > 0 && slow == errors.len() { SLOW } else if !errors.is_empty() { 2 } else { 0 }
}

/// Findings that are recorded instead of repaired: lines "known: property=<id> case=<phase:description>".
fn load_known(verif: &str, id: &str) -> Vec<String> {
    let pre = format!("known: property={id} case=");
    std::fs::read_to_string(format!("{verif}/known_findings.txt")).unwrap_or_default()
        .lines().filter_map(|l| l.strip_prefix(&pre)).map(|s| s.to_string()).collect()
}
