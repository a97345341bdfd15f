//! C17, C18: opening files.
use crate::engine::*;
use crate::proc::{self, *};
use rapiddlt::dltbuffer::DltBuffer;
use std::os::fd::AsRawFd;
use std::rc::Rc;

fn content(n: usize, kind: usize) -> Vec<u8> {
    match kind {
        0 => (0..n).map(|i| (mix(i as u64 / 8) >> (i % 8 * 8)) as u8).collect(),
        1 => vec![0; n],
        2 => vec![b'\n'; n],
        _ => (0..n).map(|i| (i % 251) as u8).collect(),
    }
}
/// a scratch directory that is removed when the check's process is done with it
struct Scratch(std::path::PathBuf);
impl Scratch {
    fn new() -> Self {
        let base = std::env::var("CARGO_TARGET_DIR").unwrap_or_else(|_| "/verif/target".into());
        let d = std::path::PathBuf::from(format!("{base}/scratch-{}-{:?}", std::process::id(), std::thread::current().id()).replace(['(', ')'], ""));
        std::fs::create_dir_all(&d).unwrap();
        Scratch(d)
    }
}
impl Drop for Scratch { fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); } }
fn open(mmap: bool, p: &str) -> Result<DltBuffer, std::io::Error> { if mmap { DltBuffer::mmap_file(p) } else { DltBuffer::read_file(p) } }

/// restores the limit of descriptors
struct Descriptors(libc::rlimit);
impl Descriptors {
    fn at_most(n: u64) -> Self {
        unsafe {
            let mut old: libc::rlimit = std::mem::zeroed();
            libc::getrlimit(libc::RLIMIT_NOFILE, &mut old);
            libc::setrlimit(libc::RLIMIT_NOFILE, &libc::rlimit { rlim_cur: n, rlim_max: old.rlim_max });
            Descriptors(old)
        }
    }
}
impl Drop for Descriptors { fn drop(&mut self) { unsafe { libc::setrlimit(libc::RLIMIT_NOFILE, &self.0); } } }
/// anonymous memory of this process in bytes
fn resident() -> u64 {
    let s = std::fs::read_to_string("/proc/self/status").unwrap_or_default();
    s.lines().find_map(|l| l.strip_prefix("RssAnon:")?.trim().strip_suffix("kB")?.trim().parse::<u64>().ok()).unwrap_or(0) << 10
}
/// restores the working directory
struct Cwd(std::path::PathBuf);
impl Drop for Cwd { fn drop(&mut self) { let _ = std::env::set_current_dir(&self.0); } }

/// everything that happens to a name between openings: what a buffer holds is what the file holds then
fn histories(t: Tier) -> Phase {
    const OPS: [&str; 12] = ["write A", "write B", "write long", "replace by A", "replace by B", "delete", "link to other", "change directory", "mmap f", "read f", "mmap /f", "read /f"];
    let depth = t.pick(4, 5);
    let total: u64 = (0..=depth).map(|d| 12u64.pow(d)).sum();
    let ops = move |mut i: u64| {
        for d in 0..=depth {
            let n = 12u64.pow(d);
            if i < n { return (0..d).map(|k| (i / 12u64.pow(k) % 12) as usize).collect::<Vec<_>>() }
            i -= n;
        }
        unreachable!()
    };
    Phase {
        name: "histories".into(),
        bounds: format!("all sequences of at most {depth} of {OPS:?}, and all four ways of opening at the end; every file always has the same modification time; buffers stay open and are looked at again in the end (mapped ones unless the file was written to meanwhile)"),
        total, chunk: 64, cpu_limit: 20,
        run: Box::new(move |i, ctx| {
            let d = Scratch::new();
            let _back = Cwd(std::env::current_dir().unwrap());
            let text: [&[u8]; 5] = [b"contents A", b"contents B", b"contents that are longer", b"contents O", b"contents D"];
            let dirs = [d.0.join("p"), d.0.join("q")];
            let old = std::time::SystemTime::UNIX_EPOCH + std::time::Duration::from_secs(1_000_000_000);
            let put = |p: &std::path::Path, c: &[u8]| { std::fs::write(p, c).unwrap(); std::fs::File::options().write(true).open(p).unwrap().set_modified(old).unwrap(); };
            for x in &dirs { std::fs::create_dir(x).unwrap() }
            put(&d.0.join("other"), text[3]);
            put(&dirs[0].join("f"), text[0]);
            put(&dirs[1].join("f"), text[4]);
            std::env::set_current_dir(&dirs[0]).unwrap();
            let (mut now, mut cwd) = ([Some(0usize), Some(4)], 0);
            let mut linked = [false; 2];
            // buffer, contents, directory of the file if its file may be written to later
            let mut kept: Vec<(DltBuffer, usize, Option<usize>)> = vec![];
            let mut seq = ops(i);
            seq.extend([8, 9, 10, 11]);
            let mut h = 0;
            for op in seq {
                h = mix(h ^ op as u64 + 1);
                ctx.state(h ^ 0x4444);
                let f = dirs[cwd].join("f");
                match op {
                    0..=2 => {
                        // a link is followed: leave the other file alone
                        if linked[cwd] { std::fs::remove_file(&f).unwrap(); linked[cwd] = false }
                        put(&f, text[op]);
                        now[cwd] = Some(op);
                        kept.retain(|k| k.2 != Some(cwd));
                    }
                    3 | 4 => {
                        let tmp = d.0.join("tmp");
                        put(&tmp, text[op - 3]);
                        std::fs::rename(&tmp, &f).unwrap();
                        (now[cwd], linked[cwd]) = (Some(op - 3), false);
                        for k in &mut kept { if k.2 == Some(cwd) { k.2 = None } }
                    }
                    5 => {
                        let _ = std::fs::remove_file(&f);
                        (now[cwd], linked[cwd]) = (None, false);
                        for k in &mut kept { if k.2 == Some(cwd) { k.2 = None } }
                    }
                    6 => {
                        let _ = std::fs::remove_file(&f);
                        std::os::unix::fs::symlink("../other", &f).unwrap();
                        (now[cwd], linked[cwd]) = (Some(3), true);
                        for k in &mut kept { if k.2 == Some(cwd) { k.2 = None } }
                    }
                    7 => { cwd = 1 - cwd; std::env::set_current_dir(&dirs[cwd]).unwrap() }
                    _ => {
                        let m = op % 2 == 0;
                        let (name, dir) = if op < 10 { ("f".to_string(), cwd) } else { (dirs[0].join("f").to_str().unwrap().to_string(), 0) };
                        ctx.trans(1);
                        ctx.outcome(now[dir].map_or(9, |x| x as u64));
                        match (open(m, &name), now[dir]) {
                            (Ok(b), Some(k)) => {
                                if b.as_slice() != text[k] || b.len() != text[k].len() { return Err(format!("{}: {:?} instead of {:?}", OPS[op], String::from_utf8_lossy(b.as_slice()), String::from_utf8_lossy(text[k]))) }
                                kept.push((b, k, if m { Some(dir) } else { None }));
                            }
                            (Err(_), None) => {}
                            (Ok(b), None) => return Err(format!("{}: {:?} although there is no file", OPS[op], String::from_utf8_lossy(b.as_slice()))),
                            (Err(e), Some(_)) => return Err(format!("{}: {e}", OPS[op])),
                        }
                    }
                }
            }
            ctx.exec();
            for (b, k, _) in &kept { if b.as_slice() != text[*k] { return Err(format!("a buffer that was opened as {:?} now holds {:?}", String::from_utf8_lossy(text[*k]), String::from_utf8_lossy(b.as_slice()))) } }
            Ok(())
        }),
        describe: Box::new(move |i| ops(i).iter().map(|&o| OPS[o]).collect::<Vec<_>>().join(", ")),
    }
}

/// lengths and positions that do not fit 31 or 32 bits, and more than one read call can give
fn large(t: Tier) -> Phase {
    let sizes: Vec<u64> = t.pick(vec![0x7fff_f000, 0x7fff_f001, 1 << 31, (1 << 32) + 1], [1u64 << 30, 0x7fff_f000, 1 << 31, (1 << 31) + 0x7fff_f000, 0xffff_e000, 1 << 32].into_iter().flat_map(|x| [x - 1, x, x + 1]).collect());
    let n = sizes.len() as u64;
    let s2 = sizes.clone();
    Phase {
        name: "large files".into(), bounds: format!("files of {sizes:?} bytes that are zero but for 8 bytes at each multiple of 16 MiB, around 2 GiB and 4 GiB and at the end, both access methods"),
        total: n * 2, chunk: n * 2, cpu_limit: 300,
        run: Box::new(move |i, ctx| {
            use std::os::unix::fs::FileExt;
            let (size, m) = (sizes[(i / 2) as usize], i % 2 == 0);
            let d = Scratch::new();
            let p = d.0.join("f.dlt");
            let f = std::fs::File::create(&p).unwrap();
            f.set_len(size).unwrap();
            let mut at: Vec<u64> = (0..size / (1 << 24) + 1).map(|k| k << 24).collect();
            for x in [0x7fff_effc, 0x7fff_f000, (1 << 31) - 4, (1 << 31) + 4, 0xffff_dffc, 0xffff_e000, (1 << 32) - 4, size - 8] { at.push(x) }
            at.retain(|x| x + 8 <= size);
            at.sort(); at.dedup();
            // in rising order: where two overlap the later one counts
            for x in &at { f.write_all_at(&mix(*x).to_le_bytes(), *x).unwrap() }
            let b = open(m, p.to_str().unwrap()).map_err(|e| e.to_string())?;
            ctx.state(mix(i) ^ 0x818); ctx.trans(at.len() as u64); ctx.exec(); ctx.outcome(i);
            let s = b.as_slice();
            if b.len() as u64 != size || s.len() as u64 != size { return Err(format!("len() {}, slice of {}", b.len(), s.len())) }
            let mut w = [0u8; 24];
            for x in &at {
                let from = x.saturating_sub(8);
                let len = (size - from).min(24) as usize;
                f_read(&p, from, &mut w[..len]);
                if s[from as usize..from as usize + len] != w[..len] { return Err(format!("other bytes than those in the file at {from}")) }
            }
            Ok(())
        }),
        describe: Box::new(move |i| format!("{} bytes, {}", s2[(i / 2) as usize], ["mmap", "read"][(i % 2) as usize])),
    }
}
fn f_read(p: &std::path::Path, at: u64, to: &mut [u8]) {
    use std::os::unix::fs::FileExt;
    std::fs::File::open(p).unwrap().read_exact_at(to, at).unwrap()
}

const PIPED: [usize; 16] = [0, 1, 4, 20, 100, 4095, 4096, 4097, 8191, 8192, 8193, 65536, 65537, 200_000, 1_048_576, 3_000_000];

pub fn c17(t: Tier) -> Plan {
    let mut sizes: Vec<usize> = (0..=t.pick(300, 5000)).collect();
    for k in [4096usize, 8192, 12288, 16384, 32768, 65536, 131072, 1 << 20] { for d in [-33i64, -32, -31, -2, -1, 0, 1, 2, 31, 32, 33] { sizes.push((k as i64 + d) as usize) } }
    sizes.extend([100_000, 3_000_000]);
    if t == Tier::Thorough { sizes.extend([(1 << 24) - 1, 1 << 24, (1 << 24) + 1, 1 << 27]) }
    sizes.sort(); sizes.dedup();
    let n = sizes.len() as u64;
    let sz = Rc::new(sizes);
    let s2 = sz.clone();
    const NOFILE: [&str; 8] = ["missing", "missing/deeper", "dir", "dir/", "file/inside", "", "dangling", "loop"];
    Plan {
        phases: vec![
            Phase {
                name: "contents".into(), bounds: format!("{n} file sizes (every size up to {}, and around every power of two from 4096 to 1 MiB) x 4 contents x both access methods: length and bytes; again after the file grew and shrank", t.pick(300, 5000)),
                total: n * 4, chunk: 8, cpu_limit: 20,
                run: Box::new(move |i, ctx| {
                    let d = Scratch::new();
                    let p = d.0.join("f.dlt");
                    let p = p.to_str().unwrap();
                    let c = content(sz[(i / 4) as usize], (i % 4) as usize);
                    // rewriting the file must not matter to the next opening
                    let grown: Vec<u8> = c.iter().copied().chain([1, 2, 3]).collect();
                    for (step, c) in [&c[..], &grown[..], &c[..c.len() / 2]].into_iter().enumerate() {
                        std::fs::write(p, c).unwrap();
                        ctx.state(mix(i) ^ step as u64);
                        ctx.outcome(c.len() as u64);
                        for m in [true, false] {
                            let b = open(m, p).map_err(|e| format!("{}: {e}", if m { "mmap" } else { "read" }))?;
                            ctx.trans(1); ctx.exec();
                            if b.len() != c.len() || b.as_slice().len() != c.len() { return Err(format!("{}: len() {}, slice of {}, file of {}", if m { "mmap" } else { "read" }, b.len(), b.as_slice().len(), c.len())) }
                            if b.as_slice() != c { return Err(format!("{}: contents of a file of {} bytes differ", if m { "mmap" } else { "read" }, c.len())) }
                            if m == matches!(b, DltBuffer::Mmap(_)) { ctx.outcome(1 << 40) }
                        }
                    }
                    Ok(())
                }),
                describe: Box::new(move |i| format!("file of {} bytes, contents {}", s2[(i / 4) as usize], i % 4)),
            },
            Phase {
                name: "several buffers".into(), bounds: "all 6 sizes^3 triples of buffers open at the same time, each access method for each, checked after all are open and after dropping each in turn".into(),
                total: 6 * 6 * 6 * 8, chunk: 8, cpu_limit: 20,
                run: Box::new(move |i, ctx| {
                    let d = Scratch::new();
                    const S: [usize; 6] = [0, 1, 20, 4096, 8193, 70_000];
                    let mut files = vec![];
                    for j in 0..3u32 {
                        let p = d.0.join(format!("f{j}"));
                        let c = content(S[(i / 6u64.pow(j) % 6) as usize], 3 * (j as usize % 2));
                        std::fs::write(&p, &c).unwrap();
                        files.push((p.to_str().unwrap().to_string(), c, i / 216 >> j & 1 == 1));
                    }
                    ctx.state(mix(i) ^ 5);
                    let mut open: Vec<(DltBuffer, &Vec<u8>)> = vec![];
                    for (p, c, m) in &files { open.push((self::open(*m, p).map_err(|e| e.to_string())?, c)) }
                    while !open.is_empty() {
                        for (b, c) in &open { ctx.trans(1); ctx.exec(); if b.as_slice() != &c[..] { return Err("contents differ".into()) } }
                        open.remove(i as usize % open.len());
                    }
                    Ok(())
                }),
                describe: Box::new(|i| format!("sizes {} {} {}, mapped: {:03b}", i % 6, i / 6 % 6, i / 36 % 6, i / 216)),
            },
            Phase {
                name: "errors".into(), bounds: format!("{NOFILE:?} x both access methods: an error each, no buffer"), total: 16, chunk: 1, cpu_limit: 20,
                run: Box::new(|i, ctx| {
                    let d = Scratch::new();
                    std::fs::create_dir(d.0.join("dir")).unwrap();
                    std::fs::write(d.0.join("file"), b"x").unwrap();
                    let _ = std::os::unix::fs::symlink("nothing", d.0.join("dangling"));
                    let _ = std::os::unix::fs::symlink("loop", d.0.join("loop"));
                    let n = NOFILE[(i / 2) as usize];
                    let p = if n.is_empty() { String::new() } else { format!("{}/{n}", d.0.display()) };
                    ctx.state(i ^ 0x9999); ctx.trans(1); ctx.exec(); ctx.outcome(i);
                    match open(i % 2 == 0, &p) { Err(_) => Ok(()), Ok(b) => Err(format!("opens as a buffer of {} bytes", b.len())) }
                }),
                describe: Box::new(|i| format!("{} {:?}", ["mmap", "read"][(i % 2) as usize], NOFILE[(i / 2) as usize])),
            },
            Phase {
                name: "programs".into(), bounds: "34 sizes x both access methods in a separate program, and errors of the programs themselves".into(), total: 68, chunk: 1, cpu_limit: 20,
                run: Box::new(|i, ctx| {
                    let n = (i / 2) as usize;
                    let n = if n < 20 { n } else { [4095, 4096, 4097, 8191, 8192, 8193, 8224, 16384, 16385, 65535, 65536, 65537, 100_000, 262_144][n - 20] };
                    let c = content(n, 0);
                    proc::with("openfile", |s| {
                        s.file(&c);
                        let d = s.run(&Run::new(&["openfile", ["mmap", "read"][(i % 2) as usize], FILE]));
                        ctx.state(i ^ 0x7777); ctx.trans(1); ctx.exec(); ctx.outcome(n as u64);
                        if !d.ok() { return Err(d.how()) }
                        if d.out.len() != n + 8 || d.out[..8] != (n as u64).to_le_bytes() || d.out[8..] != c[..] { return Err(format!("{} bytes come out as {}", n, d.out.len().saturating_sub(8))) }
                        Ok(())
                    })
                }),
                describe: Box::new(|i| format!("case {i}")),
            },
            Phase {
                name: "pipes".into(), bounds: format!("the reading end of a pipe, opened under its name while a thread writes into it: {} lengths up to 3,000,000 x 4 contents x pieces of 1 (up to 5000), 1000, 65536 and all bytes x both access methods; and 3 files of /proc: such files do not tell their length", PIPED.len()),
                total: PIPED.len() as u64 * 4 * 4 * 2 + 3 * 2, chunk: 4, cpu_limit: 30,
                run: Box::new(|i, ctx| {
                    let m = i % 2 == 0;
                    ctx.state(mix(i) ^ 0x2b2b); ctx.trans(1); ctx.exec();
                    let k = i as usize / 2;
                    if k >= PIPED.len() * 16 {
                        let p = ["/proc/version", "/proc/filesystems", "/proc/self/cmdline"][k - PIPED.len() * 16];
                        let want = std::fs::read(p).map_err(|e| format!("{p}: {e}"))?;
                        let b = open(m, p).map_err(|e| e.to_string())?;
                        ctx.outcome(b.len() as u64);
                        return if b.as_slice() == want && b.len() == want.len() { Ok(()) } else { Err(format!("{p}: {} bytes instead of {}", b.as_slice().len(), want.len())) };
                    }
                    let (n, c, piece) = (PIPED[k / 16], k / 4 % 4, [1usize, 1000, 65536, usize::MAX][k % 4]);
                    if piece == 1 && n > 5000 { ctx.trivial += 1; return Ok(()) }
                    let want = content(n, c);
                    ctx.outcome(n as u64);
                    let (r, mut w) = std::io::pipe().unwrap();
                    let b = std::thread::scope(|s| {
                        let want = &want;
                        s.spawn(move || { use std::io::Write; for p in want.chunks(piece) { if w.write_all(p).is_err() { break } } });
                        let p = format!("/proc/self/fd/{}", r.as_raw_fd());
                        let b = open(m, &p).map_err(|e| e.to_string());
                        drop(r); // lets the writer end whatever was read
                        b
                    })?;
                    if b.as_slice() != want || b.len() != n { return Err(format!("{} bytes were read instead of {n}{}", b.as_slice().len(), if b.len() == n { ", and others" } else { "" })) }
                    Ok(())
                }),
                describe: Box::new(|i| { let k = i as usize / 2; format!("{}: {}", ["mmap", "read"][i as usize % 2], if k < PIPED.len() * 16 { format!("{} bytes, contents {}, pieces number {}", PIPED[k / 16], k / 4 % 4, k % 4) } else { format!("file of /proc number {}", k - PIPED.len() * 16) }) }),
            },
            histories(t),
            large(t),
            Phase {
                name: "many openings".into(), bounds: "2 files x both access methods, opened and dropped 3000 (read) or 70,000 (mapped) times with at most 64 open descriptors: contents and memory in use".into(), total: 4, chunk: 1, cpu_limit: 60,
                run: Box::new(|i, ctx| {
                    let d = Scratch::new();
                    let c = content([5000, 300_000][(i / 2) as usize], 0);
                    let p = d.0.join("f");
                    std::fs::write(&p, &c).unwrap();
                    let _few = Descriptors::at_most(64);
                    let m = i % 2 == 0;
                    ctx.state(mix(i) ^ 0x1234);
                    ctx.outcome(i);
                    let mut used = 0;
                    let n = if m { 70_000 } else { 3000 };
                    for k in 0..n {
                        let b = open(m, p.to_str().unwrap()).map_err(|e| format!("opening for the {k}th time: {e}"))?;
                        ctx.trans(1);
                        if b.len() != c.len() || k % 500 == 0 && b.as_slice() != &c[..] { return Err(format!("contents differ when opened for the {k}th time")) }
                        drop(b);
                        if k == 100 { used = resident() }
                    }
                    ctx.exec();
                    // 3000 leaked copies of the larger file are 900 MB, of the smaller one 15 MB
                    let now = resident();
                    if now > used + (12 << 20) { return Err(format!("{} kB more in use after {n} openings", (now - used) >> 10)) }
                    Ok(())
                }),
                describe: Box::new(|i| format!("{} {} bytes", ["mmap", "read"][(i % 2) as usize], [5000, 300_000][(i / 2) as usize])),
            },
        ],
        assumptions: vec!["files do not change in place while they are mapped; other sizes and contents behave like the explored ones".into()],
    }
}

/// All plans that deviate from plain calls at no more than `depth` calls, found by running: a deviation is
/// tried at every call that the execution before it reached. `f` runs one plan and tells how many calls it made.
pub fn explore(acts: &[Act], depth: u32, first: Option<Act>, mut f: impl FnMut(&IoPlan) -> Result<u32, String>) -> Result<(), String> {
    let mut todo: Vec<(Vec<(u32, Act)>, u32)> = vec![(vec![], depth)];
    while let Some((at, left)) = todo.pop() {
        let n = f(&IoPlan { mode: Mode::None, at: at.clone() })?;
        if left == 0 { continue }
        let from = at.last().map_or(0, |x| x.0 + 1);
        for k in (from..n.min(60 * 1024)).rev() {
            for &a in acts {
                if at.is_empty() && first.is_some_and(|x| x != a) { continue }
                let mut b = at.clone();
                b.push((k, a));
                todo.push((b, left - 1));
            }
        }
    }
    Ok(())
}

pub fn fatal(a: Act) -> bool { matches!(a, Act::Eio | Act::Enospc | Act::Epipe | Act::Errno(_) | Act::Zero) }

pub fn c18(t: Tier) -> Plan {
    let mut sizes = vec![0usize, 1, 2, 3, 7, 16, 20, 31, 32, 33, 64, 100, 255, 1000, 4095, 4096, 4097, 8159, 8160, 8191, 8192, 8193, 8223, 8224, 8225, 12288, 16383, 16384, 16385, 20_000, 24_576, 32_768, 40_000, 65_536, 65_537, 100_000];
    if t == Tier::Thorough { sizes.extend([50, 500, 2048, 5000, 10_000, 30_000, 131_072, 200_000, 262_145, 1_000_000]) }
    let n = sizes.len() as u64;
    const ACTS: [Act; 5] = [Act::One, Act::Half, Act::AllBut1, Act::Eintr, Act::Eio];
    const MODES: [Mode; 4] = [Mode::One, Mode::EintrOne, Mode::Seven, Mode::EintrTwice];
    let depth = t.pick(3, 4);
    let sz = Rc::new(sizes);
    let (s2, s3, s4) = (sz.clone(), sz.clone(), sz.clone());
    fn check(d: &Done, c: &[u8], failing: Option<u32>) -> Result<(), String> {
        if let Some(k) = failing {
            // the failing call was reached
            if d.code() != Some(3) { return Err(format!("read call {k} fails, but opening {}", if d.ok() { format!("succeeds with {} of {} bytes", d.out.len() as i64 - 8, c.len()) } else { d.how() })) }
            return Ok(());
        }
        if !d.ok() { return Err(format!("opening {}", d.how())) }
        if d.out.len() != c.len() + 8 || d.out[..8] != (c.len() as u64).to_le_bytes() || d.out[8..] != *c { return Err(format!("{} bytes instead of the file's {}{}", d.out.len() as i64 - 8, c.len(), if d.out.len() == c.len() + 8 { ", of other contents" } else { "" })) }
        Ok(())
    }
    Plan {
        phases: vec![
            Phase {
                name: "outcomes".into(), bounds: format!("{n} file sizes x all outcomes of the read calls that deviate from plain ones at no more than {depth} calls ({ACTS:?} at any call reached): complete contents, or an error if a call failed"),
                total: n * 5, chunk: 1, cpu_limit: 60,
                run: Box::new(move |i, ctx| {
                    let c = content(sz[(i / 5) as usize], 0);
                    proc::with("openfile", |s| {
                        s.file(&c);
                        explore(&ACTS, depth, Some(ACTS[(i % 5) as usize]), |plan| {
                            let mut r = Run::new(&["openfile", "read", FILE]);
                            r.reads = plan.clone();
                            let d = s.run(&r);
                            ctx.alive();
                            ctx.exec(); ctx.trans(d.reads as u64);
                            let mut h = i;
                            for a in &plan.at { h = mix(h ^ (a.0 as u64) << 8 ^ a.1.code() as u64); }
                            ctx.state(h);
                            ctx.outcome(d.status as u64 | (d.reads as u64) << 32);
                            let failing = plan.at.iter().find(|a| fatal(a.1) && a.0 < d.reads).map(|a| a.0);
                            check(&d, &c, failing).map_err(|e| format!("read outcomes {:?}: {e}", plan.at))?;
                            // an execution that has failed has no later calls worth deviating at
                            Ok(if failing.is_some() { 0 } else { d.reads })
                        })
                    })
                }),
                describe: Box::new(move |i| format!("file of {} bytes, first deviation {:?}", s2[(i / 5) as usize], ACTS[(i % 5) as usize])),
            },
            Phase {
                name: "persistent".into(), bounds: format!("{n} file sizes up to 100000 x every call one byte, seven bytes, interrupted before every byte, or interrupted twice; alone and with one failing call at every position up to 400 and at the last ones"),
                total: n * 4, chunk: 1, cpu_limit: 120,
                run: Box::new(move |i, ctx| {
                    let size = s3[(i / 4) as usize];
                    let m = MODES[(i % 4) as usize];
                    let size = if m != Mode::EintrTwice { size.min(20_000) } else { size };
                    let c = content(size, 3);
                    proc::with("openfile", |s| {
                        s.file(&c);
                        let mut r = Run::new(&["openfile", "read", FILE]);
                        r.reads.mode = m;
                        let d = s.run(&r);
                        ctx.exec(); ctx.trans(d.reads as u64); ctx.state(mix(i) ^ 0x55);
                        check(&d, &c, None)?;
                        let n = d.reads;
                        let fails: Vec<u32> = (0..n).filter(|k| *k < t.pick(60, 400) || *k + 4 >= n).collect();
                        for k in fails {
                            r.reads.at = vec![(k, Act::Eio)];
                            let d = s.run(&r);
                            ctx.alive(); ctx.exec(); ctx.trans(d.reads as u64); ctx.state(mix(i) ^ 0x56 ^ (k as u64) << 8);
                            if d.reads <= k { return Err(format!("call {k} is not reached any more")) }
                            check(&d, &c, Some(k)).map_err(|e| format!("call {k} fails: {e}"))?;
                        }
                        Ok(())
                    })
                }),
                describe: Box::new(move |i| format!("file of {} bytes, every call {:?}", s4[(i / 4) as usize], MODES[(i % 4) as usize])),
            },
            Phase {
                name: "ripdlt".into(), bounds: "a DLT file of 60 messages and one of 12000 bytes read by ripdlt (count, histogram_message_size) x all outcomes of the read calls with at most 2 deviations: the same report, or no success if a call failed".into(),
                total: 2 * 2 * 5, chunk: 1, cpu_limit: 60,
                run: Box::new(move |i, ctx| {
                    let mut b = vec![];
                    for k in 0..if i % 2 == 0 { 60u16 } else { 300 } { b.extend(crate::streams::msg(4 + k % 40, b'x')); }
                    let cmd = ["count", "histogram_message_size"][(i / 2 % 2) as usize];
                    proc::with("ripdlt", |s| {
                        s.file(&b);
                        let plain = s.run(&Run::new(&["ripdlt", "read", cmd, FILE]));
                        if !plain.ok() { return Err(plain.how()) }
                        explore(&ACTS, 2, Some(ACTS[(i / 4) as usize]), |plan| {
                            let mut r = Run::new(&["ripdlt", "read", cmd, FILE]);
                            r.reads = plan.clone();
                            let d = s.run(&r);
                            ctx.alive(); ctx.exec(); ctx.trans(d.reads as u64);
                            ctx.state(hash_bytes(format!("{i} {plan:?}").as_bytes()));
                            let failing = plan.at.iter().any(|a| fatal(a.1) && a.0 < d.reads);
                            if failing { if d.ok() { return Err(format!("read outcomes {:?}: reports success", plan.at)) } return Ok(0) }
                            if !d.ok() || d.out != plain.out { return Err(format!("read outcomes {:?}: {}, {:?} instead of {:?}", plan.at, d.how(), String::from_utf8_lossy(&d.out), String::from_utf8_lossy(&plain.out))) }
                            Ok(d.reads)
                        })
                    })
                }),
                describe: Box::new(|i| format!("file {}, {}, first deviation {:?}", i % 2, ["count", "histogram_message_size"][(i / 2 % 2) as usize], ACTS[(i / 4) as usize])),
            },
            Phase {
                name: "every error number".into(), bounds: "files of 0, 1, 100, 8192, 20000 and 100000 bytes x every read call x every error number 1..133 but the interruption: an error".into(),
                total: 6 * 133, chunk: 8, cpu_limit: 60,
                run: Box::new(move |i, ctx| {
                    let c = content([0, 1, 100, 8192, 20_000, 100_000][(i % 6) as usize], 2);
                    let Some(&act) = proc::errnos(false).get((i / 6) as usize) else { return Ok(()) };
                    proc::with("openfile", |s| {
                        s.file(&c);
                        let mut r = Run::new(&["openfile", "read", FILE]);
                        let n = s.run(&r).reads;
                        for k in 0..n {
                            r.reads.at = vec![(k, act)];
                            let d = s.run(&r);
                            ctx.alive(); ctx.exec(); ctx.trans(d.reads as u64); ctx.state(mix(i) ^ 0x57 ^ (k as u64) << 8);
                            ctx.outcome(d.status as u64 | i << 32);
                            check(&d, &c, Some(k)).map_err(|e| format!("call {k} fails with {act:?}: {e}"))?;
                        }
                        Ok(())
                    })
                }),
                describe: Box::new(|i| format!("file of {} bytes, {:?}", [0, 1, 100, 8192, 20_000, 100_000][(i % 6) as usize], proc::errnos(false).get((i / 6) as usize))),
            },
        ],
        assumptions: vec!["a read call of zero bytes is the end of the file; a file larger than the explored ones is read in the same kinds of calls".into()],
    }
}
