//! Runs the built programs: one fork server per program and worker, with controlled files, streams,
//! outcomes of read and write calls, and number of processors.
use std::io::{Read, Write};
use std::os::fd::{AsRawFd, FromRawFd};
use std::os::unix::process::CommandExt;
use std::process::{Child, Command, Stdio};
use std::cell::RefCell;
use std::collections::HashMap;

/// outcome of one call; `Plain` is what the kernel does
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Act { One, Half, Eintr, Eio, Enospc, Epipe, Zero, AllBut1, Errno(u8) }
impl Act {
    /// as in faults.c
    pub fn code(self) -> u32 {
        match self { Act::One => 1, Act::Half => 2, Act::Eintr => 3, Act::Eio => 4, Act::Enospc => 5, Act::Epipe => 6, Act::Zero => 7, Act::AllBut1 => 9, Act::Errno(e) => 1000 + e as u32 }
    }
}
/// every error number of Linux, apart from the interruption, and where `stdio` apart from the closed stream
/// (which the standard library takes for an empty input and an output without interest)
pub fn errnos(stdio: bool) -> Vec<Act> { (1..=133).filter(|e| *e != 4 && !(stdio && *e == 9)).map(Act::Errno).collect() }
/// rule for every call that the plan does not mention
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
#[repr(u32)]
pub enum Mode { None = 0, One, EintrOne, Seven, EintrTwice }

#[derive(Clone, Debug)]
pub struct IoPlan { pub mode: Mode, pub at: Vec<(u32, Act)> }
impl IoPlan { pub fn none() -> Self { IoPlan { mode: Mode::None, at: vec![] } } }

#[derive(Clone, Debug)]
pub struct Run<'a> { pub args: Vec<Vec<u8>>, pub stdin: &'a [u8], pub procs: u32, pub reads: IoPlan, pub writes: IoPlan, pub cpu: u32,
    /// choices of the controlled scheduler; behind them it takes the first alternative
    pub plan: Vec<u8> }
impl<'a> Run<'a> {
    pub fn new(args: &[&str]) -> Self { Run { args: args.iter().map(|a| a.as_bytes().to_vec()).collect(), stdin: b"", procs: 0, reads: IoPlan::none(), writes: IoPlan::none(), cpu: 10, plan: vec![] } }
}
#[derive(Debug, Clone)]
pub struct Done { pub status: i32, pub out: Vec<u8>, pub err: String, pub reads: u32, pub writes: u32, pub timeout: bool, pub trace: Vec<Choice>, pub trace_full: bool }
/// a choice of the controlled scheduler: alternatives, what it is about, and what was chosen
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Choice { pub n: u8, pub kind: u8, pub chosen: u8 }
/// the kind of choices that interrupt a thread which could go on
pub const PREEMPT: u8 = 1;
impl Done {
    pub fn code(&self) -> Option<i32> { if libc::WIFEXITED(self.status) { Some(libc::WEXITSTATUS(self.status)) } else { None } }
    pub fn ok(&self) -> bool { self.code() == Some(0) && !self.timeout }
    /// how it ended, for messages
    pub fn how(&self) -> String {
        if self.timeout { return "does not end".into() }
        let e = self.err.lines().filter(|l| !l.starts_with("note:")).take(3).collect::<Vec<_>>().join(" | ");
        match self.code() {
            Some(c) => format!("exits with {c} ({e})"),
            None if libc::WTERMSIG(self.status) == libc::SIGXCPU => "does not end: uses up its CPU time".into(),
            None => format!("dies with signal {} ({e})", libc::WTERMSIG(self.status)),
        }
    }
}

const FILEFD: i32 = 203;
/// the path under which the program sees the explored file
pub const FILE: &str = "/proc/self/fd/203";

pub struct Server { child: Child, req: std::fs::File, resp: std::fs::File, out: i32, err: i32, inp: i32, file: i32, in_len: usize }
fn memfd() -> i32 {
    let fd = unsafe { libc::memfd_create(c"mc".as_ptr(), libc::MFD_CLOEXEC) };
    assert!(fd >= 0, "memfd");
    fd
}
fn fill(fd: i32, b: &[u8]) {
    unsafe {
        assert!(libc::ftruncate(fd, 0) == 0);
        let mut o = 0;
        while o < b.len() { let r = libc::pwrite(fd, b[o..].as_ptr() as _, b.len() - o, o as i64); assert!(r > 0); o += r as usize }
        libc::lseek(fd, 0, libc::SEEK_SET);
    }
}
fn slurp(fd: i32) -> Vec<u8> {
    let n = unsafe { libc::lseek(fd, 0, libc::SEEK_END) }.max(0) as usize;
    let mut v = vec![0; n];
    let mut o = 0;
    while o < n { let r = unsafe { libc::pread(fd, v[o..].as_mut_ptr() as _, n - o, o as i64) }; if r <= 0 { break } o += r as usize }
    v
}
impl Server {
    pub fn start(program: &str) -> Server {
        let dir = std::env::var("CARGO_TARGET_DIR").unwrap_or_else(|_| "/verif/target".into());
        let mut p = [[0i32; 2]; 2];
        for q in p.iter_mut() { assert!(unsafe { libc::pipe2(q.as_mut_ptr(), libc::O_CLOEXEC) } == 0) }
        let (out, err, inp, file) = (memfd(), memfd(), memfd(), memfd());
        let map = [(p[0][0], 198), (p[1][1], 199), (out, 200), (err, 201), (inp, 202), (file, FILEFD)];
        let mut c = Command::new(match program.strip_prefix("sched/") { Some(p) => format!("{dir}/sched/release/{p}"), None => format!("{dir}/release/{program}") });
        c.env_clear().env("LD_PRELOAD", if program.starts_with("sched/") { format!("{dir}/libfaults.so {dir}/libsched.so") } else { format!("{dir}/libfaults.so") }).env("MC_FORKSERVER", "1").env("RUST_BACKTRACE", "0")
            .stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null()).current_dir("/");
        unsafe {
            c.pre_exec(move || {
                for (a, b) in map { if libc::dup2(a, b) < 0 { return Err(std::io::Error::last_os_error()) } }
                Ok(())
            });
        }
        let child = c.spawn().unwrap_or_else(|e| panic!("{program}: {e}"));
        unsafe { libc::close(p[0][0]); libc::close(p[1][1]); }
        let (req, resp) = unsafe { (std::fs::File::from_raw_fd(p[0][1]), std::fs::File::from_raw_fd(p[1][0])) };
        Server { child, req, resp, out, err, inp, file, in_len: usize::MAX }
    }
    /// contents of the file that the program sees as `FILE`
    pub fn file(&mut self, b: &[u8]) { fill(self.file, b) }
    /// a file of `len` zero bytes with `parts` written into it
    pub fn sparse(&mut self, len: u64, parts: &[(u64, Vec<u8>)]) {
        unsafe { assert!(libc::ftruncate(self.file, 0) == 0 && libc::ftruncate(self.file, len as i64) == 0); }
        for (o, b) in parts { assert!(unsafe { libc::pwrite(self.file, b.as_ptr() as _, b.len(), *o as i64) } == b.len() as isize) }
    }
    pub fn run(&mut self, r: &Run) -> Done {
        for fd in [self.out, self.err] { unsafe { assert!(libc::ftruncate(fd, 0) == 0); libc::lseek(fd, 0, libc::SEEK_SET); } }
        if !(r.stdin.is_empty() && self.in_len == 0) { fill(self.inp, r.stdin); self.in_len = r.stdin.len() }
        let mut m: Vec<u8> = vec![];
        let mut u = |m: &mut Vec<u8>, x: u32| m.extend_from_slice(&x.to_le_bytes());
        u(&mut m, r.cpu);
        u(&mut m, r.procs);
        for p in [&r.reads, &r.writes] {
            u(&mut m, p.mode as u32);
            u(&mut m, p.at.len() as u32);
            for (k, a) in &p.at { u(&mut m, *k); u(&mut m, a.code()) }
        }
        u(&mut m, r.args.len() as u32);
        for a in &r.args { u(&mut m, a.len() as u32); m.extend_from_slice(a) }
        u(&mut m, r.plan.len() as u32);
        m.extend_from_slice(&r.plan);
        let mut q = (m.len() as u32).to_le_bytes().to_vec();
        q.append(&mut m);
        self.req.write_all(&q).expect("fork server");
        let mut pid = [0u8; 4];
        self.resp.read_exact(&mut pid).expect("fork server");
        let mut timeout = false;
        let mut pfd = libc::pollfd { fd: self.resp.as_raw_fd(), events: libc::POLLIN, revents: 0 };
        if unsafe { libc::poll(&mut pfd, 1, 60_000.max(r.cpu as i32 * 3000)) } == 0 {
            timeout = true;
            let p = i32::from_le_bytes(pid);
            if p > 1 { unsafe { libc::kill(p, libc::SIGKILL); } }
        }
        let mut a = [0u8; 20];
        self.resp.read_exact(&mut a).expect("fork server");
        let w = |i: usize| u32::from_le_bytes(a[i * 4..i * 4 + 4].try_into().unwrap());
        let mut t = vec![0u8; w(3) as usize * 4];
        self.resp.read_exact(&mut t).expect("fork server");
        let trace = t.chunks(4).map(|c| Choice { n: c[0], kind: c[1], chosen: c[2] }).collect();
        // the program may have moved the shared position of its input
        if !r.stdin.is_empty() { self.in_len = usize::MAX }
        Done { status: w(0) as i32, reads: w(1), writes: w(2), out: slurp(self.out), err: String::from_utf8_lossy(&slurp(self.err)).into_owned(), timeout, trace, trace_full: w(4) != 0 }
    }
}
impl Drop for Server {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
        for fd in [self.out, self.err, self.inp, self.file] { unsafe { libc::close(fd); } }
    }
}
thread_local! { static SERVERS: RefCell<HashMap<String, Server>> = RefCell::new(HashMap::new()); }
/// the fork server of this worker for `program`
pub fn with<R>(program: &str, f: impl FnOnce(&mut Server) -> R) -> R {
    SERVERS.with(|s| {
        let mut s = s.borrow_mut();
        if !s.contains_key(program) { s.insert(program.into(), Server::start(program)); }
        f(s.get_mut(program).unwrap())
    })
}
