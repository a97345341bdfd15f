//! Buffers of more than 4 GiB: positions and lengths that do not fit 32 bits.
use crate::engine::*;
use crate::streams::msg;

/// zero bytes that take no memory until they are written to
pub struct Huge { p: *mut u8, len: usize }
impl Huge {
    pub fn new(len: usize) -> Huge {
        let p = unsafe { libc::mmap(std::ptr::null_mut(), len, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0) };
        assert!(p != libc::MAP_FAILED, "no address space for a buffer of {len} bytes");
        Huge { p: p as *mut u8, len }
    }
    pub fn put(&mut self, at: usize, b: &[u8]) {
        assert!(at + b.len() <= self.len);
        unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), self.p.add(at), b.len()) }
    }
    pub fn bytes(&self) -> &[u8] { unsafe { std::slice::from_raw_parts(self.p, self.len) } }
}
impl Drop for Huge { fn drop(&mut self) { unsafe { libc::munmap(self.p as _, self.len); } } }

pub const G2: usize = 1 << 31;
pub const G4: usize = 1 << 32;
const SHIFTS: [i64; 12] = [-66, -46, -45, -30, -27, -26, -20, -16, -4, -1, 0, 1];

/// Case `i`: messages of 46 and 66 bytes around 2 GiB and 4 GiB, shifted so that the border lies in front
/// of, in each part of and behind them; (offset, bytes) of each.
pub fn layout(i: u64, len: usize) -> (usize, Vec<(usize, Vec<u8>)>) {
    let d = SHIFTS[(i % SHIFTS.len() as u64) as usize];
    let at = |g: usize| (g as i64 + d) as usize;
    let mut hello = msg(50, b'-');
    hello[30..41].copy_from_slice(b"Hello World");
    let m = msg(30, b'p');
    let v = vec![(1000, hello.clone()), (at(G2), m.clone()), (at(G2) + 46, hello.clone()), (at(G4), hello.clone()), (at(G4) + 66, m.clone()), (at(G4) + 112, hello), (G4 + 70_000, m)];
    (len, v)
}
pub fn build(i: u64, len: usize) -> (Huge, Vec<(usize, usize)>) {
    let (len, parts) = layout(i, len);
    let mut h = Huge::new(len);
    for (o, b) in &parts { h.put(*o, b) }
    (h, parts.iter().map(|(o, b)| (*o, b.len())).collect())
}
pub const LEN: usize = G4 + 150_000;
pub fn phase(t: Tier, len: usize, what: &str, run: Box<dyn Fn(&[u8], &[(usize, usize)], &mut Ctx) -> Result<(), String>>) -> Phase {
    let n = SHIFTS.len() as u64;
    // the shifts that put the border into the middle of the messages come first
    let pick = move |i: u64| if n == 12 { [5, 2, 9, 10, 0, 1, 3, 4, 6, 7, 8, 11][i as usize] } else { i };
    Phase {
        name: "beyond 4 GiB".into(),
        bounds: format!("a buffer of {} bytes with messages around 2 GiB and 4 GiB at each of {} shifts against these borders, {what}", len, t.pick(4, 12)),
        total: t.pick(4, n), chunk: 1, cpu_limit: 60,
        run: Box::new(move |i, ctx| { let (h, e) = build(pick(i), len); ctx.state(mix(i)); ctx.outcome(i); run(h.bytes(), &e, ctx) }),
        describe: Box::new(move |i| { let (len, p) = layout(pick(i), len); format!("{len} bytes, messages (offset, length) {:?}", p.iter().map(|(o, b)| (*o, b.len())).collect::<Vec<_>>()) }),
    }
}
