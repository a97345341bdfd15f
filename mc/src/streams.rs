//! Alphabets of stream fragments and the exhaustive enumeration of their sequences.
pub struct Tokens { pub toks: Vec<(String, Vec<u8>)>, pub depth: u32 }

impl Tokens {
    pub fn new(depth: u32, toks: Vec<(&str, Vec<u8>)>) -> Self {
        Tokens { toks: toks.into_iter().map(|(n, b)| (n.to_string(), b)).collect(), depth }
    }
    pub fn bytes(depth: u32, alphabet: &[u8]) -> Self {
        Tokens { toks: alphabet.iter().map(|&b| (if b.is_ascii_graphic() { (b as char).to_string() } else { format!("\\x{b:02x}") }, vec![b])).collect(), depth }
    }
    /// all sequences of at most `depth` fragments, shortest first
    pub fn total(&self) -> u64 { let k = self.toks.len() as u64; (0..=self.depth).map(|d| k.pow(d)).sum() }
    pub fn seq(&self, mut idx: u64) -> Vec<usize> {
        let k = self.toks.len() as u64;
        let mut d = 0;
        while idx >= k.pow(d) { idx -= k.pow(d); d += 1; }
        let mut v = vec![0; d as usize];
        for i in (0..d as usize).rev() { v[i] = (idx % k) as usize; idx /= k; }
        v
    }
    pub fn build(&self, idx: u64) -> Vec<u8> {
        let mut b = vec![];
        for t in self.seq(idx) { b.extend_from_slice(&self.toks[t].1); }
        b
    }
    pub fn describe(&self, idx: u64) -> String {
        let s: Vec<&str> = self.seq(idx).iter().map(|&t| self.toks[t].0.as_str()).collect();
        format!("[{}]", s.join(" "))
    }
}

pub fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{x:02x}")).collect::<Vec<_>>().join(" ") }

/// storage header + standard header announcing `len` bytes (without storage header); ecu and times selectable
pub fn head(len: u16, htyp: u8, secs: u32, ecu: &[u8; 4]) -> Vec<u8> {
    let mut b = b"DLT\x01".to_vec();
    b.extend_from_slice(&secs.to_le_bytes());
    b.extend_from_slice(&[0x30, 0x2a, 0x02, 0x00]);
    b.extend_from_slice(ecu);
    b.push(htyp);
    b.push(7);
    b.extend_from_slice(&len.to_be_bytes());
    b
}
pub fn h(len: u16) -> Vec<u8> { head(len, 0x20, 0x5fff_f701, b"ECU1") }
pub fn msg(len: u16, fill: u8) -> Vec<u8> { let mut b = h(len); b.resize(16 + (len as usize).max(4), fill); b }

/// Fragments of DLT streams: heads whose payload is whatever follows (so messages nest and overlap in
/// every way), complete messages, invalid and truncated heads, markers inside headers, partial markers.
pub fn dlt_tokens(depth: u32) -> Tokens {
    let mut ecu_marker = head(8, 0x20, 1, b"DLT\x01");
    ecu_marker.extend_from_slice(b"wxyz");
    let mut secs_marker = head(6, 0x20, u32::from_le_bytes(*b"DLT\x01"), b"ECU1");
    secs_marker.extend_from_slice(b"\x00\x00");
    Tokens::new(depth, vec![
        ("M4", msg(4, 0)),
        ("M7", msg(7, b'p')),
        ("H24", h(24)), // its payload ends where one further head ends
        ("H25", h(25)),
        ("H30", h(30)),
        ("H64", h(64)),
        ("H3!", h(3)),
        ("H0!", h(0)),
        ("H65535", h(65535)),
        ("Mecu=DLT1", ecu_marker),
        ("Msecs=DLT1", secs_marker),
        ("storage", h(5)[..16].to_vec()),
        ("D", b"D".to_vec()),
        ("DL", b"DL".to_vec()),
        ("T1", b"T\x01".to_vec()),
        ("DLT1", b"DLT\x01".to_vec()),
        ("x", b"x".to_vec()),
    ])
}

/// The small message type: marker "MN", one length byte (total length, 3..=6 valid).
pub fn mini_bytes(depth: u32) -> Tokens { Tokens::bytes(depth, b"MN\x03\x04\x06x") }
pub fn mini_tokens(depth: u32) -> Tokens {
    Tokens::new(depth, vec![
        ("MN3", b"MN\x03".to_vec()), ("MN4", b"MN\x04".to_vec()), ("MN5", b"MN\x05".to_vec()), ("MN6", b"MN\x06".to_vec()),
        ("MN9!", b"MN\x09".to_vec()), ("M", b"M".to_vec()), ("N", b"N".to_vec()), ("x", b"x".to_vec()),
    ])
}
/// The type without a greatest length: marker "MNO", one length byte (total length, 4..=7 valid).
pub fn endless_tokens(depth: u32) -> Tokens {
    Tokens::new(depth, vec![
        ("MNO4", b"MNO\x04".to_vec()), ("MNO5", b"MNO\x05".to_vec()), ("MNO7", b"MNO\x07".to_vec()),
        ("MNO9!", b"MNO\x09".to_vec()), ("M", b"M".to_vec()), ("NO", b"NO".to_vec()), ("x", b"x".to_vec()),
    ])
}
/// The type with a single-byte marker: marker "M", one length byte (total length, 2..=5 valid).
pub fn one_bytes(depth: u32) -> Tokens { Tokens::bytes(depth, b"M\x02\x03\x05x") }

/// Every pair of bytes of a message's headers set to each pair of values, between two good messages.
pub fn header_bytes_case(i: u64) -> Vec<u8> {
    const VALS: [u8; 9] = [0, 1, 3, 4, b'D', b'L', b'T', 0x80, 0xff];
    let (p, q, v, w) = ((i % 20) as usize, (i / 20 % 20) as usize, i / 400 % 9, i / 3600 % 9);
    let mut m = msg(9, b'.');
    m[p] = VALS[v as usize];
    m[q] = VALS[w as usize];
    [msg(4, 0), m, msg(6, b'q')].concat()
}
pub const HEADER_BYTES: u64 = 20 * 20 * 81;
/// One byte of a message's headers set to each value, between two good messages.
pub fn header_byte_case(i: u64) -> Vec<u8> {
    let mut m = msg(9, b'.');
    m[(i % 20) as usize] = (i / 20) as u8;
    [msg(4, 0), m, msg(6, b'q')].concat()
}
pub const HEADER_BYTE: u64 = 20 * 256;

/// Messages at chosen distances from each other and from the ends of the stream, with bytes between them
/// that begin many markers, or none: whatever a reader holds in pieces, some piece ends inside of each marker.
pub struct Distances { lens: Vec<usize>, every: u64 }
pub const FILLERS: [&[u8]; 5] = [&[0], b"D", b"DLT", b"\x01", b"D\x01LT"];
const HEADS: u64 = 2;
impl Distances {
    /// around each power of two and of ten up to 2^`top`, and all up to `near`, with each of the fillers; all up to `every` with zeros
    pub fn new(near: usize, top: u32, every: u64) -> Distances {
        let mut lens: Vec<usize> = (0..=near).collect();
        let mut around = |p: usize, d: usize| lens.extend(p - d..=p + d);
        for k in 9..=top { around(1 << k, if k <= 17 { 24 } else { 4 }) }
        for p in [1000, 10_000, 100_000, 65535 + 16] { around(p, 24) }
        if top >= 20 { around(1_000_000, 4) }
        lens.sort(); lens.dedup();
        Distances { lens, every }
    }
    pub fn total(&self) -> u64 { self.every + 1 + self.lens.len() as u64 * FILLERS.len() as u64 * HEADS }
    /// (distance, filler, with an invalid head in front)
    fn pick(&self, i: u64) -> (usize, usize, bool) {
        if i <= self.every { return (i as usize, 0, false) }
        let (i, f) = (i - self.every - 1, FILLERS.len() as u64);
        (self.lens[(i / f / HEADS) as usize], (i % f) as usize, i / f % HEADS == 1)
    }
    pub fn build(&self, i: u64) -> Vec<u8> {
        let (l, f, bad) = self.pick(i);
        let fill = |b: &mut Vec<u8>| b.extend(FILLERS[f].iter().copied().cycle().take(l));
        let mut b = Vec::with_capacity(2 * l + 100);
        if bad { b.extend(h(3)) }
        fill(&mut b);
        b.extend(msg(9, b'm'));
        fill(&mut b);
        b.extend(msg(4, 0));
        b.extend_from_slice(b"xyz");
        if bad { b.extend_from_slice(&h(1)) }
        b
    }
    pub fn describe(&self, i: u64) -> String {
        let (l, f, bad) = self.pick(i);
        format!("{}two messages, {l} bytes of {:?} in front of each", if bad { "invalid head, " } else { "" }, String::from_utf8_lossy(FILLERS[f]))
    }
    pub fn bounds(&self) -> String {
        format!("two messages with the same number of stray bytes in front of each: all numbers up to {} of zeros, and {} numbers up to {} of each of the fillers {:?}, with and without invalid heads at the ends", self.every, self.lens.len(), self.lens.last().unwrap(), FILLERS.map(|f| String::from_utf8_lossy(f)))
    }
}
