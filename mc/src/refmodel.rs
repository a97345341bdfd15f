//! The reference: how messages are delimited, written as plainly as possible and independent of the
//! library's code, plus the small message type on which the generic algorithms are explored.
use matchit::{searchable::SearchableMarkerTrait, FromBytesReadableTrait};
use rapiddlt::dlt_v1::DltStorageEntry;

/// What the checks need to know about a message type, from the outside.
pub trait Probe<'b>: SearchableMarkerTrait<'b> + Copy + std::fmt::Debug {
    const MARK: &'static [u8];
    /// total length of the message whose marker is at the start of `b`, if it is valid (reference)
    fn ref_len(b: &[u8]) -> Option<usize>;
    /// the address range the value refers to, or an error if its parts are not adjacent
    fn span(&self) -> Result<(usize, usize), String>;
}

#[derive(Clone, Copy, Debug)]
pub struct Mini<'b>(pub &'b [u8]);
fn mini_read(b: &[u8]) -> Option<(usize, Mini<'_>)> {
    if b.len() < 3 { return None }
    let l = b[2] as usize;
    if !(3..=6).contains(&l) || l > b.len() { return None }
    Some((l, Mini(&b[..l])))
}
impl<'b> FromBytesReadableTrait<'b> for Mini<'b> {
    fn try_read(b: &'b [u8]) -> Option<(usize, Self)> { if b.starts_with(b"MN") { mini_read(b) } else { None } }
    fn len(&self) -> usize { self.0.len() }
    fn max_len() -> usize { 6 }
}
impl<'b> SearchableMarkerTrait<'b> for Mini<'b> {
    fn marker() -> &'static [u8] { b"MN" }
    fn try_read_valid_marker(b: &'b [u8]) -> Option<(usize, Self)> { mini_read(b) }
}
impl<'b> Probe<'b> for Mini<'b> {
    const MARK: &'static [u8] = b"MN";
    fn ref_len(b: &[u8]) -> Option<usize> {
        if b.len() >= 3 && b[2] >= 3 && b[2] <= 6 && b[2] as usize <= b.len() { Some(b[2] as usize) } else { None }
    }
    fn span(&self) -> Result<(usize, usize), String> { Ok((self.0.as_ptr() as usize, self.0.len())) }
}

/// A message type whose marker is a single byte: "M", one length byte (total length, 2..=5 valid).
#[derive(Clone, Copy, Debug)]
pub struct One<'b>(pub &'b [u8]);
fn one_read(b: &[u8]) -> Option<(usize, One<'_>)> {
    let l = *b.get(1)? as usize;
    if !(2..=5).contains(&l) || l > b.len() { return None }
    Some((l, One(&b[..l])))
}
impl<'b> FromBytesReadableTrait<'b> for One<'b> {
    fn try_read(b: &'b [u8]) -> Option<(usize, Self)> { if b.first() == Some(&b'M') { one_read(b) } else { None } }
    fn len(&self) -> usize { self.0.len() }
    fn max_len() -> usize { 5 }
}
impl<'b> SearchableMarkerTrait<'b> for One<'b> {
    fn marker() -> &'static [u8] { b"M" }
    fn try_read_valid_marker(b: &'b [u8]) -> Option<(usize, Self)> { one_read(b) }
}
impl<'b> Probe<'b> for One<'b> {
    const MARK: &'static [u8] = b"M";
    fn ref_len(b: &[u8]) -> Option<usize> { if b.len() >= 2 && b[1] >= 2 && b[1] <= 5 && b[1] as usize <= b.len() { Some(b[1] as usize) } else { None } }
    fn span(&self) -> Result<(usize, usize), String> { Ok((self.0.as_ptr() as usize, self.0.len())) }
}

/// A message type without a greatest length and with a marker of three bytes: "MNO", one length byte (total length, 4..=7 valid).
#[derive(Clone, Copy, Debug)]
pub struct Endless<'b>(pub &'b [u8]);
fn endless_read(b: &[u8]) -> Option<(usize, Endless<'_>)> {
    let l = *b.get(3)? as usize;
    if !(4..=7).contains(&l) || l > b.len() { return None }
    Some((l, Endless(&b[..l])))
}
impl<'b> FromBytesReadableTrait<'b> for Endless<'b> {
    fn try_read(b: &'b [u8]) -> Option<(usize, Self)> { if b.starts_with(b"MNO") { endless_read(b) } else { None } }
    fn len(&self) -> usize { self.0.len() }
    fn max_len() -> usize { usize::MAX }
}
impl<'b> SearchableMarkerTrait<'b> for Endless<'b> {
    fn marker() -> &'static [u8] { b"MNO" }
    fn try_read_valid_marker(b: &'b [u8]) -> Option<(usize, Self)> { endless_read(b) }
}
impl<'b> Probe<'b> for Endless<'b> {
    const MARK: &'static [u8] = b"MNO";
    fn ref_len(b: &[u8]) -> Option<usize> { if b.len() >= 4 && b[3] >= 4 && b[3] <= 7 && b[3] as usize <= b.len() { Some(b[3] as usize) } else { None } }
    fn span(&self) -> Result<(usize, usize), String> { Ok((self.0.as_ptr() as usize, self.0.len())) }
}

impl<'b> Probe<'b> for DltStorageEntry<'b> {
    const MARK: &'static [u8] = b"DLT\x01";
    fn ref_len(b: &[u8]) -> Option<usize> { dlt_len(b) }
    fn span(&self) -> Result<(usize, usize), String> {
        let s = self.storage_header as *const _ as usize;
        let h = self.dlt.header as *const _ as usize;
        let t = self.dlt.tail.as_ptr() as usize;
        if h != s + 16 { return Err(format!("standard header is {} bytes behind the storage header", h.wrapping_sub(s))) }
        if t != h + 4 { return Err(format!("tail is {} bytes behind the standard header", t.wrapping_sub(h))) }
        Ok((s, 20 + self.dlt.tail.len()))
    }
}

/// DLT v1: 16 bytes storage header, then at least 4 bytes announced big-endian in bytes 2..4 of the standard header.
pub fn dlt_len(b: &[u8]) -> Option<usize> {
    if b.len() < 20 { return None }
    let l = (b[18] as usize) << 8 | b[19] as usize;
    if l < 4 || 16 + l > b.len() { None } else { Some(16 + l) }
}

/// every position where a complete marker starts a valid message, ascending: (offset, total length)
pub fn valid_at<'b, P: Probe<'b>>(b: &'b [u8]) -> Vec<(usize, usize)> {
    let first = P::MARK[0];
    let mut v = vec![];
    for m in 0..b.len() {
        if b[m] == first && b[m..].starts_with(P::MARK) {
            if let Some(l) = P::ref_len(&b[m..]) { v.push((m, l)) }
        }
    }
    v
}
/// The messages of the stream read sequentially from `o`: (offset, total length).
pub fn parse(valid: &[(usize, usize)], o: usize) -> Vec<(usize, usize)> {
    let mut v = vec![];
    let mut p = o;
    for &(m, l) in valid {
        if m >= p { v.push((m, l)); p = m + l }
    }
    v
}
pub fn messages<'b, P: Probe<'b>>(b: &'b [u8]) -> Vec<(usize, usize)> {
    parse(&valid_at::<P>(b), 0)
}
/// true if a marker occurs inside a message, apart from the one it starts with
pub fn nested<'b, P: Probe<'b>>(b: &'b [u8], msgs: &[(usize, usize)]) -> bool {
    let k = P::MARK.len();
    msgs.iter().any(|&(m, l)| (m + 1..m + l).any(|i| b.len() - i >= k && &b[i..i + k] == P::MARK))
}

/// suffix hashes: the future of a forward reader depends on the unread suffix only
pub fn suffix_hashes(b: &[u8]) -> Vec<u64> {
    let mut h = vec![0x1234_5678_9abc_def0u64; b.len() + 1];
    for p in (0..b.len()).rev() { h[p] = crate::engine::mix(h[p + 1].wrapping_mul(0x9E3779B97F4A7C15) ^ (b[p] as u64 + 1)); }
    h
}
