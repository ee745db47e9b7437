//! Entry points of the static analysis.  Nothing in this crate is ever run: it only names the functions of the library
//! whose (monomorphic) MIR the analysis starts from.
#![allow(dead_code, clippy::all)]
use adhoc_audio::codec::adhoc::{AdhocCodec, AudioStream, FrameCodec, FrameHeader, FrameHeaders};
use adhoc_audio::codec::wav::WavCodec;
use adhoc_audio::codec::{SeekFrom, StreamInfo, Streamable};
use std::io::{self, Read, Seek, Write};

/// a reader about which nothing is known
pub struct AnyReader(u8);
/// a writer about which nothing is known
pub struct AnyWriter(u8);

#[inline(never)]
pub fn any_read(_: &mut AnyReader, _: &mut [u8]) -> io::Result<usize> { loop {} }
#[inline(never)]
pub fn any_read_exact(_: &mut AnyReader, _: &mut [u8]) -> io::Result<()> { loop {} }
#[inline(never)]
pub fn any_read_to_end(_: &mut AnyReader, _: &mut Vec<u8>) -> io::Result<usize> { loop {} }
#[inline(never)]
pub fn any_seek(_: &mut AnyReader, _: SeekFrom) -> io::Result<u64> { loop {} }
#[inline(never)]
pub fn any_write(_: &mut AnyWriter, _: &[u8]) -> io::Result<usize> { loop {} }
#[inline(never)]
pub fn any_write_all(_: &mut AnyWriter, _: &[u8]) -> io::Result<()> { loop {} }
#[inline(never)]
pub fn any_flush(_: &mut AnyWriter) -> io::Result<()> { loop {} }

impl Read for AnyReader {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> { any_read(self, buf) }
    fn read_exact(&mut self, buf: &mut [u8]) -> io::Result<()> { any_read_exact(self, buf) }
    fn read_to_end(&mut self, buf: &mut Vec<u8>) -> io::Result<usize> { any_read_to_end(self, buf) }
}
impl Seek for AnyReader {
    fn seek(&mut self, pos: SeekFrom) -> io::Result<u64> { any_seek(self, pos) }
}
impl Write for AnyWriter {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> { any_write(self, buf) }
    fn write_all(&mut self, buf: &[u8]) -> io::Result<()> { any_write_all(self, buf) }
    fn flush(&mut self) -> io::Result<()> { any_flush(self) }
}

// ------------------------------------------------------------------ AdhocCodec
pub fn root_a_new() -> AdhocCodec { AdhocCodec::new() }
pub fn root_a_with_info(c: AdhocCodec, i: StreamInfo) -> AdhocCodec { c.with_info(i) }
pub fn root_a_set_info(c: &mut AdhocCodec, i: StreamInfo) { c.set_info(i) }
pub fn root_a_level(c: AdhocCodec, l: u32) -> AdhocCodec { c.with_compression_level(l) }
pub fn root_a_init(c: &mut AdhocCodec) { c.init() }
pub fn root_a_count(c: &mut AdhocCodec) -> u64 { c.calculate_sample_count_per_channel() }
pub fn root_a_load(r: AnyReader) -> Option<AdhocCodec> { AdhocCodec::load(r) }
pub fn root_a_save(c: &mut AdhocCodec, w: AnyWriter) -> Option<()> { c.save_to(w) }
pub fn root_a_info(c: &mut AdhocCodec) -> StreamInfo { Streamable::info(c) }
pub fn root_a_info2(c: &mut AdhocCodec) -> StreamInfo { c.info() }
pub fn root_a_bound(c: &mut AdhocCodec) -> u64 { Streamable::filesize_upperbound(c) }
pub fn root_a_encode(c: &mut AdhocCodec, s: &[f32]) -> Option<usize> { Streamable::encode(c, s) }
pub fn root_a_decode(c: &mut AdhocCodec, s: &mut [f32]) -> Option<usize> { Streamable::decode(c, s) }
pub fn root_a_seek(c: &mut AdhocCodec, d: u64) { Streamable::seek(c, SeekFrom::Start(d)) }

// ------------------------------------------------------------------ WavCodec
pub fn root_w_new(i: StreamInfo) -> WavCodec { WavCodec::new(i) }
pub fn root_w_load(r: AnyReader) -> Result<WavCodec, &'static str> { WavCodec::load(r) }
pub fn root_w_save(c: &mut WavCodec, w: AnyWriter) -> Result<(), &'static str> { c.save_to(w) }
pub fn root_w_info(c: &mut WavCodec) -> StreamInfo { Streamable::info(c) }
pub fn root_w_bound(c: &mut WavCodec) -> u64 { Streamable::filesize_upperbound(c) }
pub fn root_w_encode(c: &mut WavCodec, s: &[f32]) -> Option<usize> { Streamable::encode(c, s) }
pub fn root_w_decode(c: &mut WavCodec, s: &mut [f32]) -> Option<usize> { Streamable::decode(c, s) }
pub fn root_w_seek(c: &mut WavCodec, d: SeekFrom) { Streamable::seek(c, d) }

// ------------------------------------------------------------------ StreamInfo
pub fn root_i_new(r: u32, c: u32) -> StreamInfo { StreamInfo::new(r, c) }
pub fn root_i_channels(i: &StreamInfo) -> usize { i.channels() }
pub fn root_i_frequency(i: &StreamInfo) -> usize { i.frequency() }
pub fn root_i_bytes(i: &StreamInfo) -> u8 { i.as_bytes()[0] }

// ------------------------------------------------------------------ frames
pub fn root_f_encode(f: &mut FrameCodec, s: &mut AudioStream, h: &mut FrameHeaders, p: &[f32]) { f.encode_frame(s, h, p) }
pub fn root_f_decode(f: &mut FrameCodec, s: &mut AudioStream, h: &mut FrameHeaders) -> Option<usize> { f.decode_frame(s, h) }
pub fn root_f_new() -> FrameCodec { FrameCodec::new() }
pub fn root_h_new() -> FrameHeaders { FrameHeaders::new() }
pub fn root_h_push(h: &mut FrameHeaders, x: FrameHeader) { h.push(x) }
pub fn root_h_get(h: &FrameHeaders, i: usize) -> Option<FrameHeader> { h.get(i) }
pub fn root_h_next(h: &mut FrameHeaders) -> Option<FrameHeader> { h.next() }
pub fn root_h_len(h: &FrameHeaders) -> usize { h.len() }
pub fn root_h_reset(h: &mut FrameHeaders) { h.reset() }
pub fn root_h_set_cursor(h: &mut FrameHeaders, i: u32) { h.set_cursor(i) }
pub fn root_h_truncate(h: &mut FrameHeaders) { h.truncate_to_cursor() }
pub fn root_h_bound(h: &FrameHeaders) -> u64 { h.calculate_weight_upperbound() }

// ------------------------------------------------------------------ history of a channel
pub fn root_k_push(f: &mut FrameCodec, x: i16) { f.sample_history_mut().push(x) }
pub fn root_k_prev(f: &mut FrameCodec, n: u32) -> i16 { f.sample_history_mut().prev(n) }
pub fn root_k_clone(a: &mut FrameCodec, b: &mut FrameCodec) { *b.sample_history_mut() = a.sample_history_mut().clone() }

// ------------------------------------------------------------------ bit stream
pub fn root_s_new() -> AudioStream { AudioStream::new() }
pub fn root_s_write_bits(s: &mut AudioStream, v: u128, n: usize) { s.write_bits(v, n) }
pub fn root_s_read_bits(s: &mut AudioStream, n: usize) -> u128 { s.read_bits(n) }
pub fn root_s_peek_bits(s: &mut AudioStream, n: usize) -> u128 { s.peek_bits(n) }
pub fn root_s_write_bit(s: &mut AudioStream, v: u8) { s.write_bit(v) }
pub fn root_s_read_bit(s: &mut AudioStream) -> u128 { s.read_bit() }
pub fn root_s_write8(s: &mut AudioStream, v: u8) { s.write(v) }
pub fn root_s_write16(s: &mut AudioStream, v: u16) { s.write(v) }
pub fn root_s_write32(s: &mut AudioStream, v: u32) { s.write(v) }
pub fn root_s_write64(s: &mut AudioStream, v: u64) { s.write(v) }
pub fn root_s_write128(s: &mut AudioStream, v: u128) { s.write(v) }
pub fn root_s_read8(s: &mut AudioStream) -> u128 { s.read::<u8>() }
pub fn root_s_read16(s: &mut AudioStream) -> u128 { s.read::<u16>() }
pub fn root_s_read32(s: &mut AudioStream) -> u128 { s.read::<u32>() }
pub fn root_s_read64(s: &mut AudioStream) -> u128 { s.read::<u64>() }
pub fn root_s_read128(s: &mut AudioStream) -> u128 { s.read::<u128>() }
pub fn root_s_write_compressed(s: &mut AudioStream, e: i16, v: i16) { s.write_compressed(e, v) }
pub fn root_s_read_compressed(s: &mut AudioStream, e: i16) -> i16 { s.read_compressed(e) }
pub fn root_s_set_cursor(s: &mut AudioStream, i: u128) { s.set_bit_cursor(i) }
pub fn root_s_cursor(s: &AudioStream) -> u128 { s.bit_cursor() }
pub fn root_s_seek_start(s: &mut AudioStream) { s.seek_start() }

// ------------------------------------------------------------------ internal iteration as explicit loops
// The driver resolves the named std methods to these bodies, so that a loop written with an iterator consumer is
// analysed as the loop it stands for.
pub fn stub_fold<I: Iterator, B, F: FnMut(B, I::Item) -> B>(mut it: I, init: B, mut f: F) -> B {
    let mut acc = init;
    while let Some(x) = it.next() { acc = f(acc, x); }
    acc
}
pub fn stub_for_each<I: Iterator, F: FnMut(I::Item)>(mut it: I, mut f: F) {
    while let Some(x) = it.next() { f(x); }
}
pub fn stub_all<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
    while let Some(x) = it.next() { if !f(x) { return false; } }
    true
}
pub fn stub_any<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
    while let Some(x) = it.next() { if f(x) { return true; } }
    false
}
pub fn stub_find<I: Iterator, P: FnMut(&I::Item) -> bool>(it: &mut I, mut p: P) -> Option<I::Item> {
    match it.next() { Some(x) => if p(&x) { return Some(x); }, None => return None }
    while let Some(x) = it.next() { if p(&x) { return Some(x); } }
    None
}
pub fn stub_find_map<I: Iterator, B, F: FnMut(I::Item) -> Option<B>>(it: &mut I, mut f: F) -> Option<B> {
    while let Some(x) = it.next() { if let Some(r) = f(x) { return Some(r); } }
    None
}
pub fn stub_position<I: Iterator, P: FnMut(I::Item) -> bool>(it: &mut I, mut p: P) -> Option<usize> {
    let mut k = 0usize;
    while let Some(x) = it.next() { if p(x) { return Some(k); } k += 1; }
    None
}
pub fn stub_count<I: Iterator>(mut it: I) -> usize {
    let mut k = 0usize;
    while let Some(_) = it.next() { k += 1; }
    k
}
pub fn stub_last<I: Iterator>(mut it: I) -> Option<I::Item> {
    let mut r = None;
    while let Some(x) = it.next() { r = Some(x); }
    r
}
pub fn step<I: Iterator>(it: &mut I) -> Option<I::Item> { it.next() }
pub fn compared<T, F: FnMut(&T, &T) -> std::cmp::Ordering>(f: &mut F, a: &T, b: &T) -> std::cmp::Ordering { f(a, b) }
pub fn stub_min_by<I: Iterator, F: FnMut(&I::Item, &I::Item) -> std::cmp::Ordering>(mut it: I, mut f: F) -> Option<I::Item> {
    let mut best = match step(&mut it) { Some(x) => x, None => return None };
    while let Some(x) = step(&mut it) {
        match compared(&mut f, &best, &x) { std::cmp::Ordering::Greater => best = x, _ => {} }
    }
    Some(best)
}
pub fn stub_max_by<I: Iterator, F: FnMut(&I::Item, &I::Item) -> std::cmp::Ordering>(mut it: I, mut f: F) -> Option<I::Item> {
    let mut best = match it.next() { Some(x) => x, None => return None };
    while let Some(x) = it.next() {
        match f(&best, &x) { std::cmp::Ordering::Greater => {} _ => best = x }
    }
    Some(best)
}
pub fn keyed<T, B, F: FnMut(&T) -> B>(f: &mut F, a: &T) -> B { f(a) }
pub fn ordered<B: Ord>(a: &B, b: &B) -> std::cmp::Ordering { a.cmp(b) }
pub fn stub_min_by_key<I: Iterator, B: Ord, F: FnMut(&I::Item) -> B>(mut it: I, mut f: F) -> Option<I::Item> {
    let mut best = match step(&mut it) { Some(x) => x, None => return None };
    let mut key = keyed(&mut f, &best);
    while let Some(x) = step(&mut it) {
        let k = keyed(&mut f, &x);
        match ordered(&key, &k) { std::cmp::Ordering::Greater => { best = x; key = k; } _ => {} }
    }
    Some(best)
}
pub fn stub_max_by_key<I: Iterator, B: Ord, F: FnMut(&I::Item) -> B>(mut it: I, mut f: F) -> Option<I::Item> {
    let mut best = match it.next() { Some(x) => x, None => return None };
    let mut key = f(&best);
    while let Some(x) = it.next() { let k = f(&x); if k >= key { best = x; key = k; } }
    Some(best)
}
pub fn stub_min<I: Iterator>(mut it: I) -> Option<I::Item> where I::Item: Ord {
    let mut best = match it.next() { Some(x) => x, None => return None };
    while let Some(x) = it.next() { if x < best { best = x; } }
    Some(best)
}
pub fn stub_max<I: Iterator>(mut it: I) -> Option<I::Item> where I::Item: Ord {
    let mut best = match it.next() { Some(x) => x, None => return None };
    while let Some(x) = it.next() { if x >= best { best = x; } }
    Some(best)
}
pub fn stub_vec_from_iter<T, I: IntoIterator<Item = T>>(it: I) -> Vec<T> {
    let mut v = Vec::new();
    let mut it = it.into_iter();
    while let Some(x) = it.next() { v.push(x); }
    v
}
pub fn stub_vec_extend<T, A, I: IntoIterator<Item = T>>(v: &mut Vec<T>, it: I) {
    let mut it = it.into_iter();
    while let Some(x) = it.next() { v.push(x); }
}
