#![allow(dead_code, unused_imports)]
pub use perf_event_data::endian::*;
pub use perf_event_data::parse::*;
pub use perf_event_data::*;
pub use perf_event_open_sys::bindings::{perf_event_attr, perf_event_header};

/// Bytes handed out in chunks of the given sizes, borrowed or not.
#[derive(Clone)]
pub struct Chunks<'a> {
    pub chunks: Vec<&'a [u8]>,
    pub borrowed: bool,
    pub hint: bool,
}
impl<'a> Chunks<'a> {
    pub fn new(mut data: &'a [u8], sizes: &[usize], borrowed: bool, hint: bool) -> Self {
        let mut chunks = Vec::new();
        let mut i = 0;
        while !data.is_empty() {
            let n = sizes[i % sizes.len()].min(data.len()).max(1);
            chunks.push(&data[..n]);
            data = &data[n..];
            i += 1;
        }
        Chunks { chunks, borrowed, hint }
    }
}
unsafe impl<'a> ParseBuf<'a> for Chunks<'a> {
    fn chunk(&mut self) -> ParseResult<ParseBufChunk<'_, 'a>> {
        match self.chunks.first() {
            Some(c) if self.borrowed => Ok(ParseBufChunk::External(c)),
            Some(c) => Ok(ParseBufChunk::Temporary(c)),
            None => Err(ParseError::eof()),
        }
    }
    fn advance(&mut self, mut count: usize) {
        while count > 0 {
            let c = self.chunks[0];
            if count < c.len() {
                self.chunks[0] = &c[count..];
                break;
            }
            count -= c.len();
            self.chunks.remove(0);
        }
    }
    fn remaining_hint(&self) -> Option<usize> {
        self.hint.then(|| self.chunks.iter().map(|c| c.len()).sum())
    }
}

pub fn attr(sample_type: u64, read_format: u64) -> perf_event_attr {
    let mut a = perf_event_attr::default();
    a.sample_type = sample_type;
    a.read_format = read_format;
    a
}
pub fn attr_sid(sample_type: u64) -> perf_event_attr {
    let mut a = attr(sample_type, 0);
    a.set_sample_id_all(1);
    a
}
pub fn cfg(a: perf_event_attr) -> ParseConfig<Little> {
    ParseConfig::from(a)
}
#[derive(Default, Clone)]
pub struct Bytes(pub Vec<u8>);
impl Bytes {
    pub fn u8(mut self, v: u8) -> Self { self.0.push(v); self }
    pub fn u16(mut self, v: u16) -> Self { self.0.extend(v.to_le_bytes()); self }
    pub fn u32(mut self, v: u32) -> Self { self.0.extend(v.to_le_bytes()); self }
    pub fn u64(mut self, v: u64) -> Self { self.0.extend(v.to_le_bytes()); self }
    pub fn raw(mut self, v: &[u8]) -> Self { self.0.extend(v); self }
}
pub fn b() -> Bytes { Bytes::default() }
/// A complete record.
pub fn record(ty: u32, misc: u16, body: Bytes) -> Vec<u8> {
    let n = body.0.len() as u16 + 8;
    b().u32(ty).u16(misc).u16(n).raw(&body.0).0
}
