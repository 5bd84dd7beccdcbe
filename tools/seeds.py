"""Descriptions of the planted changes."""
SEEDS = {}


def seed(id, property, edits, main, needs, breaks):
    SEEDS[id] = dict(property=property, edits=edits, main='mod common;\nuse common::*;\n\n' + main, needs=needs, breaks=breaks)


P = 'src/parse.rs'
S = 'src/records/sample.rs'

seed('c01-text-poke-tail', 'C01',
     [('src/records/text_poke.rs', '        new_bytes.truncate(new_len);\n', '        new_bytes.truncate(full_len - old_len - (full_len - old_len - new_len) % 4);\n')],
     '''fn main() {
    for old in 0..9usize {
        for new in 0..9usize {
            let pad = (8 - (12 + old + new) % 8) % 8;
            let body = b().u64(1).u16(old as u16).u16(new as u16).raw(&vec![0xaa; old]).raw(&vec![0xbb; new]).raw(&vec![0; pad]);
            let mut p = Parser::new(&body.0[..], cfg(attr(0, 0)));
            let r: TextPoke = p.parse().unwrap();
            assert_eq!(&*r.old_bytes, &vec![0xaa; old][..]);
            assert_eq!(&*r.new_bytes, &vec![0xbb; new][..], "old {old} new {new}");
        }
    }
}
''', 'a TEXT_POKE record whose text needs four or more bytes of padding', 'padding bytes are reported as part of the new text')

seed('c01-mmap2-full-build-id', 'C01',
     [('src/records/mmap2.rs', 'if len as usize > build_id.len() {', 'if len as usize >= build_id.len() {')],
     '''fn main() {
    let body = b().u32(1).u32(2).u64(3).u64(4).u64(5).u8(20).u8(0).u16(0).raw(&[7; 20]).u32(1).u32(2).raw(b"/bin/x\\0\\0");
    let data = record(10, 1 << 14, body);
    let r: Record = Parser::new(&data[..], cfg(attr(0, 0))).parse().unwrap();
    match r {
        Record::Mmap2(m) => assert_eq!(m.build_id(), Some(&[7u8; 20][..])),
        _ => panic!(),
    }
}
''', 'an MMAP2 record with a build id that fills all 20 bytes (SHA-1)', 'the record is rejected although it is valid')

seed('c01-ns-link-order', 'C01',
     [('src/records/bpf_event.rs', 'id: p.parse()?', 'id: { let id: u32 = p.parse()?; if id >> 31 != 0 { 0 } else { id } }')],
     '''fn main() {
    let body = b().u16(1).u16(2).u32(0x8000_0001).raw(&[9; 8]);
    let r: BpfEvent = Parser::new(&body.0[..], cfg(attr(0, 0))).parse().unwrap();
    assert_eq!(r.id, 0x8000_0001);
}
''', 'a BPF_EVENT record whose program id has its top bit set', 'the program id is replaced by zero')

seed('c02-stack-dyn-size', 'C02',
     [(S, 'if dyn_size > data.len() {', 'if dyn_size >= data.len() && size > 8 {')],
     '''fn main() {
    let body = b().u64(16).raw(&[3; 16]).u64(16);
    let s: Sample = Parser::new(&body.0[..], cfg(attr(1 << 13, 0))).parse().unwrap();
    assert_eq!(s.stack_user(), Some(&[3u8; 16][..]));
}
''', 'a sample whose whole user stack dump is valid (dyn_size equal to size)', 'the sample is rejected')

seed('c02-raw-padding', 'C02',
     [(S, 'p.parse_padded(std::mem::size_of::<u64>(), |p| {', 'p.parse_padded(std::mem::size_of::<u32>(), |p| {')],
     '''fn main() {
    // RAW then CGROUP: 4 + 8 bytes of raw data leave 4 bytes of padding
    let body = b().u32(8).raw(&[5; 8]).u32(0).u64(0x1122334455667788);
    let s: Sample = Parser::new(&body.0[..], cfg(attr(1 << 10 | 1 << 21, 0))).parse().unwrap();
    assert_eq!(s.raw(), Some(&[5u8; 8][..]));
    assert_eq!(s.cgroup(), Some(0x1122334455667788));
}
''', 'raw data whose length is a multiple of eight, followed by another sample field', 'the fields after the raw data are read from the wrong place')

seed('c02-hw-index-without-entries', 'C02',
     [(S, 'let hw_index = p.parse_if(branch_hw_index)?;', 'let hw_index = p.parse_if(branch_hw_index && nr != 0)?;')],
     '''fn main() {
    let mut a = attr(1 << 11 | 1 << 14, 0);
    a.branch_sample_type = 1 << 17;
    let body = b().u64(0).u64(77).u64(5);
    let s: Sample = Parser::new(&body.0[..], cfg(a)).parse().unwrap();
    assert_eq!(s.lbr_hw_index(), Some(77));
    assert_eq!(s.weight(), Some(5));
}
''', 'a sample with an empty branch stack and the hardware index enabled', 'the hardware index is taken for the next field')

seed('c10-rest-of-later-chunks', 'C10',
     [(P, '                    bytes.to_mut().extend_from_slice(&chunk);\n\n                    let len = chunk.len();',
       '                    let len = chunk.len();\n                    bytes.to_mut().reserve(len);\n                    bytes.to_mut().extend(chunk.iter().copied().filter(|&b| b != 0 || len > 1));\n')],
     '''fn main() {
    let data = [1u8, 2, 3, 0, 5, 0, 0, 8];
    for n in 1..9 {
        let mut p = Parser::new(Chunks::new(&data, &[n], false, false), cfg(attr(0, 0)));
        assert_eq!(&*p.parse_rest().unwrap(), &data[..], "chunks of {n}");
    }
}
''', 'a source that hands out a zero byte as a chunk of its own', 'the rest of the input loses bytes depending on how it is split')

seed('c14-element-len', 'C14',
     [('src/flags.rs', '1 + (*self & (Self::ID | Self::LOST)).bits().count_ones() as usize', '1 + (self.contains(Self::ID) || self.contains(Self::LOST)) as usize + self.contains(Self::ID | Self::LOST | Self::TOTAL_TIME_ENABLED) as usize')],
     '''fn main() {
    // GROUP | ID | LOST
    let body = b().u64(2).u64(10).u64(1).u64(100).u64(20).u64(2).u64(200);
    let g: ReadGroup = Parser::new(&body.0[..], cfg(attr(0, 4 | 8 | 16))).parse().unwrap();
    assert_eq!(g.len(), 2);
    let e = g.get(1).unwrap();
    assert_eq!((e.value(), e.id(), e.lost()), (20, Some(2), Some(200)));
}
''', 'a group read with ID and LOST but without TOTAL_TIME_ENABLED', 'groups have the wrong number of words per entry')

seed('c15-nth-back', 'C15',
     [('src/records/read.rs', 'self.iter.nth_back(n)?', 'self.iter.nth(n)?')],
     '''fn main() {
    let body = b().u64(3).u64(10).u64(20).u64(30);
    let g: ReadGroup = Parser::new(&body.0[..], cfg(attr(0, 8))).parse().unwrap();
    assert_eq!(g.entries().nth_back(0).unwrap().value(), 30);
    assert_eq!(g.entries().nth_back(2).unwrap().value(), 10);
    assert_eq!(g.entries().rev().nth(1).unwrap().value(), 20);
}
''', 'stepping backwards with nth_back / rev().nth() over a group', 'entries are taken from the front instead of the back')

seed('c08-announced-capacity', 'C08',
     [(P, 'let mut bytes = Vec::with_capacity(self.safe_capacity_bound::<u8>().min(len));', 'let mut bytes = Vec::with_capacity(self.data.remaining_hint().unwrap_or(len).min(len));')],
     '''use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
struct A;
static MAX: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { MAX.fetch_max(l.size(), SeqCst); if l.size() > 1 << 30 { return std::ptr::null_mut(); } System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
fn main() {
    let data = [1u8; 40];
    let mut p = Parser::new(Chunks::new(&data, &[7], false, false), cfg(attr(0, 0)));
    assert!(p.parse_bytes(100 << 20).is_err());
    assert!(MAX.load(SeqCst) < 1 << 20, "reserved {} bytes for 40 bytes of input", MAX.load(SeqCst));
}
''', 'a source without a length hint and a length field announcing far more than the source holds', 'memory of the announced size is reserved before anything is read')

seed('c04-unthrottle-misc', 'C04',
     [(P, 'PERF_RECORD_UNTHROTTLE => visitor.visit_unthrottle(p.parse()?, metadata),', 'PERF_RECORD_UNTHROTTLE if metadata.misc() & 0x4000 == 0 => visitor.visit_unthrottle(p.parse()?, metadata),\n            PERF_RECORD_UNTHROTTLE => visitor.visit_throttle(p.parse()?, metadata),')],
     '''fn main() {
    let data = record(6, 0x4000, b().u64(1).u64(2).u64(3));
    let r: Record = Parser::new(&data[..], cfg(attr(0, 0))).parse().unwrap();
    assert!(matches!(r, Record::Unthrottle(_)));
}
''', 'an UNTHROTTLE record with bit 14 of misc set', 'the record arrives as a throttle record')

M = 'src/records/mod.rs'
G = 'src/records/read.rs'
PB = 'src/parsebuf.rs'

seed('c03-identifier-length', 'C03',
     [(M, '(sty & flags).bits().count_ones() as usize * std::mem::size_of::<u64>()',
          '(sty & flags).bits().count_ones().min(5) as usize * std::mem::size_of::<u64>()')],
     '''fn main() {
    // EXIT: five fields, then tid, time, id, stream id, cpu, identifier
    let all = (1 << 1) | (1 << 2) | (1 << 6) | (1 << 9) | (1 << 7) | (1 << 16);
    let body = b().u32(1).u32(2).u32(3).u32(4).u64(5).u32(10).u32(11).u64(12).u64(13).u64(14).u32(15).u32(0).u64(13);
    let data = record(4, 0, body);
    let (_, m) = Parser::new(&data[..], cfg(attr_sid(all))).parse_metadata().unwrap();
    let s = m.sample_id();
    assert_eq!((s.pid(), s.tid(), s.time(), s.id(), s.stream_id(), s.cpu()), (Some(10), Some(11), Some(12), Some(13), Some(14), Some(15)));
}
''', 'an event whose sample_type selects all six fields of the sample id', 'the sample id is read eight bytes too late')

seed('c05-odd-record-size', 'C05',
     [(P, 'let mut rp = self.split_at(data_len)?;', 'let mut rp = self.split_at(data_len.next_multiple_of(4))?;')],
     '''fn main() {
    let mut data = record(0x55, 0, b().raw(&[1, 2, 3, 4, 5]));
    data.extend(record(0x56, 0, b().raw(&[6, 7, 8])));
    data.extend([0; 8]);
    let mut p = Parser::new(&data[..], cfg(attr(0, 0)));
    for want in [&[1u8, 2, 3, 4, 5][..], &[6, 7, 8]] {
        match p.parse::<Record>().unwrap() {
            Record::Unknown { data, .. } => assert_eq!(&*data, want),
            r => panic!("{r:?}"),
        }
    }
}
''', 'a record whose size is not a multiple of four', 'bytes of the following record are taken as part of this one')

seed('c06-group-count', 'C06',
     [(G, '''        let data_len = nr //
            .checked_mul(element_len)
            .ok_or_else(|| {
                ParseError::custom(
                    ErrorKind::InvalidRecord,
                    "number of elements in group read was too large for data type",
                )
            })?;
''', '''        let data_len = nr * element_len;
''')],
     '''fn main() {
    let body = b().u64(u64::MAX / 2).u64(1);
    let r = Parser::new(&body.0[..], cfg(attr(0, (1 << 3) | (1 << 2) | (1 << 4)))).parse::<ReadGroup>();
    assert!(r.is_err());
}
''', 'a group read that claims so many entries that their number overflows', 'parsing panics instead of returning an error')

seed('c07-copy-length', 'C07',
     [(P, '            let chunk_len = chunk.len().min(len);\n\n            unsafe {', '            let chunk_len = chunk.len().min(slice.len());\n\n            unsafe {')],
     '''fn main() {
    let data = [7u8; 64];
    let mut p = Parser::new(Chunks::new(&data, &[4, 60], false, true), cfg(attr(0, 0)));
    assert_eq!(&*p.parse_bytes(8).unwrap(), &data[..8]);
    assert_eq!(p.parse_rest().unwrap().len(), 56);
}
''', 'bytes that span chunks where the later chunk is longer than what is missing', 'memory behind the destination is overwritten')

seed('c09-skip-words', 'C09',
     [(P, 'let consumed = chunk.len().min(len);\n\n            len -= consumed;', 'let consumed = chunk.len().min(len) / (len.min(4)) * len.min(4);\n\n            len -= consumed;')],
     '''fn main() {
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        // RAW of one byte: 4 + 1, padded by 3
        let body = b().u32(1).raw(&[9, 0, 0, 0]).raw(&[0; 8]);
        let mut p = Parser::new(Chunks::new(&body.0, &[6, 2, 8], true, true), cfg(attr(1 << 10, 0)));
        let s: Sample = p.parse().unwrap();
        tx.send(s.raw().map(|x| x.to_vec())).unwrap();
    });
    assert_eq!(rx.recv_timeout(std::time::Duration::from_secs(20)).unwrap(), Some(vec![9]));
}
''', 'padding that straddles a chunk boundary', 'skipping the padding never ends')

seed('c10-trim-limit', 'C10',
     [(P, '''        while let Some((b'\\0', head)) = rest.split_last() {
            rest = head;
        }
''', '''        while let Some((b'\\0', head)) = rest.split_last() {
            rest = head;
            if bytes.len() - rest.len() >= 16 {
                break;
            }
        }
''')],
     '''fn main() {
    let mut data = b"abc".to_vec();
    data.extend([0; 29]);
    let mut p = Parser::new(&data[..], cfg(attr(0, 0)));
    assert_eq!(&*p.parse_rest_trim_nul().unwrap(), b"abc");
}
''', 'more than sixteen trailing NUL bytes', 'NUL bytes stay at the end of the text')

seed('c11-dynamic-native', 'C11',
     [('src/endian.rs', '''    fn is_native(&self) -> bool {
        match self {
            Self::Big => Big.is_native(),
            Self::Little => Little.is_native(),
        }
''', '''    fn is_native(&self) -> bool {
        match self {
            Self::Big | Self::Little => Little.is_native(),
        }
''')],
     '''use perf_event_data::endian::*;
fn main() {
    let mut data: Vec<u8> = Vec::new();
    data.extend(2u64.to_be_bytes());
    data.extend(0x1122334455667788u64.to_be_bytes());
    data.extend(0x99u64.to_be_bytes());
    let c: ParseConfig<Dynamic> = cfg(attr(1 << 5, 0)).with_endian(Dynamic::Big);
    // a source aligned for u64
    let words: Vec<u64> = data.chunks(8).map(|c| u64::from_ne_bytes(c.try_into().unwrap())).collect();
    let bytes: &[u8] = unsafe { std::slice::from_raw_parts(words.as_ptr() as *const u8, data.len()) };
    let s: Sample = Parser::new(bytes, c).parse().unwrap();
    assert_eq!(s.callchain(), Some(&[0x1122334455667788u64, 0x99][..]));
}
''', 'big-endian data announced through Dynamic and an array lent by the source', 'the values of the array are byte-swapped')

seed('c12-misc-of-nested-records', 'C12',
     [('src/config.rs', '''    fn set_misc(&mut self, misc: u16) {
        *self &= !Self::MISC;
''', '''    fn set_misc(&mut self, misc: u16) {
''')],
     '''fn main() {
    // an unknown record with the build-id bit whose body is an MMAP2 record without it
    let inner = record(10, 0, b().u32(1).u32(2).u64(3).u64(4).u64(5).u32(6).u32(7).u64(8).u64(9).u32(1).u32(2).raw(b"/bin/x\\0\\0"));
    let data = record(0x70, 1 << 14, b().raw(&inner));
    let mut p = Parser::new(&data[..], cfg(attr(0, 0)));
    let (mut q, _) = p.parse_metadata().unwrap();
    match q.parse::<Record>().unwrap() {
        Record::Mmap2(m) => assert_eq!((m.maj(), m.min(), m.ino(), m.build_id()), (Some(6), Some(7), Some(8), None)),
        r => panic!("{r:?}"),
    };
}
''', 'a record parsed with the parser of an enclosing record that has other misc bits', 'misc bits of the enclosing record change how the inner one is read')

seed('c13-late-failure', 'C13',
     [(P, '''                Err(e) if e.kind() == ErrorKind::Eof => break,
                Err(e) => return Err(e),
''', '''                Err(e) if e.kind() == ErrorKind::Eof || !bytes.is_empty() => break,
                Err(e) => return Err(e),
''')],
     '''struct Flaky(usize);
unsafe impl<'p> ParseBuf<'p> for Flaky {
    fn chunk(&mut self) -> ParseResult<ParseBufChunk<'_, 'p>> {
        if self.0 < 4 { Ok(ParseBufChunk::External(&[1, 2, 3, 4][self.0..])) } else { Err(ParseError::new(std::io::Error::new(std::io::ErrorKind::Other, "disk on fire"))) }
    }
    fn advance(&mut self, n: usize) { self.0 += n; }
}
use perf_event_data::parse::*;
fn main() {
    let r = Parser::new(Flaky(0), cfg(attr(0, 0))).parse_rest();
    assert!(matches!(&r, Err(e) if e.kind() == ErrorKind::External), "{r:?}");
}
''', 'a source that fails (not with end of input) after it has delivered some bytes', 'the failure is swallowed and truncated data returned')

seed('c15-id-of-entries-without', 'C15',
     [(G, '''        if !self.read_format.contains(ReadFormat::ID) {
            return None;
        }

        self.entries().find(|entry| entry.id() == Some(id))
''', '''        self.entries().find(|entry| entry.id == id)
''')],
     '''fn main() {
    let body = b().u64(2).u64(10).u64(20);
    let g: ReadGroup = Parser::new(&body.0[..], cfg(attr(0, 1 << 3))).parse().unwrap();
    assert!(g.get_by_id(0).is_none());
    assert!(g.get_by_id(7).is_none());
}
''', 'looking up id 0 in a group read without ids', 'an entry is found although entries have no id')

seed('c16-nonzero-tail', 'C16',
     [('src/impls/perf_event_attr.rs', 'rest.iter().copied().all(|b| b == 0)', 'rest.chunks_exact(8).all(|b| b == [0; 8])')],
     '''use perf_event_data::parse::*;
fn main() {
    let mut bytes = b().u32(0).u32(136 + 12).raw(&[0; 128]).raw(&[0; 11]).u8(1).0;
    let r: ParseResult<perf_event_open_sys::bindings::perf_event_attr> = Parser::new(&bytes[..], cfg(attr(0, 0))).parse();
    assert!(r.is_err());
    *bytes.last_mut().unwrap() = 0;
    let r: ParseResult<perf_event_open_sys::bindings::perf_event_attr> = Parser::new(&bytes[..], cfg(attr(0, 0))).parse();
    assert!(r.is_ok());
}
''', 'attributes longer than known by a number that is not a multiple of eight, with the only set bit in the last bytes', 'unknown attributes are silently dropped')

seed('c17-first-optional', 'C17',
     [('src/macros.rs', '''            option_struct!(impl(drop $(, #[copy $($copy:tt)?])?) $name, $($lt,)? $( $field, )*);

            impl$(<$lt>)? Clone for $name$(<$lt>)?
            where
                $( $ty : Clone ),*
            {
                fn clone(&self) -> Self {
                    Self::new(
                        $( self.$field().cloned() ),*
                    )
                }
            }
''', '''            option_struct!(impl(drop $(, #[copy $($copy:tt)?])?) $name, $($lt,)? $( $field, )*);

            impl$(<$lt>)? Clone for $name$(<$lt>)?
            where
                $( $ty : Clone ),*
            {
                fn clone(&self) -> Self {
                    let mut this = Self::new(
                        $( self.$field().cloned() ),*
                    );
                    this.__flags |= self.__flags & !(self.__flags >> 1);
                    this.__flags &= !(1 << (Offsets::FIELD_COUNT - 1)) | (self.__flags << 1);
                    this
                }
            }
''')],
     '''fn main() {
    // code page size alone, without the data page size before it
    let body = b().u64(4096);
    let s: Sample = Parser::new(&body.0[..], cfg(attr(1 << 23, 0))).parse().unwrap();
    let t = s.clone();
    assert_eq!(s.code_page_size(), Some(4096));
    assert_eq!(t.code_page_size(), Some(4096));
}
''', 'cloning a sample that has the last optional field but not the one before it', 'the clone lacks the field')

seed('c18-lost-before-id', 'C18',
     [(G, '''        data.extend(value.id());
        data.extend(value.lost());
''', '''        data.extend(value.lost());
        data.extend(value.id());
''')],
     '''fn main() {
    let body = b().u64(100).u64(7).u64(3);
    let v: ReadValue = Parser::new(&body.0[..], cfg(attr(0, (1 << 2) | (1 << 4)))).parse().unwrap();
    assert_eq!((v.value(), v.id(), v.lost()), (100, Some(7), Some(3)));
    let g = ReadGroup::from(v);
    let e = g.get(0).unwrap();
    assert_eq!((e.value(), e.id(), e.lost()), (100, Some(7), Some(3)));
}
''', 'turning a single read with both id and lost count into a group', 'the id and the lost count change places')

seed('c21-reader-buffered-hint', 'C21',
     [(PB, '''    #[inline]
    fn advance(&mut self, count: usize) {
        self.consume(count)
    }
''', '''    #[inline]
    fn advance(&mut self, count: usize) {
        self.consume(count)
    }

    #[inline]
    fn remaining_hint(&self) -> Option<usize> {
        match self.buffer().len() {
            0 => None,
            len => Some(len),
        }
    }
''')],
     '''use std::io::{BufRead, BufReader};
fn main() {
    let data = [5u8; 64];
    let mut r = BufReader::with_capacity(16, &data[..]);
    r.fill_buf().unwrap();
    let left = 64;
    if let Some(n) = ParseBuf::remaining_hint(&r) {
        assert_eq!(n, left);
    }
}
use perf_event_data::parse::*;
''', 'a buffered reader whose buffer holds less than what is left', 'the length of the buffer is announced as all that is left')

seed('c21-view-hint', 'C21',
     [(PB, '''    #[inline]
    fn remaining_hint(&self) -> Option<usize> {
        Some(self.len)
    }
''', '''    #[inline]
    fn remaining_hint(&self) -> Option<usize> {
        let buffered: usize = self.chunks.iter().map(|chunk| chunk.len()).sum();
        Some(buffered.min(self.len + self.offset))
    }
''')],
     '''fn main() {
    // a record in one piece of a source that does not lend its data: after some of the
    // body is read the view must still know how much is left
    let body = b().u64(1).u16(3).u16(2).raw(&[1, 2, 3, 4, 5]).raw(&[0; 7]);
    let data = record(20, 0, body);
    let mut p = Parser::new(Chunks::new(&data, &[data.len()], false, true), cfg(attr(0, 0)));
    let (mut q, _) = p.parse_metadata().unwrap();
    q.parse_u64().unwrap();
    let r = q.parse_bytes(24);
    assert!(r.is_err());
    // announced sizes are believed up to what is left: look at the hint through a vector
    let data = record(0x70, 0, b().raw(&[9; 32]));
    let mut p = Parser::new(Chunks::new(&data, &[data.len()], false, true), cfg(attr(0, 0)));
    let (mut q, _) = p.parse_metadata().unwrap();
    q.parse_u64().unwrap();
    let before = ALLOC.load(std::sync::atomic::Ordering::SeqCst);
    let _ = before;
    let v = q.parse_repeated::<u8>(1000);
    assert!(v.is_err());
    assert!(LARGEST.load(std::sync::atomic::Ordering::SeqCst) != 32, "memory for 32 bytes although 24 are left");
}
use std::alloc::*;
use std::sync::atomic::AtomicUsize;
static ALLOC: AtomicUsize = AtomicUsize::new(0);
static LARGEST: AtomicUsize = AtomicUsize::new(0);
struct A;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.align() == 1 { LARGEST.store(l.size(), std::sync::atomic::Ordering::SeqCst); }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator]
static GA: A = A;
''', 'a view that has been advanced within a chunk', 'the view announces bytes that have been read already as still left')

seed('c20-build-id-into-mmap', 'C20',
     [('src/visitor.rs', 'self.visit_mmap(record.into_mmap(), metadata)', 'if record.build_id().is_some() { self.visit_unimplemented(metadata) } else { self.visit_mmap(record.into_mmap(), metadata) }')],
     '''use std::cell::Cell;
struct V<'c>(&'c Cell<u32>);
impl<'a, 'c> Visitor<'a> for V<'c> {
    type Output = ();
    fn visit_unimplemented(self, _: RecordMetadata) {}
    fn visit_mmap(self, _: Mmap<'a>, _: RecordMetadata) { self.0.set(self.0.get() + 1) }
}
fn main() {
    let c = Cell::new(0);
    for misc in [0, 1 << 14] {
        let data = record(10, misc, b().u32(1).u32(2).u64(3).u64(4).u64(5).u8(20).u8(0).u16(0).raw(&[7; 20]).u32(1).u32(2).raw(b"/bin/x\\0\\0"));
        Parser::new(&data[..], cfg(attr(0, 0))).parse_record(V(&c)).unwrap();
    }
    assert_eq!(c.get(), 2);
}
''', 'an MMAP2 record with a build id seen by a visitor that only implements visit_mmap', 'the record is not passed to visit_mmap')

seed('c02-page-size-order', 'C02',
     [(S, '''        let cgroup = p.parse_if(sty.contains(SampleFlags::CGROUP))?;
        let data_page_size = p.parse_if(sty.contains(SampleFlags::DATA_PAGE_SIZE))?;
''', '''        let data_page_size = p.parse_if(sty.contains(SampleFlags::DATA_PAGE_SIZE))?;
        let cgroup = p.parse_if(sty.contains(SampleFlags::CGROUP))?;
''')],
     '''fn main() {
    let body = b().u64(1).u64(2);
    let s: Sample = Parser::new(&body.0[..], cfg(attr((1 << 21) | (1 << 22), 0))).parse().unwrap();
    assert_eq!((s.cgroup(), s.data_page_size()), (Some(1), Some(2)));
}
''', 'a sample with both the cgroup and the data page size', 'the two values change places')

seed('c19-snoopx', 'C19',
     [(S, 'MemSnoop::new(self.bitfield().mem_snoop(), self.bitfield().mem_snoopx())', 'MemSnoop::new(self.bitfield().mem_snoop(), self.bitfield().mem_snoopx() & 1)')],
     '''fn main() {
    let body = b().u64(2 << 38);
    let s: Sample = Parser::new(&body.0[..], cfg(attr(1 << 15, 0))).parse().unwrap();
    assert_eq!(s.data_src().unwrap().mem_snoop(), MemSnoop::PEER);
}
''', 'a memory access with the PEER bit of the extended snoop field', 'the bit is dropped')

seed('c22-keep-temporary', 'C22',
     [('src/parsebuf.rs', '''            if chunk.len() > 0 {
                chunks.push(chunk.to_cow());
            }
''', '''            if chunk.len() == total_len {
                // The whole record is in this chunk, there is no need to copy it.
                let data: &[u8] = &chunk;
                chunks.push(Cow::Borrowed(unsafe {
                    std::mem::transmute::<&[u8], &'p [u8]>(data)
                }));
            } else if chunk.len() > 0 {
                chunks.push(chunk.to_cow());
            }
''')],
     '''use std::io::BufReader;
fn main() {
    let mut data = record(3, 0, b().u32(1).u32(2).raw(b"first\\0\\0\\0"));
    data.extend(record(3, 0, b().u32(1).u32(2).raw(b"other\\0\\0\\0")));
    let src = BufReader::with_capacity(24, &data[..]);
    let mut p = Parser::new(src, cfg(attr(0, 0)));
    let a: Record = p.parse().unwrap();
    let c: Record = p.parse().unwrap();
    let name = |r: &Record| match r { Record::Comm(c) => c.comm.to_vec(), _ => panic!() };
    assert_eq!(name(&c), b"other");
    assert_eq!(name(&a), b"first");
}
''', 'a record that lies in one piece in the buffer of a reader, kept while the reader goes on', 'the record shows bytes of a later one')

seed('c22-group-iter-raw', 'C22',
     [('src/records/read.rs', """    iter: std::slice::ChunksExact<'a, u64>,
    read_format: ReadFormat,
}
""", """    iter: std::slice::ChunksExact<'a, u64>,
    read_format: ReadFormat,
    last: std::cell::Cell<u64>,
}
"""), ('src/records/read.rs', """            iter: group.data.chunks_exact(read_format.element_len()),
            read_format,
""", """            iter: group.data.chunks_exact(read_format.element_len()),
            read_format,
            last: Default::default(),
""")],
     '''fn sync<T: Sync>(_: &T) {}
fn main() {
    let body = b().u64(0);
    let mut a = attr(0, 0);
    a.read_format = 8;
    let g: ReadGroup = Parser::new(&body.0[..], cfg(a)).parse().unwrap();
    sync(&g.entries());
}
''', 'sharing the iterator over the entries of a group between threads', 'the iterator can no longer be shared')

seed('c23-group-running', 'C23',
     [('src/records/read.rs', """                time_enabled if read_format.contains(ReadFormat::TOTAL_TIME_ENABLED) => self.time_enabled,
                time_running if read_format.contains(ReadFormat::TOTAL_TIME_RUNNING) => self.time_running,
                entries""", """                time_enabled if read_format.contains(ReadFormat::TOTAL_TIME_ENABLED) => self.time_enabled,
                time_running if read_format.intersects(ReadFormat::TOTAL_TIME_RUNNING | ReadFormat::TOTAL_TIME_ENABLED) => self.time_running,
                entries""")],
     '''fn main() {
    let body = b().u64(1).u64(500).u64(7);
    let mut a = attr(0, 0);
    a.read_format = 8 | 1;
    let g: ReadGroup = Parser::new(&body.0[..], cfg(a)).parse().unwrap();
    let text = format!("{:?}", g);
    assert!(text.contains("time_enabled: 500"), "{text}");
    assert!(!text.contains("time_running"), "{text}");
}
''', 'a group read format with the time enabled and without the time running', 'debug output shows a time that was not recorded')

seed('c23-mmap2-generation', 'C23',
     [('src/records/mmap2.rs', """                    .field("ino", ino)
                    .field("ino_generation", ino_generation);""", """                    .field("ino", ino)
                    .field("ino_generation", ino);""")],
     '''fn main() {
    let body = b().u32(1).u32(2).u64(3).u64(4).u64(5).u32(6).u32(7).u64(8).u64(9).u32(10).u32(11).raw(b"name\\0\\0\\0\\0");
    let m: Mmap2 = Parser::new(&body.0[..], cfg(attr(0, 0))).parse().unwrap();
    let text = format!("{:?}", m);
    assert!(text.contains("ino: 8,") && text.contains("ino_generation: 9,"), "{text}");
}
''', 'an extended mmap record whose inode and generation differ', 'debug output shows the inode as its generation')

seed('c23-eof-source', 'C23',
     [('src/error.rs', """            if !matches!(self.code, ErrorKind::External) {
                f.write_str(": ")?;
            }

            source.fmt(f)?;
""", """            match self.code {
                ErrorKind::External => source.fmt(f)?,
                // The cause of an EOF is always another EOF so there's no need to repeat it.
                ErrorKind::Eof => (),
                _ => {
                    f.write_str(": ")?;
                    source.fmt(f)?;
                }
            }
""")],
     '''fn main() {
    let e = std::io::Error::new(std::io::ErrorKind::UnexpectedEof, "ring buffer closed by owner");
    let text = format!("{}", ParseError::from(e));
    assert!(text.contains("ring buffer closed by owner"), "{text}");
    let e = std::io::Error::new(std::io::ErrorKind::Other, "broken");
    assert_eq!(format!("{}", ParseError::from(e)), "broken");
}
''', 'an end-of-input error that carries a source of its own', 'the text of the source is left out')

seed('c05-metadata-padding', 'C05',
     [('src/parse.rs', """        let header = self.parse()?;
        self.parse_metadata_with_header(header)
""", """        let mut header: bindings::perf_event_header = self.parse()?;
        // Records are padded to a multiple of 8 bytes.
        header.size = header.size.next_multiple_of(8);
        self.parse_metadata_with_header(header)
""")],
     '''fn main() {
    let data = b().u32(2).u16(0).u16(12).u32(7).u32(99).u64(5);
    let mut p = Parser::new(&data.0[..], cfg(attr(0, 0)));
    let n = {
        let (mut q, _) = p.parse_metadata().unwrap();
        q.parse_rest().unwrap().len()
    };
    assert_eq!(n, 4);
    assert_eq!(p.parse::<u32>().unwrap(), 99);
}
''', 'a record whose size is not a multiple of 8, read through parse_metadata', 'bytes of the next record become part of this one')

seed('c13-cause-of-eof', 'C13',
     [('src/error.rs', """        match &self.source {
            Some(source) => Some(&**source),
            None => None,
        }
""", """        match &self.source {
            Some(source) if self.code == ErrorKind::External => Some(&**source),
            _ => None,
        }
""")],
     '''fn main() {
    use std::error::Error;
    let e = std::io::Error::new(std::io::ErrorKind::UnexpectedEof, "ring buffer closed by owner");
    let e = ParseError::from(e);
    assert_eq!(e.source().map(|s| s.to_string()).as_deref(), Some("ring buffer closed by owner"));
    let e = std::io::Error::new(std::io::ErrorKind::Other, "broken");
    assert_eq!(ParseError::from(e).source().map(|s| s.to_string()).as_deref(), Some("broken"));
}
''', 'asking an end-of-input error of a reader for its cause', 'the error of the source does not reach the caller')
