"""The type-level witnesses: name -> (expectation, statement, program).

`ok` programs have to type-check; `fail` programs differ from an `ok` one (their
control) only in the marked line and must be rejected by the borrow checker."""

PRE = '''#![allow(unused, dead_code)]
extern crate perf_event_data;
extern crate perf_event_open_sys;
use perf_event_data::*;
use perf_event_data::parse::*;
use perf_event_data::endian::*;
use std::borrow::Cow;
use std::io::{BufReader, Read as IoRead};
type Cfg = ParseConfig<Little>;
fn touch<T>(_: &T) {}
'''

PLAIN = '''BpfEvent BpfEventType KSymbolType KSymbolFlags AuxOutputHwId LostSamples Read ReadValue GroupEntry
TryFromGroupError Lost Exit ITraceStart SampleId NamespaceEntry SampleRegsAbi BranchType BranchEntry DataSource MemOp
MemLevel MemLock MemDtlb MemSnoop MemSnoopX MemBlk MemLevelNum Txn SwitchCpuWide Aux AuxFlags AuxPmuFormatType Throttle
RecordMetadata SampleFlags ReadFormat ErrorKind Native Little Big Dynamic'''.split()
LIFE = 'Mmap Mmap2 Comm CGroup KSymbol TextPoke Namespaces ReadGroup GroupIter Registers Sample Record'.split()
CONF = ['ParseConfig<%s>' % e for e in ('Native', 'Little', 'Big', 'Dynamic')]
EXTRA = ["ParseBufChunk<'static, 'static>", "Parser<&'static [u8], Little>"]
NOCLONE = ('TryFromGroupError',)

W = {}


def ok(name, why, src):
    W[name] = ('ok', why, PRE + src)


def pair(name, why, src):
    """`// <-` lines are left out of the control."""
    W[name + ' (control)'] = ('ok', why, PRE + '\n'.join(l for l in src.split('\n') if '// <-' not in l))
    W[name] = ('fail', why, PRE + src)


allt = PLAIN + [t + "<'static>" for t in LIFE] + CONF + EXTRA
for tr in ('Send', 'Sync'):
    ok(tr.lower(), 'record, error, configuration and parser types are ' + tr,
       'fn is<T: %s + ?Sized>() {}\nfn all() {\n%s\n}\n' % (tr, '\n'.join('    is::<%s>();' % t for t in allt + ['ParseError'])) +
       "fn gen<'a>() {\n%s\n}\n" % '\n'.join("    is::<%s<'a>>();" % t for t in LIFE))
ok('parser send and sync', 'a parser is as thread-safe as its source',
   'fn s<T: Send>() {}\nfn y<T: Sync>() {}\n'
   'fn a<B: Send, E: Send>() { s::<Parser<B, E>>(); }\nfn b<B: Sync, E: Sync>() { y::<Parser<B, E>>(); }\n'
   'fn c<E: Send>() { s::<ParseConfig<E>>(); }\nfn d<E: Sync>() { y::<ParseConfig<E>>(); }\n')
ok('clone', 'record and configuration types can be cloned',
   'fn is<T: Clone>() {}\nfn all() {\n%s\n}\n' % '\n'.join('    is::<%s>();' % t for t in allt if t not in NOCLONE))
ok('copy', 'small values are Copy', 'fn is<T: Copy>() {}\nfn all() {\n%s\n}\n' % '\n'.join(
    '    is::<%s>();' % t for t in ('BpfEvent AuxOutputHwId Lost SampleId GroupEntry NamespaceEntry BranchEntry DataSource SwitchCpuWide ErrorKind').split()))
ok('error object', 'a parse error is an error object that can cross threads and outlive the input',
   'fn is<T: std::error::Error + Send + Sync + \'static>() {}\nfn all() { is::<ParseError>(); is::<TryFromGroupError>(); }\n'
   "fn b(e: ParseError) -> Box<dyn std::error::Error + Send + Sync + 'static> { Box::new(e) }\n")
ok('thread', 'records can be moved to and used from another thread',
   "fn f(r: Record<'static>) { std::thread::spawn(move || { touch(&r); }); }\n"
   "fn g<'a>(r: Record<'a>) { std::thread::scope(|s| { s.spawn(|| touch(&r)); }); }\n")
for t, m in [('Mmap', 'into_owned'), ('Mmap2', 'into_owned'), ('Comm', 'into_owned'), ('CGroup', 'into_owned'), ('KSymbol', 'into_owned'),
             ('ReadGroup', 'into_owned'), ('TextPoke', 'to_owned')]:
    ok('owned ' + t, 'the owned form does not depend on the input', "fn f(r: %s<'_>) -> %s<'static> { r.%s() }\n" % (t, t, m))
ok('covariant', 'a record may be used where a shorter-lived one is expected',
   '\n'.join("fn f%d<'a>(r: %s<'static>) -> %s<'a> { r }" % (i, t, t) for i, t in enumerate(LIFE)) + '\n')

OPS = dict(
    parse_bytes='p.parse_bytes(4).unwrap()', parse_rest='p.parse_rest().unwrap()', parse_rest_trim_nul='p.parse_rest_trim_nul().unwrap()',
    parse_slice='unsafe { p.parse_slice::<u64>(1) }.unwrap()', parse_slice_direct='unsafe { p.parse_slice_direct::<u64>(1) }.unwrap()',
    parse_record='p.parse::<Record>().unwrap()', parse_metadata='p.parse_metadata().unwrap()')
for t in ('Mmap', 'Mmap2', 'Comm', 'CGroup', 'KSymbol', 'TextPoke', 'Namespaces', 'ReadGroup', 'Sample'):
    OPS[t] = 'p.parse::<%s>().unwrap()' % t
for n, e in sorted(OPS.items()):
    pair('outlives ' + n, 'what %s returns cannot outlive the input' % n, '''
fn f(cfg: Cfg) {
    let data = vec![0u8; 64];
    let mut p = Parser::new(&data[..], cfg);
    let r = %s;
    drop(data); // <-
    touch(&r);
}
''' % e)
    # the result of reading may be kept while reading on
    if n != 'parse_metadata':
        ok('kept ' + n, 'what %s returns may be kept while reading on' % n, '''
fn f<'p, B: ParseBuf<'p>>(mut p: Parser<B, Little>) {
    let r = %s;
    let s = p.parse_u8();
    drop(p);
    touch(&r);
}
''' % e)
    # a slice must come back with the lifetime of the data, not any other
    if n in ('parse_bytes', 'parse_rest', 'parse_rest_trim_nul'):
        pair('static ' + n, 'what %s returns is not longer-lived than the input' % n, '''
fn f<'p>(p: &mut Parser<&'p [u8], Little>) {
    let r: Cow<'p, [u8]> = %s;
    let r: Cow<'static, [u8]> = r; // <-
    touch(&r);
}
''' % e)
        pair('generic ' + n, 'what %s returns lives as long as the source says' % n, '''
fn f<'p, 'q, B: ParseBuf<'p>>(p: &mut Parser<B, Little>, a: &'q u8) {
    let r: Cow<'p, [u8]> = %s;
    let r: Cow<'q, [u8]> = r; // <-
    touch(&r);
}
''' % e)
pair('chunk then advance', 'a chunk of a reader is not used after advancing', '''
fn f(mut b: BufReader<std::fs::File>) {
    let c = ParseBuf::chunk(&mut b).unwrap();
    b.advance(1); // <-
    touch(&c);
}
''')
pair('chunk then read', 'a chunk of any source is not used after the source is used again', '''
fn f<'p, B: ParseBuf<'p>>(mut b: B) {
    let c = b.chunk().unwrap();
    b.advance(1); // <-
    touch(&c);
}
''')
pair('chunk outlives reader', 'a temporary chunk does not outlive its source', '''
fn f(mut b: BufReader<std::fs::File>) {
    let c = ParseBuf::chunk(&mut b).unwrap();
    drop(b); // <-
    touch(&c);
}
''')
pair('lend temporary', 'a source cannot lend its own buffer as external', '''
struct S(Vec<u8>);
unsafe impl<'p> ParseBuf<'p> for S {
    fn chunk(&mut self) -> ParseResult<ParseBufChunk<'_, 'p>> {
        return Ok(ParseBufChunk::External(&self.0)); // <-
        Ok(ParseBufChunk::Temporary(&self.0))
    }
    fn advance(&mut self, n: usize) {}
}
''')
pair('promote chunk', 'a temporary chunk cannot be turned into an external one', '''
fn f<'t, 'e: 't>(c: ParseBufChunk<'t, 'e>) -> Option<&'e [u8]> {
    match c {
        ParseBufChunk::External(d) => Some(d),
        ParseBufChunk::Temporary(d) => Some(d), // <-
        _ => None,
    }
}
''')
pair('chunk deref', 'the bytes of a chunk do not outlive the chunk', '''
fn f<'e>(b: &mut &'e [u8]) {
    let c = b.chunk().unwrap();
    let s: &[u8] = &c;
    drop(touch::<u8>); let _ = { let c2 = b.chunk().unwrap(); c2.len() }; // <-
    touch(&s);
}
''')
for t, f in [('CGroup', 'path_os'), ('Comm', 'comm_os'), ('Mmap', 'filename_os'), ('Mmap2', 'filename_os'), ('Mmap2', 'build_id'),
             ('Namespaces', 'network'), ('Namespaces', 'uts'), ('Namespaces', 'ipc'), ('Namespaces', 'pid'), ('Namespaces', 'user'),
             ('Namespaces', 'cgroup'), ('Sample', 'values'), ('Sample', 'callchain'), ('Sample', 'raw'), ('Sample', 'lbr'), ('Sample', 'regs_user'),
             ('Sample', 'stack_user'), ('Sample', 'regs_intr'), ('Sample', 'aux'), ('ReadGroup', 'entries')]:
    pair('borrow %s::%s' % (t, f), 'what %s::%s returns does not outlive the value' % (t, f), '''
fn f(v: %s<'static>) {
    let r = v.%s();
    drop(v); // <-
    touch(&r);
}
''' % (t, f))
pair('borrow RecordMetadata::sample_id', 'the sample id is borrowed from the metadata', '''
fn f(v: RecordMetadata) {
    let r = v.sample_id();
    drop(v); // <-
    touch(&r);
}
''')
pair('borrow Parser::config', 'the configuration is borrowed from the parser', '''
fn f(mut v: Parser<&'static [u8], Little>) {
    let r = v.config();
    drop(v); // <-
    touch(&r);
}
''')
pair('borrow nested parser', 'a record parser does not outlive the data it was made over', '''
fn f(cfg: Cfg) {
    let data = vec![0u8; 64];
    let mut p = Parser::new(&data[..], cfg);
    let (mut q, m) = p.parse_metadata().unwrap();
    let r = q.parse_rest().unwrap();
    drop(data); // <-
    touch(&r);
}
''')
pair('owned record freed', 'a converted record does not outlive the value it borrows from', '''
fn f<'a>(g: &'a ReadGroup<'static>) {
    let it = g.entries();
    touch(&it);
}
fn h(g: ReadGroup<'static>) {
    let mut it = g.entries();
    drop(g); // <-
    it.next();
}
''')
pair('visited record', 'a visitor cannot keep a record beyond the data', '''
struct V<'s, 'a>(&'s mut Option<Record<'a>>);
impl<'s, 'a> Visitor<'a> for V<'s, 'a> {
    type Output = ();
    fn visit_unimplemented(self, m: RecordMetadata) {}
    fn visit_comm(self, r: Comm<'a>, m: RecordMetadata) { *self.0 = Some(Record::Comm(r)); }
}
fn f(cfg: Cfg) {
    let data = vec![0u8; 64];
    let mut keep = None;
    let mut p = Parser::new(&data[..], cfg);
    p.parse_record(V(&mut keep)).unwrap();
    drop(data); // <-
    touch(&keep);
}
''')

# what only `unsafe` code may do
UNSAFE = {}


def unsafe(name, why, good, bad):
    W[name + ' (control)'] = ('ok', why, PRE + good)
    W[name] = ('unsafe', why, PRE + bad)


for n, good in [('parse_slice', 'fn f(p: &mut Parser<&[u8], Little>) { let _ = unsafe { p.parse_slice::<u64>(1) }; }\n'),
                ('parse_slice_direct', 'fn f(p: &mut Parser<&[u8], Little>) { let _ = unsafe { p.parse_slice_direct::<u64>(1) }; }\n')]:
    unsafe('unsafe ' + n, 'reinterpreting bytes needs unsafe', good, good.replace('unsafe { ', '{ '))
src = '''
struct S;
unsafe impl<'p> ParseBuf<'p> for S {
    fn chunk(&mut self) -> ParseResult<ParseBufChunk<'_, 'p>> { Err(ParseError::eof()) }
    fn advance(&mut self, n: usize) {}
}
'''
unsafe('unsafe ParseBuf', 'a source is trusted by unsafe code, so implementing one needs unsafe', src, src.replace('unsafe impl', 'impl'))
