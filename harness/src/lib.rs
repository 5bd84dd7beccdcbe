//! Roots for the static analysis.  Nothing here is ever executed: the
//! analyser reads the MIR reachable from the `root_*` functions.
#![allow(clippy::all, unused)]
use perf_event_data::endian::*;
use perf_event_data::parse::*;
use perf_event_data::*;
use perf_event_open_sys::bindings::{perf_event_attr, perf_event_header};
use std::borrow::Cow;

/// The abstract byte source: every `ParseBuf` that honours the trait contract.
pub struct AbsBuf(u64);
unsafe impl<'p> ParseBuf<'p> for AbsBuf {
    fn chunk(&mut self) -> ParseResult<ParseBufChunk<'_, 'p>> {
        loop {}
    }
    fn advance(&mut self, _count: usize) {
        loop {}
    }
    fn remaining_hint(&self) -> Option<usize> {
        loop {}
    }
}

/// The abstract byte order: every `Endian` that honours the trait contract.
#[derive(Clone, Default, Debug)]
pub struct AbsEndian;
unsafe impl Endian for AbsEndian {
    fn convert_u16(&self, _b: [u8; 2]) -> u16 {
        loop {}
    }
    fn convert_u32(&self, _b: [u8; 4]) -> u32 {
        loop {}
    }
    fn convert_u64(&self, _b: [u8; 8]) -> u64 {
        loop {}
    }
    fn is_native(&self) -> bool {
        loop {}
    }
}

type P = Parser<AbsBuf, AbsEndian>;

fn mk(buf: AbsBuf, attr: perf_event_attr) -> P {
    Parser::new(buf, ParseConfig::from(attr))
}


// ------------------------------------------------------------ observations
// What a user can see of each type through its public interface.
pub struct OSampleId { pub pid: Option<u32>, pub tid: Option<u32>, pub time: Option<u64>, pub id: Option<u64>, pub stream_id: Option<u64>, pub cpu: Option<u32> }
pub fn o_sample_id(s: &SampleId) -> OSampleId {
    OSampleId { pid: s.pid(), tid: s.tid(), time: s.time(), id: s.id(), stream_id: s.stream_id(), cpu: s.cpu() }
}
pub struct OMeta { pub ty: u32, pub misc: u16, pub sample_id: OSampleId }
pub fn o_meta(m: &RecordMetadata) -> OMeta {
    OMeta { ty: m.ty(), misc: m.misc(), sample_id: o_sample_id(m.sample_id()) }
}
pub struct OReadValue { pub value: u64, pub time_enabled: Option<u64>, pub time_running: Option<u64>, pub id: Option<u64>, pub lost: Option<u64> }
pub fn o_read_value(v: &ReadValue) -> OReadValue {
    OReadValue { value: v.value(), time_enabled: v.time_enabled(), time_running: v.time_running(), id: v.id(), lost: v.lost() }
}
pub struct OEntry { pub value: u64, pub id: Option<u64>, pub lost: Option<u64> }
pub fn o_entry(v: &GroupEntry) -> OEntry {
    OEntry { value: v.value(), id: v.id(), lost: v.lost() }
}
pub struct OGroup { pub time_enabled: Option<u64>, pub time_running: Option<u64>, pub len: usize, pub is_empty: bool, pub e0: Option<OEntry>, pub e1: Option<OEntry> }
pub fn o_group(v: &ReadGroup<'_>) -> OGroup {
    OGroup { time_enabled: v.time_enabled(), time_running: v.time_running(), len: v.len(), is_empty: v.is_empty(),
        e0: v.get(0).map(|e| o_entry(&e)), e1: v.get(1).map(|e| o_entry(&e)) }
}
pub struct ORead { pub pid: u32, pub tid: u32, pub values: OReadValue }
pub fn o_read(r: &Read) -> ORead {
    ORead { pid: r.pid, tid: r.tid, values: o_read_value(&r.values) }
}
pub struct OMmap2<'a> { pub pid: u32, pub tid: u32, pub addr: u64, pub len: u64, pub pgoff: u64, pub prot: u32, pub flags: u32, pub filename: Cow<'a, [u8]>,
    pub maj: Option<u32>, pub min: Option<u32>, pub ino: Option<u64>, pub ino_generation: Option<u64>, pub build_id: Option<Vec<u8>> }
pub fn o_mmap2<'a>(r: &Mmap2<'a>) -> OMmap2<'a> {
    OMmap2 { pid: r.pid, tid: r.tid, addr: r.addr, len: r.len, pgoff: r.pgoff, prot: r.prot, flags: r.flags, filename: r.filename.clone(),
        maj: r.maj(), min: r.min(), ino: r.ino(), ino_generation: r.ino_generation(), build_id: match r.build_id() { Some(b) => Some(b.to_vec()), None => None } }
}
pub struct OBranch { pub from: u64, pub to: u64, pub mispred: bool, pub predicted: bool, pub in_tx: bool, pub abort: bool, pub cycles: u16, pub ty: BranchType }
pub fn o_branch(b: &BranchEntry) -> OBranch {
    OBranch { from: b.from(), to: b.to(), mispred: b.mispred(), predicted: b.predicted(), in_tx: b.in_tx(), abort: b.abort(), cycles: b.cycles(), ty: b.ty() }
}
pub struct OSource { pub mem_op: u64, pub mem_lvl: u64, pub mem_snoop: u64, pub mem_lock: u64, pub mem_dtlb: u64, pub mem_lvl_num: MemLevelNum, pub mem_remote: bool, pub mem_blk: u64, pub mem_hops: u8 }
pub fn o_source(d: &DataSource) -> OSource {
    OSource { mem_op: d.mem_op().bits(), mem_lvl: d.mem_lvl().bits(), mem_snoop: d.mem_snoop().bits(), mem_lock: d.mem_lock().bits(), mem_dtlb: d.mem_dtlb().bits(),
        mem_lvl_num: d.mem_lvl_num(), mem_remote: d.mem_remote(), mem_blk: d.mem_blk().bits(), mem_hops: d.mem_hops() }
}
pub struct OTxn { pub bits: u64, pub abort: u32 }
pub fn o_txn(t: &Txn) -> OTxn {
    OTxn { bits: t.bits(), abort: t.abort() }
}
pub struct ORegs<'a> { pub abi: SampleRegsAbi, pub mask: u64, pub regs: Cow<'a, [u64]> }
pub fn o_regs<'a>(r: &'a Registers<'_>) -> ORegs<'a> {
    ORegs { abi: r.abi, mask: r.mask, regs: Cow::Borrowed(&*r.regs) }
}
pub struct OLbr { pub len: usize, pub e0: Option<OBranch>, pub e1: Option<OBranch> }
pub fn o_lbr(b: &[BranchEntry]) -> OLbr {
    OLbr { len: b.len(), e0: b.get(0).map(o_branch), e1: b.get(1).map(o_branch) }
}
pub struct OSample<'a> {
    pub id: Option<u64>, pub ip: Option<u64>, pub pid: Option<u32>, pub tid: Option<u32>, pub time: Option<u64>, pub addr: Option<u64>,
    pub stream_id: Option<u64>, pub cpu: Option<u32>, pub period: Option<u64>, pub values: Option<OGroup>, pub callchain: Option<&'a [u64]>,
    pub raw: Option<&'a [u8]>, pub lbr_hw_index: Option<u64>, pub lbr: Option<OLbr>, pub regs_user: Option<ORegs<'a>>,
    pub stack_user: Option<&'a [u8]>, pub weight: Option<u64>, pub data_src: Option<OSource>, pub transaction: Option<OTxn>,
    pub regs_intr: Option<ORegs<'a>>, pub phys_addr: Option<u64>, pub aux: Option<&'a [u8]>, pub cgroup: Option<u64>,
    pub data_page_size: Option<u64>, pub code_page_size: Option<u64>,
}
pub fn o_sample<'a>(s: &'a Sample<'_>) -> OSample<'a> {
    OSample { id: s.id(), ip: s.ip(), pid: s.pid(), tid: s.tid(), time: s.time(), addr: s.addr(), stream_id: s.stream_id(), cpu: s.cpu(), period: s.period(),
        values: match s.values() { Some(g) => Some(o_group(g)), None => None }, callchain: s.callchain(), raw: s.raw(), lbr_hw_index: s.lbr_hw_index(),
        lbr: match s.lbr() { Some(b) => Some(o_lbr(b)), None => None },
        regs_user: match s.regs_user() { Some(r) => Some(o_regs(r)), None => None }, stack_user: s.stack_user(), weight: s.weight(),
        data_src: match s.data_src() { Some(d) => Some(o_source(&d)), None => None }, transaction: match s.transaction() { Some(t) => Some(o_txn(&t)), None => None },
        regs_intr: match s.regs_intr() { Some(r) => Some(o_regs(r)), None => None }, phys_addr: s.phys_addr(), aux: s.aux(), cgroup: s.cgroup(),
        data_page_size: s.data_page_size(), code_page_size: s.code_page_size() }
}
pub struct ONamespaces<'a> { pub pid: u32, pub tid: u32, pub namespaces: Cow<'a, [NamespaceEntry]>,
    pub network: Option<NamespaceEntry>, pub uts: Option<NamespaceEntry>, pub ipc: Option<NamespaceEntry>, pub pid_ns: Option<NamespaceEntry>, pub user: Option<NamespaceEntry>, pub cgroup: Option<NamespaceEntry> }
pub fn o_namespaces<'a>(n: &Namespaces<'a>) -> ONamespaces<'a> {
    ONamespaces { pid: n.pid, tid: n.tid, network: n.network().copied(), uts: n.uts().copied(), ipc: n.ipc().copied(), pid_ns: n.pid().copied(),
        user: n.user().copied(), cgroup: n.cgroup().copied(), namespaces: n.namespaces.clone() }
}
pub struct OAux { pub aux_offset: u64, pub aux_size: u64, pub flags: u64, pub pmu_format_type: AuxPmuFormatType }
pub fn o_aux(a: &Aux) -> OAux {
    OAux { aux_offset: a.aux_offset, aux_size: a.aux_size, flags: a.flags.bits(), pmu_format_type: a.flags.pmu_format_type() }
}
pub struct OSwitch { pub is_out: bool, pub pid: u32, pub tid: u32, pub apid: u32, pub atid: u32 }
pub fn o_switch(s: &SwitchCpuWide) -> OSwitch {
    let (is_out, pid, tid) = match *s { SwitchCpuWide::In { pid, tid } => (false, pid, tid), SwitchCpuWide::Out { pid, tid } => (true, pid, tid) };
    OSwitch { is_out, pid, tid, apid: s.pid(), atid: s.tid() }
}

/// One variant per `Visitor` callback, carrying exactly what was delivered.
pub enum Out<'a> {
    Mmap(Mmap<'a>, OMeta),
    Lost(Lost, OMeta),
    Comm(Comm<'a>, OMeta),
    Exit(Exit, OMeta),
    Throttle(Throttle, OMeta),
    Unthrottle(Throttle, OMeta),
    Fork(Fork, OMeta),
    Read(ORead, OMeta),
    Sample(Sample<'a>, OMeta),
    Mmap2(OMmap2<'a>, OMeta),
    Aux(OAux, OMeta),
    ITraceStart(ITraceStart, OMeta),
    LostSamples(LostSamples, OMeta),
    Switch(OMeta),
    SwitchCpuWide(OSwitch, OMeta),
    Namespaces(ONamespaces<'a>, OMeta),
    KSymbol(KSymbol<'a>, OMeta),
    BpfEvent(BpfEvent, OMeta),
    CGroup(CGroup<'a>, OMeta),
    TextPoke(TextPoke<'a>, OMeta),
    AuxOutputHwId(AuxOutputHwId, OMeta),
    Unknown(Cow<'a, [u8]>, OMeta),
    Unimplemented(OMeta),
}

pub struct V;
impl<'a> Visitor<'a> for V {
    type Output = Out<'a>;
    fn visit_unimplemented(self, m: RecordMetadata) -> Out<'a> {
        Out::Unimplemented(o_meta(&m))
    }
    fn visit_switch(self, m: RecordMetadata) -> Out<'a> {
        Out::Switch(o_meta(&m))
    }
    fn visit_unknown(self, d: Cow<'a, [u8]>, m: RecordMetadata) -> Out<'a> {
        Out::Unknown(d, o_meta(&m))
    }
    fn visit_mmap(self, r: Mmap<'a>, m: RecordMetadata) -> Out<'a> {
        Out::Mmap(r, o_meta(&m))
    }
    fn visit_lost(self, r: Lost, m: RecordMetadata) -> Out<'a> {
        Out::Lost(r, o_meta(&m))
    }
    fn visit_comm(self, r: Comm<'a>, m: RecordMetadata) -> Out<'a> {
        Out::Comm(r, o_meta(&m))
    }
    fn visit_exit(self, r: Exit, m: RecordMetadata) -> Out<'a> {
        Out::Exit(r, o_meta(&m))
    }
    fn visit_throttle(self, r: Throttle, m: RecordMetadata) -> Out<'a> {
        Out::Throttle(r, o_meta(&m))
    }
    fn visit_unthrottle(self, r: Throttle, m: RecordMetadata) -> Out<'a> {
        Out::Unthrottle(r, o_meta(&m))
    }
    fn visit_fork(self, r: Fork, m: RecordMetadata) -> Out<'a> {
        Out::Fork(r, o_meta(&m))
    }
    fn visit_read(self, r: Read, m: RecordMetadata) -> Out<'a> {
        Out::Read(o_read(&r), o_meta(&m))
    }
    fn visit_sample(self, r: Sample<'a>, m: RecordMetadata) -> Out<'a> {
        Out::Sample(r, o_meta(&m))
    }
    fn visit_mmap2(self, r: Mmap2<'a>, m: RecordMetadata) -> Out<'a> {
        Out::Mmap2(o_mmap2(&r), o_meta(&m))
    }
    fn visit_aux(self, r: Aux, m: RecordMetadata) -> Out<'a> {
        Out::Aux(o_aux(&r), o_meta(&m))
    }
    fn visit_itrace_start(self, r: ITraceStart, m: RecordMetadata) -> Out<'a> {
        Out::ITraceStart(r, o_meta(&m))
    }
    fn visit_lost_samples(self, r: LostSamples, m: RecordMetadata) -> Out<'a> {
        Out::LostSamples(r, o_meta(&m))
    }
    fn visit_switch_cpu_wide(self, r: SwitchCpuWide, m: RecordMetadata) -> Out<'a> {
        Out::SwitchCpuWide(o_switch(&r), o_meta(&m))
    }
    fn visit_namespaces(self, r: Namespaces<'a>, m: RecordMetadata) -> Out<'a> {
        Out::Namespaces(o_namespaces(&r), o_meta(&m))
    }
    fn visit_ksymbol(self, r: KSymbol<'a>, m: RecordMetadata) -> Out<'a> {
        Out::KSymbol(r, o_meta(&m))
    }
    fn visit_bpf_event(self, r: BpfEvent, m: RecordMetadata) -> Out<'a> {
        Out::BpfEvent(r, o_meta(&m))
    }
    fn visit_cgroup(self, r: CGroup<'a>, m: RecordMetadata) -> Out<'a> {
        Out::CGroup(r, o_meta(&m))
    }
    fn visit_text_poke(self, r: TextPoke<'a>, m: RecordMetadata) -> Out<'a> {
        Out::TextPoke(r, o_meta(&m))
    }
    fn visit_aux_output_hw_id(self, r: AuxOutputHwId, m: RecordMetadata) -> Out<'a> {
        Out::AuxOutputHwId(r, o_meta(&m))
    }
}

/// The record enum with what can be seen of each variant.
pub enum ORec<'a> {
    Mmap(Mmap<'a>),
    Lost(Lost),
    Comm(Comm<'a>),
    Exit(Exit),
    Throttle(Throttle),
    Unthrottle(Throttle),
    Fork(Fork),
    Read(ORead),
    Sample(Box<Sample<'a>>),
    Mmap2(OMmap2<'a>),
    Aux(OAux),
    ITraceStart(ITraceStart),
    LostSamples(LostSamples),
    Switch,
    SwitchCpuWide(OSwitch),
    Namespaces(ONamespaces<'a>),
    KSymbol(KSymbol<'a>),
    BpfEvent(BpfEvent),
    CGroup(CGroup<'a>),
    TextPoke(TextPoke<'a>),
    AuxOutputHwId(AuxOutputHwId),
    Unknown(Cow<'a, [u8]>, u32),
    Other,
}
pub fn o_record<'a>(r: Record<'a>) -> ORec<'a> {
    match r {
        Record::Mmap(r) => ORec::Mmap(r),
        Record::Lost(r) => ORec::Lost(r),
        Record::Comm(r) => ORec::Comm(r),
        Record::Exit(r) => ORec::Exit(r),
        Record::Throttle(r) => ORec::Throttle(r),
        Record::Unthrottle(r) => ORec::Unthrottle(r),
        Record::Fork(r) => ORec::Fork(r),
        Record::Read(r) => ORec::Read(o_read(&r)),
        Record::Sample(r) => ORec::Sample(r),
        Record::Mmap2(r) => ORec::Mmap2(o_mmap2(&r)),
        Record::Aux(r) => ORec::Aux(o_aux(&r)),
        Record::ITraceStart(r) => ORec::ITraceStart(r),
        Record::LostSamples(r) => ORec::LostSamples(r),
        Record::Switch => ORec::Switch,
        Record::SwitchCpuWide(r) => ORec::SwitchCpuWide(o_switch(&r)),
        Record::Namespaces(r) => ORec::Namespaces(o_namespaces(&r)),
        Record::KSymbol(r) => ORec::KSymbol(r),
        Record::BpfEvent(r) => ORec::BpfEvent(r),
        Record::CGroup(r) => ORec::CGroup(r),
        Record::TextPoke(r) => ORec::TextPoke(r),
        Record::AuxOutputHwId(r) => ORec::AuxOutputHwId(r),
        Record::Unknown { ty, data } => ORec::Unknown(data, ty),
        _ => ORec::Other,
    }
}

/// A visitor that implements nothing but the required method.
pub struct VNone;
impl<'a> Visitor<'a> for VNone {
    type Output = OMeta;
    fn visit_unimplemented(self, m: RecordMetadata) -> OMeta {
        o_meta(&m)
    }
}

/// A visitor that only implements `visit_mmap`.
pub struct VMmap;
impl<'a> Visitor<'a> for VMmap {
    type Output = Out<'a>;
    fn visit_unimplemented(self, m: RecordMetadata) -> Out<'a> {
        Out::Unimplemented(o_meta(&m))
    }
    fn visit_mmap(self, r: Mmap<'a>, m: RecordMetadata) -> Out<'a> {
        Out::Mmap(r, o_meta(&m))
    }
}

pub struct OAttr { pub type_: u32, pub size: u32, pub config: u64, pub sample_period: u64, pub sample_type: u64, pub read_format: u64, pub wakeup_events: u32, pub bp_type: u32,
    pub config1: u64, pub config2: u64, pub branch_sample_type: u64, pub sample_regs_user: u64, pub sample_stack_user: u32, pub clockid: i32, pub sample_regs_intr: u64,
    pub aux_watermark: u32, pub sample_max_stack: u16, pub reserved_2: u16, pub aux_sample_size: u32, pub reserved_3: u32, pub sig_data: u64, pub config3: u64, pub all: perf_event_attr }
pub fn o_attr(a: perf_event_attr) -> OAttr {
    unsafe {
        OAttr { type_: a.type_, size: a.size, config: a.config, sample_period: a.__bindgen_anon_1.sample_period, sample_type: a.sample_type, read_format: a.read_format,
            wakeup_events: a.__bindgen_anon_2.wakeup_events, bp_type: a.bp_type, config1: a.__bindgen_anon_3.config1, config2: a.__bindgen_anon_4.config2,
            branch_sample_type: a.branch_sample_type, sample_regs_user: a.sample_regs_user, sample_stack_user: a.sample_stack_user, clockid: a.clockid,
            sample_regs_intr: a.sample_regs_intr, aux_watermark: a.aux_watermark, sample_max_stack: a.sample_max_stack, reserved_2: a.__reserved_2,
            aux_sample_size: a.aux_sample_size, reserved_3: a.__reserved_3, sig_data: a.sig_data, config3: a.config3, all: a }
    }
}
// ---------------------------------------------------------------- primitives
macro_rules! roots {
    ($($name:ident ( $p:ident $(, $a:ident : $t:ty)* ) -> $r:ty = $e:expr;)*) => {
        $(pub fn $name($p: &mut P $(, $a: $t)*) -> $r { $e })*
    };
}
roots! {
    root_prim_u8(p) -> ParseResult<u8> = p.parse_u8();
    root_prim_u16(p) -> ParseResult<u16> = p.parse_u16();
    root_prim_u32(p) -> ParseResult<u32> = p.parse_u32();
    root_prim_u64(p) -> ParseResult<u64> = p.parse_u64();
    root_prim_pu8(p) -> ParseResult<u8> = p.parse();
    root_prim_pu16(p) -> ParseResult<u16> = p.parse();
    root_prim_pu32(p) -> ParseResult<u32> = p.parse();
    root_prim_pu64(p) -> ParseResult<u64> = p.parse();
    root_prim_arr1(p) -> ParseResult<[u8; 1]> = p.parse();
    root_prim_arr8(p) -> ParseResult<[u8; 8]> = p.parse();
    root_prim_arr20(p) -> ParseResult<[u8; 20]> = p.parse();
    root_prim_bytes(p, n: usize) -> ParseResult<Cow<'static, [u8]>> = p.parse_bytes(n);
    root_prim_rest(p) -> ParseResult<Cow<'static, [u8]>> = p.parse_rest();
    root_prim_trim(p) -> ParseResult<Cow<'static, [u8]>> = p.parse_rest_trim_nul();
    root_prim_slice_u64(p, n: usize) -> ParseResult<Cow<'static, [u64]>> = unsafe { p.parse_slice(n) };
    root_prim_slice_ns(p, n: usize) -> ParseResult<Cow<'static, [NamespaceEntry]>> = unsafe { p.parse_slice(n) };
    root_prim_slice_be(p, n: usize) -> ParseResult<Cow<'static, [BranchEntry]>> = unsafe { p.parse_slice(n) };
    root_prim_direct_u64(p, n: usize) -> ParseResult<Option<&'static [u64]>> = unsafe { p.parse_slice_direct(n) };
    root_prim_repeated_u64(p, n: usize) -> ParseResult<Vec<u64>> = p.parse_repeated(n);
    root_prim_repeated_be(p, n: usize) -> ParseResult<Vec<BranchEntry>> = p.parse_repeated(n);
    root_prim_header(p) -> ParseResult<perf_event_header> = p.parse();
    root_prim_if(p, c: bool) -> ParseResult<Option<u64>> = p.parse_if(c);
    root_prim_attr(p) -> ParseResult<OAttr> = p.parse::<perf_event_attr>().map(o_attr);

    root_body_mmap(p) -> ParseResult<Mmap<'static>> = p.parse();
    root_body_lost(p) -> ParseResult<Lost> = p.parse();
    root_body_comm(p) -> ParseResult<Comm<'static>> = p.parse();
    root_body_exit(p) -> ParseResult<Exit> = p.parse();
    root_body_throttle(p) -> ParseResult<Throttle> = p.parse();
    root_body_read(p) -> ParseResult<ORead> = p.parse::<Read>().map(|r| o_read(&r));
    root_body_sample(p) -> ParseResult<Sample<'static>> = p.parse();
    root_body_mmap2(p) -> ParseResult<OMmap2<'static>> = p.parse::<Mmap2>().map(|r| o_mmap2(&r));
    root_body_aux(p) -> ParseResult<OAux> = p.parse::<Aux>().map(|r| o_aux(&r));
    root_body_itrace_start(p) -> ParseResult<ITraceStart> = p.parse();
    root_body_lost_samples(p) -> ParseResult<LostSamples> = p.parse();
    root_body_switch_cpu_wide(p) -> ParseResult<OSwitch> = p.parse::<SwitchCpuWide>().map(|r| o_switch(&r));
    root_body_namespaces(p) -> ParseResult<ONamespaces<'static>> = p.parse::<Namespaces>().map(|r| o_namespaces(&r));
    root_body_ksymbol(p) -> ParseResult<KSymbol<'static>> = p.parse();
    root_body_bpf_event(p) -> ParseResult<BpfEvent> = p.parse();
    root_body_cgroup(p) -> ParseResult<CGroup<'static>> = p.parse();
    root_body_text_poke(p) -> ParseResult<TextPoke<'static>> = p.parse();
    root_body_aux_output_hw_id(p) -> ParseResult<AuxOutputHwId> = p.parse();
    root_body_sample_id(p) -> ParseResult<OSampleId> = p.parse::<SampleId>().map(|r| o_sample_id(&r));
    root_body_read_value(p) -> ParseResult<OReadValue> = p.parse::<ReadValue>().map(|r| o_read_value(&r));
    root_body_read_group(p) -> ParseResult<OGroup> = p.parse::<ReadGroup>().map(|r| o_group(&r));
    root_body_regs_user(p) -> ParseResult<Registers<'static>> = Registers::parse_user(p);
    root_body_regs_intr(p) -> ParseResult<Registers<'static>> = Registers::parse_intr(p);
    root_body_branch_entry(p) -> ParseResult<OBranch> = p.parse::<BranchEntry>().map(|r| o_branch(&r));
    root_body_data_source(p) -> ParseResult<OSource> = p.parse::<DataSource>().map(|r| o_source(&r));
    root_body_txn(p) -> ParseResult<OTxn> = p.parse::<Txn>().map(|r| o_txn(&r));
    root_body_ns_entry(p) -> ParseResult<NamespaceEntry> = p.parse();

    // ------------------------------------------------------------- groups
    root_group_get(p, i: usize) -> ParseResult<Option<OEntry>> = p.parse::<ReadGroup>().map(|r| r.get(i).map(|e| o_entry(&e)));
    root_group_by_id(p, i: u64) -> ParseResult<Option<OEntry>> = p.parse::<ReadGroup>().map(|r| r.get_by_id(i).map(|e| o_entry(&e)));
    root_group_iter(p) -> ParseResult<(Option<OEntry>, Option<OEntry>, usize, Option<OEntry>, usize)> = p.parse::<ReadGroup>().map(|r| {
        let mut it = r.entries();
        let a = it.next().map(|e| o_entry(&e));
        let b = it.next_back().map(|e| o_entry(&e));
        let n = it.len();
        let c = it.next().map(|e| o_entry(&e));
        let k = it.count();
        (a, b, n, c, k)
    });
    root_group_skip(p, i: usize) -> ParseResult<(Option<OEntry>, Option<OEntry>, usize, usize, Option<usize>)> = p.parse::<ReadGroup>().map(|r| {
        let mut it = r.entries();
        let a = it.nth(i).map(|e| o_entry(&e));
        let n = it.len();
        let b = it.next().map(|e| o_entry(&e));
        let (lo, hi) = it.size_hint();
        (a, b, n, lo, hi)
    });
    root_group_skip_back(p, i: usize) -> ParseResult<(Option<OEntry>, Option<OEntry>, usize, Option<OEntry>)> = p.parse::<ReadGroup>().map(|r| {
        let mut it = r.entries();
        let a = it.nth_back(i).map(|e| o_entry(&e));
        let n = it.len();
        let b = it.next_back().map(|e| o_entry(&e));
        (a, b, n, it.next().map(|e| o_entry(&e)))
    });
    root_group_last(p) -> ParseResult<Option<OEntry>> = p.parse::<ReadGroup>().map(|r| r.entries().last().map(|e| o_entry(&e)));
    root_group_nth_back(p, i: usize) -> ParseResult<Option<OEntry>> = p.parse::<ReadGroup>().map(|r| r.entries().nth_back(i).map(|e| o_entry(&e)));
    root_group_to_value(p) -> ParseResult<Option<OReadValue>> = p.parse::<ReadGroup>().map(|r| match ReadValue::try_from(r) { Ok(v) => Some(o_read_value(&v)), Err(_) => None });
    root_group_entry_value(p, i: usize) -> ParseResult<Option<OReadValue>> = p.parse::<ReadGroup>().map(|r| match r.get(i) { Some(e) => Some(o_read_value(&ReadValue::from_group_and_entry(&r, &e))), None => None });
    root_group_owned(p) -> ParseResult<OGroup> = p.parse::<ReadGroup>().map(|r| o_group(&r.into_owned()));
    root_value_to_group(p) -> ParseResult<OGroup> = p.parse::<ReadValue>().map(|r| o_group(&ReadGroup::from(r)));
    root_value_round(p) -> ParseResult<Option<OReadValue>> = p.parse::<ReadValue>().map(|r| match ReadValue::try_from(ReadGroup::from(r)) { Ok(v) => Some(o_read_value(&v)), Err(_) => None });

    // ------------------------------------------------------------- conversions
    root_own_mmap(p) -> ParseResult<Mmap<'static>> = p.parse::<Mmap>().map(|r| r.into_owned());
    root_own_mmap2(p) -> ParseResult<OMmap2<'static>> = p.parse::<Mmap2>().map(|r| o_mmap2(&r.into_owned()));
    root_own_comm(p) -> ParseResult<Comm<'static>> = p.parse::<Comm>().map(|r| r.into_owned());
    root_own_ksymbol(p) -> ParseResult<KSymbol<'static>> = p.parse::<KSymbol>().map(|r| r.into_owned());
    root_own_cgroup(p) -> ParseResult<CGroup<'static>> = p.parse::<CGroup>().map(|r| r.into_owned());
    root_own_text_poke(p) -> ParseResult<TextPoke<'static>> = p.parse::<TextPoke>().map(|r| r.to_owned());
    root_into_mmap(p) -> ParseResult<Mmap<'static>> = p.parse::<Mmap2>().map(|r| r.into_mmap());
    root_to_mmap(p) -> ParseResult<Mmap<'static>> = p.parse::<Mmap2>().map(|r| r.to_mmap());
    root_clone_mmap2(p) -> ParseResult<OMmap2<'static>> = p.parse::<Mmap2>().map(|r| o_mmap2(&r.clone()));
    root_clone_sample(p) -> ParseResult<Sample<'static>> = p.parse::<Sample>().map(|r| r.clone());
    root_clone_sample_id(p) -> ParseResult<OSampleId> = p.parse::<SampleId>().map(|r| o_sample_id(&r.clone()));
    root_clone_group(p) -> ParseResult<OGroup> = p.parse::<ReadGroup>().map(|r| o_group(&r.clone()));
    root_sid_of_sample(p) -> ParseResult<OSampleId> = p.parse::<Sample>().map(|r| o_sample_id(&SampleId::from_sample(&r)));
    root_sid_from_ref(p) -> ParseResult<OSampleId> = p.parse::<Sample>().map(|r| o_sample_id(&SampleId::from(&r)));
    root_sid_from_val(p) -> ParseResult<OSampleId> = p.parse::<Sample>().map(|r| o_sample_id(&SampleId::from(r)));
    root_clone_sid_of(p) -> ParseResult<OSampleId> = p.parse::<Sample>().map(|r| o_sample_id(&SampleId::from_sample(&r.clone())));
    root_clone_mmap(p) -> ParseResult<Mmap<'static>> = p.parse::<Mmap>().map(|r| r.clone());
    root_clone_namespaces(p) -> ParseResult<ONamespaces<'static>> = p.parse::<Namespaces>().map(|r| o_namespaces(&r.clone()));
    root_mmap_from(p) -> ParseResult<Mmap<'static>> = p.parse::<Mmap2>().map(|r| Mmap::from(r));
    root_from_mmap(p) -> ParseResult<ORec<'static>> = p.parse::<Mmap>().map(|r| o_record(Record::from(r)));
    root_from_lost(p) -> ParseResult<ORec<'static>> = p.parse::<Lost>().map(|r| o_record(Record::from(r)));
    root_from_comm(p) -> ParseResult<ORec<'static>> = p.parse::<Comm>().map(|r| o_record(Record::from(r)));
    root_from_read(p) -> ParseResult<ORec<'static>> = p.parse::<Read>().map(|r| o_record(Record::from(r)));
    root_from_mmap2(p) -> ParseResult<ORec<'static>> = p.parse::<Mmap2>().map(|r| o_record(Record::from(r)));
    root_from_aux(p) -> ParseResult<ORec<'static>> = p.parse::<Aux>().map(|r| o_record(Record::from(r)));
    root_from_itrace_start(p) -> ParseResult<ORec<'static>> = p.parse::<ITraceStart>().map(|r| o_record(Record::from(r)));
    root_from_lost_samples(p) -> ParseResult<ORec<'static>> = p.parse::<LostSamples>().map(|r| o_record(Record::from(r)));
    root_from_switch_cpu_wide(p) -> ParseResult<ORec<'static>> = p.parse::<SwitchCpuWide>().map(|r| o_record(Record::from(r)));
    root_from_namespaces(p) -> ParseResult<ORec<'static>> = p.parse::<Namespaces>().map(|r| o_record(Record::from(r)));
    root_from_ksymbol(p) -> ParseResult<ORec<'static>> = p.parse::<KSymbol>().map(|r| o_record(Record::from(r)));
    root_from_bpf_event(p) -> ParseResult<ORec<'static>> = p.parse::<BpfEvent>().map(|r| o_record(Record::from(r)));
    root_from_cgroup(p) -> ParseResult<ORec<'static>> = p.parse::<CGroup>().map(|r| o_record(Record::from(r)));
    root_from_text_poke(p) -> ParseResult<ORec<'static>> = p.parse::<TextPoke>().map(|r| o_record(Record::from(r)));
    root_from_aux_output_hw_id(p) -> ParseResult<ORec<'static>> = p.parse::<AuxOutputHwId>().map(|r| o_record(Record::from(r)));
    root_from_sample(p) -> ParseResult<OSampleId> = p.parse::<Sample>().map(|r| match Record::from(r) { Record::Sample(s) => o_sample_id(&SampleId::from_sample(&s)), _ => loop {} });
    root_drop_sample(p) -> ParseResult<()> = p.parse::<Sample>().map(|r| drop(r));
    root_os_comm(p) -> ParseResult<Vec<u8>> = p.parse::<Comm>().map(|r| std::os::unix::ffi::OsStrExt::as_bytes(r.comm_os()).to_vec());
    root_os_mmap(p) -> ParseResult<Vec<u8>> = p.parse::<Mmap>().map(|r| std::os::unix::ffi::OsStrExt::as_bytes(r.filename_os()).to_vec());
    root_os_mmap2(p) -> ParseResult<Vec<u8>> = p.parse::<Mmap2>().map(|r| std::os::unix::ffi::OsStrExt::as_bytes(r.filename_os()).to_vec());
    root_os_cgroup(p) -> ParseResult<Vec<u8>> = p.parse::<CGroup>().map(|r| std::os::unix::ffi::OsStrExt::as_bytes(r.path_os().as_os_str()).to_vec());

    // ------------------------------------------------------------- records
    root_record(p) -> ParseResult<Out<'static>> = p.parse_record(V);
    root_record_hdr(p, h: perf_event_header) -> ParseResult<Out<'static>> = p.parse_record_with_header(V, h);
    root_record_none(p, h: perf_event_header) -> ParseResult<OMeta> = p.parse_record_with_header(VNone, h);
    root_record_vmmap(p, h: perf_event_header) -> ParseResult<Out<'static>> = p.parse_record_with_header(VMmap, h);
    root_enum_record(p) -> ParseResult<ORec<'static>> = p.parse::<Record>().map(o_record);
    root_enum_record_hdr(p, h: perf_event_header) -> ParseResult<ORec<'static>> = Record::parse_with_header(p, h).map(o_record);
    root_meta(p) -> ParseResult<(OMeta, Cow<'static, [u8]>)> = {
        let (mut q, m) = p.parse_metadata()?;
        let rest = q.parse_rest()?;
        Ok((o_meta(&m), rest))
    };
    root_meta_hdr(p, h: perf_event_header) -> ParseResult<(OMeta, Cow<'static, [u8]>)> = {
        let (mut q, m) = p.parse_metadata_with_header(h)?;
        let rest = q.parse_rest()?;
        Ok((o_meta(&m), rest))
    };
    root_meta_mmap2(p, h: perf_event_header) -> ParseResult<(OMeta, OMmap2<'static>)> = {
        let (mut q, m) = p.parse_metadata_with_header(h)?;
        let s: Mmap2 = q.parse()?;
        Ok((o_meta(&m), o_mmap2(&s)))
    };
    root_meta_switch(p, h: perf_event_header) -> ParseResult<(OMeta, OSwitch)> = {
        let (mut q, m) = p.parse_metadata_with_header(h)?;
        let s: SwitchCpuWide = q.parse()?;
        Ok((o_meta(&m), o_switch(&s)))
    };
}
pub fn root_mk(buf: AbsBuf, attr: perf_event_attr) -> P {
    mk(buf, attr)
}
pub fn root_mk_nested(buf: AbsBuf, attr: perf_event_attr, other: AbsBuf, h: perf_event_header) -> ParseResult<P> {
    let mut p = mk(other, attr);
    let (q, _) = p.parse_metadata_with_header(h)?;
    Ok(Parser::new(buf, q.config().clone()))
}
pub fn root_obs_sample<'a>(s: &'a Sample<'static>) -> OSample<'a> {
    o_sample(s)
}
pub fn root_estimate(p: &mut P) -> usize {
    SampleId::estimate_len(p.config())
}
pub struct OConfig { pub read_format: u64, pub sample_type: u64, pub regs_user: u64, pub regs_intr: u64 }
pub fn root_config(p: &mut P) -> OConfig {
    let c = p.config();
    OConfig { read_format: c.read_format().bits(), sample_type: c.sample_type().bits(), regs_user: c.regs_user(), regs_intr: c.regs_intr() }
}
pub fn root_config_meta(p: &mut P, h: perf_event_header) -> ParseResult<(OConfig, usize)> {
    let (q, _) = p.parse_metadata_with_header(h)?;
    let c = q.config();
    Ok((OConfig { read_format: c.read_format().bits(), sample_type: c.sample_type().bits(), regs_user: c.regs_user(), regs_intr: c.regs_intr() }, SampleId::estimate_len(c)))
}
pub fn root_mk_default(buf: AbsBuf) -> P {
    Parser::new(buf, ParseConfig::default())
}
pub fn root_mk_clone(buf: AbsBuf, attr: perf_event_attr) -> P {
    let c = ParseConfig::from(attr);
    Parser::new(buf, c.clone())
}
pub fn root_mk_dyn(buf: AbsBuf, attr: perf_event_attr) -> P {
    Parser::new(buf, ParseConfig::<Native>::from(attr).with_endian(AbsEndian))
}
macro_rules! endian_roots {
    ($($name:ident: $t:ty;)*) => {
        $(pub fn $name(e: $t, a: [u8; 2], b: [u8; 4], c: [u8; 8]) -> (u16, u32, u64, bool) {
            (e.convert_u16(a), e.convert_u32(b), e.convert_u64(c), e.is_native())
        })*
    };
}
endian_roots! {
    root_endian_native: Native;
    root_endian_little: Little;
    root_endian_big: Big;
    root_endian_dynamic: Dynamic;
}

pub fn root_default_sample_id() -> OSampleId {
    o_sample_id(&SampleId::default())
}
pub fn root_default_meta_flags() -> (u64, u64, u64, u64) {
    (SampleFlags::default().bits(), ReadFormat::default().bits(), Txn::default().bits(), DataSource::default().mem_op().bits())
}

// ---------------------------------------------------------------- constants
macro_rules! consts {
    ($($root:ident $st:ident: $t:ty => |$x:ident| $e:expr; $($c:ident)*;)*) => {
        $(#[allow(non_snake_case)] pub struct $st { $(pub $c: u64),* }
        pub fn $root() -> $st { $st { $($c: { let $x = <$t>::$c; $e }),* } })*
    };
}
consts! {
    root_consts_sample CSample: SampleFlags => |x| x.bits(); IP TID TIME ADDR READ CALLCHAIN ID CPU PERIOD STREAM_ID RAW BRANCH_STACK REGS_USER STACK_USER WEIGHT DATA_SRC IDENTIFIER TRANSACTION REGS_INTR PHYS_ADDR AUX CGROUP DATA_PAGE_SIZE CODE_PAGE_SIZE WEIGHT_STRUCT;
    root_consts_read CRead: ReadFormat => |x| x.bits(); TOTAL_TIME_ENABLED TOTAL_TIME_RUNNING ID GROUP LOST;
    root_consts_auxflags CAux: AuxFlags => |x| x.bits(); TRUNCATED OVERWRITE PARTIAL COLLISION PMU_FORMAT_MASK;
    root_consts_pmu CPmu: AuxPmuFormatType => |x| x.0 as u64; CORESIGHT CORESIGHT_RAW;
    root_consts_ksymbol CKs: KSymbolType => |x| x.0 as u64; UNKNOWN BPF OOL;
    root_consts_ksflags CKf: KSymbolFlags => |x| x.bits() as u64; UNREGISTER;
    root_consts_bpf CBpf: BpfEventType => |x| x.0 as u64; UNKNOWN PROG_LOAD PROG_UNLOAD;
    root_consts_abi CAbi: SampleRegsAbi => |x| x.0; NONE ABI_32 ABI_64;
    root_consts_branch CBr: BranchType => |x| x.0 as u64; UNKNOWN COND UNCOND IND CALL IND_CALL RET SYSCALL COND_CALL COND_RET;
    root_consts_op COp: MemOp => |x| x.bits(); NA LOAD STORE PFETCH EXEC;
    root_consts_lvl CLvl: MemLevel => |x| x.bits(); NA HIT MISS L1 LFB L2 L3 LOC_RAM REM_RAM1 REM_RAM2 REM_CCE1 REM_CCE2 IO UNC;
    root_consts_lock CLock: MemLock => |x| x.bits(); NA LOCKED;
    root_consts_tlb CTlb: MemDtlb => |x| x.bits(); NA HIT MISS L1 L2 WK OS;
    root_consts_snoopx CSnx: MemSnoopX => |x| x.bits(); FWD PEER;
    root_consts_blk CBlk: MemBlk => |x| x.bits(); NA DATA ADDR;
    root_consts_snoop CSn: MemSnoop => |x| x.bits(); NA NONE HIT MISS HITM FWD PEER;
    root_consts_txn CTxn: Txn => |x| x.bits(); ELISION TRANSACTION SYNC ASYNC RETRY CONFLICT CAPACITY_WRITE CAPACITY_READ ABORT_MASK;
    root_consts_lvlnum CLn: MemLevelNum => |x| x.0 as u64; L1 L2 L3 L4 ANY_CACHE LFB RAM PMEM NA;
}
pub fn root_new_enums(a: u8, b: u16, c: u64) -> (u64, u64, u64, u64, u64, u64) {
    (AuxPmuFormatType::new(a).0 as u64, KSymbolType::new(b).0 as u64, BpfEventType::new(b).0 as u64, SampleRegsAbi::new(c).0, BranchType::new(a).0 as u64, MemLevelNum::new(a).0 as u64)
}

// ------------------------------------------------------- built-in sources
/// Any reader behind a `BufReader`.
pub struct AbsRead;
impl std::io::Read for AbsRead {
    fn read(&mut self, _b: &mut [u8]) -> std::io::Result<usize> {
        loop {}
    }
}
pub fn root_slice_chunk<'a, 'p>(b: &'a mut &'p [u8]) -> ParseResult<ParseBufChunk<'a, 'p>> { <&'p [u8] as ParseBuf<'p>>::chunk(b) }
pub fn root_slice_advance<'p>(b: &mut &'p [u8], n: usize) { <&'p [u8] as ParseBuf<'p>>::advance(b, n) }
pub fn root_slice_hint<'p>(b: &&'p [u8]) -> Option<usize> { <&'p [u8] as ParseBuf<'p>>::remaining_hint(b) }
pub fn root_reader_chunk<'a>(b: &'a mut std::io::BufReader<AbsRead>) -> ParseResult<ParseBufChunk<'a, 'static>> { <std::io::BufReader<AbsRead> as ParseBuf<'static>>::chunk(b) }
pub fn root_reader_advance(b: &mut std::io::BufReader<AbsRead>, n: usize) { <std::io::BufReader<AbsRead> as ParseBuf<'static>>::advance(b, n) }
pub fn root_reader_hint(b: &std::io::BufReader<AbsRead>) -> Option<usize> { <std::io::BufReader<AbsRead> as ParseBuf<'static>>::remaining_hint(b) }

// ------------------------------------------------------------- formatting
use std::fmt::{Debug, Display, Formatter};
roots! {
    root_dbg_mmap(p, f: &mut Formatter<'_>) -> ParseResult<std::fmt::Result> = p.parse::<Mmap>().map(|r| Debug::fmt(&r, f));
    root_dbg_lost(p, f: &mut Formatter<'_>) -> ParseResult<std::fmt::Result> = p.parse::<Lost>().map(|r| Debug::fmt(&r, f));
    root_dbg_comm(p, f: &mut Formatter<'_>) -> ParseResult<std::fmt::Result> = p.parse::<Comm>().map(|r| Debug::fmt(&r, f));
    root_dbg_exit(p, f: &mut Formatter<'_>) -> ParseResult<std::fmt::Result> = p.parse::<Exit>().map(|r| Debug::fmt(&r, f));
    root_dbg_throttle(p, f: &mut Formatter<'_>) -> ParseResult<std::fmt::Result> = p.parse::<Throttle>().map(|r| Debug::fmt(&r, f));
    root_dbg_read(p, f: &mut Formatter<'_>) -> ParseResult<std::fmt::Result> = p.parse::<Read>().map(|r| Debug::fmt(&r, f));
    root_dbg_mmap2(p, f: &mut Formatter<'_>) -> ParseResult<std::fmt::Result> = p.parse::<Mmap2>().map(|r| Debug::fmt(&r, f));
    root_dbg_aux(p, f: &mut Formatter<'_>) -> ParseResult<std::fmt::Result> = p.parse::<Aux>().map(|r| Debug::fmt(&r, f));
    root_dbg_itrace_start(p, f: &mut Formatter<'_>) -> ParseResult<std::fmt::Result> = p.parse::<ITraceStart>().map(|r| Debug::fmt(&r, f));
    root_dbg_lost_samples(p, f: &mut Formatter<'_>) -> ParseResult<std::fmt::Result> = p.parse::<LostSamples>().map(|r| Debug::fmt(&r, f));
    root_dbg_switch_cpu_wide(p, f: &mut Formatter<'_>) -> ParseResult<std::fmt::Result> = p.parse::<SwitchCpuWide>().map(|r| Debug::fmt(&r, f));
    root_dbg_namespaces(p, f: &mut Formatter<'_>) -> ParseResult<std::fmt::Result> = p.parse::<Namespaces>().map(|r| Debug::fmt(&r, f));
    root_dbg_ksymbol(p, f: &mut Formatter<'_>) -> ParseResult<std::fmt::Result> = p.parse::<KSymbol>().map(|r| Debug::fmt(&r, f));
    root_dbg_bpf_event(p, f: &mut Formatter<'_>) -> ParseResult<std::fmt::Result> = p.parse::<BpfEvent>().map(|r| Debug::fmt(&r, f));
    root_dbg_cgroup(p, f: &mut Formatter<'_>) -> ParseResult<std::fmt::Result> = p.parse::<CGroup>().map(|r| Debug::fmt(&r, f));
    root_dbg_text_poke(p, f: &mut Formatter<'_>) -> ParseResult<std::fmt::Result> = p.parse::<TextPoke>().map(|r| Debug::fmt(&r, f));
    root_dbg_aux_output_hw_id(p, f: &mut Formatter<'_>) -> ParseResult<std::fmt::Result> = p.parse::<AuxOutputHwId>().map(|r| Debug::fmt(&r, f));
    root_dbg_sample_id(p, f: &mut Formatter<'_>) -> ParseResult<std::fmt::Result> = p.parse::<SampleId>().map(|r| Debug::fmt(&r, f));
    root_dbg_read_value(p, f: &mut Formatter<'_>) -> ParseResult<std::fmt::Result> = p.parse::<ReadValue>().map(|r| Debug::fmt(&r, f));
    root_dbg_read_group(p, f: &mut Formatter<'_>) -> ParseResult<std::fmt::Result> = p.parse::<ReadGroup>().map(|r| Debug::fmt(&r, f));
    root_dbg_data_source(p, f: &mut Formatter<'_>) -> ParseResult<std::fmt::Result> = p.parse::<DataSource>().map(|r| Debug::fmt(&r, f));
    root_dbg_ns_entry(p, f: &mut Formatter<'_>) -> ParseResult<std::fmt::Result> = p.parse::<NamespaceEntry>().map(|r| Debug::fmt(&r, f));
    root_dbg_entry(p, i: usize, f: &mut Formatter<'_>) -> ParseResult<Option<std::fmt::Result>> = p.parse::<ReadGroup>().map(|r| r.get(i).map(|e| Debug::fmt(&e, f)));
    root_dbg_regs(p, f: &mut Formatter<'_>) -> ParseResult<std::fmt::Result> = Registers::parse_user(p).map(|r| Debug::fmt(&r, f));
}
pub fn root_dbg_sample(s: &Sample<'_>, f: &mut Formatter<'_>) -> std::fmt::Result { Debug::fmt(s, f) }
pub fn root_err_get(e: &ParseError) -> (ErrorKind, bool) { (e.kind(), std::error::Error::source(e).is_some()) }
pub fn root_err_new(e: Box<dyn std::error::Error + Send + Sync>) -> (ErrorKind, bool) { root_err_get(&ParseError::new(e)) }
pub fn root_err_box(e: Box<dyn std::error::Error + Send + Sync>) -> (ErrorKind, bool) { root_err_get(&ParseError::from(e)) }
pub fn root_err_eof() -> (ErrorKind, bool) { root_err_get(&ParseError::eof()) }
pub fn root_disp_error(e: &ParseError, f: &mut Formatter<'_>) -> std::fmt::Result { Display::fmt(e, f) }
