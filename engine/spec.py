"""What the kernel's perf record format and this crate's documentation say.

Everything here is written from include/uapi/linux/perf_event.h and the
documentation, as functions of the byte stream: a `Cur` walks the stream and
collects the condition under which all reads fit."""
import dd
import poly as P
import vals as V
from vals import inn, seq, cv_at, byte_at
import prims

AND, OR, NOT, T, F = dd.AND, dd.OR, dd.NOT, dd.TRUE, dd.FALSE
C = P.const

ANY = ('any',)


def opt(c, x):
    return ('opt', c, x)


def bit(p, i):
    return P.bit_bdd(P.to_bits(p, 64)[i])


def bits(p, lo, n):
    return P.from_bits(P.to_bits(p, 64)[lo:lo + n])


def ite(c, a, b):
    return P.ite(c, a, b)


class Cur:
    """A position in a byte stream with everything read so far."""

    def __init__(self, base, pos, lim, eof=T):
        self.base, self.pos, self.lim, self.eof = base, pos, lim, eof
        self.ok = T
        self.n = 0
        self.fails = {}         # kind of failure -> when it applies

    def take(self, n, c=T):
        if not isinstance(n, P.Poly):
            n = C(n)
        pos, lim = P.opaque(self.pos), P.opaque(self.lim)
        fit = P.ge(P.sub(lim, pos), n)
        if P.const_val(n) is None:
            # lengths beyond anything addressable may be called malformed
            big = P.ge(n, C(1 << 60))
            self.need(OR(fit, NOT(big)), c, 'huge')
            self.need(OR(fit, big), c)
        else:
            self.need(fit, c)
        self.pos = ite(c, P.add(pos, n), pos)
        self.n += 1
        return pos

    def when(self, c):
        """A cursor for what is only there when c holds; see end()."""
        q = Cur(self.base, self.pos, self.lim, self.eof)
        q.it = getattr(self, 'it', None)
        return q

    def end(self, c, q):
        self.ok = AND(self.ok, OR(NOT(c), q.ok))
        self.pos = ite(c, q.pos, self.pos)
        self.failing(q, c)

    def failing(self, q, c=T):
        for k, x in q.fails.items():
            self.fails[k] = OR(self.fails.get(k, F), AND(c, x))

    def need(self, cond, c=T, kind='src'):
        self.ok = AND(self.ok, OR(NOT(c), cond))
        self.fails[kind] = OR(self.fails.get(kind, F), AND(c, NOT(cond)))

    def only(self, kind):
        """Failing for this reason and no other."""
        r = self.fails.get(kind, F)
        for k, x in self.fails.items():
            if k != kind:
                r = AND(r, NOT(x))
        return r

    def u8(self, c=T):
        return byte_at(self.base, self.take(1, c))

    def u16(self, c=T):
        return cv_at(2, self.base, self.take(2, c))

    def u32(self, c=T):
        return cv_at(4, self.base, self.take(4, c))

    def u64(self, c=T):
        return cv_at(8, self.base, self.take(8, c))

    def bytes(self, n, c=T):
        if not isinstance(n, P.Poly):
            n = C(n)
        return ('seq', inn(self.base, self.take(n, c), n))

    def array(self, ty, size, n, c=T):
        return ('seq', seq(('ar', ty, self.base, self.take(P.scale(n, size), c), n)))

    def rest(self, c=T):
        pos, lim = P.opaque(self.pos), P.opaque(self.lim)
        self.need(self.eof, c)
        self.pos = ite(c, lim, pos)
        return ('seq', inn(self.base, pos, P.sub(lim, pos)))

    def string(self, c=T):
        """The rest without its trailing zero bytes."""
        pos, lim = P.opaque(self.pos), P.opaque(self.lim)
        self.need(self.eof, c)
        self.pos = ite(c, lim, pos)
        return ('seq', inn(self.base, pos, prims.trimmed(self.base, pos, P.sub(lim, pos))))


class Cfg:
    """The event attributes as the kernel interprets them."""

    def __init__(self, attr, misc=None):
        self.sample_type = attr['sample_type']
        self.read_format = attr['read_format']
        self.regs_user = attr['sample_regs_user']
        self.regs_intr = attr['sample_regs_intr']
        self.branch = attr['branch_sample_type']
        self.sample_id_all = attr['sample_id_all']
        self.misc = misc if misc is not None else P.ZERO

    def st(self, name):
        return bit(self.sample_type, SAMPLE[name])

    def rf(self, name):
        return bit(self.read_format, READ[name])


SAMPLE = dict(IP=0, TID=1, TIME=2, ADDR=3, READ=4, CALLCHAIN=5, ID=6, CPU=7, PERIOD=8, STREAM_ID=9, RAW=10,
              BRANCH_STACK=11, REGS_USER=12, STACK_USER=13, WEIGHT=14, DATA_SRC=15, IDENTIFIER=16, TRANSACTION=17,
              REGS_INTR=18, PHYS_ADDR=19, AUX=20, CGROUP=21, DATA_PAGE_SIZE=22, CODE_PAGE_SIZE=23, WEIGHT_STRUCT=24)
READ = dict(TOTAL_TIME_ENABLED=0, TOTAL_TIME_RUNNING=1, ID=2, GROUP=3, LOST=4)


# ------------------------------------------------------------------ records
def mmap(k, cfg):
    return dict(pid=k.u32(), tid=k.u32(), addr=k.u64(), len=k.u64(), pgoff=k.u64(), filename=k.string())


def lost(k, cfg):
    return dict(id=k.u64(), lost=k.u64())


def comm(k, cfg):
    return dict(pid=k.u32(), tid=k.u32(), comm=k.string())


def exit_(k, cfg):
    return dict(pid=k.u32(), ppid=k.u32(), tid=k.u32(), ptid=k.u32(), time=k.u64())


def throttle(k, cfg):
    return dict(time=k.u64(), id=k.u64(), stream_id=k.u64())


def read_ok(cfg, group):
    c = cfg.rf('GROUP')
    x = c if group else NOT(c)
    # flags this crate does not know change the layout in unknown ways
    unk = P.eq(P.shr(cfg.read_format, 5, 64), P.ZERO)
    return AND(x, unk)


def read_value(k, cfg, c=T):
    k.need(read_ok(cfg, False), c, 'UnsupportedConfig')
    v = k.u64(c)
    out = dict(value=v)
    for n, f in (('time_enabled', 'TOTAL_TIME_ENABLED'), ('time_running', 'TOTAL_TIME_RUNNING'), ('id', 'ID'), ('lost', 'LOST')):
        b = cfg.rf(f)
        out[n] = opt(b, k.u64(AND(c, b)))
    return out


class Group:
    """nr, times and where the entries are."""

    def __init__(self, k, cfg, c=T):
        k.need(read_ok(cfg, True), c, 'UnsupportedConfig')
        self.base = k.base
        self.nr = k.u64(c)
        e, r = cfg.rf('TOTAL_TIME_ENABLED'), cfg.rf('TOTAL_TIME_RUNNING')
        self.te = opt(e, k.u64(AND(c, e)))
        self.tr = opt(r, k.u64(AND(c, r)))
        self.id, self.lost = cfg.rf('ID'), cfg.rf('LOST')
        self.words = P.add(C(1), P.add(P.of_bdd(self.id), P.of_bdd(self.lost)))
        n = P.mul(self.nr, self.words)
        self.at = k.take(P.scale(n, 8), c)

    def entry(self, i):
        p = P.add(self.at, P.scale(P.mul(self.words, i), 8))
        idp = P.add(p, C(8))
        lp = ite(self.id, P.add(p, C(16)), P.add(p, C(8)))
        return dict(value=cv_at(8, self.base, p), id=opt(self.id, cv_at(8, self.base, idp)),
                    lost=opt(self.lost, cv_at(8, self.base, lp)))

    def get(self, i):
        if not isinstance(i, P.Poly):
            i = C(i)
        return opt(P.lt(i, self.nr), self.entry(i))

    def tree(self):
        return dict(time_enabled=self.te, time_running=self.tr, len=self.nr, is_empty=('bool', P.eq(self.nr, P.ZERO)),
                    e0=self.get(0), e1=self.get(1))


def read_group(k, cfg):
    return Group(k, cfg).tree()


def value_as_group(v):
    """A single counter value seen as a group of one."""
    e = dict(value=v['value'], id=v['id'], lost=v['lost'])
    return dict(time_enabled=v['time_enabled'], time_running=v['time_running'], len=C(1), is_empty=('bool', F),
                e0=opt(T, e), e1=opt(F, e))


def read(k, cfg):
    return dict(pid=k.u32(), tid=k.u32(), values=read_value(k, cfg))


def mmap2(k, cfg):
    o = dict(pid=k.u32(), tid=k.u32(), addr=k.u64(), len=k.u64(), pgoff=k.u64())
    b = bit(cfg.misc, 14)
    n = NOT(b)
    # both layouts take 24 bytes
    p = k.take(24)
    s = k.base
    ln = byte_at(s, p)
    k.need(P.le(ln, C(20)), b, 'InvalidRecord')
    o.update(maj=opt(n, cv_at(4, s, p)), min=opt(n, cv_at(4, s, P.add(p, C(4)))), ino=opt(n, cv_at(8, s, P.add(p, C(8)))),
             ino_generation=opt(n, cv_at(8, s, P.add(p, C(16)))),
             build_id=opt(b, ('seq', inn(s, P.add(p, C(4)), ln))))
    o.update(prot=k.u32(), flags=k.u32(), filename=k.string())
    return o


def aux(k, cfg):
    o = dict(aux_offset=k.u64(), aux_size=k.u64(), flags=k.u64())
    o['pmu_format_type'] = bits(o['flags'], 8, 8)
    return o


def itrace_start(k, cfg):
    return dict(pid=k.u32(), tid=k.u32())


def lost_samples(k, cfg):
    return dict(lost=k.u64())


def switch_cpu_wide(k, cfg):
    p, t = k.u32(), k.u32()
    return dict(is_out=('bool', bit(cfg.misc, 13)), pid=p, tid=t, apid=p, atid=t)


def ns_entry(k, cfg):
    return dict(dev=k.u64(), inode=k.u64())


NS = ('network', 'uts', 'ipc', 'pid_ns', 'user', 'mnt', 'cgroup')     # NET UTS IPC PID USER MNT CGROUP


def namespaces(k, cfg):
    o = dict(pid=k.u32(), tid=k.u32())
    n = k.u64()
    el = k.it.find_type('perf_event_data::NamespaceEntry')
    at = k.take(P.scale(n, 16))
    o['namespaces'] = ('seq', seq(('ar', el, k.base, at, n)))
    for i, nm in enumerate(NS):
        if nm == 'mnt':
            continue
        p = P.add(at, C(16 * i))
        o[nm] = opt(P.lt(C(i), n), dict(dev=cv_at(8, k.base, p), inode=cv_at(8, k.base, P.add(p, C(8)))))
    return o


def ksymbol(k, cfg):
    return dict(addr=k.u64(), len=k.u32(), ksym_type=k.u16(), flags=k.u16(), name=k.string())


def bpf_event(k, cfg):
    return dict(ty=k.u16(), flags=k.u16(), id=k.u32(), tag=k.bytes(8))


def cgroup(k, cfg):
    return dict(id=k.u64(), path=k.string())


def text_poke(k, cfg):
    a, o, n = k.u64(), k.u16(), k.u16()
    t = P.add(o, n)
    # addr, both lengths and the bytes together are padded to a multiple of 8
    pad = pad8(P.add(t, C(4)))
    at = k.take(P.add(t, pad))
    return dict(addr=a, old_bytes=('seq', inn(k.base, at, o)), new_bytes=('seq', inn(k.base, P.add(at, o), n)))


def pad8(n):
    r = P.low_bits(n, 3)
    r = P.from_bits(r)
    return ite(P.eq(r, P.ZERO), P.ZERO, P.sub(C(8), r))


def aux_output_hw_id(k, cfg):
    return dict(hw_id=k.u64())


def sample_id(k, cfg, c=T):
    """struct sample_id, present in every non-sample record with sample_id_all."""
    c = AND(c, cfg.sample_id_all)
    o = {}
    q = Cur(k.base, k.pos, k.lim)
    t = cfg.st('TID')
    o['pid'] = opt(AND(c, t), q.u32(t))
    o['tid'] = opt(AND(c, t), q.u32(t))
    x = cfg.st('TIME')
    o['time'] = opt(AND(c, x), q.u64(x))
    i = cfg.st('ID')
    idv = q.u64(i)
    x = cfg.st('STREAM_ID')
    o['stream_id'] = opt(AND(c, x), q.u64(x))
    x = cfg.st('CPU')
    o['cpu'] = opt(AND(c, x), q.u32(x))
    q.u32(x)
    x = cfg.st('IDENTIFIER')
    ident = q.u64(x)
    o['id'] = ('either', AND(c, OR(i, x)), [(AND(c, i), idv), (AND(c, x), ident)])
    k.end(c, q)
    return o


def sample_id_len(cfg):
    n = P.ZERO
    for f in ('TID', 'TIME', 'ID', 'STREAM_ID', 'CPU', 'IDENTIFIER'):
        n = P.add(n, P.scale(P.of_bdd(cfg.st(f)), 8))
    return ite(cfg.sample_id_all, n, P.ZERO)


def regs(k, cfg, mask, c=T):
    abi = k.u64(c)
    has = NOT(P.eq(abi, P.ZERO))
    n = ite(has, P.popcount(mask, 64), P.ZERO)
    u64 = k.it.u64ty()
    at = k.take(P.scale(n, 8), c)
    return dict(abi=abi, mask=mask, regs=('seq', seq(('ar', u64, k.base, at, n))))


def regs_user(k, cfg):
    return regs(k, cfg, cfg.regs_user)


def regs_intr(k, cfg):
    return regs(k, cfg, cfg.regs_intr)


def branch_at(s, p):
    f = cv_at(8, s, P.add(p, C(16)))
    b = lambda i: ('bool', bit(f, i))
    return {'from': cv_at(8, s, p), 'to': cv_at(8, s, P.add(p, C(8))), 'mispred': b(0), 'predicted': b(1), 'in_tx': b(2),
            'abort': b(3), 'cycles': bits(f, 4, 16), 'ty': bits(f, 20, 4)}


def branch_entry(k, cfg):
    return branch_at(k.base, k.take(24))


def source(v):
    return dict(mem_op=bits(v, 0, 5), mem_lvl=bits(v, 5, 14), mem_snoop=P.add(P.scale(bits(v, 19, 5), 1 << 19), P.scale(bits(v, 38, 2), 1 << 38)), mem_lock=bits(v, 24, 2), mem_dtlb=bits(v, 26, 7),
                mem_lvl_num=bits(v, 33, 4), mem_remote=('bool', bit(v, 37)), mem_blk=bits(v, 40, 3), mem_hops=bits(v, 43, 3))


def data_source(k, cfg):
    return source(k.u64())


def txn_of(v):
    return dict(bits=v, abort=bits(v, 32, 32))


def txn(k, cfg):
    return txn_of(k.u64())


def sample(k, cfg):
    """PERF_RECORD_SAMPLE."""
    o = {}
    st = cfg.st

    def part(c, f):
        q = k.when(c)
        r = f(q)
        k.end(c, q)
        return r

    def f(name, flag):
        c = st(flag)
        o[name] = opt(c, part(c, lambda q: q.u64()))
    ci = st('IDENTIFIER')
    ident = part(ci, lambda q: q.u64())
    f('ip', 'IP')
    c = st('TID')
    p, t = part(c, lambda q: (q.u32(), q.u32()))
    o['pid'], o['tid'] = opt(c, p), opt(c, t)
    f('time', 'TIME')
    f('addr', 'ADDR')
    c = st('ID')
    idv = part(c, lambda q: q.u64())
    o['id'] = ('either', OR(ci, c), [(c, idv), (ci, ident)])
    f('stream_id', 'STREAM_ID')
    c = st('CPU')
    o['cpu'] = opt(c, part(c, lambda q: (q.u32(), q.u32())[0]))
    f('period', 'PERIOD')
    # counter values, a single one being a group of one
    c, g = st('READ'), cfg.rf('GROUP')
    q = k.when(c)
    kg, kv = q.when(g), q.when(NOT(g))
    gr = Group(kg, cfg)
    vl = value_as_group(read_value(kv, cfg))
    q.ok = dd.ite(g, kg.ok, kv.ok)
    q.pos = ite(g, kg.pos, kv.pos)
    q.failing(kg, g)
    q.failing(kv, NOT(g))
    k.end(c, q)
    o['values'] = opt(c, merge(g, gr.tree(), vl))
    k.group = gr
    c = st('CALLCHAIN')

    def chain(q):
        n = q.u64()
        return q.array(k.it.u64ty(), 8, n)
    o['callchain'] = opt(c, part(c, chain))
    c = st('RAW')

    def raw(q):
        n = q.u32()
        b = q.bytes(n)
        q.take(pad8(P.add(n, C(4))))
        return b
    o['raw'] = opt(c, part(c, raw))
    c = st('BRANCH_STACK')
    h = bit(cfg.branch, 17)

    def stack(q):
        n = q.u64()
        w = q.when(h)
        x = w.u64()
        q.end(h, w)
        return n, x, q.take(P.scale(n, 24))
    n, x, at = part(c, stack)
    o['lbr_hw_index'] = opt(AND(c, h), x)
    br = lambda i: opt(P.lt(C(i), n), branch_at(k.base, P.add(at, C(24 * i))))
    o['lbr'] = opt(c, dict(len=n, e0=br(0), e1=br(1)))
    k.lbr = (c, n, at)
    c = st('REGS_USER')
    o['regs_user'] = opt(c, part(c, lambda q: regs(q, cfg, cfg.regs_user)))
    c = st('STACK_USER')

    def ustack(q):
        n = q.u64()
        at = q.take(n)
        d = NOT(P.eq(n, P.ZERO))
        w = q.when(d)
        x = w.u64()
        q.end(d, w)
        dyn = ite(d, x, P.ZERO)
        q.need(P.le(dyn, n), T, 'InvalidRecord')
        return ('seq', inn(k.base, at, dyn))
    o['stack_user'] = opt(c, part(c, ustack))
    c = OR(st('WEIGHT'), st('WEIGHT_STRUCT'))
    o['weight'] = opt(c, part(c, lambda q: q.u64()))
    c = st('DATA_SRC')
    o['data_src'] = opt(c, source(part(c, lambda q: q.u64())))
    c = st('TRANSACTION')
    o['transaction'] = opt(c, txn_of(part(c, lambda q: q.u64())))
    c = st('REGS_INTR')
    o['regs_intr'] = opt(c, part(c, lambda q: regs(q, cfg, cfg.regs_intr)))
    f('phys_addr', 'PHYS_ADDR')
    f('cgroup', 'CGROUP')
    f('data_page_size', 'DATA_PAGE_SIZE')
    f('code_page_size', 'CODE_PAGE_SIZE')
    c = st('AUX')

    def auxd(q):
        n = q.u64()
        return q.bytes(n)
    o['aux'] = opt(c, part(c, auxd))
    return o


def merge(c, a, b):
    """Tree that is a where c holds and b elsewhere."""
    if isinstance(a, P.Poly):
        return ite(c, a, b)
    if isinstance(a, dict):
        return {k: merge(c, a[k], b[k]) for k in a}
    if a[0] == 'bool':
        return ('bool', dd.ite(c, a[1], b[1]))
    if a[0] == 'opt':
        return opt(dd.ite(c, a[1], b[1]), merge(c, a[2], b[2]))
    if a[0] == 'seq':
        return ('seq', V.merge(c, a[1], b[1]))
    raise ValueError(a)


BODIES = dict(mmap=mmap, lost=lost, comm=comm, exit=exit_, throttle=throttle, read=read, sample=sample, mmap2=mmap2, aux=aux,
              itrace_start=itrace_start, lost_samples=lost_samples, switch_cpu_wide=switch_cpu_wide, namespaces=namespaces,
              ksymbol=ksymbol, bpf_event=bpf_event, cgroup=cgroup, text_poke=text_poke, aux_output_hw_id=aux_output_hw_id,
              sample_id=sample_id, read_value=read_value, read_group=read_group, regs_user=regs_user, regs_intr=regs_intr,
              branch_entry=branch_entry, data_source=data_source, txn=txn, ns_entry=ns_entry)


# ------------------------------------------------------- constants of the ABI
def _shift(names, first=0):
    return {n: 1 << (first + i) for i, n in enumerate(names.split())}


def _count(names, first=0):
    return {n: first + i for i, n in enumerate(names.split())}


CONSTS = dict(
    sample=_shift('IP TID TIME ADDR READ CALLCHAIN ID CPU PERIOD STREAM_ID RAW BRANCH_STACK REGS_USER STACK_USER WEIGHT DATA_SRC IDENTIFIER '
                  'TRANSACTION REGS_INTR PHYS_ADDR AUX CGROUP DATA_PAGE_SIZE CODE_PAGE_SIZE WEIGHT_STRUCT'),
    read=_shift('TOTAL_TIME_ENABLED TOTAL_TIME_RUNNING ID GROUP LOST'),
    auxflags=dict(TRUNCATED=1, OVERWRITE=2, PARTIAL=4, COLLISION=8, PMU_FORMAT_MASK=0xff00),
    pmu=dict(CORESIGHT=0, CORESIGHT_RAW=1), ksymbol=_count('UNKNOWN BPF OOL'), ksflags=dict(UNREGISTER=1),
    bpf=_count('UNKNOWN PROG_LOAD PROG_UNLOAD'), abi=_count('NONE ABI_32 ABI_64'),
    branch=dict(UNKNOWN=0, COND=1, UNCOND=2, IND=3, CALL=4, IND_CALL=5, RET=6, SYSCALL=7, COND_CALL=9, COND_RET=10),
    op=_shift('NA LOAD STORE PFETCH EXEC'),
    lvl=_shift('NA HIT MISS L1 LFB L2 L3 LOC_RAM REM_RAM1 REM_RAM2 REM_CCE1 REM_CCE2 IO UNC'),
    lock=_shift('NA LOCKED'), tlb=_shift('NA HIT MISS L1 L2 WK OS'), snoopx=_shift('FWD PEER'), blk=_shift('NA DATA ADDR'),
    # the bits of the snoop fields where the raw word has them
    snoop=dict(_shift('NA NONE HIT MISS HITM', 19), **_shift('FWD PEER', 38)),
    txn=dict(_shift('ELISION TRANSACTION SYNC ASYNC RETRY CONFLICT CAPACITY_WRITE CAPACITY_READ'), ABORT_MASK=0xffffffff00000000),
    lvlnum=dict(L1=1, L2=2, L3=3, L4=4, ANY_CACHE=0xb, LFB=0xc, RAM=0xd, PMEM=0xe, NA=0xf))
