"""The analysis cases: what is analysed for which property."""
import dd
import poly as P
import vals as V
from vals import *
from interp import St, Diverge
import models
import prims
import check
import spec as SP
from case import Case, Missing, T, F

AND, OR, NOT, C = dd.AND, dd.OR, dd.NOT, P.const
CASES = {}


def case(name, weight=1):
    def d(f):
        CASES[name] = (f, weight)
        return f
    return d


# ------------------------------------------------------------------- errors
def errors(c, k, er, erv, ety, pc, label):
    """Failures carry the documented kind; the source's error is passed on."""
    if er == F:
        return
    src = None
    for kind in k.fails:
        g = AND(AND(pc, er), k.only(kind))
        if g == F or kind in ('huge', 'other'):
            continue
        if kind == 'src':
            src = k.error(ety) if hasattr(k, 'error') else models.src_error(c.it, ety, 'S0')
            o = c.ob(label + ' passes the error of the source on', g, erv, src, 'error')
        else:
            x = prims.kind_is(c.it, ety, erv, kind)
            c.ob('%s reports %s' % (label, kind), g, B(x), B(T), 'error')


def body(name):
    def f(prog):
        c = Case(prog)
        c.parser()
        ok, v, er, erv, okty, ety = c.parse('root_body_' + name)
        k = c.cur(ety)
        cfg = SP.Cfg(c.A)
        tree = SP.BODIES[name](k, cfg)
        c.ob(name + ': succeeds exactly when its contents are there', c.st.pc, B(ok), B(k.ok), 'ok')
        both = AND(c.st.pc, AND(ok, k.ok))
        pos = c.position()
        if name == 'sample':
            st = c.st
            c2 = c.cell(v)
            c.hazpc = ok
            st.pc = T
            v = c.call('root_obs_sample', ref_c(c2))
            okty = c.ty
            st.pc = T
        c.compare(okty, v, tree, both, name)
        c.ob(name + ': bytes consumed', both, I(pos), I(k.pos), 'pos')
        errors(c, k, er, erv, ety, T, name)
        c.extra = [k.pos]
        return c.result('body ' + name)
    return f


for _n in SP.BODIES:
    CASES['body ' + _n] = (body(_n), 40 if _n == 'sample' else 1)

# ------------------------------------------------------------------ records
RECORDS = {1: ('Mmap', 'mmap'), 2: ('Lost', 'lost'), 3: ('Comm', 'comm'), 4: ('Exit', 'exit'), 5: ('Throttle', 'throttle'),
           6: ('Unthrottle', 'throttle'), 7: ('Fork', 'exit'), 8: ('Read', 'read'), 9: ('Sample', None), 10: ('Mmap2', 'mmap2'),
           11: ('Aux', 'aux'), 12: ('ITraceStart', 'itrace_start'), 13: ('LostSamples', 'lost_samples'), 14: ('Switch', None),
           15: ('SwitchCpuWide', 'switch_cpu_wide'), 16: ('Namespaces', 'namespaces'), 17: ('KSymbol', 'ksymbol'),
           18: ('BpfEvent', 'bpf_event'), 19: ('CGroup', 'cgroup'), 20: ('TextPoke', 'text_poke'),
           21: ('AuxOutputHwId', 'aux_output_hw_id')}
UNKNOWN = (0, 22, 64, 0xffffffff)
SAMPLE_PARSE = "<perf_event_data::Sample<'p> as perf_event_data::parse::Parse<'p>>::parse"
CFG = 'perf_event_data::parse::ParseConfig::<E>::'
SEEN = ('sample_type', 'read_format', 'regs_user', 'regs_intr', 'branch_hw_index')


def config_seen(it, st, r, ty):
    """What the accessors say about the configuration of a parser."""
    t = it.p.ty(it.p.ty(ty)['to'])
    for i, (n, x) in enumerate(t['variants'][0]['fields']):
        if it.p.ty(x).get('def', '').endswith('ParseConfig'):
            want = x
            break
    else:
        raise check.Mismatch('no configuration in the parser')
    rc = ('R', tuple((c, a, p + (('f', i),)) for c, a, p in r[1]))
    out = []
    for nm in SEEN:
        fs = [f for f in it.p.fns.values() if f['def'] == CFG + nm and f.get('blocks') and it.p.ty(f['locals'][1])['to'] == want]
        if not fs:
            raise check.Mismatch('accessor ' + nm)
        v = it.call(fs[0]['id'], [rc], st)
        out.append(check.Cmp(it, st).scalar(fs[0]['locals'][0], v)[0])
    return tuple(out)


def opaque_sample(c):
    """At record level a sample is some function of its bytes and configuration (what function: C02)."""
    def m(it, st, f, args, at, dt):
        s = prims.Src(it, st, args[0], f['locals'][1])
        if not s.ok:
            return NotImplemented
        okty, ety = prims.okerr(it, f['locals'][0])
        key = (s.base, s.pos, s.lim)
        ok = dd.var_of(('var', ('sample ok',) + key))
        v = ('O', 'sample', (repr(s.base), I(s.pos), I(s.lim)) + config_seen(it, st, args[0], f['locals'][1]))
        it.ntop += 1
        s.advance(P.A(('top', 'samplepos') + key, 0, P.BIGLEN), c.counters)
        return models.result(ok, v, it.sym(ety, ('toperr', it.ntop)))
    c.it.summaries[SAMPLE_PARSE] = m


class Framed:
    """A record with the given header whose contents start at pos0."""

    def __init__(self, c, ty, misc, size, pos0, ety, A):
        self.fails = {}
        lim = c.lim
        e = models.src_error(c.it, ety, 'S0')
        o = SP.Cur('S0', pos0, lim, prims.kind_is(c.it, ety, e, 'Eof'))
        cfg = SP.Cfg(A, misc)
        big = P.ge(size, C(8))
        dl = P.sub(size, C(8))
        o.need(big, T, 'InvalidRecord')
        fits = P.ge(P.sub(lim, pos0), dl)
        o.need(OR(NOT(big), fits), T, 'src')
        has = ty not in (1, 9)
        n = SP.sample_id_len(cfg) if has else P.ZERO
        room = P.ge(dl, n)
        inside = AND(big, fits)
        o.need(OR(NOT(inside), room), T, 'InvalidRecord')
        inside = AND(inside, room)
        self.end = P.add(pos0, dl)
        self.framed = AND(big, fits)
        self.blim = P.sub(self.end, n)
        sid = SP.Cur('S0', self.blim, self.end)
        meta = SP.sample_id(sid, cfg, T if has else F)
        if not has:
            meta = {k: SP.opt(F, P.ZERO) for k in meta}
        self.meta = dict(ty=C(ty), misc=misc, sample_id=meta)
        k = SP.Cur('S0', pos0, self.blim)
        k.it = c.it
        self.k = k
        self.o, self.inside = o, inside
        self.cfg = cfg

    def done(self):
        """Conditions of the whole record, the body having been read through self.k."""
        o = self.o
        o.ok = AND(o.ok, OR(NOT(self.inside), self.k.ok))
        for kd, x in self.k.fails.items():
            kd = 'Eof' if kd == 'src' else kd
            o.fails[kd] = OR(o.fails.get(kd, F), AND(self.inside, x))
        return o


def pinned_header(c, root, ty):
    f = c.fn(root)
    t = f['locals'][2]
    h = c.it.sym(t, ('hdr',))
    fs = c.p.ty(t)['variants'][0]['fields']
    v = {n: x for (n, _), x in zip(fs, h[1])}
    h = ('S', tuple(I(C(ty)) if n == 'type_' else x for (n, _), x in zip(fs, h[1])))
    return h, c.it.as_int(v['misc']), c.it.as_int(v['size'])


def record(ty, root, hdr, again=False):
    """One header type through one entry point."""
    def f(prog):
        c = Case(prog)
        if again:
            c.parser_again()
        else:
            c.parser()
        opaque_sample(c)
        if hdr:
            h, misc, size = pinned_header(c, root, ty)
            pos0 = P.ZERO
            ok, v, er, erv, okty, ety = c.parse(root, h)
            head = T
        else:
            tyv = V.cv_at(4, 'S0', P.ZERO)
            misc, size = V.cv_at(2, 'S0', C(4)), V.cv_at(2, 'S0', C(6))
            pos0 = C(8)
            head = P.ge(c.lim, C(8))
            c.st.pc = P.eq(tyv, C(ty))
            ok, v, er, erv, okty, ety = c.parse(root)
        pc0 = T if hdr else P.eq(V.cv_at(4, 'S0', P.ZERO), C(ty))
        fr = Framed(c, ty, misc, size, pos0, ety, c.A)
        name, body = RECORDS.get(ty, ('Unknown', None))
        if name == 'Unknown':
            tree = [fr.k.rest()]
        elif name == 'Switch':
            tree = []
        elif name == 'Sample':
            k = fr.k
            br = B(SP.bit(c.A['branch_sample_type'], 17))
            tree = [('raw', ('O', 'sample', (repr('S0'), I(P.opaque(k.pos)), I(P.opaque(k.lim)), I(narrow(c.A['sample_type'], 40)), None, I(c.A['sample_regs_user']),
                                             I(c.A['sample_regs_intr']), br)))]
            k.need(dd.var_of(('var', ('sample ok', 'S0', P.opaque(k.pos), P.opaque(k.lim)))), T, 'other')
        else:
            tree = [SP.BODIES[body](fr.k, fr.cfg)]
        o = fr.done()
        lab = '%s %s' % (root.replace('root_', ''), name if ty in RECORDS else 'type %d' % ty)
        want = AND(head, o.ok)
        c.ob(lab + ': succeeds exactly when framing, trailer and contents are valid', AND(pc0, c.st.pc), B(ok), B(want), 'ok')
        both = AND(AND(pc0, c.st.pc), AND(ok, want))
        pos = c.position()
        outer(c, root, okty, v, name, tree, fr, both, lab, ty)
        c.ob(lab + ': source is left behind the record', AND(pc0, AND(c.st.pc, AND(head, fr.framed))), I(pos), I(fr.end), 'pos')
        if er != F:
            o.fails['src'] = OR(o.fails.get('src', F), NOT(head))
            for kd in list(o.fails):
                o.fails[kd] = AND(o.fails[kd], OR(head, T if kd == 'src' else F))
            errors(c, o, er, erv, ety, pc0, lab)
        c.extra = [fr.end, fr.blim]
        return c.result('%s %d' % (root, ty))
    return f


def metadata(ty, root, hdr, body, again):
    """parse_metadata: the metadata, and a parser for the contents of the record."""
    def f(prog):
        c = Case(prog)
        if again:
            c.parser_again()
        else:
            c.parser()
        if hdr:
            h, misc, size = pinned_header(c, root, ty)
            pos0, head, pc0 = P.ZERO, T, T
            ok, v, er, erv, okty, ety = c.parse(root, h)
        else:
            misc, size = V.cv_at(2, 'S0', C(4)), V.cv_at(2, 'S0', C(6))
            pos0, head = C(8), P.ge(c.lim, C(8))
            pc0 = P.eq(V.cv_at(4, 'S0', P.ZERO), C(ty))
            c.st.pc = AND(c.st.pc, pc0)
            ok, v, er, erv, okty, ety = c.parse(root)
        fr = Framed(c, ty, misc, size, pos0, ety, c.A)
        tree = SP.BODIES[body](fr.k, fr.cfg) if body else fr.k.rest()
        o = fr.done()
        pc0 = AND(pc0, c.st.pc)
        lab = '%s type %d%s' % (root.replace('root_', ''), ty, ', configuration reused' if again else '')
        want = AND(head, o.ok)
        c.ob(lab + ': succeeds exactly when framing, trailer and contents are valid', pc0, B(ok), B(want), 'ok')
        both = AND(pc0, AND(ok, want))
        ft = c.p.ty(okty)['fields']
        c.compare(ft[0], v[1][0], fr.meta, both, lab + ' metadata', 'meta')
        c.compare(ft[1], v[1][1], tree, both, lab + ' contents', 'body')
        c.ob(lab + ': source is left behind the record', AND(pc0, AND(head, fr.framed)), I(c.position()), I(fr.end), 'pos')
        if er != F:
            o.fails['src'] = OR(o.fails.get('src', F), NOT(head))
            for kd in list(o.fails):
                o.fails[kd] = AND(o.fails[kd], OR(head, T if kd == 'src' else F))
            errors(c, o, er, erv, ety, pc0, lab)
        c.extra = [fr.end, fr.blim]
        return c.result(lab)
    return f


def narrow(p, n):
    return P.from_bits(P.to_bits(p, 64)[:n])


def outer(c, root, okty, v, name, tree, fr, both, lab, ty):
    names = [x['name'] for x in c.p.ty(okty)['variants']] if c.p.ty(okty)['adt'] == 'enum' else None
    meta = fr.meta
    if name == 'Sample':
        # the read format keeps one bit for everything unknown: compared through the accessor elsewhere
        tree = [sample_leaf(c, v, okty, tree[0])]
    if root in ('root_record', 'root_record_hdr'):
        body = tree + [meta]
    elif root.startswith('root_enum_record'):
        body = tree + ([C(ty)] if name == 'Unknown' else [])
    elif root == 'root_record_none':
        c.compare(okty, v, meta, both, lab, 'meta')
        return
    elif root == 'root_record_vmmap':
        if name == 'Mmap2':
            t = {k: tree[0][k] for k in ('pid', 'tid', 'addr', 'len', 'pgoff', 'filename')}
            name, body = 'Mmap', [t, meta]
        elif name == 'Mmap':
            body = [tree[0], meta]
        else:
            name, body = 'Unimplemented', [meta]
    if name not in names:
        raise Missing('variant ' + name)
    c.compare(okty, v, ('enum', {name: (T, body)}), both, lab, 'body')


def sample_leaf(c, v, okty, want):
    """Fill what is not compared from the value itself."""
    w = list(want[1][2])

    def find(x):
        if isinstance(x, tuple):
            if len(x) == 3 and x[0] == 'O' and x[1] == 'sample':
                return x
            for y in x:
                r = find(y)
                if r is not None:
                    return r
        return None
    o = find(v)
    if o is not None:
        for i, x in enumerate(w):
            if x is None:
                w[i] = o[2][i]
    else:
        w = [x for x in w if x is not None]
    return ('raw', ('O', 'sample', tuple(w)))


ALL_TYPES = sorted(RECORDS) + list(UNKNOWN)
for _r, _h in (('root_record_hdr', True), ('root_enum_record_hdr', True), ('root_record_none', True), ('root_record_vmmap', True), ('root_record', False), ('root_enum_record', False)):
    for _t in ALL_TYPES:
        CASES['%s %d' % (_r, _t)] = (record(_t, _r, _h), 3)
AGAIN = []
METADATA = []
for _r, _h, _b, _ts in (('root_meta', False, None, (1, 2, 3, 9, 10, 14, 64)), ('root_meta_hdr', True, None, (1, 2, 3, 9, 10, 14, 64)),
                        ('root_meta_mmap2', True, 'mmap2', (10,)), ('root_meta_switch', True, 'switch_cpu_wide', (15,))):
    for _t in _ts:
        METADATA.append('%s %d' % (_r, _t))
        CASES[METADATA[-1]] = (metadata(_t, _r, _h, _b, False), 3)
        if _b:
            AGAIN.append('again %s %d' % (_r, _t))
            CASES[AGAIN[-1]] = (metadata(_t, _r, _h, _b, True), 3)
for _r, _h in (('root_record_hdr', True), ('root_record', False)):
    for _t in (3, 9, 10, 15, 64):
        if _t in ALL_TYPES:
            AGAIN.append('again %s %d' % (_r, _t))
            CASES[AGAIN[-1]] = (record(_t, _r, _h, True), 3)


def rec(root, types=None):
    return ['%s %d' % (root, t) for t in (types or ALL_TYPES)]



# --------------------------------------------------------------- primitives
def elem_ty(c, okty):
    """Element type of a Vec<T> / Cow<'_, [T]>."""
    t = c.p.ty([a[1] for a in c.p.ty(okty)['args'] if a[0] == 't'][0])
    return t['elem'] if t['k'] in ('slice', 'array') else t['id']


def pr_header(c, k, okty, a):
    return dict(type_=k.u32(), misc=k.u16(), size=k.u16())


def pr_array(c, k, okty, a):
    el = elem_ty(c, okty)
    return k.array(el, c.p.ty(el)['size'], c.it.as_int(a[0]))


def pr_if(c, k, okty, a):
    return SP.opt(a[0][1], k.u64(a[0][1]))


PRIM_TREES = dict(
    u8=lambda c, k, t, a: k.u8(), u16=lambda c, k, t, a: k.u16(), u32=lambda c, k, t, a: k.u32(), u64=lambda c, k, t, a: k.u64(),
    pu8=lambda c, k, t, a: k.u8(), pu16=lambda c, k, t, a: k.u16(), pu32=lambda c, k, t, a: k.u32(), pu64=lambda c, k, t, a: k.u64(),
    arr1=lambda c, k, t, a: k.bytes(1), arr8=lambda c, k, t, a: k.bytes(8), arr20=lambda c, k, t, a: k.bytes(20),
    bytes=lambda c, k, t, a: k.bytes(c.it.as_int(a[0])), rest=lambda c, k, t, a: k.rest(), trim=lambda c, k, t, a: k.string(),
    header=pr_header, slice_u64=pr_array, slice_ns=pr_array, slice_be=pr_array, repeated_u64=pr_array, repeated_be=pr_array)
PRIM_TREES['if'] = pr_if


def prim(name):
    def f(prog):
        c = Case(prog)
        c.parser()
        fn = c.fn('root_prim_' + name)
        args = [c.it.sym(x, ('a%d' % j,)) for j, x in enumerate(fn['locals'][2:1 + fn['argc']])]
        ok, v, er, erv, okty, ety = c.parse('root_prim_' + name, *args)
        k = c.cur(ety)
        tree = PRIM_TREES[name](c, k, okty, args)
        c.ob(name + ': succeeds exactly when the bytes are there', c.st.pc, B(ok), B(k.ok), 'ok')
        both = AND(c.st.pc, AND(ok, k.ok))
        c.compare(okty, v, tree, both, name)
        c.ob(name + ': bytes consumed', both, I(c.position()), I(k.pos), 'pos')
        errors(c, k, er, erv, ety, T, name)
        c.extra = [k.pos]
        return c.result('prim ' + name)
    return f


for _n in PRIM_TREES:
    CASES['prim ' + _n] = (prim(_n), 2)


# ------------------------------------------------------------ configuration
@case('estimate')
def estimate(prog):
    """The size set aside for the trailer is the size the kernel gives it."""
    c = Case(prog)
    c.parser()
    v = c.call('root_estimate', ref_c(c.pcell))
    n = SP.sample_id_len(SP.Cfg(c.A))
    c.ob('reserved trailer size', c.st.pc, v, I(n))
    return c.result('estimate')


def known_config(c, ty, v):
    """The configuration a user sees, up to the bits the kernel defines."""
    x = check.Cmp(c.it, c.st)
    t = c.p.ty(ty)
    out = {}
    for i, (n, ft) in enumerate(t['variants'][0]['fields']):
        out[n] = c.it.as_int(x.scalar(ft, x.field(v, i))[0])
    return out


def config_obs(c, ty, v, pc, label):
    got, A = known_config(c, ty, v), c.A
    for n, attr in (('regs_user', 'sample_regs_user'), ('regs_intr', 'sample_regs_intr')):
        c.ob('%s: %s' % (label, n), pc, I(got[n]), I(A[attr]))
    c.ob(label + ': sample_type', pc, I(narrow(got['sample_type'], 25)), I(narrow(A['sample_type'], 25)))
    c.ob(label + ': read_format', pc, I(narrow(got['read_format'], 5)), I(narrow(A['read_format'], 5)))

    def beyond(p):
        r = F
        for b in P.to_bits(p, 64)[5:]:
            r = OR(r, P.bit_bdd(b))
        return B(r)
    c.ob(label + ': unsupported read_format bits stay visible', pc, beyond(got['read_format']), beyond(A['read_format']))


HIDDEN = ('sample_id_all', 'branch_hw_index', 'misc')


@case('config')
def config(prog):
    c = Case(prog)
    c.parser()
    v = c.call('root_config', ref_c(c.pcell))
    config_obs(c, c.ty, v, c.st.pc, 'configuration')
    want = dict(sample_id_all=B(c.A['sample_id_all']), branch_hw_index=B(SP.bit(c.A['branch_sample_type'], 17)), misc=I(P.ZERO))
    root = c.fn('root_mk')['locals'][0]
    c.notes += hidden(c, ref_c(c.pcell), root, want, 'configuration')
    return c.result('config')


def hidden(c, r, ty, want, label, cfgt=None):
    """Settings without a public accessor, through the crate's own (if it still has them)."""
    skipped = []
    path = ()
    t = c.p.ty(ty)
    if cfgt is None:
        for i, (n, x) in enumerate(t['variants'][0]['fields']):
            if c.p.ty(x).get('def', '').endswith('ParseConfig'):
                cfgt, path = x, (('f', i),)
    if cfgt is None:
        return ['no configuration type']
    rc = ('R', tuple((g, a, p + path) for g, a, p in r[1]))
    for n, w in want.items():
        fs = [f for f in c.p.fns.values() if f['def'] == CFG + n and f.get('blocks') and c.p.ty(f['locals'][1])['k'] == 'ref' and c.p.ty(f['locals'][1])['to'] == cfgt]
        if not fs:
            skipped.append('no accessor ' + n)
            continue
        v = c.it.call(fs[0]['id'], [rc], c.st)
        c.ob('%s: %s' % (label, n), c.st.pc, v, w)
    return skipped


def config_via(root):
    def f(prog):
        c = Case(prog)
        c.parser()
        fn = c.fn(root)
        args = [c.it.sym(x, ('a%d' % j,)) for j, x in enumerate(fn['locals'][2:1 + fn['argc']])]
        ok, v, er, erv, okty, ety = c.parse(root, *args)
        t = c.p.ty(okty)
        g = AND(c.st.pc, ok)
        config_obs(c, t['fields'][0], v[1][0], g, root)
        c.ob(root + ': trailer setting', g, v[1][1], I(SP.sample_id_len(SP.Cfg(c.A))))
        return c.result(root)
    return f


for _r in ('root_config_meta',):
    CASES[_r] = (config_via(_r), 2)


@case('config default')
def config_default(prog):
    """The default configuration is that of all-zero attributes; a copy is the same configuration."""
    c = Case(prog)
    c.parser('root_mk_clone')
    v = c.call('root_config', ref_c(c.pcell))
    config_obs(c, c.ty, v, c.st.pc, 'clone')
    want = dict(sample_id_all=B(c.A['sample_id_all']), branch_hw_index=B(SP.bit(c.A['branch_sample_type'], 17)), misc=I(P.ZERO))
    c.notes += hidden(c, ref_c(c.pcell), c.fn('root_mk_clone')['locals'][0], want, 'clone')
    n = c.call('root_estimate', ref_c(c.pcell))
    c.ob('clone: trailer setting', c.st.pc, n, I(SP.sample_id_len(SP.Cfg(c.A))))
    c.pcell = c.cell(c.call('root_mk_default', c.source()))
    c.A = {k: (F if k == 'sample_id_all' else P.ZERO) for k in c.A}
    v = c.call('root_config', ref_c(c.pcell))
    config_obs(c, c.ty, v, c.st.pc, 'default')
    want = dict(sample_id_all=B(F), branch_hw_index=B(F), misc=I(P.ZERO))
    c.notes += hidden(c, ref_c(c.pcell), c.fn('root_mk_default')['locals'][0], want, 'default')
    n = c.call('root_estimate', ref_c(c.pcell))
    c.ob('default: trailer setting', c.st.pc, n, I(P.ZERO))
    return c.result('config default')


@case('config endian')
def config_endian(prog):
    """Changing the byte order leaves everything else as it is."""
    c = Case(prog)
    c.parser('root_mk_dyn')
    v = c.call('root_config', ref_c(c.pcell))
    config_obs(c, c.ty, v, c.st.pc, 'with_endian')
    want = dict(sample_id_all=B(c.A['sample_id_all']), branch_hw_index=B(SP.bit(c.A['branch_sample_type'], 17)), misc=I(P.ZERO))
    c.notes += hidden(c, ref_c(c.pcell), c.fn('root_mk_dyn')['locals'][0], want, 'with_endian')
    return c.result('config endian')


SETTERS = {'set_misc': 'misc', 'set_sample_type': 'sample_type', 'set_read_format': 'read_format'}
GETTERS = ('read_format', 'sample_type', 'sample_id_all', 'branch_hw_index', 'misc')


@case('config setters')
def config_setters(prog):
    """Each component of the packed configuration word is independent of the
    others, whatever the word held before."""
    c = Case(prog, summaries=())
    pre = 'perf_event_data::config::ConfigFlags::'
    fns = {f['def'][len(pre):]: f for f in prog.fns.values() if f['def'].startswith(pre) and f.get('blocks')}
    get = [g for g in GETTERS if g in fns]
    c.notes += ['no ' + x for x in GETTERS + tuple(SETTERS) if x not in fns]
    for s, own in SETTERS.items():
        if s not in fns:
            continue
        f = fns[s]
        t = prog.ty(f['locals'][1])['to']
        c.st = St(T, {})
        cell = c.cell(c.it.sym(t, ('flags',)))
        def look():
            return {g: check.Cmp(c.it, c.st).scalar(fns[g]['locals'][0], c.it.call(fns[g]['id'], [ref_c(cell)], c.st))[0] for g in get}
        before = look()
        x = c.it.sym(f['locals'][2], ('new',))
        c.it.call(f['id'], [ref_c(cell), x], c.st)
        after = look()
        for g in get:
            if g != own:
                c.ob('%s leaves %s alone' % (s, g), c.st.pc, after[g], before[g])
        x = c.it.as_int(check.Cmp(c.it, c.st).scalar(f['locals'][2], x)[0])
        n = dict(misc=16, sample_type=25, read_format=5)[own]
        if own in get:
            c.ob('%s sets %s' % (s, own), c.st.pc, I(narrow(c.it.as_int(after[own]), n)), I(narrow(x, n)))
    return c.result('config setters')


def endian_case(name):
    """A built-in byte order against its definition."""
    def f(prog):
        c = Case(prog)
        fn = c.fn('root_endian_' + name)
        e = c.it.sym(fn['locals'][1], ('order',))
        arrs = [c.it.sym(x, ('b%d' % i,)) for i, x in enumerate(fn['locals'][2:5])]
        v = c.call('root_endian_' + name, e, *arrs)
        big = T if name == 'big' else F
        if name == 'dynamic':
            t = c.p.ty(fn['locals'][1])
            big = [g for i, g, _ in e[1] if t['variants'][i]['name'] == 'Big'][0]
        for i, (w, a) in enumerate(zip((2, 4, 8), arrs)):
            bs = [c.it.as_int(V.seq_at(a, C(j), T)) for j in range(w)]
            lit = P.ZERO
            bg = P.ZERO
            for j in range(w):
                lit = P.add(lit, P.scale(bs[j], 1 << (8 * j)))
                bg = P.add(bg, P.scale(bs[w - 1 - j], 1 << (8 * j)))
            c.ob('%s decodes %d-bit integers' % (name, 8 * w), c.st.pc, I(bits_sum(v[1][i][1])), I(bits_sum(P.ite(big, bg, lit))))
        c.ob('%s claims to be native only when it is the host order' % name, AND(c.st.pc, v[1][3][1]), B(big), B(F))
        return c.result('endian ' + name)
    return f


def bits_sum(p):
    return P.from_bits(P.to_bits(p, 64))


for _n in ('native', 'little', 'big', 'dynamic'):
    CASES['endian ' + _n] = (endian_case(_n), 1)


ATTR = [  # member, offset, bytes, first structure size that has it
    ('config', 8, 8, 64), ('sample_period', 16, 8, 64), ('sample_type', 24, 8, 64), ('read_format', 32, 8, 64), ('wakeup_events', 48, 4, 64),
    ('bp_type', 52, 4, 64), ('config1', 56, 8, 64), ('config2', 64, 8, 72), ('branch_sample_type', 72, 8, 80), ('sample_regs_user', 80, 8, 96),
    ('sample_stack_user', 88, 4, 96), ('clockid', 92, 4, 96), ('sample_regs_intr', 96, 8, 104), ('aux_watermark', 104, 4, 112),
    ('sample_max_stack', 108, 2, 112), ('aux_sample_size', 112, 4, 120), ('sig_data', 120, 8, 128), ('config3', 128, 8, 136)]
ATTR_SIZES = (64, 72, 80, 96, 104, 112, 120, 128, 136)


@case('attr', 3)
def attr_case(prog):
    """struct perf_event_attr for every declared size."""
    c = Case(prog)
    c.parser()
    ok, v, er, erv, okty, ety = c.parse('root_prim_attr')
    k = c.cur(ety)
    at = dict(type_=k.u32(), size=k.u32())
    size = at['size']
    valid = P.ge(size, C(137))
    for n in ATTR_SIZES:
        valid = OR(valid, P.eq(size, C(n)))
    head = k.ok
    k.need(OR(NOT(head), valid), T, 'InvalidRecord')
    end = size
    inside = AND(head, valid)
    k.need(OR(NOT(inside), P.ge(k.lim, end)), T, 'src')
    inside = AND(inside, P.ge(k.lim, end))
    # every byte behind the newest member is zero
    t = c.p.ty(okty)
    fts = dict(t['variants'][0]['fields'])
    vals = {n: x for (n, _), x in zip(t['variants'][0]['fields'], v[1])}
    zero = tail_zero(c, 'S0', C(136), P.sub(size, C(136)))
    k.need(OR(NOT(AND(inside, P.ge(size, C(137)))), zero), T, 'UnsupportedData')
    c.ob('attr: accepted exactly for the published sizes and zero-extended larger ones', c.st.pc, B(ok), B(k.ok))
    both = AND(c.st.pc, AND(ok, k.ok))
    cmp_ = check.Cmp(c.it, c.st)

    def leaf(n):
        return cmp_.scalar(fts[n], vals[n])[0]
    c.ob('attr: type', both, leaf('type_'), I(at['type_']))
    c.ob('attr: size', both, leaf('size'), I(size))
    for n, off, w, since in ATTR:
        has = P.ge(size, C(since))
        x = leaf(n)
        w = V.cv_at(w, 'S0', C(off))
        if n == 'clockid':
            w = c.it.wrap(w, 32, True, T)
        c.ob('attr: %s' % n, both, x, I(P.ite(has, w, P.ZERO)))
    for n in ('reserved_2', 'reserved_3'):
        c.ob('attr: %s' % n, both, leaf(n), I(P.ZERO))
    # the flag word, kept in the order of the host
    a = vals['all']
    tt = c.p.ty(fts['all'])['variants'][0]['fields']
    i = [n for n, _ in tt].index('_bitfield_1')
    bits = c.it.bits_of(a[1][i], tt[i][1], both)
    if bits is None:
        raise check.Mismatch('flag word of the attributes')
    c.ob('attr: flags', both, I(P.from_bits(bits)), I(P.from_bits(P.to_bits(V.cv_at(8, 'S0', C(40)), 64))))
    c.ob('attr: consumes its declared size', both, I(c.position()), I(end), 'pos')
    errors(c, k, er, erv, ety, T, 'attr')
    c.extra = [end]
    return c.result('attr')


def tail_zero(c, base, pos, n):
    """All of S[pos..pos+n) is zero."""
    b = models.BOUND
    return models.forall(b, n, P.eq(V.byte_at(base, P.add(pos, b)), P.ZERO))


def pick(g, c):
    """Entry g() when c."""
    return ('opt', c, g)


def group_tree(name, g, a):
    n, one = g.nr, P.ONE
    at = lambda i: ('opt', P.gt(n, i) if hasattr(P, 'gt') else P.lt(i, n), g.entry(i))
    back = lambda i: ('opt', P.lt(i, n), g.entry(P.sub(P.sub(n, one), i)))
    has = lambda m: P.le(C(m), n)
    if name == 'get':
        return at(a)
    if name == 'last':
        return ('opt', has(1), g.entry(P.sub(n, one)))
    if name == 'nth_back':
        return back(a)
    if name == 'iter':
        left = lambda m: P.ite(has(m), P.sub(n, C(m)), P.ZERO)
        return [('opt', has(1), g.entry(P.ZERO)), ('opt', has(2), g.entry(P.sub(n, one))), left(2), ('opt', has(3), g.entry(one)), left(3)]
    if name == 'skip':
        i1 = P.add(a, one)
        some = P.lt(i1, n)
        rest = P.ite(P.lt(a, n), P.sub(P.sub(n, one), a), P.ZERO)
        rest2 = P.ite(some, P.sub(rest, one), P.ZERO)
        return [at(a), ('opt', some, g.entry(i1)), rest, rest2, ('opt', T, rest2)]
    if name == 'skip_back':
        i1 = P.add(a, one)
        some = P.lt(i1, n)
        rest = P.ite(P.lt(a, n), P.sub(P.sub(n, one), a), P.ZERO)
        return [back(a), ('opt', some, g.entry(P.sub(P.sub(n, one), i1))), rest, ('opt', P.lt(P.add(i1, one), n), g.entry(P.ZERO))]
    e = g.entry(P.ZERO)
    full = lambda e: dict(value=e['value'], time_enabled=g.te, time_running=g.tr, id=e['id'], lost=e['lost'])
    if name == 'to_value':
        return ('opt', P.eq(n, one), full(e))
    if name == 'entry_value':
        return ('opt', P.lt(a, n), full(g.entry(a)))
    if name == 'owned' or name == 'clone':
        return g.tree()
    if name == 'by_id':
        # the first entry with that id
        K = P.A(('bound', 'byid'), 0, P.BIGLEN)
        idk = V.cv_at(8, g.base, P.add(P.add(g.at, P.scale(P.mul(P.restrict(g.words, g.id), K), 8)), C(8)))
        import loops
        first = loops.least(K, AND(P.lt(K, n), NOT(P.eq(idk, a))))
        return ('opt', AND(g.id, P.lt(first, n)), g.entry(first))
    raise KeyError(name)


def group_case(name, root):
    def f(prog):
        c = Case(prog)
        c.parser()
        fn = c.fn(root)
        args = [c.it.sym(x, ('a%d' % j,)) for j, x in enumerate(fn['locals'][2:1 + fn['argc']])]
        ok, v, er, erv, okty, ety = c.parse(root, *args)
        k = c.cur(ety)
        g = SP.Group(k, SP.Cfg(c.A))
        tree = group_tree(name, g, c.it.as_int(args[0]) if args else None)
        both = AND(c.st.pc, AND(ok, k.ok))
        c.compare(okty, v, tree, both, 'group ' + name)
        c.extra = [k.pos]
        return c.result(root)
    return f


def value_case(name, root):
    def f(prog):
        c = Case(prog)
        c.parser()
        ok, v, er, erv, okty, ety = c.parse(root)
        k = c.cur(ety)
        w = SP.read_value(k, SP.Cfg(c.A))
        tree = SP.value_as_group(w) if name == 'to_group' else SP.opt(T, w)
        c.compare(okty, v, tree, AND(c.st.pc, AND(ok, k.ok)), 'value ' + name)
        return c.result(root)
    return f


GROUP_CASES = []
for _n in ('get', 'by_id', 'iter', 'last', 'nth_back', 'skip', 'skip_back', 'to_value', 'entry_value', 'owned'):
    GROUP_CASES.append('root_group_' + _n)
    CASES['root_group_' + _n] = (group_case(_n, 'root_group_' + _n), 4)
for _n in ('to_group', 'round'):
    GROUP_CASES.append('root_value_' + _n)
    CASES['root_value_' + _n] = (value_case(_n, 'root_value_' + _n), 2)
CASES['root_clone_group'] = (group_case('clone', 'root_clone_group'), 2)


# ------------------------------------------------- copies, views, conversions
def as_mmap(t):
    return {k: t[k] for k in ('pid', 'tid', 'addr', 'len', 'pgoff', 'filename')}


def as_sid(t):
    return {k: t[k] for k in ('pid', 'tid', 'time', 'id', 'stream_id', 'cpu')}


def in_enum(variant):
    return lambda t: ('enum', {variant: (T, [t])})


DERIVED = {}
for _n in ('mmap', 'mmap2', 'comm', 'ksymbol', 'cgroup', 'text_poke'):
    DERIVED['root_own_' + _n] = (_n, None)
for _n in ('mmap', 'mmap2', 'sample', 'sample_id', 'namespaces'):
    DERIVED['root_clone_' + _n] = (_n, None)
for _n in ('into_mmap', 'to_mmap', 'mmap_from'):
    DERIVED['root_' + _n] = ('mmap2', as_mmap)
for _n, _v in (('mmap', 'Mmap'), ('lost', 'Lost'), ('comm', 'Comm'), ('read', 'Read'), ('mmap2', 'Mmap2'), ('aux', 'Aux'), ('itrace_start', 'ITraceStart'),
               ('lost_samples', 'LostSamples'), ('switch_cpu_wide', 'SwitchCpuWide'), ('namespaces', 'Namespaces'), ('ksymbol', 'KSymbol'),
               ('bpf_event', 'BpfEvent'), ('cgroup', 'CGroup'), ('text_poke', 'TextPoke'), ('aux_output_hw_id', 'AuxOutputHwId')):
    DERIVED['root_from_' + _n] = (_n, in_enum(_v))
for _n in ('sid_of_sample', 'sid_from_ref', 'sid_from_val', 'clone_sid_of', 'from_sample'):
    DERIVED['root_' + _n] = ('sample', as_sid)
for _n, _f in (('comm', 'comm'), ('mmap', 'filename'), ('mmap2', 'filename'), ('cgroup', 'path')):
    DERIVED['root_os_' + _n] = (_n, lambda t, f=_f: t[f])


def derived(root, src, fn):
    """What is made of a parsed value holds what was parsed."""
    def f(prog):
        c = Case(prog)
        c.parser()
        ok, v, er, erv, okty, ety = c.parse(root)
        k = c.cur(ety)
        tree = SP.BODIES[src](k, SP.Cfg(c.A))
        c.ob('%s: made of every %s that can be read' % (root[5:], src), c.st.pc, B(ok), B(k.ok))
        both = AND(c.st.pc, AND(ok, k.ok))
        c.extra = [k.pos]
        if root == 'root_clone_sample':
            c2 = c.cell(v)
            c.hazpc = ok
            c.st.pc = T
            v = c.call('root_obs_sample', ref_c(c2))
            okty = c.ty
            c.st.pc = T
        c.compare(okty, v, fn(tree) if fn else tree, both, root[5:])
        if root.startswith('root_own_'):
            for nm, g, x in cows(c, okty, v):
                c.ob('%s: %s does not borrow from the input' % (root[5:], nm), AND(both, g), B(empty_content(x)), B(T), 'lent')
        return c.result(root)
    return f


def cows(c, ty, v, name=''):
    """Borrowed parts of a record: (field, when, contents)."""
    t = c.p.ty(ty)
    if 'borrow::Cow' in t['name'].split('<')[0]:
        if v[0] == 'E':
            for i, g, fs in v[1]:
                if i == 0:
                    yield name, g, c.it.read_ref(c.st, fs[0])
    elif v[0] == 'S' and t.get('variants') and len(t['variants']) == 1:
        for fd, x in zip(t['variants'][0]['fields'], v[1]):
            yield from cows(c, fd[1], x, fd[0])


for _n, (_s, _f) in DERIVED.items():
    CASES[_n] = (derived(_n, _s, _f), 30 if _s == 'sample' else 2)


def released(prog):
    """Every owned part of a sample is released exactly once when it is dropped."""
    c = Case(prog)
    c.parser()
    it = c.it
    ok, v, er, erv, okty, ety = c.parse('root_body_sample')
    fs = [f for f in prog.fns.values() if f['crate'] == 'perf_event_data' and f.get('blocks') and f['def'].endswith('>::drop') and 'ops::Drop for' in f['def']
          and prog.ty(prog.ty(f['locals'][1])['to'])['name'].split('<')[0].endswith('::Sample')]
    if not fs:
        raise Missing('the release of a sample')
    f = fs[0]
    t = prog.ty(prog.ty(f['locals'][1])['to'])
    cell = c.cell(v[1][0])
    c.st.pc = ok
    fields = t['variants'][0]['fields']
    own = [(i, n) for i, (n, x) in enumerate(fields) if 'MaybeUninit' in prog.ty(x)['name'] and ('Cow<' in prog.ty(x)['name'] or 'ReadGroup' in prog.ty(x)['name']
                                                                                                 or 'Registers' in prog.ty(x)['name'])]
    before = {n: v[1][0][1][i] for i, n in own}
    del it.drops[:]
    it.call(f['id'], [ref_c(cell)], c.st)
    got = {}
    for pc, site, r in it.drops:
        for g, a, p in r[1]:
            if a == ('c', cell) and p and p[0][0] == 'f':
                n = fields[p[0][1]][0]
                got.setdefault(n, []).append(AND(pc, g))
    import loops
    for n, w in before.items():
        there = loops.init_of(w)[0]
        cs = got.get(n, [])
        once, any_ = F, F
        for x in cs:
            c.ob('%s is not released twice' % n, AND(ok, AND(any_, x)), B(F), B(T))
            any_ = OR(any_, x)
        c.ob('%s is released when it is there' % n, ok, B(any_), B(AND(ok, there)))
    if len(before) < 8:
        raise Missing('owned parts of a sample: %d' % len(before))
    return c.result('released')


CASES['released'] = (released, 30)


def default_sid(prog):
    c = Case(prog)
    c.parser()
    v = c.call('root_default_sample_id')
    z = SP.opt(F, P.ZERO)
    c.compare(c.ty, v, {k: z for k in ('pid', 'tid', 'time', 'id', 'stream_id', 'cpu')}, T, 'default sample id')
    v = c.call('root_default_meta_flags')
    c.compare(c.ty, v, [P.ZERO] * 4, T, 'default flags')
    return c.result('default')


CASES['default'] = (default_sid, 1)


def constants(name):
    def f(prog):
        c = Case(prog)
        c.parser()
        v = c.call('root_consts_' + name)
        c.compare(c.ty, v, {k: C(x) for k, x in SP.CONSTS[name].items()}, T, name)
        return c.result('constants ' + name)
    return f


for _n in SP.CONSTS:
    CASES['constants ' + _n] = (constants(_n), 1)


def new_enums(prog):
    c = Case(prog)
    c.parser()
    fn = c.fn('root_new_enums')
    args = [c.it.sym(x, ('a%d' % j,)) for j, x in enumerate(fn['locals'][1:1 + fn['argc']])]
    a, b, d = [c.it.as_int(x) for x in args]
    v = c.call('root_new_enums', *args)
    c.compare(c.ty, v, [a, b, b, d, a, a], T, 'values of open enumerations')
    return c.result('new enums')


CASES['new enums'] = (new_enums, 1)


RECORD_BODIES = ['body ' + n for n in ('mmap', 'lost', 'comm', 'exit', 'throttle', 'read', 'mmap2', 'aux', 'itrace_start', 'lost_samples',
                                       'switch_cpu_wide', 'namespaces', 'ksymbol', 'bpf_event', 'cgroup', 'text_poke',
                                       'aux_output_hw_id', 'ns_entry')]
SAMPLE_BODIES = ['body ' + n for n in ('sample', 'read_value', 'read_group', 'regs_user', 'regs_intr', 'branch_entry', 'data_source', 'txn')]

# ------------------------------------------------------------------ properties
PRIM_CASES = ['prim ' + n for n in PRIM_TREES]
HDR_ROOTS = ('root_record_hdr', 'root_enum_record_hdr', 'root_record_none', 'root_record_vmmap')
ALL_RECORDS = [x for r in HDR_ROOTS + ('root_record', 'root_enum_record') for x in rec(r)] + METADATA
LEMMAS = ['lemma ' + n for n in prims.PRIMS]
BODIES = ['body ' + n for n in SP.BODIES]
LK = ('spec', 'pos', 'panic')
SOURCES = ['source slice', 'source reader', 'source wrappers', 'lemma cursor']
PLAN = {
    'C01': dict(cases=RECORD_BODIES + rec('root_record_hdr') + METADATA[-2:], kinds=('spec', 'pos', 'ok', 'body', 'panic'), lemma_kinds=LK),
    'C02': dict(cases=SAMPLE_BODIES, kinds=('spec', 'pos', 'panic'), lemma_kinds=LK),
    'C03': dict(cases=['estimate', 'body sample_id'] + rec('root_record_none') + METADATA, kinds=('spec', 'pos', 'ok', 'meta', 'error', 'panic'), lemma_kinds=LK),
    'C04': dict(cases=rec('root_record_hdr') + rec('root_record') + rec('root_enum_record_hdr') + rec('root_enum_record'), kinds=('ok', 'body')),
    'C05': dict(cases=rec('root_record_hdr') + rec('root_record') + rec('root_enum_record_hdr') + METADATA, kinds=('ok', 'pos', 'error', 'panic'), lemma_kinds=LK),
    'C06': dict(cases=BODIES + PRIM_CASES + LEMMAS + ALL_RECORDS + ['attr', 'estimate', 'config', 'config setters', 'root_config_meta'] + GROUP_CASES,
                kinds=('panic',), lemma_kinds=('panic',)),
    'C07': dict(cases=BODIES + PRIM_CASES + LEMMAS + ALL_RECORDS + ['attr', 'estimate', 'config', 'config setters'] + GROUP_CASES,
                kinds=('unsafe',), lemma_kinds=('unsafe',)),
    'C08': dict(cases=BODIES + PRIM_CASES + LEMMAS + ALL_RECORDS + ['attr', 'estimate', 'config'] + GROUP_CASES,
                kinds=('alloc',), lemma_kinds=('alloc',)),
    'C09': dict(cases=['recursion'] + LEMMAS + BODIES + PRIM_CASES + rec('root_record_hdr') + rec('root_record') + ['attr'] + GROUP_CASES,
                kinds=('term',), lemma_kinds=('term',)),
    'C13': dict(cases=BODIES + PRIM_CASES + LEMMAS + ALL_RECORDS + ['attr', 'error api'], kinds=('error', 'ok'), lemma_kinds=('error', 'ok')),
    'C10': dict(cases=PRIM_CASES + LEMMAS, kinds=('spec', 'pos', 'error', 'panic')),
    'C11': dict(cases=['endian ' + n for n in ('native', 'little', 'big', 'dynamic')] + ['prim ' + n for n in ('u16', 'u32', 'u64', 'pu16', 'pu32', 'pu64', 'arr8', 'header', 'bytes', 'repeated_u64')]
                + RECORD_BODIES + SAMPLE_BODIES + ['body sample_id'], kinds=('spec',)),
    'C12': dict(cases=['config', 'config default', 'config endian', 'config setters', 'root_config_meta', 'estimate'] + rec('root_record_hdr', (1, 10, 14, 15)) + AGAIN,
                kinds=('spec', 'ok', 'body')),
    'C14': dict(cases=['body read_value', 'body read_group', 'body read'] + GROUP_CASES[:1], kinds=('spec', 'pos', 'error', 'panic'), lemma_kinds=('spec', 'pos', 'error', 'panic')),
    'C15': dict(cases=GROUP_CASES + ['body read_group'], kinds=('spec', 'panic')),
    'C16': dict(cases=['attr'], kinds=('spec', 'pos', 'error', 'panic')),
    'C17': dict(cases=['root_clone_sample', 'root_clone_sample_id', 'root_sid_of_sample', 'root_sid_from_ref', 'root_sid_from_val', 'root_clone_sid_of',
                       'released', 'default', 'body sample', 'body sample_id'], kinds=('spec', 'panic', 'unsafe')),
    'C18': dict(cases=[n for n in DERIVED if not n.startswith(('root_sid', 'root_clone_s'))] + [n for n in GROUP_CASES if n not in DERIVED], kinds=('spec', 'panic'), lemma_kinds=LK),
    'C19': dict(cases=['constants ' + n for n in SP.CONSTS] + ['new enums', 'body data_source', 'body branch_entry', 'body txn', 'body aux', 'body switch_cpu_wide',
                       'body namespaces', 'body ns_entry', 'body ksymbol', 'body bpf_event', 'body regs_user', 'body read_value'], kinds=('spec', 'panic')),
    'C21': dict(cases=SOURCES, kinds=('spec', 'pos', 'error', 'panic')),
    'C20': dict(cases=rec('root_record_none') + rec('root_record_vmmap'), kinds=('ok', 'body', 'meta')),
}
for _e in PLAN.values():
    for _k in ('kinds', 'lemma_kinds'):
        if 'spec' in _e.get(_k, ()) and 'ok' not in _e[_k]:
            _e[_k] = tuple(_e[_k]) + ('ok',)


# -------------------------------------------------------------------- lemmas
def instances(prog, prim):
    """Instances of a primitive over the abstract source."""
    suf, _ = prims.PRIMS[prim]
    out = []
    for f in prog.fns.values():
        if f['def'] == prims.PRE + suf and f.get('blocks'):
            t = prog.ty(f['locals'][1])
            n = prog.ty(t['to'])['name'] if t['k'] in ('ref', 'ptr') else ''
            if n.endswith('Parser<AbsBuf, AbsEndian>') or n.endswith('TrackingParseBuf<AbsBuf>'):
                out.append(f)
    return out


def sub_source(c, f):
    """Reference to what the primitive takes: the parser or a part of it."""
    want = f['locals'][1]
    want = c.p.ty(want)['to']
    root = c.p.ty(c.fn('root_mk')['locals'][0])
    path, t = (), root
    while t['id'] != want:
        nxt = None
        for i, (n, x) in enumerate(t['variants'][0]['fields']):
            ti = c.p.ty(x)
            if ti['id'] == want or (ti['k'] == 'adt' and ti['adt'] == 'struct' and 'ParseBuf' in ti['name']):
                nxt = (i, ti)
        if nxt is None:
            raise check.Mismatch('source argument of ' + f['def'])
        path += (('f', nxt[0]),)
        t = nxt[1]
    return ('R', ((T, ('c', c.pcell), path),))


def content_pair(c, ty, v):
    """What a value holds, borrowed or not."""
    try:
        return check.Cmp(c.it, c.st).content(c.p.ty(ty), v)
    except check.Mismatch:
        return v


# primitives whose summaries may be used when another one's body is analysed
BELOW = {'parse_rest_trim_nul': ('parse_rest',), 'parse_slice': ('parse_array',), 'parse_bytes': (), 'parse_array': ()}


def lemma(prim):
    def f(prog):
        c = Case(prog, summaries=BELOW.get(prim, ()))
        fs = instances(prog, prim)
        it = c.it
        if not fs:
            return c.result('lemma ' + prim)
        for i, f in enumerate(fs):
            nm = prim if prim not in ('parse_array', 'parse_slice') else '%s %s' % (prim, prog.ty(f['locals'][0])['args'][0][1] and
                                                                                   prog.ty(prims.okerr(it, f['locals'][0])[0])['name'].replace('perf_event_data::', ''))
            c.st = St(T, {})
            c.parser()
            args = [sub_source(c, f)] + [it.sym(x, ('a%d' % j,)) for j, x in enumerate(f['locals'][2:1 + f['argc']])]
            s0 = c.st.copy()
            r = it.call(f['id'], args, c.st)
            ok, v, er, erv, okty, ety = c.split(r, f['locals'][0])
            p1, st1 = c.position(), c.st
            c.st = s0
            c.st.pc = T
            save = dict(it.summaries)
            prims.install(it, [prim], c.counters)
            r2 = it.call(f['id'], args, c.st)
            it.summaries = save
            it.summ_used.pop(prim, None)
            ok2, v2, er2, erv2, _, _ = c.split(r2, f['locals'][0])
            p2 = c.position()
            pc = st1.pc
            dom = [(T, '')]
            if prim == 'parse_slice':
                dom = slice_domains(c, okty, args)
            for d, tag in dom:
                g = AND(pc, d)
                if tag:
                    # the recorded behaviour: the bytes are consumed before the alignment is
                    # looked at, and the elements are then read from behind them
                    n, el = slice_extent(c, okty, args)
                    okb = P.ge(c.source()[3], P.scale(n, 2))
                    c.ob('finding %s: success%s' % (nm, tag), g, B(ok), B(okb), 'finding')
                    bb = AND(g, AND(ok, okb))
                    c.ob('finding %s: contents%s' % (nm, tag), bb, content_pair(c, okty, v), seq(('ar', el, 'S0', n, it.as_int(args[1]))), 'finding')
                    c.ob('finding %s: bytes consumed%s' % (nm, tag), bb, I(p1), I(P.scale(n, 2)), 'finding')
                    c.extra.append(P.scale(n, 2))
                kd = 'spec' if not tag else 'tagged'
                c.ob('%s: succeeds exactly when the bytes are there%s' % (nm, tag), g, B(ok), B(ok2), kd if tag else 'ok')
                both = AND(g, AND(ok, ok2))
                a, b = content_pair(c, okty, v), content_pair(c, okty, v2)
                c.ob('%s: contents%s' % (nm, tag), both, a, b, kd)
                c.ob('%s: bytes consumed%s' % (nm, tag), both, I(p1), I(p2), 'pos' if not tag else kd)
                if v[0] == 'E' and 'borrow::Cow' in c.p.ty(okty)['name']:
                    # only what the source lends may be kept without a copy
                    ext = dd.var_of(('ext', 'S0', P.ZERO))
                    if 'parse_rest' in BELOW.get(prim, ()):
                        # or what the operation below kept, which has its own lemma
                        ext = OR(ext, dd.var_of(('borrow', 'S0', P.ZERO, c.lim)))
                    for i, ci, fs in v[1]:
                        if i == 0:
                            c.ob('%s: keeps only what the source lends%s' % (nm, tag), AND(AND(g, ok), ci), B(OR(ext, empty_content(it.read_ref(st1, fs[0])))), B(T), 'lent')
                if er != F:
                    ge = AND(g, AND(er, er2))
                    if prim == 'parse_slice':
                        ge = AND(ge, NOT(P.ge(slice_extent(c, okty, args)[0], C(1 << 60))))
                    c.ob('%s: error of the source is passed on%s' % (nm, tag), ge, erv, models.src_error(it, ety, 'S0'), 'error')
            c.extra.append(p2)
        return settle_finding(c.result('lemma ' + prim), 'misaligned borrowed chunk')
    return f


def empty_content(v):
    """When a sequence holds nothing."""
    if v[0] == 'V':
        v = v[1]
    return P.eq(V.seq_len(v), P.ZERO) if v[0] == 'Q' else F


def settle_finding(r, what):
    """Inside the recorded finding's inputs: what the specification asks, or
    exactly the recorded behaviour (then the finding is reported as known)."""
    bug = [o for o in r['obs'] if o['label'].startswith('finding ')]
    tag = '(%s)' % what
    spec = [o for o in r['obs'] if o['label'].endswith(tag) and o not in bug]
    if any(o['status'] == 'refuted' for o in spec) and not any(o['status'] == 'refuted' for o in bug):
        for o in spec:
            o.pop('witness', None)
            o['status'] = 'known'
            o['key'] = what
    for o in spec:
        o['kind'] = 'spec'
    r['obs'] = [o for o in r['obs'] if o not in bug]
    return r


def slice_extent(c, okty, args):
    it = c.it
    sl = [a[1] for a in it.p.ty(okty)['args'] if a[0] == 't'][0]
    el = it.p.ty(sl)['elem']
    return P.scale(it.as_int(args[1]), it.p.ty(el)['size']), el


def slice_domains(c, okty, args):
    """Inputs of parse_slice apart from the known finding, then that."""
    it = c.it
    sl = [a[1] for a in it.p.ty(okty)['args'] if a[0] == 't'][0]
    el = it.p.ty(it.p.ty(sl)['elem'])
    z = c.source()
    n = P.scale(it.as_int(args[1]), el['size'])
    al = dd.var_of(('aligned', el['align'], 'S0', P.ZERO))
    nat = dd.var_of(('native',))
    ext = dd.var_of(('ext', 'S0', P.ZERO))
    inside = AND(P.lt(P.ZERO, z[3]), P.le(n, models.clen('S0', P.ZERO, z[3])))
    bad = AND(AND(nat, ext), AND(inside, AND(NOT(al), P.ge(n, P.ONE))))
    return [(NOT(bad), ''), (bad, ' (misaligned borrowed chunk)')]


for _n in prims.PRIMS:
    if _n != 'cursor':
        CASES['lemma ' + _n] = (lemma(_n), 20 if _n == 'parse_slice' else 5)


# ------------------------------------------------------------ bounded views
NCHUNKS = 3


def method(prog, name, ty):
    """The instance of a source's method for the type called ty."""
    out = []
    for f in prog.fns.values():
        if f.get('blocks') and f['def'].split('::')[-1] == name and f['crate'] == 'perf_event_data':
            t = prog.ty(f['locals'][1])
            n = prog.ty(t['to'])['name'] if t['k'] in ('ref', 'ptr') else t['name']
            if ty(n):
                out.append(f)
    if not out:
        raise Missing('%s of a byte source' % name)
    return out[0]


def chunk_facts(c, tag, g, r, ty, pos, lim, starts, base='S0', errors=True, lent=None):
    """What the contract says about a chunk at pos of a source that ends at lim."""
    it = c.it
    ok, v, er, erv, okty, ety = c.split(r, ty)
    more = P.lt(pos, lim)
    c.ob('%s: a chunk exactly while something is left' % tag, g, B(ok), B(more))
    if er != F and errors:
        e = it.eof_value(c.st, ety)
        c.ob('%s: end of input otherwise' % tag, AND(g, AND(er, NOT(more))), erv, e, 'error')
    if v is None or v[0] != 'E':
        raise check.Mismatch('chunk of ' + tag)
    names = [x['name'] for x in it.p.ty(okty)['variants']]
    g = AND(g, AND(ok, more))
    for i, ci, fs in v[1]:
        q = it.read_ref(c.st, fs[0])
        if q[0] != 'Q':
            raise check.Mismatch('contents of a chunk')
        for cj, ps in q[1]:
            gg = AND(g, AND(ci, cj))
            if not ps:
                c.ob('%s: is not empty' % tag, gg, B(F), B(T))
                continue
            if len(ps) != 1 or ps[0][0] != 'in':
                raise check.Mismatch('contents of a chunk')
            _, s, a, n = ps[0]
            c.ob('%s: is not empty' % tag, gg, B(P.ge(n, P.ONE)), B(T))
            c.ob('%s: starts at the position' % tag, gg, I(a if s == base else C(-1)), I(pos))
            c.ob('%s: stays inside' % tag, gg, B(P.le(P.add(a, n), lim)), B(T))
            if names[i] == 'External':
                there = T if lent else F
                for b, w in starts:
                    there = OR(there, AND(dd.var_of(('ext', base, b)), AND(P.le(b, pos), P.lt(pos, P.add(b, w)))))
                c.ob('%s: is lent only when the source lends it' % tag, gg, B(there), B(T))
                c.ob('%s: is not lent unless the source lends it' % tag, gg, B(there), B(T), 'lent')
    return ok


def lemma_cursor(prog):
    """The view over the next n bytes: made over up to NCHUNKS chunks of any
    sizes, read from, advanced twice by any amounts."""
    c = Case(prog, summaries=())
    c.parser()
    it = c.it
    f = [f for f in prog.fns.values() if f['def'] == prims.PRE + prims.PRIMS['cursor'][0] and f.get('blocks')
         and 'AbsBuf' in prog.ty(f['locals'][1])['name']]
    if not f:
        raise Missing('the view over a record')
    f = f[0]
    n = c.it.sym(f['locals'][2], ('n',))
    np = it.as_int(n)
    # the chunks of the source
    at, starts, dom = P.ZERO, [], F
    for i in range(NCHUNKS):
        w = models.clen('S0', at, c.lim)
        starts.append((at, w))
        at = P.add(at, w)
        dom = OR(dom, P.le(np, at))
        dom = OR(dom, P.le(c.lim, at))
    c.st.pc = dom
    r = it.call(f['id'], [sub_source(c, f), n], c.st)
    ok, v, er, erv, okty, ety = c.split(r, f['locals'][0])
    pc0 = c.st.pc
    c.ob('view: made exactly when the bytes are there', AND(dom, pc0), B(ok), B(P.le(np, c.lim)), 'ok')
    c.ob('view: the source is advanced past it', AND(pc0, ok), I(c.position()), I(np), 'pos')
    if er != F:
        c.ob('view: error of the source is passed on', AND(pc0, er), erv, models.src_error(it, ety, 'S0'), 'error')
    g = AND(pc0, ok)
    cell = c.cell(v)
    is_cur = lambda s: s.split('<')[0].endswith('::ParseBufCursor')
    chunk, adv = method(prog, 'chunk', is_cur), method(prog, 'advance', is_cur)
    hint, slc = method(prog, 'remaining_hint', is_cur), method(prog, 'as_slice', is_cur)
    me = lambda: ref_c(cell)

    def look(tag, pos, gg):
        c.st.pc = gg
        h = it.call(hint['id'], [me()], c.st)
        c.compare(hint['locals'][0], h, SP.opt(T, P.sub(np, pos)), gg, tag + ': exact length of what is left')
        r = it.call(chunk['id'], [me()], c.st)
        chunk_facts(c, tag, gg, r, chunk['locals'][0], pos, np, starts)

    look('view', P.ZERO, g)
    c.st.pc = g
    s = it.call(slc['id'], [me()], c.st)
    if s[0] != 'E':
        raise check.Mismatch('slice of a view')
    for i, ci, fs in s[1]:
        if i == 1:
            q = it.read_ref(c.st, fs[0])
            ext = dd.var_of(('ext', 'S0', P.ZERO))
            c.ob('view: one slice only of what is lent in one piece', AND(g, ci), B(AND(ext, P.le(np, starts[0][1]))), B(T))
            c.ob('view: a slice only of what is lent', AND(g, ci), B(ext), B(T), 'lent')
            c.ob('view: that slice is the view', AND(g, ci), q, seq(('in', 'S0', P.ZERO, np)))
    pos = P.ZERO
    for j in range(2):
        k = it.as_int(c.it.sym(f['locals'][2], ('k%d' % j,)))
        pos = P.add(pos, k)
        g = AND(g, P.le(pos, np))
        # a source is advanced within what it has
        c.st.pc = g
        it.call(adv['id'], [me(), I(k)], c.st)
        g = c.st.pc
        look('view after %d advance%s' % (j + 1, 's'[:j]), pos, g)
        c.extra.append(pos)
    return c.result('lemma cursor')


CASES['lemma cursor'] = (lemma_cursor, 30)


# --------------------------------------------------------- built-in sources
def slice_source(prog):
    """A byte slice as a source, whatever is left of it."""
    c = Case(prog, summaries=())
    c.source()
    it = c.it
    lim = c.source()[3]
    f = {n: c.fn('root_slice_' + n) for n in ('chunk', 'advance', 'hint')}
    a = P.A(('arg', ('AT',)), 0, P.BIGLEN)
    c.st.pc = P.le(a, lim)
    left = P.sub(lim, a)
    data = lambda pos: ref_v(models.inn('D0', pos, P.sub(lim, pos)))
    cell = c.cell(data(a))
    me = lambda: ref_c(cell)

    def same(tag, g, pos):
        v = it.read_ref(c.st, it.read(c.st, ('c', cell), ()))
        c.ob(tag, g, v, seq(('in', 'D0', pos, P.sub(lim, pos))), 'spec')

    g = c.st.pc
    h = it.call(f['hint']['id'], [me()], c.st)
    c.compare(f['hint']['locals'][0], h, SP.opt(T, left), g, 'slice: exact length of what is left')
    r = it.call(f['chunk']['id'], [me()], c.st)
    chunk_facts(c, 'slice', c.st.pc, r, f['chunk']['locals'][0], a, lim, [], base='D0', lent=True)
    same('slice: looking at a chunk moves nothing', g, a)
    k = it.as_int(it.sym(f['advance']['locals'][2], ('k',)))
    c.st.pc = g = AND(g, P.le(k, left))
    it.call(f['advance']['id'], [me(), I(k)], c.st)
    same('slice: advances by the amount asked for', c.st.pc, P.add(a, k))
    return c.result('source slice')


def reader_source(prog):
    """A buffered reader as a source."""
    c = Case(prog, summaries=())
    it = c.it
    f = {n: c.fn('root_reader_' + n) for n in ('chunk', 'advance', 'hint')}
    lim = c.source()[3]
    a = P.A(('arg', ('AT',)), 0, P.BIGLEN)
    c.st.pc = P.le(a, lim)
    z = ('Z', ('R0', 'R0'), a, lim)
    cell = c.cell(z)
    me = lambda: ref_c(cell)
    where = lambda: it.read(c.st, ('c', cell), ())

    def look(tag, pos):
        g = c.st.pc
        h = it.call(f['hint']['id'], [me()], c.st)
        hint_exact(c, tag, g, h, P.sub(lim, pos))
        c.st.pc = g = AND(g, NOT(dd.var_of(('var', ('ioerr', 'R0', pos)))))
        r = it.call(f['chunk']['id'], [me()], c.st)
        chunk_facts(c, tag, c.st.pc, r, f['chunk']['locals'][0], pos, lim, [], base='R0', lent=False)
        c.ob(tag + ': looking at a chunk moves nothing', c.st.pc, I(where()[2]), I(pos))

    g0 = c.st.pc
    look('reader', a)
    k = it.as_int(it.sym(f['advance']['locals'][2], ('k',)))
    c.st.pc = AND(c.st.pc, P.le(k, models.reader_left(a, lim, 'R0')))
    it.call(f['advance']['id'], [me(), I(k)], c.st)
    c.ob('reader: advances by the amount asked for', c.st.pc, I(where()[2]), I(P.add(a, k)))
    look('reader after an advance', P.add(a, k))
    # a failing reader
    c2 = c.cell(z)
    bad = dd.var_of(('var', ('ioerr', 'R0', a)))
    st = St(AND(g0, bad), c.st.mem)
    r = it.call(f['chunk']['id'], [ref_c(c2)], st)
    ok, v, er, erv, okty, ety = c.split(r, f['chunk']['locals'][0])
    c.ob('reader: no chunk when the reader fails', st.pc, B(ok), B(F))
    return c.result('source reader')


def hint_exact(c, tag, g, h, want):
    if h[0] != 'E':
        raise check.Mismatch('length told by ' + tag)
    some = F
    for i, ci, fs in h[1]:
        if i == 1:
            some = OR(some, ci)
            c.ob(tag + ': a length is told only if it is exact', AND(g, ci), fs[0], I(want))
    if some == F:
        c.ob(tag + ': a length is told only if it is exact', F, I(P.ZERO), I(P.ONE))
    return some


def tracking_source(prog):
    """Wrappers of the crate around any source behave as that source."""
    c = Case(prog, summaries=())
    it = c.it
    lim = c.source()[3]
    a = P.A(('arg', ('AT',)), 0, P.BIGLEN)
    c.st.pc = P.le(a, lim)
    base = c.st.pc
    wraps = {}
    for f in prog.fns.values():
        n = f['def'].split('::')[-1]
        if f.get('blocks') and f['crate'] == 'perf_event_data' and 'ParseBuf<' in f['def'] and n in ('chunk', 'advance', 'remaining_hint'):
            t = prog.ty(f['locals'][1])
            t = t['to'] if t['k'] in ('ref', 'ptr') else None
            if t is None or prog.ty(t)['k'] != 'adt' or 'Cursor' in prog.ty(t)['name'] or 'AbsBuf' not in prog.ty(t)['name']:
                continue
            wraps.setdefault(t, {})[n] = f
    for t, ms in sorted(wraps.items()):
        v, where = build_wrapper(it, t, ('Z', ('S0', 'S0'), a, lim))
        if v is None:
            continue
        tag = prog.ty(t)['name'].split('<')[0].split('::')[-1]
        cell = c.cell(v)
        me = lambda: ref_c(cell)

        def pos():
            x = it.read(c.st, ('c', cell), ())
            for i in where:
                x = x[1][i]
            return x[2]

        c.st.pc = base
        if 'remaining_hint' in ms:
            h = it.call(ms['remaining_hint']['id'], [me()], c.st)
            hint_exact(c, tag, base, h, P.sub(lim, a))
        if 'chunk' in ms:
            r = it.call(ms['chunk']['id'], [me()], c.st)
            ok, cv, er, erv, okty, ety = c.split(r, ms['chunk']['locals'][0])
            c.ob(tag + ': an error of the source is passed on', AND(c.st.pc, er), erv, models.src_error(it, ety, 'S0'), 'error')
            chunk_facts(c, tag, c.st.pc, r, ms['chunk']['locals'][0], a, lim, [(a, models.clen('S0', a, lim))], errors=False)
            c.ob(tag + ': looking at a chunk moves nothing', c.st.pc, I(pos()), I(a))
        if 'advance' in ms:
            k = it.as_int(it.sym(ms['advance']['locals'][2], ('k',)))
            c.st.pc = AND(base, AND(P.lt(a, lim), P.le(k, models.clen('S0', a, lim))))
            it.call(ms['advance']['id'], [me(), I(k)], c.st)
            c.ob(tag + ': advances by the amount asked for', c.st.pc, I(pos()), I(P.add(a, k)))
    if not c.obs:
        c.ob('the crate wraps no other source', F, I(P.ZERO), I(P.ONE))
    return c.result('source wrappers')


def build_wrapper(it, t, z):
    """A value of the wrapper type with any fields around the source."""
    ty = it.p.ty(t)
    if ty['name'].split('::')[-1] == 'AbsBuf':
        return z, ()
    if ty['k'] != 'adt' or ty['adt'] != 'struct':
        return None, None
    out, where = [], None
    for i, (n, ft) in enumerate(ty['variants'][0]['fields']):
        if 'AbsBuf' in it.p.ty(ft)['name']:
            v, w = build_wrapper(it, ft, z)
            if v is None or where is not None:
                return None, None
            where = (i,) + w
            out.append(v)
        elif it.p.ty(ft)['k'] == 'uint':
            # a count of what it has been advanced by, within memory
            out.append(I(P.A(('arg', ('wrap', t, i)), 0, P.BIGLEN)))
        else:
            out.append(it.sym(ft, ('wrap', t, i)))
    if where is None:
        return None, None
    return ('S', tuple(out)), where


CASES['source slice'] = (slice_source, 5)
CASES['source reader'] = (reader_source, 5)
CASES['source wrappers'] = (tracking_source, 5)


def recursion(prog):
    """No analysed function of the crate can reach itself through calls."""
    c = Case(prog)
    c.parser()
    edges = {}
    for i, f in prog.fns.items():
        out = set()
        for b in f.get('blocks') or ():
            t = b[1]
            if t[0] == 'call' and 'fn' in t[1]:
                out.add(t[1]['fn'])
        edges[i] = out
    index, low, comp, stack, on = {}, {}, [], [], set()

    def visit(r):
        work = [(r, iter(edges.get(r, ())))]
        index[r] = low[r] = len(index)
        stack.append(r)
        on.add(r)
        while work:
            v, it = work[-1]
            for w in it:
                if w not in edges:
                    continue
                if w not in index:
                    index[w] = low[w] = len(index)
                    stack.append(w)
                    on.add(w)
                    work.append((w, iter(edges[w])))
                    break
                if w in on:
                    low[v] = min(low[v], index[w])
            else:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == index[v]:
                    s = []
                    while True:
                        w = stack.pop()
                        on.discard(w)
                        s.append(w)
                        if w == v:
                            break
                    comp.append(s)
    for i in edges:
        if i not in index:
            visit(i)
    bad = {}
    n = 0
    for s in comp:
        mine = [i for i in s if prog.fns[i]['crate'] == 'perf_event_data']
        n += len([1 for i in s if prog.fns[i]['crate'] == 'perf_event_data'])
        if mine and (len(s) > 1 or s[0] in edges[s[0]]):
            for i in mine:
                bad[prog.fns[i]['def']] = True
    names = sorted({f['def'] for f in prog.fns.values() if f['crate'] == 'perf_event_data' and f.get('blocks')})
    if len(names) < 60:
        raise Missing('functions of the crate')
    for nm in names:
        o = c.ob('%s does not call itself, directly or through others' % nm, T, B(T), B(F if nm in bad else T), 'term')
    return c.result('recursion')


CASES['recursion'] = (recursion, 1)


def types_case(prog):
    """Type-level witnesses, see witness.py."""
    import typing_check
    obs = []
    for n, why, status, what in typing_check.run():
        o = dict(label='%s: %s' % (n, why), kind='types', status='proved' if status == 'proved' else 'refuted')
        if status != 'proved':
            o['witness'] = dict(code=what, spec=why, inputs='', bytes='')
        obs.append(o)
    return plain('types', obs)


def plain(name, obs, fns=()):
    return dict(name=name, obs=obs, fns=list(fns), unmodelled={}, cut=[], summaries={}, evaluations=0, sites={}, site_samples={}, loops={},
                notes=[], lost=0)


def laundering_case(prog):
    """No function exchanges one lifetime for another by reinterpreting a value as the
    type it already has."""
    import typing_check
    fns, bad = typing_check.laundering(prog)
    obs = []
    for f in sorted(fns):
        o = dict(label='%s: no value is given another lifetime' % f, kind='types', status='proved')
        if f in bad:
            o.update(status='refuted', witness=dict(code=bad[f], spec='a value keeps its lifetime', inputs='', bytes=''))
        obs.append(o)
    return plain('lifetimes', obs, fns)


CASES['types'] = (types_case, 60)
CASES['lifetimes'] = (laundering_case, 3)
PLAN['C22'] = dict(cases=['types', 'lifetimes', 'lemma cursor', 'source slice', 'source reader', 'source wrappers'] +
                   ['lemma ' + n for n in ('parse_bytes', 'parse_rest', 'parse_rest_trim_nul', 'parse_slice')] +
                   [n for n in DERIVED if n.startswith('root_own_')],
                   kinds=('types', 'lent'), lemma_kinds=('lent',),
                   technique='compile-time witnesses (programs the type checker must accept or reject), a lifetime-exchange lint over MIR, and abstract '
                   'interpretation of what is kept uncopied')


import show
SHOWN = ['debug ' + n for n in SP.BODIES if n not in ('regs_intr', 'branch_entry', 'txn')] + ['debug entry', 'display error']
for _n in SP.BODIES:
    if 'debug ' + _n in SHOWN:
        CASES['debug ' + _n] = (show.debug(_n), 30 if _n == 'sample' else 1)
CASES['debug entry'] = (show.debug_entry, 2)
CASES['display error'] = (show.display, 1)
CASES['error api'] = (show.error_api, 1)
PLAN['C23'] = dict(cases=SHOWN, kinds=('spec', 'panic'),
                   technique='abstract interpretation of compiler MIR: the trace of calls made to the formatter (when, name, value) against the ABI specification')
NOT_APPLICABLE = {
    'C24': 'The text depends on std\'s UTF-8 decoder and its escape tables for characters and bytes, through chains of lazy iterators with '
           'state; the written text is an unbounded sequence that depends on the contents. No contract of those functions that is '
           'precise enough to decide losslessness is in reach of this analysis (the decoder would have to be specified byte by byte), and a '
           'bounded enumeration of inputs would be testing. What is given to these renderers is decided by C23; that they do not '
           'use invalid memory is not claimed.',
}


def lemmas_for(used):
    return ['lemma ' + n for n in sorted(used) if 'lemma ' + n in CASES]
