"""Summaries of the byte-level primitives.

Each summary states what a primitive delivers as a function of the source's
position and limit.  A summary is only ever used in place of a body whose own
analysis was compared against it (see check.lemmas)."""
import dd
import poly as P
import vals as V
from vals import *
from interp import St, Diverge
import models
import loops

PRE = 'perf_event_data::'


def leaf(it, st, v, path=()):
    """All byte sources inside a parser value: (path, kind, stream, pos, lim)."""
    t = v[0]
    if t == 'Z':
        return [(path, 'Z', v[1], it.assume_lits(v[2], st.pc), it.assume_lits(v[3], st.pc), v)]
    if t == 'S':
        out = []
        for i, x in enumerate(v[1]):
            out += leaf(it, st, x, path + (('f', i),))
        return out
    if t == 'R':
        if len(v[1]) == 1 and v[1][0][1][0] == 'v':
            q = it.read(st, v[1][0][1], v[1][0][2])
            if q[0] == 'Q' and len(q[1]) == 1:
                ps = q[1][0][1]
                if len(ps) == 1 and ps[0][0] == 'in':
                    _, s, a, n = ps[0]
                    a, n = it.assume_lits(a, st.pc), it.assume_lits(n, st.pc)
                    return [(path, 'R', s, a, P.add(a, n), v)]
        return [(path, '?', None, None, None, v)]
    if t in ('T', 'V', 'X', 'J', 'O'):
        return [(path, '?', None, None, None, v)]
    return []


class Src:
    """The byte source behind a &mut Parser / &mut buffer argument."""

    def __init__(self, it, st, r, ty=None):
        self.it, self.st, self.r, self.ty = it, st, r, ty
        self.v = it.read_ref(st, r)
        ls = leaf(it, st, self.v)
        self.ok = len(ls) == 1 and ls[0][1] in 'ZR'
        if not self.ok:
            return
        self.path, self.kind, s, self.pos, self.lim, self.lv = ls[0]
        self.pos, self.lim = P.opaque(self.pos), P.opaque(self.lim)
        if self.kind == 'Z':
            self.base, self.view = s
        else:
            self.base, self.view = s, ('sl',)

    def root(self):
        return self.kind == 'Z' and self.base == self.view

    def error(self, ety):
        if self.root():
            return models.src_error(self.it, ety, self.base)
        return self.it.eof_value(self.st, ety)

    def eof_cond(self, ety):
        """Condition under which running out of input is a clean end."""
        if not self.root():
            return dd.TRUE
        e = models.src_error(self.it, ety, self.base)
        t = self.it.p.ty(ety)
        c = kind_is(self.it, ety, e, 'Eof')
        return c

    def advance(self, n, counters):
        it, st = self.it, self.st
        v = self.v
        if self.kind == 'Z':
            x = ('Z', self.lv[1], P.add(self.pos, n), self.lv[3])
        else:
            x = ref_v(inn(self.base, P.add(self.pos, n), P.sub(P.sub(self.lim, self.pos), n)))
        v = it.upd(v, self.path, x, st.pc)
        # byte counters kept next to the source move with it
        t = self.it.p.ty(self.ty)['to'] if self.ty is not None else None
        for i, e in enumerate(self.path):
            if t is None:
                break
            ti = it.p.ty(t)
            for j in sorted(counters.get(ti.get('def'), ())):
                c = self.path[:i] + (('f', j),)
                w = v
                for x in c:
                    w = it.proj(w, x, st.pc)
                v = it.upd(v, c, I(P.add(it.as_int(w), n)), st.pc)
            t = ti['variants'][0]['fields'][e[1]][1] if ti['k'] == 'adt' and ti['adt'] == 'struct' else None
        it.write_ref(st, self.r, v)


def kind_is(it, ty, v, name):
    """Condition that the ErrorKind inside an error value is `name`."""
    t = it.p.ty(ty)
    if t['k'] == 'adt' and t['def'].endswith('::ErrorKind') and v[0] == 'E':
        for i, c, _ in v[1]:
            if t['variants'][i]['name'] == name:
                return c
        return dd.FALSE
    if t['k'] == 'adt' and t['adt'] == 'struct' and v[0] == 'S':
        for (fn, ft), x in zip(t['variants'][0]['fields'], v[1]):
            r = kind_is(it, ft, x, name)
            if r is not None:
                return r
    return None


def okerr(it, dt):
    t = it.p.ty(dt)
    return t['variants'][0]['fields'][0][1], t['variants'][1]['fields'][0][1]


def settle(st, c):
    if P.prove(st.pc, c):
        return dd.TRUE
    if P.prove(st.pc, dd.NOT(c)):
        return dd.FALSE
    return c


def finish(it, st, s, n, ok, val, ety, counters):
    """Ok(val) having consumed n when ok, else Err with the position unknown."""
    if ok == dd.TRUE:
        s.advance(n, counters)
        return E((0, dd.TRUE, (val,)))
    m = P.ite(ok, n, P.A(('top', 'errpos', s.base, s.pos, n), 0, P.BIGLEN))
    s.advance(m, counters)
    return models.result(ok, val, s.error(ety))


def cow(it, ty, s, val, direct):
    """Cow holding val: borrowed exactly when `direct`."""
    return E((0, direct, (ref_v(val),)), (1, dd.NOT(direct), (('V', val, models.SPARE),)))


def fits(s, n):
    return P.ge(P.sub(s.lim, s.pos), n)


def sp_array(it, st, f, args, dt, ctr):
    s = Src(it, st, args[0], f['locals'][1])
    okty, ety = okerr(it, dt)
    n = it.p.ty(okty)['n']
    if not s.ok or n == 0:
        return NotImplemented
    k = P.const(n)
    return finish(it, st, s, k, settle(st, fits(s, k)), inn(s.base, s.pos, k), ety, ctr)


def borrowed(s, n):
    if s.kind == 'R':
        return dd.TRUE
    return dd.var_of(('borrow', s.view, s.pos, n))


def sp_bytes(it, st, f, args, dt, ctr):
    s = Src(it, st, args[0], f['locals'][1])
    if not s.ok:
        return NotImplemented
    okty, ety = okerr(it, dt)
    n = it.assume_lits(it.as_int(args[1]), st.pc)
    return finish(it, st, s, n, settle(st, fits(s, n)), cow(it, okty, s, inn(s.base, s.pos, n), borrowed(s, n)), ety, ctr)


def sp_ignored(it, st, f, args, dt, ctr):
    s = Src(it, st, args[0], f['locals'][1])
    if not s.ok:
        return NotImplemented
    okty, ety = okerr(it, dt)
    n = it.assume_lits(it.as_int(args[1]), st.pc)
    return finish(it, st, s, n, settle(st, fits(s, n)), UNIT, ety, ctr)


def sp_rest(it, st, f, args, dt, ctr):
    s = Src(it, st, args[0], f['locals'][1])
    if not s.ok:
        return NotImplemented
    okty, ety = okerr(it, dt)
    n = P.sub(s.lim, s.pos)
    return finish(it, st, s, n, s.eof_cond(ety), cow(it, okty, s, inn(s.base, s.pos, n), borrowed(s, n)), ety, ctr)


def trimmed(base, pos, n):
    """Length of S[pos..pos+n) without its trailing zero bytes."""
    K = P.A(('bound', 'trim'), 0, P.BIGLEN)
    last = P.sub(P.sub(P.add(pos, n), P.ONE), K)
    cont = dd.AND(P.ge(P.sub(n, P.ONE), K), P.eq(byte_at(base, last), P.ZERO))
    return P.sub(n, loops.least(K, cont))


def sp_trim(it, st, f, args, dt, ctr):
    s = Src(it, st, args[0], f['locals'][1])
    if not s.ok:
        return NotImplemented
    okty, ety = okerr(it, dt)
    n = P.sub(s.lim, s.pos)
    val = inn(s.base, s.pos, trimmed(s.base, s.pos, n))
    return finish(it, st, s, n, s.eof_cond(ety), cow(it, okty, s, val, borrowed(s, n)), ety, ctr)


def sp_slice(it, st, f, args, dt, ctr):
    s = Src(it, st, args[0], f['locals'][1])
    if not s.ok:
        return NotImplemented
    okty, ety = okerr(it, dt)
    # Cow<'_, [T]>
    sl = [a[1] for a in it.p.ty(okty)['args'] if a[0] == 't'][0]
    el = it.p.ty(sl)['elem']
    sz = it.p.ty(el)['size']
    if not sz or it.arel(el, s.base, s.pos)[0] == 'T':
        return NotImplemented
    n = it.assume_lits(it.as_int(args[1]), st.pc)
    b = P.scale(n, sz)
    val = seq(('ar', el, s.base, s.pos, n))
    d = dd.var_of(('borrow', s.view, s.pos, b))
    m = finish(it, st, s, b, settle(st, fits(s, b)), cow(it, okty, s, val, d), ety, ctr)
    if len(m[1]) > 1:
        # lengths beyond anything addressable may be called malformed
        it.ntop += 1
        big = P.ge(b, P.const(1 << 60))
        m = E(m[1][0], (1, m[1][1][1], (V.merge(big, it.sym(ety, ('toperr', it.ntop)), m[1][1][2][0]),)))
    return m


def sp_cursor(it, st, f, args, dt, ctr):
    s = Src(it, st, args[0], f['locals'][1])
    if not s.ok:
        return NotImplemented
    okty, ety = okerr(it, dt)
    n = it.assume_lits(it.as_int(args[1]), st.pc)
    z = ('Z', (s.base, ('cur', s.view, s.pos, n)), s.pos, P.add(s.pos, n))
    return finish(it, st, s, n, settle(st, fits(s, n)), z, ety, ctr)


# name -> (def suffix, builder)
PRIMS = {
    'parse_array': ('parse::Parser::<B, E>::parse_array', sp_array),
    'parse_bytes': ('parse::Parser::<B, E>::parse_bytes', sp_bytes),
    'parse_bytes_ignored': ('parse::Parser::<B, E>::parse_bytes_ignored', sp_ignored),
    'parse_rest': ('parse::Parser::<B, E>::parse_rest', sp_rest),
    'parse_rest_trim_nul': ('parse::Parser::<B, E>::parse_rest_trim_nul', sp_trim),
    'parse_slice': ('parse::Parser::<B, E>::parse_slice', sp_slice),
    'cursor': ("parsebuf::ParseBufCursor::<'p>::new", sp_cursor),
}


def find(it, name):
    suf, _ = PRIMS[name]
    return [f for f in it.p.fns.values() if f['def'] == PRE + suf]


def install(it, names, counters):
    """Use the summaries of `names` instead of the bodies."""
    for nm in names:
        suf, b = PRIMS[nm]

        def m(it, st, f, args, at, dt, b=b, nm=nm):
            dt = f['locals'][0] if f.get('locals') else dt
            it.summ_used[nm] = it.summ_used.get(nm, 0) + 1
            return b(it, st, f, args, dt, counters)
        it.summaries[PRE + suf] = m


# ----------------------------------------------- the cursor as a bounded view
def cursor_models(it):
    for f in it.p.fns.values():
        if f['crate'] != 'perf_event_data' or 'ParseBufCursor' not in f['def']:
            continue
        d = f['def']
        which = None
        if d.endswith('::chunk'):
            which = models.abs_chunk
        elif d.endswith('::advance'):
            which = models.abs_advance
        elif d.endswith('::remaining_hint'):
            which = models.abs_hint
        elif d.endswith('::as_slice'):
            which = as_slice
        if which is None or 'Tracking' in d:
            continue

        def m(it, st, f, args, at, dt, which=which):
            v = it.read_ref(st, args[0])
            if v[0] != 'Z':
                return NotImplemented
            return which(it, st, f, args, at, dt if dt is not None else f['locals'][0])
        it.models[d] = m


def as_slice(it, st, f, args, at, dt):
    v = it.read_ref(st, args[0])
    (base, view), pos, lim = v[1], v[2], v[3]
    if view[0] != 'cur' or it.assume_lits(P.sub(pos, view[2]), st.pc) != P.ZERO:
        # only ever asked of a view nothing has been read from
        return it.top_of(dt, 'as_slice of a used view')
    c = dd.var_of(('contig', view))
    return models.option(it, dt, c, ref_v(inn(base, pos, P.sub(lim, pos))))


# ------------------------------------------- counters kept next to the source
def counters(it):
    """Structs wrapping a source whose `advance` keeps a count: learned from
    the analysed body of `advance` (field = field + count, source advanced by
    the same count, nothing else)."""
    out = {}
    for f in list(it.p.fns.values()):
        if f['crate'] != 'perf_event_data' or not f['def'].endswith('::advance') or 'ParseBuf<' not in f['def']:
            continue
        if not f.get('blocks') or len(f['locals']) < 3:
            continue
        t = it.p.ty(f['locals'][1])
        if t['k'] not in ('ref', 'ptr'):
            continue
        ty = it.p.ty(t['to'])
        if ty['k'] != 'adt' or ty['adt'] != 'struct' or len(ty['variants'][0]['fields']) < 2:
            continue
        if ty['def'] in out or 'ParseBufCursor' in ty['def']:
            continue
        fs = ty['variants'][0]['fields']
        ints = [i for i, (_, x) in enumerate(fs) if it.p.ty(x)['k'] == 'uint']
        rest = [i for i in range(len(fs)) if i not in ints]
        if not ints or len(rest) != 1:
            continue
        lim = P.A(('arg', ('LIM',)), 0, P.BIGLEN)
        n = P.A(('arg', ('count',)), 0, P.BIGLEN)
        z = ('Z', ('C0', 'C0'), P.ZERO, lim)
        vals_ = [None] * len(fs)
        for i in ints:
            vals_[i] = I(P.A(('arg', ('ctr', i)), 0, P.BIGLEN))
        if it.p.ty(fs[rest[0]][1])['name'].split('::')[-1] != 'AbsBuf':
            continue
        vals_[rest[0]] = z
        st = St(P.le(n, P.opaque(lim)), {})
        cell = ('P', 'ctr')
        st.mem[cell] = ('S', tuple(vals_))
        m = it.mark()
        save = dict(it.models)
        try:
            for g in it.p.fns.values():
                if g['def'].endswith('::advance') and g['def'] != f['def']:
                    it.models[g['def']] = models.abs_advance
            it.call(f['id'], [ref_c(cell), I(n)], st)
            v = st.mem[cell]
            if v[0] != 'S' or v[1][rest[0]][0] != 'Z':
                continue
            if loops.equal(it, st.pc, I(v[1][rest[0]][2]), I(n)):
                good = {i for i in ints if loops.equal(it, st.pc, v[1][i], I(P.add(vals_[i][1], n)))}
                same = {i for i in ints if v[1][i] == vals_[i]}
                if good and good | same == set(ints):
                    out[ty['def']] = good
        except Diverge:
            pass
        finally:
            it.models = save
            it.rollback(m)
    return out
