"""Abstract interpretation of the dumped MIR.

Forward, context-sensitive (callees are analysed in the caller's context),
one abstract state per program point: states meeting at a join are merged into
guarded values, never enumerated as paths.  Loops are iterated on the abstract
state; what is still undecided after the bound is recorded as residual.
"""
import itertools
import dd
import poly as P
import vals as V
from vals import *
from mir import Prog
import loops

MAXU = {8: 255, 16: 65535, 32: (1 << 32) - 1, 64: (1 << 64) - 1, 128: (1 << 128) - 1}


# Rounds a loop is followed for when its effect has no closed form (see case.second_look).
UNROLL = None


class St:
    __slots__ = ('pc', 'mem')

    def __init__(self, pc, mem):
        self.pc = pc
        self.mem = mem

    def copy(self):
        return St(self.pc, dict(self.mem))


class Diverge(Exception):
    pass


class Limit(Exception):
    pass


def own_place(v):
    if v[0] == 'J' and v[1] == 'castptr':
        v = v[2][0]
    return v[0] == 'R' and all((a[0] == 'v' or a[0] == 'c' and a[1][0] == 'box') and not p for _, a, p in v[1])


class Interp:
    def __init__(self, prog):
        self.p = prog
        V.UNION[0] = self.union_join
        self.nframe = 0
        self.obs = []           # obligations
        self.stack = []
        self.cut = []           # residual loop conditions
        self.unmodelled = {}
        self.models = {}
        self.summaries = {}
        self.summ_used = {}
        self.analysed = {}
        self.sites = set()
        self.loops_seen = {}
        self.maxiter = 4
        self.unroll = UNROLL
        self.lost = 0           # places where a loop's effect was given up
        self.ntop = 0
        self.budget = None
        self.fresh = 0
        self.trace = None
        self.drops = []
        self.ends = []          # what is known about each loop met: it ends
        self.allocs = []
        self.on_alloc = None
        self.recursive = set()
        self._eof = {}
        V.SYMEL[0] = lambda i, ty, idx: self.sym(ty, ('el', i, idx))
        V.AREL[0] = self.arel
        V.ESIZE = ESZ(self)
        import vals
        vals.ESIZE = V.ESIZE

    # ------------------------------------------------------------ utilities
    def top_int(self, why, lo=0, hi=P.U64):
        self.ntop += 1
        return P.A(('top', why, self.ntop), lo, hi)

    def top_bool(self, why):
        self.ntop += 1
        return dd.var_of(('top', why, self.ntop))

    def int_range(self, ty):
        t = self.p.ty(ty)
        if t['k'] == 'int':
            return -(1 << (t['bits'] - 1)), (1 << (t['bits'] - 1)) - 1
        if t['k'] == 'char':
            return 0, 0x10ffff
        return 0, (1 << t['bits']) - 1

    def is_int(self, ty):
        return self.p.ty(ty)['k'] in ('int', 'uint', 'char')

    def as_int(self, v, why='value'):
        if v[0] == 'I':
            return v[1]
        if v[0] == 'B':
            return P.of_bdd(v[1])
        if v[0] == 'P':
            return self.as_int(v[2], why)
        return self.top_int(why + ':' + (v[1] if v[0] == 'T' else v[0]))

    def as_bool(self, v, why='cond'):
        if v[0] == 'B':
            return v[1]
        if v[0] == 'I':
            return dd.NOT(P.eq(v[1], P.ZERO))
        if v[0] == 'P':
            return self.as_bool(v[2], why)
        return self.top_bool(why + ':' + (v[1] if v[0] == 'T' else v[0]))

    def oblige(self, st, kind, ok, what, **extra):
        """Record that `ok` must hold here; continue assuming it."""
        bad = dd.AND(st.pc, dd.NOT(ok))
        site = self.site()
        self.sites.add((kind, site, what))
        if bad == dd.FALSE:
            return True
        if P.prove(st.pc, ok):
            return True
        self.obs.append(dict(kind=kind, site=site, what=what, bad=bad, stack=tuple(self.stack), **extra))
        st.pc = dd.AND(st.pc, ok)
        return False

    def site(self):
        # innermost frame inside the analysed crate
        for fn, ln in reversed(self.stack):
            f = self.p.fns[fn]
            if f['crate'] == 'perf_event_data':
                return (f['def'], f.get('file'), ln)
        if self.stack:
            f = self.p.fns[self.stack[-1][0]]
            return (f['def'], f.get('file'), self.stack[-1][1])
        return ('?', None, 0)

    def alloc(self, st, n, ty, what):
        """Memory for n elements of ty is requested here."""
        self.allocs.append(dict(pc=st.pc, n=n, ty=ty, what=what, site=self.site(), read=self.on_alloc(st) if self.on_alloc else None))

    def push(self, st, v):
        pass

    def eof_value(self, st, ety):
        """What the crate's end-of-input constructor evaluates to."""
        if 'eof' not in self._eof:
            r = None
            for f in self.p.fns.values():
                if f['crate'] == 'perf_event_data' and f['def'].endswith('::ParseError::eof') and f.get('blocks'):
                    s = St(dd.TRUE, {})
                    save, self.stack = self.stack, []
                    try:
                        r = self.call(f['id'], [], s)
                    finally:
                        self.stack = save
            self._eof['eof'] = r if r is not None else self.sym(ety, ('eof',))
        return self._eof['eof']

    # ------------------------------------------------------------ symbolic
    def sym(self, ty, name, depth=0):
        t = self.p.ty(ty)
        k = t['k']
        if k == 'bool':
            return B(dd.var_of(('var', name)))
        if k in ('int', 'uint', 'char'):
            lo, hi = self.int_range(ty)
            return I(P.A(('arg', name), lo, hi))
        if k == 'tuple':
            return ('S', tuple(self.sym(x, ('.', name, str(i))) for i, x in enumerate(t['fields'])))
        if k == 'adt':
            d = t['def']
            if d.endswith('vec::Vec') or d.endswith('string::String'):
                el = t['args'][0][1] if t['args'] else self.p.tyname['u8']
                return ('V', self.symseq(el, name), EMPTY)
            if self.transparent(t):
                return self.sym(self.transparent_inner(t), name)
            if t['box']:
                to = t['args'][0][1]
                if self.p.ty(to)['k'] == 'dyn':
                    return ('O', 'sym', (name,))
                return ('X', self.sym(to, name))
            if t['adt'] == 'struct':
                return ('S', tuple(self.sym(ft, ('.', name, fn)) for fn, ft in t['variants'][0]['fields']))
            if t['adt'] == 'enum':
                alts = []
                rest = dd.TRUE
                vs = [i for i, v in enumerate(t['variants'])
                      if not any(self.p.ty(ft)['k'] == 'never' for _, ft in v['fields'])]
                for j, i in enumerate(vs):
                    v = t['variants'][i]
                    if j + 1 < len(vs):
                        x = dd.var_of(('var', ('is', name, v['name'])))
                        c = dd.AND(rest, x)
                        rest = dd.AND(rest, dd.NOT(x))
                    else:
                        c = rest
                    alts.append((i, c, tuple(self.sym(ft, ('.', ('as', name, v['name']), fn)) for fn, ft in v['fields'])))
                return E(*alts)
            if t['adt'] == 'union':
                fs = t['variants'][0]['fields']
                best = max(range(len(fs)), key=lambda i: (self.p.ty(fs[i][1]).get('size') or 0, -i))
                # prefer an integer view
                for i, (fn, ft) in enumerate(fs):
                    if self.is_int(ft) and self.p.ty(ft).get('size') == self.p.ty(fs[best][1]).get('size'):
                        best = i
                        break
                return ('N', ty, best, self.sym(fs[best][1], ('.', name, fs[best][0])))
        if k == 'array':
            n = t['n']
            if n <= 64:
                return seq(('el', tuple(self.sym(t['elem'], ('el', name, P.const(i))) for i in range(n)))) if n else EMPTY
            return seq(('oq', name, t['elem'], P.ZERO, P.const(n)))
        if k in ('slice', 'str'):
            return self.symseq(t['elem'] if k == 'slice' else self.p.tyname['u8'], name)
        if k in ('ref', 'ptr'):
            return ref_v(self.sym(t['to'], name))
        if k == 'fndef':
            return ('F', t['fn'])
        if k == 'closure':
            return UNIT
        return top('symbolic ' + t['name'])

    def symseq(self, el, name):
        n = P.A(('arg', ('len', name)), 0, 1 << 56)
        return seq(('oq', name, el, P.ZERO, n))

    def transparent(self, t):
        if t['k'] != 'adt':
            return False
        d = t['def']
        return d.endswith('mem::MaybeUninit') or d.endswith('mem::ManuallyDrop') or d.endswith('MaybeDangling')

    def transparent_inner(self, t):
        return t['args'][0][1]

    def arel(self, ty, s, pos):
        """Element of type ty decoded from stream s at pos (field by field)."""
        t = self.p.ty(ty)
        k = t['k']
        if k in ('int', 'uint'):
            return I(cv_at(t['bits'] // 8, s, pos))
        if k == 'adt' and t['adt'] == 'struct':
            fs = t['variants'][0]['fields']
            if 'BindgenBitfieldUnit' in t['def'] and t['size'] in (2, 4, 8):
                bits = P.to_bits(cv_at(t['size'], s, pos), 8 * t['size'])
                el = tuple(I(P.from_bits(bits[8 * i:8 * i + 8])) for i in range(t['size']))
                out = []
                for i, (fn, ft) in enumerate(fs):
                    out.append(seq(('el', el)) if self.p.ty(ft)['k'] == 'array' and self.p.ty(ft)['size'] else
                               self.arel(ft, s, pos))
                return ('S', tuple(out))
            return ('S', tuple(self.arel(ft, s, P.add(pos, P.const(t['offs'][i]))) for i, (fn, ft) in enumerate(fs)))
        if k == 'array':
            el = self.p.ty(t['elem'])
            if el['k'] == 'uint' and el['bits'] == 8:
                return inn(s, pos, P.const(t['n']))
            return seq(('el', tuple(self.arel(t['elem'], s, P.add(pos, P.const(i * el['size']))) for i in range(t['n']))))
        if k == 'tuple' and not t['fields']:
            return UNIT
        if self.transparent(t):
            return self.arel(self.transparent_inner(t), s, pos)
        return top('decode ' + t['name'])

    def anybits(self, ty):
        """Every bit pattern is a value of ty (no padding needed: reads only)."""
        t = self.p.ty(ty)
        k = t['k']
        if k in ('int', 'uint'):
            return True
        if k == 'array':
            return self.anybits(t['elem'])
        if k == 'tuple':
            return all(self.anybits(x) for x in t['fields'])
        if k == 'adt':
            if t['adt'] == 'struct':
                return all(self.anybits(ft) for _, ft in t['variants'][0]['fields'])
            if t['adt'] == 'union':
                return True
        return False

    # ------------------------------------------------------------ constants
    def const(self, c):
        ty = c['ty']
        if 'z' in c:
            return self.zst(ty)
        if 'u' in c:
            return top('constant')
        return self.decode(ty, c['b'], {o: a for o, a in c['p']}, 0)

    def zst(self, ty):
        t = self.p.ty(ty)
        k = t['k']
        if k == 'fndef':
            return ('F', t['fn'])
        if k == 'closure':
            return UNIT
        if k == 'tuple':
            return ('S', tuple(self.zst(x) for x in t['fields']))
        if k == 'array':
            return EMPTY
        if k == 'adt':
            if self.transparent(t):
                return self.zst(self.transparent_inner(t))
            if t['adt'] == 'struct':
                return ('S', tuple(self.zst(ft) for _, ft in t['variants'][0]['fields']))
            if t['adt'] == 'enum':
                v = t.get('single') or 0
                return E((v, dd.TRUE, tuple(self.zst(ft) for _, ft in t['variants'][v]['fields'])))
        return UNIT

    def rd(self, hexs, off, n):
        h = hexs[2 * off:2 * (off + n)]
        if '.' in h or len(h) < 2 * n:
            return None
        return int.from_bytes(bytes.fromhex(h), 'little')

    def decode(self, ty, b, ptrs, off):
        t = self.p.ty(ty)
        k = t['k']
        size = t.get('size') or 0
        if k == 'bool':
            x = self.rd(b, off, 1)
            return B(dd.TRUE if x else dd.FALSE) if x is not None else U
        if k in ('uint', 'char', 'int'):
            x = self.rd(b, off, size)
            if x is None:
                return U
            if k == 'int' and x >> (8 * size - 1):
                x -= 1 << (8 * size)
            return C(x)
        if size == 0:
            return self.zst(ty)
        if k == 'tuple':
            return ('S', tuple(self.decode(x, b, ptrs, off + t['offs'][i]) for i, x in enumerate(t['fields'])))
        if k == 'array':
            el = self.p.ty(t['elem'])
            es = el['size']
            return seq(('el', tuple(self.decode(t['elem'], b, ptrs, off + i * es) for i in range(t['n'])))) if t['n'] else EMPTY
        if k in ('ref', 'ptr'):
            if off in ptrs:
                a = self.p.allocs[ptrs[off]]
                delta = self.rd(b, off, 8) or 0
                to = self.p.ty(t['to'])
                if a['k'] == 'fn':
                    return ('F', a.get('fn', a['id']))
                if a['k'] == 'static':
                    return top('static')
                if to['k'] in ('slice', 'str'):
                    n = self.rd(b, off + 8, 8)
                    if to['k'] == 'str':
                        bs = a['b'][2 * delta:2 * (delta + n)]
                        return ref_v(self.strval(bytes.fromhex(bs)))
                    es = self.p.ty(to['elem'])['size']
                    vs = tuple(self.decode(to['elem'], a['b'], {o: x for o, x in a['p']}, delta + i * es) for i in range(n))
                    return ref_v(seq(('el', vs)) if vs else EMPTY)
                if to['k'] == 'dyn' or a['k'] != 'mem':
                    return ('O', 'constptr', (a['id'],))
                return ref_v(self.decode(t['to'], a['b'], {o: x for o, x in a['p']}, delta))
            to = self.p.ty(t['to'])
            if to['k'] == 'slice':
                n = self.rd(b, off + 8, 8)
                if n == 0:
                    return ref_v(EMPTY)
            if to.get('size') == 0:
                return ref_v(self.zst(t['to']))
            return top('pointer constant')
        if k == 'fnptr':
            if off in ptrs:
                a = self.p.allocs[ptrs[off]]
                return ('F', a.get('fn', a['id']))
        if k == 'adt':
            if self.transparent(t):
                h = b[2 * off:2 * (off + size)]
                if set(h) <= {'.'}:
                    return U
                return self.decode(self.transparent_inner(t), b, ptrs, off)
            if t['adt'] == 'struct':
                return ('S', tuple(self.decode(ft, b, ptrs, off + t['offs'][i]) for i, (_, ft) in enumerate(t['variants'][0]['fields'])))
            if t['adt'] == 'enum':
                v = self.variant_of(t, b, ptrs, off)
                if v is None:
                    return top('enum constant')
                offs = t['voffs'][v] if t.get('voffs') else t['offs']
                return E((v, dd.TRUE, tuple(self.decode(ft, b, ptrs, off + offs[i]) for i, (_, ft) in enumerate(t['variants'][v]['fields']))))
            if t['adt'] == 'union':
                fs = t['variants'][0]['fields']
                best = max(range(len(fs)), key=lambda i: (self.p.ty(fs[i][1]).get('size') or 0, -i))
                return ('N', ty, best, self.decode(fs[best][1], b, ptrs, off))
        return top('constant of ' + t['name'])

    def strval(self, bs):
        return seq(('el', tuple(C(x) for x in bs))) if bs else EMPTY

    def variant_of(self, t, b, ptrs, off):
        if t.get('single') is not None:
            return t['single']
        tag = t['tag']
        import re
        m = re.search(r'length: I(\d+)', tag['scalar'])
        n = int(m.group(1)) // 8 if m else 8
        o = off + tag['off']
        if o in ptrs:
            return tag['niche']['untagged'] if tag['niche'] else None
        x = self.rd(b, o, n)
        if x is None:
            return None
        ni = tag['niche']
        if ni is None:
            for i, v in enumerate(t['variants']):
                if v['discr'] is not None and (v['discr'] & ((1 << (8 * n)) - 1)) == x:
                    return i
            return None
        rel = (x - ni['start']) & ((1 << (8 * n)) - 1)
        if rel <= ni['hi'] - ni['lo']:
            return ni['lo'] + rel
        return ni['untagged']

    # ------------------------------------------------------------ bit views
    def bits_of(self, v, ty, pc):
        """List of bits (None = uninitialised/padding), or None."""
        t = self.p.ty(ty)
        k = t['k']
        size = t.get('size') or 0
        if v[0] == 'U':
            return [None] * (8 * size)
        if v[0] == 'P':
            return self.bits_of(v[2], ty, pc)
        if k == 'bool' and v[0] == 'B':
            return [P.bit_of(v[1])] + [0] * 7
        if k in ('int', 'uint', 'char') and v[0] == 'I':
            p = v[1]
            if k == 'int':
                p = self.wrap(p, 8 * size, False, pc)
            return P.to_bits(p, 8 * size)
        if k == 'array' and v[0] == 'Q':
            out = []
            for i in range(t['n']):
                x = self.bits_of(seq_at(v, P.const(i), pc), t['elem'], pc)
                if x is None:
                    return None
                out += x
            return out
        if k == 'tuple' and not t['fields']:
            return []
        if k == 'adt':
            if self.transparent(t):
                return self.bits_of(v, self.transparent_inner(t), pc)
            if t['adt'] == 'union' and v[0] == 'N':
                ft = t['variants'][0]['fields'][v[2]][1]
                x = self.bits_of(v[3], ft, pc)
                if x is None:
                    return None
                return x + [None] * (8 * size - len(x))
            if t['adt'] == 'struct' and v[0] == 'S':
                out = [None] * (8 * size)
                for i, (_, ft) in enumerate(t['variants'][0]['fields']):
                    x = self.bits_of(v[1][i], ft, pc)
                    if x is None:
                        return None
                    out[8 * t['offs'][i]:8 * t['offs'][i] + len(x)] = x
                return out
            if t['adt'] == 'enum' and v[0] == 'E' and all(not vv['fields'] for vv in t['variants']) and not (t.get('tag') or {}).get('niche'):
                d = P.ZERO
                for vi, c, _ in v[1]:
                    d = P.add(d, P.of_bdd(dd.mul(c, dd.term(t['variants'][vi]['discr']))))
                return P.to_bits(d, 8 * size)
        return None

    def union_join(self, c, a, b):
        x, y = self.bits_of(a, a[1], dd.TRUE), self.bits_of(b, b[1], dd.TRUE)
        if x is None or y is None:
            return top('union join')
        fs = self.p.ty(a[1])['variants'][0]['fields']
        m = a if (self.p.ty(fs[a[2]][1])['size'] or 0) >= (self.p.ty(fs[b[2]][1])['size'] or 0) else b
        ft = fs[m[2]][1]
        va = a[3] if a[2] == m[2] else self.from_bits(x, ft)
        vb = b[3] if b[2] == m[2] else self.from_bits(y, ft)
        return ('N', a[1], m[2], merge(c, va, vb))

    def from_bits(self, bits, ty):
        t = self.p.ty(ty)
        k = t['k']
        size = t.get('size') or 0
        bits = bits[:8 * size] + [None] * (8 * size - len(bits))
        if size and all(b is None for b in bits):
            return U
        if k == 'bool':
            return B(P.bit_bdd(bits[0])) if bits[0] is not None else U
        if k in ('uint', 'char', 'int'):
            if any(b is None for b in bits):
                return U
            if k == 'int':
                lo = P.from_bits(bits[:-1])
                s = P.of_bdd(dd.scale(P.bit_bdd(bits[-1]), 1 << (8 * size - 1))) if bits[-1] != 0 else P.ZERO
                return I(P.sub(lo, s))
            return I(P.from_bits(bits))
        if k == 'array':
            es = self.p.ty(t['elem'])['size']
            return seq(('el', tuple(self.from_bits(bits[8 * es * i:8 * es * (i + 1)], t['elem']) for i in range(t['n'])))) if t['n'] else EMPTY
        if k == 'tuple':
            return ('S', tuple(self.from_bits(bits[8 * t['offs'][i]:], x) for i, x in enumerate(t['fields'])))
        if k == 'adt':
            if self.transparent(t):
                return self.from_bits(bits, self.transparent_inner(t))
            if t['adt'] == 'struct':
                return ('S', tuple(self.from_bits(bits[8 * t['offs'][i]:], ft) for i, (_, ft) in enumerate(t['variants'][0]['fields'])))
            if t['adt'] == 'union':
                fs = t['variants'][0]['fields']
                best = max(range(len(fs)), key=lambda i: (self.p.ty(fs[i][1]).get('size') or 0, -i))
                return ('N', ty, best, self.from_bits(bits, fs[best][1]))
        return top('reinterpret as ' + t['name'])

    def transmute(self, v, sty, dty, pc):
        if sty == dty:
            return v
        s, d = self.p.ty(sty), self.p.ty(dty)
        if v[0] in ('R', 'F', 'O', 'OA', 'X') and d['k'] in ('ref', 'ptr', 'fnptr'):
            return v
        if s['name'] == d['name']:
            return v
        if s['k'] == d['k'] == 'array' and s['n'] == d['n'] and self.same_repr(s['elem'], d['elem']):
            return v
        # newtype peeling
        if v[0] in ('R', 'F', 'O', 'OA', 'X', 'Q', 'V', 'E', 'T'):
            x, dd_ = v, d
            chain = self.newtype_chain(dty)
            if chain and chain[-1] == sty:
                for c in chain[:-1]:
                    x = ('S', self.wrap_newtype(c, x))
                return x
        b = self.bits_of(v, sty, pc)
        if b is None:
            # peel source newtypes
            x, tyi = v, sty
            for _ in range(4):
                t = self.p.ty(tyi)
                if t['k'] == 'adt' and t['adt'] == 'struct' and x[0] == 'S':
                    nz = [(i, ft) for i, (_, ft) in enumerate(t['variants'][0]['fields']) if self.p.ty(ft).get('size')]
                    if len(nz) == 1:
                        x, tyi = x[1][nz[0][0]], nz[0][1]
                        if tyi == dty:
                            return x
                        if x[0] == 'R' and d['k'] in ('ref', 'ptr'):
                            return x
                        continue
                break
            return top('transmute %s -> %s' % (s['name'], d['name']))
        return self.from_bits(b, dty)

    def newtype_chain(self, ty):
        out = []
        for _ in range(4):
            out.append(ty)
            t = self.p.ty(ty)
            if t['k'] == 'adt' and t['adt'] == 'struct':
                nz = [ft for _, ft in t['variants'][0]['fields'] if self.p.ty(ft).get('size')]
                if len(nz) == 1:
                    ty = nz[0]
                    continue
            break
        return out

    def wrap_newtype(self, ty, x):
        t = self.p.ty(ty)
        return tuple(x if self.p.ty(ft).get('size') else self.zst(ft) for _, ft in t['variants'][0]['fields'])

    # ------------------------------------------------------------ arithmetic
    def wrap(self, p, w, signed, pc):
        lo, hi = P.bounds(p)
        tlo, thi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
        if lo >= tlo and hi <= thi:
            return p
        k = P.const_dd(p)
        if k is not None:
            def f(x):
                x &= (1 << w) - 1
                if signed and x >> (w - 1):
                    x -= 1 << w
                return x
            return P.of_bdd(dd.map1(('wrap', w, signed), f, k))
        ok = dd.AND(P.ge(p, P.const(tlo)), P.le(p, P.const(thi)))
        if P.prove(pc, ok):
            return p
        if not signed and lo >= 0:
            b = P.to_bits(p, max(w, 64) if hi <= P.U64 else 128)
            if b is not None:
                return P.from_bits(b[:w])
            b = P.low_bits(p, w) if w <= 8 else None
            if b is not None:
                return P.from_bits(b)
        if signed and lo >= 0 and hi <= P.U64:
            b = P.to_bits(p, 64)
            if b is not None:
                b = b[:w]
                s = P.of_bdd(dd.scale(P.bit_bdd(b[-1]), 1 << (w - 1))) if b[-1] != 0 else P.ZERO
                return P.sub(P.from_bits(b[:-1]), s)
        return P.A(('wrap', w, signed, p), tlo, thi)

    def assume_lits(self, p, pc):
        """Simplify a guarded integer with what the path condition decides."""
        s = P.psupport(p)
        if not s or pc == dd.FALSE or not (s & dd.support(pc)):
            return p
        return P.restrict(p, pc)

    def binop(self, op, a, b, ty, st):
        pc = st.pc
        if a[0] == 'B' or b[0] == 'B':
            x, y = self.as_bool(a), self.as_bool(b)
            if op == 'BitAnd':
                return B(dd.AND(x, y))
            if op == 'BitOr':
                return B(dd.OR(x, y))
            if op in ('BitXor', 'Ne'):
                return B(dd.XOR(x, y))
            if op == 'Eq':
                return B(dd.NOT(dd.XOR(x, y)))
            return B(self.top_bool('bool ' + op))
        if op == 'Offset':
            return self.ptr_add(a, self.as_int(b), st)
        t = self.p.ty(ty)
        if a[0] in ('R', 'O', 'OA', 'F') or t['k'] in ('ref', 'ptr', 'fnptr'):
            if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
                if op in ('Eq', 'Ne') and a == b and a[0] != 'T':
                    return B(dd.TRUE if op == 'Eq' else dd.FALSE)
                return B(self.top_bool('pointer comparison'))
            return top('pointer arithmetic')
        if a[0] == 'S' and b[0] == 'S' and not a[1] and not b[1]:
            return B(dd.TRUE if op in ('Eq', 'Le', 'Ge') else dd.FALSE)
        x, y = self.as_int(a), self.as_int(b)
        x, y = self.assume_lits(x, pc), self.assume_lits(y, pc)
        if op == 'Eq':
            return B(P.eq(x, y))
        if op == 'Ne':
            return B(dd.NOT(P.eq(x, y)))
        if op == 'Lt':
            return B(P.lt(x, y))
        if op == 'Le':
            return B(P.le(x, y))
        if op == 'Gt':
            return B(P.lt(y, x))
        if op == 'Ge':
            return B(P.ge(x, y))
        w = t['bits'] if 'bits' in t else 64
        signed = t['k'] == 'int'
        if op in ('Add', 'AddUnchecked'):
            return I(self.wrap(P.add(x, y), w, signed, pc) if op == 'Add' else P.add(x, y))
        if op in ('Sub', 'SubUnchecked'):
            return I(self.wrap(P.sub(x, y), w, signed, pc) if op == 'Sub' else P.sub(x, y))
        if op in ('Mul', 'MulUnchecked'):
            return I(self.wrap(P.mul(x, y), w, signed, pc) if op == 'Mul' else P.mul(x, y))
        if op in ('BitAnd', 'BitOr', 'BitXor'):
            o = {'BitAnd': 'and', 'BitOr': 'or', 'BitXor': 'xor'}[op]
            r = P.bitop(o, x, y, w)
            if r is None and o == 'and':
                for u, v in ((x, y), (y, x)):
                    c = P.const_val(v)
                    if c is not None and c & (c + 1) == 0 and c < 1 << 12:
                        lb = P.low_bits(u, c.bit_length())
                        if lb is not None:
                            r = P.from_bits(lb)
            if r is None:
                r = P.A(('bitop', o, x, y), 0, (1 << w) - 1)
            return I(r)
        if op in ('Shl', 'ShlUnchecked', 'Shr', 'ShrUnchecked'):
            k = P.const_val(y)
            left = op.startswith('Shl')
            if k is not None:
                k &= w - 1
                r = P.shl(x, k, w) if left else P.shr(x, k, w)
                if r is not None:
                    return I(r)
            else:
                kd = P.const_dd(y)
                if kd is not None and len(dd.terminals(kd)) <= 64:
                    r = None
                    for tv in dd.terminals(kd):
                        q = P.shl(x, tv & (w - 1), w) if left else P.shr(x, tv & (w - 1), w)
                        if q is None:
                            r = None
                            break
                        c = dd.map1(('is', tv), lambda z, tv=tv: 1 if z == tv else 0, kd)
                        r = q if r is None else P.ite(c, q, r)
                    if r is not None:
                        return I(r)
            return I(P.A(('shift', 'l' if left else 'r', w, x, y), 0, (1 << w) - 1))
        if op in ('Div', 'Rem'):
            return I(self.divrem(op, x, y, pc))
        return I(self.top_int(op))

    def divrem(self, op, x, y, pc):
        k = P.const_val(y)
        if k is not None and k > 0:
            if k == 1:
                return x if op == 'Div' else P.ZERO
            xd = P.const_dd(x)
            if xd is not None and min(dd.terminals(xd)) >= 0:
                return P.of_bdd(dd.map1((op, k), (lambda v: v // k) if op == 'Div' else (lambda v: v % k), xd))
            if k & (k - 1) == 0 and not any(P.adesc(q)[0] == 'wrap' for m, _ in x.t for q in m):
                lb = P.low_bits(x, k.bit_length() - 1) if k <= 4096 else None
                if op == 'Rem' and lb is not None:
                    return P.from_bits(lb)
                if op == 'Div':
                    r = P.shr(x, k.bit_length() - 1, 64)
                    if r is not None and not (P.single_atom(r) is not None and P.adesc(P.single_atom(r))[0] == 'bits' and False):
                        # exact multiples keep their linear form
                        ex = self.exact_div(x, k)
                        return ex if ex is not None else r
            ex = self.exact_div(x, k)
            if ex is not None:
                return ex if op == 'Div' else P.ZERO
            lo, hi = P.bounds(x)
            q = P.A(('div', x, k), max(lo, 0) // k, max(hi, 0) // k)
            return q if op == 'Div' else P.sub(x, P.scale(q, k))
        yd = P.const_dd(y)
        if yd is not None and not dd.is_term(yd) and len(dd.terminals(yd)) <= 8:
            # divisor is one of a few constants
            r = None
            for v in sorted(dd.terminals(yd)):
                if v <= 0:
                    continue
                c = dd.map1(('is', v), lambda z, v=v: 1 if z == v else 0, yd)
                q = self.divrem(op, P.restrict(x, c), P.const(v), dd.AND(pc, c))
                r = q if r is None else P.ite(c, q, r)
            if r is not None:
                return r
        if op == 'Div':
            return P.A(('divv', x, y))
        return P.A(('remv', x, y))

    def exact_div(self, x, k):
        d = {}
        for m, c in x.t:
            if any(v % k for v in dd.terminals(c)):
                return None
            d[m] = dd.map1(('/', k), lambda v: v // k, c)
        return P._mk(d)

    def checked(self, op, a, b, ty, st):
        x, y = self.as_int(a), self.as_int(b)
        x, y = self.assume_lits(x, st.pc), self.assume_lits(y, st.pc)
        t = self.p.ty(ty)
        lo, hi = self.int_range(ty)
        r = {'Add': P.add, 'Sub': P.sub, 'Mul': P.mul}[op](x, y)
        ok = dd.AND(P.ge(r, P.const(lo)), P.le(r, P.const(hi)))
        return r, ok

    # ------------------------------------------------------------ pointers
    def ptr_add(self, r, n, st):
        if r[0] != 'R':
            return top('pointer offset')
        out = []
        for c, root, path in r[1]:
            if path and path[-1][0] == 'at':
                out.append((c, root, path[:-1] + (('at', P.add(path[-1][1], n)),)))
            elif P.const_val(n) == 0:
                out.append((c, root, path))
            else:
                return top('pointer offset')
        return ('R', tuple(out))

    def slice_to_elem_ptr(self, r):
        """&[T] / *[T] -> pointer to the first element."""
        if r[0] != 'R':
            return r
        return ('R', tuple((c, root, path + (('at', P.ZERO),)) for c, root, path in r[1]))

    def fat_from(self, r, n):
        """pointer to element + length -> slice pointer."""
        if r[0] != 'R':
            return top('slice from raw parts')
        out = []
        for c, root, path in r[1]:
            if path and path[-1][0] == 'at':
                out.append((c, root, path[:-1] + (('sub', path[-1][1], n),)))
            else:
                return top('slice from raw parts')
        return ('R', tuple(out))

    def read_ref(self, st, r):
        """The value a reference points to."""
        if r[0] in ('T',):
            return r
        if r[0] == 'X':
            return r[1]
        if r[0] != 'R':
            return top('deref of ' + r[0])
        res = None
        for c, root, path in r[1]:
            v = self.read(st, root, path)
            res = v if res is None else merge(c, v, res)
        return res

    def read(self, st, root, path):
        v = st.mem.get(root[1], U) if root[0] == 'c' else root[1]
        for e in path:
            v = self.proj(v, e, st.pc)
        return v

    def proj(self, v, e, pc):
        t = v[0]
        if t == 'T':
            return v
        if t == 'U':
            return v
        if t == 'P':
            r = self.proj(v[2], e, pc)
            if dd.implies(pc, v[1]):
                return r
            if r[0] in ('U', 'T'):
                return r
            if r[0] == 'P':
                return ('P', dd.AND(v[1], r[1]), r[2])
            return ('P', v[1], r)
        k = e[0]
        if k == 'f':
            if t == 'S':
                return v[1][e[1]] if e[1] < len(v[1]) else top('field')
            if t == 'N':
                if v[2] == e[1]:
                    return v[3]
                ty = self.p.ty(v[1])
                b = self.bits_of(v, v[1], pc)
                if b is None:
                    return top('union view')
                return self.from_bits(b, ty['variants'][0]['fields'][e[1]][1])
            if t == 'X' or (t == 'R' and all(a[0] == 'c' and a[1][0] == 'box' for _, a, _ in v[1])):
                return v      # the pointer inside a box stands for the box
            return top('field of ' + t)
        if k == 'vf':
            if t == 'E':
                for vi, c, fs in v[1]:
                    if vi == e[1]:
                        return fs[e[2]]
                return top('absent variant')
            return top('variant of ' + t)
        if k == 'at':
            if t == 'Q':
                return seq_at(v, e[1], pc)
            return top('element of ' + t)
        if k == 'sub':
            if t == 'Q':
                return seq_slice(v, e[1], e[2], pc)
            return top('slice of ' + t)
        if k == 'vd':
            return v[1] if t == 'V' else top('vec data of ' + t)
        if k == 'vs':
            return v[2] if t == 'V' else top('vec spare of ' + t)
        if k == 'bx':
            return v[1] if t == 'X' else top('box of ' + t)
        return top('projection ' + k)

    def upd(self, v, path, x, pc):
        """v with the part at path replaced by x."""
        if not path:
            return x
        e, rest = path[0], path[1:]
        k, t = e[0], v[0]
        if t == 'T':
            return v
        if t == 'P':
            if dd.implies(pc, v[1]):
                return self.upd(v[2], path, x, pc)
            r = self.upd(v[2], path, x, pc)
            return ('P', v[1], r)
        if t == 'U' and k == 'f':
            ty = self.p.ty(e[2])
            if ty['k'] == 'adt' and ty['adt'] == 'union':
                return ('N', e[2], e[1], self.upd(U, rest, x, pc))
            n = len(ty['fields']) if ty['k'] in ('tuple', 'closure') else len(ty['variants'][0]['fields'])
            v = ('S', (U,) * n)
            t = 'S'
        if k == 'f':
            if t == 'S':
                fs = v[1]
                return ('S', fs[:e[1]] + (self.upd(fs[e[1]], rest, x, pc),) + fs[e[1] + 1:])
            if t == 'N':
                cur = self.proj(v, e, pc)
                return ('N', v[1], e[1], self.upd(cur, rest, x, pc))
            return top('store field of ' + t)
        if k == 'vf':
            if t == 'E':
                out = []
                for vi, c, fs in v[1]:
                    if vi == e[1]:
                        fs = fs[:e[2]] + (self.upd(fs[e[2]], rest, x, pc),) + fs[e[2] + 1:]
                    out.append((vi, c, fs))
                return ('E', tuple(out))
            return top('store variant of ' + t)
        if k == 'at':
            if t == 'Q':
                cur = seq_at(v, e[1], pc) if rest else None
                return seq_put(v, e[1], self.upd(cur, rest, x, pc) if rest else x, pc)
            return top('store element of ' + t)
        if k == 'sub':
            if t == 'Q':
                cur = seq_slice(v, e[1], e[2], pc)
                new = self.upd(cur, rest, x, pc)
                if new[0] != 'Q':
                    return new
                return seq_write(v, e[1], new, pc)
            return top('store slice of ' + t)
        if k == 'vd':
            return ('V', self.upd(v[1], rest, x, pc), v[2]) if t == 'V' else top('vec')
        if k == 'vs':
            return ('V', v[1], self.upd(v[2], rest, x, pc)) if t == 'V' else top('vec')
        if k == 'bx':
            return ('X', self.upd(v[1], rest, x, pc)) if t == 'X' else top('box')
        return top('store ' + k)

    def write_alts(self, st, alts, x):
        for c, root, path in alts:
            if root[0] != 'c':
                if c != dd.FALSE:
                    self.note_unmodelled('store through frozen reference')
                continue
            old = st.mem.get(root[1], U)
            if not path:
                new = x
            else:
                new = self.upd(old, path, x, st.pc)
            if c != dd.TRUE and not dd.implies(st.pc, c):
                new = merge(c, new, old)
            st.mem[root[1]] = new

    def write_ref(self, st, r, x):
        if r[0] != 'R':
            self.note_unmodelled('store through ' + r[0])
            return
        self.write_alts(st, r[1], x)

    def note_unmodelled(self, what):
        self.unmodelled[what] = self.unmodelled.get(what, 0) + 1

    def slice_alts(self, st, r):
        """Alternatives of a slice reference with their lengths."""
        out = []
        for c, root, path in r[1]:
            if path and path[-1][0] == 'sub':
                n = path[-1][2]
            else:
                v = self.read(st, root, path)
                if v[0] != 'Q':
                    return None
                n = seq_len(v)
            out.append((c, root, path, n))
        return out

    def slice_len(self, st, r):
        if r[0] != 'R':
            return self.top_int('length', 0, 1 << 56)
        al = self.slice_alts(st, r)
        if al is None:
            return self.top_int('length', 0, 1 << 56)
        n = None
        for c, root, path, m in al:
            n = m if n is None else P.ite(c, m, n)
        return n

    def slice_sub(self, st, r, a, n):
        """Reference to r[a .. a+n] (bounds already checked)."""
        if r[0] != 'R':
            return r if r[0] == 'T' else top('slice of ' + r[0])
        out = []
        for c, root, path in r[1]:
            if root[0] == 'v':
                v = self.read(st, root, path)
                if v[0] != 'Q':
                    return top('slice')
                w = seq_slice(v, a, n, dd.AND(st.pc, c))
                if w[0] != 'Q':
                    return w
                out.append((c, ('v', w), ()))
            elif path and path[-1][0] == 'sub':
                out.append((c, root, path[:-1] + (('sub', P.add(path[-1][1], a), n),)))
            else:
                out.append((c, root, path + (('sub', a, n),)))
        if len(out) > 1 and all(x[1][0] == 'v' for x in out):
            v = out[0][1][1]
            for c, root, _ in out[1:]:
                v = merge(c, root[1], v)
            return ref_v(v)
        return ('R', tuple(out))

    # ------------------------------------------------------------ places
    def place(self, st, fid, f, pl):
        """-> (list of (cond, root, path), type)."""
        alts = [(dd.TRUE, ('c', (fid, pl[0])), ())]
        ty = f['locals'][pl[0]]
        variant = None
        for e in pl[1]:
            k = e[0]
            t = self.p.ty(ty)
            if k == '*':
                out = []
                for c, root, path in alts:
                    v = self.read(st, root, path)
                    if v[0] == 'P':
                        v = v[2]
                    if v[0] == 'R':
                        for c2, r2, p2 in v[1]:
                            cc = dd.AND(c, c2)
                            if cc != dd.FALSE and dd.AND(cc, st.pc) != dd.FALSE:
                                out.append((cc, r2, p2))
                    elif v[0] == 'X':
                        out.append((c, root, path + (('bx',),)))
                    else:
                        out.append((c, ('v', v if v[0] == 'T' else top('deref of ' + v[0])), ()))
                alts = out or [(dd.TRUE, ('v', top('dangling')), ())]
                if len(alts) == 1:
                    alts = [(dd.TRUE,) + alts[0][1:]]
                ty = t['args'][0][1] if t['k'] == 'adt' else t['to']
            elif k == 'f':
                if self.transparent(t):
                    pass
                elif t['k'] == 'adt' and t['adt'] == 'union' and False:
                    pass
                else:
                    pe = ('vf', variant, e[1], ty) if variant is not None else ('f', e[1], ty)
                    alts = [(c, r, p + (pe,)) for c, r, p in alts]
                variant = None
                ty = e[2]
            elif k == 'd':
                variant = e[1]
            elif k == 'i':
                i = self.as_int(st.mem.get((fid, e[1]), U))
                alts = [(c, r, p + (('at', i),)) for c, r, p in alts]
                ty = t.get('elem')
            elif k == 'c':
                if e[3]:
                    out = []
                    for c, r, p in alts:
                        v = self.read(st, r, p)
                        n = seq_len(v) if v[0] == 'Q' else self.top_int('len')
                        out.append((c, r, p + (('at', P.sub(n, P.const(e[1]))),)))
                    alts = out
                else:
                    alts = [(c, r, p + (('at', P.const(e[1])),)) for c, r, p in alts]
                ty = t.get('elem')
            elif k == 's':
                out = []
                for c, r, p in alts:
                    v = self.read(st, r, p)
                    n = seq_len(v) if v[0] == 'Q' else self.top_int('len')
                    a = P.const(e[1])
                    hi = P.sub(n, P.const(e[2])) if e[3] else P.const(e[2])
                    out.append((c, r, p + (('sub', a, P.sub(hi, a)),)))
                alts = out
            elif k == 'o':
                ty = e[1]
        return alts, ty

    def read_alts(self, st, alts):
        res = None
        for c, root, path in alts:
            v = self.read(st, root, path)
            res = v if res is None else merge(c, v, res)
        return res

    def place_ty(self, f, pl):
        ty = f['locals'][pl[0]]
        for e in pl[1]:
            t = self.p.ty(ty)
            if e[0] == '*':
                ty = t['args'][0][1] if t['k'] == 'adt' else t['to']
            elif e[0] == 'f':
                ty = e[2]
            elif e[0] in ('i', 'c'):
                ty = t.get('elem')
            elif e[0] == 'o':
                ty = e[1]
        return ty

    def op_ty(self, f, op):
        if op[0] in ('cp', 'mv'):
            return self.place_ty(f, op[1])
        if op[0] == 'k':
            return op[1]['ty']
        return self.p.tyname.get('bool')

    def operand(self, st, fid, f, op):
        if op[0] in ('cp', 'mv'):
            alts, ty = self.place(st, fid, f, op[1])
            return self.read_alts(st, alts)
        if op[0] == 'k':
            return self.const(op[1])
        if op[0] == 'rc':
            return B(dd.TRUE)
        return top('operand')

    # ------------------------------------------------------------ rvalues
    def rvalue(self, st, fid, f, rv, dty):
        k = rv[0]
        if k == 'use':
            return self.operand(st, fid, f, rv[1])
        if k == 'ref':
            alts, ty = self.place(st, fid, f, rv[1])
            if not rv[2]:
                v = self.read_alts(st, alts)
                return ref_v(v)
            return ('R', tuple(alts))
        if k == 'addr':
            alts, ty = self.place(st, fid, f, rv[1])
            return ('R', tuple(alts))
        if k == 'agg':
            return self.aggregate(st, fid, f, rv)
        if k == 'bin':
            a, b = self.operand(st, fid, f, rv[2]), self.operand(st, fid, f, rv[3])
            return self.binop(rv[1], a, b, self.op_ty(f, rv[2]), st)
        if k == 'chk':
            a, b = self.operand(st, fid, f, rv[2]), self.operand(st, fid, f, rv[3])
            r, ok = self.checked(rv[1], a, b, self.op_ty(f, rv[2]), st)
            return ('S', (I(r), B(dd.NOT(ok))))
        if k == 'cast':
            return self.cast(st, fid, f, rv)
        if k == 'discr':
            alts, ty = self.place(st, fid, f, rv[1])
            return self.discr(self.read_alts(st, alts), ty, st)
        if k == 'len':
            alts, ty = self.place(st, fid, f, rv[1])
            v = self.read_alts(st, alts)
            return I(seq_len(v)) if v[0] == 'Q' else I(self.top_int('len'))
        if k == 'rep':
            v = self.operand(st, fid, f, rv[1])
            n = rv[2]
            return seq(('rep', v, P.const(n))) if n else EMPTY
        if k == 'un':
            a = self.operand(st, fid, f, rv[2])
            if rv[1] == 'Not':
                if a[0] == 'B':
                    return B(dd.NOT(a[1]))
                ty = self.op_ty(f, rv[2])
                if self.p.ty(ty)['k'] == 'bool':
                    return B(dd.NOT(self.as_bool(a)))
                x = self.as_int(a)
                w = self.p.ty(ty)['bits']
                r = P.bitnot(x, w)
                return I(r if r is not None else P.sub(P.const((1 << w) - 1), x))
            if rv[1] == 'Neg':
                return I(P.neg(self.as_int(a)))
            if rv[1] == 'PtrMetadata':
                return I(self.slice_len(st, a))
            return top('unary ' + rv[1])
        return top('rvalue ' + k)

    def discr(self, v, ty, st):
        t = self.p.ty(ty)
        if v[0] == 'P':
            v = v[2]
        if v[0] == 'E':
            r = dd.FALSE
            for vi, c, _ in v[1]:
                d = t['variants'][vi]['discr']
                if d:
                    r = dd.add(r, dd.mul(c, dd.term(d)))
            return I(P.of_bdd(r))
        if t['k'] != 'adt' or t['adt'] != 'enum':
            return C(0)
        n = len(t['variants'])
        return I(self.top_int('discriminant:' + (v[1] if v[0] == 'T' else v[0]), 0, n - 1))

    def aggregate(self, st, fid, f, rv):
        kind = rv[1]
        ops = [self.operand(st, fid, f, o) for o in rv[2]]
        if kind[0] == 'array':
            return seq(('el', tuple(ops))) if ops else EMPTY
        if kind[0] in ('tuple', 'closure'):
            return ('S', tuple(ops))
        if kind[0] == 'adt':
            t = self.p.ty(kind[1])
            if self.transparent(t):
                if t['adt'] == 'union' and kind[3] == 0:
                    return U
                return ops[0]
            if t['adt'] == 'union':
                return ('N', kind[1], kind[3], ops[0])
            if t['adt'] == 'enum':
                return E((kind[2], dd.TRUE, tuple(ops)))
            return ('S', tuple(ops))
        if kind[0] == 'rawptr':
            t = self.p.ty(kind[1])
            if t['k'] in ('slice', 'str') or (t['k'] in ('ptr', 'ref') and self.p.ty(t['to'])['k'] in ('slice', 'str')):
                return self.fat_from(ops[0], self.as_int(ops[1]))
            return ops[0]
        return top('aggregate')

    def cast(self, st, fid, f, rv):
        kind, op, dty = rv[1], rv[2], rv[3]
        v = self.operand(st, fid, f, op)
        sty = self.op_ty(f, op)
        s, d = self.p.ty(sty), self.p.ty(dty)
        if kind == 'IntToInt':
            if s['k'] == 'bool':
                return I(P.of_bdd(self.as_bool(v)))
            if v[0] != 'I':
                lo, hi = self.int_range(dty)
                return I(self.top_int('cast:' + (v[1] if v[0] == 'T' else v[0]), lo, hi))
            if d['k'] == 'bool':
                return B(self.as_bool(v))
            return I(self.wrap(self.assume_lits(v[1], st.pc), d['bits'], d['k'] == 'int', st.pc))
        if kind == 'Transmute' and d['k'] == 'uint' and own_place(v):
            # the address of a place of its own: some aligned address
            self.ntop += 1
            return I(P.scale(P.A(('top', 'place', self.ntop), 1, 1 << 40), 4096))
        if kind == 'Transmute':
            return self.transmute(v, sty, dty, st.pc)
        if kind in ('PtrToPtr',):
            if v[0] == 'R' and s['k'] in ('ptr', 'ref') and d['k'] in ('ptr', 'ref'):
                a, b = self.p.ty(s['to']), self.p.ty(d['to'])
                if a['k'] in ('slice', 'str') and b['k'] not in ('slice', 'str', 'dyn'):
                    r = self.slice_to_elem_ptr(v)
                    el = a.get('elem') if a['k'] == 'slice' else self.p.tyname.get('u8')
                    if el is None or not self.same_repr(el, d['to']):
                        return top('pointer cast')
                    return r
                if a['k'] == 'array' and b['k'] not in ('slice', 'array') and self.same_repr(a['elem'], d['to']):
                    return self.slice_to_elem_ptr(v)
                if a['k'] == 'slice' and b['k'] == 'slice' and not self.same_repr(a['elem'], b['elem']):
                    return top('pointer cast')
                if a['k'] not in ('slice', 'str', 'array') and b['k'] not in ('slice', 'str') and not self.same_repr(s['to'], d['to']):
                    return ('J', 'castptr', (v, s['to'], d['to']))
            return v
        if kind == 'Unsize':
            if v[0] == 'R' and s['k'] in ('ref', 'ptr') and d['k'] in ('ref', 'ptr'):
                a = self.p.ty(s['to'])
                if self.p.ty(d['to'])['k'] == 'dyn' and a['k'] != 'dyn' and 'fmt::Debug' in self.p.ty(d['to'])['name']:
                    # what the formatter is given: kept with its type
                    return ('O', 'dyndebug', (s['to'], v))
                if a['k'] == 'array':
                    return ('R', tuple((c, r, p if r[0] == 'v' and not p else p + (('sub', P.ZERO, P.const(a['n'])),))
                                       for c, r, p in v[1]))
                return v
            if v[0] == 'X':
                return ('O', 'boxdyn', (s['name'], v[1]))
            return v
        if kind.startswith('ReifyFnPointer') or kind.startswith('ClosureFnPointer'):
            return v
        if kind == 'FnPtrToPtr':
            return v
        if kind == 'BoxDerefTransmute' and v[0] == 'X':
            return ref_v(v[1])
        if kind == 'BoxDerefTransmute' and v[0] == 'R':
            return v
        return top('cast ' + kind)

    def same_repr(self, a, b):
        if a == b:
            return True
        if a is None or b is None:
            return False
        ta, tb = self.p.ty(a), self.p.ty(b)
        while self.transparent(ta):
            ta = self.p.ty(self.transparent_inner(ta))
        while self.transparent(tb):
            tb = self.p.ty(self.transparent_inner(tb))
        return ta['id'] == tb['id'] or ta['name'] == tb['name']

    # ------------------------------------------------------------ functions
    def call(self, fn, args, st, loc=None, argtys=None, destty=None):
        """Analyse a call; returns the value or raises Diverge.  st is updated."""
        f = self.p.fns[fn]
        m = self.summaries.get(f['def'])
        if m is None:
            m = self.models.get(f['def'])
        if m is None and f.get('intrinsic'):
            m = self.models.get('intrinsic:' + f['intrinsic'])
        if m is not None:
            r = m(self, st, f, args, argtys, destty)
            if r is not NotImplemented:
                return r
        if f.get('virtual') is not None or not f.get('blocks'):
            if destty is not None and self.p.ty(destty)['k'] == 'adt':
                dt = self.p.ty(destty)
                for i, vr in enumerate(dt['variants']):
                    if vr['name'] == f['def'].split('::')[-1] and len(vr['fields']) == len(args):
                        if dt['adt'] == 'enum':
                            return E((i, dd.TRUE, tuple(args)))
                        if dt['adt'] == 'struct':
                            return ('S', tuple(args))
            return self.unknown(f, args, st, destty)
        return self.inline(f, args, st, argtys)

    def unknown(self, f, args, st, destty):
        name = f['def']
        if destty is not None and self.p.ty(destty)['k'] == 'never':
            raise Diverge
        self.note_unmodelled(name)
        return self.top_of(destty, 'call ' + name)

    def top_of(self, ty, why):
        if ty is None:
            return top(why)
        t = self.p.ty(ty)
        if t['k'] == 'tuple' and not t['fields']:
            return UNIT
        if t['k'] == 'bool':
            return B(self.top_bool(why))
        if t['k'] in ('int', 'uint'):
            lo, hi = self.int_range(ty)
            return I(self.top_int(why, lo, hi))
        return top(why)

    def inline(self, f, args, st, argtys=None):
        if len(self.stack) > 80:
            self.note_unmodelled('call depth')
            return top('call depth')
        if any(fn == f['id'] for fn, _ in self.stack):
            self.recursive.add(f['def'])
            if sum(1 for fn, _ in self.stack if fn == f['id']) > 2:
                self.note_unmodelled('recursion ' + f['def'])
                return top('recursion')
        self.nframe += 1
        fid = self.nframe
        self.analysed.setdefault(f["id"], 1)
        argc = f['argc']
        if f['spread'] is not None:
            if len(args) > argc:
                args = list(args[:argc - 1]) + [('S', tuple(args[argc - 1:]))]
        elif (argtys is not None and len(argtys) == 2 and '{closure' in f['def']
              and self.p.ty(argtys[1])['k'] == 'tuple' and args[1][0] == 'S'
              and len(args[1][1]) == argc - 1):
            # closure bodies take their arguments untupled
            args = [args[0]] + list(args[1][1])
        for i, a in enumerate(args):
            st.mem[(fid, i + 1)] = a
        self.stack.append((f['id'], f.get('line')))
        try:
            outs = self.region(f, fid, set(self.p.cfg(f).rpo), 0, st.copy())
        finally:
            self.stack.pop()
        ret = outs.get('ret')
        if ret is None:
            raise Diverge
        st.pc = ret.pc
        v = ret.mem.get((fid, 0), UNIT)
        if v[0] == 'U':
            rt = self.p.ty(f['locals'][0])
            if rt['k'] == 'tuple' and not rt['fields']:
                v = UNIT
        st.mem = {k: x for k, x in ret.mem.items() if k[0] != fid}
        return v

    def merge_st(self, a, b):
        if a is None:
            return b
        pc = dd.OR(a.pc, b.pc)
        c = dd.separator(a.pc, b.pc)
        mem = {}
        am, bm = a.mem, b.mem
        for k, x in am.items():
            y = bm.get(k)
            if y is None:
                mem[k] = x
            elif x is y:
                mem[k] = x
            else:
                mem[k] = merge(c, x, y)
        for k, y in bm.items():
            if k not in am:
                mem[k] = y
        return St(pc, mem)

    def region(self, f, fid, blocks, entry, st):
        """Analyse an acyclic region (inner loops collapsed).  Returns a dict
        target -> merged state for edges leaving the region; 'ret' for returns;
        ('back', entry) for edges back to the entry."""
        cfg = self.p.cfg(f)
        pend = {entry: st}
        outs = {}
        order = [b for b in cfg.rpo if b in blocks]

        def emit(src, t, s):
            if s.pc == dd.FALSE:
                return
            if t == 'ret':
                outs['ret'] = self.merge_st(outs.get('ret'), s)
                return
            live = cfg.live[t]
            for k in [k for k in s.mem if k[0] == fid and k[1] not in live and k[1] not in cfg.taken and k[1] != 0]:
                del s.mem[k]
            if t == entry:
                key = ('back', entry)
                outs[key] = self.merge_st(outs.get(key), s)
            elif t in blocks:
                pend[t] = self.merge_st(pend.get(t), s)
            else:
                outs[t] = self.merge_st(outs.get(t), s)
        for b in order:
            s = pend.pop(b, None)
            if s is None:
                continue
            if b in cfg.loops and b != entry:
                for t, s2 in self.loop(f, fid, b, s).items():
                    emit(b, t, s2)
                continue
            if b in cfg.loops and b == entry and len(self.stack) and not getattr(self, '_inloop', None) == (fid, b):
                for t, s2 in self.loop(f, fid, b, s).items():
                    emit(b, t, s2)
                break
            for t, s2 in self.block(f, fid, b, s):
                emit(b, t, s2)
        return outs

    def mark(self):
        return len(self.obs), len(self.cut), len(self.allocs), len(self.drops), dict(self.unmodelled), len(self.ends)

    def rollback(self, m):
        del self.obs[m[0]:]
        del self.cut[m[1]:]
        del self.allocs[m[2]:]
        del self.drops[m[3]:]
        self.unmodelled = m[4]
        del self.ends[m[5]:]

    def loop(self, f, fid, h, st):
        cfg = self.p.cfg(f)
        body = cfg.loops[h]
        outs = {}
        n = 0
        undecided = 0
        key = (f['def'], h)
        cur = st
        info = self.loops_seen.setdefault(key, dict(n=0, how=set(), why=[]))
        while True:
            s0 = cur.copy()
            save = getattr(self, '_inloop', None)
            self._inloop = (fid, h)
            told = len(self.trace or ())
            try:
                pc0 = cur.pc
                r = self.region(f, fid, body, h, cur)
            finally:
                self._inloop = save
            back = r.pop(('back', h), None)
            n += 1
            done = back is None or back.pc == dd.FALSE
            if not done and back.pc != pc0:
                undecided += 1
                done = P.infeasible(back.pc, 300)
            # rounds that leave a trace are followed one by one
            told = len(self.trace or ()) > told
            if not done and back.pc != pc0 and undecided <= 3 and not self.unroll and not told:
                m = self.mark()
                g = loops.Gen(self, f, fid, h, s0, back)
                try:
                    r2 = g.run()
                    info['how'].add('inductive' if g.progress and g.bounded else 'inductive, progress unproven')
                    if g.progress and g.bounded:
                        self.ends.append((key, 'proved', None, None))
                    else:
                        self.ends.append((key, 'open', back.pc, g.stuck))
                    for t, s in r2.items():
                        if s.pc != dd.FALSE:
                            outs[t] = self.merge_st(outs.get(t), s)
                    break
                except loops.Fail as e:
                    self.rollback(m)
                    if g.stuck is not None and g.stuck != dd.FALSE:
                        self.ends.append((key, 'stuck', back.pc, g.stuck))
                    if len(info['why']) < 6:
                        info['why'].append(str(e))
            for t, s in r.items():
                outs[t] = self.merge_st(outs.get(t), s)
            if done:
                info['how'].add('bounded')
                self.ends.append((key, 'proved', None, None))
                break
            if undecided >= (self.unroll or self.maxiter) or n > 600:
                self.lost += 1
                self.cut.append((key, back.pc))
                info['how'].add('cut')
                self.ends.append((key, 'open', back.pc, None))
                break
            cur = back
        info['n'] = max(info['n'], n)
        return outs

    def block(self, f, fid, b, st):
        stmts, term = f['blocks'][b]
        cfg = self.p.cfg(f)
        for s in stmts:
            k = s[0]
            if k == '=':
                self.stack[-1] = (f['id'], s[3])
                dty = self.place_ty(f, s[1])
                v = self.rvalue(st, fid, f, s[2], dty)
                self.assign(st, fid, f, s[1], v)
            elif k == 'dead':
                st.mem.pop((fid, s[1]), None)
            elif k == 'copy':
                self.stack[-1] = (f['id'], s[4])
                a = [self.operand(st, fid, f, o) for o in s[1:4]]
                self.models['intrinsic:copy_nonoverlapping'](self, st, f, a, None, None)
            elif k == 'sd':
                alts, ty = self.place(st, fid, f, s[1])
                t = self.p.ty(ty)
                self.write_alts(st, alts, top('set discriminant'))
        return self.terminator(f, fid, term, st)

    def assign(self, st, fid, f, pl, v):
        if not pl[1]:
            st.mem[(fid, pl[0])] = v
            return
        alts, ty = self.place(st, fid, f, pl)
        self.write_alts(st, alts, v)

    def terminator(self, f, fid, t, st):
        k = t[0]
        if k == 'goto':
            return [(t[1], st)]
        if k == 'ret':
            return [('ret', st)]
        if k == 'drop':
            self.stack[-1] = (f['id'], self.stack[-1][1])
            d = self.models.get('drop')
            if d is not None:
                d(self, st, f, fid, t)
            return [(t[2], st)]
        if k == 'unr':
            self.stack[-1] = (f['id'], t[1])
            self.oblige(st, 'unreachable', dd.FALSE, 'unreachable reached')
            return []
        if k in ('resume', 'abort'):
            return []
        if k == 'switch':
            self.stack[-1] = (f['id'], t[4])
            v = self.operand(st, fid, f, t[1])
            return self.switch(st, v, t, self.op_ty(f, t[1]))
        if k == 'assert':
            self.stack[-1] = (f['id'], t[6])
            c = self.as_bool(self.operand(st, fid, f, t[1]))
            ok = c if t[2] else dd.NOT(c)
            self.oblige(st, 'panic', ok, 'assert ' + str(t[3]))
            return [(t[5], st)] if st.pc != dd.FALSE else []
        if k == 'call':
            self.stack[-1] = (f['id'], t[5])
            callee = t[1]
            args = [self.operand(st, fid, f, o) for o in t[2]]
            try:
                if 'fn' in callee:
                    v = self.call(callee['fn'], args, st, t[5], t[6], t[7])
                elif 'op' in callee:
                    fv = self.operand(st, fid, f, callee['op'])
                    if fv[0] == 'F':
                        v = self.call(fv[1], args, st, t[5], t[6], t[7])
                    else:
                        self.note_unmodelled('indirect call')
                        v = self.top_of(t[7], 'indirect call')
                else:
                    self.note_unmodelled('unresolved call')
                    v = self.top_of(t[7], 'unresolved call')
            except Diverge:
                return []
            if t[4] is None or st.pc == dd.FALSE:
                return []
            self.assign(st, fid, f, t[3], v)
            return [(t[4], st)]
        if k == 'asm':
            return []
        raise ValueError(k)

    def switch(self, st, v, t, ty):
        if v[0] == 'P':
            v = v[2]
        pc = st.pc
        rest = dd.TRUE
        out = []
        ti = self.p.ty(ty)
        isb = v[0] == 'B'
        if not isb:
            p = self.assume_lits(self.as_int(v, 'switch'), pc)
        for val, target in t[2]:
            if isb:
                c = v[1] if val else dd.NOT(v[1])
            else:
                if ti['k'] == 'int' and val >> (ti['bits'] - 1):
                    val -= 1 << ti['bits']
                c = P.eq(p, P.const(val))
            c = dd.AND(c, rest)
            rest = dd.AND(rest, dd.NOT(c))
            n = self.feasible(pc, c)
            if n != dd.FALSE:
                out.append((target, n, c))
        if t[3] is not None:
            n = self.feasible(pc, rest)
            if n != dd.FALSE:
                out.append((t[3], n, rest))
        res = []
        if len(out) > 1:
            sup = dd.support(dd.restrict(v[1] if isb else c, pc))
            if sup and len(sup) <= 4:
                dd.hint = max(sup)
        for i, (target, n, c) in enumerate(out):
            s = st if i == len(out) - 1 else st.copy()
            if i == len(out) - 1:
                s = St(n, st.mem)
            else:
                s.pc = n
            if n != pc:
                c = dd.restrict(c, pc)
                sup = dd.support(c)
                memo = {}
                for k, x in s.mem.items():
                    if V.guards(x) & sup:
                        s.mem[k] = V.restrict(x, c, memo)
            res.append((target, s))
        return res

    def feasible(self, pc, c):
        n = dd.AND(pc, c)
        if n == dd.FALSE or n == pc:
            return n
        if any(v in P.PRED for v in dd.support(c)):
            if P.prove(pc, dd.NOT(c)):
                return dd.FALSE
            if P.prove(pc, c):
                return pc
        return n


class ESZ(dict):
    def __init__(self, it):
        self.it = it

    def __missing__(self, ty):
        return self.it.p.ty(ty)['size']
