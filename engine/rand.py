"""Random interpretation: evaluating the derived value expressions (never the
program) at sampled valuations of their atoms.  Two expressions that differ at
some valuation are not equal; the valuation is the witness that is reported."""
import random
import dd
import poly as P
import vals as V
from vals import *


class Taint(Exception):
    """The value depends on something the analysis does not know."""


class Big(Exception):
    pass


LIMIT = 3000


def root_view(view):
    while isinstance(view, tuple) and view and view[0] == 'cur':
        view = view[1]
    return repr(view)


class Val:
    def __init__(self, it, seed, profile=None, fixed=None):
        self.it = it
        self.rng = random.Random(seed)
        self.seed = seed
        self.fixed = dict(fixed or {})       # atom-name / var-name -> value
        self.profile = profile or {}
        self.av = {}
        self.bv = {}
        self.mem = {}
        self.env = {}
        r = self.rng
        self.big = r.random() < 0.5
        self.native = (not self.big) and r.random() < 0.7
        self.chunk = r.choice((1, 2, 3, 5, 8, 13, 64, 1 << 20))
        self.bits_p = r.choice((0.05, 0.15, 0.5, 0.5, 0.85))
        self.small_p = r.choice((0.3, 0.6, 0.9))
        self.bounds = {}
        self.free = {}
        self.ovb = {}            # chosen bytes
        self.flags = {}          # chosen traits of the source

    # ---------------------------------------------------------------- bytes
    def rnd(self, *key):
        return random.Random(repr((self.seed,) + key))

    def byte(self, s, pos):
        if self.ovb:
            x = self.ovb.get((repr(s), pos))
            if x is not None:
                self.mem.setdefault((repr(s), pos // 8), None)
                return x
        w, o = divmod(pos, 8)
        k = (repr(s), w)
        b = self.mem.get(k)
        if b is None:
            r = self.rnd('mem', k)
            x = r.random()
            if x < self.small_p:
                n = r.choice((0, 1, 1, 2, 2, 3, 4, 5, 6, 8, 9, 16, 17))
                if r.random() < 0.6:
                    b = n.to_bytes(8, 'big' if self.big else 'little')
                else:
                    n2 = r.choice((0, 1, 2, 3, 4, 5, 7, 12))
                    o_ = 'big' if self.big else 'little'
                    b = n.to_bytes(4, o_) + n2.to_bytes(4, o_)
            elif x < self.small_p + 0.1:
                n = r.choice((1 << 61, (1 << 61) + 1, 1 << 63, (1 << 64) - 1, (1 << 60) + 2, 0xffffffff, 1 << 32))
                b = n.to_bytes(8, 'big' if self.big else 'little')
            elif x < self.small_p + 0.2:
                b = bytes(r.choice((0, 0, 0, 65, 66)) for _ in range(8))
            else:
                b = bytes(r.getrandbits(8) for _ in range(8))
            self.mem[k] = b
        return b[o]

    def next_chunk(self, view, pos, lim):
        if isinstance(view, tuple) and view and view[0] == 'cur':
            return min(self.next_chunk(view[1], pos, lim), lim - pos)
        if self.flags.get('whole'):
            return max(1, lim - pos)
        r = self.rnd('chunk', repr(view), pos)
        n = self.chunk if r.random() < 0.5 else r.randint(1, max(self.chunk, 1))
        return max(1, min(n, lim - pos))

    # ---------------------------------------------------------------- atoms
    def atom(self, a):
        if self.env:
            d = P.adesc(a)
            if d[0] == 'bound' and a in self.env:
                return self.env[a]
            deep = P.atom_deep(a)
            if any(x in deep for x in self.env):
                return self.atom_(a)
        v = self.av.get(a)
        if v is None:
            v = self.atom_(a)
            self.av[a] = v
        return v

    def atom_(self, a):
        d = P.adesc(a)
        k = d[0]
        lo, hi = P.arange(a)
        if k == 'arg':
            return self.arg(d[1], lo, hi)
        if k == 'by':
            return self.byte(d[1], self.poly(d[2]))
        if k == 'cv':
            p = self.poly(d[3])
            bs = bytes(self.byte(d[2], p + i) for i in range(d[1]))
            return int.from_bytes(bs, 'big' if self.big else 'little')
        if k == 'cvb':
            bs = bytes(self.poly(x) for x in d[2])
            return int.from_bytes(bs, 'big' if self.big else 'little')
        if k == 'bits':
            return sum((1 << i) for i, b in enumerate(d[1]) if self.bit(b))
        if k == 'clen':
            pos, lim = self.poly(d[2]), self.poly(d[3])
            if pos >= lim:
                return 1        # no chunk there: only looked at behind a test for the end
            return self.next_chunk(d[1], pos, lim)
        if k == 'div':
            return self.poly(d[1]) // d[2]
        if k == 'divv':
            y = self.poly(d[2])
            if not y:
                raise Taint('division')
            return self.poly(d[1]) // y
        if k == 'remv':
            y = self.poly(d[2])
            if not y:
                raise Taint('division')
            return self.poly(d[1]) % y
        if k == 'wrap':
            x = self.poly(d[3]) & ((1 << d[1]) - 1)
            if d[2] and x >> (d[1] - 1):
                x -= 1 << d[1]
            return x
        if k == 'bitop':
            x, y = self.poly(d[2]), self.poly(d[3])
            return {'and': x & y, 'or': x | y, 'xor': x ^ y}[d[1]]
        if k == 'shift':
            x, y = self.poly(d[3]), self.poly(d[4])
            y &= d[2] - 1
            return (x << y) & ((1 << d[2]) - 1) if d[1] == 'l' else x >> y
        if k in ('popcnt', 'popcntx'):
            return bin(self.poly(d[1])).count('1')
        if k == 'val':
            return self.poly(d[1])
        if k == 'head':
            r = self.base(d[2])
            p = self.poly(d[3])
            return (-(r + p)) % d[1]
        if k == 'least':
            b = P.single_atom(LEASTK[0])
            for n in range(LIMIT):
                old = self.env.get(b)
                self.env[b] = n
                try:
                    c = self.dd(d[1][1])
                finally:
                    if old is None:
                        del self.env[b]
                    else:
                        self.env[b] = old
                if not c:
                    return n
            raise Big
        if k == 'bound':
            if a in self.env:
                return self.env[a]
            raise Taint('bound')
        raise Taint(str(k))

    def arg(self, name, lo, hi):
        key = repr(name)
        if key in self.fixed:
            return self.fixed[key]
        r = self.rnd('arg', key)
        if name == ('LIM',):
            mode = self.profile.get('lim')
            if mode is not None:
                return mode
            return r.choice((0, 1, 3, 4, 7, 8, 9, 12, 16, 17, 23, 24, 31, 32, 33, 40, 48, 56, 64, 65, 72, 80, 96, 128,
                             200, 333, 512, 1000))
        if isinstance(name, tuple) and name and name[0] == 'len':
            return r.choice((0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 13))
        nb = hi.bit_length()
        x = r.random()
        if 'sample_type' in key or 'read_format' in key:
            v = 0
            for i in range(nb):
                if r.random() < (self.bits_p if i < 26 else 0.02):
                    v |= 1 << i
            if 'read_format' in key and r.random() < 0.85:
                v &= 31
            return v
        if 'sample_regs' in key:
            v = 0
            for _ in range(r.choice((0, 1, 2, 3, 5))):
                v |= 1 << r.randrange(nb)
            return v
        if lo < 0:
            return r.choice((-1, 0, 1, 2, r.randint(lo, hi)))
        if x < 0.45:
            return min(hi, max(lo, r.choice((0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 20, 24, 32, 40, 48, 64))))
        if x < 0.6:
            return max(lo, hi - r.choice((0, 1, 7, 8)))
        if x < 0.75:
            return min(hi, max(lo, 1 << r.randrange(max(nb, 1))))
        return r.randint(lo, hi)

    def bit(self, b):
        if b in (0, 1):
            return bool(b)
        if b[0] == 'b':
            return bool((self.atom(b[1]) >> b[2]) & 1)
        return self.dd(b[1])

    # ---------------------------------------------------------------- guards
    def var(self, v):
        d = dd.desc(v)
        if not self.env:
            r = self.bv.get(v)
            if r is None:
                r = self.var_(v, d)
                self.bv[v] = r
            return r
        return self.var_(v, d)

    def var_(self, v, d):
        k = d[0]
        if k == 'bit':
            return bool((self.atom(d[1]) >> d[2]) & 1)
        if k == 'eqc':
            return self.atom(d[1]) == d[2]
        if k == 'ge0':
            return self.poly(d[1]) >= 0
        if k == 'eq0':
            return self.poly(d[1]) == 0
        if k == 'var':
            key = repr(d[1])
            if key in self.fixed:
                return self.fixed[key]
            if 'toperr' in key:
                raise Taint('error kind')
            return self.rnd('var', key).random() < 0.5
        if k == 'native':
            return self.native
        if k == 'hint':
            x = self.flags.get(('hint', repr(d[1])))
            return self.rnd('hint', repr(d[1])).random() < 0.5 if x is None else x
        if k == 'ext':
            return self.ext(d[1], self.poly(d[2]))
        if k == 'aligned':
            return (self.base(d[2]) + self.poly(d[3])) % d[1] == 0
        if k == 'borrow':
            x = self.flags.get(('borrow', repr(d[1])))
            return self.rnd('borrow', repr(d[1])).random() < 0.5 if x is None else x
        if k == 'contig':
            view = d[1]
            if view[0] != 'cur':
                return True
            pos, n = self.poly(view[2]), self.poly(view[3])
            if n <= 0:
                return False
            return self.next_chunk(view, pos, pos + n) >= n and self.ext(view, pos)
        if k == 'forall':
            n = self.poly(d[1])
            if n > LIMIT:
                raise Big
            b = P.single_atom(FORALLI[0])
            for i in range(n):
                old = self.env.get(b)
                self.env[b] = i
                try:
                    c = self.dd(d[2][1])
                finally:
                    if old is None:
                        del self.env[b]
                    else:
                        self.env[b] = old
                if not c:
                    return False
            return True
        raise Taint(str(d[0]) + ':' + str(d[1])[:40])

    def ext(self, view, pos):
        k = root_view(view)
        x = self.flags.get(('ext', k))
        return self.rnd('ext', k).random() < 0.6 if x is None else x

    def base(self, s):
        x = self.flags.get(('base', repr(s)))
        if x is not None:
            return x
        return 0 if self.profile.get('aligned') else self.rnd('base', repr(s)).randrange(64)

    def dd(self, f):
        while not dd.is_term(f):
            f = dd.hi(f) if self.var(dd.topvar(f)) else dd.lo(f)
        return dd.val(f)

    def poly(self, p):
        r = 0
        for m, c in p.t:
            k = self.dd(c)
            if k:
                for a in m:
                    k *= self.atom(a)
                    if not k:
                        break
                r += k
        return r

    # ---------------------------------------------------------------- values
    def value(self, v):
        t = v[0]
        if t == 'I':
            return self.poly(v[1])
        if t == 'B':
            return bool(self.dd(v[1]))
        if t == 'S':
            return tuple(self.value(x) for x in v[1])
        if t == 'E':
            for i, c, fs in v[1]:
                if self.dd(c):
                    return ('#', i) + tuple(self.value(x) for x in fs)
            raise Taint('no variant')
        if t == 'Q':
            for c, ps in v[1]:
                if self.dd(c):
                    return self.seq(ps)
            raise Taint('no sequence')
        if t == 'V':
            return self.value(v[1])
        if t == 'X':
            return self.value(v[1])
        if t == 'R':
            for c, r, p in v[1]:
                if self.dd(c):
                    if r[0] != 'v':
                        raise Taint('pointer')
                    from interp import St
                    return self.value(self.it.read(St(dd.TRUE, {}), r, p))
            raise Taint('no pointer')
        if t == 'U':
            return ('uninit',)
        if t == 'P':
            return self.value(v[2]) if self.dd(v[1]) else ('uninit',)
        if t == 'N':
            b = self.it.bits_of(v, v[1], dd.TRUE)
            if b is None:
                return self.value(v[3])
            return sum(1 << i for i, x in enumerate(b) if self.bit(x))
        if t == 'F':
            return ('fn', v[1])
        if t == 'Z':
            return ('src', self.poly(v[2]), self.poly(v[3]))
        if t == 'O':
            return ('O', v[1], tuple(self.value(x) if isinstance(x, tuple) and x and isinstance(x[0], str) and x[0] in TAGS
                                     else (self.poly(x) if isinstance(x, P.Poly) else repr(x)) for x in v[2]))
        if t == 'OA':
            for c, o in v[1]:
                if self.dd(c):
                    return self.value(o)
            raise Taint('no object')
        raise Taint(str(v[1])[:60] if len(v) > 1 else t)

    def seq(self, ps):
        out = []
        for p in ps:
            n = self.poly(plen(p))
            if n <= 0:
                continue
            if len(out) + n > LIMIT:
                raise Big
            if p[0] == 'el':
                out += [self.value(x) for x in p[1]]
            elif p[0] == 'in':
                a = self.poly(p[2])
                out += [self.byte(p[1], a + i) for i in range(n)]
            else:
                out += [self.value(piece_at(p, P.const(i))) for i in range(n)]
        return out


TAGS = {'I', 'B', 'S', 'E', 'R', 'Q', 'V', 'X', 'U', 'P', 'N', 'F', 'Z', 'O', 'OA', 'J', 'T'}
LEASTK = [None]
FORALLI = [None]


def setup():
    import loops
    import models
    LEASTK[0] = loops.BOUNDK
    FORALLI[0] = models.BOUND
