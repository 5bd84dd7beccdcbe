"""Integers of the abstract domain: polynomials over atoms whose coefficients
are MTBDDs, i.e. guarded integers.  `ite` is exact, so two guarded integers are
semantically equal (with atoms uninterpreted) iff the objects are equal.

Also here: boolean predicates over them (BDD variables with canonical
descriptors), bit-vector views, deep substitution and the linear (polyhedral)
emptiness test used to discharge numeric obligations.
"""
from math import gcd
from fractions import Fraction
import dd

U64 = (1 << 64) - 1
BIGLEN = (1 << 62)      # bound on any in-memory length / stream position

# ------------------------------------------------------------------ atoms
_adesc = []
_arange = []
_aidx = {}


def atom(desc, lo=0, hi=U64):
    a = _aidx.get(desc)
    if a is None:
        a = len(_adesc)
        _adesc.append(desc)
        _arange.append((lo, hi))
        _aidx[desc] = a
    return a


def adesc(a):
    return _adesc[a]


def arange(a):
    return _arange[a]


class Poly:
    __slots__ = ('t', 'h')

    def __init__(self, t):
        self.t = t
        self.h = hash(t)

    def __eq__(self, o):
        return self is o or (isinstance(o, Poly) and self.t == o.t)

    def __hash__(self):
        return self.h

    def __repr__(self):
        return show(self)


def _mk(d):
    return Poly(tuple(sorted((m, c) for m, c in d.items() if c != dd.FALSE)))


def const(n):
    return Poly((((), dd.term(n)),)) if n else ZERO


ZERO = Poly(())
ONE = const(1)


def of_bdd(f):
    """MTBDD-valued integer."""
    return Poly((((), f),)) if f != dd.FALSE else ZERO


def of_atom(a):
    return Poly((((a,), dd.TRUE),))


def A(desc, lo=0, hi=U64):
    return of_atom(atom(desc, lo, hi))


def add(a, b):
    if not a.t:
        return b
    if not b.t:
        return a
    d = dict(a.t)
    for m, c in b.t:
        d[m] = dd.add(d[m], c) if m in d else c
    return _mk(d)


def neg(a):
    return Poly(tuple((m, dd.neg(c)) for m, c in a.t))


def sub(a, b):
    return add(a, neg(b))


def mul(a, b):
    d = {}
    for m1, c1 in a.t:
        for m2, c2 in b.t:
            m = tuple(sorted(m1 + m2))
            c = dd.mul(c1, c2)
            d[m] = dd.add(d[m], c) if m in d else c
    return _mk(d)


def scale(a, k):
    return mul(a, const(k)) if k != 1 else a


def ite(c, a, b):
    if c == dd.TRUE or a is b:
        return a
    if c == dd.FALSE:
        return b
    if a == b:
        return a
    ba, bb = has_bits(a), has_bits(b)
    if (ba or bb) and (ba or const_dd(a) is not None) and (bb or const_dd(b) is not None):
        # sets of flags are merged flag by flag
        xa, xb = to_bits(a, 64), to_bits(b, 64)
        return from_bits([x if x == y else bit_of(dd.ite(c, bit_bdd(x), bit_bdd(y))) for x, y in zip(xa, xb)])
    da, db = dict(a.t), dict(b.t)
    d = {}
    for m in set(da) | set(db):
        d[m] = dd.ite(c, da.get(m, dd.FALSE), db.get(m, dd.FALSE))
    r = _mk(d)
    if len(r.t) == 1 and r.t[0][0] == ():
        ts = dd.terminals(r.t[0][1])
        if len(ts) > 64 and min(ts) >= 0 and max(ts) <= U64:
            return from_bits(to_bits(r, 64))
    return r


def mapc(p, f):
    return _mk({m: f(c) for m, c in p.t})


def restrict(p, pc):
    return mapc(p, lambda c: dd.restrict(c, pc))


def assign(p, lits):
    return mapc(p, lambda c: dd.assign(c, lits))


def psupport(p):
    s = frozenset()
    for m, c in p.t:
        s |= dd.support(c)
    return s


def const_val(p):
    """int if p is a plain constant, else None."""
    if not p.t:
        return 0
    if len(p.t) == 1 and p.t[0][0] == () and dd.is_term(p.t[0][1]):
        return dd.val(p.t[0][1])
    return None


def const_dd(p):
    """MTBDD if p has no atoms."""
    if not p.t:
        return dd.FALSE
    if len(p.t) == 1 and p.t[0][0] == ():
        return p.t[0][1]
    return None


def single_atom(p):
    if len(p.t) == 1 and len(p.t[0][0]) == 1 and p.t[0][1] == dd.TRUE:
        return p.t[0][0][0]
    return None


def mono_range(m):
    lo, hi = 1, 1
    for a in m:
        l, h = _arange[a]
        c = (lo * l, lo * h, hi * l, hi * h)
        lo, hi = min(c), max(c)
    return lo, hi


def bounds(p):
    lo = hi = 0
    for m, c in p.t:
        ts = dd.terminals(c)
        ml, mh = mono_range(m)
        cands = [t * x for t in (min(ts), max(ts)) for x in (ml, mh)]
        lo += min(cands)
        hi += max(cands)
    return lo, hi


def show(p):
    if not p.t:
        return '0'
    out = []
    for m, c in p.t:
        cs = str(dd.val(c)) if dd.is_term(c) else show_mt(c)
        ms = '*'.join(show_atom(a) for a in m)
        out.append(ms if cs == '1' and ms else (cs + ('*' + ms if ms else '')))
    return ' + '.join(out)


def show_mt(c, depth=0):
    if dd.is_term(c):
        return str(dd.val(c))
    if depth > 3:
        return '…'
    v = dd.topvar(c)
    return '(%s?%s:%s)' % (show_var(v), show_mt(dd.hi(c), depth + 1), show_mt(dd.lo(c), depth + 1))


def show_desc(d):
    if isinstance(d, Poly):
        return show(d)
    if isinstance(d, tuple):
        if d and d[0] == 'bits':
            return 'bits<%d>' % len(d[1])
        return '%s(%s)' % (d[0], ','.join(show_desc(x) for x in d[1:])) if d and isinstance(d[0], str) else str(d)
    return str(d)


def show_atom(a):
    d = _adesc[a]
    if d[0] == 'arg':
        return show_name(d[1])
    return show_desc(d)


def show_name(n):
    if isinstance(n, Poly):
        return show(n)
    if not isinstance(n, tuple):
        return str(n)
    if n[0] == '.' and len(n) == 3:
        return show_name(n[1]) + '.' + str(n[2])
    if n[0] == 'as' and len(n) == 3:
        return '%s as %s' % (show_name(n[1]), n[2])
    if n[0] == 'el' and len(n) == 3:
        return '%s[%s]' % (show_name(n[1]), show_name(n[2]))
    if len(n) == 1:
        return show_name(n[0])
    return '%s(%s)' % (n[0], ','.join(show_name(x) for x in n[1:]))


def show_var(v):
    d = dd.desc(v)
    if d[0] == 'bit':
        return '%s.%d' % (show_atom(d[1]), d[2])
    if d[0] == 'eqc':
        return '%s==%d' % (show_atom(d[1]), d[2])
    if d[0] == 'ge0':
        return '[%s>=0]' % show(d[1])
    if d[0] == 'eq0':
        return '[%s==0]' % show(d[1])
    return show_desc(d)


def show_bdd(f, limit=4):
    if f == dd.TRUE:
        return 'true'
    if f == dd.FALSE:
        return 'false'
    ps = dd.paths(f, limit + 1)
    s = ' | '.join('&'.join(('' if b else '!') + show_var(v) for v, b in sorted(p.items())) for p in ps[:limit])
    return s + (' | …' if len(ps) > limit else '')


# ------------------------------------------------------------- predicates
_eqcs = {}     # atom -> list of constants
PRED = {}      # var -> (kind, poly, repr): what the predicate behind a variable means


def eqc(a, c):
    lo, hi = _arange[a]
    if c < lo or c > hi:
        return dd.FALSE
    if lo == hi:
        return dd.TRUE
    d = _adesc[a]
    if d[0] == 'bits':
        bs = d[1]
        r = dd.TRUE
        for i, b in enumerate(bs):
            f = bit_bdd(b)
            r = dd.AND(r, f if (c >> i) & 1 else dd.NOT(f))
        return r if (c >> len(bs)) == 0 else dd.FALSE
    if hi - lo == 1:
        v = dd.var_of(('eqc', a, lo))
        PRED[dd.topvar(v)] = ('eq0', sub(of_atom(a), const(lo)), v)
        return v if c == lo else dd.NOT(v)
    lst = _eqcs.setdefault(a, [])
    if c not in lst:
        lst.append(c)
    v = r = dd.var_of(('eqc', a, c))
    for o in lst:
        if o == c:
            break
        r = dd.AND(r, dd.NOT(dd.var_of(('eqc', a, o))))
    PRED[dd.topvar(v)] = ('eq0', sub(of_atom(a), const(c)), r)
    return r


def _lead_sign(p):
    for m, c in p.t:
        if m != ():
            for t in sorted(dd.terminals(c), key=abs, reverse=True):
                if t:
                    return 1 if t > 0 else -1
    return 1


def _const_coefs(p):
    return all(dd.is_term(c) for m, c in p.t if m != ())


SPLIT = 8


def guard_split(p, fn):
    """fn applied to each guard-free instance of p, joined under the guards;
    None if p has no guards or too many instances."""
    if all(dd.is_term(c) for m, c in p.t):
        return None
    ms = [m for m, c in p.t]
    memo = {}
    leaves = set()

    def count(t):
        if t in memo:
            return
        if len(memo) > 400 or len(leaves) > SPLIT:
            return
        memo[t] = None
        vs = [dd.topvar(c) for c in t if not dd.is_term(c)]
        if not vs:
            leaves.add(t)
            return
        v = min(vs)
        count(tuple(dd.cofactor(c, v, False) for c in t))
        count(tuple(dd.cofactor(c, v, True) for c in t))
    t0 = tuple(c for m, c in p.t)
    count(t0)
    if len(memo) > 400 or len(leaves) > SPLIT:
        return None
    done = {}

    def build(t):
        r = done.get(t)
        if r is not None:
            return r
        vs = [dd.topvar(c) for c in t if not dd.is_term(c)]
        if not vs:
            r = fn(_mk(dict(zip(ms, t))))
        else:
            v = min(vs)
            r = dd.ite(dd.mk(v, dd.FALSE, dd.TRUE), build(tuple(dd.cofactor(c, v, True) for c in t)),
                       build(tuple(dd.cofactor(c, v, False) for c in t)))
        done[t] = r
        return r
    return build(t0)


_ge0 = {}
_eq0 = {}


def ge0(p):
    r = _ge0.get(p)
    if r is None:
        r = _ge0_(p)
        _ge0[p] = r
    return r


def eq0(p):
    r = _eq0.get(p)
    if r is None:
        r = _eq0_(p)
        _eq0[p] = r
    return r


def _ge0_(p):
    k = const_dd(p)
    if k is not None:
        return dd.map1('ge0', lambda x: 1 if x >= 0 else 0, k)
    r = guard_split(p, ge0)
    if r is not None:
        return r
    if len(p.t) == 1 and p.t[0][1] != dd.TRUE and not dd.is_term(p.t[0][1]):
        pass
    lo, hi = bounds(p)
    if lo >= 0:
        return dd.TRUE
    if hi < 0:
        return dd.FALSE
    if all(dd.is_term(c) for m, c in p.t):
        g = 0
        for m, c in p.t:
            if m != ():
                g = gcd(g, abs(dd.val(c)))
        if g > 1:
            d = {}
            for m, c in p.t:
                d[m] = dd.term(dd.val(c) // g)
            return ge0(_mk(d))
    if lo == -1:
        return dd.NOT(eq0(add(p, ONE)))
    if hi == 0:
        return eq0(p)
    if _lead_sign(p) < 0:
        return dd.NOT(ge0(sub(const(-1), p)))
    return _family(p)


_fam = {}      # base poly -> sorted list of (c0, repr)


def _leftmost(f):
    while not dd.is_term(f):
        f = dd.lo(f)
    return dd.val(f)


def _family(p):
    """[base + c0 >= 0]: thresholds over one base form a chain, encoded so that
    the implications between them hold by construction."""
    c = dict(p.t).get((), dd.FALSE)
    c0 = _leftmost(c)
    base = sub(p, const(c0))
    lst = _fam.setdefault(base, [])
    import bisect
    keys = [k for k, _ in lst]
    i = bisect.bisect_left(keys, c0)
    if i < len(lst) and lst[i][0] == c0:
        return lst[i][1]
    vd = ('ge0', p)
    v = dd.var_of(vd)
    r = v
    if i < len(lst):            # a weaker one exists: we imply it
        r = dd.AND(r, lst[i][1])
    if i > 0:                   # a stronger one exists: it implies us
        r = dd.OR(r, lst[i - 1][1])
    lst.insert(i, (c0, r))
    PRED[dd.topvar(v)] = ('ge0', p, r)
    return r


def _eq0_(p):
    k = const_dd(p)
    if k is not None:
        return dd.map1('eq0', lambda x: 1 if x == 0 else 0, k)
    r = guard_split(p, eq0)
    if r is not None:
        return r
    lo, hi = bounds(p)
    if lo > 0 or hi < 0:
        return dd.FALSE
    nz = [(m, c) for m, c in p.t if m != ()]
    if len(nz) == 1 and len(nz[0][0]) == 1 and dd.is_term(nz[0][1]):
        a = nz[0][0][0]
        co = dd.val(nz[0][1])
        cst = dict(p.t).get((), dd.FALSE)
        # split over the terminals of the constant part
        r = dd.FALSE
        for t in dd.terminals(cst):
            cond = dd.map1(('is', t), lambda x: 1 if x == t else 0, cst)
            if (-t) % co == 0:
                r = dd.OR(r, dd.AND(cond, eqc(a, (-t) // co)))
        return r
    if len(nz) == 1 and () not in dict(p.t):
        # c * m == 0 : coefficient zero or the monomial zero
        m, c = nz[0]
        cz = dd.map1('eq0', lambda x: 1 if x == 0 else 0, c)
        mz = dd.FALSE
        for a in set(m):
            mz = dd.OR(mz, eqc(a, 0))
        return dd.OR(cz, mz)
    if lo == 0 and all(min(dd.terminals(c)) >= 0 and mono_range(m)[0] >= 0 for m, c in p.t):
        # sum of non-negative parts
        r = dd.TRUE
        for m, c in p.t:
            r = dd.AND(r, eq0(Poly(((m, c),))))
        return r
    if _lead_sign(p) < 0:
        p = neg(p)
    if len(nz) >= 1 and all(dd.is_term(c) for m, c in p.t):
        g = 0
        for m, c in nz:
            g = gcd(g, abs(dd.val(c)))
        cst = dd.val(dict(p.t).get((), dd.FALSE))
        if g > 1:
            if cst % g:
                return dd.FALSE
            p = _mk({m: dd.term(dd.val(c) // g) for m, c in p.t})
    v = dd.var_of(('eq0', p))
    PRED[dd.topvar(v)] = ('eq0', p, v)
    return v


def ge(a, b):
    return ge0(sub(a, b))


def lt(a, b):
    return dd.NOT(ge(a, b))


def le(a, b):
    return ge(b, a)


def eq(a, b):
    if a == b:
        return dd.TRUE
    if has_bits(a) or has_bits(b):
        ba, bb = to_bits(a, 64), to_bits(b, 64)
        if ba is not None and bb is not None:
            r = dd.TRUE
            for x, y in zip(ba, bb):
                if x == y:
                    continue
                r = dd.AND(r, dd.NOT(dd.XOR(bit_bdd(x), bit_bdd(y))))
                if r == dd.FALSE:
                    break
            return r
    return eq0(sub(a, b))


def has_bits(p):
    a = single_atom(p)
    return a is not None and _adesc[a][0] == 'bits'


# ------------------------------------------------------------------- bits
# A bit is 0, 1, ('b', atom, i) or ('d', bdd) (bdd not a plain bit variable).

def bit_bdd(b):
    if b == 0:
        return dd.FALSE
    if b == 1:
        return dd.TRUE
    if b[0] == 'b':
        return dd.var_of(('bit', b[1], b[2]))
    return b[1]


def bit_of(f):
    if f == dd.FALSE:
        return 0
    if f == dd.TRUE:
        return 1
    if dd.lo(f) == dd.FALSE and dd.hi(f) == dd.TRUE:
        d = dd.desc(dd.topvar(f))
        if d[0] == 'bit':
            return ('b', d[1], d[2])
    return ('d', f)


def width_of(hi):
    return max(hi.bit_length(), 1)


def to_bits(p, w):
    """List of w bits, or None.  p must be within [0, 2^w)."""
    k = const_dd(p)
    if k is not None:
        if min(dd.terminals(k)) < 0:
            k = dd.map1(('tc', w), lambda x: x & ((1 << w) - 1), k)
        return [bit_of(dd.map1(('bit', i), lambda x: (x >> i) & 1, k)) for i in range(w)]
    a = single_atom(p)
    if a is not None:
        d = _adesc[a]
        if d[0] == 'bits':
            bs = list(d[1])
            return (bs + [0] * w)[:w]
        lo, hi = _arange[a]
        n = width_of(hi)
        return [('b', a, i) if i < n else 0 for i in range(w)]
    # ite-shaped: sum of disjoint guarded parts with constant 0/1 structure
    parts = ite_split(p)
    if parts is not None:
        acc = None
        for cond, q in parts:
            b = to_bits(q, w)
            if b is None:
                return None
            if acc is None:
                acc = b
            else:
                acc = [x if x == y else bit_of(dd.ite(cond, bit_bdd(y), bit_bdd(x))) for x, y in zip(acc, b)]
        return acc
    # powers of two times atoms (and a constant) whose bits do not overlap
    if not psupport(p):
        out = [0] * w
        for m, c in p.t:
            k = dd.val(c)
            if k <= 0 or len(m) > 1:
                return None
            if not m:
                b, sh = [(k >> i) & 1 for i in range(w)], 0
                if k >> w:
                    return None
            else:
                if k & (k - 1):
                    return None
                sh = k.bit_length() - 1
                b = to_bits(of_atom(m[0]), w)
                if b is None or any(x != 0 for x in b[max(0, w - sh):]):
                    return None
                b = [0] * sh + b[:w - sh]
            for i, x in enumerate(b):
                if x != 0:
                    if out[i] != 0:
                        return None
                    out[i] = x
        return out
    return None


def ite_split(p, limit=8):
    """Split a poly with guarded coefficients into (cond, unguarded poly)."""
    vs = psupport(p)
    if not vs or len(vs) > 12:
        return None
    out = {}

    def go(q, cond):
        s = psupport(q)
        if not s:
            out[q] = dd.OR(out.get(q, dd.FALSE), cond)
            return
        v = min(s)
        x = dd.mk(v, dd.FALSE, dd.TRUE)
        go(mapc(q, lambda c: dd.cofactor(c, v, False)), dd.AND(cond, dd.NOT(x)))
        if len(out) <= limit:
            go(mapc(q, lambda c: dd.cofactor(c, v, True)), dd.AND(cond, x))
    go(p, dd.TRUE)
    if len(out) > limit:
        return None
    return [(c, q) for q, c in out.items()]


def from_bits(bs):
    bs = list(bs)
    while bs and bs[-1] == 0:
        bs.pop()
    nc = [b for b in bs if b not in (0, 1)]
    if not nc:
        return const(sum(1 << i for i, b in enumerate(bs) if b == 1))
    # a whole atom?
    if all(b not in (0, 1) and b[0] == 'b' and b[2] == i and b[1] == bs[0][1] for i, b in enumerate(bs)):
        a = bs[0][1]
        if len(bs) == width_of(_arange[a][1]):
            return of_atom(a)
    if len(nc) <= 6:
        f = dd.FALSE
        for i, b in enumerate(bs):
            x = bit_bdd(b)
            f = dd.add(f, dd.scale(x, 1 << i) if x != dd.FALSE else x)
        return of_bdd(f)
    hi = (1 << len(bs)) - 1
    return A(('bits', tuple(bs)), 0, hi)


def bitop(op, a, b, w):
    ba, bb = to_bits(a, w), to_bits(b, w)
    if ba is None or bb is None:
        return None
    out = []
    for x, y in zip(ba, bb):
        if op == 'and':
            if x == 0 or y == 0:
                r = 0
            elif x == 1:
                r = y
            elif y == 1 or x == y:
                r = x
            else:
                r = bit_of(dd.AND(bit_bdd(x), bit_bdd(y)))
        elif op == 'or':
            if x == 1 or y == 1:
                r = 1
            elif x == 0:
                r = y
            elif y == 0 or x == y:
                r = x
            else:
                r = bit_of(dd.OR(bit_bdd(x), bit_bdd(y)))
        else:
            if x == 0:
                r = y
            elif y == 0:
                r = x
            elif x == y:
                r = 0
            else:
                r = bit_of(dd.XOR(bit_bdd(x), bit_bdd(y)))
        out.append(r)
    return from_bits(out)


def bitnot(a, w):
    ba = to_bits(a, w)
    if ba is None:
        return None
    return from_bits([1 - x if x in (0, 1) else bit_of(dd.NOT(bit_bdd(x))) for x in ba])


def shl(a, k, w):
    lo, hi = bounds(a)
    if lo >= 0 and (hi << k) < (1 << w):
        return scale(a, 1 << k)
    ba = to_bits(a, w)
    if ba is None:
        return None
    return from_bits(([0] * k + ba)[:w])


def shr(a, k, w):
    if single_atom(a) is None and const_dd(a) is None:
        parts = ite_split(a)
        if parts is not None and len(parts) > 1:
            out = None
            for cond, q in parts:
                r = shr(q, k, w)
                if r is None:
                    return None
                out = r if out is None else ite(cond, r, out)
            return out
    ba = to_bits(a, w)
    if ba is None:
        return None
    return from_bits(ba[k:] + [0] * k)


def popcount(a, w):
    ba = to_bits(a, w)
    if ba is None:
        return None
    nc = [b for b in ba if b not in (0, 1)]
    if len(nc) <= 12:
        f = dd.FALSE
        for b in ba:
            f = dd.add(f, bit_bdd(b))
        return of_bdd(f)
    return A(('popcnt', a), 0, w)


def low_bits(p, k):
    """p mod 2^k as a bit list for a poly with constant non-negative structure
    (adder over the low bits), or None."""
    acc = [0] * k
    for m, c in p.t:
        if len(m) > 1:
            if dd.is_term(c) and dd.val(c) % (1 << k) == 0:
                continue
            return None
        if m == ():
            term_bits = to_bits(of_bdd(dd.map1(('mod', k), lambda x: x % (1 << k), c)), k)
            acc = _addbits(acc, term_bits)
            continue
        cs = [dd.val(c)] if dd.is_term(c) else None
        if cs is None:
            g = 0
            for t in dd.terminals(c):
                g = gcd(g, abs(t))
            if g % (1 << k) == 0:
                continue
            return None
        co = cs[0] % (1 << k)
        if co == 0:
            continue
        ab = to_bits(of_atom(m[0]), 64)
        if ab is None:
            return None
        for i in range(k):
            if (co >> i) & 1:
                acc = _addbits(acc, ([0] * i + ab[:k])[:k])
    return acc


def _addbits(a, b):
    out = []
    carry = dd.FALSE
    for x, y in zip(a, b):
        if carry == dd.FALSE and (x == 0 or y == 0):
            out.append(y if x == 0 else x)
            continue
        fx, fy = bit_bdd(x), bit_bdd(y)
        s = dd.XOR(dd.XOR(fx, fy), carry)
        carry = dd.OR(dd.AND(fx, fy), dd.AND(carry, dd.XOR(fx, fy)))
        out.append(bit_of(s))
    return out


# ----------------------------------------------------- deep substitution
def desc_polys(d):
    for x in d:
        if isinstance(x, Poly):
            yield x
        elif isinstance(x, tuple):
            yield from desc_polys(x)


_deep_a = {}


def atoms_deep(p):
    s = set()
    for m, c in p.t:
        for a in m:
            s |= atom_deep(a)
        for v in dd.support(c):
            s |= var_atoms(v)
    return s


def atom_deep(a):
    r = _deep_a.get(a)
    if r is None:
        r = {a} | desc_atoms(_adesc[a])
        _deep_a[a] = r
    return r


def desc_atoms(d):
    s = set()
    if not d:
        return s
    if isinstance(d[0], str) and d[0] in ('bit', 'eqc', 'b') and len(d) == 3 and isinstance(d[1], int):
        s |= atom_deep(d[1])
        return s
    if d[0] == 'd' and len(d) == 2 and isinstance(d[1], int):
        for v in dd.support(d[1]):
            s |= var_atoms(v)
        return s
    for x in d:
        if isinstance(x, Poly):
            s |= atoms_deep(x)
        elif isinstance(x, tuple):
            s |= desc_atoms(x)
    return s


_deep_v = {}


def var_atoms(v):
    r = _deep_v.get(v)
    if r is None:
        r = desc_atoms(dd.desc(v))
        _deep_v[v] = r
    return r


def bdd_atoms(f):
    s = set()
    for v in dd.support(f):
        s |= var_atoms(v)
    return s


OPAQUE_NODES = 24
_opq = {}


def opaque(p):
    """p itself, or a name for it when it distinguishes too many cases."""
    r = _opq.get(p)
    if r is None:
        n = sum(dd.size(c) for _, c in p.t)
        if n == 0 or (n <= OPAQUE_NODES and len(p.t) <= 4):
            r = p
        else:
            r = A(('val', p), 0, max(0, bounds(p)[1]))
        _opq[p] = r
    return r


class Subst:
    """Deep substitution atom -> Poly (also inside atom and predicate
    descriptors), and BDD variable -> BDD."""

    def __init__(self, m, vm=None):
        self.m = m
        self.vm = vm or {}
        self.keys = set(m)
        self.memo = {}
        self.vmemo = {}
        self.bmemo = {}

    def atom(self, a):
        if a in self.m:
            return self.m[a]
        if not (atom_deep(a) & self.keys) and not self.vm:
            return of_atom(a)
        r = self.memo.get(a)
        if r is None:
            d = _adesc[a]
            nd = self.desc(d)
            if nd == d:
                r = of_atom(a)
            elif d[0] == 'bits':
                r = from_bits([x if x in (0, 1) else self.bit(x) for x in d[1]])
            elif d[0] == 'popcnt':
                r = popcount(nd[1], 64)
            elif d[0] == 'val':
                r = opaque(nd[1])
            elif d[0] == 'div' and const_dd(nd[1]) is not None and min(dd.terminals(const_dd(nd[1]))) >= 0:
                r = of_bdd(dd.map1(('Div', nd[2]), lambda v: v // nd[2], const_dd(nd[1])))
            else:
                r = A(nd, *_arange[a])
            self.memo[a] = r
        return r

    def bit(self, b):
        if b in (0, 1):
            return b
        if b[0] == 'b':
            p = self.atom(b[1])
            bs = to_bits(p, 64)
            if bs is None:
                bs = to_bits(A(('val', p), 0, max(0, bounds(p)[1])), 64)
            return bs[b[2]]
        return bit_of(self.bdd(b[1]))

    def desc(self, d):
        if not d:
            return d
        if isinstance(d[0], str) and d[0] in ('bits',):
            return (d[0], tuple(x if x in (0, 1) else self.bit(x) for x in d[1]))
        out = []
        for x in d:
            if isinstance(x, Poly):
                out.append(self.poly(x))
            elif isinstance(x, tuple):
                out.append(self.desc(x))
            else:
                out.append(x)
        return tuple(out)

    def var(self, v):
        if v in self.vm:
            return self.vm[v]
        if not (var_atoms(v) & self.keys) and not self.vm:
            return dd.mk(v, dd.FALSE, dd.TRUE)
        r = self.vmemo.get(v)
        if r is None:
            d = dd.desc(v)
            if d[0] == 'ge0':
                r = ge0(self.poly(d[1]))
            elif d[0] == 'eq0':
                r = eq0(self.poly(d[1]))
            elif d[0] == 'eqc':
                r = eq0(sub(self.atom(d[1]), const(d[2])))
            elif d[0] == 'bit':
                r = bit_bdd(self.bit(('b', d[1], d[2])))
            else:
                r = dd.var_of(self.desc(d))
            self.vmemo[v] = r
        return r

    def bdd(self, f):
        if dd.is_term(f):
            return f
        r = self.bmemo.get(f)
        if r is None:
            r = dd.ite(self.var(dd.topvar(f)), self.bdd(dd.hi(f)), self.bdd(dd.lo(f)))
            self.bmemo[f] = r
        return r

    def poly(self, p):
        if not self.vm and not (atoms_deep(p) & self.keys):
            return p
        r = ZERO
        for m, c in p.t:
            t = of_bdd(self.bdd(c))
            for a in m:
                t = mul(t, self.atom(a))
            r = add(r, t)
        return r


# -------------------------------------------- linear (polyhedral) reasoning
class Lin(dict):
    pass


def lin_of(p, lits=None):
    """Linear form over monomials with integer coefficients, or None."""
    if lits:
        p = assign(p, lits)
    d = {}
    for m, c in p.t:
        if not dd.is_term(c):
            return None
        d[m] = dd.val(c)
    return d


def _norm(c):
    g = 0
    for m, k in c.items():
        if m != ():
            g = gcd(g, abs(k))
    if g > 1:
        c = {m: k // g for m, k in c.items()}   # floor for the constant: integer tightening
    return {m: k for m, k in c.items() if k}


def lin_infeasible(cons, maxcons=600):
    """Integer-tightened Fourier-Motzkin: True if the conjunction of c>=0 is
    certainly empty."""
    S = {}

    def put(c):
        c = _norm(c)
        k0 = c.get((), 0)
        key = tuple(sorted((m, k) for m, k in c.items() if m != ()))
        if not key:
            return k0 < 0
        if key not in S or S[key] > k0:
            S[key] = k0
        return False
    for c in cons:
        if put(dict(c)):
            return True
    while S:
        occ = {}
        for key in S:
            for m, k in key:
                p, n = occ.get(m, (0, 0))
                occ[m] = (p + 1, n) if k > 0 else (p, n + 1)
        m = min(occ, key=lambda x: occ[x][0] * occ[x][1] - occ[x][0] - occ[x][1])
        if occ[m][0] * occ[m][1] > maxcons:
            return False
        pos, negs, rest = [], [], {}
        for key, k0 in S.items():
            k = dict(key).get(m, 0)
            if k > 0:
                pos.append((dict(key), k0, k))
            elif k < 0:
                negs.append((dict(key), k0, -k))
            else:
                rest[key] = k0
        S = rest
        for dp, kp, a in pos:
            for dn, kn, b in negs:
                c = {(): kp * b + kn * a}
                for x, k in dp.items():
                    if x != m:
                        c[x] = c.get(x, 0) + k * b
                for x, k in dn.items():
                    if x != m:
                        c[x] = c.get(x, 0) + k * a
                if put(c):
                    return True
        if len(S) > maxcons:
            return False
    return False


AXIOMS = []     # functions (set of atoms, lits) -> list of linear constraints


def range_cons(ms):
    out = []
    done = set()
    for m in ms:
        if m == () or m in done:
            continue
        done.add(m)
        lo, hi = mono_range(m)
        out.append({m: 1, (): -lo})
        out.append({m: -1, (): hi})
    return out


def lit_cons(lits):
    """Linear constraints implied by a cube; second result: disequalities."""
    out, diseq = [], []
    for v in lits:
        pr = PRED.get(v)
        if pr is None:
            continue
        kind, p, rep = pr
        t = dd.assign(rep, lits)
        if not dd.is_term(t):
            continue
        b = t == dd.TRUE
        if kind == 'ge0':
            l = lin_of(p if b else sub(const(-1), p), lits)
            if l is not None:
                out.append(l)
        else:
            l = lin_of(p, lits)
            if l is None:
                continue
            if b:
                out.append(l)
                out.append({m: -k for m, k in l.items()})
            else:
                diseq.append(l)
    return out, diseq


def cube_infeasible(lits, extra=(), exdis=(), pc=None, alllits=None):
    cons, diseq = lit_cons(lits)
    cons = cons + [dict(e) for e in extra]
    diseq = diseq + [dict(e) for e in exdis]
    for c in cons:
        if not any(m != () for m in c) and c.get((), 0) < 0:
            return True
    # tighten range-boundary disequalities, split the others when few
    def ms_of(cs):
        s = set()
        for c in cs:
            s |= {m for m in c if m != ()}
        return s
    for _ in range(4):
        atoms = set()
        for m in ms_of(cons) | ms_of(diseq):
            for a in m:
                atoms |= atom_deep(a)
        new = []
        for ax in AXIOMS:
            for c in ax(atoms, lits, pc):
                if c not in cons and c not in new:
                    new.append(c)
        if not new:
            break
        cons += new
    base = cons + range_cons(ms_of(cons) | ms_of(diseq))
    if lin_infeasible(base):
        return True
    # bits contradicting equalities to constants
    for v, b in lits.items():
        d = dd.desc(v)
        if d[0] == 'bit':
            for v2, b2 in lits.items():
                d2 = dd.desc(v2)
                if d2[0] == 'eqc' and d2[1] == d[1] and b2 and ((d2[2] >> d[2]) & 1) != int(b):
                    return True
    # disequalities: drop into two halves, greedily
    used = ms_of(cons)
    ds = [d for d in diseq if ms_of([d]) & used or len(ms_of([d])) == 1][:6]
    if not ds:
        return False

    def rec(cs, ds):
        if lin_infeasible(cs):
            return True
        if not ds:
            return False
        d = ds[0]
        a = dict(d)
        a[()] = a.get((), 0) - 1
        b = {m: -k for m, k in d.items()}
        b[()] = b.get((), 0) - 1
        return rec(cs + [a], ds[1:]) and rec(cs + [b], ds[1:])
    return rec(base, ds)


def relevant(f, seed_atoms, rounds=3):
    """Existentially drop variables that share no atom with the seed."""
    seen = set(seed_atoms)
    keep = set()
    sup = dd.support(f)
    for _ in range(rounds):
        grew = False
        for v in sup:
            if v in keep:
                continue
            d = dd.desc(v)
            if d[0] not in ('ge0', 'eq0', 'eqc'):
                continue
            if var_atoms(v) & seen:
                keep.add(v)
                seen |= var_atoms(v)
                grew = True
        if not grew:
            break
    return keep


def split_infeasible(lits, depth=7):
    """cube_infeasible, deciding the guards inside the cube's predicates."""
    if cube_infeasible(lits):
        return True
    if depth == 0:
        return False
    for v in lits:
        e = PRED.get(v)
        if e is None:
            continue
        for g in sorted(psupport(e[1])):
            if g not in lits:
                l2 = dict(lits)
                l2[g] = True
                if not split_infeasible(l2, depth - 1):
                    return False
                l2[g] = False
                return split_infeasible(l2, depth - 1)
    return False


def infeasible(f, limit=4000):
    """True if condition f has no model in the numeric domain (sound for
    'True'); enumerates the cubes of the diagram."""
    if f == dd.FALSE:
        return True
    memo = set()
    count = [0]

    def go(n, lits):
        # depth-first over the diagram with early pruning
        if n == dd.FALSE:
            return True
        count[0] += 1
        if count[0] > limit:
            return False
        if dd.is_term(n):
            return split_infeasible(lits)
        v = dd.topvar(n)
        if len(lits) >= 6 and len(lits) % 3 == 0 and cube_infeasible(lits):
            return True
        for b, ch in ((True, dd.hi(n)), (False, dd.lo(n))):
            lits[v] = b
            ok = go(ch, lits)
            del lits[v]
            if not ok:
                return False
        return True
    return go(f, {})


_ladder = {}


def ladders(f):
    """What the order of constants says about the predicates p + k >= 0 in f."""
    fam = {}
    for v in dd.support(f):
        e = PRED.get(v)
        if e is None or e[0] != 'ge0':
            continue
        p = e[1]
        k, rest = 0, []
        for m, c in p.t:
            if m == () and dd.is_term(c):
                k = dd.val(c)
            else:
                rest.append((m, c))
        fam.setdefault(tuple(rest), []).append((k, e[2]))
    r = dd.TRUE
    for g in fam.values():
        g.sort(key=lambda x: x[0])
        for (k1, a), (k2, b) in zip(g, g[1:]):
            r = dd.AND(r, dd.OR(dd.NOT(a), b))
    return r


def _implied_lits(pc, vs):
    """Predicates among vs decided by pc: list of (kind, poly, bool)."""
    out = []
    for v in vs:
        kind, p, rep = PRED[v]
        if dd.implies(pc, rep):
            out.append((kind, p, True))
        elif dd.implies(pc, dd.NOT(rep)):
            out.append((kind, p, False))
    return out


_proved = {}


def prove(pc, f, limit=1500):
    """True only if pc entails f in the numeric domain."""
    g = dd.AND(pc, dd.NOT(f))
    if g == dd.FALSE:
        return True
    k = (pc, f)
    r = _proved.get(k)
    if r is not None:
        return r
    r = _prove(pc, f, g, limit)
    _proved[k] = r
    return r


def _prove(pc, f, g, limit):
    nf = dd.NOT(dd.restrict(f, pc))
    if nf == dd.FALSE:
        return True
    # constraints that hold outright under pc and share atoms with the goal
    seed = set()
    for v in dd.support(nf):
        seed |= var_atoms(v)
    keep = relevant(pc, seed)
    forced = {}
    allp = dd.forced(pc, dd.support(pc))
    cons, diseq = [], []
    for kind, p, b in _implied_lits(pc, [v for v in keep if v in PRED]):
        p = assign(p, allp)
        if kind == 'ge0':
            l = lin_of(p if b else sub(const(-1), p))
            if l is not None:
                cons.append(l)
        else:
            l = lin_of(p)
            if l is None:
                continue
            if b:
                cons.append(l)
                cons.append({m: -k for m, k in l.items()})
            else:
                diseq.append(l)
    ok = True
    n = 0
    for lits in dd.paths(nf, 60):
        n += 1
        l2 = dict(allp)
        l2.update(lits)
        if not cube_infeasible(lits, cons, diseq, pc, l2):
            ok = False
            break
    if ok and n < 60:
        return True
    # project the path condition onto what matters and enumerate
    drop = [v for v in dd.support(g) if v not in keep and v not in dd.support(nf)]
    if len(drop) > 200:
        return False
    h = dd.exists(g, drop)
    return infeasible(h, limit)


def entails(pc, f):
    return prove(pc, f)


def entails_ge0(pc, p):
    g = ge0(p)
    if g == dd.TRUE:
        return True
    return prove(pc, g)
