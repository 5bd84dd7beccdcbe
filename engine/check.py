"""Deciding obligations: what the analysed code computes against the specification.

Each obligation is a pair of value expressions and the condition under which
they have to agree.  It is proved by canonical identity or by the numeric
domain; refuted only by a valuation of the program's inputs at which the two
expressions differ (random interpretation of the expressions; the program is
never run); otherwise left undecided, which is never an alarm."""
import time
import dd
import poly as P
import vals as V
from vals import *
from interp import Interp, St, Diverge
import models
import loops
import prims
import rand
import spec as SP

T, F = dd.TRUE, dd.FALSE
AND, NOT = dd.AND, dd.NOT


class Mismatch(Exception):
    """The analysed code does not have the shape an obligation needs."""


# ------------------------------------------------------------------ helpers
def find_type(self, name):
    for i in self.p.types:
        t = self.p.ty(i)
        if t.get('def') == name:
            return i
    return None


def u64ty(self):
    for i in self.p.types:
        t = self.p.ty(i)
        if t['k'] == 'uint' and t['bits'] == 64 and t['name'] == 'u64':
            return i


Interp.find_type = find_type
Interp.u64ty = u64ty


def deref(it, st, v):
    """Value with references followed."""
    while v[0] in 'RX':
        v = it.read_ref(st, v) if v[0] == 'R' else v[1]
    return v


def cond_or(xs):
    r = F
    for x in xs:
        r = dd.OR(r, x)
    return r


class Ob:
    __slots__ = ('label', 'pc', 'a', 'b', 'status', 'witness', 'n', 'kind')

    def __init__(self, label, pc, a, b, kind='spec'):
        self.kind = kind
        self.label, self.pc, self.a, self.b = label, pc, a, b
        self.status, self.witness, self.n = None, None, 0


class Cmp:
    """Turns (code value, specification tree) into obligations."""

    def __init__(self, it, st):
        self.it, self.st = it, st
        self.obs = []

    def add(self, label, pc, a, b):
        self.obs.append(Ob(label, pc, a, b))

    def go(self, ty, v, s, pc, label):
        it = self.it
        if s is SP.ANY or s == SP.ANY:
            return
        t = it.p.ty(ty) if ty is not None else None
        if t is not None and t['k'] in ('ref', 'ptr'):
            tt = it.p.ty(t['to'])
            if v[0] == 'R':
                v = it.read_ref(self.st, v)
            return self.go(t['to'], v, s, pc, label)
        if v[0] == 'X':
            return self.go(None if t is None else [a[1] for a in t['args'] if a[0] == 't'][0], v[1], s, pc, label)
        if isinstance(s, P.Poly):
            v, _ = self.scalar(ty, v)
            if v[0] == 'B':
                v = I(P.of_bdd(v[1]))
            return self.add(label, pc, v, I(s))
        if isinstance(s, dict):
            if t is None or t['k'] != 'adt' or t['adt'] != 'struct':
                raise Mismatch('%s: %s is not a struct' % (label, t and t['name']))
            fs = t['variants'][0]['fields']
            names = {n: i for i, (n, _) in enumerate(fs)}
            for n, x in s.items():
                if n not in names:
                    raise Mismatch('%s: no field %s in %s' % (label, n, t['name']))
                self.go(fs[names[n]][1], self.field(v, names[n]), x, pc, label + '.' + n)
            return
        if isinstance(s, (list,)):
            for i, x in enumerate(s):
                self.go(t['fields'][i], self.field(v, i), x, pc, '%s.%d' % (label, i))
            return
        k = s[0]
        if k == 'raw':
            return self.add(label, pc, deref(it, self.st, v), s[1])
        if k == 'bool':
            v, _ = self.scalar(ty, v)
            return self.add(label, pc, v, B(s[1]))
        if k == 'opt':
            c, x, xt = self.option(t, v)
            self.add(label + ' is some', pc, B(c), B(s[1]))
            g = dd.AND(pc, dd.AND(c, s[1]))
            if x is not None and g != F:
                self.go(xt, x, s[2], g, label)
            return
        if k == 'either':
            # present when s[1]; equal to any of the listed sources that is present
            c, x, xt = self.option(t, v)
            self.add(label + ' is some', pc, B(c), B(s[1]))
            if x is None:
                return
            x, _ = self.scalar(xt, x)
            alts = s[2]
            good = F
            for ac, av in alts:
                if all(oc == F or oc is ac or dd.AND(ac, oc) == F for oc, _ in alts):
                    pass
            for i, (ac, av) in enumerate(alts):
                only = ac
                for j, (oc, _) in enumerate(alts):
                    if j != i:
                        only = dd.AND(only, dd.NOT(oc))
                self.go(None, x, av, dd.AND(pc, dd.AND(c, only)), label)
            allc = T
            for ac, _ in alts:
                allc = dd.AND(allc, ac)
            g = dd.AND(pc, dd.AND(c, allc))
            if g != F:
                one = cond_or(P.eq(x[1], av) for _, av in alts) if x[0] == 'I' else None
                if one is None:
                    raise Mismatch(label + ': ' + show(x)[:60])
                self.add(label, g, B(one), B(T))
            return
        if k == 'seq':
            q = self.content(t, v)
            return self.add(label, pc, q, s[1])
        if k == 'enum':
            v = deref(it, self.st, v)
            if v[0] != 'E':
                if v[0] == 'T':
                    return self.add(label, pc, v, I(P.ZERO))
                raise Mismatch('%s: not an enum' % label)
            names = [x['name'] for x in t['variants']]
            have = {names[i]: (c, fs, t['variants'][i]['fields']) for i, c, fs in v[1]}
            for n in set(have) | set(s[1]):
                c, fs, ft = have.get(n, (F, (), ()))
                want = s[1].get(n, (F, None))
                self.add(label + ' is ' + n, pc, B(c), B(want[0]))
                if want[1] is not None and c != F:
                    g = dd.AND(pc, dd.AND(c, want[0]))
                    for i, x in enumerate(want[1]):
                        self.go(ft[i][1], fs[i], x, g, '%s::%s.%d' % (label, n, i))
            return
        raise ValueError(k)

    def field(self, v, i):
        v = deref(self.it, self.st, v)
        if v[0] == 'S':
            return v[1][i]
        return self.it.proj(v, ('f', i), T)

    def scalar(self, ty, v):
        it = self.it
        v = deref(it, self.st, v)
        n = 0
        while v[0] == 'S' and n < 8:
            n += 1
            fs = v[1]
            if len(fs) == 1:
                v = deref(it, self.st, fs[0])
                if ty is not None:
                    ty = it.p.ty(ty)['variants'][0]['fields'][0][1]
                continue
            live = [x for x in fs if x != UNIT]
            if len(live) != 1:
                break
            v = live[0]
        if v[0] == 'N':
            b = it.bits_of(v, v[1], T)
            if b is not None:
                v = I(P.from_bits(b))
        return v, ty

    def option(self, t, v):
        v = deref(self.it, self.st, v)
        if v[0] == 'E':
            ft = t['variants'][1]['fields'][0][1]
            for i, c, fs in v[1]:
                if i == 1:
                    return c, fs[0], ft
            return F, None, ft
        raise Mismatch('not an option: %s' % show(v)[:80])

    def content(self, t, v):
        """Elements of a Cow / Vec / slice / array."""
        it = self.it
        v = deref(it, self.st, v)
        if v[0] == 'V':
            return self.content(None, v[1])
        if v[0] == 'Q':
            return v
        if v[0] == 'E':
            r = None
            for i, c, fs in v[1]:
                q = self.content(None, fs[0])
                r = q if r is None else V.merge(c, q, r)
            return r
        if v[0] == 'S' and len(v[1]) == 1:
            return self.content(None, v[1][0])
        if v[0] in 'TJO':
            return v
        raise Mismatch('not a sequence: %s' % show(v)[:80])


# ------------------------------------------------------------------ deciding
def within(pc, p, w, depth=4):
    """pc entails 0 <= p < 2^w, guards of p decided one by one."""
    if pc == F:
        return True
    gs = sorted(P.psupport(p))
    if gs and depth:
        g = dd.mk(gs[0], F, T)
        return all(within(dd.AND(pc, c), P.assign(p, {gs[0]: v}), w, depth - 1) for v, c in ((True, g), (False, dd.NOT(g))))
    top = P.sub(P.const((1 << w) - 1), p)
    for goal in (P.ge0(p), P.ge0(top)):
        if goal == T:
            continue
        x = dd.AND(pc, dd.NOT(goal))
        for rounds in (1, 2):
            z = loops.narrowed(x, dd.NOT(goal), F, rounds)
            if z is not None and (z == F or P.infeasible(z, 1500)):
                break
        else:
            return False
    return True


def divisions(it, *vs):
    """Substitution of divisions by their value for each case of the dividend."""
    m = {}
    for v in vs:
        for a in loops.atoms_in(v):
            d = P.adesc(a)
            if d[0] == 'div' and a not in m:
                gs = sorted(P.psupport(d[1]))
                if 0 < len(gs) <= 5:
                    m[a] = div_cases(it, d[1], d[2], gs)
    return P.Subst(m) if m else None


def tighten(v, pc):
    """Sources of guarded terms, told what their guard already decides."""
    if v[0] != 'I':
        return v
    r = P.ZERO
    for m, c in v[1].t:
        f = dd.forced(dd.AND(pc, dd.map1(('nz',), lambda x: 1 if x else 0, c)))
        q = P.Poly((((), c),))
        for a in m:
            d = P.adesc(a)
            if d[0] == 'cv':
                d = tuple(P.assign(x, f) if isinstance(x, P.Poly) else x for x in d)
                q = P.mul(q, P.A(d, *P.arange(a)))
            else:
                q = P.mul(q, P.of_atom(a))
        r = P.add(r, q)
    return I(r)


def by_cases(it, pc, a, b, gs):
    """Equality with these guards decided one after the other."""
    if pc == F or P.infeasible(pc, 60) or loops.equal(it, pc, a, b):
        return True
    if not gs:
        return False
    v = gs[0]
    g = dd.mk(v, F, T)
    d = dd.desc(v)
    for c, val in ((g, True), (dd.NOT(g), False)):
        m = {d[1]: P.const(d[2])} if val and d[0] == 'eqc' else {}
        s = P.Subst(m, {v: T if val else F})
        q = dd.AND(pc, c)
        if q == F:
            continue
        a2, b2 = V.subst(a, s), V.subst(b, s)
        rest = [x for x in top_guards(a2) if x != v and x in P.PRED or dd.desc(x)[0] == 'eqc']
        if m:
            q = dd.AND(c, s.bdd(q))
        if not by_cases(it, q, a2, b2, (rest if len(rest) < len(gs) else gs[1:])[:5]):
            return False
    return True


def inner(v):
    """(what is read, where) of an integer that is a single read."""
    a = P.single_atom(v[1]) if v[0] == 'I' else None
    if a is None:
        return None
    d = P.adesc(a)
    if d[0] == 'cv' and isinstance(d[-1], P.Poly):
        return d[:-1], d[-1]
    return None


def split_equal(it, pc, a, b, fuel):
    """Equality, deciding the guards of the two sides one after the other;
    conditions that cannot hold together are dropped on the way."""
    if pc == F:
        return True
    fuel[0] -= 1
    if fuel[0] < 0:
        return False
    lits = dd.forced(pc)
    sub = {}
    for v, val in lits.items():
        d = dd.desc(v)
        if val and d[0] == 'eqc':
            sub[d[1]] = P.const(d[2])
    s = P.Subst(sub, {v: T if val else F for v, val in lits.items()})
    a, b = V.subst(a, s), V.subst(b, s)
    if loops.equal(it, pc, a, b):
        return True
    if a[0] == 'I':
        for simpler in (lambda: unwrap(pc, a, b), lambda: divisions(it, a, b)):
            u = simpler()
            if u is not None:
                a, b = V.subst(a, u), V.subst(b, u)
                if loops.equal(it, pc, a, b):
                    return True
        x, y = inner(a), inner(b)
        if x is not None and y is not None and x[0] == y[0]:
            return split_equal(it, pc, I(x[1]), I(y[1]), fuel)
    gs = [v for v in top_guards(a) + top_guards(b) if v not in lits]
    if not gs:
        return P.infeasible(pc, 200)
    # the guard that decides most of the condition first
    sup = dd.support(pc)
    v = min(gs, key=lambda x: (x not in sup, x))
    g = dd.mk(v, F, T)
    for c in (g, NOT(g)):
        q = AND(pc, c)
        if q == F or P.infeasible(q, 40):
            continue
        if not split_equal(it, q, a, b, fuel):
            return False
    return True


def unfold(*vs):
    """least(c) is 0 where c(0) fails and 1 + least(c(. + 1)) elsewhere."""
    m = {}
    kb = P.single_atom(loops.BOUNDK)
    for v in vs:
        for a in loops.atoms_in(v):
            d = P.adesc(a)
            if d[0] == 'least' and a not in m:
                f = d[1][1]
                c0 = P.Subst({kb: P.ZERO}).bdd(f)
                nxt = P.Subst({kb: P.add(loops.BOUNDK, P.ONE)}).bdd(f)
                m[a] = P.ite(c0, P.add(P.ONE, P.A(('least', ('d', nxt)), 0, P.BIGLEN)), P.ZERO)
    return m


def top_guards(v):
    """Guards of the extents a sequence is made of."""
    r = set()
    if v[0] == 'Q':
        for c, ps in v[1]:
            r |= set(dd.support(c))
            for p in ps:
                for x in p:
                    if isinstance(x, P.Poly):
                        r |= set(P.psupport(x))
    elif v[0] == 'I':
        r |= set(P.psupport(v[1]))
    return sorted(r)


def div_cases(it, x, k, gs):
    if not gs:
        return it.divrem('Div', x, P.const(k), T)
    g = dd.mk(gs[0], F, T)
    return P.ite(g, div_cases(it, P.assign(x, {gs[0]: True}), k, gs[1:]), div_cases(it, P.assign(x, {gs[0]: False}), k, gs[1:]))


def unwrap(pc, *vs):
    """Substitution of the wrap-arounds that cannot happen under pc."""
    m = {}
    for v in vs:
        for a in loops.atoms_in(v):
            d = P.adesc(a)
            if d[0] == 'wrap' and not d[2] and a not in m and within(pc, d[3], d[1]):
                m[a] = d[3]
    return P.Subst(m) if m else None


def impossible(bad, know=T):
    """No valuation meets `bad` (where `know` holds)."""
    if bad == F or P.infeasible(bad, 1500):
        return True
    x = AND(bad, know)
    u = unwrap(x, B(bad))
    b2 = u.bdd(bad) if u is not None else bad
    if u is not None and P.infeasible(b2, 1500):
        return True
    x = AND(b2, know)
    for rounds in (1, 2):
        z = loops.narrowed(x, b2, F, rounds)
        if z is not None and P.infeasible(z, 3000):
            return True
    return False


def decide_ob(it, ob, quick=False, effort=None):
    if len(dd._var) > 9000000:
        return None
    try:
        with dd.bounded(effort or (EFFORT if not quick else EFFORT // 20)):
            return decide_ob_(it, ob, quick)
    except dd.Effort:
        return None


EFFORT = 1500000


def decide_ob_(it, ob, quick=False):
    if ob.pc == F:
        return 'proved'
    try:
        if loops.equal(it, ob.pc, ob.a, ob.b):
            return 'proved'
        if quick:
            return None
        s = P.Subst({}, {v: T if b else F for v, b in dd.forced(ob.pc).items()})
        a, b = V.subst(ob.a, s), V.subst(ob.b, s)
        if (a != ob.a or b != ob.b) and loops.equal(it, ob.pc, a, b):
            return 'proved'
        u = unwrap(ob.pc, a, b)
        if u is not None:
            a, b = V.subst(a, u), V.subst(b, u)
            if loops.equal(it, ob.pc, a, b):
                return 'proved'
        if a[0] == 'B' and b[0] == 'B':
            if all(impossible(AND(ob.pc, x)) or impossible(x, ob.pc) for x in (AND(a[1], NOT(b[1])), AND(b[1], NOT(a[1])))):
                return 'proved'
        u = divisions(it, a, b)
        if u is not None:
            a, b = V.subst(a, u), V.subst(b, u)
            if loops.equal(it, ob.pc, a, b):
                return 'proved'
        gs = [v for v in top_guards(a) + top_guards(b) if dd.desc(v)[0] in ('eqc', 'eq0', 'borrow')]
        if a[0] == 'Q' and 0 < len(gs) <= 8 and by_cases(it, ob.pc, a, b, gs):
            return 'proved'
        if a[0] == 'I' and loops.equal(it, ob.pc, tighten(a, ob.pc), tighten(b, ob.pc)):
            return 'proved'
        if a[0] in 'IQ' and a[0] == b[0]:
            if split_equal(it, ob.pc, a, b, [60]):
                return 'proved'
            for x, y in ((V.subst(a, P.Subst(unfold(a))), b), (a, V.subst(b, P.Subst(unfold(b))))):
                if (x != a or y != b) and split_equal(it, ob.pc, x, y, [60]):
                    return 'proved'
    except RecursionError:
        pass
    return None


def bump(d, k):
    d[k] = d.get(k, 0) + 1


class Search:
    """Random interpretation over a set of obligations."""

    def __init__(self, it, seed, tries, extra=()):
        self.it, self.seed, self.tries = it, seed, tries
        self.extra = list(extra)          # polynomials whose value makes an interesting limit
        self.evaluated = 0

    def valuations(self):
        for i in range(self.tries):
            s = '%s/%d' % (self.seed, i)
            v = rand.Val(self.it, s)
            yield v
            if self.extra:
                # limits at and around what the input asks for
                lims = set()
                try:
                    big = rand.Val(self.it, s, {'lim': 1 << 40})
                    for p in self.extra:
                        n = big.poly(p)
                        if 0 <= n < (1 << 30):
                            lims |= {n, max(0, n - 1), n + 1, max(0, n - 8), n + 8, max(0, n - 4)}
                except (rand.Taint, rand.Big):
                    pass
                for n in sorted(lims)[:8]:
                    yield rand.Val(self.it, s, {'lim': n})

    def run(self, obs, budget=20.0, hunt=60.0):
        """obs: obligations still open.  Marks refuted ones."""
        open_ = list(obs)
        t0 = time.time()
        for val in self.valuations():
            if not open_ or time.time() - t0 > budget:
                break
            self.evaluated += 1
            rest = []
            for ob in open_:
                try:
                    if val.dd(ob.pc):
                        a, b = val.value(ob.a), val.value(ob.b)
                        ob.n += 1
                        if a != b:
                            ob.status = 'refuted'
                            ob.witness = witness(val, a, b)
                            continue
                except (rand.Taint, rand.Big):
                    pass
                rest.append(ob)
            open_ = rest
        if hunt:
            share = max(6.0, hunt / max(len(open_), 1))
            for ob in open_:
                self.hunt(ob, share)

    def hunt(self, ob, budget):
        import direct

        def look(val):
            self.evaluated += 1
            try:
                if val.dd(ob.pc):
                    a, b = val.value(ob.a), val.value(ob.b)
                    ob.n += 1
                    if a != b:
                        ob.status = 'refuted'
                        ob.witness = witness(val, a, b)
                        return True
            except (rand.Taint, rand.Big):
                pass
            return False
        try:
            with dd.bounded(EFFORT):
                direct.hunt(self.it, ob, self.seed, budget, look)
        except dd.Effort:
            pass


def clip(x, n=200):
    s = repr(x)
    return s if len(s) <= n else s[:n] + '...'


def witness(val, a, b):
    inp = {}
    for at, v in list(val.av.items()):
        d = P.adesc(at)
        if d[0] == 'arg':
            inp[P.show_atom(at)] = v
    mem = {}
    for (s, w), bs in sorted(val.mem.items(), key=str):
        bs = bytearray(bs or bytes(8))
        for i in range(8):
            bs[i] = val.ovb.get((s, w * 8 + i), bs[i])
        mem.setdefault(s, {})[w * 8] = bs.hex()
    return dict(code=clip(a), spec=clip(b), inputs=inp, bytes={s: {str(k): x for k, x in list(m.items())[:40]} for s, m in mem.items()},
                big_endian=val.big, seed=str(val.seed))
