"""Directed random interpretation: from a sampled valuation towards one at which
two derived expressions differ.  The condition under which they differ is a
decision diagram over the guards; the cheapest set of guards to flip is read off
the diagram and the inputs those guards depend on are adjusted.  What is found
is an ordinary valuation of the inputs and is judged by evaluating both sides."""
import random
import time
import dd
import poly as P
import rand
from vals import *

INF = 1 << 30


def difference(it, ob):
    """Condition (over guards) under which the sides of an obligation may differ."""
    a, b = ob.a, ob.b
    if a[0] == 'B' and b[0] == 'B':
        return dd.AND(ob.pc, dd.XOR(a[1], b[1]))
    if a[0] == 'I' and b[0] == 'I':
        return dd.AND(ob.pc, dd.NOT(P.eq(a[1], b[1])))
    if a[0] == 'Q' and b[0] == 'Q':
        r, s = dd.FALSE, dd.FALSE
        for c1, p1 in a[1]:
            for c2, p2 in b[1]:
                if p1 == p2:
                    continue
                c = dd.AND(c1, c2)
                if c == dd.FALSE:
                    continue
                l1 = l2 = P.ZERO
                for p in p1:
                    l1 = P.add(l1, plen(p))
                for p in p2:
                    l2 = P.add(l2, plen(p))
                ne = dd.NOT(P.eq(l1, l2))
                r = dd.OR(r, dd.AND(c, ne))
                s = dd.OR(s, c)
        r, s = dd.AND(ob.pc, r), dd.AND(ob.pc, s)
        return r if r != dd.FALSE else s
    return ob.pc


class Over:
    """Chosen inputs of a valuation."""

    def __init__(self, seed):
        self.seed = seed
        self.fixed, self.bytes, self.flags = {}, {}, {}

    def val(self, it):
        v = rand.Val(it, self.seed, None, self.fixed)
        v.ovb = self.bytes
        v.flags = self.flags
        for k in ('big', 'native', 'chunk'):
            if k in self.flags:
                setattr(v, k, self.flags[k])
        return v

    def copy(self):
        o = Over(self.seed)
        o.fixed, o.bytes, o.flags = dict(self.fixed), dict(self.bytes), dict(self.flags)
        return o


class Move:
    def __init__(self, val, ov, rng):
        self.val, self.ov, self.rng = val, ov, rng

    def set_atom(self, a, v, depth=0):
        d = P.adesc(a)
        k = d[0]
        lo, hi = P.arange(a)
        if depth > 8 or not (lo <= v <= hi):
            return False
        if k == 'arg':
            self.ov.fixed[repr(d[1])] = v
            return True
        if k in ('by', 'cv'):
            n = 1 if k == 'by' else d[1]
            base, pos = (d[1], d[2]) if k == 'by' else (d[2], d[3])
            if not 0 <= v < 1 << (8 * n):
                return False
            p = self.val.poly(pos)
            for i, x in enumerate(v.to_bytes(n, 'big' if self.val.big else 'little')):
                self.ov.bytes[(repr(base), p + i)] = x
            return True
        if k == 'cvb':
            bs = v.to_bytes(len(d[2]), 'big' if self.val.big else 'little')
            return all(self.set_poly(x, y, depth + 1) for x, y in zip(d[2], bs))
        if k == 'bits':
            ok = True
            want = {}
            for i, b in enumerate(d[1]):
                x = (v >> i) & 1
                if b in (0, 1):
                    ok = ok and b == x
                elif b[0] == 'b':
                    want.setdefault(b[1], []).append((b[2], x))
                elif bool(x) != bool(self.val.dd(b[1])):
                    ok = False
            for at, l in want.items():
                cur = self.val.atom(at)
                for i, x in l:
                    cur = cur & ~(1 << i) | (x << i)
                ok = self.set_atom(at, cur, depth + 1) and ok
            return ok
        if k == 'div':
            return self.set_poly(d[1], v * d[2] + self.rng.choice((0, d[2] - 1, self.val.poly(d[1]) % d[2])), depth + 1)
        if k == 'val':
            return self.set_poly(d[1], v, depth + 1)
        if k == 'wrap':
            return self.set_poly(d[3], v, depth + 1)
        if k in ('popcnt', 'popcntx'):
            return self.set_poly(d[1], (1 << v) - 1 if v <= 64 else 0, depth + 1)
        if k == 'clen':
            self.ov.flags['chunk'] = v
            return True
        if k == 'shift' and d[1] == 'r':
            y = self.val.poly(d[4])
            return self.set_poly(d[3], v << y, depth + 1)
        return False

    def set_poly(self, p, v, depth=0):
        return self.shift_poly(p, v - self.val.poly(p), depth, True)

    def shift_poly(self, p, delta, depth=0, exact=False, up=None):
        """Change the value of p by delta (or at least that much in the given direction)."""
        if not delta:
            return True
        cand = []
        for m, c in p.t:
            k = self.val.dd(c)
            if not k or not m:
                continue
            for i, a in enumerate(m):
                o = k
                for j, b in enumerate(m):
                    if j != i:
                        o *= self.val.atom(b)
                if o:
                    cand.append((a, o))
        self.rng.shuffle(cand)
        # the length of the input is the easiest thing to change
        if self.rng.random() < 0.5:
            cand.sort(key=lambda x: P.adesc(x[0])[:2] != ('arg', ('LIM',)))
        for a, k in cand:
            q, r = divmod(delta, k)
            if r:
                if exact:
                    continue
                if k > 0:
                    q += delta > 0
                else:
                    q += delta < 0 and 1 or 0
                if (delta > 0) != (q * k > 0) or abs(q * k) < abs(delta):
                    q = -(-abs(delta) // abs(k)) * (1 if (delta > 0) == (k > 0) else -1)
            if self.set_atom(a, self.val.atom(a) + q, depth + 1):
                return True
        return False

    def set_var(self, v, want):
        d = dd.desc(v)
        k = d[0]
        r = self.rng
        if k == 'bit':
            return self.set_atom(d[1], self.val.atom(d[1]) ^ (1 << d[2]))
        if k == 'eqc':
            if want:
                return self.set_atom(d[1], d[2])
            lo, hi = P.arange(d[1])
            for x in r.sample((d[2] + 1, d[2] - 1, d[2] + 8, d[2] + 5), 4):
                if self.set_atom(d[1], x):
                    return True
            return self.set_atom(d[1], r.randint(lo, hi))
        if k == 'ge0':
            x = self.val.poly(d[1])
            sl = r.choice((0, 0, 0, 1, 7, 8))
            return self.shift_poly(d[1], -x + sl if want else -x - 1 - sl)
        if k == 'eq0':
            x = self.val.poly(d[1])
            return self.shift_poly(d[1], -x, exact=True) if want else self.shift_poly(d[1], r.choice((1, -1, 8, -8)))
        if k == 'var':
            if 'toperr' in repr(d[1]):
                return False
            self.ov.fixed[repr(d[1])] = want
            return True
        if k == 'native':
            self.ov.flags['native'] = want
            if want:
                self.ov.flags['big'] = False
            return True
        if k == 'hint':
            self.ov.flags[('hint', repr(d[1]))] = want
            return True
        if k == 'ext':
            self.ov.flags[('ext', rand.root_view(d[1]))] = want
            return True
        if k == 'contig':
            if want:
                self.ov.flags['chunk'] = 1 << 20
                self.ov.flags['whole'] = True
                self.ov.flags[('ext', rand.root_view(d[1]))] = True
            else:
                self.ov.flags[('ext', rand.root_view(d[1]))] = False
            return True
        if k == 'aligned':
            p = self.val.poly(d[3])
            b = (-p) % d[1]
            self.ov.flags[('base', repr(d[2]))] = b if want else b + r.randrange(1, max(2, d[1]))
            return True
        if k == 'borrow':
            self.ov.flags[('borrow', repr(d[1]))] = want
            return True
        return False


HARD = {'bit': 2, 'eqc': 2, 'ge0': 3, 'eq0': 3, 'var': 2, 'forall': 60, 'native': 2, 'hint': 2, 'ext': 2, 'contig': 3, 'aligned': 2, 'borrow': 1}


def flips(val, f, bias):
    """Cheapest set of guards to flip so that f holds: [(var, wanted value)]."""
    cost = {dd.TRUE: (0, None), dd.FALSE: (INF, None)}
    stack = [f]
    tv = {}
    while stack:
        n = stack[-1]
        if n in cost:
            stack.pop()
            continue
        lo, hi = dd.lo(n), dd.hi(n)
        todo = [x for x in (lo, hi) if x not in cost]
        if todo:
            stack += todo
            continue
        stack.pop()
        v = dd.topvar(n)
        t = tv.get(v)
        if t is None:
            try:
                t = 1 if val.var(v) else 0
            except (rand.Taint, rand.Big, KeyError):
                t = 2
            tv[v] = t
        if t == 2:
            cost[n] = (INF, None)
            continue
        same, other = (hi, lo) if t else (lo, hi)
        w = HARD.get(dd.desc(v)[0], 4) + bias.get(v, 0)
        a, b = cost[same][0], cost[other][0] + w
        cost[n] = (a, same) if a <= b else (min(b, INF), other)
    if cost[f][0] >= INF:
        return None
    out = []
    n = f
    while not dd.is_term(n):
        m = cost[n][1]
        v = dd.topvar(n)
        if bool(tv[v]) != (m == dd.hi(n)):
            out.append((v, m == dd.hi(n)))
        n = m
    return out


def hunt(it, ob, seed, budget, check):
    """Look for a valuation at which the obligation fails."""
    t0 = time.time()
    f = difference(it, ob)
    if f == dd.FALSE:
        f = ob.pc
    if f == dd.FALSE:
        return
    n = 0
    while time.time() - t0 < budget:
        n += 1
        rng = random.Random('%s/hunt/%d' % (seed, n))
        ov = Over('%s/h%d' % (seed, n))
        bias = {}
        stuck = 0
        for step in range(40):
            val = ov.val(it)
            fl = flips(val, f, bias)
            if fl is None:
                break
            if not fl:
                if check(val):
                    return
                # equal here after all: go elsewhere
                stuck += 1
                if stuck > 3:
                    break
                for b in list(ov.bytes):
                    if rng.random() < 0.2:
                        ov.bytes.pop(b)
                ov.seed = '%s/h%d/%d' % (seed, n, step)
                continue
            for v, want in (fl if rng.random() < 0.5 else fl[:1]):
                bias[v] = bias.get(v, 0) + rng.choice((0, 1, 1, 2))
                try:
                    if not Move(val, ov, rng).set_var(v, want):
                        bias[v] += 4
                    val = ov.val(it)
                except (rand.Taint, rand.Big, ZeroDivisionError):
                    bias[v] += 6
                    val = ov.val(it)
            if time.time() - t0 > budget:
                break
