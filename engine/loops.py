"""Inductive treatment of loops.

From two consecutive abstract states at a loop head the analysis conjectures
the state after K units of progress (K iterations, or K consumed bytes), checks
that the conjecture holds on entry and is preserved by one further analysis of
the body, and reads the loop's exits off the inductive state.  Nothing is
assumed that is not re-established at the back edge; when any step fails the
caller falls back to iterating.
"""
import dd
import poly as P
import vals as V
from vals import *

SMALL = (1, -1, 2, -2, 4, -4, 8, -8, 16, -16, 24, -24)


class Fail(Exception):
    pass


class Gen:
    def __init__(self, it, f, fid, h, s0, s1):
        self.it, self.f, self.fid, self.h = it, f, fid, h
        self.s0, self.s1 = s0, s1
        it.fresh += 1
        self.Kd = ('loop', f['def'], h, it.fresh)
        self.K = P.A(self.Kd, 0, P.BIGLEN)
        self.Ka = P.single_atom(self.K)
        self.progress = self.bounded = False
        self.stuck = None        # when one round leaves everything as it was

    # ---------------------------------------------------------------- measure
    def simp(self, p):
        return self.it.assume_lits(p, self.s1.pc)

    def zpairs(self, a, b, out):
        if a is b or a == b:
            return
        t = a[0]
        if t != b[0]:
            return
        if t == 'Z':
            out.append((a[2], b[2]))
        elif t == 'S' and len(a[1]) == len(b[1]):
            for x, y in zip(a[1], b[1]):
                self.zpairs(x, y, out)
        elif t == 'E' and len(a[1]) == len(b[1]):
            for x, y in zip(a[1], b[1]):
                for u, v in zip(x[2], y[2]):
                    self.zpairs(u, v, out)
        elif t == 'X':
            self.zpairs(a[1], b[1], out)
        elif t == 'R':
            pass

    def run(self):
        s0, s1 = self.s0, self.s1
        self.changed = []
        zs = []
        for k, y in s1.mem.items():
            x = s0.mem.get(k)
            if x is None:
                if y[0] == 'U':
                    continue
                raise Fail('new cell')
            if x is y or x == y:
                continue
            self.changed.append(k)
            self.zpairs(x, y, zs)
        if not self.changed:
            self.stuck = dd.TRUE
            raise Fail('no change')
        self.stuck = dd.FALSE
        self.D = None
        for a, b in zs:
            d = self.simp(P.sub(b, a))
            if d != P.ZERO and P.const_val(d) is None:
                self.D = d
                break
        if self.D is not None:
            self.stuck = P.eq(self.D, P.ZERO)
            self.datoms = set()
            for m, c in self.D.t:
                self.datoms |= set(m)
            self.dvars = set(P.psupport(self.D))
        H = {}
        for k in self.changed:
            ty = self.f['locals'][k[1]] if k[0] == self.fid and isinstance(k[1], int) else None
            H[k] = self.gen(s0.mem[k], s1.mem[k], ty)
        z = P.Subst({self.Ka: P.ZERO})
        for k in self.changed:
            if H[k][0] == 'T':
                continue
            g0 = V.subst(H[k], z)
            if g0 != s0.mem[k] and not equal(self.it, s0.pc, g0, s0.mem[k]):
                raise Fail('base %s: %s vs %s' % (k, show(g0)[:200], show(s0.mem[k])[:200]))
        self.H = H
        # ------------------------------------------------ candidate invariants
        cands = []
        for k in self.changed:
            ty = self.f['locals'][k[1]] if k[0] == self.fid and isinstance(k[1], int) else None
            self.cands(H[k], ty, cands)
        inv = []
        for c in cands:
            c = P.ge(c, P.ZERO)
            if c == dd.TRUE or c in inv:
                continue
            if P.prove(s0.pc, z.bdd(c)):
                inv.append(c)
        it = self.it
        for attempt in range(4):
            mark = it.mark()
            pc = dd.AND(s0.pc, dd.conj(inv))
            mem = dict(s0.mem)
            mem.update(H)
            from interp import St
            head = St(pc, mem)
            save = getattr(it, '_inloop', None)
            it._inloop = (self.fid, self.h)
            try:
                r = it.region(self.f, self.fid, it.p.cfg(self.f).loops[self.h], self.h, head.copy())
            finally:
                it._inloop = save
            back = r.pop(('back', self.h), None)
            bad = []
            if back is not None and back.pc != dd.FALSE and not P.infeasible(back.pc, 300):
                step = self.step(back)
                sub = P.Subst({self.Ka: P.add(self.K, step)})
                for c in inv:
                    if not P.prove(back.pc, sub.bdd(c)):
                        bad.append(c)
                if not bad:
                    self.check_back(back, head, sub)
                    self.progress = P.prove(back.pc, P.ge(step, P.ONE))
                    self.contpc = back.pc
            else:
                self.progress = True
                self.contpc = dd.FALSE
            if not bad:
                self.headpc = pc
                self.inv = inv
                self.bounded = self.contpc == dd.FALSE or self.limited(inv)
                return self.exits(r, pc)
            it.rollback(mark)
            inv = [c for c in inv if c not in bad]
        raise Fail('invariant')

    def limited(self, inv):
        """Whether the rounds go on only while the progress made is below something fixed."""
        def bound(v):
            pr = P.PRED.get(v)
            if pr is None:
                return False
            for m, c in pr[1].t:
                if m == (self.Ka,):
                    if not (dd.is_term(c) and dd.val(c) < 0):
                        return False
                elif self.Ka in m or any(self.Ka in P.atom_deep(a) for a in m):
                    return False
            return any(m == (self.Ka,) for m, _ in pr[1].t)
        for c in list(inv) + [self.contpc]:
            f = dd.forced(c)
            if any(val and bound(v) for v, val in f.items()):
                return True
            # K >= x refuted is a bound as well
            for v, val in f.items():
                pr = P.PRED.get(v)
                if pr is not None and not val and pr[0] == 'ge0':
                    q = P.scale(pr[1], -1)
                    ok = any(m == (self.Ka,) and dd.is_term(x) and dd.val(x) < 0 for m, x in q.t)
                    if ok and not any(m != (self.Ka,) and (self.Ka in m or any(self.Ka in P.atom_deep(a) for a in m)) for m, _ in q.t):
                        return True
        return False

    def step(self, back):
        if self.D is None:
            return P.ONE
        zs = []
        for k in self.changed:
            if k in back.mem:
                self.zpairs(self.H[k], back.mem[k], zs)
        for a, b in zs:
            d = self.it.assume_lits(P.sub(b, a), back.pc)
            if d != P.ZERO:
                return d
        raise Fail('no step')

    def check_back(self, back, head, sub):
        for k, y in back.mem.items():
            x = head.mem.get(k)
            if x is None:
                if y[0] == 'U':
                    continue
                raise Fail('new cell at back edge')
            if k in self.H:
                if x[0] == 'T':
                    continue
                x = V.subst(x, sub)
            if x is y or x == y:
                continue
            if not equal(self.it, back.pc, x, y):
                raise Fail('not preserved %s: %s vs %s' % (k, show(x)[:300], show(y)[:300]))

    # ---------------------------------------------------------------- conjecture
    def aff(self, p0, p1):
        """Poly in K going through p0 (K=0) and p1 (one step)."""
        if p0 == p1:
            return p0
        d = self.simp(P.sub(p1, p0))
        if self.D is None:
            c = P.const_val(d)
            if c is None:
                # the same number of bytes in every round, though not a fixed one
                return P.add(p0, P.mul(self.K, d))
            return P.add(p0, P.scale(self.K, c))
        if d == P.ZERO:
            return p0
        for a in SMALL:
            if d == P.scale(self.D, a):
                return P.add(p0, P.scale(self.K, a))
        raise Fail('not affine: %s' % P.show(d)[:80])

    def affsub(self, q):
        """Replace D by K in q."""
        q = self.simp(q)

        def free(r):
            if P.psupport(r) & self.dvars:
                return False
            for m, c in r.t:
                for a in m:
                    if a in self.datoms and a not in self.base_atoms():
                        return False
            return True
        if free(q):
            return q
        for a in SMALL:
            r = P.sub(q, P.scale(self.D, a))
            if free(r):
                return P.add(r, P.scale(self.K, a))
        raise Fail('shape')

    def base_atoms(self):
        b = getattr(self, '_base', None)
        if b is None:
            # atoms of D that also occur in the entry state are not markers
            seen = set()
            for k in self.changed:
                seen |= atoms_in(self.s0.mem[k])
            self._base = b = {a for a in self.datoms if P.adesc(a)[0] not in ('clen', 'top') or a in seen}
        return b

    def gen(self, a, b, ty):
        if a is b or a == b:
            return a
        t = a[0]
        if t == 'T' or b[0] == 'T':
            self.it.lost += 1
            return top('loop')
        if t != b[0]:
            raise Fail('kind %s/%s' % (t, b[0]))
        ti = self.it.p.ty(ty) if ty is not None else None
        if t == 'I':
            return I(self.aff(a[1], b[1]))
        if t == 'S':
            if len(a[1]) != len(b[1]):
                raise Fail('arity')
            tys = [None] * len(a[1])
            if ti is not None:
                if ti['k'] == 'tuple':
                    tys = ti['fields']
                elif ti['k'] == 'adt' and ti['adt'] == 'struct' and len(ti['variants'][0]['fields']) == len(tys):
                    tys = [x[1] for x in ti['variants'][0]['fields']]
            return ('S', tuple(self.gen(x, y, u) for x, y, u in zip(a[1], b[1], tys)))
        if t == 'E':
            if len(a[1]) != len(b[1]):
                raise Fail('variants')
            out = []
            for x, y in zip(a[1], b[1]):
                if x[0] != y[0] or x[1] != y[1]:
                    raise Fail('variant conditions')
                tys = [None] * len(x[2])
                if ti is not None and ti['k'] == 'adt' and ti['adt'] == 'enum':
                    tys = [z[1] for z in ti['variants'][x[0]]['fields']]
                out.append((x[0], x[1], tuple(self.gen(u, v, w) for u, v, w in zip(x[2], y[2], tys))))
            return ('E', tuple(out))
        if t == 'X':
            return ('X', self.gen(a[1], b[1], None))
        if t == 'Z':
            if a[1] != b[1] or a[3] != b[3]:
                raise Fail('source')
            return ('Z', a[1], self.aff(a[2], b[2]), a[3])
        if t == 'V':
            el = ti['args'][0][1] if ti is not None and ti['k'] == 'adt' and ti.get('args') else None
            return ('V', self.gseq(a[1], b[1], el), self.gseq(a[2], b[2], el))
        if t == 'Q':
            el = ti.get('elem') if ti is not None else None
            return self.gseq(a, b, el)
        if t == 'R':
            if len(a[1]) != len(b[1]):
                raise Fail('ref alternatives')
            out = []
            for (c1, r1, p1), (c2, r2, p2) in zip(a[1], b[1]):
                if c1 != c2 or r1[0] != r2[0] or len(p1) != len(p2):
                    raise Fail('ref shape')
                if r1[0] == 'c':
                    if r1 != r2:
                        raise Fail('ref root')
                    r = r1
                else:
                    to = ti.get('to') if ti is not None else None
                    r = ('v', self.gen(r1[1], r2[1], to))
                path = []
                for e1, e2 in zip(p1, p2):
                    if e1 == e2:
                        path.append(e1)
                    elif e1[0] == e2[0] and e1[0] in ('at', 'sub'):
                        path.append((e1[0],) + tuple(self.aff(x, y) for x, y in zip(e1[1:], e2[1:])))
                    else:
                        raise Fail('path')
                out.append((c1, r, tuple(path)))
            return ('R', tuple(out))
        if t == 'J' and a[1] == b[1] and len(a[2]) == len(b[2]):
            out = []
            for x, y in zip(a[2], b[2]):
                if x == y:
                    out.append(x)
                elif isinstance(x, P.Poly) and isinstance(y, P.Poly):
                    out.append(self.aff(x, y))
                elif isinstance(x, tuple) and isinstance(y, tuple) and x and y and x[0] == y[0] == 'Q':
                    out.append(self.gseq(x, y, None))
                else:
                    raise Fail('object')
            return ('J', a[1], tuple(out))
        raise Fail('kind ' + t)

    def gseq(self, a, b, el):
        if a == b:
            return a
        if len(a[1]) != 1 or len(b[1]) != 1:
            raise Fail('sequence alternatives')
        pa, pb = a[1][0][1], b[1][0][1]
        if len(pa) == len(pb) and all(x[0] == y[0] for x, y in zip(pa, pb)) and all(self.same_src(x, y) for x, y in zip(pa, pb)):
            try:
                out = []
                for x, y in zip(pa, pb):
                    if x == y:
                        out.append(x)
                    elif x[0] == 'el':
                        raise Fail('literal')
                    else:
                        out.append(tuple(self.aff(u, v) if isinstance(u, P.Poly) else u for u, v in zip(x, y)))
                return ('Q', ((dd.TRUE, norm_pieces(out)),))
            except Fail:
                pass
        if self.D is not None:
            out = []
            for p in pb:
                if p[0] == 'el':
                    if p in pa:
                        out.append(p)
                        continue
                    raise Fail('literal')
                out.append(tuple(self.affsub(u) if isinstance(u, P.Poly) else u for u in p))
            return ('Q', ((dd.TRUE, norm_pieces(out)),))
        # counting: align pieces, unmatched ones of b start empty
        out = []
        i = 0
        pbl = list(pb)
        if pbl and pbl[-1][0] == 'el' and el is not None and (not pa or pa[-1] != pbl[-1]):
            # split the freshly appended element off a literal run
            last = pbl[-1]
            keep = pa[-1][1] if pa and pa[-1][0] == 'el' and last[1][:len(pa[-1][1])] == pa[-1][1] else ()
            new = last[1][len(keep):]
            if len(new) == 1:
                src = elem_source(self.it, el, new[0])
                if src is not None:
                    pbl[-1:] = ([('el', keep)] if keep else []) + [('ar', el, src[0], src[1], P.ONE)]
        for p in pbl:
            if i < len(pa) and pa[i][0] == p[0] and self.same_src(pa[i], p):
                x = pa[i]
                i += 1
                if x == p:
                    out.append(p)
                elif p[0] == 'el':
                    raise Fail('literal')
                else:
                    out.append(tuple(self.aff(u, v) if isinstance(u, P.Poly) else u for u, v in zip(x, p)))
            else:
                if p[0] == 'el':
                    raise Fail('literal')
                c = P.const_val(plen(p))
                if c is None:
                    raise Fail('piece')
                out.append(with_len(p, P.scale(self.K, c)))
        if i != len(pa):
            raise Fail('pieces')
        return ('Q', ((dd.TRUE, norm_pieces(out)),))

    def same_src(self, x, y):
        return all(isinstance(u, P.Poly) or u == v for u, v in zip(x, y)) if x[0] != 'el' else True

    def cands(self, v, ty, out):
        t = v[0]
        ti = self.it.p.ty(ty) if ty is not None else None
        if t == 'I':
            if ti is None or ti['k'] == 'uint':
                out.append(v[1])
        elif t == 'S':
            tys = [None] * len(v[1])
            if ti is not None:
                if ti['k'] == 'tuple':
                    tys = ti['fields']
                elif ti['k'] == 'adt' and ti['adt'] == 'struct' and len(ti['variants'][0]['fields']) == len(tys):
                    tys = [x[1] for x in ti['variants'][0]['fields']]
                    if ti['def'].endswith('ops::Range') and v[1][0][0] == 'I' and v[1][1][0] == 'I':
                        out.append(P.sub(v[1][1][1], v[1][0][1]))
            for x, u in zip(v[1], tys):
                self.cands(x, u, out)
        elif t == 'E':
            for _, c, fs in v[1]:
                if c == dd.TRUE:
                    for x in fs:
                        self.cands(x, None, out)
        elif t == 'Z':
            out.append(P.sub(v[3], v[2]))
        elif t == 'V':
            self.cands(v[1], None, out)
            self.cands(v[2], None, out)
        elif t == 'Q':
            for c, ps in v[1]:
                for p in ps:
                    if p[0] != 'el':
                        out.append(plen(p))
        elif t == 'X':
            self.cands(v[1], None, out)
        elif t == 'J':
            for x in v[2]:
                if isinstance(x, tuple) and x and x[0] == 'Q':
                    self.cands(x, None, out)
                elif isinstance(x, P.Poly):
                    out.append(x)
        elif t == 'R':
            for c, r, p in v[1]:
                if r[0] == 'v':
                    self.cands(r[1], None, out)
                for e in p:
                    if e[0] == 'sub':
                        out.append(e[2])

    # ---------------------------------------------------------------- exits
    def exits(self, r, headpc):
        it = self.it
        res = {}
        conds = []
        unpinned = False
        for t, e in r.items():
            u = self.pin(e.pc)
            if u is not None:
                s = P.Subst({self.Ka: u})
                st = self.apply(e, s)
                st.pc = self.clean(st.pc)
                res[t] = st
                conds.append(st.pc)
            else:
                dep = [k for k, v in e.mem.items() if k in self.live_keys(e) and mentions(v, self.Ka)]
                if dep:
                    unpinned = True
                    break
                c = self.project(e.pc)
                if c is None:
                    unpinned = True
                    break
                st = e.copy()
                st.pc = self.clean(c)
                for k in list(st.mem):
                    if mentions(st.mem[k], self.Ka):
                        st.mem[k] = top('loop')
                res[t] = st
                conds.append(st.pc)
        if not unpinned:
            ok = True
            for i in range(len(conds)):
                for j in range(i):
                    x = dd.AND(conds[i], conds[j])
                    if x != dd.FALSE and not P.infeasible(x, 400):
                        ok = False
            if ok:
                # exclusive exits of a terminating loop: the last one is exact
                return res
        if self.D is None:
            c = dd.restrict(self.contpc, headpc)
            name = least(self.K, c)
            s = P.Subst({self.Ka: name})
            res = {}
            for t, e in r.items():
                st = self.apply(e, s)
                st.pc = self.clean(st.pc)
                res[t] = st
            return res
        # chunk-dependent amount of progress: an unknown
        it.ntop += 1
        s = P.Subst({self.Ka: P.A(('top', 'progress', it.ntop), 0, P.BIGLEN)})
        return {t: self.apply(e, s) for t, e in r.items()}

    def live_keys(self, e):
        return e.mem

    def apply(self, e, s):
        from interp import St
        mem = {}
        memo = {}
        for k, v in e.mem.items():
            mem[k] = V.subst(v, s, memo) if mentions(v, self.Ka) else v
        return St(s.bdd(e.pc), mem)

    def clean(self, pc):
        """Drop literals the loop's entry condition already decides."""
        base = self.s0.pc
        for v in sorted(dd.support(pc)):
            if v not in P.PRED:
                continue
            x = dd.mk(v, dd.FALSE, dd.TRUE)
            f = dd.forced(pc, {v})
            if v in f and not dd.implies(base, x if f[v] else dd.NOT(x)):
                lit = x if f[v] else dd.NOT(x)
                rest = dd.exists(pc, [v])
                if P.prove(dd.AND(base, rest), lit):
                    pc = rest
        return dd.AND(base, pc)

    def pin(self, pc):
        sup = dd.support(pc)
        f = dd.forced(pc, sup)
        tried = set()
        for v, b in f.items():
            pr = P.PRED.get(v)
            if pr is None or self.Ka not in P.var_atoms(v):
                continue
            kind, p, rep = pr
            p = P.assign(p, f)
            for q in (p, P.add(p, P.ONE), P.sub(p, P.ONE)):
                k = None
                ok = True
                for m, c in q.t:
                    if self.Ka in m:
                        if m == (self.Ka,) and dd.is_term(c) and dd.val(c) in (1, -1):
                            k = dd.val(c)
                        else:
                            ok = False
                    elif any(self.Ka in P.atom_deep(a) for a in m):
                        ok = False
                if not ok or k is None:
                    continue
                u = P.sub(self.K, q) if k == 1 else P.add(self.K, q)
                if u in tried:
                    continue
                tried.add(u)
                if P.prove(pc, P.eq(self.K, u)):
                    return u
        return None

    def project(self, pc):
        """Condition free of K implied by pc (exists K. pc), or None."""
        sup = dd.support(pc)
        kv = [v for v in sup if self.Ka in P.var_atoms(v)]
        if not kv:
            return pc
        drop = [v for v in kv if v not in P.PRED]
        pc = dd.exists(pc, drop) if drop else pc
        out = dd.FALSE
        n = 0
        other = [v for v in sup if v not in kv]
        for lits in dd.paths(pc, 40):
            n += 1
            if n >= 40:
                return None
            cons, dis = P.lit_cons({v: b for v, b in lits.items() if v in P.PRED})
            # only constraints that mention K are eliminated; the others stay
            m = (self.Ka,)
            for c in cons:
                for mm in c:
                    if mm != m and self.Ka in mm:
                        return None
                    if mm != m and any(self.Ka in P.atom_deep(a) for a in mm):
                        return None
            cons = cons + [{m: 1}]
            pos = [c for c in cons if c.get(m, 0) > 0]
            neg = [c for c in cons if c.get(m, 0) < 0]
            cube = dd.TRUE
            for v, b in lits.items():
                if v not in kv:
                    x = dd.mk(v, dd.FALSE, dd.TRUE)
                    cube = dd.AND(cube, x if b else dd.NOT(x))
            for a in pos:
                for b in neg:
                    ka, kb = a[m], -b[m]
                    c = {}
                    for x, k in a.items():
                        if x != m:
                            c[x] = c.get(x, 0) + k * kb
                    for x, k in b.items():
                        if x != m:
                            c[x] = c.get(x, 0) + k * ka
                    c = P._norm(c)
                    p = P.ZERO
                    for x, k in c.items():
                        t = P.const(k)
                        for at in x:
                            t = P.mul(t, P.of_atom(at))
                        p = P.add(p, t)
                    cube = dd.AND(cube, P.ge0(p))
            out = dd.OR(out, cube)
        return out


BOUNDK = P.A(('bound', 'k'), 0, P.BIGLEN)


def least(K, cont):
    """The least k >= 0 at which the continuation condition fails."""
    s = P.Subst({P.single_atom(K): BOUNDK})
    f = s.bdd(cont)
    kb = P.single_atom(BOUNDK)
    # `until p - k is 0` is `while p - k > 0` when p >= 0
    for v in sorted(dd.support(f)):
        d = dd.desc(v)
        if d[0] != 'eq0' or dd.AND(f, dd.mk(v, dd.FALSE, dd.TRUE)) != dd.FALSE:
            continue
        q = d[1]
        for x in (q, P.neg(q)):
            r = P.add(x, BOUNDK)
            if kb not in P.atoms_deep(r) and P.prove(dd.TRUE, P.ge0(r)):
                g = P.ge0(P.sub(x, P.ONE))
                f = P.Subst({}, {v: dd.NOT(g)}).bdd(f)
                break
    return P.A(('least', ('d', f)), 0, P.BIGLEN)


def elem_source(it, ty, v):
    """(stream, pos) such that v is the decoding of ty there."""
    p = first_pos(v)
    if p is None:
        return None
    s, pos = p
    for off in (0,):
        q = P.sub(pos, P.const(off))
        if it.arel(ty, s, q) == v:
            return s, q
    return None


def first_pos(v):
    if v[0] == 'I':
        a = P.single_atom(v[1])
        if a is not None:
            d = P.adesc(a)
            if d[0] == 'cv':
                return d[2], d[3]
            if d[0] == 'by':
                return d[1], d[2]
        return None
    if v[0] == 'S':
        for x in v[1]:
            r = first_pos(x)
            if r is not None:
                return r
    if v[0] == 'Q':
        for c, ps in v[1]:
            for p in ps:
                if p[0] == 'in':
                    return p[1], p[2]
                if p[0] == 'el':
                    return first_pos(p[1][0])
    if v[0] == 'N':
        return first_pos(v[3])
    return None


def mentions(v, a, memo=None):
    return a in atoms_in(v)


_ai = {}


def atoms_in(v):
    k = id(v)
    r = _ai.get(k)
    if r is not None and r[0] is v:
        return r[1]
    s = frozenset(_atoms_in(v))
    if len(_ai) > 200000:
        _ai.clear()
    _ai[k] = (v, s)
    return s


def _atoms_in(v):
    out = set()
    t = v[0]
    if t == 'I':
        return P.atoms_deep(v[1])
    if t == 'B':
        return P.bdd_atoms(v[1])
    if t == 'S':
        for x in v[1]:
            out |= atoms_in(x)
    elif t == 'E':
        for _, c, fs in v[1]:
            out |= P.bdd_atoms(c)
            for x in fs:
                out |= atoms_in(x)
    elif t == 'Q':
        for c, ps in v[1]:
            out |= P.bdd_atoms(c)
            for p in ps:
                if p[0] == 'el':
                    for x in p[1]:
                        out |= atoms_in(x)
                elif p[0] == 'rep':
                    out |= atoms_in(p[1]) | P.atoms_deep(p[2])
                else:
                    for x in p:
                        if isinstance(x, P.Poly):
                            out |= P.atoms_deep(x)
    elif t == 'R':
        for c, r, p in v[1]:
            out |= P.bdd_atoms(c)
            if r[0] == 'v':
                out |= atoms_in(r[1])
            for e in p:
                for x in e:
                    if isinstance(x, P.Poly):
                        out |= P.atoms_deep(x)
    elif t == 'V':
        out |= atoms_in(v[1]) | atoms_in(v[2])
    elif t == 'X':
        out |= atoms_in(v[1])
    elif t == 'P':
        out |= P.bdd_atoms(v[1]) | atoms_in(v[2])
    elif t == 'N':
        out |= atoms_in(v[3])
    elif t == 'Z':
        out |= P.atoms_deep(v[2]) | P.atoms_deep(v[3])
    elif t == 'OA':
        for c, o in v[1]:
            out |= P.bdd_atoms(c) | atoms_in(o)
    elif t in ('O', 'J'):
        for x in v[2]:
            if isinstance(x, P.Poly):
                out |= P.atoms_deep(x)
            elif isinstance(x, tuple) and x and isinstance(x[0], str) and len(x[0]) <= 2 and len(x) > 1:
                out |= atoms_in(x)
    return out


# -------------------------------------------------------------------- equality
def peq(pc, a, b):
    if a == b:
        return True
    d = P.sub(a, b)
    if all(dd.AND(pc, dd.map1('ne0', lambda x: 1 if x != 0 else 0, c)) == dd.FALSE for _, c in d.t):
        return True
    e = P.eq(a, b)
    return e == dd.TRUE or P.prove(pc, e)


def ceq(pc, a, b):
    if a == b:
        return True
    x = dd.XOR(a, b)
    y = dd.AND(pc, x)
    if y == dd.FALSE:
        return True
    y = dd.AND(y, P.ladders(y))
    if y == dd.FALSE:
        return True
    z = narrowed(y, a, b)
    if z is not None and (z == dd.FALSE or P.infeasible(z, 1500)):
        return True
    if dd.size(y) > 300:
        return False
    if P.infeasible(y, 400):
        return True
    return P.prove(pc, dd.NOT(x))


def direct(v):
    """Atoms a predicate is directly about."""
    e = P.PRED.get(v)
    return {x for m, _ in e[1].t for x in m} if e else set()


def common(x):
    """Atoms that occur in nearly every condition."""
    d = P.adesc(x)
    return d[0] == 'arg' and (d[1] == ('LIM',) or 'attr' in str(d[1]))


def narrowed(y, a, b, rounds=1):
    """y without the predicates that have nothing to do with those only one of
    a and b tests (existentially dropped), or None."""
    sa, sb = dd.support(a), dd.support(b)
    odd = [v for v in set(sa) ^ set(sb) if v in P.PRED]
    if not odd:
        return None
    seed = set()
    for v in odd:
        seed |= direct(v)
    keep = set(odd)
    for _ in range(rounds):
        seed = {x for x in seed if not common(x)}
        more = set()
        for v in dd.support(y):
            if v not in keep and v in P.PRED and direct(v) & seed:
                keep.add(v)
                more |= direct(v)
        seed = more
    for v in list(keep):
        e = P.PRED.get(v)
        if e is not None:
            keep |= set(P.psupport(e[1]))
    drop = [v for v in dd.support(y) if v not in keep]
    return dd.exists(y, drop) if drop else y


def equal(it, pc, a, b):
    """True only if a and b are the same value wherever pc holds."""
    if a is b or a == b or pc == dd.FALSE:
        return True
    ta, tb = a[0], b[0]
    if ta == 'T' or tb == 'T':
        return False
    if ta == 'P' or tb == 'P' or ta == 'U' or tb == 'U':
        ca, va = init_of(a)
        cb, vb = init_of(b)
        if not ceq(pc, ca, cb):
            return False
        x = dd.AND(pc, ca)
        if va is None or vb is None:
            return x == dd.FALSE
        return equal(it, x, va, vb)
    if ta != tb and not {ta, tb} <= {'O', 'OA'}:
        return False
    if ta == 'I':
        return peq(pc, a[1], b[1])
    if ta == 'B':
        return ceq(pc, a[1], b[1])
    if ta == 'S':
        return len(a[1]) == len(b[1]) and all(equal(it, pc, x, y) for x, y in zip(a[1], b[1]))
    if ta == 'E':
        da, db = {x[0]: x for x in a[1]}, {x[0]: x for x in b[1]}
        for v in set(da) | set(db):
            x, y = da.get(v), db.get(v)
            cx, cy = x[1] if x else dd.FALSE, y[1] if y else dd.FALSE
            if not ceq(pc, cx, cy):
                return False
            if x and y:
                p = dd.AND(pc, cx)
                if p != dd.FALSE and not all(equal(it, p, u, w) for u, w in zip(x[2], y[2])):
                    return False
        return True
    if ta == 'V':
        return equal(it, pc, a[1], b[1])
    if ta == 'X':
        return equal(it, pc, a[1], b[1])
    if ta == 'N':
        if a[2] == b[2]:
            return equal(it, pc, a[3], b[3])
        x, y = it.bits_of(a, a[1], pc), it.bits_of(b, b[1], pc)
        return x is not None and x == y
    if ta == 'Z':
        return a[1] == b[1] and peq(pc, a[2], b[2]) and peq(pc, a[3], b[3])
    if ta == 'Q':
        for c1, p1 in a[1]:
            for c2, p2 in b[1]:
                p = dd.AND(pc, dd.AND(c1, c2))
                if p == dd.FALSE or p1 == p2:
                    continue
                if not pieces_equal(it, p, p1, p2) and not P.infeasible(p, 200):
                    return False
        return True
    if ta == 'R':
        if len(a[1]) == len(b[1]) and all(x[1] == y[1] and x[1][0] == 'c' for x, y in zip(a[1], b[1])):
            for (c1, r1, p1), (c2, r2, p2) in zip(a[1], b[1]):
                if not ceq(pc, c1, c2) or len(p1) != len(p2):
                    return False
                for e1, e2 in zip(p1, p2):
                    if e1 == e2:
                        continue
                    if e1[0] != e2[0] or len(e1) != len(e2):
                        return False
                    for x, y in zip(e1[1:], e2[1:]):
                        if x != y and not (isinstance(x, P.Poly) and isinstance(y, P.Poly) and peq(dd.AND(pc, c1), x, y)):
                            return False
            return True
        if all(x[1][0] == 'v' for x in a[1]) and all(x[1][0] == 'v' for x in b[1]):
            from interp import St
            s = St(pc, {})
            for c1, r1, p1 in a[1]:
                for c2, r2, p2 in b[1]:
                    p = dd.AND(pc, dd.AND(c1, c2))
                    if p == dd.FALSE:
                        continue
                    if not equal(it, p, it.read(s, r1, p1), it.read(s, r2, p2)) and not P.infeasible(p, 200):
                        return False
            return True
        return False
    if ta in ('O', 'OA') and tb in ('O', 'OA'):
        for c1, o1 in oalts(a):
            for c2, o2 in oalts(b):
                if o1 != o2:
                    p = dd.AND(pc, dd.AND(c1, c2))
                    if p == dd.FALSE:
                        continue
                    if o1[1] == o2[1] and len(o1[2]) == len(o2[2]) and all(
                            x == y or (isinstance(x, tuple) and isinstance(y, tuple) and isinstance(x[0], str) and
                                       equal(it, p, x, y)) for x, y in zip(o1[2], o2[2])):
                        continue
                    if not P.infeasible(p, 200):
                        return False
        return True
    if ta == 'J' and a[1] == b[1] and len(a[2]) == len(b[2]):
        for x, y in zip(a[2], b[2]):
            if x == y:
                continue
            if isinstance(x, P.Poly) and isinstance(y, P.Poly):
                if not peq(pc, x, y):
                    return False
            elif isinstance(x, tuple) and isinstance(y, tuple) and x and y and isinstance(x[0], str) and len(x[0]) <= 2 and len(x) > 1:
                if not equal(it, pc, x, y):
                    return False
            else:
                return False
        return True
    return False


def pieces_equal(it, pc, a, b, depth=0):
    """Element-wise equality of two piece lists under pc."""
    a, b = list(a), list(b)
    if depth > 30:
        return False
    # drop provably empty pieces
    while a and plen(a[0]) != P.ZERO and a[0][0] != 'el' and P.prove(pc, P.le(plen(a[0]), P.ZERO)):
        a.pop(0)
    while b and plen(b[0]) != P.ZERO and b[0][0] != 'el' and P.prove(pc, P.le(plen(b[0]), P.ZERO)):
        b.pop(0)
    if not a and not b:
        return True
    if not a or not b:
        rest = a or b
        return all(p[0] != 'el' and P.prove(pc, P.le(plen(p), P.ZERO)) for p in rest)
    x, y = a[0], b[0]
    lx, ly = plen(x), plen(y)
    if peq(pc, lx, ly):
        return piece_equal(it, pc, x, y, lx) and pieces_equal(it, pc, a[1:], b[1:], depth + 1)
    if P.prove(pc, P.le(lx, ly)):
        h, t = split_piece(y, lx)
        return h is not None and piece_equal(it, pc, x, h, lx) and pieces_equal(it, pc, a[1:], [t] + b[1:], depth + 1)
    if P.prove(pc, P.le(ly, lx)):
        h, t = split_piece(x, ly)
        return h is not None and piece_equal(it, pc, h, y, ly) and pieces_equal(it, pc, [t] + a[1:], b[1:], depth + 1)
    c = P.le(lx, ly)
    if depth < 6:
        return pieces_equal(it, dd.AND(pc, c), a, b, depth + 3) and pieces_equal(it, dd.AND(pc, dd.NOT(c)), a, b, depth + 3)
    return False


def split_piece(p, n):
    L = plen(p)
    h, t = piece_slice(p, P.ZERO, n), piece_slice(p, n, P.sub(L, n))
    if h is None or t is None:
        return None, None
    return h, t


def piece_equal(it, pc, x, y, n):
    if x == y or peq(pc, n, P.ZERO):
        return True
    if x[0] == y[0]:
        if x[0] == 'in' and x[1] == y[1]:
            return peq(pc, x[2], y[2])
        if x[0] in ('ar', 'oq') and x[1:3] == y[1:3]:
            return peq(pc, x[3], y[3])
        if x[0] == 'el' and len(x[1]) == len(y[1]):
            return all(equal(it, pc, u, v) for u, v in zip(x[1], y[1]))
        if x[0] == 'rep':
            return equal(it, pc, x[1], y[1])
    k = P.const_val(n)
    if k is not None and k <= 64:
        return all(equal(it, pc, piece_at(x, P.const(i)), piece_at(y, P.const(i))) for i in range(k))
    if {x[0], y[0]} <= {'ar', 'in', 'oq', 'rep'}:
        i = P.A(('bound', 'e'), 0, P.BIGLEN)
        p = dd.AND(pc, P.lt(i, n))
        return equal(it, p, piece_at(x, i), piece_at(y, i))
    return False
