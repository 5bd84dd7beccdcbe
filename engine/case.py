"""One analysis case: a root of the harness, analysed and compared."""
import time
import dd
import poly as P
import vals as V
from vals import *
from interp import Interp, St, Diverge
import models
import prims
import check
import loops
import rand
import spec as SP

T, F = dd.TRUE, dd.FALSE
NATIVE = dd.var_of(('native',))
C16K = P.const(16384)
WANT = None       # kinds of obligations that are asked for


class Missing(Exception):
    """Something the property is about does not exist (any more)."""


class Case:
    def __init__(self, prog, summaries=True, eof=None, skip=()):
        self.p = prog
        self.it = it = Interp(prog)
        models.install(it)
        rand.setup()
        self.counters = prims.counters(it)
        if summaries:
            names = [n for n in (prims.PRIMS if summaries is True else summaries) if n not in skip]
            prims.install(it, names, self.counters)
            if 'cursor' in names:
                prims.cursor_models(it)
        self.st = St(T, {})
        self.obs = []
        self.notes = []
        self.ncell = 0
        self.extra = []
        self.tries = 160
        self.aligned = False

    # ------------------------------------------------------------- inputs
    def fn(self, root):
        if root not in self.p.roots:
            raise Missing('root ' + root)
        return self.p.fns[self.p.roots[root]]

    def cell(self, v):
        self.ncell += 1
        c = ('P', self.ncell)
        self.st.mem[c] = v
        return c

    def source(self, name='S0'):
        return ('Z', (name, name), P.ZERO, P.A(('arg', ('LIM',)), 0, P.BIGLEN))

    def parser(self, root='root_mk', tweak=None, rest=None):
        """A parser over the abstract source, configured from any attributes."""
        f = self.fn(root)
        z = self.source()
        self.lim = z[3]
        self.it.on_alloc = self.at_alloc
        t = f['locals'][2]
        attr = self.it.sym(t, ('attr',))
        fs = self.p.ty(t)['variants'][0]['fields']
        A = {n: attr[1][i][1] for i, (n, _) in enumerate(fs) if attr[1][i][0] == 'I'}
        bf = [x for (n, _), x in zip(fs, attr[1]) if n == '_bitfield_1'][0]
        st = bf[1][0]
        while not (st[0] == 'S' and len(st[1]) == 8):
            st = st[1][0] if st[0] == 'S' else V_items(st)
        A['sample_id_all'] = P.bit_bdd(P.to_bits(st[1][2][1], 8)[2])
        # unions: the first 8 bytes name what the kernel reads there
        self.A = A
        self.attr = attr
        v = self.it.call(f['id'], [z, attr] + (rest(f) if rest else []), self.st)
        if rest:
            ok, v, _, _, _, _ = self.split(v, f['locals'][0])
            self.st.pc = dd.AND(self.st.pc, ok)
        self.pcell = self.cell(v)
        return self.pcell

    def parser_again(self):
        """The same, the configuration being the one an earlier record of a fixed-layout type left behind."""
        def rest(f):
            h = self.it.sym(f['locals'][4], ('hdr0',))
            fs = self.p.ty(f['locals'][4])['variants'][0]['fields']
            return [self.source('S1'), ('S', tuple(I(P.const(1)) if n == 'type_' else x for (n, _), x in zip(fs, h[1])))]
        return self.parser('root_mk_nested', rest=rest)

    def sym(self, root, i, name):
        return self.it.sym(self.fn(root)['locals'][1 + i], name)

    # ------------------------------------------------------------- running
    def call(self, root, *args, st=None):
        f = self.fn(root)
        v = self.it.call(f['id'], list(args), st or self.st)
        self.ty = f['locals'][0]
        return v

    def parse(self, root, *args):
        """Call a parsing root: (ok condition, ok value, err condition, err value, ok type, err type)."""
        r = self.call(root, ref_c(self.pcell), *args)
        return self.split(r, self.ty)

    def split(self, r, ty):
        okty, ety = prims.okerr(self.it, ty)
        ok, okv, er, erv = F, None, F, None
        if r[0] != 'E':
            raise check.Mismatch('result not resolved: ' + show(r)[:80])
        for i, c, fs in r[1]:
            if i == 0:
                ok, okv = c, fs[0]
            else:
                er, erv = c, fs[0]
        return ok, okv, er, erv, okty, ety

    def position(self, cell=None, st=None):
        st = st or self.st
        v = self.it.read(st, ('c', cell or self.pcell), ())
        ls = prims.leaf(self.it, st, v)
        if len(ls) != 1 or ls[0][1] not in 'ZR':
            raise check.Mismatch('position of the source lost')
        return ls[0][3]

    def at_alloc(self, st):
        try:
            z = prims.leaf(self.it, st, self.it.read(st, ('c', self.pcell), ()))
        except Exception:
            return None
        return (z[0][3], self.lim, z[0][2][1] if z[0][1] == 'Z' else z[0][2]) if len(z) == 1 and z[0][1] in 'ZR' else None

    def cur(self, ety):
        e = models.src_error(self.it, ety, 'S0')
        k = SP.Cur('S0', P.ZERO, self.lim, prims.kind_is(self.it, ety, e, 'Eof'))
        k.it = self.it
        return k

    def compare(self, ty, v, tree, pc, label, kind='spec'):
        c = check.Cmp(self.it, self.st)
        c.go(ty, v, tree, pc, label)
        for o in c.obs:
            o.kind = kind
        self.obs += c.obs

    def ob(self, label, pc, a, b, kind='spec'):
        o = check.Ob(label, pc, a, b, kind)
        self.obs.append(o)
        return o

    # ------------------------------------------------------------- results
    hazpc = T         # what is known in addition when looking at hazards

    def impossible(self, bad):
        """No valuation meets the condition of a hazard."""
        try:
            with dd.bounded(check.EFFORT):
                return check.impossible(bad, self.hazpc)
        except dd.Effort:
            return False

    def fns(self):
        r = []
        for i in self.it.analysed:
            f = self.p.fns[i]
            if f['crate'] == 'perf_event_data':
                r.append(f['def'])
        return r

    def allocations(self):
        """Memory asked for ahead of the bytes: at most what the source says it still
        holds (or 16 KiB when it cannot say), beyond what has been read or is at hand."""
        it = self.it
        bad, kept = {}, 0
        for a in it.allocs:
            if a['what'] in ('copy', 'extend'):
                # of contents that are in memory already
                kept += 1
                continue
            n = P.scale(a['n'], it.p.ty(a['ty'])['size']) if it.p.ty(a['ty'])['size'] else P.ZERO
            b = dd.AND(a['pc'], P.lt(C16K, n))
            hint = F
            if a['read'] is not None:
                pos, lim, base = a['read']
                hint = dd.var_of(('hint', base))
                b = dd.AND(b, P.lt(P.add(pos, models.clen(base, pos, lim)), n))
                b = dd.AND(b, dd.NOT(dd.AND(hint, P.le(n, P.sub(lim, pos)))))
            if self.no_way(b):
                b = F
            k = (a['site'], '%s (%s)' % (a['what'], it.p.ty(a['ty'])['name']))
            bad[k] = dd.OR(bad.get(k, F), b)
        self.copies = kept
        out = []
        for (site, what), b in bad.items():
            out.append((check.Ob('memory reserved by %s is covered by bytes the source holds' % what, b, I(P.ZERO), I(P.ONE)), 'alloc', site))
        return out

    def endings(self):
        """Each loop that was met: every round makes progress towards a fixed bound."""
        out, by = [], {}
        for (fn, h), how, pc, stuck in self.it.ends:
            by.setdefault((fn, h), []).append((how, pc, stuck))
        for (fn, h), xs in sorted(by.items()):
            bad = F
            for how, pc, stuck in xs:
                if stuck is not None:
                    bad = dd.OR(bad, dd.AND(pc, stuck))
            if bad != F:
                o = check.Ob('a round of the loop in %s that leaves everything as it was is not followed by another one' % fn, bad, I(P.ZERO), I(P.ONE))
                out.append((o, 'term', (fn, 'loop at block %d' % h)))
            o = check.Ob('the loop in %s makes progress towards a bound in every round' % fn, F, I(P.ZERO), I(P.ONE))
            last = xs[-1][0]
            o.status = 'proved' if all(how == 'proved' or (how == 'stuck') for how, _, _ in xs) and last == 'proved' else 'undecided'
            out.append((o, 'term', (fn, 'loop at block %d' % h)))
        return out

    def no_way(self, b, depth=10):
        """No valuation meets b: cases on the guards inside its terms."""
        if b == F or P.infeasible(b, 800):
            return True
        v = None
        for x in sorted(dd.support(b)):
            for a in sorted(P.var_atoms(x)):
                for q in P.desc_polys(P.adesc(a)):
                    for y in P.psupport(q):
                        if v is None or y < v:
                            v = y
                if P.adesc(a)[0] == 'bits':
                    for z in P.adesc(a)[1]:
                        if z not in (0, 1) and z[0] == 'd':
                            v = min([y for y in dd.support(z[1]) if dd.desc(y)[0] != 'bit'] + ([v] if v is not None else []), default=None)
        if v is None or not depth:
            return self.impossible(b)
        for x in (T, F):
            c = P.Subst({}, {v: x}).bdd(dd.cofactor(b, v, x == T))
            if not self.no_way(c, depth - 1):
                return False
        return True

    def result(self, name, budget=15.0, hazards=True):
        it = self.it
        obs = [(o, o.kind, None) for o in self.obs]
        if hazards:
            seen = {}
            for h in it.obs:
                k = (h['kind'], h['site'][0], h['what'])
                seen.setdefault(k, F)
                seen[k] = dd.OR(seen[k], h['bad'])
            for (kd, site, what), bad in seen.items():
                o = check.Ob('%s: %s' % (kd, what), bad, I(P.ZERO), I(P.ONE))
                obs.append((o, 'panic' if kd in ('panic', 'unreachable', 'advance') else 'unsafe', site))
        if WANT is None or 'alloc' in WANT:
            obs += self.allocations()
        if WANT is None or 'term' in WANT:
            obs += self.endings()
        if WANT is not None:
            obs = [x for x in obs if x[1] in WANT or x[1] in ('tagged', 'finding')]
        if it.unroll:
            return self.second_look(name, obs)
        # cheap refutations first: they also spare the proofs that cannot succeed
        se = check.Search(it, 1, self.tries, self.extra)
        se.run([o for o, _, _ in obs if o.pc != F], 6.0, 0)
        broken = {kd for o, kd, _ in obs if o.status == 'refuted'}
        quota = 24.0
        open_ = []
        for o, kd, site in obs:
            if o.status is not None:
                continue
            if site is None:
                o.status = check.decide_ob(it, o, True)
            elif o.pc == F:
                o.status = 'proved'
            if o.status is None and kd not in broken:
                if site is not None:
                    if self.impossible(o.pc):
                        o.status = 'proved'
                else:
                    o.status = check.decide_ob(it, o, False, 300000)
                if o.status is None and quota > 0:
                    t = time.time()
                    se.hunt(o, min(4.0, quota))
                    quota -= time.time() - t
                if o.status is None and site is None:
                    o.status = check.decide_ob(it, o)
                if o.status == 'refuted':
                    broken.add(kd)
                elif o.status is None:
                    open_.append((o, kd))
        open_ = [o for o, kd in open_ if kd not in broken]
        if open_:
            se.run(open_, budget)
        ev = se.evaluated
        out = []
        for o, kd, site in obs:
            d = dict(label=o.label, kind=kd, status=o.status or 'undecided')
            if site:
                d['site'] = site
            if o.status == 'refuted':
                d['witness'] = o.witness
            out.append(d)
        nsites, some = {}, {}
        for (kd, site, what) in it.sites:
            k = 'panic' if kd in ('panic', 'unreachable', 'advance') else 'unsafe'
            nsites[k] = nsites.get(k, 0) + 1
        for (kd, site, what) in sorted(it.sites, key=repr):
            k = 'panic' if kd in ('panic', 'unreachable', 'advance') else 'unsafe'
            if 'perf_event_data' in str(site[0]) and len(some.setdefault(k, [])) < 3:
                some[k].append((kd, site, what))
        return dict(name=name, obs=out, fns=self.fns(), unmodelled=dict(it.unmodelled),
                    cut=['%s bb%d' % k for k, _ in it.cut], summaries=dict(it.summ_used), evaluations=ev, sites=nsites, site_samples=some,
                    loops={'%s bb%d' % k: sorted(v['how']) for k, v in it.loops_seen.items() if k[0].find('perf_event_data') >= 0 or True},
                    notes=self.notes, lost=it.lost)


    def second_look(self, name, obs):
        """Loops without a closed form were followed for a few rounds each: what is
        left out is set aside, and the rest can still show that an obligation fails."""
        done = dd.NOT(dd.disj([pc for _, pc in self.it.cut]))
        todo = []
        for o, kd, site in obs:
            o.pc = dd.AND(o.pc, done)
            if o.pc != F and o.status is None:
                todo.append(o)
        se = check.Search(self.it, 1, 3 * self.tries, self.extra)
        se.run(todo, 20.0, 0)
        quota = 40.0
        if not any(o.status == 'refuted' for o in todo):
            for o in todo:
                if quota <= 0:
                    break
                t = time.time()
                se.hunt(o, min(6.0, quota))
                quota -= time.time() - t
                if o.status == 'refuted':
                    break
        return dict(name=name, evaluations=se.evaluated,
                    obs=[dict(label=o.label, kind=kd, status='refuted', site=site, witness=o.witness)
                         for o, kd, site in obs if o.status == 'refuted'])


def V_items(v):
    if v[0] == 'Q':
        for _, ps in v[1]:
            if len(ps) == 1 and ps[0][0] == 'el':
                return ('S', tuple(ps[0][1]))
    raise Missing('attribute bit field')
