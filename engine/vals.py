"""Abstract values.  All are immutable tuples, tagged by their first element.

  ('I', poly)                 integer / char
  ('B', bdd)                  bool
  ('S', fields)               struct, tuple, closure
  ('E', ((variant, cond, fields), ...))       enum: guarded alternatives
  ('R', ((cond, root, path), ...))            reference or pointer
                              root: ('c', cell) storage, ('v', value) frozen value
                              path: ('f',i) ('vf',v,i) ('at',i) ('sub',a,n) ('vd',) ('vs',) ('bx',)
  ('Q', ((cond, pieces), ...))                sequence: [T; N], [T], str
                              piece: ('in',S,a,n) bytes a..a+n of stream S
                                     ('ar',ty,S,a,n) n elements of ty decoded from stream S at a
                                     ('oq',id,ty,a,n) elements a..a+n of an unknown sequence
                                     ('el',values) ('rep',value,n) ('un',n)
  ('V', data, spare)          Vec / String: contents and spare capacity
  ('X', value)                Box
  ('U',)                      uninitialised
  ('P', cond, value)          initialised exactly when cond
  ('N', ty, field, value)     union holding that field
  ('F', fn)                   function item / pointer
  ('Z', stream, pos, lim)     abstract byte source (or bounded view of one)
  ('O', key, args)            opaque but identified value
  ('OA', ((cond, value), ...))  guarded opaque values
  ('J', kind, fields)         modelled std object
  ('T', why)                  unknown
"""
import dd
import poly as P
from poly import Poly

U = ('U',)
UNIT = ('S', ())


def I(p):
    return ('I', p)


def C(n):
    return ('I', P.const(n))


def B(f):
    return ('B', f)


def S(*fs):
    return ('S', tuple(fs))


def E(*alts):
    return ('E', tuple(a for a in alts if a[1] != dd.FALSE))


def top(why):
    return ('T', why)


def ref_v(v):
    return ('R', ((dd.TRUE, ('v', v), ()),))


def ref_c(cell, path=()):
    return ('R', ((dd.TRUE, ('c', cell), tuple(path)),))


def seq(*pieces):
    return ('Q', ((dd.TRUE, norm_pieces(pieces)),))


EMPTY = ('Q', ((dd.TRUE, ()),))


def inn(s, a, n):
    return seq(('in', s, a, n))


# -------------------------------------------------------------- pieces
ESIZE = {}      # ty -> size used by 'ar'


def plen(p):
    k = p[0]
    if k == 'in':
        return p[3]
    if k in ('ar', 'oq'):
        return p[4]
    if k == 'el':
        return P.const(len(p[1]))
    if k == 'rep':
        return p[2]
    if k == 'un':
        return p[1]
    raise ValueError(k)


def with_len(p, n):
    k = p[0]
    if k == 'in':
        return ('in', p[1], p[2], n)
    if k in ('ar', 'oq'):
        return p[:4] + (n,)
    if k == 'rep':
        return ('rep', p[1], n)
    if k == 'un':
        return ('un', n)
    raise ValueError(k)


def norm_pieces(ps):
    out = []
    for p in ps:
        n = plen(p)
        if n == P.ZERO:
            continue
        if p[0] == 'rep':
            c = P.const_val(n)
            if c is not None and c <= 0:
                continue
        if out:
            q = out[-1]
            if q[0] == p[0]:
                if p[0] == 'in' and q[1] == p[1] and P.add(q[2], q[3]) == p[2]:
                    out[-1] = ('in', p[1], q[2], P.add(q[3], p[3]))
                    continue
                if p[0] == 'oq' and q[1] == p[1] and q[2] == p[2] and P.add(q[3], q[4]) == p[3]:
                    out[-1] = ('oq', p[1], p[2], q[3], P.add(q[4], p[4]))
                    continue
                if p[0] == 'ar' and q[1] == p[1] and q[2] == p[2] and \
                        P.add(q[3], P.scale(q[4], ESIZE[p[1]])) == p[3]:
                    out[-1] = ('ar', p[1], p[2], q[3], P.add(q[4], p[4]))
                    continue
                if p[0] == 'el':
                    out[-1] = ('el', q[1] + p[1])
                    continue
                if p[0] == 'rep' and q[1] == p[1]:
                    out[-1] = ('rep', p[1], P.add(q[2], p[2]))
                    continue
                if p[0] == 'un':
                    out[-1] = ('un', P.add(q[1], p[1]))
                    continue
            # elements decoded one by one join a decoded range
            if p[0] == 'el' and q[0] == 'ar':
                j = 0
                while j < len(p[1]):
                    pos = P.add(q[3], P.scale(q[4], ESIZE[q[1]]))
                    if p[1][j] == AREL[0](q[1], q[2], pos):
                        q = q[:4] + (P.add(q[4], P.ONE),)
                        j += 1
                    else:
                        break
                out[-1] = q
                if j < len(p[1]):
                    out.append(('el', p[1][j:]))
                continue
            # bytes spelled out one by one join a stream range
            if p[0] == 'el' and q[0] == 'in':
                j = 0
                while j < len(p[1]):
                    pos = P.add(q[2], q[3])
                    if p[1][j] == ('I', byte_at(q[1], pos)):
                        q = ('in', q[1], q[2], P.add(q[3], P.ONE))
                        j += 1
                    else:
                        break
                out[-1] = q
                if j < len(p[1]):
                    out.append(('el', p[1][j:]))
                continue
        if p[0] == 'el':
            v0 = p[1][0]
            if v0[0] == 'I':
                a = P.single_atom(v0[1])
                if a is not None and P.adesc(a)[0] == 'by':
                    _, s, pos = P.adesc(a)
                    q = ('in', s, pos, P.ONE)
                    j = 1
                    while j < len(p[1]) and p[1][j] == ('I', byte_at(s, P.add(pos, P.const(j)))):
                        j += 1
                    out.append(('in', s, pos, P.const(j)))
                    if j < len(p[1]):
                        rest = norm_pieces((('el', p[1][j:]),))
                        out.extend(rest)
                    continue
        out.append(p)
    return tuple(out)


def byte_at(s, pos):
    return P.A(('by', s, pos), 0, 255)


def cv_at(w, s, pos):
    """The w-byte integer of stream s at pos, decoded in the configured order."""
    if w == 1:
        return byte_at(s, pos)
    return P.A(('cv', w, s, pos), 0, (1 << (8 * w)) - 1)


def pieces_len(ps):
    r = P.ZERO
    for p in ps:
        r = P.add(r, plen(p))
    return r


def seq_len(q):
    alts = q[1]
    r = None
    for c, ps in alts:
        n = pieces_len(ps)
        r = n if r is None else P.ite(c, n, r)
    return r if r is not None else P.ZERO


RANGEK = ('in', 'ar', 'oq', 'rep', 'un')


def _unify(c, pa, pb):
    """Merge two piece lists of compatible shape, or None."""
    if pa == pb:
        return pa
    if not pa and len(pb) == 1 and pb[0][0] in RANGEK:
        n = P.ite(c, P.ZERO, plen(pb[0]))
        return norm_pieces((with_len(pb[0], n),))
    if not pb and len(pa) == 1 and pa[0][0] in RANGEK:
        n = P.ite(c, plen(pa[0]), P.ZERO)
        return norm_pieces((with_len(pa[0], n),))
    if len(pa) != len(pb):
        return None
    out = []
    for x, y in zip(pa, pb):
        if x == y:
            out.append(x)
            continue
        if x[0] != y[0]:
            return None
        k = x[0]
        if k == 'in' and x[1] == y[1]:
            out.append(('in', x[1], P.ite(c, x[2], y[2]), P.ite(c, x[3], y[3])))
        elif k in ('ar', 'oq') and x[1:3] == y[1:3]:
            out.append((k, x[1], x[2], P.ite(c, x[3], y[3]), P.ite(c, x[4], y[4])))
        elif k == 'el' and len(x[1]) == len(y[1]):
            out.append(('el', tuple(merge(c, u, v) for u, v in zip(x[1], y[1]))))
        elif k == 'rep' and x[1] == y[1]:
            out.append(('rep', x[1], P.ite(c, x[2], y[2])))
        elif k == 'un':
            out.append(('un', P.ite(c, x[1], y[1])))
        else:
            return None
    return tuple(out)


def mk_seq(alts):
    """alts: list of (cond, pieces) exclusive; coalesce."""
    res = []
    for c, ps in alts:
        if c == dd.FALSE:
            continue
        for i, (c2, p2) in enumerate(res):
            if p2 == ps:
                res[i] = (dd.OR(c, c2), p2)
                break
        else:
            res.append((c, ps))
    if len(res) == 1:
        return ('Q', ((dd.TRUE, res[0][1]),))
    # unify compatible shapes
    i = 0
    while i < len(res):
        j = i + 1
        while j < len(res):
            u = _unify(res[i][0], res[i][1], res[j][1])
            if u is not None:
                res[i] = (dd.OR(res[i][0], res[j][0]), u)
                del res[j]
            else:
                j += 1
        i += 1
    if len(res) == 1:
        return ('Q', ((dd.TRUE, res[0][1]),))
    if not res:
        return EMPTY
    return ('Q', tuple(res))


def seq_map(q, f):
    """f(cond, pieces) -> seq value; merge back under the alternatives."""
    if len(q[1]) == 1:
        return f(q[1][0][0], q[1][0][1])
    out = []
    for c, ps in q[1]:
        r = f(c, ps)
        if r[0] != 'Q':
            return r
        for c2, p2 in r[1]:
            out.append((dd.AND(c, c2), p2))
    return mk_seq(out)


def seq_cat(a, b):
    out = []
    for c1, p1 in a[1]:
        for c2, p2 in b[1]:
            out.append((dd.AND(c1, c2), norm_pieces(p1 + p2)))
    return mk_seq(out)


def piece_slice(p, a, n):
    k = p[0]
    if k == 'in':
        return ('in', p[1], P.add(p[2], a), n)
    if k == 'oq':
        return ('oq', p[1], p[2], P.add(p[3], a), n)
    if k == 'ar':
        return ('ar', p[1], p[2], P.add(p[3], P.scale(a, ESIZE[p[1]])), n)
    if k == 'rep':
        return ('rep', p[1], n)
    if k == 'un':
        return ('un', n)
    if k == 'el':
        ca, cn = P.const_val(a), P.const_val(n)
        if ca is not None and cn is not None:
            return ('el', p[1][ca:ca + cn])
    return None


def seq_slice(q, a, n, pc):
    """Sub-sequence [a, a+n); the caller has established a+n <= len."""
    def one(c, ps):
        if n == P.ZERO:
            return EMPTY
        if a == P.ZERO and n == pieces_len(ps):
            return ('Q', ((dd.TRUE, ps),))
        if len(ps) == 1 and ps[0][0] in RANGEK:
            return seq(piece_slice(ps[0], a, n))
        pcc = dd.AND(pc, c)
        return _slice_pieces(ps, a, n, pcc, 0)
    return seq_map(q, one)


def _slice_pieces(ps, a, n, pc, depth):
    if pc == dd.FALSE or n == P.ZERO:
        return EMPTY
    if not ps:
        return EMPTY
    if depth > 40:
        return top('slice')
    p, rest = ps[0], ps[1:]
    L = plen(p)
    if not rest and p[0] in RANGEK:
        return seq(piece_slice(p, a, n))
    skip = decide(pc, P.ge(a, L))
    if skip is True:
        return _slice_pieces(rest, P.sub(a, L), n, pc, depth + 1)
    if skip is None:
        c = P.ge(a, L)
        r1 = _slice_pieces(rest, P.sub(a, L), n, dd.AND(pc, c), depth + 1)
        r2 = _slice_here(p, rest, a, n, L, dd.AND(pc, dd.NOT(c)), depth)
        return merge(c, r1, r2)
    return _slice_here(p, rest, a, n, L, pc, depth)


def _slice_here(p, rest, a, n, L, pc, depth):
    fit = decide(pc, P.ge(L, P.add(a, n)))
    if fit is True or not rest:
        return _el_slice(p, a, n, pc)
    k = P.sub(L, a)
    part = _el_slice(p, a, k, pc)
    more = None
    if part[0] == 'Q':
        m = _slice_pieces(rest, P.ZERO, P.sub(n, k), pc, depth + 1)
        more = seq_cat(part, m) if m[0] == 'Q' else m
    else:
        more = part
    if fit is False:
        return more
    c = P.ge(L, P.add(a, n))
    return merge(c, _el_slice(p, a, n, dd.AND(pc, c)), more)


def _el_slice(p, a, n, pc):
    r = piece_slice(p, a, n)
    if r is not None:
        return seq(r)
    # enumerate over a short literal list
    els = p[1]
    if len(els) > 64:
        return top('literal slice')
    out = []
    for i in range(len(els) + 1):
        ci = P.eq(a, P.const(i))
        if dd.AND(pc, ci) == dd.FALSE:
            continue
        for k in range(len(els) - i + 1):
            ck = dd.AND(ci, P.eq(n, P.const(k)))
            if dd.AND(pc, ck) == dd.FALSE:
                continue
            out.append((ck, (('el', els[i:i + k]),) if k else ()))
            if len(out) > 80:
                return top('literal slice')
    return mk_seq(out)


def decide(pc, f):
    """True / False / None."""
    if f == dd.TRUE or dd.implies(pc, f):
        return True
    if f == dd.FALSE or dd.implies(pc, dd.NOT(f)):
        return False
    if P.prove(pc, f):
        return True
    if P.prove(pc, dd.NOT(f)):
        return False
    return None


SYMEL = [None]     # callback: (id, ty, idx) -> value
AREL = [None]      # callback: (ty, S, pos) -> value


def piece_at(p, i):
    k = p[0]
    if k == 'in':
        return ('I', byte_at(p[1], P.add(p[2], i)))
    if k == 'oq':
        return SYMEL[0](p[1], p[2], P.add(p[3], i))
    if k == 'ar':
        return AREL[0](p[1], p[2], P.add(p[3], P.scale(i, ESIZE[p[1]])))
    if k == 'rep':
        return p[1]
    if k == 'un':
        return U
    if k == 'el':
        c = P.const_val(i)
        if c is not None:
            return p[1][c] if 0 <= c < len(p[1]) else top('index')
        r = None
        for j, v in enumerate(p[1]):
            r = v if r is None else merge(P.eq(i, P.const(j)), v, r)
        return r


def seq_at(q, i, pc):
    r = None
    for c, ps in q[1]:
        v = _at(ps, i, dd.AND(pc, c))
        if v is None:
            continue
        r = v if r is None else merge(c, v, r)
    return r if r is not None else top('index of empty')


def _at(ps, i, pc):
    if not ps or pc == dd.FALSE:
        return None
    p, rest = ps[0], ps[1:]
    if not rest:
        return piece_at(p, i)
    L = plen(p)
    d = decide(pc, P.ge(i, L))
    if d is True:
        return _at(rest, P.sub(i, L), pc)
    if d is False:
        return piece_at(p, i)
    c = P.ge(i, L)
    x = _at(rest, P.sub(i, L), dd.AND(pc, c))
    y = piece_at(p, i)
    return y if x is None else merge(c, x, y)


def seq_put(q, i, v, pc):
    """Replace element i."""
    def one(c, ps):
        ci = P.const_val(i)
        if ci is not None and len(ps) == 1 and ps[0][0] == 'el' and ci < len(ps[0][1]):
            e = ps[0][1]
            return ('Q', ((dd.TRUE, norm_pieces((('el', e[:ci] + (v,) + e[ci + 1:]),))),))
        one_ = ('Q', ((dd.TRUE, (('el', (v,)),)),))
        whole = ('Q', ((dd.TRUE, ps),))
        n = pieces_len(ps)
        pcc = dd.AND(pc, c)
        h = seq_slice(whole, P.ZERO, i, pcc)
        t = seq_slice(whole, P.add(i, P.ONE), P.sub(n, P.add(i, P.ONE)), pcc)
        if h[0] != 'Q' or t[0] != 'Q':
            return top('element store')
        return seq_cat(seq_cat(h, one_), t)
    return seq_map(q, one)


def seq_write(q, a, src, pc):
    """Overwrite [a, a+len(src)) with src."""
    n = seq_len(src)
    tot = seq_len(q)
    h = seq_slice(q, P.ZERO, a, pc)
    t = seq_slice(q, P.add(a, n), P.sub(tot, P.add(a, n)), pc)
    if h[0] != 'Q' or t[0] != 'Q':
        return top('slice store')
    return seq_cat(seq_cat(h, src), t)


# --------------------------------------------------------------- merge
def merge(c, a, b):
    """a where c holds, b elsewhere."""
    if a is b or c == dd.TRUE:
        return a
    if c == dd.FALSE:
        return b
    ta, tb = a[0], b[0]
    if ta == tb == 'I':
        p = P.ite(c, a[1], b[1])
        return a if p is a[1] else ('I', p)
    if ta == tb == 'B':
        return ('B', dd.ite(c, a[1], b[1]))
    if a == b:
        return a
    if ta == 'T':
        return a
    if tb == 'T':
        return b
    if ta == 'U' or tb == 'U' or ta == 'P' or tb == 'P':
        ca, va = init_of(a)
        cb, vb = init_of(b)
        cc = dd.ite(c, ca, cb)
        if va is None:
            v = vb
        elif vb is None:
            v = va
        else:
            v = merge(c, va, vb)
        if v is None or cc == dd.FALSE:
            return U
        return v if cc == dd.TRUE else ('P', cc, v)
    if ta in ('O', 'OA') and tb in ('O', 'OA'):
        out = []
        for alts, g in ((oalts(a), c), (oalts(b), dd.NOT(c))):
            for cc, o in alts:
                x = dd.AND(g, cc)
                for i, (c2, o2) in enumerate(out):
                    if o2 == o:
                        out[i] = (dd.OR(c2, x), o2)
                        break
                else:
                    if x != dd.FALSE:
                        out.append((x, o))
        return out[0][1] if len(out) == 1 else ('OA', tuple(out))
    if ta != tb:
        if {ta, tb} <= {'R', 'O', 'OA', 'F'}:
            return top('pointer join')
        return top('join %s/%s' % (ta, tb))
    if ta == 'S':
        if len(a[1]) != len(b[1]):
            return top('join arity')
        return ('S', tuple(merge(c, x, y) for x, y in zip(a[1], b[1])))
    if ta == 'E':
        da = {x[0]: x for x in a[1]}
        db = {x[0]: x for x in b[1]}
        out = []
        for v in sorted(set(da) | set(db)):
            x, y = da.get(v), db.get(v)
            cond = dd.ite(c, x[1] if x else dd.FALSE, y[1] if y else dd.FALSE)
            if cond == dd.FALSE:
                continue
            if x is None:
                f = y[2]
            elif y is None:
                f = x[2]
            else:
                f = tuple(merge(c, u, w) for u, w in zip(x[2], y[2]))
            out.append((v, cond, f))
        return ('E', tuple(out))
    if ta == 'Q':
        nc = dd.NOT(c)
        return mk_seq([(dd.AND(c, x), p) for x, p in a[1]] + [(dd.AND(nc, x), p) for x, p in b[1]])
    if ta == 'R':
        nc = dd.NOT(c)
        ra, rb = a[1], b[1]
        va = [x for x in ra if x[1][0] == 'v' and not x[2]]
        vb = [x for x in rb if x[1][0] == 'v' and not x[2]]
        if len(va) == len(ra) == 1 and len(vb) == len(rb) == 1:
            m = merge(c, ra[0][1][1], rb[0][1][1])
            if m[0] != 'T':
                return ref_v(m)
        out = []
        for g, r, p in [(dd.AND(c, x), r, p) for x, r, p in ra] + [(dd.AND(nc, x), r, p) for x, r, p in rb]:
            if g == dd.FALSE:
                continue
            done = False
            for i, (g2, r2, p2) in enumerate(out):
                if r2 == r and p2 == p:
                    out[i] = (dd.OR(g, g2), r, p)
                    done = True
                    break
                if r2 == r and len(p2) == len(p):
                    q = _merge_path(g2, p2, p)
                    if q is not None:
                        out[i] = (dd.OR(g, g2), r, q)
                        done = True
                        break
            if not done:
                out.append((g, r, p))
        if len(out) == 1:
            return ('R', ((dd.TRUE, out[0][1], out[0][2]),))
        return ('R', tuple(out))
    if ta == 'V':
        x, y = merge(c, a[1], b[1]), merge(c, a[2], b[2])
        if x[0] == 'T' or y[0] == 'T':
            return x if x[0] == 'T' else y
        return ('V', x, y)
    if ta == 'X':
        return ('X', merge(c, a[1], b[1]))
    if ta == 'N':
        if a[2] == b[2]:
            return ('N', a[1], a[2], merge(c, a[3], b[3]))
        return UNION[0](c, a, b) if UNION[0] else top('union join')
    if ta == 'Z':
        if a[1] == b[1]:
            return ('Z', a[1], P.ite(c, a[2], b[2]), P.ite(c, a[3], b[3]))
        return top('source join')
    if ta == 'J':
        if a[1] == b[1] and len(a[2]) == len(b[2]):
            out = []
            for x, y in zip(a[2], b[2]):
                if x == y:
                    out.append(x)
                elif isinstance(x, Poly) and isinstance(y, Poly):
                    out.append(P.ite(c, x, y))
                elif isinstance(x, tuple) and isinstance(y, tuple) and x and isinstance(x[0], str) and len(x[0]) <= 2:
                    out.append(merge(c, x, y))
                else:
                    return top('object join')
            return ('J', a[1], tuple(out))
        return top('object join')
    return top('join ' + ta)


def _merge_path(c, p, q):
    out = []
    for x, y in zip(p, q):
        if x == y:
            out.append(x)
        elif x[0] == y[0] == 'at':
            out.append(('at', P.ite(c, x[1], y[1])))
        elif x[0] == y[0] == 'sub':
            out.append(('sub', P.ite(c, x[1], y[1]), P.ite(c, x[2], y[2])))
        else:
            return None
    return tuple(out)


UNION = [None]      # how unions holding different members are joined


def oalts(v):
    return ((dd.TRUE, v),) if v[0] == 'O' else v[1]


def init_of(v):
    if v[0] == 'U':
        return dd.FALSE, None
    if v[0] == 'P':
        return v[1], v[2]
    return dd.TRUE, v


# --------------------------------------------------------------- substitution
def subst(v, s, memo=None):
    """Apply a poly.Subst to a value (deep)."""
    if memo is None:
        memo = {}
    k = id(v)
    if k in memo:
        return memo[k][1]
    r = _subst(v, s, memo)
    memo[k] = (v, r)
    return r


def _subst(v, s, memo):
    t = v[0]
    if t == 'I':
        return ('I', s.poly(v[1]))
    if t == 'B':
        return ('B', s.bdd(v[1]))
    if t == 'S':
        return ('S', tuple(subst(x, s, memo) for x in v[1]))
    if t == 'E':
        return E(*[(a, s.bdd(c), tuple(subst(x, s, memo) for x in f)) for a, c, f in v[1]])
    if t == 'Q':
        return mk_seq([(s.bdd(c), norm_pieces(tuple(psub(p, s, memo) for p in ps))) for c, ps in v[1]])
    if t == 'R':
        return ('R', tuple((s.bdd(c), ('v', subst(r[1], s, memo)) if r[0] == 'v' else r,
                            tuple(psub_path(e, s) for e in p)) for c, r, p in v[1]))
    if t == 'V':
        return ('V', subst(v[1], s, memo), subst(v[2], s, memo))
    if t == 'X':
        return ('X', subst(v[1], s, memo))
    if t == 'P':
        return ('P', s.bdd(v[1]), subst(v[2], s, memo))
    if t == 'N':
        return ('N', v[1], v[2], subst(v[3], s, memo))
    if t == 'Z':
        return ('Z', v[1], s.poly(v[2]), s.poly(v[3]))
    if t == 'OA':
        return ('OA', tuple((s.bdd(c), subst(o, s, memo)) for c, o in v[1]))
    if t == 'O':
        return ('O', v[1], tuple(subst(x, s, memo) if isinstance(x, tuple) and x and isinstance(x[0], str) else
                                 (s.poly(x) if isinstance(x, Poly) else x) for x in v[2]))
    return v


def psub_path(e, s):
    return tuple(s.poly(x) if isinstance(x, Poly) else x for x in e)


def psub(p, s, memo):
    k = p[0]
    if k == 'el':
        return ('el', tuple(subst(x, s, memo) for x in p[1]))
    if k == 'rep':
        return ('rep', subst(p[1], s, memo), s.poly(p[2]))
    return tuple(s.poly(x) if isinstance(x, Poly) else x for x in p)


# --------------------------------------------------------------- care sets
_gd = {}


def guards(v):
    """Guard variables occurring in v."""
    k = id(v)
    r = _gd.get(k)
    if r is not None and r[0] is v:
        return r[1]
    s = _guards(v)
    if len(_gd) > 300000:
        _gd.clear()
    _gd[k] = (v, s)
    return s


_NONE = frozenset()


def _guards(v):
    t = v[0]
    s = _NONE
    if t == 'I':
        return P.psupport(v[1])
    if t == 'B':
        return dd.support(v[1])
    if t == 'S':
        for x in v[1]:
            s |= guards(x)
    elif t == 'E':
        for _, c, fs in v[1]:
            s |= dd.support(c)
            for x in fs:
                s |= guards(x)
    elif t == 'Q':
        for c, ps in v[1]:
            s |= dd.support(c)
            for p in ps:
                if p[0] == 'el':
                    for x in p[1]:
                        s |= guards(x)
                elif p[0] == 'rep':
                    s |= guards(p[1]) | P.psupport(p[2])
                else:
                    for x in p:
                        if isinstance(x, Poly):
                            s |= P.psupport(x)
    elif t == 'R':
        for c, r, p in v[1]:
            s |= dd.support(c)
            if r[0] == 'v':
                s |= guards(r[1])
            for e in p:
                for x in e:
                    if isinstance(x, Poly):
                        s |= P.psupport(x)
    elif t == 'V':
        s = guards(v[1]) | guards(v[2])
    elif t == 'X':
        s = guards(v[1])
    elif t == 'P':
        s = dd.support(v[1]) | guards(v[2])
    elif t == 'N':
        s = guards(v[3])
    elif t == 'Z':
        s = P.psupport(v[2]) | P.psupport(v[3])
    elif t == 'OA':
        for c, o in v[1]:
            s |= dd.support(c)
    return s


def restrict(v, pc, memo):
    """v simplified where only pc matters."""
    if not (guards(v) & dd.support(pc)):
        return v
    k = id(v)
    r = memo.get(k)
    if r is None:
        r = (v, _restrict(v, pc, memo))
        memo[k] = r
    return r[1]


def _live(c, pc):
    """Guard c under care set pc: FALSE when it cannot hold."""
    if dd.AND(c, pc) == dd.FALSE:
        return dd.FALSE
    return dd.restrict(c, pc)


def _restrict(v, pc, memo):
    t = v[0]
    if t == 'I':
        return ('I', P.restrict(v[1], pc))
    if t == 'B':
        return ('B', dd.restrict(v[1], pc))
    if t == 'S':
        return ('S', tuple(restrict(x, pc, memo) for x in v[1]))
    if t == 'E':
        return E(*[(a, _live(c, pc), tuple(restrict(x, pc, memo) for x in f)) for a, c, f in v[1]])
    if t == 'Q':
        out = []
        for c, ps in v[1]:
            c = _live(c, pc)
            if c == dd.FALSE:
                continue
            out.append((c, norm_pieces(tuple(_prestrict(p, pc, memo) for p in ps))))
        return mk_seq(out)
    if t == 'R':
        out = []
        for c, r, p in v[1]:
            c = _live(c, pc)
            if c == dd.FALSE:
                continue
            r = ('v', restrict(r[1], pc, memo)) if r[0] == 'v' else r
            p = tuple(tuple(P.restrict(x, pc) if isinstance(x, Poly) else x for x in e) for e in p)
            out.append((c, r, p))
        if len(out) == 1:
            out = [(dd.TRUE,) + out[0][1:]]
        return ('R', tuple(out))
    if t == 'V':
        return ('V', restrict(v[1], pc, memo), restrict(v[2], pc, memo))
    if t == 'X':
        return ('X', restrict(v[1], pc, memo))
    if t == 'P':
        c = _live(v[1], pc)
        if c == dd.FALSE:
            return U
        x = restrict(v[2], pc, memo)
        return x if dd.implies(pc, v[1]) else ('P', c, x)
    if t == 'N':
        return ('N', v[1], v[2], restrict(v[3], pc, memo))
    if t == 'Z':
        return ('Z', v[1], P.restrict(v[2], pc), P.restrict(v[3], pc))
    if t == 'OA':
        out = [(c2, o) for c2, o in ((_live(c, pc), o) for c, o in v[1]) if c2 != dd.FALSE]
        return out[0][1] if len(out) == 1 else ('OA', tuple(out))
    return v


def _prestrict(p, pc, memo):
    if p[0] == 'el':
        return ('el', tuple(restrict(x, pc, memo) for x in p[1]))
    if p[0] == 'rep':
        return ('rep', restrict(p[1], pc, memo), P.restrict(p[2], pc))
    return tuple(P.restrict(x, pc) if isinstance(x, Poly) else x for x in p)


# --------------------------------------------------------------- display
def show(v, d=0):
    t = v[0]
    if d > 6:
        return '…'
    if t == 'I':
        return P.show(v[1])
    if t == 'B':
        return '{%s}' % P.show_bdd(v[1])
    if t == 'S':
        return '(' + ', '.join(show(x, d + 1) for x in v[1]) + ')'
    if t == 'E':
        return '<' + ' | '.join('#%d if %s: %s' % (a, P.show_bdd(c, 2), '(' + ','.join(show(x, d + 1) for x in f) + ')') for a, c, f in v[1]) + '>'
    if t == 'Q':
        return '[' + ' | '.join('%s%s' % ('' if c == dd.TRUE else P.show_bdd(c, 2) + ': ', '+'.join(showp(p, d) for p in ps)) for c, ps in v[1]) + ']'
    if t == 'R':
        return '&' + '|'.join(('' if c == dd.TRUE else P.show_bdd(c, 2) + ':') + (show(r[1], d + 1) if r[0] == 'v' else str(r[1])) + ''.join('.%s' % (P.show_desc(e),) for e in p) for c, r, p in v[1])
    if t == 'V':
        return 'Vec%s+%s' % (show(v[1], d + 1), show(v[2], d + 1))
    if t == 'P':
        return '?{%s}%s' % (P.show_bdd(v[1], 2), show(v[2], d + 1))
    if t == 'Z':
        return 'Src(%s@%s/%s)' % (v[1], P.show(v[2]), P.show(v[3]))
    if t == 'N':
        return 'U%d:%s' % (v[2], show(v[3], d + 1))
    return str(v)[:200]


def showp(p, d=0):
    k = p[0]
    if k == 'el':
        return '{' + ','.join(show(x, d + 1) for x in p[1][:12]) + ('..%d' % len(p[1]) if len(p[1]) > 12 else '') + '}'
    if k == 'rep':
        return 'rep(%s,%s)' % (show(p[1], d + 1), P.show(p[2]))
    return '%s(%s)' % (k, ','.join(P.show(x) if isinstance(x, Poly) else str(x) for x in p[1:]))
