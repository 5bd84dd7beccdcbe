"""Multi-terminal decision diagrams over boolean variables.

One manager for the whole analysis.  A node is an int index.  Terminals hold
Python ints; FALSE/TRUE are the terminals 0 and 1, so a boolean condition is
just a 0/1-valued diagram and an integer coefficient guarded by conditions is
an integer-valued one.  Hash-consed: equal functions are equal ints.
"""
import bisect
import sys
sys.setrecursionlimit(100000)

_var = []      # node -> var level (None for terminals)
_lo = []
_hi = []
_val = []      # node -> terminal value
_term = {}
_uniq = {}
_descs = {}            # var -> descriptor
_descidx = {}          # descriptor -> var
BIG = 1 << 400
GAP = 1 << 128
_keys = []             # variables in order
_tail = {}             # variable -> last variable placed behind it
hint = None            # place new variables behind this one


limit = 1 << 60        # nodes that may be made


class Effort(Exception):
    """The diagrams of one question grew beyond what it may cost."""


class bounded:
    """Within: at most n more nodes."""

    def __init__(self, n):
        self.n = n

    def __enter__(self):
        global limit
        self.old = limit
        limit = min(limit, len(_var) + self.n)

    def __exit__(self, *a):
        global limit
        limit = self.old


def term(v):
    n = _term.get(v)
    if n is None:
        n = len(_var)
        _var.append(BIG); _lo.append(-1); _hi.append(-1); _val.append(v)
        _term[v] = n
    return n


FALSE = term(0)
TRUE = term(1)


def is_term(n):
    return _var[n] == BIG


def val(n):
    return _val[n]


def mk(v, lo, hi):
    if lo == hi:
        return lo
    k = (v, lo, hi)
    n = _uniq.get(k)
    if n is None:
        n = len(_var)
        if n > limit:
            raise Effort
        _var.append(v); _lo.append(lo); _hi.append(hi); _val.append(None)
        _uniq[k] = n
    return n


def var_of(desc):
    """BDD for the boolean variable with this descriptor."""
    v = _descidx.get(desc)
    if v is None:
        v = new_key()
        _descs[v] = desc
        _descidx[desc] = v
    return mk(v, FALSE, TRUE)


def new_key():
    end = (_keys[-1] if _keys else 0) + GAP
    if hint is not None:
        t = _tail.get(hint, hint)
        i = bisect.bisect_right(_keys, t)
        nxt = _keys[i] if i < len(_keys) else end
        v = t + max(1, (nxt - t) >> 6)
        if v < nxt:
            _keys.insert(i, v)
            _tail[hint] = v
            return v
    _keys.append(end)
    return end


def desc(v):
    return _descs[v]


_ite = {}


def ite(c, a, b):
    if c == TRUE:
        return a
    if c == FALSE:
        return b
    if a == b:
        return a
    if a == TRUE and b == FALSE:
        return c
    k = (c, a, b)
    r = _ite.get(k)
    if r is not None:
        return r
    v = min(_var[c], _var[a], _var[b])
    c0, c1 = (_lo[c], _hi[c]) if _var[c] == v else (c, c)
    a0, a1 = (_lo[a], _hi[a]) if _var[a] == v else (a, a)
    b0, b1 = (_lo[b], _hi[b]) if _var[b] == v else (b, b)
    r = mk(v, ite(c0, a0, b0), ite(c1, a1, b1))
    _ite[k] = r
    return r


def AND(a, b):
    return ite(a, b, FALSE)


def OR(a, b):
    return ite(a, TRUE, b)


def NOT(a):
    return ite(a, FALSE, TRUE)


def XOR(a, b):
    return ite(a, NOT(b), b)


def IMP(a, b):
    return ite(a, b, TRUE)


def conj(xs):
    r = TRUE
    for x in xs:
        r = AND(r, x)
    return r


def disj(xs):
    r = FALSE
    for x in xs:
        r = OR(r, x)
    return r


_imp = {}


def implies(a, b):
    """a entails b; no diagram is built for the question."""
    if a == FALSE or b == TRUE or a == b:
        return True
    if a == TRUE or b == FALSE:
        return False
    k = (a, b)
    r = _imp.get(k)
    if r is None:
        va, vb = _var[a], _var[b]
        if va < vb:
            r = implies(_lo[a], b) and implies(_hi[a], b)
        elif vb < va:
            r = implies(a, _lo[b]) and implies(a, _hi[b])
        else:
            r = implies(_lo[a], _lo[b]) and implies(_hi[a], _hi[b])
        if len(_imp) > 2000000:
            _imp.clear()
        _imp[k] = r
    return r


_ap = {}


def apply2(op, f, a, b):
    if is_term(a) and is_term(b):
        return term(f(_val[a], _val[b]))
    k = (op, a, b)
    r = _ap.get(k)
    if r is not None:
        return r
    v = min(_var[a], _var[b])
    a0, a1 = (_lo[a], _hi[a]) if _var[a] == v else (a, a)
    b0, b1 = (_lo[b], _hi[b]) if _var[b] == v else (b, b)
    r = mk(v, apply2(op, f, a0, b0), apply2(op, f, a1, b1))
    _ap[k] = r
    return r


def add(a, b):
    if a == FALSE:
        return b
    if b == FALSE:
        return a
    return apply2('+', lambda x, y: x + y, a, b)


def mul(a, b):
    if a == FALSE or b == FALSE:
        return FALSE
    if a == TRUE:
        return b
    if b == TRUE:
        return a
    return apply2('*', lambda x, y: x * y, a, b)


def map1(op, f, a):
    if is_term(a):
        return term(f(_val[a]))
    k = (op, a)
    r = _ap.get(k)
    if r is None:
        r = mk(_var[a], map1(op, f, _lo[a]), map1(op, f, _hi[a]))
        _ap[k] = r
    return r


def scale(a, c):
    if c == 1:
        return a
    return mul(a, term(c))


def neg(a):
    return mul(a, term(-1))


_restrict = {}


def restrict(f, c):
    """Coudert-Madre restrict: agrees with f wherever c holds."""
    if c == TRUE or is_term(f):
        return f
    if c == FALSE:
        return f
    k = (f, c)
    r = _restrict.get(k)
    if r is not None:
        return r
    vf, vc = _var[f], _var[c]
    if vc < vf:
        r = restrict(f, OR(_lo[c], _hi[c]))
    elif vf < vc:
        r = mk(vf, restrict(_lo[f], c), restrict(_hi[f], c))
    else:
        if _lo[c] == FALSE:
            r = restrict(_hi[f], _hi[c])
        elif _hi[c] == FALSE:
            r = restrict(_lo[f], _lo[c])
        else:
            r0, r1 = restrict(_lo[f], _lo[c]), restrict(_hi[f], _hi[c])
            if r0 != r1:
                # drop the test where one side's result also fits the other
                if agree(r1, r0, _lo[c]):
                    r0 = r1
                elif agree(r0, r1, _hi[c]):
                    r1 = r0
            r = mk(vf, r0, r1)
    _restrict[k] = r
    return r


_agree = {}


def agree(a, b, c):
    """a and b are the same wherever c holds."""
    if a == b or c == FALSE:
        return True
    va, vb = _var[a], _var[b]
    if va == BIG and vb == BIG:
        return False
    k = (a, b, c)
    r = _agree.get(k)
    if r is None:
        v = min(va, vb, _var[c])
        a0, a1 = (_lo[a], _hi[a]) if va == v else (a, a)
        b0, b1 = (_lo[b], _hi[b]) if vb == v else (b, b)
        c0, c1 = (_lo[c], _hi[c]) if _var[c] == v else (c, c)
        r = agree(a0, b0, c0) and agree(a1, b1, c1)
        _agree[k] = r
    return r


_support = {}
_sets = {}           # one copy of each set


def support(f):
    s = _support.get(f)
    if s is None:
        if is_term(f):
            s = frozenset()
        else:
            a, b = support(_lo[f]), support(_hi[f])
            s = (a if a >= b else b if b >= a else a | b) | {_var[f]}
            s = _sets.setdefault(s, s)
        _support[f] = s
    return s


def cofactor(f, v, b):
    if is_term(f) or _var[f] > v:
        return f
    k = ('cf', f, v, b)
    r = _ap.get(k)
    if r is not None:
        return r
    if _var[f] == v:
        r = _hi[f] if b else _lo[f]
    else:
        r = mk(_var[f], cofactor(_lo[f], v, b), cofactor(_hi[f], v, b))
    _ap[k] = r
    return r


def _forced(n):
    k = ('fl', n)
    r = _ap.get(k)
    if r is not None:
        return r
    if is_term(n):
        r = frozenset()
    else:
        v, a, b = _var[n], _lo[n], _hi[n]
        if a == FALSE:
            r = _forced(b) | {(v, True)}
        elif b == FALSE:
            r = _forced(a) | {(v, False)}
        elif a == TRUE or b == TRUE:
            r = frozenset()
        else:
            r = _forced(a)
            if r:
                r = r & _forced(b)
    _ap[k] = r
    return r


def forced(pc, vs=None):
    """Literals (among variables vs) forced by pc: dict var->bool."""
    if pc == FALSE:
        return {v: False for v in (vs or ()) if v in support(pc)}
    return {v: b for v, b in _forced(pc) if vs is None or v in vs}


def assign(f, lits):
    for v, b in lits.items():
        if v in support(f):
            f = cofactor(f, v, b)
    return f


def terminals(f):
    k = ('ts', f)
    r = _ap.get(k)
    if r is None:
        if is_term(f):
            r = frozenset([_val[f]])
        else:
            r = terminals(_lo[f]) | terminals(_hi[f])
        _ap[k] = r
    return r


def compose(f, m, memo=None):
    """Substitute BDDs for variables: m maps var -> bdd."""
    if memo is None:
        memo = {}
    if is_term(f):
        return f
    r = memo.get(f)
    if r is not None:
        return r
    v = _var[f]
    lo = compose(_lo[f], m, memo)
    hi = compose(_hi[f], m, memo)
    g = m.get(v)
    if g is None:
        g = mk(v, FALSE, TRUE)
    r = ite(g, hi, lo)
    memo[f] = r
    return r


def paths(f, limit=100000):
    """Yield literal dicts for the paths to TRUE (non-zero)."""
    out = []

    def go(n, lits):
        if len(out) >= limit:
            return
        if is_term(n):
            if _val[n]:
                out.append(dict(lits))
            return
        v = _var[n]
        lits[v] = False
        go(_lo[n], lits)
        lits[v] = True
        go(_hi[n], lits)
        del lits[v]
    go(f, {})
    return out


def exists(f, vs):
    vs = frozenset(vs) & support(f)
    memo = {}

    def go(n):
        if is_term(n) or not (support(n) & vs):
            return n
        r = memo.get(n)
        if r is None:
            a = go(_lo[n])
            if _var[n] in vs:
                r = TRUE if a == TRUE else OR(a, go(_hi[n]))
            else:
                r = mk(_var[n], a, go(_hi[n]))
            memo[n] = r
        return r
    return go(f)


def topvar(f):
    return _var[f]


def lo(f):
    return _lo[f]


def hi(f):
    return _hi[f]


def size(f):
    """Number of decision nodes."""
    seen = set()
    stack = [f]
    while stack:
        n = stack.pop()
        if is_term(n) or n in seen:
            continue
        seen.add(n)
        stack.append(_lo[n])
        stack.append(_hi[n])
    return len(seen)


_sep = {}


def separator(a, b):
    """A simple condition that holds wherever a does and nowhere b does."""
    k = (a, b)
    r = _sep.get(k)
    if r is None:
        r = _separator(a, b)
        _sep[k] = r
        _sep[(b, a)] = NOT(r)
    return r


def _separator(a, b):
    fb = dict(_forced(b))
    best = None
    for v, x in _forced(a):
        if fb.get(v) == (not x) and (best is None or v < best[0]):
            best = (v, x)
    if best is not None:
        return mk(best[0], FALSE, TRUE) if best[1] else mk(best[0], TRUE, FALSE)
    if size(a) + size(b) < 3000:
        for v in sorted(support(a) | support(b), reverse=True):
            ea, eb = exists(a, (v,)), exists(b, (v,))
            if AND(ea, eb) == FALSE:
                a, b = ea, eb
    return restrict(a, OR(a, b))
