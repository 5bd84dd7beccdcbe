"""The dumped program: types, constants, functions, control-flow structure."""
import json


class Prog:
    def __init__(self, path):
        d = json.load(open(path))
        self.types = {t['id']: t for t in d['types']}
        self.fns = {f['id']: f for f in d['fns']}
        self.allocs = {a['id']: a for a in d['allocs']}
        self.roots = d['roots']
        self.impls = d['impls']
        self._cfg = {}
        self.tyname = {t['name']: t['id'] for t in d['types']}

    def ty(self, i):
        return self.types[i]

    def cfg(self, f):
        c = self._cfg.get(f['id'])
        if c is None:
            c = Cfg(f)
            self._cfg[f['id']] = c
        return c


def succs(term):
    k = term[0]
    if k == 'goto':
        return [term[1]]
    if k == 'switch':
        r = [t for _, t in term[2]]
        if term[3] is not None:
            r.append(term[3])
        return r
    if k == 'drop':
        return [term[2]]
    if k == 'call':
        return [term[4]] if term[4] is not None else []
    if k == 'assert':
        return [term[5]]
    if k == 'asm':
        return []
    return []


def _place_uses(pl, out):
    out.add(pl[0])
    for e in pl[1]:
        if e[0] == 'i':
            out.add(e[1])


def _op_uses(op, out):
    if op[0] in ('cp', 'mv'):
        _place_uses(op[1], out)


class Cfg:
    def __init__(self, f):
        blocks = f['blocks']
        n = len(blocks)
        self.succ = [succs(b[1]) for b in blocks]
        # reverse postorder
        seen, order = set(), []
        stack = [(0, iter(self.succ[0]))]
        seen.add(0)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(self.succ[s])))
                    break
            else:
                order.append(b)
                stack.pop()
        order.reverse()
        self.rpo = order
        pos = {b: i for i, b in enumerate(order)}
        self.pos = pos
        pred = {b: [] for b in order}
        for b in order:
            for s in self.succ[b]:
                pred[s].append(b)
        # dominators
        idom = {0: 0}
        changed = True
        while changed:
            changed = False
            for b in order[1:]:
                new = None
                for p in pred[b]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while pos[x] > pos[y]:
                                    x = idom[x]
                                while pos[y] > pos[x]:
                                    y = idom[y]
                            new = x
                if new is not None and idom.get(b) != new:
                    idom[b] = new
                    changed = True

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == 0:
                    return False
                b = idom[b]
        self.loops = {}
        self.irreducible = False
        for b in order:
            for s in self.succ[b]:
                if pos[s] <= pos[b]:
                    if not dom(s, b):
                        self.irreducible = True
                        continue
                    body = self.loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st.extend(pred[x])
        # address-taken locals
        taken = set()
        for blk in blocks:
            for st in blk[0]:
                if st[0] == '=' and st[2][0] in ('ref', 'addr'):
                    pl = st[2][1]
                    if not any(e[0] == '*' for e in pl[1]):
                        taken.add(pl[0])
        self.taken = taken
        # liveness of the other locals
        use, dfs = {}, {}
        for b in order:
            u, d = set(), set()

            def rd(s):
                for x in s:
                    if x not in d:
                        u.add(x)
            for st in blocks[b][0]:
                if st[0] == '=':
                    s = set()
                    rv_uses(st[2], s)
                    pl = st[1]
                    if pl[1]:
                        _place_uses(pl, s)
                    rd(s)
                    if not pl[1]:
                        d.add(pl[0])
                elif st[0] == 'sd':
                    rd({st[1][0]})
                elif st[0] in ('assume',):
                    s = set()
                    _op_uses(st[1], s)
                    rd(s)
                elif st[0] == 'copy':
                    s = set()
                    for o in st[1:4]:
                        _op_uses(o, s)
                    rd(s)
            t = blocks[b][1]
            s = set()
            if t[0] == 'switch':
                _op_uses(t[1], s)
            elif t[0] == 'ret':
                s.add(0)
            elif t[0] == 'drop':
                _place_uses(t[1], s)
            elif t[0] == 'call':
                for o in t[2]:
                    _op_uses(o, s)
                if 'op' in t[1]:
                    _op_uses(t[1]['op'], s)
                if t[3][1]:
                    _place_uses(t[3], s)
            elif t[0] == 'assert':
                _op_uses(t[1], s)
                for o in t[4]:
                    _op_uses(o, s)
            rd(s)
            if t[0] == 'call' and not t[3][1]:
                d.add(t[3][0])
            use[b], dfs[b] = u, d
        live = {b: set() for b in order}
        changed = True
        while changed:
            changed = False
            for b in reversed(order):
                o = set()
                for s in self.succ[b]:
                    o |= live[s]
                # a call's destination is defined on the edge
                i = use[b] | (o - dfs[b])
                if i != live[b]:
                    live[b] = i
                    changed = True
        self.live = live


def rv_uses(rv, s):
    k = rv[0]
    if k in ('use',):
        _op_uses(rv[1], s)
    elif k in ('ref', 'addr', 'discr', 'len'):
        _place_uses(rv[1], s)
    elif k == 'agg':
        for o in rv[2]:
            _op_uses(o, s)
    elif k in ('bin', 'chk'):
        _op_uses(rv[2], s)
        _op_uses(rv[3], s)
    elif k == 'cast':
        _op_uses(rv[2], s)
    elif k == 'rep':
        _op_uses(rv[1], s)
    elif k == 'un':
        _op_uses(rv[2], s)
    else:
        for x in rv[1:]:
            if isinstance(x, list) and x and x[0] in ('cp', 'mv'):
                _op_uses(x, s)
