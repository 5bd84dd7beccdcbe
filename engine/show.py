"""What the formatting implementations hand to the formatter.

The builders of `std::fmt` are given by contract: each call adds an event
(when, name, type, value) to the trace of the analysis, and the formatter is
one that accepts everything it is given.  How a value is rendered afterwards
is the formatter's business."""
import dd
import poly as P
import spec as SP
import check
import models
from vals import *
from case import Case, Missing, T, F

AND, OR, NOT = dd.AND, dd.OR, dd.NOT
FINE = E((0, T, (UNIT,)))


def texts(it, st, r):
    """The constant strings a reference may point to: (when, string)."""
    v = r
    for _ in range(4):
        if v[0] != 'R':
            break
        v = it.read_ref(st, v)
    if v[0] != 'Q':
        raise check.Mismatch('a text that is not a constant')
    out = []
    for g, ps in v[1]:
        if AND(st.pc, g) == F:
            continue
        w = bytearray()
        for p in ps:
            if p[0] != 'el':
                raise check.Mismatch('a text that is not a constant')
            for x in p[1]:
                n = P.const_val(it.as_int(x, 'text'))
                if n is None:
                    raise check.Mismatch('a text that is not a constant')
                w.append(n)
        out.append((g, w.decode()))
    return out


def text(it, st, r):
    x = texts(it, st, r)
    if len(x) != 1:
        raise check.Mismatch('a name that depends on the value')
    return x[0][1]


def literal(it, st, r):
    for g, s in texts(it, st, r):
        if s:
            it.trace.append((AND(st.pc, g), 'text', s))


def shown(it, st, ty, r):
    """A value written with its own `Display`."""
    v = r
    for _ in range(6):
        t = it.p.ty(ty)
        if t['k'] in ('ref', 'ptr') and v[0] == 'R':
            n = it.p.ty(t['to'])['k']
            if n in ('str', 'dyn'):
                break
            v = it.read_ref(st, v)
            ty = t['to']
            continue
        break
    t = it.p.ty(ty)
    if t['k'] in ('ref', 'ptr') and it.p.ty(t['to'])['k'] == 'str':
        return literal(it, st, v)
    if 'dyn std::error::Error' in t['name'] or 'dyn core::error::Error' in t['name']:
        return event(it, st, 'inner', v)
    event(it, st, 'other', t['name'])


def m_arg(kind):
    def m(it, st, f, args, at, dt):
        return ('O', 'fmtarg', (kind, at[0], args[0]))
    return m


def m_arguments(it, st, f, args, at, dt):
    t = it.read_ref(st, args[0])
    b = []
    for i in range(P.const_val(seq_len(t))):
        b.append(P.const_val(it.as_int(seq_at(t, P.const(i), T), 'template')))
    return ('O', 'fmtargs', (tuple(b), it.read_ref(st, args[1])))


def m_arguments_str(it, st, f, args, at, dt):
    return ('O', 'fmtargs', (None, args[0]))


def m_write_fmt(it, st, f, args, at, dt):
    a = args[1]
    if a[0] != 'O' or a[1] != 'fmtargs':
        event(it, st, 'other', 'arguments')
        return FINE
    b, vs = a[2]
    if b is None:
        literal(it, st, vs)
        return FINE
    i = k = 0
    while i < len(b) and b[i]:
        n = b[i]
        i += 1
        if n <= 0x80:
            if n == 0x80:
                n = b[i] + 256 * b[i + 1]
                i += 2
            event(it, st, 'text', bytes(b[i:i + n]).decode())
            i += n
            continue
        i += 4 * (n & 1) + 2 * (n >> 1 & 1) + 2 * (n >> 2 & 1)
        if n & 8:
            k = b[i] + 256 * b[i + 1]
            i += 2
        x = seq_at(vs, P.const(k), st.pc)
        k += 1
        if x[0] == 'O' and x[1] == 'fmtarg' and x[2][0] == 'display':
            shown(it, st, x[2][1], x[2][2])
        else:
            event(it, st, 'other', 'argument')
    return FINE


def m_display(it, st, f, args, at, dt):
    shown(it, st, at[0], args[0])
    return FINE


def m_char(it, st, f, args, at, dt):
    n = P.const_val(it.as_int(args[1], 'char'))
    if n is None:
        event(it, st, 'other', 'char')
    else:
        event(it, st, 'text', chr(n))
    return FINE


def event(it, st, *e):
    if it.trace is None:
        it.trace = []
    it.trace.append((st.pc,) + e)


def field(it, st, name, v):
    if v[0] == 'O' and v[1] == 'dyndebug':
        ty, r = v[2]
        event(it, st, 'field', name, ty, it.read_ref(st, r))
    else:
        event(it, st, 'field', name, None, top('value of a field'))


def m_struct(it, st, f, args, at, dt):
    event(it, st, 'open', text(it, st, args[1]))
    return ('O', 'builder', ())


def m_field(it, st, f, args, at, dt):
    field(it, st, text(it, st, args[1]), args[2])
    return args[0]


def m_tuple_field(it, st, f, args, at, dt):
    field(it, st, None, args[1])
    return args[0]


def m_finish(it, st, f, args, at, dt):
    event(it, st, 'close')
    return FINE


def m_write(it, st, f, args, at, dt):
    literal(it, st, args[1])
    return FINE


def m_inner(it, st, f, args, at, dt):
    event(it, st, 'inner', args[0])
    return FINE


def m_derived(n):
    def m(it, st, f, args, at, dt):
        # the names of the structure and of its fields, in one string
        ns = text(it, st, args[1]).split(' ')
        event(it, st, 'open', ns[0])
        for i in range(n):
            field(it, st, ns[1 + i], args[2 + i])
        event(it, st, 'close')
        return FINE
    return m


def m_derived_tuple(n):
    def m(it, st, f, args, at, dt):
        event(it, st, 'open', text(it, st, args[1]))
        for i in range(n):
            field(it, st, None, args[2 + i])
        event(it, st, 'close')
        return FINE
    return m


def m_derived_many(it, st, f, args, at, dt):
    ns = text(it, st, args[1]).split(' ')
    event(it, st, 'open', ns[0])
    vs = it.read_ref(st, args[2])
    if P.const_val(seq_len(vs)) != len(ns) - 1:
        raise check.Mismatch('fields of a derived implementation')
    for i, n in enumerate(ns[1:]):
        field(it, st, n, seq_at(vs, P.const(i), st.pc))
    event(it, st, 'close')
    return FINE


def install(it):
    it.trace = []
    for pre in ('std::fmt::', 'core::fmt::'):
        for fm in ("Formatter::<'a>::", "Formatter::<'_>::"):
            it.models[pre + fm + 'debug_struct'] = m_struct
            it.models[pre + fm + 'debug_tuple'] = m_struct
            it.models[pre + fm + 'write_str'] = m_write
            for n in range(1, 6):
                it.models[pre + fm + 'debug_struct_field%d_finish' % n] = m_derived(n)
                it.models[pre + fm + 'debug_tuple_field%d_finish' % n] = m_derived_tuple(n)
            it.models[pre + fm + 'debug_struct_fields_finish'] = m_derived_many
        for b in ("DebugStruct::<'a, 'b>::", "DebugTuple::<'a, 'b>::"):
            it.models[pre + b + 'finish'] = m_finish
            it.models[pre + b + 'finish_non_exhaustive'] = m_finish
        it.models[pre + "DebugStruct::<'a, 'b>::field"] = m_field
        it.models[pre + "DebugTuple::<'a, 'b>::field"] = m_tuple_field
        it.models[pre + 'Display::fmt'] = m_inner
        it.models[pre + 'Write::write_str'] = m_write
        for n in ("Formatter::<'a>::", "Formatter::<'_>::"):
            it.models[pre + n + 'write_fmt'] = m_write_fmt
            it.models[pre + n + 'pad'] = m_write
        it.models["<%sFormatter<'_> as %sWrite>::write_str" % (pre, pre)] = m_write
        it.models["<%sFormatter<'_> as %sWrite>::write_char" % (pre, pre)] = m_char
        it.models["<str as %sDisplay>::fmt" % pre] = m_display
        it.models["<&T as %sDisplay>::fmt" % pre] = m_display
        for n in ("Arguments::<'a>::", "Arguments::<'_>::"):
            it.models[pre + n + 'new'] = m_arguments
            it.models[pre + n + 'from_str'] = m_arguments_str
        for n in ('display', 'debug', 'upper_hex', 'lower_hex', 'pointer', 'binary', 'octal'):
            for l in ("<'_>", "<'a>"):
                it.models[pre + 'rt::Argument::%s::new_%s' % (l, n)] = m_arg(n)


# ------------------------------------------------------------- obligations
def strip(it, st, ty, v, want):
    """The value behind references, wrappers of one field, and Option."""
    for _ in range(10):
        t = it.p.ty(ty)
        if t['k'] in ('ref', 'ptr'):
            if v[0] == 'R':
                v = it.read_ref(st, v)
            ty = t['to']
            continue
        if t['k'] == 'adt' and t['adt'] == 'struct' and len(t['variants'][0]['fields']) == 1 and not isinstance(want, dict) \
                and not t['name'].startswith(('std::', 'alloc::', 'core::')):
            ty = t['variants'][0]['fields'][0][1]
            v = v[1][0] if v[0] == 'S' else v
            continue
        break
    return ty, v


def complete(c):
    """Nothing went to the formatter unseen."""
    for n in c.it.unmodelled:
        if 'ormatter' in n or 'fmt::Write' in n or 'DebugStruct' in n or 'DebugTuple' in n or 'as std::fmt::' in n or n.startswith(('indirect', 'call depth', 'recursion', 'unresolved')):
            raise check.Mismatch('what is written by ' + n)
    if c.it.cut:
        raise check.Mismatch('what is written in a loop without a bound')
    for e in c.it.trace:
        if e[1] == 'other':
            raise check.Mismatch('a text that is not followed: %s' % e[2])


def named(c, name, title, want, ok, label):
    """One structure `title`, with the fields `want`: name -> (when, value)."""
    it = c.it
    complete(c)
    opened, closed, by = F, F, {}
    for e in it.trace:
        if e[1] == 'open':
            c.ob('%s: one structure is written' % label, AND(ok, AND(opened, e[0])), B(T), B(F))
            opened = OR(opened, e[0])
            if title is not None:
                for x in ([title] if isinstance(title, str) else [title]):
                    g = x(e[2]) if callable(x) else (T if x == e[2] else F)
                    c.ob('%s: is named after its type' % label, AND(ok, e[0]), B(g), B(T))
        elif e[1] == 'close':
            closed = OR(closed, e[0])
        elif e[1] == 'field':
            by.setdefault(e[2], []).append((e[0], e[3], e[4]))
        else:
            raise check.Mismatch('%s: writes something else than fields' % label)
    c.ob('%s: the structure is written and closed' % label, ok, B(AND(opened, closed)), B(T))
    for n in sorted(set(by) | set(want), key=str):
        when, val = want.get(n, (F, None))
        seen = F
        for pc, ty, v in by.get(n, ()):
            c.ob('%s: %s is named once' % (label, n), AND(ok, AND(seen, pc)), B(T), B(F))
            seen = OR(seen, pc)
        c.ob('%s: %s is named exactly when it is there' % (label, n), ok, B(seen), B(when))
        for pc, ty, v in by.get(n, ()):
            g = AND(AND(ok, pc), when)
            if val is None or g == F:
                continue
            if ty is None:
                raise check.Mismatch('%s: value of %s' % (label, n))
            ty, v = strip(it, c.st, ty, v, val)
            if isinstance(val, tuple) and val[0] == 'first':
                # one of the sources that are there
                v, _ = check.Cmp(it, c.st).scalar(ty, v)
                for i, (ac, av) in enumerate(val[1]):
                    only = g
                    for j, (oc, _) in enumerate(val[1]):
                        if j != i:
                            only = AND(only, NOT(oc))
                    c.ob('%s: %s' % (label, n), AND(only, ac), v, I(av))
                every = g
                for ac, _ in val[1]:
                    every = AND(every, ac)
                if v[0] == 'I':
                    one = check.cond_or(P.eq(v[1], av) for _, av in val[1])
                    c.ob('%s: %s' % (label, n), every, B(one), B(T))
                continue
            if isinstance(val, tuple) and val[0] == 'seq' and v[0] == 'X':
                v = v[1]
            c.compare(ty, v, val, g, '%s: %s' % (label, n))


def plain(tree, skip=()):
    """Fields that are always or sometimes there, from a tree of the specification."""
    out = {}
    for n, x in tree.items():
        if n in skip:
            continue
        if isinstance(x, tuple) and x[0] == 'opt':
            out[n] = (x[1], x[2])
        else:
            out[n] = (T, x)
    return out


SOME = 'perf_event_data::'


def wants(name, c, k, cfg, tree):
    if name == 'read':
        w = plain(tree)
        w['values'] = (T, None)
    elif name == 'aux':
        w = plain(tree, ('pmu_format_type',))
    elif name == 'namespaces':
        w = plain(tree, [n for n in SP.NS])
    elif name == 'read_group':
        w = plain(tree, ('len', 'is_empty', 'e0', 'e1'))
        w['entries'] = (T, None)
    elif name == 'switch_cpu_wide':
        w = dict(pid=(T, tree['pid']), tid=(T, tree['tid']))
    elif name == 'sample':
        w = plain(tree)
        for n in ('values', 'lbr', 'data_src'):
            w[n] = (w[n][0], None)
        w['transaction'] = (w['transaction'][0], w['transaction'][1]['bits'])
    else:
        w = plain(tree)
    for n, (g, x) in list(w.items()):
        if isinstance(x, tuple) and x[0] == 'either':
            w[n] = (x[1], ('first', x[2]))
    return w


def debug(name):
    root = {'regs_user': 'root_dbg_regs'}.get(name, 'root_dbg_' + name)

    def f(prog):
        c = Case(prog)
        c.parser()
        install(c.it)
        if name == 'sample':
            ok, v, er, erv, okty, ety = c.parse('root_body_sample')
            k = c.cur(ety)
            tree = SP.sample(k, SP.Cfg(c.A))
            cell = c.cell(v)
            c.st.pc = T
            c.hazpc = ok
            c.it.trace = []
            done = c.call(root, ref_c(cell), FORMATTER)
            c.st.pc = T
        else:
            ok, done, er, erv, okty, ety = c.parse(root, FORMATTER)
            k = c.cur(ety)
            tree = SP.BODIES[name](k, SP.Cfg(c.A))
        c.extra = [k.pos]
        both = AND(ok, k.ok)
        if name == 'switch_cpu_wide':
            out = tree['is_out'][1]
            title = lambda s: {'Out': out, 'In': NOT(out)}.get(s, F)
        else:
            title = None
        named(c, 'debug', title, wants(name, c, k, SP.Cfg(c.A), tree), both, 'debug ' + name)
        return c.result('debug ' + name)
    return f


FORMATTER = ref_v(('O', 'formatter', ()))


def debug_entry(prog):
    c = Case(prog)
    c.parser()
    install(c.it)
    i = c.it.sym(c.fn('root_dbg_entry')['locals'][2], 'index')
    ok, v, er, erv, okty, ety = c.parse('root_dbg_entry', i, FORMATTER)
    k = c.cur(ety)
    g = SP.Group(k, SP.Cfg(c.A))
    e = g.get(i[1])
    c.extra = [k.pos]
    named(c, 'debug', None, plain(e[2]), AND(AND(ok, k.ok), e[1]), 'debug entry')
    c.it.trace = [x for x in c.it.trace]
    return c.result('debug entry')


def error_parts(c, root, i=1):
    """An arbitrary error, with the conditions of its kinds and of its having a source."""
    prog, it = c.p, c.it
    t = prog.ty(c.fn(root)['locals'][i])
    v = it.sym(t['to'], ('failure',))
    ty = prog.ty(t['to'])
    kinds = sources = None
    for i, (n, x) in enumerate(ty['variants'][0]['fields']):
        xt = prog.ty(x)
        if xt['k'] == 'adt' and xt['name'].endswith('ErrorKind'):
            kinds = {xt['variants'][j]['name']: g for j, g, _ in v[1][i][1]}
        elif xt['k'] == 'adt' and 'option::Option' in xt['name']:
            sources = {j: g for j, g, _ in v[1][i][1]}
    if kinds is None or sources is None:
        raise Missing('the kind and the source of an error')
    return v, kinds, sources.get(1, F)


def error_api(prog):
    """What an error says about itself through its accessors."""
    c = Case(prog)
    v, kinds, has = error_parts(c, 'root_err_get')
    cell = c.cell(v)
    for root, args, ks, h in (('root_err_get', [ref_c(cell)], kinds, has), ('root_err_new', None, {'External': T}, T), ('root_err_box', None, {'External': T}, T),
                              ('root_err_eof', [], {'Eof': T}, F)):
        if args is None:
            args = [c.sym(root, 0, ('given',))]
        c.st.pc = T
        r = c.call(root, *args)
        ft = c.p.ty(c.ty)['fields']
        c.compare(ft[0], r[1][0], ('enum', {k: (g, []) for k, g in ks.items()}), T, root + ': kind', 'error')
        c.ob(root + ': has a source', T, r[1][1], B(h), 'error')
    return c.result('error api')


def display(prog):
    """The message of an error: the text of its kind, then that of its source."""
    c = Case(prog)
    it = c.it
    install(it)
    v, kinds, has = error_parts(c, 'root_disp_error')
    cell = c.cell(v)
    c.call('root_disp_error', ref_c(cell), FORMATTER)
    c.st.pc = T
    complete(c)
    inner = F
    for e in it.trace:
        if e[1] == 'inner':
            c.ob('the text of the source is written once', AND(inner, e[0]), B(T), B(F))
            inner = OR(inner, e[0])
    c.ob('the text of the source is written exactly when there is one', T, B(inner), B(has))
    own = {}
    for n, g in sorted(kinds.items()):
        # what is written before the text of the source, in each of the two situations
        for s, h in ((True, has), (False, NOT(has))):
            x, after = '', ''
            seen = False
            for e in it.trace:
                w = AND(AND(g, h), e[0])
                if w == F:
                    continue
                if w != AND(g, h):
                    raise check.Mismatch('the message depends on more than the kind and the source')
                if e[1] == 'inner':
                    seen = True
                elif e[1] == 'text':
                    if seen:
                        after += e[2]
                    else:
                        x += e[2]
            own[n, s] = x
            c.ob('nothing follows the text of the source (%s)' % n, AND(g, h), B(T if not after.strip() else F), B(T))
            if not (n == 'External' and s):
                c.ob('%s has a text of its own' % n, AND(g, h), B(T if x.strip() else F), B(T))
        if n != 'External':
            c.ob('%s: the text of the kind comes before that of the source' % n, g, B(T if own[n, True].startswith(own[n, False]) and own[n, False] else F), B(T))
            c.ob('%s: the text of the source is set apart from it' % n, g, B(T if own[n, True][len(own[n, False]):] else F), B(T))
    for a in sorted(kinds):
        for b in sorted(kinds):
            if a < b:
                c.ob('%s and %s have different texts' % (a, b), OR(kinds[a], kinds[b]), B(T if own[a, False] != own[b, False] else F), B(T))
    return c.result('display error')
