"""Contracts of the standard-library and abstract-source functions the
analysed crate calls.  Everything not listed here is analysed from its MIR."""
import re
import dd
import poly as P
import vals as V
from vals import *
from interp import Diverge

M = {}


def model(*names):
    def deco(fn):
        for n in names:
            M[n] = fn
        return fn
    return deco


# ----------------------------------------------------------------- panics
def panic(it, st, f, args, at, dt):
    it.oblige(st, 'panic', dd.FALSE, f['def'].split('::')[-1])
    raise Diverge


for n in ('core::panicking::panic', 'core::panicking::assert_failed', 'core::panicking::panic_fmt',
          'core::panicking::unreachable_default_msg', 'core::panicking::panic_nounwind',
          'core::panicking::panic_display', 'core::panicking::panic_explicit', 'core::panicking::panic_str_2015',
          'core::panicking::panic_bounds_check', 'core::panicking::unreachable_display',
          'core::panicking::panic_const::panic_const_add_overflow',
          'core::option::expect_failed', 'core::option::unwrap_failed', 'core::result::unwrap_failed',
          'std::option::expect_failed', 'std::option::unwrap_failed', 'std::result::unwrap_failed',
          'core::slice::copy_from_slice_impl::len_mismatch_fail', 'core::slice::index::slice_index_fail',
          'std::rt::panic_fmt', 'std::rt::begin_panic', 'core::panicking::panic_in_cleanup'):
    M[n] = panic


# ----------------------------------------------------------------- helpers
def option(it, ty, cond, v):
    return E((0, dd.NOT(cond), ()), (1, cond, (v,)))


def result(cond, ok, err):
    return E((0, cond, (ok,)), (1, dd.NOT(cond), (err,)))


def rng_of(v):
    return v


def deref(it, st, r):
    return it.read_ref(st, r)


# ----------------------------------------------------------------- ints
def checked(op):
    def m(it, st, f, args, at, dt):
        ty = at[0]
        r, ok = it.checked(op, args[0], args[1], ty, st)
        return option(it, dt, ok, I(r))
    return m


for w in ('usize', 'u64', 'u32', 'u16', 'u8', 'isize', 'i64', 'i32', 'i16', 'i8', 'u128'):
    pre = 'core::num::<impl %s>::' % w
    M[pre + 'checked_add'] = checked('Add')
    M[pre + 'checked_sub'] = checked('Sub')
    M[pre + 'checked_mul'] = checked('Mul')

    def wrapping(op):
        def m(it, st, f, args, at, dt):
            return it.binop(op, args[0], args[1], at[0], st)
        return m
    M[pre + 'wrapping_add'] = wrapping('Add')
    M[pre + 'wrapping_sub'] = wrapping('Sub')
    M[pre + 'wrapping_mul'] = wrapping('Mul')
    M[pre + 'unchecked_sub'] = wrapping('SubUnchecked')
    M[pre + 'unchecked_add'] = wrapping('AddUnchecked')

    def overflowing(op):
        def m(it, st, f, args, at, dt):
            r, ok = it.checked(op, args[0], args[1], at[0], st)
            w_ = it.binop(op, args[0], args[1], at[0], st)
            return ('S', (w_, B(dd.NOT(ok))))
        return m
    M[pre + 'overflowing_add'] = overflowing('Add')
    M[pre + 'overflowing_sub'] = overflowing('Sub')
    M[pre + 'overflowing_mul'] = overflowing('Mul')

    def saturating(op):
        def m(it, st, f, args, at, dt):
            r, ok = it.checked(op, args[0], args[1], at[0], st)
            lo, hi = it.int_range(at[0])
            sat = hi if op != 'Sub' else lo
            return I(P.ite(ok, r, P.const(sat)))
        return m
    M[pre + 'saturating_add'] = saturating('Add')
    M[pre + 'saturating_sub'] = saturating('Sub')
    M[pre + 'saturating_mul'] = saturating('Mul')

    def count_ones(it, st, f, args, at, dt):
        t = it.p.ty(at[0])
        r = P.popcount(it.as_int(args[0]), t['bits'])
        return I(r if r is not None else P.A(('popcntx', it.as_int(args[0])), 0, 64))
    M[pre + 'count_ones'] = count_ones

    def to_bytes(order):
        def m(it, st, f, args, at, dt):
            t = it.p.ty(at[0])
            w_ = t['bits']
            x = it.wrap(it.as_int(args[0]), w_, False, st.pc)
            b = P.to_bits(x, w_)
            if b is None:
                a = P.A(('val', x), 0, (1 << w_) - 1)
                b = P.to_bits(a, w_)
            el = [I(P.from_bits(b[8 * i:8 * i + 8])) for i in range(w_ // 8)]
            if order == 'be':
                el.reverse()
            return seq(('el', tuple(el)))
        return m
    M[pre + 'to_ne_bytes'] = to_bytes('ne')
    M[pre + 'to_le_bytes'] = to_bytes('le')
    M[pre + 'to_be_bytes'] = to_bytes('be')

    def from_bytes(order):
        def m(it, st, f, args, at, dt):
            t = it.p.ty(dt)
            n = t['bits'] // 8
            q = args[0]
            if q[0] != 'Q':
                return it.top_of(dt, 'from bytes')
            bits = []
            for i in range(n):
                j = i if order != 'be' else n - 1 - i
                b = P.to_bits(it.as_int(seq_at(q, P.const(j), st.pc)), 8)
                if b is None:
                    return it.top_of(dt, 'from bytes')
                bits += b
            return it.from_bits(bits, dt)
        return m
    M[pre + 'from_ne_bytes'] = from_bytes('ne')
    M[pre + 'from_le_bytes'] = from_bytes('le')
    M[pre + 'from_be_bytes'] = from_bytes('be')

    def swap_bytes(it, st, f, args, at, dt):
        w_ = it.p.ty(at[0])['bits']
        b = P.to_bits(it.as_int(args[0]), w_)
        if b is None:
            return it.top_of(dt, 'swap_bytes')
        out = []
        for i in range(w_ // 8):
            out = b[8 * i:8 * i + 8] + out
        return it.from_bits(out, dt)
    M[pre + 'swap_bytes'] = swap_bytes
    M[pre + 'to_be'] = swap_bytes
    M[pre + 'from_be'] = swap_bytes
    M[pre + 'to_le'] = lambda it, st, f, args, at, dt: args[0]
    M[pre + 'from_le'] = lambda it, st, f, args, at, dt: args[0]

    def is_pow2(it, st, f, args, at, dt):
        c = P.const_val(it.as_int(args[0]))
        if c is not None:
            return B(dd.TRUE if c and c & (c - 1) == 0 else dd.FALSE)
        return NotImplemented
    M[pre + 'is_power_of_two'] = is_pow2

    def rem_euclid(it, st, f, args, at, dt):
        x, y = it.as_int(args[0]), it.as_int(args[1])
        it.oblige(st, 'panic', dd.NOT(P.eq(y, P.ZERO)), 'remainder by zero')
        return I(it.divrem('Rem', x, y, st.pc))
    if w[0] == 'u':
        M[pre + 'rem_euclid'] = rem_euclid

    def div_ceil(it, st, f, args, at, dt):
        x, y = it.as_int(args[0]), it.as_int(args[1])
        it.oblige(st, 'panic', dd.NOT(P.eq(y, P.ZERO)), 'division by zero')
        c = P.const_val(y)
        if c:
            return I(it.divrem('Div', P.add(x, P.const(c - 1)), y, st.pc))
        return it.top_of(dt, 'div_ceil')
    M[pre + 'div_ceil'] = div_ceil

    def next_multiple_of(checked):
        def m(it, st, f, args, at, dt):
            x, y = it.as_int(args[0]), it.as_int(args[1])
            c = P.const_val(y)
            if not c:
                it.oblige(st, 'panic', dd.NOT(P.eq(y, P.ZERO)), 'remainder by zero')
                return it.top_of(dt, 'next_multiple_of')
            r = it.divrem('Rem', x, y, st.pc)
            up = P.ite(P.eq(r, P.ZERO), x, P.add(x, P.sub(y, r)))
            lo, hi = it.int_range(at[0])
            ok = P.le(up, P.const(hi))
            if checked:
                return option(it, dt, ok, I(up))
            it.oblige(st, 'panic', ok, 'attempt to add with overflow')
            return I(up)
        return m
    M[pre + 'next_multiple_of'] = next_multiple_of(False)
    M[pre + 'checked_next_multiple_of'] = next_multiple_of(True)

    def minmax(kind):
        def m(it, st, f, args, at, dt):
            x, y = it.as_int(args[0]), it.as_int(args[1])
            x, y = it.assume_lits(x, st.pc), it.assume_lits(y, st.pc)
            c = P.le(x, y)
            d = V.decide(st.pc, c)
            if d is not None:
                c = dd.TRUE if d else dd.FALSE
            return I(P.ite(c, x, y) if kind == 'min' else P.ite(c, y, x))
        return m
    M['std::cmp::impls::<impl std::cmp::Ord for %s>::min' % w] = minmax('min')
    M['std::cmp::impls::<impl std::cmp::Ord for %s>::max' % w] = minmax('max')


def cmpmin(kind):
    def m(it, st, f, args, at, dt):
        if args[0][0] == 'I' and args[1][0] == 'I':
            return minmax(kind)(it, st, f, args, at, dt)
        return NotImplemented
    return m


M['std::cmp::min'] = cmpmin('min')
M['std::cmp::max'] = cmpmin('max')
M['std::cmp::Ord::min'] = cmpmin('min')
M['std::cmp::Ord::max'] = cmpmin('max')


# ----------------------------------------------------------------- mem
def gen_ty(f):
    return [a[1] for a in f['args'] if a[0] == 't']


@model('std::mem::size_of', 'core::mem::size_of')
def size_of(it, st, f, args, at, dt):
    return C(it.p.ty(gen_ty(f)[0])['size'])


@model('std::mem::align_of')
def align_of(it, st, f, args, at, dt):
    return C(it.p.ty(gen_ty(f)[0])['align'])


@model('std::mem::size_of_val')
def size_of_val(it, st, f, args, at, dt):
    t = it.p.ty(gen_ty(f)[0])
    if t['k'] in ('slice', 'str'):
        es = it.p.ty(t['elem'])['size'] if t['k'] == 'slice' else 1
        return I(P.scale(it.slice_len(st, args[0]), es))
    return C(t['size'])


@model('std::mem::MaybeUninit::<T>::uninit')
def mu_uninit(it, st, f, args, at, dt):
    return U


@model('std::mem::MaybeUninit::<T>::zeroed', 'std::mem::zeroed')
def mu_zeroed(it, st, f, args, at, dt):
    t = gen_ty(f)[0]
    return it.from_bits([0] * (8 * it.p.ty(t)['size']), t)


@model('std::mem::MaybeUninit::<T>::new', 'std::mem::ManuallyDrop::<T>::new', 'std::mem::MaybeDangling::<P>::new')
def mu_new(it, st, f, args, at, dt):
    return args[0]


@model('std::mem::MaybeUninit::<T>::as_mut_ptr', 'std::mem::MaybeUninit::<T>::as_ptr')
def mu_ptr(it, st, f, args, at, dt):
    return args[0]


def is_init(it, v):
    """Condition under which v is fully initialised (MaybeUninit fields of a
    struct are part of its value and may stay uninitialised)."""
    if v[0] == 'U':
        return dd.FALSE
    if v[0] == 'P':
        return dd.AND(v[1], is_init(it, v[2]))
    return dd.TRUE


def require_init(it, st, v, ty, what):
    t = it.p.ty(ty)
    if t['k'] == 'adt' and t['adt'] == 'struct' and v[0] == 'S' and not it.transparent(t):
        for (fn, ft), x in zip(t['variants'][0]['fields'], v[1]):
            if not it.transparent(it.p.ty(ft)):
                require_init(it, st, x, ft, what)
        return
    if v[0] == 'T':
        return
    it.oblige(st, 'uninit', is_init(it, v), what)


def unwrap_init(it, st, v):
    while v[0] == 'P':
        v = v[2]
    return v


@model('std::mem::MaybeUninit::<T>::assume_init')
def mu_assume(it, st, f, args, at, dt):
    require_init(it, st, args[0], gen_ty(f)[0], 'assume_init')
    return unwrap_init(it, st, args[0])


@model('std::mem::MaybeUninit::<T>::assume_init_ref')
def mu_assume_ref(it, st, f, args, at, dt):
    v = it.read_ref(st, args[0])
    require_init(it, st, v, gen_ty(f)[0], 'assume_init_ref')
    return ref_v(unwrap_init(it, st, v))


@model('std::mem::MaybeUninit::<T>::assume_init_mut')
def mu_assume_mut(it, st, f, args, at, dt):
    v = it.read_ref(st, args[0])
    require_init(it, st, v, gen_ty(f)[0], 'assume_init_mut')
    return args[0]


@model('std::mem::MaybeUninit::<T>::assume_init_read')
def mu_assume_read(it, st, f, args, at, dt):
    v = it.read_ref(st, args[0])
    require_init(it, st, v, gen_ty(f)[0], 'assume_init_read')
    return unwrap_init(it, st, v)


@model('std::mem::MaybeUninit::<T>::assume_init_drop')
def mu_assume_drop(it, st, f, args, at, dt):
    v = it.read_ref(st, args[0])
    require_init(it, st, v, gen_ty(f)[0], 'assume_init_drop')
    it.drops.append((st.pc, it.site(), args[0]))
    it.write_ref(st, args[0], U)
    return UNIT


@model('std::mem::MaybeUninit::<T>::write')
def mu_write(it, st, f, args, at, dt):
    it.write_ref(st, args[0], args[1])
    return args[0]


@model('std::mem::forget')
def forget(it, st, f, args, at, dt):
    return UNIT


@model('std::mem::replace')
def mem_replace(it, st, f, args, at, dt):
    old = it.read_ref(st, args[0])
    it.write_ref(st, args[0], args[1])
    return old


@model('std::mem::take')
def mem_take(it, st, f, args, at, dt):
    old = it.read_ref(st, args[0])
    t = it.p.ty(gen_ty(f)[0])
    if t['k'] == 'adt' and t['def'].endswith('vec::Vec'):
        it.write_ref(st, args[0], ('V', EMPTY, EMPTY))
    elif t['k'] == 'ref':
        it.write_ref(st, args[0], ref_v(EMPTY))
    elif it.is_int(t['id']):
        it.write_ref(st, args[0], C(0))
    else:
        return NotImplemented
    return old


@model('std::mem::swap')
def mem_swap(it, st, f, args, at, dt):
    a, b = it.read_ref(st, args[0]), it.read_ref(st, args[1])
    it.write_ref(st, args[0], b)
    it.write_ref(st, args[1], a)
    return UNIT


@model('intrinsic:cold_path', 'core::intrinsics::cold_path', 'intrinsic:assert_inhabited')
def unit(it, st, f, args, at, dt):
    return UNIT


@model('intrinsic:likely', 'intrinsic:unlikely', 'core::intrinsics::likely', 'core::intrinsics::unlikely', 'std::hint::black_box')
def ident(it, st, f, args, at, dt):
    return args[0]


@model('core::ub_checks::check_language_ub')
def ub(it, st, f, args, at, dt):
    return B(dd.FALSE)


@model('std::clone::impls::<impl std::clone::Clone for &T>::clone')
def clone_ref(it, st, f, args, at, dt):
    return it.read_ref(st, args[0])


# ----------------------------------------------------------------- slices
@model('core::slice::<impl [T]>::len', 'core::str::<impl str>::len')
def s_len(it, st, f, args, at, dt):
    return I(it.slice_len(st, args[0]))


@model('core::slice::<impl [T]>::is_empty', 'core::str::<impl str>::is_empty')
def s_is_empty(it, st, f, args, at, dt):
    return B(P.eq(it.assume_lits(it.slice_len(st, args[0]), st.pc), P.ZERO))


@model('core::str::<impl str>::as_bytes', 'std::str::<impl str>::as_bytes',
       "std::string::String::as_bytes", "std::string::String::as_str")
def s_id(it, st, f, args, at, dt):
    v = it.read_ref(st, args[0])
    if v[0] == 'V':
        return ref_v(v[1])
    return args[0]


@model('core::slice::<impl [T]>::as_ptr', 'core::slice::<impl [T]>::as_mut_ptr')
def s_ptr(it, st, f, args, at, dt):
    return it.slice_to_elem_ptr(args[0])


def slice_index(it, st, r, idx, ity):
    t = it.p.ty(ity)
    n = it.assume_lits(it.slice_len(st, r), st.pc)
    d = t['def'] if t['k'] == 'adt' else ''
    if t['k'] == 'uint':
        i = it.assume_lits(it.as_int(idx), st.pc)
        it.oblige(st, 'panic', P.lt(i, n), 'index out of bounds')
        return ('elem', i)
    if d.endswith('ops::RangeFull'):
        return ('sub', P.ZERO, n)
    if idx[0] != 'S':
        return None
    if d.endswith('ops::Range') or d.endswith('range::Range'):
        a, b = it.as_int(idx[1][0]), it.as_int(idx[1][1])
        it.oblige(st, 'panic', dd.AND(P.le(a, b), P.le(b, n)), 'slice index out of range')
    elif d.endswith('ops::RangeTo'):
        a, b = P.ZERO, it.as_int(idx[1][0])
        it.oblige(st, 'panic', P.le(b, n), 'slice index out of range')
    elif d.endswith('ops::RangeFrom') or d.endswith('range::RangeFrom'):
        a, b = it.as_int(idx[1][0]), n
        it.oblige(st, 'panic', P.le(a, n), 'slice index out of range')
    elif d.endswith('ops::RangeToInclusive'):
        a, b = P.ZERO, P.add(it.as_int(idx[1][0]), P.ONE)
        it.oblige(st, 'panic', P.le(b, n), 'slice index out of range')
    else:
        return None
    a, b = it.assume_lits(a, st.pc), it.assume_lits(b, st.pc)
    return ('sub', a, P.sub(b, a))


def do_index(it, st, r, idx, ity, mutable):
    x = slice_index(it, st, r, idx, ity)
    if st.pc == dd.FALSE:
        raise Diverge
    if x is None:
        return top('index')
    if x[0] == 'elem':
        if r[0] != 'R':
            return top('index')
        if not mutable:
            v = it.read_ref(st, r)
            return ref_v(seq_at(v, x[1], st.pc)) if v[0] == 'Q' else top('index')
        return ('R', tuple((c, root, path + (('at', x[1]),)) for c, root, path in r[1]))
    return it.slice_sub(st, r, x[1], x[2])


@model('core::slice::index::<impl std::ops::Index<I> for [T]>::index')
def s_index(it, st, f, args, at, dt):
    return do_index(it, st, args[0], args[1], at[1], False)


@model('core::slice::index::<impl std::ops::IndexMut<I> for [T]>::index_mut')
def s_index_mut(it, st, f, args, at, dt):
    return do_index(it, st, args[0], args[1], at[1], True)


@model('core::array::<impl std::ops::Index<I> for [T; N]>::index')
def a_index(it, st, f, args, at, dt):
    return do_index(it, st, args[0], args[1], at[1], False)


@model('core::array::<impl std::ops::IndexMut<I> for [T; N]>::index_mut')
def a_index_mut(it, st, f, args, at, dt):
    n = it.p.ty(it.p.ty(at[0])['to'])['n']
    r = args[0]
    r = ('R', tuple((c, root, path + (('sub', P.ZERO, P.const(n)),)) for c, root, path in r[1]))
    return do_index(it, st, r, args[1], at[1], True)


@model('core::array::<impl [T; N]>::as_slice', 'core::array::<impl [T; N]>::as_mut_slice')
def a_slice(it, st, f, args, at, dt):
    n = it.p.ty(it.p.ty(at[0])['to'])['n']
    return ('R', tuple((c, r, p if r[0] == 'v' and not p else p + (('sub', P.ZERO, P.const(n)),)) for c, r, p in args[0][1]))


@model('core::slice::<impl [T]>::get', 'core::slice::<impl [T]>::get_mut')
def s_get(it, st, f, args, at, dt):
    r, idx = args[0], args[1]
    t = it.p.ty(at[1])
    n = it.assume_lits(it.slice_len(st, r), st.pc)
    d = t['def'] if t['k'] == 'adt' else ''
    if t['k'] == 'uint':
        i = it.assume_lits(it.as_int(idx), st.pc)
        c = P.lt(i, n)
        v = it.read_ref(st, r)
        if f['def'].endswith('get_mut') and r[0] == 'R':
            return option(it, dt, c, ('R', tuple((c2, root, path + (('at', i),)) for c2, root, path in r[1])))
        if v[0] != 'Q':
            return top('get')
        if dd.AND(st.pc, c) == dd.FALSE:
            return E((0, dd.TRUE, ()))
        return option(it, dt, c, ref_v(seq_at(v, i, dd.AND(st.pc, c))))
    if idx[0] == 'S' and d:
        if d.endswith('RangeTo'):
            a, b = P.ZERO, it.as_int(idx[1][0])
        elif d.endswith('RangeFrom'):
            a, b = it.as_int(idx[1][0]), n
        elif d.endswith('Range'):
            a, b = it.as_int(idx[1][0]), it.as_int(idx[1][1])
        else:
            return top('get')
        ok = dd.AND(P.le(a, b), P.le(b, n))
        s2 = st.copy()
        s2.pc = dd.AND(st.pc, ok)
        if s2.pc == dd.FALSE:
            return E((0, dd.TRUE, ()))
        return option(it, dt, ok, it.slice_sub(s2, r, a, P.sub(b, a)))
    return top('get')


@model('core::slice::<impl [T]>::get_unchecked', 'core::slice::<impl [T]>::get_unchecked_mut')
def s_get_unchecked(it, st, f, args, at, dt):
    r, idx = args[0], args[1]
    t = it.p.ty(at[1])
    n = it.assume_lits(it.slice_len(st, r), st.pc)
    mut = f['def'].endswith('mut')
    if t['k'] == 'uint':
        i = it.as_int(idx)
        it.oblige(st, 'bounds', P.lt(i, n), 'get_unchecked out of bounds')
        if mut:
            return ('R', tuple((c, root, path + (('at', i),)) for c, root, path in r[1]))
        v = it.read_ref(st, r)
        return ref_v(seq_at(v, i, st.pc)) if v[0] == 'Q' else top('get_unchecked')
    d = t.get('def', '')
    if idx[0] == 'S':
        if d.endswith('RangeTo'):
            a, b = P.ZERO, it.as_int(idx[1][0])
        elif d.endswith('RangeFrom'):
            a, b = it.as_int(idx[1][0]), n
        elif d.endswith('Range'):
            a, b = it.as_int(idx[1][0]), it.as_int(idx[1][1])
        else:
            return top('get_unchecked')
        it.oblige(st, 'bounds', dd.AND(P.le(a, b), P.le(b, n)), 'get_unchecked out of bounds')
        return it.slice_sub(st, r, a, P.sub(b, a))
    return top('get_unchecked')


@model('core::slice::<impl [T]>::split_at', 'core::slice::<impl [T]>::split_at_mut')
def s_split_at(it, st, f, args, at, dt):
    r, k = args[0], it.assume_lits(it.as_int(args[1]), st.pc)
    n = it.assume_lits(it.slice_len(st, r), st.pc)
    it.oblige(st, 'panic', P.le(k, n), 'split_at out of range')
    if st.pc == dd.FALSE:
        raise Diverge
    return ('S', (it.slice_sub(st, r, P.ZERO, k), it.slice_sub(st, r, k, P.sub(n, k))))


@model('core::slice::<impl [T]>::split_at_unchecked', 'core::slice::<impl [T]>::split_at_mut_unchecked')
def s_split_at_unchecked(it, st, f, args, at, dt):
    r, k = args[0], it.assume_lits(it.as_int(args[1]), st.pc)
    n = it.assume_lits(it.slice_len(st, r), st.pc)
    it.oblige(st, 'bounds', P.le(k, n), 'split_at_unchecked out of range')
    return ('S', (it.slice_sub(st, r, P.ZERO, k), it.slice_sub(st, r, k, P.sub(n, k))))


@model('core::slice::<impl [T]>::split_at_checked')
def s_split_at_checked(it, st, f, args, at, dt):
    r, k = args[0], it.assume_lits(it.as_int(args[1]), st.pc)
    n = it.assume_lits(it.slice_len(st, r), st.pc)
    c = P.le(k, n)
    s2 = st.copy()
    s2.pc = dd.AND(st.pc, c)
    if s2.pc == dd.FALSE:
        return E((0, dd.TRUE, ()))
    return option(it, dt, c, ('S', (it.slice_sub(s2, r, P.ZERO, k), it.slice_sub(s2, r, k, P.sub(n, k)))))


def seq_end(q, which, pc):
    """The first or last element, alternative by alternative."""
    r = None
    for c, ps in q[1]:
        if not ps:
            continue
        x = V._at(ps, P.ZERO if which == 'first' else P.sub(V.pieces_len(ps), P.ONE), dd.AND(pc, c))
        if x is not None:
            r = x if r is None else merge(c, x, r)
    return r if r is not None else top('index of empty')


def s_ends(which, split, mut=False):
    def m(it, st, f, args, at, dt):
        r = args[0]
        n = it.assume_lits(it.slice_len(st, r), st.pc)
        ne = dd.NOT(P.eq(n, P.ZERO))
        d = V.decide(st.pc, ne)
        if d is not None:
            ne = dd.TRUE if d else dd.FALSE
        if ne == dd.FALSE:
            return E((0, dd.TRUE, ()))
        s2 = st.copy()
        s2.pc = dd.AND(st.pc, ne)
        i = P.ZERO if which == 'first' else P.sub(n, P.ONE)
        if mut:
            el = ('R', tuple((c, root, path + (('at', i),)) for c, root, path in r[1]))
        else:
            v = it.read_ref(s2, r)
            el = ref_v(seq_end(v, which, s2.pc)) if v[0] == 'Q' else top('slice end')
        if not split:
            return option(it, dt, ne, el)
        rest = it.slice_sub(s2, r, P.ONE if which == 'first' else P.ZERO, P.sub(n, P.ONE))
        return option(it, dt, ne, ('S', (el, rest)))
    return m


M['core::slice::<impl [T]>::first'] = s_ends('first', False)
M['core::slice::<impl [T]>::last'] = s_ends('last', False)
M['core::slice::<impl [T]>::first_mut'] = s_ends('first', False, True)
M['core::slice::<impl [T]>::last_mut'] = s_ends('last', False, True)
M['core::slice::<impl [T]>::split_first'] = s_ends('first', True)
M['core::slice::<impl [T]>::split_last'] = s_ends('last', True)


@model('<std::ffi::OsStr as std::os::unix::ffi::OsStrExt>::as_bytes', '<std::ffi::OsStr as std::os::unix::ffi::OsStrExt>::from_bytes',
       'std::path::Path::as_os_str', '<std::ffi::OsStr as std::convert::AsRef<std::ffi::OsStr>>::as_ref', '<std::path::Path as std::convert::AsRef<std::ffi::OsStr>>::as_ref',
       '<std::ffi::OsStr as std::convert::AsRef<std::path::Path>>::as_ref', 'std::path::Path::new', 'std::ffi::OsStr::new', 'std::str::<impl str>::as_bytes',
       'std::ffi::OsStr::as_encoded_bytes', 'std::str::from_utf8_unchecked')
def same_bytes(it, st, f, args, at, dt):
    """Views of the same bytes under another type."""
    if f['def'].endswith('::new'):
        t = it.p.ty(f['locals'][1])
        if t['k'] != 'ref' or it.p.ty(t['to'])['name'] not in ('std::ffi::OsStr', 'std::path::Path', 'str'):
            return NotImplemented
    return args[0]


@model('std::slice::<impl [T]>::to_vec', 'std::slice::<impl std::borrow::ToOwned for [T]>::to_owned',
       'std::slice::<impl [T]>::to_vec_in')
def s_to_vec(it, st, f, args, at, dt):
    v = it.read_ref(st, args[0])
    if v[0] != 'Q':
        return top('to_vec')
    it.alloc(st, seq_len(v), gen_ty(f)[0], 'copy')
    return ('V', v, EMPTY)


@model('std::slice::<impl [T]>::into_vec')
def s_into_vec(it, st, f, args, at, dt):
    v = args[0]
    if v[0] == 'X' and v[1][0] == 'Q':
        return ('V', v[1], EMPTY)
    return top('into_vec')


@model('core::slice::<impl [T]>::copy_from_slice', 'core::slice::<impl [T]>::clone_from_slice')
def s_copy_from(it, st, f, args, at, dt):
    n = it.assume_lits(it.slice_len(st, args[0]), st.pc)
    m = it.assume_lits(it.slice_len(st, args[1]), st.pc)
    it.oblige(st, 'panic', P.eq(n, m), 'copy_from_slice length mismatch')
    if st.pc == dd.FALSE:
        raise Diverge
    v = it.read_ref(st, args[1])
    it.write_ref(st, args[0], v)
    return UNIT


@model('core::slice::<impl [T]>::fill')
def s_fill(it, st, f, args, at, dt):
    n = it.slice_len(st, args[0])
    it.write_ref(st, args[0], seq(('rep', args[1], n)))
    return UNIT


@model('core::slice::<impl [T]>::reverse')
def s_reverse(it, st, f, args, at, dt):
    v = it.read_ref(st, args[0])
    if v[0] == 'Q':
        alts = []
        for c, ps in v[1]:
            out = []
            for p in reversed(ps):
                if p[0] == 'el':
                    out.append(('el', tuple(reversed(p[1]))))
                elif p[0] == 'rep':
                    out.append(p)
                elif P.const_val(plen(p)) is not None and P.const_val(plen(p)) <= 64:
                    k = P.const_val(plen(p))
                    out.append(('el', tuple(piece_at(p, P.const(k - 1 - i)) for i in range(k))))
                else:
                    it.write_ref(st, args[0], top('reverse'))
                    return UNIT
            alts.append((c, norm_pieces(out)))
        it.write_ref(st, args[0], mk_seq(alts))
    else:
        it.write_ref(st, args[0], top('reverse'))
    return UNIT


@model('core::slice::<impl [T]>::align_to', 'core::slice::<impl [T]>::align_to_mut')
def s_align_to(it, st, f, args, at, dt):
    tys = gen_ty(f)
    T, D = tys[0], tys[1]
    r = args[0]
    tt, td = it.p.ty(T), it.p.ty(D)
    n = it.assume_lits(it.slice_len(st, r), st.pc)
    if it.same_repr(T, D) or (td['size'] == 1 and tt['size'] == 1 and (it.anybits(D) or it.transparent(td))):
        e = it.slice_sub(st, r, P.ZERO, P.ZERO)
        return ('S', (e, it.slice_sub(st, r, P.ZERO, n), it.slice_sub(st, r, n, P.ZERO)))
    if f['def'].endswith('mut'):
        return top('align_to_mut')
    it.oblige(st, 'transmute', dd.TRUE if it.anybits(D) else dd.FALSE, 'reinterpreting bytes as ' + td['name'])
    it.oblige(st, 'transmute', dd.var_of(('native',)), 'reinterpreting bytes in foreign byte order')
    v = it.read_ref(st, r)
    if v[0] != 'Q':
        return top('align_to')
    w = td['size']
    res = None
    for c, ps in v[1]:
        if not ps:
            x = ('S', (ref_v(EMPTY),) * 3)
        elif len(ps) == 1 and ps[0][0] == 'in' and w:
            _, s, a, m = ps[0]
            al = dd.var_of(('aligned', td['align'], s, a)) if td['align'] > 1 else dd.TRUE
            h = P.ite(al, P.ZERO, P.A(('head', td['align'], s, a), 1, max(td['align'] - 1, 1)))
            fits = P.le(h, m)
            fits_ = V.decide(st.pc, fits)
            if fits_ is True:
                fits = dd.TRUE
            head = P.ite(fits, h, m)
            rest = P.sub(m, head)
            k = P.ite(fits, it.divrem('Div', rest, P.const(w), st.pc), P.ZERO)
            tail = P.sub(rest, P.scale(k, w))
            start = P.add(a, head)
            x = ('S', (ref_v(inn(s, a, head)), ref_v(seq(('ar', D, s, start, k))),
                       ref_v(inn(s, P.add(start, P.scale(k, w)), tail))))
        else:
            return top('align_to')
        res = x if res is None else merge(c, x, res)
    return res


@model('core::slice::<impl [T]>::starts_with', 'core::slice::<impl [T]>::ends_with',
       'core::slice::<impl [T]>::contains')
def s_unk(it, st, f, args, at, dt):
    return B(it.top_bool(f['def']))


@model('std::slice::from_raw_parts', 'std::slice::from_raw_parts_mut', 'core::slice::raw::from_raw_parts')
def from_raw_parts(it, st, f, args, at, dt):
    n = it.as_int(args[1])
    r = args[0]
    if r[0] == 'J' and r[1] == 'castptr':
        p, sty, dty = r[2]
        v = it.read_ref(st, it.fat_from(p, P.scale(n, it.p.ty(dty)['size'])))
        if it.p.ty(sty).get('size') == 1 and v[0] == 'Q' and len(v[1]) == 1 and len(v[1][0][1]) <= 1:
            it.oblige(st, 'transmute', dd.TRUE if it.anybits(dty) else dd.FALSE, 'reinterpreting bytes')
            it.oblige(st, 'transmute', dd.var_of(('native',)), 'reinterpreting bytes in foreign byte order')
            for pc in v[1][0][1]:
                if pc[0] == 'in':
                    al = it.p.ty(dty)['align']
                    it.oblige(st, 'transmute', dd.var_of(('aligned', al, pc[1], pc[2])), 'reinterpreting misaligned bytes')
                    return ref_v(seq(('ar', dty, pc[1], pc[2], n)))
            return ref_v(EMPTY)
        return top('from_raw_parts')
    x = it.fat_from(r, n)
    if x[0] == 'R':
        base = elem_room(it, st, r)
        if base is not None:
            it.oblige(st, 'bounds', P.le(n, base), 'from_raw_parts out of bounds')
    return x


@model('core::slice::cmp::<impl std::cmp::PartialEq<[U]> for [T]>::eq')
def s_eq(it, st, f, args, at, dt):
    a, b = it.read_ref(st, args[0]), it.read_ref(st, args[1])
    return B(seq_eq_cond(it, st, a, b))


@model('std::intrinsics::raw_eq')
def raw_eq(it, st, f, args, at, dt):
    a, b = it.read_ref(st, args[0]), it.read_ref(st, args[1])
    if a[0] == 'I' and b[0] == 'I':
        return B(P.eq(a[1], b[1]))
    return B(seq_eq_cond(it, st, a, b))


def seq_eq_cond(it, st, a, b):
    if a[0] != 'Q' or b[0] != 'Q':
        return it.top_bool('slice eq')
    na, nb = seq_len(a), seq_len(b)
    ka, kb = P.const_val(na), P.const_val(nb)
    k = ka if ka is not None else kb
    if k is None or k > 64:
        return dd.TRUE if a == b else it.top_bool('slice eq')
    c = P.eq(na, nb)
    for i in range(k):
        x, y = seq_at(a, P.const(i), dd.AND(st.pc, c)), seq_at(b, P.const(i), dd.AND(st.pc, c))
        c = dd.AND(c, P.eq(it.as_int(x), it.as_int(y)))
    return c


# ----------------------------------------------------------------- raw pointers
def elem_room(it, st, r):
    """How many elements remain from this element pointer, per its window."""
    if r[0] != 'R':
        return None
    n = None
    for c, root, path in r[1]:
        if not path or path[-1][0] != 'at':
            return None
        base = path[:-1]
        if base and base[-1][0] == 'sub':
            m = base[-1][2]
        else:
            v = it.read(st, root, base)
            if v[0] != 'Q':
                return None
            m = seq_len(v)
        m = P.sub(m, path[-1][1])
        n = m if n is None else P.ite(c, m, n)
    return n


@model('std::ptr::mut_ptr::<impl *mut T>::add', 'std::ptr::const_ptr::<impl *const T>::add',
       'std::ptr::mut_ptr::<impl *mut T>::wrapping_add', 'std::ptr::const_ptr::<impl *const T>::wrapping_add')
def p_add(it, st, f, args, at, dt):
    n = it.as_int(args[1])
    if 'wrapping' not in f['def']:
        room = elem_room(it, st, args[0])
        if room is not None:
            it.oblige(st, 'bounds', P.le(n, it.assume_lits(room, st.pc)), 'pointer moved out of bounds')
    return it.ptr_add(args[0], n, st)


@model('std::ptr::copy_nonoverlapping', 'intrinsic:copy_nonoverlapping', 'intrinsic:copy',
       'core::intrinsics::copy_nonoverlapping', 'core::intrinsics::copy', 'std::ptr::copy')
def p_copy(it, st, f, args, at, dt):
    src, dst, n = args[0], args[1], it.assume_lits(it.as_int(args[2]), st.pc)
    for r, what in ((src, 'copy reads out of bounds'), (dst, 'copy writes out of bounds')):
        room = elem_room(it, st, r)
        if room is not None:
            it.oblige(st, 'bounds', P.le(n, it.assume_lits(room, st.pc)), what)
    if st.pc == dd.FALSE:
        raise Diverge
    if P.const_val(n) == 0:
        return UNIT
    s = it.fat_from(src, n)
    d = it.fat_from(dst, n)
    if d[0] != 'R':
        if dst[0] == 'R' and src[0] == 'R' and P.const_val(n) == 1:
            it.write_ref(st, dst, it.read_ref(st, src))
            return UNIT
        it.note_unmodelled('copy destination')
        return UNIT
    v = it.read_ref(st, s) if s[0] == 'R' else top('copy source')
    it.write_ref(st, d, v)
    return UNIT


@model('std::ptr::mut_ptr::<impl *mut T>::copy_from_nonoverlapping')
def p_copy_from(it, st, f, args, at, dt):
    return p_copy(it, st, f, [args[1], args[0], args[2]], at, dt)


@model('std::ptr::const_ptr::<impl *const T>::copy_to_nonoverlapping', 'std::ptr::mut_ptr::<impl *mut T>::copy_to_nonoverlapping')
def p_copy_to(it, st, f, args, at, dt):
    return p_copy(it, st, f, args, at, dt)


@model('std::ptr::mut_ptr::<impl *mut T>::write', 'std::ptr::write')
def p_write(it, st, f, args, at, dt):
    it.write_ref(st, args[0], args[1])
    return UNIT


@model('std::ptr::mut_ptr::<impl *mut T>::read', 'std::ptr::const_ptr::<impl *const T>::read', 'std::ptr::read')
def p_read(it, st, f, args, at, dt):
    room = elem_room(it, st, args[0])
    if room is not None:
        it.oblige(st, 'bounds', P.ge(room, P.ONE), 'read out of bounds')
    if args[0][0] == 'J':
        return top('read through cast')
    v = it.read_ref(st, args[0])
    require_init(it, st, v, dt, 'read of uninitialised memory')
    return unwrap_init(it, st, v)


@model('std::ptr::mut_ptr::<impl *mut T>::cast', 'std::ptr::const_ptr::<impl *const T>::cast')
def p_cast(it, st, f, args, at, dt):
    s, d = it.p.ty(at[0]), it.p.ty(dt)
    if it.same_repr(s['to'], d['to']):
        return args[0]
    return ('J', 'castptr', (args[0], s['to'], d['to']))


@model('std::ptr::slice_from_raw_parts', 'std::ptr::slice_from_raw_parts_mut')
def p_slice(it, st, f, args, at, dt):
    return it.fat_from(args[0], it.as_int(args[1]))


@model('std::ptr::const_ptr::<impl *const T>::is_aligned')
def p_aligned(it, st, f, args, at, dt):
    r = args[0]
    al = it.p.ty(it.p.ty(at[0])['to'])['align']
    if r[0] == 'J' and r[1] == 'castptr':
        r = r[2][0]
    return B(align_cond(it, st, r, al))


def align_cond(it, st, r, al):
    if al == 1:
        return dd.TRUE
    if r[0] == 'R' and len(r[1]) == 1:
        c, root, path = r[1][0]
        if path and path[-1][0] == 'at':
            v = it.read(st, root, path[:-1])
            if v[0] == 'Q' and len(v[1]) == 1 and len(v[1][0][1]) == 1 and v[1][0][1][0][0] == 'in':
                _, s, a, n = v[1][0][1][0]
                return dd.var_of(('aligned', al, s, P.add(a, path[-1][1])))
    return it.top_bool('alignment')


@model('std::ptr::const_ptr::<impl *const T>::align_offset')
def p_align_offset(it, st, f, args, at, dt):
    al = P.const_val(it.as_int(args[1]))
    if al is None:
        return it.top_of(dt, 'align_offset')
    c = align_cond(it, st, args[0], al)
    return I(P.ite(c, P.ZERO, it.top_int('align_offset', 1, al)))


@model('intrinsic:write_bytes', 'std::ptr::write_bytes', 'core::intrinsics::write_bytes')
def p_write_bytes(it, st, f, args, at, dt):
    dst, val, n = args[0], it.as_int(args[1]), P.const_val(it.as_int(args[2]))
    ty = gen_ty(f)[0] if gen_ty(f) else None
    if n == 1 and P.const_val(val) == 0 and ty is not None:
        it.write_ref(st, dst, it.from_bits([0] * (8 * it.p.ty(ty)['size']), ty))
        return UNIT
    it.write_ref(st, dst, top('write_bytes'))
    return UNIT


# ----------------------------------------------------------------- Vec
# spare capacity of a vector that has grown: some amount
SPARE = seq(('un', P.A(('top', 'capacity', 0), 0, P.BIGLEN)))


def vec_of(it, st, r):
    return it.read_ref(st, r)


@model('std::vec::Vec::<T>::new')
def v_new(it, st, f, args, at, dt):
    return ('V', EMPTY, EMPTY)


@model('std::vec::Vec::<T>::with_capacity')
def v_with_capacity(it, st, f, args, at, dt):
    n = it.assume_lits(it.as_int(args[0]), st.pc)
    ty = gen_ty(f)[0]
    it.alloc(st, n, ty, 'with_capacity')
    return ('V', EMPTY, seq(('un', n)))


@model('std::vec::Vec::<T, A>::reserve', 'std::vec::Vec::<T, A>::reserve_exact')
def v_reserve(it, st, f, args, at, dt):
    n = it.as_int(args[1])
    v = it.read_ref(st, args[0])
    it.alloc(st, n, gen_ty(f)[0], 'reserve')
    if v[0] == 'V':
        # capacity is at least that much
        it.write_ref(st, args[0], ('V', v[1], seq(('un', P.ite(P.ge(seq_len(v[2]), n), seq_len(v[2]), n)))))
    return UNIT


@model('std::vec::from_elem')
def v_from_elem(it, st, f, args, at, dt):
    n = it.assume_lits(it.as_int(args[1]), st.pc)
    it.alloc(st, n, gen_ty(f)[0], 'vec![x; n]')
    return ('V', seq(('rep', args[0], n)), EMPTY)


@model('std::vec::Vec::<T, A>::resize')
def v_resize(it, st, f, args, at, dt):
    v = it.read_ref(st, args[0])
    n = it.assume_lits(it.as_int(args[1]), st.pc)
    if v[0] != 'V':
        it.write_ref(st, args[0], top('resize'))
        return UNIT
    ln = it.assume_lits(seq_len(v[1]), st.pc)
    it.alloc(st, P.sub(n, ln), gen_ty(f)[0], 'resize')
    c = P.lt(n, ln)
    grown = ('V', seq_cat(v[1], seq(('rep', args[2], P.sub(n, ln)))), EMPTY)
    d = V.decide(st.pc, c)
    if d is False:
        new = grown
    else:
        q = seq_slice(v[1], P.ZERO, n, dd.AND(st.pc, c))
        cut = ('V', q, EMPTY) if q[0] == 'Q' else q
        new = cut if d is True else merge(c, cut, grown)
    it.write_ref(st, args[0], new)
    return UNIT


@model('std::vec::Vec::<T, A>::len', 'std::string::String::len')
def v_len(it, st, f, args, at, dt):
    v = it.read_ref(st, args[0])
    return I(seq_len(v[1])) if v[0] == 'V' else it.top_of(dt, 'vec len')


@model('std::vec::Vec::<T, A>::capacity')
def v_cap(it, st, f, args, at, dt):
    v = it.read_ref(st, args[0])
    return I(P.add(seq_len(v[1]), seq_len(v[2]))) if v[0] == 'V' else it.top_of(dt, 'vec cap')


@model('std::vec::Vec::<T, A>::is_empty')
def v_is_empty(it, st, f, args, at, dt):
    v = it.read_ref(st, args[0])
    return B(P.eq(it.assume_lits(seq_len(v[1]), st.pc), P.ZERO)) if v[0] == 'V' else it.top_of(dt, 'vec')


@model('<std::vec::Vec<T, A> as std::ops::Deref>::deref', 'std::vec::Vec::<T, A>::as_slice',
       '<std::vec::Vec<T, A> as std::convert::AsRef<[T]>>::as_ref', '<std::vec::Vec<T> as std::borrow::Borrow<[T]>>::borrow',
       'std::slice::<impl std::borrow::Borrow<[T]> for std::vec::Vec<T, A>>::borrow',
       '<std::string::String as std::ops::Deref>::deref')
def v_deref(it, st, f, args, at, dt):
    v = it.read_ref(st, args[0])
    return ref_v(v[1]) if v[0] == 'V' else top('vec deref of ' + v[0])


def vec_window(it, st, r, part):
    if r[0] != 'R':
        return top('vec')
    out = []
    for c, root, path in r[1]:
        v = it.read(st, root, path)
        if v[0] != 'V':
            return top('vec')
        s = v[1] if part == 'vd' else v[2]
        out.append((c, root, path + ((part,), ('sub', P.ZERO, seq_len(s)))))
    return ('R', tuple(out))


@model('<std::vec::Vec<T, A> as std::ops::DerefMut>::deref_mut', 'std::vec::Vec::<T, A>::as_mut_slice')
def v_deref_mut(it, st, f, args, at, dt):
    return vec_window(it, st, args[0], 'vd')


@model('std::vec::Vec::<T, A>::spare_capacity_mut')
def v_spare(it, st, f, args, at, dt):
    return vec_window(it, st, args[0], 'vs')


@model('std::vec::Vec::<T, A>::as_mut_ptr', 'std::vec::Vec::<T, A>::as_ptr')
def v_as_ptr(it, st, f, args, at, dt):
    # only meaningful for an empty vector with spare room, or a filled one
    v = it.read_ref(st, args[0])
    if v[0] == 'V' and f['def'].endswith('as_ptr'):
        return it.slice_to_elem_ptr(ref_v(v[1]))
    if v[0] == 'V' and v[1] == EMPTY:
        return it.slice_to_elem_ptr(vec_window(it, st, args[0], 'vs'))
    if v[0] == 'V' and P.const_val(seq_len(v[2])) == 0:
        return it.slice_to_elem_ptr(vec_window(it, st, args[0], 'vd'))
    return top('vec pointer')


def seq_init(q):
    """Condition that no element is uninitialised."""
    r = dd.TRUE
    for c, ps in q[1]:
        for p in ps:
            if p[0] == 'un':
                r = dd.AND(r, dd.OR(dd.NOT(c), P.le(p[1], P.ZERO)))
            elif p[0] == 'el':
                for v in p[1]:
                    if v[0] == 'U':
                        r = dd.AND(r, dd.NOT(c))
                    elif v[0] == 'P':
                        r = dd.AND(r, dd.OR(dd.NOT(c), v[1]))
    return r


@model('std::vec::Vec::<T, A>::set_len')
def v_set_len(it, st, f, args, at, dt):
    n = it.assume_lits(it.as_int(args[1]), st.pc)
    v = it.read_ref(st, args[0])
    if v[0] != 'V':
        it.write_ref(st, args[0], top('set_len'))
        return UNIT
    cap = it.assume_lits(P.add(seq_len(v[1]), seq_len(v[2])), st.pc)
    it.oblige(st, 'bounds', P.le(n, cap), 'set_len beyond capacity')
    if st.pc == dd.FALSE:
        raise Diverge
    allq = seq_cat(v[1], v[2])
    data = seq_slice(allq, P.ZERO, n, st.pc)
    if data[0] != 'Q':
        it.write_ref(st, args[0], data)
        return UNIT
    it.oblige(st, 'uninit', seq_init(data), 'set_len exposes uninitialised elements')
    if st.pc == dd.FALSE:
        raise Diverge
    spare = seq_slice(allq, n, P.sub(cap, n), st.pc)
    it.write_ref(st, args[0], ('V', data, spare if spare[0] == 'Q' else EMPTY))
    return UNIT


@model('std::vec::Vec::<T, A>::push')
def v_push(it, st, f, args, at, dt):
    v = it.read_ref(st, args[0])
    if v[0] != 'V':
        it.write_ref(st, args[0], top('push'))
        return UNIT
    it.push(st, v)
    it.write_ref(st, args[0], ('V', seq_cat(v[1], seq(('el', (args[1],)))), SPARE))
    return UNIT


@model('std::vec::Vec::<T, A>::pop')
def v_pop(it, st, f, args, at, dt):
    v = it.read_ref(st, args[0])
    if v[0] != 'V':
        return top('pop')
    n = it.assume_lits(seq_len(v[1]), st.pc)
    ne = dd.NOT(P.eq(n, P.ZERO))
    d = V.decide(st.pc, ne)
    if d is False:
        return E((0, dd.TRUE, ()))
    if d is True:
        ne = dd.TRUE
    pc = dd.AND(st.pc, ne)
    last = P.sub(n, P.ONE)
    x = seq_at(v[1], last, pc)
    rest = seq_slice(v[1], P.ZERO, last, pc)
    new = merge(ne, ('V', rest, v[2]) if rest[0] == 'Q' else rest, v)
    it.write_ref(st, args[0], new)
    return option(it, dt, ne, x)


@model('std::vec::Vec::<T, A>::truncate')
def v_truncate(it, st, f, args, at, dt):
    v = it.read_ref(st, args[0])
    k = it.assume_lits(it.as_int(args[1]), st.pc)
    if v[0] != 'V':
        it.write_ref(st, args[0], top('truncate'))
        return UNIT
    n = it.assume_lits(seq_len(v[1]), st.pc)
    c = P.lt(k, n)
    d = V.decide(st.pc, c)
    if d is False:
        return UNIT
    q = seq_slice(v[1], P.ZERO, k, dd.AND(st.pc, c))
    new = ('V', q, v[2]) if q[0] == 'Q' else q
    it.write_ref(st, args[0], new if d is True else merge(c, new, v))
    return UNIT


@model('std::vec::Vec::<T, A>::clear')
def v_clear(it, st, f, args, at, dt):
    it.write_ref(st, args[0], ('V', EMPTY, EMPTY))
    return UNIT


@model('std::vec::Vec::<T, A>::extend_from_slice')
def v_extend(it, st, f, args, at, dt):
    v = it.read_ref(st, args[0])
    q = it.read_ref(st, args[1])
    if v[0] != 'V' or q[0] != 'Q':
        it.write_ref(st, args[0], top('extend'))
        return UNIT
    n = seq_len(q)
    it.alloc(st, n, gen_ty(f)[0], 'extend')
    it.write_ref(st, args[0], ('V', seq_cat(v[1], q), SPARE))
    return UNIT


@model('std::vec::Vec::<T, A>::append')
def v_append(it, st, f, args, at, dt):
    a, b = it.read_ref(st, args[0]), it.read_ref(st, args[1])
    if a[0] != 'V' or b[0] != 'V':
        it.write_ref(st, args[0], top('append'))
        return UNIT
    it.write_ref(st, args[0], ('V', seq_cat(a[1], b[1]), EMPTY))
    it.write_ref(st, args[1], ('V', EMPTY, b[2]))
    return UNIT


@model('std::vec::Vec::<T, A>::split_off')
def v_split_off(it, st, f, args, at, dt):
    v = it.read_ref(st, args[0])
    k = it.assume_lits(it.as_int(args[1]), st.pc)
    if v[0] != 'V':
        return top('split_off')
    n = it.assume_lits(seq_len(v[1]), st.pc)
    it.oblige(st, 'panic', P.le(k, n), 'split_off out of range')
    if st.pc == dd.FALSE:
        raise Diverge
    a = seq_slice(v[1], P.ZERO, k, st.pc)
    b = seq_slice(v[1], k, P.sub(n, k), st.pc)
    it.write_ref(st, args[0], ('V', a, v[2]) if a[0] == 'Q' else a)
    return ('V', b, EMPTY) if b[0] == 'Q' else b


@model('std::vec::Vec::<T, A>::insert')
def v_insert(it, st, f, args, at, dt):
    v = it.read_ref(st, args[0])
    k = it.assume_lits(it.as_int(args[1]), st.pc)
    if v[0] != 'V':
        it.write_ref(st, args[0], top('insert'))
        return UNIT
    n = it.assume_lits(seq_len(v[1]), st.pc)
    it.oblige(st, 'panic', P.le(k, n), 'insert out of range')
    if st.pc == dd.FALSE:
        raise Diverge
    it.push(st, v)
    a = seq_slice(v[1], P.ZERO, k, st.pc)
    b = seq_slice(v[1], k, P.sub(n, k), st.pc)
    ok = a[0] == 'Q' and b[0] == 'Q'
    it.write_ref(st, args[0], ('V', seq_cat(seq_cat(a, seq(('el', (args[2],)))), b), SPARE) if ok else top('insert'))
    return UNIT


@model('std::vec::Vec::<T, A>::remove', 'std::vec::Vec::<T, A>::swap_remove')
def v_remove(it, st, f, args, at, dt):
    v = it.read_ref(st, args[0])
    k = it.assume_lits(it.as_int(args[1]), st.pc)
    if v[0] != 'V':
        it.write_ref(st, args[0], top('remove'))
        return top('remove')
    n = it.assume_lits(seq_len(v[1]), st.pc)
    it.oblige(st, 'panic', P.lt(k, n), 'remove out of range')
    if st.pc == dd.FALSE:
        raise Diverge
    x = seq_at(v[1], k, st.pc)
    if f['def'].endswith('swap_remove'):
        it.write_ref(st, args[0], top('swap_remove'))
        return x
    a = seq_slice(v[1], P.ZERO, k, st.pc)
    e = P.add(k, P.ONE)
    b = seq_slice(v[1], e, P.sub(n, e), st.pc)
    it.write_ref(st, args[0], ('V', seq_cat(a, b), v[2]) if a[0] == 'Q' and b[0] == 'Q' else top('remove'))
    return x


@model('std::vec::Vec::<T, A>::drain')
def v_drain(it, st, f, args, at, dt):
    v = it.read_ref(st, args[0])
    if v[0] != 'V':
        return top('drain')
    x = slice_index(it, st, ref_v(v[1]), args[1], at[1])
    if st.pc == dd.FALSE:
        raise Diverge
    if x is None or x[0] != 'sub':
        return top('drain')
    a, n = x[1], x[2]
    tot = seq_len(v[1])
    mid = seq_slice(v[1], a, n, st.pc)
    h = seq_slice(v[1], P.ZERO, a, st.pc)
    e = P.add(a, n)
    t = seq_slice(v[1], e, P.sub(tot, e), st.pc)
    if any(z[0] != 'Q' for z in (mid, h, t)):
        it.write_ref(st, args[0], top('drain'))
        return top('drain')
    it.write_ref(st, args[0], ('V', seq_cat(h, t), v[2]))
    return ('J', 'seqiter', (mid, 'own'))


@model('<std::vec::Vec<T, A> as std::ops::Index<I>>::index')
def v_index(it, st, f, args, at, dt):
    v = it.read_ref(st, args[0])
    if v[0] != 'V':
        return top('vec index')
    return do_index(it, st, ref_v(v[1]), args[1], at[1], False)


@model('<std::vec::Vec<T, A> as std::ops::IndexMut<I>>::index_mut')
def v_index_mut(it, st, f, args, at, dt):
    r = vec_window(it, st, args[0], 'vd')
    if r[0] != 'R':
        return r
    return do_index(it, st, r, args[1], at[1], True)


@model('<std::vec::Vec<T, A> as std::clone::Clone>::clone')
def v_clone(it, st, f, args, at, dt):
    v = it.read_ref(st, args[0])
    return ('V', v[1], EMPTY) if v[0] == 'V' else top('clone')


@model('std::vec::Vec::<T, A>::into_boxed_slice')
def v_boxed(it, st, f, args, at, dt):
    return ('X', args[0][1]) if args[0][0] == 'V' else top('into_boxed_slice')


@model('<std::vec::Vec<T> as std::convert::From<&[T]>>::from', '<std::vec::Vec<T> as std::convert::From<&mut [T]>>::from')
def v_from_slice(it, st, f, args, at, dt):
    v = it.read_ref(st, args[0])
    return ('V', v, EMPTY) if v[0] == 'Q' else top('vec from')


@model('<std::vec::Vec<T> as std::convert::From<[T; N]>>::from')
def v_from_arr(it, st, f, args, at, dt):
    return ('V', args[0], EMPTY) if args[0][0] == 'Q' else top('vec from')


@model('std::boxed::Box::<T>::new')
def box_new(it, st, f, args, at, dt):
    return ('X', args[0])


@model('std::boxed::Box::<T>::new_uninit')
def box_uninit(it, st, f, args, at, dt):
    """A box that is filled in place (vec![...])."""
    it.nframe += 1
    cell = ('box', it.nframe)
    mu = it.p.ty(dt)['args'][0][1]
    st.mem[cell] = ('N', mu, 1, ('S', (U,)))
    return ref_c(cell)


@model('std::boxed::box_assume_init_into_vec_unsafe')
def box_into_vec(it, st, f, args, at, dt):
    v = it.read_ref(st, args[0])
    for _ in range(4):
        if v[0] == 'N':
            v = v[3]
        elif v[0] == 'S' and len(v[1]) == 1:
            v = v[1][0]
    return ('V', v, EMPTY) if v[0] == 'Q' else top('vec![]')


# ----------------------------------------------------------------- iterators
@model('core::slice::<impl [T]>::iter', "core::slice::iter::<impl std::iter::IntoIterator for &'a [T]>::into_iter")
def s_iter(it, st, f, args, at, dt):
    v = it.read_ref(st, args[0])
    return ('J', 'seqiter', (v, 'ref')) if v[0] == 'Q' else top('iter')


@model("<&'a std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter")
def v_iter(it, st, f, args, at, dt):
    v = it.read_ref(st, args[0])
    return ('J', 'seqiter', (v[1], 'ref')) if v[0] == 'V' else top('iter')


@model('<std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter')
def v_into_iter(it, st, f, args, at, dt):
    return ('J', 'seqiter', (args[0][1], 'own')) if args[0][0] == 'V' else top('iter')


@model('core::array::iter::<impl std::iter::IntoIterator for [T; N]>::into_iter')
def a_into_iter(it, st, f, args, at, dt):
    return ('J', 'seqiter', (args[0], 'own')) if args[0][0] == 'Q' else top('iter')


def wrap_item(kind, v):
    return ref_v(v) if kind == 'ref' else v


def iter_next(back):
    def m(it, st, f, args, at, dt):
        o = it.read_ref(st, args[0])
        if o[0] != 'J' or o[1] != 'seqiter':
            if o[0] == 'T':
                return top(o[1])
            return NotImplemented
        q, kind = o[2]
        n = it.assume_lits(seq_len(q), st.pc)
        ne = dd.NOT(P.eq(n, P.ZERO))
        d = V.decide(st.pc, ne)
        if d is False:
            return E((0, dd.TRUE, ()))
        if d is True:
            ne = dd.TRUE
        pc = dd.AND(st.pc, ne)
        last = P.sub(n, P.ONE)
        if back:
            x = seq_at(q, last, pc)
            rest = seq_slice(q, P.ZERO, last, pc)
        else:
            x = seq_at(q, P.ZERO, pc)
            rest = seq_slice(q, P.ONE, last, pc)
        new = ('J', 'seqiter', (rest, kind)) if rest[0] == 'Q' else top('iter')
        it.write_ref(st, args[0], merge(ne, new, o))
        return option(it, dt, ne, wrap_item(kind, x))
    return m


for nm in ("std::slice::Iter<'a, T>", "std::vec::IntoIter<T, A>", "std::vec::Drain<'_, T, A>", "std::array::IntoIter<T, N>",
           "std::iter::Copied<I>", "std::iter::Cloned<I>"):
    M['<%s as std::iter::Iterator>::next' % nm] = iter_next(False)
    M['<%s as std::iter::DoubleEndedIterator>::next_back' % nm] = iter_next(True)
M["core::slice::iter::<impl std::iter::Iterator for std::slice::Iter<'a, T>>::next"] = iter_next(False)
M["std::slice::iter::<impl std::iter::Iterator for std::slice::Iter<'a, T>>::next"] = iter_next(False)
M["core::slice::iter::<impl std::iter::DoubleEndedIterator for std::slice::Iter<'a, T>>::next_back"] = iter_next(True)
M["std::slice::iter::<impl std::iter::DoubleEndedIterator for std::slice::Iter<'a, T>>::next_back"] = iter_next(True)


def iter_copied(it, st, f, args, at, dt):
    o = args[0]
    if o[0] == 'J' and o[1] == 'seqiter':
        return ('J', 'seqiter', (o[2][0], 'own'))
    return NotImplemented


M['std::iter::Iterator::copied'] = iter_copied
M['std::iter::Iterator::cloned'] = iter_copied


@model('std::iter::Iterator::rev')
def iter_rev(it, st, f, args, at, dt):
    o = args[0]
    if o[0] == 'J' and o[1] == 'seqiter':
        cell = ('tmp', it.nframe, len(it.obs), id(o))
        q = o[2][0]
        n = P.const_val(seq_len(q))
        if n is not None and n <= 128 and q[0] == 'Q':
            els = tuple(seq_at(q, P.const(n - 1 - i), st.pc) for i in range(n))
            return ('J', 'seqiter', (seq(('el', els)) if els else EMPTY, o[2][1]))
        return top('rev')
    return NotImplemented


@model('std::iter::Iterator::collect', 'std::slice::<impl [T]>::to_vec_from_iter')
def iter_collect(it, st, f, args, at, dt):
    o = args[0]
    t = it.p.ty(dt)
    if o[0] == 'J' and o[1] == 'seqiter' and t['k'] == 'adt' and t['def'].endswith('vec::Vec'):
        el = it.p.ty(t['args'][0][1])
        if el['k'] == 'ref' and o[2][1] == 'ref':
            return top('collect refs')
        return ('V', o[2][0], EMPTY)
    if o[0] == 'T':
        return top(o[1])
    return NotImplemented


@model('<std::vec::Vec<T, A> as std::iter::Extend<T>>::extend', "<std::vec::Vec<T, A> as std::iter::Extend<&'a T>>::extend")
def v_extend_iter(it, st, f, args, at, dt):
    v = it.read_ref(st, args[0])
    o = args[1]
    if o[0] == 'R':
        q = it.read_ref(st, o)
        o = ('J', 'seqiter', (q, 'own')) if q[0] == 'Q' else (('J', 'seqiter', (q[1], 'own')) if q[0] == 'V' else o)
    elif o[0] == 'V':
        o = ('J', 'seqiter', (o[1], 'own'))
    elif o[0] == 'Q':
        o = ('J', 'seqiter', (o, 'own'))
    elif o[0] == 'E':
        # Option
        for vi, c, fs in o[1]:
            if vi == 1 and v[0] == 'V':
                new = ('V', seq_cat(v[1], seq(('el', (fs[0],)))), EMPTY)
                it.write_ref(st, args[0], merge(c, new, v))
        return UNIT
    if v[0] == 'V' and o[0] == 'J' and o[1] == 'seqiter':
        it.write_ref(st, args[0], ('V', seq_cat(v[1], o[2][0]), EMPTY))
        return UNIT
    if v[0] == 'T' or o[0] == 'T':
        it.write_ref(st, args[0], top('extend'))
        return UNIT
    return NotImplemented


@model('std::iter::Iterator::all', 'std::iter::Iterator::any', "<std::slice::Iter<'a, T> as std::iter::Iterator>::all", "<std::slice::Iter<'a, T> as std::iter::Iterator>::any")
def iter_all(it, st, f, args, at, dt):
    """all/any over a byte range: a single quantified fact."""
    isall = f['def'].endswith('all')
    o = it.read_ref(st, args[0])
    if o[0] != 'J' or o[1] != 'seqiter':
        return NotImplemented
    q, kind = o[2]
    clo = args[1]
    cty = it.p.ty(at[1])
    fn = closure_fn(it, cty)
    if fn is None or q[0] != 'Q':
        return NotImplemented
    res = None
    for c, ps in q[1]:
        r = dd.TRUE if isall else dd.FALSE
        for p in ps:
            n = P.const_val(plen(p))
            if n is not None and n <= 32:
                for i in range(n):
                    x = call_closure(it, st, fn, clo, [wrap_item(kind, piece_at(p, P.const(i)))])
                    b = it.as_bool(x)
                    r = dd.AND(r, b) if isall else dd.OR(r, b)
            else:
                bound = P.A(('bound', len(it.stack)), 0, P.BIGLEN)
                s2 = st.copy()
                s2.pc = dd.AND(st.pc, P.lt(bound, plen(p)))
                x = call_closure(it, s2, fn, clo, [wrap_item(kind, piece_at(p, bound))])
                b = it.as_bool(x)
                if not isall:
                    b = dd.NOT(b)
                # b over the bound index: canonical quantified predicate
                qv = forall(bound, plen(p), b)
                r = dd.AND(r, qv) if isall else dd.OR(r, dd.NOT(qv))
        res = r if res is None else dd.ite(c, r, res)
    it.write_ref(st, args[0], ('J', 'seqiter', (EMPTY, kind)))
    return B(res if res is not None else (dd.TRUE if isall else dd.FALSE))


BOUND = P.A(('bound', 'i'), 0, P.BIGLEN)


def forall(bound, n, b):
    """Predicate: for all 0 <= i < n, b[i]."""
    if b == dd.TRUE:
        return dd.TRUE
    s = P.Subst({P.single_atom(bound): BOUND})
    b = s.bdd(b)
    return dd.var_of(('forall', n, ('d', b)))


def seq_fold(it, st, f, args, at, dt):
    """fold over items that can be told apart one by one."""
    o = args[0]
    if o[0] != 'J' or o[1] != 'seqiter':
        return top(o[1]) if o[0] == 'T' else NotImplemented
    q, kind = o[2]
    fn = closure_fn(it, it.p.ty(at[2]))
    if fn is None or q[0] != 'Q':
        return NotImplemented
    most = 0
    for c, ps in q[1]:
        n = P.const_val(seq_len(('Q', ((dd.TRUE, ps),))))
        if n is None or n > 64:
            it.lost += 1
            n = P.const_val(seq_len(('Q', ((dd.TRUE, ps),))))
            if n is None and not it.unroll:
                return top('fold')
            n = it.unroll or 64
        most = max(most, n)
    length = seq_len(q)
    acc = args[1]
    out, left = None, st
    for i in range(most + 1):
        more = P.lt(P.const(i), length)
        d = V.decide(left.pc, more)
        if d is not True:
            # no further item
            s = left.copy()
            s.pc = dd.AND(left.pc, dd.NOT(more))
            if s.pc != dd.FALSE:
                if out is None:
                    out, res = s, acc
                else:
                    res = merge(s.pc, acc, res)
                    out = it.merge_st(out, s)
        if d is False or i == most:
            if d is not False and i == most:
                rest = dd.AND(left.pc, more)
                if rest != dd.FALSE and not P.infeasible(rest, 300):
                    it.cut.append(((f['def'], 0), rest))
            break
        left = left.copy()
        left.pc = dd.AND(left.pc, more)
        if left.pc == dd.FALSE:
            break
        acc = call_closure(it, left, fn, args[2], [acc, wrap_item(kind, seq_at(q, P.const(i), left.pc))])
        if left.pc == dd.FALSE:
            break
    if out is None:
        raise Diverge
    st.pc, st.mem = out.pc, out.mem
    return res


for nm in ("std::slice::Iter<'a, T>", "std::vec::IntoIter<T, A>", "std::vec::Drain<'_, T, A>", "std::array::IntoIter<T, N>",
           "std::iter::Copied<I>", "std::iter::Cloned<I>"):
    M['<%s as std::iter::Iterator>::fold' % nm] = seq_fold


def seq_hint(it, st, f, args, at, dt):
    o = it.read_ref(st, args[0])
    if o[0] != 'J' or o[1] != 'seqiter' or o[2][0][0] != 'Q':
        return NotImplemented
    n = I(seq_len(o[2][0]))
    return ('S', (n, option(it, it.p.ty(dt)['fields'][1], dd.TRUE, n)))


def seq_exact(it, st, f, args, at, dt):
    o = it.read_ref(st, args[0])
    if o[0] != 'J' or o[1] != 'seqiter' or o[2][0][0] != 'Q':
        return NotImplemented
    return I(seq_len(o[2][0]))


def seq_count(it, st, f, args, at, dt):
    o = args[0]
    if o[0] != 'J' or o[1] != 'seqiter' or o[2][0][0] != 'Q':
        return NotImplemented
    return I(seq_len(o[2][0]))


for nm in ("std::slice::Iter<'a, T>", "std::slice::Iter<'_, T>", "std::vec::IntoIter<T, A>", "std::array::IntoIter<T, N>",
           "std::iter::Copied<I>", "std::iter::Cloned<I>"):
    M['<%s as std::iter::Iterator>::size_hint' % nm] = seq_hint
    M['<%s as std::iter::ExactSizeIterator>::len' % nm] = seq_exact
    M['<%s as std::iter::Iterator>::count' % nm] = seq_count


@model('<I as std::iter::adapters::filter::SpecAssumeCount>::assume_count_le_upper_bound')
def assume_count(it, st, f, args, at, dt):
    return UNIT


def closure_fn(it, cty):
    if cty['k'] == 'closure':
        fns = [x for x in cty.get('fns') or [] if x is not None]
        return fns
    if cty['k'] == 'fndef':
        return [cty['fn']]
    if cty['k'] == 'fnptr':
        return None
    return None


def call_closure(it, st, fns, clo, args):
    """Call a closure value with these arguments (by its body)."""
    last = None
    # The body before the shims that call it.
    fns = sorted(fns, key=lambda n: n not in it.p.fns or
                 it.p.fns[n]['def'].endswith(('call_once', 'call_mut',
                                              'call')))
    for fn in fns:
        f = it.p.fns.get(fn)
        if f is None or not f.get('blocks'):
            continue
        a0 = it.p.ty(f['locals'][1]) if f['argc'] >= 1 else None
        if '{closure' in f['def'] or f['def'].endswith('}'):
            if f['argc'] == 1 + len(args):
                first = clo
                if a0['k'] in ('ref',):
                    if a0['mut']:
                        cell = ('clo', it.nframe, len(it.stack))
                        st.mem[cell] = clo
                        first = ref_c(cell)
                    else:
                        first = ref_v(clo)
                return it.call(fn, [first] + list(args), st)
        elif f['argc'] == len(args):
            return it.call(fn, list(args), st)
        last = f
    it.note_unmodelled('closure call')
    return top('closure call')


# Range<usize>
def range_next(back):
    def m(it, st, f, args, at, dt):
        o = it.read_ref(st, args[0])
        if o[0] != 'S':
            return NotImplemented
        a, b = it.assume_lits(it.as_int(o[1][0]), st.pc), it.assume_lits(it.as_int(o[1][1]), st.pc)
        c = P.lt(a, b)
        d = V.decide(st.pc, c)
        if d is False:
            return E((0, dd.TRUE, ()))
        if d is True:
            c = dd.TRUE
        if back:
            x = P.sub(b, P.ONE)
            new = ('S', (o[1][0], I(P.ite(c, x, b))))
        else:
            x = a
            new = ('S', (I(P.ite(c, P.add(a, P.ONE), a)), o[1][1]))
        it.write_ref(st, args[0], new)
        return option(it, dt, c, I(x))
    return m


M['std::iter::range::<impl std::iter::Iterator for std::ops::Range<A>>::next'] = range_next(False)
M['std::iter::range::<impl std::iter::DoubleEndedIterator for std::ops::Range<A>>::next_back'] = range_next(True)


# ----------------------------------------------------------------- formatting / errors
@model('<T as std::string::ToString>::to_string', 'std::fmt::format', 'std::string::String::from',
       'std::fmt::Arguments::<\'a>::new', 'std::fmt::Arguments::<\'a>::from_str',
       "core::fmt::rt::Argument::<'_>::new_display", "core::fmt::rt::Argument::<'_>::new_debug",
       "core::fmt::rt::Argument::<'_>::new_lower_hex")
def opaque_fmt(it, st, f, args, at, dt):
    return ('O', f['def'], ())


@model("std::fmt::Arguments::<'a>::as_str")
def args_as_str(it, st, f, args, at, dt):
    # whether the compiler flattened the arguments into a literal is not decided here
    c = it.top_bool('flattened arguments')
    t = it.p.ty(dt)['variants'][1]['fields'][0][1]
    return option(it, dt, c, ('O', 'literal', ()))


@model('<T as std::convert::Into<U>>::into', '<T as std::convert::From<T>>::from')
def into(it, st, f, args, at, dt):
    t = it.p.ty(dt)
    if t['k'] == 'adt' and t.get('box') and it.p.ty(t['args'][0][1])['k'] == 'dyn':
        v = args[0]
        return ('O', 'boxdyn', (it.p.ty(at[0])['name'], v))
    return NotImplemented


def box_from(it, st, f, args, at, dt):
    return ('O', 'boxdyn', (it.p.ty(at[0])['name'], args[0]))


for nm in ("<std::boxed::Box<dyn std::error::Error + std::marker::Send + std::marker::Sync + 'a> as std::convert::From<E>>::from",
           "<std::boxed::Box<dyn std::error::Error + std::marker::Send + std::marker::Sync + 'a> as std::convert::From<&'b str>>::from",
           "<std::boxed::Box<dyn std::error::Error + std::marker::Send + std::marker::Sync> as std::convert::From<std::string::String>>::from"):
    M[nm] = box_from


# ----------------------------------------------------------------- bindgen
@model('perf_event_open_sys::bindings::__BindgenBitfieldUnit::<Storage>::get')
def bf_get(it, st, f, args, at, dt):
    u = it.read_ref(st, args[0])
    off, w = P.const_val(it.as_int(args[1])), P.const_val(it.as_int(args[2]))
    ty = it.p.ty(at[0])['to']
    bits = it.bits_of(u, ty, st.pc)
    if bits is None or off is None or w is None or off + w > len(bits):
        return it.top_of(dt, 'bitfield')
    return I(P.from_bits(bits[off:off + w]))


@model('perf_event_open_sys::bindings::__BindgenBitfieldUnit::<Storage>::set')
def bf_set(it, st, f, args, at, dt):
    u = it.read_ref(st, args[0])
    off, w = P.const_val(it.as_int(args[1])), P.const_val(it.as_int(args[2]))
    ty = it.p.ty(at[0])['to']
    bits = it.bits_of(u, ty, st.pc)
    vb = P.to_bits(it.as_int(args[3]), 64)
    if bits is None or off is None or w is None or vb is None:
        it.write_ref(st, args[0], top('bitfield'))
        return UNIT
    bits = bits[:off] + vb[:w] + bits[off + w:]
    it.write_ref(st, args[0], it.from_bits(bits, ty))
    return UNIT


# ----------------------------------------------------------------- abstract source
SRCERR = {}


def clen(view, pos, lim=None):
    return P.A(('clen', view, pos, lim), 1, P.BIGLEN)


def source_axioms(atoms, lits, pc):
    out = []
    for a in atoms:
        d = P.adesc(a)
        if d[0] == 'clen':
            pos, lim = d[2], d[3]
            c = P.lt(pos, lim)
            ok = c == dd.TRUE
            if not ok and pc is not None:
                ok = dd.implies(pc, c)
            if not ok and lits:
                ok = dd.assign(c, lits) == dd.TRUE
            if ok:
                l = P.lin_of(P.sub(lim, P.add(pos, P.of_atom(a))), None)
                if l is None and pc is not None:
                    q = P.sub(lim, P.add(pos, P.of_atom(a)))
                    l = P.lin_of(P.assign(q, dd.forced(pc, P.psupport(q))))
                if l is not None:
                    out.append(l)
        elif d[0] == 'div':
            x, k = d[1], d[2]
            l = P.lin_of(P.sub(x, P.scale(P.of_atom(a), k)))
            if l is not None:
                out.append(l)
            l = P.lin_of(P.sub(P.add(P.scale(P.of_atom(a), k), P.const(k - 1)), x))
            if l is not None:
                out.append(l)
        elif d[0] == 'bits':
            bs = d[1]
            x = sh = None
            for j, b in enumerate(bs):
                if b == 0:
                    continue
                if b == 1 or b[0] != 'b' or (x is not None and (b[1] != x or b[2] - j != sh)):
                    x = None
                    break
                x, sh = b[1], b[2] - j
            if x is None or sh < 0:
                continue
            # the value with some bits left out, shifted
            p = P.scale(P.of_atom(a), 1 << sh)
            miss = (1 << P.width_of(P.arange(x)[1])) - 1 - sum(1 << (j + sh) for j, b in enumerate(bs) if b != 0)
            for q in (P.sub(P.of_atom(x), p), P.sub(P.add(p, P.const(miss)), P.of_atom(x))):
                l = P.lin_of(q)
                if l is not None:
                    out.append(l)
    return out


P.AXIOMS.append(source_axioms)


def the_source(it, st, r):
    v = it.read_ref(st, r)
    return v if v[0] == 'Z' else None


def src_error(it, ety, base):
    k = (id(it), base)
    if k not in SRCERR:
        SRCERR[k] = it.sym(ety, ('srcerr', base))
    return SRCERR[k]


def eof_error(it, ety):
    return it.sym(ety, ('eof',))


def abs_chunk(it, st, f, args, at, dt):
    z = the_source(it, st, args[0])
    if z is None:
        return top('source')
    (base, view), pos, lim = z[1], it.assume_lits(z[2], st.pc), z[3]
    rt = it.p.ty(dt)
    okty = rt['variants'][0]['fields'][0][1]
    ety = rt['variants'][1]['fields'][0][1]
    c = P.lt(pos, lim)
    d = V.decide(st.pc, c)
    if d is not None:
        c = dd.TRUE if d else dd.FALSE
    ct = it.p.ty(okty)
    names = [v['name'] for v in ct['variants']]
    x = dd.var_of(('ext', view, pos))
    data = inn(base, pos, clen(view, pos, lim))
    ch = E(*sorted([(names.index('External'), x, (ref_v(data),)),
                    (names.index('Temporary'), dd.NOT(x), (ref_v(data),))]))
    err = src_error(it, ety, base) if view == base else it.eof_value(st, ety)
    return result(c, ch, err)


def abs_advance(it, st, f, args, at, dt):
    z = the_source(it, st, args[0])
    if z is None:
        return UNIT
    (base, view), pos, lim = z[1], it.assume_lits(z[2], st.pc), z[3]
    n = it.assume_lits(it.as_int(args[1]), st.pc)
    ok = dd.OR(P.le(n, P.ZERO), dd.AND(P.lt(pos, lim), P.le(n, clen(view, pos, lim))))
    it.oblige(st, 'advance', ok, 'source advanced past its current chunk')
    if st.pc == dd.FALSE:
        raise Diverge
    it.write_ref(st, args[0], ('Z', z[1], P.add(z[2], n), lim))
    return UNIT


# A `BufReader` over any reader is a source 'Z' too: what is left of all the reader
# will ever deliver.  Some of it is buffered; `fill_buf` may fail.
def reader_left(pos, lim, base):
    return P.ite(P.lt(pos, lim), clen(base, pos, lim), P.ZERO)


def reader_fill(it, st, f, args, at, dt):
    z = the_source(it, st, args[0])
    if z is None:
        return top('reader')
    (base, view), pos, lim = z[1], z[2], z[3]
    ety = it.p.ty(dt)['variants'][1]['fields'][0][1]
    good = dd.NOT(dd.var_of(('var', ('ioerr', base, pos))))
    k = (base, pos)
    it.filled = dict(getattr(it, 'filled', {}))
    it.filled[k] = dd.OR(it.filled.get(k, dd.FALSE), dd.AND(st.pc, good))
    return result(good, ref_v(inn(base, pos, reader_left(pos, lim, base))), it.sym(ety, ('ioerror', base)))


def reader_buffer(it, st, f, args, at, dt):
    z = the_source(it, st, args[0])
    if z is None:
        return top('reader')
    (base, view), pos, lim = z[1], z[2], z[3]
    there = dd.OR(dd.var_of(('var', ('buffered', base, pos))), getattr(it, 'filled', {}).get((base, pos), dd.FALSE))
    return ref_v(inn(base, pos, P.ite(there, reader_left(pos, lim, base), P.ZERO)))


def reader_consume(it, st, f, args, at, dt):
    z = the_source(it, st, args[0])
    if z is None:
        return UNIT
    n = it.as_int(args[1])
    it.write_ref(st, args[0], ('Z', z[1], P.add(z[2], n), z[3]))
    return UNIT


M['<std::io::BufReader<R> as std::io::BufRead>::fill_buf'] = reader_fill
M['<std::io::BufReader<R> as std::io::BufRead>::consume'] = reader_consume
M['std::io::BufReader::<R>::buffer'] = reader_buffer
M['std::io::BufReader::<R>::capacity'] = lambda it, st, f, args, at, dt: I(P.A(('arg', ('capacity',)), 0, P.BIGLEN))


def abs_hint(it, st, f, args, at, dt):
    z = the_source(it, st, args[0])
    if z is None:
        return top('source')
    (base, view), pos, lim = z[1], z[2], z[3]
    c = dd.var_of(('hint', view)) if view == base else dd.TRUE
    return option(it, dt, c, I(P.sub(lim, pos)))


def convert(w):
    def m(it, st, f, args, at, dt):
        q = args[1]
        if q[0] != 'Q':
            return it.top_of(dt, 'convert')
        r = None
        for c, ps in q[1]:
            if len(ps) == 1 and ps[0][0] == 'in' and P.const_val(ps[0][3]) == w:
                x = cv_at(w, ps[0][1], ps[0][2])
            else:
                bs = tuple(it.assume_lits(it.as_int(seq_at(('Q', ((dd.TRUE, ps),)), P.const(i), dd.AND(st.pc, c))), dd.AND(st.pc, c)) for i in range(w))
                x = None
                a = P.single_atom(bs[0])
                if a is not None and P.adesc(a)[0] == 'by':
                    _, s_, p_ = P.adesc(a)
                    if all(b == byte_at(s_, P.add(p_, P.const(i))) for i, b in enumerate(bs)):
                        x = cv_at(w, s_, p_)
                if x is None:
                    x = P.A(('cvb', w, bs), 0, (1 << (8 * w)) - 1)
            r = x if r is None else P.ite(c, x, r)
        return I(r)
    return m


def is_native(it, st, f, args, at, dt):
    return B(dd.var_of(('native',)))


def install(it):
    it.models = dict(M)
    for f in it.p.fns.values():
        n = f['name']
        if f['crate'] != 'pedharness':
            continue
        if 'AbsBuf as' in n:
            if n.endswith('::chunk'):
                it.models[f['def']] = abs_chunk
            elif n.endswith('::advance'):
                it.models[f['def']] = abs_advance
            elif n.endswith('::remaining_hint'):
                it.models[f['def']] = abs_hint
        if 'AbsEndian as' in n:
            for w, b in ((16, 2), (32, 4), (64, 8)):
                if n.endswith('convert_u%d' % w):
                    it.models[f['def']] = convert(b)
            if n.endswith('is_native'):
                it.models[f['def']] = is_native
