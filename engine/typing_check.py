"""Type-level witnesses: small programs over the crate's interface that the type
checker has to accept, or to reject for the right reason.  They are type-checked
(`--emit=metadata`), never run."""
import concurrent.futures
import json
import os
import subprocess
import tempfile

import build
import witness

BORROW = {'E0499', 'E0502', 'E0503', 'E0505', 'E0506', 'E0515', 'E0597', 'E0621', 'E0716', 'E0521', 'E0310', 'E0309', 'E0700', 'E0713'}
UNSAFE = {'E0133', 'E0199', 'E0200'}


def library(dirname):
    """rustc arguments to use the crate as the working tree has it."""
    d = os.path.join(build.ROOT, 'witness')
    r = build.sh(['cargo', '+nightly', 'check', '--offline', '--message-format=json', '-q'], d, {'CARGO_TARGET_DIR': dirname})
    ext, deps = {}, set()
    for l in r.stdout.split('\n'):
        try:
            m = json.loads(l)
        except ValueError:
            continue
        if m.get('reason') != 'compiler-artifact':
            continue
        for f in m['filenames']:
            deps.add(os.path.dirname(f))
            if f.endswith('.rmeta') and m['target']['name'] in ('perf_event_data', 'perf_event_open_sys', 'perf-event-open-sys'):
                ext[m['target']['name'].replace('-', '_')] = f
    if r.returncode or len(ext) < 2:
        raise build.BuildError(r.stdout[-3000:])
    return [x for d in sorted(deps) for x in ('-L', 'dependency=' + d)] + [x for n, f in sorted(ext.items()) for x in ('--extern', '%s=%s' % (n, f))]


def compile_one(lib, tmp, i, src):
    p = os.path.join(tmp, 'w%d.rs' % i)
    with open(p, 'w') as f:
        f.write(src)
    r = build.sh(['rustc', '+nightly', '--edition=2021', '--crate-type=lib', '--emit=metadata', '--error-format=json', '--cap-lints=allow', '--crate-name=w%d' % i,
                  '-o', os.path.join(tmp, 'libw%d.rmeta' % i), p] + lib, tmp)
    errs = []
    for l in r.stdout.split('\n'):
        try:
            m = json.loads(l)
        except ValueError:
            continue
        if m.get('level') == 'error' and not m['message'].startswith('aborting'):
            code = (m.get('code') or {}).get('code')
            line = next((s['text'][0]['text'].strip() for s in m.get('spans', ()) if s['is_primary'] and s['text']), '')
            errs.append((code, m['message'], line))
    return r.returncode, errs


def right_reason(kind, code, msg):
    if kind == 'unsafe':
        return code in UNSAFE
    return code in BORROW or (code is None and 'lifetime may not live long enough' in msg)


def run():
    """[(name, why, status, detail)]"""
    out = []
    with tempfile.TemporaryDirectory(prefix='witness-', dir=build.CACHE) as tmp:
        lib = library(os.path.join(build.CACHE, 'wtarget'))
        names = sorted(witness.W)
        with concurrent.futures.ThreadPoolExecutor(7) as ex:
            got = list(ex.map(lambda x: compile_one(lib, tmp, x[0], witness.W[x[1]][2]), enumerate(names)))
    for n, (rc, errs) in zip(names, got):
        kind, why, _ = witness.W[n]
        if kind == 'ok':
            st = 'proved' if rc == 0 else 'refuted'
            what = '' if rc == 0 else '; '.join('%s [%s] at `%s`' % (m, c, l) for c, m, l in errs[:4])
        elif rc == 0:
            st, what = 'refuted', 'the program type-checks'
        elif all(right_reason(kind, c, m) for c, m, _ in errs) and errs:
            st, what = 'proved', '%s %s' % (errs[0][0], errs[0][1])
        else:
            st, what = 'other', '; '.join('%s [%s]' % (m, c) for c, m, _ in errs[:3])
        out.append((n, why, st, what))
    return out


def has_ref(p, t, depth=0):
    t = p.ty(t)
    if t['k'] in ('ref', 'ptr'):
        return t['k'] == 'ref' or has_ref(p, t['to'], depth + 1)
    return "'" in t['name'] or '&' in t['name'] or any(a[0] == 't' and has_ref(p, a[1], depth + 1) for a in t.get('args', ()) if depth < 4 and a)


def laundering(p):
    """Functions of the crate, and those that reinterpret a value holding references
    as the type it has but for lifetimes: {function: construct}."""
    fns, bad = set(), {}
    for f in p.fns.values():
        if f['crate'] != 'perf_event_data' or not f.get('blocks'):
            continue
        d = f['def']
        fns.add(d)
        for b in f['blocks']:
            for s in b[0]:
                if s[0] == '=' and s[2][0] == 'cast' and s[2][1] == 'Transmute':
                    op, dst = s[2][2], s[2][3]
                    src = op_type(p, f, op)
                    if src is not None and (src == dst or p.ty(src)['name'] == p.ty(dst)['name']) and has_ref(p, dst):
                        bad[d] = 'transmute of %s to itself (line %s)' % (p.ty(dst)['name'], s[3] if len(s) > 3 else '?')
            t = b[1]
            if t[0] == 'call' and isinstance(t[1], dict) and 'fn' in t[1]:
                g = p.fns.get(t[1]['fn'])
                name = g['def'] if g else ''
                if name.rsplit('::', 1)[-1] in ('transmute', 'transmute_copy', 'transmute_unchecked'):
                    ts = [a[1] for a in g.get('args', ()) if a and a[0] == 't']
                    if len(ts) == 2 and p.ty(ts[0])['name'] == p.ty(ts[1])['name'] and has_ref(p, ts[1]):
                        bad[d] = 'transmute of %s to itself' % p.ty(ts[1])['name']
    return fns, bad


def op_type(p, f, op):
    if op[0] in ('mv', 'cp') and not op[1][1]:
        return f['locals'][op[1][0]]
    return None


if __name__ == '__main__':
    for x in run():
        if x[2] != 'proved':
            print(x[0], x[2], x[3][:600])
