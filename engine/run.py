"""Check one property against /repo's current tree:  run.py <property> [--tier quick|thorough]"""
import json
import os
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(200000)
import build

ROOT = build.ROOT
EVID = os.path.join(ROOT, 'evidence')


def violation(prop, replay, text):
    print('VIOLATION property=%s replay=%s' % (prop, replay))
    print('  ' + text)


def run_case(prog, name, limit, kinds):
    """In a child process: one case, its result written to a pipe."""
    import resource
    r, w = os.pipe()
    pid = os.fork()
    if pid:
        os.close(w)
        return pid, r
    os.close(r)
    code = 0
    try:
        resource.setrlimit(resource.RLIMIT_AS, (9 << 30, 9 << 30))
        resource.setrlimit(resource.RLIMIT_CPU, (limit, limit + 5))
        import threading
        threading.stack_size(512 << 20)
        out = {}

        def go():
            t0 = time.time()
            import plan
            import case
            import check
            import gc
            gc.disable()
            case.WANT = kinds
            try:
                out.update(plan.CASES[name][0](prog))
            except case.Missing as e:
                out.update(name=name, missing=str(e))
            except check.Mismatch as e:
                out.update(name=name, undecided=str(e))
            except BaseException as e:
                out.update(name=name, undecided='%s: %s' % (type(e).__name__, e), trace=traceback.format_exc()[-1500:])
            second(prog, name, kinds, out)
            out['wall_s'] = round(time.time() - t0, 2)
        th = threading.Thread(target=go)
        th.start()
        th.join()
        data = json.dumps(out, default=str).encode()
        while data:
            n = os.write(w, data)
            data = data[n:]
    except BaseException:
        code = 3
    os._exit(code)


def second(prog, name, kinds, out):
    """Where a loop's effect was given up and obligations stay open: look again
    with the loops followed for a few rounds, for refutations only."""
    if 'missing' in out:
        return
    open_ = [o for o in out.get('obs', ()) if o['status'] == 'undecided' and o['kind'] != 'term']
    if 'undecided' not in out and not (open_ and (out['lost'] or out['cut'])):
        return
    if any(o['status'] == 'refuted' for o in out.get('obs', ())):
        return
    import resource
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            resource.setrlimit(resource.RLIMIT_CPU, (90, 92))
            import plan
            import case
            import interp
            interp.UNROLL = 7
            data = json.dumps(plan.CASES[name][0](prog), default=str).encode()
            while data:
                data = data[os.write(w, data):]
        except BaseException:
            pass
        os._exit(0)
    os.close(w)
    data = b''
    while True:
        b = os.read(r, 1 << 16)
        if not b:
            break
        data += b
    os.close(r)
    os.waitpid(pid, 0)
    try:
        got = json.loads(data)
    except ValueError:
        return
    got['obs'] = [o for o in got['obs'] if o['status'] == 'refuted']
    out['second_look'] = len(got['obs'])
    if 'obs' not in out:
        if got['obs']:
            out.pop('undecided')
            out.update(obs=got['obs'], fns=[], unmodelled={}, cut=[], summaries={}, evaluations=got['evaluations'], sites={},
                       site_samples={}, loops={}, notes=[])
        return
    for o in got['obs']:
        hit = [x for x in open_ if x['label'] == o['label'] and x.get('site') == o['site']]
        if hit:
            hit[0].update(status='refuted', witness=o['witness'])
        else:
            out['obs'].append(o)


def run_cases(prog, names, limit, kinds, jobs=7, deadline=None):
    import plan
    import select
    import signal
    todo = sorted(names, key=lambda n: -plan.CASES[n][1])
    live = {}
    res = {}
    while todo or live:
        while todo and len(live) < jobs:
            n = todo.pop(0)
            pid, r = run_case(prog, n, limit, kinds)
            live[r] = [n, pid, b'', time.time()]
        rd, _, _ = select.select(list(live), [], [], 1.0)
        for r in rd:
            b = os.read(r, 1 << 16)
            if b:
                live[r][2] += b
                continue
            n, pid, data, t = live.pop(r)
            os.close(r)
            os.waitpid(pid, 0)
            try:
                res[n] = json.loads(data)
            except ValueError:
                res[n] = dict(name=n, undecided='analysis ended without a result (time or memory limit)', wall_s=round(time.time() - t, 1))
        for r in list(live):
            n, pid, data, t = live[r]
            if time.time() - t > limit or (deadline and time.time() > deadline):
                try:
                    os.kill(pid, signal.SIGKILL)
                except OSError:
                    pass
    return res


def known():
    """Accepted findings: (property, key) -> text, read from the committed file."""
    out = {}
    p = os.path.join(ROOT, 'known-findings.txt')
    for l in open(p):
        l = l.strip()
        if l.startswith('known: '):
            head, text = l[7:].split(' :: ', 1)
            prop, key = head.split(' ', 1)
            out[(prop.split('=')[1], key.split('=', 1)[1])] = text
    return out


def main():
    t0 = time.time()
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    os.makedirs(EVID, exist_ok=True)
    replay = os.path.join(EVID, prop + '.replay.json')
    ev = dict(property=prop, tier=tier, seed=seed, level='other', coverage={}, wall_s=0)

    def write():
        ev['wall_s'] = round(time.time() - t0, 2)
        with open(os.path.join(EVID, prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)

    import plan
    spec = plan.PLAN[prop]
    ev['level'] = spec.get('level', 'other')
    try:
        path = build.dump()
    except build.BuildError as e:
        ev['violations'] = 1
        ev['coverage'] = dict(explanation='The crate, or the harness that uses its public interface, does not compile.')
        write()
        json.dump(dict(build=str(e)), open(replay, 'w'))
        violation(prop, replay, 'the crate or its documented interface no longer compiles: ' + str(e)[-800:])
        return 1
    from mir import Prog
    prog = Prog(path)
    os.unlink(path)
    names = list(spec['cases'])
    if tier == 'thorough':
        names += spec.get('thorough', [])
    limit = 400 if tier == 'quick' else 800
    res = run_cases(prog, names, limit, spec['kinds'], deadline=t0 + 840)
    # the summaries that were used have to be true of the bodies they replace
    used = set()
    for r in res.values():
        used |= set(r.get('summaries', ()))
    lem = [l for l in plan.lemmas_for(used) if l not in res] if hasattr(plan, 'lemmas_for') else []
    lres = run_cases(prog, lem, limit, spec.get('lemma_kinds', ('spec', 'pos')), deadline=t0 + 860) if lem else {}
    return report(prop, spec, res, lres, ev, replay, write, prog)


def report(prop, spec, res, lres, ev, replay, write, prog):
    kn = known()
    viol, found, und = [], [], []
    obl = proved = 0
    samples = []
    fns, loops, summ = set(), {}, {}
    nsites, unm, cut = {}, {}, set()
    evals = 0
    for n, r, kinds in [(n, r, spec['kinds']) for n, r in res.items()] + [(n, r, spec.get('lemma_kinds', ('spec', 'pos'))) for n, r in lres.items()]:
        if 'missing' in r:
            viol.append((n, None, dict(label='anchor missing: ' + r['missing'], kind='anchor')))
            continue
        if 'undecided' in r:
            und.append('%s: %s' % (n, r['undecided']))
            continue
        fns |= set(r['fns'])
        loops.update(r['loops'])
        evals += r['evaluations']
        for k, x in r['unmodelled'].items():
            unm[k] = unm.get(k, 0) + x
        cut |= set(r['cut'])
        for k, x in r['summaries'].items():
            summ[k] = summ.get(k, 0) + x
        for k in kinds:
            if k in r['sites']:
                nsites[k] = nsites.get(k, 0) + r['sites'][k]
                # sites whose condition folded to false while they were met
                done = max(0, r['sites'][k] - sum(o['kind'] == k for o in r['obs']))
                obl += done
                proved += done
                for x in r['site_samples'].get(k, ())[:1]:
                    if len(samples) < 12:
                        samples.append(dict(case=n, obligation=x[2], site=x[1], status='proved'))
        for o in r['obs']:
            if o['kind'] not in kinds:
                continue
            obl += 1
            if o['status'] == 'proved':
                proved += 1
                if len(samples) < 12 and obl % 5 == 1:
                    samples.append(dict(case=n, obligation=o['label'], site=o.get('site', ''), status='proved'))
            elif o['status'] == 'known':
                key = '%s|%s' % (n, o['key'])
                if (prop, key) not in kn:
                    if key not in {k for _, k in kn}:
                        viol.append((n, r, o))
                elif (key, kn[(prop, key)]) not in found:
                    found.append((key, kn[(prop, key)]))
            elif o['status'] == 'refuted':
                key = '%s|%s' % (n, o['label'] + ('@' + o['site'][0] if o.get('site') else ''))
                if (prop, key) in kn:
                    found.append((key, kn[(prop, key)]))
                else:
                    viol.append((n, r, o))
            else:
                und.append('%s: %s' % (n, o['label'] + ((' @ ' + o['site'][0]) if o.get('site') else '')))
    floor = spec.get('floor', 1)
    if obl < floor and not viol and not und:
        viol.append(('coverage', None, dict(label='only %d obligations were found, at least %d expected' % (obl, floor), kind='anchor')))
    for x in spec.get('extra', ()):
        for y in x(prog, res, lres, ev):
            viol.append(y)
    cov = ev['coverage']
    cov.update(obligations=obl, discharged=proved, undecided=und[:40], undecided_count=len(und), cases=sorted(res), lemmas=sorted(lres),
               functions_analysed=sorted(fns), functions_count=len(fns), loops=dict(sorted(loops.items())[:60]),
               hazard_sites=nsites, unmodelled=unm, loops_left_open=sorted(cut), summaries_used=summ, evaluations_of_derived_expressions=evals, samples=samples,
               rule=spec.get('rule', ''), checker_cmd='python3 engine/run.py ' + prop,
               trusted_base='rustc MIR lowering; engine/*.py; contracts of std functions in engine/models.py; engine/spec.py',
               case_wall_s={n: r.get('wall_s') for n, r in list(res.items()) + list(lres.items())},
               explanation=spec.get('explanation', 'Abstract interpretation of the optimiser-free MIR of every function reachable from the '
                                    'listed roots, with guarded values merged at joins and inductive loop invariants; each obligation '
                                    'compares a derived value expression with the kernel ABI as written in engine/spec.py. An obligation is '
                                    'discharged by canonical identity or the numeric domain, refuted only by a valuation at which the two '
                                    'derived expressions differ.'))
    ev['violations'] = len(viol)
    ev['assumptions'] = ['64-bit little-endian host', 'lengths and positions below 2^62', 'sources honour the ParseBuf contract']
    write()
    for key, text in found:
        print('KNOWN-FINDING: property=%s %s' % (prop, text))
    if viol:
        with open(replay, 'w') as f:
            json.dump([dict(case=n, obligation=o, functions=(r or {}).get('fns', [])) for n, r, o in viol], f, indent=1)
        for n, r, o in viol[:8]:
            w = o.get('witness')
            fns = [f for f in (r or {}).get('fns', [])]
            if prop == 'C23':
                fns = [f for f in fns if f.endswith('::fmt')] or fns
            where = o['site'] if o.get('site') else fns[:4]
            violation(prop, replay, '%s: %s (in %s)%s' % (n, o['label'], where, '' if not w else ' code gives %s, expected %s, for %s bytes %s' % (
                w['code'], w['spec'], w['inputs'], w['bytes'])))
        return 1
    print('%s: %d obligations, %d proved, %d undecided, %d functions, %.1f s' % (prop, obl, proved, len(und), len(fns), ev['wall_s']))
    for u in und[:10]:
        print('  undecided ' + u[:200])
    return 0


if __name__ == '__main__':
    sys.exit(main())
