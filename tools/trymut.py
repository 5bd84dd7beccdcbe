"""Runs checks against planted changes:  trymut.py [--all-props] [seed id | patch file]...
Each patch is applied to /repo, the check of its property is run, and the patch is undone."""
import json, os, subprocess, sys, time
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = [a for a in sys.argv[1:] if not a.startswith('--')]
ids = args or sorted(os.listdir(os.path.join(R, 'seeded')))
man = [c['property'] for c in json.load(open(os.path.join(R, 'MANIFEST.json')))['checks']]
for i in ids:
    d = os.path.join(R, 'seeded', i)
    patch = d + '/patch.diff' if os.path.isdir(d) else i
    props = [json.load(open(d + '/meta.json'))['property']] if os.path.isdir(d) else man
    if '--all-props' in sys.argv: props = man
    props = [p for p in props if p in man]
    r = subprocess.run(['git', '-C', '/repo', 'apply', os.path.abspath(patch)])
    if r.returncode:
        print(i, 'does not apply'); continue
    try:
        hit = []
        for p in props:
            t = time.time()
            o = subprocess.run([sys.executable, 'engine/run.py', p], cwd=R, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            v = [l for l in o.stdout.splitlines() if l.startswith('VIOLATION property=' + p)]
            hit.append('%s:%s(%.0fs)' % (p, {0: 'quiet', 1: 'CAUGHT' if v else 'exit1?'}.get(o.returncode, 'error %d' % o.returncode), time.time() - t))
            if o.returncode not in (0, 1) or '--show' in sys.argv: print(o.stdout[-2500:])
        print(i, ' '.join(hit) or 'no check', flush=True)
    finally:
        subprocess.run(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
