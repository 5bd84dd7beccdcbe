"""Makes /verif/seeded/<id> from the descriptions in seeds.py and confirms each in a scratch copy of /repo:
it builds, the tests pass, the demonstration passes without and fails with the change.
usage: mkseeds.py [id...]"""
import json, os, shutil, subprocess, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(R, 'tools'))
import seeds
W = '/tmp/seedwork'
DEMO = '''#!/bin/bash
# Builds main.rs against the crate in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
mkdir "$tmp/src"
cp "$here/main.rs" "$tmp/src/main.rs"
cp "$here/common.rs" "$tmp/src/common.rs"
cat > "$tmp/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
perf-event-data = { path = "$repo" }
perf-event-open-sys2 = "5.0.3"
[workspace]
EOF
cp "$repo/Cargo.lock" "$tmp/Cargo.lock" 2>/dev/null
cd "$tmp" && CARGO_TARGET_DIR="$tmp/target" RUST_BACKTRACE=0 timeout 200 cargo run --offline -q
'''
COMMON = open(os.path.join(R, 'tools', 'common.rs')).read()

def sh(c, cwd=W, **k):
    return subprocess.run(c, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def main():
    ids = sys.argv[1:] or list(seeds.SEEDS)
    subprocess.run(['rm', '-rf', '/tmp/seedwork'])
    subprocess.run(['cp', '-a', '/repo', W])
    bad = []
    for i in ids:
        s = seeds.SEEDS[i]
        d = os.path.join(R, 'seeded', i)
        os.makedirs(d, exist_ok=True)
        sh('git checkout -q -- .')
        for f, a, b in s['edits']:
            p = os.path.join(W, f)
            t = open(p).read()
            if t.count(a) != 1:
                print(i, 'edit matches', t.count(a), 'times in', f); bad.append(i); break
            open(p, 'w').write(t.replace(a, b))
        else:
            open(d + '/patch.diff', 'w').write(sh('git diff').stdout)
            open(d + '/demo.sh', 'w').write(DEMO)
            os.chmod(d + '/demo.sh', 0o755)
            open(d + '/main.rs', 'w').write(s['main'])
            open(d + '/common.rs', 'w').write(COMMON)
            json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
            t = sh('cargo nextest run --offline --workspace --all-features --no-fail-fast 2>&1 | tail -15; cargo test --doc --offline --all-features 2>&1 | tail -5')
            okt = 'FAIL' not in t.stdout and 'error' not in t.stdout and ' passed' in t.stdout and 'test result: ok' in t.stdout
            w = sh(d + '/demo.sh')
            sh('git checkout -q -- .')
            b = sh(d + '/demo.sh')
            good = okt and w.returncode != 0 and b.returncode == 0 and (s['property'] == 'C22' or 'error: could not compile' not in w.stdout)
            print(i, 'ok' if good else 'BAD tests=%s with=%d without=%d\n%s\n--\n%s\n--\n%s' % (okt, w.returncode, b.returncode, t.stdout[-900:] if not okt else '', w.stdout[-900:], b.stdout[-900:] if b.returncode else ''), flush=True)
            if not good: bad.append(i)
    subprocess.run(['rm', '-rf', '/tmp/seedwork'])
    print('bad:', bad)
main()
