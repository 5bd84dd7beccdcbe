"""Obtains the compiler's MIR of /repo's current tree (through /verif/harness)."""
import fcntl
import json
import os
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.path.join(ROOT, '.cache')
DRIVER = os.path.join(ROOT, 'driver', 'target', 'debug', 'mirdump')


class BuildError(Exception):
    pass


def sh(cmd, cwd, env=None, timeout=600):
    e = dict(os.environ)
    for k in ('RUSTFLAGS', 'RUSTC_WRAPPER', 'RUSTC_WORKSPACE_WRAPPER', 'CARGO_TARGET_DIR'):
        e.pop(k, None)
    e.update(env or {})
    return subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)


def sysroot():
    return sh(['rustc', '+nightly', '--print', 'sysroot'], ROOT).stdout.strip()


def driver():
    if not os.path.exists(DRIVER):
        r = sh(['cargo', '+nightly', 'build', '--offline'], os.path.join(ROOT, 'driver'))
        if not os.path.exists(DRIVER):
            raise RuntimeError('the MIR driver does not build:\n' + r.stdout[-3000:])


def dump():
    """Path of a fresh dump.  BuildError when /repo or the harness does not compile."""
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        driver()
        out = os.path.join(CACHE, 'dump.json')
        if os.path.exists(out):
            os.unlink(out)
        h = os.path.join(ROOT, 'harness')
        os.utime(os.path.join(h, 'src', 'lib.rs'))
        env = {'LD_LIBRARY_PATH': os.path.join(sysroot(), 'lib'), 'RUSTC_WORKSPACE_WRAPPER': DRIVER,
               'RUSTFLAGS': '-Zalways-encode-mir -Zmir-opt-level=0', 'VERIF_DUMP': out,
               'CARGO_TARGET_DIR': os.path.join(CACHE, 'target')}
        r = sh(['cargo', '+nightly', 'build', '--offline'], h, env)
        if r.returncode or not os.path.exists(out):
            raise BuildError(r.stdout[-6000:])
        fd, mine = tempfile.mkstemp(prefix='dump-', suffix='.json', dir=CACHE)
        os.close(fd)
        os.replace(out, mine)
        return mine


if __name__ == '__main__':
    if '--setup' in sys.argv:
        driver()
    else:
        print(dump())
