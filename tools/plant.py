"""Bookkeeping for planted bugs (development only; no check reads it).

  plant.py make SPEC.py      create seeded/<id>/ from a spec file
  plant.py run [ID ...]      confirm each bug in a scratch copy and run the
                             property's check against that copy
"""
import glob
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(HERE, 'seeded')
DEMO = '''#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"
exec /opt/venv/bin/python -B "$d/demo.py"
'''


def sh(cmd, cwd=None, env=None, timeout=1200):
    p = subprocess.run(cmd, cwd=cwd, env=env, shell=True, text=True,
                       capture_output=True, timeout=timeout)
    return p.returncode, p.stdout + p.stderr


def scratch(name):
    d = '/tmp/plant-%s-%d' % (name, os.getpid())
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree('/repo', d)
    return d


def make(id, prop, needs, breaks, edits, demo):
    d = scratch(id)
    try:
        for path, old, new in edits:
            p = os.path.join(d, path)
            b = open(p, 'rb').read()
            crlf = b'\r\n' in b
            s = b.decode('utf-8').replace('\r\n', '\n')
            assert s.count(old) == 1, (id, path, s.count(old), old)
            s = s.replace(old, new)
            if crlf:
                s = s.replace('\n', '\r\n')
            open(p, 'wb').write(s.encode('utf-8'))
        rc, out = subprocess.run(['git', 'diff'], cwd=d,
                                 capture_output=True), None
        o = os.path.join(SEED, id)
        os.makedirs(o, exist_ok=True)
        open(os.path.join(o, 'patch.diff'), 'wb').write(rc.stdout)
        open(os.path.join(o, 'demo.py'), 'w').write(demo)
        open(os.path.join(o, 'demo.sh'), 'w').write(DEMO)
        os.chmod(os.path.join(o, 'demo.sh'), 0o755)
        json.dump({'property': prop, 'needs': needs,
                   'what_it_breaks': breaks},
                  open(os.path.join(o, 'meta.json'), 'w'), indent=1)
    finally:
        shutil.rmtree(d)


def run(id, check=True):
    o = os.path.join(SEED, id)
    meta = json.load(open(os.path.join(o, 'meta.json')))
    d = scratch(id)
    try:
        r0, out0 = sh('bash %s/demo.sh' % o, cwd=d)
        ra, _ = sh('git apply %s/patch.diff' % o, cwd=d)
        r1, out1 = sh('bash %s/demo.sh' % o, cwd=d)
        rt, outt = sh('PYTHONPATH=%s PYTHONDONTWRITEBYTECODE=1 '
                      '/opt/venv/bin/python -B -m pytest -q -p '
                      'no:cacheprovider 2>&1 | tail -1' % d, cwd=d)
        ok = r0 == 0 and ra == 0 and r1 != 0 and '22 passed' in outt
        print('%-14s %s demo %d->%d apply %d tests %s %s' % (
            id, meta['property'], r0, r1, ra, outt.strip()[:20],
            'OK' if ok else 'BAD'), flush=True)
        if r0:
            print(out0[-600:])
        if check and ra == 0:
            env = dict(os.environ, VERIF_REPO=d, VERIF_SEED='1',
                       VERIF_TIER='quick')
            env.pop('DV_CHILD', None)
            rc, out = sh('python3 check.py %s' % meta['property'], cwd=HERE,
                         env=env)
            v = [x for x in out.splitlines() if x.startswith('VIOLATION')]
            print('     check exit %d  %s' % (rc, '; '.join(
                x.split('replay=')[1].split('/')[-1] for x in v)),
                flush=True)
    finally:
        shutil.rmtree(d)


if __name__ == '__main__':
    if sys.argv[1] == 'make':
        ns = {'make': make}
        exec(open(sys.argv[2]).read(), ns)
    else:
        ids = sys.argv[2:] or sorted(os.listdir(SEED))
        for i in ids:
            run(i)
