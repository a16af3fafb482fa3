"""Behaviour-preserving edits the checks must stay quiet on (development only).

  refactor.py SPEC.py [ID ...]     each: copy /repo, edit, run the check
SPEC.py calls edit(id, prop, [(path, old, new), ...]).
"""
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
only = sys.argv[2:]


def edit(id, prop, edits):
    if only and id not in only and prop not in only:
        return
    d = '/tmp/refactor-%s-%d' % (id, os.getpid())
    shutil.copytree('/repo', d)
    try:
        for path, old, new in edits:
            p = os.path.join(d, path)
            s = open(p, 'rb').read().decode('utf-8').replace('\r\n', '\n')
            if s.count(old) != 1:
                print(id, 'SPEC', path, s.count(old), old[:80], flush=True)
                return
            open(p, 'w').write(s.replace(old, new))
        env = dict(os.environ, VERIF_REPO=d, VERIF_SEED='1',
                   VERIF_TIER='quick')
        p = subprocess.run(['timeout', '900', 'python3', 'check.py', prop],
                           cwd=HERE, env=env, text=True, capture_output=True)
        out = p.stdout + p.stderr
        print('%-16s %s exit %d  %s' % (id, prop, p.returncode, '; '.join(
            l for l in out.splitlines()
            if 'VIOLATION' in l or 'bounded' in l.lower())[:600]), flush=True)
        if p.returncode:
            print(out[-1500:])
    finally:
        shutil.rmtree(d)


if __name__ == '__main__':
    exec(open(sys.argv[1]).read())
