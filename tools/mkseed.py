#!/usr/bin/env python3
"""mkseed.py SPEC.py : build /verif/seeded/<id>/ from a spec and confirm it in a scratch copy.

SPEC.py defines BUGS = [dict(id=, prop=, file=, subs=[(old,new),...], needs=, breaks=, demo=python text)]."""
import json
import os
import runpy
import shutil
import subprocess
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/w/seedcopy'
DEMO = '''#!/bin/bash
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg MPLCONFIGDIR=/opt/venv/mplconfig OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
scratch="$(mktemp -d)"
trap 'rm -rf "$scratch"' EXIT
repo="$PWD"
cd "$scratch" || exit 3
PYTHONPATH="$repo" /opt/venv/bin/python -W ignore "$here/demo.py"
'''


def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def demo(path, cwd):
    return sh(['bash', path], cwd=cwd, timeout=300)


TESTS = ('cd %s && PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg MPLCONFIGDIR=/opt/venv/mplconfig OPENBLAS_NUM_THREADS=1 '
         'PYTHONPATH=%s /opt/venv/bin/python -m pytest -q -x -p no:cacheprovider tests 2>&1 | tail -3')


def main():
    only = sys.argv[2:]
    bugs = runpy.run_path(sys.argv[1])['BUGS']
    for b in bugs:
        if only and b['id'] not in only:
            continue
        shutil.rmtree(W, ignore_errors=True)
        shutil.copytree('/repo', W, symlinks=True)
        ok = True
        for f, old, new in [(s if len(s) == 3 else (b['file'],) + tuple(s)) for s in b['subs']]:
            p = os.path.join(W, f)
            s = open(p).read()
            if s.count(old) != 1:
                print(b['id'], 'BAD: %d matches of %r' % (s.count(old), old[:60]))
                ok = False
                break
            open(p, 'w').write(s.replace(old, new))
        if not ok:
            continue
        d = os.path.join(V, 'seeded', b['id'])
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, 'patch.diff'), 'w').write(subprocess.run(
            ['git', '-C', W, 'diff'], stdout=subprocess.PIPE, text=True).stdout)
        open(os.path.join(d, 'demo.sh'), 'w').write(DEMO)
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        open(os.path.join(d, 'demo.py'), 'w').write(b['demo'].lstrip('\n'))
        json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']},
                  open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        r0 = demo(os.path.join(d, 'demo.sh'), '/repo')
        r1 = demo(os.path.join(d, 'demo.sh'), W)
        t = sh(TESTS % (W, W), shell=True).stdout
        c = sh([sys.executable, os.path.join(V, 'run.py'), b['prop']], cwd=V, env=dict(os.environ, DORADO_REPO=W, VERIF_OUT='/tmp/w/seedout'))
        good = r0.returncode == 0 and r1.returncode != 0 and 'failed' not in t and 'passed' in t
        print(b['id'], b['prop'], 'OK' if good else 'BAD', 'demo %d/%d' % (r0.returncode, r1.returncode),
              t.strip().split('\n')[-1], '| check', c.returncode, [x for x in c.stdout.split('\n') if 'VIOL' in x][:1])
        if r0.returncode:
            print(r0.stdout[-600:])
        if not r1.returncode:
            print('   demo does not fail:', r1.stdout[-300:])
        if not good:
            print('   REMOVED')
            shutil.rmtree(d)
    shutil.rmtree(W, ignore_errors=True)


main()
