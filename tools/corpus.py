#!/usr/bin/env python3
"""corpus.py SPEC.py [ids]: which checks see each change of a corpus (scratch copies only).

SPEC.py defines CASES = [(id, 'bug'|'same', 'C04 C05', file, [(old, new), ...]), ...]; 'bug' wants an alarm of one of the
checks, 'same' wants silence of all of them; undecided obligations are counted in both."""
import os, re, runpy, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ROOT = '/tmp/w/corpus/run'
TEST = '--test' in sys.argv
argv = [a for a in sys.argv if not a.startswith('--')]


def one(case):
    cid, kind, props, fn, subs = case
    d = os.path.join(ROOT, cid)
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree('/repo', d, symlinks=True, ignore=shutil.ignore_patterns('.git'))
    p = os.path.join(d, 'dorado', fn)
    s = open(p).read()
    for name, old, new in [x for x in subs if len(x) == 3]:
        q = os.path.join(d, 'dorado', name)
        t = open(q).read() if old else ''
        if t.count(old) < 1:
            return '?? %s: no match %r' % (cid, old[:50])
        open(q, 'w').write(t.replace(old, new, 1) if old else new)
    for old, new in [x for x in subs if len(x) == 2]:
        if s.count(old) < 1:
            return '?? %s: no match %r' % (cid, old[:50])
        s = s.replace(old, new, 1)
    open(p, 'w').write(s)
    try:
        compile(s, p, 'exec')
    except SyntaxError as e:
        return '?? %s: %s' % (cid, e)
    res, worst = [], 0
    for c in (os.environ.get('CHECKS') or props).split():
        r = subprocess.run(['timeout', '900', 'python3', 'run.py', c, '--tier', 'quick'], cwd=V, capture_output=True, text=True,
                           env=dict(os.environ, DORADO_REPO=d, VERIF_OUT=os.path.join(d, 'vo')))
        m = re.search(r'(\d+) undecided, (\d+) violated', r.stdout)
        u, v = m.groups() if m else ('?', '?')
        res.append('%s rc%d u%s v%s' % (c, r.returncode, u, v))
        worst = max(worst, r.returncode)
    t = ''
    if TEST:
        r = subprocess.run('cd %s && PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg MPLCONFIGDIR=/opt/venv/mplconfig OPENBLAS_NUM_THREADS=1 '
                           'PYTHONPATH=%s /opt/venv/bin/python -m pytest -q -x -p no:cacheprovider tests 2>&1 | tail -1' % (d, d),
                           shell=True, capture_output=True, text=True)
        t = ' tests: ' + r.stdout.strip()[-60:]
    good = (worst == 1) if kind == 'bug' else worst == 0
    if good or kind == 'bug' and worst == 0:
        pass
    return '%s %s %s: %s%s' % ('ok  ' if good else 'MISS' if kind == 'bug' else 'ALARM', kind, cid, '; '.join(res), t)


cases = runpy.run_path(argv[1])['CASES']
if argv[2:]:
    cases = [c for c in cases if c[0] in argv[2:]]
with ThreadPoolExecutor(7) as ex:
    for line in ex.map(one, cases):
        print(line, flush=True)
