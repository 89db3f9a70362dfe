"""mut.py FILE ID[,ID] < lines 'old ||| new' : which checks see each textual change (scratch copies only)"""
import os, shutil, subprocess, sys
fn, ids = sys.argv[1], sys.argv[2].split(',')
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for line in sys.stdin:
    line = line.rstrip('\n')
    if ' ||| ' not in line:
        continue
    old, new = line.replace('\\n', '\n').split(' ||| ')
    d = '/tmp/w/mut'
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree('/repo', d, symlinks=True, ignore=shutil.ignore_patterns('.git'))
    p = os.path.join(d, 'dorado', fn)
    s = open(p).read()
    if s.count(old) < 1:
        print('??', line)
        continue
    open(p, 'w').write(s.replace(old, new, 1))
    env = dict(os.environ, DORADO_REPO=d, VERIF_OUT='/tmp/w/vo')
    for i in ids:
        r = subprocess.run(['python3', 'run.py', i, '--tier', 'quick'], cwd=here, env=env, capture_output=True, text=True)
        print(r.returncode, i, r.stdout.strip().split('\n')[-1][:90], '|', line[:100])
