"""Differential test of the analyser's library model (not a check): every snippet below is analysed, its value graph is
evaluated at sampled inputs, and the result is compared with what the same snippet computes when executed.
usage: /opt/venv/bin/python tools/selftest.py [name...]"""
import math
import os
import sys
import tempfile
import textwrap
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
import numpy as np
from sa import terms as tm, ri
from sa.interp import Interp
from sa.harness import arr_app, run

FUZZ = 'SNIPPETS' in os.environ
from sa.check import LOST

ENV = {'a': ((4,), 'real', 'f'), 'b': ((4,), 'real', 'f'), 'k': ((5,), ('int', 0, 3), 'i'), 'm': ((3, 4), 'real', 'f'),
       'p': ((3, 4), 'nanreal', 'f'), 'n': ((4,), 'nanreal', 'f'), 'q': ((3, 4), 'bool', 'b'), 'w': ((4,), 'pos', 'f')}


def conv(v):
    if isinstance(v, ri.NA):
        return conv(ri.tolist(v))
    if isinstance(v, tuple) and len(v) and isinstance(v[0], str) and v[0] in ('L', 'T') and len(v) == 2 and isinstance(v[1], tuple):
        return [conv(x) for x in v[1]]
    if isinstance(v, tuple) and len(v) == 2 and isinstance(v[0], str) and v[0] == 'D':
        return [[conv(x), conv(y)] for x, y in v[1]]
    if isinstance(v, tuple) and len(v) == 2 and isinstance(v[0], str) and v[0] == 'O':
        return 'opaque'
    if isinstance(v, (list, tuple)):
        return [conv(x) for x in v]
    if isinstance(v, np.ndarray):
        return [conv(x) for x in v]
    if isinstance(v, dict):
        return [[conv(a), conv(b)] for a, b in v.items()]
    if hasattr(v, 'items') and not callable(v.items):
        return [conv(x) for x in v.items]
    if isinstance(v, (bool, np.bool_)):
        return float(v)
    if isinstance(v, str) or v is None:
        return v
    try:
        return float(v)
    except TypeError:
        return v


def same(x, y):
    if isinstance(x, list) or isinstance(y, list):
        return isinstance(x, list) and isinstance(y, list) and len(x) == len(y) and all(same(p, q) for p, q in zip(x, y))
    if isinstance(x, float) and isinstance(y, float):
        return (math.isnan(x) and math.isnan(y)) or x == y or abs(x - y) <= 1e-6 * max(1, abs(x), abs(y))
    return x == y


def main(argv):
    cases = {}
    src = open(os.environ.get('SNIPPETS') or os.path.join(os.path.dirname(os.path.abspath(__file__)), 'snippets.py')).read()
    ns = {}
    exec(compile(src, 'snippets', 'exec'), ns)
    d = tempfile.mkdtemp()
    os.mkdir(d + '/dorado')
    open(d + '/dorado/__init__.py', 'w').write('')
    open(d + '/dorado/sn.py', 'w').write(src)
    bad = 0
    und = []
    for name, f in sorted(ns.items()):
        if not name.startswith('t_') or (argv and name not in argv):
            continue
        ps = f.__code__.co_varnames[:f.__code__.co_argcount]
        I = Interp(d, extra={'sn': d + '/dorado/sn.py'})
        I.load('sn')
        st = I.new_state()
        args, terms = [], []
        for p in ps:
            sh, dom, dt = ENV[p]
            dom = dom if isinstance(dom, tuple) else (dom,)
            r = arr_app(I, st, p, [tm.const(x) for x in sh], dom, dt)
            args.append(r)
            terms.append(I.reify(st, r))
        try:
            r = run(I, st, I.func('sn', name), args)
            if r.st is None:
                out = None
            else:
                out = I.reify(r.st, r.val)
        except Exception as e:
            print('CRASH', name, type(e).__name__, e)
            bad += 1
            continue
        for seed in range(12):
            V = ri.Valuation(seed)
            try:
                vals = [V.ev(t, {}) for t in terms]
                got = conv(V.ev(out, {})) if out is not None else 'raised'
            except ri.Undecided as e:
                und.append((name, str(e)))
                break
            except Exception as e:
                got = 'error %s %s' % (type(e).__name__, e)
            xs = [np.array(conv(v), dtype={'f': float, 'i': int, 'b': bool}[ENV[p][2]]) for v, p in zip(vals, ps)]
            try:
                want = conv(f(*xs))
            except Exception as e:
                want = 'raised'
            if 'opaque' in str(got):
                und.append((name, 'opaque'))
                break
            if FUZZ and (want == 'raised' or any(u.startswith(LOST) for u in I.unknowns)):
                break
            if not same(got, want):
                print('DIFF', name, seed, 'in', [x.tolist() for x in xs], 'model', str(got)[:200], 'real', str(want)[:200])
                bad += 1
                break
    print('%d wrong; undecided: %s' % (bad, und))


main(sys.argv[1:])
