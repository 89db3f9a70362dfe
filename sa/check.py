"""Obligations, verdicts, evidence and replay files of the checks."""
import json
import os
import resource
import signal
import sys
import time
import traceback
from . import terms as tm
from . import ri
from .terms import TRUE, FALSE, T
from .interp import Interp
from .heap import AnalysisError, Dead
from .harness import run as run_call
from . import warm

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('DORADO_REPO', '/repo')
OUT = os.environ.get('VERIF_OUT', os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
LOST = ('statement', 'call of', 'call depth', 'setattr', 'store into', 'del @', 'del', 'add.at', 'method', 'builtin')


TOTAL = 780


class MissingAnchor(Exception):
    """a public entry point of dorado does not exist any more"""


def heads(t):
    out = set()
    for x in tm.subterms(t):
        if x.op in ('opaque', 'ext', 'mcall'):
            out.add(str(x.args[0]))
        elif x.op == 'attr':
            out.add(str(x.args[1]))
    return out


def term(x):
    return x if isinstance(x, T) else tm.const(x)


def short(v, n=400):
    s = repr(v) if not isinstance(v, T) else tm.show(v)
    s = str(s)
    return s if len(s) <= n else s[:n] + '...'


def first_diff(a, b, depth=0):
    """descend through equal operators to the innermost differing pair"""
    while isinstance(a, T) and isinstance(b, T) and a.op == b.op and len(a.args) == len(b.args) and depth < 60:
        d = [(x, y) for x, y in zip(a.args, b.args) if isinstance(x, T) and isinstance(y, T)
             and tm.canon(x) != tm.canon(y)]
        if len(d) != 1:
            break
        a, b = d[0]
        depth += 1
    return a, b


class Section(object):
    def __init__(self, check, name):
        self.check, self.name = check, name
        self.obs = []
        self.interps = []
        self.where_ = None

    # ---------------------------------------------------------- analysis
    def interp(self, mod=None, stubs=None, specs=()):
        I = Interp(REPO, extra={s: os.path.join(VERIF, 'specs', s + '.py') for s in specs}, stubs=stubs or {})
        I.npnums = getattr(self, 'npnums', False)
        for m in (mod if isinstance(mod, (list, tuple)) else [mod] if mod else []):
            if I.load(m) is None:
                raise MissingAnchor(m)
        for s in specs:
            I.load(s)
        self.interps.append(I)
        return I

    def func(self, I, mod, qual):
        try:
            f = I.func(mod, qual)
        except Exception:
            f = None
        if f is None:
            raise MissingAnchor('%s.%s' % (mod, qual))
        node = getattr(f, 'node', None)
        self.where_ = '%s:%s %s' % (os.path.relpath(I.src.get(mod, mod), REPO), getattr(node, 'lineno', '?'), qual)
        return f

    def run(self, I, st, f, args, kw=None):
        return warm.run(I, st, f, args, kw)

    def spec(self, I, st, mod, name, args, kw=None):
        """value of a reference function"""
        r = run_call(I, st, I.func(mod, name), args, kw)
        if r.st is None or r.excs:
            raise AnalysisError('reference %s.%s does not return: %s' % (
                mod, name, [(e.cls, e.args, str(s.guard())[:200]) for s, e in r.excs]))
        return I.reify(r.st, r.val)

    def lost(self):
        for I in self.interps:
            for u in I.unknowns:
                if any(u.startswith(p) for p in LOST):
                    return u
        return None

    # ---------------------------------------------------------- obligations
    def add(self, name, verdict, how, detail='', where=None, data=None):
        self.obs.append({'name': '%s/%s' % (self.name, name), 'verdict': verdict, 'how': how, 'detail': detail,
                         'where': where or self.where_ or '', 'data': data})

    def eq(self, name, code, spec, assume=None, over=None, samples=None, where=None):
        """the observable computed by the code equals the reference"""
        code, spec = term(code), term(spec)
        n = samples or (120 if self.check.tier == 'quick' else 600)
        st, info = ri.compare(code, spec, samples=n, seed='r%s-' % self.check.seed, assume=assume, over=over,
                              enough=samples or (40 if self.check.tier == 'quick' else 400))
        if st == 'same':
            return self.add(name, 'holds', 'identical value graphs (%d nodes)' % code.size, where=where)
        if st == 'equal':
            return self.add(name, 'holds', 'random interpretation, %s valuations' % info, where=where)
        if st == 'differ':
            lost = self.lost()
            if lost:
                return self.add(name, 'undecided', 'difference seen, but an effect was not modelled: ' + lost, where=where)
            extra = heads(code) - heads(spec)
            if extra:
                return self.add(name, 'undecided', 'difference seen through unmodelled calls %s' % sorted(extra),
                                where=where)
            a, b = first_diff(code, spec)
            return self.add(name, 'violated', 'random interpretation',
                            'code computes %s where the property requires %s' % (short(a), short(b)),
                            where=where, data={'valuation': info[0], 'code_value': short(info[1], 800),
                                               'required_value': short(info[2], 800),
                                               'code_term': tm.show(code)[:6000], 'required_term': tm.show(spec)[:6000]})
        self.add(name, 'undecided', '%s: %s' % (st, short(info, 200)), where=where)

    def true(self, name, cond, assume=None, over=None, samples=None, where=None):
        self.eq(name, cond, TRUE, assume, over, samples, where)

    def ge0(self, name, t, facts=(), where=None, over=None):
        """t >= 0, proved by the sign analysis; a sampled negative value of the value graph refutes it"""
        from . import sign
        t = term(t)
        if sign.ge0(t, list(facts)):
            return self.add(name, 'holds', 'sign analysis', where=where)
        st, info = ri.compare(tm.ite(tm.lt(t, tm.ZERO), FALSE, TRUE), TRUE, samples=400, seed='s%s-' % self.check.seed,
                              assume=tm.and_(*facts), over=over)
        if st == 'differ':
            return self.fail(name, 'can be negative: ' + short(t), where, {'valuation': info[0],
                                                                          'term': tm.show(t)[:4000]})
        self.add(name, 'undecided', 'sign analysis does not prove %s >= 0' % short(t, 300), where=where)

    def ok(self, name, how, where=None):
        self.add(name, 'holds', how, where=where)

    def fail(self, name, detail, where=None, data=None):
        lost = self.lost()
        if lost:
            return self.add(name, 'undecided', 'alarm withheld, an effect was not modelled: ' + lost, detail, where)
        self.add(name, 'violated', 'rule', detail, where, data)

    def undecided(self, name, why, where=None):
        self.add(name, 'undecided', why, where=where)

    def need(self, name, cond, detail, how='rule', where=None):
        """a structural rule"""
        if cond:
            self.ok(name, how, where)
        else:
            self.fail(name, detail, where)


class Check(object):
    def __init__(self, pid, rule, level='other', assumptions=(), explanation=''):
        self.pid, self.rule, self.level = pid, rule, level
        self.assumptions = list(assumptions)
        self.explanation = explanation
        self.sections = []
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.seed = os.environ.get('VERIF_SEED', '1')

    def section(self, name, tier=None):
        def deco(f):
            self.sections.append((name, f, tier))
            return f
        return deco

    # ---------------------------------------------------------- running
    def child(self, name, f, wfd, limit):
        os.setsid()
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        sys.setrecursionlimit(20000)
        t0 = time.time()
        s = Section(self, name)
        out = {}
        try:
            f(s)
        except MissingAnchor as e:
            out['missing'] = str(e)
        except Dead:
            s.undecided('analysis', 'path died in the harness: ' + traceback.format_exc()[-800:])
        except BaseException as e:
            s.undecided('analysis', '%s: %s' % (type(e).__name__, traceback.format_exc()[-1200:]))
        out['obs'] = s.obs
        out['functions'] = sorted({x for I in s.interps for x in I.functions})
        out['calls'] = sum(I.calls for I in s.interps)
        out['loops'] = sum(I.loops for I in s.interps)
        out['unknowns'] = {k: v for I in s.interps for k, v in I.unknowns.items()}
        out['wall'] = round(time.time() - t0, 2)
        with os.fdopen(wfd, 'w') as w:
            w.write(json.dumps(out, default=str))
        os._exit(0)

    def execute(self, limit, jobs=8):
        todo = [(n, f) for n, f, t in self.sections if t is None or t == self.tier]
        running = {}
        results = {}
        import select
        start = time.time()
        while todo or running:
            while todo and len(running) < jobs:
                n, f = todo.pop(0)
                r, w = os.pipe()
                sys.stdout.flush()
                pid = os.fork()
                if pid == 0:
                    os.close(r)
                    try:
                        self.child(n, f, w, limit)
                    finally:
                        os._exit(3)
                os.close(w)
                running[r] = [pid, n, time.time(), b'']
            rd, _, _ = select.select(list(running), [], [], 0.5)
            for r in rd:
                data = os.read(r, 1 << 20)
                if data:
                    running[r][3] += data
                    continue
                pid, n, t0, buf = running.pop(r)
                os.close(r)
                os.waitpid(pid, 0)
                try:
                    results[n] = json.loads(buf.decode())
                except ValueError:
                    results[n] = {'obs': [{'name': n + '/analysis', 'verdict': 'undecided', 'how': 'analysis died',
                                           'detail': '', 'where': '', 'data': None}], 'wall': time.time() - t0}
            late = time.time() - start > TOTAL
            if late and todo:
                for n, f in todo:
                    results[n] = {'obs': [{'name': n + '/analysis', 'verdict': 'undecided', 'how': 'total time limit',
                                           'detail': '', 'where': '', 'data': None}], 'wall': 0}
                todo = []
            for r in list(running):
                pid, n, t0, buf = running[r]
                if late or time.time() - t0 > limit:
                    try:
                        os.kill(pid, signal.SIGKILL)
                    except OSError:
                        pass
                    os.waitpid(pid, 0)
                    os.close(r)
                    del running[r]
                    results[n] = {'obs': [{'name': n + '/analysis', 'verdict': 'undecided',
                                           'how': 'time limit of %ss reached' % limit, 'detail': '', 'where': '',
                                           'data': None}], 'wall': limit}
        return results

    def known(self):
        """known findings of this property: obligation name -> text"""
        out = {}
        p = os.path.join(VERIF, 'known', 'findings.jsonl')
        if os.path.exists(p):
            for line in open(p):
                line = line.strip()
                if not line:
                    continue
                e = json.loads(line)
                if e.get('status') == 'known' and e.get('property') == self.pid:
                    out[e['obligation']] = e
        return out

    def main(self, argv):
        if '--tier' in argv:
            self.tier = argv[argv.index('--tier') + 1]
        t0 = time.time()
        limit = 200 if self.tier == 'quick' else 600
        results = self.execute(limit)
        known = self.known()
        obs = [o for n, _, _ in self.sections if n in results for o in results[n]['obs']]
        missing = [results[n]['missing'] for n in results if results[n].get('missing')]
        viol, kn = [], []
        for o in obs:
            if o['verdict'] == 'violated':
                k = known.get(o['name'])
                if k is not None and all(s in (o['detail'] + json.dumps(o['data'])) for s in k.get('match', [])):
                    kn.append((o, k))
                else:
                    viol.append(o)
        rep = os.path.join(OUT, 'replay')
        os.makedirs(rep, exist_ok=True)
        for f in os.listdir(rep):
            if f.startswith(self.pid + '-'):
                os.unlink(os.path.join(rep, f))
        vrec = []
        for i, o in enumerate(viol):
            path = os.path.join(rep, '%s-%d.json' % (self.pid, i + 1))
            with open(path, 'w') as f:
                json.dump({'property': self.pid, 'rule': self.rule, 'obligation': o['name'], 'where': o['where'],
                           'how': o['how'], 'detail': o['detail'], 'data': o['data']}, f, indent=1)
            vrec.append({'obligation': o['name'], 'where': o['where'], 'detail': o['detail'][:600], 'replay': path})
            if i >= 20:
                continue
            print('VIOLATION property=%s replay=%s' % (self.pid, path))
            print('  %s at %s: %s' % (o['name'], o['where'], o['detail'][:600]))
        for o, k in kn:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, k['what']))
        und = [o for o in obs if o['verdict'] == 'undecided']
        for o in und[:40]:
            print('undecided: %s at %s: %s' % (o['name'], o['where'], o['how'][:1500]))
        for m in missing:
            print('public entry point not found: %s' % m)
        held = [o for o in obs if o['verdict'] == 'holds']
        fns = sorted({x for r in results.values() for x in r.get('functions', ()) if x.startswith('dorado')})
        ev = {
            'property': self.pid, 'tier': self.tier if self.tier in ('quick', 'thorough') else 'quick',
            'seed': int(self.seed) if self.seed.isdigit() else 1, 'level': self.level,
            'coverage': {
                'explanation': self.explanation or self.rule,
                'rule': self.rule,
                'obligations': len(obs), 'discharged': len(held),
                'identical_value_graphs': sum(1 for o in held if o['how'].startswith('identical')),
                'random_interpretation': sum(1 for o in held if o['how'].startswith('random')),
                'rules': sum(1 for o in held if not o['how'].startswith(('identical', 'random'))),
                'undecided': [{'obligation': o['name'], 'why': o['how'][:300]} for o in und],
                'known_findings': [o['name'] for o, k in kn],
                'violation_list': vrec,
                'functions_analysed': fns,
                'calls_interpreted': sum(r.get('calls', 0) for r in results.values()),
                'loops_summarised': sum(r.get('loops', 0) for r in results.values()),
                'sections': {n: results[n].get('wall') for n in results},
                'obligation_list': [{'name': o['name'], 'where': o['where'], 'verdict': o['verdict'],
                                     'how': o['how'][:160]} for o in obs],
            },
            'assumptions': self.assumptions or ['none beyond DESIGN.md'],
            'wall_s': round(time.time() - t0, 2), 'violations': len(vrec),
        }
        os.makedirs(os.path.join(OUT, 'evidence'), exist_ok=True)
        with open(os.path.join(OUT, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        print('%s: %d obligations, %d discharged, %d undecided, %d violated, %.1fs' % (
            self.pid, len(obs), len(held), len(und), len(viol), time.time() - t0))
        if viol:
            return 1
        if missing:
            return 2
        return 0
