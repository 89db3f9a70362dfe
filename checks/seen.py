"""Results and effects of calls, compared between two variants of the calls."""
from checks.catalog import *

KEEP = ('get_state', 'get_time_state')


class Seen(object):
    """results and effects of the calls of one variant"""

    def __init__(self):
        self.calls = []

    def __call__(self, *a, **k):
        return Given(*a, observe=self.see, **k)

    def see(self, g, r, assume):
        g.s.true('returns', r.guard(), assume=assume)
        if r.st is None:
            return
        v = g.I.resolve(r.st, r.val)
        if g.fn in KEEP:
            out = tm.lit(*[g.I.reify(r.st, g.I.getitem(r.st, v, const(k))) for k in range(3)])
        else:
            out = g.I.reify(r.st, v)
        self.calls.append((g.fn, out, [e for e in effects.flat(r.st.log)]))


def compare(s, a, b):
    for k, ((fn, va, la), (fb, vb, lb)) in enumerate(zip(a.calls, b.calls)):
        s.eq('%s, call %d: result' % (fn, k), vb, va, samples=60)
        na, nb = [e.name for e in la], [e.name for e in lb]
        if not s.need('%s, call %d: as much is drawn and written' % (fn, k), na == nb, '%d and %d effects' % (len(na), len(nb))) \
                and na != nb:
            continue
        for x, y in zip(la, lb):
            if any(w in x.name for w in ('info', 'warn', 'debug')):
                continue
            p, q = drawn(x), drawn(y)
            if p is None or q is None:
                continue
            s.eq('%s, call %d: %s' % (fn, k, x.name), q, p, samples=40, where=y.where())


def drawn(e):
    """the arguments that are value graphs; walks written whole are not compared"""
    vals = [v for v in list(e.args) + [v for k, v in sorted((e.kw or {}).items())] if isinstance(v, T)]
    if any(x.op == 'dict' for v in vals for x in tm.subterms(v)):
        return None
    return tm.lit(e.when(), *vals)
