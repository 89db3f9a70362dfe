"""Queries over effect logs."""
from . import terms as tm
from .terms import T, TRUE, FALSE


class E(object):
    """an effect with the loops around it"""

    def __init__(self, e, loops, guard):
        self.e, self.loops, self.guard = e, loops, guard
        self.name, self.args, self.kw, self.prov = e.name, e.args, e.kw, e.prov

    def when(self):
        """condition under which the effect happens at least once"""
        g = self.guard
        for v, n in reversed(self.loops):
            g = tm.red('any', n, v, g) if n is not None else g
        return g

    def where(self):
        return '%s:%s' % (self.prov[0], self.prov[1]) if self.prov else ''


def flat(log, loops=(), guard=TRUE):
    for e in log:
        if e.sub is not None:
            g = tm.and_(guard, e.guard) if e.guard is not None else guard
            for x in flat(e.sub, loops + ((e.var, e.n),), g):
                yield x
        else:
            yield E(e, loops, tm.and_(guard, e.guard))


def named(log, *names):
    return [x for x in flat(log) if x.name in names]


def when(es):
    return tm.or_(*[x.when() for x in es])


def shown_lists(t):
    """sequences rendered into a message"""
    out = []
    for x in tm.subterms(t):
        if x.op == 'call' and x.args[0] in ('str', 'repr', 'fmt') and isinstance(x.args[1], T) and \
                tm.isseqkind(tm.kindof(x.args[1])):
            out.append(x.args[1])
        elif x.op in ('strfmt', 'fstr'):
            out += [a for a in x.args if isinstance(a, T) and tm.isseqkind(tm.kindof(a))]
    return out
