"""Sign analysis of value graphs: a sound `t >= 0` over the ranges of the leaves.

A polynomial is non-negative on a box when it is so at both ends of every
bounded multilinear variable and, for a variable with no upper bound, when its
constant part and its coefficient are; gates are decided branch-wise and guard
facts refine the ranges."""
from fractions import Fraction
from . import terms as tm
from .terms import T, TRUE, FALSE, ZERO, ONE, const


def rng(t, facts, d=0):
    """(lo, hi) of a non-polynomial term; None = unbounded"""
    if d > 40:
        return None, None
    if tm.is_num_const(t):
        return t.args[0], t.args[0]
    lo = hi = None
    op = t.op
    if op in ('sym', 'app'):
        dom = t.args[1]
        if dom[:1] in (('pos',), ('nonneg',), ('nanpos',)):
            lo = Fraction(0)
        elif dom[:1] in (('unit',), ('share',)):
            lo, hi = Fraction(0), Fraction(1)
        elif dom[:1] == ('enum',) and all(isinstance(x, (int, Fraction)) for x in dom[1]):
            lo, hi = min(dom[1]), max(dom[1])
        elif dom[:1] in (('nat',),):
            lo = 0
    elif op == 'rand':
        a = [x.args[0] for x in t.args[1] if tm.is_num_const(x)]
        if t.args[0] == 'uniform' and len(a) == 2:
            lo, hi = min(a), max(a)
    elif op in ('abs', 'sqrt'):
        lo = Fraction(0)
    elif op in ('cos', 'sin'):
        lo, hi = Fraction(-1), Fraction(1)
    elif op == 'inv':
        if rng(t.args[0], facts, d + 1)[0] is not None and rng(t.args[0], facts, d + 1)[0] >= 0:
            lo = Fraction(0)
    elif op in ('max', 'min'):
        rs = [rng(x, facts, d + 1) for x in t.args]
        los, his = [r[0] for r in rs], [r[1] for r in rs]
        if op == 'max':
            known = [x for x in los if x is not None]
            lo = max(known) if known else None
            hi = max(his) if None not in his else None
        else:
            known = [x for x in his if x is not None]
            hi = min(known) if known else None
            lo = min(los) if None not in los else None
    elif op == 'ite':
        ra, rb = rng(t.args[1], facts + [t.args[0]], d + 1), rng(t.args[2], facts + [tm.not_(t.args[0])], d + 1)
        lo = min(ra[0], rb[0]) if None not in (ra[0], rb[0]) else None
        hi = max(ra[1], rb[1]) if None not in (ra[1], rb[1]) else None
    elif op == 'poly':
        if ge0(t, facts, d + 1):
            lo = Fraction(0)
    for f in facts:
        for g in (f.args if f.op == 'and' else (f,)):
            a, b, strict = ineq(g)
            if a is None:
                continue
            if a is t and tm.is_num_const(b):
                hi = b.args[0] if hi is None else min(hi, b.args[0])
            if b is t and tm.is_num_const(a):
                lo = a.args[0] if lo is None else max(lo, a.args[0])
    return lo, hi


def ineq(g):
    """a <= b (or a < b)"""
    if g.op in ('lt', 'le'):
        return g.args[0], g.args[1], g.op == 'lt'
    if g.op == 'not' and g.args[0].op in ('lt', 'le'):
        return g.args[0].args[1], g.args[0].args[0], g.args[0].op == 'le'
    return None, None, None


def ge0(t, facts=(), d=0):
    """True when t >= 0 is proved"""
    facts = list(facts)
    if d > 40:
        return False
    if tm.is_num_const(t):
        return t.args[0] >= 0
    if t.op == 'ite':
        return ge0(t.args[1], facts + [t.args[0]], d + 1) and ge0(t.args[2], facts + [tm.not_(t.args[0])], d + 1)
    if t.op != 'poly':
        lo = rng(t, facts, d)[0]
        return lo is not None and lo >= 0
    for f in facts:
        for g in (f.args if f.op == 'and' else (f,)):
            a, b, strict = ineq(g)
            if a is not None and tm.sub(b, a) is t:
                return True
    mons = [(dict(m), c) for m, c in polyof(t)]
    atoms = sorted({a for m, c in mons for a in m}, key=lambda a: tm.show(a))
    g = [a for a in atoms if a.op == 'ite']
    if g:
        a = g[0]
        c = a.args[0]
        return (ge0(tm.subst_term(t, {a: a.args[1]}), facts + [c], d + 1)
                and ge0(tm.subst_term(t, {a: a.args[2]}), facts + [tm.not_(c)], d + 1))
    ranges = {a: rng(a, facts, d + 1) for a in atoms}
    return box(mons, [a for a in atoms], ranges)


def polyof(t):
    return tm.poly_items(t)


def box(mons, atoms, ranges):
    # factor common non-negative atoms out
    mons = [(m, c) for m, c in mons if c != 0]
    if not mons:
        return True
    common = None
    for m, c in mons:
        common = dict(m) if common is None else {a: min(e, m[a]) for a, e in common.items() if a in m}
    if common:
        for a, e in common.items():
            lo = ranges[a][0]
            if not (e % 2 == 0 or (lo is not None and lo >= 0)):
                return False
        mons = [({a: e - common.get(a, 0) for a, e in m.items() if e != common.get(a, 0)}, c) for m, c in mons]
    left = [a for a in atoms if any(a in m for m, c in mons)]
    if not left:
        return sum(c for m, c in mons) >= 0
    # bounded variables first: they split into vertices
    left.sort(key=lambda a: 0 if None not in ranges[a] else 1)
    a = left[0]
    lo, hi = ranges[a]
    if any(m.get(a, 0) > 1 for m, c in mons):
        if lo is not None and lo >= 0:
            return all(c >= 0 for m, c in mons) and all(ranges[x][0] is not None and ranges[x][0] >= 0 for x in left)
        return False

    def at(v):
        out = {}
        for m, c in mons:
            n = {x: e for x, e in m.items() if x is not a}
            k = frozenset(n.items())
            out[k] = out.get(k, 0) + (c * v if a in m else c)
        return [(dict(k), c) for k, c in out.items()]

    def coef():
        return [({x: e for x, e in m.items() if x is not a}, c) for m, c in mons if a in m]
    if lo is not None and hi is not None:
        return box(at(lo), atoms, ranges) and box(at(hi), atoms, ranges)
    if lo is not None:
        return box(at(lo), atoms, ranges) and box(coef(), atoms, ranges)
    return False
