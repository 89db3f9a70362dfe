"""A call after an earlier call: what the library keeps in its modules, classes, functions and default
arguments between calls is taken from an analysed call on other data."""
from . import terms as tm
from .terms import T, const
from .heap import (Ref, VTup, Path, GV, Bound, SliceV, LazySeq, Flat, ListO, DictO, InstO, ArrO, ViewO)
from .harness import run as run_call

REALS = ('real', 'nanreal', 'pos', 'nanpos', 'nonneg', 'unit', 'share')


def rename(t, scalars, memo):
    """the same shapes, other contents"""
    r = memo.get(t)
    if r is not None:
        return r
    if t.op in ('bv', 'phi', 'unknown', 'const'):
        r = t
    elif t.op == 'sym':
        r = tm.sym(t.args[0] + '~', *t.args[1]) if scalars and t.args[1] and t.args[1][0] in REALS else t
    else:
        a = tuple(tm._map_args(x, lambda y: rename(y, scalars, memo)) for x in t.args)
        if t.op == 'app':
            a = (t.args[0] + '~',) + a[1:]
            r = tm.mk('app', *a)
        else:
            r = t if a == t.args else tm.rebuild(t.op, a)
    memo[t] = r
    return r


class Clone(object):
    """a copy of the caller's data with other contents; what belongs to the modules stays shared"""

    def __init__(self, I, st, scalars, same=False):
        self.I, self.scalars, self.memo = I, scalars, {}
        self.shared = set(I.modstate.heap)
        self.map = {k: k if same else next(I.oids) for k in st.heap if k not in self.shared and not isinstance(k, tuple)}
        self.st = st.fork()
        self.st.ctx = st.ctx + (const('~'),)
        for k, o in st.heap.items():
            if k in self.map:
                self.st.heap[self.map[k]] = self.obj(o)

    def t(self, t):
        return rename(t, self.scalars, self.memo)

    def v(self, v):
        if isinstance(v, T):
            return self.t(v)
        if isinstance(v, Ref):
            return Ref(self.map[v.oid]) if v.oid in self.map else v
        if type(v) is VTup:
            return VTup([self.v(x) for x in v.items])
        if isinstance(v, Path):
            return Path(self.map.get(v.oid, v.oid), tuple(self.v(x) for x in v.idx))
        if isinstance(v, GV):
            return GV(self.t(v.c), self.v(v.a), self.v(v.b))
        if isinstance(v, Flat):
            return Flat(self.map.get(v.oid, v.oid))
        if isinstance(v, Bound):
            return Bound(v.name, self.v(v.obj), v.func)
        if isinstance(v, SliceV):
            return SliceV(*[self.v(x) if x is not None else None for x in (v.lo, v.hi, v.step)])
        return v

    def obj(self, o):
        if isinstance(o, ListO):
            return ListO(items=[self.v(x) for x in o.items], kind=o.kind) if o.items is not None else \
                ListO(seq=self.t(o.seq), kind=o.kind)
        if isinstance(o, DictO):
            return DictO({(self.t(k) if isinstance(k, T) else k): (self.t(p), self.v(v)) for k, (p, v) in o.ent.items()},
                         o.taint)
        if isinstance(o, InstO):
            return InstO(o.cls, {k: (self.t(p), self.v(v)) for k, (p, v) in o.attrs.items()}, o.lazy)
        if isinstance(o, ArrO):
            return ArrO([self.t(x) for x in o.shape], o.vs, self.t(o.body), o.dtype,
                        self.t(o.mask) if o.mask is not None else None)
        if isinstance(o, ViewO):
            return ViewO(self.map.get(o.base, o.base), tuple((a[0],) + tuple(self.v(x) if isinstance(x, T) else x
                                                                             for x in a[1:]) for a in o.axes),
                         [self.t(x) for x in o.shape], o.dtype)
        return o


def kept(I, before, after):
    """what the modules keep: [(key, kind)] of the objects and variables that a call changed"""
    out = []
    for k in I.modstate.heap:
        a, b = before.heap.get(k), after.heap.get(k)
        if a is not b and not (a == b):
            out.append((k, 'heap'))
    for k in after.heap:
        if isinstance(k, tuple) and k not in I.modstate.heap and k not in before.heap:
            out.append((k, 'heap'))
    for k in I.modstate.vars:
        a, b = before.vars.get(k), after.vars.get(k)
        if a is not b and a != b:
            out.append((k, 'var'))
    return out


def after_another(I, st, f, args, kw, scalars, earlier=None, same=False):
    """`earlier` gets what the other call returned; `same`: the other data were held by the same containers;
    the state in which the modules remember the same call on other data; None if nothing is remembered"""
    c = Clone(I, st, scalars, same)
    r = run_call(I, c.st, f, [c.v(a) for a in args], {k: c.v(v) for k, v in (kw or {}).items()})
    if r.st is None:
        return None
    ks = kept(I, st, r.st)
    if not ks:
        return None
    out = st.fork()
    for k, o in r.st.heap.items():
        if k not in out.heap or k in I.modstate.heap or isinstance(k, tuple):
            out.heap[k] = o
    for k, kind in ks:
        if kind == 'var':
            out.vars[k] = r.st.vars[k]
    if earlier is not None:
        earlier.append((r.val, I.reify(r.st, r.val)))
    out.pc = r.st.pc
    out.base = len(out.pc)
    return out


def unknown_parts(t):
    return {x for x in tm.subterms(t) if x.op == 'unknown'}


def observed(I, r, args):
    if r.st is None:
        return None
    return (r.st.guard(), I.reify(r.st, r.val)) + tuple(I.reify(r.st, a) for a in args) + tuple(
        (e.name, e.guard, e.args) for e in r.st.log)


def run(I, st, f, args, kw=None):
    """analyse a call; if the library remembers something from call to call, the call after another one"""
    start = [list(x) for x in I.recorders]
    r = run_call(I, st, f, args, kw)
    if r.st is None or not kept(I, st, r.st):
        return r
    lost = dict(I.unknowns)
    noted = [list(x) for x in I.recorders]

    def note(xs):
        for x, y in zip(I.recorders, xs):
            x[:] = y
    for scalars, same in ((False, False), (True, False), (False, True)):
        note(start)
        st2 = after_another(I, st, f, args, kw, scalars, same=same)
        if st2 is None:
            continue
        note(start)
        r2 = run_call(I, st2, f, args, kw)
        if len(I.unknowns) > len(lost):
            I.unknowns.clear()
            I.unknowns.update(lost)
            break
        if r2.st is None or observed(I, r2, args) != observed(I, r, args):
            return r2
    note(noted)
    return r
