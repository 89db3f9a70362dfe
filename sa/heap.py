"""Values and heap objects of the abstract interpreter."""
from . import terms as tm
from .terms import T


class V(object):
    """non-term value"""
    __slots__ = ()


class Dead(Exception):
    """the current path became infeasible"""


class AnalysisError(Exception):
    """an anchor of the analysis is missing or cannot be analysed at all"""


class Exc(V):
    __slots__ = ('cls', 'args', 'prov')

    def __init__(self, cls, args=(), prov=None):
        self.cls, self.args, self.prov = cls, tuple(args), prov

    def __eq__(self, o):
        return isinstance(o, Exc) and o.cls == self.cls

    def __hash__(self):
        return hash(self.cls)


class Ref(V):
    __slots__ = ('oid',)

    def __init__(self, oid):
        self.oid = oid

    def __eq__(self, o):
        return isinstance(o, Ref) and o.oid == self.oid

    def __hash__(self):
        return hash(('ref', self.oid))

    def __repr__(self):
        return 'Ref(%s)' % (self.oid,)


class VTup(V):
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = tuple(items)

    def __eq__(self, o):
        return isinstance(o, VTup) and o.items == self.items

    def __hash__(self):
        return hash(('tup', self.items))

    def __repr__(self):
        return 'VTup%r' % (self.items,)


class Path(V):
    """reference to a container nested (by value) in a list object"""
    __slots__ = ('oid', 'idx')

    def __init__(self, oid, idx):
        self.oid = oid
        self.idx = tuple(idx)

    def __eq__(self, o):
        return isinstance(o, Path) and (o.oid, o.idx) == (self.oid, self.idx)

    def __hash__(self):
        return hash(('path', self.oid, self.idx))


class GV(V):
    """gated value: a if c else b"""
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __eq__(self, o):
        return isinstance(o, GV) and (o.c, o.a, o.b) == (self.c, self.a, self.b)

    def __hash__(self):
        return hash(('gv', self.c, self.a, self.b))

    def __repr__(self):
        return 'GV(%r,%r,%r)' % (self.c, self.a, self.b)


class _Undef(V):
    __slots__ = ()

    def __repr__(self):
        return 'UNDEF'


UNDEF = _Undef()


class Func(V):
    __slots__ = ('node', 'fid', 'mod', 'name', 'defaults', 'kwdefaults', 'cls')

    def __init__(self, node, fid, mod, name, defaults, kwdefaults, cls=None):
        self.node, self.fid, self.mod, self.name = node, fid, mod, name
        self.defaults, self.kwdefaults, self.cls = defaults, kwdefaults, cls

    def __eq__(self, o):
        return isinstance(o, Func) and o.node is self.node and o.fid == self.fid

    def __hash__(self):
        return hash(('func', id(self.node), self.fid))


class Native(V):
    """a callable implemented by the analysis (harness stubs)"""
    __slots__ = ('fn', 'name')

    def __init__(self, fn, name='native'):
        self.fn, self.name = fn, name


class Bound(V):
    __slots__ = ('name', 'obj', 'func')

    def __init__(self, name, obj, func=None):
        self.name, self.obj, self.func = name, obj, func

    def __eq__(self, o):
        return isinstance(o, Bound) and (o.name, o.obj, o.func) == (self.name, self.obj, self.func)

    def __hash__(self):
        return hash(('bound', self.name, self.obj))


class Mod(V):
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Mod) and o.name == self.name

    def __hash__(self):
        return hash(('mod', self.name))


class Ext(V):
    """external (library) attribute or callable by dotted name"""
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Ext) and o.name == self.name

    def __hash__(self):
        return hash(('ext', self.name))

    def __repr__(self):
        return 'Ext(%s)' % self.name


class Cls(V):
    __slots__ = ('name', 'node', 'mod')

    def __init__(self, name, node, mod):
        self.name, self.node, self.mod = name, node, mod

    def __eq__(self, o):
        return isinstance(o, Cls) and o.node is self.node

    def __hash__(self):
        return hash(('cls', id(self.node)))


class SliceV(V):
    __slots__ = ('lo', 'hi', 'step')

    def __init__(self, lo, hi, step):
        if isinstance(step, T) and step.op == 'const' and step.args[0] == -1 and isinstance(lo, T) and lo.op == 'const' \
                and lo.args[0] == -1:
            lo = None       # x[-1::-1] is x[::-1]
        elif isinstance(lo, T) and lo.op == 'const' and lo.args[0] == 0 and (step is None or isinstance(
                step, T) and step.op == 'const' and step.args[0] == 1):
            lo = None
        self.lo, self.hi, self.step = lo, hi, step


class EllV(V):
    __slots__ = ()


ELLIPSIS = EllV()


class LazySeq(V):
    """an iterable: n elements, fn(k) gives element k; guard(k) filters"""
    __slots__ = ('n', 'fn', 'items', 'guard', 'src')

    def __init__(self, n, fn, items=None, guard=None, src=None):
        self.n, self.fn, self.items, self.guard, self.src = n, fn, items, guard, src


class Flat(V):
    __slots__ = ('oid',)

    def __init__(self, oid):
        self.oid = oid


# ------------------------------------------------------------------ heap objects

class ListO(object):
    __slots__ = ('items', 'seq', 'kind')

    def __init__(self, items=None, seq=None, kind='list'):
        self.items = tuple(items) if items is not None else None
        self.seq = seq
        self.kind = kind          # 'list' | 'set'

    def __eq__(self, o):
        return isinstance(o, ListO) and self.items == o.items and self.seq is o.seq

    __hash__ = None


MEMO = tm.mk('unknown', 'memo')     # a dictionary filled by the iterations of a loop so far


def both_taints(a, b):
    """what is unknown about a dictionary after a branch"""
    if a is MEMO or a is None:
        return b if b is not None else a
    return a


class DictO(object):
    __slots__ = ('ent', 'taint')

    def __init__(self, ent=None, taint=None):
        self.ent = dict(ent or {})      # key -> (present T, value)
        self.taint = taint

    def __eq__(self, o):
        return isinstance(o, DictO) and self.ent == o.ent and self.taint is o.taint \
            and list(self.ent) == list(o.ent)

    __hash__ = None


class InstO(object):
    __slots__ = ('cls', 'attrs', 'lazy')

    def __init__(self, cls, attrs=None, lazy=None):
        self.cls = cls
        self.attrs = dict(attrs or {})  # name -> (present T, value)
        self.lazy = lazy

    def __eq__(self, o):
        return isinstance(o, InstO) and self.attrs == o.attrs and self.cls == o.cls

    __hash__ = None


class ArrO(object):
    """an ndarray: element at index vs is body"""
    __slots__ = ('shape', 'vs', 'body', 'dtype', 'mask')

    def __init__(self, shape, vs, body, dtype=None, mask=None):
        self.shape = tuple(shape)
        self.vs = tuple(vs)
        self.body = body
        self.dtype = dtype
        self.mask = mask                # not None: the 1-d result of boolean indexing

    def at(self, idx):
        return tm.subst(self.body, dict(zip(self.vs, idx)))

    def __eq__(self, o):
        if not isinstance(o, ArrO) or self.shape != o.shape or self.dtype != o.dtype:
            return False
        if self.vs == o.vs:
            return self.body is o.body and self.mask is o.mask
        m = dict(zip(o.vs, self.vs))
        return tm.subst(o.body, m) is self.body and (
            (self.mask is None and o.mask is None) or
            (self.mask is not None and o.mask is not None and tm.subst(o.mask, m) is self.mask))

    __hash__ = None


class ViewO(object):
    """a basic-slicing view. axes: one entry per base axis: ('i', idx) | ('s', lo, step, view axis)"""
    __slots__ = ('base', 'axes', 'shape', 'dtype')

    def __init__(self, base, axes, shape, dtype):
        self.base, self.axes, self.shape, self.dtype = base, tuple(axes), tuple(shape), dtype

    def __eq__(self, o):
        return isinstance(o, ViewO) and (self.base, self.axes, self.shape) == (o.base, o.axes, o.shape)

    __hash__ = None


class Eff(object):
    """a logged effect"""
    __slots__ = ('guard', 'name', 'args', 'kw', 'prov', 'sub', 'var', 'n', 'res')

    def __init__(self, guard, name, args=(), kw=None, prov=None, sub=None, var=None, n=None, res=None):
        self.guard, self.name, self.args, self.kw, self.prov = guard, name, args, kw or {}, prov
        self.sub, self.var, self.n = sub, var, n
        self.res = res

    def __repr__(self):
        if self.sub is not None:
            return 'FOR %s<%s {%s}' % (self.var, self.n, '; '.join(map(repr, self.sub)))
        return '%s(%s%s)%s' % (self.name, ', '.join(map(str, self.args)),
                               ''.join(', %s=%s' % kv for kv in self.kw.items()),
                               '' if self.guard is tm.TRUE else ' if %s' % (self.guard,))
