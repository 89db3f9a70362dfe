"""Abstract interpretation of Python source into value graphs.

Every function is interpreted over symbolic values; the two sides of a branch
are joined by gates (gated SSA) instead of being enumerated as paths, loops are
summarised by phi terms (closed forms where the update has one, `mu` nodes
otherwise), and calls are inlined.  Nothing of the analysed program is executed.
"""
import ast
import os
from . import terms as tm
from .terms import T, TRUE, FALSE, NONE, ZERO, ONE, const
from .heap import (both_taints, Ref, VTup, Path, GV, UNDEF, Func, Native, Bound, Mod, Ext, Cls, SliceV, ELLIPSIS,
                   LazySeq, Flat, ListO, DictO, InstO, ArrO, ViewO, Eff, V, Dead, AnalysisError, Exc)
import itertools

UNROLL = 40
MAXDEPTH = 30


EXC_PARENTS = {
    'BaseException': None, 'Exception': 'BaseException', 'ValueError': 'Exception', 'TypeError': 'Exception',
    'AttributeError': 'Exception', 'LookupError': 'Exception', 'IndexError': 'LookupError',
    'KeyError': 'LookupError', 'RuntimeError': 'Exception', 'NameError': 'Exception',
    'UnboundLocalError': 'NameError', 'AssertionError': 'Exception', 'OSError': 'Exception',
    'FileExistsError': 'OSError', 'FileNotFoundError': 'OSError', 'IOError': 'OSError',
    'NotImplementedError': 'RuntimeError', 'ArithmeticError': 'Exception',
    'ZeroDivisionError': 'ArithmeticError', 'ImportError': 'Exception', 'ModuleNotFoundError': 'ImportError',
    'StopIteration': 'Exception', 'KeyboardInterrupt': 'BaseException', 'Warning': 'Exception',
    'UserWarning': 'Warning', 'DeprecationWarning': 'Warning', 'OverflowError': 'ArithmeticError',
    'PackageNotFoundError': 'ModuleNotFoundError', 'UnicodeError': 'ValueError',
}


def exc_isa(a, b):
    while a is not None:
        if a == b:
            return True
        if a not in EXC_PARENTS:
            return b in ('Exception', 'BaseException')
        a = EXC_PARENTS[a]
    return False


class State(object):
    __slots__ = ('vars', 'heap', 'pc', 'log', 'ctx', 'base', 'rb', 'rng')

    def __init__(self):
        self.vars = {}
        self.heap = {}
        self.pc = ()
        self.log = []
        self.ctx = ()
        self.base = 0
        self.rb = {}             # first free ordinal of every kind of random draw
        self.rng = NONE          # the seed of the global generator, if it was set on this path

    def fork(self, c=None):
        s = State()
        s.vars = dict(self.vars)
        s.heap = dict(self.heap)
        s.pc = self.pc
        s.log = list(self.log)
        s.ctx = self.ctx
        s.rb = self.rb
        s.rng = self.rng
        s.base = self.base
        if c is not None:
            s.assume(c)
        return s

    def assume(self, c):
        if c is TRUE:
            return
        cs = c.args if c.op == 'and' else (c,)
        for x in cs:
            if x not in self.pc:
                self.pc = self.pc + (x,)

    def become(self, o):
        self.vars, self.heap, self.pc, self.log, self.ctx, self.base, self.rb, self.rng = (
            o.vars, o.heap, o.pc, o.log, o.ctx, o.base, o.rb, o.rng)

    def guard(self):
        return tm.and_(*self.pc[self.base:]) if len(self.pc) > self.base else TRUE


class Frame(object):
    def __init__(self, fid, func, parent, locals_, mod):
        self.fid, self.func, self.parent, self.locals, self.mod = fid, func, parent, locals_, mod


def local_names(node):
    """names assigned in a function body (not in nested functions)"""
    out = set()
    glob = set()

    def tgt(t):
        if isinstance(t, ast.Name):
            out.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                tgt(e)
        elif isinstance(t, ast.Starred):
            tgt(t.value)

    class Vis(ast.NodeVisitor):
        def visit_FunctionDef(self, n):
            out.add(n.name)

        visit_AsyncFunctionDef = visit_FunctionDef

        def visit_ClassDef(self, n):
            out.add(n.name)

        def visit_Lambda(self, n):
            pass

        def visit_Assign(self, n):
            for t in n.targets:
                tgt(t)
            self.generic_visit(n)

        def visit_AugAssign(self, n):
            tgt(n.target)
            self.generic_visit(n)

        def visit_AnnAssign(self, n):
            if n.value is not None:
                tgt(n.target)
            self.generic_visit(n)

        def visit_NamedExpr(self, n):
            tgt(n.target)
            self.generic_visit(n)

        def visit_For(self, n):
            tgt(n.target)
            self.generic_visit(n)

        def visit_With(self, n):
            for i in n.items:
                if i.optional_vars is not None:
                    tgt(i.optional_vars)
            self.generic_visit(n)

        def visit_Import(self, n):
            for a in n.names:
                out.add(a.asname or a.name.split('.')[0])

        def visit_ImportFrom(self, n):
            for a in n.names:
                out.add(a.asname or a.name)

        def visit_ExceptHandler(self, n):
            if n.name:
                out.add(n.name)
            self.generic_visit(n)

        def visit_Global(self, n):
            glob.update(n.names)

        def visit_Nonlocal(self, n):
            glob.update(n.names)

        def comp(self, n):
            # comprehension targets are local to the comprehension
            for g in n.generators:
                self.visit(g.iter)
        visit_ListComp = visit_SetComp = visit_GeneratorExp = visit_DictComp = comp
    v = Vis()
    for s in node.body:
        v.visit(s)
    return out - glob


class Outs(object):
    """the outcomes of a statement list"""
    __slots__ = ('next', 'ret', 'brk', 'cont', 'exc')

    def __init__(self):
        self.next = None      # State
        self.ret = []         # (State, value)
        self.brk = []         # State
        self.cont = []        # State
        self.exc = []         # (State, Exc)


from .lib import LibMixin            # noqa: E402
from .classes import ClassMixin, CM, SuperV, NTup, is_generator            # noqa: E402
from .loops import LoopMixin         # noqa: E402


class Interp(ClassMixin, LibMixin, LoopMixin):
    def __init__(self, root, package='dorado', extra=None, stubs=None):
        self.root = root
        self.package = package
        self.mods = {}             # name -> ast.Module
        self.src = {}
        self.modstate = State()    # holds module globals and class objects
        self.oids = itertools.count(1)
        self.fids = itertools.count(1)
        self.depth = 0
        self.bodies = []           # bodies of the with statements that run inside a generator
        self.zerodiv = 0
        self.trydepth = 0
        self.pending = []          # (State, Exc) raised during expression evaluation
        self.frames = {}
        self.functions = set()     # analysed functions
        self.calls = 0
        self.loops = 0
        self.unknowns = {}
        self.factories = {}      # default factories of dictionaries, by object
        self.recorders = []        # lists in which stubs note what they were called with
        self.stubs = stubs or {}
        self.modframes = {}
        self.loading = set()
        self.extra = extra or {}   # module name -> path
        self.fuel = 4000000
        self.curline = None
        self.memo_src = {}

    # ------------------------------------------------------------ modules
    def modpath(self, name):
        if name in self.extra:
            return self.extra[name]
        p = os.path.join(self.root, *name.split('.'))
        if os.path.isfile(p + '.py'):
            return p + '.py'
        if os.path.isfile(os.path.join(p, '__init__.py')):
            return os.path.join(p, '__init__.py')
        return None

    def is_internal(self, name):
        return name == self.package or name.startswith(self.package + '.') or name in self.extra

    def load(self, name):
        """analyse the top level of a module; returns Mod or None"""
        if name in self.modframes:
            return Mod(name)
        p = self.modpath(name)
        if p is None:
            return None
        with open(p) as f:
            src = f.read()
        tree = ast.parse(src, p)
        self.src[name] = p
        fr = Frame(('mod', name), None, None, None, name)
        self.modframes[name] = fr
        self.mods[name] = tree
        if name == self.package:
            # submodules are attributes; avoid executing the package initialiser
            return Mod(name)
        st = self.modstate
        self.run_toplevel(tree, fr, st)
        return Mod(name)

    def run_toplevel(self, tree, fr, st):
        saved = self.pending, tm.CUR_PROV[0]
        self.pending = []
        for s in tree.body:
            if isinstance(s, ast.If) and isinstance(s.test, ast.Compare) and \
                    isinstance(s.test.left, ast.Name) and s.test.left.id == '__name__':
                continue
            o = self.exec_stmt(s, st, fr)
            if o.next is None:
                break
            st.become(o.next)
        self.pending, tm.CUR_PROV[0] = saved

    def new_state(self):
        st = self.modstate.fork()
        return st

    def module_attr(self, mod, name, st=None):
        fr = self.modframes.get(mod)
        if fr is None:
            self.load(mod)
            fr = self.modframes.get(mod)
            if fr is None:
                return None
        key = (fr.fid, name)
        for s in (st, self.modstate):
            if s is not None and key in s.vars:
                return s.vars[key]
        sub = mod + '.' + name
        if self.modpath(sub):
            return self.load(sub)
        return None

    def func(self, mod, qual):
        """look up a function or Class.method as a value"""
        if self.load(mod) is None:
            raise AnalysisError('module %s not found' % mod)
        parts = qual.split('.')
        v = self.module_attr(mod, parts[0])
        if v is None:
            raise AnalysisError('%s.%s not found' % (mod, qual))
        for p in parts[1:]:
            if not isinstance(v, Cls):
                raise AnalysisError('%s.%s not found' % (mod, qual))
            m = self.cls_lookup(v, p, self.modstate)
            if m is None:
                raise AnalysisError('%s.%s not found' % (mod, qual))
            v = m
        return v

    # ------------------------------------------------------------ heap helpers
    def alloc(self, st, obj):
        o = next(self.oids)
        st.heap[o] = obj
        return Ref(o)

    def new_list(self, st, items=None, seq=None):
        return self.alloc(st, ListO(items=items, seq=seq))

    def new_arr(self, st, shape, fn, dtype=None, mask=None):
        vs = tuple(tm.bv() for _ in shape)
        return self.alloc(st, ArrO(shape, vs, fn(vs), dtype, mask(vs) if mask else None))

    def prov(self, node, fr):
        f = self.src.get(fr.mod, fr.mod)
        return (f, getattr(node, 'lineno', 0), fr.func.name if fr.func is not None else '<module>')

    def where(self):
        return tm.CUR_PROV[0]

    def unk(self, reason):
        p = tm.CUR_PROV[0]
        r = '%s @%s:%s' % (reason, os.path.basename(str(p[0])) if p else '?', p[1] if p else '?')
        self.unknowns[r] = self.unknowns.get(r, 0) + 1
        return tm.unknown(r)

    # ------------------------------------------------------------ facts
    def decide(self, st, c):
        """simplify a boolean term under the path facts"""
        if c is TRUE or c is FALSE or not st.pc:
            return c
        return self._dec(c, st.pc, {})

    def _dec(self, c, pc, memo):
        if c in memo:
            return memo[c]
        if c in pc:
            return TRUE
        n = tm.not_(c)
        if n in pc:
            return FALSE
        r = c
        if c.op == 'and':
            r = tm.and_(*[self._dec(x, pc, memo) for x in c.args])
        elif c.op == 'or':
            r = tm.or_(*[self._dec(x, pc, memo) for x in c.args])
        elif c.op == 'not':
            r = tm.not_(self._dec(c.args[0], pc, memo))
        elif c.op == 'eq':
            a, b = c.args
            if tm.is_const(b) or tm.is_const(a):
                if tm.is_const(a):
                    a, b = b, a
                for f in pc:
                    if f.op == 'eq' and (f.args[0] is a and tm.is_const(f.args[1]) or
                                         f.args[1] is a and tm.is_const(f.args[0])):
                        k = f.args[1] if f.args[0] is a else f.args[0]
                        if k is not b:
                            r = FALSE
        if r is c and c.op == 'lt':
            # implied by a recorded strict/non-strict bound on the same difference
            d = tm.sub(c.args[1], c.args[0])
            for f in pc:
                g, negated = (f.args[0], True) if f.op == 'not' else (f, False)
                if g.op == 'lt' and tm.is_int(d):
                    e = tm.sub(g.args[1], g.args[0])   # g: e >= 1
                    if not tm.is_int(e):
                        continue
                    if not negated:
                        x = tm.sub(d, e)
                        if tm.is_num_const(x) and x.args[0] >= 0:
                            r = TRUE
                        x = tm.add(d, e)
                        if tm.is_num_const(x) and x.args[0] <= 1:
                            r = FALSE
                    else:                               # e <= 0
                        x = tm.sub(d, e)
                        if tm.is_num_const(x) and x.args[0] <= 0:
                            r = FALSE
                        x = tm.add(d, e)
                        if tm.is_num_const(x) and x.args[0] >= 1:
                            r = TRUE
        memo[c] = r
        return r

    def simp(self, st, t):
        """resolve the gates of a term decided by the path facts"""
        k = 0
        while isinstance(t, T) and t.op == 'ite' and k < 20:
            c = self.decide(st, t.args[0])
            if c is TRUE:
                t = t.args[1]
            elif c is FALSE:
                t = t.args[2]
            else:
                break
            k += 1
        return t

    def resolve(self, st, v):
        while isinstance(v, GV):
            c = self.decide(st, v.c)
            if c is TRUE:
                v = v.a
            elif c is FALSE:
                v = v.b
            else:
                return v
        return self.simp(st, v)

    # ------------------------------------------------------------ joins
    def vmerge(self, c, a, b, ha=None, hb=None):
        if a is b:
            return a
        if isinstance(a, T) and isinstance(b, T):
            return tm.ite(c, a, b)
        try:
            if a == b:
                return a
        except Exception:
            pass
        if isinstance(a, VTup) and isinstance(b, VTup) and len(a.items) == len(b.items):
            return VTup([self.vmerge(c, x, y) for x, y in zip(a.items, b.items)])
        if c is TRUE:
            return a
        if c is FALSE:
            return b
        if isinstance(a, GV) and a.c is c:
            a = a.a
        if isinstance(b, GV) and b.c is c:
            b = b.b
        return GV(c, a, b)

    def omerge(self, c, a, b, ha, hb):
        if a is b or a == b:
            return a
        if isinstance(a, ListO) and isinstance(b, ListO):
            if a.items is not None and b.items is not None and len(a.items) == len(b.items):
                return ListO(items=[self.vmerge(c, x, y) for x, y in zip(a.items, b.items)], kind=a.kind)
            return ListO(seq=tm.ite(c, self.seq_of_list(a, ha), self.seq_of_list(b, hb)), kind=a.kind)
        if isinstance(a, DictO) and isinstance(b, DictO):
            ent = {}
            for k in list(a.ent) + [k for k in b.ent if k not in a.ent]:
                pa, va = a.ent.get(k, (FALSE, None))
                pb, vb = b.ent.get(k, (FALSE, None))
                if va is None:
                    v = vb
                elif vb is None:
                    v = va
                else:
                    v = self.vmerge(c, va, vb)
                ent[k] = (tm.ite(c, pa, pb), v)
            return DictO(ent, both_taints(a.taint, b.taint))
        if isinstance(a, InstO) and isinstance(b, InstO):
            at = {}
            for k in list(a.attrs) + [k for k in b.attrs if k not in a.attrs]:
                pa, va = a.attrs.get(k, (FALSE, None))
                pb, vb = b.attrs.get(k, (FALSE, None))
                v = vb if va is None else va if vb is None else self.vmerge(c, va, vb)
                at[k] = (tm.ite(c, pa, pb), v)
            return InstO(a.cls, at, a.lazy)
        if isinstance(a, ArrO) and isinstance(b, ArrO) and len(a.shape) == len(b.shape):
            m = dict(zip(b.vs, a.vs))
            shp = tuple(tm.ite(c, x, y) for x, y in zip(a.shape, b.shape))
            mask = None
            if a.mask is not None or b.mask is not None:
                if a.mask is None or b.mask is None:
                    return ArrO(shp, a.vs, self.unk('join of masked array'), None)
                mask = tm.ite(c, a.mask, tm.subst(b.mask, m))
            return ArrO(shp, a.vs, tm.ite(c, a.body, tm.subst(b.body, m)),
                        a.dtype if a.dtype == b.dtype else None, mask)
        return a if c is TRUE else ListO(seq=self.unk('join of unlike objects'))

    def merge(self, s1, s2):
        """join two disjoint states"""
        if s1 is None:
            return s2
        if s2 is None:
            return s1
        n = 0
        while n < len(s1.pc) and n < len(s2.pc) and s1.pc[n] is s2.pc[n]:
            n += 1
        r1, r2 = tm.and_(*s1.pc[n:]), tm.and_(*s2.pc[n:])
        if r1.size <= r2.size:
            c = r1
        else:
            c = tm.not_(r2)
        out = State()
        rest = tm.or_(r1, r2)
        out.pc = s1.pc[:n]
        out.base = min(s1.base, s2.base)
        out.ctx = s1.ctx
        out.rb = s1.rb
        out.rng = s1.rng if s1.rng is s2.rng else tm.ite(c, s1.rng, s2.rng)
        if rest is not TRUE:
            out.assume(rest)
        # log
        m = 0
        while m < len(s1.log) and m < len(s2.log) and s1.log[m] is s2.log[m]:
            m += 1
        out.log = s1.log[:m] + s1.log[m:] + s2.log[m:]
        if c is TRUE or c is FALSE:
            src = s1 if c is TRUE else s2
            out.vars, out.heap = src.vars, src.heap
            return out
        hv = {}
        for k in s1.vars.keys() | s2.vars.keys():
            a, b = s1.vars.get(k, UNDEF), s2.vars.get(k, UNDEF)
            hv[k] = a if a is b else self.vmerge(c, a, b)
        out.vars = hv
        hh = {}
        for k in s1.heap.keys() | s2.heap.keys():
            a, b = s1.heap.get(k), s2.heap.get(k)
            if (a is None or b is None) and isinstance(k, tuple) and k[0] == 'fn':
                hh[k] = self.omerge(c, a or InstO('function'), b or InstO('function'), s1, s2)
            elif a is None:
                hh[k] = b
            elif b is None or a is b:
                hh[k] = a
            else:
                hh[k] = self.omerge(c, a, b, s1, s2)
        out.heap = hh
        return out

    def mergev(self, outs):
        """join [(State, value)]"""
        s, v = None, None
        for s2, v2 in outs:
            if s is None:
                s, v = s2, v2
                continue
            n = 0
            while n < len(s.pc) and n < len(s2.pc) and s.pc[n] is s2.pc[n]:
                n += 1
            r1, r2 = tm.and_(*s.pc[n:]), tm.and_(*s2.pc[n:])
            c = r1 if r1.size <= r2.size else tm.not_(r2)
            v = self.vmerge(c, v, v2) if c is not TRUE and c is not FALSE else (v if c is TRUE else v2)
            s = self.merge(s, s2)
        return s, v

    def branch(self, st, c, f1, f2):
        """evaluate f1(state) under c and f2(state) under not c, join; f's return a value"""
        c = self.decide(st, c)
        if c is TRUE:
            return f1(st)
        if c is FALSE:
            return f2(st)
        outs = []
        for cond, f in ((c, f1), (tm.not_(c), f2)):
            s = st.fork(cond)
            try:
                v = f(s)
            except Dead:
                continue
            outs.append((s, v))
        if not outs:
            raise Dead()
        s, v = self.mergev(outs)
        st.become(s)
        return v

    def lift(self, st, v, f):
        """apply f(state, value) under the gates of v"""
        v = self.resolve(st, v)
        if isinstance(v, GV):
            return self.branch(st, v.c, lambda s: self.lift(s, v.a, f), lambda s: self.lift(s, v.b, f))
        return f(st, v)

    def raise_(self, st, cls, *args):
        """unconditional exception on the current path"""
        self.pending.append((st.fork(), Exc(cls, args, self.where())))
        raise Dead()

    def may_raise(self, st, cond, cls, *args):
        """exception when cond holds"""
        cond = self.decide(st, cond)
        if cond is FALSE:
            return
        if cond is TRUE:
            self.raise_(st, cls, *args)
        self.pending.append((st.fork(cond), Exc(cls, args, self.where())))
        st.assume(tm.not_(cond))

    # ------------------------------------------------------------ values <-> terms
    def seq_of_list(self, o, st):
        if o.items is not None:
            return tm.lit(*[self.reify(st, x) for x in o.items])
        return o.seq

    def reify(self, st, v, _seen=()):
        """the term denoting a value"""
        if isinstance(v, T):
            return v
        if isinstance(v, VTup):
            return tm.mk('tup', *[self.reify(st, x, _seen) for x in v.items])
        if isinstance(v, GV):
            c = self.decide(st, v.c)
            if c is TRUE:
                return self.reify(st, v.a, _seen)
            if c is FALSE:
                return self.reify(st, v.b, _seen)
            return tm.ite(v.c, self.reify(st, v.a, _seen), self.reify(st, v.b, _seen))
        if isinstance(v, Ref):
            o = st.heap.get(v.oid)
            if o is None:
                return self.unk('dangling reference')
            if v.oid in _seen:
                return tm.mk('ext', 'cycle')
            s2 = _seen + (v.oid,)
            if isinstance(o, ListO):
                if o.items is not None:
                    return tm.lit(*[self.reify(st, x, s2) for x in o.items])
                return o.seq
            if isinstance(o, DictO):
                if o.taint is not None:
                    return self.unk('dictionary with unknown keys')
                ks = tuple(k for k in o.ent if o.ent[k][0] is not FALSE)
                return tm.mk('dict', ks, tuple(o.ent[k][0] for k in ks),
                             tuple(self.reify(st, o.ent[k][1], s2) for k in ks))
            if isinstance(o, (ArrO, ViewO)):
                a = self.arr(st, v)
                if a.mask is not None:
                    return self.compress_term(a)
                return tm.mk('arr', a.shape, a.vs, a.body, a.dtype)
            if isinstance(o, InstO):
                ks = tuple(sorted(k for k in o.attrs if o.attrs[k][0] is not FALSE))
                return tm.mk('dict', ks, tuple(o.attrs[k][0] for k in ks),
                             tuple(self.reify(st, o.attrs[k][1], s2) for k in ks))
        if isinstance(v, Path):
            return self.path_term(st, v)
        if isinstance(v, LazySeq):
            if v.items is not None:
                return tm.lit(*[self.reify(st, x, _seen) for x in v.items])
            k = tm.bv()
            return tm.mapseq(v.n, k, self.reify(st, v.fn(k, st), _seen))
        if isinstance(v, Ext):
            return tm.mk('ext', v.name)
        if isinstance(v, Mod):
            return tm.mk('ext', v.name)
        if isinstance(v, Func):
            return tm.mk('ext', 'function ' + v.mod + '.' + v.name)
        if isinstance(v, Cls):
            return tm.mk('ext', 'class ' + v.name)
        if isinstance(v, Bound):
            return tm.mk('attr', self.reify(st, v.obj, _seen), v.name)
        if isinstance(v, Flat):
            return self.flat_term(st, v)
        if v is ELLIPSIS:
            return tm.mk('ext', '...')
        if isinstance(v, SliceV):
            return tm.mk('opaque', 'slice', *[self.reify(st, x) for x in (v.lo, v.hi, v.step)])
        if v is UNDEF:
            return tm.mk('ext', 'undefined')
        if isinstance(v, Exc):
            return tm.mk('ext', 'exception ' + v.cls)
        if isinstance(v, Native):
            return tm.mk('ext', 'native ' + v.name)
        return self.unk('reify %s' % type(v).__name__)

    def path_term(self, st, p):
        o = st.heap.get(p.oid)
        t = self.seq_of_list(o, st) if isinstance(o, ListO) else self.unk('path base')
        for i in p.idx:
            t = tm.sel(t, i)
        return t

    def path_store(self, st, p, val):
        """replace the container at path p"""
        o = st.heap[p.oid]
        if not isinstance(o, ListO):
            return

        def go(t, idx):
            if not idx:
                return val
            return tm.seqstore(t, idx[0], go(tm.sel(t, idx[0]), idx[1:]))
        st.heap[p.oid] = ListO(seq=go(self.seq_of_list(o, st), p.idx), kind=o.kind)

    def box(self, st, t):
        """a value for a term read out of a symbolic container (no aliasing)"""
        return t

    def val_seq(self, st, v):
        """the sequence term of a list-like value, or None"""
        v = self.resolve(st, v)
        if isinstance(v, T):
            return self.np_elements(v)
        if isinstance(v, (VTup, LazySeq, Path)):
            return self.reify(st, v)
        if isinstance(v, Ref):
            o = st.heap[v.oid]
            if isinstance(o, ListO):
                return self.seq_of_list(o, st)
            return self.np_elements(self.reify(st, v))
        if isinstance(v, GV):
            return self.reify(st, v)
        return None

    def np_elements(self, t):
        if not self.npnums or t.op != 'arr' or len(t.args[0]) != 1:
            return t
        w = tm.bv()
        return tm.mapseq(t.args[0][0], w, tm.npnum(tm.asel(t, (w,))))

    # ------------------------------------------------------------ truth
    def truthy(self, st, v):
        v = self.resolve(st, v)
        if isinstance(v, T):
            return self.decide(st, tm.truth(v))
        if isinstance(v, VTup):
            return const(len(v.items) > 0)
        if isinstance(v, GV):
            return tm.ite(v.c, self.truthy(st.fork(v.c), v.a), self.truthy(st.fork(tm.not_(v.c)), v.b))
        if isinstance(v, Ref):
            o = st.heap[v.oid]
            if isinstance(o, ListO):
                if o.items is not None:
                    return const(len(o.items) > 0)
                return self.decide(st, tm.truth(o.seq))
            if isinstance(o, DictO):
                if o.taint is not None:
                    return self.unk('dictionary with unknown keys')
                return tm.or_(*[p for p, x in o.ent.values()])
            if isinstance(o, InstO):
                return TRUE
            if isinstance(o, (ArrO, ViewO)):
                a = self.arr(st, v)
                if a.mask is None and all(s is ONE for s in a.shape):
                    return tm.truth(a.at([ZERO] * len(a.shape)))
                if a.shape == ():
                    return tm.truth(a.at([]))
                self.raise_(st, 'ValueError')
        if isinstance(v, Path):
            return self.decide(st, tm.truth(self.path_term(st, v)))
        if isinstance(v, LazySeq):
            return TRUE
        return TRUE

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, st, fr):
        out = Outs()
        cur = st
        for s in stmts:
            if cur is None:
                break
            o = self.exec_stmt(s, cur, fr)
            out.ret += o.ret
            out.brk += o.brk
            out.cont += o.cont
            out.exc += o.exc
            cur = o.next
        out.next = cur
        return out

    def exec_stmt(self, s, st, fr):
        tm.CUR_PROV[0] = self.prov(s, fr)
        self.fuel -= 1
        if self.fuel < 0:
            raise AnalysisError('analysis budget exhausted')
        out = Outs()
        saved = self.pending
        self.pending = []
        try:
            f = getattr(self, 's_' + type(s).__name__, None)
            if f is None:
                self.unk('statement ' + type(s).__name__)
                out.next = st
            else:
                f(s, st, fr, out)
        except Dead:
            pass
        out.exc = self.pending + out.exc
        self.pending = saved
        return out

    def s_Expr(self, s, st, fr, out):
        if not isinstance(s.value, ast.Constant):
            self.ev(s.value, st, fr)
        out.next = st

    def s_Pass(self, s, st, fr, out):
        out.next = st

    def s_Assign(self, s, st, fr, out):
        v = self.ev(s.value, st, fr)
        for t in s.targets:
            self.assign(t, v, st, fr)
        out.next = st

    def s_AnnAssign(self, s, st, fr, out):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, st, fr), st, fr)
        out.next = st

    def s_AugAssign(self, s, st, fr, out):
        t = s.target
        rhs = None
        if isinstance(t, ast.Name):
            old = self.ev(t, st, fr)
            rhs = self.ev(s.value, st, fr)
            new = self.inplace(st, s.op, old, rhs)
            if new is not None:
                self.assign(t, new, st, fr)
        elif isinstance(t, ast.Attribute):
            obj = self.ev(t.value, st, fr)
            old = self.getattr_(st, obj, t.attr)
            rhs = self.ev(s.value, st, fr)
            new = self.inplace(st, s.op, old, rhs)
            if new is not None:
                self.setattr_(st, obj, t.attr, new)
        elif isinstance(t, ast.Subscript):
            obj = self.ev(t.value, st, fr)
            idx = self.ev_index(t.slice, st, fr)
            old = self.getitem(st, obj, idx)
            rhs = self.ev(s.value, st, fr)
            box = st.heap.get(obj.oid) if isinstance(obj, Ref) else None
            if isinstance(old, Ref) and (isinstance(st.heap.get(old.oid), (ListO, DictO)) or isinstance(
                    box, (DictO, ListO)) and isinstance(st.heap.get(old.oid), (ArrO, ViewO))):
                new = self.inplace(st, s.op, old, rhs)
            else:
                new = self.binop(st, s.op, old, rhs)
            if new is not None:
                self.setitem(st, obj, idx, new)
        out.next = st

    def inplace(self, st, op, old, rhs):
        """augmented assignment; returns the value to bind (None: nothing to bind)"""
        old = self.resolve(st, old)
        if isinstance(old, Ref):
            o = st.heap[old.oid]
            if isinstance(o, ListO) and isinstance(op, ast.Add):
                self.list_extend(st, old, rhs)
                return old
            if isinstance(o, DictO) and isinstance(op, ast.BitOr):
                self.dict_update(st, old, rhs)
                return old
            if isinstance(o, ListO) and (isinstance(op, ast.Mult) or o.kind == 'set'):
                new = self.binop(st, op, old, rhs)
                if isinstance(new, Ref) and isinstance(st.heap[new.oid], ListO):
                    st.heap[old.oid] = st.heap[new.oid]
                    return old
                return new
            if isinstance(o, (ArrO, ViewO)):
                new = self.binop(st, op, old, rhs)
                if isinstance(new, Ref) and isinstance(st.heap[new.oid], ArrO):
                    self.arr_fill(st, old, new)
                    return old
                return new
        if isinstance(old, Path) and isinstance(op, ast.Add):
            self.list_extend(st, old, rhs)
            return old
        return self.binop(st, op, old, rhs)

    def s_If(self, s, st, fr, out):
        c = self.cond(s.test, st, fr)
        c = self.decide(st, c)
        if c is TRUE or c is FALSE:
            o = self.exec_block(s.body if c is TRUE else s.orelse, st, fr)
            self.absorb(out, o)
            out.next = o.next
            return
        s1, s2 = st.fork(c), st.fork(tm.not_(c))
        o1 = self.exec_block(s.body, s1, fr)
        o2 = self.exec_block(s.orelse, s2, fr)
        self.absorb(out, o1)
        self.absorb(out, o2)
        out.next = self.merge(o1.next, o2.next)

    def absorb(self, out, o):
        out.ret += o.ret
        out.brk += o.brk
        out.cont += o.cont
        out.exc += o.exc

    def s_Return(self, s, st, fr, out):
        v = self.ev(s.value, st, fr) if s.value is not None else NONE
        out.ret.append((st, v))

    def s_Break(self, s, st, fr, out):
        out.brk.append(st)

    def s_Continue(self, s, st, fr, out):
        out.cont.append(st)

    def s_Raise(self, s, st, fr, out):
        if s.exc is None:
            e = st.vars.get((fr.fid, '$exc'))
            out.exc.append((st, e if isinstance(e, Exc) else Exc('Exception')))
            return
        v = self.ev(s.exc, st, fr)
        if isinstance(v, Exc):
            out.exc.append((st, v))
            return
        name = 'Exception'
        if isinstance(v, Ext):
            name = v.name.split('.')[-1]
        elif isinstance(v, Cls):
            name = v.name
        out.exc.append((st, Exc(name, (), self.where())))

    def s_Assert(self, s, st, fr, out):
        c = self.cond(s.test, st, fr)
        # an assertion states an invariant: the failing path raises
        c = self.decide(st, c)
        if c is not TRUE:
            out.exc.append((st.fork(tm.not_(c)), Exc('AssertionError', (), self.where())))
            st.assume(c)
        if c is FALSE:
            return
        out.next = st

    def s_Global(self, s, st, fr, out):
        out.next = st

    s_Nonlocal = s_Global

    def s_Delete(self, s, st, fr, out):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.vars[(fr.fid, t.id)] = UNDEF
            elif isinstance(t, ast.Subscript):
                obj = self.resolve(st, self.ev(t.value, st, fr))
                idx = self.ev_index(t.slice, st, fr)
                self.delitem(st, obj, idx)
            elif isinstance(t, ast.Attribute):
                obj = self.resolve(st, self.ev(t.value, st, fr))
                if isinstance(obj, Ref) and isinstance(st.heap[obj.oid], InstO):
                    o = st.heap[obj.oid]
                    at = dict(o.attrs)
                    at.pop(t.attr, None)
                    st.heap[obj.oid] = InstO(o.cls, at, o.lazy)
        out.next = st

    def s_Import(self, s, st, fr, out):
        for a in s.names:
            if self.is_internal(a.name):
                m = self.load(a.name)
                if a.asname:
                    self.setvar(fr, a.asname, m or Ext(a.name), st)
                else:
                    self.setvar(fr, a.name.split('.')[0], Mod(a.name.split('.')[0]), st)
            elif a.asname:
                self.setvar(fr, a.asname, Ext(a.name), st)
            else:
                self.setvar(fr, a.name.split('.')[0], Ext(a.name.split('.')[0]), st)
        out.next = st

    def s_ImportFrom(self, s, st, fr, out):
        base = s.module or ''
        if s.level:
            parts = fr.mod.split('.')
            if not self.modpath(fr.mod) or not self.modpath(fr.mod).endswith('__init__.py'):
                parts = parts[:-1]
            parts = parts[:len(parts) - (s.level - 1)] if s.level > 1 else parts
            base = '.'.join(parts + ([s.module] if s.module else []))
        if base == '__future__':
            out.next = st
            return
        for a in s.names:
            nm = a.asname or a.name
            if self.is_internal(base):
                sub = base + '.' + a.name
                if self.modpath(sub):
                    v = self.load(sub)
                else:
                    self.load(base)
                    v = self.module_attr(base, a.name, st)
                if v is None:
                    v = self.unk('import %s.%s' % (base, a.name))
                self.setvar(fr, nm, v, st)
            else:
                nm2 = (base + '.' if base else '') + a.name
                cv = self.ext_const(nm2)
                self.setvar(fr, nm, Ext(nm2) if cv is None else cv, st)
        out.next = st

    def s_FunctionDef(self, s, st, fr, out):
        v = self.make_func(s, st, fr, s.name)
        for d in s.decorator_list:
            dv = self.ev(d, st, fr)
            if isinstance(dv, Ext) and dv.name.split('.')[-1] == 'contextmanager' and is_generator(s):
                v = Native(lambda I, q, a, k, f=v: CM('gen', (f, list(a), dict(k))), 'contextmanager')
            elif isinstance(dv, Ext) and dv.name in ('functools.lru_cache', 'functools.cache') or \
                    isinstance(d, ast.Call) and self.is_lru(d, st, fr):
                v = self.memoised(st, v)
            elif isinstance(dv, Ext) and dv.name.split('.')[-1] in ('staticmethod', 'classmethod', 'property', 'wraps'):
                v = ('deco', dv.name.split('.')[-1], v) if dv.name.split('.')[-1] in (
                    'staticmethod', 'classmethod', 'property') else v
            else:
                v = self.call(st, dv, [v], {})
        self.setvar(fr, s.name, v, st)
        out.next = st

    def is_lru(self, d, st, fr):
        f = self.ev(d.func, st, fr)
        return isinstance(f, Ext) and f.name == 'functools.lru_cache'

    def memoised(self, st, f):
        """functools.lru_cache: a dictionary from arguments to results that lives with the function"""
        memo = self.alloc(st, DictO())

        def hashable(s, v):
            v = self.resolve(s, v)
            return not (isinstance(v, (LazySeq, Path)) or isinstance(v, Ref) and not isinstance(s.heap[v.oid], InstO) or
                        isinstance(v, T) and (v.op == 'arr' or tm.isseqkind(tm.kindof(v)) and v.op != 'tup') or
                        isinstance(v, VTup) and not all(hashable(s, x) for x in v.items))

        def call(I, s, a, k):
            vals = list(a) + [x for q, x in sorted(k.items())]
            if not all(hashable(s, x) for x in vals):
                I.raise_(s, 'TypeError', const('unhashable type'))
            key = I.dkey(s, VTup([const(','.join(sorted(k)))] + vals))
            o = s.heap[memo.oid]
            if key is None or o.taint is not None:
                return I.call(s, f, a, k)
            hit, v = I.dict_find(s, o, key)

            def miss(q):
                r = I.call(q, f, a, k)
                I.dict_put(q, memo, q.heap[memo.oid], key, r)
                return r
            if v is None or hit is FALSE:
                return miss(s)
            return I.branch(s, hit, lambda q: I.resolve(q, v), miss)
        return Native(call, f.name)

    def make_func(self, s, st, fr, name):
        args = s.args
        pos = args.posonlyargs + args.args
        defaults = {}
        for a, d in zip(pos[len(pos) - len(args.defaults):], args.defaults):
            defaults[a.arg] = self.ev(d, st, fr)
        for a, d in zip(args.kwonlyargs, args.kw_defaults):
            if d is not None:
                defaults[a.arg] = self.ev(d, st, fr)
        return Func(s, fr.fid, fr.mod, name, defaults, None)

    def s_ClassDef(self, s, st, fr, out):
        c = Cls(s.name, s, fr.mod)
        body = State()
        cfr = Frame(('cls', fr.mod, s.name, s.lineno), None, fr.fid, None, fr.mod)
        self.frames[cfr.fid] = cfr
        attrs = {}
        for b in s.body:
            if isinstance(b, (ast.FunctionDef, ast.AsyncFunctionDef)):
                v = self.make_func(b, st, fr, b.name)
                v.cls = c
                for d in b.decorator_list:
                    nm = d.id if isinstance(d, ast.Name) else None
                    if nm in ('staticmethod', 'classmethod', 'property'):
                        v = ('deco', nm, v)
                attrs[b.name] = (TRUE, v)
            elif isinstance(b, ast.Assign):
                v = self.ev(b.value, st, fr)
                for t in b.targets:
                    if isinstance(t, ast.Name):
                        attrs[t.id] = (TRUE, v)
            elif isinstance(b, ast.AnnAssign) and b.value is not None and isinstance(b.target, ast.Name):
                attrs[b.target.id] = (TRUE, self.ev(b.value, st, fr))
        bases = [self.ev(b, st, fr) for b in s.bases]
        self.memo_src[('bases', id(s))] = tuple(b for b in bases if isinstance(b, Cls))
        names = [b.name.split('.')[-1] for b in bases if isinstance(b, Ext)]
        decs = [(d.func if isinstance(d, ast.Call) else d) for d in s.decorator_list]
        decs = [d.id if isinstance(d, ast.Name) else getattr(d, 'attr', None) for d in decs]
        if 'NamedTuple' in names or 'dataclass' in decs:
            r = self.record_class(s, st, fr, c, attrs, 'NamedTuple' in names)
            if r is not None:
                self.setvar(fr, s.name, r, st)
                out.next = st
                return
        for b in bases:
            if isinstance(b, Cls):
                o = st.heap.get(('cls', b.mod, b.name))
                if o is not None:
                    for k, v in o.attrs.items():
                        attrs.setdefault(k, v)
        st.heap[('cls', fr.mod, s.name)] = InstO('class', attrs)
        self.setvar(fr, s.name, c, st)
        out.next = st

    def cls_lookup(self, c, name, st):
        for s in (st, self.modstate):
            o = s.heap.get(('cls', c.mod, c.name))
            if o is not None and name in o.attrs:
                return o.attrs[name][1]
        return None

    def s_Try(self, s, st, fr, out):
        self.trydepth += 1
        zero = any(isinstance(x, ast.Name) and x.id in ('ZeroDivisionError', 'ArithmeticError')
                   for h in s.handlers if h.type is not None for x in ast.walk(h.type))
        self.zerodiv += zero
        try:
            o = self.exec_block(s.body, st, fr)
        finally:
            self.trydepth -= 1
            self.zerodiv -= zero
        nexts = []
        if o.next is not None:
            if s.orelse:
                oe = self.exec_block(s.orelse, o.next, fr)
                self.absorb(out, oe)
                nexts.append(oe.next)
            else:
                nexts.append(o.next)
        excs = o.exc
        out.ret += o.ret
        out.brk += o.brk
        out.cont += o.cont
        todo = {}
        for es, e in excs:
            h = None
            for k, hd in enumerate(s.handlers):
                if self.handler_matches(hd, e, es, fr):
                    h = k
                    break
            if h is None:
                out.exc.append((es, e))
            else:
                todo.setdefault(h, []).append((es, e))
        for h, lst in sorted(todo.items()):
            hd = s.handlers[h]
            ms = None
            for es, e in lst:
                ms = self.merge(ms, es)
            e = lst[0][1]
            ms.vars[(fr.fid, '$exc')] = e
            if hd.name:
                ms.vars[(fr.fid, hd.name)] = e
            oh = self.exec_block(hd.body, ms, fr)
            self.absorb(out, oh)
            nexts.append(oh.next)
        cur = None
        for n in nexts:
            if n is not None:
                cur = self.merge(cur, n)
        if s.finalbody:
            if cur is not None:
                of = self.exec_block(s.finalbody, cur, fr)
                self.absorb(out, of)
                cur = of.next
            for name in ('ret', 'exc'):
                lst = getattr(out, name)
                new = []
                for es, v in lst:
                    of = self.exec_block(s.finalbody, es, fr)
                    if of.next is not None:
                        new.append((of.next, v))
                setattr(out, name, new)
            for name in ('brk', 'cont'):
                new = []
                for es in getattr(out, name):
                    of = self.exec_block(s.finalbody, es, fr)
                    if of.next is not None:
                        new.append(of.next)
                setattr(out, name, new)
        out.next = cur

    s_TryStar = s_Try

    def handler_matches(self, hd, e, st, fr):
        if hd.type is None:
            return True
        types = hd.type.elts if isinstance(hd.type, ast.Tuple) else [hd.type]
        for t in types:
            nm = t.id if isinstance(t, ast.Name) else t.attr if isinstance(t, ast.Attribute) else 'Exception'
            if exc_isa(e.cls, nm):
                return True
        return False

    # ------------------------------------------------------------ variables
    def setvar(self, fr, name, v, st):
        st.vars[(fr.fid, name)] = v

    def getvar(self, fr, name, st):
        f = fr
        while f is not None:
            if f.locals is not None and name in f.locals:
                v = st.vars.get((f.fid, name), UNDEF)
                return self.defined(st, v, name)
            if f.locals is None and f.fid[0] != 'cls':
                key = (f.fid, name)
                if key in st.vars:
                    return self.defined(st, st.vars[key], name)
                if key in self.modstate.vars:
                    return self.modstate.vars[key]
            f = self.frames.get(f.parent) if f.parent is not None and f.parent not in self.modframes \
                else None
            if f is None:
                break
        mfr = self.modframes.get(fr.mod)
        if mfr is not None:
            key = (mfr.fid, name)
            if key in st.vars:
                return st.vars[key]
            if key in self.modstate.vars:
                return self.modstate.vars[key]
        return Ext('builtins.' + name)

    def defined(self, st, v, name):
        v = self.resolve(st, v)
        if v is UNDEF:
            self.raise_(st, 'UnboundLocalError', const(name))
        if isinstance(v, GV):
            c = self.undef_cond(v)
            if c is not FALSE:
                self.may_raise(st, c, 'UnboundLocalError', const(name))
                v = self.strip_undef(st, self.resolve(st, v))
        return v

    def undef_cond(self, v):
        if v is UNDEF:
            return TRUE
        if isinstance(v, GV):
            return tm.ite(v.c, self.undef_cond(v.a), self.undef_cond(v.b))
        return FALSE

    def strip_undef(self, st, v):
        if isinstance(v, GV):
            if v.a is UNDEF:
                return self.strip_undef(st, v.b)
            if v.b is UNDEF:
                return self.strip_undef(st, v.a)
            return self.vmerge(v.c, self.strip_undef(st, v.a), self.strip_undef(st, v.b))
        return v

    def assign(self, t, v, st, fr):
        if isinstance(t, ast.Name):
            self.setvar(self.owner_frame(fr, t.id), t.id, v, st)
        elif isinstance(t, (ast.Tuple, ast.List)):
            parts = self.unpack(st, v, len(t.elts), t.elts)
            for e, p in zip(t.elts, parts):
                self.assign(e, p, st, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr_(st, self.ev(t.value, st, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            obj = self.ev(t.value, st, fr)
            self.setitem(st, obj, self.ev_index(t.slice, st, fr), v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, fr)

    def owner_frame(self, fr, name):
        if fr.locals is None or name in fr.locals:
            return fr
        f = self.frames.get(fr.parent)
        while f is not None and f.locals is not None:
            if name in f.locals:
                return f
            f = self.frames.get(f.parent)
        return self.modframes.get(fr.mod, fr)

    def unpack(self, st, v, n, elts=None):
        v = self.resolve(st, v)
        if isinstance(v, GV):
            a = self.unpack(st.fork(v.c), v.a, n, elts)
            b = self.unpack(st.fork(tm.not_(v.c)), v.b, n, elts)
            return [self.vmerge(v.c, x, y) for x, y in zip(a, b)]
        if isinstance(v, VTup):
            items = v.items
        elif isinstance(v, Ref) and isinstance(st.heap[v.oid], ListO) and st.heap[v.oid].items is not None:
            items = st.heap[v.oid].items
        elif isinstance(v, LazySeq) and v.items is not None:
            items = v.items
        elif isinstance(v, T) and v.op in ('lit', 'tup'):
            items = v.args
        else:
            k = [i for i, e in enumerate(elts or ()) if isinstance(e, ast.Starred)]
            if k:
                k, after = k[0], n - k[0] - 1
                rest = self.getitem(st, self.b_list(st, [v], {}), SliceV(const(k), const(-after) if after else None, None))
                return [self.getitem(st, v, const(i)) for i in range(k)] + [rest] + [
                    self.getitem(st, v, const(i - after)) for i in range(after)]
            return [self.getitem(st, v, const(i)) for i in range(n)]
        if elts is not None and any(isinstance(e, ast.Starred) for e in elts):
            k = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)][0]
            after = n - k - 1
            mid = items[k:len(items) - after]
            return list(items[:k]) + [self.new_list(st, items=mid)] + list(items[len(items) - after:])
        if len(items) != n:
            self.raise_(st, 'ValueError')
        return list(items)

    # ------------------------------------------------------------ expressions
    def ev(self, n, st, fr):
        return getattr(self, 'e_' + type(n).__name__, self.e_other)(n, st, fr)

    def e_other(self, n, st, fr):
        return self.unk('expression ' + type(n).__name__)

    def e_Constant(self, n, st, fr):
        v = n.value
        if v is Ellipsis:
            return ELLIPSIS
        if isinstance(v, (bytes, complex)):
            return self.unk('constant')
        if isinstance(v, float):
            return const(v)
        return const(v)

    def e_Name(self, n, st, fr):
        if n.id in ('True', 'False', 'None'):
            return const({'True': True, 'False': False, 'None': None}[n.id])
        return self.getvar(fr, n.id, st)

    def e_Tuple(self, n, st, fr):
        return VTup(self.ev_elts(n.elts, st, fr))

    def ev_elts(self, elts, st, fr):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                v = self.ev(e.value, st, fr)
                it = self.items_of(st, v)
                if it is None:
                    out.append(self.unk('starred'))
                else:
                    out.extend(it)
            else:
                out.append(self.ev(e, st, fr))
        return out

    def items_of(self, st, v):
        """concrete item list or None"""
        v = self.resolve(st, v)
        if isinstance(v, VTup):
            return list(v.items)
        if isinstance(v, LazySeq) and v.items is not None:
            return list(v.items)
        if isinstance(v, LazySeq) and v.guard is None and tm.is_num_const(v.n) and v.n.args[0] <= UNROLL:
            return [v.fn(const(i), st) for i in range(v.n.args[0])]
        if isinstance(v, T) and v.op in ('lit', 'tup'):
            return list(v.args)
        if isinstance(v, T) and v.op == 'dict':
            return [const(k) for k in v.args[0]] if all(p is TRUE for p in v.args[1]) else None
        if isinstance(v, Ref):
            o = st.heap[v.oid]
            if isinstance(o, ListO):
                if o.items is not None:
                    return list(o.items)
                if o.seq.op in ('lit', 'tup'):
                    return list(o.seq.args)
            if isinstance(o, DictO) and o.taint is None and all(p is TRUE for p, x in o.ent.values()):
                return [self.unkey(k) for k in o.ent]
        if isinstance(v, T) and tm.is_const(v) and isinstance(v.args[0], str):
            return [const(c) for c in v.args[0]]
        return None

    def e_List(self, n, st, fr):
        return self.new_list(st, items=self.ev_elts(n.elts, st, fr))

    def e_Set(self, n, st, fr):
        return self.b_set(st, [self.new_list(st, items=self.ev_elts(n.elts, st, fr))], {})

    def e_Dict(self, n, st, fr):
        r = self.alloc(st, DictO())
        for k, v in zip(n.keys, n.values):
            if k is None:
                self.dict_update(st, r, self.ev(v, st, fr))
                continue
            kv = self.ev(k, st, fr)
            vv = self.ev(v, st, fr)
            self.setitem(st, r, kv, vv)
        return r

    def e_JoinedStr(self, n, st, fr):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                x = self.ev(v.value, st, fr)
                if v.format_spec is not None or v.conversion not in (-1, 115):
                    spec = self.e_JoinedStr(v.format_spec, st, fr) if v.format_spec is not None else const('')
                    if v.conversion in (-1, 115) and tm.is_const(spec):
                        parts.append(self.fmt(st, x, spec.args[0]))
                    else:
                        parts.append(tm.mk('strfmt', self.reify(st, x), spec, v.conversion))
                else:
                    parts.append(self.tostr(st, x))
        return self.strcat(parts)

    def e_FormattedValue(self, n, st, fr):
        return self.tostr(st, self.ev(n.value, st, fr))

    def e_UnaryOp(self, n, st, fr):
        if isinstance(n.op, ast.Not):
            return tm.not_(self.cond(n.operand, st, fr))
        v = self.ev(n.operand, st, fr)
        return self.unop(st, n.op, v)

    def e_BinOp(self, n, st, fr):
        a = self.ev(n.left, st, fr)
        b = self.ev(n.right, st, fr)
        return self.binop(st, n.op, a, b)

    def e_BoolOp(self, n, st, fr):
        isand = isinstance(n.op, ast.And)

        def go(vals, s):
            v = self.ev(vals[0], s, fr)
            if len(vals) == 1:
                return v
            c = self.truthy(s, v)
            if isand:
                return self.branch(s, c, lambda x: go(vals[1:], x), lambda x: v)
            return self.branch(s, c, lambda x: v, lambda x: go(vals[1:], x))
        return go(n.values, st)

    def cond(self, n, st, fr):
        """boolean value of a test expression"""
        if isinstance(n, ast.BoolOp):
            isand = isinstance(n.op, ast.And)
            acc = None
            vals = n.values

            def go(vals, s):
                c = self.decide(s, self.cond(vals[0], s, fr))
                if len(vals) == 1:
                    return c
                if isand:
                    return self.branch(s, c, lambda x: go(vals[1:], x), lambda x: FALSE)
                return self.branch(s, c, lambda x: TRUE, lambda x: go(vals[1:], x))
            return go(vals, st)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            return tm.not_(self.cond(n.operand, st, fr))
        return self.truthy(st, self.ev(n, st, fr))

    def e_IfExp(self, n, st, fr):
        c = self.cond(n.test, st, fr)
        return self.branch(st, c, lambda s: self.ev(n.body, s, fr), lambda s: self.ev(n.orelse, s, fr))

    def e_NamedExpr(self, n, st, fr):
        v = self.ev(n.value, st, fr)
        self.assign(n.target, v, st, fr)
        return v

    def e_Compare(self, n, st, fr):
        left = self.ev(n.left, st, fr)
        res = None
        for op, r in zip(n.ops, n.comparators):
            right = self.ev(r, st, fr)
            c = self.compare(st, op, left, right)
            res = c if res is None else self.both(st, res, c)
            left = right
        return res

    def both(self, st, a, b):
        if isinstance(a, T) and isinstance(b, T):
            return tm.and_(tm.truth(a), tm.truth(b))
        return self.elementwise(st, lambda x, y: tm.and_(tm.truth(x), tm.truth(y)), [a, b], 'b')

    def e_Attribute(self, n, st, fr):
        return self.getattr_(st, self.ev(n.value, st, fr), n.attr)

    def e_Subscript(self, n, st, fr):
        obj = self.ev(n.value, st, fr)
        return self.getitem(st, obj, self.ev_index(n.slice, st, fr))

    def ev_index(self, n, st, fr):
        if isinstance(n, ast.Slice):
            return SliceV(*[self.ev(x, st, fr) if x is not None else None for x in (n.lower, n.upper, n.step)])
        if isinstance(n, ast.Tuple):
            return VTup([self.ev_index(e, st, fr) for e in n.elts])
        return self.ev(n, st, fr)

    def e_Slice(self, n, st, fr):
        return self.ev_index(n, st, fr)

    def e_Lambda(self, n, st, fr):
        args = n.args
        pos = args.posonlyargs + args.args
        defaults = {}
        for a, d in zip(pos[len(pos) - len(args.defaults):], args.defaults):
            defaults[a.arg] = self.ev(d, st, fr)
        return Func(n, fr.fid, fr.mod, '<lambda>', defaults, None)

    def e_Starred(self, n, st, fr):
        return self.ev(n.value, st, fr)

    def e_Call(self, n, st, fr):
        prov = tm.CUR_PROV[0]
        if isinstance(n.func, ast.Name) and n.func.id == 'super':
            return self.super_value(st, fr, [self.ev(a, st, fr) for a in n.args])
        f = self.ev(n.func, st, fr)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, st, fr)
                it = self.items_of(st, v)
                if it is None and self.is_arr(st, v):
                    d = self.plain(st, v).shape
                    if d and tm.is_num_const(d[0]) and d[0].args[0] <= UNROLL:
                        it = [self.getitem(st, v, const(q)) for q in range(d[0].args[0])]
                if it is None:
                    args.append(self.unk('star argument'))
                else:
                    args.extend(it)
            else:
                args.append(self.ev(a, st, fr))
        kw = {}
        for k in n.keywords:
            v = self.ev(k.value, st, fr)
            if k.arg is None:
                v = self.resolve(st, v)
                if isinstance(v, Ref) and isinstance(st.heap[v.oid], DictO):
                    if st.heap[v.oid].taint is not None:
                        kw['**'] = self.unk('keyword arguments')
                    for kk, (p, x) in st.heap[v.oid].ent.items():
                        kw[kk] = x
                else:
                    kw['**'] = v
            else:
                kw[k.arg] = v
        tm.CUR_PROV[0] = (prov[0], n.lineno, prov[2]) if prov else None
        r = self.call(st, f, args, kw)
        tm.CUR_PROV[0] = prov
        return r

    # ------------------------------------------------------------ calls
    def call(self, st, f, args, kw):
        self.calls += 1
        f = self.resolve(st, f)
        if isinstance(f, GV):
            return self.lift(st, f, lambda s, x: self.call(s, x, args, kw))
        if isinstance(f, Func):
            return self.call_func(st, f, args, kw)
        if isinstance(f, Native):
            return f.fn(self, st, args, kw)
        if isinstance(f, Bound):
            if f.func is not None:
                return self.call_func(st, f.func, [f.obj] + list(args), kw)
            return self.lift(st, f.obj, lambda s, o: self.call_method(s, o, f.name, args, kw))
        if isinstance(f, Cls):
            return self.instantiate(st, f, args, kw)
        if isinstance(f, Ext):
            return self.call_ext(st, f.name, args, kw)
        if isinstance(f, Ref) and isinstance(st.heap[f.oid], InstO):
            m = self.find_method(st, st.heap[f.oid], '__call__')
            if m is not None:
                return self.call_func(st, m, [f] + list(args), kw)
        if isinstance(f, T) and f.op == 'attr':
            return self.call_method(st, f.args[0], f.args[1], args, kw)
        if isinstance(f, T):
            return self.opaque_call(st, 'call', [f] + list(args), kw)
        return self.unk('call of %s' % type(f).__name__)

    def opaque_call(self, st, name, args, kw, pure=False):
        ts = [self.reify(st, a) for a in args]
        kws = tuple(sorted((k, self.reify(st, v)) for k, v in kw.items()))
        flat = []
        for k, v in kws:
            flat.append(const('kw:' + k))
            flat.append(v)
        r = tm.mk('opaque', name, *(ts + flat))
        if not pure:
            self.log(st, name, args, kw, res=r)
        return r

    def log(self, st, name, args, kw, res=None):
        st.log.append(Eff(st.guard(), name, tuple(self.reify(st, a) for a in args),
                          {k: self.reify(st, v) for k, v in kw.items()}, self.where(), res=res))

    def instantiate(self, st, c, args, kw):
        if c.name in EXC_PARENTS:
            return Exc(c.name, [self.reify(st, a) for a in args], self.where())
        stub = self.stubs.get(c.mod + '.' + c.name)
        if stub is not None:
            return stub(self, st, args, kw)
        r = self.alloc(st, InstO(c))
        init = self.cls_lookup(c, '__init__', st)
        if init is not None:
            self.call_func(st, init, [r] + list(args), kw)
        return r

    def bind(self, st, f, args, kw):
        a = f.node.args
        pos = a.posonlyargs + a.args
        bound = {}
        kw = dict(kw)
        if len(args) > len(pos):
            if a.vararg is None:
                self.raise_(st, 'TypeError', const('too many arguments for %s' % f.name))
            bound[a.vararg.arg] = VTup(args[len(pos):])
            args = args[:len(pos)]
        elif a.vararg is not None:
            bound[a.vararg.arg] = VTup(())
        for p, v in zip(pos, args):
            bound[p.arg] = v
        for p in pos[len(args):] + a.kwonlyargs:
            if p.arg in kw:
                bound[p.arg] = kw.pop(p.arg)
            elif p.arg in f.defaults:
                bound[p.arg] = f.defaults[p.arg]
            else:
                self.raise_(st, 'TypeError', const('missing argument %s of %s' % (p.arg, f.name)))
        if kw:
            if a.kwarg is None:
                self.raise_(st, 'TypeError', const('unexpected argument of %s' % f.name))
            bound[a.kwarg.arg] = self.alloc(st, DictO({k: (TRUE, v) for k, v in kw.items()}))
        elif a.kwarg is not None:
            bound[a.kwarg.arg] = self.alloc(st, DictO())
        return bound

    def call_func(self, st, f, args, kw):
        if isinstance(f, tuple) and f[0] == 'deco':
            if f[1] == 'staticmethod':
                return self.call_func(st, f[2], args, kw)
            f = f[2]
        key = f.mod + '.' + (f.cls.name + '.' if f.cls is not None else '') + f.name
        stub = self.stubs.get(key)
        if stub is not None:
            return stub(self, st, args, kw)
        if self.yields(f.node):
            return self.run_generator(st, f, args, kw)
        if self.depth > MAXDEPTH:
            return self.unk('call depth')
        bound = self.bind(st, f, args, kw)
        fid = ('f', next(self.fids), f.name)
        isl = isinstance(f.node, ast.Lambda)
        loc = set(bound)
        if not isl:
            loc |= self.locals_of(f.node)
        fr = Frame(fid, f, f.fid, loc, f.mod)
        self.frames[fid] = fr
        for k, v in bound.items():
            st.vars[(fid, k)] = v
        self.functions.add(key)
        prov = tm.CUR_PROV[0]
        self.depth += 1
        npc = len(st.pc)
        try:
            if isl:
                return self.ev(f.node.body, st, fr)
            saved = self.pending
            self.pending = []
            try:
                o = self.exec_block(f.node.body, st, fr)
            finally:
                inner = self.pending
                self.pending = saved
            self.pending.extend(o.exc)
            self.pending.extend(inner)
            outs = list(o.ret)
            if o.next is not None:
                outs.append((o.next, NONE))
            if not outs:
                raise Dead()
            s, v = self.mergev(outs)
            st.become(s)
            return v
        finally:
            self.depth -= 1
            tm.CUR_PROV[0] = prov
            if f.name == '<lambda>' or not self.has_closures(f.node):
                self.drop_frame(st, fid)

    def drop_frame(self, st, fid):
        dead = [k for k in st.vars if k[0] == fid]
        for k in dead:
            del st.vars[k]

    def locals_of(self, node):
        r = self.memo_src.get(('loc', id(node)))
        if r is None:
            r = self.memo_src[('loc', id(node))] = local_names(node)
        return r

    def yields(self, node):
        r = self.memo_src.get(('yields', id(node)))
        if r is None:
            r = self.memo_src[('yields', id(node))] = is_generator(node)
        return r

    def has_closures(self, node):
        r = self.memo_src.get(('clo', id(node)))
        if r is None:
            r = any(isinstance(x, (ast.FunctionDef, ast.Lambda, ast.GeneratorExp)) for b in
                    (node.body if isinstance(node.body, list) else [node.body]) for x in ast.walk(b))
            self.memo_src[('clo', id(node))] = r
        return r

    # ------------------------------------------------------------ attributes
    def find_method(self, st, inst, name):
        if isinstance(inst.cls, Cls):
            return self.cls_lookup(inst.cls, name, st)
        return None

    def getattr_(self, st, obj, name, default=None):
        """default: a thunk value used when the attribute may be missing (getattr with default)"""
        obj = self.resolve(st, obj)
        if isinstance(obj, GV):
            return self.lift(st, obj, lambda s, o: self.getattr_(s, o, name, default))
        if isinstance(obj, Ref):
            o = st.heap[obj.oid]
            if isinstance(o, InstO):
                ent = o.attrs.get(name)
                if ent is None and o.lazy is not None:
                    ent = o.lazy(self, st, obj, name)
                    if ent is not None:
                        o = st.heap[obj.oid]
                        at = dict(o.attrs)
                        at[name] = ent
                        st.heap[obj.oid] = InstO(o.cls, at, o.lazy)
                clsv = None
                if isinstance(o.cls, Cls):
                    clsv = self.cls_lookup(o.cls, name, st)
                if clsv is not None and isinstance(clsv, tuple):
                    if clsv[1] == 'property':
                        return self.call_func(st, clsv[2], [obj], {})
                    clsv = clsv[2] if clsv[1] == 'staticmethod' else Bound(name, o.cls, clsv[2])
                elif isinstance(clsv, Func):
                    clsv = Bound(name, obj, clsv)
                if ent is None:
                    if clsv is not None:
                        return clsv
                    if name == '__dict__':
                        return obj
                    if name == '__class__' and isinstance(o.cls, Cls):
                        return o.cls
                    if default is not None:
                        return default
                    if name in ('setdefault', 'get', 'pop', 'update', 'items', 'keys', 'values', 'clear', 'copy'):
                        return self.unk('attribute dictionary')
                    self.raise_(st, 'AttributeError', const(name))
                p, v = ent
                p = self.decide(st, p)
                if p is TRUE:
                    return v
                if clsv is not None:
                    return self.vmerge(p, v, clsv)
                if default is not None:
                    return self.resolve(st, self.vmerge(p, v, default))
                self.may_raise(st, tm.not_(p), 'AttributeError', const(name))
                return self.resolve(st, v)
            r = self.obj_attr(st, obj, o, name)
            if r is not None:
                return r
            return Bound(name, obj)
        if isinstance(obj, Cls):
            v = self.cls_lookup(obj, name, st)
            if v is None:
                if name == '__name__':
                    return const(obj.name)
                if default is not None:
                    return default
                self.raise_(st, 'AttributeError', const(name))
            if isinstance(v, tuple):
                v = Bound(name, obj, v[2]) if v[1] == 'classmethod' else v[2]
            return v
        if isinstance(obj, SuperV):
            return self.super_attr(st, obj, name)
        if isinstance(obj, Mod):
            v = self.module_attr(obj.name, name, st)
            if v is None:
                if default is not None:
                    return default
                if name == '__name__':
                    return const(obj.name)
                self.raise_(st, 'AttributeError', const(name))
            return v
        if isinstance(obj, Ext):
            c = self.ext_const(obj.name + '.' + name)
            return c if c is not None else Ext(obj.name + '.' + name)
        if isinstance(obj, T):
            return self.term_attr(st, obj, name, default)
        if isinstance(obj, NTup) and name in obj.fields:
            return obj.items[obj.fields.index(name)]
        if isinstance(obj, (VTup, LazySeq, Path, Flat)):
            return Bound(name, obj)
        if isinstance(obj, Exc):
            if name == 'args':
                return VTup(obj.args)
            return self.unk('exception attribute')
        if isinstance(obj, Func):
            if name == '__name__':
                return const(obj.name)
            for h in (st, self.modstate):
                o = h.heap.get(('fn', id(obj.node), obj.fid))
                if o is not None and name in o.attrs:
                    p, v = o.attrs[name]
                    if p is TRUE:
                        return self.resolve(st, v)
                    if default is not None:
                        return self.resolve(st, self.vmerge(p, v, default))
                    self.may_raise(st, tm.not_(p), 'AttributeError')
                    return self.resolve(st, v)
            if default is not None:
                return default
            if name in ('__wrapped__', '__doc__', '__defaults__', '__dict__', '__module__', '__qualname__', '__code__'):
                return self.unk('function attribute')
            self.raise_(st, 'AttributeError', const(name))
        if isinstance(obj, Bound) or isinstance(obj, Native):
            return self.unk('attribute of bound')
        return self.unk('attribute %s of %s' % (name, type(obj).__name__))

    def setattr_(self, st, obj, name, v):
        obj = self.resolve(st, obj)
        if isinstance(obj, GV):
            self.lift(st, obj, lambda s, o: (self.setattr_(s, o, name, v), NONE)[1])
            return
        if isinstance(obj, Ref):
            o = st.heap[obj.oid]
            if isinstance(o, InstO):
                at = dict(o.attrs)
                at[name] = (TRUE, v)
                st.heap[obj.oid] = InstO(o.cls, at, o.lazy)
                return
            if isinstance(o, (ArrO, ViewO)) and name == 'shape':
                self.arr_set_shape(st, obj, v)
                return
        if isinstance(obj, Cls):
            key = ('cls', obj.mod, obj.name)
            o = st.heap.get(key) or self.modstate.heap.get(key)
            at = dict(o.attrs) if o is not None else {}
            at[name] = (TRUE, v)
            st.heap[key] = InstO('class', at)
            return
        if isinstance(obj, Func):
            key = ('fn', id(obj.node), obj.fid)
            o = st.heap.get(key)
            at = dict(o.attrs) if o is not None else {}
            at[name] = (TRUE, v)
            st.heap[key] = InstO('function', at)
            return
        if isinstance(obj, Mod):
            fr = self.modframes.get(obj.name)
            if fr is not None:
                st.vars[(fr.fid, name)] = v
            return
        if isinstance(obj, (T, Ext)):
            self.log(st, 'setattr.' + name, [obj, v], {})
            return
        self.unk('setattr on %s' % type(obj).__name__)
