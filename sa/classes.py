"""Generators, context managers, inheritance and iterators."""
import ast
import copy
from . import terms as tm
from .terms import T, TRUE, FALSE, NONE, ZERO, ONE, const
from .heap import (Ref, VTup, GV, LazySeq, Func, Native, Bound, Cls, Ext, Exc, V, ListO, InstO, SliceV, Dead)


class CM(V):
    """a context manager: kind 'gen' (a decorated generator call) or 'suppress'"""
    __slots__ = ('kind', 'data')

    def __init__(self, kind, data):
        self.kind, self.data = kind, data


class NTup(VTup):
    """a named tuple"""
    __slots__ = ('fields',)

    def __init__(self, items, fields):
        VTup.__init__(self, items)
        self.fields = fields


class SuperV(V):
    __slots__ = ('cls', 'obj')

    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class WithBody(ast.stmt):
    """the place of the yield of a context manager"""
    _fields = ('value',)
    _attributes = ('lineno', 'col_offset', 'end_lineno', 'end_col_offset')


def own(node):
    """the nodes of a function outside nested functions"""
    todo = list(node.body) if isinstance(node.body, list) else [node.body]
    while todo:
        n = todo.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            todo.extend(ast.iter_child_nodes(n))


def is_generator(node):
    return isinstance(node, ast.FunctionDef) and any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own(node))


class Collect(ast.NodeTransformer):
    """yields become appends to a list that the function returns"""

    def keep(self, n):
        return n
    visit_FunctionDef = visit_AsyncFunctionDef = visit_Lambda = visit_ClassDef = keep

    def visit_Expr(self, n):
        if isinstance(n.value, (ast.Yield, ast.YieldFrom)):
            m = 'append' if isinstance(n.value, ast.Yield) else 'extend'
            v = n.value.value if n.value.value is not None else ast.Constant(None)
            return fix(ast.Expr(ast.Call(ast.Attribute(ast.Name('$y', ast.Load()), m, ast.Load()), [v], [])), n)
        return self.generic_visit(n)

    def visit_Return(self, n):
        return fix(ast.Return(ast.Name('$y', ast.Load())), n)


class Resume(ast.NodeTransformer):
    keep = Collect.keep
    visit_FunctionDef = visit_AsyncFunctionDef = visit_Lambda = visit_ClassDef = keep

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Yield):
            return fix(WithBody(n.value.value if n.value.value is not None else ast.Constant(None)), n)
        return self.generic_visit(n)


def fix(new, old):
    for x in ast.walk(new):
        if isinstance(x, (ast.stmt, ast.expr)) and not hasattr(x, 'lineno'):
            ast.copy_location(x, old)
    return new


class ClassMixin(object):
    def listing(self, node):
        """the function as one that returns the list of what it yields"""
        r = self.memo_src.get(('gen', id(node)))
        if r is None:
            new = copy.deepcopy(node)
            t = Collect()
            new.body = [fix(ast.Assign([ast.Name('$y', ast.Store())], ast.List([], ast.Load())), node)] + [
                t.visit(b) for b in new.body] + [fix(ast.Return(ast.Name('$y', ast.Load())), node)]
            ast.fix_missing_locations(new)
            self.memo_src[('keep', id(node))] = node
            r = self.memo_src[('gen', id(node))] = new
        return r

    def resuming(self, node):
        r = self.memo_src.get(('cm', id(node)))
        if r is None:
            new = copy.deepcopy(node)
            t = Resume()
            new.body = [t.visit(b) for b in new.body]
            ast.fix_missing_locations(new)
            self.memo_src[('keep', id(node))] = node
            r = self.memo_src[('cm', id(node))] = new
        return r

    def run_generator(self, st, f, args, kw):
        g = Func(self.listing(f.node), f.fid, f.mod, f.name, f.defaults, f.kwdefaults, f.cls)
        n = len(st.log)
        r = self.call_func(st, g, args, kw)
        if len(st.log) > n:
            # what happens between two values depends on who asks for them
            self.unk('call of a generator with effects')
        return r

    # ------------------------------------------------------------ with
    def s_With(self, s, st, fr, out):
        self.with_items(list(s.items), s, st, fr, out)

    def with_items(self, items, s, st, fr, out):
        if not items:
            o = self.exec_block(s.body, st, fr)
            self.absorb(out, o)
            out.next = o.next
            return
        i, rest = items[0], items[1:]
        v = self.resolve(st, self.ev(i.context_expr, st, fr))

        def body(st, val, out):
            if i.optional_vars is not None:
                self.assign(i.optional_vars, val, st, fr)
            self.with_items(rest, s, st, fr, out)
        if isinstance(v, CM) and v.kind == 'gen':
            self.with_generator(st, v, body, out)
            return
        from .interp import Outs
        if isinstance(v, CM):
            o = Outs()
            saved, self.pending = self.pending, []
            self.trydepth += 1
            try:
                body(st, NONE, o)
            except Dead:
                pass
            finally:
                self.trydepth -= 1
            o.exc += self.pending
            self.pending = saved
            kept = [(es, e) for es, e in o.exc if not any(self.exc_matches(e, c) for c in v.data)]
            nxt = o.next
            for es, e in o.exc:
                if (es, e) not in kept:
                    nxt = self.merge(nxt, es)
            o.exc, o.next = kept, nxt
            self.absorb(out, o)
            out.next = nxt
            return
        enter = leave = None
        if isinstance(v, Ref) and isinstance(st.heap[v.oid], InstO):
            enter = self.find_method(st, st.heap[v.oid], '__enter__')
            leave = self.find_method(st, st.heap[v.oid], '__exit__')
        if enter is None:
            body(st, v, out)
            return
        val = self.call_func(st, enter, [v], {})
        o = Outs()
        saved, self.pending = self.pending, []
        try:
            body(st, val, o)
        except Dead:
            pass
        o.exc += self.pending
        self.pending = saved

        def left(es, exc):
            if leave is None:
                return es
            try:
                r = self.call_func(es, leave, [v] + ([NONE] * 3 if exc is None else [
                    self.unk('exception type'), exc, NONE]), {})
            except Dead:
                return None
            return es
        res = Outs()
        if o.next is not None:
            res.next = left(o.next, None)
        for name in ('ret', 'exc'):
            for es, x in getattr(o, name):
                es = left(es, x if name == 'exc' else None)
                if es is not None:
                    getattr(res, name).append((es, x))
        for name in ('brk', 'cont'):
            for es in getattr(o, name):
                es = left(es, None)
                if es is not None:
                    getattr(res, name).append(es)
        self.absorb(out, res)
        out.next = res.next

    s_AsyncWith = s_With

    def exc_matches(self, e, c):
        from .interp import exc_isa
        n = c.name.split('.')[-1] if isinstance(c, (Ext, Cls)) else None
        return n is not None and exc_isa(e.cls, n)

    def with_generator(self, st, v, body, out):
        f, args, kw = v.data
        node = self.resuming(f.node)
        bound = self.bind(st, f, args, kw)
        from .interp import Frame
        fid = ('f', next(self.fids), f.name)
        fr = Frame(fid, f, f.fid, set(bound) | self.locals_of(node), f.mod)
        self.frames[fid] = fr
        for k, x in bound.items():
            st.vars[(fid, k)] = x
        self.functions.add(f.mod + '.' + f.name)
        self.bodies.append(body)
        try:
            o = self.exec_block(node.body, st, fr)
        finally:
            self.bodies.pop()
        nxt = o.next
        for es, _v in o.ret:
            nxt = self.merge(nxt, es)
        out.exc += o.exc
        out.next = nxt

    def s_WithBody(self, s, st, fr, out):
        val = self.ev(s.value, st, fr)
        from .interp import Outs
        o = Outs()
        body = self.bodies.pop()
        try:
            body(st, val, o)
        finally:
            self.bodies.append(body)
        if o.ret or o.brk or o.cont:
            self.unk('statement leaves a context manager')
        out.exc += o.exc
        out.next = o.next

    # ------------------------------------------------------------ classes
    def bases_of(self, c):
        return self.memo_src.get(('bases', id(c.node)), ())

    def subclass(self, c, d):
        return c == d or any(self.subclass(b, d) for b in self.bases_of(c))

    def super_value(self, st, fr, args):
        if args:
            return SuperV(args[0], args[1])
        f = fr
        while f is not None and (f.func is None or getattr(f.func, 'cls', None) is None):
            f = self.frames.get(f.parent)
        if f is None or isinstance(f.func.node, ast.Lambda) or not f.func.node.args.args:
            return self.unk('call of super')
        return SuperV(f.func.cls, self.getvar(f, f.func.node.args.args[0].arg, st))

    def super_attr(self, st, s, name):
        for b in self.bases_of(s.cls):
            v = self.cls_lookup(b, name, st)
            if v is not None:
                if isinstance(v, tuple):
                    if v[1] == 'property':
                        return self.call_func(st, v[2], [s.obj], {})
                    return v[2] if v[1] == 'staticmethod' else Bound(name, s.obj, v[2])
                return Bound(name, s.obj, v) if isinstance(v, Func) else v
        if name == '__init__':
            return Native(lambda I, q, a, k: NONE, 'object.__init__')
        return self.unk('method of super')

    def tuple_class(self, st, fields, defaults=None):
        given = self.items_of(st, defaults) if defaults is not None else []
        dv = dict(zip(fields[len(fields) - len(given or ()):], given or ()))

        def make(I, q, a, k):
            vals = dict(dv)
            vals.update(zip(fields, a))
            vals.update(k)
            if len(a) > len(fields) or set(vals) != set(fields):
                I.raise_(q, 'TypeError', const('fields of a named tuple'))
            return NTup([vals[f] for f in fields], list(fields))
        return Native(make, 'namedtuple')

    def record_class(self, s, st, fr, c, attrs, tup):
        """a class whose constructor takes its annotated fields"""
        flds = [b for b in s.body if isinstance(b, ast.AnnAssign) and isinstance(b.target, ast.Name)]
        names = [b.target.id for b in flds]
        if tup:
            if any(isinstance(b, ast.FunctionDef) for b in s.body):
                return self.unk('method of a named tuple class')
            given = [self.ev(b.value, st, fr) for b in flds if b.value is not None]
            return self.tuple_class(st, names, VTup(given))
        if '__init__' in attrs:
            return None
        body = [fix(ast.Assign([ast.Attribute(ast.Name('self', ast.Load()), n, ast.Store())], ast.Name(n, ast.Load())), s)
                for n in names]
        defaults = []
        for b in flds:
            if b.value is None:
                continue
            v = b.value
            if isinstance(v, ast.Call) and getattr(v.func, 'id', getattr(v.func, 'attr', None)) == 'field':
                fac = [k.value for k in v.keywords if k.arg == 'default_factory']
                dft = [k.value for k in v.keywords if k.arg == 'default']
                if fac:
                    i = names.index(b.target.id)
                    body[i].value = ast.IfExp(ast.Compare(ast.Name(b.target.id, ast.Load()), [ast.Is()], [
                        ast.Constant(Ellipsis)]), ast.Call(fac[0], [], []), ast.Name(b.target.id, ast.Load()))
                    v = ast.Constant(Ellipsis)
                elif dft:
                    v = dft[0]
                else:
                    return self.unk('method of a data class')
            defaults.append(v)
        if '__post_init__' in attrs:
            body.append(ast.Expr(ast.Call(ast.Attribute(ast.Name('self', ast.Load()), '__post_init__', ast.Load()), [], [])))
        f = ast.FunctionDef('__init__', ast.arguments([], [ast.arg('self')] + [ast.arg(n) for n in names], None, [], [],
                                                      None, defaults), body or [ast.Pass()], [])
        fix(f, s)
        ast.fix_missing_locations(f)
        self.memo_src[('init', id(s))] = f
        v = self.make_func(f, st, fr, '__init__')
        v.cls = c
        attrs['__init__'] = (TRUE, v)
        return None

    # ------------------------------------------------------------ iterators
    def b_iter(self, st, args, kw):
        v = self.resolve(st, args[0])
        if len(args) > 1 or isinstance(v, GV):
            return self.unk('call of iter')
        it = self.items_of(st, v)
        if it is not None:
            return self.new_list(st, items=list(it))
        t = self.val_seq(st, self.iterated(st, v))
        return self.new_list(st, seq=t)

    def iterated(self, st, v):
        """what a for loop over an instance runs over"""
        if isinstance(v, Ref) and isinstance(st.heap[v.oid], InstO):
            m = self.find_method(st, st.heap[v.oid], '__iter__')
            if m is not None:
                return self.resolve(st, self.call_func(st, m, [v], {}))
        return v

    def b_next(self, st, args, kw):
        v = self.resolve(st, args[0])
        if isinstance(v, Ref) and isinstance(st.heap[v.oid], InstO):
            m = self.find_method(st, st.heap[v.oid], '__next__')
            if m is not None and len(args) == 1:
                return self.call_func(st, m, [v], {})
        s = self.val_seq(st, v)
        n = tm.length(s)

        def take(q):
            x = tm.sel(s, ZERO)
            it = self.items_of(q, v)
            if it:
                x = it[0]
            if isinstance(v, Ref) and isinstance(q.heap[v.oid], ListO):
                if it is not None:
                    q.heap[v.oid] = ListO(items=it[1:])
                else:
                    q.heap[v.oid] = ListO(seq=tm.slice_(s, ONE, n, ONE))
            return x
        if len(args) > 1:
            return self.branch(st, tm.lt(ZERO, n), take, lambda q: args[1])
        self.may_raise(st, tm.not_(tm.lt(ZERO, n)), 'StopIteration')
        return take(st)
