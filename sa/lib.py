"""Library model, part 1: operators, lists, dictionaries, strings, subscripts."""
import ast
from . import terms as tm
from .terms import T, TRUE, FALSE, NONE, ZERO, ONE, const
from .heap import (MEMO, Ref, VTup, Path, GV, UNDEF, Func, Native, Bound, Mod, Ext, Cls, SliceV, ELLIPSIS,
                   LazySeq, Flat, ListO, DictO, InstO, ArrO, ViewO, Eff, Dead, Exc)
from .arrays import ArrayMixin
from .npmodel import NumpyMixin
from .builtin import BuiltinMixin


class LibMixin(ArrayMixin, NumpyMixin, BuiltinMixin):

    # ------------------------------------------------------------ classification
    def is_arr(self, st, v):
        return isinstance(v, Ref) and isinstance(st.heap.get(v.oid), (ArrO, ViewO)) or (
            isinstance(v, T) and v.op == 'arr')

    def is_list(self, st, v):
        return isinstance(v, Path) or isinstance(v, Ref) and isinstance(st.heap.get(v.oid), ListO)

    def listlike(self, st, v):
        """list / tuple / sequence term (not an array)"""
        return self.is_list(st, v) or isinstance(v, (VTup, LazySeq)) or (
            isinstance(v, T) and tm.isseqkind(tm.kindof(v)))

    # ------------------------------------------------------------ operators
    OPS = {ast.Add: 'add', ast.Sub: 'sub', ast.Mult: 'mul', ast.Div: 'div', ast.FloorDiv: 'floordiv',
           ast.Mod: 'mod', ast.Pow: 'pow', ast.BitAnd: 'and', ast.BitOr: 'or', ast.BitXor: 'xor',
           ast.MatMult: 'matmul', ast.LShift: 'lshift', ast.RShift: 'rshift'}

    def scalar_op(self, name, a, b):
        if a is NONE or b is NONE:
            return self.unk('arithmetic on None')
        if name == 'add':
            if self.is_str(a) or self.is_str(b):
                return self.strcat([a, b])
            return tm.add(self.num(a), self.num(b))
        if name == 'sub':
            return tm.sub(self.num(a), self.num(b))
        if name == 'mul':
            return tm.mul(self.num(a), self.num(b))
        if name == 'div':
            return tm.div(self.num(a), self.num(b))
        if name == 'floordiv':
            return tm.floordiv(self.num(a), self.num(b))
        if name == 'mod':
            if self.is_str(a):
                return self.strmod(a, b)
            return tm.mod(self.num(a), self.num(b))
        if name == 'pow':
            return tm.power(self.num(a), self.num(b))
        if name in ('and', 'or'):
            if tm.is_bool(a) or tm.is_bool(b):
                f = tm.and_ if name == 'and' else tm.or_
                return f(tm.truth(a), tm.truth(b))
        if name in tm.BITS and self.whole(a) and self.whole(b):
            return tm.bit(name, a, b)
        if name in ('and', 'or'):
            return tm.mk('opaque', 'bit' + name, a, b)
        if name == 'xor':
            if tm.is_bool(a) and tm.is_bool(b):
                return tm.ite(a, tm.not_(b), b)
        return tm.mk('opaque', name, a, b)

    def num(self, t):
        if tm.is_bool(t) and not (t.op in ('sym', 'app')):
            return tm.ite(t, ONE, ZERO)
        return t

    def is_str(self, t):
        return (t.op == 'const' and isinstance(t.args[0], str)) or (
            t.op in ('sym', 'app') and t.args[1][:1] == ('str',)) or (
            t.op == 'call' and t.args[0] in ('strcat', 'str', 'join')) or t.op == 'strfmt' or (
            t.op == 'opaque' and t.args[0] in ('os.getcwd',)) or (
            t.op == 'ite' and self.is_str(t.args[1]) and self.is_str(t.args[2]))

    def binop(self, st, op, a, b):
        name = self.OPS.get(type(op), 'op')
        a, b = self.resolve(st, a), self.resolve(st, b)
        if isinstance(a, GV):
            return self.lift(st, a, lambda s, x: self.binop(s, op, x, b))
        if isinstance(b, GV):
            return self.lift(st, b, lambda s, x: self.binop(s, op, a, x))
        if (a is NONE or b is NONE) and name != 'mod':
            self.raise_(st, 'TypeError', const('arithmetic with None'))
        if isinstance(a, T) and isinstance(b, T) and a.op != 'arr' and b.op != 'arr':
            sa, sb = self.listlike(st, a), self.listlike(st, b)
            if not sa and not sb:
                if a.op == 'ite' and self.mixed(a):
                    return self.branch(st, a.args[0], lambda s: self.binop(s, op, a.args[1], b),
                                       lambda s: self.binop(s, op, a.args[2], b))
                if self.zerodiv and name in ('div', 'floordiv', 'mod') and not self.is_str(a):
                    self.may_raise(st, tm.eq(self.num(b), ZERO), 'ZeroDivisionError')
                return self.scalar_op(name, a, b)
        if name == 'matmul':
            return self.np_dot(st, [a, b], {})
        if self.is_arr(st, a) or self.is_arr(st, b):
            return self.elementwise(st, lambda x, y: self.scalar_op(name, x, y), [a, b],
                                    self.op_dtype(st, name, a, b))
        la, lb = self.listlike(st, a), self.listlike(st, b)
        if name == 'add' and la and lb:
            if isinstance(a, VTup) and isinstance(b, VTup):
                return VTup(a.items + b.items)
            ia, ib = self.flat_items(st, a), self.flat_items(st, b)
            if ia is not None and ib is not None:
                return self.new_list(st, items=ia + ib)
            return self.new_list(st, seq=tm.concat(self.val_seq(st, a), self.val_seq(st, b)))
        if name == 'mul' and (la or lb):
            if lb:
                a, b = b, a
            return self.list_repeat(st, a, b)
        if name == 'mod' and isinstance(a, T):
            return self.strmod(a, self.reify(st, b) if not isinstance(b, VTup) else b, st)
        if name in ('sub', 'and', 'or', 'xor') and (la or lb):
            return self.set_op(st, name, a, b)
        if isinstance(a, Ref) and isinstance(b, Ref) and isinstance(st.heap[a.oid], DictO):
            if name != 'or':
                self.raise_(st, 'TypeError', const('operation on dictionaries'))
            if st.heap[b.oid].taint is not None:
                return self.unk('dictionary with unknown keys')
            r = self.alloc(st, st.heap[a.oid])
            self.dict_update(st, r, b)
            return r
        ta, tb = self.reify(st, a), self.reify(st, b)
        return self.scalar_op(name, ta, tb)

    def set_op(self, st, name, a, b):
        x, y = self.items_of(st, a), self.items_of(st, b)
        if x is None or y is None or not all(isinstance(q, T) and tm.is_const(q) for q in x + y):
            return self.unk('call of a set operation')
        r = {'sub': [q for q in x if q not in y], 'and': [q for q in x if q in y],
             'or': x + [q for q in y if q not in x],
             'xor': [q for q in x if q not in y] + [q for q in y if q not in x]}[name]
        return self.alloc(st, ListO(items=r, kind='set'))

    def mixed(self, t):
        return False

    def flat_items(self, st, v):
        """concrete items without flattening sequence terms"""
        if isinstance(v, VTup):
            return list(v.items)
        if isinstance(v, Ref):
            o = st.heap[v.oid]
            if isinstance(o, ListO) and o.items is not None:
                return list(o.items)
            return None
        if isinstance(v, T) and v.op in ('lit', 'tup'):
            return list(v.args)
        if isinstance(v, LazySeq) and v.items is not None:
            return list(v.items)
        return None

    def list_repeat(self, st, a, n):
        n = self.resolve(st, n)
        n = n if isinstance(n, T) else self.reify(st, n)
        it = self.flat_items(st, a)
        istup = isinstance(a, VTup)
        if it is not None and tm.is_num_const(n):
            r = it * max(0, int(n.args[0]))
            return VTup(r) if istup else self.new_list(st, items=r)
        if not tm.nonneg(n):
            n = tm.maxmin('max', [ZERO, n])
        if it is not None and len(it) == 1:
            x = self.reify(st, it[0])
            v = tm.bv()
            return self.new_list(st, seq=tm.mapseq(n, v, x))
        s = self.val_seq(st, a)
        if s.op == 'lit' and not s.args:
            return self.new_list(st, items=())
        return self.new_list(st, seq=tm.mk('repeat', s, n))

    def whole(self, t):
        return tm.is_int(t) and not tm.is_bool(t) or t.op == 'sym' and t.args[1][:1] in (('int',), ('nat',), ('intT',))

    def op_dtype(self, st, name, a, b):
        if name in ('and', 'or', 'xor'):
            return 'i' if 'i' in (self.dtype_of(st, a), self.dtype_of(st, b)) else 'b'
        if name in ('lshift', 'rshift'):
            return 'i'
        da, db = self.dtype_of(st, a), self.dtype_of(st, b)
        if name == 'div':
            return 'f'
        if da == 'i' and db == 'i':
            return 'i'
        if 'f' in (da, db):
            return 'f'
        return None

    def dtype_of(self, st, v):
        if isinstance(v, Ref):
            o = st.heap.get(v.oid)
            if isinstance(o, (ArrO, ViewO)):
                return o.dtype
        if isinstance(v, T):
            if v.op == 'arr':
                return v.args[3]
            if tm.is_bool(v):
                return 'b'
            if tm.is_int(v):
                return 'i'
            if tm.is_num_const(v):
                return 'f'
        return None

    def unop(self, st, op, v):
        v = self.resolve(st, v)
        if isinstance(v, GV):
            return self.lift(st, v, lambda s, x: self.unop(s, op, x))

        def f(x):
            if isinstance(op, ast.USub):
                return tm.neg(self.num(x))
            if isinstance(op, ast.UAdd):
                return x
            if isinstance(op, ast.Invert):
                if tm.is_bool(x):
                    return tm.not_(x)
                if x.op in ('asel', 'app', 'sel', 'opaque', 'truth'):
                    return tm.not_(tm.truth(x)) if not tm.is_int(x) else tm.sub(const(-1), x)
                return tm.sub(const(-1), x)
            return x
        if self.is_arr(st, v):
            return self.elementwise(st, f, [v], 'b' if isinstance(op, ast.Invert) else self.dtype_of(st, v))
        return f(self.reify(st, v))

    # ------------------------------------------------------------ comparison
    def compare(self, st, op, a, b):
        a, b = self.resolve(st, a), self.resolve(st, b)
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = self.identical(st, a, b)
            return tm.not_(r) if isinstance(op, ast.IsNot) else r
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(st, a, b)
            return tm.not_(r) if isinstance(op, ast.NotIn) else r
        if isinstance(a, GV):
            return self.lift(st, a, lambda s, x: self.compare(s, op, x, b))
        if isinstance(b, GV):
            return self.lift(st, b, lambda s, x: self.compare(s, op, a, x))
        fs = {ast.Eq: tm.eq, ast.NotEq: lambda x, y: tm.not_(tm.eq(x, y)), ast.Lt: tm.lt,
              ast.LtE: tm.le, ast.Gt: lambda x, y: tm.lt(y, x), ast.GtE: lambda x, y: tm.le(y, x)}
        f = fs[type(op)]
        if self.is_arr(st, a) or self.is_arr(st, b):
            if (isinstance(a, T) and a is NONE) or (isinstance(b, T) and b is NONE):
                return const(isinstance(op, ast.NotEq))
            return self.elementwise(st, f, [a, b], 'b')
        if isinstance(op, (ast.Eq, ast.NotEq)) and (self.by_identity(st, a) or self.by_identity(st, b)):
            return const((a == b) == isinstance(op, ast.Eq))
        ta, tb = self.cmp_term(st, a), self.cmp_term(st, b)
        if isinstance(op, (ast.Eq, ast.NotEq)):
            r = self.equal_terms(ta, tb)
            return tm.not_(r) if isinstance(op, ast.NotEq) else r
        if ta is NONE or tb is NONE:
            self.raise_(st, 'TypeError', const('ordering of None'))
        return f(ta, tb)

    def cmp_term(self, st, v):
        return self.reify(st, v)

    def equal_terms(self, a, b):
        """== of values, element by element for short sequences"""
        sa, sb = tm.is_seq(a), tm.is_seq(b)
        if sa and sb and a.op not in ('lit', 'tup') and b.op in ('lit', 'tup'):
            a, b = b, a
        if sa and sb and a.op in ('lit', 'tup') and b.op not in ('lit', 'tup') and len(a.args) <= 4 and \
                b.op in ('map', 'sel', 'ite', 'phi', 'mu', 'concat', 'call'):
            n = tm.length(b)
            return tm.and_(tm.eq(n, const(len(a.args))),
                           *[tm.eq(x, tm.sel(b, const(i))) for i, x in enumerate(a.args)])
        return tm.eq(a, b)

    def identical(self, st, a, b):
        if isinstance(a, GV):
            return tm.ite(a.c, self.identical(st, a.a, b), self.identical(st, a.b, b))
        if isinstance(b, GV):
            return self.identical(st, b, a)
        if isinstance(a, T) and isinstance(b, T):
            for x, y in ((a, b), (b, a)):
                if y is NONE:
                    return self.decide(st, tm.isnone(x))
                if y is TRUE or y is FALSE:
                    if tm.is_bool(x):
                        return x if y is TRUE else tm.not_(x)
                    if tm.is_const(x):
                        return FALSE
                    if x.op == 'ite':
                        return tm.ite(x.args[0], self.identical(st, x.args[1], y),
                                      self.identical(st, x.args[2], y))
                    if x.op in ('sym', 'app') and x.args[1] and x.args[1][0] in ('real', 'pos', 'int', 'nat',
                                                                                'str', 'nonneg'):
                        return FALSE
                    return tm.mk('eq', x, y) if x.id < y.id else tm.mk('eq', y, x)
            return tm.eq(a, b)
        if isinstance(a, T) or isinstance(b, T):
            t = a if isinstance(a, T) else b
            if t is NONE or tm.is_const(t):
                return FALSE
            if t.op == 'ite':
                return FALSE if tm.isnone(t) is FALSE else self.unk('identity')
            return FALSE
        try:
            return const(bool(a == b))
        except Exception:
            return FALSE

    def contains(self, st, x, c):
        c = self.resolve(st, c)
        if isinstance(c, GV):
            return self.lift(st, c, lambda s, y: self.contains(s, x, y))
        x = self.resolve(st, x)
        if isinstance(x, GV):
            x = self.reify(st, x)
        if isinstance(c, Ref):
            o = st.heap[c.oid]
            if isinstance(o, DictO):
                k = self.memo_key(st, o, x)
                if k is not None:
                    return self.memo_find(st, o, k)[0]
                k = self.dkey(st, x)
                if k is not None and (any(isinstance(q, T) for q in o.ent) or isinstance(k, T) and
                                      any(p is not TRUE for p, v in o.ent.values())):
                    if o.taint is not None:
                        return self.unk('dictionary key')
                    return self.dict_find(st, o, k)[0]
                if k is None or isinstance(k, T):
                    if o.taint is not None:
                        return self.unk('dictionary key')
                    return tm.in_(self.reify(st, x), tm.lit(*[const(q) for q in o.ent if not isinstance(q, tuple)]))
                if k in o.ent:
                    return self.decide(st, o.ent[k][0])
                return FALSE if o.taint is None else self.unk('dictionary key')
            if isinstance(o, ListO):
                if o.items is not None:
                    return tm.or_(*[self.item_eq(st, x, y) for y in o.items])
                return tm.in_(self.reify(st, x), o.seq)
            if isinstance(o, (ArrO, ViewO)):
                a = self.arr(st, c)
                xt = self.reify(st, x)
                ws = [tm.bv() for _ in a.shape]
                r = tm.eq(a.at(ws), xt)
                if a.mask is not None:
                    r = tm.and_(r, tm.subst(a.mask, dict(zip(a.vs, ws))))
                for n, v in reversed(list(zip(a.shape, ws))):
                    r = tm.red('any', n, v, r)
                return r
            if isinstance(o, InstO):
                k = self.key(st, x)
                if k is not None:
                    return self.decide(st, o.attrs.get(k, (FALSE, None))[0])
        if isinstance(c, VTup):
            return tm.or_(*[self.item_eq(st, x, y) for y in c.items])
        if isinstance(c, LazySeq):
            if c.items is not None:
                return tm.or_(*[self.item_eq(st, x, y) for y in c.items])
            if c.src is not None and c.src[0] == 'optitems':
                return tm.or_(*[tm.and_(p, self.item_eq(st, x, y)) for p, y in c.src[1]])
            if c.src is not None and c.src[0] == 'range':
                lo, hi, stp = c.src[1:]
                xt = self.reify(st, x)
                if stp is ONE:
                    return tm.and_(tm.le(lo, xt), tm.lt(xt, hi))
            return tm.in_(self.reify(st, x), self.reify(st, c))
        if isinstance(c, T):
            if c.op == 'dict' and tm.is_const(x):
                if x.args[0] in c.args[0]:
                    return c.args[1][c.args[0].index(x.args[0])]
                return FALSE
            return tm.in_(self.reify(st, x), c)
        if isinstance(c, Path):
            return tm.in_(self.reify(st, x), self.path_term(st, c))
        return self.unk('membership in %s' % type(c).__name__)

    def by_identity(self, st, v):
        """an object that only equals itself"""
        if not isinstance(v, Ref):
            return False
        o = st.heap.get(v.oid)
        return isinstance(o, InstO) and isinstance(o.cls, Cls) and self.find_method(st, o, '__eq__') is None

    def item_eq(self, st, x, y):
        x, y = self.resolve(st, x), self.resolve(st, y)
        if (self.by_identity(st, x) and not isinstance(y, GV)) or (self.by_identity(st, y) and not isinstance(x, GV)):
            return const(x == y)
        if isinstance(x, (Ext, Func, Cls)) or isinstance(y, (Ext, Func, Cls)):
            return const(x == y)
        if x == y:
            return TRUE
        return tm.eq(self.reify(st, x), self.reify(st, y))

    # ------------------------------------------------------------ dictionaries
    def key(self, st, k):
        k = self.resolve(st, k)
        if isinstance(k, T) and tm.is_const(k):
            return k.args[0]
        if isinstance(k, VTup):
            ks = tuple(self.key(st, x) for x in k.items)
            return None if any(x is None for x in ks) else ks
        return None

    def unkey(self, k):
        if isinstance(k, T):
            return VTup(k.args) if k.op == 'tup' else k
        if isinstance(k, tuple):
            return VTup([self.unkey(x) for x in k])
        return const(k)

    def dkey(self, st, k):
        """a dictionary key: a Python constant, or a term that means the same in every iteration of the loops around"""
        r = self.key(st, k)
        if r is not None:
            return r
        k = self.resolve(st, k)
        t = tm.mk('tup', *[self.reify(st, x) for x in k.items]) if isinstance(k, VTup) else self.reify(st, k)
        ctx = set(st.ctx)
        for x in tm.subterms(t):
            if x in ctx or x.op in ('phi', 'mu', 'unknown'):
                return None
        return t

    def memo_key(self, st, o, k):
        """the key term of a dictionary that holds nothing, or what this iteration and the ones before have put there
        under the same expression"""
        if o.taint is not MEMO and (o.taint is not None or o.ent) or not st.ctx:
            return None
        if self.key(st, k) is not None:
            return None
        k = self.resolve(st, k)
        t = tm.mk('tup', *[self.reify(st, x) for x in k.items]) if isinstance(k, VTup) else self.reify(st, k)
        ctx, dep = set(st.ctx), False
        for x in tm.subterms(t):
            if x.op in ('phi', 'unknown'):
                return None
            dep = dep or x in ctx
        if not dep or o.taint is MEMO and t not in o.ent:
            return None
        return t

    def memo_find(self, st, o, k):
        p, v = o.ent.get(k, (FALSE, None))
        return self.decide(st, p), v

    def kterm(self, k):
        if isinstance(k, tuple):
            return tm.mk('tup', *[self.kterm(x) for x in k])
        return k if isinstance(k, T) else const(k)

    def key_eq(self, a, b):
        if not isinstance(a, T) and not isinstance(b, T):
            return const(a == b)
        if a is b:
            return TRUE
        a, b = self.kterm(a), self.kterm(b)
        if a.op == 'tup' and b.op == 'tup':
            if len(a.args) != len(b.args):
                return FALSE
            return tm.and_(*[self.key_eq(x, y) for x, y in zip(a.args, b.args)])
        if (a.op == 'tup') != (b.op == 'tup'):
            return FALSE
        return tm.eq(a, b)

    def dict_find(self, st, o, k):
        """(present, value or None); the keys that are present differ from each other"""
        pres, val = FALSE, None
        for q, (p, v) in o.ent.items():
            c = self.decide(st, tm.and_(p, self.key_eq(k, q)))
            if c is FALSE:
                continue
            pres = tm.or_(pres, c)
            val = v if val is None else self.vmerge(c, v, val)
        return self.decide(st, pres), val

    def dict_put(self, st, ref, o, k, v):
        ent, other = {}, FALSE
        for q, (p, w) in o.ent.items():
            if q is k or not isinstance(q, T) and not isinstance(k, T) and q == k:
                ent[q] = (p, w)
                continue
            c = self.decide(st, tm.and_(p, self.key_eq(k, q)))
            if c is not FALSE:
                other = tm.or_(other, c)
                w = v if c is TRUE else self.vmerge(c, v, w)
            ent[q] = (p, w)
        other = self.decide(st, other)
        if other is not TRUE:
            ent[k] = (tm.not_(other), v)
        st.heap[ref.oid] = DictO(ent, o.taint)

    def dict_drop(self, st, ref, o, k):
        st.heap[ref.oid] = DictO({q: (self.decide(st, tm.and_(p, tm.not_(self.key_eq(k, q)))), w)
                                  for q, (p, w) in o.ent.items()
                                  if not (self.key_eq(k, q) is TRUE)}, o.taint)

    def symkeys(self, o, k=None):
        return isinstance(k, T) or any(isinstance(q, T) for q in o.ent)

    def dict_update(self, st, ref, other):
        other = self.resolve(st, other)
        if isinstance(other, GV):
            self.lift(st, other, lambda s, o: (self.dict_update(s, ref, o), NONE)[1])
            return
        o = st.heap[ref.oid]
        ent = dict(o.ent)
        if isinstance(other, Ref) and isinstance(st.heap[other.oid], DictO):
            oo = st.heap[other.oid]
            if oo.taint is not None:
                st.heap[ref.oid] = DictO({}, self.unk('dictionary update'))
                return
            if self.symkeys(o) or self.symkeys(oo):
                if any(p is not TRUE for p, v in oo.ent.values()):
                    st.heap[ref.oid] = DictO({}, self.unk('dictionary update'))
                    return
                for k, (p, v) in oo.ent.items():
                    self.dict_put(st, ref, st.heap[ref.oid], k, v)
                return
            for k, (p, v) in oo.ent.items():
                op_, ov = ent.get(k, (FALSE, None))
                ent[k] = (tm.or_(op_, p), v if ov is None or p is TRUE else self.vmerge(p, v, ov))
            st.heap[ref.oid] = DictO(ent, o.taint)
            return
        if isinstance(other, T) and other.op == 'dict':
            for k, p, v in zip(*other.args):
                op_, ov = ent.get(k, (FALSE, None))
                ent[k] = (tm.or_(op_, p), v if ov is None or p is TRUE else self.vmerge(p, v, ov))
            st.heap[ref.oid] = DictO(ent, o.taint)
            return
        it = self.items_of(st, other)
        if it is not None:
            for pair in it:
                k, v = self.unpack(st, pair, 2)
                self.setitem(st, ref, k, v)
            return
        st.heap[ref.oid] = DictO(ent, self.unk('call of dict with pairs of unknown number'))

    # ------------------------------------------------------------ lists
    def set_seq(self, st, v, items=None, seq=None):
        if isinstance(v, Ref):
            o = st.heap[v.oid]
            if items is not None:
                st.heap[v.oid] = ListO(items=items, kind=o.kind)
            else:
                st.heap[v.oid] = ListO(items=seq.args, kind=o.kind) if seq.op == 'lit' else ListO(
                    seq=seq, kind=o.kind)
        elif isinstance(v, Path):
            self.path_store(st, v, seq if seq is not None else tm.lit(*[self.reify(st, x) for x in items]))

    def list_append(self, st, v, x):
        if isinstance(v, Ref):
            o = st.heap[v.oid]
            if o.items is not None:
                st.heap[v.oid] = ListO(items=o.items + (x,), kind=o.kind)
            else:
                st.heap[v.oid] = ListO(seq=tm.concat(o.seq, tm.lit(self.reify(st, x))), kind=o.kind)
        elif isinstance(v, Path):
            self.path_store(st, v, tm.concat(self.path_term(st, v), tm.lit(self.reify(st, x))))

    def list_extend(self, st, v, x):
        it = self.items_of(st, x)
        o = st.heap[v.oid] if isinstance(v, Ref) else None
        if it is not None and o is not None and o.items is not None:
            st.heap[v.oid] = ListO(items=o.items + tuple(it), kind=o.kind)
            return
        s = self.val_seq(st, x)
        self.set_seq(st, v, seq=tm.concat(self.val_seq(st, v), s))

    # ------------------------------------------------------------ subscripts
    def norm_slice(self, st, sl, n):
        """(lo, length, step) with lo normalised; None if the step is not a non-zero constant"""
        def tv(x):
            if x is None:
                return None
            x = self.resolve(st, x)
            x = x if isinstance(x, T) else self.reify(st, x)
            return None if x is NONE else self.simp(st, x)
        lo, hi, step = tv(sl.lo), tv(sl.hi), tv(sl.step)
        step = step if step is not None else ONE
        if tm.is_num_const(step) and step.args[0] < 0:
            if lo is None and hi is None:
                s = step.args[0]
                if s == -1:
                    return tm.sub(n, ONE), n, step
            return None
        lo_ = ZERO if lo is None else self.simp(st, self.bn(st, lo, n))
        hi_ = n if hi is None else self.simp(st, self.bn(st, hi, n))
        d = tm.sub(hi_, lo_)
        if not tm.nonneg(d):
            z = self.decide(st, tm.lt(d, ZERO)) if tm.is_int(d) else None
            if z is not FALSE:
                d = tm.maxmin('max', [ZERO, d])
        if step is not ONE:
            if tm.is_num_const(step):
                d = tm.floordiv(tm.add(d, tm.sub(step, ONE)), step)
            else:
                d = tm.floordiv(tm.add(d, tm.sub(step, ONE)), step)
        return lo_, d, step

    def bn(self, st, b, n):
        t = tm.bound_norm(b, n)
        if t.op == 'ite':
            t = self.simp(st, t)
        return t

    def norm_index(self, st, i, n):
        i = self.resolve(st, i)
        i = i if isinstance(i, T) else self.reify(st, i)
        if tm.is_bool(i):
            i = tm.ite(i, ONE, ZERO)
        r = tm.index_norm(i, n)
        if r.op == 'ite':
            r = self.simp(st, r)
        return r

    def getitem(self, st, obj, idx):
        obj = self.resolve(st, obj)
        if isinstance(obj, GV):
            return self.lift(st, obj, lambda s, o: self.getitem(s, o, idx))
        if not isinstance(idx, SliceV):
            idx = self.resolve(st, idx)
            if isinstance(idx, GV):
                return self.lift(st, idx, lambda s, i: self.getitem(s, obj, i))
        if isinstance(obj, Ref):
            o = st.heap[obj.oid]
            if isinstance(o, ListO):
                return self.list_getitem(st, obj, o, idx)
            if isinstance(o, DictO) and obj.oid not in self.factories:
                k = self.memo_key(st, o, idx)
                if k is not None:
                    p, v = self.memo_find(st, o, k)
                    if v is None or p is FALSE:
                        self.raise_(st, 'KeyError', const(str(k)))
                    self.may_raise(st, tm.not_(p), 'KeyError', const(str(k)))
                    return self.resolve(st, v)
            if isinstance(o, DictO) and obj.oid in self.factories:
                f = self.factories[obj.oid]
                k = self.dkey(st, idx)
                if k in o.ent and o.ent[k][0] is TRUE and o.taint is None:
                    return self.resolve(st, o.ent[k][1])
                return self.dict_method(st, obj, o, 'setdefault', [idx, self.call(st, f, [], {})], {})
            if isinstance(o, DictO):
                k = self.dkey(st, idx)
                if o.taint is None and k is not None and (
                        any(isinstance(q, T) for q in o.ent) or isinstance(k, T) and
                        any(p is not TRUE for p, v in o.ent.values())):
                    c, v = self.dict_find(st, o, k)
                    if v is None:
                        self.raise_(st, 'KeyError', const(str(k)))
                    self.may_raise(st, tm.not_(c), 'KeyError', const(str(k)))
                    return self.resolve(st, v)
                if k is None or isinstance(k, T):
                    if o.taint is not None:
                        return self.unk('dictionary lookup')
                    return self.dict_symkey(st, o, idx)
                if k not in o.ent:
                    if o.taint is not None:
                        return self.unk('dictionary lookup')
                    self.raise_(st, 'KeyError', const(str(k)))
                p, v = o.ent[k]
                self.may_raise(st, tm.not_(p), 'KeyError', const(str(k)))
                return self.resolve(st, v)
            if isinstance(o, (ArrO, ViewO)):
                return self.npread(self.arr_getitem(st, obj, idx))
            if isinstance(o, InstO):
                m = self.find_method(st, o, '__getitem__')
                if m is not None:
                    return self.call_func(st, m, [obj, idx], {})
                return self.unk('subscript of instance')
        if isinstance(obj, VTup):
            return self.tuple_getitem(st, obj, idx)
        if isinstance(obj, LazySeq):
            if obj.items is not None:
                return self.tuple_getitem(st, VTup(obj.items), idx)
            if isinstance(idx, SliceV):
                return self.getitem(st, self.reify(st, obj), idx)
            return obj.fn(self.norm_index(st, idx, obj.n), st)
        if isinstance(obj, Path):
            t = self.path_term(st, obj)
            if isinstance(idx, SliceV):
                return self.term_getitem(st, t, idx)
            i = self.norm_index(st, idx, tm.length(t))
            self.check_index(st, i, tm.length(t))
            e = tm.sel(t, i)
            if tm.isseqkind(tm.kindof(e)) and e.op != 'tup' and not tm.mixed(e):
                return Path(obj.oid, obj.idx + (i,))
            return e
        if isinstance(obj, T):
            r = self.term_getitem(st, obj, idx)
            return self.npread(r) if obj.op == 'arr' else r
        if isinstance(obj, Flat):
            return self.npread(self.flat_get(st, obj, idx))
        if isinstance(obj, Ext):
            if obj.name in ('numpy.c_', 'numpy.r_') and isinstance(idx, VTup) and not any(
                    isinstance(x, (SliceV, str)) for x in idx.items):
                t = self.new_list(st, items=list(idx.items))
                return self.np_column_stack(st, [t], {}) if obj.name == 'numpy.c_' else self.np_concatenate(st, [t], {})
            return tm.mk('sub', self.reify(st, obj), self.idx_term(st, idx))
        return self.unk('subscript of %s' % type(obj).__name__)

    npnums = False

    def npread(self, r):
        """a number read from an array keeps the number type of the array (only told apart when asked for)"""
        return tm.npnum(r) if self.npnums and isinstance(r, T) else r

    def dict_symkey(self, st, o, idx):
        """lookup with a symbolic key among known keys"""
        kt = self.reify(st, idx)
        if kt.op == 'ite':
            return self.branch(st, kt.args[0],
                               lambda s: self.dict_symkey_1(s, o, kt.args[1]),
                               lambda s: self.dict_symkey_1(s, o, kt.args[2]))
        if not o.ent:
            self.raise_(st, 'KeyError', const(str(kt)))
        if self.trydepth:
            self.may_raise(st, tm.not_(tm.or_(*[tm.and_(p, self.key_eq(kt, q)) for q, (p, v) in o.ent.items()])),
                           'KeyError')
        d = tm.mk('dict', tuple(o.ent), tuple(p for p, v in o.ent.values()),
                  tuple(self.reify(st, v) for p, v in o.ent.values()))
        return tm.mk('sel', d, kt)

    def dict_symkey_1(self, st, o, kt):
        if tm.is_const(kt):
            r = self.alloc(st, o)
            return self.getitem(st, r, kt)
        return self.dict_symkey(st, o, kt)

    def check_index(self, st, i, n):
        """IndexError when the index is certainly or possibly outside, inside try blocks only"""
        if tm.is_num_const(i) and tm.is_num_const(n) and not 0 <= i.args[0] < n.args[0]:
            self.raise_(st, 'IndexError')
        if not self.trydepth:
            return
        c = tm.or_(tm.lt(i, ZERO), tm.le(n, i))
        self.may_raise(st, c, 'IndexError')

    def list_getitem(self, st, ref, o, idx):
        if isinstance(idx, SliceV):
            if o.items is not None:
                cs = self.const_slice(st, idx, len(o.items))
                if cs is not None:
                    return self.new_list(st, items=o.items[cs])
            t = self.term_getitem(st, self.seq_of_list(o, st), idx)
            return self.new_list(st, seq=t) if t.op != 'lit' else self.new_list(st, items=t.args)
        it = idx if isinstance(idx, T) else self.reify(st, idx)
        it = self.simp(st, it)
        if o.items is not None and tm.is_num_const(it):
            k = it.args[0]
            if isinstance(k, int) and -len(o.items) <= k < len(o.items):
                return self.resolve(st, o.items[k])
            self.raise_(st, 'IndexError')
        if o.items is not None:
            its = o.items
            if all(isinstance(x, T) for x in its):
                t = tm.lit(*its)
                i = self.norm_index(st, it, const(len(its)))
                self.check_index(st, i, const(len(its)))
                return tm.sel(t, i)
            if its:
                i = self.norm_index(st, it, const(len(its)))
                self.check_index(st, i, const(len(its)))
                v = its[-1]
                for j in range(len(its) - 2, -1, -1):
                    v = self.vmerge(tm.eq(i, const(j)), its[j], v)
                return self.resolve(st, v)
            self.raise_(st, 'IndexError')
        n = tm.length(o.seq)
        i = self.norm_index(st, it, n)
        self.check_index(st, i, n)
        e = tm.sel(o.seq, i)
        if tm.isseqkind(tm.kindof(e)) and not self.is_tuple_term(e) and not tm.mixed(e):
            return Path(ref.oid, (i,))
        return e

    def is_tuple_term(self, e):
        if e.op == 'tup':
            return True
        if e.op == 'ite':
            return self.is_tuple_term(e.args[1]) or self.is_tuple_term(e.args[2])
        return False

    def const_slice(self, st, idx, n):
        out = []
        for x in (idx.lo, idx.hi, idx.step):
            if x is None:
                out.append(None)
                continue
            x = self.resolve(st, x)
            if not (isinstance(x, T) and tm.is_const(x)):
                return None
            v = x.args[0]
            if v is not None and not isinstance(v, int):
                return None
            out.append(v)
        return slice(*out)

    def tuple_getitem(self, st, v, idx):
        if isinstance(idx, SliceV):
            cs = self.const_slice(st, idx, len(v.items))
            if cs is not None:
                return VTup(v.items[cs])
            return self.unk('tuple slice')
        it = idx if isinstance(idx, T) else self.reify(st, idx)
        it = self.simp(st, it)
        if tm.is_num_const(it):
            k = it.args[0]
            if isinstance(k, int) and -len(v.items) <= k < len(v.items):
                return self.resolve(st, v.items[k])
            self.raise_(st, 'IndexError')
        if not v.items:
            self.raise_(st, 'IndexError')
        i = self.norm_index(st, it, const(len(v.items)))
        r = v.items[-1]
        for j in range(len(v.items) - 2, -1, -1):
            r = self.vmerge(tm.eq(i, const(j)), v.items[j], r)
        return self.resolve(st, r)

    def idx_term(self, st, idx):
        if isinstance(idx, VTup):
            return tm.mk('tup', *[self.idx_term(st, x) for x in idx.items])
        if isinstance(idx, SliceV):
            return tm.mk('opaque', 'slice', *[NONE if x is None else self.reify(st, x)
                                              for x in (idx.lo, idx.hi, idx.step)])
        return self.reify(st, idx)

    def term_getitem(self, st, t, idx):
        if t.op == 'arr':
            return self.arr_getitem(st, self.box_arr(st, t), idx)
        if t.op == 'ite' and not isinstance(idx, SliceV):
            c = t.args[0]
            return self.branch(st, c, lambda s: self.term_getitem(s, t.args[1], idx),
                               lambda s: self.term_getitem(s, t.args[2], idx))
        if t.op == 'dict':
            k = self.key(st, idx)
            if k is not None:
                if k not in t.args[0]:
                    self.raise_(st, 'KeyError', const(str(k)))
                j = t.args[0].index(k)
                self.may_raise(st, tm.not_(t.args[1][j]), 'KeyError', const(str(k)))
                return t.args[2][j]
            return tm.mk('sel', t, self.reify(st, idx))
        if t.op == 'const' and isinstance(t.args[0], str):
            if isinstance(idx, SliceV):
                cs = self.const_slice(st, idx, 0)
                if cs is not None:
                    return const(t.args[0][cs])
            elif tm.is_num_const(idx):
                try:
                    return const(t.args[0][idx.args[0]])
                except IndexError:
                    self.raise_(st, 'IndexError')
            return tm.mk('sub', t, self.idx_term(st, idx))
        if self.is_str(t):
            return tm.mk('sub', t, self.idx_term(st, idx))
        if tm.isseqkind(tm.kindof(t)):
            n = tm.length(t)
            if isinstance(idx, SliceV):
                ns = self.norm_slice(st, idx, n)
                if ns is None:
                    lo, hi, sp = [NONE if x is None else self.reify(st, x) for x in (idx.lo, idx.hi, idx.step)]
                    return tm.mk('pyslice', t, lo, hi, sp)
                lo, ln, step = ns
                if tm.is_num_const(step) and step.args[0] < 0:
                    v = tm.bv()
                    return tm.mapseq(ln, v, tm.sel(t, tm.sub(lo, v)))
                if step is ONE:
                    return tm.slice_(t, lo, tm.add(lo, ln), ONE)
                if tm.is_num_const(step):
                    v = tm.bv()
                    return tm.mapseq(ln, v, tm.sel(t, tm.add(lo, tm.mul(v, step))))
                return tm.mk('pyslice', t, *[NONE if x is None else self.reify(st, x)
                                             for x in (idx.lo, idx.hi, idx.step)])
            if isinstance(idx, T) and not tm.isseqkind(tm.kindof(idx)):
                i = self.norm_index(st, idx, n)
                self.check_index(st, i, n)
                return tm.sel(t, i)
            if isinstance(idx, T) and self.key(st, idx) is None:
                return tm.mk('sub', t, self.idx_term(st, idx))
        return tm.mk('sub', t, self.idx_term(st, idx))

    def setitem(self, st, obj, idx, v):
        obj = self.resolve(st, obj)
        if isinstance(obj, GV):
            self.lift(st, obj, lambda s, o: (self.setitem(s, o, idx, v), NONE)[1])
            return
        if not isinstance(idx, SliceV):
            idx = self.resolve(st, idx)
            if isinstance(idx, GV):
                self.lift(st, idx, lambda s, i: (self.setitem(s, obj, i, v), NONE)[1])
                return
        if isinstance(obj, Ref):
            o = st.heap[obj.oid]
            if isinstance(o, DictO):
                k = self.memo_key(st, o, idx)
                if k is not None:
                    st.heap[obj.oid] = DictO({k: (TRUE, v)}, MEMO)
                    return
                k = self.dkey(st, idx)
                if k is None or o.taint is MEMO:
                    st.heap[obj.oid] = DictO({}, self.unk('symbolic dictionary key'))
                    return
                if self.symkeys(o, k):
                    self.dict_put(st, obj, o, k, v)
                    return
                ent = dict(o.ent)
                ent[k] = (TRUE, v)
                st.heap[obj.oid] = DictO(ent, o.taint)
                return
            if isinstance(o, ListO):
                it = None
                if not isinstance(idx, SliceV):
                    it = self.simp(st, idx if isinstance(idx, T) else self.reify(st, idx))
                if isinstance(idx, SliceV):
                    n = tm.length(self.seq_of_list(o, st))
                    ns = self.norm_slice(st, idx, n)
                    if o.items is not None:
                        cs = self.const_slice(st, idx, len(o.items))
                        itv = self.items_of(st, v)
                        if cs is not None and itv is not None:
                            l = list(o.items)
                            l[cs] = itv
                            st.heap[obj.oid] = ListO(items=l, kind=o.kind)
                            return
                    if ns is not None and ns[2] is ONE:
                        s = self.seq_of_list(o, st)
                        lo, ln, _ = ns
                        new = tm.concat(tm.slice_(s, ZERO, lo, ONE), self.val_seq(st, v),
                                        tm.slice_(s, tm.add(lo, ln), n, ONE))
                        self.set_seq(st, obj, seq=new)
                        return
                    self.set_seq(st, obj, seq=self.unk('slice store'))
                    return
                if o.items is not None and tm.is_num_const(it):
                    k = it.args[0]
                    if isinstance(k, int) and -len(o.items) <= k < len(o.items):
                        l = list(o.items)
                        l[k] = v
                        st.heap[obj.oid] = ListO(items=l, kind=o.kind)
                        return
                    self.raise_(st, 'IndexError')
                s = self.seq_of_list(o, st)
                n = tm.length(s)
                i = self.norm_index(st, it, n)
                self.check_index(st, i, n)
                st.heap[obj.oid] = ListO(seq=tm.seqstore(s, i, self.reify(st, v)), kind=o.kind)
                return
            if isinstance(o, (ArrO, ViewO)):
                self.arr_setitem(st, obj, idx, v)
                return
        if isinstance(obj, Path):
            t = self.path_term(st, obj)
            if isinstance(idx, SliceV):
                self.path_store(st, obj, self.unk('slice store'))
                return
            i = self.norm_index(st, idx, tm.length(t))
            self.path_store(st, obj, tm.seqstore(t, i, self.reify(st, v)))
            return
        if isinstance(obj, Flat):
            self.flat_set(st, obj, idx, v)
            return
        if isinstance(obj, T):
            self.log(st, 'setitem', [obj, self.idx_term(st, idx), v], {})
            return
        self.unk('store into %s' % type(obj).__name__)

    def delitem(self, st, obj, idx):
        obj = self.resolve(st, obj)
        if isinstance(obj, GV):
            self.lift(st, obj, lambda s, o: (self.delitem(s, o, idx), NONE)[1])
            return
        if isinstance(obj, Ref):
            o = st.heap[obj.oid]
            if isinstance(o, DictO):
                k = self.dkey(st, idx)
                ent = dict(o.ent)
                if o.taint is MEMO:
                    st.heap[obj.oid] = DictO({}, self.unk('del'))
                    return
                if k is not None and self.symkeys(o, k) and o.taint is None:
                    self.may_raise(st, tm.not_(self.dict_find(st, o, k)[0]), 'KeyError')
                    self.dict_drop(st, obj, o, k)
                    return
                if k is not None:
                    if k not in ent and not o.taint:
                        self.raise_(st, 'KeyError')
                        return
                    if k in ent:
                        self.may_raise(st, tm.not_(ent[k][0]), 'KeyError')
                    ent.pop(k, None)
                    st.heap[obj.oid] = DictO(ent, o.taint)
                    return
                st.heap[obj.oid] = DictO({}, self.unk('del'))
                return
            if isinstance(o, ListO):
                if not isinstance(idx, SliceV):
                    idx = self.resolve(st, idx)
                if isinstance(idx, SliceV):
                    if o.items is not None:
                        cs = self.const_slice(st, idx, len(o.items))
                        if cs is not None:
                            l = list(o.items)
                            del l[cs]
                            st.heap[obj.oid] = ListO(items=l, kind=o.kind)
                            return
                    seq = self.seq_of_list(o, st)
                    n = tm.length(seq)
                    ns = self.norm_slice(st, idx, n)
                    if ns is not None and ns[2] is ONE:
                        lo, hi = ns[0], tm.add(ns[0], ns[1])
                        self.set_seq(st, obj, seq=tm.concat(tm.slice_(seq, ZERO, lo, ONE), tm.slice_(seq, hi, n, ONE)))
                        return
                elif isinstance(idx, T):
                    n = len(o.items) if o.items is not None else None
                    if n is not None and tm.is_num_const(idx):
                        if not -n <= idx.args[0] < n:
                            self.raise_(st, 'IndexError')
                            return
                    self.call(st, self.getattr_(st, obj, 'pop'), [idx], {})
                    return
                st.heap[obj.oid] = ListO(seq=self.unk('del'), kind=o.kind)
                return
        self.unk('del')

    # ------------------------------------------------------------ strings
    def tostr(self, st, v):
        t = self.reify(st, self.resolve(st, v)) if st is not None or not isinstance(v, T) else v
        if tm.is_const(t):
            x = t.args[0]
            if isinstance(x, str):
                return t
            if isinstance(x, bool) or isinstance(x, int) or x is None:
                return const(str(x))
            if hasattr(x, 'numerator'):
                return const(repr(float(x)))
        if self.is_str(t):
            return t
        return tm.mk('call', 'str', t)

    def strcat(self, parts):
        out = []
        for p in parts:
            ps = p.args[1:] if p.op == 'call' and p.args[0] == 'strcat' else (p,)
            for x in ps:
                if tm.is_const(x) and x.args[0] == '':
                    continue
                if out and tm.is_const(out[-1]) and tm.is_const(x) and isinstance(x.args[0], str) and \
                        isinstance(out[-1].args[0], str):
                    out[-1] = const(out[-1].args[0] + x.args[0])
                else:
                    out.append(x)
        if not out:
            return const('')
        if len(out) == 1:
            return out[0]
        return tm.mk('call', 'strcat', *out)

    def fmt(self, st, v, spec):
        """a value rendered by a format specification; the common forms have one representation"""
        t = v if isinstance(v, T) else self.reify(st, self.resolve(st, v))
        if spec in ('', 's', None):
            return self.tostr(st, t)
        if spec in ('d', 'i') or (spec[-1:] == 'd' and not tm.is_int(t)):
            t = t if tm.is_int(t) else tm.fn1('int', t)
            if spec in ('d', 'i'):
                return self.tostr(st, t)
        if tm.is_num_const(t) or (tm.is_const(t) and isinstance(t.args[0], str)):
            try:
                x = t.args[0]
                return const(format(x if isinstance(x, (int, str)) else float(x), spec))
            except ValueError:
                pass
        return tm.mk('strfmt', t, const(spec), -1)

    def strmod(self, a, b, st=None):
        """'..%d..' % values"""
        if tm.is_const(a) and isinstance(a.args[0], str):
            import re
            vals = [self.reify(st, x) for x in b.items] if isinstance(b, VTup) else (
                list(b.args) if isinstance(b, T) and b.op == 'tup' else [b])
            pieces = re.split(r'(%[-+ #0]*[0-9]*(?:[.][0-9]+)?[sdifFeEgGrxX%])', a.args[0])
            out = []
            vals = list(vals)
            for p in pieces:
                if p == '%%':
                    out.append(const('%'))
                elif len(p) > 1 and p[0] == '%':
                    if not vals:
                        return tm.mk('strfmt', a, *[self.reify(st, x) if st else x for x in (b,)])
                    out.append(self.fmt(st, vals.pop(0), percent(p[1:])))
                elif '%' in p:
                    return tm.mk('strfmt', a, *vals)
                else:
                    out.append(const(p))
            return self.strcat(out)
        return tm.mk('strfmt', a, b if isinstance(b, T) else self.reify(st, b))


def percent(p):
    """the specification of str.format for one of the % operator"""
    import re
    m = re.match(r'([-+ #0]*)([0-9]*)([.][0-9]+)?(.)$', p)
    flags, width, prec, kind = m.group(1), m.group(2), m.group(3) or '', m.group(4)
    kind = {'i': 'd', 's': '' if not (width or prec) else 's'}.get(kind, kind)
    if flags and flags != '0' or (kind == 's' and (width or prec)) or (prec and kind == 'd'):
        return '%' + p
    return flags + width + prec + kind
