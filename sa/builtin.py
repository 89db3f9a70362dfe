"""Library model, part 4: builtins, methods, other libraries."""
import ast
from fractions import Fraction
from . import terms as tm
from .classes import CM
from .terms import T, TRUE, FALSE, NONE, ZERO, ONE, const
from .heap import (Ref, VTup, Path, GV, UNDEF, Func, Native, Bound, Mod, Ext, Cls, SliceV, ELLIPSIS, LazySeq,
                   Flat, ListO, DictO, InstO, ArrO, ViewO, Exc, Eff)
from .strmeth import StrMixin

# external callables without observable effect, results determined by their arguments
PURE_PREFIX = ('scipy.interpolate.', 'scipy.ndimage.', 'scipy.spatial.', 'scipy.stats.', 'math.',
               'collections.', 'platform.', 'sys.', 'datetime.', 'time.', 'os.path.', 'functools.', 'copy.',
               'multiprocessing.cpu_count', 'os.getcwd', 'os.getpid', 'os.cpu_count', 'utm.', 're.',
               'matplotlib.colors', 'matplotlib.cm', 'mpl_toolkits')

TYPES = {'int': 'int', 'float': 'float', 'str': 'str', 'bool': 'bool', 'list': 'list', 'tuple': 'tuple',
         'dict': 'dict', 'set': 'set', 'type(None)': 'none', 'NoneType': 'none', 'ndarray': 'ndarray',
         'integer': 'int', 'floating': 'float', 'number': 'number', 'Number': 'number', 'Real': 'number',
         'Integral': 'int', 'int64': 'npint', 'int32': 'npint', 'Iterable': 'iterable', 'Sequence': 'sequence',
         'float64': 'float', 'complex': 'complex', 'object': 'object'}


def constant(k):
    """the plain value of a constant key or tuple of keys, else None"""
    if k.op in ('tup', 'lit'):
        xs = [constant(x) for x in k.args]
        return None if None in xs else (tuple if k.op == 'tup' else list)(xs)
    return k.args[0] if tm.is_const(k) and isinstance(k.args[0], (str, int, float, Fraction)) else None


class BuiltinMixin(StrMixin):

    # ------------------------------------------------------------ constants
    def ext_const(self, name):
        if name in ('math.pi', 'numpy.pi'):
            return tm.sym('pi', 'pos')
        if name in ('numpy.nan', 'numpy.NaN', 'numpy.NAN', 'math.nan'):
            return tm.NANT
        if name in ('numpy.inf', 'numpy.Inf', 'math.inf'):
            return const(tm.INF)
        if name == 'numpy.newaxis':
            return NONE
        if name in ('os.sep', 'os.path.sep'):
            return const('/')
        if name == 'os.name':
            return const('posix')
        if name in ('logging.DEBUG', 'logging.INFO', 'logging.WARNING', 'logging.ERROR', 'logging.CRITICAL',
                    'logging.NOTSET', 'logging.WARN'):
            return const({'DEBUG': 10, 'INFO': 20, 'WARNING': 30, 'WARN': 30, 'ERROR': 40, 'CRITICAL': 50,
                          'NOTSET': 0}[name[8:]])
        return None

    # ------------------------------------------------------------ external calls
    def call_ext(self, st, name, args, kw):
        stub = self.stubs.get('ext:' + name)
        if stub is not None:
            return stub(self, st, args, kw)
        if name.startswith('future.builtins.') or name.startswith('builtins.'):
            b = name.split('.')[-1]
            if name.count('.') == 2 and name.startswith('builtins.'):
                if name == 'builtins.dict.fromkeys':
                    it = self.items_of(st, args[0])
                    if it is not None:
                        r = self.alloc(st, DictO())
                        for k in it:
                            self.setitem(st, r, k, args[1] if len(args) > 1 else NONE)
                        return r
                elif name.split('.')[1] in ('list', 'dict', 'str', 'set', 'float', 'int') and args:
                    return self.call_method(st, args[0], b, list(args[1:]), kw)
                return self.unk('builtin ' + name)
            m = getattr(self, 'b_' + b, None)
            if m is not None:
                return m(st, args, kw)
            if b in ('print', 'input'):
                self.log(st, b, args, kw)
                return NONE
            if b.endswith('Error') or b in ('Exception', 'KeyboardInterrupt', 'StopIteration', 'UserWarning',
                                            'DeprecationWarning', 'Warning'):
                return Exc(b, [self.reify(st, a) for a in args], self.where())
            return self.unk('builtin ' + b)
        if name.startswith('numpy.'):
            return self.call_numpy(st, name[6:], args, kw)
        if name.startswith('math.'):
            f = name[5:]
            if f == 'atan2':
                return self.elementwise(st, lambda a, b: tm.atan2(a, b), args, 'f')
            if f in ('isnan', 'sqrt', 'cos', 'sin', 'tan', 'exp', 'log', 'fabs', 'floor', 'ceil', 'trunc',
                     'radians', 'hypot', 'isfinite'):
                r = self.call_numpy(st, f, args, kw)
                return r
            if f == 'isclose':
                a, b, rel, ab = [self.num(self.reify(st, x)) for x in self.argv(
                    st, args, kw, ['a', 'b', 'rel_tol', 'abs_tol'], (tm.div(ONE, const(10 ** 9)), ZERO))]
                mag = tm.maxmin('max', [tm.fn1('abs', a), tm.fn1('abs', b)])
                return tm.or_(tm.eq(a, b), tm.le(tm.fn1('abs', tm.sub(a, b)), tm.maxmin('max', [tm.mul(rel, mag), ab])))
            if f == 'pow':
                return tm.power(self.reify(st, args[0]), self.reify(st, args[1]))
        if name in ('tqdm.tqdm', 'tqdm.auto.tqdm', 'tqdm.trange'):
            if name.endswith('trange'):
                return self.b_range(st, args, {})
            return args[0] if args else kw.get('iterable', NONE)
        if name in ('os.path.join',):
            parts = []
            for i, a in enumerate(args):
                if i and not (parts and tm.is_const(parts[-1]) and str(parts[-1].args[0]).endswith('/')):
                    parts.append(const('/'))
                parts.append(self.reify(st, a))
            return self.strcat(parts)
        if name.startswith('scipy.ndimage.') and name.endswith('_filter') and args and self.is_arr(st, args[0]):
            a = self.arr(st, args[0])
            kw = dict(kw)
            if len(args) > 1 and name.endswith('gaussian_filter'):
                kw['sigma'] = args[1]
                args = args[:1]
            t = self.opaque_call(st, name, args, kw, pure=True)
            return self.new_arr(st, a.shape, lambda vs: tm.asel(t, tuple(vs)), 'f')
        if name in ('copy.copy', 'copy.deepcopy'):
            return self.copy_value(st, args[0], name.endswith('deepcopy'))
        if name == 'functools.reduce' and len(args) in (2, 3):
            it = self.items_of(st, args[1])
            if it is not None and (it or len(args) == 3):
                it = ([args[2]] if len(args) == 3 else []) + it
                acc = it[0]
                for x in it[1:]:
                    acc = self.call(st, args[0], [acc, x], {})
                return acc
        if name == 'contextlib.suppress':
            return CM('suppress', list(args))
        if name in ('contextlib.nullcontext', 'contextlib.closing'):
            return args[0] if args else NONE
        if name == 'collections.namedtuple' and len(args) == 2 and tm.is_const(args[0] if isinstance(args[0], T) else TRUE):
            fs = self.items_of(st, args[1])
            if isinstance(args[1], T) and tm.is_const(args[1]) and isinstance(args[1].args[0], str):
                fs = [const(x) for x in args[1].args[0].replace(',', ' ').split()]
            if fs is not None and all(isinstance(x, T) and tm.is_const(x) for x in fs):
                return self.tuple_class(st, [x.args[0] for x in fs], kw.get('defaults'))
        if name in ('types.SimpleNamespace', 'argparse.Namespace') and not args:
            return self.alloc(st, InstO('namespace', {k: (TRUE, v) for k, v in kw.items()}))
        if name == 'functools.partial':
            f, pre, pk = args[0], list(args[1:]), dict(kw)
            return Native(lambda I, s, a, k: I.call(s, f, pre + list(a), dict(pk, **k)), 'partial')
        if name in ('itertools.chain.from_iterable',):
            s = self.val_seq(st, args[0])
            v = tm.bv()
            return self.new_list(st, seq=tm.mk('flatmap', tm.length(s), v, tm.sel(s, v)))
        if name == 'itertools.chain':
            r = self.new_list(st, items=())
            for a in args:
                self.list_extend(st, r, a)
            return r
        if name == 'itertools.product' and len(args) == 2 and not kw:
            a, b = [self.val_seq(st, x) for x in args]
            i, j = tm.bv(), tm.bv()
            return self.new_list(st, seq=tm.mk('flatmap', tm.length(a), i, tm.mapseq(
                tm.length(b), j, tm.mk('tup', tm.sel(a, i), tm.sel(b, j)))))
        if name == 'itertools.accumulate' and len(args) == 1 and not kw:
            a = self.val_seq(st, args[0])
            i, j = tm.bv(), tm.bv()
            return self.new_list(st, seq=tm.mapseq(tm.length(a), i, tm.red(
                'sum', tm.add(i, ONE), j, self.num(tm.sel(a, j)))))
        if name == 'itertools.pairwise' and len(args) == 1:
            a = self.val_seq(st, args[0])
            i = tm.bv()
            n = tm.maxmin('max', [ZERO, tm.sub(tm.length(a), ONE)])
            return self.new_list(st, seq=tm.mapseq(n, i, tm.mk('tup', tm.sel(a, i), tm.sel(a, tm.add(i, ONE)))))
        if name == 'itertools.islice':
            sl = [None if x is NONE else self.reify(st, x) for x in args[1:]]
            sl = SliceV(None, sl[0], None) if len(sl) == 1 else SliceV(sl[0], sl[1], sl[2] if len(sl) > 2 else None)
            return self.getitem(st, self.b_list(st, [args[0]], {}), sl)
        if name == 'collections.OrderedDict':
            return self.b_dict(st, args, kw)
        if name == 'collections.defaultdict':
            r = self.b_dict(st, args[1:], kw)
            if args and args[0] is not NONE:
                self.factories[r.oid] = args[0]
            return r
        if name in ('operator.itemgetter',):
            k = args[0]
            return Native(lambda I, s, a, kk: I.getitem(s, a[0], k), 'itemgetter')
        if name.startswith('logging.getLogger'):
            return self.opaque_call(st, name, args, kw, pure=True)
        if any(name.startswith(p) for p in PURE_PREFIX):
            return self.opaque_call(st, name, args, kw, pure=True)
        return self.opaque_call(st, name, args, kw)

    def copy_value(self, st, v, deep):
        v = self.resolve(st, v)
        if isinstance(v, GV):
            return self.lift(st, v, lambda s, x: self.copy_value(s, x, deep))
        if isinstance(v, Ref):
            o = st.heap[v.oid]
            if isinstance(o, ViewO):
                return self.alloc(st, self.arr(st, v))
            if deep and isinstance(o, ListO) and o.items is not None:
                return self.alloc(st, ListO(items=[self.copy_value(st, x, True) for x in o.items], kind=o.kind))
            if deep and isinstance(o, DictO):
                return self.alloc(st, DictO({k: (p, self.copy_value(st, x, True)) for k, (p, x) in o.ent.items()},
                                            o.taint))
            if deep and isinstance(o, InstO):
                return self.alloc(st, InstO(o.cls, {k: (p, self.copy_value(st, x, True))
                                                    for k, (p, x) in o.attrs.items()}, o.lazy))
            return self.alloc(st, o)
        if isinstance(v, Path):
            return self.new_list(st, seq=self.path_term(st, v))
        return v

    # ------------------------------------------------------------ sizes and iteration
    def b_len(self, st, args, kw):
        v = self.resolve(st, args[0])
        if isinstance(v, GV):
            return self.lift(st, v, lambda s, x: self.b_len(s, [x], kw))
        if isinstance(v, VTup):
            return const(len(v.items))
        if isinstance(v, LazySeq):
            return v.n
        if isinstance(v, Ref):
            o = st.heap[v.oid]
            if isinstance(o, ListO):
                if o.items is not None:
                    return const(len(o.items))
                return tm.length(o.seq)
            if isinstance(o, DictO):
                if o.taint is not None:
                    return self.unk('dictionary with unknown keys')
                return tm.add(ZERO, *[tm.ite(p, ONE, ZERO) for p, _ in o.ent.values()])
            if isinstance(o, (ArrO, ViewO)):
                a = self.plain(st, v)
                if a.shape == ():
                    self.raise_(st, 'TypeError')
                return a.shape[0]
            if isinstance(o, InstO):
                m = self.find_method(st, o, '__len__')
                if m is not None:
                    return self.call_func(st, m, [v], {})
        t = self.reify(st, v)
        if t.op == 'arr' and not t.args[0]:
            self.raise_(st, 'TypeError')
        if t is NONE or tm.is_num_const(t):
            self.raise_(st, 'TypeError', const('len'))
        if not tm.isseqkind(tm.kindof(t)):
            self.may_raise(st, tm.isnone(t), 'TypeError', const('len'))
            if t.op == 'ite':
                return self.branch(st, t.args[0], lambda s: self.b_len(s, [t.args[1]], kw),
                                   lambda s: self.b_len(s, [t.args[2]], kw))
        return tm.length(t)

    def b_range(self, st, args, kw):
        ts = [self.simp(st, self.reify(st, a)) for a in args]
        lo, hi, step = (ZERO, ts[0], ONE) if len(ts) == 1 else (ts[0], ts[1], ts[2] if len(ts) > 2 else ONE)
        d = tm.sub(hi, lo)
        if step is not ONE:
            if tm.is_num_const(step) and step.args[0] < 0:
                d = tm.sub(lo, hi)
                s = tm.neg(step)
            else:
                s = step
            if s is not ONE:
                d = tm.floordiv(tm.add(d, tm.sub(s, ONE)), s)
        if not tm.nonneg(d):
            neg = self.decide(st, tm.lt(d, ZERO))
            if neg is TRUE:
                d = ZERO
            elif neg is not FALSE:
                d = tm.maxmin('max', [ZERO, d])
        items = None
        if tm.is_num_const(d) and d.args[0] <= 64 and all(tm.is_num_const(x) for x in (lo, step)):
            items = [const(lo.args[0] + step.args[0] * i) for i in range(int(d.args[0]))]
        return LazySeq(d, lambda k, s: tm.add(lo, tm.mul(k, step)), items=items, src=('range', lo, hi, step))

    b_xrange = b_range

    def b_enumerate(self, st, args, kw):
        it = self.iter_of(st, args[0])
        start = args[1] if len(args) > 1 else kw.get('start', ZERO)
        start = self.reify(st, start)
        if it.items is not None:
            return LazySeq(it.n, None, items=[VTup([tm.add(const(i), start), x]) for i, x in enumerate(it.items)])
        if it.guard is not None or (it.src is not None and it.src[0] == 'optitems'):
            it = self.iter_of(st, self.new_list(st, seq=self.reify(st, it)))
        return LazySeq(it.n, lambda k, s: VTup([tm.add(k, start), it.fn(k, s)]))

    def b_zip(self, st, args, kw):
        its = [self.iter_of(st, a) for a in args]
        if not its:
            return LazySeq(ZERO, None, items=[])
        if len(its) == 1:
            i = its[0]
            if i.items is not None:
                return LazySeq(i.n, None, items=[VTup([x]) for x in i.items])
            return LazySeq(i.n, lambda k, s: VTup([i.fn(k, s)]))
        return self.zip_iter(st, its)

    def b_map(self, st, args, kw):
        f = args[0]
        return self.map_values(st, args[1:], lambda s, *xs: self.call(s, f, list(xs), {}))

    def b_filter(self, st, args, kw):
        t = self.val_seq(st, args[1])
        v = tm.bv()
        e = tm.sel(t, v)
        c = tm.truth(e) if args[0] is NONE else self.truthy(st, self.call(st, args[0], [e], {}))
        return self.new_list(st, seq=tm.fmapseq(tm.length(t), v, c, e))

    def b_reversed(self, st, args, kw):
        v = args[0]
        it = self.items_of(st, v)
        if it is not None:
            return self.new_list(st, items=list(reversed(it)))
        t = self.val_seq(st, v)
        n = tm.length(t)
        w = tm.bv()
        return self.new_list(st, seq=tm.mapseq(n, w, tm.sel(t, tm.sub(tm.sub(n, ONE), w))))

    def b_sorted(self, st, args, kw):
        it = self.items_of(st, args[0])
        if it is not None and all(isinstance(x, T) and tm.is_const(x) and isinstance(
                x.args[0], (str, int, float, Fraction)) for x in it) and (
                    not kw or set(kw) == {'reverse'} and kw['reverse'] in (TRUE, FALSE)):
            try:
                return self.new_list(st, items=sorted(it, key=lambda x: x.args[0],
                                                      reverse=kw.get('reverse') is TRUE))
            except TypeError:
                pass
        t = self.val_seq(st, args[0])
        rev = kw.get('reverse')
        if 'key' in kw and self.resolve(st, kw['key']) is not NONE:
            return self.sorted_by(st, args[0], kw['key'], rev, it, t)
        s = tm.mk('call', 'sorted', t)
        if rev is not None and rev is not FALSE:
            return self.b_reversed(st, [s], {})
        return self.new_list(st, seq=s)

    def sorted_by(self, st, arg, key, rev, it, t):
        if it is not None:
            ks = [self.reify(st, self.call(st, key, [x], {})) for x in it]
            plain = [constant(k) for k in ks]
            if rev in (None, TRUE, FALSE) and None not in plain:
                try:
                    o = sorted(range(len(ks)), key=lambda i: plain[i], reverse=rev is TRUE)
                    return self.new_list(st, items=[it[i] for i in o])
                except TypeError:
                    pass
            keys = tm.lit(*ks)
        else:
            keys = self.reify(st, self.b_list(st, [self.b_map(st, [key, arg], {})], {}))
        v = tm.bv()
        if rev is TRUE:
            last = tm.sub(tm.length(t), ONE)
            w = tm.bv()
            order = tm.mk('call', 'argsort', tm.mapseq(tm.length(t), w, tm.sel(keys, tm.sub(last, w))))
            return self.new_list(st, seq=tm.mapseq(tm.length(t), v, tm.sel(t, tm.sub(last, tm.sel(
                order, tm.sub(last, v))))))
        if rev not in (None, FALSE):
            return self.new_list(st, seq=tm.mk('call', 'list', tm.mk('opaque', 'sorted', t, keys)))
        order = tm.mk('call', 'argsort', keys)
        return self.new_list(st, seq=tm.mapseq(tm.length(t), v, tm.sel(t, tm.sel(order, v))))

    # ------------------------------------------------------------ containers
    def b_list(self, st, args, kw):
        if not args:
            return self.new_list(st, items=())
        v = self.resolve(st, args[0])
        if isinstance(v, GV):
            return self.lift(st, v, lambda s, x: self.b_list(s, [x], kw))
        self.must_iterate(st, v)
        it = self.items_of(st, v)
        if it is not None:
            return self.new_list(st, items=it)
        if isinstance(v, LazySeq):
            return self.new_list(st, seq=self.reify(st, v))
        if isinstance(v, Ref):
            o = st.heap[v.oid]
            if isinstance(o, (ArrO, ViewO)):
                a = self.plain(st, v)
                if len(a.shape) == 1:
                    return self.new_list(st, seq=tm.mapseq(a.shape[0], a.vs[0], self.npread(a.body)))
                k = tm.bv()
                row = self.arr_getitem(st, v, k)
                return self.new_list(st, seq=tm.mapseq(a.shape[0], k, self.reify(st, row)))
            if isinstance(o, DictO):
                if o.taint is not None:
                    return self.unk('dictionary with unknown keys')
                return self.new_list(st, seq=self.reify(st, self.m_dict_keys(st, v, o)))
        t = self.val_seq(st, v)
        if t.op in ('lit', 'tup'):
            return self.new_list(st, items=t.args)
        if tm.isseqkind(tm.kindof(t)):
            return self.new_list(st, seq=t)
        if t.op == 'arr':
            return self.b_list(st, [self.box_arr(st, t)], kw)
        self.may_raise(st, tm.isnone(t), 'TypeError', const('list'))
        return self.new_list(st, seq=tm.mk('call', 'list', t))

    def b_tuple(self, st, args, kw):
        if not args:
            return VTup(())
        it = self.items_of(st, args[0])
        if it is not None:
            return VTup(it)
        return self.reify(st, self.b_list(st, args, kw))

    def b_set(self, st, args, kw):
        if not args:
            return self.alloc(st, ListO(items=(), kind='set'))
        it = self.items_of(st, args[0])
        if it is not None:
            u = []
            for x in it:
                if x not in u:
                    u.append(x)
            if len(u) <= 1 or all(isinstance(x, T) and tm.is_const(x) for x in u):
                return self.alloc(st, ListO(items=u, kind='set'))
        return self.alloc(st, ListO(seq=tm.mk('call', 'unique', self.val_seq(st, args[0])), kind='set'))

    b_frozenset = b_set

    def b_dict(self, st, args, kw):
        r = self.alloc(st, DictO())
        if args:
            self.dict_update(st, r, args[0])
        for k, v in kw.items():
            self.setitem(st, r, const(k), v)
        return r

    # ------------------------------------------------------------ numbers
    def numconv(self, st, v, f, name):
        v = self.resolve(st, v)
        if isinstance(v, GV):
            return self.lift(st, v, lambda s, x: self.numconv(s, x, f, name))
        if self.is_arr(st, v):
            a = self.plain(st, v)
            if all(d is ONE for d in a.shape):
                return f(a.at([ZERO] * len(a.shape)))
            self.raise_(st, 'TypeError', const(name))
        if self.listlike(st, v) or isinstance(v, Ref):
            self.raise_(st, 'TypeError', const(name))
        t = self.reify(st, v)
        if self.npnums:
            t = tm.plain(t)
        if t is NONE:
            self.raise_(st, 'TypeError', const(name))
        if t.op == 'ite' and (t.args[1] is NONE or t.args[2] is NONE):
            return self.branch(st, t.args[0], lambda s: self.numconv(s, t.args[1], f, name),
                               lambda s: self.numconv(s, t.args[2], f, name))
        self.may_raise(st, tm.isnone(t), 'TypeError', const(name))
        if tm.is_const(t) and isinstance(t.args[0], str):
            try:
                if name == 'float' and t.args[0].strip().lower().lstrip('+-') in ('inf', 'infinity', 'nan'):
                    return const(float(t.args[0]))
                return const(int(t.args[0]) if name == 'int' else Fraction(t.args[0]))
            except ValueError:
                self.raise_(st, 'ValueError', const(name))
        if self.is_str(t):
            return tm.mk('opaque', name, t)
        return f(t)

    def b_int(self, st, args, kw):
        if not args:
            return ZERO
        return self.numconv(st, args[0], lambda t: tm.fn1('int', t), 'int')

    def b_float(self, st, args, kw):
        if not args:
            return ZERO
        return self.numconv(st, args[0], lambda t: self.num(t), 'float')

    def b_bool(self, st, args, kw):
        return self.truthy(st, args[0]) if args else FALSE

    def b_str(self, st, args, kw):
        return self.tostr(st, args[0]) if args else const('')

    def b_format(self, st, args, kw):
        spec = self.reify(st, args[1]) if len(args) > 1 else const('')
        if tm.is_const(spec):
            return self.fmt(st, args[0], spec.args[0])
        return tm.mk('strfmt', self.reify(st, args[0]), spec, -1)

    def b_repr(self, st, args, kw):
        return tm.mk('call', 'repr', self.reify(st, args[0]))

    def b_abs(self, st, args, kw):
        return self.call_numpy(st, 'abs', args, kw)

    def b_round(self, st, args, kw):
        if len(args) > 1 and args[1] is not ZERO and args[1] is not NONE:
            d = self.reify(st, args[1])
            if tm.is_num_const(d) and tm.is_int(d):
                return self.np_round(st, args[:2], {})
            return tm.mk('opaque', 'round', self.reify(st, args[0]), d)
        return self.elementwise(st, lambda t: tm.fn1('roundi', t), args[:1], 'i')

    def b_divmod(self, st, args, kw):
        a, b = [self.num(self.reify(st, x)) for x in args]
        return VTup([tm.floordiv(a, b), tm.mod(a, b)])

    def b_pow(self, st, args, kw):
        return tm.power(self.reify(st, args[0]), self.reify(st, args[1]))

    def b_sum(self, st, args, kw):
        start = args[1] if len(args) > 1 else kw.get('start', ZERO)
        if self.is_arr(st, args[0]) and len(self.plain(st, args[0]).shape) > 1:
            r = self.reduce(st, 'sum', args[0], ZERO)
            return r if start is ZERO else self.binop(st, ast.Add(), r, start)
        it = self.items_of(st, args[0])
        if it is not None:
            if any(not isinstance(x, T) for x in it) or (self.listlike(st, start)):
                acc = start
                for x in it:
                    acc = self.binop(st, ast.Add(), acc, x)
                return acc
            return tm.add(self.reify(st, start), *[self.num(x) for x in it])
        v = self.resolve(st, args[0])
        if self.listlike(st, start):
            s = self.val_seq(st, v)
            w = tm.bv()
            return self.new_list(st, seq=tm.concat(self.val_seq(st, start), tm.mk(
                'flatmap', tm.length(s), w, tm.sel(s, w))))
        if self.is_arr(st, v):
            x = self.plain(st, v)
            if len(x.shape) > 1:
                return self.reduce(st, 'sum', v, ZERO)
        r = self.reduce(st, 'sum', self.seqlike(st, v), None)
        return tm.add(self.reify(st, start), r) if isinstance(r, T) else r

    def seqlike(self, st, v):
        return v if isinstance(v, (T, Ref)) else self.reify(st, v)

    def b_any(self, st, args, kw):
        it = self.items_of(st, args[0])
        if it is not None:
            return tm.or_(*[self.truthy(st, x) for x in it])
        return self.reduce(st, 'any', self.seqlike(st, args[0]), None)

    def b_all(self, st, args, kw):
        it = self.items_of(st, args[0])
        if it is not None:
            return tm.and_(*[self.truthy(st, x) for x in it])
        return self.reduce(st, 'all', self.seqlike(st, args[0]), None)

    def b_maxmin(self, st, args, kw, kind):
        if 'key' in kw and self.resolve(st, kw['key']) is not NONE:
            return self.extreme_by(st, args, kw, kind)
        if len(args) == 1:
            it = self.items_of(st, args[0])
            if it is None:
                v = self.resolve(st, args[0])
                if isinstance(v, GV):
                    return self.lift(st, v, lambda s, x: self.b_maxmin(s, [x], kw, kind))
                r = self.reduce(st, kind, self.seqlike(st, v), None)
                if 'default' in kw:
                    n = self.b_len(st, [v], {})
                    return tm.ite(tm.lt(ZERO, n), self.reify(st, r), self.reify(st, kw['default']))
                return r
        else:
            it = list(args)
        if not it:
            if 'default' in kw:
                return kw['default']
            self.raise_(st, 'ValueError')
        its = [self.reify(st, x) for x in it]
        if any(x.op == 'tup' or self.is_str(x) for x in its):
            return tm.mk('opaque', kind, *its)
        its = [self.num(x) for x in its]
        return tm.maxmin(kind, its)

    def extreme_by(self, st, args, kw, kind):
        """min/max by a key: the first element whose key is extreme"""
        seq = args[0] if len(args) == 1 else self.new_list(st, items=list(args))
        t = self.val_seq(st, seq)
        it = self.items_of(st, seq)
        if it is not None:
            keys = tm.lit(*[self.reify(st, self.call(st, kw['key'], [x], {})) for x in it])
        else:
            keys = self.reify(st, self.b_list(st, [self.b_map(st, [kw['key'], seq], {})], {}))
        ek = tm.kindof(keys.args[0] if keys.op == 'lit' and keys.args else tm.sel(keys, tm.bv()))
        pick = tm.mk('call', 'arg' + kind, keys)
        if tm.isseqkind(ek) or ek == 'tuple' or keys.op == 'lit' and any(k.op == 'tup' for k in keys.args) or \
                keys.op == 'map' and keys.args[2].op == 'tup':
            if kind == 'max':
                return tm.mk('opaque', kind, t, keys)
            pick = tm.sel(tm.mk('call', 'argsort', keys), ZERO)
        n = tm.length(t)
        if 'default' in kw:
            return tm.ite(tm.lt(ZERO, n), tm.sel(t, pick), self.reify(st, kw['default']))
        if n is ZERO:
            self.raise_(st, 'ValueError')
        return tm.sel(t, pick)

    def b_max(self, st, args, kw):
        return self.b_maxmin(st, args, kw, 'max')

    def b_min(self, st, args, kw):
        return self.b_maxmin(st, args, kw, 'min')

    # ------------------------------------------------------------ types and attributes
    def b_issubclass(self, st, args, kw):
        c, d = [self.resolve(st, x) for x in args]
        if isinstance(c, Cls) and isinstance(d, Cls):
            return const(self.subclass(c, d))
        return self.unk('builtin issubclass')

    def b_isinstance(self, st, args, kw):
        v, c = self.resolve(st, args[0]), self.resolve(st, args[1])
        if isinstance(v, GV):
            return self.lift(st, v, lambda s, x: self.b_isinstance(s, [x, c], kw))
        if isinstance(c, VTup):
            return tm.or_(*[self.b_isinstance(st, [v, x], kw) for x in c.items])
        if isinstance(c, Cls):
            if isinstance(v, Ref):
                o = st.heap[v.oid]
                if isinstance(o, InstO) and isinstance(o.cls, Cls):
                    return const(self.subclass(o.cls, c))
                return FALSE
            return tm.mk('isinst', v, c.name) if isinstance(v, T) and v.op not in ('const',) else FALSE
        name = c.name.split('.')[-1] if isinstance(c, Ext) else str(c)
        if isinstance(c, T) and c.op == 'ext':
            name = c.args[0]
        ty = TYPES.get(name, name)
        return self.isinst(st, v, ty)

    def isinst(self, st, v, ty):
        if ty == 'object':
            return TRUE
        k = None
        if isinstance(v, VTup):
            k = 'tuple'
        elif isinstance(v, Ref):
            o = st.heap[v.oid]
            k = 'ndarray' if isinstance(o, (ArrO, ViewO)) else (
                o.kind if isinstance(o, ListO) else 'dict' if isinstance(o, DictO) else 'instance')
        elif isinstance(v, Path):
            k = 'list'
        elif isinstance(v, T):
            t = v
            if tm.is_const(t):
                x = t.args[0]
                k = 'none' if x is None else 'bool' if isinstance(x, bool) else 'str' if isinstance(x, str) else \
                    'int' if isinstance(x, int) else 'float'
            elif t.op == 'ite':
                return tm.ite(t.args[0], self.isinst(st, t.args[1], ty), self.isinst(st, t.args[2], ty))
            elif t.op == 'arr':
                k = 'ndarray'
            elif t.op == 'tup':
                k = 'tuple'
            elif t.op == 'dict':
                k = 'dict'
            elif self.is_str(t):
                k = 'str'
            else:
                kk = tm.kindof(t)
                if tm.isseqkind(kk):
                    k = 'list'
                elif tm.is_bool(t):
                    k = 'bool'
                elif kk == 'int':
                    k = 'int'
                elif kk == 'real':
                    k = 'float'
                else:
                    return tm.mk('isinst', t, ty)
        else:
            k = type(v).__name__
        if k == ty:
            return TRUE
        if ty == 'int' and k == 'bool':
            return TRUE
        if ty == 'number' and k in ('int', 'float', 'bool'):
            return TRUE
        if ty == 'iterable' and k in ('list', 'tuple', 'dict', 'set', 'ndarray', 'str'):
            return TRUE
        if ty == 'sequence' and k in ('list', 'tuple', 'str'):
            return TRUE
        return FALSE

    def b_callable(self, st, args, kw):
        return const(isinstance(args[0], (Func, Native, Bound, Ext, Cls)))

    def b_type(self, st, args, kw):
        v = self.resolve(st, args[0])
        if isinstance(v, Ref):
            o = st.heap[v.oid]
            if isinstance(o, InstO) and isinstance(o.cls, Cls):
                return o.cls
            k = 'numpy.ndarray' if isinstance(o, (ArrO, ViewO)) else (
                'builtins.' + (o.kind if isinstance(o, ListO) else 'dict'))
            return Ext(k)
        if isinstance(v, VTup):
            return Ext('builtins.tuple')
        if isinstance(v, T):
            if v is NONE:
                return Ext('builtins.NoneType')
            for ty in ('bool', 'int', 'float', 'str', 'list', 'tuple', 'dict'):
                if self.isinst(st, v, ty) is TRUE:
                    return Ext('builtins.' + ty)
            if v.op == 'arr':
                return Ext('numpy.ndarray')
        return tm.mk('opaque', 'type', self.reify(st, v))

    def b_getattr(self, st, args, kw):
        name = self.key(st, args[1])
        if not isinstance(name, str):
            return self.sym_getattr(st, args)
        if len(args) > 2:
            return self.getattr_(st, args[0], name, args[2])
        return self.getattr_(st, args[0], name)

    def sym_getattr(self, st, args):
        t = self.reify(st, args[1])
        if t.op == 'ite':
            return self.branch(st, t.args[0], lambda s: self.b_getattr(s, [args[0], t.args[1]] + list(args[2:]), {}),
                               lambda s: self.b_getattr(s, [args[0], t.args[2]] + list(args[2:]), {}))
        return self.unk('getattr')

    def b_setattr(self, st, args, kw):
        name = self.key(st, args[1])
        if isinstance(name, str):
            self.setattr_(st, args[0], name, args[2])
        else:
            self.unk('setattr')
        return NONE

    def b_hasattr(self, st, args, kw):
        name = self.key(st, args[1])
        v = self.resolve(st, args[0])
        if isinstance(v, GV):
            return self.lift(st, v, lambda s, x: self.b_hasattr(s, [x, args[1]], kw))
        if isinstance(v, Func):
            o = st.heap.get(('fn', id(v.node), v.fid))
            return self.decide(st, o.attrs.get(name, (FALSE, None))[0]) if o is not None else FALSE
        if isinstance(v, Ref) and isinstance(st.heap[v.oid], InstO):
            o = st.heap[v.oid]
            if isinstance(o.cls, Cls) and self.cls_lookup(o.cls, name, st) is not None:
                return TRUE
            if name not in o.attrs and o.lazy is not None:
                ent = o.lazy(self, st, v, name)
                return FALSE if ent is None else self.decide(st, ent[0])
            return self.decide(st, o.attrs.get(name, (FALSE, None))[0])
        if isinstance(v, T) and v.op not in ('const',):
            return tm.mk('has', v, name)
        return const(self.py_hasattr(v, name)) if not isinstance(v, Ref) and not self.listlike(st, v) or name in (
            '__len__', '__iter__') else self.unk('call of hasattr')

    def py_hasattr(self, v, name):
        if name in ('__len__', '__iter__'):
            return not (isinstance(v, T) and not (isinstance(v.args[0], str)))
        return False

    def b_vars(self, st, args, kw):
        return args[0]

    def b_id(self, st, args, kw):
        v = self.resolve(st, args[0])
        if isinstance(v, Ref) and isinstance(v.oid, int):
            return const(140000000000000 + 16 * v.oid)
        return tm.mk('opaque', 'id', self.reify(st, args[0]))

    def b_open(self, st, args, kw):
        return self.opaque_call(st, 'open', args, kw)

    def b_super(self, st, args, kw):
        return self.unk('super')

    def b_slice(self, st, args, kw):
        a = [None if x is NONE else x for x in args]
        if len(a) == 1:
            return SliceV(None, a[0], None)
        return SliceV(a[0], a[1], a[2] if len(a) > 2 else None)

    # ------------------------------------------------------------ attributes of terms
    def term_attr(self, st, obj, name, default=None):
        if obj.op == 'arr' and name in ('shape', 'size', 'ndim', 'T', 'flat', 'dtype'):
            r = self.box_arr(st, obj)
            return self.obj_attr(st, r, st.heap[r.oid], name)
        if obj.op == 'ite' and not tm.isseqkind(tm.kindof(obj)):
            return self.branch(st, obj.args[0], lambda s: self.getattr_(s, obj.args[1], name, default),
                               lambda s: self.getattr_(s, obj.args[2], name, default))
        if obj is NONE:
            if default is not None:
                return default
            self.raise_(st, 'AttributeError', const(name))
        if tm.is_num_const(obj) and name in ('upper', 'lower', 'strip', 'split', 'format', 'startswith', 'endswith', 'append',
                                             'extend', 'items', 'keys', 'values', 'title', 'capitalize', 'casefold'):
            if default is not None:
                return default
            self.raise_(st, 'AttributeError', const(name))
        if obj.op == 'const' and name in ('kind', 'name') and obj.args[0] in ('int', 'float', 'bool'):
            return const({'int': 'i', 'float': 'f', 'bool': 'b'}[obj.args[0]] if name == 'kind' else
                         obj.args[0] + {'bool': ''}.get(obj.args[0], '64'))
        if obj.op == 'const' or tm.isseqkind(tm.kindof(obj)) or obj.op in ('dict', 'arr') or self.is_str(obj):
            return Bound(name, obj)
        return tm.mk('attr', obj, name)
