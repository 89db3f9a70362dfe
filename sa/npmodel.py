"""Library model, part 3: numpy functions."""
from fractions import Fraction
import ast
from . import terms as tm
from .terms import T, TRUE, FALSE, NONE, ZERO, ONE, const
from .heap import (Ref, VTup, Path, GV, SliceV, ELLIPSIS, LazySeq, Flat, ListO, ArrO, ViewO, Bound, Ext, Eff)

# pure functions kept uninterpreted: equal arguments give equal results
OPAQUE_PURE = {
    'percentile', 'nanpercentile', 'gradient', 'quantile', 'nanquantile', 'loadtxt', 'load', 'histogram',
    'ascontiguousarray', 'fromfile', 'genfromtxt', 'nanstd', 'nanvar',
    'savez', 'tri', 'array_split', 'split', 'rollaxis', 'trapz', 'histogram2d',
}


# keyword arguments that make no difference to exact values
NO_EFFECT = {'subok', 'casting', 'like', 'copy', 'usetxt', 'kind', 'overwrite_input'}


# memory layout is not observable for newly made arrays
# functions whose keyword arguments are settings, not data
SETTINGS = {'errstate', 'seterr', 'set_printoptions', 'printoptions', 'save', 'savetxt', 'savez', 'load', 'loadtxt'}
ORDERLESS = {'zeros', 'ones', 'full', 'empty', 'array', 'asarray', 'zeros_like', 'ones_like', 'full_like', 'empty_like', 'copy',
             'ascontiguousarray', 'asfortranarray', 'require'}


class Narrow(str):
    """the kind of numbers of an array ('f' or 'i') that does not hold them exactly"""

    def __new__(cls, width):
        d = str.__new__(cls, 'f' if width in tm.INEXACT else 'i')
        d.width = width
        return d


def narrow(d):
    return getattr(d, 'width', None) is not None


NARROW = {'float32': 'f4', 'single': 'f4', 'f4': 'f4', 'float16': 'f2', 'half': 'f2', 'f2': 'f2', 'int8': 'i1', 'byte': 'i1',
          'i1': 'i1', 'int16': 'i2', 'short': 'i2', 'i2': 'i2', 'uint8': 'u1', 'ubyte': 'u1', 'u1': 'u1', 'uint16': 'u2',
          'ushort': 'u2', 'u2': 'u2'}


class Kw(dict):
    """keyword arguments of a call, noting which ones the model has looked at"""

    def __init__(self, d):
        dict.__init__(self, d)
        self.seen = getattr(d, 'seen', set())

    def __getitem__(self, k):
        self.seen.add(k)
        return dict.__getitem__(self, k)

    def get(self, k, d=None):
        self.seen.add(k)
        return dict.get(self, k, d)

    def __contains__(self, k):
        self.seen.add(k)
        return dict.__contains__(self, k)

    def pop(self, k, *d):
        self.seen.add(k)
        return dict.pop(self, k, *d)

    def items(self):
        self.seen.update(dict.keys(self))
        return dict.items(self)

    def keys(self):
        self.seen.update(dict.keys(self))
        return dict.keys(self)

    def values(self):
        self.seen.update(dict.keys(self))
        return dict.values(self)


class NumpyMixin(object):

    def argv(self, st, args, kw, names, defaults=()):
        """positional/keyword arguments by name; missing ones None"""
        if len(args) > len(names):
            self.unk('call of a numpy function with further arguments after ' + names[-1])
        out = []
        d = dict(zip(names[len(names) - len(defaults):], defaults)) if defaults else {}
        for i, n in enumerate(names):
            if i < len(args):
                out.append(args[i])
            elif n in kw:
                out.append(kw[n])
            else:
                out.append(d.get(n))
        return [self.resolve(st, x) if x is not None and not isinstance(x, SliceV) else x for x in out]

    def single(self, st, v):
        """a single number; giving an array where the model takes a number makes the call unknown"""
        t = self.reify(st, v)
        if tm.isseqkind(tm.kindof(t)) or t.op in ('arr', 'lit', 'tup', 'map', 'dict'):
            if t.op == 'arr' and not t.args[0]:
                return t
            return self.unk('call of a numpy function with an array for a number')
        return t

    def call_numpy(self, st, name, args, kw):
        k = Kw(kw)
        r = self.call_numpy0(st, name, args, k)
        if 'order' in k and 'order' not in k.seen and dict.get(k, 'order') is not const('F') or name in ORDERLESS:
            k.seen.add('order')
        left = sorted(set(k) - k.seen - NO_EFFECT)
        if 'dtype' in left and self.dtype_name(st, dict.get(k, 'dtype'), 'f') in ('f', self.dtype_of(st, r)):
            left.remove('dtype')
        if left and name not in SETTINGS:
            self.unk('call of numpy.%s with %s' % (name, ', '.join(left)))
        return r

    def call_numpy0(self, st, name, args, kw):
        """a call with out=, where= or copy=False stores into one of its arguments"""
        dest, mask = kw.get('out', NONE), kw.get('where', NONE)
        arity = 1 if name in UNARY else 2 if name in BINARY else None
        if arity and len(args) == arity + 1 and 'out' not in kw:
            dest, args = args[arity], args[:arity]
        if name == 'nan_to_num':
            c = kw.get('copy', args[1] if len(args) > 1 else TRUE)
            if c is not TRUE:
                dest = args[0] if c is FALSE else self.unk('copy')
        if mask is TRUE:
            mask = NONE
        if dest is NONE and mask is NONE:
            return self.call_numpy1(st, name, args, kw)
        kw = {k: v for k, v in kw.items() if k not in ('out', 'where', 'copy')}
        if isinstance(self.resolve(st, dest), VTup) and len(self.resolve(st, dest).items) == 1:
            dest = self.resolve(st, dest).items[0]
        if arity is None and mask is not NONE:
            return self.unk('call of numpy.%s with where' % name)
        r = self.call_numpy1(st, name, args, kw)
        if mask is not NONE:
            old = dest if dest is not NONE else self.unk('call of numpy.%s with where and without out' % name)
            r = self.elementwise(st, lambda p, x, y: tm.ite(tm.truth(p), x, y), [mask, r, old], self.dtype_of(st, r))
        if dest is NONE:
            return r
        self.setitem(st, dest, SliceV(None, None, None), r)
        return dest

    def call_numpy1(self, st, name, args, kw):
        m = getattr(self, 'np_' + name.replace('.', '_'), None)
        # arguments that are gated objects of unlike shapes are split per gate
        if m is not None:
            for i, a in enumerate(args):
                a = self.resolve(st, a)
                if isinstance(a, GV):
                    return self.lift(st, a, lambda s, x: self.call_numpy1(
                        s, name, list(args[:i]) + [x] + list(args[i + 1:]), kw))
            return m(st, args, kw)
        if name in UNARY:
            op, dt = UNARY[name]
            r = self.elementwise(st, op, [args[0]], dt if dt != 'same' else self.dtype_of(st, args[0]))
            return self.npread(r) if name in ('float32', 'float16', 'int8', 'int16', 'uint8', 'uint16', 'int32', 'int64', 'bool_') else r
        if name in BINARY:
            op, dt = BINARY[name]
            dtype = dt if dt != 'same' else self.op_dtype(st, 'add', args[0], args[1])
            return self.elementwise(st, op, [args[0], args[1]], dtype)
        base = name[3:] if name.startswith('nan') else name
        if base in ('sum', 'max', 'min', 'mean', 'median', 'any', 'all', 'amax', 'amin', 'prod',
                    'count_nonzero'):
            kind = {'amax': 'max', 'amin': 'min'}.get(base, base)
            if name.startswith('nan'):
                kind = 'nan' + kind
            if kind.replace('nan', '') in ('sum', 'mean', 'prod'):
                a, axis, d, _o, keep = self.argv(st, args, kw, ['a', 'axis', 'dtype', 'out', 'keepdims'])
                if self.dtype_name(st, d, 'f') != 'f':
                    return self.unk('call of numpy.%s with dtype' % name)
            elif kind in ('median', 'nanmedian'):
                a, axis, _o, _i, keep = self.argv(st, args, kw, ['a', 'axis', 'out', 'overwrite_input', 'keepdims'])
            elif kind == 'count_nonzero':
                a, axis = self.argv(st, args, kw, ['a', 'axis'])
                keep = kw.get('keepdims')
            else:
                a, axis, _o, keep = self.argv(st, args, kw, ['a', 'axis', 'out', 'keepdims'])
            if any(n in kw for n in ('initial',)):
                return self.unk('call of numpy.%s with initial' % name)
            return self.reduce(st, kind, a, axis, keep)
        if name in OPAQUE_PURE:
            return self.opaque_call(st, 'numpy.' + name, args, kw, pure=True)
        if name in ('random.default_rng', 'random.RandomState', 'random.SeedSequence', 'random.Generator',
                    'random.PCG64', 'random.MT19937', 'random.get_state'):
            return self.opaque_call(st, 'numpy.' + name, args, kw)
        if name == 'random.set_state':
            st.rng = self.reify(st, args[0]) if args else self.unk('random state')
            return self.opaque_call(st, 'numpy.' + name, args, kw)
        if name.startswith('random.'):
            t = self.draw(st, name[7:], args)
            return t
        if name.startswith('save') or name.startswith('fromfile'):
            return self.opaque_call(st, 'numpy.' + name, args, kw)
        self.opaque_call(st, 'numpy.' + name, args, kw)
        return self.unk('numpy.' + name)

    # ------------------------------------------------------------ random
    def draw(self, st, kind, args, sub=()):
        ts = tuple(self.single(st, a) if kind in ('uniform', 'normal', 'randint') else self.reify(st, a) for a in args if a is not None)
        n = self.next_draw(st, kind)
        if st.rng is not NONE:
            sub = tuple(sub) + (tm.mk('call', 'rngstream', st.rng),)
        st.log.append(Eff(st.guard(), 'rand', (const(kind),) + ts, {}, self.where(), res=n))
        return tm.mk('rand', kind, ts, (const(n),) + tuple(st.ctx) + tuple(sub))

    def next_draw(self, st, kind):
        def top(log):
            m = -1
            for e in log:
                if e.sub is not None:
                    m = max(m, top(e.sub))
                elif e.name == 'rand' and e.args[0].args[0] == kind:
                    m = max(m, e.res)
            return m
        return max(st.rb.get(kind, 0), top(st.log) + 1)

    def np_random_uniform(self, st, args, kw):
        lo, hi, size = self.argv(st, args, kw, ['low', 'high', 'size'])
        lo = ZERO if lo is None else lo
        hi = ONE if hi is None else hi
        if size is None or size is NONE:
            return self.scale01(self.single(st, lo), self.single(st, hi), self.draw(st, 'uniform', [ZERO, ONE]))
        r = self.draw_array(st, 'uniform', [ZERO, ONE], size)
        lo, hi = self.single(st, lo), self.single(st, hi)
        return self.elementwise(st, lambda u: self.scale01(lo, hi, u), [r], 'f')

    def scale01(self, lo, hi, u):
        return tm.add(lo, tm.mul(tm.sub(hi, lo), u))

    def draw_array(self, st, kind, args, size):
        dims = self.dims_of(st, size)
        if dims is None:
            return self.unk('random size')
        ts = [self.reify(st, a) for a in args]
        proto = self.draw(st, kind, args)
        kind_, a_, ctx = proto.args
        return self.new_arr(st, dims, lambda vs: tm.mk('rand', kind_, a_, ctx + tuple(vs)),
                            'i' if kind == 'randint' else 'f')

    def np_random_random(self, st, args, kw):
        size, = self.argv(st, args, kw, ['size'])
        if size is None or size is NONE:
            return self.draw(st, 'uniform', [ZERO, ONE])
        return self.draw_array(st, 'uniform', [ZERO, ONE], size)

    np_random_random_sample = np_random_random

    def np_random_rand(self, st, args, kw):
        if not args:
            return self.draw(st, 'uniform', [ZERO, ONE])
        return self.draw_array(st, 'uniform', [ZERO, ONE], VTup(args))

    def np_random_randint(self, st, args, kw):
        lo, hi, size = self.argv(st, args, kw, ['low', 'high', 'size'])
        if hi is None or hi is NONE:
            lo, hi = ZERO, lo
        if size is None or size is NONE:
            return self.draw(st, 'randint', [lo, hi])
        return self.draw_array(st, 'randint', [lo, hi], size)

    def np_random_choice(self, st, args, kw):
        a, size, repl, p = self.argv(st, args, kw, ['a', 'size', 'replace', 'p'])
        if size is None or size is NONE:
            if p is None:
                s = self.val_seq(st, a)
                i = self.draw(st, 'randint', [ZERO, tm.length(s)])
                return tm.sel(s, i) if tm.isseqkind(tm.kindof(s)) else self.draw(st, 'choice', [a])
            return self.draw(st, 'choice', [a, p])
        return self.draw(st, 'choice', [a, size] + ([p] if p is not None else []))

    GENERATORS = ('numpy.random.default_rng', 'numpy.random.RandomState', 'numpy.random.Generator')
    GENERATOR_METHODS = {'random': 'random', 'random_sample': 'random', 'rand': 'rand', 'uniform': 'uniform',
                         'randint': 'randint', 'integers': 'randint', 'choice': 'choice'}

    def generator_method(self, st, obj, name, args, kw):
        """a draw from a generator of its own"""
        seed = obj.args[1] if len(obj.args) > 1 and isinstance(obj.args[1], T) else NONE
        saved = st.rng
        # a seed that is drawn, or none at all, gives as random a stream as the global one
        st.rng = NONE if seed is NONE or any(x.op == 'rand' for x in tm.subterms(seed)) else seed
        try:
            return getattr(self, 'np_random_' + self.GENERATOR_METHODS[name])(st, args, kw)
        finally:
            st.rng = saved

    def np_random_seed(self, st, args, kw):
        seed = self.reify(st, args[0]) if args else NONE
        st.rng = NONE if seed is NONE or any(x.op == 'rand' for x in tm.subterms(seed)) else seed
        return self.opaque_call(st, 'numpy.random.seed', args, kw)

    # ------------------------------------------------------------ creation
    def dtype_name(self, st, d, default='f'):
        if d is None or d is NONE:
            return default
        n = d.name if isinstance(d, Ext) else (d.args[0] if isinstance(d, T) and tm.is_const(d) else None)
        if isinstance(n, str):
            n = n.split('.')[-1]
            if n in NARROW:
                return Narrow(NARROW[n])
            if n.startswith('int') or n.startswith('uint') or n in ('i', 'long'):
                return 'i'
            if n.startswith('bool') or n == '?':
                return 'b'
            if n.startswith('float') or n in ('f', 'd', 'double'):
                return 'f'
            if n in ('object', 'O'):
                return None
        return default

    def shape_arr(self, st, shape, val, dtype):
        dims = self.dims_of(st, shape)
        if dims is None:
            return self.unk('array shape')
        return self.new_arr(st, dims, lambda vs: val, dtype)

    def np_zeros(self, st, args, kw):
        s, d = self.argv(st, args, kw, ['shape', 'dtype'])
        return self.shape_arr(st, s, ZERO, self.dtype_name(st, d))

    def np_ones(self, st, args, kw):
        s, d = self.argv(st, args, kw, ['shape', 'dtype'])
        return self.shape_arr(st, s, ONE, self.dtype_name(st, d))

    def np_empty(self, st, args, kw):
        s, d = self.argv(st, args, kw, ['shape', 'dtype'])
        return self.shape_arr(st, s, self.unk('numpy.empty'), self.dtype_name(st, d))

    def np_full(self, st, args, kw):
        s, v, d = self.argv(st, args, kw, ['shape', 'fill_value', 'dtype'])
        t = self.single(st, v)
        dt = self.dtype_name(st, d, self.dtype_of(st, t))
        if d is not None and d is not NONE and (dt in ('i', 'b') or narrow(dt)):
            t = self.coerce(dt, t)
        return self.shape_arr(st, s, t, dt)

    def like(self, st, a, val, d):
        a = self.plain(st, a)
        dt = self.dtype_name(st, d, a.dtype)
        return self.new_arr(st, a.shape, lambda vs: val, dt)

    def np_zeros_like(self, st, args, kw):
        a, d = self.argv(st, args, kw, ['a', 'dtype'])
        return self.like(st, a, ZERO, d)

    def np_ones_like(self, st, args, kw):
        a, d = self.argv(st, args, kw, ['a', 'dtype'])
        return self.like(st, a, ONE, d)

    def np_empty_like(self, st, args, kw):
        a, d = self.argv(st, args, kw, ['a', 'dtype'])
        return self.like(st, a, self.unk('numpy.empty'), d)

    def np_full_like(self, st, args, kw):
        a, v, d = self.argv(st, args, kw, ['a', 'fill_value', 'dtype'])
        v = self.single(st, v)
        a2 = self.plain(st, a)
        dt = self.dtype_name(st, d, a2.dtype)
        if dt in ('i', 'b') or narrow(dt):
            v = self.coerce(dt, v)
        return self.like(st, a, v, d)

    def np_array(self, st, args, kw):
        a, d = self.argv(st, args, kw, ['object', 'dtype'])
        x = self.plain(st, a)
        if x.shape == () and not tm.isseqkind(tm.kindof(x.body)) and tm.kindof(x.body) == 'any' and \
                x.body.op not in ('sel', 'asel'):
            return tm.mk('opaque', 'numpy.array', x.body) if x.body.op != 'opaque' else x.body
        dt = self.dtype_name(st, d, x.dtype)
        body = self.coerce(dt, x.body) if d is not None and d is not NONE and (dt in ('i', 'b') or narrow(dt)) else x.body
        return self.alloc(st, ArrO(x.shape, x.vs, body, dt))

    def np_copy(self, st, args, kw):
        return self.np_array(st, args[:1], {})

    def np_asarray(self, st, args, kw):
        a, d = self.argv(st, args, kw, ['a', 'dtype'])
        if isinstance(a, Ref) and isinstance(st.heap[a.oid], (ArrO, ViewO)) and (
                d is None or self.dtype_name(st, d, None) in (None, st.heap[a.oid].dtype) and
                not narrow(self.dtype_name(st, d, None))):
            return a
        return self.np_array(st, args, kw)

    def np_ascontiguousarray(self, st, args, kw):
        r = self.np_asarray(st, args, kw)
        x = self.plain(st, r)
        return self.new_arr(st, [ONE], lambda vs: x.body, x.dtype) if x.shape == () else r

    def np_atleast_1d(self, st, args, kw):
        r = [self.np_ascontiguousarray(st, [a], kw) for a in args]
        return r[0] if len(r) == 1 else VTup(r)

    def np_arange(self, st, args, kw):
        lo, hi, step = self.argv(st, args, kw, ['start', 'stop', 'step'])
        if hi is None:
            lo, hi = ZERO, lo
        lo, hi = self.single(st, lo), self.single(st, hi)
        step = ONE if step is None or step is NONE else self.single(st, step)
        d = tm.sub(hi, lo)
        if step is not ONE:
            d = tm.div(d, step)
        n = tm.fn1('ceil', d)
        if not tm.nonneg(n):
            n = tm.maxmin('max', [ZERO, n])
        dt = 'i' if tm.is_int(lo) and tm.is_int(step) else 'f'
        return self.new_arr(st, [n], lambda vs: tm.add(lo, tm.mul(step, vs[0])), dt)

    def np_linspace(self, st, args, kw):
        lo, hi, n, ep = self.argv(st, args, kw, ['start', 'stop', 'num', 'endpoint'])
        n = const(50) if n is None else self.single(st, n)
        if any(self.plain(st, x).shape != () for x in (lo, hi)):
            zero = self.elementwise(st, lambda x, y: tm.sub(y, x), [lo, hi], 'f')
            d, a = self.plain(st, zero), self.plain(st, self.elementwise(st, lambda x, y: x, [lo, hi], 'f'))
            cuts = n if ep is FALSE else tm.sub(n, ONE)
            return self.new_arr(st, [n] + list(d.shape), lambda vs: tm.add(a.at(vs[1:]), tm.ite(
                tm.eq(cuts, ZERO), ZERO, tm.mul(vs[0], tm.div(d.at(vs[1:]), cuts)))), 'f')
        lo, hi = self.single(st, lo), self.single(st, hi)
        if ep is FALSE:
            step = tm.div(tm.sub(hi, lo), n)
        else:
            step = tm.ite(tm.eq(n, ONE), ZERO, tm.div(tm.sub(hi, lo), tm.sub(n, ONE)))
        return self.new_arr(st, [n], lambda vs: tm.add(lo, tm.mul(vs[0], step)), 'f')

    def np_meshgrid(self, st, args, kw):
        xs = [self.plain(st, a) for a in args]
        ind = kw.get('indexing')
        if len(xs) != 2:
            return self.unk('meshgrid')
        x, y = [self.ravel_arr(a) for a in xs]
        if ind is not None and ind is const('ij'):
            sh = [x.shape[0], y.shape[0]]
            return self.new_list(st, items=[self.new_arr(st, sh, lambda v: x.at((v[0],)), x.dtype),
                                            self.new_arr(st, sh, lambda v: y.at((v[1],)), y.dtype)])
        sh = [y.shape[0], x.shape[0]]
        return self.new_list(st, items=[self.new_arr(st, sh, lambda v: x.at((v[1],)), x.dtype),
                                        self.new_arr(st, sh, lambda v: y.at((v[0],)), y.dtype)])

    def np_tile(self, st, args, kw):
        a, reps = self.argv(st, args, kw, ['A', 'reps'])
        a = self.plain(st, a)
        reps = self.dims_of(st, reps)
        if reps is None:
            return self.unk('tile')
        r = max(len(reps), len(a.shape))
        reps = [ONE] * (r - len(reps)) + reps
        ash = (ONE,) * (r - len(a.shape)) + a.shape
        off = r - len(a.shape)
        dims = [tm.mul(d, q) for d, q in zip(ash, reps)]

        def fn(vs):
            idx = []
            for j in range(off, r):
                v = vs[j]
                idx.append(v if reps[j] is ONE else (ZERO if ash[j] is ONE else tm.mod(v, ash[j])))
            return a.at(idx)
        return self.new_arr(st, dims, fn, a.dtype)

    def np_repeat(self, st, args, kw):
        a, reps, axis = self.argv(st, args, kw, ['a', 'repeats', 'axis'])
        a = self.plain(st, a)
        n = self.reify(st, reps)
        if tm.isseqkind(tm.kindof(n)) or n.op == 'arr':
            return self.opaque_call(st, 'numpy.repeat', args, kw, pure=True)
        if axis is None or axis is NONE:
            a = self.ravel_arr(a)
            ax = 0
        else:
            ax = self.axis(a, axis)
            if ax is None:
                return self.unk('repeat axis')
        dims = list(a.shape)
        dims[ax] = tm.mul(dims[ax], n)

        def fn(vs):
            idx = list(vs)
            idx[ax] = tm.floordiv(vs[ax], n) if a.shape[ax] is not ONE else ZERO
            return a.at(idx)
        return self.new_arr(st, dims, fn, a.dtype)

    # ------------------------------------------------------------ shape
    def axis(self, a, axis):
        if isinstance(axis, T) and tm.is_num_const(axis):
            k = axis.args[0]
            if isinstance(k, int) and -len(a.shape) <= k < len(a.shape):
                return k % len(a.shape)
        return None

    def np_shape(self, st, args, kw):
        a = self.plain(st, args[0])
        return VTup(a.shape)

    def np_size(self, st, args, kw):
        a, axis = self.argv(st, args, kw, ['a', 'axis'])
        x = self.plain(st, a)
        if axis is None or axis is NONE:
            return self.prod(x.shape)
        k = self.axis(x, axis)
        return x.shape[k] if k is not None else self.unk('call of numpy.size with an axis')

    def np_ndim(self, st, args, kw):
        return const(len(self.plain(st, args[0]).shape))

    def np_ravel(self, st, args, kw):
        # read-only use: the result is a fresh array (a store into it would not be seen through the base)
        a, order = self.argv(st, args, kw, ['a', 'order'])
        return self.alloc(st, self.ravel_arr(self.ordered(st, self.plain(st, a), order)))

    def ordered(self, st, x, order):
        """the array whose row-major order is the requested order of x"""
        if order is None or order is NONE or order is const('C'):
            return x
        if order is not const('F'):
            self.unk('call of a numpy function with order')
        return ArrO(tuple(reversed(x.shape)), tuple(reversed(x.vs)), x.body, x.dtype)

    def np_reshape(self, st, args, kw):
        a, shp, order = self.argv(st, args, kw, ['a', 'newshape', 'order'])
        dims = self.dims_of(st, shp if shp is not None else kw.get('shape'))
        if dims is None:
            return self.unk('reshape')
        a = self.plain(st, a)
        if order is None or order is NONE or order is const('C'):
            return self.alloc(st, self.reshape_arr(st, a, dims))
        r = self.reshape_arr(st, self.ordered(st, a, order), list(reversed(dims)))
        return self.alloc(st, self.ordered(st, r, order))

    def np_transpose(self, st, args, kw):
        a = args[0]
        if not self.is_arr(st, a):
            a = self.np_array(st, [a], {})
        if len(args) > 1:
            p = self.dims_of(st, args[1])
            if p is None or not all(tm.is_num_const(x) for x in p):
                return self.unk('transpose')
            x = self.plain(st, a)
            p = [q.args[0] for q in p]
            return self.alloc(st, ArrO([x.shape[i] for i in p], [x.vs[i] for i in p], x.body, x.dtype))
        return self.obj_attr(st, a, st.heap[a.oid], 'T')

    def np_squeeze(self, st, args, kw):
        a = self.plain(st, args[0])
        keep = [i for i, d in enumerate(a.shape) if d is not ONE]
        body = tm.subst(a.body, {v: ZERO for v, d in zip(a.vs, a.shape) if d is ONE})
        return self.scalar_or_ref(st, ArrO([a.shape[i] for i in keep], [a.vs[i] for i in keep], body, a.dtype))

    def np_expand_dims(self, st, args, kw):
        a, axis = self.argv(st, args, kw, ['a', 'axis'])
        x = self.plain(st, a)
        k = axis.args[0] if isinstance(axis, T) and tm.is_num_const(axis) else None
        if k is None:
            return self.unk('expand_dims')
        if k < 0:
            k += len(x.shape) + 1
        return self.alloc(st, ArrO(x.shape[:k] + (ONE,) + x.shape[k:], x.vs[:k] + (tm.bv(),) + x.vs[k:],
                                   x.body, x.dtype))

    def flip_axes(self, st, a, axes):
        v = self.resolve(st, a)
        if isinstance(v, T) and v.op in ('opaque', 'mcall') and list(axes) == [0]:
            return self.getitem(st, v, SliceV(None, None, const(-1)))
        x = self.plain(st, a)
        m = {x.vs[k]: tm.sub(tm.sub(x.shape[k], ONE), x.vs[k]) for k in axes}
        return self.alloc(st, ArrO(x.shape, x.vs, tm.subst(x.body, m), x.dtype))

    def np_flipud(self, st, args, kw):
        return self.flip_axes(st, args[0], [0])

    def np_fliplr(self, st, args, kw):
        return self.flip_axes(st, args[0], [1])

    def np_flip(self, st, args, kw):
        a, axis = self.argv(st, args, kw, ['m', 'axis'])
        x = self.plain(st, a)
        if axis is None or axis is NONE:
            return self.flip_axes(st, a, range(len(x.shape)))
        k = self.axis(x, axis)
        return self.flip_axes(st, a, [k]) if k is not None else self.unk('flip')

    def np_ix_(self, st, args, kw):
        out = []
        r = len(args)
        for j, v in enumerate(args):
            if self.is_boolarr(st, v):
                a = self.plain(st, v)
                t = tm.fmapseq(a.shape[0], a.vs[0], tm.truth(a.body), a.vs[0])
                w = tm.bv()
                a = ArrO((tm.length(t),), (w,), tm.sel(t, w), 'i')
            else:
                a = self.plain(st, v)
            if len(a.shape) != 1:
                return self.unk('ix_')
            vs = [tm.bv() for _ in range(r)]
            vs[j] = a.vs[0]
            out.append(self.alloc(st, ArrO([a.shape[0] if i == j else ONE for i in range(r)], vs, a.body, 'i')))
        return VTup(out)

    def np_pad(self, st, args, kw):
        a, w, mode = self.argv(st, args, kw, ['array', 'pad_width', 'mode'])
        a = self.plain(st, a)
        m = mode.args[0] if isinstance(mode, T) and tm.is_const(mode) else ('constant' if mode is None else None)
        wt = self.plain(st, w)
        r = len(a.shape)
        if m not in ('edge', 'constant', 'reflect') or m == 'reflect':
            return self.opaque_call(st, 'numpy.pad', args, kw, pure=True)
        los, his = [], []
        for j in range(r):
            if wt.shape == ():
                los.append(wt.body)
                his.append(wt.body)
            elif len(wt.shape) == 2:
                q = ZERO if wt.shape[0] is ONE else const(j)
                los.append(wt.at((q, ZERO)))
                his.append(wt.at((q, ONE)))
            else:
                los.append(wt.at((ZERO,)))
                his.append(wt.at((ONE,)) if wt.shape[0] is not ONE else wt.at((ZERO,)))
        cv = kw.get('constant_values')
        if cv is not None:
            cv = self.resolve(st, cv)
            if not isinstance(cv, T) or tm.isseqkind(tm.kindof(cv)):
                it = self.items_of(st, cv)
                if it is None or len(set(it)) != 1:
                    return self.opaque_call(st, 'numpy.pad', args, kw, pure=True)
                cv = it[0]
        else:
            cv = ZERO
        dims = [tm.add(lo, d, hi) for lo, d, hi in zip(los, a.shape, his)]

        def fn(vs):
            if m == 'edge':
                return a.at([tm.maxmin('max', [ZERO, tm.maxmin('min', [tm.sub(v, lo), tm.sub(d, ONE)])])
                             for v, lo, d in zip(vs, los, a.shape)])
            c = tm.and_(*[tm.and_(tm.le(lo, v), tm.lt(v, tm.add(lo, d))) for v, lo, d in
                          zip(vs, los, a.shape)])
            return tm.ite(c, a.at([tm.sub(v, lo) for v, lo in zip(vs, los)]), self.single(st, cv))
        return self.new_arr(st, dims, fn, a.dtype)

    def np_append(self, st, args, kw):
        a, b, axis = self.argv(st, args, kw, ['arr', 'values', 'axis'])
        if axis is None or axis is NONE:
            a, b = [self.ravel_arr(self.plain(st, x)) for x in (a, b)]
            return self.cat(st, [a, b], 0)
        return self.np_concatenate(st, [VTup([a, b]), axis], {})

    def cat(self, st, ars, ax):
        ars = [a for a in ars if a.shape[ax] is not ZERO] or ars[:1]
        if len(ars) == 1:
            return self.alloc(st, ars[0])
        dims = list(ars[0].shape)
        dims[ax] = tm.add(*[a.shape[ax] for a in ars])
        if len(ars[0].shape) == 1:
            t = tm.concat(*[tm.mapseq(a.shape[0], a.vs[0], a.body) for a in ars])
            v = tm.bv()
            return self.alloc(st, ArrO(dims, (v,), tm.sel(t, v), self.cat_dt(ars)))
        vs = tuple(tm.bv() for _ in dims)

        def rec(i, off):
            idx = list(vs)
            idx[ax] = tm.sub(vs[ax], off)
            e = ars[i].at(idx)
            if i == len(ars) - 1:
                return e
            end = tm.add(off, ars[i].shape[ax])
            return tm.ite(tm.lt(vs[ax], end), e, rec(i + 1, end))
        return self.alloc(st, ArrO(dims, vs, rec(0, ZERO), self.cat_dt(ars)))

    def cat_dt(self, ars):
        ds = set(a.dtype for a in ars)
        return ds.pop() if len(ds) == 1 else ('f' if ds <= {'f', 'i'} else None)

    def np_concatenate(self, st, args, kw):
        xs, axis = self.argv(st, args, kw, ['arrays', 'axis'])
        it = self.items_of(st, xs)
        if it is None and (axis is None or axis is ZERO) and (
                isinstance(xs, T) and xs.op == 'arr' or isinstance(xs, Ref) and isinstance(st.heap[xs.oid], (ArrO, ViewO))):
            a = self.plain(st, xs)
            if len(a.shape) >= 2:
                if len(a.shape) == 2:
                    return self.alloc(st, self.ravel_arr(a))
                v = tm.bv()
                vs = [tm.bv() for _ in a.shape[2:]]
                return self.alloc(st, ArrO((tm.mul(a.shape[0], a.shape[1]),) + tuple(a.shape[2:]), (v,) + tuple(vs), a.at(
                    [tm.floordiv(v, a.shape[1]), tm.mod(v, a.shape[1])] + vs), a.dtype))
        if it is None:
            t = self.val_seq(st, xs)
            e = tm.kindof(t)
            v = tm.bv()
            if tm.isseqkind(e) and tm.isseqkind(e[1]):
                s = tm.mk('flatmap', tm.length(t), v, tm.sel(t, v))
                return self.np_array(st, [s], {})
            return self.opaque_call(st, 'numpy.concatenate', args, kw, pure=True)
        ars = [self.plain(st, x) for x in it]
        if any(a.shape == () for a in ars):
            return self.opaque_call(st, 'numpy.concatenate', args, kw, pure=True)
        ax = 0 if axis is None else self.axis(ars[0], axis)
        if ax is None:
            return self.unk('concatenate')
        return self.cat(st, ars, ax)

    def np_hstack(self, st, args, kw):
        it = self.items_of(st, args[0])
        if it is None:
            return self.unk('hstack')
        r = max(len(self.plain(st, x).shape) for x in it)
        return self.np_concatenate(st, [args[0], const(1 if r > 1 else 0)], {})

    def np_vstack(self, st, args, kw):
        it = self.items_of(st, args[0])
        if it is None:
            return self.unk('vstack')
        ars = [self.plain(st, x) for x in it]
        ars = [ArrO((ONE,) + a.shape, (tm.bv(),) + a.vs, a.body, a.dtype) if len(a.shape) == 1 else a for a in ars]
        if any(not a.shape for a in ars):
            return self.unk('call of numpy.vstack of numbers')
        return self.cat(st, ars, 0)

    def np_dstack(self, st, args, kw):
        it = self.items_of(st, args[0])
        if it is None:
            return self.unk('dstack')
        ars = [self.plain(st, x) for x in it]
        ars = [ArrO(a.shape + (ONE,), a.vs + (tm.bv(),), a.body, a.dtype) if len(a.shape) == 2 else a for a in ars]
        if any(len(a.shape) != 3 for a in ars):
            return self.unk('dstack')
        return self.cat(st, ars, 2)

    def np_column_stack(self, st, args, kw):
        it = self.items_of(st, args[0])
        if it is None:
            return self.unk('column_stack')
        ars = [self.plain(st, x) for x in it]
        ars = [ArrO(a.shape + (ONE,), a.vs + (tm.bv(),), a.body, a.dtype) if len(a.shape) == 1 else a for a in ars]
        if any(len(a.shape) != 2 for a in ars):
            return self.unk('column_stack')
        return self.cat(st, ars, 1)

    def np_stack(self, st, args, kw):
        it = self.items_of(st, args[0])
        if it is None:
            if len(args) > 1 or kw:
                return self.unk('call of numpy.stack with an axis')
            return self.np_array(st, args[:1], {})
        axis = kw.get('axis', args[1] if len(args) > 1 else ZERO)
        r = self.np_array(st, [self.new_list(st, items=it)], {})
        a = self.plain(st, r)
        k = axis.args[0] if isinstance(axis, T) and tm.is_num_const(axis) else None
        if k == 0:
            return r
        if k is None:
            return self.unk('stack')
        k = k % len(a.shape)
        order = list(range(1, len(a.shape)))
        order.insert(k, 0)
        return self.alloc(st, ArrO([a.shape[i] for i in order], [a.vs[i] for i in order], a.body, a.dtype))

    # ------------------------------------------------------------ selection
    def np_where(self, st, args, kw):
        c = args[0]
        if len(args) == 3:
            return self.elementwise(st, lambda p, x, y: tm.ite(tm.truth(p), x, y), list(args),
                                    self.op_dtype(st, 'add', args[1], args[2]))
        return self.np_nonzero(st, args, kw)

    def np_nonzero(self, st, args, kw):
        a = self.plain(st, args[0])
        return VTup([self.alloc(st, ArrO(a.shape, a.vs, v, 'i', tm.truth(a.body))) for v in a.vs])

    def np_flatnonzero(self, st, args, kw):
        a = self.ravel_arr(self.plain(st, args[0]))
        return self.alloc(st, ArrO(a.shape, a.vs, a.vs[0], 'i', tm.truth(a.body)))

    def np_take(self, st, args, kw):
        a, i, axis = self.argv(st, args, kw, ['a', 'indices', 'axis'])
        if axis is not None and axis is not NONE:
            return self.unk('take axis')
        if not isinstance(i, T) or tm.isseqkind(tm.kindof(i)):
            i = self.np_array(st, [i], {})
        return self.arr_getitem(st, self.alloc(st, self.ravel_arr(self.plain(st, a))), i)

    def np_nan_to_num(self, st, args, kw):
        nan = kw.get('nan', args[2] if len(args) > 2 else ZERO)
        return self.elementwise(st, lambda x: tm.ite(tm.isnan(x), self.single(st, nan), x), [args[0]], 'f')

    def np_clip(self, st, args, kw):
        a, lo, hi = self.argv(st, args, kw, ['a', 'a_min', 'a_max'])
        lo = NONE if lo is None else lo
        hi = NONE if hi is None else hi

        def f(x, l, h):
            if l is not NONE:
                x = tm.maxmin('max', [x, l])
            if h is not NONE:
                x = tm.maxmin('min', [x, h])
            return x
        return self.elementwise(st, f, [a, lo, hi], self.dtype_of(st, a))

    def np_select(self, st, args, kw):
        c, v, d = self.argv(st, args, kw, ['condlist', 'choicelist', 'default'])
        ci, vi = self.items_of(st, c), self.items_of(st, v)
        if ci is None or vi is None:
            return self.unk('select')
        r = d if d is not None else ZERO
        for x, y in reversed(list(zip(ci, vi))):
            r = self.np_where(st, [x, y, r], {})
        return r

    # ------------------------------------------------------------ reductions
    def reduce(self, st, kind, a, axis, keep=None):
        if isinstance(a, T) and not tm.isseqkind(tm.kindof(a)) and a.op != 'arr' and tm.kindof(a) == 'any':
            return tm.mk('opaque', 'numpy.' + kind, a) if axis is None or axis is NONE else \
                tm.mk('opaque', 'numpy.' + kind, a, self.reify(st, axis))
        x = self.arr(st, a)
        if x.mask is not None:
            if axis is not None and axis is not NONE and len(x.shape) > 1:
                x = self.compressed(x)
        if axis is None or axis is NONE:
            r = self.reduce_all(st, kind, x)
            if keep is not None and keep is not FALSE and keep is not NONE:
                return self.new_arr(st, [ONE] * len(x.shape), lambda vs: r, 'f')
            return r
        if x.mask is not None:
            x = self.compressed(x)
        axes = None
        it = self.items_of(st, axis)
        if it is not None:
            axes = [self.axis(x, q) for q in it]
        else:
            axes = [self.axis(x, axis)]
        if None in axes:
            return self.unk('reduction axis')
        body = x.body
        if kind in ('mean', 'median', 'nanmean', 'nanmedian', 'nanmax', 'nanmin') and len(axes) > 1:
            return self.unk('reduction over several axes')
        if kind == 'count_nonzero':
            body, kind = tm.ite(tm.truth(body), ONE, ZERO), 'sum'
        for q in sorted(axes, reverse=True):
            body = self.red1(kind, x.shape[q], x.vs[q], body)
        if keep is not None and keep is not FALSE and keep is not NONE:
            return self.new_arr(st, [ONE if j in axes else d for j, d in enumerate(x.shape)], lambda vs: tm.subst(
                body, {x.vs[j]: v for j, v in enumerate(vs) if j not in axes}), x.dtype)
        rest = [j for j in range(len(x.shape)) if j not in axes]
        dt = 'b' if kind in ('any', 'all') else ('f' if kind in ('mean', 'median') else x.dtype)
        return self.scalar_or_ref(st, ArrO([x.shape[j] for j in rest], [x.vs[j] for j in rest], body, dt))

    def red1(self, kind, n, v, body):
        if kind in ('any', 'all'):
            return tm.red(kind, n, v, tm.truth(body))
        if kind == 'nansum':
            return tm.red('sum', n, v, tm.ite(tm.isnan(body), ZERO, body))
        if kind == 'sum':
            return tm.red('sum', n, v, self.num(body))
        if kind == 'mean':
            return tm.div(tm.red('sum', n, v, self.num(body)), n)
        if kind.startswith('nan') and tm.isnan(body) is FALSE:
            return self.red1(kind[3:], n, v, body)
        return tm.red(kind, n, v, body)

    def reduce_all(self, st, kind, x):
        body = x.body
        if x.shape == ():
            if kind == 'count_nonzero':
                return tm.ite(tm.truth(body), ONE, ZERO)
            if kind == 'nansum':
                return tm.ite(tm.isnan(body), ZERO, body)
            return tm.truth(body) if kind in ('any', 'all') else body
        if kind == 'count_nonzero':
            body, kind = tm.ite(tm.truth(body), ONE, ZERO), 'sum'
        if kind == 'nansum':
            body, kind = tm.ite(tm.isnan(body), ZERO, body), 'sum'
        if kind in ('sum', 'any', 'all'):
            if kind != 'sum':
                body = tm.truth(body)
            else:
                body = self.num(body)
            if x.mask is not None:
                body = {'sum': lambda: tm.ite(x.mask, body, ZERO), 'any': lambda: tm.and_(x.mask, body),
                        'all': lambda: tm.or_(tm.not_(x.mask), body)}[kind]()
            for n, v in reversed(list(zip(x.shape, x.vs))):
                body = tm.red(kind, n, v, body)
            return body
        if kind == 'mean':
            s = self.reduce_all(st, 'sum', x)
            n = self.prod(x.shape)
            if x.mask is not None:
                n = self.reduce_all(st, 'sum', ArrO(x.shape, x.vs, ONE, 'i', x.mask))
            return tm.div(s, n)
        if x.mask is not None:
            x = self.compressed(x)
            return self.red1(kind, x.shape[0], x.vs[0], x.body)
        if kind in ('max', 'min') or (kind in ('nanmax', 'nanmin') and tm.isnan(body) is FALSE):
            kind = kind[-3:]
            for n, v in reversed(list(zip(x.shape, x.vs))):
                body = tm.red(kind, n, v, body)
            return body
        f = self.ravel_arr(x)
        return self.red1(kind, f.shape[0], f.vs[0], f.body)

    def np_cumsum(self, st, args, kw):
        a, axis = self.argv(st, args, kw, ['a', 'axis'])
        x = self.plain(st, a)
        if axis is None or axis is NONE:
            x = self.ravel_arr(x)
            ax = 0
        else:
            ax = self.axis(x, axis)
            if ax is None:
                return self.unk('cumsum')
        w = tm.bv()
        body = tm.subst(x.body, {x.vs[ax]: w})
        return self.new_arr(st, x.shape, lambda vs: tm.red('sum', tm.add(vs[ax], ONE), w, tm.subst(
            body, {o: v for j, (o, v) in enumerate(zip(x.vs, vs)) if j != ax})), x.dtype)

    def seq_of_arr(self, st, a):
        x = self.ravel_arr(self.plain(st, a))
        return tm.mapseq(x.shape[0], x.vs[0], x.body)

    def np_searchsorted(self, st, args, kw):
        a, v, side = self.argv(st, args, kw, ['a', 'v', 'side'])
        s = self.seq_of_arr(st, a)
        extra = () if side is None or side is const('left') else (self.reify(st, side),)
        return self.elementwise(st, lambda x: tm.mk('call', 'searchsorted', s, x, *extra), [v], 'i')

    def np_gradient(self, st, args, kw):
        a = self.plain(st, args[0])
        h = args[1] if len(args) > 1 else ONE
        order = kw.get('edge_order', ONE)
        if len(a.shape) != 1 or set(kw) - {'edge_order'} or order not in (ONE, tm.const(2)) or len(args) > 2 or not isinstance(h, T) or tm.isseqkind(tm.kindof(h)) or h.op == 'arr':
            return self.opaque_call(st, 'numpy.gradient', args, kw, pure=True)
        n = a.shape[0]
        last = tm.sub(n, ONE)
        v = tm.bv()
        lo, hi = tm.maxmin('max', [ZERO, tm.sub(v, ONE)]), tm.maxmin('min', [last, tm.add(v, ONE)])
        t = tm.div(tm.sub(a.at([hi]), a.at([lo])), tm.mul(tm.sub(hi, lo), h))
        if order is not ONE:
            def edge(*ix):
                return tm.div(tm.add(tm.mul(const(Fraction(-3, 2)), a.at([ix[0]])), tm.mul(const(2), a.at([ix[1]])),
                                     tm.mul(const(Fraction(-1, 2)), a.at([ix[2]]))), h)
            t = tm.ite(tm.eq(v, ZERO), edge(ZERO, ONE, const(2)), tm.ite(tm.eq(v, last), tm.neg(edge(
                last, tm.sub(last, ONE), tm.sub(last, const(2)))), t))
        return self.alloc(st, ArrO((n,), (v,), t, 'f'))

    def arg(self, st, args, kw, kind):
        a, axis = self.argv(st, args, kw, ['a', 'axis'])
        x = self.plain(st, a)
        if axis is not None and axis is not NONE and len(x.shape) > 1:
            ax = self.axis(x, axis)
            if ax is None:
                return self.unk(kind)
            w = tm.bv()
            s = tm.mapseq(x.shape[ax], w, tm.subst(x.body, {x.vs[ax]: w}))
            rest = [j for j in range(len(x.shape)) if j != ax]
            return self.alloc(st, ArrO([x.shape[j] for j in rest], [x.vs[j] for j in rest],
                                       tm.mk('call', kind, s), 'i'))
        return tm.mk('call', kind, self.seq_of_arr(st, a))

    def np_argmin(self, st, args, kw):
        return self.arg(st, args, kw, 'argmin')

    def np_argmax(self, st, args, kw):
        return self.arg(st, args, kw, 'argmax')

    def seqarr(self, st, t, dt=None):
        v = tm.bv()
        return self.alloc(st, ArrO((tm.length(t),), (v,), tm.sel(t, v), dt))

    def np_sort(self, st, args, kw):
        x = self.plain(st, args[0])
        axis = args[1] if len(args) > 1 else kw.get('axis')
        if axis is NONE:
            x = self.ravel_arr(x)
        if len(x.shape) != 1:
            return self.opaque_call(st, 'numpy.sort', args, kw, pure=True)
        v = tm.bv()
        t = tm.mk('call', 'sorted', self.seq_of_arr(st, args[0]))
        return self.alloc(st, ArrO(x.shape, (v,), tm.sel(t, v), x.dtype))

    def np_argsort(self, st, args, kw):
        x = self.plain(st, args[0])
        axis = args[1] if len(args) > 1 else kw.get('axis')
        if axis is NONE:
            x = self.ravel_arr(x)
        if len(x.shape) != 1:
            return self.opaque_call(st, 'numpy.argsort', args, kw, pure=True)
        v = tm.bv()
        t = tm.mk('call', 'argsort', self.seq_of_arr(st, args[0]))
        return self.alloc(st, ArrO(x.shape, (v,), tm.sel(t, v), 'i'))

    def np_unique(self, st, args, kw):
        if kw or len(args) > 1:
            return self.opaque_call(st, 'numpy.unique', args, kw, pure=True)
        return self.seqarr(st, tm.mk('call', 'unique', self.seq_of_arr(st, args[0])))

    def np_add_at(self, st, args, kw):
        a, idx, v = args
        o = st.heap[a.oid] if isinstance(a, Ref) else None
        if o is None:
            self.unk('add.at')
            return NONE
        sel = self.selection(st, o.shape, idx)
        va = self.plain(st, v)
        fs = [] if sel is None else [s for s in sel if s[0] == 'f']
        if sel is None or not fs or len(self.broadcast([f[1].shape for f in fs])) != 1 or \
                any(s[0] not in 'fi' for s in sel):
            self.arr_havoc(st, a, 'add.at')
            return NONE
        n = self.broadcast([f[1].shape for f in fs])
        k = tm.bv()

        def cv(ws):
            cs = []
            for b, s in zip(ws, sel):
                cs.append(tm.eq(self.b_at(s[1], n, (k,)) if s[0] == 'f' else s[1], b))
            inc = self.b_at(va, n, (k,))
            old = st.heap[a.oid]
            old = self.arr(st, a).at(ws)
            return TRUE, tm.add(old, tm.red('sum', n[0], k, tm.ite(tm.and_(*cs), inc, ZERO)))
        self.arr_store(st, a, cv)
        return NONE

    def np_copyto(self, st, args, kw):
        dst, src, _c, wh = self.argv(st, args, kw, ['dst', 'src', 'casting', 'where'])
        if wh is None or wh is TRUE:
            self.arr_fill(st, dst, src)
        else:
            self.arr_setitem(st, dst, wh, src)
        return NONE

    def np_errstate(self, st, args, kw):
        return NONE

    np_set_printoptions = np_errstate

    def np_seterr(self, st, args, kw):
        self.log(st, 'numpy.seterr', args, kw)
        return NONE

    def np_divmod(self, st, args, kw):
        return VTup([self.elementwise(st, tm.floordiv, args[:2], self.op_dtype(st, 'add', *args[:2])),
                     self.elementwise(st, tm.mod, args[:2], self.op_dtype(st, 'add', *args[:2]))])

    def np_logical_and(self, st, args, kw):
        return self.elementwise(st, lambda x, y: tm.and_(tm.truth(x), tm.truth(y)), args[:2], 'b')

    def np_logical_or(self, st, args, kw):
        return self.elementwise(st, lambda x, y: tm.or_(tm.truth(x), tm.truth(y)), args[:2], 'b')

    # ------------------------------------------------------------ compound operations
    def np_round(self, st, args, kw):
        a, d = self.argv(st, args, kw, ['a', 'decimals'])
        if d is None or d is ZERO:
            return self.elementwise(st, _round, [a], 'f')
        if not (isinstance(d, T) and tm.is_num_const(d) and tm.is_int(d)):
            return self.opaque_call(st, 'numpy.round', args, kw, pure=True)
        return self.elementwise(st, lambda x: _decimals(x, d.args[0]), [a], 'f')

    np_around = np_round

    def np_diff(self, st, args, kw):
        a, n, axis = self.argv(st, args, kw, ['a', 'n', 'axis'])
        x = self.plain(st, a)
        ax = len(x.shape) - 1 if axis is None else self.axis(x, axis)
        if n not in (None, ONE) or ax is None or not x.shape or set(kw) - {'n', 'axis'}:
            return self.opaque_call(st, 'numpy.diff', args, kw, pure=True)
        dims = list(x.shape)
        d = tm.sub(dims[ax], ONE)
        dims[ax] = d if tm.nonneg(d) else tm.maxmin('max', [ZERO, d])

        def fn(vs):
            up = list(vs)
            up[ax] = tm.add(vs[ax], ONE)
            if x.dtype == 'b':
                return tm.not_(tm.eq(tm.truth(x.at(up)), tm.truth(x.at(vs))))
            return tm.sub(x.at(up), x.at(vs))
        return self.new_arr(st, dims, fn, x.dtype)

    def np_indices(self, st, args, kw):
        dims = self.dims_of(st, args[0])
        if dims is None or kw or len(args) > 1:
            return self.opaque_call(st, 'numpy.indices', args, kw, pure=True)
        return self.np_stack(st, [self.new_list(st, items=[self.new_arr(
            st, dims, lambda vs, j=j: vs[j], 'i') for j in range(len(dims))])], {})

    def np_ndindex(self, st, args, kw):
        dims = self.dims_of(st, args[0]) if len(args) == 1 and not (isinstance(args[0], T) and tm.is_int(args[0])) else [
            self.reify(st, a) for a in args]
        if not dims or len(dims) > 2:
            return self.unk('numpy.ndindex')
        i, j = tm.bv(), tm.bv()
        if len(dims) == 1:
            return self.new_list(st, seq=tm.mapseq(dims[0], i, tm.mk('tup', i)))
        return self.new_list(st, seq=tm.mk('flatmap', dims[0], i, tm.mapseq(dims[1], j, tm.mk('tup', i, j))))

    def np_ndenumerate(self, st, args, kw):
        a = self.plain(st, args[0])
        i, j = tm.bv(), tm.bv()
        if len(a.shape) == 1:
            return self.new_list(st, seq=tm.mapseq(a.shape[0], i, tm.mk('tup', tm.mk('tup', i), a.at([i]))))
        if len(a.shape) != 2:
            return self.unk('numpy.ndenumerate')
        return self.new_list(st, seq=tm.mk('flatmap', a.shape[0], i, tm.mapseq(a.shape[1], j, tm.mk(
            'tup', tm.mk('tup', i, j), a.at([i, j])))))

    def np_nditer(self, st, args, kw):
        if kw or len(args) > 1:
            return self.unk('numpy.nditer')
        return self.np_ravel(st, args, {})

    def np_maximum_reduce(self, st, args, kw, kind='max'):
        a, axis = self.argv(st, args, kw, ['array', 'axis'])
        return self.reduce(st, kind, self.np_array(st, [a], {}), ZERO if axis is None else axis)

    def np_minimum_reduce(self, st, args, kw):
        return self.np_maximum_reduce(st, args, kw, 'min')

    def np_add_reduce(self, st, args, kw):
        return self.np_maximum_reduce(st, args, kw, 'sum')

    def np_isscalar(self, st, args, kw):
        v = self.resolve(st, args[0])
        if isinstance(v, T) and not tm.isseqkind(tm.kindof(v)) and v.op != 'arr' and (
                tm.kindof(v) != 'any' or tm.is_const(v)):
            return const(v is not NONE)
        if isinstance(v, (Ref, VTup)):
            return FALSE
        return self.unk('numpy.isscalar')

    def np_nanargmin(self, st, args, kw, kind='argmin'):
        x = self.plain(st, args[0])
        if len(args) > 1 or kw or tm.isnan(x.body) is not FALSE:
            return self.unk('numpy.nan' + kind)
        return self.arg(st, args, kw, kind)

    def np_nanargmax(self, st, args, kw):
        return self.np_nanargmin(st, args, kw, 'argmax')

    def np_identity(self, st, args, kw):
        n = self.reify(st, args[0])
        return self.new_arr(st, [n, n], lambda vs: tm.ite(tm.eq(vs[0], vs[1]), ONE, ZERO), 'f')

    def np_eye(self, st, args, kw):
        return self.np_identity(st, args, kw) if len(args) == 1 and not kw else self.opaque_call(
            st, 'numpy.eye', args, kw, pure=True)

    def np_argwhere(self, st, args, kw):
        if self.plain(st, args[0]).shape == ():
            return self.unk('call of numpy.argwhere of a number')
        p = self.np_nonzero(st, args[:1], {}).items
        cols = [self.plain(st, x) for x in p]
        return self.np_column_stack(st, [VTup([self.alloc(st, self.compressed(x)) if x.mask is not None else self.alloc(
            st, x) for x in cols])], {})

    def np_fromiter(self, st, args, kw):
        it, d = self.argv(st, args, kw, ['iter', 'dtype'])
        return self.np_array(st, [self.b_list(st, [it], {})], {'dtype': d} if d is not None else {})

    def position(self, st, n, k):
        k = self.reify(st, k)
        if not tm.is_int(k):
            return None
        return k if tm.nonneg(k) else tm.ite(tm.lt(k, ZERO), tm.add(k, n), k)

    def np_delete(self, st, args, kw):
        a, i, axis = self.argv(st, args, kw, ['arr', 'obj', 'axis'])
        x = self.plain(st, a)
        k = self.position(st, x.shape[0], i) if len(x.shape) == 1 and isinstance(i, T) else None
        if k is None:
            return self.opaque_call(st, 'numpy.delete', args, kw, pure=True)
        return self.new_arr(st, [tm.sub(x.shape[0], ONE)], lambda vs: x.at([tm.ite(
            tm.lt(vs[0], k), vs[0], tm.add(vs[0], ONE))]), x.dtype)

    def np_insert(self, st, args, kw):
        a, i, v, axis = self.argv(st, args, kw, ['arr', 'obj', 'values', 'axis'])
        x = self.plain(st, a)
        k = self.position(st, x.shape[0], i) if len(x.shape) == 1 and isinstance(i, T) else None
        if k is None or not isinstance(v, T) or tm.isseqkind(tm.kindof(v)) or v.op == 'arr':
            return self.opaque_call(st, 'numpy.insert', args, kw, pure=True)
        return self.new_arr(st, [tm.add(x.shape[0], ONE)], lambda vs: tm.ite(tm.lt(vs[0], k), x.at(vs), tm.ite(
            tm.eq(vs[0], k), self.coerce(x.dtype, v), x.at([tm.sub(vs[0], ONE)]))), x.dtype)

    def np_interp(self, st, args, kw):
        x, xp, fp = self.argv(st, args, kw, ['x', 'xp', 'fp'])
        if set(kw) - {'x', 'xp', 'fp'} or len(args) > 3:
            return self.opaque_call(st, 'numpy.interp', args, kw, pure=True)
        p, f = self.ravel_arr(self.plain(st, xp)), self.ravel_arr(self.plain(st, fp))
        s = self.seq_of_arr(st, xp)
        last = tm.sub(p.shape[0], ONE)

        def at(q):
            j = tm.maxmin('min', [tm.sub(tm.mk('call', 'searchsorted', s, q, const('right')), ONE), tm.sub(last, ONE)])
            k = tm.add(j, ONE)
            slope = tm.div(tm.sub(f.at([k]), f.at([j])), tm.sub(p.at([k]), p.at([j])))
            return tm.ite(tm.isnan(q), q, tm.ite(tm.le(q, p.at([ZERO])), f.at([ZERO]), tm.ite(
                tm.le(p.at([last]), q), f.at([last]), tm.add(f.at([j]), tm.mul(slope, tm.sub(q, p.at([j])))))))
        return self.elementwise(st, at, [x], 'f')

    def np_digitize(self, st, args, kw):
        x, bins, right = self.argv(st, args, kw, ['x', 'bins', 'right'])
        it = self.items_of(st, bins)
        if it is None or not all(isinstance(b, T) and tm.is_num_const(b) for b in it) or \
                [b.args[0] for b in it] != sorted(b.args[0] for b in it):
            return self.opaque_call(st, 'numpy.digitize', args, kw, pure=True)
        side = const('right') if right is None or right is FALSE else const('left')
        return self.np_searchsorted(st, [bins, x, side], {})

    def np_isclose(self, st, args, kw):
        a, b, rtol, atol, eqn = self.argv(st, args, kw, ['a', 'b', 'rtol', 'atol', 'equal_nan'])
        rtol = tm.div(ONE, const(100000)) if rtol is None else self.single(st, rtol)
        atol = tm.div(ONE, const(100000000)) if atol is None else self.single(st, atol)
        both = eqn is not None and eqn is not FALSE

        def f(x, y):
            c = tm.or_(tm.eq(x, y), tm.and_(tm.not_(tm.isinf(x)), tm.not_(tm.isinf(y)), tm.le(
                tm.fn1('abs', tm.sub(x, y)), tm.add(atol, tm.mul(rtol, tm.fn1('abs', y))))))
            return tm.or_(c, tm.and_(tm.isnan(x), tm.isnan(y))) if both else c
        return self.elementwise(st, f, [a, b], 'b')

    def np_allclose(self, st, args, kw):
        return self.reduce(st, 'all', self.np_isclose(st, args, kw), None)

    def np_array_equal(self, st, args, kw):
        a, b = [self.plain(st, x) for x in args[:2]]
        if len(args) > 2 or kw:
            return self.opaque_call(st, 'numpy.array_equal', args, kw, pure=True)
        if len(a.shape) != len(b.shape):
            return FALSE
        c = tm.eq(a.body, b.at(a.vs))
        for n, v in reversed(list(zip(a.shape, a.vs))):
            c = tm.red('all', n, v, c)
        return tm.and_(*([tm.eq(p, q) for p, q in zip(a.shape, b.shape)] + [c]))

    def np_roll(self, st, args, kw):
        a, k, axis = self.argv(st, args, kw, ['a', 'shift', 'axis'])
        x = self.plain(st, a)
        ks, axs = self.items_of(st, k), self.items_of(st, axis) if axis is not None else None
        if axis is None or axis is NONE:
            ks, axs = [k], [0]
            f = self.ravel_arr(x)
        else:
            ks, axs = ks if ks is not None else [k], [self.axis(x, q) for q in (axs if axs is not None else [axis])]
            f = x
        ks = [self.reify(st, q) for q in ks]
        if None in axs or len(ks) != len(axs) or any(tm.isseqkind(tm.kindof(q)) for q in ks):
            return self.opaque_call(st, 'numpy.roll', args, kw, pure=True)

        def fn(vs):
            idx = list(vs)
            for q, j in zip(ks, axs):
                idx[j] = tm.mod(tm.sub(idx[j], q), f.shape[j])
            return f.at(idx)
        r = self.new_arr(st, f.shape, fn, x.dtype)
        return r if f is x else self.alloc(st, self.reshape_arr(st, self.plain(st, r), list(x.shape)))

    def np_outer(self, st, args, kw):
        a, b = [self.ravel_arr(self.plain(st, x)) for x in args[:2]]
        return self.new_arr(st, [a.shape[0], b.shape[0]], lambda vs: tm.mul(a.at(vs[:1]), b.at(vs[1:])),
                            self.cat_dt([a, b]))

    def np_dot(self, st, args, kw):
        a, b = [self.plain(st, x) for x in args[:2]]
        if a.shape == () or b.shape == ():
            return self.elementwise(st, tm.mul, args[:2], self.op_dtype(st, 'mul', *args[:2]))
        if len(a.shape) > 2 or len(b.shape) > 2:
            return self.opaque_call(st, 'numpy.dot', args, kw, pure=True)
        k = tm.bv()
        vs = [tm.bv() for _ in range(len(a.shape) + len(b.shape) - 2)]
        left, right = vs[:len(a.shape) - 1], vs[len(a.shape) - 1:]
        body = tm.red('sum', a.shape[-1], k, tm.mul(self.num(a.at(left + [k])), self.num(b.at([k] + right))))
        return self.scalar_or_ref(st, ArrO(list(a.shape[:-1]) + list(b.shape[1:]), vs, body, self.cat_dt([a, b])))

    np_matmul = np_dot

    def np_prod(self, st, args, kw):
        a, axis = self.argv(st, args, kw, ['a', 'axis'])
        it = self.items_of(st, a) if axis is None else None
        if it is None:
            return self.reduce(st, 'prod', a, axis)
        r = ONE
        for x in it:
            r = tm.mul(r, self.single(st, x))
        return r

    def np_ptp(self, st, args, kw):
        a, axis = self.argv(st, args, kw, ['a', 'axis'])
        return self.binop(st, ast.Sub(), self.reduce(st, 'max', a, axis), self.reduce(st, 'min', a, axis))

    def np_average(self, st, args, kw):
        a, axis, w = self.argv(st, args, kw, ['a', 'axis', 'weights'])
        if w is None or w is NONE:
            return self.reduce(st, 'mean', a, axis)
        p = self.binop(st, ast.Mult(), a, w)
        return self.binop(st, ast.Div(), self.reduce(st, 'sum', p, axis), self.reduce(st, 'sum', w, axis))

    def np_var(self, st, args, kw):
        a, axis = self.argv(st, args, kw, ['a', 'axis'])
        if axis is not None and axis is not NONE or set(kw) - {'axis'} or len(args) > 2:
            return self.opaque_call(st, 'numpy.var', args, kw, pure=True)
        d = self.binop(st, ast.Sub(), a, self.reduce(st, 'mean', a, None))
        return self.reduce(st, 'mean', self.binop(st, ast.Mult(), d, d), None)

    def np_std(self, st, args, kw):
        v = self.np_var(st, args, kw)
        return tm.sqrt(v) if isinstance(v, T) and v.op not in ('opaque', 'mcall') else \
            self.opaque_call(st, 'numpy.std', args, kw, pure=True)

    def np_bincount(self, st, args, kw):
        a, w, least = self.argv(st, args, kw, ['x', 'weights', 'minlength'])
        x = self.ravel_arr(self.plain(st, a))
        b, c = tm.bv(), tm.bv()
        top = tm.add(tm.red('max', x.shape[0], b, x.at([b])), ONE)
        least = ZERO if least is None else self.single(st, least)
        n = tm.ite(tm.eq(x.shape[0], ZERO), least, tm.maxmin('max', [top, least]))
        inc = ONE if w is None or w is NONE else self.ravel_arr(self.plain(st, w)).at([c])
        return self.new_arr(st, [n], lambda vs: tm.red('sum', x.shape[0], c, tm.ite(
            tm.eq(x.at([c]), vs[0]), inc, ZERO)), 'i' if inc is ONE else 'f')

    def np_unravel_index(self, st, args, kw):
        i, shape = self.argv(st, args, kw, ['indices', 'shape'])
        dims = self.dims_of(st, shape)
        if dims is None or set(kw) - {'indices', 'shape'} or len(args) > 2:
            return self.opaque_call(st, 'numpy.unravel_index', args, kw, pure=True)
        out = []
        for j in range(len(dims)):
            low = self.prod(dims[j + 1:])

            def f(x, j=j, low=low):
                q = tm.floordiv(x, low) if low is not ONE else x
                return tm.mod(q, dims[j]) if j else q
            out.append(self.elementwise(st, f, [i], 'i'))
        return VTup(out)

    def np_ravel_multi_index(self, st, args, kw):
        mi, shape = self.argv(st, args, kw, ['multi_index', 'dims'])
        dims, its = self.dims_of(st, shape), self.items_of(st, mi)
        if dims is None or its is None or len(its) != len(dims) or set(kw) - {'multi_index', 'dims'} or len(args) > 2:
            return self.opaque_call(st, 'numpy.ravel_multi_index', args, kw, pure=True)

        def f(*xs):
            r = xs[0]
            for x, d in zip(xs[1:], dims[1:]):
                r = tm.add(tm.mul(r, d), x)
            return r
        return self.elementwise(st, f, its, 'i')

    def np_isin(self, st, args, kw):
        s = self.seq_of_arr(st, args[1])
        return self.elementwise(st, lambda x: tm.in_(x, s), [args[0]], 'b')

    np_in1d = np_isin

    def np_int(self, st, args, kw):
        self.raise_(st, 'AttributeError', const('numpy.int'))

    def np_vectorize(self, st, args, kw):
        return self.unk('vectorize')


def _round(x):
    return tm.fn1('roundi', x) if tm.isnan(x) is FALSE else tm.ite(tm.isnan(x), x, tm.fn1('roundi', x))


def _skipnan(kind, a, b):
    return tm.ite(tm.isnan(a), b, tm.ite(tm.isnan(b), a, tm.maxmin(kind, [a, b])))


def _decimals(x, d):
    s = const(10 ** abs(d))
    return tm.div(_round(tm.mul(x, s)), s) if d >= 0 else tm.mul(_round(tm.div(x, s)), s)


def _divide(a, b):
    return tm.div(a, b)


UNARY = {
    'isnan': (tm.isnan, 'b'), 'abs': (lambda x: tm.fn1('abs', x), 'same'),
    'absolute': (lambda x: tm.fn1('abs', x), 'same'), 'fabs': (lambda x: tm.fn1('abs', x), 'f'),
    'sqrt': (tm.sqrt, 'f'), 'cos': (lambda x: tm.fn1('cos', x), 'f'), 'sin': (lambda x: tm.fn1('sin', x), 'f'),
    'tan': (lambda x: tm.fn1('tan', x), 'f'), 'arctan': (lambda x: tm.atan2(x, ONE), 'f'),
    'exp': (lambda x: tm.fn1('exp', x), 'f'), 'log': (lambda x: tm.fn1('log', x), 'f'),
    'floor': (lambda x: tm.fn1('floor', x), 'f'), 'ceil': (lambda x: tm.fn1('ceil', x), 'f'),
    'rint': (_round, 'f'), 'trunc': (lambda x: tm.fn1('int', x), 'f'),
    'negative': (tm.neg, 'same'), 'square': (lambda x: tm.mul(x, x), 'same'),
    'logical_not': (lambda x: tm.not_(tm.truth(x)), 'b'), 'invert': (lambda x: tm.not_(tm.truth(x)), 'b'),
    'isfinite': (lambda x: tm.and_(tm.not_(tm.isnan(x)), tm.not_(tm.isinf(x))), 'b'), 'isinf': (tm.isinf, 'b'), 'float64': (lambda x: x, 'f'), 'float32': (lambda x: tm.narrow(x, 'f4'), 'f'), 'float16': (lambda x: tm.narrow(x, 'f2'), 'f'),
    'int16': (lambda x: tm.narrow(tm.fn1('int', x), 'i2'), 'i'), 'int8': (lambda x: tm.narrow(tm.fn1('int', x), 'i1'), 'i'),
    'uint8': (lambda x: tm.narrow(tm.fn1('int', x), 'u1'), 'i'), 'uint16': (lambda x: tm.narrow(tm.fn1('int', x), 'u2'), 'i'),
    'int64': (lambda x: tm.fn1('int', x), 'i'), 'int32': (lambda x: tm.fn1('int', x), 'i'),
    'bool_': (tm.truth, 'b'), 'sign': (lambda x: tm.ite(tm.lt(ZERO, x), ONE, tm.ite(tm.lt(x, ZERO), const(-1), tm.ite(tm.isnan(x), x, ZERO))), 'same'),
    'deg2rad': (lambda x: tm.mul(x, tm.div(tm.sym('pi', 'pos'), const(180))), 'f'),
    'radians': (lambda x: tm.mul(x, tm.div(tm.sym('pi', 'pos'), const(180))), 'f'),
}

BINARY = {
    'maximum': (lambda a, b: tm.maxmin('max', [a, b]), 'same'), 'minimum': (lambda a, b: tm.maxmin('min', [a, b]), 'same'),
    'fmax': (lambda a, b: _skipnan('max', a, b), 'same'), 'fmin': (lambda a, b: _skipnan('min', a, b), 'same'),
    'arctan2': (lambda a, b: tm.atan2(a, b), 'f'), 'hypot': (lambda a, b: tm.sqrt(tm.add(tm.mul(a, a), tm.mul(b, b))), 'f'),
    'add': (tm.add, 'same'), 'subtract': (tm.sub, 'same'), 'multiply': (tm.mul, 'same'), 'divide': (_divide, 'f'),
    'true_divide': (_divide, 'f'), 'floor_divide': (tm.floordiv, 'same'), 'mod': (tm.mod, 'same'), 'remainder': (tm.mod, 'same'),
    'power': (tm.power, 'same'), 'equal': (tm.eq, 'b'), 'not_equal': (lambda a, b: tm.not_(tm.eq(a, b)), 'b'),
    'less': (tm.lt, 'b'), 'less_equal': (tm.le, 'b'), 'greater': (lambda a, b: tm.lt(b, a), 'b'),
    'greater_equal': (lambda a, b: tm.le(b, a), 'b'),
    'logical_xor': (lambda a, b: tm.ite(tm.truth(a), tm.not_(tm.truth(b)), tm.truth(b)), 'b'),
}
