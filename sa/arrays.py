"""Library model, part 2: arrays as index functions."""
from . import terms as tm
from .terms import T, TRUE, FALSE, NONE, ZERO, ONE, const
from .heap import (Ref, VTup, Path, GV, SliceV, ELLIPSIS, LazySeq, Flat, ListO, ArrO, ViewO, Bound)


def bsub(body, m):
    return tm.subst(body, m)


def same(a, b):
    return a is b or tm.canon(a) == tm.canon(b)


class ArrayMixin(object):

    # ------------------------------------------------------------ coercion
    def mkarr(self, shape, fn, dtype=None, mask=None):
        vs = tuple(tm.bv() for _ in shape)
        return ArrO(shape, vs, fn(vs), dtype, mask(vs) if mask else None)

    def arr(self, st, v):
        """the materialised array of any array-like value"""
        v = self.resolve(st, v)
        if isinstance(v, (ArrO,)):
            return v
        if isinstance(v, Ref):
            o = st.heap[v.oid]
            if isinstance(o, ArrO):
                return o
            if isinstance(o, ViewO):
                base = self.arr(st, Ref(o.base))
                vs = tuple(tm.bv() for _ in o.shape)
                return ArrO(o.shape, vs, base.at(self.view_index(o, vs)), base.dtype)
            if isinstance(o, ListO) and o.items is not None:
                return self.arr_of_items(st, o.items)
            v = self.reify(st, v)
        if isinstance(v, VTup):
            return self.arr_of_items(st, v.items)
        if isinstance(v, GV):
            a, b = self.arr(st.fork(v.c), v.a), self.arr(st.fork(tm.not_(v.c)), v.b)
            if len(a.shape) == len(b.shape) and a.mask is None and b.mask is None:
                return self.omerge(v.c, a, b, st, st)
            v = self.reify(st, v)
        if isinstance(v, LazySeq) and v.items is not None:
            return self.arr_of_items(st, v.items)
        if not isinstance(v, T):
            v = self.reify(st, v)
        return self.arr_of_term(st, v)

    def view_index(self, o, vs):
        out = []
        for ax in o.axes:
            if ax[0] == 'i':
                out.append(ax[1])
            else:
                _, lo, step, j = ax
                out.append(tm.add(lo, tm.mul(step, vs[j])))
        return out

    def arr_of_items(self, st, items):
        items = [self.resolve(st, x) for x in items]
        if not items:
            return ArrO((ZERO,), (tm.bv(),), ZERO, 'f')
        subs = [self.arr(st, x) for x in items]
        r = max(len(s.shape) for s in subs)
        if any(len(s.shape) != r or s.mask is not None for s in subs):
            t = tm.lit(*[self.reify(st, x) for x in items])
            v = tm.bv()
            return ArrO((const(len(items)),), (v,), tm.sel(t, v))
        vs = tuple(tm.bv() for _ in range(r + 1))
        bodies = [s.at(vs[1:]) for s in subs]
        ds = set(s.dtype for s in subs)
        if r == 0:
            ds = set(self.dtype_of(st, b) for b in bodies)
        dt = ds.pop() if len(ds) == 1 else ('f' if ds <= {'i', 'f'} else None)
        if dt is None and all(self.numericish(b) for b in bodies):
            dt = 'f'
        return ArrO((const(len(items)),) + subs[0].shape, vs, tm.sel(tm.lit(*bodies), vs[0]), dt)

    def numericish(self, t):
        k = tm.kindof(t)
        return k in ('int', 'real')

    def arr_of_term(self, st, v):
        if v.op == 'arr':
            return ArrO(v.args[0], v.args[1], v.args[2], v.args[3])
        k = tm.kindof(v)
        if v.op == 'ite' and (v.args[1].op == 'arr' or v.args[2].op == 'arr'):
            a, b = self.arr_of_term(st, v.args[1]), self.arr_of_term(st, v.args[2])
            if len(a.shape) == len(b.shape) and a.mask is None and b.mask is None:
                return self.omerge(v.args[0], a, b, st, st)
        if tm.isseqkind(k):
            w = tm.bv()
            e = tm.sel(v, w)
            if tm.isseqkind(k[1]) or e.op == 'arr':
                inner = self.arr_of_term(st, e)
                shape0 = inner.shape
                if any(w in s.fv for s in shape0):
                    i0 = self.arr_of_term(st, tm.sel(v, ZERO))
                    if len(i0.shape) == len(shape0):
                        shape0 = i0.shape
                return ArrO((tm.length(v),) + shape0, (w,) + inner.vs, inner.body, inner.dtype)
            dt = {'int': 'i', 'real': 'f', 'bool': 'b'}.get(k[1])
            return ArrO((tm.length(v),), (w,), e, dt)
        return ArrO((), (), v, self.dtype_of(st, v))

    def box_arr(self, st, t):
        a = self.arr_of_term(st, t) if isinstance(t, T) else t
        return self.alloc(st, a)

    def scalar_or_ref(self, st, a):
        if a.shape == () and a.mask is None:
            return a.body
        return self.alloc(st, a)

    # ------------------------------------------------------------ elementwise
    def broadcast(self, shapes):
        r = max(len(s) for s in shapes)
        out = []
        for ax in range(r):
            d = ONE
            for s in shapes:
                j = ax - (r - len(s))
                if j < 0:
                    continue
                if s[j] is not ONE and (d is ONE or (tm.is_num_const(s[j]) and not tm.is_num_const(d))):
                    d = s[j]
            out.append(d)
        return tuple(out)

    def b_at(self, a, shape, vs):
        """element of a broadcast to shape at vs"""
        off = len(shape) - len(a.shape)
        idx = []
        for j, d in enumerate(a.shape):
            idx.append(ZERO if d is ONE and shape[off + j] is not ONE else vs[off + j])
        return a.at(idx)

    def elementwise_arr(self, st, fn, vals, dtype=None):
        ars = [self.arr(st, v) for v in vals]
        masked = [a for a in ars if a.mask is not None]
        if masked:
            m0 = masked[0]
            ok = all(len(a.shape) == len(m0.shape) and
                       same(bsub(a.mask, dict(zip(a.vs, m0.vs))), m0.mask) for a in masked[1:])
            if ok and all(a.mask is not None or a.shape == () for a in ars):
                vs = tuple(tm.bv() for _ in m0.shape)
                xs = [a.at(vs) if a.mask is not None else a.body for a in ars]
                return ArrO(m0.shape, vs, fn(*xs), dtype, bsub(m0.mask, dict(zip(m0.vs, vs))))
            ars = [self.compressed(a) if a.mask is not None else a for a in ars]
        shape = self.broadcast([a.shape for a in ars])
        vs = tuple(tm.bv() for _ in shape)
        return ArrO(shape, vs, fn(*[self.b_at(a, shape, vs) for a in ars]), dtype)

    def elementwise(self, st, fn, vals, dtype=None):
        return self.scalar_or_ref(st, self.elementwise_arr(st, fn, vals, dtype))

    def compressed(self, a):
        t = self.compress_term(a)
        v = tm.bv()
        return ArrO((tm.length(t),), (v,), tm.sel(t, v), a.dtype)

    def compress_term(self, a):
        if len(a.shape) == 1:
            return tm.fmapseq(a.shape[0], a.vs[0], a.mask, a.body)
        return tm.mk('call', 'compress', tm.mk('arr', a.shape, a.vs, a.body, a.dtype),
                     tm.mk('arr', a.shape, a.vs, a.mask, 'b'))

    def plain(self, st, v):
        """an unmasked array"""
        a = self.arr(st, v)
        return self.compressed(a) if a.mask is not None else a

    # ------------------------------------------------------------ selections
    def is_boolarr(self, st, x):
        if isinstance(x, Ref):
            o = st.heap.get(x.oid)
            if isinstance(o, (ArrO, ViewO)):
                if o.dtype == 'b':
                    return True
                if isinstance(o, ArrO) and tm.is_bool(o.body):
                    return True
            if isinstance(o, ListO) and o.items:
                return all(isinstance(i, T) and tm.is_bool(i) for i in o.items)
        return isinstance(x, T) and x.op == 'arr' and (x.args[3] == 'b' or tm.is_bool(x.args[2]))

    def idx_items(self, st, idx):
        if isinstance(idx, VTup):
            its = list(idx.items)
        elif isinstance(idx, T) and idx.op == 'tup':
            its = list(idx.args)
        elif isinstance(idx, T) and idx.op == 'ite' and self.is_tuple_term(idx):
            n = self.tup_len(idx)
            its = [tm.sel(idx, const(i)) for i in range(n)] if n else [idx]
        else:
            its = [idx]
        return [x if isinstance(x, SliceV) else self.resolve(st, x) for x in its]

    def tup_len(self, t):
        if t.op == 'tup':
            return len(t.args)
        if t.op == 'ite':
            return self.tup_len(t.args[1]) or self.tup_len(t.args[2])
        return None

    def is_fancy(self, st, x):
        if isinstance(x, Ref):
            return True
        if isinstance(x, (VTup, Path, LazySeq)):
            return True
        if isinstance(x, T):
            return x.op == 'arr' or tm.isseqkind(tm.kindof(x)) or (
                x.op == 'opaque' and not tm.is_int(x) and x.args[0].startswith('numpy.'))
        return False

    def selection(self, st, shape, idx):
        """per-axis selectors: ('i', t) | ('s', lo, step, n, full) | ('f', ArrO) | ('n',) ; or ('mask', ArrO)"""
        its = self.idx_items(st, idx)
        if len(its) == 1 and self.is_boolarr(st, its[0]):
            return [('mask', self.arr(st, its[0]))]
        n = sum(1 for x in its if x is not NONE and x is not ELLIPSIS)
        if ELLIPSIS in [x for x in its if not isinstance(x, T)]:
            k = [i for i, x in enumerate(its) if x is ELLIPSIS][0]
            its = its[:k] + [SliceV(None, None, None)] * (len(shape) - n) + its[k + 1:]
        else:
            its = its + [SliceV(None, None, None)] * (len(shape) - n)
        out = []
        ax = 0
        for x in its:
            if x is NONE:
                out.append(('n',))
                continue
            if ax >= len(shape):
                self.raise_(st, 'IndexError')
            d = shape[ax]
            ax += 1
            if isinstance(x, SliceV):
                ns = self.norm_slice(st, x, d)
                if ns is None:
                    return None
                lo, ln, step = ns
                if tm.is_num_const(step) and step.args[0] < 0:
                    lo = tm.sub(d, ONE)
                out.append(('s', lo, step, ln, d))
            elif self.is_boolarr(st, x):
                a = self.arr(st, x)
                if len(a.shape) != 1:
                    return None
                t = tm.fmapseq(a.shape[0], a.vs[0], tm.truth(a.body), a.vs[0])
                v = tm.bv()
                out.append(('f', ArrO((tm.length(t),), (v,), tm.sel(t, v), 'i')))
            elif self.is_fancy(st, x):
                a = self.plain(st, x)
                if a.shape == ():
                    out.append(('i', self.norm_index(st, a.body, d)))
                else:
                    dd = d
                    out.append(('f', ArrO(a.shape, a.vs, self.norm_index(st, a.body, dd), 'i')))
            else:
                i = self.norm_index(st, x, d)
                self.check_index(st, i, d)
                out.append(('i', i))
        return out

    def arr_getitem(self, st, ref, idx):
        o = st.heap[ref.oid]
        if isinstance(o, ArrO) and o.mask is not None:
            its = self.idx_items(st, idx)
            if len(its) == 1 and self.is_boolarr(st, its[0]):
                m = self.arr(st, its[0])
                if m.mask is not None and same(bsub(m.mask, dict(zip(m.vs, o.vs))), o.mask):
                    both = tm.and_(o.mask, tm.truth(bsub(m.body, dict(zip(m.vs, o.vs)))))
                    return self.alloc(st, ArrO(o.shape, o.vs, o.body, o.dtype, both))
            ref = self.alloc(st, self.compressed(o))
            o = st.heap[ref.oid]
        sel = self.selection(st, o.shape, idx)
        if sel is None:
            return self.unk('array subscript')
        if sel and sel[0][0] == 'mask':
            m = sel[0][1]
            a = self.arr(st, ref)
            if len(m.shape) != len(a.shape) or m.mask is not None:
                if len(m.shape) == 1 and m.mask is None:
                    t = tm.fmapseq(m.shape[0], m.vs[0], tm.truth(m.body), m.vs[0])
                    v = tm.bv()
                    sel = [('f', ArrO((tm.length(t),), (v,), tm.sel(t, v), 'i'))] + \
                        [('s', ZERO, ONE, d, d) for d in a.shape[1:]]
                elif len(m.shape) == 2 and m.mask is None and len(a.shape) > 2:
                    n, w, q = m.shape[0], m.shape[1], tm.bv()
                    t = tm.fmapseq(tm.mul(n, w), q, tm.truth(m.at((tm.floordiv(q, w), tm.mod(q, w)))), q)
                    v = tm.bv()
                    rows = ArrO((tm.length(t),), (v,), tm.floordiv(tm.sel(t, v), w), 'i')
                    cols = ArrO((tm.length(t),), (v,), tm.mod(tm.sel(t, v), w), 'i')
                    sel = [('f', rows), ('f', cols)] + [('s', ZERO, ONE, d, d) for d in a.shape[2:]]
                else:
                    return self.unk('mask subscript')
            else:
                return self.alloc(st, ArrO(a.shape, a.vs, a.body, a.dtype,
                                           tm.truth(bsub(m.body, dict(zip(m.vs, a.vs))))))
        if any(s[0] == 'f' for s in sel):
            return self.gather(st, self.arr(st, ref), sel)
        if all(s[0] == 'i' for s in sel):
            a = self.arr(st, ref)
            return a.at([s[1] for s in sel])
        # basic: a view
        axes, shape = [], []
        for s in sel:
            if s[0] == 'n':
                shape.append(ONE)
            elif s[0] == 'i':
                axes.append(('i', s[1]))
            else:
                axes.append(('s', s[1], s[2], len(shape)))
                shape.append(s[3])
        if isinstance(o, ViewO):
            comp = []
            for ax in o.axes:
                if ax[0] == 'i':
                    comp.append(ax)
                    continue
                _, lo, step, j = ax
                # base index = lo + step * (index on view axis j); view axis j corresponds to axes[j]
                inner = axes[j] if j < len(axes) else None
                if inner is None:
                    return self.unk('view of view')
                if inner[0] == 'i':
                    comp.append(('i', tm.add(lo, tm.mul(step, inner[1]))))
                else:
                    comp.append(('s', tm.add(lo, tm.mul(step, inner[1])), tm.mul(step, inner[2]), inner[3]))
            return self.alloc(st, ViewO(o.base, comp, shape, o.dtype))
        return self.alloc(st, ViewO(ref.oid, axes, shape, o.dtype))

    def gather(self, st, a, sel):
        fs = [(j, s[1]) for j, s in enumerate(sel) if s[0] == 'f']
        ints = [j for j, s in enumerate(sel) if s[0] == 'i']
        fshape = self.broadcast([f.shape for _, f in fs])
        adv = sorted([j for j, _ in fs] + ints)
        adjacent = adv == list(range(adv[0], adv[-1] + 1))
        fvs = tuple(tm.bv() for _ in fshape)
        shape, vs = [], []
        placed = False
        if not adjacent:
            shape += fshape
            vs += fvs
            placed = True
        idx = []
        for j, s in enumerate(sel):
            if s[0] in 'fi' and not placed:
                shape += fshape
                vs += fvs
                placed = True
            if s[0] == 'f':
                idx.append(self.b_at(s[1], fshape, fvs))
            elif s[0] == 'i':
                idx.append(s[1])
            elif s[0] == 'n':
                shape.append(ONE)
                vs.append(tm.bv())
            else:
                v = tm.bv()
                shape.append(s[3])
                vs.append(v)
                idx.append(tm.add(s[1], tm.mul(s[2], v)))
        return self.alloc(st, ArrO(shape, vs, a.at(idx), a.dtype))

    # ------------------------------------------------------------ stores
    def arr_store(self, st, ref, cv):
        """cv(index vars of ref) -> (cond, value)"""
        o = st.heap[ref.oid]
        if isinstance(o, ArrO):
            if o.mask is not None:
                return
            c, v = cv(o.vs)
            st.heap[ref.oid] = ArrO(o.shape, o.vs, tm.ite(c, self.coerce(o.dtype, v), o.body), o.dtype)
            return

        base = Ref(o.base)

        def cv2(bs):
            conds = []
            ws = [ZERO] * len(o.shape)
            for b, ax in zip(bs, o.axes):
                if ax[0] == 'i':
                    conds.append(tm.eq(b, ax[1]))
                else:
                    _, lo, step, j = ax
                    w, c = self.coord(b, lo, step, o.shape[j], self.base_dim(st, o, bs, b))
                    ws[j] = w
                    conds += c
            c, v = cv(tuple(ws))
            return tm.and_(*(conds + [c])), v
        self.arr_store(st, base, cv2)

    def base_dim(self, st, o, bs, b):
        bo = st.heap[o.base]
        return bo.shape[list(bs).index(b)]

    def coord(self, b, lo, step, n, d):
        """view coordinate of base coordinate b (0 <= b < d), with the conditions for being inside"""
        if step is ONE:
            w = tm.sub(b, lo)
            c = []
            if lo is not ZERO:
                c.append(tm.le(lo, b))
            hi = tm.add(lo, n)
            if hi is not d:
                c.append(tm.lt(b, hi))
            return w, c
        if tm.is_num_const(step) and step.args[0] == -1:
            w = tm.sub(lo, b)
            if n is d and lo is tm.sub(d, ONE):
                return w, []
            return w, [tm.le(ZERO, w), tm.lt(w, n)]
        w = tm.floordiv(tm.sub(b, lo), step)
        return w, [tm.eq(tm.mod(tm.sub(b, lo), step), ZERO), tm.le(ZERO, w), tm.lt(w, n)]

    def coerce(self, dtype, v):
        w = getattr(dtype, 'width', None)
        if w:
            return tm.narrow(self.coerce(str(dtype), v), w)
        if dtype == 'i' and not tm.is_int(v):
            return tm.fn1('int', v)
        if dtype == 'i' and tm.is_bool(v):
            return tm.ite(v, ONE, ZERO)
        if dtype == 'b' and not tm.is_bool(v):
            return tm.truth(v)
        return v

    def arr_fill(self, st, ref, new):
        o = st.heap[ref.oid]
        if isinstance(o, ArrO) and o.mask is not None:
            a = self.arr(st, new)
            if a.mask is not None and len(a.shape) == len(o.shape) and \
                    same(bsub(a.mask, dict(zip(a.vs, o.vs))), o.mask):
                st.heap[ref.oid] = a
            else:
                st.heap[ref.oid] = ArrO(o.shape, o.vs, self.unk('in-place masked'), o.dtype, o.mask)
            return
        a = self.plain(st, new)
        shape = o.shape

        def cv(ws):
            return TRUE, self.b_at(a, shape, ws)
        self.arr_store(st, ref, cv)

    def arr_setitem(self, st, ref, idx, v):
        o = st.heap[ref.oid]
        sel = self.selection(st, o.shape, idx)
        v = self.resolve(st, v)
        if sel is None:
            self.arr_havoc(st, ref, 'array store')
            return
        if sel and sel[0][0] == 'mask':
            m = sel[0][1]
            va = self.arr(st, v)
            if m.mask is not None or len(m.shape) > len(o.shape):
                self.arr_havoc(st, ref, 'mask store')
                return
            k = len(m.shape)

            def mc(ws):
                return tm.truth(m.at(ws[:k]))
            if va.shape == () and va.mask is None:
                self.arr_store(st, ref, lambda ws: (mc(ws), va.body))
                return
            if va.mask is not None and k == len(o.shape) and \
                    same(bsub(va.mask, dict(zip(va.vs, m.vs))), tm.truth(m.body)):
                self.arr_store(st, ref, lambda ws: (mc(ws), va.at(ws)))
                return
            if va.mask is None and k < len(o.shape) and len(va.shape) <= len(o.shape) - k:
                self.arr_store(st, ref, lambda ws: (mc(ws), self.b_at(va, o.shape[k:], ws[k:])))
                return
            if va.mask is None and k == 2 and len(va.shape) == len(o.shape) - 1 and va.shape[0] is not ONE:
                q, w = tm.bv(), m.shape[1]

                def value(ws):
                    before = tm.red('sum', tm.add(tm.mul(ws[0], w), ws[1]), q, tm.ite(tm.truth(m.at(
                        (tm.floordiv(q, w), tm.mod(q, w)))), ONE, ZERO))
                    return self.b_at(va, (va.shape[0],) + tuple(o.shape[k:]), (before,) + tuple(ws[k:]))
                self.arr_store(st, ref, lambda ws: (mc(ws), value(ws)))
                return
            self.arr_havoc(st, ref, 'mask store')
            return
        fs = [(j, s[1]) for j, s in enumerate(sel) if s[0] == 'f']
        if fs:
            self.scatter(st, ref, o, sel, fs, v)
            return
        va = self.plain(st, v)
        vshape = tuple(ONE if s[0] == 'n' else s[3] for s in sel if s[0] in 'ns')
        if len(va.shape) > len(vshape):
            va = ArrO(va.shape[len(va.shape) - len(vshape):], va.vs[len(va.shape) - len(vshape):],
                      bsub(va.body, {x: ZERO for x in va.vs[:len(va.shape) - len(vshape)]}), va.dtype) \
                if all(d is ONE for d in va.shape[:len(va.shape) - len(vshape)]) else va
        if len(va.shape) > len(vshape):
            if vshape == ():
                self.raise_(st, 'ValueError')
            self.arr_havoc(st, ref, 'array store shape')
            return

        def cv(ws):
            conds, vi = [], []
            ax = 0
            for s in sel:
                if s[0] == 'n':
                    vi.append(ZERO)
                    continue
                b = ws[ax]
                ax += 1
                if s[0] == 'i':
                    conds.append(tm.eq(b, s[1]))
                else:
                    w, c = self.coord(b, s[1], s[2], s[3], s[4])
                    vi.append(w)
                    conds += c
            return tm.and_(*conds), self.b_at(va, vshape, vi)
        self.arr_store(st, ref, cv)

    def scatter(self, st, ref, o, sel, fs, v, add=False):
        """store through integer arrays"""
        fshape = self.broadcast([f.shape for _, f in fs])
        va = self.plain(st, v)
        if len(fshape) != 1 or any(s[0] == 'n' for s in sel) or len(va.shape) > 1 or \
                any(s[0] == 's' for s in sel) and va.shape != ():
            self.arr_havoc(st, ref, 'fancy store')
            return
        n = fshape[0]
        k = tm.bv()

        def cv(ws):
            conds, ck = [], []
            for b, s in zip(ws, sel):
                if s[0] == 'f':
                    ck.append(tm.eq(self.b_at(s[1], fshape, (k,)), b))
                elif s[0] == 'i':
                    conds.append(tm.eq(b, s[1]))
                else:
                    conds += self.coord(b, s[1], s[2], s[3], s[4])[1]
            hit = tm.and_(*ck)
            c = tm.and_(*(conds + [tm.red('any', n, k, hit)]))
            if va.shape == ():
                return c, va.body
            # last matching k wins
            kk = tm.bv()
            rev = tm.first(n, kk, tm.subst(hit, {k: tm.sub(tm.sub(n, ONE), kk)}))
            last = tm.sub(tm.sub(n, ONE), rev)
            return c, self.b_at(va, fshape, (last,))
        self.arr_store(st, ref, cv)

    def arr_havoc(self, st, ref, why):
        u = self.unk(why)
        o = st.heap[ref.oid]
        base = ref
        while isinstance(st.heap[base.oid], ViewO):
            base = Ref(st.heap[base.oid].base)
        b = st.heap[base.oid]
        st.heap[base.oid] = ArrO(b.shape, b.vs, tm.mk('asel', u, *b.vs), b.dtype)

    # ------------------------------------------------------------ shape
    def prod(self, dims):
        r = ONE
        for d in dims:
            r = tm.mul(r, d)
        return r

    def ravel_arr(self, a):
        """1-d row-major"""
        if len(a.shape) == 1:
            return a
        if a.shape == ():
            return ArrO((ONE,), (tm.bv(),), a.body, a.dtype)
        v = tm.bv()
        return ArrO((self.prod(a.shape),), (v,), a.at(self.unravel(v, a.shape)), a.dtype)

    def unravel(self, v, shape):
        idx = []
        r = v
        for d in reversed(shape[1:]):
            if d is ONE:
                idx.append(ZERO)
            else:
                idx.append(tm.mod(r, d))
                r = tm.floordiv(r, d)
        idx.append(r if shape[0] is not ONE else ZERO)
        return list(reversed(idx))

    def reshape_arr(self, st, a, dims):
        dims = [d if isinstance(d, T) else self.reify(st, d) for d in dims]
        if any(tm.is_num_const(d) and d.args[0] == -1 for d in dims):
            known = self.prod([d for d in dims if not (tm.is_num_const(d) and d.args[0] == -1)])
            tot = self.prod(a.shape)
            rest = tot if known is ONE else tm.floordiv(tot, known)
            dims = [rest if tm.is_num_const(d) and d.args[0] == -1 else d for d in dims]
        if tuple(dims) == a.shape:
            return a
        vs = tuple(tm.bv() for _ in dims)
        big = [(d, v) for d, v in zip(dims, vs) if d is not ONE]
        obig = [d for d in a.shape if d is not ONE]
        if [d for d, _ in big] == obig:
            it = iter([v for _, v in big])
            idx = [ZERO if d is ONE else next(it) for d in a.shape]
            return ArrO(dims, vs, a.at(idx), a.dtype)
        flat = ZERO
        for d, v in zip(dims, vs):
            flat = tm.add(tm.mul(flat, d), v)
        f = self.ravel_arr(a)
        return ArrO(dims, vs, f.at((flat,)), a.dtype)

    def arr_set_shape(self, st, ref, v):
        a = self.plain(st, ref)
        dims = self.dims_of(st, v)
        if dims is None:
            st.heap[ref.oid] = ArrO(a.shape, a.vs, self.unk('reshape'), a.dtype)
            return
        st.heap[ref.oid] = self.reshape_arr(st, a, dims)

    def dims_of(self, st, v):
        v = self.resolve(st, v)
        it = self.items_of(st, v)
        if it is not None:
            return [self.reify(st, x) for x in it]
        t = v if isinstance(v, T) else self.reify(st, v)
        if t.op == 'ite':
            n = self.tup_len(t)
            if n and self.is_tuple_term(t):
                return [tm.sel(t, const(i)) for i in range(n)]
        if tm.isseqkind(tm.kindof(t)):
            return None
        return [t]

    # ------------------------------------------------------------ flat
    def flat_term(self, st, f):
        a = self.ravel_arr(self.plain(st, Ref(f.oid)))
        return tm.mapseq(a.shape[0], a.vs[0], a.body)

    def flat_get(self, st, f, idx):
        a = self.ravel_arr(self.plain(st, Ref(f.oid)))
        r = self.alloc(st, a)
        return self.arr_getitem(st, r, idx)

    def flat_set(self, st, f, idx, v):
        ref = Ref(f.oid)
        o = st.heap[f.oid]
        n = self.prod(o.shape)
        sel = self.selection(st, (n,), idx)
        va = self.plain(st, v)
        if sel is None or sel[0][0] == 'mask' or len(o.shape) > 3:
            self.arr_havoc(st, ref, 'flat store')
            return
        s = sel[0]

        def cv(ws):
            fl = ZERO
            for d, w in zip(o.shape, ws):
                fl = tm.add(tm.mul(fl, d), w)
            if s[0] == 'i':
                return tm.eq(fl, s[1]), va.body if va.shape == () else va.at([ZERO])
            if s[0] == 's':
                w, c = self.coord(fl, s[1], s[2], s[3], s[4])
                return tm.and_(*c), va.body if va.shape == () else va.at([w])
            k = tm.bv()
            hit = tm.eq(s[1].at((k,)), fl)
            m = s[1].shape[0]
            c = tm.red('any', m, k, hit)
            if va.shape == ():
                return c, va.body
            if va.shape[0] is ONE:
                return c, va.at((ZERO,))
            rev = tm.first(m, k, tm.subst(hit, {k: tm.sub(tm.sub(m, ONE), k)}))
            return c, va.at((tm.sub(tm.sub(m, ONE), rev),))
        if s[0] == 'f' and len(s[1].shape) != 1:
            self.arr_havoc(st, ref, 'flat store')
            return
        self.arr_store(st, ref, cv)

    # ------------------------------------------------------------ attributes
    def obj_attr(self, st, ref, o, name):
        if not isinstance(o, (ArrO, ViewO)):
            return None
        if name == 'flat':
            return Flat(ref.oid)
        if name in ('shape', 'size', 'ndim', 'T', 'dtype'):
            a = self.plain(st, ref)
            if name == 'shape':
                return VTup(a.shape)
            if name == 'size':
                return self.prod(a.shape)
            if name == 'ndim':
                return const(len(a.shape))
            if name == 'T':
                r = tuple(reversed(range(len(a.shape))))
                if isinstance(o, ViewO):
                    axes = [ax if ax[0] == 'i' else ax[:3] + (len(o.shape) - 1 - ax[3],) for ax in o.axes]
                    return self.alloc(st, ViewO(o.base, axes, tuple(reversed(o.shape)), o.dtype))
                if o.mask is None:
                    axes = [('s', ZERO, ONE, len(a.shape) - 1 - j) for j in range(len(a.shape))]
                    return self.alloc(st, ViewO(ref.oid, axes, tuple(reversed(a.shape)), o.dtype))
                return self.alloc(st, ArrO([a.shape[i] for i in r], [a.vs[i] for i in r], a.body, a.dtype))
            return const({'i': 'int', 'f': 'float', 'b': 'bool', None: 'object'}.get(a.dtype, 'float'))
        return None
