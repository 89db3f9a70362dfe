"""Loop summaries: phi discovery by fixpoint, closed forms, `mu` nodes otherwise."""
import ast
from . import terms as tm
from .terms import T, TRUE, FALSE, NONE, ZERO, ONE, const
from .heap import (MEMO, Ref, VTup, Path, GV, UNDEF, Func, Native, Bound, Mod, Ext, Cls, SliceV,
                   LazySeq, Flat, ListO, DictO, InstO, ArrO, ViewO, Eff, Dead, Exc)

UNROLL = 40


class Loc(object):
    """a location modified by the loop"""
    __slots__ = ('key', 'phi', 'kind', 'init', 'dphi', 'upd', 'dupd', 'sol', 'memo')

    def __init__(self, key, init, kind):
        self.key, self.init, self.kind = key, init, kind
        self.phi = None
        self.dphi = None
        self.upd = None
        self.dupd = None
        self.sol = None
        self.memo = None


class LoopMixin(object):

    # ------------------------------------------------------------ iterables
    def iter_of(self, st, v):
        v = self.resolve(st, v)
        if isinstance(v, LazySeq):
            return v
        v = self.iterated(st, v)
        if isinstance(v, LazySeq):
            return v
        self.must_iterate(st, v)
        it = self.items_of(st, v)
        if it is not None:
            return LazySeq(const(len(it)), lambda k, s: it[k.args[0]] if tm.is_num_const(k) else tm.sel(
                tm.lit(*[self.reify(s, x) for x in it]), k), items=it)
        if isinstance(v, Ref):
            o = st.heap[v.oid]
            if isinstance(o, ListO):
                seq = o.seq
                ref = v
                if tm.isseqkind(tm.kindof(seq)) and tm.isseqkind(tm.kindof(seq)[1]) and not tm.mixed_elems(seq):
                    return LazySeq(tm.length(seq), lambda k, s: Path(ref.oid, (k,)))
                return LazySeq(tm.length(seq), lambda k, s: tm.sel(seq, k))
            if isinstance(o, (ArrO, ViewO)):
                a = self.arr(st, v)
                if a.mask is not None:
                    t = self.compress_term(a)
                    return LazySeq(tm.length(t), lambda k, s: tm.sel(t, k))
                ref = v
                return LazySeq(a.shape[0], lambda k, s: self.getitem(s, ref, k))
            if isinstance(o, DictO):
                t = self.reify(st, v)
                return LazySeq(tm.mk('len', t), lambda k, s: tm.mk('sel', t, k))
            if isinstance(o, InstO):
                t = self.reify(st, v)
                return LazySeq(tm.mk('len', t), lambda k, s: tm.mk('sel', t, k))
        if isinstance(v, Path):
            t = self.path_term(st, v)
            if tm.isseqkind(tm.kindof(t)) and tm.isseqkind(tm.kindof(t)[1]) and not tm.mixed_elems(t):
                return LazySeq(tm.length(t), lambda k, s: Path(v.oid, v.idx + (k,)))
            return LazySeq(tm.length(t), lambda k, s: tm.sel(t, k))
        if isinstance(v, T):
            if v.op == 'arr':
                ref = self.box_arr(st, v)
                return self.iter_of(st, ref)
            return LazySeq(tm.length(v), lambda k, s: tm.sel(v, k))
        if isinstance(v, GV):
            t = self.reify(st, v)
            return LazySeq(tm.length(t), lambda k, s: tm.sel(t, k))
        if isinstance(v, Flat):
            t = self.flat_term(st, v)
            return LazySeq(tm.length(t), lambda k, s: tm.sel(t, k))
        t = self.unk('iteration over %s' % type(v).__name__)
        return LazySeq(tm.mk('len', t), lambda k, s: tm.mk('sel', t, k))

    def must_iterate(self, st, v):
        """numbers, truth values and None are not iterable"""
        if isinstance(v, T) and (v is NONE or tm.is_num_const(v) or v is TRUE or v is FALSE or
                                 v.op == 'poly' or v.op == 'sym' and v.args[1][:1] in (
                                     ('real',), ('pos',), ('nonneg',), ('nat',), ('int',), ('unit',), ('share',))):
            self.raise_(st, 'TypeError', const('object is not iterable'))

    # ------------------------------------------------------------ statements
    def s_For(self, s, st, fr, out):
        v = self.ev(s.iter, st, fr)
        v = self.resolve(st, v)

        def body(bst, elem):
            self.assign(s.target, elem, bst, fr)
            return self.exec_block(s.body, bst, fr)
        o = self.for_loop(st, fr, v, body)
        self.finish_loop(s, st, fr, out, o)

    def for_loop(self, st, fr, v, body):
        """run `body` for every element of v"""
        if isinstance(v, GV):
            # iterate under each gate separately when both sides are concrete
            ia, ib = self.items_of(st, v.a), self.items_of(st, v.b)
            if ia is not None or ib is not None:
                from .interp import Outs
                out = Outs()
                nx = []
                for c, x in ((v.c, v.a), (tm.not_(v.c), v.b)):
                    s2 = st.fork(c)
                    o = self.for_loop(s2, fr, self.resolve(s2, x), body)
                    self.absorb(out, o)
                    if o.next is not None:
                        nx.append(o.next)
                cur = None
                for n in nx:
                    cur = self.merge(cur, n)
                out.next = cur
                return out
        # dictionaries with optional keys: one guarded iteration per key
        opt = self.optional_keys(st, v)
        if opt is not None:
            return self.unrolled(st, fr, [(p, x) for p, x in opt], body)
        it = self.iter_of(st, v)
        if it.items is not None and it.guard is None:
            return self.unrolled(st, fr, [(TRUE, x) for x in it.items], body)
        n = self.simp(st, it.n)
        if tm.is_num_const(n) and n.args[0] <= UNROLL and it.guard is None:
            return self.unrolled(st, fr, [(TRUE, ('k', const(i), it)) for i in range(max(0, int(n.args[0])))], body)

        def bodyk(bst, k):
            if it.guard is not None:
                g = it.guard(k, bst)
                from .interp import Outs
                g = self.decide(bst, g)
                if g is not TRUE:
                    skip = bst.fork(tm.not_(g)) if g is not FALSE else bst
                    o = Outs()
                    if g is not FALSE:
                        bst.assume(g)
                        o = body(bst, it.fn(k, bst))
                    o.cont = list(o.cont) + [skip]
                    return o
            return body(bst, it.fn(k, bst))
        return self.sym_loop(st, fr, n, bodyk)

    def optional_keys(self, st, v):
        if isinstance(v, LazySeq) and v.src is not None and v.src[0] == 'optitems':
            return v.src[1]
        if isinstance(v, Ref) and isinstance(st.heap.get(v.oid), DictO):
            o = st.heap[v.oid]
            if o.taint is not None or all(p is TRUE for p, x in o.ent.values()):
                return None
            return [(p, const(k)) for k, (p, x) in o.ent.items()]
        if isinstance(v, T) and v.op == 'dict' and not all(p is TRUE for p in v.args[1]):
            return [(p, const(k)) for k, p in zip(v.args[0], v.args[1])]
        return None

    def unrolled(self, st, fr, elems, body):
        from .interp import Outs
        out = Outs()
        cur = st
        done = None
        for p, e in elems:
            if cur is None:
                break
            p = self.decide(cur, p)
            if p is FALSE:
                continue
            skip = None
            if p is not TRUE:
                skip = cur.fork(tm.not_(p))
                cur.assume(p)
            if isinstance(e, tuple) and e and e[0] == 'k':
                e = e[2].fn(e[1], cur)
            try:
                o = body(cur, e)
            except Dead:
                cur = skip
                continue
            out.ret += o.ret
            out.exc += o.exc
            for b in o.brk:
                done = self.merge(done, b)
            nx = o.next
            for c in o.cont:
                nx = self.merge(nx, c)
            cur = self.merge(nx, skip)
        out.next = cur
        if done is not None:
            out.brk = [done]
        return out

    def finish_loop(self, s, st, fr, out, o):
        """else clause and joins of the loop exits"""
        out.ret += o.ret
        out.exc += o.exc
        nx = o.next
        if getattr(s, 'orelse', None) and nx is not None:
            oe = self.exec_block(s.orelse, nx, fr)
            self.absorb(out, oe)
            nx = oe.next
        for b in o.brk:
            nx = self.merge(nx, b)
        out.next = nx

    def s_While(self, s, st, fr, out):
        # a condition that is decided concretely can be unrolled
        from .interp import Outs
        c0 = s.test

        def cond(bst):
            return self.decide(bst, self.cond(c0, bst, fr))

        def body(bst, k):
            return self.exec_block(s.body, bst, fr)
        # try concrete unrolling on a copy
        o = self.try_unroll_while(st, fr, cond, body, c0)
        if o is None:
            o = self.sym_loop(st, fr, None, body, cond)
        self.finish_loop(s, st, fr, out, o)

    def try_unroll_while(self, st, fr, cond, body, test=None):
        from .interp import Outs
        cur = st.fork()
        out = Outs()
        done = None
        savedp = self.pending
        self.pending = []
        for i in range(UNROLL):
            try:
                c = cond(cur)
            except Dead:
                self.pending = savedp
                return None
            if c is FALSE:
                out.exc += self.pending
                self.pending = savedp
                out.next = cur
                if done is not None:
                    out.brk = [done]
                return out
            if c is not TRUE:
                self.pending = savedp
                return None
            try:
                o = body(cur, const(i))
            except Dead:
                self.pending = savedp
                return None
            out.ret += o.ret
            out.exc += o.exc
            for b in o.brk:
                done = self.merge(done, b)
            nx = o.next
            for c in o.cont:
                nx = self.merge(nx, c)
            if nx is not None and o.brk and isinstance(test, ast.Constant):
                # the exit is not decided: a loop
                self.pending = savedp
                return None
            if nx is None:
                out.exc += self.pending
                self.pending = savedp
                out.next = None
                if done is not None:
                    out.brk = [done]
                return out
            cur = nx
        self.pending = savedp
        return None

    # ------------------------------------------------------------ the symbolic loop
    def sym_loop(self, st, fr, n, body, cond=None):
        """n: iteration count (or None), body(state, k) -> Outs, cond(state) -> T for while loops"""
        from .interp import Outs
        self.loops += 1
        if n is not None:
            z = self.decide(st, tm.lt(ZERO, n))
            if z is FALSE:
                out = Outs()
                out.next = st
                return out
        pre = st
        prefids = set(k[0] for k in pre.vars) | set(self.modframes[m].fid for m in self.modframes)
        f = fr
        while f is not None:
            prefids.add(f.fid)
            f = self.frames.get(f.parent)
        locs = {}
        res = None
        for rnd in range(9):
            k = tm.bv()
            for l in locs.values():
                l.phi = tm.phi(l.kind, self.locname(l.key))
                if l.key[0] == 'm':
                    l.dphi = tm.phi('bool', 'memo')
                if l.key[0] == 'v' and l.init is UNDEF:
                    l.dphi = tm.phi('bool', 'def')
            res = self.iterate(pre, locs, k, n, body, cond)
            new = self.changed(pre, locs, res, prefids)
            if not new:
                break
            if rnd == 8:
                for key in locs:
                    pass
        k, bst, outs, c, base = res
        return self.close_loop(pre, locs, k, n, c, outs, base, cond is not None)

    def locname(self, key):
        return str(key[-1]) if key[0] in ('v', 'a', 'd') else ''

    def iterate(self, pre, locs, k, n, body, cond):
        """analyse one iteration with phis in the modified locations"""
        from .interp import Outs
        bst = pre.fork()
        bst.rb = {kd: self.next_draw(pre, kd) for kd in ('uniform', 'randint', 'choice')}
        bst.log = []
        bst.ctx = pre.ctx + (k,)
        bst.base = len(bst.pc)
        for l in locs.values():
            self.set_loc(bst, l, pre, k)
        if n is not None:
            bst.assume(tm.lt(k, n))
            # (the guard of logged effects must not repeat the loop bound)
            bst.base = len(bst.pc)
        saved = self.pending
        self.pending = []
        c = TRUE
        try:
            if cond is not None:
                try:
                    c = cond(bst)
                    bst.assume(c)
                except Dead:
                    c = FALSE
            base = len(bst.pc)
            bst.base = base
            try:
                o = body(bst, k)
            except Dead:
                o = Outs()
            o.exc = self.pending + o.exc
        finally:
            self.pending = saved
        return (k, bst, o, c, base)

    def set_loc(self, st, l, pre, k):
        key = l.key
        if key[0] == 'm':
            if l.memo is None:
                st.heap[key[1]] = DictO({}, self.unk('dictionary filled in a loop'))
            else:
                st.heap[key[1]] = DictO({tm.subst(l.memo[1], {l.memo[0]: k}): (l.dphi, l.phi)}, MEMO)
            return
        if key[0] == 'v':
            v = l.phi
            if l.dphi is not None:
                v = GV(l.dphi, v, UNDEF)
            st.vars[key[1:]] = self.unphi(l, v)
        elif key[0] == 'l':
            o = pre.heap[key[1]]
            st.heap[key[1]] = ListO(seq=l.phi, kind=o.kind)
        elif key[0] == 'arr':
            o = pre.heap[key[1]]
            st.heap[key[1]] = ArrO(o.shape, o.vs, tm.mk('asel', l.phi, *o.vs), o.dtype, None)
        elif key[0] == 'a':
            o = st.heap[key[1]]
            at = dict(o.attrs)
            at[key[2]] = (l.dphi if l.dphi is not None else TRUE, l.phi)
            st.heap[key[1]] = InstO(o.cls, at, o.lazy)
        elif key[0] == 'd':
            o = st.heap[key[1]]
            ent = dict(o.ent)
            ent[key[2]] = (l.dphi if l.dphi is not None else TRUE, l.phi)
            st.heap[key[1]] = DictO(ent, o.taint)

    def unphi(self, l, v):
        return v

    def joined(self, outs):
        """one state for all ways an iteration can end"""
        cur = outs.next
        for s in outs.cont:
            cur = self.merge(cur, s)
        for s in outs.brk:
            cur = self.merge(cur, s)
        for s, v in outs.ret:
            cur = self.merge(cur, s)
        for s, e in outs.exc:
            cur = self.merge(cur, s)
        return cur

    def changed(self, pre, locs, res, prefids):
        k, bst, outs, c, base = res
        cur = self.joined(outs)
        new = False
        if cur is None:
            return False
        for key, v in cur.vars.items():
            if key[0] not in prefids:
                continue
            lk = ('v',) + key
            pv = pre.vars.get(key, UNDEF)
            if lk in locs:
                l = locs[lk]
                if not isinstance(v, (Func, Ext, Mod, Cls, Native)):
                    l_kind = self.vkind(cur, v, l)
                    j = tm.joink(l.kind, l_kind) if l_kind is not None else l.kind
                    if j != l.kind:
                        l.kind = j
                        new = True
                continue
            if v is pv:
                continue
            try:
                if v == pv:
                    continue
            except Exception:
                pass
            if isinstance(v, (Func, Ext, Mod, Cls, Native, Bound)):
                continue
            init = pv if pv is UNDEF or isinstance(pv, GV) and self.undef_cond(pv) is not FALSE else \
                self.reify(pre, pv)
            if not isinstance(init, T):
                init = UNDEF
            kind = self.vkind(cur, v, None)
            if init is not UNDEF:
                kind = tm.joink(tm.kindof(init), kind)
            locs[lk] = Loc(lk, init, kind or 'any')
            new = True
        for oid, o in cur.heap.items():
            po = pre.heap.get(oid)
            if po is None:
                continue
            if isinstance(o, ListO):
                lk = ('l', oid)
                if lk in locs:
                    l = locs[lk]
                    j = tm.joink(l.kind, tm.kindof(self.seq_of_list(o, cur)))
                    if j != l.kind:
                        l.kind = j
                        new = True
                    continue
                if o is po or o == po:
                    continue
                init = self.seq_of_list(po, pre)
                locs[lk] = Loc(lk, init, tm.joink(self.seqk(init), self.seqk(self.seq_of_list(o, cur))))
                new = True
            elif isinstance(o, ArrO):
                lk = ('arr', oid)
                if lk in locs or o is po or o == po:
                    continue
                init = tm.mk('arr', po.shape, po.vs, po.body, po.dtype)
                locs[lk] = Loc(lk, init, 'arr')
                new = True
            elif isinstance(o, DictO) and (('m', oid) in locs or o.taint is not None and o.taint is not po.taint):
                new = self.memo_loc(locs, oid, o, po, cur, k) or new
            elif isinstance(o, (InstO, DictO)):
                tag = 'a' if isinstance(o, InstO) else 'd'
                ents = o.attrs if tag == 'a' else o.ent
                pents = (po.attrs if tag == 'a' else po.ent)
                for nm, (p, v) in ents.items():
                    lk = (tag, oid, nm)
                    if lk in locs:
                        l = locs[lk]
                        j = tm.joink(l.kind, self.vkind(cur, v, l) or l.kind)
                        if j != l.kind:
                            l.kind = j
                            new = True
                        continue
                    pp, pv = pents.get(nm, (FALSE, None))
                    if pv is not None and (v is pv or v == pv) and p is pp:
                        continue
                    if isinstance(v, (Func, Ext, Mod, Cls, Native)):
                        continue
                    init = self.reify(pre, pv) if pv is not None else UNDEF
                    l = Loc(lk, init, 'any')
                    kd = self.vkind(cur, v, None) or 'any'
                    l.kind = kd if init is UNDEF else tm.joink(tm.kindof(init), kd)
                    if pp is not TRUE:
                        l.dphi = tm.phi('bool', 'def')
                    locs[lk] = l
                    new = True
        return new

    def memo_loc(self, locs, oid, o, po, cur, k):
        """a dictionary that the iterations fill, each under its own key"""
        lk = ('m', oid)
        l = locs.get(lk)
        if l is None:
            for x in [x for x in locs if x[0] == 'd' and x[1] == oid]:
                del locs[x]
            l = locs[lk] = Loc(lk, UNDEF, 'any')
            if o.taint is MEMO and po.taint is None and not po.ent and len(o.ent) == 1:
                (K, (p, v)), = o.ent.items()
                if k in K.fv and isinstance(v, (T, Ref, GV, VTup)):
                    l.memo = (k, K)
                    l.kind = self.vkind(cur, v, l) or 'any'
            return True
        if l.memo is None:
            return False
        m = self.memo_update(l, o, cur, k)
        if m is None:
            l.memo = None
            return True
        j = tm.joink(l.kind, self.vkind(cur, o.ent[m[0]][1], l) or l.kind)
        if j != l.kind:
            l.kind = j
            return True
        return False

    def memo_update(self, l, o, cur, k):
        """(key, value stored when the key is new), or None unless every iteration leaves the key's value, and never
        replaces one"""
        K = tm.subst(l.memo[1], {l.memo[0]: k})
        if o.taint is not MEMO or list(o.ent) != [K]:
            return None
        p, v = o.ent[K]
        if self.decide(cur, p) is not TRUE:
            return None
        u = self.reify(cur, v)
        old = tm.subst(u, {l.dphi: TRUE})
        val = tm.subst(u, {l.dphi: FALSE})
        if tm.isnone(val) is FALSE:
            old = tm.subst_term(old, {tm.isnone(l.phi): FALSE})
        if old is not l.phi or any(x.op in ('phi', 'unknown') and x not in K.fv for x in tm.subterms(val)):
            return None
        return K, val

    def memo_forms(self, l, o, cur, k):
        """what the dictionary holds for the key of iteration k when it starts"""
        K, val = self.memo_update(l, o, cur, k)
        parts, todo = [], [K]
        while todo:
            x = todo.pop()
            if x.op == 'tup':
                todo.extend(x.args)
            else:
                parts.append(x)

        def first(I):
            j = tm.bv()
            return tm.first(I, j, tm.and_(*[tm.eq(tm.subst(x, {k: j}), tm.subst(x, {k: I})) for x in parts]))
        same = k not in tm.subst_term(val, {x: tm.phi(tm.kindof(x), 'part') for x in parts}).fv
        if any(x is k for x in parts):
            def first(I):
                return I
        return (lambda I: tm.lt(first(I), I)), \
            (lambda I: tm.subst(val, {k: I if same else first(I)}))

    def seqk(self, t):
        k = tm.kindof(t)
        return k if tm.isseqkind(k) else ('seq', None)

    def vkind(self, st, v, l):
        """kind of the defined part of a value"""
        if v is UNDEF:
            return None
        if isinstance(v, GV):
            if v.b is UNDEF:
                return self.vkind(st, v.a, l)
            if v.a is UNDEF:
                return self.vkind(st, v.b, l)
            return tm.joink(self.vkind(st, v.a, l), self.vkind(st, v.b, l))
        if isinstance(v, T):
            return tm.kindof(v)
        return tm.kindof(self.reify(st, v))

    def loc_value(self, st, l, pre):
        """(value term, defined term) of a location in state st"""
        key = l.key
        if key[0] == 'm':
            return NONE, FALSE
        if key[0] == 'v':
            v = st.vars.get(key[1:], UNDEF)
            u = self.undef_cond(v)
            if u is TRUE:
                return NONE, FALSE
            return self.reify(st, self.strip_undef(st, v)), tm.not_(u)
        if key[0] == 'l':
            return self.seq_of_list(st.heap[key[1]], st), TRUE
        if key[0] == 'arr':
            o = st.heap[key[1]]
            if not isinstance(o, ArrO) or len(o.shape) != len(pre.heap[key[1]].shape):
                return self.unk('array changes rank in loop'), TRUE
            return tm.mk('arr', o.shape, o.vs, o.body, o.dtype), TRUE
        o = st.heap[key[1]]
        p, v = (o.attrs if key[0] == 'a' else o.ent).get(key[2], (FALSE, NONE))
        return self.reify(st, v), p

    def close_loop(self, pre, locs, k, n, c, outs, base, iswhile):
        from .interp import Outs
        locs = list(locs.values())
        cur = self.joined(outs)
        res = Outs()

        def relg(s):
            return tm.and_(*s.pc[base:]) if len(s.pc) > base else TRUE
        stop = tm.or_(*([relg(s) for s in outs.brk] + [relg(s) for s, v in outs.ret] +
                        [relg(s) for s, e in outs.exc])) if (outs.brk or outs.ret or outs.exc) else FALSE
        if cur is None:
            # the body cannot complete
            res.next = pre.fork()
            if n is not None:
                res.next.assume(tm.not_(tm.lt(ZERO, n)))
            return res
        # the phi vector
        phis, inits, upds = [], [], []
        slot = {}

        def addphi(ph, init, upd):
            slot[ph] = len(phis)
            phis.append(ph)
            inits.append(init)
            upds.append(upd)
        given = {}
        for l in locs:
            if l.key[0] == 'm':
                if l.memo is not None:
                    given[l.dphi], given[l.phi] = self.memo_forms(l, cur.heap[l.key[1]], cur, k)
                    addphi(l.dphi, FALSE, FALSE)
                    addphi(l.phi, NONE, NONE)
                continue
            v, d = self.loc_value(cur, l, pre)
            addphi(l.phi, NONE if l.init is UNDEF else l.init, v)
            l.upd = v
            if l.dphi is not None:
                key = l.key
                if key[0] == 'v':
                    dinit = FALSE
                else:
                    po = pre.heap[key[1]]
                    dinit = (po.attrs if key[0] == 'a' else po.ent).get(key[2], (FALSE, None))[0]
                addphi(l.dphi, dinit, d)
        # returns and exceptions inside the body
        rflag = rval = None
        xflags = []
        if outs.ret:
            rflag = tm.phi('bool', 'ret')
            g = tm.or_(*[relg(s) for s, v in outs.ret])
            s2, v2 = self.mergev(outs.ret)
            rv = self.reify(s2, v2)
            rval = tm.phi(tm.kindof(rv), 'retval')
            addphi(rflag, FALSE, g)
            addphi(rval, NONE, rv)
        bycls = {}
        for s, e in outs.exc:
            bycls.setdefault(e.cls, []).append((s, e))
        for cls, lst in bycls.items():
            xf = tm.phi('bool', 'raised')
            addphi(xf, FALSE, tm.or_(*[relg(s) for s, e in lst]))
            xflags.append((xf, lst[0][1]))
        bflag = None
        if outs.brk:
            bflag = tm.phi('bool', 'broke')
            addphi(bflag, FALSE, tm.or_(*[relg(s) for s in outs.brk]))
        cnt = tm.phi('int', 'count')
        cond = c if iswhile else TRUE
        sol = self.solve(phis, inits, upds, k, n, cond, stop, given)
        need_cnt = (iswhile or stop is not FALSE) and sol.N is None
        if need_cnt:
            addphi(cnt, ZERO, tm.add(cnt, ONE))
            sol.phis, sol.inits, sol.upds = phis, inits, upds
        sol.finish(tuple(phis), tuple(inits), tuple(upds), k, n, cond, stop)
        total = sol.N
        if total is None:
            total = sol.final(cnt)
        # post state
        post = pre.fork()
        for l in locs:
            if l.key[0] == 'm':
                post.heap[l.key[1]] = DictO({}, self.unk('dictionary filled in a loop'))
                continue
            v = sol.final(l.phi)
            d = sol.final(l.dphi) if l.dphi is not None else TRUE
            self.put_loc(post, l, v, d, pre)
        # library values assigned in the body
        for key, v in cur.vars.items():
            if key not in post.vars and isinstance(v, (Func, Ext, Mod, Cls, Native)) and \
                    (key[0] in set(x[0] for x in pre.vars)):
                post.vars[key] = v
        # effects of the body
        effs = self.exit_logs(outs, cur)
        if effs:
            # phis in the effects stand for the value at the start of iteration k
            m = {}
            for ph in phis:
                m[ph] = sol.at(ph, k)
            sub = [self.eff_subst(e, m) for e in effs]
            post.log.append(Eff(post.guard(), 'FOR', (), {}, self.where(), sub=sub, var=k, n=total))
        if cur.rng is not pre.rng:
            post.rng = tm.mk('call', 'rngloop', cur.rng)
        nxt = post
        if rflag is not None:
            g = sol.final(rflag)
            g = self.decide(nxt, g)
            if g is not FALSE:
                s2 = nxt.fork(g)
                res.ret.append((s2, sol.final(rval)))
                nxt.assume(tm.not_(g))
        for xf, e in xflags:
            g = self.decide(nxt, sol.final(xf))
            if g is not FALSE:
                res.exc.append((nxt.fork(g), e))
                nxt.assume(tm.not_(g))
        if bflag is not None:
            g = self.decide(nxt, sol.final(bflag))
            if g is TRUE:
                res.brk.append(nxt)
                nxt = None
            elif g is not FALSE:
                res.brk.append(nxt.fork(g))
                nxt.assume(tm.not_(g))
        res.next = nxt
        return res

    def exit_logs(self, outs, cur):
        return cur.log

    def eff_subst(self, e, m):
        r = Eff(tm.subst(e.guard, m), e.name, tuple(tm.subst(a, m) for a in e.args),
                {k: tm.subst(v, m) for k, v in e.kw.items()}, e.prov,
                sub=[self.eff_subst(x, m) for x in e.sub] if e.sub is not None else None,
                var=e.var, n=tm.subst(e.n, m) if e.n is not None else None,
                res=tm.subst(e.res, m) if isinstance(e.res, T) else e.res)
        return r

    def put_loc(self, st, l, v, d, pre):
        key = l.key
        if key[0] == 'v':
            if l.dphi is None:
                val = v
            else:
                val = v if d is TRUE else (UNDEF if d is FALSE else GV(d, v, UNDEF))
            st.vars[key[1:]] = self.boxvalue(st, val, l.kind)
        elif key[0] == 'l':
            st.heap[key[1]] = ListO(seq=v, kind=pre.heap[key[1]].kind) if v.op != 'lit' else \
                ListO(items=v.args, kind=pre.heap[key[1]].kind)
        elif key[0] == 'arr':
            o = pre.heap[key[1]]
            if v.op == 'arr' and len(v.args[1]) == len(o.vs):
                st.heap[key[1]] = ArrO(v.args[0], v.args[1], v.args[2], o.dtype, None)
            else:
                st.heap[key[1]] = ArrO(o.shape, o.vs, tm.asel(v, o.vs), o.dtype, None)
        elif key[0] == 'a':
            o = st.heap[key[1]]
            at = dict(o.attrs)
            at[key[2]] = (d, self.boxvalue(st, v, l.kind))
            st.heap[key[1]] = InstO(o.cls, at, o.lazy)
        elif key[0] == 'd':
            o = st.heap[key[1]]
            ent = dict(o.ent)
            ent[key[2]] = (d, self.boxvalue(st, v, l.kind))
            st.heap[key[1]] = DictO(ent, o.taint)

    def boxvalue(self, st, v, kind):
        """fresh mutable objects leaving a loop are re-boxed"""
        if isinstance(v, T) and tm.isseqkind(kind) and v.op != 'tup':
            return self.alloc(st, ListO(seq=v))
        if isinstance(v, T) and v.op == 'arr':
            return self.box_arr(st, v)
        return v

    # ------------------------------------------------------------ closed forms
    def solve(self, phis, inits, upds, k, n, cond, stop, given):
        return Solution(self, phis, inits, upds, k, n, cond, stop, given)

    # ------------------------------------------------------------ comprehensions
    def e_ListComp(self, n, st, fr):
        return self.comp(n, st, fr, lambda s, f, acc: self.list_append(s, acc, self.ev(n.elt, s, f)))

    def e_GeneratorExp(self, n, st, fr):
        return self.e_ListComp(n, st, fr)

    def e_SetComp(self, n, st, fr):
        r = self.e_ListComp(n, st, fr)
        return self.call_ext(st, 'builtins.set', [r], {})

    def e_DictComp(self, n, st, fr):
        return self.comp(n, st, fr, lambda s, f, acc: self.setitem(s, acc, self.ev(n.key, s, f),
                                                                   self.ev(n.value, s, f)), isdict=True)

    def comp(self, n, st, fr, emit, isdict=False):
        from .interp import Frame, Outs, local_names
        fid = ('c', next(self.fids))
        names = set()

        def tgt(t):
            if isinstance(t, ast.Name):
                names.add(t.id)
            elif isinstance(t, (ast.Tuple, ast.List)):
                for e in t.elts:
                    tgt(e)
            elif isinstance(t, ast.Starred):
                tgt(t.value)
        for g in n.generators:
            tgt(g.target)
        cfr = Frame(fid, fr.func, fr.fid, names, fr.mod)
        self.frames[fid] = cfr
        acc = self.alloc(st, DictO()) if isdict else self.new_list(st, items=())

        def gen(i, s):
            """returns Outs"""
            if i == len(n.generators):
                emit(s, cfr, acc)
                o = Outs()
                o.next = s
                return o
            g = n.generators[i]
            v = self.resolve(s, self.ev(g.iter, s, cfr if i else fr))

            def body(bst, elem):
                o = Outs()
                saved = self.pending
                self.pending = []
                try:
                    self.assign(g.target, elem, bst, cfr)
                    skips = []
                    for cnd in g.ifs:
                        c = self.decide(bst, self.cond(cnd, bst, cfr))
                        if c is FALSE:
                            skips.append(bst)
                            bst = None
                            break
                        if c is not TRUE:
                            skips.append(bst.fork(tm.not_(c)))
                            bst.assume(c)
                    if bst is not None:
                        o = gen(i + 1, bst)
                    o.cont = list(o.cont) + skips
                except Dead:
                    pass
                finally:
                    o.exc = self.pending + o.exc
                    self.pending = saved
                return o
            return self.for_loop(s, cfr, v, body)
        o = gen(0, st)
        self.pending.extend(o.exc)
        cur = o.next
        for b in o.brk:
            cur = self.merge(cur, b)
        if cur is None:
            raise Dead()
        st.become(cur)
        self.drop_frame(st, fid)
        return acc

    def map_values(self, st, iters, fn):
        """[fn(state, *elems) for elems in zip(*iters)] as a list"""
        from .interp import Frame, Outs
        acc = self.new_list(st, items=())
        its = [self.iter_of(st, v) for v in iters]
        fid = ('c', next(self.fids))
        cfr = Frame(fid, None, None, set(), None)
        cfr.mod = next(iter(self.modframes))
        self.frames[fid] = cfr
        z = self.zip_iter(st, its)

        def body(bst, elem):
            o = Outs()
            saved = self.pending
            self.pending = []
            try:
                xs = elem.items if len(its) > 1 else (elem,)
                v = fn(bst, *xs)
                self.list_append(bst, acc, v)
                o.next = bst
            except Dead:
                pass
            finally:
                o.exc = self.pending
                self.pending = saved
            return o
        o = self.for_loop(st, cfr, z if len(its) > 1 else its[0], body)
        self.pending.extend(o.exc)
        if o.next is None:
            raise Dead()
        st.become(o.next)
        return acc

    def zip_iter(self, st, its):
        if len(its) == 1:
            return its[0]
        if all(i.items is not None for i in its):
            return LazySeq(const(min(len(i.items) for i in its)), None,
                           items=[VTup(t) for t in zip(*[i.items for i in its])])
        ns = []
        for i in its:
            if i.n not in ns:
                ns.append(i.n)
        n = ns[0] if len(ns) == 1 else tm.maxmin('min', ns)

        def fn(k, s):
            return VTup([i.fn(k, s) for i in its])
        return LazySeq(n, fn)


class Solution(object):
    """closed forms of a loop's phi vector"""

    def __init__(self, I, phis, inits, upds, k, n, cond, stop, given):
        self.I = I
        self.k = k
        self.n = n
        self.cond = cond
        self.stop = stop
        self.closed = dict(given)          # phi -> fn(K) value after K iterations
        self.N = None
        self.phis, self.inits, self.upds = list(phis), list(inits), list(upds)
        self.run()

    def run(self):
        phis, inits, k = self.phis, self.inits, self.k
        self.cur = list(self.upds)
        cstop, ccond = self.stop, self.cond
        if self.closed:
            m = {p: f(k) for p, f in self.closed.items()}
            self.cur = [tm.subst(u, m) for u in self.cur]
            cstop, ccond = tm.subst(cstop, m), tm.subst(ccond, m)
        # (1) the iteration count when it does not depend on carried values
        for rnd in range(len(phis) + 2):
            progress = False
            pset = set(phis) - set(self.closed)
            for i, p in enumerate(phis):
                if p in self.closed:
                    continue
                u = self.cur[i]
                f = self.closed_form(p, inits[i], u, k, pset)
                if f is not None:
                    self.closed[p] = f
                    progress = True
                    m = {p: f(k)}
                    for j in range(len(phis)):
                        if p in self.cur[j].fv:
                            self.cur[j] = tm.subst(self.cur[j], m)
                    cstop = tm.subst(cstop, m)
                    ccond = tm.subst(ccond, m)
                    pset.discard(p)
            if not progress:
                break
        pset = set(phis) - set(self.closed)
        self.N = self.count(cstop, ccond, pset)
        if self.N is None:
            # closed forms stay valid "after K iterations" for values that do not depend on the exit
            pass

    def count(self, stop, cond, pset):
        k, n = self.k, self.n
        if stop.fv & pset or cond.fv & pset:
            return None
        if cond is not TRUE:
            # while loops: k + c < bound
            if stop is not FALSE:
                return None
            b = None
            if cond.op == 'lt':
                d = tm.sub(cond.args[1], cond.args[0])      # d > 0, d integer: d = b - k
                r = tm.add(d, k)
                if k not in r.fv and tm.is_int(d):
                    b = r
            elif cond.op == 'le':
                d = tm.sub(cond.args[1], cond.args[0])
                r = tm.add(d, k)
                if k not in r.fv and tm.is_int(d):
                    b = tm.add(r, ONE)
            elif cond.op == 'not' and cond.args[0].op == 'eq':
                e = cond.args[0]
                d = tm.sub(e.args[0], e.args[1])
                r = tm.add(d, k)
                r2 = tm.sub(d, k)
                if k not in r.fv and tm.is_int(d):
                    b = r
                elif k not in r2.fv and tm.is_int(d):
                    b = tm.neg(r2)
            if b is None:
                return None
            return b if tm.nonneg(b) else tm.maxmin('max', [ZERO, b])
        if n is None:
            return None
        if stop is FALSE:
            return n
        f = tm.first(n, k, stop)
        return tm.ite(tm.lt(f, n), tm.add(f, ONE), n)

    def closed_form(self, p, init, u, k, pset):
        others = pset - {p}
        if u is p:
            return lambda K: init
        if u.fv & others:
            return None
        if p not in u.fv:
            # the last value (or a value handed from one iteration to the next)
            def last(K, u=u, init=init):
                prev = tm.subst(u, {k: tm.sub(K, ONE)})
                if K is ZERO:
                    return init
                return tm.ite(tm.lt(ZERO, K), prev, init)
            return last
        kd = p.args[1]
        if kd in ('int', 'real') or tm.numeric(u):
            d = tm.sub(u, p)
            if p not in d.fv:
                def ssum(K, d=d, init=init):
                    v = tm.bv()
                    return tm.add(init, tm.red('sum', K, v, tm.subst(d, {k: v})))
                return ssum
            e = self.delta(p, u)
            if e is not None:
                def ssum2(K, d=e, init=init):
                    v = tm.bv()
                    return tm.add(init, tm.red('sum', K, v, tm.subst(d, {k: v})))
                return ssum2
        if kd == 'bool' or tm.is_bool(u):
            if u.op == 'or' and p in u.args:
                d = tm.or_(*[x for x in u.args if x is not p])
                if p not in d.fv:
                    def many(K, d=d, init=init):
                        v = tm.bv()
                        return tm.or_(tm.truth(init), tm.red('any', K, v, tm.subst(d, {k: v})))
                    return many
            if u.op == 'and' and p in u.args:
                d = tm.and_(*[x for x in u.args if x is not p])
                if p not in d.fv:
                    def mall(K, d=d, init=init):
                        v = tm.bv()
                        return tm.and_(tm.truth(init), tm.red('all', K, v, tm.subst(d, {k: v})))
                    return mall
        if tm.isseqkind(kd):
            a = self.appended(p, u)
            if a is not None and p not in a.fv:
                def app(K, a=a, init=init):
                    v = tm.bv()
                    b = tm.subst(a, {k: v})
                    return tm.concat(init, self.seq_over(K, v, b))
                return app
            # element k replaced by a function of element k
            if u.op == 'seqstore' and u.args[0] is p and u.args[1] is k:
                g = u.args[2]
                ph = tm.mk('sel', p, k)
                x = tm.phi('any', 'elem')
                g2 = tm.subst_term(g, {ph: x})
                if p not in g2.fv:
                    def upd(K, g2=g2, init=init, x=x):
                        v = tm.bv()
                        old = tm.sel(init, v)
                        return tm.mk('map', tm.length(init), v,
                                     tm.ite(tm.lt(v, K), tm.subst(g2, {k: v, x: old}), old))
                    return upd
        if kd == 'arr' and u.op == 'arr':
            shape, vs, body, dt = u.args
            ph = tm.mk('asel', p, *vs)
            x = tm.phi('real', 'elem')
            b2 = tm.subst_term(body, {ph: x})
            if p not in b2.fv:
                if init.op == 'arr' and init.args[0] == shape:
                    d = tm.sub(b2, x)
                    if x in d.fv:
                        d = self.delta(x, b2)
                    if d is not None and x not in d.fv:
                        def asum(K, d=d):
                            v = tm.bv()
                            ws = tuple(tm.bv() for _ in vs)
                            m = dict(zip(vs, ws))
                            m[k] = v
                            return tm.mk('arr', shape, ws, tm.add(
                                tm.asel(init, ws), tm.red('sum', K, v, tm.subst(d, m))), dt)
                        return asum
            # one axis of the store is the loop index: every row is touched by one iteration only
            if init.op == 'arr' and init.args[0] == shape:
                r = self.pinned(body, p, init, vs, k)
                if r is not None:
                    j, val, x = r

                    def aset(K, j=j, val=val, x=x):
                        ws = tuple(tm.bv() for _ in vs)
                        old = tm.asel(init, ws)
                        m = dict(zip(vs, ws))
                        m[k] = ws[j]
                        m[x] = old
                        return tm.mk('arr', shape, ws, tm.ite(
                            tm.lt(ws[j], K), tm.subst(val, m), old) if K is not shape[j] else tm.subst(val, m), dt)
                    return aset
        return None

    def pinned(self, body, p, init, vs, k):
        """(axis j, value): the iteration changes only elements whose j-th index is the loop index"""
        x = tm.phi('real', 'elem')
        own = tm.mk('asel', p, *vs)
        for j, v in enumerate(vs):
            m = {own: x}
            for t in tm.subterms(body):
                if t.op == 'asel' and t.args[0] is p and t is not own and len(t.args) == len(vs) + 1 and \
                        t.args[1 + j] is k:
                    m[t] = tm.asel(init, t.args[1:])
            b = tm.subst_term(body, m)
            if p in b.fv:
                continue
            hit = tm.eq(v, k)
            if tm.subst_term(b, {hit: FALSE}) is x:
                return j, tm.subst_term(b, {hit: TRUE}), x
        return None

    def delta(self, p, u):
        """d such that u = p + d, through gates; None if there is none"""
        if u is p:
            return ZERO
        if u.op == 'ite' and p not in u.args[0].fv:
            a, b = self.delta(p, u.args[1]), self.delta(p, u.args[2])
            if a is None or b is None:
                return None
            return tm.ite(u.args[0], a, b)
        if not (tm.numeric(u) or u.op == 'poly'):
            return None
        d = tm.sub(u, p)
        return d if p not in d.fv else None

    def appended(self, p, u):
        """s such that u = p ++ s, through gates"""
        if u is p:
            return tm.lit()
        if u.op == 'concat' and u.args[0] is p:
            r = tm.concat(*u.args[1:])
            return r if p not in r.fv else None
        if u.op == 'ite' and p not in u.args[0].fv:
            a, b = self.appended(p, u.args[1]), self.appended(p, u.args[2])
            if a is None or b is None:
                return None
            return tm.ite(u.args[0], a, b)
        if u.op == 'concat' and u.args[0].op == 'ite':
            a = self.appended(p, u.args[0])
            if a is None:
                return None
            r = tm.concat(a, *u.args[1:])
            return r if p not in r.fv else None
        return None

    def seq_over(self, K, v, s):
        """[x for v in range(K) for x in s]"""
        if s.op == 'lit' and len(s.args) == 1:
            return tm.mapseq(K, v, s.args[0])
        if s.op == 'lit' and not s.args:
            return tm.lit()
        if s.op == 'ite':
            a, b = s.args[1], s.args[2]
            if a.op == 'lit' and b.op == 'lit':
                if len(a.args) == 1 and not b.args:
                    return tm.fmapseq(K, v, s.args[0], a.args[0])
                if len(b.args) == 1 and not a.args:
                    return tm.fmapseq(K, v, tm.not_(s.args[0]), b.args[0])
                if len(a.args) == 1 and len(b.args) == 1:
                    return tm.mapseq(K, v, tm.ite(s.args[0], a.args[0], b.args[0]))
            r = self.as_fmap(s)
            if r is not None:
                c, e = r
                return tm.fmapseq(K, v, c, e)
        return tm.mk('flatmap', K, v, s)

    def as_fmap(self, s):
        """(cond, elem) when s has at most one element on every gate"""
        if s.op == 'lit':
            if not s.args:
                return FALSE, None
            if len(s.args) == 1:
                return TRUE, s.args[0]
            return None
        if s.op == 'ite':
            a, b = self.as_fmap(s.args[1]), self.as_fmap(s.args[2])
            if a is None or b is None:
                return None
            c = tm.ite(s.args[0], a[0], b[0])
            e = b[1] if a[1] is None else a[1] if b[1] is None else tm.ite(s.args[0], a[1], b[1])
            return c, e
        return None

    def finish(self, phis, inits, upds, k, n, cond, stop):
        self.phis, self.inits, self.upds = phis, inits, upds
        keep = [i for i, p in enumerate(phis) if p not in self.closed]
        # substitute closed forms in the remaining updates
        m = {p: f(k) for p, f in self.closed.items()}
        self.mphis = tuple(phis[i] for i in keep)
        self.minits = tuple(inits[i] for i in keep)
        cur = []
        for i in keep:
            u = upds[i]
            for _ in range(4):
                if not (u.fv & m.keys()):
                    break
                u = tm.subst(u, m)
            cur.append(u)
        self.mupds = tuple(cur)

        def s4(t):
            for _ in range(4):
                if not (t.fv & m.keys()):
                    break
                t = tm.subst(t, m)
            return t
        self.mcond, self.mstop = s4(cond), s4(stop)

    def at(self, p, K):
        """value at the start of iteration K (K executed iterations before)"""
        f = self.closed.get(p)
        if f is not None:
            return f(K)
        i = self.mphis.index(p)
        if K is self.k:
            # iterate on a fresh binder
            k2 = tm.bv()
            m = {self.k: k2}
            return tm.mk('mu', i, K, k2, self.mphis, self.minits,
                         tuple(tm.subst(u, m) for u in self.mupds), tm.subst(self.mcond, m),
                         tm.subst(self.mstop, m))
        return tm.mk('mu', i, K, self.k, self.mphis, self.minits, self.mupds, self.mcond, self.mstop)

    def final(self, p):
        f = self.closed.get(p)
        if f is not None and self.N is not None:
            return f(self.N)
        if self.N is not None:
            if p in self.mphis:
                i = self.mphis.index(p)
                return tm.mk('mu', i, self.N, self.k, self.mphis, self.minits, self.mupds, TRUE, FALSE)
        if f is not None:
            # the number of iterations is itself computed by the loop
            K = self.count_term()
            return f(K)
        i = self.mphis.index(p)
        return tm.mk('mu', i, self.n if self.n is not None else NONE, self.k, self.mphis, self.minits,
                     self.mupds, self.mcond, self.mstop)

    def count_term(self):
        for i, p in enumerate(self.mphis):
            if p.args[2] == 'count':
                return tm.mk('mu', i, self.n if self.n is not None else NONE, self.k, self.mphis,
                             self.minits, self.mupds, self.mcond, self.mstop)
        raise AssertionError('no counter')
