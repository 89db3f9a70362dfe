"""Library model, part 5: methods of strings, lists, dictionaries, arrays and opaque objects."""
import ast
from . import terms as tm
from .terms import T, TRUE, FALSE, NONE, ZERO, ONE, const
from .heap import (MEMO, Ref, VTup, Path, GV, UNDEF, Func, Native, Bound, Mod, Ext, Cls, SliceV, ELLIPSIS, LazySeq,
                   Flat, ListO, DictO, InstO, ArrO, ViewO, Exc, Eff)


class StrMixin(object):

    def call_method(self, st, obj, name, args, kw):
        obj = self.resolve(st, obj)
        if isinstance(obj, GV):
            return self.lift(st, obj, lambda s, o: self.call(s, self.getattr_(s, o, name), args, kw))
        if isinstance(obj, Ref):
            o = st.heap[obj.oid]
            if isinstance(o, ListO):
                return self.list_method(st, obj, o, name, args, kw)
            if isinstance(o, DictO):
                return self.dict_method(st, obj, o, name, args, kw)
            if isinstance(o, (ArrO, ViewO)):
                return self.arr_method(st, obj, o, name, args, kw)
            if isinstance(o, InstO):
                if name == 'get' and not isinstance(o.cls, Cls):
                    return self.dict_get(st, o.attrs, args)
                return self.unk('method %s' % name)
        if isinstance(obj, Path):
            return self.path_method(st, obj, name, args, kw)
        if isinstance(obj, (VTup, LazySeq)):
            if name in ('index', 'count'):
                return self.seq_query(st, self.reify(st, obj), name, args)
            return self.unk('method %s' % name)
        if isinstance(obj, T):
            if obj.op == 'arr':
                r = self.box_arr(st, obj)
                return self.arr_method(st, r, st.heap[r.oid], name, args, kw)
            if obj.op == 'dict':
                r = self.alloc(st, DictO({k: (p, v) for k, p, v in zip(*obj.args)}))
                return self.dict_method(st, r, st.heap[r.oid], name, args, kw)
            if tm.is_const(obj) and isinstance(obj.args[0], str) or self.is_str(obj):
                return self.str_method(st, obj, name, args, kw)
            if tm.isseqkind(tm.kindof(obj)):
                if name in ('index', 'count'):
                    return self.seq_query(st, obj, name, args)
                if name in ARRAY_METHODS:
                    r = self.box_arr(st, obj)
                    return self.arr_method(st, r, st.heap[r.oid], name, args, kw)
                if name == 'copy':
                    return self.new_list(st, seq=obj)
                self.log(st, 'mcall.' + name, [obj] + list(args), kw)
                return NONE if name in ('append', 'extend') else self.unk('method %s of a sequence value' % name)
            if name == 'copy' and not args:
                return obj
            if tm.kindof(obj) in ('int', 'real', 'bool') and not kw:
                if name in ('item', 'tolist') and not args:
                    return tm.plain(obj) if self.npnums else obj
                if name in ('sum', 'max', 'min', 'mean', 'squeeze', 'conjugate') and not args:
                    return obj
                if name in ('any', 'all') and not args:
                    return tm.truth(obj)
                if name == 'is_integer' and not args:
                    return tm.eq(obj, tm.fn1('int', obj))
            return self.opaque_method(st, obj, name, args, kw)
        if isinstance(obj, Flat):
            t = self.flat_term(st, obj)
            return self.call_method(st, t, name, args, kw)
        if isinstance(obj, Ext):
            return self.call_ext(st, obj.name + '.' + name, args, kw)
        return self.unk('method %s of %s' % (name, type(obj).__name__))

    def opaque_method(self, st, obj, name, args, kw):
        if obj.op == 'opaque' and obj.args[0] in self.GENERATORS and name in self.GENERATOR_METHODS:
            return self.generator_method(st, obj, name, args, kw)
        ts = [self.reify(st, a) for a in args]
        flat = []
        for k, v in sorted(kw.items()):
            flat += [const('kw:' + k), self.reify(st, v)]
        n = sum(1 for e in st.log if isinstance(e, Eff) and e.name == 'mcall.' + name)
        ctx = tuple(x for x in st.ctx)
        r = tm.mk('mcall', name, obj, *(ts + flat + list(ctx)))
        self.log(st, 'mcall.' + name, [obj] + list(args), kw, res=r)
        return r

    # ------------------------------------------------------------ strings
    def str_method(self, st, s, name, args, kw):
        ts = [self.reify(st, a) for a in args]
        if name == 'format':
            return self.strformat(st, s, args, kw)
        if name == 'join':
            it = self.items_of(st, args[0])
            if it is not None:
                parts = []
                for i, x in enumerate(it):
                    if i:
                        parts.append(s)
                    parts.append(self.reify(st, x))
                return self.strcat(parts)
            return tm.mk('call', 'join', s, ts[0])
        if tm.is_const(s) and all(tm.is_const(t) for t in ts) and not kw:
            try:
                r = getattr(s.args[0], name)(*[t.args[0] for t in ts])
            except Exception:
                r = None
            if isinstance(r, (str, bool, int)):
                return const(r)
            if isinstance(r, list) and all(isinstance(x, str) for x in r):
                return self.new_list(st, items=[const(x) for x in r])
        if name in ('startswith', 'endswith') and len(args) == 1 and isinstance(self.resolve(st, args[0]), VTup):
            return tm.or_(*[tm.truth(self.str_method(st, s, name, [x], {})) for x in self.resolve(st, args[0]).items])
        if name == 'startswith':
            return tm.truth(tm.mk('call', 'startswith', s, *ts))
        return tm.mk('opaque', 'str.' + name, s, *ts)

    def strformat(self, st, s, args, kw):
        if not (tm.is_const(s) and isinstance(s.args[0], str)):
            return tm.mk('strfmt', s, *[self.reify(st, a) for a in args])
        import string
        out, auto = [], 0
        try:
            for lit_, field, spec, conv in string.Formatter().parse(s.args[0]):
                if lit_:
                    out.append(const(lit_))
                if field is None:
                    continue
                if field == '':
                    v = args[auto]
                    auto += 1
                elif field.isdigit():
                    v = args[int(field)]
                else:
                    v = kw[field]
                if spec or conv:
                    if conv in (None, 's') and '{' not in spec:
                        out.append(self.fmt(st, v, spec))
                    else:
                        out.append(tm.mk('strfmt', const('{:' + spec + '}'), self.reify(st, v)))
                else:
                    out.append(self.tostr(st, v))
        except (KeyError, IndexError, ValueError):
            return tm.mk('strfmt', s, *[self.reify(st, a) for a in args])
        return self.strcat(out)

    # ------------------------------------------------------------ lists
    def seq_query(self, st, t, name, args):
        x = self.reify(st, args[0])
        n = tm.length(t)
        v = tm.bv()
        hit = tm.eq(tm.sel(t, v), x)
        if name == 'count':
            return tm.red('sum', n, v, tm.ite(hit, ONE, ZERO))
        return tm.first(n, v, hit)

    def path_method(self, st, obj, name, args, kw):
        if name == 'append':
            self.list_append(st, obj, args[0])
            return NONE
        if name == 'extend':
            self.list_extend(st, obj, args[0])
            return NONE
        t = self.path_term(st, obj)
        if name in ('index', 'count'):
            return self.seq_query(st, t, name, args)
        if name == 'copy':
            return self.new_list(st, seq=t)
        r = self.new_list(st, seq=t)
        v = self.list_method(st, r, st.heap[r.oid], name, args, kw)
        o = st.heap[r.oid]
        self.path_store(st, obj, self.seq_of_list(o, st))
        return v

    def list_method(self, st, ref, o, name, args, kw):
        if name == 'append':
            self.list_append(st, ref, args[0])
            return NONE
        if name in ('extend', 'update'):
            if o.kind == 'set':
                self.set_seq(st, ref, seq=tm.mk('call', 'unique', tm.concat(
                    self.seq_of_list(o, st), self.val_seq(st, args[0]))))
                return NONE
            self.list_extend(st, ref, args[0])
            return NONE
        if name == 'add' and o.kind == 'set':
            x = args[0]
            if o.items is not None and x in o.items:
                return NONE
            if o.items is not None and all(isinstance(y, T) and tm.is_const(y) for y in o.items + (x,)):
                st.heap[ref.oid] = ListO(items=o.items + (x,), kind='set')
                return NONE
            self.set_seq(st, ref, seq=tm.mk('call', 'unique', tm.concat(
                self.seq_of_list(o, st), tm.lit(self.reify(st, x)))))
            return NONE
        if name == 'insert':
            i = self.reify(st, args[0])
            if o.items is not None and tm.is_num_const(i):
                l = list(o.items)
                l.insert(i.args[0], args[1])
                st.heap[ref.oid] = ListO(items=l, kind=o.kind)
                return NONE
            s = self.seq_of_list(o, st)
            if i is ZERO:
                self.set_seq(st, ref, seq=tm.concat(tm.lit(self.reify(st, args[1])), s))
            else:
                n = tm.length(s)
                i = self.norm_index(st, i, n)
                self.set_seq(st, ref, seq=tm.concat(tm.slice_(s, ZERO, i, ONE), tm.lit(self.reify(st, args[1])),
                                                    tm.slice_(s, i, n, ONE)))
            return NONE
        if name == 'pop':
            if o.items is not None and (not args or tm.is_num_const(args[0])):
                l = list(o.items)
                k = args[0].args[0] if args else -1
                if not -len(l) <= k < len(l):
                    self.raise_(st, 'IndexError')
                x = l.pop(k)
                st.heap[ref.oid] = ListO(items=l, kind=o.kind)
                return x
            s = self.seq_of_list(o, st)
            n = tm.length(s)
            self.may_raise(st, tm.not_(tm.lt(ZERO, n)), 'IndexError')
            i = self.norm_index(st, args[0], n) if args else tm.sub(n, ONE)
            x = tm.sel(s, i)
            self.set_seq(st, ref, seq=tm.concat(tm.slice_(s, ZERO, i, ONE),
                                                tm.slice_(s, tm.add(i, ONE), n, ONE)))
            return x
        if name == 'copy':
            return self.alloc(st, o)
        if name == 'clear':
            st.heap[ref.oid] = ListO(items=(), kind=o.kind)
            return NONE
        if name == 'reverse':
            if o.items is not None:
                st.heap[ref.oid] = ListO(items=list(reversed(o.items)))
                return NONE
            r = self.b_reversed(st, [ref], {})
            st.heap[ref.oid] = st.heap[r.oid]
            return NONE
        if name == 'sort':
            r = self.b_sorted(st, [ref], kw)
            st.heap[ref.oid] = st.heap[r.oid]
            return NONE
        if name in ('index', 'count'):
            if o.items is not None and name == 'index':
                for i, x in enumerate(o.items):
                    if x == args[0]:
                        return const(i)
                    if not (isinstance(x, T) and tm.is_const(x) and isinstance(args[0], T) and tm.is_const(args[0])):
                        break
            return self.seq_query(st, self.seq_of_list(o, st), name, args)
        if name in ('remove', 'discard') and o.items is not None:
            x = args[0]
            if x in o.items:
                l = list(o.items)
                l.remove(x)
                st.heap[ref.oid] = ListO(items=l, kind=o.kind)
                return NONE
        if name == 'union' and o.kind == 'set':
            return self.alloc(st, ListO(seq=tm.mk('call', 'unique', tm.concat(
                self.seq_of_list(o, st), self.val_seq(st, args[0]))), kind='set'))
        if name == 'issubset':
            a = self.items_of(st, args[0])
            if o.items is not None and a is not None:
                return tm.and_(*[self.contains(st, x, args[0]) for x in o.items])
        if name == '__len__':
            return self.b_len(st, [ref], {})
        self.set_seq(st, ref, seq=self.unk('list method ' + name))
        return self.unk('list method ' + name)

    # ------------------------------------------------------------ dictionaries
    def opt_seq(self, st, pairs):
        """sequence of the present elements"""
        if all(p is TRUE for p, _ in pairs):
            return LazySeq(const(len(pairs)), None, items=[x for _, x in pairs])
        n = tm.add(ZERO, *[tm.ite(p, ONE, ZERO) for p, _ in pairs])

        def fn(k, s):
            t = tm.concat(*[tm.ite(p, tm.lit(self.reify(s, x)), tm.lit()) for p, x in pairs])
            return tm.sel(t, k)
        return LazySeq(n, fn, src=('optitems', list(pairs)))

    def m_dict_keys(self, st, ref, o):
        return self.opt_seq(st, [(self.decide(st, p), self.unkey(k)) for k, (p, v) in o.ent.items()
                                 if p is not FALSE])

    def dict_get(self, st, ent, args):
        k = self.key(st, args[0])
        d = args[1] if len(args) > 1 else NONE
        if k is None:
            return self.unk('dictionary get')
        p, v = ent.get(k, (FALSE, None))
        p = self.decide(st, p)
        if p is FALSE:
            return d
        if p is TRUE:
            return v
        return self.resolve(st, self.vmerge(p, v, d))

    def dict_method(self, st, ref, o, name, args, kw):
        if name in ('get', 'setdefault') and args and ref.oid not in self.factories:
            k = self.memo_key(st, o, args[0])
            if k is not None:
                c, v = self.memo_find(st, o, k)
                d = args[1] if len(args) > 1 else NONE
                r = d if v is None else self.resolve(st, self.vmerge(c, v, d))
                if name == 'setdefault':
                    st.heap[ref.oid] = DictO({k: (TRUE, r)}, MEMO)
                return r
        if name in ('get', 'setdefault', 'pop') and args and o.taint is not None and self.key(
                st, args[0]) not in o.ent:
            if name != 'get':
                st.heap[ref.oid] = DictO({}, self.unk('dictionary ' + name))
            return self.unk('dictionary ' + name)
        if name in ('get', 'setdefault', 'pop') and args and o.taint is None:
            k = self.dkey(st, args[0])
            if k is not None and self.symkeys(o, k):
                c, v = self.dict_find(st, o, k)
                d = args[1] if len(args) > 1 else NONE
                if name == 'get':
                    return d if v is None else self.resolve(st, self.vmerge(c, v, d))
                if name == 'pop':
                    if len(args) < 2:
                        self.may_raise(st, tm.not_(c), 'KeyError')
                    self.dict_drop(st, ref, o, k)
                    return d if v is None else v if len(args) < 2 else self.resolve(st, self.vmerge(c, v, d))
                r = d if v is None else self.resolve(st, self.vmerge(c, v, d))
                self.dict_put(st, ref, o, k, r)
                return r
        if name in ('keys', 'values', 'items', 'iteritems', 'popitem') and o.taint is not None:
            return self.unk('dictionary with unknown keys')
        if name == 'keys':
            return self.m_dict_keys(st, ref, o)
        if name == 'values':
            return self.opt_seq(st, [(self.decide(st, p), v) for k, (p, v) in o.ent.items() if p is not FALSE])
        if name in ('items', 'iteritems'):
            return self.opt_seq(st, [(self.decide(st, p), VTup([self.unkey(k), v])) for k, (p, v) in o.ent.items()
                                     if p is not FALSE])
        if name == 'get':
            if o.taint is not None and self.key(st, args[0]) not in o.ent:
                return self.unk('dictionary get')
            return self.dict_get(st, o.ent, args)
        if name == 'update':
            if args:
                self.dict_update(st, ref, args[0])
            for k, v in kw.items():
                self.setitem(st, ref, const(k), v)
            return NONE
        if name == 'copy':
            r = self.alloc(st, o)
            if ref.oid in self.factories:
                self.factories[r.oid] = self.factories[ref.oid]
            return r
        if name == 'setdefault':
            k = self.key(st, args[0])
            if k is not None:
                p, v = o.ent.get(k, (FALSE, None))
                d = args[1] if len(args) > 1 else NONE
                nv = d if v is None or p is FALSE else self.vmerge(p, v, d)
                ent = dict(o.ent)
                ent[k] = (TRUE, nv)
                st.heap[ref.oid] = DictO(ent, o.taint)
                return nv
        if name == 'pop':
            k = self.key(st, args[0])
            if k is not None:
                p, v = o.ent.get(k, (FALSE, None))
                if len(args) > 1:
                    r = args[1] if v is None else self.vmerge(p, v, args[1])
                else:
                    self.may_raise(st, tm.not_(p), 'KeyError')
                    r = v
                ent = dict(o.ent)
                ent.pop(k, None)
                st.heap[ref.oid] = DictO(ent, o.taint)
                return r
        if name == 'popitem':
            ps = list(o.ent.items())
            if o.taint is None and all(p is TRUE for k, (p, v) in ps) and not self.symkeys(o):
                if not ps:
                    self.raise_(st, 'KeyError', const('popitem'))
                k, (p, v) = ps[-1]
                st.heap[ref.oid] = DictO(dict(ps[:-1]), o.taint)
                return VTup([self.unkey(k), v])
            st.heap[ref.oid] = DictO(o.ent, self.unk('call of popitem'))
            return VTup([o.ent and self.unk('popitem') or NONE, self.unk('popitem')])
        if name == 'clear':
            st.heap[ref.oid] = DictO()
            return NONE
        if name == '__len__':
            return self.b_len(st, [ref], {})
        return self.unk('dict method ' + name)

    # ------------------------------------------------------------ arrays
    def arr_method(self, st, ref, o, name, args, kw):
        if name == 'copy':
            a = self.arr(st, ref)
            return self.alloc(st, self.compressed(a) if a.mask is not None else a)
        if name in ('flatten', 'ravel'):
            return self.call_numpy(st, 'ravel', [ref] + list(args), kw)
        if name == 'astype':
            dt = self.dtype_name(st, self.resolve(st, args[0] if args else kw.get('dtype')), None)
            a = self.arr(st, ref)
            body = a.body
            if getattr(dt, 'width', None):
                body = self.coerce(dt, body)
            elif dt == 'i':
                body = self.coerce('i', body)
            elif dt == 'b':
                body = tm.truth(body)
            elif dt == 'f':
                body = self.num(body)
            if kw.get('copy') not in (None, TRUE):
                if kw['copy'] is not FALSE:
                    self.unk('call of astype with copy')
                elif o.dtype == dt and not getattr(dt, 'width', None):
                    return ref
            return self.alloc(st, ArrO(a.shape, a.vs, body, dt, a.mask))
        if name == 'tolist':
            return self.tolist_arr(st, ref)
        if name == 'fill':
            v = self.reify(st, args[0])
            self.arr_store(st, ref, lambda ws: (TRUE, v))
            return NONE
        if name == 'reshape':
            a = args[0] if len(args) == 1 else VTup(args)
            return self.np_reshape(st, [ref] + ([a] if args else []), kw)
        if name == 'item':
            r = self.item_arr(st, ref, args)
            return tm.plain(r) if self.npnums and isinstance(r, T) else r
        if name == 'transpose':
            return self.np_transpose(st, [ref], {}) if not args else self.np_transpose(
                st, [ref, args[0] if len(args) == 1 else VTup(args)], {})
        if name == 'sort' and not kw:
            r = self.np_sort(st, [ref], {})
            if isinstance(r, Ref):
                self.arr_fill(st, ref, r)
            else:
                self.arr_havoc(st, ref, 'sort')
            return NONE
        if name in ARRAY_METHODS:
            return self.call_numpy(st, name, [ref] + list(args), kw)
        if name in ('dump', 'tofile'):
            return self.opaque_call(st, 'numpy.' + name, [ref] + list(args), kw)
        return self.unk('array method ' + name)

    def item_arr(self, st, ref, args):
        if len(args) > 1:
            return self.getitem(st, ref, VTup(args))
        if args and isinstance(args[0], VTup):
            return self.getitem(st, ref, args[0])
        if args:
            a = self.ravel_arr(self.plain(st, ref))
            return a.at((self.norm_index(st, args[0], a.shape[0]),))
        a = self.plain(st, ref)
        return a.at([ZERO] * len(a.shape))

    def tolist_arr(self, st, ref):
        a = self.plain(st, ref)
        t = tm.plain(a.body) if self.npnums else a.body
        if a.shape == ():
            return t
        for n, v in reversed(list(zip(a.shape, a.vs))):
            t = tm.mapseq(n, v, t)
        return self.new_list(st, seq=t) if t.op != 'lit' else self.new_list(st, items=t.args)


ARRAY_METHODS = {'sum', 'max', 'min', 'mean', 'any', 'all', 'argmin', 'argmax', 'cumsum', 'round', 'clip', 'std',
                 'var', 'prod', 'nonzero', 'squeeze', 'repeat', 'argsort', 'take', 'searchsorted', 'dot',
                 'flatten', 'ravel', 'copy', 'astype', 'tolist', 'reshape', 'item', 'transpose', 'median',
                 'shape', 'size'}
