import math
import numpy as np
def t_diff(a): return np.diff(a)
def t_diff2(m): return np.diff(m)
def t_diff0(m): return np.diff(m, axis=0)
def t_isclose(a, b): return np.isclose(a, b, atol=0.5)
def t_allclose(a): return np.allclose(a, a)
def t_aeq(a, b): return np.array_equal(a, b)
def t_aeq2(a): return np.array_equal(a, a)
def t_roll(a): return np.roll(a, 1)
def t_roll2(m): return np.roll(m, -1, axis=1)
def t_roll3(m): return np.roll(m, (1, -1), axis=(0, 1))
def t_roll4(m): return np.roll(m, 2)
def t_outer(a, b): return np.outer(a, b)
def t_dot(a, b): return np.dot(a, b)
def t_dot2(m, a): return np.dot(m, a)
def t_dot3(m): return np.dot(m, m.T)
def t_matmul(m, a): return m @ a
def t_prod(m): return np.prod(m.shape)
def t_prod2(a): return np.prod(a)
def t_ptp(a): return np.ptp(a)
def t_avg(a, w): return np.average(a, weights=w)
def t_avg1(a): return np.average(a)
def t_var(a): return np.var(a)
def t_std(a): return np.std(a)
def t_bincount(k): return np.bincount(k)
def t_bincount2(k): return np.bincount(k, minlength=6)
def t_bincount3(k, a): return np.bincount(k[:4], weights=a)
def t_unravel(k): return np.unravel_index(k, (2, 2))
def t_rmi(k): return np.ravel_multi_index((k, k), (4, 4))
def t_round(a): return np.round(a, 1)
def t_round2(a): return round(float(a[0]), 2)
def t_round3(a): return a.round(1)
def t_round4(a): return np.round(a)
def t_fmax(n, a): return np.fmax(n, a)
def t_fmin(n, a): return np.fmin(n, a)
def t_maximum(n, a): return np.maximum(n, a)
def t_misclose(a, b): return math.isclose(a[0], b[0], rel_tol=0.5)
def t_cumsum(a): return np.cumsum(a)
def t_cumsum2(m): return np.cumsum(m, axis=1)
def t_nanmax(n): return np.nanmax(n) if not np.isnan(n).all() else 0
def t_nansum(p): return np.nansum(p, axis=0)
def t_median(a): return np.median(a)
def t_nanmean(p): return np.nanmean(np.where(np.isnan(p), 0, p))
def t_argsort(a): return np.argsort(a)
def t_sort(a): return np.sort(a)[::-1]
def t_unique(k): return np.unique(k)
def t_where(q): return np.where(q)
def t_argwhere(q): return np.argwhere(q)
def t_select(a): return np.select([a < 0, a < 1], [a, a * 2], default=7)
def t_clip(n): return np.clip(n, -0.5, 0.5)
def t_gradient(a): return np.gradient(a)
def t_gradient2(a): return np.gradient(a, 0.5, edge_order=2)
def t_searchsorted(a, b): return np.searchsorted(np.sort(a), b)
def t_searchsorted_r(k, a): return np.searchsorted(np.sort(k), 2, side='right')
def t_pad(m): return np.pad(m, 1, 'edge')
def t_pad0(m): return np.pad(m, ((1, 0), (0, 2)), 'constant', constant_values=3)
def t_tile(a): return np.tile(a, (2, 3))
def t_repeat(a): return np.repeat(a, 2)
def t_repeat2(m): return np.repeat(m, 2, axis=1)
def t_kron(m): return np.repeat(np.repeat(m, 2, axis=0), 3, axis=1)
def t_mask(a): return a[a > 0]
def t_masksum(m, q): return m[q].sum()
def t_addat(a, k):
    z = np.zeros(4)
    np.add.at(z, k[:4], a)
    return z
def t_count(q): return np.count_nonzero(q), np.count_nonzero(q, axis=0)
def t_argmax2(m): return np.argmax(m, axis=1), np.argmin(m)
def t_stack(a, b): return np.stack([a, b], axis=1)
def t_vstack(a, b): return np.vstack((a, b))
def t_hstack(a, b): return np.hstack((a, b))
def t_meshgrid(a, w):
    x, y = np.meshgrid(a, w)
    return x * 2 + y
def t_mgrid(m): return np.indices(m.shape)
def t_flip(m): return np.flipud(m)[::-1, ::-1]
def t_linspace(a): return np.linspace(a[0], a[1], 5)
def t_arange(k): return np.arange(k[0], 8, 2)
def t_floor(a): return a // 1, a % 1, np.floor(a), np.ceil(a), np.trunc(a)
def t_sign(a): return np.sign(a), np.abs(a), np.hypot(a, 1)
def t_int(a): return [int(x) for x in a], a.astype(int)
def t_nan2num(n): return np.nan_to_num(n)
def t_any(q): return q.any(axis=0), q.all(axis=1), np.any(q)
def t_sortl(k): return sorted(k.tolist(), reverse=True)
def t_sortkey(a, w): return [x for x, _y in sorted(zip(a, w), key=lambda t: t[1])]
def t_enum(a):
    out = []
    for i, v in enumerate(a):
        if i % 2 and v > 0:
            continue
        out.append((i, v))
    return out
def t_while(a):
    i, s = 0, 0
    while i < len(a) and s < 1:
        s += abs(a[i])
        i += 1
    return i, s
def t_dict(k):
    d = {}
    for x in k:
        d[int(x)] = d.get(int(x), 0) + 1
    return [d.get(i, 0) for i in range(4)]
def t_fmt(k): return '%03d' % k[0], '{:02d}'.format(k[1]), f'{int(k[2])}', str(int(k[3]))
def t_fromiter(k): return np.fromiter((int(x) + 1 for x in k), dtype=int)
def t_percent(a): return np.percentile(a, 50)
def t_interp(a): return np.interp(1.5, [0, 1, 2, 3], a)
def t_digitize(a): return np.digitize(a, [-1, 0, 1])
def t_set(k): return sorted(set(int(x) for x in k))
def t_minkey(a): return min(range(4), key=lambda i: abs(a[i]))
def t_maxdef(a): return max([x for x in a if x > 100], default=-1)
def t_allgen(a): return all(x > -5 for x in a), any(x > 1 for x in a)
def t_zip(m): return [list(t) for t in zip(*m.tolist())]
def t_slice(a): return a[::2], a[-2:], a[:-1], a[::-1]
def t_slassign(m):
    m = m.copy()
    m[1:, :2] = 0
    m[0] += 1
    m[m > 2] = 2
    return m
def t_delete(a): return np.delete(a, 1)
def t_insert(a): return np.insert(a, 1, 9.)
def t_append(a, b): return np.append(a, b[1:3])
def t_concat(m): return np.concatenate([m, m[:1]], axis=0)
def t_full(m): return np.full_like(m, 3), np.ones(3), np.zeros((2, 2)), np.eye(3), np.identity(2)
def t_tril(m): return np.triu(m)
def t_trapz(a): return sum((a[1:] + a[:-1]) / 2)
def t_flat(m): return m.ravel()[5], m.flatten()[2:4], m.reshape(4, 3), m.T
def t_ifexp(a): return 1 if 0 < a[0] < 1 else 2 if a[0] > 1 else 3
def t_power(a): return a ** 2, np.power(a, 3), np.square(a), np.sqrt(np.abs(a))
def t_maxmin(a): return a.max(), a.min(), a.mean(), a.sum()
def t_logical(q): return np.logical_not(q), ~q, q & (q == True), np.logical_or(q, ~q)
def t_isin(k): return np.isin(k, [1, 3])
def t_divmod(k): return np.divmod(k, 2), divmod(int(k[0]), 2)
def t_chain(k):
    import itertools
    return list(itertools.chain([1], k)), list(itertools.accumulate(k.tolist()))
def t_pairs(k):
    import itertools
    return [list(x) for x in itertools.product(k[:2].tolist(), k[:3].tolist())]
def t_comp2(m): return [[v for v in row if v > 0] for row in m]
def t_try(a):
    try:
        if a[0] > 0:
            raise ValueError('x')
        return 1
    except ValueError:
        return 2
    finally:
        a = None
def t_nested(m):
    s = 0
    for i in range(3):
        for j in range(4):
            if m[i, j] < 0:
                break
            s += m[i, j]
        else:
            s += 100
    return s
def t_fliplist(a):
    l = a.tolist()
    l.reverse()
    l.insert(1, 5)
    l.pop()
    l.extend([1, 2])
    del l[0]
    return l, l.index(5), l.count(1)
def t_ix(m): return m[np.ix_([0, 2], [1, 3])]
def t_fancy(m): return m[[0, 1], [2, 3]], m[:, [1, 2]]
def t_mean2(m): return m.mean(axis=0), np.max(m, axis=1), m.sum(axis=(0, 1))
def t_keep(m): return m - m.mean(axis=0, keepdims=True)
def t_newaxis(a, b): return a[:, None] * b[None, :]
def t_einsum(a): return np.cross([1, 0, 0], [0, 1, 0])
class _C(object):
    size = 3
    def __init__(self, v, scale=2):
        self.v = v
        self.scale = scale
    @property
    def twice(self): return self.v * self.scale
    @staticmethod
    def st(x): return x + 1
    @classmethod
    def make(cls, v): return cls(v, scale=cls.size)
    def __call__(self, x): return self.v + x
    def __len__(self): return 5
    def __getitem__(self, i): return self.v * i
    def __iter__(self):
        for i in range(3):
            yield self.v + i
    def __enter__(self):
        self.v = self.v + 1
        return self
    def __exit__(self, *a):
        self.v = 0
class _D(_C):
    def __init__(self, v):
        super(_D, self).__init__(v, 7)
        self.extra = 1
    def st2(self): return super().twice + self.extra
def t_cls(a):
    c = _C(a[0])
    d = _C.make(a[1])
    return c.twice, d.twice, c.st(1), _C.st(2), c(3), len(c), c[4]
def t_cls2(a):
    d = _D(a[0])
    return d.twice, d.st2(), isinstance(d, _C), hasattr(d, 'extra'), getattr(d, 'nope', 9)
def t_iterc(a): return list(_C(a[0]))
def t_with(a):
    with _C(a[0]) as c:
        x = c.v
    return x, c.v
def _gen(n):
    for i in range(n):
        if i % 2:
            continue
        yield i * 2
def t_gen(k): return list(_gen(5)), sum(_gen(int(k[0])))
def t_closure(a):
    n = [0]
    def add(x):
        n[0] += x
        return n[0]
    add(1)
    add(a[0])
    return n[0]
def t_nonlocal(a):
    n = 0
    def add(x):
        nonlocal n
        n += x
    for v in a:
        add(v)
    return n
def t_star(a):
    f = lambda *xs, **kw: sum(xs) + kw.get('z', 0)
    p, *q = a.tolist()
    return f(*q, z=p), q
def t_walrus(a):
    if (m := a.max()) > 1:
        return m
    return -m
def t_dictcomp(k):
    d = {c: i for i, c in enumerate('abc')}
    d.update(z=int(k[0]))
    d.setdefault('a', 5)
    d.pop('b')
    return sorted(d.items()), list(d), 'c' in d, d.get('q')
def t_str(k):
    s = 'a,b;c'
    return s.split(','), s.replace(';', '-').upper(), s.endswith('c'), s.find('b'), '-'.join(['x', str(int(k[0]))]), s[1:3]
def t_lst(k):
    l = [int(x) for x in k]
    l[1:3] = [9, 9, 9]
    l2 = l[:]
    l2.append(4)
    return l, l2, l == l2, 9 in l, [0] * 3 + [1]
def t_tern(a):
    x, y = a[0], a[1]
    x, y = (y, x) if x > y else (x, y)
    return x <= y, x, y
def t_chaincmp(a): return 0 < a[0] <= 3, not (a[1] == a[1])
def t_tryexc(k):
    try:
        return [1, 2, 3][int(k[0])]
    except IndexError:
        return -1
def t_tryelse(k):
    r = []
    for x in k:
        try:
            r.append(10 // int(x))
        except ZeroDivisionError:
            r.append(-1)
        else:
            r.append(7)
    return r
def t_keyerr(k):
    d = {'a': 1}
    try:
        return d['b']
    except KeyError:
        return 'none'
def t_forelse(k):
    for i in k:
        if i == 2:
            break
    else:
        return 'no'
    return 'yes'
def t_while2(k):
    n = int(k[0])
    out = []
    while True:
        out.append(n)
        n -= 1
        if n < 0:
            break
    return out
def t_zip3(a, b):
    return [x + y for (x, y) in zip(a, b)], [i * x for i, x in enumerate(a, 1)]
def t_sort2(a, k):
    o = sorted(range(4), key=lambda i: (k[i], -a[i]))
    return o
def t_sortrev(k): return sorted(range(5), key=lambda i: k[i], reverse=True)
def t_maxkey(k): return max(range(5), key=lambda i: k[i]), min(enumerate(k.tolist()), key=lambda t: t[1])[0]
def t_argmin_nan(n): return int(np.nanargmin(np.where(np.isnan(n), 9e9, n)))
def t_arr_store(a, k):
    z = np.zeros((4, 4))
    for i in range(4):
        z[int(k[i]), i] = a[i]
    return z
def t_arr_store2(k):
    z = np.zeros(4)
    for i in k:
        z[int(i)] += 1
    return z
def t_arr_store3(a, k):
    z = np.zeros(4)
    z[k] = 5
    z[k[:2]] += 1
    return z
def t_view(m):
    m = m.copy()
    v = m[1]
    v[0] = 100
    v += 1
    w = m[:, 2]
    w[:] = 0
    return m
def t_view2(m):
    m = m.copy()
    f = m.T
    f[0, 0] = 77
    return m
def t_maskset(m, q):
    m = m.copy()
    m[q] = 0
    m[~q] *= 2
    return m
def t_where2(a): return np.where(a > 1)[0]
def t_bool(a): return bool(a[0]), int(a[0] > 1), float(a[1]) , abs(-a[2])
def t_aug(k):
    l = [1]
    m = l
    m += [2]
    return l
def t_lam(a):
    fs = [lambda x, i=i: x + i for i in range(3)]
    return [f(a[0]) for f in fs]
def t_global(a): return _G[0] + a[0]
_G = [3, 4]
def t_setops(k): return sorted({1, 2} | {int(k[0])}), sorted(set([1, 2]) & set([2, 3])), len(set(k.tolist()))
def t_boolops(a): return a[0] and 3, a[0] or 4, (a > 0).tolist(), not a[0]
def t_strloop(k):
    s = ''
    for x in k:
        s += str(int(x)) + ','
    return s
def t_rec(k):
    def f(n): return 1 if n <= 0 else n * f(n - 1)
    return f(4)
def t_kwonly(a):
    def f(x, *, y=2): return x * y
    return f(a[0]), f(a[0], y=3)
def t_unpack(m):
    (p, q), r = (m[0, 0], m[0, 1]), m[1]
    return p, q, r
def t_del(k):
    d = {'a': 1, 'b': 2}
    del d['a']
    l = [1, 2, 3]
    del l[-1]
    return d, l
def t_assertish(k):
    if not isinstance(k, np.ndarray):
        raise TypeError
    return k.ndim, k.shape, k.size, len(k), k.dtype.kind == 'i'
def t_nestlist(k):
    out = [[] for _ in range(4)]
    for i, x in enumerate(k):
        out[int(x)].append(i)
    return out
def t_cumlist(a):
    out = [0.0]
    for x in a:
        out.append(out[-1] + x)
    return out
def t_two(a, k):
    hits = []
    last = None
    for i, x in enumerate(k):
        if last is not None and x != last:
            hits.append(i)
        last = x
    return hits
def t_any2(a): return any(map(lambda x: x > 1, a)), list(filter(lambda x: x > 1, a))
def t_rev(a): return list(reversed(a.tolist())), a.tolist()[::-2]
def t_idx(k): return k.tolist().index(k[2]), k.tolist().count(3)
def t_full2(m): return np.zeros(m.shape) + m.shape[0], np.ones_like(m) * m.ndim
def t_mean_empty(a): return np.mean(a[a > -1e9])
def t_any_axis(p): return np.isnan(p).any(axis=1), np.nansum(p), np.nanmax(np.where(np.isnan(p), -1, p))
def t_minimum_reduce(m): return np.minimum(m[0], m[1]).max(), np.maximum.reduce(m)
def t_inplace(a):
    a = a.copy()
    a *= 2
    a[a < 0] = 0
    a -= a.min()
    return a
def t_int2(a): return int(a[0] // 2), int(round(a[1])), a[2] % 3, -a[0] // 2, int(-1.5)
def t_complexidx(m):
    s = 0
    for (i, j), v in np.ndenumerate(m):
        s += i * v - j
    return s
def t_ndindex(m): return sum(m[i, j] * (i + 1) for i, j in np.ndindex(3, 4))
def t_nditer(m): return sum(float(x) for x in np.nditer(m))
def t_lists_eq(k): return [int(x) for x in k] == [3, 3, 2, 1, 0], (1, 2) < (1, 3)
def t_sum2(m): return sum(sum(r) for r in m), sum(m), sum([[1], [2]], [])
import collections
import contextlib
import types
from dataclasses import dataclass, field
from typing import NamedTuple
_P = collections.namedtuple('_P', 'x y')
class _Q(NamedTuple):
    x: float
    y: float = 2.0
@dataclass
class _R(object):
    x: float
    y: list = field(default_factory=list)
    z: int = 4
    def s(self): return self.x + self.z
@contextlib.contextmanager
def _cm(x):
    out = [x]
    try:
        yield out
    finally:
        out.append(9)
def t_nt(a):
    p = _P(a[0], y=a[1])
    x, y = p
    return p.x + p.y, x, y, p[1], len(p)
def t_nt2(a):
    q = _Q(a[0])
    return q.y, q.x, list(q)
def t_dc(a):
    r = _R(a[0])
    r.y.append(1)
    return r.s(), r.y, _R(1, z=2).z
def t_ns(a):
    n = types.SimpleNamespace(a=a[0], b=2)
    n.c = 5
    return n.a + n.b + n.c
def t_cm(a):
    with _cm(a[0]) as o:
        o.append(1)
    return o
def t_suppress(k):
    d = {'a': 1}
    r = 0
    with contextlib.suppress(KeyError):
        r = d['b']
    with contextlib.suppress(IndexError):
        r = [1, 2][int(k[0])]
        r += 10
    return r
def t_iter(k):
    it = iter(k.tolist())
    first = next(it)
    second = next(it)
    return first, second, [x for x in it]
def t_iter2(k):
    it = iter(k)
    prev = next(it)
    out = []
    for x in it:
        out.append(x - prev)
        prev = x
    return out
def t_genpairs(k):
    def pairs(s):
        for i in range(len(s) - 1):
            yield s[i], s[i + 1]
    return [y - x for x, y in pairs(k)]
def t_yieldfrom(k):
    def f():
        yield 1
        yield from k
        if k[0] > 2:
            return
        yield 7
    return list(f())
def t_finally(k):
    out = []
    for x in k:
        try:
            if x == 1:
                continue
            if x == 0:
                break
            out.append(x)
        finally:
            out.append(-1)
    return out
def t_classvar(a):
    class A(object):
        n = 0
        items = []
        def __init__(self): A.n += 1
        def add(self, x): self.items.append(x)
    p, q = A(), A()
    p.add(a[0])
    q.add(2)
    return A.n, p.items, p.n
def t_inherit(a):
    class B(object):
        def f(self): return self.g() + 1
        def g(self): return 0
    class D(B):
        def g(self): return a[0]
    return D().f(), issubclass(D, B), isinstance(D(), (B, int))
def t_eqcls(a):
    class B(object):
        def __init__(self, v): self.v = v
        def __add__(self, o): return B(self.v + o.v)
        def __eq__(self, o): return self.v == o.v
        def __lt__(self, o): return self.v < o.v
        def __contains__(self, x): return x == self.v
        def __bool__(self): return self.v > 0
    return (B(1) + B(a[0])).v, B(1) == B(1), 3 in B(3), bool(B(-1)), (1 if B(a[0]) else 2)
def t_setattr(a):
    class B(object): pass
    b = B()
    setattr(b, 'x', a[0])
    b.__dict__['y'] = 3
    return b.x + getattr(b, 'x'), hasattr(b, 'z'), vars(b)['x']
def t_slots(a):
    f = {'s': np.sin, 'n': lambda x: -x}
    return f['n'](a[0]), f.get('zz', abs)(a[1])
def t_unpackmid(k):
    first, *mid, last = k.tolist()
    return first, mid, last
def t_dictmerge(a):
    d = dict(a=1, b=2)
    e = {**d, 'b': 3, 'c': a[0]}
    return e['b'], e['c'], len(e), sorted(e)
def t_dictloop(a):
    d = {'u': a[0], 'v': a[1]}
    s = 0
    for k, v in d.items():
        s = s * 2 + v
        d[k] = 0
    return s, d
def t_strfmt(k): return 'a%s-%s' % (int(k[0]), 'b'), 'x{0}{1}{0}'.format('p', int(k[1])), f"{int(k[2])!s:>0}"
def t_bytes(k): return ''.join(c for c in 'abc' if c != 'b'), 'abc'.index('c'), 'a b'.split(), ' x '.strip(), 'abc'[::-1]
def t_multi(a):
    x = y = [a[0]]
    x.append(1)
    return y
def t_cond(a):
    r = None
    if a[0] > 0:
        r = 1
    if r is None:
        return -1
    return r
def t_argd(a):
    def f(x, acc=[]):
        acc.append(x)
        return acc
    f(1)
    return f(a[0])
def t_npbool(q): return np.all(q[0]) or not np.any(q[1])
def t_minmaxstar(a): return max(*a), min(a[0], a[1], 0)
def t_ranges(k): return list(range(5, 0, -2)), list(range(int(k[0]))), len(range(2, 9, 3))
def t_copy(a):
    import copy
    l = [[1], [2]]
    m, n = list(l), copy.deepcopy(l)
    m[0].append(3)
    n[1].append(4)
    return l, m, n
def t_partial(a):
    import functools
    return functools.partial(max, 2)(a[0]), functools.reduce(lambda x, y: x * 2 + y, [1, 2, 3])
def t_deep(m):
    rows = [list(r) for r in m]
    rows[1][2] = 0
    cols = list(zip(*rows))
    return sum(cols[2]), rows[0]
def t_count2(k):
    c = collections.Counter(k.tolist())
    return c[3], sum(c.values())
def t_defaultdict(k):
    d = collections.defaultdict(list)
    for i, x in enumerate(k.tolist()):
        d[x].append(i)
    return d[3], d[2]
def t_deque(k):
    d = collections.deque([1, 2])
    d.appendleft(0)
    d.append(3)
    return d.popleft(), list(d)
def t_stringbuild(k): return ', '.join(['%d' % x for x in k.tolist()]), str([1, 2]), str((1, 'a')), repr('x')
def t_nptypes(k): return np.int64(k[0]), np.float64(2), isinstance(k[0], (int, np.integer)), np.isscalar(k[0])
def t_arrcmp(a, b): return (a < b).sum(), (a == a).all(), np.where((a < b) & (b > 0), a, b)
def t_arr2d(m):
    r = np.zeros((3, 4))
    r[1:-1, 1:-1] = m[1:-1, 1:-1] * 2
    r[0, :] = m[-1]
    r[:, -1] = 7
    return r
def t_arr_neg(m): return m[-1, -2], m[-2:, ::2], m[..., 1], m[None, 0].shape
def t_arrnewdim(a): return a.reshape(2, 2), a.reshape(-1, 1).shape, a.reshape((1, -1))[0]
def t_bcast(m, a): return m + a, m * a[:3, None], a > m
def t_anyloop(m):
    for row in m:
        if any(v < -100 for v in row):
            return True
    return False
def t_accum(m):
    best, arg = -1e9, None
    for i in range(3):
        for j in range(4):
            if m[i, j] > best:
                best, arg = m[i, j], (i, j)
    return best, arg
def t_prefix(k):
    out, s = [], 0
    for x in k:
        s += x
        if s > 5:
            break
        out.append(s)
    return out, s
def t_whilelist(k):
    q = [int(k[0])]
    seen = []
    while q:
        x = q.pop()
        seen.append(x)
        if x > 0:
            q.append(x - 1)
    return seen
def t_c1(m):
    w = m[0:2, 1:3]
    w = w[np.isfinite(w)]
    return np.median(w), len(w)
def t_c2(m):
    w = m[0:2, 1:3]
    w = w[w > 0]
    md = np.median(w)
    mad = np.median(np.abs(w - md))
    return md, mad
def t_c3(m):
    w = m[0:2, 1:3]
    w = w[w > 0]
    md = np.median(w)
    f = w[np.abs(w - md) <= 2 * np.median(np.abs(w - md))]
    return len(f), np.mean(f)
def t_c4(m):
    out = np.zeros(m.shape)
    for i in range(m.shape[0]):
        for j in range(m.shape[1]):
            w = m[max(i-1, 0):i+2, max(j-1, 0):j+2]
            w = w[w > 0]
            if len(w) == 0:
                continue
            md = np.median(w)
            f = w[np.abs(w - md) <= 2 * np.median(np.abs(w - md))]
            out[i, j] = np.mean(f)
    return out
def t_c5(m):
    out = np.zeros(m.shape)
    for i in range(m.shape[0]):
        for j in range(m.shape[1]):
            w = m[max(i-1, 0):min(i+2, m.shape[0]), max(j-1, 0):min(j+2, m.shape[1])]
            w = w[~np.isnan(w)]
            if len(w) == 0:
                continue
            out[i, j] = np.median(w)
    return out
def t_c6(m):
    out = np.zeros(m.shape)
    for i in range(m.shape[0]):
        for j in range(m.shape[1]):
            w = m[max(i-1, 0):min(i+2, m.shape[0]), max(j-1, 0):min(j+2, m.shape[1])]
            w = w[np.isfinite(w)]
            if len(w) == 0:
                continue
            md = np.median(w)
            out[i, j] = np.median(np.abs(w - md))
    return out
