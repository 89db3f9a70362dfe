"""Symbolic inputs shared by the checks (the user-visible data model of dorado)."""
from . import terms as tm
from .terms import T, TRUE, FALSE, NONE, ZERO, ONE, const, sym, app, bv
from .heap import Ref, VTup, GV, Native, ListO, DictO, InstO
from .harness import arr_app, seq_app, seq2_app, list_of

H = tm.add(sym('H', 'nat'), const(3))
W = tm.add(sym('W', 'nat'), const(3))
LW = 'dorado.lagrangian_walker'
PT = 'dorado.particle_track'
RT = 'dorado.routines'
SP = 'dorado.spatial'
PR = 'dorado.parallel_routing'
LC = 'dorado.logging_config'
CT = ('enum', (-1, 0, 1, 2))


def in_grid(i, j):
    return tm.and_(tm.lt(i, H), tm.lt(j, W))


def interior(i, j, m=1):
    m = const(m)
    return tm.and_(tm.le(m, i), tm.lt(i, tm.sub(H, m)), tm.le(m, j), tm.lt(j, tm.sub(W, m)))


def grid(I, st, name, dom=('real',), dt='f', shape=None):
    return arr_app(I, st, name, shape or (H, W), dom, dt)


def dictv(I, st, ent):
    return I.alloc(st, DictO({k: (v if isinstance(v, tuple) else (TRUE, v)) for k, v in ent.items()}))


def inst(I, st, cls, attrs):
    return I.alloc(st, InstO(cls, {k: (v if isinstance(v, tuple) else (TRUE, v)) for k, v in attrs.items()}))


SQRT2 = tm.sqrt(const(2))


def particles(I, st, **over):
    """a constructed particles object with free fields"""
    at = {}
    for n in ('stage', 'qx', 'qy', 'u', 'v', 'velocity_angle'):
        at[n] = grid(I, st, n, ('nanreal',) if n == 'stage' else ('real',))
    at['depth'] = grid(I, st, 'depth', ('nonneg',))
    at['velocity'] = grid(I, st, 'velocity', ('pos',))
    at['cell_type'] = grid(I, st, 'cell_type', CT, 'i')
    at['weight'] = grid(I, st, 'weight', ('nonneg',), shape=(H, W, const(9)))
    t3 = (const(3), const(3))
    at['distances'] = grid(I, st, 'distances', ('pos',), shape=t3)
    for n in ('angles', 'ivec', 'jvec'):
        at[n] = grid(I, st, n, shape=t3)
    for n in ('iwalk', 'jwalk'):
        at[n] = grid(I, st, n, ('enum', (-1, 0, 1)), 'i', shape=t3)
    for n in ('dx', 'dry_depth', 'theta'):
        at[n] = sym(n, 'pos')
    at['gamma'] = sym('gamma', 'share')
    at['diff_coeff'] = sym('diff_coeff', 'nonneg')
    at['steepest_descent'] = sym('steepest', 'bool')
    at['verbose'] = sym('verbose', 'bool')
    at['roi_grid'] = GV(sym('has_roi', 'bool'), grid(I, st, 'roi', ('enum', (0, 1)), 'i'), NONE)
    at['available_particle_vars'] = dictv(I, st, {n: at[n] for n in ('depth', 'stage', 'qx', 'qy', 'u', 'v')})
    at.update(over)
    cls = I.func(PT, 'Particles') if PT in I.modframes else 'Particles'
    return inst(I, st, cls, at)


def params_obj(I, st, given=('depth', 'stage', 'qx', 'qy'), model='other', dx=True, tun=(), none=(), extra=None):
    """a user's parameter object; `given` fields are arrays, the others of modelParams() are None,
    `tun` lists optional attributes that exist, `none` attributes that exist and are None"""
    at = {}
    dom = {'depth': ('nanpos',), 'stage': ('nanreal',), 'topography': ('real',)}
    for n in ('depth', 'stage', 'qx', 'qy', 'u', 'v'):
        at[n] = NONE
    for n in given:
        at[n] = grid(I, st, n, dom.get(n, ('nanreal',)))
    at['dx'] = sym('dx', 'pos') if dx else NONE
    at['verbose'] = NONE
    if model == 'missing':
        pass
    elif model is None:
        at['model'] = NONE
    else:
        at['model'] = const(model)
    doms = {'theta': ('nonneg',), 'gamma': ('share',), 'diff_coeff': ('real',), 'dry_depth': ('nonneg',)}
    for n in tun:
        if n in doms:
            at[n] = sym(n, *doms[n])
        elif n == 'steepest_descent':
            at[n] = sym('sd', 'bool')
        elif n == 'cell_type':
            at[n] = grid(I, st, n, CT, 'i')
        elif n == 'roi_grid':
            at[n] = grid(I, st, 'roi', ('enum', (0, 1)), 'i')
        elif n in ('distances', 'angles', 'ivec', 'jvec'):
            at[n] = grid(I, st, n, ('pos',) if n == 'distances' else ('real',), shape=(const(3), const(3)))
        elif n in ('iwalk', 'jwalk'):
            at[n] = grid(I, st, n, ('enum', (-1, 0, 1)), 'i', shape=(const(3), const(3)))
    for n in none:
        at[n] = NONE
    at.update(extra or {})
    return inst(I, st, 'modelParams', at)


def construct(s, I, st, params, real_weights=False):
    """Particles(params)"""
    if not real_weights:
        I.stubs.setdefault(LW + '.make_weight', lambda I, st, a, k: NONE)
    cls = s.func(I, PT, 'Particles')
    return s.run(I, st, cls, [params])


class Obj(object):
    """read access to the joined result object"""

    def __init__(self, I, r):
        self.I, self.st, self.o = I, r.st, r.st.heap[r.val.oid]

    def has(self, n):
        return n in self.o.attrs and self.o.attrs[n][0] is TRUE

    def get(self, n):
        if n not in self.o.attrs:
            raise KeyError(n)
        return self.o.attrs[n][1]

    def term(self, n):
        return self.I.reify(self.st, self.get(n))

    def at(self, n, *idx):
        return elem(self.I, self.st, self.get(n), idx)


def elem(I, st, v, idx):
    """element of an array value"""
    v = I.resolve(st, v)
    if isinstance(v, GV):
        return tm.ite(v.c, elem(I, st, v.a, idx), elem(I, st, v.b, idx))
    if isinstance(v, Ref):
        return I.arr(st, v).at(tuple(idx))
    t = I.reify(st, v)
    return tm.asel(t, tuple(idx))


DX = ('intT', ONE, tm.sub(H, ONE))
DY = ('intT', ONE, tm.sub(W, ONE))


def cell(i, inner=True):
    return app('cx', DX if inner else ('nat',), i), app('cy', DY if inner else ('nat',), i)


def cells_of(I, st, n, inner=True):
    """current cells of n particles; inner: not on the border of the grid"""
    v = bv()
    return list_of(I, st, tm.mk('map', n, v, tm.lit(*cell(v, inner))))


def edge_weight(I, st):
    """routing weights: no direction on the border cells (established by C02)"""
    return I.new_arr(st, (H, W, const(9)), lambda vs: tm.ite(
        interior(vs[0], vs[1]), app('weight', ('nonneg',), *vs), ZERO), 'f')


# mostly open cells: sampled valuations where particles can move
CTR = ('enum', (1, 0, 1, 2, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 2, 1, -1))
BASE = ('xinds', 'yinds', 'travel_times')
VARDOM = {'roi_flag': ('enum', (0, 1))}


def walk(I, st, pre, n, opts=(), start=1, extra=None, ln=None):
    """walk data of n particles; particle i has start + <pre>len(i) entries in every history"""
    ln = ln or (lambda i: tm.add(const(start), app(pre + 'len', ('nat',), i)))
    doms = {'xinds': ('intT', ONE, tm.sub(H, ONE)), 'yinds': ('intT', ONE, tm.sub(W, ONE)), 'travel_times': ('real',)}
    short = {'xinds': 'x', 'yinds': 'y', 'travel_times': 't'}
    d = {}
    for k in BASE + tuple(opts):
        dom = doms.get(k) or ('opt', VARDOM.get(k, ('real',)))  # entries made before the variable was recorded are None
        d[k] = list_of(I, st, seq2_app(pre + short.get(k, k), n, ln, dom))
    d.update(extra or {})
    return dictv(I, st, d)


def strs(I, st, names):
    return I.new_list(st, [const(x) for x in names])


def tracker(I, st, tracked=(), walk_data=NONE, np_=ZERO, roi=None, **over):
    """a particles object ready to iterate, tracking the given variables"""
    names = list(tracked)
    r = grid(I, st, 'roi', ('enum', (0, 1)), 'i') if (roi if roi is not None else 'roi_flag' in names) else NONE
    at = {'tracked_variables': strs(I, st, list(BASE) + names), 'base_walk_variables': strs(I, st, BASE),
          'particle_variables': strs(I, st, names), 'optional_outputs': strs(I, st, names),
          'roi_grid': r, 'walk_data': walk_data, 'Np_tracer': np_,
          'cell_type': grid(I, st, 'cell_type', CTR, 'i'), 'weight': edge_weight(I, st)}
    at.update(over)
    return particles(I, st, **at)


def hist(I, st, p):
    """the histories of a particles object: {key: term}"""
    o = I.resolve(st, st.heap[p.oid].attrs['walk_data'][1])
    return dict_terms(I, st, o)


def dict_terms(I, st, v):
    v = I.resolve(st, v)
    if isinstance(v, GV):
        a, b = dict_terms(I, st, v.a), dict_terms(I, st, v.b)
        return {k: tm.ite(v.c, a.get(k, tm.unknown('missing ' + k)), b.get(k, tm.unknown('missing ' + k)))
                for k in list(a) + [k for k in b if k not in a]}
    return {k: I.reify(st, x) for k, (c, x) in st.heap[v.oid].ent.items()}


def each(n, fn):
    """forall i < n"""
    v = bv()
    return tm.red('all', n, v, fn(v))
