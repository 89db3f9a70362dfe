from checks.gen import *

check = Check('C28', 'the value graph of every raster cell equals the reference interpolation at the coordinates of that cell')
NPT = tm.add(sym('npt', 'nat'), ONE)
CS = sym('cs', 'pos')
I_, J_ = sym('i', 'nat'), sym('j', 'nat')


class Grid(object):
    pass


def models(I, g):
    for ext, cl in (('scipy.spatial.cKDTree', 'Tree'), ('scipy.spatial.KDTree', 'Tree'),
                    ('scipy.interpolate.NearestNDInterpolator', 'Nearest'), ('matplotlib.path.Path', 'Path')):
        c = I.func('gridding', cl)
        I.stubs['ext:' + ext] = lambda I, st, a, k, c=c: I.call(st, c, a, k)
    g.trees, g.bounds = [], []
    I.recorders += [g.trees, g.bounds]
    nn = ('intT', ZERO, NPT)

    def query(I, st, a, k):
        xy, pts, kk = a
        g.trees.append((st.fork(), xy))
        p = I.arr(st, pts)

        def at(name, dom):
            return lambda vs: app(name, dom, elem(I, st, pts, (vs[0], ZERO)), elem(I, st, pts, (vs[0], ONE)),
                                  *(tuple(vs[1:]) or (ZERO,)))
        shp = (p.shape[0],) if kk is ONE else (p.shape[0], kk)
        return VTup([I.new_arr(st, shp, at('dist', ('nonneg',)), 'f'), I.new_arr(st, shp, at('nn', nn), 'i')])

    def inside(I, st, a, k):
        g.bounds.append(I.reify(st, a[0]))
        p = I.arr(st, a[1])
        return I.new_arr(st, (p.shape[0],), lambda vs: app('inside', ('bool',), elem(I, st, a[1], (vs[0], ZERO)),
                                                           elem(I, st, a[1], (vs[0], ONE))), 'b')
    I.stubs['gridding.query_points'] = query
    I.stubs['gridding.inside_points'] = inside
    I.stubs['gridding.tree_index'] = lambda I, st, a, k: app('nn', nn, *a[1:])
    I.stubs['gridding.tree_dist'] = lambda I, st, a, k: app('dist', ('nonneg',), *a[1:])


def gridded(s, k, boundary, crop=None, dom='real'):
    g = Grid()
    g.I = I = s.interp([PT], specs=['gridding'])
    models(I, g)
    g.st = st = I.new_state()
    v = bv()
    xy = list_of(I, st, tm.mk('map', NPT, v, tm.mk('tup', app('px', ('real',), v), app('py', ('real',), v))))
    g.xs, g.ys = list_of(I, st, seq_app('px', NPT)), list_of(I, st, seq_app('py', NPT))
    g.q = list_of(I, st, seq_app('q', NPT, (dom,)))
    g.boundary = sym('boundary', 'any') if boundary else NONE
    kw = {'boundary': g.boundary}
    if crop is not None:
        kw['crop'] = const(crop)
    if k is not None:
        kw['k_nearest_neighbors'] = const(k)
    f = s.func(I, PT, 'unstruct2grid')
    before = I.reify(st, g.q)
    g.r = r = s.run(I, st, f, [xy, g.q, CS], kw)
    g.k = k or 3
    s.true('returns', r.guard())
    sh = s.spec(I, st, 'gridding', 'shape', [g.xs, g.ys, CS])
    g.rows, g.cols = tm.sel(sh, ZERO), tm.sel(sh, ONE)
    g.ok = tm.and_(tm.lt(I_, g.rows), tm.lt(J_, g.cols))
    s.eq('the data are left alone', I.reify(r.st, g.q), before)
    m = sym('m', 'nat')
    for st1, t in g.trees[:1]:
        for c, n in ((ZERO, 'px'), (ONE, 'py')):
            s.eq('samples searched: ' + n, elem(I, st1, t, (m, c)), app(n, ('real',), m), assume=tm.lt(m, NPT))
    for b in g.bounds:
        s.eq('boundary', b, g.boundary)
    return g


def want(s, g, data, i, j):
    I, st = g.I, g.st
    p = s.spec(I, st, 'gridding', 'cell_point', [g.xs, g.ys, CS, i, j])
    x, y = tm.sel(p, ZERO), tm.sel(p, ONE)
    t = s.spec(I, st, 'gridding', 'value', [data, NONE, x, y, const(g.k)])
    if g.boundary is not NONE:
        t = tm.ite(app('inside', ('bool',), x, y), t, const(float('nan')))
    return t


def values(s, k, boundary):
    g = gridded(s, k, boundary, crop=False)
    I, r = g.I, g.r
    out = I.getitem(r.st, r.val, ONE)
    s.eq('shape', tm.lit(*I.arr(r.st, out).shape), tm.lit(g.rows, g.cols))
    s.eq('value of every cell', elem(I, r.st, out, (I_, J_)), want(s, g, g.q, I_, J_), assume=g.ok, samples=150)
    # the returned function grids further data of the same points
    for lab, mk in (('list', lambda st: list_of(I, st, seq_app('q2', NPT))),
                    ('array', lambda st: I.new_arr(st, (NPT,), lambda vs: app('q2', ('real',), vs[0]), 'f')),
                    ('whole-number array', lambda st: I.new_arr(st, (NPT,), lambda vs: app('q2', ('int',), vs[0]), 'i'))):
        st = r.st.fork()
        d = mk(st)
        r2 = s.run(I, st, I.getitem(st, r.val, ZERO), [d])
        s.true(lab + ': further data are accepted', r2.guard())
        g.st = st
        s.eq(lab + ': further data', elem(I, r2.st, r2.val, (I_, J_)), want(s, g, d, I_, J_), assume=g.ok, samples=100)
        n = sym('n', 'nat')
        s.eq(lab + ': further data are left alone', elem(I, r2.st, d, (n,)) if lab != 'list' else I.reify(r2.st, d),
             elem(I, st, d, (n,)) if lab != 'list' else I.reify(st, d), assume=tm.lt(n, NPT))


def uncropped(s, k):
    """without a boundary nothing is cropped and undefined data stay undefined"""
    g = gridded(s, k, False, dom='nanreal')
    I, r = g.I, g.r
    out = I.getitem(r.st, r.val, ONE)
    s.eq('shape', tm.lit(*I.arr(r.st, out).shape), tm.lit(g.rows, g.cols))
    s.eq('value of every cell', elem(I, r.st, out, (I_, J_)), want(s, g, g.q, I_, J_), assume=g.ok, samples=150)


def cropped(s, k):
    g = gridded(s, k, True)
    I, r = g.I, g.r
    out = I.getitem(r.st, r.val, ONE)
    full = I.new_arr(g.st, (g.rows, g.cols), lambda vs: want(s, g, g.q, vs[0], vs[1]), 'f')
    kr = s.spec(I, g.st, 'gridding', 'cropped', [full, g.rows, g.cols])
    a = I.arr(r.st, out)
    rows, cols = tm.sel(kr, ZERO), tm.sel(kr, ONE)
    nr, nc = tm.length(rows), tm.length(cols)
    s.eq('shape of the cropped raster', tm.lit(*a.shape), tm.lit(nr, nc), samples=60)
    ok = tm.and_(tm.lt(I_, nr), tm.lt(J_, nc))
    s.eq('value of every cell kept', elem(I, r.st, out, (I_, J_)), want(s, g, g.q, tm.sel(rows, I_), tm.sel(cols, J_)),
         assume=ok, samples=60)


for k in (1, 2, 3, 5, None):
    nm = 'default number of neighbours' if k is None else '%d neighbours' % k
    check.section(nm)(lambda s, k=k: values(s, k, False))
    check.section(nm + ', boundary')(lambda s, k=k: values(s, k, True))
for k in (1, 3):
    check.section('%d neighbours, cropped' % k)(lambda s, k=k: cropped(s, k))
    check.section('%d neighbours, data with gaps' % k)(lambda s, k=k: uncropped(s, k))


@check.section('unequal lengths')
def unequal(s):
    for k in (1, 3):
        I = s.interp([PT], specs=['gridding'])
        models(I, Grid())
        st = I.new_state()
        v = bv()
        n2 = sym('n2', 'nat')
        xy = list_of(I, st, tm.mk('map', NPT, v, tm.mk('tup', app('px', ('real',), v), app('py', ('real',), v))))
        f = s.func(I, PT, 'unstruct2grid')
        r = s.run(I, st, f, [xy, list_of(I, st, seq_app('q', n2)), CS, const(k)])
        s.eq('rejected exactly then (k=%d)' % k, r.exc_cond('ValueError'), tm.not_(tm.eq(n2, NPT)), samples=100)
