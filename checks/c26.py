from checks.gen import *

check = Check('C26', 'the value graph of every map cell equals the reference threshold of its own chunk; the filter equals '
              'its reference for every cell and window')
F = tm.add(sym('f', 'nat'), ONE)
NR, NC = tm.floordiv(H, F), tm.floordiv(W, F)
I_, J_ = sym('i', 'nat'), sym('j', 'nat')
TD = sym('td', 'pos')
NANC = const(float('nan'))


def data(I, st, least):
    """exposure times of every chunk, or nan for a chunk without region"""
    k, m = bv(), bv()
    n = tm.add(app('len', ('nat',), k), const(least))
    item = tm.mk('map', n, m, app('exp', ('nanpos',), k, m))
    return list_of(I, st, tm.mk('map', tm.mul(NR, NC), k, tm.ite(app('any', ('bool',), k), item, NANC)))


def start(s, least):
    I = s.interp([SP], specs=['thresholds'])
    st = I.new_state()
    seen = []
    I.recorders.append(seen)

    def grid_of(I, st, a, k):
        # the number of grid points is abstracted to 8
        n = a[2] if len(a) > 2 else k.get('num', const(50))
        seen.append(n)
        return I.np_linspace(st, [a[0], a[1], const(8)], {})
    I.stubs['ext:numpy.linspace'] = grid_of
    kde = I.func('thresholds', 'Kde')
    I.stubs['ext:scipy.stats.gaussian_kde'] = lambda I, st, a, k: I.call(st, kde, a, k)

    def density(I, st, a, k):
        d, x = I.reify(st, a[0]), I.arr(st, a[1])
        if d.op == 'arr':
            d = I.val_seq(st, a[0])
        how = I.reify(st, a[2])
        more = () if how is I.reify(st, VTup([NONE, NONE])) or how is I.reify(st, VTup([const('scott'), NONE])) else (how,)

        def at(vs):
            return app('density', ('enum', (1, 1, 1, 1, 2, 3)), d, elem(I, st, a[1], vs), *more)
        return I.new_arr(st, x.shape, at, 'f')
    I.stubs['thresholds.density'] = density
    return I, st, data(I, st, least), seen


def maps(s, least, filtered):
    I, st, L, seen = start(s, least)
    win, thr = sym('window', 'nat'), sym('threshold', 'pos')
    args = []
    I.recorders.append(args)

    def mad(I, st, a, k):
        w = a[1] if len(a) > 1 else k.get('window_size')
        t = a[2] if len(a) > 2 else k.get('threshold')
        args.append((w, t))
        x = I.arr(st, a[0])
        return I.new_arr(st, x.shape, lambda vs: tm.mk('opaque', 'filtered', elem(I, st, a[0], vs)), 'f')
    I.stubs[SP + '.median_absolute_deviation_filter'] = mad
    f = s.func(I, SP, 'compute_thresholds')
    before = I.reify(st, L)
    r = s.run(I, st, f, [L, grid(I, st, 'elevation'), TD, F], {'window_size': win, 'threshold': thr})
    s.true('returns', r.guard())
    s.eq('three maps', tm.length(I.reify(r.st, r.val)), const(3))
    for q, p in enumerate((.5, .75, .9)):
        m = I.getitem(r.st, r.val, const(q))
        lab = 'P%d: ' % (100 * p)
        s.eq(lab + 'shape of the map', tm.lit(*I.arr(r.st, m).shape), tm.lit(NR, NC))
        ref = s.spec(I, st, 'thresholds', 'raw', [L, const(p), TD])
        own = tm.sel(ref, tm.add(tm.mul(I_, NC), J_))
        if args:
            own = tm.mk('opaque', 'filtered', own)
        s.eq(lab + 'every cell shows its own chunk', elem(I, r.st, m, (I_, J_)), own,
             assume=tm.and_(tm.lt(I_, NR), tm.lt(J_, NC)), samples=200)
    for w, t in args:
        s.eq('window handed to the filter', w, win)
        s.eq('threshold handed to the filter', t, thr)
    s.eq('the exposure times are left alone', I.reify(r.st, L), before)


check.section('maps, few times')(lambda s: maps(s, 0, True))
check.section('maps, many times')(lambda s: maps(s, 5, True))


@check.section('outlier filter')
def mad(s):
    for lab, dom in (('with undefined cells', 'nanreal'), ('without undefined cells', 'real')):
        I = s.interp([SP], specs=['thresholds'])
        st = I.new_state()
        d = grid(I, st, 'data', (dom,))
        f = s.func(I, SP, 'median_absolute_deviation_filter')
        win, thr = tm.add(sym('w', 'nat'), ONE), sym('threshold', 'pos')
        r = s.run(I, st, f, [d, win, thr])
        s.true(lab + ': returns', r.guard())
        s.eq(lab + ': shape', tm.lit(*I.arr(r.st, r.val).shape), tm.lit(H, W))
        i, j = I_, J_
        ref = s.spec(I, st, 'thresholds', 'cell', [d, i, j, H, W, win, thr])
        s.eq(lab + ': value of every cell', elem(I, r.st, r.val, (i, j)), ref, assume=in_grid(i, j), samples=200)
        s.eq(lab + ': the data are left alone', elem(I, r.st, d, (i, j)), elem(I, st, d, (i, j)))


@check.section('too few distinct times')
def few(s):
    """fewer than five distinct usable times give no threshold"""
    I, st, L, seen = start(s, 0)
    I.stubs[SP + '.median_absolute_deviation_filter'] = lambda I, st, a, k: a[0]
    f = s.func(I, SP, 'compute_thresholds')
    r = s.run(I, st, f, [L, grid(I, st, 'elevation'), TD, F])
    k = tm.add(tm.mul(I_, NC), J_)
    for q in range(3):
        m = I.getitem(r.st, r.val, const(q))
        s.true('map %d' % q, tm.isnan(elem(I, r.st, m, (I_, J_))), assume=tm.and_(
            tm.lt(I_, NR), tm.lt(J_, NC), tm.lt(app('len', ('nat',), k), const(5))), samples=100)
