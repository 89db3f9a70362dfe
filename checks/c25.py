from checks.gen import *

check = Check('C25', 'the value graph of the list of chunks equals the reference partition by starting cell')


def run(s, fn, F, w, ct):
    I = s.I
    I.stubs[PT + '.exposure_time'] = lambda I, st, a, k: I.call(st, I.func('chunks', 'all_times'), a, k)
    f = s.func(I, SP, fn)
    r = s.run(I, s.st, f, [w, grid(I, s.st, 'elevation'), ct, F])
    s.true('returns', r.guard())
    return r


def start(s, n, size, F, i):
    """a start strictly inside a chunk"""
    nr = tm.floordiv(size, F)
    q = app('q' + n, ('intT', ZERO, tm.maxmin('max', [nr, ONE])), i)
    width = tm.sub(tm.ite(tm.eq(q, tm.sub(nr, ONE)), tm.add(F, tm.mod(size, F)), F), ONE)
    return tm.add(tm.add(tm.mul(F, q), ONE), tm.mod(app('ra' + n, ('nat',), i), width))


def walk0(s, count, sx, sy, names=(), some=ONE):
    I, st = s.I, s.st
    ln = lambda i: tm.add(some, app('olen', ('nat',), i))
    ent = {}
    for k, first, top in (('xinds', sx, H), ('yinds', sy, W)):
        i, j = bv(), bv()
        rest = app('o' + k, ('intT', ZERO, top), i, j)
        ent[k] = list_of(I, st, tm.mk('map', count, i, tm.mk('map', ln(i), j, tm.ite(tm.eq(j, ZERO), first(i), rest))))
    for k in ('travel_times',) + tuple(names):
        ent[k] = list_of(I, st, seq2_app('o' + k, count, ln))
    return dictv(I, st, ent)


def inside(s, fn):
    s.I = s.interp([SP, PT], specs=['measures', 'chunks'])
    s.st = s.I.new_state()
    F = tm.add(sym('f', 'nat'), const(2))
    for lab, names, some in (('base variables', (), ONE), ('optional variables', ('depth',), ONE), ('empty histories', (), ZERO)):
        w = walk0(s, NO, lambda i: start(s, 'x', H, F, i), lambda i: start(s, 'y', W, F, i), names, some)
        ct = grid(s.I, s.st, 'ct', CT, 'i')
        before = s.I.reify(s.st, w)
        r = run(s, fn, F, w, ct)
        t = s.I.reify(r.st, r.val)
        ref = s.spec(s.I, s.st, 'chunks', fn, [w, ct, F, H, W])
        s.eq(lab + ': number of chunks', tm.length(t), tm.length(ref))
        s.eq(lab + ': exposure times of every chunk', t, ref, samples=200)
        s.eq(lab + ': the walk is left alone', s.I.reify(r.st, w), before)


def member(s, fn):
    """one particle anywhere, every cell inside the region"""
    s.I = s.interp([SP, PT], specs=['measures', 'chunks'])
    s.st = s.I.new_state()
    F = tm.add(sym('f', 'nat'), ONE)
    x, y = sym('x0', 'intT', ZERO, H), sym('y0', 'intT', ZERO, W)
    w = walk0(s, sym('single', 'intT', ONE, const(2)), lambda i: x, lambda i: y)
    ct = s.I.new_arr(s.st, (H, W), lambda vs: ONE, 'i')
    r = run(s, fn, F, w, ct)
    t = s.I.reify(r.st, r.val)
    nr, nc = tm.floordiv(H, F), tm.floordiv(W, F)
    R, C = sym('r', 'nat'), sym('c', 'nat')
    n = tm.length(tm.sel(t, tm.add(tm.mul(R, nc), C)))
    ox, oy = tm.maxmin('min', [tm.floordiv(x, F), tm.sub(nr, ONE)]), tm.maxmin('min', [tm.floordiv(y, F), tm.sub(nc, ONE)])
    ok = [in_grid(x, y), tm.lt(R, nr), tm.lt(C, nc)]

    def near(k, o, p):
        return tm.or_(tm.eq(k, o), tm.and_(tm.eq(k, tm.sub(o, ONE)), tm.eq(p, tm.mul(F, tm.add(k, ONE)))))
    mine = tm.and_(tm.eq(R, ox), tm.eq(C, oy))
    cand = tm.and_(near(R, ox, x), near(C, oy, y))
    s.eq('a particle counts in the chunk of its start', n, ONE, assume=tm.and_(mine, *ok), samples=200)
    s.eq('and in no chunk that its start does not touch', n, ZERO, assume=tm.and_(tm.not_(cand), *ok), samples=200)
    s.eq('nor in the chunk before when it starts on a boundary', n, ZERO, assume=tm.and_(cand, tm.not_(mine), *ok), samples=100)


for fn in ('systemwide', 'localized'):
    check.section(fn + ', starts inside chunks')(lambda s, fn=fn: inside(s, fn))
    check.section(fn + ', every start')(lambda s, fn=fn: member(s, fn))
