from checks.gen import *

check = Check('C21', 'the value graphs of the two conversions equal the reference, and their composition is the identity '
              'on cells and stays within half a cell on coordinates')
X0, Y0, SIZE, ROWS, COLS = sym('x0', 'real'), sym('y0', 'real'), sym('size', 'pos'), H, W
n = sym('n', 'nat')
i = sym('i', 'nat')


def setting(s, I, st):
    return I.new_list(st, [X0, Y0]), I.new_list(st, [ROWS, COLS]), SIZE


def points(I, st, fx, fy, tup=False):
    v = bv()
    return list_of(I, st, tm.mk('map', n, v, tm.lit(fx(v), fy(v))))


@check.section('coordinates to cells')
def c2i(s):
    I = s.interp([PT], specs=['coords'])
    st = I.new_state()
    fx, fy = (lambda v: app('px', ('real',), v)), (lambda v: app('py', ('real',), v))
    pts = points(I, st, fx, fy)
    o, sh, cs = setting(s, I, st)
    f = s.func(I, PT, 'coord2ind')
    r = s.run(I, st, f, [pts, o, sh, cs])
    s.true('returns', r.guard())
    t = I.reify(r.st, r.val)
    s.eq('one cell per coordinate', tm.length(t), n)
    ref = s.spec(I, st, 'coords', 'to_cell', [fx(i), fy(i), o, ROWS, SIZE])
    for k, lab in ((0, 'row'), (1, 'column')):
        s.eq(lab, tm.sel(tm.sel(t, i), const(k)), tm.sel(ref, const(k)), assume=tm.lt(i, n), samples=80)
    s.eq('the coordinates are left alone', I.reify(r.st, pts), I.reify(st, pts))


@check.section('cells to coordinates')
def i2c(s):
    for opts in ((), ('depth',)):
        I = s.interp([PT], specs=['coords'])
        st = I.new_state()
        w = walk(I, st, 'o', NO, opts)
        o, sh, cs = setting(s, I, st)
        f = s.func(I, PT, 'ind2coord')
        r = s.run(I, st, f, [w, o, sh, cs])
        lab = 'with %s: ' % (opts or 'base histories',)
        s.true(lab + 'returns', r.guard())
        out, old = dict_terms(I, r.st, r.val), dict_terms(I, st, w)
        for k in old:
            s.eq(lab + k + ' is kept', out.get(k, NONE), old[k])
        p, q = sym('p', 'nat'), sym('q', 'nat')
        at = lambda t: tm.sel(tm.sel(t, p), q)
        asm = tm.and_(tm.lt(p, NO), tm.lt(q, tm.length(tm.sel(old['xinds'], p))))
        ref = s.spec(I, st, 'coords', 'to_coord', [at(old['xinds']), at(old['yinds']), o, ROWS, SIZE])
        for k, c in enumerate(('xcoord', 'ycoord')):
            s.eq(lab + 'particles of ' + c, tm.length(out.get(c, tm.lit())), NO)
            s.eq(lab + 'entries of ' + c, tm.length(tm.sel(out.get(c, tm.lit()), p)), tm.length(tm.sel(old['xinds'], p)),
                 assume=tm.lt(p, NO))
            s.eq(lab + c, at(out.get(c, tm.lit())), tm.sel(ref, const(k)), assume=asm, samples=80)
        s.need(lab + 'nothing else appears', set(out) == set(old) | {'xcoord', 'ycoord'}, str(sorted(out)))


@check.section('cells there and back')
def back(s):
    I = s.interp([PT])
    st = I.new_state()
    o, sh, cs = setting(s, I, st)
    w = walk(I, st, 'o', ONE, ())
    f, g = s.func(I, PT, 'ind2coord'), s.func(I, PT, 'coord2ind')
    r = s.run(I, st, f, [w, o, sh, cs])
    out, old = dict_terms(I, r.st, r.val), dict_terms(I, st, w)
    q = sym('q', 'nat')
    at = lambda t: tm.sel(tm.sel(t, ZERO), q)
    pts = I.new_list(r.st, [I.new_list(r.st, [at(out['xcoord']), at(out['ycoord'])])])
    r2 = s.run(I, r.st, g, [pts, o, sh, cs])
    t = I.reify(r2.st, r2.val)
    asm = tm.lt(q, tm.length(tm.sel(old['xinds'], ZERO)))
    for k, c in ((0, 'xinds'), (1, 'yinds')):
        s.eq('back to the %s' % ('row' if k == 0 else 'column'), tm.sel(tm.sel(t, ZERO), const(k)), at(old[c]), assume=asm,
             samples=80)


@check.section('coordinates there and back')
def forth(s):
    I = s.interp([PT])
    st = I.new_state()
    o, sh, cs = setting(s, I, st)
    px, py = sym('px', 'real'), sym('py', 'real')
    f, g = s.func(I, PT, 'coord2ind'), s.func(I, PT, 'ind2coord')
    r = s.run(I, st, f, [I.new_list(st, [I.new_list(st, [px, py])]), o, sh, cs])
    t = tm.sel(I.reify(r.st, r.val), ZERO)
    one = lambda x: I.new_list(r.st, [I.new_list(r.st, [x])])
    w = dictv(I, r.st, {'xinds': one(tm.sel(t, ZERO)), 'yinds': one(tm.sel(t, ONE)), 'travel_times': one(ZERO)})
    r2 = s.run(I, r.st, g, [w, o, sh, cs])
    out = dict_terms(I, r2.st, r2.val)
    for c, v in (('xcoord', px), ('ycoord', py)):
        d = tm.sub(tm.sel(tm.sel(out[c], ZERO), ZERO), v)
        s.true('%s moves by at most half a cell' % c, tm.and_(tm.le(tm.mul(const(2), d), SIZE), tm.le(tm.mul(const(-2), d), SIZE)), samples=200)
