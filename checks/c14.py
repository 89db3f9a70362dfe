from checks.gen import *

check = Check('C14', 'on every raising path of the value graph of seeding the exception is the documented one and no '
              'attribute of the object and no argument of the caller has changed')


def same_state(s, lab, g, p0):
    I = g.I
    for e, (st, exc) in enumerate(g.r.excs):
        for n in ('walk_data', 'Np_tracer', 'tracked_variables', 'weight', 'cell_type'):
            a, b = I.reify(st, st.heap[g.p.oid].attrs[n][1]), I.reify(g.st, p0[n][1])
            s.eq('%s: %s is left alone (%s)' % (lab, n, exc.cls), a, b, assume=st.guard())
        extra = [k for k in st.heap[g.p.oid].attrs if k not in p0]
        s.need('%s: no attribute appears (%s)' % (lab, exc.cls), not extra, 'attribute %s' % extra)
        for nm, v, v0 in (('seed rows', g.sx, g.sx), ('seed columns', g.sy, g.sy)):
            s.eq('%s: %s are left alone (%s)' % (lab, nm, exc.cls), I.reify(st, v), I.reify(g.st, v0), assume=st.guard())


BAD = {
    'count is a word': (dict(count=const('many')), 'TypeError'),
    'count is None': (dict(count=NONE), 'TypeError'),
    'seed rows are a number': (dict(sx=const(3)), 'TypeError'),
    'seed columns are a number': (dict(sy=const(3)), 'TypeError'),
    'seed columns are None': (dict(sy=NONE), 'TypeError'),
    'seed time is a word': (dict(time=const('now')), 'TypeError'),
    'seed time is None': (dict(time=NONE), 'TypeError'),
    'method is a number': (dict(method=ONE), 'TypeError'),
    'method is None': (dict(method=NONE), 'TypeError'),
    'method is unknown': (dict(method=const('nearest')), 'ValueError'),
    'method is in capitals': (dict(method=const('EXACT')), 'ValueError'),
    'method is capitalised': (dict(method=const('Random')), 'ValueError'),
    'method has a blank': (dict(method=const('exact ')), 'ValueError'),
    'method is a part of a method': (dict(method=const('rand')), 'ValueError'),
    'method is empty': (dict(method=const('')), 'ValueError'),
    'unknown variable': (dict(tracked=('depth', 'salinity')), 'ValueError'),
    'region flag without a region': (dict(tracked=('roi_flag',), roi=False), 'ValueError'),
}

for cname, (kw, exc) in BAD.items():
    def sec(s, kw=kw, exc=exc, cname=cname):
        for lab, w in (('fresh', {}), ('after a walk', {'own': ('depth',)}), ('with previous data', {'prev': ('depth',)})):
            g = seeded(s, **dict(dict(tracked=('depth',)), **dict(w, **kw)))
            asm = None
            if cname in ('unknown variable', 'region flag without a region'):
                asm = TRUE
            s.eq('%s: rejected with a %s' % (lab, exc), g.r.exc_cond(exc), TRUE, assume=asm)
            same_state(s, lab, g, g.p0)
    check.section(cname)(sec)


def seeded(s, method=const('exact'), tracked=(), own=None, prev=None, count=None, sx=None, sy=None, time=None, roi=None):
    g = Gen()
    g.I = I = s.interp([LW, PT])
    g.st = st = I.new_state()
    wown = walk(I, st, 'o', NO, own) if own is not None else NONE
    wprev = walk(I, st, 'p', NP, prev) if prev is not None else NONE
    g.p = tracker(I, st, tracked, wown, NO if own is not None else ZERO, roi=roi)
    dx, dy = ('intT', ZERO, H), ('intT', ZERO, W)
    g.sx = sx if sx is not None else list_of(I, st, seq_app('sx', NS, dx))
    g.sy = sy if sy is not None else list_of(I, st, seq_app('sy', NS, dy))
    g.p0 = dict(st.heap[g.p.oid].attrs)
    f = s.func(I, PT, 'Particles.generate_particles')
    g.r = s.run(I, st, f, [g.p, N if count is None else count, g.sx, g.sy],
                {'seed_time': ZERO if time is None else time, 'method': method, 'previous_walk_data': wprev})
    return g


@check.section('accepted spellings')
def accepted(s):
    """arrays, float cells and counts are converted to whole numbers"""
    for lab, dims in (('vectors', 1), ('columns', 2)):
        I = s.interp([LW, PT], specs=['seeding'])
        st = I.new_state()
        p = tracker(I, st, ())
        mk = lambda n, top: I.new_arr(st, (NS,) if dims == 1 else (NS, ONE), lambda vs: app(
            n, ('intT', ZERO, top), vs[0]), 'i')
        sx, sy = mk('sx', H), mk('sy', W)
        f = s.func(I, PT, 'Particles.generate_particles')
        r = s.run(I, st, f, [p, N, sx, sy], {'method': const('exact')})
        s.true('seed cells as %s are accepted' % lab, r.guard())
        if r.st is None:
            continue
        h = hist(I, r.st, p)
        i = sym('i', 'nat')
        for k, n in (('xinds', 'sx'), ('yinds', 'sy')):
            t = tm.sel(tm.sel(h[k], i), ZERO)
            s.eq('%s: %s' % (lab, k), t, app(n, ('intT', ZERO, H if n == 'sx' else W), tm.mod(i, NS)),
                 assume=tm.lt(i, N), samples=80)


@check.section('iterating before seeding')
def unseeded(s):
    for lab, target in (('step', NONE), ('target time', sym('target', 'real'))):
        I = s.interp([LW, PT])
        st = I.new_state()
        p = tracker(I, st, ('depth',))
        f = s.func(I, PT, 'Particles.run_iteration')
        r = s.run(I, st, f, [p], {'target_time': target})
        s.eq(lab + ': rejected with a ValueError', r.exc_cond('ValueError'), TRUE)


@check.section('forgetting the walk')
def clear(s):
    I = s.interp([LW, PT])
    st = I.new_state()
    p = tracker(I, st, ('depth',), walk(I, st, 'o', NO, ('depth',)), NO)
    f = s.func(I, PT, 'Particles.clear_walk_data')
    r = s.run(I, st, f, [p])
    s.eq('no walk data afterwards', I.reify(r.st, r.st.heap[p.oid].attrs['walk_data'][1]), NONE)
