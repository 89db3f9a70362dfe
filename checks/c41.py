from checks.catalog import *
from checks.gen import CASES, generated
from checks.iterc import It, MODES
from checks.build import built, WATER, FLOWS
from checks.par import Par
from sa import effects, warm
from sa.heap import Ref, VTup
from checks.c28 import models, Grid, NPT
from checks.c32 import start as unsteady
from sa.harness import run as cold_run

check = Check('C41', 'the points-to state of modules, classes, functions and default arguments after every call, the value '
              'graph of the call after another one, and the effect log of every call')

# settings of the whole process
SETTINGS = ('os.chdir', 'os.fchdir', 'os.putenv', 'os.unsetenv', 'os.environ', 'os.umask', 'numpy.seterr', 'numpy.seterrcall',
            'numpy.setbufsize', 'warnings.filterwarnings', 'warnings.simplefilter', 'warnings.resetwarnings', 'locale.setlocale',
            'sys.setrecursionlimit', 'signal.signal', 'logging.disable', 'logging.basicConfig', 'multiprocessing.set_start_method')
# these hand back what was set, so that two calls may be a change and its undoing
SCOPED = ('warnings.catch_warnings', 'numpy.errstate', 'contextlib.chdir')


def settings(s, st, what):
    es = [e for e in effects.flat(st.log) if e.guard is not FALSE]
    bad = [e for e in es if e.name == 'logging.disable' or e.name.startswith(SETTINGS)]
    if not bad:
        s.ok(what + ': process settings', 'effect log: %d effects, none sets anything of the process' % len(es))
    elif any(e.name.startswith(SCOPED) for e in es) or any(sum(f.name == e.name for f in bad) > 1 for e in bad):
        s.undecided(what + ': process settings', 'set more than once or within a scope: %s' % sorted({e.name for e in bad}))
    else:
        e = bad[0]
        s.fail(what + ': process settings', '%s at %s outlives the call' % (e.name, e.where()))


def outcome(I, r, args):
    return [I.reify(r.st, r.val)] + [I.reify(r.st, a) for a in args]


def drawn(st):
    """what a call draws and writes outside of loops"""
    return [e for e in effects.flat(st.log) if e.guard is TRUE and not e.loops and
            e.name.rsplit('.', 1)[-1] in ('savefig', 'dump', 'imshow', 'scatter', 'plot', 'makedirs', 'mkdir', 'title')]


def messages(st):
    return [e for e in effects.flat(st.log) if not e.loops and e.name.rsplit('.', 1)[-1] in ('info', 'warning', 'warn')]


def lists_in(e):
    return [x for a in e.args if isinstance(a, tm.T) for x in effects.shown_lists(a)]


class Probe(object):
    """stands for s.run: analyses a call fresh and after the same call on other data"""

    def __init__(self, s, compare=True):
        self.s, self.n, self.compare = s, 0, compare

    def __call__(self, I, st, f, args, kw=None):
        s = self.s
        r = cold_run(I, st, f, args, kw)
        self.n += 1
        what = 'call %d of %s' % (self.n, getattr(getattr(f, 'node', None), 'name', None) or getattr(f, 'name', 'it'))
        if r.st is None:
            return r
        settings(s, r.st, what)
        ks = warm.kept(I, st, r.st)
        if not ks:
            s.ok(what + ': memory', 'points-to: no module, class, function or default argument refers to anything new')
            return r
        for scalars, same in ((False, False), (True, False), (False, True)):
            lab = '%s, after one on %s' % (what, 'other contents of the same containers' if same else
                                           'other data' if scalars else 'other rasters and walks')
            earlier = []
            st2 = warm.after_another(I, st, f, args, kw, scalars, earlier, same)
            if st2 is None:
                continue
            r2 = cold_run(I, st2, f, args, kw)
            if r2.st is None:
                s.fail(lab, 'the call no longer returns')
                continue
            s.true(lab + ': returns', tm.or_(tm.not_(r.guard()), r2.guard()))
            for k, (a, b) in enumerate(zip(outcome(I, r, args), outcome(I, r2, args))):
                s.eq('%s: %s' % (lab, 'result' if k == 0 else 'argument %d' % k), b, a, samples=60)
            if not same:
                s.eq(lab + ': what the other call returned', I.reify(r2.st, earlier[0][0]), earlier[0][1], samples=60)
            w1, w2 = (effects.named(x.st.log, 'warnings.warn') for x in (r, r2))
            s.eq(lab + ': warning', effects.when(w2), effects.when(w1), samples=60)
            m1, m2 = messages(r.st), messages(r2.st)
            if [e.name for e in m1] == [e.name for e in m2]:
                for e, e2 in zip(m1, m2):
                    s.eq('%s: %s is given' % (lab, e.name), e2.when(), e.when(), samples=60)
                    for a, b in zip(lists_in(e), lists_in(e2)):
                        s.eq('%s: particles named by %s' % (lab, e.name), b, a, assume=e.when(), samples=60)
            one, two = drawn(r.st), drawn(r2.st)
            if [e.name for e in one] == [e.name for e in two]:
                for e, e2 in zip(one, two):
                    s.eq('%s: %s' % (lab, e.name), tm.lit(*[x for x in e2.args if isinstance(x, tm.T)]),
                         tm.lit(*[x for x in e.args if isinstance(x, tm.T)]), samples=40)
        return r


def probing(f):
    def sec(s):
        s.run = Probe(s)
        f(s)
    return sec


def G(*a, **k):
    return Given(*a, observe=lambda g, r, assume: None, **k)


for what, f in OF_WALK.items():
    check.section(what)(probing(lambda s, f=f: f(s, G, ('depth',))))
for what, f in OTHER.items():
    check.section(what)(probing(lambda s, f=f: f(s, G)))
for nm, kw in CASES:
    check.section('seeding, ' + nm)(probing(lambda s, kw=kw: generated(s, **kw)))
for nm, mode, far in MODES:
    check.section('iterating, ' + nm)(probing(lambda s, mode=mode, far=far: It(s, mode, ('depth', 'roi_flag'), ('depth',), far=far)))
for model in ('DeltaRCM', 'Anuga'):
    for wname, water in WATER.items():
        check.section('constructing, %s, %s' % (model, wname))(probing(
            lambda s, water=water, model=model: [built(s, water + flow, model) for flow in FLOWS.values()]))


def helpers(s):
    d9 = (H, W, const(9))
    for fn, mk in (('make_weight', lambda I, st: [particles(I, st)]),
                   ('big_sliding_window', lambda I, st: [grid(I, st, 'raster')]),
                   ('tile_domain_array', lambda I, st: [grid(I, st, 'raster')]),
                   ('tile_local_array', lambda I, st: [grid(I, st, 'local', shape=(const(3), const(3))), H, W]),
                   ('clear_borders', lambda I, st: [grid(I, st, 'tiled', shape=d9)]),
                   ('steep_descent', lambda I, st: [grid(I, st, 'probs', shape=(const(9),))]),
                   ('random_pick', lambda I, st: [grid(I, st, 'probs', shape=(const(9),))])):
        I = s.interp([LW])
        st = I.new_state()
        s.run(I, st, s.func(I, LW, fn), mk(I, st))


check.section('parts of the walk')(probing(helpers))


@check.section('shares of discharge')
@probing
def shares(s):
    I = s.interp([PT])
    st = I.new_state()
    Q = I.new_arr(st, (tm.add(sym('m', 'nat'), ONE),), lambda vs: app('Q', ('real',), vs[0]), 'f')
    s.run(I, st, s.func(I, PT, 'flux_proportional_seeding'), [Q, sym('total', 'nat'), sym('steps', 'nat')])


@check.section('cells to coordinates')
@probing
def to_coordinates(s):
    I = s.interp([PT])
    st = I.new_state()
    s.run(I, st, s.func(I, PT, 'ind2coord'), [walk(I, st, 'o', NO, ()), I.new_list(st, [sym('x0', 'real'), sym('y0', 'real')]),
                                             I.new_list(st, [H, W]), sym('size', 'pos')])


def gridding(s, k):
    """also: the function that was handed out computes the same after having been used on other data"""
    I = s.interp([PT], specs=['gridding'])
    models(I, Grid())
    st = I.new_state()
    v = bv()
    xy = list_of(I, st, tm.mk('map', NPT, v, tm.mk('tup', app('px', ('real',), v), app('py', ('real',), v))))
    one, two = (list_of(I, st, seq_app(n, NPT, ('real',))) for n in ('q', 'p'))
    r = Probe(s)(I, st, s.func(I, PT, 'unstruct2grid'), [xy, one, sym('cs', 'pos')], {'k_nearest_neighbors': const(k)})
    v = I.resolve(r.st, r.val) if r.st is not None else None
    if not isinstance(v, VTup) or len(v.items) != 2:
        return s.undecided('the function handed out', 'not recognised')
    f = v.items[0]
    alone = cold_run(I, r.st, f, [two])
    first = cold_run(I, r.st, f, [one])
    if alone.st is None or first.st is None:
        return s.undecided('the function handed out', 'does not return')
    after = cold_run(I, first.st, f, [two])
    if after.st is None:
        return s.undecided('the function handed out', 'does not return a second time')
    s.eq('the function handed out, used again', I.reify(after.st, after.val), I.reify(alone.st, alone.val), samples=60)


for k in (1, 3):
    check.section('gridding, %d neighbours' % k)(lambda s, k=k: gridding(s, k))


@check.section('in parallel')
@probing
def parallel(s):
    P = Par(s, 3)
    if P.jobs and P.r.st is not None:
        P.job(const(1))


# ------------------------------------------------------------------ routines and logging: settings of the process
def leaving(f):
    def sec(s):
        def run(I, st, fn, args, kw=None):
            r = cold_run(I, st, fn, args, kw)
            if r.st is not None:
                settings(s, r.st, getattr(getattr(fn, 'node', None), 'name', 'call'))
            return r
        s.run = run
        f(s)
    return sec


OUT = const('out')
for what, f in {
        'steady_plots': lambda s: Shown(s, 'steady_plots', stepping(2, OUT)),
        'time_plots': lambda s: Shown(s, 'time_plots', stepping(2, OUT)),
        'unsteady_plots, npz': lambda s: unsteady(s, 'npz', 2, 2),
        'unsteady_plots, csv': lambda s: unsteady(s, 'csv', 2, 2),
        'animate_plots': lambda s: Shown(s, 'animate_plots', lambda sh: ([ZERO, const(3), OUT], {})),
}.items():
    check.section('settings, ' + what)(leaving(f))


@check.section('settings, verbose switch')
@leaving
def switch(s):
    for v in (NONE, TRUE, FALSE):
        I = s.interp(['dorado.logging_config'])
        st = I.new_state()
        s.run(I, st, s.func(I, 'dorado.logging_config', 'handle_verbose_deprecation'), [v])


# ------------------------------------------------------------------ two objects
def public(I, st, ref):
    """everything that can be read from the object, except methods"""
    out = {}
    o = st.heap[ref.oid]
    own = dict(o.attrs)
    for h in (st, I.modstate):
        c = h.heap.get(('cls', PT, 'Particles'))
        for n, (g, v) in (c.attrs.items() if c is not None else ()):
            if isinstance(v, (tm.T, Ref)):
                own.setdefault(n, (g, v))
    for n in sorted(own):
        out[n] = I.reify(st, own[n][1])
    return out


def unmoved(s, I, st, ref, before, what):
    now = public(I, st, ref)
    for n in sorted(set(before) | set(now)):
        if n not in now or n not in before:
            s.fail('%s: %s' % (what, n), 'the attribute of the other object %s' % ('vanished' if n not in now else 'appeared'))
        else:
            s.eq('%s: %s of the other object' % (what, n), now[n], before[n], samples=40)


def two(s, model, given):
    I = s.interp([LW, PT], specs=['fields'])
    st = I.new_state()
    one = params_obj(I, st, given=given, model=model)
    r1 = construct(s, I, st, one, real_weights=True)
    if r1.st is None:
        return s.undecided('the first object', 'not accepted')
    c = warm.Clone(I, r1.st, True)
    before = public(I, r1.st, r1.val)
    r2 = construct(s, I, c.st, c.v(one), real_weights=True)
    if r2.st is None:
        return s.undecided('the second object', 'not accepted')
    unmoved(s, I, r2.st, r1.val, before, 'another object constructed')
    st = r2.st
    names = I.new_list(st, [const('depth')])
    rows = list_of(I, st, seq_app('sx', const(2), ('intT', ZERO, H)))
    cols = list_of(I, st, seq_app('sy', const(2), ('intT', ZERO, W)))
    f = s.func(I, PT, 'Particles.generate_particles')
    r3 = s.run(I, st, f, [r2.val, const(2), rows, cols])
    if r3.st is None:
        return s.undecided('the second object', 'not seeded')
    unmoved(s, I, r3.st, r1.val, before, 'another object seeded')
    f = s.func(I, PT, 'Particles.clear_walk_data')
    r4 = s.run(I, r3.st, f, [r2.val])
    if r4.st is not None:
        unmoved(s, I, r4.st, r1.val, before, 'another object cleared')
    f = s.func(I, PT, 'Particles.run_iteration')
    r5 = s.run(I, r3.st, f, [r2.val])
    if r5.st is not None:
        unmoved(s, I, r5.st, r1.val, before, 'another object moved')


for model in ('DeltaRCM', 'Anuga'):
    check.section('two objects, ' + model)(lambda s, model=model: two(s, model, ('depth', 'topography', 'u', 'v')))
