from checks.build import *
from sa import effects

check = Check('C18', 'the value graph of every tunable of a constructed object is the given value, or the documented '
              'default when it is missing')
NUM = {'theta': 1, 'gamma': '1/20', 'dry_depth': '1/10'}
G = ('depth', 'stage', 'qx', 'qy')


def q(x):
    from fractions import Fraction
    return const(Fraction(x))


def made(s, model='DeltaRCM', **kw):
    I, st, par, r = built(s, G, model, **kw)
    s.true('accepted: ' + str(sorted((k, v if isinstance(v, tuple) else '') for k, v in kw.items())), r.guard())
    return I, st, r, Obj(I, r)


@check.section('numbers')
def numbers(s):
    I, st, r, o = made(s)
    for n, d in NUM.items():
        s.eq('default of ' + n, o.term(n), q(d))
    s.eq('default of diff_coeff', o.term('diff_coeff'), q('1/5'))
    I, st, r, o = made(s, tun=tuple(NUM))
    for n in NUM:
        s.eq('given ' + n, o.term(n), tm.sym(n, *{'theta': ('nonneg',), 'gamma': ('share',), 'dry_depth': ('nonneg',)}[n]))
    I, st, r, o = made(s, none=('theta', 'gamma', 'diff_coeff'))
    for n, d in (('theta', 1), ('gamma', '1/20'), ('diff_coeff', '1/5')):
        s.eq('default of %s given as None' % n, o.term(n), q(d))
    for n in ('dx',):
        s.eq('given ' + n, o.term(n), sym('dx', 'pos'))


@check.section('diffusion')
def diffusion(s):
    dc = sym('diff_coeff', 'real')
    I, st, r, o = made(s, tun=('diff_coeff',))
    s.eq('diffusion is the given one, at least zero', o.term('diff_coeff'), tm.ite(tm.lt(dc, ZERO), ZERO, dc))
    I, st, r, o = made(s, tun=('diff_coeff', 'steepest_descent'))
    s.eq('given diffusion with steepest descent', o.term('diff_coeff'), tm.ite(tm.lt(dc, ZERO), ZERO, dc))
    I, st, r, o = made(s, tun=('steepest_descent',))
    s.eq('default diffusion with steepest descent', o.term('diff_coeff'), tm.ite(sym('sd', 'bool'), ZERO, q('1/5')))
    for lab, verbose in (('silent', FALSE), ('talking', TRUE), ('default', NONE)):
        I, st, r, o = made(s, tun=('diff_coeff',), extra={'verbose': verbose})
        w = effects.named(r.st.log, 'warnings.warn')
        bad = tm.or_(tm.lt(dc, ZERO), tm.le(const(2), dc))
        if verbose is FALSE:
            s.eq('no diffusion warning when silent', tm.or_(*[tm.and_(x.when(), tm.not_(FALSE)) for x in w if is_diff(x)]), FALSE)
        else:
            s.eq('warning about negative or large diffusion, ' + lab, tm.or_(*[x.when() for x in w if is_diff(x)]), bad)


def is_diff(x):
    return 'iffusion' in ' '.join(tm.show(a) for a in x.args if isinstance(a, T))


@check.section('mode')
def mode(s):
    I, st, r, o = made(s)
    s.eq('weighted random walk by default', o.term('steepest_descent'), FALSE)
    I, st, r, o = made(s, tun=('steepest_descent',))
    s.eq('steepest descent when asked for', o.term('steepest_descent'), sym('sd', 'bool'))
    I, st, r, o = made(s, tun=('steepest_descent', 'theta', 'gamma', 'dry_depth', 'diff_coeff'))
    s.eq('steepest descent when asked for, whatever else is given', o.term('steepest_descent'), sym('sd', 'bool'))
    for n in NUM:
        s.eq('%s with steepest descent' % n, o.term(n), tm.sym(n, *{'theta': ('nonneg',), 'gamma': ('share',), 'dry_depth': ('nonneg',)}[n]))
    for v in (NONE, const('yes'), ZERO):
        I, st, r, o = made(s, extra={'steepest_descent': v})
        s.eq('steepest_descent=%s' % tm.show(v), o.term('steepest_descent'), FALSE)


@check.section('verbosity')
def verbosity(s):
    I, st, r, o = made(s)
    s.eq('verbose by default', o.term('verbose'), TRUE)
    for v in (TRUE, FALSE):
        I, st, r, o = made(s, extra={'verbose': v})
        s.eq('verbose=%s' % tm.show(v), o.term('verbose'), v)


@check.section('other models')
def others(s):
    tun = tuple(NUM) + ('diff_coeff',)
    want = {'theta': ('nonneg',), 'gamma': ('share',), 'dry_depth': ('nonneg',)}
    dc = sym('diff_coeff', 'real')
    for model in ('Anuga', ''):
        I, st, r, o = made(s, model, tun=tun)
        for n in NUM:
            s.eq('given %s, model %r' % (n, model), o.term(n), tm.sym(n, *want[n]))
        s.eq('diffusion, model %r' % model, o.term('diff_coeff'), tm.ite(tm.lt(dc, ZERO), ZERO, dc))
        for v in (TRUE, FALSE):
            I, st, r, o = made(s, model, extra={'verbose': v})
            s.eq('verbose=%s, model %r' % (tm.show(v), model), o.term('verbose'), v)
            for n, d in NUM.items():
                s.eq('default of %s, model %r' % (n, model), o.term(n), q(d))
        I, st, r, o = made(s, model, tun=('steepest_descent',))
        s.eq('steepest descent when asked for, model %r' % model, o.term('steepest_descent'), sym('sd', 'bool'))


@check.section('cell types')
def celltypes(s):
    i, j = sym('i', 'nat'), sym('j', 'nat')
    asm = in_grid(i, j)
    I, st, r, o = made(s, tun=('cell_type',))
    s.eq('given cell types', o.at('cell_type', i, j), app('cell_type', CT, i, j), assume=asm)
    for tun in ((), ('dry_depth',)):
        I, st, r, o = made(s, tun=tun)
        s.eq('cell types estimated from the depth' + (' and the given dry depth' if tun else ''),
             o.at('cell_type', i, j), tm.ite(tm.not_(interior(i, j)), const(-1), tm.ite(
                 tm.lt(o.at('depth', i, j), o.term('dry_depth')), const(2), ZERO)), assume=asm, samples=100)


@check.section('direction tables')
def tables(s):
    names = ('distances', 'ivec', 'jvec', 'angles', 'iwalk', 'jwalk')
    doms = {'distances': ('pos',), 'iwalk': ('enum', (-1, 0, 1)), 'jwalk': ('enum', (-1, 0, 1))}
    i, j = sym('i', 'enum', (0, 1, 2)), sym('j', 'enum', (0, 1, 2))
    ref = made(s)[3]
    for n in names:
        I, st, r, o = made(s, tun=(n,))
        for m in names:
            want = app(n, doms.get(n, ('real',)), i, j) if m == n else ref.at(m, i, j)
            s.eq('given %s: %s' % (n, m), o.at(m, i, j), want)


@check.section('bookkeeping')
def book(s):
    I, st, r, o = made(s)
    s.eq('no walk yet', o.term('walk_data'), NONE)
    s.eq('no particles yet', o.term('Np_tracer'), ZERO)
    s.eq('no region', o.term('roi_grid'), NONE)
    i, j = sym('i', 'nat'), sym('j', 'nat')
    I, st, r, o = made(s, tun=('roi_grid',))
    s.eq('given region', o.at('roi_grid', i, j), app('roi', ('enum', (0, 1)), i, j), assume=in_grid(i, j))
