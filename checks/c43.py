from fractions import Fraction
from checks.catalog import *
from checks.seen import *
from checks.drawn import *
from checks.c28 import models, Grid, NPT, CS
from checks import iterc

check = Check('C43', 'the value graphs and effect logs of a call are the same with optional arguments left out and with their '
              'documented defaults, and with arguments by position in the documented order and by their documented names')
V_ = bv()


def value(sh, v):
    return v(sh) if callable(v) else v


def numbers(*xs):
    return lambda sh: sh.I.new_list(sh.st, [const(x) for x in xs])


def result_of(sh):
    return sh.I.reify(sh.r.st, sh.r.val)


def same_calls(s, mod, fn, required, optional, mods=(RT, PT, LW), setup=None, me=None, out=result_of, specs=(), draws=True,
               also=()):
    """required: function of the run giving [(name, value)]; optional: [(name, documented default, some other value)];
    me: for methods, what makes the object"""
    def run(args, kw):
        def given(sh):
            if setup:
                setup(sh)
            first = [me(sh)] if me else []
            sh.need = required(sh)
            return first + args(sh), kw(sh)
        sh = Shown(s, fn, given, mods=list(mods), mod=mod, specs=specs)
        seen = Seen()
        s.true('returns', sh.r.guard())
        seen.calls.append((fn.split('.')[-1], out(sh) if sh.r.st is not None else NONE, [e for e in sh.log if draws and not e.name.startswith('walk.')]))
        return seen
    need = lambda sh: [v for k, v in sh.need]
    left = run(need, lambda sh: {})
    given = run(need, lambda sh: {k: value(sh, d) for k, d, o in optional})
    compare(s, given, left)
    for kw in also:
        left = run(need, lambda sh: {k: value(sh, v) for k, v in kw.items()})
        given = run(need, lambda sh: {k: value(sh, kw.get(k, d)) for k, d, o in optional})
        compare(s, given, left)
    names = run(lambda sh: [], lambda sh: dict(sh.need, **{k: value(sh, o) for k, d, o in optional}))
    order = run(lambda sh: need(sh) + [value(sh, o) for k, d, o in optional], lambda sh: {})
    compare(s, names, order)


def a_walk(sh):
    return walk(sh.I, sh.st, 'o', NO, ())


def raster(name, dom=('nanreal',), dt='f'):
    return lambda sh: arr_app(sh.I, sh.st, name, (H, W), dom, dt)


def times(sh):
    return list_of(sh.I, sh.st, seq_app('et', NO, ('real', 0, 50)))


OFF, ON = FALSE, TRUE
VERB = ('verbose', NONE, NONE)
OUT = ('folder_name', NONE, const('out'))
TABLE = [
    ('exposure_time', PT, lambda sh: [('walk_data', a_walk(sh)), ('region_of_interest', raster('region', ('enum', (0, 1)), 'i')(sh))],
     [VERB]),
    ('nourishment_area', PT, lambda sh: [('walk_data', a_walk(sh)), ('raster_size', sh.I.new_list(sh.st, [H, W]))],
     [('sigma', const(Fraction(7, 10)), const(2)), ('clip', const(Fraction(199, 2)), const(90))]),
    ('nourishment_time', PT, lambda sh: [('walk_data', a_walk(sh)), ('raster_size', sh.I.new_list(sh.st, [H, W]))],
     [('sigma', const(Fraction(7, 10)), const(2)), ('clip', const(Fraction(199, 2)), const(90))]),
    ('get_state', RT, lambda sh: [('walk_data', a_walk(sh))], [('iteration', const(-1), const(2)), VERB]),
    ('get_time_state', RT, lambda sh: [('walk_data', a_walk(sh)), ('target_time', sym('target', 'real'))], [VERB]),
    ('plot_exposure_time', RT, lambda sh: [('walk_data', a_walk(sh)), ('exposure_times', times(sh))],
     [OUT, ('timedelta', ONE, const(60)), ('nbins', const(100), const(7)), ('save_output', ON, OFF), VERB,
      ('uniform_timesteps', OFF, ON), ('show_thresholds', OFF, OFF)]),
    ('plot_exposure_time_thresholds', RT, lambda sh: [('walk_data', a_walk(sh)), ('exposure_times', times(sh))],
     [OUT, ('timedelta', ONE, const(60)), ('nbins', const(100), const(7)), ('save_output', ON, OFF), VERB,
      ('uniform_timesteps', OFF, ON)]),
    ('draw_travel_path', RT, lambda sh: [('grid', raster('grid')(sh)), ('walk_data', a_walk(sh))],
     [('particles_to_follow', const('all'), numbers(0, 2)), ('output_file', const('travel_paths.png'), const('other.png')),
      ('interval', ONE, const(3)), ('plot_legend', OFF, ON)]),
    ('plot_state', RT, lambda sh: [('grid', raster('grid')(sh)), ('walk_data', a_walk(sh))],
     [('iteration', const(-1), const(2)), ('target_time', NONE, NONE), ('c', const('b'), const('r'))]),
    ('snake_plots', RT, lambda sh: [('grid', raster('grid')(sh)), ('walk_data', a_walk(sh)), ('num_steps', const(3))],
     [OUT, ('interval', const(4), const(2)), ('tail_length', const(12), const(3)),
      ('rgba_start', numbers(1, Fraction(2, 5), Fraction(1, 5), 1), numbers(0, 1, 1, 1)),
      ('rgba_end', numbers(1, Fraction(3, 10), Fraction(1, 10), 0), numbers(1, 0, 0, 1)), VERB]),
    ('show_nourishment_area', RT, lambda sh: [('visit_freq', raster('map')(sh))],
     [('grid', NONE, raster('grid')), ('walk_data', NONE, a_walk), ('cmap', const('Reds'), const('Blues')),
      ('sigma', const(Fraction(7, 10)), const(2)), ('min_alpha', ZERO, const(Fraction(1, 5))), ('show_seed', ON, ON),
      ('seed_color', const('dodgerblue'), const('red'))]),
    ('show_nourishment_time', RT, lambda sh: [('mean_times', raster('map')(sh))],
     [('grid', NONE, raster('grid')), ('walk_data', NONE, a_walk), ('cmap', const('magma'), const('Blues')),
      ('show_colorbar', ON, OFF), ('min_alpha', const(Fraction(3, 10)), const(Fraction(1, 5))), ('show_seed', ON, ON),
      ('seed_color', const('dodgerblue'), const('red'))]),
]
ALSO = {'show_nourishment_area': ({'walk_data': a_walk, 'grid': raster('grid')},),
        'show_nourishment_time': ({'walk_data': a_walk, 'grid': raster('grid')},),
        'plot_state': ({'target_time': sym('target', 'real')},)}
for fn, mod, req, opt in TABLE:
    check.section(fn)(lambda s, fn=fn, mod=mod, req=req, opt=opt: same_calls(s, mod, fn, req, opt, also=ALSO.get(fn, ())))


def order_only(s, mod, fn, params, **kw):
    same_calls(s, mod, fn, params, [], **kw)


def spot(sh):
    return sh.I.new_list(sh.st, [sym('x0', 'real'), sym('y0', 'real')])


def cells_of(sh):
    return sh.I.new_list(sh.st, [H, W])


def points(sh):
    v = bv()
    return list_of(sh.I, sh.st, tm.mk('map', NS, v, tm.lit(app('px', ('real',), v), app('py', ('real',), v))))


SIZE = sym('size', 'pos')


@check.section('coord2ind')
def to_cells(s):
    order_only(s, PT, 'coord2ind', lambda sh: [('coordinates', points(sh)), ('raster_origin', spot(sh)),
                                               ('raster_size', cells_of(sh)), ('cellsize', SIZE)], mods=(PT,))


@check.section('ind2coord')
def to_points(s):
    order_only(s, PT, 'ind2coord', lambda sh: [('walk_data', a_walk(sh)), ('raster_origin', spot(sh)),
                                               ('raster_size', cells_of(sh)), ('cellsize', SIZE)], mods=(PT,))


@check.section('flux_proportional_seeding')
def shares(s):
    order_only(s, PT, 'flux_proportional_seeding',
               lambda sh: [('Q', list_of(sh.I, sh.st, seq_app('flow', const(3), ('pos',)))), ('N_total', N),
                           ('num_steps', const(3))], mods=(PT,))


@check.section('animate_plots')
def movie(s):
    order_only(s, RT, 'animate_plots', lambda sh: [('start_val', ZERO), ('end_val', const(3)), ('folder_name', const('out'))])


def after(sh):
    st = sh.r.st
    o = st.heap[sh.p.oid].attrs
    return tm.lit(sh.I.reify(st, sh.r.val), sh.I.reify(st, o['walk_data'][1]), sh.I.reify(st, o['Np_tracer'][1]))


def histories(sh):
    st = sh.r.st
    d = hist(sh.I, st, sh.p)
    return tm.lit(*[d[k] for k in BASE])


def fresh(sh):
    sh.p = tracker(sh.I, sh.st, ('depth',), NONE, ZERO)
    return sh.p


def walked(sh):
    sh.p = tracker(sh.I, sh.st, (), walk(sh.I, sh.st, 'o', NO, ()), NO)
    return sh.p


def seeds(sh):
    return [('Np_tracer', N), ('seed_xloc', list_of(sh.I, sh.st, seq_app('sx', NS, ('intT', ZERO, H)))),
            ('seed_yloc', list_of(sh.I, sh.st, seq_app('sy', NS, ('intT', ZERO, W))))]


@check.section('generate_particles')
def seeding(s):
    same_calls(s, PT, 'Particles.generate_particles', seeds,
               [('seed_time', ZERO, const(5)), ('method', const('random'), const('exact')),
                ('previous_walk_data', NONE, lambda sh: walk(sh.I, sh.st, 'p', NP, ()))], mods=(LW, PT), me=fresh, out=histories)


def iterated(optional):
    def section(s):
        same_calls(s, PT, 'Particles.run_iteration', lambda sh: [], optional, mods=(LW, PT), me=walked, out=histories,
                   specs=iterc.SPECS)
    return section


def big(t):
    return {x.args[0] for x in tm.subterms(t) if x.op == 'const' and isinstance(x.args[0], (int, Fraction)) and abs(x.args[0]) > 20}


@check.section('run_iteration, bound on the iterations')
def bound(s):
    """the bound cannot be reached by evaluation: the same code, given 10^4, has to have the same constants"""
    def run(kw):
        sh = Shown(s, 'Particles.run_iteration', lambda sh: ([walked(sh)], dict(kw, target_time=sym('target', 'real'))),
                   mods=[LW, PT], mod=PT, specs=iterc.SPECS)
        s.true('returns', sh.r.guard())
        return histories(sh)
    left, given = run({}), run({'max_iter': const(10000)})
    a, b = big(left), big(given)
    if a != b and len(a) == len(b):
        s.fail('bound left out', 'the iterations are bounded by %s instead of %s' % (sorted(a - b), sorted(b - a)))
    elif a == b:
        s.ok('bound left out', 'constants of the value graphs: %s' % sorted(map(str, a)))
    else:
        s.undecided('bound left out', 'constants %s and %s' % (sorted(map(str, a)), sorted(map(str, b))))


check.section('run_iteration, one step')(iterated([('target_time', NONE, NONE)]))
check.section('run_iteration, to a time')(iterated([('target_time', NONE, sym('target', 'real')), ('max_iter', const(10000), const(3))]))


def stepped(fn, optional):
    def section(s):
        same_calls(s, RT, fn, lambda sh: (lambda a: [('particle', a[0]), ('num_iter', a[1])])(stepping(2, NONE)(sh)[0]), optional,
                   out=lambda sh: tm.lit(*[sh.I.reify(sh.r.st, sh.I.getitem(sh.r.st, sh.I.resolve(sh.r.st, sh.r.val), const(k)))
                                           for k in BASE]))
    return section


check.section('steady_plots')(stepped('steady_plots', [OUT, ('save_output', ON, OFF), VERB]))
check.section('time_plots')(stepped('time_plots', [OUT, VERB]))


def factor(sh):
    return tm.add(sym('f', 'nat'), ONE)


for fn in ('systemwide', 'localized'):
    @check.section(fn)
    def chunks(s, fn=fn):
        order_only(s, SP, fn, lambda sh: [('walk_data', a_walk(sh)), ('elevation', raster('elevation')(sh)),
                                          ('celltype', raster('celltype', ('enum', (0, 1, 2)), 'i')(sh)),
                                          ('resolution_factor', factor(sh))], mods=(SP, PT))


@check.section('compute_thresholds')
def quantiles(s):
    count = sym('count', 'nat')

    def data(sh):
        ln = lambda i: app('len', ('nat',), i)
        L = list_of(sh.I, sh.st, seq2_app('e', count, ln, ('real', 0, 50)))

        def filtered(I, st, a, k):
            given = dict(zip(('data', 'window_size', 'threshold'), a))
            given.update(k)
            return tm.mk('opaque', 'filtered', *[I.reify(st, given.get(n, NONE)) for n in ('data', 'window_size', 'threshold')])
        sh.I.stubs[SP + '.median_absolute_deviation_filter'] = filtered
        return [('exposure_data', L), ('elevation', raster('elevation')(sh)), ('timedelta', sym('td', 'pos')),
                ('resolution_factor', factor(sh))]
    same_calls(s, SP, 'compute_thresholds', data, [('window_size', const(5), const(7)), ('threshold', const(3), const(2))],
               mods=(SP, PT), draws=False)


@check.section('median_absolute_deviation_filter')
def outliers(s):
    order_only(s, SP, 'median_absolute_deviation_filter',
               lambda sh: [('data', raster('map')(sh)), ('window_size', const(3)), ('threshold', sym('limit', 'pos'))], mods=(SP, PT))


@check.section('plot_spatial')
def maps(s):
    def args(sh):
        m = [raster('map %d' % k)(sh) for k in range(3)]
        return list(zip(('exposure_maps', 'elevation', 'max_exposure', 'cbar_levels', 'cmap', 'title'),
                        [sh.I.new_list(sh.st, m), raster('elevation')(sh), const(15), const(6),
                         sym('colours', 'any'), const('days')]))
    order_only(s, SP, 'plot_spatial', args, mods=(SP, PT))


@check.section('unstruct2grid')
def samples(s):
    def args(sh):
        models(sh.I, Grid())
        sh.I.stubs['gridding.inside_points'] = lambda I, st, a, k: (lambda p: I.new_arr(
            st, (p.shape[0],), lambda vs: app('inside', ('bool',), elem(I, st, a[1], (vs[0], ZERO)), elem(I, st, a[1], (vs[0], ONE))),
            'b'))(I.arr(st, a[1]))
        v = bv()
        return [('coordinates', list_of(sh.I, sh.st, tm.mk('map', NPT, v, tm.mk('tup', app('px', ('real',), v), app('py', ('real',), v))))),
                ('quantity', list_of(sh.I, sh.st, seq_app('q', NPT, ('real',)))), ('cellsize', CS)]
    same_calls(s, PT, 'unstruct2grid', args, [('k_nearest_neighbors', const(3), const(2)), ('boundary', NONE, sym('boundary', 'any')),
                                              ('crop', ON, OFF)], mods=(PT,), specs=('gridding',),
               out=lambda sh: sh.I.reify(sh.r.st, sh.I.getitem(sh.r.st, sh.r.val, ONE)), also=({'boundary': sym('boundary', 'any')},))
