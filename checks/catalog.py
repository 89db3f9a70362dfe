"""Shared: calls of every analysis, query, plotting, conversion and seeding function on free walks and rasters."""
from checks.drawn import *


class Given(object):
    """arguments of a call and their values before it; observe(given, result, assume) is called after each call"""

    def __init__(self, s, mods, specs=(), observe=None, count=NO, entries=None):
        self.s = s
        self.I = s.interp(mods, specs=specs)
        self.st = self.I.new_state()
        self.held = {}
        self.observe, self.count, self.entries = observe, count, entries

    def hold(self, name, v):
        self.held[name] = v
        return v

    def walk(self, opt=OPTW, pre='o', n=None):
        n = self.count if n is None else n
        return self.hold('walk', walk(self.I, self.st, pre, n, opt, ln=self.entries))

    def raster(self, name, dom=('nanreal',), dt='f', shape=(H, W)):
        return self.hold(name, arr_app(self.I, self.st, name, shape, dom, dt))

    def call(self, mod, fn, args, kw=None, assume=TRUE):
        self.fn = fn
        self.before = {n: self.I.reify(self.st, v) for n, v in self.held.items()}
        r = self.s.run(self.I, self.st, self.s.func(self.I, mod, fn), args, kw or {})
        self.observe(self, r, assume)
        return r


ALL = [RT, PT, LW]
# everything that may be found in a walk besides its histories of cells and times
EVERY = ('depth', 'stage', 'qx', 'qy', 'u', 'v', 'roi_flag', 'xcoord', 'ycoord')
OF_WALK, OTHER = {}, {}


def queries(s, G, opt):
    for fn, arg in (('get_state', []), ('get_state', [sym('iteration', 'nat')]), ('get_time_state', [sym('target', 'real')])):
        g = G(s, ALL)
        g.call(RT, fn, [g.walk(opt)] + arg)

OF_WALK['states'] = queries


def measures(s, G, opt):
    g = G(s, ALL)
    g.call(PT, 'exposure_time', [g.walk(opt), g.raster('region', ('enum', (0, 1, 1, 2, -1)), 'i')])
    for fn in ('nourishment_area', 'nourishment_time'):
        for sig in (ZERO, sym('sigma', 'pos')):
            g = G(s, ALL)
            g.call(PT, fn, [g.walk(opt), g.hold('raster size', g.I.new_list(g.st, [H, W]))], {'sigma': sig})

OF_WALK['measures'] = measures


def paths(s, G, opt):
    for kw in ({}, {'interval': const(2)}, {'particles_to_follow': 'some'}):
        g = G(s, ALL)
        if 'particles_to_follow' in kw:
            kw = {'particles_to_follow': g.hold('selection', list_of(g.I, g.st, seq_app('sel', NS, ('intT', ZERO, g.count))))}
        g.call(RT, 'draw_travel_path', [g.raster('grid'), g.walk(opt)], kw, tm.lt(ZERO, g.count))

OF_WALK['travel paths'] = paths


def state(s, G, opt):
    for kw in ({}, {'iteration': sym('iteration', 'nat')}, {'target_time': sym('target', 'real')}):
        g = G(s, ALL)
        g.call(RT, 'plot_state', [g.raster('grid'), g.walk(opt)], kw)

OF_WALK['plot of a state'] = state


def snakes(s, G, opt):
    for n in (0, 2):
        g = G(s, ALL)
        g.call(RT, 'snake_plots', [g.raster('grid'), g.walk(opt), const(n)], {'folder_name': const('out')})

OF_WALK['snakes'] = snakes


def nourishment(s, G, opt):
    for fn in ('show_nourishment_area', 'show_nourishment_time'):
        for kw in ((), ('grid',), ('walk_data',), ('grid', 'walk_data')):
            g = G(s, ALL)
            a = {}
            if 'grid' in kw:
                a['grid'] = g.raster('grid')
            if 'walk_data' in kw:
                a['walk_data'] = g.walk(opt)
            g.call(RT, fn, [g.raster('map')], a)

OF_WALK['maps shown'] = nourishment


def curves(s, G, opt):
    for fn in ('plot_exposure_time', 'plot_exposure_time_thresholds'):
        for save in (True, False):
            g = G(s, ALL)
            et = g.hold('exposure times', list_of(g.I, g.st, seq_app('et', g.count, ('real', 0, 50))))
            g.call(RT, fn, [g.walk(opt), et, ], {'folder_name': const('out'), 'save_output': const(save)})

OF_WALK['exposure curves'] = curves


def chunks(s, G, opt):
    for fn in ('systemwide', 'localized'):
        g = G(s, [SP, PT])
        g.call(SP, fn, [g.walk(opt), g.raster('elevation'), g.raster('celltype', ('enum', (0, 1, 2)), 'i'),
                        tm.add(sym('f', 'nat'), ONE)])

OF_WALK['chunks'] = chunks


def other(label):
    def put(f):
        OTHER[label] = f
    return put


@other('quantiles of chunks')
def quantiles(s, G):
    for count in (ZERO, sym('count', 'nat')):
        g = G(s, [SP, PT])
        ln = lambda i: app('len', ('nat',), i)
        L = g.hold('exposure times', list_of(g.I, g.st, seq2_app('e', count, ln, ('real', 0, 50))))
        st = g.st
        g.I.stubs[SP + '.median_absolute_deviation_filter'] = lambda I, st, a, k: a[0]
        g.call(SP, 'compute_thresholds', [L, g.raster('elevation'), sym('td', 'pos'), tm.add(sym('f', 'nat'), ONE)])
    g = G(s, [SP, PT])
    g.call(SP, 'median_absolute_deviation_filter', [g.raster('map'), const(3), sym('limit', 'pos')])
    g = G(s, [SP, PT])
    g.call(SP, 'percentile_from_cdf', [g.raster('distribution', shape=(H,)), g.raster('positions', shape=(H,)), sym('p', 'unit')])


@other('maps of exposure shown')
def spatial(s, G):
    g = G(s, [SP, PT])
    maps = [g.raster('map %d' % k) for k in range(3)]
    g.call(SP, 'plot_spatial', [g.hold('list of maps', g.I.new_list(g.st, maps)), g.raster('elevation'), const(15),
                                const(6), sym('colours', 'any'), const('days')])


@other('conversions')
def conversions(s, G):
    g = G(s, [PT])
    v = bv()
    pts = g.hold('coordinates', list_of(g.I, g.st, tm.mk('map', NS, v, tm.lit(app('px', ('real',), v), app('py', ('real',), v)))))
    o = g.hold('origin', g.I.new_list(g.st, [sym('x0', 'real'), sym('y0', 'real')]))
    sh = g.hold('raster size', g.I.new_list(g.st, [H, W]))
    g.call(PT, 'coord2ind', [pts, o, sh, sym('size', 'pos')])


@other('seeding')
def seeding(s, G):
    for m in ('exact', 'random'):
        for prev in (None, (), ('depth',)):
            g = G(s, [LW, PT])
            p = tracker(g.I, g.st, ('depth',), NONE, ZERO)
            rows = g.hold('seed rows', list_of(g.I, g.st, seq_app('sx', NS, ('intT', ZERO, H))))
            cols = g.hold('seed columns', list_of(g.I, g.st, seq_app('sy', NS, ('intT', ZERO, W))))
            kw = {'method': const(m)}
            if prev is not None:
                kw['previous_walk_data'] = g.walk(prev)
            g.call(PT, 'Particles.generate_particles', [p, sym('N', 'nat'), rows, cols], kw)
