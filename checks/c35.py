from checks.drawn import *

check = Check('C35', 'the value graphs of everything drawn place a particle at (column, row) of its own entry of the history, '
              'over the untransposed field')


def images(s, fr, want, label):
    """the field under the particles"""
    if not fr.images:
        return s.undecided('%s: field shown' % label, 'no image recognised')
    shows(s, fr.sh, '%s: field shown' % label, [(i['d'],) for i in fr.images], (want,))


def stepped(s, fn, n):
    sh = Shown(s, fn, stepping(n, const('out')))
    depth = sh.I.reify(sh.st, sh.st.heap[sh.particle.oid].attrs['depth'][1])
    fs = frames(sh)
    s.need('one figure per iteration', len(fs) == n, '%d figures for %d iterations' % (len(fs), n))
    for k, f in enumerate(fs):
        f.sh = sh
        lab = 'figure %d' % k
        pts = [(p['h'], p['v']) for p in f.points]
        x, y = cells(k + 1)
        shows(s, sh, lab + ': positions after the iteration', pts, (y, x))
        x, y = cells(None)
        shows(s, sh, lab + ': starts', pts, (y, x))
        images(s, f, depth, lab)
        numbered(s, sh, f, lab, const(k))
        if fn == 'time_plots':
            x, y, t = cells(k + 1, names=('xinds', 'yinds', 'travel_times'))
            cs = [(p['h'], p['v'], sequence(p['c'])) for p in f.points if p['c'] is not None and p['c'].op != 'const']
            shows(s, sh, lab + ': colours are the times of the positions', cs, (y, x, t))
        s.need(lab + ': starts and positions are the only particles shown', len(f.points) <= 2 or sh.blind,
               '%d sets of particles' % len(f.points))


def sequence(t):
    if t.op == 'arr':
        v = bv()
        return tm.mapseq(t.args[0][0], v, tm.asel(t, (v,)))
    return t


def state(s, kw, at):
    sh = Shown(s, 'plot_state', lambda sh: looked(sh, kw))
    I = sh.I
    s.true('returns', sh.r.guard())
    i = bv()
    g = s.func(I, RT, 'get_time_state' if 'target_time' in kw else 'get_state')
    r = s.run(I, sh.st, g, [sh.walk, at])
    v = I.resolve(r.st, r.val)
    x, y = [I.reify(r.st, I.getitem(r.st, v, const(k))) for k in (0, 1)]
    f = Frame(None, *now(sh))
    f.sh = sh
    shows(s, sh, 'positions of the state', [(p['h'], p['v']) for p in f.points], (y, x))
    images(s, f, sh.I.reify(sh.st, sh.grid), 'state')
    s.need('particles are shown once', len(f.points) == 1 or sh.blind, '%d sets of particles' % len(f.points))


def looked(sh, kw):
    sh.walk = walk(sh.I, sh.st, 'o', NO, OPTW)
    sh.grid = arr_app(sh.I, sh.st, 'grid', (H, W))
    return [sh.grid, sh.walk], kw


def now(sh):
    """points and images at the end"""
    frames(sh)
    pts = [dict(h=data_args(sh, e, ('x', 'y'))[0], v=data_args(sh, e, ('x', 'y'))[1]) for e, a in sh.named('scatter')]
    imgs = [dict(d=data_args(sh, e, ('X',))[0]) for e, a in sh.named('imshow')]
    return pts, imgs


def lines(sh):
    """the line collections drawn"""
    return [(e, data_args(sh, e, ('segments',))[0]) for e in sh.log if e.name.split('.')[-1] == 'LineCollection']


def paths(s, kw, every, follow=None):
    who = {} if follow is None else {'particles_to_follow': [const(q) for q in follow]}
    sh = Shown(s, 'draw_travel_path', lambda sh: looked(sh, dict(kw, **{k: sh.I.new_list(sh.st, items=v) for k, v in who.items()})))
    s.true('returns', sh.r.guard(), assume=tm.and_(*[tm.lt(const(q), NO) for q in follow or ()]))
    ls = lines(sh)
    if len(ls) != 1:
        return s.undecided('paths', '%d line collections' % len(ls))
    t = ls[0][1]
    i, j = sym('i', 'nat'), sym('j', 'nat')
    count = NO if follow is None else const(len(follow))
    s.eq('one path per particle followed', tm.length(t), count)
    ln = tm.add(ONE, app('olen', ('nat',), i))
    for p, who in ([(i, i)] if follow is None else [(const(n), const(q)) for n, q in enumerate(follow)]):
        ln = tm.add(ONE, app('olen', ('nat',), who))
        g = tm.and_(tm.lt(p, count), tm.and_(*[tm.lt(const(q), NO) for q in follow or ()]))
        lab = '' if follow is None else ' %s' % who.args[0]
        s.eq('points of path' + lab, tm.length(tm.sel(t, p)), tm.floordiv(tm.add(ln, const(every - 1)), const(every)), assume=g, samples=150)
        inr = tm.and_(g, tm.lt(tm.mul(const(every), j), ln))
        pt = tm.sel(tm.sel(t, p), j)
        for c, name, top in ((0, 'y', W), (1, 'x', H)):
            s.eq('%s of path%s' % (('column', 'row')[c], lab), tm.sel(pt, const(c)),
                 app('o' + name, ('intT', ONE, tm.sub(top, ONE)), who, tm.mul(const(every), j)), assume=inr, samples=150)
    if 'plot_legend' in kw:
        lg = [data_args(sh, e, ('handles', 'labels'))[1] for e in sh.log if e.name.split('.')[-1] == 'legend']
        if len(lg) != 1 or not isinstance(lg[0], T):
            s.undecided('the legend names the particles', '%d legends recognised' % len(lg))
        else:
            s.eq('the legend has one entry per path', tm.length(lg[0]), count)
            for p, who in ([(i, i)] if follow is None else [(const(n), const(q)) for n, q in enumerate(follow)]):
                s.eq('the legend names the particle of path %s' % tm.show(p, 2), tm.sel(lg[0], p), tm.mk('call', 'str', who)
                     if who is i else const(str(who.args[0])), assume=tm.lt(p, count))
    pts, imgs = now(sh)
    f = Frame(None, pts, imgs)
    f.sh = sh
    images(s, f, sh.I.reify(sh.st, sh.grid), 'paths')
    sv = sh.named('savefig')
    out = kw.get('output_file', const('travel_paths.png'))
    s.need('saved to the file asked for', len(sv) == 1 and (sv[0][1][0] if sv[0][1] else (sv[0][0].kw or {}).get('fname')) is out, 'saved %d times' % len(sv))


def seed(s, fn, arg):
    def args(sh):
        sh.walk = walk(sh.I, sh.st, 'o', tm.add(NO, ONE), OPTW)
        sh.grid = arr_app(sh.I, sh.st, 'grid', (H, W))
        sh.m = arr_app(sh.I, sh.st, 'map', (H, W))
        return [sh.m], {'grid': sh.grid, 'walk_data': sh.walk}
    sh = Shown(s, fn, args)
    pts, imgs = now(sh)
    if not pts:
        return s.undecided('the first seed is marked', 'no marker recognised')
    want = tuple(app('o' + n, ('intT', ONE, tm.sub(top, ONE)), ZERO, ZERO) for n, top in (('y', W), ('x', H)))
    shows(s, sh, 'the first seed is marked', [(p['h'], p['v']) for p in pts], want)
    f = Frame(None, pts, imgs)
    f.sh = sh
    images(s, f, sh.I.reify(sh.st, sh.grid), 'map')


for fn in ('steady_plots', 'time_plots'):
    for n in (1, 2, 3):
        check.section('%s, %d steps' % (fn, n))(lambda s, fn=fn, n=n: stepped(s, fn, n))
IT, TT = sym('iteration', 'int'), sym('target', 'real')
check.section('plot_state, last')(lambda s: state(s, {}, const(-1)))
check.section('plot_state, iteration')(lambda s: state(s, {'iteration': IT}, IT))
check.section('plot_state, first')(lambda s: state(s, {'iteration': ZERO}, ZERO))
check.section('plot_state, time')(lambda s: state(s, {'target_time': TT}, TT))
check.section('plot_state, time zero')(lambda s: state(s, {'target_time': ZERO}, ZERO))
check.section('draw_travel_path, all')(lambda s: paths(s, {}, 1))
check.section('draw_travel_path, every third')(lambda s: paths(s, {'interval': const(3), 'output_file': const('p.png')}, 3))
for k in (2, 5, 12):
    check.section('draw_travel_path, interval %d' % k)(lambda s, k=k: paths(s, {'interval': const(k)}, k))
check.section('draw_travel_path, some')(lambda s: paths(s, {}, 1, (2, 0)))
check.section('draw_travel_path, all, with a legend')(lambda s: paths(s, {'plot_legend': TRUE}, 1))
check.section('draw_travel_path, some, with a legend')(lambda s: paths(s, {'plot_legend': TRUE}, 1, (2, 0)))
check.section('show_nourishment_area')(lambda s: seed(s, 'show_nourishment_area', 'map'))
check.section('show_nourishment_time')(lambda s: seed(s, 'show_nourishment_time', 'map'))
