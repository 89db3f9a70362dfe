from checks.drawn import *

check = Check('C37', 'the value graphs of the curves drawn and of the times reported equal the reference distribution of the '
              'exposure times, for every set of times')
NB = 9
DOMAINS = {'any times': (('real', 0, 12), ('pos',)), 'whole times': (('enum', (0, 1, 2, 3, 5, 9)), ('enum', (2, 3, 5, 9)))}
MANY = (('int', 1, 90), ('int', 100, 120))
DOMAINS['most particles leave'] = MANY
LEVELS = (('E50', '1/2'), ('E75', '3/4'), ('E90', '9/10'))


class Dist(object):
    pass


def start(s, fn, dom, uniform, td, **kw):
    d = Dist()
    ed, td_ = dom
    i = bv()

    def args(sh):
        st = sh.st
        ln = lambda i: tm.add(ONE, app('olen', ('nat',), i))
        sh.walk = walk(sh.I, st, 'o', NO, ('depth',), extra={'travel_times': list_of(sh.I, st, seq2_app('ot', NO, ln, td_))})
        sh.times = list_of(sh.I, st, seq_app('et', NO, ed))
        k = {'save_output': FALSE, 'nbins': const(NB), 'timedelta': td}
        if uniform is not None:
            k['uniform_timesteps'] = const(uniform)
        return [sh.walk, sh.times], dict(k, **kw)

    def stubs(sh):
        sh.I.stubs['ext:scipy.interpolate.interp1d'] = lambda I, st, a, k: I.call(st, I.func('etd', 'Interp'), a, k)
        sh.I.stubs['etd.unmodelled'] = lambda I, st, a, k: I.opaque_call(st, 'scipy.interpolate.interp1d', a, k, pure=True)
    d.sh = sh = Shown(s, fn, args, setup=stubs, specs=['etd'])
    d.td, d.ok = td, tm.lt(ZERO, NO)
    d.many = dom is MANY
    d.et = sh.I.reify(sh.st, sh.times)
    last = tm.mapseq(NO, i, app('ot', td_, i, app('olen', ('nat',), i)))
    d.spec = lambda f, *a: s.spec(sh.I, sh.st, 'etd', f, list(a))
    d.end = d.spec('ends', last, const(bool(uniform)))
    d.frac = lambda t: d.spec('fraction', d.et, d.end, NO, t)
    d.before = sh.I.reify(sh.st, sh.walk)
    return d


def curves(s, d, *names):
    """(horizontal, vertical) of every curve drawn with the given functions"""
    return [(e, data_args(d.sh, e, ('x', 'y'))) for e in d.sh.log if e.name.split('.')[-1] in names]


def at(t, k):
    return tm.asel(t, (k,)) if t.op == 'arr' else tm.sel(t, k)


def size(t):
    return t.args[0][0] if t.op == 'arr' else tm.length(t)


def smooth(s, d, e, h, v, name='smooth curve'):
    k = sym('k', 'nat')
    inr = tm.and_(d.ok, tm.lt(k, const(NB)))
    s.eq(name + ': number of points', tm.lit(size(h), size(v)), tm.lit(const(NB), const(NB)), where=e.where())
    t = d.spec('grid', d.end, const(NB), k)
    s.eq(name + ': times', at(h, k), tm.div(t, d.td), assume=inr, where=e.where())
    s.eq(name + ': share of the particles', at(v, k), d.frac(t), assume=inr, samples=150, where=e.where())


def many(s, d, name, code, ref, assume, where):
    """the same for walks of many particles, where neighbouring levels differ"""
    if d.many:
        s.eq(name + ', many particles', code, ref, assume=assume, samples=10, where=where, over=lambda k: {'no': 20 + k % 3})


def reports(s, d, want):
    """the messages about the thresholds: (level name, condition, time)"""
    for lab, lev in LEVELS:
        lev = tm.const(__import__('fractions').Fraction(lev))
        told = []
        for e in d.sh.log:
            if e.name.split('.')[-1] not in ('info', 'print') or not e.plain:
                continue
            for x in tm.subterms(e.plain[0]):
                if x.op == 'const' and isinstance(x.args[0], str) and x.args[0].startswith(lab):
                    told.append(e)
                    break
        if not told:
            s.undecided(lab + ' is reported', 'no message recognised')
            continue
        s.true(lab + ' is always reported', tm.or_(*[e.when() for e in told]), assume=d.ok, samples=150)
        yes, val, shape = want(lev)
        some = False
        for e in told:
            nums = [x for x in tm.subterms(e.plain[0]) if (x.op == 'strfmt' or x.op == 'call' and x.args[0] == 'str')
                    and isinstance(x.args[1 if x.op == 'call' else 0], T)]
            nums = [x.args[1 if x.op == 'call' else 0] for x in nums]
            text = ''.join(x.args[0] for x in tm.subterms(e.plain[0]) if x.op == 'const' and isinstance(x.args[0], str))
            if 'not reached' in text:
                s.eq('%s is reported as not reached exactly when it is not' % lab, e.when(), tm.not_(yes), assume=d.ok,
                     samples=200, where=e.where())
                continue
            some = True
            s.eq('%s has a time exactly when it is reached' % lab, e.when(), yes, assume=d.ok, samples=200, where=e.where())
            if not nums:
                s.undecided(lab + ': time', 'no number recognised in the message')
                continue
            s.eq(lab + ': time', nums[0], shape(val), assume=tm.and_(d.ok, yes), samples=200, where=e.where())
            many(s, d, lab + ': time', nums[0], shape(val), tm.and_(d.ok, yes), e.where())
        if not some:
            s.undecided(lab + ': time', 'no message with a time recognised')


def distribution(s, dom, uniform, td, thresholds):
    d = start(s, 'plot_exposure_time', dom, uniform, td, **({'show_thresholds': TRUE} if thresholds else {}))
    for e in d.sh.log:
        e.plain = d.sh.plain(e)
    s.eq('no failure', d.sh.r.exc_cond(), FALSE, assume=d.ok, samples=150)
    st = curves(s, d, 'step')
    n = tm.length(d.spec('included', d.et, d.end))
    if len(st) == 1:
        e, (h, v) = st[0]
        s.eq('exact curve: number of points', tm.lit(size(h), size(v)), tm.lit(tm.add(n, const(2)), tm.add(n, const(2))),
             assume=d.ok, samples=100, where=e.where())
        j = sym('j', 'nat')
        inr = tm.and_(d.ok, tm.lt(j, tm.add(n, const(2))))
        mid = tm.sel(d.spec('included', d.et, d.end), tm.sub(j, ONE))
        t = tm.ite(tm.eq(j, ZERO), ZERO, tm.ite(tm.lt(n, j), d.end, mid))
        s.eq('exact curve: times', at(h, j), tm.div(t, d.td), assume=inr, samples=200, where=e.where())
        s.eq('exact curve: share of the particles', at(v, j), tm.div(tm.maxmin('min', [j, n]), NO), assume=inr, samples=200,
             where=e.where())
        w = e.kw.get('where', const('pre'))
        s.eq('exact curve: steps up at the time of a particle', w, const('post'), where=e.where())
    else:
        s.undecided('exact curve', '%d step curves recognised' % len(st))
    ps = curves(s, d, 'plot')
    if len(ps) == 2:
        (e, (h, v)), (e2, (h2, v2)) = ps
        smooth(s, d, e, h, v)
        k = sym('k', 'nat')
        inr = tm.and_(d.ok, tm.lt(k, const(NB)))
        s.eq('rate curve: times', at(h2, k), tm.div(d.spec('grid', d.end, const(NB), k), d.td), assume=inr, where=e2.where())
        s.eq('rate curve: derivative of the interpolated shares', at(v2, k), tm.mul(d.spec(
            'rate', d.et, d.end, NO, const(NB), k), d.td), assume=inr, samples=150, where=e2.where())
    else:
        s.undecided('smooth and rate curves', '%d curves recognised' % len(ps))
    if thresholds:
        reports(s, d, lambda lev: (tm.le(lev, d.spec('share', d.et, d.end, NO)), d.spec('first', d.et, d.end, NO, lev),
                                   lambda t: tm.div(t, d.td)))
    s.eq('the walk is left alone', d.sh.I.reify(d.sh.r.st, d.sh.walk), d.before)
    s.eq('the exposure times are left alone', d.sh.I.reify(d.sh.r.st, d.sh.times), d.et)


def levels(s, dom, uniform, td):
    d = start(s, 'plot_exposure_time_thresholds', dom, uniform, td)
    for e in d.sh.log:
        e.plain = d.sh.plain(e)
    s.eq('no failure', d.sh.r.exc_cond(), FALSE, assume=d.ok, samples=150)
    ps = curves(s, d, 'plot')
    if len(ps) == 1:
        e, (h, v) = ps[0]
        smooth(s, d, e, h, v)
    else:
        s.undecided('smooth curve', '%d curves recognised' % len(ps))
    reports(s, d, lambda lev: (d.spec('reached', d.et, d.end, NO, lev, const(NB)),
                               d.spec('first_grid', d.et, d.end, NO, lev, const(NB)),
                               lambda t: tm.fn1('floor', tm.div(t, d.td))))
    s.eq('the walk is left alone', d.sh.I.reify(d.sh.r.st, d.sh.walk), d.before)
    s.eq('the exposure times are left alone', d.sh.I.reify(d.sh.r.st, d.sh.times), d.et)


for dl, dom in DOMAINS.items():
    for ul, u in (('', None), (', uniform steps', True)):
        for tl, td in (('', ONE), (', in minutes', const(60))):
            if u and tl:
                continue
            check.section(dl + ul + tl)(lambda s, dom=dom, u=u, td=td: distribution(s, dom, u, td, False))
            check.section('thresholds shown, ' + dl + ul + tl)(lambda s, dom=dom, u=u, td=td: distribution(s, dom, u, td, True))
            check.section('threshold plot, ' + dl + ul + tl)(lambda s, dom=dom, u=u, td=td: levels(s, dom, u, td))
