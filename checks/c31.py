from checks.drawn import *

check = Check('C31', 'the value graph dumped to the data file equals the walk data returned, the state of the object and the '
              'exposure times given, for every walk')


def stepped(s, fn, n, f):
    sh = Shown(s, fn, stepping(n, f))
    s.true('returns', sh.r.guard())
    want = walk_term(sh, n)
    s.need('iterated as often as asked', len(sh.made) == n, '%d iterations for %d' % (len(sh.made), n))
    s.eq('walk data returned', sh.I.reify(sh.r.st, sh.r.val), want)
    dumped(s, sh, want, 'data/data.txt')
    for e, a in sh.named('step'):
        t = a[0] if a else (e.kw or {}).get('target_time', NONE)
        s.need('a plain iteration', t is NONE, 'iterated up to %s' % tm.show(t, 3), where=e.where())


def times(s, f):
    sh = Shown(s, 'plot_exposure_time', etd(f))
    s.true('returns', sh.r.guard())
    dumped(s, sh, sh.I.reify(sh.st, sh.times), 'data/exposure_times.txt')


def unsaved(s, n):
    sh = Shown(s, 'steady_plots', stepping(n, const('out'), FALSE))
    want = walk_term(sh, n)
    s.eq('walk data returned', sh.I.reify(sh.r.st, sh.r.val), want)
    s.need('iterated as often as asked', len(sh.made) == n, '%d iterations for %d' % (len(sh.made), n))


for fn in ('steady_plots', 'time_plots'):
    for n in (0, 1, 2, 4):
        check.section('%s, %d steps' % (fn, n))(lambda s, fn=fn, n=n: stepped(s, fn, n, const('out')))
for n in (0, 1, 3):
    check.section('steady_plots, %d steps, nothing saved' % n)(lambda s, n=n: unsaved(s, n))
check.section('plot_exposure_time')(lambda s: times(s, const('out')))
