from checks.catalog import *
from checks.par import *

check = Check('C34', 'no path of an analysis, plot or routine raises on a valid walk of one or more particles, and zero '
              'iterations give the walk as it is')
SIZES = {'any walk': (NO, None), 'one particle that never moved': (ONE, lambda i: ONE), 'one particle': (ONE, None),
         'two particles': (const(2), None), 'three particles that never moved': (const(3), lambda i: ONE)}


def fine(g, r, assume):
    a = tm.and_(assume, tm.lt(ZERO, g.count))
    g.s.eq('%s does not fail' % g.fn, r.exc_cond(), FALSE, assume=a)
    g.s.true('%s returns' % g.fn, r.guard(), assume=a)


for size, (n, ln) in SIZES.items():
    def G(*a, n=n, ln=ln):
        return Given(*a, observe=fine, count=n, entries=ln)
    for lab, opt in (('no optional variables', ()), ('optional variables', EVERY)):
        for what, f in OF_WALK.items():
            check.section('%s, %s, %s' % (what, size, lab))(lambda s, f=f, opt=opt, G=G: f(s, G, opt))


def nothing(s, fn, opts, folder):
    sh = Shown(s, fn, stepping(0, folder, None, opts))
    a = tm.lt(ZERO, NO)
    s.eq('does not fail', sh.r.exc_cond(), FALSE, assume=a)
    s.eq('the walk is returned as it was', sh.I.reify(sh.r.st, sh.r.val), walk_term(sh, 0, opts), assume=a)
    s.need('nothing is iterated', not sh.made, '%d iterations' % len(sh.made))


for fn in ('steady_plots', 'time_plots'):
    for lab, opts in (('no optional variables', ()), ('optional variables', OPTW)):
        check.section('%s, no iterations, %s' % (fn, lab))(lambda s, fn=fn, opts=opts: nothing(s, fn, opts, const('out')))
