from checks.catalog import *
from checks.seen import *
from checks import iterc, gen

check = Check('C33', 'the value graphs of results, drawings and files are the same with and without further recorded variables')


def alike(s, what, f):
    a, b = Seen(), Seen()
    f(s, a, ())
    f(s, b, EVERY)
    compare(s, a, b)


for what, f in OF_WALK.items():
    check.section(what)(lambda s, what=what, f=f: alike(s, what, f))


def stepped(s, fn, n):
    a, b = Seen(), Seen()
    for seen, opts in ((a, ()), (b, OPTW)):
        sh = Shown(s, fn, stepping(n, const('out'), None, opts))
        s.true('returns', sh.r.guard())
        v = sh.I.resolve(sh.r.st, sh.r.val)
        out = tm.lit(*[sh.I.reify(sh.r.st, sh.I.getitem(sh.r.st, v, const(k))) for k in BASE])
        seen.calls.append((fn, out, [e for e in sh.log if not e.name.startswith('walk.')]))
    compare(s, a, b)


for fn in ('steady_plots', 'time_plots'):
    for n in (1, 2):
        check.section('%s, %d steps' % (fn, n))(lambda s, fn=fn, n=n: stepped(s, fn, n))


def iterated(s, mode, have, track):
    a = iterc.It(s, mode, (), (), spec=False)
    b = iterc.It(s, mode, track, have, spec=False)
    for n in BASE:
        s.eq('history of %s' % n, s_value(b, n), s_value(a, n), samples=60)


def s_value(it, n):
    return it.I.reify(it.r.st, it.after[n]) if not isinstance(it.after[n], T) else it.after[n]


for m in ('step', 'time'):
    for lab, have, track in (('depth recorded before', ('depth',), ('depth',)), ('depth recorded from now on', (), ('depth',)),
                             ('two variables', ('depth', 'stage'), ('depth', 'stage'))):
        check.section('iterating, %s, %s' % (m, lab))(lambda s, m=m, have=have, track=track: iterated(s, m, have, track))
