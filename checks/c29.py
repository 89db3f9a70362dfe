from checks.catalog import *

check = Check('C29', 'the value graph of every container handed to an analysis or plot function is the same after the call '
              'as before')


def same(g, r, assume):
    s = g.s
    s.true('returns', r.guard(), assume=assume)
    if r.st is None:
        return
    for n, v in g.held.items():
        s.eq('the %s is left alone' % n, g.I.reify(r.st, v), g.before[n], samples=60)


def G(*a, **k):
    return Given(*a, observe=same, **k)


for lab, opt in (('no optional variables', ()), ('optional variables', EVERY)):
    for what, f in OF_WALK.items():
        check.section('%s, %s' % (what, lab))(lambda s, f=f, opt=opt: f(s, G, opt))
for what, f in OTHER.items():
    check.section(what)(lambda s, f=f: f(s, G))


def iterating(s, mode):
    I = s.interp([LW, PT])
    st = I.new_state()
    p = tracker(I, st, ('depth',), walk(I, st, 'w', NO, ('depth',)), NO)
    at = st.heap[p.oid].attrs
    held = [n for n in sorted(at) if n not in ('walk_data',)]
    i, j = sym('i', 'nat'), sym('j', 'nat')
    f = s.func(I, PT, 'Particles.run_iteration')
    r = s.run(I, st, f, [p], {'target_time': sym('target', 'real')} if mode == 'time' else {})
    s.true('returns', r.guard())
    now = r.st.heap[p.oid].attrs
    for n in held:
        s.eq('%s of the object is left alone' % n, value(I, r.st, now[n][1]) if n in now else NONE, value(I, st, at[n][1]), samples=60)


def value(I, st, v):
    return I.reify(st, v)


for m in ('step', 'time'):
    check.section('iterating, ' + m)(lambda s, m=m: iterating(s, m))

