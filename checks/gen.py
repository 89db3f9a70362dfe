"""Shared: seeding particles on symbolic inputs."""
from sa.check import Check
from sa.model import *

N = sym('N', 'nat')
NS = tm.add(sym('ns', 'nat'), ONE)
NP, NO = sym('np', 'nat'), sym('no', 'nat')
CASES = []
for m in ('exact', 'random'):
    CASES.append((m + ', fresh', dict(method=m, tracked=('depth', 'roi_flag'))))
    CASES.append((m + ', after a walk', dict(method=m, tracked=('depth', 'roi_flag'), own=('depth',))))
    CASES.append((m + ', previous data', dict(method=m, tracked=('depth', 'roi_flag'), prev=('roi_flag',))))
    CASES.append((m + ', walk and previous data', dict(method=m, tracked=('stage', 'roi_flag'), own=('stage', 'roi_flag'),
                                                       prev=('stage', 'roi_flag'))))
    CASES.append((m + ', nothing tracked', dict(method=m, own=(), prev=())))


class Gen(object):
    pass


def small_walk(I, st, pre, n, opts=()):
    """a walk of two particles whose histories are lists of their own in the heap"""
    return dictv(I, st, {k: I.new_list(st, [I.new_list(st, [sym('%s%s%d%d' % (pre, k, i, j), 'nat') for j in range(i + 1)])
                                            for i in range(2)]) for k in BASE + tuple(opts)})


def apart(s, **kw):
    """which list objects the histories are: no two of them are the same object"""
    g = generated(s, seeds=2, count=const(3), made=True, **kw)
    I, st = g.I, g.r.st
    s.true('accepted', g.r.guard())
    if st is None:
        return
    d = st.heap[I.resolve(st, st.heap[g.p.oid].attrs['walk_data'][1]).oid]
    seen = {}
    for k, (c, v) in d.ent.items():
        v = I.resolve(st, v)
        o = st.heap.get(getattr(v, 'oid', None))
        items = getattr(o, 'items', None)
        if items is None:
            s.undecided('objects of ' + k, 'the histories are not an explicit list')
            continue
        for i, x in enumerate(items):
            x = I.resolve(st, x)
            if not hasattr(x, 'oid'):
                s.undecided('objects of ' + k, 'history %d is not a list object' % i)
                break
            if x.oid in seen:
                s.fail('objects of ' + k, 'the history of particle %d in %s is the same list object as that of particle %d in %s'
                       % ((i, k) + seen[x.oid]))
                break
            seen[x.oid] = (i, k)
        else:
            s.ok('objects of ' + k, 'points-to: %d histories, %d list objects' % (len(items), len(items)))


def generated(s, method='exact', tracked=(), own=None, prev=None, count=None, time=None, specs=(), seeds=None, made=False, arrays=False, **kw):
    g = Gen()
    g.I = I = s.interp([LW, PT], specs=specs)
    g.st = st = I.new_state()
    mk = small_walk if made else walk
    g.own = mk(I, st, 'o', NO, own) if own is not None else NONE
    g.prev = mk(I, st, 'p', NP, prev) if prev is not None else NONE
    g.p = tracker(I, st, tracked, g.own, NO if own is not None else sym('held', 'nat'))  # a cleared walk leaves the count
    dx, dy = ('intT', ZERO, H), ('intT', ZERO, W)
    g.sx = list_of(I, st, seq_app('sx', NS, dx) if seeds is None else tm.lit(*[sym('sx%d' % q, *dx) for q in range(seeds)]))
    g.sy = list_of(I, st, seq_app('sy', NS, dy) if seeds is None else tm.lit(*[sym('sy%d' % q, *dy) for q in range(seeds)]))
    if arrays:
        g.sx = I.new_arr(st, (NS,), lambda vs: app('sx', dx, vs[0]), 'i')
        g.sy = I.new_arr(st, (NS,), lambda vs: app('sy', dy, vs[0]), 'i')
    g.n = N if count is None else count
    g.time = sym('seed_time', 'real') if time is None else time
    f = s.func(I, PT, 'Particles.generate_particles')
    g.r = s.run(I, st, f, [g.p, g.n, g.sx, g.sy],
                dict({'seed_time': g.time, 'method': const(method), 'previous_walk_data': g.prev}, **kw))
    g.tracked = tuple(tracked)
    g.total = tm.add(tm.add(g.n, NO if own is not None else ZERO), NP if prev is not None else ZERO)
    g.offset = tm.sub(g.total, g.n)
    if g.r.st is not None:
        g.after = hist(I, g.r.st, g.p)
        g.count = I.reify(g.r.st, g.r.st.heap[g.p.oid].attrs['Np_tracer'][1])
    g.own0 = dict_terms(I, st, g.own) if own is not None else {}
    g.prev0 = dict_terms(I, st, g.prev) if prev is not None else {}
    return g


def apart_sections(check):
    for m in ('exact', 'random'):
        for nm, kw in (('fresh', {}), ('after a walk and with previous data', dict(own=('stage',), prev=('roi_flag',)))):
            check.section('separate histories, %s, %s' % (m, nm))(
                lambda s, m=m, kw=kw: apart(s, method=m, tracked=('depth', 'roi_flag'), **kw))
