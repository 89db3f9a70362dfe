"""Shared: the parallel driver with a symbolic number of processes."""
from sa.check import Check
from sa.model import *

ITERS = sym('iters', 'nat')
COUNT = sym('per_core', 'nat')


def results(I, st, n, names):
    """one walk-data dictionary per process"""
    k = bv()
    vals = []
    for q in names:
        i, j = bv(), bv()
        vals.append(tm.mk('map', app('cnt', ('nat',), k), i, tm.mk('map', app('len', ('nat',), k, i), j,
                                                                   app('v' + q, ('real',), k, i, j))))
    return list_of(I, st, tm.mk('map', n, k, tm.mk('dict', tuple(names), (TRUE,) * len(names), tuple(vals))))


class Par(object):
    def __init__(self, s, cores, names=BASE, specs=()):
        self.s, self.names = s, names
        self.jobs = []
        self.I = I = s.interp([PR, PT, LW], specs=tuple(specs) + ('pool', 'parallel'))
        self.st = st = I.new_state()
        pool = I.func('pool', 'Pool')
        for n in ('multiprocessing.Pool', 'multiprocessing.pool.Pool'):
            I.stubs['ext:' + n] = lambda I, st, a, k: I.call(st, pool, a, k)
        I.stubs['pool.run_all'] = self.hook
        I.recorders.append(self.jobs)
        self.p = particles(I, st)
        self.sx, self.sy = list_of(I, st, seq_app('sx', sym('ns', 'nat'))), list_of(I, st, seq_app('sy', sym('ns', 'nat')))
        f = s.func(I, PR, 'parallel_routing')
        self.r = s.run(I, st, f, [self.p, ITERS, COUNT, self.sx, self.sy, const(cores)])

    def hook(self, I, st, args, kw):
        f, xs = args
        self.jobs.append((st.fork(), f, xs))
        n = tm.length(I.reify(st, xs))
        return results(I, st, n, self.names)

    def job(self, k):
        """the work of process k: (log, result, calls of the walk)"""
        st, f, xs = self.jobs[0]
        I = self.I
        calls = []

        def note(name):
            def stub(I, st, a, kw):
                I.log(st, 'walk.' + name, a[1:], kw)
                me = I.resolve(st, a[0])
                if name == 'generate_particles':
                    at = dict(st.heap[me.oid].attrs)
                    at['walk_data'] = (TRUE, sym('seeded', 'any'))
                    st.heap[me.oid] = type(st.heap[me.oid])(st.heap[me.oid].cls, at, None)
                    return NONE
                n = I.reify(st, st.heap[me.oid].attrs['walk_data'][1])
                new = tm.mk('opaque', 'stepped', n)
                at = dict(st.heap[me.oid].attrs)
                at['walk_data'] = (TRUE, new)
                st.heap[me.oid] = type(st.heap[me.oid])(st.heap[me.oid].cls, at, None)
                return new
            return stub
        I.stubs[PT + '.Particles.generate_particles'] = note('generate_particles')
        I.stubs[PT + '.Particles.run_iteration'] = note('run_iteration')
        x = I.getitem(st.fork(), xs, k)
        return self.s.run(I, st, f, [x])
