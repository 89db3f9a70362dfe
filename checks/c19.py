from checks.par import *
from sa import effects

check = Check('C19', 'the value graph of the combined result is the concatenation of the results of all processes; every '
              'process seeds once and steps the requested number of times')

for cores in (1, 2, 3, 5):
    def sec(s, cores=cores):
        P = Par(s, cores, BASE + ('depth',))
        s.true('returns', P.r.guard())
        if not P.jobs:
            s.undecided('work of the processes', 'no recognised use of a process pool')
            return
        I = P.I
        st, f, xs = P.jobs[0]
        s.need('the pool runs once', len(P.jobs) == 1, '%d uses of the pool' % len(P.jobs))
        s.eq('one job per process', tm.length(I.reify(st, xs)), const(cores))
        out = dict_terms(I, P.r.st, P.r.val)
        ref = results(I, P.r.st, const(cores), P.names)
        for n in P.names:
            s.eq('all %s are combined' % n, out.get(n, NONE), s.spec(I, P.r.st, 'parallel', 'combined', [ref, const(n)]))
        s.need('nothing else is combined', sorted(out) == sorted(P.names), 'histories %s' % sorted(out))
        for k in range(cores):
            j = P.job(const(k))
            lab = 'process %d ' % k
            s.true(lab + 'finishes', j.guard())
            if j.st is None:
                continue
            g = effects.named(j.st.log, 'walk.generate_particles')
            n = effects.named(j.st.log, 'walk.run_iteration')
            s.eq(lab + 'seeds once', total(g), ONE)
            s.eq(lab + 'takes the requested steps', total(n), ITERS)
            for e in g:
                a = dict(zip(('Np_tracer', 'seed_xloc', 'seed_yloc'), e.args))
                a.update(e.kw)
                s.eq(lab + 'particles', a.get('Np_tracer', NONE), COUNT)
                s.eq(lab + 'seed rows', a.get('seed_xloc', NONE), I.reify(P.st, P.sx))
                s.eq(lab + 'seed columns', a.get('seed_yloc', NONE), I.reify(P.st, P.sy))
            for e in n:
                a = dict(zip(('target_time', 'max_iter'), e.args))
                a.update(e.kw)
                s.eq(lab + 'single steps', a.get('target_time', NONE), NONE)
            ref = s.spec(I, P.st, 'parallel', 'worked', [P.p, ITERS, COUNT, P.sx, P.sy])
            s.eq(lab + 'returns its walk', I.reify(j.st, j.val), ref, samples=80)
    check.section('%d processes' % cores)(sec)


def total(es):
    """number of times the effects happen"""
    t = ZERO
    for e in es:
        c = tm.ite(e.guard, ONE, ZERO)
        for v, n in reversed(e.loops):
            c = tm.red('sum', n, v, c)
        t = tm.add(t, c)
    return t


@check.section('any number of results')
def anynumber(s):
    I = s.interp([PR], specs=['parallel'])
    st = I.new_state()
    n = tm.add(sym('n', 'nat'), ONE)
    for names in (BASE, BASE + ('depth', 'roi_flag')):
        rs = results(I, st, n, names)
        f = s.func(I, PR, 'combine_result')
        r = s.run(I, st, f, [rs])
        lab = '%d histories: ' % len(names)
        s.true(lab + 'returns', r.guard())
        out = dict_terms(I, r.st, r.val)
        for q in names:
            s.eq(lab + 'all %s are combined' % q, out.get(q, NONE), s.spec(I, st, 'parallel', 'combined', [rs, const(q)]))
        s.eq(lab + 'the results are left alone', I.reify(r.st, rs), I.reify(st, rs))
