from checks.par import *
from sa import effects
from checks.gen import CASES, generated
from checks.iterc import It, MODES
from checks.build import built, WATER

check = Check('C20', 'the effect log of every process reseeds the random stream before the walk, with seeds that differ '
              'between the processes and derive from the stream of the caller')
SEEDING = ('seed', 'default_rng', 'RandomState', 'SeedSequence', 'Generator', 'spawn')

for cores in (2, 3, 5, 8):
    def sec(s, cores=cores):
        P = Par(s, cores)
        if not P.jobs:
            s.undecided('work of the processes', 'no recognised use of a process pool')
            return
        seeds = []
        for k in range(cores):
            j = P.job(const(k))
            es = list(effects.flat(j.st.log))
            names = [e.name for e in es]
            if 'numpy.random.seed' not in names:
                hints = [n for n in names + sorted(s_heads(P, j)) if any(x in n for x in SEEDING)]
                if hints:
                    s.undecided('process %d' % k, 'another way of seeding: %s' % hints)
                else:
                    s.fail('process %d' % k, 'the process walks with the random stream inherited from the parent')
                continue
            first = names.index('numpy.random.seed')
            walk_ = [i for i, n in enumerate(names) if n.startswith('walk.') or n == 'rand']
            s.need('process %d reseeds before it walks' % k, not walk_ or first < min(walk_), 'order %s' % names)
            s.true('process %d always reseeds' % k, es[first].when())
            t = es[first].args[0] if es[first].args else NONE
            seeds.append((k, t))
            s.need('process %d: one stream per process' % k, names.count('numpy.random.seed') == 1 and not es[first].loops,
                   'reseeded more than once')
            origin(s, k, t)
            accepted(s, k, t)
        for a in range(len(seeds)):
            for b in range(a):
                s.true('processes %d and %d differ' % (seeds[b][0], seeds[a][0]), tm.not_(tm.eq(seeds[a][1], seeds[b][1])))
    check.section('%d processes' % cores)(sec)


def extremes(t):
    """the least and greatest value of a whole-number term, both attained, or None"""
    if tm.is_num_const(t):
        return t.args[0], t.args[0]
    if t.op == 'rand' and t.args[0] == 'randint' and all(tm.is_num_const(x) for x in t.args[1]):
        return t.args[1][0].args[0], t.args[1][1].args[0] - 1
    draws = {x for x in tm.subterms(t) if x.op == 'rand'}
    if t.op == 'poly' and len(draws) == 1:
        r = draws.pop()
        e = extremes(r)
        if e is not None:
            ends = [tm.subst_term(t, {r: const(x)}) for x in e]
            mid = tm.sub(tm.subst_term(t, {r: const(1)}), tm.subst_term(t, {r: ZERO}))
            # one draw, and linear in it
            if all(tm.is_num_const(x) for x in ends) and tm.is_num_const(mid) and tm.mul(
                    mid, const(e[1] - e[0])) is tm.sub(ends[1], ends[0]):
                return min(x.args[0] for x in ends), max(x.args[0] for x in ends)
    if t.op == 'mod' and tm.is_num_const(t.args[1]) and t.args[1].args[0] > 0:
        e = extremes(t.args[0])
        if e is not None and e[1] - e[0] >= t.args[1].args[0] - 1:
            return 0, t.args[1].args[0] - 1
        return None
    return None


def accepted(s, k, t):
    """numpy.random.seed takes the whole numbers from 0 to 2**32 - 1"""
    lab = 'process %d: a seed the generator accepts' % k
    e = extremes(t)
    if e is None:
        s.undecided(lab, 'not a bounded expression of one draw')
        return
    s.need(lab, 0 <= e[0] and e[1] < 2 ** 32, 'the seed lies anywhere from %d to %d' % e)


# what sets the state of the stream that the process was given, or draws from another one
RESETS = ('numpy.random.seed', 'numpy.random.set_state', 'random.seed')
PRIVATE = ('numpy.random.default_rng', 'numpy.random.RandomState', 'numpy.random.Generator', 'numpy.random.SeedSequence',
           'random.Random', 'random.SystemRandom', 'os.urandom', 'secrets.')
STDLIB = ('random.random', 'random.uniform', 'random.choice', 'random.choices', 'random.randint', 'random.randrange',
          'random.sample', 'random.shuffle', 'random.gauss')


def keeps_stream(s, st, what):
    """nothing on any path of the walk touches the state of the stream"""
    es = list(effects.flat(st.log))
    for e in es:
        if e.guard is tm.FALSE:
            continue
        if e.name in RESETS:
            s.fail(what, 'the stream of the process is set anew by %s at %s' % (e.name, e.where()))
            return
        if e.name.startswith(PRIVATE) or e.name in STDLIB:
            s.fail(what, 'the walk draws from another stream than the one the process seeded: %s at %s' % (e.name, e.where()))
            return
    s.ok(what, 'effect log: %d effects, %d draws, none sets the stream' % (len(es), sum(1 for e in es if e.name == 'rand')))


for nm, kw in CASES:
    @check.section('seeding keeps the stream, ' + nm)
    def seeding(s, kw=kw):
        g = generated(s, **kw)
        if g.r.st is not None:
            keeps_stream(s, g.r.st, 'seeding')

for nm, mode, far in MODES:
    @check.section('iteration keeps the stream, ' + nm)
    def iterating(s, mode=mode, far=far):
        it = It(s, mode, ('depth', 'roi_flag'), ('depth',), far=far)
        if it.r.st is not None:
            keeps_stream(s, it.r.st, 'iterating')

for nm in WATER:
    @check.section('construction keeps the stream, ' + nm)
    def constructing(s, nm=nm):
        I, st, par, r = built(s, WATER[nm] + ('qx', 'qy'), 'Anuga')
        if r.st is not None:
            keeps_stream(s, r.st, 'constructing')


# what differs from run to run however the caller seeded the stream
AMBIENT = ('time.', 'datetime', 'os.getpid', 'os.getppid', 'os.urandom', 'uuid', 'secrets', 'current_process', 'get_ident',
           'getnode', 'random.SystemRandom', 'builtins.id', 'threading')


def origin(s, k, t):
    """the seed is a function of the caller's stream and of what the caller handed over"""
    subs = list(tm.subterms(t))
    lab = 'process %d: the stream derives from the stream of the caller' % k
    strange = sorted({str(x.args[0]) for x in subs if x.op in ('opaque', 'unknown')})
    bad = [n for n in strange if any(a in n for a in AMBIENT) or n.startswith('random.')]
    bad += [str(x.args[0]) for x in subs if x.op == 'opaque' and str(x.args[0]).startswith('numpy.random.')
            and len(x.args) == 1]
    if bad:
        s.fail(lab, 'the seed depends on %s' % ', '.join(bad)[:200])
    elif any(x.op == 'rand' for x in subs):
        s.need(lab, True, '')
    elif strange:
        s.undecided(lab, 'unknown parts in the seed: %s' % ', '.join(strange)[:200])
    else:
        s.need(lab, False, 'seed ' + tm.show(t)[:200])


def s_heads(P, j):
    out = set()
    for x in tm.subterms(P.I.reify(j.st, j.val)):
        if x.op == 'opaque':
            out.add(str(x.args[0]))
    return out
