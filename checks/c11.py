from checks.gen import apart_sections
from checks.iterc import *

check = Check('C11', 'in the value graph of a step, the outcome of every particle is the single-particle step of its own '
              'cell, time and random draws')


def run(s, inner):
    I = s.interp(LW, specs=['walker'])
    st = I.new_state()
    p = particles(I, st, weight=edge_weight(I, st), cell_type=grid(I, st, 'cell_type', CTR, 'i'))
    n = sym('n', 'nat')
    cells = cells_of(I, st, n, inner)
    times = list_of(I, st, seq_app('tt', n))
    f = s.func(I, LW, 'particle_stepper')
    r = s.run(I, st, f, [p, cells, times, dictv(I, st, {})])
    out = I.reify(r.st, r.val)
    spec = s.spec(I, st, 'walker', 'steps', [p, cells, times])
    i = sym('i', 'nat')
    x, y = cell(i, inner)
    asm = tm.lt(i, n)
    if not inner:
        asm = tm.and_(asm, tm.eq(x, ZERO), tm.eq(y, ZERO))
    s.eq('number of particles', tm.lit(tm.length(tm.sel(out, ZERO)), tm.length(tm.sel(out, ONE))), tm.lit(n, n))
    at = lambda t, k: tm.sel(tm.sel(t, const(k)), i)
    s.eq('cell of every particle', tm.lit(*[tm.sel(at(out, 0), const(c)) for c in (0, 1)]),
         tm.lit(*[tm.sel(at(spec, 0), const(c)) for c in (0, 1)]), assume=asm, samples=80)
    s.eq('time of every particle', at(out, 1), at(spec, 1), assume=asm, samples=80)
    # the inputs are the caller's data
    s.eq('current cells are left alone', I.reify(r.st, cells), I.reify(st, cells))
    s.eq('current times are left alone', I.reify(r.st, times), I.reify(st, times))


@check.section('step')
def step(s):
    run(s, True)


@check.section('parked particles')
def parked(s):
    run(s, False)


@check.section('two particles, possibly in one cell')
def pair(s):
    I = s.interp(LW, specs=['walker'])
    st = I.new_state()
    p = particles(I, st, weight=edge_weight(I, st), cell_type=grid(I, st, 'cell_type', CTR, 'i'))
    xs, ys, ts = ([sym('%s%d' % (n, q), *dom) for q in range(2)] for n, dom in (
        ('x', ('intT', ONE, tm.add(H, ONE))), ('y', ('intT', ONE, tm.add(W, ONE))), ('t', ('nonneg',))))
    cells = I.new_list(st, [I.new_list(st, [x, y]) for x, y in zip(xs, ys)])
    times = I.new_list(st, list(ts))
    r = s.run(I, st, s.func(I, LW, 'particle_stepper'), [p, cells, times, dictv(I, st, {})])
    out = I.reify(r.st, r.val)
    mine = [tm.lit(*[tm.sel(tm.sel(tm.sel(out, ZERO), const(q)), const(c)) for c in (0, 1)] + [tm.sel(tm.sel(out, ONE), const(q))])
            for q in range(2)]
    draws = [{x for x in tm.subterms(t) if x.op == 'rand'} for t in mine]
    for q in range(2):
        o = 1 - q
        fresh = {v: sym(v.args[0] + '*', *v.args[1]) for v in (xs[o], ys[o], ts[o])}
        for d in draws[o]:
            fresh[d] = tm.mk('rand', d.args[0], d.args[1], d.args[2] + (const('other'),))
        s.eq('particle %d does not depend on the cell, time and draws of the other' % q, tm.subst_term(mine[q], fresh), mine[q],
             assume=tm.and_(*[tm.not_(tm.eq(c[0], ZERO)) for c in (xs, ys)]), samples=150)


for nm, mode, far in MODES:
    @check.section('iteration, ' + nm)
    def hist_(s, mode=mode, far=far):
        """the history of every particle after an iteration is a function of its own history and draws"""
        it = It(s, mode, (), (), far=far)
        ref = it.reference()
        i = sym('i', 'nat')
        for q, k in enumerate(BASE):
            s.eq('number of histories of ' + k, tm.length(it.after[k]), NW)
            s.eq('history of ' + k, tm.sel(it.after[k], i), tm.sel(tm.sel(ref, const(q)), i), assume=tm.lt(i, NW),
                 samples=60)


apart_sections(check)
