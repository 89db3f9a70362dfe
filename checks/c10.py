from checks.iterc import *

check = Check('C10', 'the loop of the target-time mode: each particle takes at most the permitted number of steps, stops '
              'at the time closest to the target, and the ones that ran out are all reported')


for nm, mode, far in MODES[1:]:
    def sec(s, mode=mode, far=far):
        it = It(s, mode, ('depth',), ('depth',), far=far)
        ref = it.reference()
        i = sym('i', 'nat')
        asm = tm.lt(i, NW)
        for q, k in enumerate(BASE):
            s.eq('history of ' + k, tm.sel(it.after[k], i), tm.sel(tm.sel(ref, const(q)), i), assume=asm, samples=80)
        new = tm.sub(tm.length(tm.sel(it.after['xinds'], i)), tm.length(tm.sel(it.before['xinds'], i)))
        s.true('steps of a particle', tm.le(new, tm.maxmin('max', [ONE, it.limit])), assume=asm, samples=80)
        late = tm.sel(ref, const(3))
        v = bv()
        anyl = tm.red('any', NW, v, tm.eq(tm.sel(late, v), ONE))
        ws = named(it.r.st.log, 'warnings.warn')
        verbose = sym('verbose', 'bool')
        s.eq('warning about particles out of iterations', tm.truth(when(ws)), tm.and_(verbose, anyl), samples=80)
        i2 = bv()
        names = tm.mk('fmap', NW, i2, tm.eq(tm.sel(late, i2), ONE), i2)
        ls = [l for w in ws for a in w.args[:1] for l in shown_lists(a)]
        if len(ls) != 1:
            s.undecided('particles named in the warning', '%d lists in the warning text' % len(ls))
        else:
            s.eq('particles named in the warning', ls[0], names, assume=anyl, samples=80)
    check.section(nm)(sec)


@check.section('target close by')
def close_by(s):
    it = It(s, 'time', (), (), far='near')
    ref = it.reference()
    row = tm.sel(tm.sel(ref, ZERO), ZERO)
    moved = tm.lt(tm.add(tm.length(tm.sel(it.before['xinds'], ZERO)), ONE), tm.length(row))
    for q, k in enumerate(BASE[1:]):
        s.eq('history of ' + k, tm.sel(it.after[k], ZERO), tm.sel(tm.sel(ref, const(q + 1)), ZERO),
             assume=tm.and_(tm.lt(ZERO, NW), moved), samples=150,
             over=lambda v: {'H': 6 + v % 3, 'W': 7, 'limit': 6, 'nw': 1})


@check.section('default limit')
def default(s):
    """the limit is finite when the caller does not set one"""
    I = s.interp([LW, PT])
    f = s.func(I, PT, 'Particles.run_iteration')
    d = f.defaults.get('max_iter') if hasattr(f, 'defaults') else None
    t = I.reify(I.new_state(), d) if d is not None else None
    s.need('default iteration limit', t is not None and tm.is_num_const(t) and t.args[0] == 10000,
           'the default iteration limit is %s' % (t,), 'default of max_iter is 1e4')
