from checks.iterc import *
from checks.gen import generated, CASES

check = Check('C12', 'in the value graphs of seeding and of both iteration modes each recorded variable is the grid value '
              'of the cell recorded with it, and entries without a recording stay empty')


def want(var, x, y):
    if var == 'roi_flag':
        return app('roi', ('enum', (0, 1)), x, y)
    return app(var, {'depth': ('nonneg',), 'stage': ('nanreal',)}.get(var, ('real',)), x, y)


def sampled(s, name, h, var, i, j, asm):
    x, y = tm.sel(tm.sel(h['xinds'], i), j), tm.sel(tm.sel(h['yinds'], i), j)
    s.eq('%s: recorded %s' % (name, var), tm.sel(tm.sel(h[var], i), j), want(var, x, y), assume=asm, samples=60)


ALL = ('depth', 'stage', 'qx', 'qy', 'u', 'v', 'roi_flag')
for nm, mode, far in MODES:
    for tr, have in ((('depth', 'roi_flag'), ('depth', 'roi_flag')), (('stage', 'roi_flag', 'u'), ('u',)),
                     (('qx', 'qy', 'v'), ()), (ALL, ())):
        def sec(s, mode=mode, far=far, tr=tr, have=have):
            it = It(s, mode, tr, have, far=far)
            i, j = sym('i', 'nat'), sym('j', 'nat')
            for var in tr:
                if var not in it.after:
                    s.fail('recorded ' + var, 'the walk data has no ' + var)
                    continue
                old = tm.length(tm.sel(it.before['xinds'], i))
                now = tm.length(tm.sel(it.after['xinds'], i))
                sampled(s, 'new entries', it.after, var, i, j,
                        tm.and_(tm.lt(i, NW), tm.le(old, j), tm.lt(j, now)))
                if var not in have:
                    s.eq('older entries of ' + var, tm.sel(tm.sel(it.after[var], i), j), NONE,
                         assume=tm.and_(tm.lt(i, NW), tm.lt(j, old)))
        check.section('%s, tracking %s' % (nm, '+'.join(tr)))(sec)

for cname, kw in CASES:
    if not kw.get('tracked'):
        continue

    def sec2(s, kw=kw):
        for tracked in (kw['tracked'], ('u', 'v', 'qx'), ('qy', 'roi_flag')):
            g = generated(s, **dict(kw, tracked=tracked))
            i, j = sym('i', 'nat'), sym('j', 'nat')
            for var in tracked:
                if var not in g.after:
                    s.fail('recorded ' + var, 'the walk data has no ' + var)
                    continue
                sampled(s, 'new particles', g.after, var, tm.add(g.offset, i), ZERO, tm.lt(i, g.n))
                if g.prev0 and var not in g.prev0:
                    s.eq('previous entries of ' + var, tm.sel(tm.sel(g.after[var], i), j), NONE,
                         assume=tm.and_(tm.lt(i, sym('np', 'nat')), tm.lt(j, tm.length(tm.sel(g.after['xinds'], i)))))
                if g.own0 and var not in g.own0:
                    o = tm.add(sym('np', 'nat'), i) if g.prev0 else i
                    s.eq('own entries of ' + var, tm.sel(tm.sel(g.after[var], o), j), NONE,
                         assume=tm.and_(tm.lt(i, sym('no', 'nat')), tm.lt(j, tm.length(tm.sel(g.after['xinds'], o)))))
    check.section('seeding, ' + cname)(sec2)


@check.section('available variables')
def avail(s):
    """the name of a variable selects the field of that name"""
    for extra in ((), ('roi_grid',)):
        I = s.interp([LW, PT])
        st = I.new_state()
        pv = strs(I, st, ALL[:6])
        r = construct(s, I, st, params_obj(I, st, tun=extra, extra={'particle_variables': (TRUE, pv)}))
        o = Obj(I, r)
        d = dict_terms(I, r.st, o.get('available_particle_vars'))
        i, j = sym('i', 'nat'), sym('j', 'nat')
        for var in ALL[:6]:
            if var not in d:
                s.fail('variable ' + var, var + ' cannot be recorded')
                continue
            s.eq('variable ' + var, tm.asel(d[var], (i, j)), o.at(var, i, j), assume=in_grid(i, j))
        names = list(BASE) + list(ALL[:6]) + (['roi_flag'] if extra else [])
        s.eq('recorded variables' + (' with a region' if extra else ''), o.term('tracked_variables'),
             tm.lit(*[const(x) for x in names]))
        s.eq("the caller's list of variables", I.reify(r.st, pv), I.reify(st, pv))
