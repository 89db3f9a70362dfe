from checks.iterc import *
from checks.gen import generated, CASES

check = Check('C08', 'in the value graphs of seeding and of both iteration modes every entry recorded before is still '
              'there, at the same place, with the same value')


def prefix(s, name, new, old, n, off=ZERO):
    i, j = sym('i', 'nat'), sym('j', 'nat')
    at = tm.add(off, i)
    orow = tm.sel(old, i)
    nrow = tm.sel(new, at)
    asm = tm.and_(tm.lt(i, n), tm.lt(j, tm.length(orow)))
    s.true(name + ': nothing removed', tm.le(tm.length(orow), tm.length(nrow)), assume=tm.lt(i, n))
    s.eq(name + ': recorded entries', tm.ite(tm.lt(j, tm.length(nrow)), tm.sel(nrow, j), tm.sym('missing entry', 'any')),
         tm.sel(orow, j), assume=asm)


for nm, mode, far in MODES:
    for tr, have in ((('depth', 'roi_flag'), ('depth', 'roi_flag')), (('depth',), ())):
        def sec(s, mode=mode, far=far, tr=tr, have=have):
            it = It(s, mode, tr, have, far=far)
            for k in it.before:
                prefix(s, 'after ' + k, it.after[k], it.before[k], NW)
                prefix(s, 'returned ' + k, it.out[k], it.before[k], NW)
        check.section('%s, tracking %s' % (nm, '+'.join(tr)))(sec)

for cname, kw in CASES:
    if kw.get('own') is None and kw.get('prev') is None:
        continue

    def sec2(s, kw=kw):
        g = generated(s, **kw)
        np_ = sym('np', 'nat') if g.prev0 else ZERO
        for k in g.prev0:
            prefix(s, 'previous ' + k, g.after[k], g.prev0[k], sym('np', 'nat'))
        for k in g.own0:
            prefix(s, 'own ' + k, g.after[k], g.own0[k], sym('no', 'nat'), np_)
    check.section('seeding, ' + cname)(sec2)
