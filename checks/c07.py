from checks.iterc import *
from checks.gen import apart_sections, generated, CASES

check = Check('C07', 'in the value graphs of seeding and of both iteration modes every history of a particle has the '
              'same length and every key the same number of particles')


def lockstep(s, name, h, n, keys, where=None):
    for k in keys:
        if k not in h:
            s.fail('%s: %s' % (name, k), 'the walk data has no %s' % k)
            continue
        s.eq('%s: particles of %s' % (name, k), tm.length(h[k]), n)
        if k != 'xinds':
            s.eq('%s: length of every %s' % (name, k), lens(h[k], n), lens(h['xinds'], n))


for nm, mode, far in MODES:
    for tr, have in ((('depth', 'roi_flag'), ('depth', 'roi_flag')), (('depth', 'stage'), ('depth',)), ((), ())):
        def sec(s, mode=mode, far=far, tr=tr, have=have):
            it = It(s, mode, tr, have, far=far)
            lockstep(s, 'after', it.after, NW, BASE + tr)
            lockstep(s, 'returned', it.out, NW, BASE + tr)
        check.section('%s tracking %s, %s' % (nm, ','.join(tr) or 'nothing', 'all there' if tr == have else 'one new'))(sec)

for cname, kw in CASES:
    def sec2(s, kw=kw):
        g = generated(s, **kw)
        lockstep(s, 'after', g.after, g.total, BASE + g.tracked)
        s.eq('number of particles known to the object', g.count, g.total)
    check.section('seeding, ' + cname)(sec2)


apart_sections(check)
