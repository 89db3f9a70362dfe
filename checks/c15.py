from itertools import combinations

from checks.build import *

check = Check('C15', 'the condition of the value graph under which construction raises is exactly "something required is '
              'missing", and the exception is a ValueError')
WAT = ('depth', 'stage', 'topography')
FLO = ('qx', 'qy', 'u', 'v')


def subsets(x):
    return [c for n in range(len(x) + 1) for c in combinations(x, n)]


def accepted(g):
    h = lambda *n: all(q in g for q in n)
    return (h('depth') or h('stage', 'topography')) and (h('stage') or h('topography', 'depth')) and \
        (h('qx', 'qy') or h('u', 'v'))


def decide(s, lab, ok, r):
    if ok:
        s.eq(lab + ' is accepted', r.guard() if r.st is not None else FALSE, TRUE)
    else:
        s.eq(lab + ' is rejected with a ValueError', r.exc_cond('ValueError'), TRUE)


for mname, model in (('DeltaRCM', 'DeltaRCM'), ('other model', 'Anuga')):
    def sec(s, model=model):
        for w in subsets(WAT):
            for f in subsets(FLO):
                I, st, par, r = built(s, w + f, model)
                decide(s, 'given ' + (', '.join(w + f) or 'nothing'), accepted(w + f), r)
    check.section(mname)(sec)


@check.section('cell size')
def cellsize(s):
    for missing in (True, False):
        for dx in (True, False):
            I = s.interp([LW, PT], specs=['fields'])
            st = I.new_state()
            par = params_obj(I, st, given=('depth', 'stage', 'qx', 'qy'), dx=dx)
            if not dx and missing:
                del st.heap[par.oid].attrs['dx']
            r = construct(s, I, st, par)
            decide(s, 'cell size %s' % ('given' if dx else 'missing' if missing else 'None'), dx, r)


@check.section('region of interest')
def region(s):
    for lab, shape, ok in (('of the shape of the grid', (H, W), True), ('with another number of rows', (tm.add(H, ONE), W), False),
                           ('with another number of columns', (H, tm.sub(W, ONE)), False),
                           ('of transposed shape', (W, H), None)):
        I = s.interp([LW, PT], specs=['fields'])
        st = I.new_state()
        par = params_obj(I, st, extra={'roi_grid': grid(I, st, 'roi', ('enum', (0, 1)), 'i', shape)})
        r = construct(s, I, st, par)
        if ok is None:
            s.eq('region %s is rejected unless square' % lab, r.exc_cond('ValueError'), tm.not_(tm.eq(H, W)))
        else:
            decide(s, 'region ' + lab, ok, r)
