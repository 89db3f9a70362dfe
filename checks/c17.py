from checks.build import *
from fractions import Fraction

check = Check('C17', 'no field of a constructed object is undefined (except the stage of dry cells) and the speed is at '
              'least 1e-8, by sign analysis of its value graph')

for mname, model in MODELS.items():
    def sec(s, model=model):
        i, j = sym('i', 'nat'), sym('j', 'nat')
        asm = in_grid(i, j)
        for wname, water in WATER.items():
            for fname, flow in FLOWS.items():
                I, st, par, r = built(s, water + flow, model)
                lab = '%s, %s: ' % (wname, fname)
                if r.st is None:
                    s.fail(lab + 'accepted', 'construction never returns')
                    continue
                o = Obj(I, r)
                for n in ('depth', 'qx', 'qy', 'u', 'v', 'velocity', 'velocity_angle'):
                    s.eq(lab + n + ' is defined', tm.isnan(o.at(n, i, j)), FALSE, assume=asm)
                s.ge0(lab + 'speed is at least 1e-8', tm.sub(o.at('velocity', i, j), const(Fraction(1, 10 ** 8))), [asm])
                if 'depth' not in water:
                    s.ge0(lab + 'depth is not negative', o.at('depth', i, j), [asm])
                s.eq(lab + 'stage is defined in wet cells', tm.isnan(o.at('stage', i, j)), tm.or_(
                    tm.eq(o.at('depth', i, j), ZERO), tm.isnan(given_stage(I, st, par, water, i, j))), assume=asm)
    check.section(mname)(sec)


def given_stage(I, st, par, water, i, j):
    at = lambda n: elem(I, st, st.heap[par.oid].attrs[n][1], (i, j))
    return at('stage') if 'stage' in water else tm.add(at('topography'), at('depth'))
