from sa.check import Check
from sa.model import *

check = Check('C02', 'the value graph of the routing weight of every cell and direction equals the reference formula')


@check.section('weights')
def weights(s):
    I = s.interp(LW, specs=['walker'])
    st = I.new_state()
    p = particles(I, st)
    f = s.func(I, LW, 'make_weight')
    r = s.run(I, st, f, [p])
    s.true('returns for every input', r.guard())
    w = I.arr(r.st, r.st.heap[p.oid].attrs['weight'][1])
    i, j, k = sym('i', 'nat'), sym('j', 'nat'), sym('k', 'enum', tuple(range(9)))
    code = w.at((i, j, k))
    spec = s.spec(I, st, 'walker', 'weight_at', [p, i, j, k, H, W])
    z = lambda t: tm.ite(tm.isnan(t), ZERO, t)
    s.eq('weight of every direction of every cell', z(code), z(spec), assume=in_grid(i, j), samples=3000)
