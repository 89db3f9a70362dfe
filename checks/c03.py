from sa.check import Check
from sa.model import *

check = Check('C03', 'the chosen direction is the cumulative-weight pick; the steepest mode only keeps the maxima; '
              'no weight means staying; the routing weights are not modified by picking')
K9 = tuple(range(9))


def setup(s, **kw):
    I = s.interp(LW, specs=['walker'])
    st = I.new_state()
    w = grid(I, st, 'weight', ('nanpos',), shape=(H, W, const(9)))
    return I, st, particles(I, st, weight=w, **kw)


@check.section('pick')
def pick(s):
    I, st, p = setup(s)
    x, y = sym('x', 'nat'), sym('y', 'nat')
    ind = VTup((x, y))
    f = s.func(I, LW, 'get_weight')
    r = s.run(I, st, f, [p, ind])
    s.true('picks for every cell', r.guard(), assume=in_grid(x, y))
    s.eq('chosen direction', I.reify(r.st, r.val), s.spec(I, st, 'walker', 'pick_at', [p, ind]),
         assume=in_grid(x, y), samples=400)
    i, j, k = sym('i', 'nat'), sym('j', 'nat'), sym('k', 'enum', K9)
    z = lambda t: tm.ite(tm.isnan(t), ZERO, t)
    before = elem(I, st, st.heap[p.oid].attrs['weight'][1], (i, j, k))
    after = elem(I, r.st, r.st.heap[p.oid].attrs['weight'][1], (i, j, k))
    s.eq('weights after a pick', z(after), z(before), assume=tm.and_(in_grid(i, j), in_grid(x, y)))


@check.section('choice')
def choice(s):
    """the two pickers on a free weight vector"""
    I = s.interp(LW, specs=['walker'])
    st = I.new_state()
    for name, steep in (('random_pick', FALSE), ('steep_descent', TRUE)):
        a = arr_app(I, st, 'w', (const(9),), ('nanpos',))
        f = s.func(I, LW, name)
        r = s.run(I, st, f, [a])
        s.eq(name, I.reify(r.st, r.val), s.spec(I, st, 'walker', 'pick', [a, steep]), samples=400)
        k = sym('k', 'enum', K9)
        b = elem(I, st, a, (k,))
        c = elem(I, r.st, a, (k,))
        z = (lambda t: tm.ite(tm.isnan(t), ZERO, t))
        s.eq(name + ' keeps the weights', z(c), z(b))
