import fractions
from sa.check import Check
from sa.model import *

check = Check('C01', 'the nine direction tables, the neighbour windows and the moves describe the same 3x3 neighbourhood')
K9 = tuple(range(9))


@check.section('tables')
def tables(s):
    I = s.interp([LW, PT])
    st = I.new_state()
    r = construct(s, I, st, params_obj(I, st))
    o = Obj(I, r)
    for k in K9:
        di, dj = k // 3 - 1, k % 3 - 1
        a, b = const(k // 3), const(k % 3)
        d = SQRT2 if di and dj else ONE
        s.eq('row step of direction %d' % k, o.at('jwalk', a, b), const(di))
        s.eq('column step of direction %d' % k, o.at('iwalk', a, b), const(dj))
        s.eq('distance of direction %d' % k, o.at('distances', a, b), d)
        s.eq('row component of direction %d' % k, o.at('jvec', a, b), tm.div(const(di), d))
        s.eq('column component of direction %d' % k, o.at('ivec', a, b), tm.div(const(dj), d))
        if k != 4:
            ang = o.at('angles', a, b)
            turns = {0: (3, 4), 1: (1, 2), 2: (1, 4), 3: (1, 1), 5: (0, 1), 6: (5, 4), 7: (3, 2), 8: (7, 4)}[k]
            q = angle_ratio(ang)
            if q is None:
                s.undecided('heading of direction %d' % k, 'not a multiple of pi: ' + tm.show(ang))
            else:
                s.need('heading of direction %d' % k, (q - fractions.Fraction(*turns)) % 2 == 0,
                       'heading %s*pi instead of %s/%s*pi' % (q, turns[0], turns[1]),
                       'angle of direction %d is %s*pi' % (k, q))


def angle_ratio(t):
    """q when t is q*pi"""
    if t is ZERO:
        return fractions.Fraction(0)
    q = tm.subst_term(t, {PI: ONE})
    if tm.is_const(q) and tm.mul(q, PI) is t:
        return fractions.Fraction(q.args[0])
    return None


PI = sym('pi', 'pos')


@check.section('windows')
def windows(s):
    I = s.interp(LW, specs=['walker'])
    st = I.new_state()
    i, j, k = sym('i', 'nat'), sym('j', 'nat'), sym('k', 'enum', K9)
    a = grid(I, st, 'raster')
    r = s.run(I, st, s.func(I, LW, 'big_sliding_window'), [a])
    s.eq('neighbour window', elem(I, r.st, r.val, (i, j, k)),
         s.spec(I, st, 'walker', 'window_at', [a, i, j, k, H, W]), assume=in_grid(i, j), samples=600)
    r = s.run(I, st, s.func(I, LW, 'tile_domain_array'), [a])
    s.eq('own value in every direction', elem(I, r.st, r.val, (i, j, k)), app('raster', ('real',), i, j),
         assume=in_grid(i, j))
    loc = grid(I, st, 'local', shape=(const(3), const(3)))
    r = s.run(I, st, s.func(I, LW, 'tile_local_array'), [loc, H, W])
    s.eq('direction table in every cell', elem(I, r.st, r.val, (i, j, k)),
         app('local', ('real',), tm.floordiv(k, const(3)), tm.mod(k, const(3))), assume=in_grid(i, j))
    c = grid(I, st, 'tiled', shape=(H, W, const(9)))
    r = s.run(I, st, s.func(I, LW, 'clear_borders'), [c])
    s.eq('border cells have no neighbourhood', elem(I, r.st, c, (i, j, k)),
         tm.ite(interior(i, j), app('tiled', ('real',), i, j, k), ZERO), assume=in_grid(i, j))


@check.section('moves')
def moves(s):
    I = s.interp(LW, specs=['walker'])
    st = I.new_state()
    k = sym('k', 'enum', K9)
    t3 = (const(3), const(3))
    iw, jw = grid(I, st, 'iwalk', ('enum', (-1, 0, 1)), 'i', t3), grid(I, st, 'jwalk', ('enum', (-1, 0, 1)), 'i', t3)
    ind = VTup((sym('x', 'nat'), sym('y', 'nat')))
    r = s.run(I, st, s.func(I, LW, 'calculate_new_ind'), [ind, k, iw, jw])
    s.eq('cell reached by a direction', I.reify(r.st, r.val), s.spec(I, st, 'walker', 'moved', [ind, k, iw, jw]))
    d = grid(I, st, 'distances', ('pos',), shape=t3)
    r = s.run(I, st, s.func(I, LW, 'step_update'), [k, d, sym('dx', 'pos')])
    s.eq('length of a move', I.reify(r.st, r.val),
         tm.mul(app('distances', ('pos',), tm.floordiv(k, const(3)), tm.mod(k, const(3))), sym('dx', 'pos')))
