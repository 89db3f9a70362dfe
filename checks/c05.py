from sa.check import Check
from sa.model import *
from sa.sign import ge0

check = Check('C05', 'sign analysis: the travel time of a move is non-negative for every diffusion coefficient up to 2')
K9 = tuple(range(9))


def extreme(n):
    """half of the valuations at the largest coefficient"""
    return {'diff_coeff': 2} if n % 2 else {}


@check.section('travel time')
def tt(s):
    I = s.interp(LW)
    st = I.new_state()
    dc = sym('diff_coeff', 'real')
    p = particles(I, st, diff_coeff=dc)
    k = sym('k', 'enum', K9)
    x, y, a, b = [sym(n, 'nat') for n in 'xyab']
    f = s.func(I, LW, 'calc_travel_times')
    r = s.run(I, st, f, [p, k, VTup((x, y)), VTup((a, b)), sym('dist', 'nonneg')])
    s.ge0('time of a move', I.reify(r.st, r.val), [tm.le(dc, const(2)), in_grid(x, y), in_grid(a, b)], over=extreme)


@check.section('histories')
def hist(s):
    """the new time of every particle is not before its old time"""
    I = s.interp(LW)
    st = I.new_state()
    dc = sym('diff_coeff', 'real')
    p = particles(I, st, diff_coeff=dc, cell_type=grid(I, st, 'cell_type', CTR, 'i'))
    n = sym('n', 'nat')
    cells = cells_of(I, st, n)
    times = list_of(I, st, seq_app('tt', n))
    f = s.func(I, LW, 'particle_stepper')
    r = s.run(I, st, f, [p, cells, times, dictv(I, st, {})])
    i = sym('i', 'int', 0, None)
    new = tm.sel(I.reify(r.st, r.val.items[1] if isinstance(r.val, VTup) else r.val), i)
    s.ge0('time after a step', tm.sub(new, app('tt', ('real',), i)),
          [tm.le(dc, const(2)), tm.lt(i, n), in_grid(*cell(i))], over=extreme)
