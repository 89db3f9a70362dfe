from sa.check import Check
from sa.model import *

check = Check('C04', 'the value graph of the travel time of a move equals the documented formula')
K9 = tuple(range(9))


@check.section('travel time')
def tt(s):
    I = s.interp(LW, specs=['walker'])
    st = I.new_state()
    p = particles(I, st)
    k = sym('k', 'enum', K9)
    x, y, a, b = [sym(n, 'nat') for n in 'xyab']
    ind, new = VTup((x, y)), VTup((a, b))
    d = sym('dist', 'nonneg')
    f = s.func(I, LW, 'calc_travel_times')
    r = s.run(I, st, f, [p, k, ind, new, d])
    asm = tm.and_(in_grid(x, y), in_grid(a, b))
    s.true('returns for every move', r.guard(), assume=asm)
    s.eq('travel time of a move', I.reify(r.st, r.val), s.spec(I, st, 'walker', 'travel_time', [p, k, ind, new, d]),
         assume=asm, samples=80)


@check.section('clock')
def clock(s):
    """a step adds exactly the time of the move to the clock of the particle, whole-number start times included"""
    for kind, dom in (('real times', ('nonneg',)), ('whole start times', ('nat',))):
        I = s.interp(LW, specs=['walker'])
        st = I.new_state()
        p = particles(I, st, weight=edge_weight(I, st), cell_type=grid(I, st, 'cell_type', CTR, 'i'))
        n = sym('n', 'nat')
        cells = cells_of(I, st, n, True)
        times = list_of(I, st, seq_app('tt', n, dom))
        f = s.func(I, LW, 'particle_stepper')
        r = s.run(I, st, f, [p, cells, times, dictv(I, st, {})])
        out = I.reify(r.st, r.val)
        spec = s.spec(I, st, 'walker', 'steps', [p, cells, times])
        i = sym('i', 'nat')
        at = lambda t: tm.sel(tm.sel(t, ONE), i)
        s.eq('number of clocks, ' + kind, tm.length(tm.sel(out, ONE)), n)
        s.eq('clock of every particle, ' + kind, at(out), at(spec), assume=tm.lt(i, n), samples=80)
