from checks.iterc import *

check = Check('C06', 'a particle whose cell is on the border of the grid or touches an edge cell keeps its cell and its '
              'time in the value graph of a step and of both iteration modes')


def near(x, y, dom=CT):
    c = [tm.eq(app('cell_type', dom, tm.add(x, const(a)), tm.add(y, const(b))), const(-1))
         for a in (-1, 0, 1) for b in (-1, 0, 1)]
    return tm.or_(*c)


@check.section('boundary')
def boundary(s):
    I = s.interp(LW)
    st = I.new_state()
    n = sym('n', 'nat')
    cells = cells_of(I, st, n)
    v = bv()
    new = list_of(I, st, tm.mk('map', n, v, tm.lit(app('nx', ('nat',), v), app('ny', ('nat',), v))))
    ct = grid(I, st, 'cell_type', CT, 'i')
    f = s.func(I, LW, 'check_for_boundary')
    r = s.run(I, st, f, [new, cells, ct])
    i = sym('i', 'nat')
    x, y = cell(i)
    out = tm.sel(I.reify(r.st, r.val), i)
    asm = tm.and_(tm.lt(i, n), interior(x, y))
    s.eq('cell after the boundary rule', tm.lit(tm.sel(out, ZERO), tm.sel(out, ONE)),
         tm.ite(near(x, y), tm.lit(x, y), tm.lit(app('nx', ('nat',), i), app('ny', ('nat',), i))), assume=asm)


@check.section('step')
def step(s):
    for inner, name in ((True, 'particle next to an edge cell'), (False, 'particle on the border of the grid')):
        I = s.interp(LW)
        st = I.new_state()
        p = particles(I, st, weight=edge_weight(I, st))
        n = sym('n', 'nat')
        cells = cells_of(I, st, n, inner)
        times = list_of(I, st, seq_app('tt', n))
        f = s.func(I, LW, 'particle_stepper')
        r = s.run(I, st, f, [p, cells, times, dictv(I, st, {})])
        i = sym('i', 'nat')
        x, y = cell(i, inner)
        out = I.reify(r.st, r.val)
        at = tm.sel(tm.sel(out, ZERO), i)
        got = tm.lit(tm.sel(at, ZERO), tm.sel(at, ONE), tm.sel(tm.sel(out, ONE), i))
        asm = near(x, y) if inner else tm.and_(in_grid(x, y), tm.not_(interior(x, y)))
        s.eq(name, got, tm.lit(x, y, app('tt', ('real',), i)), assume=tm.and_(tm.lt(i, n), asm), samples=60)


for nm, mode, far in MODES:
    @check.section('iteration, ' + nm)
    def it_(s, mode=mode, far=far):
        """no history entry of a particle that starts next to an edge cell, or on the border"""
        it = It(s, mode, ('depth',), ('depth',), far=far)
        i = sym('i', 'nat')
        last = lambda k: tm.sel(tm.sel(it.before[k], i), tm.sub(tm.length(tm.sel(it.before[k], i)), ONE))
        c = near(last('xinds'), last('yinds'), CTR)
        for k in it.after:
            s.eq('history of ' + k, tm.sel(it.after[k], i), tm.sel(it.before[k], i),
                 assume=tm.and_(tm.lt(i, NW), c), samples=40)
