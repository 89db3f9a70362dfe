from checks.build import *

check = Check('C16', 'the value graph of every field of a constructed object equals the reference for its parameters')

for mname, model in MODELS.items():
    def sec(s, model=model):
        i, j = sym('i', 'nat'), sym('j', 'nat')
        asm = in_grid(i, j)
        for wname, water in WATER.items():
            for fname, flow in FLOWS.items():
                I, st, par, r = built(s, water + flow, model)
                lab = '%s, %s: ' % (wname, fname)
                s.true(lab + 'accepted', r.guard())
                if r.st is None:
                    continue
                o = Obj(I, r)
                d = s.spec(I, st, 'fields', 'depth_at', [par, const('given' if 'depth' in water else 'diff'), i, j])
                s.eq(lab + 'depth', o.at('depth', i, j), d, assume=asm)
                g = s.spec(I, st, 'fields', 'stage_at', [par, const('given' if 'stage' in water else 'sum'), d, i, j])
                s.eq(lab + 'stage', o.at('stage', i, j), g, assume=asm)
                f = s.spec(I, st, 'fields', 'flow_at', [par, d, const('qx' in flow), const(model == 'DeltaRCM'), i, j])
                for k, n in enumerate(('qx', 'qy', 'u', 'v', 'velocity', 'velocity_angle')):
                    s.eq(lab + n, o.at(n, i, j), tm.sel(f, const(k)), assume=asm)
    check.section(mname)(sec)

SMALLEST = tm.const(1e-8)


def again(s, model):
    """another object built from the same parameters has the same fields: construction does not spoil what it is given.
    Velocity components below the documented floor are left out: the constructor may raise the given ones to it"""
    i, j = sym('i', 'nat'), sym('j', 'nat')
    for wname, water in WATER.items():
        for fname, flow in FLOWS.items():
            I, st, par, r = built(s, water + flow, model)
            if r.st is None:
                s.undecided('%s, %s' % (wname, fname), 'no object')
                continue
            one = Obj(I, r)
            asm = [in_grid(i, j)]
            for n in ('u', 'v'):
                if n in flow:
                    a = app(n, ('nanreal',), i, j)
                    asm += [tm.not_(tm.isnan(a)), tm.not_(tm.lt(tm.maxmin('max', [a, tm.neg(a)]), SMALLEST))]
            r2 = construct(s, I, r.st, par)
            lab = '%s, %s: ' % (wname, fname)
            s.true(lab + 'accepted again', r2.guard())
            if r2.st is None:
                continue
            two = Obj(I, r2)
            for n in ('depth', 'stage', 'qx', 'qy', 'u', 'v', 'velocity', 'velocity_angle', 'cell_type'):
                s.eq(lab + n + ' of a second object', two.at(n, i, j), one.at(n, i, j), assume=tm.and_(*asm))


for mname, model in MODELS.items():
    if model is not None and model != 'missing':
        check.section('twice, ' + mname)(lambda s, model=model: again(s, model))
