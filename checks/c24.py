from checks.gen import *

check = Check('C24', 'the value graph of every list returned equals the reference entry of that history, for every particle')
IT, TT = sym('iteration', 'int'), sym('target', 'real')
OPT = {'no optional variables': (), 'one': ('depth',), 'several': ('depth', 'stage', 'roi_flag')}


def states(s, fn, opt, arg, kw, ref, NO=NO):
    I = s.interp([RT], specs=['state'])
    st = I.new_state()
    w = walk(I, st, 'o', NO, opt)
    before = I.reify(st, w)
    f = s.func(I, RT, fn)
    r = s.run(I, st, f, [w] + arg, kw)
    s.true('returns', r.guard())
    v = I.resolve(r.st, r.val)
    items = [I.getitem(r.st, v, const(k)) for k in range(3)]
    names = list(BASE)
    t = I.reify(r.st, v)
    s.eq('number of values', tm.length(t), const(4 if opt else 3))
    if opt:
        d = I.getitem(r.st, v, const(3))
        for o in opt:
            items.append(I.getitem(r.st, d, const(o)))
            names.append(o)
        dd = I.reify(r.st, d)
        s.need('variables reported', dd.op == 'dict' and set(dd.args[0]) == set(opt), 'keys %s' % (dd.args[0],) if dd.op == 'dict' else 'no dictionary')
    n = sym('n', 'nat')
    W0 = I.resolve(st, w)
    for k, it in zip(names, items):
        h = I.getitem(st, w, const(k))
        rf = s.spec(I, st, 'state', ref, ref == 'at_time' and [h, I.getitem(st, w, const('travel_times')), TT] or [h, kw_it(arg, kw)])
        x = I.reify(r.st, it)
        s.eq('one %s per particle' % k, tm.length(x), NO)
        s.eq('%s of every particle' % k, tm.sel(x, n), tm.sel(rf, n), assume=tm.lt(n, NO), samples=150)
    s.eq('the walk is left alone', I.reify(r.st, w), before)


def kw_it(arg, kw):
    return arg[0] if arg else kw.get('iteration', const(-1))


for lab, opt in OPT.items():
    check.section('state at an iteration, ' + lab)(lambda s, opt=opt: states(s, 'get_state', opt, [IT], {}, 'at_iteration'))
    check.section('last state, ' + lab)(lambda s, opt=opt: states(s, 'get_state', opt, [], {}, 'at_iteration'))
    check.section('first state, ' + lab)(lambda s, opt=opt: states(s, 'get_state', opt, [ZERO], {}, 'at_iteration'))
    for m in (2, 3):
        check.section('state at an iteration, %s, %d particles' % (lab, m))(lambda s, opt=opt, m=m: states(s, 'get_state', opt, [IT], {}, 'at_iteration', const(m)))
        check.section('state at a time, %s, %d particles' % (lab, m))(lambda s, opt=opt, m=m: states(s, 'get_time_state', opt, [TT], {}, 'at_time', const(m)))
    check.section('state at a time, ' + lab)(lambda s, opt=opt: states(s, 'get_time_state', opt, [TT], {}, 'at_time'))
