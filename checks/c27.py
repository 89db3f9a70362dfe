from checks.gen import *

check = Check('C27', 'the value graph of the particle counts adds up to the request and follows the discharge, and the '
              'function raises exactly for too few steps or no discharge')
M = tm.add(sym('m', 'nat'), ONE)
TOT, STEPS = sym('total', 'nat'), sym('steps', 'nat')


def flux(s, dims, dom):
    I = s.interp([PT])
    st = I.new_state()
    shape = (M,) if dims == 1 else (M, ONE)
    Q = I.new_arr(st, shape, lambda vs: app('Q', dom, vs[0]), 'f')
    f = s.func(I, PT, 'flux_proportional_seeding')
    r = s.run(I, st, f, [Q, TOT, STEPS])
    q = lambda k: tm.fn1('abs', app('Q', dom, k))
    v = bv()
    total = tm.red('sum', M, v, q(v))
    bad = tm.or_(tm.lt(M, STEPS), tm.eq(total, ZERO))
    s.eq('rejected exactly for too few steps or no discharge', r.exc_cond('ValueError'), bad, samples=200)
    s.eq('no other failure', r.exc_cond(), bad, samples=400)
    ok = tm.not_(bad)
    at = lambda k: elem(I, r.st, r.val, (k,) if dims == 1 else (k, ZERO))
    a = I.arr(r.st, r.val)
    s.eq('shape of the counts', tm.lit(*a.shape), tm.lit(*shape), assume=ok)
    w = bv()
    s.eq('counts add up to the request', tm.red('sum', M, w, at(w)), TOT, assume=ok, samples=300)
    i, j = sym('i', 'nat'), sym('j', 'nat')
    inr = tm.and_(ok, tm.lt(i, M))
    share = lambda k: tm.div(tm.mul(q(k), TOT), total)
    s.true('a count is within one of the exact share', tm.lt(tm.fn1('abs', tm.sub(at(i), share(i))), ONE),
           assume=inr, samples=300)
    s.true('no count is negative', tm.le(ZERO, at(i)), assume=inr, samples=300)
    s.true('a step without discharge gets no particles', tm.or_(tm.not_(tm.eq(q(i), ZERO)), tm.eq(at(i), ZERO)),
           assume=inr, samples=300)
    s.true('more discharge never gets fewer particles', tm.or_(tm.le(q(i), q(j)), tm.le(at(j), at(i))),
           assume=tm.and_(inr, tm.lt(j, M)), samples=300)
    s.true('counts are whole numbers', tm.eq(at(i), tm.fn1('floor', at(i))), assume=inr, samples=200)
    s.eq('the discharge is left alone', elem(I, r.st, Q, (i,) if dims == 1 else (i, ZERO)), app('Q', dom, i), assume=inr)


for lab, dims in (('vector', 1), ('column', 2)):
    for dl, dom in (('signed', ('real',)), ('whole', ('enum', (-2, -1, 0, 1, 3))), ('steady', ('enum', (2,)))):
        check.section('%s discharge as a %s' % (dl, lab))(lambda s, dims=dims, dom=dom: flux(s, dims, dom))
