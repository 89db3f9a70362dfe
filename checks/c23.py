from checks.gen import *

check = Check('C23', 'the value graphs of the nourishment maps equal the reference map of visits and of mean times')
SIG, CLIP = sym('sigma', 'nonneg'), sym('clip', 'pos')


def maps(s, fn, ref, sig):
    I = s.interp([PT], specs=['measures'])
    st = I.new_state()
    w = walk(I, st, 'o', NO)
    i, j = sym('i', 'nat'), sym('j', 'nat')
    f = s.func(I, PT, fn)
    from sa.heap import VTup
    sh = VTup([H, W])
    r = s.run(I, st, f, [w, sh], {'sigma': sig, 'clip': CLIP})
    s.true('returns', r.guard())
    sp = s.run(I, st, I.func('measures', ref), [w, sh, sig, CLIP])
    s.eq('value of every cell', elem(I, r.st, r.val, (i, j)), elem(I, sp.st, sp.val, (i, j)), assume=in_grid(i, j),
         samples=120)
    s.eq('the walk is left alone', I.reify(r.st, w), I.reify(st, w))
    a = I.arr(r.st, r.val)
    s.eq('shape of the map', tm.lit(*a.shape), tm.lit(H, W))


for fn, ref in (('nourishment_area', 'area'), ('nourishment_time', 'stay')):
    for lab, sig in (('smoothed', sym('sigma', 'pos')), ('not smoothed', ZERO), ('any smoothing', SIG)):
        check.section('%s, %s' % (fn, lab))(lambda s, fn=fn, ref=ref, sig=sig: maps(s, fn, ref, sig))
