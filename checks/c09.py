from checks.iterc import *

check = Check('C09', 'in the value graphs of both iteration modes an entry is appended exactly when the step of the '
              'particle changed its cell')


@check.section('one step')
def one(s):
    it = It(s, 'step', ('depth',), ('depth',))
    i = sym('i', 'nat')
    got = it.spec('once')
    m = tm.sel(tm.sel(got, i), const(3))
    asm = tm.lt(i, NW)
    for k in it.after:
        s.eq('entries added to ' + k, tm.sub(tm.length(tm.sel(it.after[k], i)), tm.length(tm.sel(it.before[k], i))),
             tm.ite(tm.truth(m), ONE, ZERO), assume=asm, samples=80)
    ref = it.reference()
    for q, k in enumerate(BASE):
        s.eq('history of ' + k, it.after[k], tm.sel(ref, const(q)), samples=60)


def no_repeat(s, it, how):
    i, j = sym('i', 'nat'), sym('j', 'nat')
    x, y = tm.sel(it.after['xinds'], i), tm.sel(it.after['yinds'], i)
    old = tm.length(tm.sel(it.before['xinds'], i))
    asm = tm.and_(tm.lt(i, NW), tm.le(old, j), tm.lt(j, tm.length(x)))
    s.true('no entry repeats the cell before it' + how,
           tm.not_(tm.and_(tm.eq(tm.sel(x, j), tm.sel(x, tm.sub(j, ONE))),
                           tm.eq(tm.sel(y, j), tm.sel(y, tm.sub(j, ONE))))), assume=asm, samples=60)


for nm, mode, far in MODES:
    @check.section('repeats, ' + nm)
    def rep(s, mode=mode, far=far):
        it = It(s, mode, (), (), far=far)
        no_repeat(s, it, '')


@check.section('until a time')
def until(s):
    it = It(s, 'time', ('depth',), ('depth',))
    ref = it.reference()
    i = sym('i', 'nat')
    for k in it.after:
        s.eq('entries of ' + k, tm.length(tm.sel(it.after[k], i)),
             tm.length(tm.sel(tm.sel(ref, ZERO), i)), assume=tm.lt(i, NW), samples=60)
