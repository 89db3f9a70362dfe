from checks.gen import *
from sa import effects

check = Check('C22', 'the value graph of the exposure time of a particle equals the reference sum over its own history')
ROI = ('enum', (0, 1))


@check.section('exposure time')
def exposure(s):
    for lab, dt in (('whole-numbered region', 'i'), ('real-valued region', 'f')):
        I = s.interp([PT], specs=['measures'])
        st = I.new_state()
        w = walk(I, st, 'o', NO)
        roi = grid(I, st, 'roi', ROI, dt)
        f = s.func(I, PT, 'exposure_time')
        r = s.run(I, st, f, [w, roi])
        s.true(lab + ': returns', r.guard())
        t = I.reify(r.st, r.val)
        n = sym('n', 'nat')
        s.eq(lab + ': one time per particle', tm.length(t), NO)
        s.eq(lab + ': exposure time', tm.sel(t, n), s.spec(I, st, 'measures', 'exposure', [w, roi, n]),
             assume=tm.lt(n, NO), samples=150)
        # particles still inside are reported
        es = [e for e in effects.flat(r.st.log) if 'info' in e.name or 'warn' in e.name or 'print' in e.name]
        lists = [(e, l) for e in es for a in e.args if isinstance(a, T) for l in effects.shown_lists(a)]
        ref = s.spec(I, st, 'measures', 'inside_at_end', [w, roi])
        if lists:
            s.eq(lab + ': particles inside at the end are reported', lists[-1][1], ref, samples=100)
            s.eq(lab + ': report when there are any', lists[-1][0].when(), tm.lt(ZERO, tm.length(ref)), samples=100)
        else:
            s.undecided(lab + ': report of particles inside at the end', 'no list in any message')


@check.section('float cells')
def floats(s):
    """histories whose cells are stored as floats (as read from a file) are accepted"""
    I = s.interp([PT], specs=['measures'])
    st = I.new_state()
    ln = lambda i: tm.add(ONE, app('olen', ('nat',), i))
    mk = lambda n, top: list_of(I, st, seq2_app(n, NO, ln, ('intT', ZERO, top)))
    w = dictv(I, st, {'xinds': mk('ox', H), 'yinds': mk('oy', W), 'travel_times': list_of(I, st, seq2_app('ot', NO, ln))})
    roi = grid(I, st, 'roi', ROI, 'i')
    f = s.func(I, PT, 'exposure_time')
    r = s.run(I, st, f, [w, roi])
    t = I.reify(r.st, r.val)
    n = sym('n', 'nat')
    s.eq('exposure time anywhere in the grid', tm.sel(t, n), s.spec(I, st, 'measures', 'exposure', [w, roi, n]),
         assume=tm.lt(n, NO), samples=150)
