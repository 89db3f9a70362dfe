from checks.gen import *

check = Check('C13', 'the value graph of the walk data after seeding: previous walk, own walk, then the new particles in '
              'order, each with one entry at its seed cell and seed time')

for cname, kw in CASES:
    def sec(s, kw=kw):
        for count, cn in ((N, ''), (ZERO, ', no new particle')):
            g = generated(s, specs=['seeding'], count=count, **kw)
            s.true('accepted' + cn, g.r.guard())
            I = g.I
            cells = s.spec(I, g.st, 'seeding', 'exact' if kw['method'] == 'exact' else 'anywhere', [g.n, g.sx, g.sy])
            one = lambda e: tm.lit(e)
            v = bv()
            new = {'xinds': tm.mk('map', g.n, v, tm.lit(tm.sel(tm.sel(cells, ZERO), v))),
                   'yinds': tm.mk('map', g.n, v, tm.lit(tm.sel(tm.sel(cells, ONE), v))),
                   'travel_times': tm.mk('map', g.n, v, tm.lit(g.time))}
            for k in BASE:
                parts = [d[k] for d in (g.prev0, g.own0) if d] + [new[k]]
                s.eq('%s of all particles%s' % (k, cn), g.after[k], tm.concat(*parts), samples=60)
            s.eq('number of particles' + cn, g.count, g.total)
            # the caller's data
            if g.prev0:
                now = dict_terms(I, g.r.st, g.prev)
                for k in g.prev0:
                    s.eq("the caller's previous %s%s" % (k, cn), now[k], g.prev0[k])
            s.eq("the caller's seed rows" + cn, I.reify(g.r.st, g.sx), I.reify(g.st, g.sx))
            s.eq("the caller's seed columns" + cn, I.reify(g.r.st, g.sy), I.reify(g.st, g.sy))
    check.section(cname)(sec)


@check.section('one seed')
def one(s):
    I = s.interp(LW, specs=['seeding'])
    st = I.new_state()
    ch = list_of(I, st, seq_app('choice', NS, ('int', 0, None)))
    f = s.func(I, LW, 'random_pick_seed')
    r = s.run(I, st, f, [ch])
    s.eq('uniform seed', I.reify(r.st, r.val), s.spec(I, st, 'seeding', 'pick_any', [ch]), samples=80)
    pr = list_of(I, st, seq_app('prob', NS, ('pos',)))
    r = s.run(I, st, f, [ch, pr])
    s.eq('weighted seed', I.reify(r.st, r.val), s.spec(I, st, 'seeding', 'pick_seed', [ch, pr]), samples=80)


apart_sections(check)
