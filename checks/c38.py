from checks.drawn import *

check = Check('C38', 'the value graphs of the tails drawn at every step equal the reference pieces of each particle\'s own '
              'history, and a figure is saved exactly for the steps some particle has reached')
START, END = [const(x) for x in (1, '2/5', '1/5', 1)], None


def tails(s, n, interval, tail, colours):
    rgba = [[sym('%s%d' % (w, c), 'real') for c in range(4)] for w in ('start', 'end')]

    def args(sh):
        a, k = snake(n, const('out'), interval, tail)(sh)
        if colours:
            k.update(rgba_start=sh.I.new_list(sh.st, items=rgba[0]), rgba_end=sh.I.new_list(sh.st, items=rgba[1]))
        return a, k
    sh = Shown(s, 'snake_plots', args, specs=['snake'])
    I = sh.I
    s.true('returns', sh.r.guard())
    before = I.reify(sh.st, sh.walk)
    X, Y = [I.reify(sh.st, I.getitem(sh.st, sh.walk, const(k))) for k in ('xinds', 'yinds')]
    steps = list(range(interval, n * interval, interval))
    ls = [(e, data_args(sh, e, ('segments',))[0]) for e in sh.log if e.name.split('.')[-1] == 'LineCollection']
    sv = sh.named('savefig')
    p = bv()
    ln = tm.add(ONE, app('olen', ('nat',), p))
    goes = lambda k: tm.red('any', NO, p, tm.le(const(k), ln))
    if len(sv) < len(steps):
        s.fail('a figure for every step', '%d figures for steps %s' % (len(sv), steps))
    for e, a in sv:
        path = a[0] if a else e.kw.get('fname', NONE)
        m = [k for k in steps if path is const('out/figs/snakefig%d.png' % k)]
        if path.op != 'const':
            s.undecided('figures are named by their step', tm.show(path, 4))
            continue
        s.need('figures are named by their step', len(m) == 1, 'saved to %s' % tm.show(path, 4), where=e.where())
        for k in m:
            s.eq('figure %d is saved while particles have come that far' % k, e.when(), goes(k), samples=150, where=e.where())
    if len(ls) != len(steps):
        return s.undecided('tails', '%d line collections for %d steps' % (len(ls), len(steps)))
    for k, (e, t) in zip(steps, ls):
        ref = s.spec(I, sh.st, 'snake', 'tails', [X, Y, const(k), const(interval), const(tail)])
        s.eq('step %d: number of pieces' % k, tm.length(t), tm.length(ref), samples=100, where=e.where())
        s.eq('step %d: pieces' % k, t, ref, samples=100, where=e.where())
        cs = e.kw.get('colors')
        if cs is None or cs.op != 'arr':
            s.undecided('step %d: colours' % k, 'not an array')
            continue
        s.eq('step %d: a colour for every piece of a particle' % k, cs.args[0][0], const(tail), where=e.where())
        if colours:
            for c in range(4):
                for q in range(tail):
                    ref = s.spec(I, sh.st, 'snake', 'fade', [VTup(rgba[0]), VTup(rgba[1]), const(tail), const(q), const(c)])
                    s.eq('colour %d of piece %d' % (c, q), tm.asel(cs, (const(q), const(c))), ref, where=e.where())
    s.eq('the walk is left alone', I.reify(sh.r.st, sh.walk), before)


for n, interval, tail, colours in ((2, 4, 3, False), (3, 4, 3, True), (4, 1, 2, False), (4, 2, 4, False), (5, 3, 2, False),
                                   (1, 4, 3, False), (3, 2, 1, True)):
    check.section('%d states, interval %d, tail %d' % (n, interval, tail))(
        lambda s, n=n, i=interval, t=tail, c=colours: tails(s, n, i, t, c))
