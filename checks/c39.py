from checks.drawn import *
from sa.heap import SliceV

check = Check('C39', 'the frames handed to the animation are the numbers asked for, the drawing function reads the figure of its '
              'own number, and the movie is the only file written')
A, B, K, N_ = sym('start', 'int'), sym('end', 'int'), sym('k', 'nat'), sym('number', 'nat')
FUNC = ('matplotlib.animation.FuncAnimation',)


def movie(s, folder, base):
    made = []

    def setup(sh):
        sh.I.recorders.append(made)

        def stub(I, st, a, k):
            g = dict(zip(('fig', 'func', 'frames', 'init_func', 'fargs'), a))
            g.update(k)
            made.append((st.fork(), g))
            return I.opaque_call(st, FUNC[0], a[:1], {}, pure=True)
        for n in FUNC:
            sh.I.stubs['ext:' + n] = stub
    sh = Shown(s, 'animate_plots', lambda sh: ([A, B, folder], {}), setup=setup)
    I = sh.I
    s.true('returns', sh.r.guard())
    if len(made) != 1:
        return s.undecided('one animation', '%d animations recognised' % len(made))
    st, g = made[0]
    fr = I.resolve(st, g.get('frames', NONE))
    fr = I.reify(st, I.b_list(st, [fr], {})) if not isinstance(fr, T) or tm.isseqkind(tm.kindof(fr)) else fr
    if tm.kindof(fr) in ('int', 'nat') or fr.op == 'poly':
        v = bv()
        fr = tm.mapseq(tm.maxmin('max', [ZERO, fr]), v, v)
    if tm.isseqkind(tm.kindof(fr)):
        s.eq('number of frames', tm.length(fr), tm.maxmin('max', [ZERO, tm.sub(B, A)]))
        s.eq('frame k shows figure start + k', tm.sel(fr, K), tm.add(A, K), assume=tm.lt(K, tm.sub(B, A)))
    else:
        s.undecided('frames', 'frames are %s' % tm.show(fr, 4))
    r = s.run(I, st, g['func'], [N_])
    if r.st is None:
        return s.fail('a frame is drawn', 'drawing a frame raises')
    log = list(effects.flat(r.st.log))
    shown = Seen(log)
    reads = [(e, a) for e, a in shown if e.name.split('.')[-1] in ('imread', 'open')]
    if len(reads) != 1:
        s.undecided('figure read', '%d figures read for a frame' % len(reads))
    else:
        e, a = reads[0]
        s.eq('figure read for a frame', a[0] if a else (e.kw or {}).get('fname', NONE), path(base, N_), where=e.where())
    sets = [(e, a) for e, a in shown if e.name.split('.')[-1] in ('set_data', 'set_array')]
    imgs = sh.named('imshow')
    if reads and len(sets) == 1 and len(imgs) == 1 and isinstance(sets[0][1][0], T):
        origin = (imgs[0][0].kw or {}).get('origin', const('upper'))
        img, got = reads[0][0].e.res, sets[0][1][0]
        if img is None:
            s.undecided('figure shown', 'the image read is not followed')
        else:
            up = I.reify(r.st, I.getitem(r.st, img, SliceV(None, None, const(-1)))) if origin is const('lower') else img
            s.eq('the figure is shown upright', got, up, where=sets[0][0].where())
    else:
        s.undecided('figure shown', 'the drawing of a frame is not recognised')
    saves = [(e, a) for e, a in Seen(sh.log) if e.name.split('.')[-1] == 'save']
    s.need('one movie is written', len(saves) == 1, '%d saves' % len(saves))
    for e, a in saves[:1]:
        s.eq('movie written to', a[0] if a else (e.kw or {}).get('filename', NONE), joined(base, 'animation.mp4')[0], where=e.where())
        s.true('the movie is always written', e.when())
    s.need('nothing else is written', not [e for e in sh.log + log if e.name.split('.')[-1] in ('savefig', 'makedirs', 'mkdir')
                                           or e.name in REMOVERS], 'effects %s' % [e.name for e in sh.log + log])


class Seen(list):
    """(effect, arguments without the receiver)"""

    def __init__(self, log):
        for e in log:
            m = method(e.args[0]) if e.name == 'call' and e.args and isinstance(e.args[0], T) else None
            if m:
                e.name, e.args = 'mcall.' + m[0], (m[1],) + tuple(e.args[1:])
            self.append((e, list(e.args[1:]) if e.name.startswith('mcall.') else list(e.args)))


def path(base, n):
    return tm.mk('call', 'strcat', const(base + '/figs/output'), tm.mk('call', 'str', n), const('.png'))


check.section('folder')(lambda s: movie(s, const('run 1/out'), 'run 1/out'))
