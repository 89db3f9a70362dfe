from checks.drawn import *

check = Check('C32', 'the effect log of the unsteady routine uses, step by step, the sorted output files, continues every '
              'particle of the step before and moves it to the end of the step')
DX, TS = sym('dx', 'pos'), sym('timestep', 'pos')
VARS = ('depth', 'stage', 'qx', 'qy')
STAMPS = ('_b1', '_a20', '_c0')


def listing(kind, count, stray=False):
    names = ['depth_old.npy' if kind == 'npz' else 'data_readme.md'] if stray else []
    for t in STAMPS[:count]:
        for v in (('data',) if kind == 'npz' else VARS):
            names.append('%s%s.%s' % (v, t, kind))
    return names[::2] + ['notes.txt', 'mydepth.txt'] + names[1::2]


def field(I, st, path, key=''):
    return arr_app(I, st, 'file:%s%s' % (path, key), (H, W), ('nanreal',))


def content(I, st, path, v, kind):
    """what step data of a variable are read from a file"""
    return I.reify(st, field(I, st, path, ':' + v if kind == 'npz' else ''))


def start(s, kind, steps, have, folder=const('out'), verbose=None, stray=False):
    made = []

    def args(sh):
        I = sh.I
        def listdir(I, st, a, k):
            if a and isinstance(a[0], T) and a[0].op == 'const' and a[0].args[0].rstrip('/') != 'model':
                return I.opaque_call(st, 'os.listdir', a, k)
            return I.new_list(st, [const(x) for x in listing(kind, have, stray)])
        I.stubs['ext:os.listdir'] = listdir

        def load(name):
            def stub(I, st, a, k):
                p = a[0]
                if not (isinstance(p, T) and p.op == 'const'):
                    return I.opaque_call(st, 'numpy.' + name, a, k)
                I.log(st, 'numpy.' + name, a, k)
                if kind == 'npz' and name == 'load':
                    return dictv(I, st, {v: field(I, st, p.args[0], ':' + v) for v in VARS})
                return field(I, st, p.args[0])
            return stub
        for name in ('load', 'loadtxt', 'genfromtxt'):
            I.stubs['ext:numpy.' + name] = load(name)
        cls = I.module_attr(PT, 'Particles', sh.st)

        def build(I, st, a, k):
            p = I.resolve(st, a[0] if a else k.get('params'))
            at = {n: I.reify(st, v) for n, (c, v) in st.heap[p.oid].attrs.items()}
            made.append(dict(params=at, seeds=[], moves=[]))
            r = I.alloc(st, InstO(cls, {'walk_data': (TRUE, NONE), 'no': (TRUE, const(len(made) - 1))}))
            I.log(st, 'walk.build', [], {})
            return r

        def seed(I, st, a, k):
            me = I.resolve(st, a[0])
            obj = st.heap[me.oid]
            names = ('Np_tracer', 'seed_xloc', 'seed_yloc', 'seed_time', 'method', 'previous_walk_data')
            given = dict(zip(names, a[1:]))
            given.update(k)
            prev = given.get('previous_walk_data', NONE)
            m = made[obj.attrs['no'][1].args[0]]
            m['seeds'].append({n: I.reify(st, v) for n, v in given.items()})
            at = dict(obj.attrs)
            at['walk_data'] = (TRUE, prev if prev is not NONE else dictv(I, st, {
                n: list_of(I, st, extended(n, 0, NO)) for n in BASE}))
            st.heap[me.oid] = type(obj)(obj.cls, at, None)
            I.log(st, 'walk.seed', [], {})
            return NONE
        count = [0]
        I.recorders += [count, made]

        def move(I, st, a, k):
            me = I.resolve(st, a[0])
            obj = st.heap[me.oid]
            t = a[1] if len(a) > 1 else k.get('target_time', NONE)
            m = made[obj.attrs['no'][1].args[0]]
            m['moves'].append((I.reify(st, t), I.reify(st, obj.attrs['walk_data'][1])))
            count[0] += 1
            w = dictv(I, st, {n: list_of(I, st, extended(n, count[0], NO)) for n in BASE})
            at = dict(obj.attrs)
            at['walk_data'] = (TRUE, w)
            st.heap[me.oid] = type(obj)(obj.cls, at, None)
            I.log(st, 'walk.step', [t], {})
            return w
        I.stubs[PT + '.Particles'] = build
        I.stubs[PT + '.Particles.generate_particles'] = seed
        I.stubs[PT + '.Particles.run_iteration'] = move
        sh.sx, sh.sy = list_of(I, sh.st, seq_app('sx', NS, ('nat',))), list_of(I, sh.st, seq_app('sy', NS, ('nat',)))
        kw = {} if folder is NONE else {'folder_name': folder}
        return [DX, N, sh.sx, sh.sy, const(steps), TS, const('model'), const(kind)], kw
    sh = Shown(s, 'unsteady_plots', args)
    sh.walks = made
    return sh


def steps(s, kind, asked, have, stray=False):
    sh = start(s, kind, asked, have, stray=stray)
    I = sh.I
    n = min(asked, have)
    s.eq('no failure', sh.r.exc_cond(), FALSE, samples=60)
    walks = sh.walks
    if not s_need(s, 'one step per output', len(walks) == n, '%d steps for %d asked of %d outputs' % (len(walks), asked, have)):
        return
    stamps = sorted(STAMPS[:have])
    for i, m in enumerate(walks):
        lab = 'step %d: ' % i
        s.eq(lab + 'cell size', m['params'].get('dx', NONE), DX)
        for v in VARS:
            path = 'model/%s%s.%s' % ('data' if kind == 'npz' else v, stamps[i], kind)
            s.eq(lab + v, m['params'].get(v, NONE), content(I, sh.st, path, v, kind))
        if not s_need(s, lab + 'seeded and moved once', len(m['seeds']) == 1 and len(m['moves']) == 1,
                      '%d seedings, %d moves' % (len(m['seeds']), len(m['moves']))):
            continue
        g = m['seeds'][0]
        prev = g.get('previous_walk_data', NONE)
        if i == 0:
            s.eq(lab + 'particles seeded', g.get('Np_tracer', NONE), N)
            s.eq(lab + 'rows seeded', g.get('seed_xloc', NONE), I.reify(sh.st, sh.sx))
            s.eq(lab + 'columns seeded', g.get('seed_yloc', NONE), I.reify(sh.st, sh.sy))
            s.need(lab + 'starts from nothing', prev is NONE, 'continues %s' % tm.show(prev, 3))
        else:
            s.eq(lab + 'no new particles', g.get('Np_tracer', NONE), ZERO)
            s.eq(lab + 'continues all particles of the step before', prev, walk_term(sh, i, ()))
        t, before = m['moves'][0]
        s.eq(lab + 'moved to the end of the step', t, tm.mul(TS, const(i + 1)), samples=60)
        s.eq(lab + 'moved from the particles held', before, walk_term(sh, i, ()))
    s.eq('walk data returned', I.reify(sh.r.st, sh.r.val), walk_term(sh, n, ()))
    dumped(s, sh, walk_term(sh, n, ()), 'data/data.txt')
    for e in sh.named('loadtxt', 'genfromtxt'):
        d = e[0].kw.get('delimiter', e[1][3] if len(e[1]) > 3 else NONE)
        s.need('values are separated by commas', d is const(','), 'delimiter %s' % tm.show(d, 3))
    fs = frames(sh)
    s.need('one figure per step', len(fs) == n, '%d figures for %d steps' % (len(fs), n))
    for k, f in enumerate(fs[:n]):
        lab = 'figure %d' % k
        pts = [(p['h'], p['v']) for p in f.points]
        x, y = cells(k + 1)
        shows(s, sh, lab + ': positions after the step', pts, (y, x))
        x, y = cells(None)
        shows(s, sh, lab + ': starts', pts, (y, x))
        shows(s, sh, lab + ': depth of the step', [(i['d'],) for i in f.images], (walks[k]['params']['depth'],))
        numbered(s, sh, f, lab, tm.mul(TS, const(k + 1)))


def s_need(s, name, cond, detail):
    s.need(name, cond, detail)
    return cond


def rejected(s):
    sh = start(s, 'txt', 2, 2)
    s.eq('an unknown file type is rejected', sh.r.exc_cond('ValueError'), TRUE)
    s.need('nothing is seeded or moved', not any(m['seeds'] or m['moves'] for m in sh.walks), 'particles were moved')


def written(s, f, folder, kind, n):
    sh = start(s, kind, n, 3, f)
    files(s, sh, folder, ['figs/output%d.png' % k for k in range(n)] + ['data/data.txt'], ('', 'figs', 'data'))


for kind in ('csv', 'npy', 'npz'):
    for asked, have in ((1, 1), (2, 3), (3, 3), (3, 2), (4, 2)):
        check.section('%s, %d steps of %d outputs' % (kind, asked, have))(lambda s, k=kind, a=asked, h=have: steps(s, k, a, h))
    for asked, have in ((2, 3), (4, 2)):
        check.section('%s, %d steps of %d outputs among other files' % (kind, asked, have))(
            lambda s, k=kind, a=asked, h=have: steps(s, k, a, h, True))
    for lab, (f, folder) in FOLDERS.items():
        check.section('files, %s, %s' % (kind, lab))(lambda s, f=f, folder=folder, k=kind: written(s, f, folder, k, 2))
check.section('unknown file type')(rejected)
