"""Shared: routines that draw and write files, observed through their effect log."""
from checks.gen import *
from sa import effects

OPT = ('depth', 'stage')
FOLDERS = {'folder': (const('run 1/out'), 'run 1/out'), 'no folder': (NONE, None)}
REMOVERS = ('os.remove', 'os.unlink', 'os.rename', 'os.replace', 'os.rmdir', 'os.removedirs', 'os.chdir', 'os.renames')


class Shown(object):
    """a run of a routine: its result and everything it drew and wrote"""

    def __init__(self, s, fn, args, kw=None, setup=None, mods=None, mod=RT, specs=()):
        self.s = s
        self.I = I = s.interp(mods or [RT, PT, LW], specs=specs)
        self.st = st = I.new_state()
        a, k = args(self) if callable(args) else (args, kw or {})
        if setup:
            setup(self)
        f = s.func(I, mod, fn)
        self.r = s.run(I, st, f, a, k)
        self.blind = None
        self.log = list(effects.flat(self.r.st.log)) if self.r.st is not None else []
        for e in self.log:
            m = method(e.args[0]) if e.name == 'call' and e.args else None
            if m:
                e.name, e.args = 'mcall.' + m[0], (m[1],) + tuple(e.args[1:])

    def named(self, *tails):
        """effects by the last part of their name; the receiver of a method is dropped"""
        out = []
        for e in self.log:
            if e.name.split('.')[-1] in tails:
                out.append((e, self.plain(e)))
        return out

    def plain(self, e):
        return list(e.args[1:]) if e.name.startswith('mcall.') else list(e.args)


def method(t):
    """name and receiver of a bound method, possibly of one of several objects"""
    if t.op == 'attr' and isinstance(t.args[1], str):
        return t.args[1], t.args[0]
    if t.op == 'ite':
        a, b = method(t.args[1]), method(t.args[2])
        if a and b and a[0] == b[0]:
            return a[0], tm.ite(t.args[0], a[1], b[1])
    return None


def reached(k, pre='o'):
    """number of further entries of a particle after k iterations (each adds any number)"""
    return lambda i: tm.add(ONE, app(pre + 'len', ('nat',), i), *[app('%sadd%d' % (pre, j), ('nat',), i) for j in range(k)])


DOMS = {'xinds': ('intT', ONE, tm.sub(H, ONE)), 'yinds': ('intT', ONE, tm.sub(W, ONE)), 'travel_times': ('real',)}
SHORT = {'xinds': 'x', 'yinds': 'y', 'travel_times': 't'}


def extended(name, k, n, pre='o'):
    """the histories of all particles after k iterations: earlier entries stay"""
    return seq2_app(pre + SHORT.get(name, name), n, reached(k, pre), DOMS.get(name, ('opt', VARDOM.get(name, ('real',)))))


def steps_stub(sh, n, opts=OPT, pre='o', stubs=None):
    """run_iteration extends the histories in place and returns a new dictionary of them, also kept in the object"""
    sh.made = []
    sh.I.recorders.append(sh.made)

    def stub(I, st, a, k):
        me = I.resolve(st, a[0])
        obj = st.heap[me.oid]
        I.log(st, 'walk.step', a[1:], k, obj.attrs['walk_data'][1])
        sh.made.append(st.fork())
        at = dict(obj.attrs)
        old = I.resolve(st, at['walk_data'][1])
        d = {}
        for name in BASE + tuple(opts):
            seq = extended(name, len(sh.made), n, pre)
            ent = st.heap[old.oid].ent.get(name) if isinstance(old, Ref) else None
            if ent is not None and isinstance(I.resolve(st, ent[1]), Ref):
                d[name] = I.resolve(st, ent[1])
                st.heap[d[name].oid] = ListO(seq=seq)
            else:
                d[name] = list_of(I, st, seq)
        w = dictv(I, st, d)
        at['walk_data'] = (TRUE, w)
        st.heap[me.oid] = type(obj)(obj.cls, at, None)
        return w
    sh.I.stubs[PT + '.Particles.run_iteration'] = stub


def walk_term(sh, k, opts=OPT, pre='o', n=NO):
    """the walk data after k iterations"""
    st = sh.st.fork()
    return sh.I.reify(st, dictv(sh.I, st, {name: list_of(sh.I, st, extended(name, k, n, pre)) for name in BASE + tuple(opts)}))


def cells(k, pre='o', n=NO, names=('xinds', 'yinds')):
    """rows and columns of all particles after k iterations; their starts when k is None"""
    i = bv()
    out = []
    for c in names:
        j = ZERO if k is None else tm.sub(reached(k, pre)(i), ONE)
        out.append(tm.mk('map', n, i, app(pre + SHORT.get(c, c), DOMS.get(c, ('real',)), i, j)))
    return out


def joined(folder, rest):
    """path below the folder (the working directory by default)"""
    if folder is None:
        return [tm.mk('call', 'strcat', tm.mk('opaque', 'os.getcwd'), const('/' + rest)) if rest else tm.mk('opaque', 'os.getcwd')]
    return [const(folder + ('/' + rest if rest else ''))]


def writes(sh):
    """(effect, path term) of everything written"""
    out = []
    for e in sh.log:
        tail = e.name.split('.')[-1]
        a = sh.plain(e)
        if tail in ('savefig', 'imsave') and a:
            out.append((e, a[0]))
        elif tail == 'savefig':
            out.append((e, e.kw.get('fname', NONE)))
        elif e.name in ('open', 'io.open') and a:
            mode = a[1] if len(a) > 1 else (e.kw or {}).get('mode', const('r'))
            if not (mode.op == 'const' and set(str(mode.args[0])) <= set('rbt')):
                out.append((e, a[0]))
        elif tail in ('save', 'savetxt', 'savez', 'tofile', 'write_text', 'write_bytes', 'copy', 'copyfile', 'move') and a:
            out.append((e, a[0]))
    return out


def files(s, sh, folder, names, subdirs):
    """exactly the named files below the folder are written, and their directories exist by then"""
    ws = writes(sh)
    want = {n: joined(folder, n)[0] for n in names}
    for n, t in want.items():
        hit = [e for e, p in ws if p is t or tm.canon(p) == tm.canon(t)]
        if not hit and any(p.op != 'const' and folder is not None for e, p in ws):
            s.undecided('%s is written' % n, 'a path is not resolved')
            continue
        s.need('%s is written' % n, bool(hit), 'no write to %s; written: %s' % (n, [tm.show(p, 4) for e, p in ws]))
        for e in hit[:1]:
            s.true('%s is always written' % n, e.when())
    known = {tm.canon(t) for t in want.values()}
    for e, p in ws:
        if folder is not None and p.op != 'const':
            s.undecided('writes stay below the folder', 'path %s' % tm.show(p, 4))
        else:
            s.need('every file written is expected', tm.canon(p) in known, 'writes %s' % tm.show(p, 4), where=e.where())
    first = min([i for i, e in enumerate(sh.log) if any(e is w for w, p in ws)] or [len(sh.log)])
    for d in subdirs:
        t = joined(folder, d)[0]
        there = tm.truth(tm.mk('opaque', 'os.path.exists', t))
        facts = tm.or_(tm.not_(asked(there)), asked(tm.truth(tm.mk('opaque', 'os.path.exists', joined(folder, '')[0]))))
        made, clash = [], []
        for i, e in enumerate(sh.log):
            tail = e.name.split('.')[-1]
            if tail not in ('makedirs', 'mkdir'):
                continue
            a = sh.plain(e)
            p = a[0] if a else e.kw.get('name', NONE)
            ok = (e.kw or {}).get('exist_ok', a[2] if len(a) > 2 else FALSE)
            inside = below(p, t) if tail == 'makedirs' else p is t
            if inside and i < first:
                made.append(e.when())
            if p is t and ok is not TRUE:
                clash.append(e.when())
        s.true('directory %s exists before the first write' % (d or '.'), asked(tm.or_(there, *made)), assume=facts, samples=40)
        for c in clash:
            s.eq('directory %s is not created twice' % (d or '.'), asked(tm.and_(c, there)), FALSE, assume=facts, samples=40)
    s.need('nothing is removed or renamed', not [e for e in sh.log if e.name in REMOVERS or e.name.startswith('shutil.')],
           'effects %s' % [e.name for e in sh.log if e.name in REMOVERS or e.name.startswith('shutil.')])


def asked(t):
    """questions to the file system as truth values of their own"""
    m = {}
    for x in tm.subterms(t):
        if x.op == 'opaque' and x.args[0] in ('os.path.exists', 'os.path.isdir'):
            m[x] = sym('exists %s' % tm.show(x.args[1], 6), 'bool')
    for x, y in m.items():
        t = tm.subst_term(t, {x: y})
    return t


def below(p, d):
    """is path p the directory d or inside it"""
    if p is d:
        return True
    if p.op == 'const' and d.op == 'const':
        return str(p.args[0]).startswith(str(d.args[0]) + '/')
    if p.op == 'call' and p.args[0] == 'strcat':
        parts = list(p.args[1:])
        if d.op == 'call' and d.args[0] == 'strcat':
            return parts[0] is d.args[1] and len(parts) > 1 and parts[1].op == 'const' and d.args[2].op == 'const' and str(
                parts[1].args[0]).startswith(str(d.args[2].args[0]) + '/')
        return parts[0] is d and parts[1].op == 'const' and str(parts[1].args[0]).startswith('/')
    return False


def silent(s, sh):
    """nothing is written and no directory made"""
    bad = [e for e, p in writes(sh)] + [e for e in sh.log if e.name.split('.')[-1] in ('makedirs', 'mkdir')]
    bad += [e for e in sh.log if e.name in REMOVERS or e.name.startswith('shutil.')]
    for e in bad:
        s.eq('no output: %s' % e.name, e.when(), FALSE, where=e.where())
    if not bad:
        s.ok('no output', 'no write effect among %d effects' % len(sh.log))


def component(t, k):
    """k-th column of plotted points, as a sequence"""
    v = bv()
    if t.op == 'arr':
        return tm.mapseq(t.args[0][0], v, tm.asel(t, (v, const(k))))
    return tm.mapseq(tm.length(t), v, tm.sel(tm.sel(t, v), const(k)))


class Frame(object):
    """what a figure shows when it is saved"""

    def __init__(self, e, points, images, title=None):
        self.e, self.points, self.images, self.title = e, points, images, title


def numbered(s, sh, f, label, want):
    """the title of the figure carries the number it is for"""
    t = f.title
    if not isinstance(t, T):
        return s.undecided(label + ': title', 'no title recognised')
    if t.op == 'const':
        import re
        from fractions import Fraction
        got = [const(Fraction(x)) for x in re.findall(r'-?[0-9]+(?:[.][0-9]+)?', str(t.args[0]))]
    else:
        got = [x.args[1] for x in tm.subterms(t) if x.op == 'call' and x.args[0] in ('str', 'fmt', 'repr')]
        got = got or [x for y in tm.subterms(t) if y.op == 'strfmt' for x in y.args if isinstance(x, T) and x.op != 'const']
    if not got:
        return s.undecided(label + ': title', 'no number in the title')
    shows(s, sh, label + ': number in the title', [(g,) for g in got], (want,))


def data_args(sh, e, names):
    """arguments by position or keyword"""
    a = sh.plain(e)
    return [a[i] if len(a) > i else (e.kw or {}).get(n) for i, n in enumerate(names)]


def frames(sh):
    """for every saved figure the point sets (horizontal, vertical, colour, effect) and images shown"""
    pts, imgs, out, title = [], [], [], None

    def owner(group, recv):
        for r in group:
            if r['res'] is not None and any(x is r['res'] for x in tm.subterms(recv)):
                return r
        return None
    for e in sh.log:
        tail = e.name.split('.')[-1]
        recv = e.args[0] if e.name.startswith('mcall.') and e.args else None
        if tail == 'scatter':
            h, v = data_args(sh, e, ('x', 'y'))
            pts.append({'res': e.e.res, 'h': h, 'v': v, 'c': (e.kw or {}).get('c'), 'e': e})
        elif tail == 'imshow':
            imgs.append({'res': e.e.res, 'd': data_args(sh, e, ('X',))[0], 'e': e})
        elif tail in ('set_offsets', 'set_array', 'set_data') and recv is not None:
            r = owner(pts, recv) if tail == 'set_offsets' else owner(imgs, recv) or owner(pts, recv)
            a = sh.plain(e)
            if r is None or not a:
                sh.blind = 'a changed artist is not identified'
            elif tail == 'set_offsets':
                r.update(h=component(a[0], 0), v=component(a[0], 1), e=e)
            elif 'd' in r:
                r.update(d=a[0], e=e)
            else:
                r.update(c=a[0])
        elif tail in ('clf', 'cla', 'close', 'figure'):
            pts, imgs, title = [], [], None
        elif tail in ('set_title', 'title', 'suptitle'):
            title = (sh.plain(e) or [None])[0]
        elif tail == 'savefig':
            out.append(Frame(e, [dict(p) for p in pts], [dict(p) for p in imgs], title))
        elif tail in ('plot', 'add_collection', 'set_xdata', 'set_ydata', 'add_line', 'remove', 'add_artist'):
            sh.blind = 'drawn by ' + tail
    return out


def shows(s, sh, name, cands, want):
    """one of the candidates equals what has to be shown"""
    from sa import ri
    out = []
    for c in cands:
        if any(x is None for x in c):
            continue
        code, ref = tm.lit(*c), tm.lit(*want)
        st, info = ri.compare(code, ref, samples=60, seed='f%s-' % s.check.seed)
        out.append((st, code, ref))
        if st in ('same', 'equal'):
            return s.ok(name, 'value graph of the shown data: ' + st)
    if not out:
        return s.undecided(name, 'nothing shown was recognised') if sh.blind or True else None
    if sh.blind or any(st != 'differ' for st, c, r in out):
        return s.undecided(name, sh.blind or 'not decided: ' + str([st for st, c, r in out]))
    return s.eq(name, out[0][1], out[0][2], samples=60)
