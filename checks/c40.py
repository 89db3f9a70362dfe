from checks.plots import *
from sa.heap import ListO, VTup

check = Check('C40', 'the effect log of the map figure: every map is drawn over the elevation in its own panel, in the order '
              'given, both spread over the same untransposed raster, with one colour scale for all panels')
V_ = bv()
MX, N_, CMAP, TITLE = sym('max_exposure', 'pos'), tm.add(sym('n', 'nat'), const(2)), sym('cmap', 'any'), sym('title', 'any')


def drawn(s, n, kind):
    def args(sh):
        I, st = sh.I, sh.st
        sh.maps = [arr_app(I, st, 'map%d' % k, (tm.add(sym('mr', 'nat'), ONE), tm.add(sym('mc', 'nat'), ONE)), ('nanpos',))
                   for k in range(n)]
        sh.elev = grid(I, st, 'elevation')
        L = VTup(sh.maps) if kind == 'tuple' else I.alloc(st, ListO(items=list(sh.maps)))
        return [L, sh.elev, MX, N_, CMAP, TITLE], {}
    return Shown(s, 'plot_spatial', args, mods=[SP], mod=SP, specs=['maps'])


def element(t, k):
    return t.args[k] if t is not None and t.op == 'lit' else tm.sel(t, const(k))


def panel(t):
    """position of the panel in the layout, when it is written that way"""
    for x in tm.subterms(t):
        if x.op != 'sub' or len(x.args) != 2 or x.args[1].op not in ('lit', 'tup') or len(x.args[1].args) != 2:
            continue
        g = x.args[0]
        i = x.args[1].args
        if g.op == 'opaque' and str(g.args[0]).endswith('GridSpec') and all(y.op == 'const' for y in i + g.args[1:3]):
            try:
                return tuple(int(y.args[0]) % int(n.args[0]) for y, n in zip(i, g.args[1:3]))
            except (TypeError, ValueError, ZeroDivisionError):
                return None
    return None


def same(s, a, b):
    from sa import ri
    return ri.compare(a, b, samples=40, seed='m%s' % s.check.seed)[0]


def picture(s, sh, lab, im):
    """an image is spread over the raster of the elevation with its first row on top"""
    e, kw = im
    ext = kw.get('extent')
    if ext is None or ext is NONE:
        return s.fail(lab + ': spread over the raster', 'no extent: the image is spread over its own number of cells')
    l, r, b, t = [element(ext, k) for k in range(4)]
    s.eq(lab + ': columns', tm.lit(l, r), tm.lit(ZERO, W))
    up = same(s, tm.lit(b, t), tm.lit(ZERO, H)) in ('same', 'equal')
    if not up:
        s.eq(lab + ': rows', tm.lit(b, t), tm.lit(H, ZERO))
    o = kw.get('origin')
    if o is not None and o is not NONE:
        s.eq(lab + ': first row on top', o, const('upper'))


def section(n, kind):
    def sec(s):
        sh = drawn(s, n, kind)
        s.true('returns', sh.r.guard())
        if sh.r.st is None:
            return
        I, st = sh.I, sh.r.st
        ims = [(e, e.kw or {}, data_args(sh, e, ('X',))[0], e.args[0] if e.name.startswith('mcall.') else None)
               for e, a in sh.named('imshow')]
        elev = I.reify(st, sh.elev)
        out = I.resolve(st, sh.r.val)
        axes = [I.reify(st, x) for x in [I.getitem(st, I.getitem(st, out, ONE), const(k)) for k in range(n)]]
        norms, seen = [], []
        for k in range(n):
            want = I.reify(st, sh.maps[k])
            lab = 'map %d' % k
            own = [q for q in ims if q[3] is not None and same(s, q[3], axes[k]) in ('same', 'equal')]
            if not own:
                s.undecided(lab, 'no image in the panel returned for it')
                continue
            st_ = [same(s, q[2], want) for q in own]
            hit = [q for q, x in zip(own, st_) if x in ('same', 'equal')]
            if not hit:
                s.eq(lab + ': shown in its panel', own[-1][2], want, samples=60)
                continue
            s.ok(lab + ': shown in its panel', 'value graph of the image')
            low = [q for q in own if same(s, q[2], elev) in ('same', 'equal')]
            s.need(lab + ': elevation in the panel', bool(low), 'no image of the elevation')
            if low:
                a, b = ims.index(low[0]), ims.index(hit[-1])
                s.need(lab + ': drawn over the elevation', a < b or any('zorder' in q[1] for q in (low[0], hit[-1])),
                       'the elevation is drawn later')
                picture(s, sh, lab + ', elevation', low[0][:2])
            picture(s, sh, lab, hit[-1][:2])
            s.true(lab + ': always drawn', hit[-1][0].when())
            norms.append((lab, hit[-1][1].get('norm'), hit[-1][1].get('cmap')))
            seen.append((k, panel(axes[k])))
        for (a, p), (b, q) in zip(seen, seen[1:]):
            if p is None or q is None:
                s.undecided('order of the panels', 'layout not recognised')
            else:
                s.need('panel %d left of panel %d' % (a, b), p[0] == q[0] and p[1] < q[1], '%s, %s' % (p, q))
        bars = sh.named('colorbar')
        if len(bars) != 1:
            s.undecided('colour bar', '%d colour bars' % len(bars))
        for e, a in bars:
            m = [x for x in tm.subterms(a[0]) if x.op == 'opaque' and str(x.args[0]).endswith('ScalarMappable')] if a else []
            for x in m[:1]:
                ks = dict(zip([str(y.args[0]) for y in x.args[1::2]], x.args[2::2]))
                norms.append(('colour bar', ks.get('kw:norm'), ks.get('kw:cmap')))
        levels = tm.mapseq(N_, V_, tm.mul(tm.mul(MX, tm.inv(tm.sub(N_, ONE))), V_))
        for lab, nm, cm in norms:
            if nm is None or cm is None:
                s.undecided(lab + ': colour scale', 'no scale recognised')
                continue
            s.eq(lab + ': colours', cm, CMAP)
            bounds = scale(nm)
            if bounds is None:
                s.undecided(lab + ': colour scale', 'not a scale of levels')
            else:
                s.eq(lab + ': levels of the scale', sequence(bounds), levels, samples=100)
        ticks(s, sh, levels)
    return sec


def scale(t):
    if t.op == 'opaque' and str(t.args[0]).endswith('BoundaryNorm'):
        return t.args[1]
    return None


def sequence(t):
    if t.op == 'arr':
        v = bv()
        return tm.mapseq(t.args[0][0], v, tm.asel(t, (v,)))
    return t


def ticks(s, sh, levels):
    tk = [a for e, a in sh.named('set_ticks') if a]
    tl = [a for e, a in sh.named('set_xticklabels', 'set_ticklabels') if a]
    bar = [e for e, a in sh.named('colorbar')]
    if tk:
        s.eq('ticks of the colour bar', sequence(tk[-1][0]), levels, samples=100)
    else:
        s.undecided('ticks of the colour bar', 'none recognised')
    if tl:
        r = s.spec(sh.I, sh.r.st, 'maps', 'labels', [MX, N_])
        s.eq('labels of the colour bar', tl[-1][0], r, samples=100)
    else:
        s.undecided('labels of the colour bar', 'none recognised')
    lb = [a for e, a in sh.named('set_label', 'set_xlabel') if a]
    if lb:
        s.eq('title of the colour bar', lb[-1][0], TITLE)
    else:
        s.undecided('title of the colour bar', 'none recognised')


for n_ in (1, 2, 3):
    check.section('%d maps' % n_)(section(n_, 'list'))
check.section('3 maps in a tuple')(section(3, 'tuple'))
