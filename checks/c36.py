import itertools
import os
from checks.gen import *
from sa import effects
from sa.check import VERIF

check = Check('C36', 'the abstract state of the package logger after every sequence of calls equals the reference state: level, '
              'handlers attached once, and nothing changed by a rejected level')
LC = 'dorado.logging_config'
LEVELS = {'DEBUG': 10, 'INFO': 20, 'WARNING': 30, 'ERROR': 40, 'CRITICAL': 50}
BAD = (const('LOUD'), const('verbose'), const(''), const(5), NONE)


def start(s, own=0, rooted=0):
    I = s.interp()
    I.extra['logging'] = os.path.join(VERIF, 'specs', 'models', 'logging.py')
    if I.load(LC) is None:
        from sa.check import MissingAnchor
        raise MissingAnchor(LC)
    st = I.new_state()
    lg = I.module_attr(LC, 'logger', st)
    hs = []
    cls = I.module_attr('logging', 'StreamHandler', st) if I.load('logging') is not None else None
    for k in range(2):
        r = s.run(I, st, cls, [])
        st = r.st
        hs.append(r.val)
    for k in range(rooted):
        # the application has already configured the logging library for itself
        r = s.run(I, st, cls, [])
        r = s.run(I, r.st, I.getattr_(r.st, I.module_attr('logging', 'root', r.st), 'addHandler'), [r.val])
        st = r.st
    for k in range(own):
        r = s.run(I, st, I.getattr_(st, lg, 'addHandler'), [hs[k]])
        st = r.st
    return I, st, lg, hs


def snap(I, st, lg):
    """level and handlers of the package logger"""
    lev = I.reify(st, I.getattr_(st, lg, 'level'))
    h = I.resolve(st, I.getattr_(st, lg, 'handlers'))
    items = st.heap[h.oid].items
    return lev, [I.resolve(st, x) for x in items] if items is not None else None


def sequence(s, ops, own=0, rooted=0):
    I, st, lg, hs = start(s, own, rooted)
    f = s.func(I, LC, 'setup_logging')
    level, want = snap(I, st, lg)
    for n, (lev, h) in enumerate(ops):
        lab = 'call %d' % (n + 1)
        given = [I.reify(st, I.getattr_(st, x, 'level')) for x in hs]
        args = [const(lev) if isinstance(lev, str) else lev]
        kw = {} if h is None else {'handler': hs[h]}
        good = isinstance(lev, str)
        r = s.run(I, st, f, args, kw)
        if not good:
            s.eq(lab + ' is rejected', r.exc_cond('ValueError'), TRUE)
            s.need(lab + ' only rejects', r.st is None, 'returns normally for %s' % tm.show(args[0]))
            for st2, e in r.excs:
                lv, got = snap(I, st2, lg)
                s.eq(lab + ' keeps the level', lv, level)
                s.need(lab + ' keeps the handlers', got == want, '%s handlers instead of %s' % (got, want))
            continue
        s.eq(lab + ' is accepted', r.exc_cond(), FALSE)
        if r.st is None:
            return
        st = r.st
        level = const(LEVELS[lev.upper()])
        lv, got = snap(I, st, lg)
        s.eq(lab + ' sets the level', lv, level)
        if got is None:
            return s.undecided(lab + ' handlers', 'list of handlers not resolved')
        new = [x for x in got if x not in want]
        if h is not None:
            expect = want if hs[h] in want else want + [hs[h]]
            s.eq(lab + ' keeps the level of the handler', I.reify(st, I.getattr_(st, hs[h], 'level')), given[h])
            s.need(lab + ' attaches the handler exactly once', got == expect, '%d handlers, %d expected' % (len(got), len(expect)))
        elif want:
            s.need(lab + ' attaches nothing further', got == want, '%d handlers, %d expected' % (len(got), len(want)))
        else:
            s.need(lab + ' attaches one handler', len(got) == 1 and len(new) == 1, '%d handlers' % len(got))
            for x in new:
                c = st.heap[x.oid].cls
                s.need(lab + ' attaches a stream handler', getattr(c, 'name', c) == 'StreamHandler', 'a %s' % getattr(c, 'name', c))
        for x in new:
            s.need(lab + ' formats the messages of the handler', I.reify(st, I.getattr_(st, x, 'formatter')) is not NONE,
                   'handler without format')
        want = got


def verbose(s, v, level, own, rooted=0):
    I, st, lg, hs = start(s, own, rooted)
    f = s.func(I, LC, 'handle_verbose_deprecation')
    l0, h0 = snap(I, st, lg)
    r = s.run(I, st, f, [v])
    s.eq('no failure', r.exc_cond(), FALSE)
    warn = effects.named(r.st.log, 'warnings.warn')
    lv, hs1 = snap(I, r.st, lg)
    if v is NONE:
        s.need('no warning', not warn, 'warns')
        s.eq('level kept', lv, l0)
        return s.need('handlers kept', hs1 == h0, '%s' % (hs1,))
    s.need('warns once', len(warn) == 1, '%d warnings' % len(warn))
    for e in warn:
        s.true('always warns', e.when())
        cat = [x for x in list(e.args[1:2]) + [e.kw.get('category')] if x is not None]
        s.need('as a deprecation', any('DeprecationWarning' in tm.show(x) for x in cat), 'category %s' % [tm.show(x) for x in cat])
    s.eq('level', lv, level)
    s.need('a handler is attached', hs1 is None or len(hs1) == max(1, own), '%s handlers' % (hs1 and len(hs1)))


V = sym('verbose', 'bool')
SETUPS = [(own, rooted) for rooted in (0, 1) for own in (0, 1)]


def named(own, rooted):
    return (', with a handler' if own else '') + (', in an application with logging' if rooted else '')


for own, rooted in SETUPS:
    a, t = (own, rooted), named(own, rooted)
    check.section('verbose not given' + t)(lambda s, a=a: verbose(s, NONE, None, *a))
    check.section('verbose on' + t)(lambda s, a=a: verbose(s, TRUE, const(20), *a))
    check.section('verbose off' + t)(lambda s, a=a: verbose(s, FALSE, const(40), *a))
    check.section('verbose 1' + t)(lambda s, a=a: verbose(s, const(1), const(20), *a))
    check.section('verbose 0' + t)(lambda s, a=a: verbose(s, const(0), const(40), *a))
    check.section('verbose on or off' + t)(lambda s, a=a: verbose(s, V, tm.ite(V, const(20), const(40)), *a))
OPS = [('INFO', None), ('error', 0), ('Debug', 1), (BAD[0], None), (BAD[1], 1)]
for own, rooted in SETUPS:
    def seqs(s, own=own, rooted=rooted):
        for n in (1, 2) if rooted else (1, 2, 3):
            for ops in itertools.product(OPS, repeat=n):
                sequence(s, ops, own, rooted)
    check.section('sequences of calls' + named(own, rooted))(seqs)


@check.section('levels')
def levels(s):
    for lev in LEVELS:
        sequence(s, [(lev, None)])
        sequence(s, [(lev.lower(), None)])
    for b in BAD:
        sequence(s, [('INFO', None), (b, 0), ('ERROR', None)])


@check.section('default')
def default(s):
    I, st, lg, hs = start(s)
    r = s.run(I, st, s.func(I, LC, 'setup_logging'), [])
    lv, got = snap(I, r.st, lg)
    s.eq('default level', lv, const(30))
