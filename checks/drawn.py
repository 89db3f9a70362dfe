"""Shared: the routines of dorado.routines run on symbolic walks, for a few concrete numbers of steps."""
from checks.plots import *

OPTW = ('depth', 'stage')


def exposed(sh):
    """walk data and exposure times as given to the exposure time plots"""
    w = walk(sh.I, sh.st, 'o', NO, OPTW)
    et = list_of(sh.I, sh.st, seq_app('et', NO, ('real', 0, 50)))
    sh.walk, sh.times = w, et
    return w, et


def stepping(n, folder, save=None, opts=OPTW):
    def args(sh):
        w = walk(sh.I, sh.st, 'o', NO, opts)
        sh.walk = w
        sh.particle = tracker(sh.I, sh.st, opts, w, NO)
        steps_stub(sh, NO, opts)
        kw = {} if folder is NONE else {'folder_name': folder}
        if save is not None:
            kw['save_output'] = save
        return [sh.particle, const(n)], kw
    return args


def etd(folder, save=None, **kw):
    def args(sh):
        w, et = exposed(sh)
        k = {} if folder is NONE else {'folder_name': folder}
        if save is not None:
            k['save_output'] = save
        return [w, et], dict(k, **kw)
    return args


def snake(n, folder, interval=4, tail=3):
    def args(sh):
        sh.walk = walk(sh.I, sh.st, 'o', NO, OPTW)
        sh.grid = arr_app(sh.I, sh.st, 'grid', (H, W))
        k = {} if folder is NONE else {'folder_name': folder}
        return [sh.grid, sh.walk, const(n)], dict(k, interval=const(interval), tail_length=const(tail))
    return args


def dumped(s, sh, want, name):
    """exactly one record of the data is written, and it is complete"""
    ds = sh.named('dump')
    if not ds:
        other = sh.named('write', 'dumps', 'write_text', 'writelines')
        if other:
            return s.undecided('content of ' + name, 'not written by json.dump')
        return s.fail('the data are written', 'no data file is written')
    s.need('written once', len(ds) == 1, '%d dumps' % len(ds))
    e, a = ds[0]
    s.true('always written', e.when())
    s.eq('content of ' + name, a[0], want, samples=60)
    f = a[1] if len(a) > 1 else (e.kw or {}).get('fp')
    opened = [x for x in tm.subterms(f) if x.op == 'const' and str(x.args[0]).endswith(name)]
    for o, p in writes(sh):
        if o.name in ('open', 'io.open') and any(x.op == 'const' and str(x.args[0]).endswith(name) for x in tm.subterms(p)):
            b = sh.plain(o)
            mode = b[1] if len(b) > 1 else (o.kw or {}).get('mode', const('r'))
            if mode.op == 'const' and isinstance(mode.args[0], str):
                s.need('the file holds this record only', mode.args[0][:1] in 'wx', 'opened with mode %r' % mode.args[0], where=o.where())
    s.need('written to ' + name, bool(opened), 'written to %s' % tm.show(f, 6), where=e.where())
