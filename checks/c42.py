from checks.iterc import *
from checks.gen import generated, CASES

check = Check('C42', 'number kinds carried through the value graphs: a number read from an array keeps the number type of the '
              'array until it is converted; no entry recorded in a walk is such a number')

def kinds(t, asked):
    """numbers in value position of a (nested) sequence; None where the structure is not known"""
    seen, out, todo, state = set(), [], [t], {}
    while todo:
        x = todo.pop()
        if x in seen or not isinstance(x, tm.T):
            continue
        seen.add(x)
        o, a = x.op, x.args
        if o == 'np':
            out.append(x)
        elif o == 'ite':
            todo += [a[1], a[2]]
        elif o in ('lit', 'tup', 'concat'):
            todo += list(a)
        elif o == 'map':
            todo.append(a[2])
        elif o == 'fmap':
            todo.append(a[3])
        elif o == 'seqstore':
            todo += [a[0], a[2]]
        elif o in ('slice', 'sel', 'repeat'):
            todo.append(a[0])
        elif o == 'mu':
            # the state of a loop: where it starts and what an iteration makes of it
            for k, phi in enumerate(a[3]):
                state[phi] = (a[4][k], a[5][k])
            todo += [a[4][a[0]], a[5][a[0]]]
        elif o == 'phi' and x in state:
            todo += list(state[x])
        elif o == 'dict':
            todo += list(a[2])
        elif o in ('app', 'sym', 'const', 'poly', 'phi', 'bv', 'len', 'int', 'floor', 'max', 'min', 'mod', 'floordiv', 'rand',
                   'first', 'abs', 'inv', 'asel', 'call', 'eq', 'lt', 'and', 'or', 'not', 'red', 'roundi'):
            pass
        else:
            asked.append(x)
    return out


def plain(s, lab, t):
    odd = []
    found = kinds(t, odd)
    if found:
        s.fail(lab, 'records %s as it is read from an array: with rasters of integers or single precision (or cells given as an '
               'array) the entry is no plain number and the walk cannot be saved' % tm.show(found[0])[:120])
    elif odd or any(x.op == 'unknown' for x in tm.subterms(t)):
        s.undecided(lab, 'structure not recognised: %s' % (odd[0].op if odd else 'unknown'))
    else:
        s.ok(lab, 'kinds of the recorded numbers')


def walked(s, walk, names):
    for var in names:
        if var in walk:
            plain(s, 'recorded ' + var, walk[var])


ALL = ('depth', 'stage', 'qx', 'qy', 'u', 'v', 'roi_flag')
for nm, mode, far in MODES:
    def sec(s, mode=mode, far=far):
        s.npnums = True
        it = It(s, mode, ALL, ('depth', 'roi_flag'), far=far)
        s.true('returns', it.r.guard())
        walked(s, it.after, BASE + ALL)
        for var in it.out:
            plain(s, 'returned ' + var, it.out[var])
    check.section(nm)(sec)

for cname, kw in CASES:
    for arrays in (False, True):
        def sec2(s, kw=kw, arrays=arrays):
            s.npnums = True
            g = generated(s, **dict(kw, tracked=ALL, arrays=arrays))
            s.true('returns', g.r.guard())
            walked(s, g.after, BASE + ALL)
        check.section('seeding, %s%s' % (cname, ', cells given as arrays' if arrays else ''))(sec2)


@check.section('coordinates')
def coords(s):
    s.npnums = True
    I = s.interp([PT])
    st = I.new_state()
    w = walk(I, st, 'w', NW, ())
    f = s.func(I, PT, 'ind2coord')
    org = I.new_arr(st, (const(2),), lambda vs: app('origin', ('real',), vs[0]))
    r = s.run(I, st, f, [w, org, VTup([H, W]), sym('cell', 'pos')])
    out = dict_terms(I, r.st, r.val)
    for var in ('xcoord', 'ycoord'):
        plain(s, var, out[var])
