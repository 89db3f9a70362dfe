"""Hash-consed value-graph terms with light normalisation.

A term (class T) denotes the value of an expression of the analysed program.
Equal terms are the same Python object.  Arithmetic over numeric terms is kept
in polynomial normal form with exact rational coefficients; gates (the joins of
gated SSA) are `ite` nodes; arrays are index functions (`arr` nodes); sequences
are built from `lit`, `map`, `fmap`, `concat`, ... nodes.
"""
from fractions import Fraction
from functools import lru_cache
import itertools
import sys

sys.setrecursionlimit(20000)

_table = {}
_ids = itertools.count(1)
_uid = itertools.count(1)


class T(object):
    __slots__ = ('op', 'args', 'id', 'fv', 'prov', 'size')

    def __repr__(self):
        return show(self)


CUR_PROV = [None]          # (file, line, function) of the statement being analysed


def mk(op, *args):
    key = (op,) + tuple((type(a), a) if not isinstance(a, T) else a for a in args)
    t = _table.get(key)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        t.id = next(_ids)
        t.prov = CUR_PROV[0]
        fv = frozenset()
        size = 1
        stack = list(args)
        while stack:
            a = stack.pop()
            if isinstance(a, T):
                if a.fv:
                    fv = fv | a.fv
                size += a.size
            elif isinstance(a, tuple):
                stack.extend(a)
        if op in ('bv', 'phi'):
            fv = fv | frozenset([t])
        elif op == 'unknown':
            fv = fv | frozenset([t])
        elif op in BINDER:
            fv = fv - frozenset(BINDER[op](args))
        t.fv = fv
        t.size = min(size, 10 ** 9)
        _table[key] = t
    return t


# op -> function giving the bound variables of the node
BINDER = {
    'map': lambda a: (a[1],),           # n, v, elem
    'fmap': lambda a: (a[1],),          # n, v, cond, elem
    'flatmap': lambda a: (a[1],),       # n, v, seq
    'red': lambda a: (a[2],),           # kind, n, v, body
    'first': lambda a: (a[1],),         # n, v, cond
    'arr': lambda a: a[1],              # shape(tuple), vars(tuple), body, dtype
    'mu': lambda a: (a[2],) + a[3],     # i, n|cond-kind, k, phis, inits, upds, cond
}

# ---------------------------------------------------------------- constants


def const(v):
    if isinstance(v, T):
        return v
    if isinstance(v, bool):
        return mk('const', v)
    if isinstance(v, int):
        return mk('const', v)
    if isinstance(v, float):
        if v != v or v in (float('inf'), float('-inf')):
            return mk('const', repr_float(v))
        v = Fraction(repr(v))
    if isinstance(v, Fraction):
        if v.denominator == 1:
            return mk('const', int(v))
        return mk('const', v)
    return mk('const', v)


class NanC(object):
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return self.n

    def __hash__(self):
        return hash(self.n)

    def __eq__(self, o):
        return isinstance(o, NanC) and o.n == self.n


NAN = NanC('nan')
INF = NanC('inf')
NINF = NanC('-inf')


def repr_float(v):
    if v != v:
        return NAN
    return INF if v > 0 else NINF


def is_const(t):
    return isinstance(t, T) and t.op == 'const'


def cval(t):
    return t.args[0]


def is_num_const(t):
    return is_const(t) and isinstance(t.args[0], (int, Fraction)) and not isinstance(t.args[0], bool)


TRUE = const(True)
FALSE = const(False)
NONE = const(None)
ZERO = const(0)
ONE = const(1)
NANT = const(NAN)


def unknown(reason):
    return mk('unknown', str(reason), next(_uid))


def sym(name, *dom):
    return mk('sym', name, tuple(dom))


def app(name, dom, *args):
    """uninterpreted function symbol with a value domain"""
    return mk('app', name, tuple(dom), *args)


def bv(kind='nat', hint=''):
    return mk('bv', next(_uid), kind)


def phi(kind, hint=''):
    return mk('phi', next(_uid), kind, hint)


# ---------------------------------------------------------------- facts on terms

INT_OPS = {'bit', 'len', 'floordiv_i', 'int', 'floor', 'ceil', 'roundi', 'argred', 'first'}


def dom_is_int(dom):
    return bool(dom) and dom[0] in ('int', 'nat', 'intT', 'bool') or (
        bool(dom) and dom[0] == 'enum' and all(isinstance(x, int) for x in dom[1]))


_ISINT = {}


def is_int(t, _d=0):
    op = t.op
    if op in ('ite', 'poly', 'max', 'min', 'abs', 'floordiv', 'mod', 'red', 'sel'):
        r = _ISINT.get(t)
        if r is None:
            if _d > 60:
                return False
            r = _ISINT[t] = _is_int(t, op, _d)
        return r
    return _is_int(t, op, _d)


def _is_int(t, op, _d):
    if op == 'np':
        return is_int(t.args[0], _d + 1)
    if op == 'const':
        return isinstance(t.args[0], int)
    if op == 'sym':
        return dom_is_int(t.args[1])
    if op == 'app':
        return dom_is_int(t.args[1])
    if op == 'bv':
        return True
    if op == 'phi':
        return t.args[1] == 'int'
    if op in INT_OPS:
        return True
    if op == 'red':
        return t.args[0] in ('sum', 'max', 'min') and is_int(t.args[3], _d + 1)
    if op == 'poly':
        for mono, c in t.args[0]:
            if not isinstance(c, int):
                return False
            for a, e in mono:
                if e < 0 or not is_int(a, _d + 1):
                    return False
        return True
    if op == 'rand':
        return t.args[0] == 'randint'
    if op == 'ite':
        return is_int(t.args[1], _d + 1) and is_int(t.args[2], _d + 1)
    if op in ('max', 'min', 'abs'):
        return all(is_int(a, _d + 1) for a in t.args)
    if op in ('floordiv', 'mod'):
        return is_int(t.args[0], _d + 1) and is_int(t.args[1], _d + 1)
    if op == 'sel':
        s = t.args[0]
        if s.op == 'lit' or s.op == 'tup':
            return bool(s.args) and all(is_int(a, _d + 1) for a in s.args)
        return kindof(t) == 'int'
    if op == 'mu':
        return kindof(t) == 'int'
    if op == 'call':
        return t.args[0] in INT_CALLS
    if op in BOOL_OPS:
        return True
    return False


INT_CALLS = {'searchsorted', 'argmin', 'argmax', 'count', 'randint'}
BOOL_OPS = {'not', 'and', 'or', 'eq', 'lt', 'le', 'isnone', 'isnan', 'in', 'has', 'isinst', 'truth'}


def is_bool(t, _d=0):
    if _d > 40:
        return False
    if t.op in BOOL_OPS:
        return True
    if t.op == 'const':
        return isinstance(t.args[0], bool)
    if t.op == 'phi':
        return t.args[1] == 'bool'
    if t.op in ('sym',):
        return t.args[1][:1] == ('bool',)
    if t.op == 'app':
        return t.args[1][:1] == ('bool',)
    if t.op == 'ite':
        return is_bool(t.args[1], _d + 1) and is_bool(t.args[2], _d + 1)
    if t.op == 'red':
        return t.args[0] in ('any', 'all')
    return False


def nonneg(t, _d=0):
    if _d > 40:
        return False
    op = t.op
    if op == 'const':
        v = t.args[0]
        return isinstance(v, (int, Fraction)) and v >= 0
    if op in ('len', 'bv', 'first'):
        return True
    if op == 'sym' or op == 'app':
        return dom_nonneg(t.args[1])
    if op == 'poly':
        return all(c > 0 and all(nonneg(a, _d + 1) or e % 2 == 0 for a, e in mono)
                   for mono, c in t.args[0])
    if op == 'max':
        return any(nonneg(a, _d + 1) for a in t.args)
    if op == 'min':
        return all(nonneg(a, _d + 1) for a in t.args)
    if op == 'ite':
        return nonneg(t.args[1], _d + 1) and nonneg(t.args[2], _d + 1)
    if op in ('abs', 'sqrt'):
        return True
    if op == 'int' or op == 'floor' or op == 'ceil' or op == 'roundi':
        return nonneg(t.args[0], _d + 1)
    if op in ('floordiv', 'mod'):
        return nonneg(t.args[0], _d + 1) and nonneg(t.args[1], _d + 1)
    if op == 'sel':
        s = t.args[0]
        if s.op in ('lit', 'tup') and s.args:
            return all(nonneg(a, _d + 1) for a in s.args)
    if op == 'call':
        return t.args[0] in INT_CALLS
    if op == 'red':
        return t.args[0] in ('sum', 'nansum', 'max', 'min') and nonneg(t.args[3], _d + 1)
    if op == 'inv':
        return nonneg(t.args[0], _d + 1)
    return False


def dom_nonneg(dom):
    if not dom:
        return False
    if dom[0] in ('nat', 'bool', 'pos', 'nonneg', 'unit', 'share'):
        return True
    if dom[0] == 'int':
        return len(dom) > 1 and dom[1] is not None and dom[1] >= 0
    if dom[0] == 'intT':
        return nonneg(dom[1])
    if dom[0] == 'enum':
        return all(isinstance(x, (int, Fraction)) and x >= 0 for x in dom[1])
    return False


# ---------------------------------------------------------------- arithmetic

def _nonarith(t):
    """terms for which + and * are not numeric"""
    return t.op in ('lit', 'tup', 'map', 'fmap', 'flatmap', 'concat', 'slice', 'seqstore',
                    'repeat', 'dict', 'arr', 'symseq')


def poly_of(t):
    """dict mono -> coef ; mono is a sorted tuple of (atom, exp)"""
    if t.op == 'poly':
        return dict(t.args[0])
    if is_const(t):
        v = t.args[0]
        if isinstance(v, bool):
            v = int(v)
        if isinstance(v, (int, Fraction)):
            return {(): v} if v != 0 else {}
    return {((t, 1),): 1}


def from_poly(p):
    items = [(m, c) for m, c in p.items() if c != 0]
    if not items:
        return ZERO
    if len(items) == 1:
        m, c = items[0]
        if m == ():
            return const(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items = [(m, int(c) if isinstance(c, Fraction) and c.denominator == 1 else c) for m, c in items]
    items.sort(key=lambda mc: tuple((a.id, e) for a, e in mc[0]))
    return mk('poly', tuple(items))


def nan_like(t):
    return is_const(t) and isinstance(t.args[0], NanC)


def add(*ts):
    if any(nan_like(t) for t in ts):
        if any(is_const(t) and t.args[0] == NAN for t in ts):
            return NANT
    p = {}
    for t in ts:
        for m, c in poly_of(t).items():
            p[m] = p.get(m, 0) + c
    return from_poly(p)


def neg(t):
    return mul(const(-1), t)


def sub(a, b):
    return add(a, neg(b))


def _mulmono(m1, m2):
    d = {}
    for a, e in m1:
        d[a] = d.get(a, 0) + e
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(((a, e) for a, e in d.items() if e != 0), key=lambda x: x[0].id))


def mul(a, b):
    if (is_const(a) and a.args[0] == NAN) or (is_const(b) and b.args[0] == NAN):
        return NANT
    # keep gates out of big products: they stay atoms
    pa, pb = poly_of(a), poly_of(b)
    if len(pa) * len(pb) > 64:
        # treat the larger one as an atom
        if len(pa) >= len(pb):
            pa = {((mk('atom', a), 1),): 1}
        else:
            pb = {((mk('atom', b), 1),): 1}
    p = {}
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            m = _mulmono(m1, m2)
            p[m] = p.get(m, 0) + c1 * c2
    return from_poly(p)


def inv(t):
    if is_num_const(t) and t.args[0] != 0:
        return const(Fraction(1) / t.args[0])
    if t.op == 'inv':
        return t.args[0]
    p = poly_of(t)
    if len(p) == 1:
        (m, c), = p.items()
        if m and c != 0:
            r = const(Fraction(1) / c)
            for a, e in m:
                x = a.args[0] if a.op == 'inv' else mk('inv', a)
                for _ in range(abs(e)):
                    r = mul(r, x)
            return r
    return mk('inv', t)


def div(a, b):
    return mul(a, inv(b))


def power(a, b):
    if is_num_const(b):
        e = b.args[0]
        if isinstance(e, int) and 0 <= e <= 4:
            r = ONE
            for _ in range(e):
                r = mul(r, a)
            return r
        if isinstance(e, int) and 0 <= e <= 64 and is_num_const(a) and isinstance(a.args[0], int):
            return const(a.args[0] ** e)
        if e == Fraction(1, 2):
            return sqrt(a)
        if isinstance(e, int) and -4 <= e < 0:
            return inv(power(a, const(-e)))
    return mk('pow', a, b)


def atan2(y, x):
    """angle of a vector, exact for the eight directions"""
    if is_num_const(y) and is_num_const(x):
        a, b = y.args[0], x.args[0]
        turn = None
        if a == 0:
            turn = Fraction(0 if b >= 0 else 1)
        elif b == 0:
            turn = Fraction(1, 2)
        elif abs(a) == abs(b):
            turn = Fraction(1, 4) if b > 0 else Fraction(3, 4)
        if turn is not None:
            return mul(const(turn if a >= 0 else -turn), sym('pi', 'pos'))
    return mk('atan2', y, x)


def sqrt(a):
    if is_num_const(a) and a.args[0] >= 0:
        v = Fraction(a.args[0])
        import math
        n, d = math.isqrt(v.numerator), math.isqrt(v.denominator)
        if n * n == v.numerator and d * d == v.denominator:
            return const(Fraction(n, d))
    return mk('sqrt', a)


BITS = {'and': lambda x, y: x & y, 'or': lambda x, y: x | y, 'xor': lambda x, y: x ^ y,
        'lshift': lambda x, y: x << y, 'rshift': lambda x, y: x >> y}


def bit(name, a, b):
    """bitwise operation on whole numbers"""
    if is_num_const(a) and is_num_const(b) and all(isinstance(x.args[0], int) for x in (a, b)) and 0 <= b.args[0] < 64:
        return const(BITS[name](a.args[0], b.args[0]))
    if name in ('and', 'or') and a is b:
        return a
    if name in ('or', 'xor', 'lshift', 'rshift') and b is ZERO:
        return a
    return mk('bit', name, a, b)


def floordiv(a, b):
    if is_num_const(a) and is_num_const(b) and b.args[0] != 0:
        return const(a.args[0] // b.args[0])
    if is_num_const(b) and b.args[0] == 1 and is_int(a):
        return a
    return mk('floordiv', a, b)


def mod(a, b):
    if is_num_const(a) and is_num_const(b) and b.args[0] != 0:
        return const(a.args[0] % b.args[0])
    if is_const(a) and isinstance(a.args[0], str):
        return mk('strfmt', a, b)
    return mk('mod', a, b)


def bound(t, sgn=1, _d=0):
    """a number that t (sgn 1) or -t (sgn -1) does not exceed, or None"""
    if _d > 30:
        return None
    op, go = t.op, lambda x: bound(x, sgn, _d + 1)
    if op == 'const':
        return sgn * t.args[0] if isinstance(t.args[0], (int, Fraction)) else None
    if is_bool(t):
        return 1 if sgn > 0 else 0
    if op in ('sym', 'app'):
        d = t.args[1]
        if d and d[0] == 'enum' and all(isinstance(x, (int, Fraction)) for x in d[1]):
            return max(sgn * x for x in d[1])
        if d and d[0] == 'int' and len(d) > 2 and d[1] is not None and d[2] is not None:
            return d[2] if sgn > 0 else -d[1]
    if op == 'ite':
        r = [go(x) for x in t.args[1:]]
        return None if None in r else max(r)
    if op == 'poly' and len(t.args[0]) < 12:
        s = 0
        for mono, c in t.args[0]:
            if mono == ():
                s += sgn * c
                continue
            if len(mono) != 1 or mono[0][1] != 1:
                return None
            b = bound(mono[0][0], sgn if c > 0 else -sgn, _d + 1)
            if b is None:
                return None
            s += abs(c) * b
        return s
    if op in ('min', 'max'):
        r = [go(x) for x in t.args]
        if (op == 'min') == (sgn > 0):
            r = [x for x in r if x is not None]
            return min(r) if r else None
        return None if None in r else max(r)
    if op == 'mod' and sgn > 0:
        b = bound(t.args[1], 1, _d + 1)
        return b
    if op == 'call' and t.args[0] == 'searchsorted' and sgn > 0:
        return go(length(t.args[1]))
    if sgn < 0 and (nonneg(t) or op in ('argred', 'call') and is_int(t)):
        return 0
    if op == 'first':
        return go(t.args[0])
    if op == 'argred':
        return go(t.args[2])
    if op in ('int', 'floor', 'roundi', 'ceil'):
        b = go(t.args[0])
        return None if b is None else b + 1
    return None


INEXACT = {'f4': 'single', 'f2': 'half'}
WHOLE = {'i1': (-128, 256), 'i2': (-32768, 65536), 'u1': (0, 256), 'u2': (0, 65536)}


def narrow(t, width):
    """the number t stored with the given width"""
    if width in INEXACT:
        if t.op == 'ite':
            return ite(t.args[0], narrow(t.args[1], width), narrow(t.args[2], width))
        if is_num_const(t) and Fraction(t.args[0]) * 1024 == int(Fraction(t.args[0]) * 1024) and abs(t.args[0]) < 1024:
            return t
        return t if is_int(t) or is_bool(t) or t.op == 'rounded' else mk('rounded', t, INEXACT[width])
    lo, n = WHOLE[width]
    if t.op == 'ite':
        return ite(t.args[0], narrow(t.args[1], width), narrow(t.args[2], width))
    # directions, searched positions and the like are far from the ends
    if not any(x.op in ('sym', 'app', 'len', 'sel', 'asel', 'phi', 'mu') for x in subterms(t)):
        return t
    a, b = bound(t), bound(t, -1)
    if a is not None and b is not None and a < lo + n and -b >= lo:
        return t
    if lo == 0 and nonneg(t):
        return ite(lt(t, const(n)), t, mod(t, const(n)))
    return ite(and_(not_(lt(t, const(lo))), lt(t, const(lo + n))), t, add(mod(sub(t, const(lo)), const(n)), const(lo)))


def fn1(op, a):
    if is_num_const(a):
        v = a.args[0]
        if op == 'abs':
            return const(abs(v))
        if op == 'floor':
            import math
            return const(math.floor(v))
        if op == 'ceil':
            import math
            return const(math.ceil(v))
        if op == 'int':
            return const(int(v))
        if op == 'roundi':
            return const(round(v))
    if op in ('int', 'floor', 'ceil', 'roundi') and is_int(a):
        if is_bool(a):
            return ite(a, ONE, ZERO)
        return a
    if op == 'abs':
        if a.op == 'abs':
            return a
        if nonneg(a):
            return a
        p = poly_of(a)
        # |p| == |-p| : make the first coefficient positive
        items = sorted(p.items(), key=lambda mc: tuple((x.id, e) for x, e in mc[0]))
        if items and items[0][1] < 0:
            a = neg(a)
    if op == 'cos':
        p = poly_of(a)
        items = sorted(p.items(), key=lambda mc: tuple((x.id, e) for x, e in mc[0]))
        if items and items[0][1] < 0:
            a = neg(a)
    return mk(op, a)


def maxmin(op, ts):
    out = []
    for t in ts:
        if t.op == op:
            out.extend(t.args)
        else:
            out.append(t)
    nums = [t.args[0] for t in out if is_num_const(t)]
    rest = []
    for t in out:
        if not is_num_const(t) and t not in rest:
            rest.append(t)
    if nums:
        v = max(nums) if op == 'max' else min(nums)
        if op == 'max' and v <= 0 and rest and any(nonneg(t) for t in rest):
            pass
        else:
            rest.append(const(v))
    if len(rest) > 1:
        kept = []
        for i, t in enumerate(rest):
            dominated = False
            for j, u in enumerate(rest):
                if i == j:
                    continue
                d = sub(u, t) if op == 'max' else sub(t, u)
                if nonneg(d) and not (d is ZERO and i < j):
                    dominated = True
                    break
            if not dominated:
                kept.append(t)
        rest = kept
    if len(rest) == 1:
        return rest[0]
    rest.sort(key=lambda t: t.id)
    return mk(op, *rest)


# ---------------------------------------------------------------- booleans

def truth(t):
    """the truth value of t as a boolean term"""
    if is_bool(t):
        return t
    if is_const(t):
        v = t.args[0]
        if isinstance(v, NanC):
            return TRUE
        return const(bool(v))
    if t.op in ('lit', 'tup'):
        return const(len(t.args) > 0)
    if t.op in ('map', 'fmap', 'concat', 'seqstore', 'slice', 'repeat', 'flatmap', 'symseq'):
        return lt(ZERO, length(t))
    if t.op == 'ite':
        return ite(t.args[0], truth(t.args[1]), truth(t.args[2]))
    if is_int(t) or t.op == 'poly':
        return not_(eq(t, ZERO))
    if is_object(t):
        return TRUE
    return mk('truth', t)


def not_(t):
    if is_const(t):
        return const(not t.args[0])
    if t.op == 'not':
        return t.args[0]
    if t.op == 'and':
        return or_(*[not_(x) for x in t.args])
    if t.op == 'or':
        return and_(*[not_(x) for x in t.args])
    return mk('not', t)


def _nary(op, absorbing, unit, ts):
    out = []
    seen = set()
    for t in ts:
        xs = t.args if t.op == op else (t,)
        for x in xs:
            if x is absorbing:
                return absorbing
            if x is unit or x in seen:
                continue
            seen.add(x)
            out.append(x)
    for x in out:
        if not_(x) in seen:
            return absorbing
    # absorption / unit resolution with the dual operator
    dual = 'or' if op == 'and' else 'and'
    changed = True
    while changed:
        changed = False
        for i, x in enumerate(out):
            if x.op == dual:
                if any(y in seen for y in x.args):
                    out.pop(i)
                    seen.discard(x)
                    changed = True
                    break
                keep = [y for y in x.args if not_(y) not in seen]
                if len(keep) < len(x.args):
                    out.pop(i)
                    seen.discard(x)
                    r = or_(*keep) if dual == 'or' else and_(*keep)
                    return _nary(op, absorbing, unit, out + [r])
    if not out:
        return unit
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda t: t.id)
    return mk(op, *out)


def and_(*ts):
    return _nary('and', FALSE, TRUE, ts)


def or_(*ts):
    return _nary('or', TRUE, FALSE, ts)


def maynan(t, d=0):
    """a number that the inputs allow to be undefined"""
    if t.op in ('sym', 'app'):
        return t.args[1][:1] in (('nanreal',), ('nanpos',))
    return t.op == 'ite' and d < 8 and (maynan(t.args[1], d + 1) or maynan(t.args[2], d + 1))


def eq(a, b):
    if a is b:
        return not_(isnan(a)) if maynan(a) or is_const(a) else TRUE
    if is_const(a) and is_const(b):
        va, vb = a.args[0], b.args[0]
        if isinstance(va, NanC) or isinstance(vb, NanC):
            return const(va == vb and va != NAN)
        return const(va == vb)
    if a.op == 'ite' and (is_const(b) or is_const(a.args[1]) or is_const(a.args[2])):
        return ite(a.args[0], eq(a.args[1], b), eq(a.args[2], b))
    if b.op == 'ite' and (is_const(a) or is_const(b.args[1]) or is_const(b.args[2])):
        return ite(b.args[0], eq(a, b.args[1]), eq(a, b.args[2]))
    for x, y in ((a, b), (b, a)):
        if x.op in ('lit', 'tup'):
            if y.op in ('lit', 'tup'):
                if x.op != y.op:
                    return FALSE
                if len(x.args) != len(y.args):
                    return FALSE
                return and_(*[eq(p, q) for p, q in zip(x.args, y.args)])
            if y.op == 'const':
                return FALSE
    if is_bool(a) and is_const(b) and isinstance(b.args[0], bool):
        return a if b.args[0] else not_(a)
    if is_bool(b) and is_const(a) and isinstance(a.args[0], bool):
        return b if a.args[0] else not_(b)
    if is_bool(a) and is_bool(b):
        return ite(a, b, not_(b))
    if not _nonarith(a) and not _nonarith(b) and (numeric(a) and numeric(b)):
        d = sub(a, b)
        if is_num_const(d):
            return const(d.args[0] == 0)
        p = poly_of(d)
        items = sorted(p.items(), key=lambda mc: tuple((x.id, e) for x, e in mc[0]))
        lead = items[0][1] if items[0][0] != () or len(items) == 1 else items[1][1]
        d = mul(d, const(Fraction(1) / lead))
        if len(poly_of(d)) == 1 and d.op != 'poly':
            return mk('eq', d, ZERO)
        # present as (non-constant part) == constant
        p = poly_of(d)
        c = p.pop((), 0)
        return mk('eq', from_poly(p), const(-c))
    if a.id > b.id:
        a, b = b, a
    return mk('eq', a, b)


def npnum(t):
    """a number read from an array: not a plain Python number, whatever it is used for"""
    t = plain(t)
    return mk('np', t) if not isseqkind(kindof(t)) and t.op not in ('arr', 'opaque', 'unk') else t


def plain(t):
    """the number itself"""
    memo = {}

    def go(x):
        if x.op == 'np':
            return go(x.args[0])
        if x.op in ('bv', 'phi', 'unknown', 'const', 'sym'):
            return x
        if x not in memo:
            a = tuple(_map_args(q, go) for q in x.args)
            memo[x] = x if a == x.args else rebuild(x.op, a)
        return memo[x]
    return go(t) if any(x.op == 'np' for x in subterms(t)) else t


def numeric(t):
    if t.op == 'np':
        return numeric(t.args[0])
    if t.op == 'const':
        return isinstance(t.args[0], (int, Fraction)) and not isinstance(t.args[0], bool)
    if t.op in ('sym', 'app'):
        d = t.args[1]
        return bool(d) and d[0] in ('real', 'int', 'nat', 'intT', 'pos', 'nonneg', 'unit', 'share', 'bool') or (
            bool(d) and d[0] == 'enum' and all(isinstance(x, (int, Fraction)) for x in d[1]))
    return t.op in ('poly', 'len', 'bv', 'sqrt', 'abs', 'cos', 'floor', 'ceil', 'int', 'roundi',
                    'inv', 'pow', 'max', 'min', 'floordiv', 'mod', 'bit', 'red', 'rand', 'atom', 'asel',
                    'first', 'atan2', 'sin') or (t.op == 'phi' and t.args[1] in ('int', 'real')) or (
        t.op in ('sel', 'mu') and kindof(t) in ('int', 'real')) or (
        t.op == 'ite' and numeric(t.args[1]) and numeric(t.args[2])) or (
        t.op == 'call' and t.args[0] in INT_CALLS)


def lt(a, b):
    if a is b:
        return FALSE
    if is_num_const(a) and is_num_const(b):
        return const(a.args[0] < b.args[0])
    if is_num_const(a) and a.args[0] < 0 and nonneg(b):
        return TRUE
    if is_num_const(b) and b.args[0] <= 0 and nonneg(a):
        return FALSE
    if is_num_const(a) and a.args[0] <= 0 and positive(b):
        return TRUE
    if is_int(a) and is_int(b):
        d = sub(b, a)        # a < b  <=>  b - a >= 1  <=> b-a-1 >= 0
        if is_num_const(d):
            return const(d.args[0] > 0)
        if nonneg(sub(d, ONE)):
            return TRUE
        if nonneg(sub(a, b)):
            return FALSE
        return mk('lt', *_split(d))
    if numeric(a) and numeric(b):
        d = sub(b, a)
        if is_num_const(d):
            return const(d.args[0] > 0)
        lo, hi = _split(d)
        if lo is ZERO and positive(hi):
            return TRUE
        if hi is ZERO and positive(lo):
            return FALSE
        return mk('lt', lo, hi)
    return mk('lt', a, b)


def positive(t):
    """certainly above zero: a positive multiple of powers of positive leaves"""
    if t.op in ('sym', 'app'):
        return t.args[1][:1] == ('pos',)
    if t.op != 'poly':
        return False
    p = poly_of(t)
    return len(p) == 1 and all(c > 0 and all(positive(x[0] if isinstance(x, tuple) else x) for x in m) for m, c in p.items())


def _split(d):
    """d > 0 presented as lhs < rhs with positive coefficients"""
    p = poly_of(d)
    pos = {m: c for m, c in p.items() if c > 0}
    ng = {m: -c for m, c in p.items() if c < 0}
    return from_poly(ng), from_poly(pos)


def le(a, b):
    if a is b:
        return TRUE
    if is_num_const(a) and is_num_const(b):
        return const(a.args[0] <= b.args[0])
    if is_int(a) and is_int(b):
        return not_(lt(b, a))
    if is_num_const(a) and a.args[0] <= 0 and nonneg(b):
        return TRUE
    if numeric(a) and numeric(b):
        d = sub(b, a)
        if is_num_const(d):
            return const(d.args[0] >= 0)
        return mk('le', *_split(d))
    return mk('le', a, b)


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == 'not':
        return ite(c.args[0], b, a)
    if c.op == 'ite' and is_const(c.args[1]) and is_const(c.args[2]):
        c2 = c.args[0] if c.args[1] is TRUE else not_(c.args[0])
        return ite(c2, a, b)
    if a.op == 'ite' and a.args[0] is c:
        a = a.args[1]
    if b.op == 'ite' and b.args[0] is c:
        b = b.args[2]
    if a is c:
        a = TRUE
    if b is c:
        b = FALSE
    if a is b:
        return a
    if is_bool(a) and is_bool(b):
        if a is TRUE:
            return or_(c, b)
        if a is FALSE:
            return and_(not_(c), b)
        if b is TRUE:
            return or_(not_(c), a)
        if b is FALSE:
            return and_(c, a)
    return mk('ite', c, a, b)


def in_(x, seq):
    """membership"""
    if seq.op in ('lit', 'tup'):
        return or_(*[eq(x, y) for y in seq.args])
    if seq.op == 'const' and isinstance(seq.args[0], str) and is_const(x) and isinstance(x.args[0], str):
        return const(x.args[0] in seq.args[0])
    if seq.op == 'map':
        n, v, e = seq.args
        return red('any', n, v, eq(e, x))
    if seq.op == 'fmap':
        n, v, c, e = seq.args
        return red('any', n, v, and_(c, eq(e, x)))
    if seq.op == 'concat':
        return or_(*[in_(x, p) for p in seq.args])
    if seq.op == 'arr':
        shape, vs, body, dt = seq.args
        r = eq(body, x)
        for n, v in reversed(list(zip(shape, vs))):
            r = red('any', n, v, r)
        return r
    if seq.op == 'ite':
        return ite(seq.args[0], in_(x, seq.args[1]), in_(x, seq.args[2]))
    return mk('in', x, seq)


# ---------------------------------------------------------------- sequences

SEQ_OPS = {'lit', 'map', 'fmap', 'flatmap', 'concat', 'slice', 'seqstore', 'repeat', 'symseq'}


def is_seq(t):
    if t.op in SEQ_OPS or t.op == 'tup':
        return True
    if t.op == 'ite':
        return is_seq(t.args[1]) or is_seq(t.args[2])
    return isseqkind(kindof(t))


def isseqkind(k):
    return isinstance(k, tuple) and bool(k) and k[0] == 'seq'


def joink(a, b):
    if a == b:
        return a
    if a is None:
        return b
    if b is None:
        return a
    if isseqkind(a) and isseqkind(b):
        return ('seq', joink(a[1], b[1]))
    if isseqkind(a) or isseqkind(b):
        return a if isseqkind(a) else b
    if {a, b} <= {'int', 'real'}:
        return 'real'
    return 'any'


def _scalar(t):
    return (t.op == 'const' and t.args[0] is not None and not isinstance(t.args[0], str)) or kindof(t) in ('int', 'real', 'bool')


@lru_cache(maxsize=None)
def mixed(t):
    """a choice between a sequence and a number"""
    if t.op != 'ite':
        return False
    a, b = t.args[1], t.args[2]
    if mixed(a) or mixed(b):
        return True
    sa, sb = isseqkind(kindof(a)), isseqkind(kindof(b))
    return (sa and _scalar(b)) or (sb and _scalar(a))


@lru_cache(maxsize=None)
def mixed_elems(t):
    if t.op == 'map':
        return mixed(t.args[2])
    if t.op == 'fmap':
        return mixed(t.args[3])
    if t.op == 'flatmap':
        return mixed_elems(t.args[2])
    if t.op == 'concat':
        return any(mixed_elems(a) for a in t.args)
    if t.op == 'lit':
        ks = [isseqkind(kindof(a)) for a in t.args]
        return any(ks) and any(_scalar(a) for a in t.args)
    if t.op == 'ite':
        return mixed_elems(t.args[1]) or mixed_elems(t.args[2])
    return False


@lru_cache(maxsize=None)
def kindof(t, _d=0):
    """'int' | 'real' | 'bool' | 'any' | 'arr' | ('seq', kind)"""
    op = t.op
    if _d > 60:
        return 'any'
    d = _d + 1
    if op == 'phi':
        return t.args[1]
    if op == 'np':
        return kindof(t.args[0], d)
    if op in ('lit', 'tup'):
        k = None
        for a in t.args:
            k2 = kindof(a, d)
            if op == 'tup' and k is not None and a is not NONE and isseqkind(k) != isseqkind(k2):
                k2 = k = 'any'
            k = joink(k, k2)
        return ('seq', k)
    if op == 'map':
        return ('seq', kindof(t.args[2], d))
    if op == 'fmap':
        return ('seq', kindof(t.args[3], d))
    if op == 'flatmap':
        return kindof(t.args[2], d)
    if op == 'concat':
        k = ('seq', None)
        for a in t.args:
            k = joink(k, kindof(a, d))
        return k
    if op == 'seqstore':
        k = kindof(t.args[0], d)
        return ('seq', joink(k[1] if isseqkind(k) else None, kindof(t.args[2], d)))
    if op in ('slice', 'repeat', 'pyslice'):
        k = kindof(t.args[0], d)
        return k if isseqkind(k) else ('seq', None)
    if op == 'ite':
        return joink(kindof(t.args[1], d), kindof(t.args[2], d))
    if op in ('sym', 'app'):
        dm = t.args[1]
        if dm[:1] == ('seq',):
            return dm
        if dom_is_int(dm):
            return 'bool' if dm[0] == 'bool' else 'int'
        if dm and dm[0] in ('real', 'pos', 'nonneg', 'unit', 'share', 'generic', 'nanreal', 'nanpos'):
            return 'real'
        return 'any'
    if op == 'sel':
        k = kindof(t.args[0], d)
        if isseqkind(k):
            return k[1]
        return 'any'
    if op == 'mu':
        return t.args[3][t.args[0]].args[1]
    if op == 'arr':
        return 'arr'
    if op == 'call':
        if t.args[0] in SEQ_CALLS:
            k = kindof(t.args[1], d) if isinstance(t.args[1], T) else None
            return k if isseqkind(k) else ('seq', None)
        return 'int' if t.args[0] in INT_CALLS else 'any'
    if op == 'dict':
        return 'dict'
    if is_bool(t):
        return 'bool'
    if is_int(t):
        return 'int'
    if numeric(t):
        return 'real'
    return 'any'


SEQ_CALLS = {'sorted', 'argsort', 'reversed', 'unique', 'compress', 'flatten', 'list'}


def symseq(name, n, elem_fn, ctx=()):
    """symbolic sequence of length n; elem_fn(index term)->term"""
    v = bv()
    return mk('map', n, v, elem_fn(v))


def lit(*xs):
    return mk('lit', *xs)


def length(s):
    op = s.op
    if op in ('lit', 'tup'):
        return const(len(s.args))
    if op == 'map':
        return s.args[0]
    if op == 'fmap':
        n, v, c, e = s.args
        return red('sum', n, v, ite(c, ONE, ZERO))
    if op == 'flatmap':
        n, v, e = s.args
        return red('sum', n, v, length(e))
    if op == 'concat':
        return add(*[length(p) for p in s.args])
    if op == 'seqstore':
        return length(s.args[0])
    if op == 'repeat':
        return mul(length(s.args[0]), maxmin('max', [ZERO, s.args[1]]) if not nonneg(s.args[1]) else s.args[1])
    if op == 'slice':
        lo, hi, st = s.args[1:4]
        d = sub(hi, lo)
        if st is ONE:
            if nonneg(d):
                return d
            return maxmin('max', [ZERO, d])
        if is_num_const(st) and st.args[0] > 0:
            return maxmin('max', [ZERO, floordiv(add(d, sub(st, ONE)), st)])
        return mk('len', s)
    if op == 'ite':
        return ite(s.args[0], length(s.args[1]), length(s.args[2]))
    if op == 'arr':
        return s.args[0][0]
    if op == 'const' and isinstance(s.args[0], str):
        return const(len(s.args[0]))
    return mk('len', s)


def concat(*ps):
    out = []
    for p in ps:
        if p.op == 'concat':
            out.extend(p.args)
        elif p.op == 'lit' and not p.args:
            continue
        elif p.op == 'map' and p.args[0] is ZERO:
            continue
        else:
            out.append(p)
    merged = []
    for p in out:
        if merged and p.op == 'lit' and merged[-1].op == 'lit':
            merged[-1] = mk('lit', *(merged[-1].args + p.args))
        else:
            merged.append(p)
    if not merged:
        return mk('lit')
    if len(merged) == 1:
        return merged[0]
    return mk('concat', *merged)


def mapseq(n, v, e):
    if is_num_const(n) and n.args[0] <= 24:
        return mk('lit', *[subst(e, {v: const(i)}) for i in range(max(0, n.args[0]))])
    return mk('map', n, v, e)


def fmapseq(n, v, c, e):
    if c is TRUE:
        return mapseq(n, v, e)
    if c is FALSE:
        return mk('lit')
    return mk('fmap', n, v, c, e)


def index_norm(i, n):
    """Python index semantics: negative counts from the end"""
    if is_num_const(i):
        if i.args[0] < 0:
            return add(n, i)
        return i
    if nonneg(i):
        return i
    # n - c forms
    d = sub(i, n)
    if is_num_const(d) and d.args[0] < 0:
        return i          # len - c, assumed in range
    return ite(lt(i, ZERO), add(i, n), i)


def sel(s, i):
    """element i (0 <= i < len assumed, already normalised)"""
    op = s.op
    if op == 'dict' and is_const(i):
        if i.args[0] in s.args[0]:
            return s.args[2][s.args[0].index(i.args[0])]
        return unknown('key %s' % (i.args[0],))
    if op in ('lit', 'tup'):
        if is_num_const(i):
            k = i.args[0]
            if isinstance(k, int) and 0 <= k < len(s.args):
                return s.args[k]
            return unknown('index %s out of range of literal' % k)
        if len(s.args) == 1:
            return s.args[0]
        if i.op == 'ite':
            return ite(i.args[0], sel(s, i.args[1]), sel(s, i.args[2]))
        if len(s.args) <= 12 and s.args and any(
                x.op in SEQ_OPS or x.op == 'tup' for x in s.args):
            r = s.args[-1]
            for k in range(len(s.args) - 2, -1, -1):
                r = ite(eq(i, const(k)), s.args[k], r)
            return r
        return mk('sel', s, i)
    if op == 'map':
        return subst(s.args[2], {s.args[1]: i})
    if op == 'ite':
        return ite(s.args[0], sel(s.args[1], i), sel(s.args[2], i))
    if op == 'seqstore':
        return ite(eq(i, s.args[1]), s.args[2], sel(s.args[0], i))
    if op == 'concat':
        first, rest = s.args[0], concat(*s.args[1:])
        n = length(s)
        last = s.args[-1]
        if last.op == 'lit':
            d = sub(n, i)
            if is_num_const(d) and 0 < d.args[0] <= len(last.args):
                return last.args[len(last.args) - d.args[0]]
        n1 = length(first)
        if first.op == 'lit' and is_num_const(i):
            if i.args[0] < len(first.args):
                return first.args[i.args[0]]
            return sel(rest, sub(i, n1))
        c = lt(i, n1)
        if c is TRUE:
            return sel(first, i)
        if c is FALSE:
            return sel(rest, sub(i, n1))
        return ite(c, sel(first, i), sel(rest, sub(i, n1)))
    if op == 'slice':
        return sel(s.args[0], add(s.args[1], mul(i, s.args[3])))
    if op == 'repeat':
        n = length(s.args[0])
        if n is ONE:
            return sel(s.args[0], ZERO)
        return sel(s.args[0], mod(i, n))
    if op == 'arr':
        shape, vs, body, dt = s.args
        if len(shape) == 1:
            return subst(body, {vs[0]: i})
        b2 = subst(body, {vs[0]: i})
        return mk('arr', shape[1:], vs[1:], b2, dt)
    return mk('sel', s, i)


def seqstore(s, i, v):
    if s.op == 'lit' and is_num_const(i) and 0 <= i.args[0] < len(s.args):
        a = list(s.args)
        a[i.args[0]] = v
        return mk('lit', *a)
    if s.op == 'seqstore' and s.args[1] is i:
        return seqstore(s.args[0], i, v)
    return mk('seqstore', s, i, v)


def slice_(s, lo, hi, step):
    """lo, hi already normalised to [0, len]"""
    if s.op in ('lit', 'tup') and is_num_const(lo) and is_num_const(hi) and is_num_const(step):
        return mk(s.op, *s.args[lo.args[0]:hi.args[0]:step.args[0]])
    if lo is ZERO and step is ONE and hi is length(s):
        return s
    if s.op == 'ite':
        return ite(s.args[0], slice_(s.args[1], lo, hi, step), slice_(s.args[2], lo, hi, step))
    return mk('slice', s, lo, hi, step)


def bound_norm(b, n):
    """normalise a slice bound (step > 0)"""
    if is_num_const(b):
        c = b.args[0]
        if c >= 0:
            if is_num_const(n):
                return const(min(c, n.args[0]))
            return b if c == 0 else maxmin('min', [b, n])
        if is_num_const(n):
            return const(max(0, n.args[0] + c))
        return maxmin('max', [ZERO, add(n, b)])
    if b is n:
        return n
    if nonneg(b):
        if nonneg(sub(n, b)):
            return b
        return maxmin('min', [b, n])
    d = sub(n, b)
    if is_num_const(d) and d.args[0] >= 0:
        return maxmin('max', [ZERO, b])
    return ite(lt(b, ZERO), maxmin('max', [ZERO, add(b, n)]), maxmin('min', [b, n]))


# ---------------------------------------------------------------- reductions

def red(kind, n, v, body):
    if is_num_const(n) and n.args[0] <= 0:
        return {'sum': ZERO, 'nansum': ZERO, 'any': FALSE, 'all': TRUE}.get(kind) or mk('red', kind, n, v, body)
    if kind in ('any', 'all', 'sum') and is_num_const(n) and n.args[0] <= 3:
        parts = [subst(body, {v: const(i)}) for i in range(n.args[0])]
        if kind == 'any':
            return or_(*parts)
        if kind == 'all':
            return and_(*parts)
        return add(*parts)
    if kind in ('any', 'all') and is_const(body):
        if kind == 'any':
            return FALSE if body is FALSE else lt(ZERO, n)
        return TRUE if body is TRUE else not_(lt(ZERO, n))
    if kind == 'sum':
        if v not in body.fv:
            return mul(n, body)
    if kind == 'all':
        return not_(red('any', n, v, not_(body)))
    return mk('red', kind, n, v, body)


def first(n, v, c):
    if c is FALSE:
        return n
    if c is TRUE:
        return ZERO if is_num_const(n) and n.args[0] > 0 else maxmin('min', [ZERO, n])
    return mk('first', n, v, c)


# ---------------------------------------------------------------- rebuilding

def rebuild(op, args):
    if op == 'poly':
        out = ZERO
        parts = []
        for mono, c in args[0]:
            m = const(c)
            for a, e in mono:
                if e >= 0:
                    for _ in range(e):
                        m = mul(m, a)
                else:
                    for _ in range(-e):
                        m = mul(m, inv(a))
            parts.append(m)
        return add(*parts) if parts else out
    f = {
        'not': not_, 'and': and_, 'or': or_, 'eq': eq, 'lt': lt, 'le': le, 'ite': ite, 'inv': inv,
        'pow': power, 'sqrt': sqrt, 'atan2': atan2, 'floordiv': floordiv, 'mod': mod, 'bit': bit, 'len': length, 'sel': sel,
        'concat': concat, 'slice': slice_, 'seqstore': seqstore, 'in': in_, 'truth': truth,
        'map': mapseq, 'fmap': fmapseq, 'first': first, 'red': red, 'asel': lambda a, *i: asel(a, i),
        'isnan': isnan, 'isnone': isnone,
    }.get(op)
    if f is not None:
        return f(*args)
    if op in ('max', 'min'):
        return maxmin(op, list(args))
    if op in ('abs', 'floor', 'ceil', 'int', 'roundi', 'cos', 'sin'):
        return fn1(op, args[0])
    return mk(op, *args)


def _map_args(a, f):
    if isinstance(a, T):
        return f(a)
    if isinstance(a, tuple):
        return tuple(_map_args(x, f) for x in a)
    return a


def subst(t, m):
    if not m:
        return t
    keys = frozenset(m)
    memo = {}
    rng = frozenset().union(*[r.fv for r in m.values()])

    def go(x):
        if not (x.fv & keys) and x not in keys:
            return x
        r = m.get(x)
        if r is not None:
            return r
        r = memo.get(x)
        if r is not None:
            return r
        if x.op in ('bv', 'phi', 'unknown'):
            return x
        args = x.args
        bd = BINDER.get(x.op)
        if bd is not None:
            bs = bd(args)
            if any(b in keys or b in rng for b in bs):
                ren = {b: (bv(b.args[1]) if b.op == 'bv' else phi(*b.args[1:])) for b in bs}
                args = tuple(_map_args(a, lambda y: subst(y, ren)) for a in args)
        r = rebuild(x.op, tuple(_map_args(a, go) for a in args))
        memo[x] = r
        return r
    return go(t)


def subst_term(t, m):
    """replace arbitrary subterms (not only variables)"""
    memo = {}

    def go(x):
        if x in m:
            return m[x]
        if x in memo:
            return memo[x]
        if x.op in ('bv', 'phi', 'unknown', 'const', 'sym'):
            return x
        a2 = tuple(_map_args(a, go) for a in x.args)
        r = x if a2 == x.args else rebuild(x.op, a2)
        memo[x] = r
        return r
    return go(t)


def subterms(t):
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        st = list(x.args)
        while st:
            a = st.pop()
            if isinstance(a, T):
                stack.append(a)
            elif isinstance(a, tuple):
                st.extend(a)


# ---------------------------------------------------------------- arrays

def asel(a, idx):
    idx = tuple(idx)
    if a.op == 'arr':
        shape, vs, body, dt = a.args
        if len(idx) == len(vs):
            return subst(body, dict(zip(vs, idx)))
    if a.op == 'ite':
        return ite(a.args[0], asel(a.args[1], idx), asel(a.args[2], idx))
    return mk('asel', a, *idx)


SAFE_DOMS = {'real', 'pos', 'nonneg', 'unit', 'share', 'generic', 'int', 'nat', 'intT', 'bool', 'enum', 'str', 'float', 'angle'}


def nan_free(t, _d=0):
    if _d > 30:
        return False
    if is_int(t) or is_bool(t):
        return True
    op = t.op
    if op == 'const':
        return t.args[0] != NAN
    if op in ('sym', 'app'):
        return bool(t.args[1]) and t.args[1][0] in SAFE_DOMS
    if op == 'poly':
        return all(nan_free(a, _d + 1) and (e >= 0 or positive(a)) for mono, c in t.args[0] for a, e in mono)
    if op == 'inv':
        return positive(t.args[0]) and nan_free(t.args[0], _d + 1)
    if op == 'ite':
        return nan_free(t.args[1], _d + 1) and nan_free(t.args[2], _d + 1)
    if op in ('max', 'min', 'abs', 'floor', 'ceil', 'int', 'roundi', 'cos', 'sin', 'atan2'):
        return all(nan_free(a, _d + 1) for a in t.args)
    if op == 'sqrt':
        return nonneg(t.args[0]) and nan_free(t.args[0], _d + 1)
    if op == 'red' and t.args[0] in ('sum', 'max', 'min'):
        return nan_free(t.args[3], _d + 1)
    if op == 'rand':
        return True
    if op == 'sel' and t.args[0].op in ('lit', 'tup'):
        return all(nan_free(a, _d + 1) for a in t.args[0].args)
    return False


def positive(t, _d=0):
    if _d > 20:
        return False
    if is_num_const(t):
        return t.args[0] > 0
    if t.op in ('sym', 'app'):
        d = t.args[1]
        if d[:1] == ('pos',):
            return True
        return d[:1] == ('int',) and len(d) > 1 and d[1] is not None and d[1] > 0
    if t.op == 'poly':
        if not nonneg(t):
            return False
        return any(c > 0 and all(positive(a, _d + 1) for a, e in mono) for mono, c in t.args[0])
    if t.op == 'max':
        return any(positive(a, _d + 1) for a in t.args)
    if t.op in ('min',):
        return all(positive(a, _d + 1) for a in t.args)
    if t.op == 'ite':
        return positive(t.args[1], _d + 1) and positive(t.args[2], _d + 1)
    if t.op in ('sqrt', 'inv'):
        return positive(t.args[0], _d + 1)
    return False


_DIV = {}


def divides(t):
    """a division occurs in the term"""
    r = _DIV.get(t)
    if r is None:
        r = t.op in ('inv', 'unknown', 'log', 'exp') or t.op == 'poly' and any(e < 0 for m, c in t.args[0] for x, e in m)
        if not r:
            todo = list(t.args)
            while todo and not r:
                x = todo.pop()
                if isinstance(x, T):
                    r = divides(x)
                elif isinstance(x, tuple):
                    todo.extend(x)
        _DIV[t] = r
    return r


def isinf(t):
    if is_const(t) or is_int(t) or is_bool(t) or not divides(t):
        return FALSE
    if t.op == 'ite':
        return ite(t.args[0], isinf(t.args[1]), isinf(t.args[2]))
    return truth(mk('call', 'isinf', t))


def isnan(t):
    if is_const(t):
        return const(t.args[0] == NAN)
    if is_int(t) or is_bool(t):
        return FALSE
    if t.op != 'ite' and nan_free(t):
        return FALSE
    if t.op == 'ite':
        return ite(t.args[0], isnan(t.args[1]), isnan(t.args[2]))
    return mk('isnan', t)


OBJECTS = {'scatter', 'imshow', 'colorbar', 'figure', 'gca', 'gcf', 'add_subplot', 'add_axes', 'twinx', 'add_collection',
           'append_axes', 'set_title', 'legend', 'make_axes_locatable', 'FuncAnimation', 'LineCollection', 'getLogger',
           'cKDTree', 'KDTree', 'interp1d', 'gaussian_kde'}


def is_object(t):
    """the result of a library call that makes an object: neither None nor false"""
    return t.op in ('mcall', 'opaque') and str(t.args[0]).split('.')[-1] in OBJECTS


def isnone(t):
    if is_const(t):
        return const(t.args[0] is None)
    if t.op in ('unknown',):
        return mk('isnone', t)
    if t.op in ('sym', 'app'):
        d = t.args[1]
        if d and d[0] == 'enum':
            if None not in d[1]:
                return FALSE
            return mk('eq', t, NONE)
        if d and d[0] in ('any', 'opt'):
            return mk('isnone', t)
        return FALSE
    if t.op == 'ite':
        return ite(t.args[0], isnone(t.args[1]), isnone(t.args[2]))
    if is_object(t):
        return FALSE
    if t.op in ('call', 'sel', 'asel') and kindof(t) in ('int', 'real', 'bool'):
        return FALSE
    if t.op in ('call', 'mcall', 'sel', 'asel', 'phi', 'mu', 'attr'):
        return mk('isnone', t)
    return FALSE


# ---------------------------------------------------------------- canonical alpha-form

def canon(t):
    """a hashable alpha-invariant key"""
    memo = {}
    counter = [0]

    def go(x, env):
        free = x.fv & env.keys() if env else frozenset()
        key = (x, tuple(sorted(((v.id, env[v]) for v in free))))
        r = memo.get(key)
        if r is not None:
            return r
        if x in env:
            r = ('b', env[x])
        elif x.op == 'const':
            v = x.args[0]
            r = ('c', type(v).__name__, repr(v))
        else:
            e2 = env
            if x.op in BINDER:
                e2 = dict(env)
                base = len(env)
                for j, v in enumerate(BINDER[x.op](x.args)):
                    e2[v] = base + j
            args = tuple(arg(a, e2) for a in x.args)
            if x.op in ('and', 'or', 'max', 'min'):
                args = tuple(sorted(args, key=repr))
            if x.op == 'poly':
                args = cpoly(x, e2)
            elif x.op == 'eq' and x.args[0].op == 'poly' and is_num_const(x.args[1]):
                ps = cpoly(x.args[0], e2)
                lead = ps[0][1]
                args = (tuple((m, Fraction(c) / lead) for m, c in ps), Fraction(x.args[1].args[0]) / lead)
            elif x.op == 'eq':
                args = tuple(sorted(args, key=repr))
            elif x.op in ('abs', 'cos') and x.args[0].op == 'poly':
                ps = cpoly(x.args[0], e2)
                sg = 1 if ps[0][1] > 0 else -1
                args = tuple((m, c * sg) for m, c in ps)
            r = hash_cons((x.op,) + args)
        memo[key] = r
        return r

    def cpoly(x, env):
        return tuple(sorted(((tuple(sorted(((go(a, env), e) for a, e in m), key=repr)), Fraction(c))
                             for m, c in x.args[0]), key=repr))

    def arg(a, env):
        if isinstance(a, T):
            return go(a, env)
        if isinstance(a, tuple):
            return tuple(arg(b, env) for b in a)
        return (type(a).__name__, repr(a))

    return go(t, {})


_hc = {}


def hash_cons(x):
    r = _hc.get(x)
    if r is None:
        r = _hc[x] = 'h%d' % len(_hc)
    return r


# ---------------------------------------------------------------- printing

def show(t, depth=7):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return '(' + ','.join(show(x, depth) for x in t) + ')'
        return str(t)
    if depth <= 0:
        return '..'
    d = depth - 1
    op = t.op
    if op == 'const':
        return repr(t.args[0]) if not isinstance(t.args[0], Fraction) else str(t.args[0])
    if op == 'sym':
        return str(t.args[0])
    if op == 'bv':
        return 'v%d' % t.args[0]
    if op == 'phi':
        return 'phi%d%s' % (t.args[0], t.args[2])
    if op == 'app':
        return '%s(%s)' % (t.args[0], ','.join(show(a, d) for a in t.args[2:]))
    if op == 'poly':
        ps = []
        for m, c in t.args[0]:
            s = '*'.join(show(a, d) + ('^%d' % e if e != 1 else '') for a, e in m)
            if not m:
                s = str(c)
            elif c != 1:
                s = '%s*%s' % (c, s)
            ps.append(s)
        return '(' + ' + '.join(ps) + ')'
    if op in ('eq', 'lt', 'le'):
        return '(%s %s %s)' % (show(t.args[0], d), {'eq': '==', 'lt': '<', 'le': '<='}[op], show(t.args[1], d))
    if op == 'ite':
        return 'if(%s; %s; %s)' % tuple(show(a, d) for a in t.args)
    if op in ('lit', 'tup'):
        return ('[%s]' if op == 'lit' else '(%s)') % ', '.join(show(a, d) for a in t.args)
    if op == 'unknown':
        return 'UNKNOWN<%s>' % t.args[0]
    return '%s(%s)' % (op, ', '.join(show(a, d) for a in t.args))


def poly_items(t):
    """[(monomial as ((atom, exponent), ...), coefficient)]"""
    return [(tuple(m), c) for m, c in (t.args[0] if t.op == 'poly' else poly_of(t))]
