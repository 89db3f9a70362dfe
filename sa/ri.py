"""Random interpretation of value graphs (Gulwani & Necula, POPL 2003/2004).

Two value graphs that are not structurally identical are compared by
interpreting their arithmetic and gate nodes over pseudo-random valuations of
the leaves; every operation the analysis does not interpret is a hash function
of its arguments.  Equal graphs always agree; graphs that disagree on one
valuation denote different functions of the leaves.
"""
from fractions import Fraction
import hashlib
import math
import time
from . import terms as tm
from .terms import T, NanC

NANV = float('nan')


class Undecided(Exception):
    pass


class OutOfRange(Exception):
    """the valuation drives the graph outside the modelled domain"""


class BadIndex(OutOfRange):
    """the program would raise here: an index or key that is not there, None used as a number or an array"""


class NA(object):
    __slots__ = ('shape', 'data')

    def __init__(self, shape, data):
        self.shape = tuple(shape)
        self.data = data

    def get(self, idx):
        k = 0
        for i, n in zip(idx, self.shape):
            if not isinstance(i, int):
                i = int(i)
            if i < 0 or i >= n:
                raise IndexError
            k = k * n + i
        return self.data[k]

    def __repr__(self):
        return 'NA(%s,%s)' % (self.shape, self.data)


def isnanv(x):
    return isinstance(x, float) and x != x


_KC = {}          # id -> (value, key) of the tuples and arrays keyed so far


def key_of(v):
    """canonical printable key of a value"""
    t = type(v)
    if t is int:
        return 'n%d' % v
    if t is tuple or t is NA:
        k = _KC.get(id(v))
        if k is not None and k[0] is v:
            return k[1]
        k = _key(v)
        if len(_KC) > 300000:
            _KC.clear()
        _KC[id(v)] = (v, k)
        return k
    return _key(v)


def _key(v):
    if isinstance(v, bool):
        return 'b1' if v else 'b0'
    if v is None:
        return 'N'
    if isinstance(v, int):
        return 'n%d' % v
    if isinstance(v, Fraction):
        if v.denominator == 1:
            return 'n%d' % v.numerator
        if v.denominator > 10 ** 9:
            return 'n%.9g' % float(v)
        return 'n%d/%d' % (v.numerator, v.denominator)
    if isinstance(v, float):
        if v != v:
            return 'nan'
        if v in (float('inf'), float('-inf')):
            return repr(v)
        r = round(v)
        if abs(v - r) < 1e-9:
            return 'n%d' % r
        f = Fraction(v).limit_denominator(10 ** 4)
        if abs(float(f) - v) < 1e-9:
            return key_of(f)
        return 'n%.9g' % v
    if isinstance(v, str):
        return 's' + v
    if isinstance(v, NA):
        return 'A%s[%s]' % (v.shape, ','.join(key_of(x) for x in v.data))
    if isinstance(v, tuple):
        tag = v[0]
        if tag == 'O':
            return 'O%d' % v[1]
        if tag in ('L', 'T'):
            return tag + '(' + ','.join(key_of(x) for x in v[1]) + ')'
        if tag == 'D':
            return 'D{' + ','.join('%s:%s' % (k, key_of(x)) for k, x in v[1]) + '}'
        return 'X' + repr(v)
    return repr(v)


def H(*parts):
    s = '|'.join(parts)
    return int.from_bytes(hashlib.blake2b(s.encode(), digest_size=8).digest(), 'big')


SMALL = [Fraction(x) for x in ('-2', '-1', '-1/2', '0', '1/2', '1', '2', '3')]
NEAR = [Fraction(x) for x in ('1', '1/2', '2', '-1', '-2', '999/1000', '1001/1000')]
SHARE = (Fraction(0), Fraction(1), Fraction(1, 2))
REALISH = {'real', 'pos', 'nonneg', 'nanreal', 'nanpos', 'unit', 'share'}
POSV = [Fraction(x) for x in ('1/4', '1/2', '1', '3/2', '2', '3', '5')]


def generic(h):
    return Fraction((h % 2001) - 1000, 7 * (1 + (h >> 20) % 13))


def numval(v):
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, (int, Fraction, float)):
        return v
    if isinstance(v, tuple) and v and v[0] == 'O':
        h = v[1]
        return SMALL[h % len(SMALL)] if h % 3 == 0 else generic(h // 3)
    if isinstance(v, NA) and len(v.data) == 1:
        return numval(v.data[0])
    raise Undecided('number expected: %s' % (key_of(v)[:60],))


def truthv(v):
    if isinstance(v, bool):
        return v
    if v is None:
        return False
    if isinstance(v, (int, Fraction)):
        return v != 0
    if isinstance(v, float):
        return v != 0
    if isinstance(v, str):
        return len(v) > 0
    if isinstance(v, tuple):
        if v[0] == 'O':
            return bool(v[1] & 1)
        if v[0] in ('L', 'T', 'D'):
            return len(v[1]) > 0
    if isinstance(v, NA) and len(v.data) == 1:
        return truthv(v.data[0])
    raise Undecided('truth of %s' % key_of(v)[:40])


def _f(x):
    return float(x)


def addv(a, b):
    try:
        return a + b
    except OverflowError:
        return NANV


def mulv(a, b):
    if isinstance(a, float) or isinstance(b, float):
        a, b = _f(a), _f(b)
    return a * b


def invv(a):
    if isinstance(a, float):
        if a == 0:
            return float('inf')
        return 1.0 / a
    if a == 0:
        return float('inf')
    return Fraction(1) / a


def intv(v):
    """as an index"""
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int):
        return v
    if isinstance(v, Fraction) and v.denominator == 1:
        return v.numerator
    if isinstance(v, float):
        if v == v and v == math.floor(v) and abs(v) < 1e12:
            return int(v)
        raise OutOfRange('non-integer index')
    if isinstance(v, tuple) and v[0] == 'O':
        return v[1] % 3
    raise OutOfRange('non-integer index')


def eqv(a, b):
    if isinstance(a, bool):
        a = int(a) if isinstance(b, (int, Fraction, float)) else a
    if isinstance(b, bool):
        b = int(b) if isinstance(a, (int, Fraction, float)) else b
    na = isinstance(a, (int, Fraction, float))
    nb = isinstance(b, (int, Fraction, float))
    if na and nb:
        return a == b
    if isinstance(a, tuple) and a[0] == 'O' and nb:
        return numval(a) == b
    if isinstance(b, tuple) and b[0] == 'O' and na:
        return numval(b) == a
    if type(a) is not type(b):
        return False
    if isinstance(a, tuple) and isinstance(b, tuple):
        if a[0] != b[0]:
            return False
        if a[0] in ('L', 'T'):
            return len(a[1]) == len(b[1]) and all(eqv(x, y) for x, y in zip(a[1], b[1]))
    return key_of(a) == key_of(b)


def close(a, b):
    """final comparison of two observables"""
    na = isinstance(a, (bool, int, Fraction, float))
    nb = isinstance(b, (bool, int, Fraction, float))
    if na and nb:
        if a == b:
            return True
        fa, fb = float(a), float(b)
        if fa != fa and fb != fb:
            return True
        if fa != fa or fb != fb:
            return False
        return abs(fa - fb) <= 1e-7 * max(1e-3, abs(fa), abs(fb))
    if isinstance(a, NA) and isinstance(b, NA):
        return a.shape == b.shape and all(close(x, y) for x, y in zip(a.data, b.data))
    if isinstance(a, NA):
        a = tolist(a)
    if isinstance(b, NA):
        b = tolist(b)
    if isinstance(a, tuple) and isinstance(b, tuple):
        if a[0] in ('L', 'T') and b[0] in ('L', 'T'):
            return len(a[1]) == len(b[1]) and all(close(x, y) for x, y in zip(a[1], b[1]))
        if a[0] == 'D' and b[0] == 'D':
            da, db = dict(a[1]), dict(b[1])
            return set(da) == set(db) and all(close(da[k], db[k]) for k in da)
        return key_of(a) == key_of(b)
    if isinstance(a, tuple) and a[0] == 'O' and nb:
        return close(numval(a), b)
    if isinstance(b, tuple) and b[0] == 'O' and na:
        return close(a, numval(b))
    return key_of(a) == key_of(b)


def tolist(v):
    def go(shape, data):
        if len(shape) == 1:
            return ('L', tuple(data))
        m = 1
        for s in shape[1:]:
            m *= s
        return ('L', tuple(go(shape[1:], data[i * m:(i + 1) * m]) for i in range(shape[0])))
    if not v.shape:
        return v.data[0]
    return go(v.shape, v.data)


def as_items(v):
    """sequence items of a list/tuple/1-d array value"""
    if isinstance(v, NA):
        if len(v.shape) == 1:
            return list(v.data)
        return list(tolist(v)[1])
    if isinstance(v, tuple) and v[0] in ('L', 'T'):
        return list(v[1])
    if isinstance(v, tuple) and v[0] == 'D':
        return [k for k, x in v[1]]
    raise Undecided('sequence expected: %s' % key_of(v)[:60])


def flat_items(v):
    if isinstance(v, NA):
        return list(v.data)
    out = []
    for x in as_items(v):
        if isinstance(x, NA) or (isinstance(x, tuple) and x[0] in ('L', 'T')):
            out.extend(flat_items(x))
        else:
            out.append(x)
    return out


MAXLEN = 128


class Valuation(object):
    def __init__(self, seed, overrides=None):
        self.seed = str(seed)
        self.memo = {}
        self.over = overrides or {}
        self.steps = 0
        self.limit = 400000
        self.consts = ()
        self.remap = None
        self.counts = ()
        self.pins = {}

    def scaled(self, c):
        if c in self.remap:
            return self.remap[c]
        return -self.remap[-c] if -c in self.remap else c

    # ---- sampling of leaves
    def profile(self, name, key):
        """degenerate fields: one third of the families take one or two values only"""
        n = 'fam:' + name
        p = H(self.seed, n) % 9 if H(self.seed, 'fam') & 1 else 9
        if p == 0:
            return n + '0'
        if p < 3:
            return n + str(H(self.seed, n, key) % 2)
        return key

    def near_count(self, key):
        """half of the counts placed at or next to the given thresholds"""
        if H(self.seed, key, 'c') % 2:
            return None
        return self.counts[H(self.seed, 'cpick') % len(self.counts)] + H(self.seed, key, 'cv') % 4 - 1

    def near_const(self, d, key):
        """a third of the valuations place some leaves at or next to constants of the compared terms"""
        if H(self.seed, 'cst') % 3 or H(self.seed, key, 'c') % 3:
            return None
        h = H(self.seed, key, 'cv')
        c = self.consts[(H(self.seed, 'cpick') if h % 2 else h >> 4) % len(self.consts)] * NEAR[(h >> 40) % len(NEAR)]
        if d in ('pos', 'nanpos', 'nonneg', 'unit', 'share'):
            c = abs(c)
        if d in ('unit', 'share') and c >= 1:
            return None
        return c

    def sample(self, dom, key, env):
        h = H(self.seed, key)
        d = dom[0] if dom else 'any'
        if self.pins:
            p = self.pins.get(key.split('(')[0])
            if p and H(self.seed, key, 'pin') % 4:
                c = p[(H(self.seed, 'pinpick') if H(self.seed, 'pinsame') % 2 else H(self.seed, key, 'pinpick')) % len(p)]
                if (d not in ('nat', 'int') or c == int(c)) and (c > 0 or d in ('real', 'nanreal', 'int') or c == 0 and d not in (
                        'pos', 'unit')) and not (d in ('unit', 'share') and c > 1):
                    return c
        if self.consts and d in REALISH:
            c = self.near_const(d, key)
            if c is not None:
                return c
        if d == 'real':
            return SMALL[(h >> 8) % len(SMALL)] if h % 2 else generic(h >> 8)
        if d == 'generic':
            return generic(h)
        if d == 'pos':
            return POSV[(h >> 8) % len(POSV)] if h % 2 else Fraction(1 + (h >> 8) % 999, 97)
        if d == 'nonneg':
            if h % 4 == 0:
                return 0
            return POSV[(h >> 8) % len(POSV)] if h % 2 else Fraction((h >> 8) % 999, 97)
        if d == 'nanreal':
            if h % 5 == 0:
                return NANV
            h //= 5
            return SMALL[(h >> 8) % len(SMALL)] if h % 2 else generic(h >> 8)
        if d == 'nanpos':
            if h % 5 == 0:
                return NANV
            h //= 5
            if h % 5 == 0:
                return 0
            return POSV[(h >> 8) % len(POSV)] if h % 2 else Fraction((h >> 8) % 999, 97)
        if d == 'unit':
            if h % 6 == 0:
                return (Fraction(1, 10 ** 6), 1 - Fraction(1, 10 ** 6))[(h >> 4) % 2]
            return Fraction(1 + (h >> 8) % 1008, 1009)
        if d == 'share':
            return Fraction((h >> 8) % 98, 97) if h % 3 else SHARE[(h >> 8) % 3]
        if d == 'int':
            lo = dom[1] if len(dom) > 1 and dom[1] is not None else -3
            hi = dom[2] if len(dom) > 2 and dom[2] is not None else lo + 8
            return lo + (h >> 8) % (hi - lo + 1)
        if d == 'nat':
            if self.counts:
                c = self.near_count(key)
                if c is not None:
                    return c
            if key in ('sym:H', 'sym:W') and H(self.seed, 'wide') % 3 == 0:
                return 2 + (h >> 8) % 4
            return (h >> 8) % 5
        if d == 'bool':
            return bool(h & 256)
        if d == 'enum':
            vals = dom[1]
            return vals[(h >> 8) % len(vals)]
        if d == 'intT':
            lo = intv(self.ev(dom[1], {}))
            hi = intv(self.ev(dom[2], {}))
            if hi <= lo:
                return lo
            return lo + (h >> 8) % (hi - lo)
        if d == 'opt':
            if h % 3 == 0:
                return None
            return self.sample(dom[1], key + '?', env)
        if d == 'mix':
            # alternative domains
            return self.sample(dom[1 + (h >> 40) % (len(dom) - 1)], key + '~', env)
        if d == 'str':
            pool = dom[1] if len(dom) > 1 else ('a', 'b', 'abc')
            return pool[(h >> 8) % len(pool)]
        return ('O', h)

    # ---- evaluation
    def ev(self, t, env):
        if t.fv:
            try:
                k = (t,) + tuple([_hk(env[v]) for v in order(t.fv)])
            except KeyError:
                for v in t.fv:
                    if v.op == 'unknown':
                        raise Undecided(v.args[0])
                raise Undecided('unbound %s' % [v for v in t.fv if v not in env][:1])
        else:
            k = t
        memo = self.memo
        if k in memo:
            r = memo[k]
            if isinstance(r, _Exc):
                raise r.e
            return r
        self.steps += 1
        if self.steps > self.limit:
            raise OutOfRange('evaluation budget')
        try:
            r = self._ev(t, env)
        except (OutOfRange, Undecided, IndexError) as e:
            memo[k] = _Exc(e)
            raise
        if isinstance(r, Fraction) and r.denominator == 1:
            r = r.numerator
        memo[k] = r
        return r

    def _ev(self, t, env):
        op = t.op
        a = t.args
        ev = self.ev
        if op == 'const':
            v = a[0]
            if isinstance(v, NanC):
                return {'nan': NANV, 'inf': float('inf'), '-inf': float('-inf')}[v.n]
            if self.remap and type(v) in (int, Fraction):
                return self.scaled(v)
            return v
        if op in ('bv', 'phi'):
            return env[t]
        if op == 'sym':
            if a[0] in self.over:
                return self.over[a[0]]
            if a[0] == 'pi':
                return math.pi
            return self.sample(a[1], 'sym:' + a[0], env)
        if op == 'app':
            vals = [ev(x, env) for x in a[2:]]
            key = 'app:%s(%s)' % (a[0], ','.join(key_of(v) for v in vals))
            if key in self.over:
                return self.over[key]
            return self.sample(a[1], self.profile(a[0], key), env)
        if op == 'poly':
            s = 0
            for mono, c in a[0]:
                m = self.scaled(c) if self.remap else c
                for x, e in mono:
                    v = numval(ev(x, env))
                    for _ in range(e):
                        m = mulv(m, v)
                s = addv(s, m)
            return s
        if op == 'atom':
            return ev(a[0], env)
        if op == 'inv':
            return invv(numval(ev(a[0], env)))
        if op == 'pow':
            x, y = numval(ev(a[0], env)), numval(ev(a[1], env))
            if isinstance(y, int) and abs(y) <= 6 and not isinstance(x, float):
                if x == 0 and y < 0:
                    return float('inf')
                return Fraction(x) ** y
            try:
                fx, fy = float(x), float(y)
                if fx < 0 and fy != math.floor(fy):
                    return NANV
                if fx == 0 and fy < 0:
                    return float('inf')
                return fx ** fy
            except (OverflowError, ZeroDivisionError, ValueError):
                return NANV
        if op == 'sqrt':
            v = numval(ev(a[0], env))
            if isinstance(v, float) and v != v:
                return NANV
            if v < 0:
                return NANV
            if isinstance(v, float):
                return math.sqrt(v)
            v = Fraction(v)
            n, d = math.isqrt(v.numerator), math.isqrt(v.denominator)
            if n * n == v.numerator and d * d == v.denominator:
                return Fraction(n, d)
            return math.sqrt(v)
        if op in ('cos', 'sin', 'exp', 'log', 'tan'):
            v = float(numval(ev(a[0], env)))
            try:
                r = getattr(math, op)(v)
            except (ValueError, OverflowError):
                return float('-inf') if op == 'log' and v == 0 else float('inf') if op == 'exp' and v > 0 else NANV
            return r
        if op == 'np':
            return ev(a[0], env)
        if op == 'atan2':
            y, x = float(numval(ev(a[0], env))), float(numval(ev(a[1], env)))
            return math.atan2(y, x)
        if op == 'abs':
            return abs(numval(ev(a[0], env)))
        if op == 'rounded':
            # the loss of precision, magnified so that it exceeds the tolerance of comparisons
            v = numval(ev(a[0], env))
            if isinstance(v, float) and (v != v or abs(v) == float('inf')) or v == 0:
                return v
            m, e = math.frexp(float(v))
            return math.ldexp(round(m * 1024), e - 10)
        if op in ('floor', 'ceil', 'int', 'roundi'):
            v = numval(ev(a[0], env))
            if isinstance(v, float) and (v != v or v in (float('inf'), float('-inf'))):
                if op in ('floor', 'ceil'):
                    return v
                raise BadIndex('int of nan')
            return {'floor': math.floor, 'ceil': math.ceil, 'int': int, 'roundi': round}[op](v)
        if op in ('max', 'min'):
            vs = [numval(ev(x, env)) for x in a]
            if any(isnanv(v) for v in vs):
                return NANV
            return max(vs) if op == 'max' else min(vs)
        if op == 'bit':
            x, y = numval(ev(a[1], env)), numval(ev(a[2], env))
            if isnanv(x) or isnanv(y) or x != int(x) or y != int(y) or a[0].endswith('shift') and not 0 <= y < 64:
                raise Undecided('bits of %s, %s' % (x, y))
            return tm.BITS[a[0]](int(x), int(y))
        if op in ('floordiv', 'mod'):
            x, y = numval(ev(a[0], env)), numval(ev(a[1], env))
            if y == 0:
                raise OutOfRange('division by zero')
            if isnanv(x) or isnanv(y):
                return NANV
            return x // y if op == 'floordiv' else x % y
        if op == 'ite':
            return ev(a[1], env) if truthv(ev(a[0], env)) else ev(a[2], env)
        if op == 'and' or op == 'or':
            stop, err = op == 'or', None
            for x in a:
                try:
                    if truthv(ev(x, env)) is stop:
                        return stop
                except (OutOfRange, Undecided) as e:
                    # operands are unordered: a decisive one settles the value
                    err = err or e
            if err is not None:
                raise err
            return not stop
        if op == 'not':
            return not truthv(ev(a[0], env))
        if op == 'truth':
            return truthv(ev(a[0], env))
        if op == 'eq':
            return eqv(ev(a[0], env), ev(a[1], env))
        if op in ('lt', 'le'):
            x, y = ev(a[0], env), ev(a[1], env)
            if isinstance(x, str) and isinstance(y, str):
                return x < y if op == 'lt' else x <= y
            if x is None or y is None:
                raise BadIndex('ordering None')
            x, y = numval(x), numval(y)
            return (x < y) if op == 'lt' else (x <= y)
        if op == 'isnan':
            v = ev(a[0], env)
            if v is None or isinstance(v, str):
                raise BadIndex('isnan')
            return isnanv(numval(v))
        if op == 'isnone':
            return ev(a[0], env) is None
        if op == 'in':
            x, s = ev(a[0], env), ev(a[1], env)
            if isinstance(s, str):
                return isinstance(x, str) and x in s
            if isinstance(s, tuple) and s[0] == 'O':
                return bool(H('in', key_of(x), key_of(s)) & 1)
            return any(eqv(x, y) for y in (flat_items(s) if isinstance(s, NA) else as_items(s)))
        if op in ('lit', 'tup'):
            return ('L' if op == 'lit' else 'T', tuple(ev(x, env) for x in a))
        if op in ('map', 'fmap', 'flatmap'):
            n = self.count(a[0], env)
            out = []
            e2 = dict(env)
            for i in range(n):
                e2[a[1]] = i
                if op == 'map':
                    out.append(ev(a[2], e2))
                elif op == 'fmap':
                    if truthv(ev(a[2], e2)):
                        out.append(ev(a[3], e2))
                else:
                    out.extend(as_items(ev(a[2], e2)))
            return ('L', tuple(out))
        if op == 'concat':
            out = []
            for x in a:
                out.extend(as_items(ev(x, env)))
            return ('L', tuple(out))
        if op == 'repeat':
            n = self.count(a[1], env)
            return ('L', tuple(as_items(ev(a[0], env)) * n))
        if op == 'slice':
            s = as_items(ev(a[0], env))
            lo, hi, st = (intv(numval(ev(x, env))) for x in a[1:4])
            if st > 0:
                lo, hi = max(lo, 0), max(hi, 0)
            return ('L', tuple(s[lo:hi:st]))
        if op == 'pyslice':
            s = as_items(ev(a[0], env))
            lo, hi, st = (ev(x, env) for x in a[1:4])
            lo, hi, st = [None if x is None else intv(numval(x)) for x in (lo, hi, st)]
            return ('L', tuple(s[lo:hi:st]))
        if op == 'seqstore':
            s = as_items(ev(a[0], env))
            i = intv(numval(ev(a[1], env)))
            if not 0 <= i < len(s):
                raise BadIndex('store index')
            s[i] = ev(a[2], env)
            return ('L', tuple(s))
        if op == 'len':
            v = ev(a[0], env)
            if isinstance(v, str):
                return len(v)
            if isinstance(v, tuple) and v[0] == 'O':
                return H('len', key_of(v)) % 5
            if isinstance(v, NA):
                return v.shape[0]
            if isinstance(v, tuple) and v[0] == 'D':
                return len(v[1])
            return len(as_items(v))
        if op == 'sel':
            v = ev(a[0], env)
            i = ev(a[1], env)
            if isinstance(v, tuple) and v[0] == 'O':
                return ('O', H('sel', key_of(v), key_of(i)))
            if isinstance(v, tuple) and v[0] == 'D':
                for k, x in v[1]:
                    if k == i:
                        return x
                raise BadIndex('key')
            s = as_items(v)
            i = intv(numval(i))
            if not 0 <= i < len(s):
                raise BadIndex('index %s of %s' % (i, len(s)))
            return s[i]
        if op == 'asel':
            v = ev(a[0], env)
            idx = [ev(x, env) for x in a[1:]]
            if isinstance(v, NA):
                idx = [intv(numval(i)) for i in idx]
                try:
                    return v.get(idx)
                except IndexError:
                    raise BadIndex('array index')
            if isinstance(v, tuple) and v[0] == 'O':
                return ('O', H('asel', key_of(v), *[key_of(i) for i in idx]))
            if isinstance(v, tuple) and v[0] in ('L', 'T'):
                for i in idx:
                    items = as_items(v)
                    i = intv(numval(i))
                    if not 0 <= i < len(items):
                        raise BadIndex('index')
                    v = items[i]
                return v
            if len(idx) == 0:
                return v
            if v is None:
                raise BadIndex('None is indexed')
            raise Undecided('asel of %s' % key_of(v)[:40])
        if op == 'arr':
            shape = [self.count(n, env) for n in a[0]]
            data = []
            e2 = dict(env)
            tot = 1
            for n in shape:
                tot *= n
            if tot > 600:
                raise OutOfRange('array too large')

            def rec(d):
                if d == len(shape):
                    data.append(ev(a[2], e2))
                    return
                for i in range(shape[d]):
                    e2[a[1][d]] = i
                    rec(d + 1)
            rec(0)
            return NA(shape, tuple(data))
        if op == 'red':
            return self.red(a, env)
        if op == 'first':
            n = self.count(a[0], env)
            e2 = dict(env)
            for i in range(n):
                e2[a[1]] = i
                if truthv(ev(a[2], e2)):
                    return i
            return n
        if op == 'rand':
            kind = a[0]
            vals = [ev(x, env) for x in a[1]]
            ctx = [ev(x, env) for x in a[2]]
            h = H(self.seed, 'rand', kind, *([key_of(v) for v in ctx] + ['a'] + (
                [] if kind == 'uniform' else [key_of(v) for v in vals])))
            u = Fraction((h >> 8) % 100003, 100003)
            if kind == 'uniform':
                lo, hi = numval(vals[0]), numval(vals[1])
                if h % 8 == 0:
                    u = (Fraction(1, 10 ** 6), 1 - Fraction(1, 10 ** 6) - Fraction(1, 200006))[(h >> 4) % 2]
                return addv(lo, mulv(addv(hi, -lo), u + Fraction(1, 200006)))
            if kind == 'randint':
                lo, hi = intv(numval(vals[0])), intv(numval(vals[1]))
                if h % 8 == 0:
                    u = (h >> 4) % 2  # the first and the last of the range
                return lo + min(int(u * max(1, hi - lo)), max(1, hi - lo) - 1)
            return ('O', h)
        if op == 'mu':
            return self.mu(t, env)
        if op == 'dict':
            ks = a[0]
            out = []
            for k, c, v in zip(ks, a[1], a[2]):
                if truthv(ev(c, env)):
                    out.append((k if not isinstance(k, T) else key_of(ev(k, env)), ev(v, env)))
            return ('D', tuple(sorted(out, key=lambda kv: repr(kv[0]))))
        if op == 'call':
            return self.call(t, env)
        if op == 'unknown':
            raise Undecided(a[0])
        if op == 'sub' and len(a) == 2 and isinstance(a[1], T):
            v = ev(a[0], env)
            if isinstance(v, NA) or isinstance(v, tuple) and v[0] in ('L', 'T', 'D'):
                i = ev(a[1], env)
                if isinstance(v, tuple) and v[0] == 'D':
                    for k, x in v[1]:
                        if k == i:
                            return x
                    raise BadIndex('key')
                if not isinstance(i, tuple) and not isinstance(i, str) and i is not None:
                    s, i = as_items(v), intv(numval(i))
                    if not -len(s) <= i < len(s):
                        raise BadIndex('index %s of %s' % (i, len(s)))
                    return s[i]
        if op in ('mcall', 'attr', 'opaque', 'strfmt', 'fstr', 'sub', 'has', 'isinst', 'ext'):
            return ('O', H(op, *[self.karg(x, env) for x in a]))
        raise Undecided('op ' + op)

    def karg(self, x, env):
        if isinstance(x, T):
            return key_of(self.ev(x, env))
        if isinstance(x, tuple):
            return '(' + ','.join(self.karg(y, env) for y in x) + ')'
        return repr(x)

    def count(self, n, env):
        v = self.ev(n, env)
        v = intv(numval(v))
        if v > MAXLEN:
            raise OutOfRange('length %d' % v)
        return max(0, v)

    def red(self, a, env):
        kind, n, v, body = a
        n = self.count(n, env)
        e2 = dict(env)
        acc = None
        if kind == 'any' or kind == 'all':
            for i in range(n):
                e2[v] = i
                x = truthv(self.ev(body, e2))
                if kind == 'any' and x:
                    return True
                if kind == 'all' and not x:
                    return False
            return kind == 'all'
        vals = []
        for i in range(n):
            e2[v] = i
            vals.append(numval(self.ev(body, e2)))
        return reduce_vals(kind, vals)

    def mu(self, t, env):
        i, n, k, phis, inits, upds, cond, stop = t.args
        key = ('mu', n, k, phis, inits, upds, cond, stop,
               tuple([_hk(env[v]) for v in order(t.fv)]) if t.fv else ())
        r = self.memo.get(key)
        if r is None:
            r = self._mu(t, env)
            self.memo[key] = r
        if isinstance(r, _Exc):
            raise r.e
        return r[i]

    def _mu(self, t, env):
        i, n, k, phis, inits, upds, cond, stop = t.args
        try:
            st = [self.ev(x, env) for x in inits]
            lim = None if n is tm.NONE else self.count(n, env)
            c = 0
            e2 = dict(env)
            while True:
                if lim is not None and c >= lim:
                    break
                if c > 24:
                    raise OutOfRange('loop bound')
                e2[k] = c
                for p, v in zip(phis, st):
                    e2[p] = v
                if not truthv(self.ev(cond, e2)):
                    break
                s = truthv(self.ev(stop, e2))
                st = [self.ev(u, e2) for u in upds]
                c += 1
                if s:
                    break
            return tuple(st)
        except (OutOfRange, Undecided) as e:
            return _Exc(e)

    def call(self, t, env):
        name = t.args[0]
        args = [self.ev(x, env) for x in t.args[1:]]
        f = CALLS.get(name)
        if f is not None:
            r = f(*args)
            if r is not None:
                return r
        return ('O', H('call', name, *[key_of(x) for x in args]))


class _Exc(object):
    def __init__(self, e):
        self.e = e


def _tid(t):
    return t.id


_ORDER = {}


def order(fv):
    r = _ORDER.get(fv)
    if r is None:
        r = _ORDER[fv] = tuple(sorted(fv, key=_tid))
    return r


def _hk(v):
    if isinstance(v, int):
        return v
    return key_of(v)


def reduce_vals(kind, vals):
    if kind == 'sum':
        s = 0
        for v in vals:
            s = addv(s, v)
        return s
    if kind == 'prod':
        s = 1
        for v in vals:
            s = mulv(s, v)
        return s
    if kind in ('nansum', 'nanmax', 'nanmin', 'nanmean', 'nanmedian', 'nanprod'):
        vals = [v for v in vals if not isnanv(v)]
        if kind in ('nansum', 'nanprod'):
            return reduce_vals(kind[3:], vals)
        if not vals:
            return NANV
        return reduce_vals(kind[3:], vals)
    if not vals:
        if kind in ('mean', 'median'):
            return NANV
        raise OutOfRange('empty reduction')
    if any(isnanv(v) for v in vals):
        return NANV
    if kind == 'max':
        return max(vals)
    if kind == 'min':
        return min(vals)
    if kind == 'mean':
        return mulv(reduce_vals('sum', vals), Fraction(1, len(vals)))
    if kind == 'median':
        s = sorted(vals)
        m = len(s) // 2
        return s[m] if len(s) % 2 else mulv(addv(s[m - 1], s[m]), Fraction(1, 2))
    raise Undecided('reduction ' + kind)


# ---- library functions interpreted on sequences

def _nums(v):
    return [numval(x) for x in flat_items(v)]


def _argmin(v):
    xs = _nums(v)
    if not xs:
        raise OutOfRange('empty')
    for i, x in enumerate(xs):
        if isnanv(x):
            return i
    return xs.index(min(xs))


def _argmax(v):
    xs = _nums(v)
    if not xs:
        raise OutOfRange('empty')
    for i, x in enumerate(xs):
        if isnanv(x):
            return i
    return xs.index(max(xs))


def _searchsorted(v, x, side='left'):
    xs = _nums(v)
    x = numval(x)
    if side == 'right':
        return sum(1 for y in xs if y <= x)
    return sum(1 for y in xs if y < x)


def _sortkey(x):
    if isinstance(x, str):
        return x
    if isinstance(x, tuple) and len(x) == 2 and x[0] == 'T':
        return tuple(_sortkey(y) for y in x[1])
    x = numval(x)
    return (1, 0) if isnanv(x) else (0, x)


def _sorted(v):
    xs = as_items(v)
    if any(isinstance(x, str) for x in xs) and not all(isinstance(x, str) for x in xs):
        return None
    try:
        return ('L', tuple(sorted(xs, key=_sortkey)))
    except TypeError:
        return None


def _argsort(v):
    xs = as_items(v)
    if not all(isinstance(x, tuple) and x[:1] == ('T',) for x in xs):
        xs = flat_items(v)
    return ('L', tuple(sorted(range(len(xs)), key=lambda i: _sortkey(xs[i]))))


def _reversed(v):
    return ('L', tuple(reversed(as_items(v))))


def _uniq(v):
    xs = as_items(v)
    seen, out = set(), []
    for x in xs:
        k = key_of(x)
        if k not in seen:
            seen.add(k)
            out.append(x)
    try:
        out.sort(key=_sortkey)
    except (TypeError, Undecided):
        out.sort(key=key_of)
    return ('L', tuple(out))


def _str(v):
    if isinstance(v, str):
        return v
    if isinstance(v, bool):
        return str(v)
    if isinstance(v, int):
        return str(v)
    if v is None:
        return 'None'
    return 'str:' + key_of(v)


def _cat(*xs):
    if all(isinstance(x, str) for x in xs):
        return ''.join(xs)
    return 'cat:' + '+'.join(key_of(x) for x in xs)


def _join(sep, v):
    xs = as_items(v)
    if isinstance(sep, str) and all(isinstance(x, str) for x in xs):
        return sep.join(xs)
    return None


def _compress(v, m):
    xs, ms = flat_items(v), flat_items(m)
    if len(xs) != len(ms):
        raise OutOfRange('mask shape')
    return ('L', tuple(x for x, k in zip(xs, ms) if truthv(k)))


def _startswith(s, p):
    if isinstance(s, str) and isinstance(p, str):
        return s.startswith(p)
    return bool(H('startswith', key_of(s), key_of(p)) & 1)


def _count(v):
    return sum(1 for x in flat_items(v) if truthv(x))


def _flatten(v):
    return ('L', tuple(flat_items(v)))


def _percentile(v, q):
    return None


def _range(lo, hi, st):
    lo, hi, st = (numval(x) for x in (lo, hi, st))
    if any(isnanv(x) for x in (lo, hi, st)) or st == 0:
        raise OutOfRange('range')
    n = max(0, math.ceil((hi - lo) / st))
    if n > MAXLEN:
        raise OutOfRange('range length')
    return ('L', tuple(addv(lo, mulv(st, i)) for i in range(n)))


CALLS = {
    'argmin': _argmin, 'argmax': _argmax, 'searchsorted': _searchsorted, 'sorted': _sorted,
    'argsort': _argsort, 'reversed': _reversed, 'unique': _uniq, 'str': _str, 'strcat': _cat,
    'isinf': lambda v: isinstance(v, float) and v in (float('inf'), float('-inf')),
    'join': _join, 'compress': _compress, 'startswith': _startswith, 'count': _count,
    'flatten': _flatten, 'arange': _range,
    'median': lambda v: reduce_vals('median', _nums(v)),
    'mean': lambda v: reduce_vals('mean', _nums(v)),
    'sumall': lambda v: reduce_vals('sum', _nums(v)),
    'maxall': lambda v: reduce_vals('max', _nums(v)),
    'minall': lambda v: reduce_vals('min', _nums(v)),
    'nanmaxall': lambda v: reduce_vals('nanmax', _nums(v)),
    'nanminall': lambda v: reduce_vals('nanmin', _nums(v)),
    'nansumall': lambda v: reduce_vals('nansum', _nums(v)),
}


CMP = {'lt', 'le', 'eq', 'max', 'min'}


def thresholds(*ts):
    """the numbers that the terms compare something with"""
    out, seen, todo = set(), set(), list(ts)

    def take(c):
        if isinstance(c, (int, Fraction)) and not isinstance(c, bool) and c not in (0, 1, -1, 2, 3):
            out.add(abs(Fraction(c)))
    while todo:
        t = todo.pop()
        if isinstance(t, tuple):
            todo.extend(t)
        elif isinstance(t, tm.T) and t not in seen:
            seen.add(t)
            if t.op in CMP:
                for x in t.args:
                    if isinstance(x, tm.T) and x.op == 'const':
                        take(x.args[0])
                    elif isinstance(x, tm.T) and x.op == 'poly':
                        for m, c in x.args[0]:
                            if m == () or abs(c) < Fraction(1, 4) or abs(c) > 20:
                                take(c)
            todo.extend(t.args)
    return tuple(sorted(out))[:12]


SMALLEST_LARGE, LARGEST = 40, 65536


def whole_numbers(t, compared):
    """the whole numbers occurring in a term; with `compared`, only those that counts are compared with or divided by"""
    out, seen, todo = set(), set(), [t]

    def take(x):
        if isinstance(x, tm.T) and x.op == 'const':
            take(x.args[0])
        elif isinstance(x, tm.T) and x.op == 'poly':
            for m, c in x.args[0]:
                take(c)
        elif isinstance(x, (int, Fraction)) and not isinstance(x, bool) and x == int(x):
            out.add(abs(int(x)))
    while todo:
        t = todo.pop()
        if isinstance(t, tuple):
            todo.extend(t)
        elif isinstance(t, tm.T) and t not in seen:
            seen.add(t)
            if not compared:
                take(t)
            elif t.op in CMP or t.op in ('floordiv', 'mod'):
                xs = [x for x in t.args if isinstance(x, tm.T)]
                if xs and all(tm.is_int(x) for x in xs):
                    for x in xs:
                        take(x)
            todo.extend(t.args)
    return out


def scaling(a, b):
    """large whole thresholds that only the code compares counts with, made small: {1000: 3, 1001: 4}"""
    big = sorted(c for c in whole_numbers(a, True) if SMALLEST_LARGE < c <= LARGEST and set(str(c)) != {'9'})
    if not big:
        return None
    ref = whole_numbers(b, False)
    out, last, r = {}, None, 2
    for c in big:
        if c not in ref:
            r += 1 if last is None else min(c - last, 2)
            last = c
            out[c] = r
    return out or None


def near_thresholds(a, b):
    """whole thresholds of moderate size that only the code has"""
    ref = whole_numbers(b, False)
    return tuple(sorted(c for c in whole_numbers(a, True) if 4 < c <= SMALLEST_LARGE and c not in ref))


PINNED = {'real', 'pos', 'nonneg', 'nanreal', 'nanpos', 'unit', 'share', 'int', 'nat'}


def pinned(a, b):
    """{leaf: values}: values at and between the constants of the conditions that only the code has, for the leaves these
    conditions ask about; several conditions together, or about differences, ratios and sums, are rarely met by chance"""
    def atoms(t):
        out, seen, todo = set(), set(), [t]
        while todo:
            t = todo.pop()
            if isinstance(t, tuple):
                todo.extend(t)
            elif isinstance(t, tm.T) and t not in seen:
                seen.add(t)
                if t.op in ('eq', 'lt', 'le'):
                    out.add(t)
                todo.extend(t.args)
        return out
    new = atoms(a)
    if not new:
        return {}
    out = {}
    for t in sorted(new - atoms(b), key=lambda x: x.id)[:40]:
        leaves, cs, ks, sums, seen, todo = {}, set(), set(), False, set(), list(t.args)
        while todo and len(seen) < 400:
            x = todo.pop()
            if isinstance(x, tuple):
                todo.extend(x)
                continue
            if not isinstance(x, tm.T) or x in seen:
                continue
            seen.add(x)
            if x.op in ('sym', 'app'):
                if x.args[1] and x.args[1][0] in PINNED:
                    leaves[x.op + ':' + x.args[0]] = 1
                continue
            if x.op == 'const' and tm.is_num_const(x):
                cs.add(x.args[0])
            elif x.op == 'poly':
                for m, c in x.args[0]:
                    if m == ():
                        cs.add(c)
                    elif 0 < abs(abs(c) - 1) < Fraction(1, 10):
                        ks.add(abs(c))
            elif x.op == 'red':
                sums = True
            todo.extend(x.args)
        if not leaves or len(leaves) > 4 or len(cs) > 4:
            continue
        vals = set()
        for c in cs:
            if not isinstance(c, (int, Fraction)):
                continue
            vals.add(c)
            if t.op != 'eq' and 0 < abs(c) < 1:
                vals |= {c / 2, 2 * c, 1, 1 + Fraction(c) / 2}
            elif sums:
                vals |= {0, Fraction(c) / 2, Fraction(c) / 4}
        for k in ks:
            vals |= {1, (1 + Fraction(k)) / 2}
        if vals:
            for n in leaves:
                out.setdefault(n, set()).update(vals)
    return {k: sorted(v)[:10] for k, v in out.items()}


def rescaled(a, b, remap, counts, pins, samples, seed, assume, over):
    """a valuation on which the code differs from the reference at thresholds that only the code has: counts are placed next to
    the moderate ones, and large ones are made small numbers, as the paths beyond them cannot be reached by evaluation"""
    decided = 0
    for s in range(samples * 8):
        if decided >= samples:
            return None
        o = over(s) if over else None
        v, w = Valuation('%sk%d' % (seed, s), o), Valuation('%sk%d' % (seed, s), o)
        w.remap = remap
        if s % 2 or not remap:
            v.counts = w.counts = counts
        if s % 4 < 2 or not (remap or counts):
            v.pins = w.pins = pins
        try:
            if assume is not None and not truthv(v.ev(assume, {})):
                continue
            vb = v.ev(b, {})
            va = w.ev(a, {})
        except (OutOfRange, Undecided, IndexError):
            continue
        decided += 1
        if not close(va, vb):
            return s, va, vb
    return None


_VALS, _SIZE = {}, [0]


def valuation(seed, cs):
    """the valuation of a seed with what it has evaluated so far: the obligations of a section share most of their terms"""
    v = _VALS.get((seed, cs))
    if v is None:
        v = _VALS[(seed, cs)] = Valuation(seed)
    if v.steps:
        _SIZE[0] += v.steps
        v.steps = 0
        if _SIZE[0] > 1500000:
            _VALS.clear()
            _KC.clear()
            _SIZE[0] = 0
            v = _VALS[(seed, cs)] = Valuation(seed)
    return v


def compare(a, b, samples=60, seed='r', assume=None, over=None, enough=10**9):
    """('same' | 'equal' | 'differ' | 'oor' | 'undecided', info); valuations for which the reference is not defined
    are skipped and counted"""
    if a is b or tm.canon(a) == tm.canon(b):
        return 'same', None
    und = None
    decided = skipped = 0
    cs = thresholds(a, b)
    began = time.process_time()
    for s in range(samples * 16):
        if decided >= samples or decided >= enough and time.process_time() - began > 1:
            break
        v = valuation('%s%d' % (seed, s), cs) if over is None else Valuation('%s%d' % (seed, s), over(s))
        v.consts = cs
        try:
            if assume is not None and not truthv(v.ev(assume, {})):
                continue
            vb = v.ev(b, {})
        except OutOfRange:
            skipped += 1
            continue
        except Undecided as e:
            return 'undecided', 'reference: %s' % e
        decided += 1
        try:
            va = v.ev(a, {})
        except BadIndex as e:
            return 'differ', (s, ('raises', str(e)), vb)
        except OutOfRange as e:
            # the reference is defined here but the code leaves the domain
            und = ('oor', s, str(e))
            continue
        except Undecided as e:
            return 'undecided', str(e)
        if not close(va, vb):
            return 'differ', (s, va, vb)
    if und is not None:
        return 'oor', und
    if decided < max(3, samples // 10):
        return 'undecided', 'only %d valuations decided' % decided
    remap, counts = (scaling(a, b), near_thresholds(a, b)) if over is None else (None, ())
    pins = pinned(a, b)
    if remap or counts or pins:
        hit = rescaled(a, b, remap, counts, pins, max(samples, 120) if remap or counts else samples, seed, assume, over)
        if hit:
            return 'differ', hit
    return 'equal', '%d%s' % (decided, ' (%d undefined)' % skipped if skipped else '')
