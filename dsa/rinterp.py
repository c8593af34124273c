"""Random interpretation of summaries (Gulwani & Necula): two canonical terms
that are not syntactically equal are compared under random interpretations of
their symbols and uninterpreted functions.  Nothing of the package is run;
only terms extracted from the source are interpreted.  A difference is
reported only when the interpretations disagree."""
import hashlib
import itertools
import math
import time
from fractions import Fraction
from .terms import *
from . import terms as T


class BadPoint(Exception):
    """the interpretation is outside the domain of a term"""


class TooBig(Exception):
    pass


NAN = ('nan',)
MAXN = 20000


def hkey(v):
    """hashable rounded key of a value"""
    if isinstance(v, bool):
        return '1' if v else '0'
    if v is None or isinstance(v, str):
        return repr(v)
    if isinstance(v, (int, Fraction, float)):
        try:
            x = float(v)
        except OverflowError:
            return 'big'
        if x != x or x in (math.inf, -math.inf):
            raise BadPoint()
        if abs(x) < 1e-9:
            return '0'
        return '%.7g' % x
    if isinstance(v, (list, tuple)):
        return '[' + ','.join(hkey(x) for x in v) + ']'
    return repr(v)


class Interp:
    def __init__(self, seed, fixed=None, dims=None, ranges=None, coin=False):
        self.zero = ()
        self.ranges = ranges or {}
        self.coin = coin
        self.seed = seed
        self.memo = {}
        self.steps = 0
        self.fixed = fixed or {}
        self.dims = dims or ((2, 4), (4, 7), (5, 8))[seed // 3 % 3]
        self.mode = (0, 1, 2, 0)[seed % 4]
        self.force = {}         # key of an uninterpreted value -> value
        self.watch = None       # atom id -> environments it was met in
        self.maxsteps = 3000000
        self.maxn = MAXN
        self.common = ()
        self.part = ()

    # ------------------------------------------------------------- hashing
    def h(self, *key):
        s = '%s|%s' % (self.seed, '|'.join(key))
        d = hashlib.blake2b(s.encode(), digest_size=8).digest()
        return int.from_bytes(d, 'big')

    def rnd(self, a, *key):
        """random value with the type facts of atom a"""
        if self.force and key in self.force:
            return self.force[key]
        x = self.h(*key)
        if a.boolean:
            return bool(x & 1)
        lb = a.lb
        if a.integer:
            if lb is None:
                return x % 11 - 5
            return math.ceil(lb) + x % (8 if a.kind == 'item' else 4)
        f = Fraction(x % 60013, 10007) - 3          # in (-3, 3)
        if a.kind in ('sym', 'elem') and self.mode:
            # coincidences: small integers, halves
            f = Fraction(x % 4 - 1) if self.mode == 1 else \
                Fraction(x % 5, 2)
        if self.coin and a.kind == 'el' and x % 5 == 0:
            f = Fraction(0)
        if lb is not None:
            return Fraction(lb) + abs(f)
        return f

    # --------------------------------------------------------------- terms
    def ev(self, t, env):
        self.steps += 1
        if self.steps > self.maxsteps:
            raise TooBig()
        if isinstance(t, Rat):
            n = self.poly(t.num, env)
            if len(t.den) == 1 and ONE_M in t.den:
                return n / t.den[ONE_M] if t.den[ONE_M] != 1 else n
            d = self.poly(t.den, env)
            if d == 0 or isinstance(d, float) and abs(d) < 1e-12:
                raise BadPoint()
            return fdiv(n, d)
        if isinstance(t, Ite):
            return self.ev(t.hi if self.truth(self.at(t.pred, env))
                           else t.lo, env)
        if isinstance(t, Const):
            return t.v
        if isinstance(t, Struct):
            return self.struct(t, env)
        if isinstance(t, tuple):
            return [self.ev(x, env) for x in t]
        return t

    def truth(self, v):
        if isinstance(v, (list, tuple)):
            return len(v) > 0
        return bool(v)

    def poly(self, p, env):
        tot = 0
        for m, c in p.items():
            x = c
            for i, e in m:
                v = self.at(Atom.by_id[i], env)
                v = self.numv(v)
                x = fmul(x, v ** e if e >= 0 else fdiv(1, v ** -e))
            tot = tot + x
        return tot

    def numv(self, v):
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, (int, Fraction, float)):
            return v
        return Fraction(self.h('numv', hkey(v)) % 60013, 10007) - 3

    def at(self, a, env):
        bnd = tuple((n, env[n]) for n in sorted(a.syms) if n in env) \
            if env else ()
        k = (a.id, bnd)
        if k in self.memo:
            r = self.memo[k]
            if r is NAN:
                raise BadPoint()
            return r
        if self.watch is not None and a.id in self.watch:
            w = self.watch[a.id]
            if len(w) < 40:
                w.append(dict(env))
        try:
            r = self.at_(a, env)
        except BadPoint:
            self.memo[k] = NAN
            raise
        if len(self.memo) < 400000:
            self.memo[k] = r
        return r

    def at_(self, a, env):
        if a.id in self.part:
            h = self.h('part', str(a.id), repr(
                [(n, hkey(env[n])) for n in sorted(a.syms) if n in env]))
            return Fraction(h // 8 % 2001, (1000, 4000, 4000, 8000)[h % 4])
        if a.id in self.common:
            # the very same library call in both terms: any value will do
            return self.rnd(a, a.kind, 'id', repr(
                [(n, hkey(env[n])) for n in sorted(a.syms) if n in env]))
        f = getattr(self, 'k_' + a.kind.replace(':', '_'), None)
        if f is not None:
            r = f(a, env)
            if r is not NotImplemented:
                return r
        vals = [self.ev(x, env) for x in a.args]
        return self.rnd(a, a.kind, hkey(vals))

    # ------------------------------------------------------------- symbols
    def k_sym(self, a, env):
        n = a.args[0]
        if n in env:
            return env[n]
        if self.force and ('sym', n) in self.force:
            return self.force['sym', n]
        if n == 'pi':
            return math.pi
        if n in self.fixed:
            return self.fixed[n]
        if n in self.ranges:
            lo, hi = self.ranges[n]
            if isinstance(hi, Fraction):
                return lo + (hi - lo) * Fraction(self.h('sym', n) % 60013,
                                                 60013)
            return lo + self.h('sym', n) % (hi - lo + 1)
        if a.boolean:
            return bool(self.h('sym', n) & 1)
        if '.dim' in n:
            lo, hi = self.dims
            lb = max(lo, int(a.lb or 0))
            return lb + self.h('sym', n) % (hi - lo + 1)
        return self.rnd(a, 'sym', n)

    def k_linelen(self, a, env):
        key = ('ll', hkey([self.ev(x, env) for x in a.args]))
        if self.force and key in self.force:
            return self.force[key]
        lo = 3 if self.seed % 8 not in (1, 4) else max(1, int(a.lb or 1))
        return lo + self.h(*key) % 3

    # ---------------------------------------------------------- arithmetic
    def n1(self, a, env, k=0):
        return self.numv(self.ev(a.args[k], env))

    def k_sqrt(self, a, env):
        x = self.n1(a, env)
        if x < 0:
            if x > -1e-9:
                return 0
            raise BadPoint()
        if isinstance(x, (int, Fraction)):
            x = Fraction(x)
            p, q = math.isqrt(x.numerator), math.isqrt(x.denominator)
            if p * p == x.numerator and q * q == x.denominator:
                return Fraction(p, q)
        return math.sqrt(x)

    def k_abs(self, a, env):
        return abs(self.n1(a, env))

    def k_sign(self, a, env):
        x = self.n1(a, env)
        if isinstance(x, float) and abs(x) < 1e-12:
            return 0
        return (x > 0) - (x < 0)

    def near(self, x):
        if isinstance(x, float):
            r = round(x)
            if abs(x - r) < 1e-9:
                return r
            if abs(x) > 1e15:
                raise BadPoint()
        return x

    def k_floor(self, a, env):
        return math.floor(self.near(self.n1(a, env)))

    def k_ceil(self, a, env):
        return math.ceil(self.near(self.n1(a, env)))

    def k_trunc(self, a, env):
        return math.trunc(self.near(self.n1(a, env)))

    def k_int(self, a, env):
        v = self.ev(a.args[0], env)
        if isinstance(v, (int, float, Fraction)):
            return math.trunc(self.near(v))
        return NotImplemented

    def k_float(self, a, env):
        v = self.ev(a.args[0], env)
        if isinstance(v, (int, float, Fraction)):
            return v
        return NotImplemented

    def k_round(self, a, env):
        return round(self.near(self.n1(a, env)))

    def k_mod(self, a, env):
        x, y = self.n1(a, env), self.n1(a, env, 1)
        if y == 0:
            raise BadPoint()
        if isinstance(x, float) or isinstance(y, float):
            q = self.near(fdiv(x, y))
            return x - math.floor(q) * y
        return x % y

    def k_sin(self, a, env):
        return math.sin(self.n1(a, env))

    def k_cos(self, a, env):
        return math.cos(self.n1(a, env))

    def k_arctan(self, a, env):
        return math.atan(self.n1(a, env))

    def k_arctan2(self, a, env):
        return math.atan2(self.n1(a, env), self.n1(a, env, 1))

    def k_exp(self, a, env):
        try:
            return math.exp(self.n1(a, env))
        except OverflowError:
            raise BadPoint()

    def k_log(self, a, env):
        x = self.n1(a, env)
        if x <= 0:
            raise BadPoint()
        return math.log(x)

    def k_log10(self, a, env):
        x = self.n1(a, env)
        if x <= 0:
            raise BadPoint()
        return math.log10(x)

    def k_pow(self, a, env):
        x, y = self.n1(a, env), self.n1(a, env, 1)
        try:
            if x == 0 and y < 0:
                raise BadPoint()
            if isinstance(y, Fraction) and y.denominator == 1:
                y = int(y)
            if isinstance(y, int):
                if abs(y) > 60:
                    return float(x) ** y
                return Fraction(x) ** y if isinstance(x, (int, Fraction)) \
                    else x ** y
            r = float(x) ** float(y)
            if isinstance(r, complex):
                raise BadPoint()
            return r
        except (OverflowError, ZeroDivisionError):
            raise BadPoint()

    def k_min(self, a, env):
        return min(self.n1(a, env, k) for k in range(len(a.args)))

    def k_max(self, a, env):
        return max(self.n1(a, env, k) for k in range(len(a.args)))

    def k_clip(self, a, env):
        return min(max(self.n1(a, env), self.n1(a, env, 1)),
                   self.n1(a, env, 2))

    def k_wrap(self, a, env):
        return self.ev(a.args[0], env)

    def k_num(self, a, env):
        return self.numv(self.ev(a.args[0], env))

    # ---------------------------------------------------------- predicates
    def at_zero(self, a, env):
        if self.zero and (a.args[0] in self.zero or
                          neg(a.args[0]) in self.zero):
            k = hkey([env[n] for n in sorted(a.syms) if n in env])
            return self.h('zero', k) & 1 == 1
        return False

    def k_lt0(self, a, env):
        if self.at_zero(a, env):
            return False
        x = self.n1(a, env)
        if isinstance(x, float) and abs(x) < 1e-10:
            raise BadPoint()
        return x < 0

    def k_eq0(self, a, env):
        if self.at_zero(a, env):
            return True
        x = self.n1(a, env)
        if isinstance(x, float):
            return abs(x) < 1e-12
        return x == 0

    def k_eqc(self, a, env):
        v = self.ev(a.args[0], env)
        c = a.args[1]
        if isinstance(c, Const):
            c = c.v
        if isinstance(v, (int, float, Fraction)) and not isinstance(v, bool):
            # a symbol of unknown type compared with a constant: choose
            return bool(self.h('eqc', hkey(v), repr(c)) & 1) \
                if not isinstance(c, (int, float)) else v == c
        return v == c

    def k_eqs(self, a, env):
        return hkey(self.ev(a.args[0], env)) == hkey(self.ev(a.args[1], env))

    # ----------------------------------------------------------- reductions
    def elems(self, l, env):
        """values of a lambda over its index space (row major)"""
        n, dims, body = l.parts
        ns = [self.size(d, env) for d in dims]
        tot = 1
        for x in ns:
            tot *= x
        if tot > self.maxn:
            raise TooBig()
        names = ['$%d.%d' % (l.height, k) for k in range(n)]
        out = []
        for ix in itertools.product(*[range(x) for x in ns]):
            e = dict(env)
            for nm, v in zip(names, ix):
                e[nm] = v
            out.append(self.ev(body, e))
        return ns, out

    def size(self, d, env):
        v = self.ev(d, env)
        if isinstance(v, float):
            v = self.near(v)
        if isinstance(v, (Fraction, float)):
            if v != int(v):
                raise BadPoint()
            v = int(v)
        if not isinstance(v, int) or v < 0:
            raise BadPoint()
        return v

    def k_sum(self, a, env):
        l = a.args[0]
        if not (isinstance(l, Struct) and l.tag == 'lam'):
            return NotImplemented
        n, dims, body = l.parts
        if n != 1:
            return sum(self.numv(x) for x in self.elems(l, env)[1])
        m = self.ev(dims[0], env)
        m = self.near(m)
        if m != int(m):
            raise BadPoint()
        m = int(m)
        if abs(m) > self.maxn:
            raise TooBig()
        nm = '$%d.0' % l.height
        tot = 0
        for k in range(min(m, 0), max(m, 0)):
            e = dict(env)
            e[nm] = k
            x = self.numv(self.ev(body, e))
            tot = tot + x if k >= 0 else tot - x
        return tot

    def vals(self, x, env):
        """flat list of the numbers of a reduction operand"""
        if isinstance(x, Struct) and x.tag == 'lam':
            v = self.elems(x, env)[1]
        else:
            v = self.ev(x, env)
        out = []

        def w(v):
            if isinstance(v, (list, tuple)):
                for y in v:
                    w(y)
            else:
                out.append(self.numv(v))
        w(v)
        if not out:
            raise BadPoint()
        return out

    def red(self, a, env):
        if len(a.args) != 1:
            return None
        x = a.args[0]
        if isinstance(x, Struct):
            return self.vals(x, env)
        return None

    def k_rmin(self, a, env):
        v = self.red(a, env)
        return NotImplemented if v is None else min(v)

    def k_rmax(self, a, env):
        v = self.red(a, env)
        return NotImplemented if v is None else max(v)

    k_ramin, k_ramax = k_rmin, k_rmax

    def k_rmean(self, a, env):
        v = self.red(a, env)
        return NotImplemented if v is None else fdiv(sum(v), len(v))

    def k_rsum(self, a, env):
        v = self.red(a, env)
        return NotImplemented if v is None else sum(v)

    def k_rmedian(self, a, env):
        v = self.red(a, env)
        if v is None:
            return NotImplemented
        v = sorted(v)
        n = len(v)
        return v[n // 2] if n % 2 else fdiv(v[n // 2 - 1] + v[n // 2], 2)

    def k_rargmin(self, a, env):
        v = self.red(a, env)
        return NotImplemented if v is None else self.arg(v, 1)

    def k_rargmax(self, a, env):
        v = self.red(a, env)
        return NotImplemented if v is None else self.arg(v, -1)

    def arg(self, v, s):
        b = 0
        for k, x in enumerate(v):
            if (v[b] - x) * s > 1e-10:
                b = k
        return b

    def k_rstd(self, a, env):
        v = self.red(a, env)
        if v is None:
            return NotImplemented
        m = fdiv(sum(v), len(v))
        return math.sqrt(fdiv(sum((x - m) ** 2 for x in v), len(v)))

    def k_exists(self, a, env):
        return any(self.truth(x) for x in self.elems(a.args[0], env)[1])

    def k_argsort(self, a, env):
        l = a.args[0]
        if not (isinstance(l, Struct) and l.tag == 'lam'):
            return NotImplemented
        v = [self.numv(x) for x in self.elems(l, env)[1]]
        k = self.ev(a.args[1], env)
        o = sorted(range(len(v)), key=lambda j: (round(float(v[j]), 9), j))
        if not 0 <= k < len(o):
            raise BadPoint()
        return o[int(k)]

    def k_nth(self, a, env):
        v = self.ev(a.args[0], env)
        k = self.ev(a.args[1], env)
        if isinstance(v, list) and isinstance(k, (int, Fraction)) and \
                -len(v) <= k < len(v):
            return v[int(k)]
        raise BadPoint()

    def k_sorted(self, a, env):
        v = self.ev(a.args[0], env)
        k = self.ev(a.args[1], env)
        r = self.ev(a.args[2], env)
        if not (isinstance(v, list) and isinstance(k, list) and
                len(v) == len(k)):
            return NotImplemented
        if any(isinstance(x, (list, str)) for x in k):
            return NotImplemented
        o = sorted(range(len(v)), key=lambda j: float(k[j]),
                   reverse=bool(r))
        return [v[j] for j in o]

    def k_len(self, a, env):
        if isinstance(a.args[0], Struct):
            v = self.ev(a.args[0], env)
            if isinstance(v, list):
                return len(v)
        return NotImplemented

    def k_lasthit(self, a, env):
        v = self.elems(a.args[0], env)[1]
        for h in reversed(v):
            if h[0] == 'hit':
                h = h[1:]
            if self.truth(h[0]):
                return h[1]
        return 0

    def k_scatter(self, a, env):
        key, d = a.args[:2]
        idx = [self.ev(x, env) for x in a.args[2:]]
        hit = None
        for h in self.elems(key, env)[1]:
            if h[0] == 'sc':
                h = h[1:]
            if [int(self.near(self.numv(x))) for x in h[:-1]] == \
                    [int(x) for x in idx]:
                hit = h[-1]
        return self.ev(d, env) if hit is None else hit

    def k_scatpos(self, a, env):
        """the positions scattered to and what goes there, inside or
        outside the image"""
        key = sorted(hkey(h) for h in self.elems(a.args[0], env)[1])
        return self.rnd(a, 'scatpos', hkey(key))

    def k_lstsq(self, a, env):
        bag = self.ev(a.args[0], env)
        rows = []
        for r in bag:
            f = []

            def w(v):
                if isinstance(v, (list, tuple)):
                    for y in v:
                        w(y)
                else:
                    f.append(v)
            w(r)
            s = 1
            for x in f:
                x = self.numv(x)
                if abs(x) > 1e-9:
                    s = 1 if x > 0 else -1
                    break
            rows.append(hkey([self.numv(x) * s for x in f]))
        rows.sort()
        k = self.ev(a.args[1], env)
        return self.rnd(a, 'lstsq', ';'.join(rows), hkey(k))

    def k_polyfit(self, a, env):
        key, deg, k = a.args
        if not isinstance(key, Struct) or key.tag != 'bag':
            return NotImplemented
        rows = self.ev(key, env)
        if not isinstance(deg, int) or any(
                not isinstance(r, list) or len(r) != 2 for r in rows):
            return NotImplemented
        mk_ = ('pf', hkey(rows), deg)
        sol = self.memo.get(mk_)
        if sol is None:
            sol = self.memo[mk_] = self.fit(
                [[self.numv(x) for x in r] for r in rows], deg)
        k = self.ev(k, env)
        if sol is NAN or not 0 <= k <= deg:
            raise BadPoint()
        return sol[int(k)]

    def fit(self, rows, deg):
        n = deg + 1
        if len({hkey(r[0]) for r in rows}) < n:
            return NAN
        m = [[0] * (n + 1) for _ in range(n)]
        for x, y in rows:
            pw = [x ** (deg - j) for j in range(n)]
            for i in range(n):
                for j in range(n):
                    m[i][j] += pw[i] * pw[j]
                m[i][n] += pw[i] * y
        for c in range(n):
            p = max(range(c, n), key=lambda r: abs(m[r][c]))
            if abs(m[p][c]) < 1e-12:
                return NAN
            m[c], m[p] = m[p], m[c]
            for r in range(n):
                if r != c and m[r][c] != 0:
                    f = fdiv(m[r][c], m[c][c])
                    m[r] = [u - f * v for u, v in zip(m[r], m[c])]
        out = [fdiv(m[i][n], m[i][i]) for i in range(n)]
        return [float(x) if isinstance(x, Fraction) and
                x.denominator > 10 ** 12 else x for x in out]

    def k_padded(self, a, env):
        key, mode, opts = a.args[:3]
        idx = [self.ev(x, env) for x in a.args[3:]]
        n, dims, body = key.parts
        ns = [self.size(d, env) for d in dims]
        if len(ns) == len(idx) and all(
                isinstance(x, (int, Fraction)) and 0 <= x < m
                for x, m in zip(idx, ns)):
            e = dict(env)
            for k, x in enumerate(idx):
                e['$%d.%d' % (key.height, k)] = int(x)
            return self.ev(body, e)
        return NotImplemented

    # -------------------------------------------------------------- structs
    def struct(self, t, env):
        tag = t.tag
        if tag == 'lam':
            n, dims, body = t.parts
            if any(d == NONE for d in dims):
                out = []
                for k in range(3):
                    e = dict(env)
                    for j in range(n):
                        e['$%d.%d' % (t.height, j)] = Fraction(
                            self.h('lam', str(k), str(j)) % 6007, 1009) - 3
                    try:
                        out.append(self.ev(body, e))
                    except BadPoint:
                        out.append('undef')
                return out
            ns, vals = self.elems(t, env)
            return nest(ns, vals)
        if tag == 'arr':
            return self.arr(t, env)
        if tag in ('vec', 'tup'):
            return [self.ev(x, env) for x in t.parts]
        if tag in ('lst', 'segs'):
            out = []
            for s in t.parts:
                out.extend(self.seg(s, env))
            return out
        if tag == 'bag':
            out = []
            for s in t.parts:
                out.extend(self.seg(s, env))
            return sorted(out, key=hkey)
        if tag == 'choice':
            c, a, b = t.parts
            return self.ev(a if self.truth(self.ev(c, env)) else b, env)
        if tag in ('one', 'grd', 'map'):
            return self.seg(t, env)
        return [tag] + [self.ev(x, env) for x in t.parts]

    def seg(self, s, env):
        if not isinstance(s, Struct):
            return [self.ev(s, env)]
        if s.tag == 'one':
            return [self.ev(s.parts[0], env)]
        if s.tag == 'grd':
            if not self.truth(self.ev(s.parts[0], env)):
                return []
            out = []
            for x in s.parts[1:]:
                out.extend(self.seg(x, env))
            return out
        if s.tag == 'map':
            out = []
            for v in self.elems(s.parts[0], env)[1]:
                out.extend(v)
            return out
        return [self.ev(s, env)]

    def arr(self, t, env):
        shape, body = t.parts
        if isinstance(body, Struct) and body.tag == 'lam':
            ns, vals = self.elems(body, env)
            get = {}
            for ix, v in zip(itertools.product(*[range(x) for x in ns]),
                             vals):
                get[ix] = v
        else:
            ns, get = [], {(): self.ev(body, env)}
        full, it = [], iter(ns)
        for s in shape:
            full.append(next(it) if s == '*' else s)

        def rec(k, fr, cs):
            if k == len(shape):
                v = get[tuple(fr)]
                for j in cs:
                    v = v[j]
                return v
            return [rec(k + 1, fr + [j], cs) if shape[k] == '*'
                    else rec(k + 1, fr, cs + [j]) for j in range(full[k])]
        return rec(0, [], [])


def nest(ns, vals):
    if len(ns) <= 1:
        return vals
    step = 1
    for x in ns[1:]:
        step *= x
    return [nest(ns[1:], vals[k * step:(k + 1) * step])
            for k in range(ns[0])]


def fdiv(a, b):
    if isinstance(a, float) or isinstance(b, float):
        return float(a) / float(b)
    return Fraction(a) / Fraction(b)


def fmul(a, b):
    try:
        return a * b
    except OverflowError:
        raise BadPoint()


def close(a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        return False
    if isinstance(a, (bool, int, float, Fraction)) and \
            isinstance(b, (bool, int, float, Fraction)):
        a, b = float(a), float(b)
        return abs(a - b) <= 1e-6 * max(1.0, abs(a), abs(b))
    return a == b


def boundary(a, b, pc=None):
    """predicates that differ only in strictness (x < 0 against x <= 0):
    interpretations practically never reach such a boundary, so the terms
    are taken to differ"""
    from .frame import atoms_of
    pa = {x.id: x for x in atoms_of(a, ('lt0',))}
    pb = {x.id: x for x in atoms_of(b, ('lt0',))}

    def negs(p):
        out = set()
        for x in p.values():
            r = x.args[0]
            if isinstance(r, Rat) and not is_int(r):
                q = lt0(neg(r))
                if isinstance(q, Ite):
                    out.add(q.pred.id)
        return out
    oa = {k: v for k, v in pa.items() if k not in pb}
    ob = {k: v for k, v in pb.items() if k not in pa}
    if negs(oa) & set(ob):
        return True
    # a strict test present on one side only whose opposite is used too:
    # look at the boundary itself
    for own, every in ((oa, pa), (ob, pb)):
        for x in own.values():
            r = x.args[0]
            if not isinstance(r, Rat) or is_int(r):
                continue
            q = lt0(neg(r))
            if not isinstance(q, Ite) or not (q.pred.id in pa or
                                              q.pred.id in pb):
                continue
            differ = 0
            for seed in range(30):
                I = Interp(seed)
                I.zero = (r,)
                try:
                    if pc is not None and not I.truth(I.ev(pc, {})):
                        continue
                    u, v = I.ev(a, {}), I.ev(b, {})
                except (BadPoint, TooBig, RecursionError, ArithmeticError,
                        TypeError, ValueError, IndexError, KeyError):
                    continue
                if not close(u, v):
                    differ += 1
            if differ >= 2:
                return True
    return False


def compare(a, b, pc=None, tries=120, want=24, fixed=None, dims=None,
            budget=25, ranges=None, coin=False, defined=False, share=()):
    """True: agree on the interpretations tried; False: a witness of the
    difference exists (two of them, to be safe against rounding); None: no
    interpretation could be evaluated"""
    agree = differ = 0
    t0 = time.time()
    common = shared_calls(a, b)
    part = shared_parts(a, b, share) if share else {}
    for seed in range(8 * tries):
        if time.time() - t0 > budget or seed >= tries and agree >= 12:
            break
        I = Interp(seed, fixed, dims, ranges, coin)
        I.common = common
        I.part = part
        try:
            if pc is not None:
                if not I.truth(I.ev(pc, {})):
                    continue
            y = I.ev(b, {})
            try:
                x = I.ev(a, {})
            except (BadPoint, ZeroDivisionError):
                if not defined:
                    raise
                x = NAN
        except (BadPoint, ZeroDivisionError, OverflowError):
            continue
        except (TooBig, RecursionError):
            continue
        except (TypeError, ValueError, IndexError, KeyError):
            continue
        if close(x, y):
            agree += 1
            if agree >= want and not differ:
                break
        else:
            differ += 1
            if differ >= 2:
                return False
    if differ:
        return False
    if agree < 2:
        return None
    if boundary(a, b, pc):
        return False
    left = min(20, max(5, budget - (time.time() - t0)))
    t0 = time.time()
    if directed(a, b, pc, fixed, dims, ranges, coin, left / 2, defined):
        return False
    return not enlarged(a, b, pc, fixed, dims, ranges, coin,
                        left - (time.time() - t0))


def shared_calls(a, b):
    """uninterpreted library calls that occur, once, in both terms"""
    from .frame import atoms_of
    out = []
    per = []
    for t in (a, b):
        d = {}
        for x in atoms_of(t):
            if x.kind.startswith('x:'):
                d.setdefault(x.kind, set()).add(x.id)
        per.append(d)
    for k, v in per[0].items():
        if len(v) == 1 and per[1].get(k) == v:
            out += v
    return frozenset(out)


def shared_parts(a, b, kinds):
    """parts of the given kinds, when both terms have the same ones"""
    from .frame import atoms_of
    pa, pb = ({x.id for x in atoms_of(t, kinds)} for t in (a, b))
    return pa if pa == pb else ()


def tests_of(a, b):
    """decisions (predicates, minima, maxima, clamps) found in only one of
    two terms, as expressions whose sign decides"""
    from .frame import atoms_of
    kinds = ('lt0', 'eq0', 'max', 'min', 'clip')
    pa = {x.id: x for x in atoms_of(a, kinds)}
    pb = {x.id: x for x in atoms_of(b, kinds)}
    out = []
    for own, other in ((pa, pb), (pb, pa)):
        for k, x in own.items():
            if k in other:
                continue
            if x.kind in ('lt0', 'eq0'):
                out.append((x, x.args[0]))
            elif x.kind == 'clip':
                out += [(x, T.sub(x.args[0], x.args[j])) for j in (1, 2)]
            else:
                out += [(x, T.sub(x.args[0], y)) for y in x.args[1:]]
    return [(x, r) for x, r in out if isinstance(r, Rat)]


def leaves(r):
    """uninterpreted values an expression may be linear in"""
    out = []
    for m in r.num:
        for i, e in m:
            x = Atom.by_id[i]
            if e == 1 and x not in out and not x.boolean and (
                    x.kind in ('sym', 'linelen', 'elem', 'el') or
                    not hasattr(Interp, 'k_' + x.kind.replace(':', '_'))):
                out.append(x)
    return out[:4]


def leaf_key(I, x, env):
    if x.kind == 'sym':
        n = x.args[0]
        return None if n in env or n == 'pi' or n in I.fixed \
            else ('sym', n)
    if x.kind == 'linelen':
        return 'll', hkey([I.ev(y, env) for y in x.args])
    return x.kind, hkey([I.ev(y, env) for y in x.args])


SKIP = (BadPoint, TooBig, RecursionError, ArithmeticError, TypeError,
        ValueError, IndexError, KeyError)


def names_of(t):
    from .frame import atoms_of
    return [x for x in atoms_of(t, ('sym',)) if x.args[0] != 'pi' and
            not x.args[0].startswith(('$', 'const:'))]


def differs(J, a, b, pc, defined=False):
    """True, False, or None when not defined there"""
    try:
        if pc is not None and not J.truth(J.ev(pc, {})):
            return None
        y = J.ev(b, {})
        try:
            x = J.ev(a, {})
        except (BadPoint, ZeroDivisionError):
            if not defined:
                raise
            x = NAN
        return not close(x, y)
    except SKIP:
        return None


def enlarged(a, b, pc, fixed, dims, ranges, coin, budget):
    """look for a difference that needs one large extent or count"""
    ss = {x.args[0]: x for t in (a, b) for x in names_of(t)}
    t0 = time.time()
    for n, x in sorted(ss.items()):
        if not x.integer or x.lb is None or x.lb < 0 or \
                n in (fixed or {}) or n in (ranges or {}):
            continue
        for big in (13, 34):
            differ = 0
            for seed in range(3):
                if time.time() - t0 > budget:
                    return False
                I = Interp(3 * seed + 12, fixed, (2, 3), ranges, coin)
                I.maxsteps = 500000
                I.force['sym', n] = max(big, int(x.lb))
                if differs(I, a, b, pc):
                    differ += 1
                    if differ >= 2:
                        return True
    return False


def targets(I, x, r, env, fresh_):
    """choices of one uninterpreted value that bring r to zero or change its
    sign"""
    seed = I.seed
    got = False
    for leaf in leaves(r):
        try:
            k = leaf_key(I, leaf, env)
            if k is None:
                continue
            v0 = I.numv(I.at(leaf, env))
            f0 = I.numv(I.ev(r, env))
            f1 = I.numv(fresh_(seed, {k: v0 + 1}).ev(r, env))
            if f1 == f0:
                continue
            v = v0 - fdiv(f0, f1 - f0)
        except SKIP:
            continue
        got = True
        if leaf.integer:
            v = round(v)
        for d in (0, 1, -1):
            w = v + d
            if leaf.lb is not None and w < leaf.lb:
                continue
            if leaf.integer and abs(w) > 12000:
                continue
            yield {k: w}
    if got:
        return
    # not linear in anything that may be chosen: try magnitudes
    try:
        f0 = I.numv(I.ev(r, env))
    except SKIP:
        return
    for y in names_of(r):
        if y.boolean or y.args[0] in I.fixed or y.args[0] in env:
            continue
        k = 'sym', y.args[0]
        for w in (0, -3, 6, 9, 12, 20, 40, 110, 600) if y.integer else \
                (0, 40, -40, 2000, -2000, 100003, -100003, 10 ** 8):
            if y.lb is not None and w < y.lb:
                continue
            w = w if y.integer else Fraction(w)
            try:
                f1 = I.numv(fresh_(seed, {k: w}).ev(r, env))
            except SKIP:
                continue
            if f1 == 0 or (f1 < 0) != (f0 < 0):
                yield {k: w}
                break


def directed(a, b, pc, fixed, dims, ranges, coin, budget,
             defined=False):
    """look for a difference where a decision made by only one of the terms
    falls the other way: one uninterpreted value is chosen to bring the
    deciding expression to zero and to either side of it"""
    tests = tests_of(a, b)
    if not tests or len(tests) > 60:
        return False
    t0 = time.time()
    common = shared_calls(a, b)

    def fresh_(seed, force, dims=dims):
        if any(isinstance(v, int) and v > 60 and k[0] == 'sym'
               for k, v in force.items()):
            dims = (2, 3)
        I = Interp(seed, fixed, dims, ranges, coin)
        I.force = force
        I.common = common
        I.maxsteps = 800000
        if any(isinstance(v, int) and v > 1000 for v in force.values()):
            I.maxn = 30000
        return I
    for x, r in tests:
        differ = done = 0
        t1 = time.time()
        for seed in range(90):
            if time.time() - t0 > budget or done >= 12 or \
                    time.time() - t1 > max(2, budget / len(tests)):
                break
            I = fresh_(seed, {})
            I.watch = {x.id: []}
            try:
                I.ev(a, {})
                I.ev(b, {})
            except SKIP:
                pass
            envs = I.watch[x.id]
            if not envs:
                continue
            env = envs[seed * 7 % len(envs)]
            for f in targets(I, x, r, env, fresh_):
                d = differs(fresh_(seed, f), a, b, pc, defined)
                if d is None:
                    continue
                done += 1
                if d:
                    differ += 1
                    if differ >= 2:
                        return True
    return False


def refute(cond, pc=None, tries=80, want=12, fixed=None, dims=None):
    """look for interpretations where cond is false: False if found, True if
    cond held on all evaluated ones, None if none could be evaluated"""
    n = bad = 0
    for seed in range(tries):
        I = Interp(seed, fixed, dims)
        try:
            if pc is not None and not I.truth(I.ev(pc, {})):
                continue
            v = I.truth(I.ev(cond, {}))
        except Exception:
            continue
        n += 1
        if not v:
            bad += 1
            if bad >= 2:
                return False
        if n >= want and not bad:
            return True
    if bad:
        return False
    return True if n >= 2 else None


class Mild(Interp):
    """centers inside the image, coefficients of a mild distortion"""

    def __init__(self, seed, *a):
        Interp.__init__(self, seed, None, (3, 9))
        self.mode = 0
        for n in ('xcenter', 'ycenter'):
            self.fixed[n] = Fraction(self.h('sym', n) % 7001, 1009)
        for n in ('index', 'start', 'stop'):
            self.fixed[n] = self.h('sym', n) % 9

    def k_elem(self, a, env):
        if a.args[0] == 'fact':
            k = int(self.ev(a.args[1], env))
            x = Fraction(self.h('fact', str(k)) % 2001, 1000) - 1
            if k and self.seed % 3:
                # a barrel or a pincushion
                x = abs(x) if self.seed % 3 == 1 else -abs(x)
            return 1 + x / 4 if k == 0 else x / 60 / 12 ** (k - 1)
        return NotImplemented


def refute_window(bad, pc, tries=900, want=400):
    """True: no mild interpretation satisfies bad; False: one does"""
    n = k = 0
    t0 = time.time()
    for seed in range(tries):
        if time.time() - t0 > 60:
            break
        I = Mild(seed)
        try:
            if not I.truth(I.ev(pc, {})):
                continue
            v = I.truth(I.ev(bad, {}))
        except (BadPoint, TooBig, ZeroDivisionError, OverflowError,
                TypeError, ValueError):
            continue
        n += 1
        if v:
            k += 1
            if k >= 2:
                return False
        if n >= want:
            break
    if k:
        return False
    return True if n >= 10 else None
