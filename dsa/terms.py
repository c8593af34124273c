"""Value-number terms.

Scalars are reduced, ordered decision diagrams (``Ite`` nodes over interned
predicate atoms) whose leaves are rational functions (``Rat``) with exact
rational coefficients over interned atoms, or constants (``Const``).  Two
scalars are the same value iff their fingerprints agree: a fingerprint is the
residue of the rational function in GF(2**61-1) with every atom mapped to a
residue derived from its own structure (algebraic hashing as used for global
value numbering).  Nothing here runs the analysed program.
"""
import hashlib
from fractions import Fraction

P = (1 << 61) - 1
MAX_MONO = 600
MAX_DD = 700


class Limit(Exception):
    pass


def _h(*parts):
    m = hashlib.blake2b(repr(parts).encode(), digest_size=8)
    return int.from_bytes(m.digest(), 'big') % (P - 2) + 1


# ---------------------------------------------------------------- atoms
class Atom:
    __slots__ = ('kind', 'args', 'fp', 'id', 'integer', 'lb', 'boolean',
                 'syms', 'unk', 'key', 'height')
    table = {}
    by_id = []

    def __repr__(self):
        return show_atom(self)


def arg_key(a):
    if isinstance(a, (Rat, Const, Ite, Struct)):
        return a.fp
    if isinstance(a, tuple):
        return tuple(arg_key(x) for x in a)
    return a


def arg_syms(a):
    if isinstance(a, (Rat, Const, Ite, Struct)):
        return a.syms
    if isinstance(a, tuple):
        s = frozenset()
        for x in a:
            s = s | arg_syms(x)
        return s
    return frozenset()


def arg_height(a):
    if isinstance(a, (Rat, Const, Ite, Struct)):
        return a.height
    if isinstance(a, tuple):
        return max([0] + [arg_height(x) for x in a])
    return 0


def arg_unk(a):
    if isinstance(a, (Rat, Const, Ite, Struct)):
        return a.unk
    if isinstance(a, tuple):
        s = frozenset()
        for x in a:
            s = s | arg_unk(x)
        return s
    return frozenset()


NOUNK = frozenset()


def atom(kind, args=(), integer=False, lb=None, boolean=False, unk=False):
    key = (kind, tuple(arg_key(a) for a in args))
    a = Atom.table.get(key)
    if a is not None:
        return a
    a = Atom()
    a.kind = kind
    a.args = tuple(args)
    a.key = key
    a.fp = _h('atom', key)
    a.id = len(Atom.by_id)
    a.integer = integer
    a.lb = lb
    a.boolean = boolean
    s = frozenset()
    u = frozenset([kind]) if unk else NOUNK
    h = 0
    for x in args:
        s = s | arg_syms(x)
        u = u | arg_unk(x)
        h = max(h, arg_height(x))
    a.syms = s
    a.unk = u
    a.height = h
    Atom.by_id.append(a)
    Atom.table[key] = a
    return a


def sym(name, integer=False, lb=None, boolean=False, unk=False):
    key = ('sym', (name,))
    a = Atom.table.get(key)
    if a is None:
        a = atom('sym', (name,), integer=integer, lb=lb, boolean=boolean,
                 unk=unk)
        a.syms = frozenset([name])
    return a


# ---------------------------------------------------------------- polynomials
# a polynomial is a dict {monomial: Fraction}; a monomial is a tuple of
# (atom id, exponent) sorted by atom id
ONE_M = ()


def p_const(c):
    c = Fraction(c)
    return {ONE_M: c} if c else {}


def p_add(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + c * k
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def m_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted((a, e) for a, e in d.items() if e))


def p_mul(a, b):
    if len(a) * len(b) > 40 * MAX_MONO:
        raise Limit('poly')
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = m_mul(m1, m2)
            v = r.get(m, 0) + c1 * c2
            if v:
                r[m] = v
            else:
                r.pop(m, None)
    if len(r) > MAX_MONO:
        raise Limit('poly')
    return r


def p_scale(a, k):
    return {m: c * k for m, c in a.items()} if k else {}


def p_fp(a):
    t = 0
    for m, c in a.items():
        v = c.numerator % P
        if c.denominator != 1:
            v = v * pow(c.denominator % P, P - 2, P) % P
        for i, e in m:
            f = Atom.by_id[i].fp
            v = v * (f if e == 1 else pow(f, e, P)) % P
        t = (t + v) % P
    return t


def m_divides(m1, m2):
    """m2 / m1 or None"""
    d = dict(m2)
    for a, e in m1:
        r = d.get(a, 0) - e
        if r < 0:
            return None
        if r:
            d[a] = r
        else:
            d.pop(a, None)
    return tuple(sorted(d.items()))


def m_order(m):
    return (sum(e for _, e in m), m)


def p_lead(a):
    # lexicographic leading monomial by atom id (a proper monomial order)
    return max(a, key=lambda m: _lexkey(m))


def _lexkey(m):
    # lex order: higher exponent on smaller atom id wins
    return tuple((-a, e) for a, e in m) + ((-10 ** 9, 0),)


def p_div(a, b):
    """exact division a/b, None when not exact"""
    if not b:
        return None
    if len(b) == 1:
        (mb, cb), = b.items()
        r = {}
        for m, c in a.items():
            q = m_divides(mb, m)
            if q is None:
                return None
            r[q] = c / cb
        return r
    if len(a) > 200 or len(b) > 40:
        return None
    lb = p_lead(b)
    cb = b[lb]
    q = {}
    a = dict(a)
    steps = 0
    while a:
        steps += 1
        if steps > 200:
            return None
        la = p_lead(a)
        m = m_divides(lb, la)
        if m is None:
            return None
        c = a[la] / cb
        q[m] = q.get(m, 0) + c
        a = p_add(a, p_mul({m: c}, b), -1)
    return q


def p_divrem(a, b):
    """division with remainder by the leading monomial of b"""
    lb = p_lead(b)
    cb = b[lb]
    q, rem = {}, {}
    a = dict(a)
    for _ in range(60):
        if not a:
            return q, rem
        la = p_lead(a)
        m = m_divides(lb, la)
        if m is None:
            rem[la] = a.pop(la)
            continue
        c = a[la] / cb
        q[m] = q.get(m, 0) + c
        a = p_add(a, p_mul({m: c}, b), -1)
    return None


UB = {}          # index symbol -> its extent


def small_rem(a, b):
    """(q, rem) with a = q*b + rem, q an integer and 0 <= rem < b"""
    if len(a.num) > 40 or len(b.num) > 10 or not b.num or \
            len(a.den) != 1 or ONE_M not in a.den or \
            len(b.den) != 1 or ONE_M not in b.den:
        return None
    an = p_scale(a.num, 1 / a.den[ONE_M])
    bn = p_scale(b.num, 1 / b.den[ONE_M])
    r = p_divrem(an, bn)
    if r is None:
        return None
    q = rat(r[0]) if r[0] else ZERO_R
    rem = rat(r[1]) if r[1] else ZERO_R
    if not isinstance(q, Rat) or not isinstance(rem, Rat) or not is_int(q):
        return None
    c = rem.const()
    if c is not None:
        l = lower(b)
        if c >= 0 and l is not None and l > c:
            return q, rem
        if c == 0 and positive(b):
            return q, rem
        return None
    at = the_atom(rem)
    if at is not None and at.kind == 'sym':
        u = UB.get(at.args[0])
        if u is not None and u == b:
            return q, rem
    if at is not None and at.kind == 'mod' and at.args[1] == b:
        return q, rem
    return None


# ---------------------------------------------------------------- scalars
class Scalar:
    __slots__ = ()

    def __add__(self, o):
        return add(self, o)

    def __sub__(self, o):
        return sub(self, o)

    def __mul__(self, o):
        return mul(self, o)

    def __truediv__(self, o):
        return div(self, o)

    def __neg__(self):
        return neg(self)


class Rat(Scalar):
    __slots__ = ('num', 'den', 'fp', 'syms', 'unk', 'height', '_atoms')

    def __init__(self, num, den):
        self.num = num
        self.den = den
        d = p_fp(den)
        self.fp = ('r', p_fp(num) if d == 1 else
                   p_fp(num) * pow(d, P - 2, P) % P)
        s = frozenset()
        u = NOUNK
        h = 0
        for p in (num, den):
            for m in p:
                for i, _ in m:
                    a = Atom.by_id[i]
                    s = s | a.syms
                    u = u | a.unk
                    h = max(h, a.height)
        self.syms = s
        self.unk = u
        self.height = h

    def __repr__(self):
        return show(self)

    def __eq__(self, o):
        return isinstance(o, Rat) and self.fp == o.fp

    def __hash__(self):
        return hash(self.fp)

    def const(self):
        """Fraction or None"""
        if not self.num:
            return Fraction(0)
        if len(self.num) == 1 and ONE_M in self.num and len(self.den) == 1 \
                and ONE_M in self.den:
            return self.num[ONE_M] / self.den[ONE_M]
        return None


class Const(Scalar):
    """a non-numeric constant: str, bool, None, type names ..."""
    __slots__ = ('v', 'fp')
    syms = frozenset()
    unk = NOUNK
    height = 0

    def __init__(self, v):
        self.v = v
        self.fp = ('c', repr(v))

    def __repr__(self):
        return repr(self.v)

    def __eq__(self, o):
        return isinstance(o, Const) and self.fp == o.fp

    def __hash__(self):
        return hash(self.fp)


class Ite(Scalar):
    __slots__ = ('pred', 'hi', 'lo', 'fp', 'syms', 'unk', 'height', 'size')

    def __init__(self, pred, hi, lo):
        self.pred = pred
        self.hi = hi
        self.lo = lo
        self.fp = ('i', _h('ite', pred.id, hi.fp, lo.fp))
        self.syms = pred.syms | hi.syms | lo.syms
        self.unk = pred.unk | hi.unk | lo.unk
        self.height = max(pred.height, hi.height, lo.height)
        self.size = 1 + getattr(hi, 'size', 1) + getattr(lo, 'size', 1)

    def __repr__(self):
        return show(self)

    def __eq__(self, o):
        return isinstance(o, Ite) and self.fp == o.fp

    def __hash__(self):
        return hash(self.fp)


class Struct(Scalar):
    """reified composite: tag + parts (scalars, structs, tuples, python
    constants); used as atom argument and as canonical form of containers"""
    __slots__ = ('tag', 'parts', 'fp', 'syms', 'unk', 'height')

    def __init__(self, tag, parts, height=None, syms=None):
        self.tag = tag
        self.parts = tuple(parts)
        self.fp = ('s', _h('struct', tag, tuple(arg_key(x) for x in parts)))
        s = frozenset()
        u = NOUNK
        h = 0
        for x in parts:
            s = s | arg_syms(x)
            u = u | arg_unk(x)
            h = max(h, arg_height(x))
        self.syms = s if syms is None else syms
        self.unk = u
        self.height = h if height is None else height

    def __repr__(self):
        return show(self)

    def __eq__(self, o):
        return isinstance(o, Struct) and self.fp == o.fp

    def __hash__(self):
        return hash(self.fp)


TRUE = Const(True)
FALSE = Const(False)
NONE = Const(None)


def is_scalar(v):
    return isinstance(v, Scalar)


def boolc(b):
    return TRUE if b else FALSE


_simpl = {'on': True}


def _special(m):
    """does the monomial contain reducible atoms"""
    for i, e in m:
        k = Atom.by_id[i].kind
        if e >= 2 and k in ('sqrt', 'abs', 'sin') or e >= 3 and k == 'sign':
            return True
    return False


def rat(num, den=None):
    """normalising constructor"""
    if den is None:
        den = {ONE_M: Fraction(1)}
    if not num:
        return ZERO_R
    if any(_special(m) for m in num) or any(_special(m) for m in den):
        n = _reduce(num)
        d = _reduce(den)
        return div(n, d)
    # monomial content
    if not (len(den) == 1 and ONE_M in den):
        # cancel common monomials
        common = None
        for p in (num, den):
            for m in p:
                d = dict(m)
                if common is None:
                    common = d
                else:
                    common = {a: min(e, d[a]) for a, e in common.items()
                              if a in d}
                if not common:
                    break
            if not common:
                break
        if common:
            cm = tuple(sorted(common.items()))
            num = {m_divides(cm, m): c for m, c in num.items()}
            den = {m_divides(cm, m): c for m, c in den.items()}
        if len(den) > 1:
            q = p_div(num, den)
            if q is not None:
                num, den = q, {ONE_M: Fraction(1)}
            elif len(num) > 1:
                q = p_div(den, num)
                if q is not None:
                    num, den = {ONE_M: Fraction(1)}, q
        # rationalise a monomial denominator holding a square root
        if len(den) == 1:
            (m, c), = den.items()
            for i, e in m:
                if Atom.by_id[i].kind == 'sqrt':
                    s = {((i, 1),): Fraction(1)}
                    return div(rat(p_mul(num, s)), rat(p_mul(den, s)))
    # normalise the leading coefficient of the denominator
    lm = min(den, key=m_order)
    k = den[lm]
    if k != 1:
        num = {m: c / k for m, c in num.items()}
        den = {m: c / k for m, c in den.items()}
    return Rat(num, den)


def _reduce(p):
    plain = {}
    total = None
    for m, c in p.items():
        if not _special(m):
            plain[m] = c
            continue
        t = num_(c)
        for i, e in m:
            a = Atom.by_id[i]
            if a.kind == 'sqrt' and e >= 2:
                t = mul(t, ipow(a.args[0], e // 2))
                e = e % 2
            elif a.kind == 'abs' and e >= 2:
                t = mul(t, ipow(a.args[0], e - e % 2))
                e = e % 2
            elif a.kind == 'sin' and e >= 2:
                c2 = mul(cos_(a.args[0]), cos_(a.args[0]))
                t = mul(t, ipow(sub(num_(1), c2), e // 2))
                e = e % 2
            elif a.kind == 'sign' and e >= 3:
                e = 1 if e % 2 else 2
            if e:
                t = mul(t, Rat({((i, e),): Fraction(1)},
                               {ONE_M: Fraction(1)}))
        total = t if total is None else add(total, t)
    r = Rat(plain, {ONE_M: Fraction(1)}) if plain else ZERO_R
    return r if total is None else add(r, total)


ZERO_R = Rat({}, {ONE_M: Fraction(1)})
_num_cache = {}


def num_(c):
    c = Fraction(c)
    r = _num_cache.get(c)
    if r is None:
        r = Rat(p_const(c), {ONE_M: Fraction(1)})
        _num_cache[c] = r
    return r


def of_atom(a):
    return Rat({((a.id, 1),): Fraction(1)}, {ONE_M: Fraction(1)})


def the_atom(r):
    """the atom when r is exactly one atom"""
    if isinstance(r, Rat) and len(r.num) == 1 and len(r.den) == 1 \
            and ONE_M in r.den:
        (m, c), = r.num.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return Atom.by_id[m[0][0]]
    return None


def wrap(r):
    """opaque atom standing for a term that grew too large"""
    return of_atom(atom('wrap', (r,)))


# ---------------------------------------------------------------- DD apply
def top_pred(args):
    best = None
    for a in args:
        if isinstance(a, Ite) and (best is None or a.pred.id < best.id):
            best = a.pred
    return best


def cof(a, pred, val):
    if isinstance(a, Ite):
        if a.pred is pred:
            return a.hi if val else a.lo
    return a


_apply_budget = [0]


def apply(f, *args):
    memo = {}

    def rec(args):
        p = top_pred(args)
        if p is None:
            return f(*args)
        k = tuple(arg_key(a) for a in args)
        r = memo.get(k)
        if r is not None:
            return r
        if len(memo) > 4 * MAX_DD:
            raise Limit('dd')
        hi = rec(tuple(assume(cof(a, p, True), p, True) for a in args))
        lo = rec(tuple(assume(cof(a, p, False), p, False) for a in args))
        r = mk_ite(p, hi, lo)
        memo[k] = r
        return r
    return rec(args)


def ite(c, a, b):
    """c boolean DD; a, b scalars"""
    if c == TRUE:
        return a
    if c == FALSE:
        return b
    if a == b:
        return a

    def leaf(c, a, b):
        if c == TRUE:
            return a
        if c == FALSE:
            return b
        raise Limit('ite condition %r' % (c,))
    return apply(leaf, as_bool(c), a, b)


def mk_ite(pred, hi, lo):
    if hi == lo:
        return hi
    hi = assume(hi, pred, True)
    lo = assume(lo, pred, False)
    if hi == lo:
        return hi
    r = minmax_rule(pred, hi, lo)
    if r is not None:
        return r
    # keep the diagram ordered: when a child tests an earlier predicate
    # (can happen after rewriting), rotate
    for c in (hi, lo):
        if isinstance(c, Ite) and c.pred.id <= pred.id:
            q = min(x.pred.id for x in (hi, lo) if isinstance(x, Ite))
            q = Atom.by_id[q]
            if q is pred:
                return mk_ite(pred, cof(hi, pred, True), cof(lo, pred, False))
            h = mk_ite(pred, cof(hi, q, True), cof(lo, q, True))
            l_ = mk_ite(pred, cof(hi, q, False), cof(lo, q, False))
            return mk_ite(q, h, l_)
    r = Ite(pred, hi, lo)
    if r.size > MAX_DD:
        raise Limit('dd')
    return r


def minmax_rule(pred, hi, lo):
    if pred.kind != 'lt0' or not isinstance(hi, Rat) \
            or not isinstance(lo, Rat):
        # ite(x == 0, 0, x) and the like
        if pred.kind == 'eq0' and isinstance(hi, Rat) and isinstance(lo, Rat):
            a = pred.args[0]
            d = sub(hi, lo)
            if proportional(d, a) is not None:
                return lo
        return None
    d = sub(hi, lo)
    k = proportional(d, pred.args[0])
    if k is None and pred.args[1]:
        # integer predicates were shifted: p<0 stands for p+1<=0
        k = proportional(d, add(pred.args[0], num_(1)))
    if k is None:
        return None
    return mk_min(hi, lo) if k > 0 else mk_max(hi, lo)


def proportional(a, b):
    """k with a == k*b (rational constant), or None"""
    if not isinstance(a, Rat) or not isinstance(b, Rat):
        return None
    if not a.num or not b.num:
        return None
    # quick test through fingerprints of the ratio is not a constant test;
    # use the structures
    if a.den != b.den:
        q = div(a, b)
        return q.const() if isinstance(q, Rat) else None
    if set(a.num) != set(b.num):
        return None
    k = None
    for m, c in a.num.items():
        r = c / b.num[m]
        if k is None:
            k = r
        elif k != r:
            return None
    return k


# ---- theory of predicates
_imp_cache = {}


def implied(p, val, q):
    """does (p == val) decide q?  True/False/None"""
    if p is q:
        return val
    key = (p.id, val, q.id)
    if key in _imp_cache:
        return _imp_cache[key]
    r = _implied(p, val, q)
    _imp_cache[key] = r
    return r


EXCL = {'bool': {'tuple', 'list', 'str', 'float', 'ndarray', 'dict',
                 'Path', 'integer'},
        'int': {'tuple', 'list', 'str', 'float', 'ndarray', 'dict', 'Path',
                'integer'},
        'integer': {'tuple', 'list', 'str', 'float', 'ndarray', 'dict',
                    'Path'},
        'tuple': {'list', 'str', 'float', 'ndarray', 'dict', 'Path'},
        'list': {'str', 'float', 'ndarray', 'dict', 'Path'},
        'str': {'float', 'ndarray', 'dict', 'Path'},
        'float': {'ndarray', 'dict', 'Path'},
        'Group': {'Dataset'}}


def _excl(a, b):
    return b in EXCL.get(a, ()) or a in EXCL.get(b, ())


def _implied(p, val, q):
    if p.kind == 'eqc' and q.kind == 'eqc':
        if p.args[0] == q.args[0] and val and p.args[1] != q.args[1]:
            return False
        return None
    if p.kind == 'isinst' and q.kind == 'isinst' and p.args[0] == q.args[0]:
        a, b = p.args[1], q.args[1]
        if val:
            if a == 'bool' and b == 'int':
                return True
            if _excl(a, b):
                return False
        else:
            if a == 'int' and b == 'bool':
                return False
        return None
    if p.kind == 'isinst' and q.kind == 'eqc' and p.args[0] == q.args[0]:
        v = q.args[1]
        t = {bool: 'bool', str: 'str', type(None): 'NoneType'}.get(type(v))
        if t is None:
            return None
        if val and p.args[1] != t and not (p.args[1] == 'int'
                                           and t == 'bool'):
            return False
        if not val and p.args[1] == t:
            return False
        return None
    if p.kind == 'eqc' and q.kind == 'isinst' and p.args[0] == q.args[0]:
        v = p.args[1]
        t = {bool: 'bool', str: 'str', type(None): 'NoneType'}.get(type(v))
        if t is not None and val:
            return q.args[1] == t or (q.args[1] == 'int' and t == 'bool')
        return None
    if p.kind in ('lt0', 'eq0') and q.kind in ('lt0', 'eq0'):
        return _implied_arith(p, val, q)
    if p.kind == 'truth' and q.kind == 'eqc' and p.args[0] == q.args[0]:
        v = q.args[1]
        if v is True and not val:
            return False
        if v in (False, None) and val:
            return False
        return None
    if q.kind == 'truth' and p.kind == 'eqc' and p.args[0] == q.args[0]:
        if val and isinstance(p.args[1], (bool, type(None))):
            return bool(p.args[1])
        return None
    return None


def _implied_arith(p, val, q):
    a = p.args[0]
    b = q.args[0]
    if not isinstance(a, Rat) or not isinstance(b, Rat):
        return None
    if a.den != b.den:
        return None
    for s in (1, -1):
        d = _rat_const_diff(b, a, s)
        if d is None:
            continue
        integer = bool(p.kind == 'lt0' and p.args[1]) or \
            bool(q.kind == 'lt0' and q.args[1])
        # b = s*a + d
        if p.kind == 'eq0':
            if not val:
                return None
            return (d < 0) if q.kind == 'lt0' else (d == 0)
        if val:      # a < 0
            hi = Fraction(-1) if integer else None    # a <= -1 for integers
            if s == 1:
                # b < d  (b <= d-1 for integers)
                if q.kind == 'lt0':
                    if d <= 0 or (hi is not None and d <= 1 and d - 1 < 0):
                        return True
                else:
                    if d <= 0:
                        return False
            else:
                # b > d
                if q.kind == 'lt0':
                    if d >= 0 or (hi is not None and d + 1 >= 0):
                        return False
                else:
                    if d >= 0:
                        return False
        else:        # a >= 0
            if s == 1:
                if q.kind == 'lt0' and d >= 0:
                    return False
                if q.kind == 'eq0' and d > 0:
                    return False
            else:
                # b <= d
                if q.kind == 'lt0' and d < 0:
                    return True
                if q.kind == 'eq0' and d < 0:
                    return False
        return None
    return None


def _rat_const_diff(b, a, s):
    if len(b.num) > len(a.num) + 1 or len(a.num) > len(b.num) + 1:
        return None
    d = p_add(b.num, a.num, -s)
    if not d:
        return Fraction(0)
    if len(a.den) == 1 and ONE_M in a.den:
        if len(d) == 1 and ONE_M in d:
            return d[ONE_M]
    return None


_assume_cache = {}


def assume(t, pred, val):
    """simplify t under pred == val"""
    if not isinstance(t, Ite):
        return t
    k = (t.fp, pred.id, val)
    r = _assume_cache.get(k)
    if r is not None:
        return r
    d = implied(pred, val, t.pred)
    if d is True:
        r = assume(t.hi, pred, val)
    elif d is False:
        r = assume(t.lo, pred, val)
    else:
        h = assume(t.hi, pred, val)
        l_ = assume(t.lo, pred, val)
        if h is t.hi and l_ is t.lo:
            r = t
        else:
            r = mk_ite(t.pred, h, l_)
    _assume_cache[k] = r
    return r


def under(t, pc):
    """simplify t given that boolean pc holds: replaces decided tests"""
    if not isinstance(t, Ite) or pc == TRUE:
        return t
    p = t.pred
    pt = restrict(pc, p, True)
    if pt == FALSE:
        return under(t.lo, restrict(pc, p, False))
    pf = restrict(pc, p, False)
    if pf == FALSE:
        return under(t.hi, pt)
    h = under(t.hi, pt)
    l_ = under(t.lo, pf)
    if h is t.hi and l_ is t.lo:
        return t
    return mk_ite(p, h, l_)


def restrict(t, pred, val):
    if not isinstance(t, Ite):
        return t
    if t.pred is pred:
        return assume(t.hi if val else t.lo, pred, val)
    return assume_full(t, pred, val)


def assume_full(t, pred, val):
    if not isinstance(t, Ite):
        return t
    if t.pred is pred:
        return t.hi if val else t.lo
    d = implied(pred, val, t.pred)
    if d is True:
        return assume_full(t.hi, pred, val)
    if d is False:
        return assume_full(t.lo, pred, val)
    h = assume_full(t.hi, pred, val)
    l_ = assume_full(t.lo, pred, val)
    if h is t.hi and l_ is t.lo:
        return t
    return mk_ite(t.pred, h, l_)


# ---------------------------------------------------------------- booleans
def as_bool(t):
    """boolean DD of a scalar in a truth context"""
    def leaf(x):
        if isinstance(x, Const):
            return boolc(bool(x.v))
        if isinstance(x, Rat):
            c = x.const()
            if c is not None:
                return boolc(c != 0)
            a = the_atom(x)
            if a is not None and a.boolean:
                return Ite(a, TRUE, FALSE)
            return not_(eq0(x))
        if isinstance(x, Struct):
            return pred_(atom('truth', (x,), boolean=True))
        raise Limit('bool')
    return apply(leaf, t)


def pred_(a):
    return Ite(a, TRUE, FALSE)


def not_(t):
    return apply(lambda x: boolc(not x.v), as_bool(t))


def and_(a, b):
    a = as_bool(a)
    b = as_bool(b)
    if a == TRUE:
        return b
    if b == TRUE:
        return a
    if a == FALSE or b == FALSE:
        return FALSE
    return apply(lambda x, y: boolc(x.v and y.v), a, b)


def or_(a, b):
    return not_(and_(not_(a), not_(b)))


def is_int(r):
    if isinstance(r, Ite):
        return is_int(r.hi) and is_int(r.lo)
    if not isinstance(r, Rat):
        return isinstance(r, Const) and isinstance(r.v, bool)
    if not (len(r.den) == 1 and ONE_M in r.den):
        return False
    k = r.den[ONE_M]
    for m, c in r.num.items():
        if (c / k).denominator != 1:
            return False
        for i, _ in m:
            if not Atom.by_id[i].integer:
                return False
    return True


def lower(r):
    """a lower bound of a Rat from the bounds of its atoms, or None"""
    if not isinstance(r, Rat):
        return None
    if not (len(r.den) == 1 and ONE_M in r.den):
        if nonneg_poly(r.num) and nonneg_poly(r.den):
            return Fraction(0)
        return None
    k = r.den[ONE_M]
    t = Fraction(0)
    for m, c in r.num.items():
        c = c / k
        if not m:
            t += c
            continue
        lo = Fraction(1)
        known = True
        for i, e in m:
            a = Atom.by_id[i]
            if a.lb is None or a.lb < 0:
                if e % 2 == 0:
                    lo = Fraction(0)
                    continue
                known = False
                break
            lo *= Fraction(a.lb) ** e
        if not known:
            return None
        if c < 0:
            return None
        t += c * lo
    return t


def nonneg_poly(p):
    for m, c in p.items():
        if c < 0:
            return False
        for i, e in m:
            a = Atom.by_id[i]
            if e % 2 and (a.lb is None or a.lb < 0):
                return False
    return True


def positive(r):
    b = lower(r)
    if b is not None and b > 0:
        return True
    if isinstance(r, Rat) and nonneg_poly(r.num) and nonneg_poly(r.den) \
            and r.num:
        # a strictly positive constant term
        return ONE_M in r.num
    return False


def nonneg(r):
    if isinstance(r, Ite):
        return nonneg(r.hi) and nonneg(r.lo)
    b = lower(r)
    return b is not None and b >= 0


def scale_pos(r):
    """divide by the absolute value of a canonical coefficient"""
    if not r.num:
        return r, 1
    m = min(r.num, key=m_order)
    # prefer a non-constant monomial so that shifts stay comparable
    ms = [x for x in r.num if x]
    if ms:
        m = min(ms, key=m_order)
    k = r.num[m]
    s = 1 if k > 0 else -1
    k = abs(k)
    if k != 1:
        r = Rat({x: c / k for x, c in r.num.items()}, r.den)
    return r, s


def strip_den(r):
    """drop a denominator that is known to be positive"""
    if not (len(r.den) == 1 and ONE_M in r.den):
        d = Rat(r.den, {ONE_M: Fraction(1)})
        if positive(d) or _sqrt_like(d):
            return Rat(r.num, {ONE_M: Fraction(1)})
    return r


def _sqrt_like(d):
    return False


def lt0(r):
    """r < 0"""
    def leaf(r):
        r = to_num(r)
        if not isinstance(r, Rat):
            return pred_(atom('ltx', (r,), boolean=True))
        c = r.const()
        if c is not None:
            return boolc(c < 0)
        if nonneg(r):
            return FALSE
        n = neg(r)
        if positive(n):
            return TRUE
        r = strip_den(r)
        r, s = scale_pos(r)
        # clear fractions for integer predicates
        if is_int_poly(r):
            k = 1
            for cc in r.num.values():
                k = k * cc.denominator // _gcd(k, cc.denominator)
            g = 0
            for m, cc in r.num.items():
                if m:
                    g = _gcd(g, abs(int(cc * k)))
            g = g or 1
            nu = {}
            for m, cc in r.num.items():
                v = Fraction(int(cc * k), g)
                if not m:
                    # p + c/g < 0 with p integer  <=>  p < -c/g
                    #                              <=>  p - ceil(-c/g) < 0
                    v = Fraction(-_ceil(-v))
                nu[m] = v
            if nu.get(ONE_M) == 0:
                nu.pop(ONE_M)
            r = Rat(nu, {ONE_M: Fraction(1)})
            if s < 0:
                # -q < 0  <=>  q > 0  <=>  not (q - 1 < 0)
                q = neg(r)
                q = sub(q, num_(1))
                return not_(pred_(atom('lt0', (q, True), boolean=True)))
            return pred_(atom('lt0', (r, True), boolean=True))
        return pred_(atom('lt0', (r, False), boolean=True))
    return apply(leaf, r)


def _gcd(a, b):
    while b:
        a, b = b, a % b
    return a


def _ceil(f):
    return -((-f.numerator) // f.denominator)


def is_int_poly(r):
    if not (len(r.den) == 1 and ONE_M in r.den):
        return False
    for m in r.num:
        for i, _ in m:
            if not Atom.by_id[i].integer:
                return False
    return True


def eq0(r):
    def leaf(r):
        r = to_num(r)
        if not isinstance(r, Rat):
            return pred_(atom('eqx', (r,), boolean=True))
        c = r.const()
        if c is not None:
            return boolc(c == 0)
        if positive(r) or positive(neg(r)):
            return FALSE
        # only the numerator matters
        r = Rat(r.num, {ONE_M: Fraction(1)})
        r, s = scale_pos(r)
        if s < 0:
            r = Rat({m: -c for m, c in r.num.items()}, r.den)
        # x**n == 0  <=>  x == 0
        if len(r.num) == 1:
            (m, c), = r.num.items()
            t = FALSE
            if len(m) > 1 or m[0][1] > 1:
                for i, e in m:
                    t = or_(t, eq0(of_atom(Atom.by_id[i])))
                return t
            a = Atom.by_id[m[0][0]]
            if a.kind in ('sqrt', 'abs'):
                return eq0(a.args[0])
        return pred_(atom('eq0', (r,), boolean=True))
    return apply(leaf, r)


def cmp_eq(a, b):
    """a == b for arbitrary scalars"""
    def leaf(a, b):
        ca, cb = is_cst(a), is_cst(b)
        if ca is not NOTC and cb is not NOTC:
            if isinstance(ca, bool) != isinstance(cb, bool) and \
                    not isinstance(ca, (str, type(None))) and \
                    not isinstance(cb, (str, type(None))):
                return boolc(ca == cb)
            return boolc(ca == cb and (isinstance(ca, str)
                                       == isinstance(cb, str)))
        if isinstance(a, Const) and not isinstance(b, Const):
            a, b = b, a
        if isinstance(b, Const):
            aa = the_atom(a) if isinstance(a, Rat) else None
            if aa is not None and aa.boolean and isinstance(b.v, bool):
                t = pred_(aa)
                return t if b.v else not_(t)
            if isinstance(b.v, bool) and isinstance(a, Rat) and aa is None:
                return eq0(sub(a, num_(int(b.v))))
            if aa is not None and aa.kind == 'sym' and aa.boolean and \
                    b.v is None:
                return FALSE
            return pred_(atom('eqc', (a, b.v), boolean=True))
        if isinstance(a, Rat) and isinstance(b, Rat):
            return eq0(sub(a, b))
        if a == b:
            return TRUE
        x, y = sorted((a, b), key=lambda t: str(t.fp))
        return pred_(atom('eqs', (x, y), boolean=True))
    return apply(leaf, a, b)


NOTC = object()


def is_cst(a):
    if isinstance(a, Const):
        return a.v
    if isinstance(a, Rat):
        c = a.const()
        if c is not None:
            return c
    return NOTC


def cmp_lt(a, b):
    return lt0(sub(a, b))


def cmp_le(a, b):
    return not_(lt0(sub(b, a)))


def to_num(a):
    if isinstance(a, Const):
        if isinstance(a.v, bool):
            return num_(int(a.v))
        if isinstance(a.v, (int, Fraction)):
            return num_(a.v)
    return a


# ---------------------------------------------------------------- arithmetic
def _lift(f):
    def g(*args):
        for a in args:
            if isinstance(a, Ite):
                return apply(f, *args)
        return f(*args)
    return g


def _numeric(a):
    a = to_num(a)
    if isinstance(a, Rat):
        return a
    return of_atom(atom('num', (a,)))


@_lift
def add(a, b):
    a, b = _numeric(a), _numeric(b)
    try:
        if a.den == b.den:
            return rat(p_add(a.num, b.num), a.den)
        one = {ONE_M: Fraction(1)}
        if a.den == one:
            return rat(p_add(p_mul(a.num, b.den), b.num), b.den)
        if b.den == one:
            return rat(p_add(a.num, p_mul(b.num, a.den)), a.den)
        q = p_div(a.den, b.den)
        if q is not None:
            return rat(p_add(a.num, p_mul(b.num, q)), a.den)
        q = p_div(b.den, a.den)
        if q is not None:
            return rat(p_add(p_mul(a.num, q), b.num), b.den)
        return rat(p_add(p_mul(a.num, b.den), p_mul(b.num, a.den)),
                   p_mul(a.den, b.den))
    except Limit:
        return add(wrapif(a), wrapif(b))


def wrapif(a):
    if len(a.num) + len(a.den) > 30:
        return wrap(a)
    return a


@_lift
def sub(a, b):
    return add(a, neg(b))


@_lift
def neg(a):
    a = _numeric(a)
    return Rat({m: -c for m, c in a.num.items()}, a.den) if a.num else a


@_lift
def mul(a, b):
    a, b = _numeric(a), _numeric(b)
    if not a.num or not b.num:
        return ZERO_R
    try:
        return rat(p_mul(a.num, b.num), p_mul(a.den, b.den))
    except Limit:
        return mul(wrapif(a), wrapif(b))


@_lift
def div(a, b):
    a, b = _numeric(a), _numeric(b)
    if not b.num:
        return of_atom(atom('divzero', (a,)))
    if not a.num:
        return ZERO_R
    try:
        return rat(p_mul(a.num, b.den), p_mul(a.den, b.num))
    except Limit:
        return div(wrapif(a), wrapif(b))


def ipow(a, n):
    if n == 0:
        return num_(1)
    if n < 0:
        return div(num_(1), ipow(a, -n))
    r = None
    base = a
    while n:
        if n & 1:
            r = base if r is None else mul(r, base)
        n >>= 1
        if n:
            base = mul(base, base)
    return r


@_lift
def power(a, b):
    a, b = _numeric(a), _numeric(b)
    c = b.const()
    if c is not None:
        if c.denominator == 1 and abs(c) <= 12:
            return ipow(a, int(c))
        if c == Fraction(1, 2):
            return sqrt_(a)
        if c == Fraction(-1, 2):
            return div(num_(1), sqrt_(a))
        return of_atom(atom('pow', (a, b)))
    ca = a.const()
    if ca == 1:
        return a
    # split off an integer constant exponent
    if is_int(b):
        k = b.num.get(ONE_M, Fraction(0)) / b.den.get(ONE_M, Fraction(1))
        if k:
            rest = sub(b, num_(k))
            return mul(ipow(a, int(k)), power(a, rest))
        # a leading minus: x**(-n) = 1 / x**n
        if all(cc < 0 for cc in b.num.values()):
            return div(num_(1), power(a, neg(b)))
    return of_atom(atom('pow', (a, b)))


def _rational_sqrt(c):
    if c < 0:
        return None
    import math
    n = math.isqrt(c.numerator)
    d = math.isqrt(c.denominator)
    if n * n == c.numerator and d * d == c.denominator:
        return Fraction(n, d)
    return None


@_lift
def sqrt_(a):
    a = _numeric(a)
    c = a.const()
    if c is not None:
        r = _rational_sqrt(c)
        if r is not None:
            return num_(r)
    # single squared monomial
    one = {ONE_M: Fraction(1)}
    if len(a.num) == 1 and len(a.den) == 1:
        (m, c1), = a.num.items()
        (d, c2), = a.den.items()
        r = _rational_sqrt(c1 / c2)
        if r is not None and m and all(e % 2 == 0 for _, e in m) and \
                all(e % 2 == 0 for _, e in d):
            t = num_(r)
            for i, e in m:
                x = ipow(of_atom(Atom.by_id[i]), e // 2)
                t = mul(t, x if (e // 2) % 2 == 0 else abs_(x))
            for i, e in d:
                x = ipow(of_atom(Atom.by_id[i]), e // 2)
                t = div(t, x if (e // 2) % 2 == 0 else abs_(x))
            return t
    # pull a rational square out
    if a.num:
        m = min(a.num, key=m_order)
        k = a.num[m]
        r = _rational_sqrt(abs(k))
        if r is not None and r not in (0, 1):
            return mul(num_(r), sqrt_(Rat({x: c / abs(k)
                                           for x, c in a.num.items()},
                                          a.den)))
    if a.den != one:
        # sqrt(n/d) = sqrt(n*d)/d for positive d
        d = Rat(a.den, one)
        if positive(d):
            try:
                n2 = rat(p_mul(a.num, a.den))
                return div(sqrt_(n2), d)
            except Limit:
                pass
    return of_atom(atom('sqrt', (a,), lb=0))


@_lift
def abs_(a):
    a = _numeric(a)
    c = a.const()
    if c is not None:
        return num_(abs(c))
    if nonneg(a):
        return a
    if nonneg(neg(a)):
        return neg(a)
    one = {ONE_M: Fraction(1)}
    # single monomials factor
    if len(a.num) == 1 and (len(next(iter(a.num))) > 1
                            or next(iter(a.num))[0][1] > 1
                            or next(iter(a.num.values())) != 1
                            or a.den != one):
        (m, c), = a.num.items()
        t = num_(abs(c))
        for i, e in m:
            at = Atom.by_id[i]
            x = of_atom(at)
            if at.lb is not None and at.lb >= 0 or e % 2 == 0:
                t = mul(t, ipow(x, e))
            else:
                t = mul(t, ipow(_abs_atom(x), e))
        if a.den != one:
            t = div(t, abs_(Rat(a.den, one)))
        return t
    if a.den != one:
        return div(abs_(Rat(a.num, one)), abs_(Rat(a.den, one)))
    r, s = scale_pos(a)
    k = None
    for m in a.num:
        if m in r.num:
            k = abs(a.num[m] / r.num[m])
            break
    if s < 0:
        r = neg(r)
    return mul(num_(k), _abs_atom(r))


def _abs_atom(r):
    a = the_atom(r)
    if a is not None and a.kind in ('sign',):
        pass
    return of_atom(atom('abs', (r,), lb=0, integer=is_int(r)))


@_lift
def sign_(a):
    a = _numeric(a)
    c = a.const()
    if c is not None:
        return num_((c > 0) - (c < 0))
    a = strip_den(a)
    r, s = scale_pos(a)
    if s < 0:
        r = neg(r)
    t = of_atom(atom('sign', (r,)))
    return t if s > 0 else neg(t)


def _round_like(kind):
    @_lift
    def f(a):
        a = _numeric(a)
        c = a.const()
        if c is not None:
            import math
            if kind == 'floor':
                return num_(math.floor(c))
            if kind == 'ceil':
                return num_(math.ceil(c))
            if kind == 'trunc':
                return num_(math.trunc(c))
            return num_(round(c))
        if is_int(a):
            return a
        # integer constant offsets commute with floor/ceil/round
        if kind in ('floor', 'ceil') and a.den == {ONE_M: Fraction(1)}:
            ipart = {m: cc for m, cc in a.num.items()
                     if cc.denominator == 1
                     and all(Atom.by_id[i].integer for i, _ in m)}
            rest = {m: cc for m, cc in a.num.items() if m not in ipart}
            if ipart and rest:
                return add(Rat(ipart, a.den), f(Rat(rest, a.den)))
        if kind == 'ceil':
            return neg(floor_(neg(a)))
        if kind == 'floor' and not (len(a.den) == 1 and ONE_M in a.den):
            sr = small_rem(Rat(a.num, {ONE_M: Fraction(1)}),
                           Rat(a.den, {ONE_M: Fraction(1)}))
            if sr is not None:
                return sr[0]
        if kind == 'trunc' and nonneg(a):
            return floor_(a)
        lb = None
        if nonneg(a):
            lb = 0
        return of_atom(atom(kind, (a,), integer=True, lb=lb))
    return f


floor_ = _round_like('floor')
ceil_ = _round_like('ceil')
trunc_ = _round_like('trunc')
round_ = _round_like('round')


@_lift
def floordiv(a, b):
    return floor_(div(a, b))


@_lift
def mod_(a, b):
    ca, cb = _numeric(a).const(), _numeric(b).const()
    if ca is not None and cb:
        return num_(ca % cb)
    a, b = _numeric(a), _numeric(b)
    if cb is None:
        sr = small_rem(a, b)
        if sr is not None:
            return sr[1]
    if cb is not None and cb.denominator == 1 and is_int(a):
        # reduce coefficients modulo the modulus
        nu = {}
        for m, c in a.num.items():
            c = c / a.den[ONE_M]
            c = Fraction(c % cb)
            if c:
                nu[m] = c
        a = Rat(nu, {ONE_M: Fraction(1)})
        if a.const() is not None:
            return num_(a.const() % cb)
        return of_atom(atom('mod', (a, b), integer=True, lb=0))
    return of_atom(atom('mod', (a, b), integer=is_int(a) and is_int(b)))


# trigonometry ----------------------------------------------------------
PI = of_atom(sym('pi', lb=3))


def _odd(name):
    @_lift
    def f(a):
        a = _numeric(a)
        c = a.const()
        if c == 0:
            return ZERO_R
        at = the_atom(a)
        if at is not None and at.kind == 'arctan' and name in ('tan', 'sin'):
            x = at.args[0]
            if name == 'tan':
                return x
            return div(x, sqrt_(add(num_(1), mul(x, x))))
        r, s = scale_pos(a)
        k = a
        if s < 0:
            k = neg(a)
            at = the_atom(k)
            if at is not None and at.kind == 'arctan':
                return neg(f(k))
        if name == 'tan':
            t = div(of_atom(atom('sin', (k,))), of_atom(atom('cos', (k,))))
        else:
            t = of_atom(atom(name, (k,)))
        return neg(t) if s < 0 else t
    return f


sin_ = _odd('sin')
tan_ = _odd('tan')
arctan_ = _odd('arctan')


@_lift
def cos_(a):
    a = _numeric(a)
    if a.const() == 0:
        return num_(1)
    r, s = scale_pos(a)
    if s < 0:
        a = neg(a)
    at = the_atom(a)
    if at is not None and at.kind == 'arctan':
        x = at.args[0]
        return div(num_(1), sqrt_(add(num_(1), mul(x, x))))
    return of_atom(atom('cos', (a,)))


@_lift
def fn1(kind, a):
    return of_atom(atom(kind, (_numeric(a),)))


@_lift
def exp_(a):
    return of_atom(atom('exp', (_numeric(a),), lb=0))


# min / max / clip --------------------------------------------------------
def _flat(kind, r):
    a = the_atom(r)
    if a is not None and a.kind == kind:
        return list(a.args)
    return [r]


def _mk_ext(kind):
    @_lift
    def f(*args):
        items = []
        for x in args:
            x = _numeric(x)
            for y in _flat(kind, x):
                if y not in items:
                    items.append(y)
        # drop dominated items
        out = []
        for i, x in enumerate(items):
            drop = False
            for j, y in enumerate(items):
                if i == j:
                    continue
                d = sub(x, y) if kind == 'min' else sub(y, x)
                b = lower(d)
                if b is not None and (b > 0 or (b == 0 and j < i) or
                                      (b == 0 and lower(neg(d)) is None)):
                    drop = True
                    break
            if not drop:
                out.append(x)
        items = out or items[:1]
        if len(items) == 1:
            return items[0]
        items.sort(key=lambda t: str(t.fp))
        # canonical clip
        if len(items) == 2:
            other = 'max' if kind == 'min' else 'min'
            for x, y in ((items[0], items[1]), (items[1], items[0])):
                a = the_atom(x)
                if a is not None and a.kind == other and len(a.args) == 2 \
                        and x != y:
                    # min(max(v, lo), hi)  or  max(min(v, hi), lo)
                    u, v = a.args
                    lo_hi = None
                    for val, bnd in ((u, v), (v, u)):
                        d = sub(y, bnd) if kind == 'min' else sub(bnd, y)
                        if nonneg(d):
                            lo_hi = (val, bnd, y) if kind == 'min' \
                                else (val, y, bnd)
                            break
                    if lo_hi:
                        return mk_clip(*lo_hi)
                if a is not None and a.kind == 'clip' and x != y:
                    v, lo, hi = a.args
                    if kind == 'min' and nonneg(sub(y, hi)):
                        return x
                    if kind == 'max' and nonneg(sub(lo, y)):
                        return x
        lbs = [lower(x) for x in items]
        lb = None
        if kind == 'max':
            k = [b for b in lbs if b is not None]
            lb = max(k) if k else None
        elif all(b is not None for b in lbs):
            lb = min(lbs)
        return of_atom(atom(kind, tuple(items),
                            integer=all(is_int(x) for x in items), lb=lb))
    return f


mk_min = _mk_ext('min')
mk_max = _mk_ext('max')


@_lift
def mk_clip(v, lo, hi):
    v, lo, hi = _numeric(v), _numeric(lo), _numeric(hi)
    cv, cl, ch = v.const(), lo.const(), hi.const()
    if None not in (cv, cl, ch):
        return num_(min(max(cv, cl), ch))
    if lo == hi:
        return lo
    a = the_atom(v)
    if a is not None and a.kind == 'clip' and a.args[1] == lo \
            and a.args[2] == hi:
        return v
    return of_atom(atom('clip', (v, lo, hi),
                        integer=is_int(v) and is_int(lo) and is_int(hi),
                        lb=lower(lo)))


@_lift
def cast_(name, a):
    return of_atom(atom('cast', (name, _numeric(a)), integer=True))


# ---------------------------------------------------------------- structs
_fresh = [0]


def fresh(prefix='i', integer=True, lb=0, ub=None):
    _fresh[0] += 1
    if ub is not None:
        UB['%s#%d' % (prefix, _fresh[0])] = ub
    return of_atom(sym('%s#%d' % (prefix, _fresh[0]), integer=integer, lb=lb))


def sym_name(r):
    a = the_atom(r)
    if a is not None and a.kind == 'sym':
        return a.args[0]
    return None


def bound(h, k):
    return of_atom(sym('$%d.%d' % (h, k), integer=True, lb=0))


def lam(params, dims, body):
    """array/function literal; params are fresh symbols (Rat), dims their
    extents (None allowed), body a scalar or struct.  Parameters are renamed
    by nesting height so that alpha-equivalent literals are equal."""
    h = body.height + 1
    m = {}
    for k, p in enumerate(params):
        m[sym_name(p)] = bound(h, k)
    body = subst(body, m)
    dims = tuple(NONE if d is None else subst(d, m) for d in dims)
    s = frozenset()
    for d in dims:
        s = s | d.syms
    s = (s | body.syms) - frozenset('$%d.%d' % (h, k)
                                    for k in range(len(params)))
    return Struct('lam', (len(params), dims, body), height=h, syms=s)


def lam_apply(l, args):
    n, dims, body = l.parts
    h = l.height
    return subst(body, {'$%d.%d' % (h, k): a for k, a in enumerate(args)})


_subst_cache = {}
_open_cache = {}


def lam_open(t, m=None):
    """parameters, extents and body of a literal with its parameters made
    free; the same names every time unless they occur in the values of m"""
    r = _open_cache.get(t)
    if r is None or m and any(sym_name(p) in v.syms for p in r[0]
                              for v in m.values()):
        n, dims, body = t.parts
        fr = [fresh('b') for _ in range(n)]
        om = {'$%d.%d' % (t.height, k): fr[k] for k in range(n)}
        r = fr, [subst(d, om) for d in dims], subst(body, om)
        _open_cache.setdefault(t, r)
    return r


def subst(t, m):
    if not m:
        return t
    if isinstance(t, tuple):
        return tuple(subst(x, m) for x in t)
    if not isinstance(t, Scalar):
        return t
    if not any(s in t.syms for s in m):
        return t
    key = (t.fp, tuple(sorted((k, v.fp) for k, v in m.items())))
    # structural variants of the same value may differ in form but not value
    r = _subst_cache.get(key)
    if r is None:
        r = _subst(t, m)
        _subst_cache[key] = r
    return r


def _subst(t, m):
    if isinstance(t, Rat):
        def poly(p):
            plain = {}
            tot = None
            for mono, c in p.items():
                if not any(s in Atom.by_id[i].syms for i, _ in mono
                           for s in m):
                    plain[mono] = c
                    continue
                x = num_(c)
                for i, e in mono:
                    x = mul(x, ipow(subst_atom(Atom.by_id[i], m), e))
                tot = x if tot is None else add(tot, x)
            r = Rat(plain, {ONE_M: Fraction(1)}) if plain else ZERO_R
            return r if tot is None else add(r, tot)
        n = poly(t.num)
        if len(t.den) == 1 and ONE_M in t.den:
            return n
        return div(n, poly(t.den))
    if isinstance(t, Ite):
        c = subst_atom(t.pred, m)
        return ite(as_bool(c), subst(t.hi, m), subst(t.lo, m))
    if isinstance(t, Struct):
        if t.tag == 'lam':
            # bound names use heights above everything inside, so that the
            # substituted values must not clash: re-open with fresh names
            fr, dims, body = lam_open(t, m)
            body = subst(body, m)
            dims = [subst(d, m) for d in dims]
            return lam(fr, [None if d == NONE else d for d in dims], body)
        return Struct(t.tag, subst(t.parts, m))
    return t


REBUILD = {}


def subst_atom(a, m):
    if a.kind == 'sym':
        return m.get(a.args[0], of_atom(a))
    if not any(s in a.syms for s in m):
        return pred_(a) if a.boolean else of_atom(a)
    args = tuple(subst(x, m) for x in a.args)
    f = REBUILD.get(a.kind)
    if f is not None:
        return f(a, *args)
    return rebuild_default(a, args)


def rebuild_default(a, args):
    # hoist decision diagrams out of scalar arguments
    idx = [i for i, x in enumerate(args) if isinstance(x, Ite)]
    if idx:
        def f(*vals):
            xs = list(args)
            for i, v in zip(idx, vals):
                xs[i] = v
            return rebuild_default(a, tuple(xs))
        return apply(f, *[args[i] for i in idx])
    b = atom(a.kind, args, integer=a.integer, lb=a.lb, boolean=a.boolean,
             unk=a.kind in a.unk)
    return pred_(b) if b.boolean else of_atom(b)


REBUILD['sqrt'] = lambda a, x: sqrt_(x)
REBUILD['abs'] = lambda a, x: abs_(x)
REBUILD['sign'] = lambda a, x: sign_(x)
REBUILD['floor'] = lambda a, x: floor_(x)
REBUILD['ceil'] = lambda a, x: ceil_(x)
REBUILD['trunc'] = lambda a, x: trunc_(x)
REBUILD['round'] = lambda a, x: round_(x)
REBUILD['mod'] = lambda a, x, y: mod_(x, y)
REBUILD['sin'] = lambda a, x: sin_(x)
REBUILD['cos'] = lambda a, x: cos_(x)
REBUILD['arctan'] = lambda a, x: arctan_(x)
REBUILD['exp'] = lambda a, x: exp_(x)
REBUILD['pow'] = lambda a, x, y: power(x, y)
REBUILD['min'] = lambda a, *x: mk_min(*x)
REBUILD['max'] = lambda a, *x: mk_max(*x)
REBUILD['clip'] = lambda a, x, y, z: mk_clip(x, y, z)
REBUILD['lt0'] = lambda a, x, _f: lt0(x)
REBUILD['eq0'] = lambda a, x: eq0(x)
REBUILD['eqc'] = lambda a, x, v: cmp_eq(x, Const(v))
REBUILD['wrap'] = lambda a, x: wrap(x) if isinstance(x, Rat) else x
REBUILD['num'] = lambda a, x: _numeric(x) if isinstance(x, (Rat, Const)) \
    else rebuild_default(a, (x,))
REBUILD['cast'] = lambda a, n, x: cast_(Const(n) if isinstance(n, str)
                                        else n, x)


# ---------------------------------------------------------------- sums
def sum_(s, n, body):
    """sum of body over s = 0..n-1; s a fresh integer symbol"""
    name = sym_name(s)

    def go(n, body):
        if isinstance(n, Ite):
            return apply(lambda x: go(x, body), n)
        if isinstance(body, Ite):
            free = _free_pred(body, name)
            if free is not None:
                hi = go(n, restrict(body, free, True))
                lo = go(n, restrict(body, free, False))
                return mk_ite_any(free, hi, lo)
            return _sum_atom(s, n, body)
        body = _numeric(body)
        n = _numeric(n)
        c = n.const()
        if c is not None and c.denominator == 1 and 0 <= c <= 16:
            t = ZERO_R
            for k in range(int(c)):
                t = add(t, subst(body, {name: num_(k)}))
            return t
        if name not in body.syms:
            return mul(n, body)
        # split the numerator into monomials, pull constant factors out
        den_free = not any(name in Atom.by_id[i].syms
                           for m in body.den for i, _ in m)
        if not den_free:
            return _sum_atom(s, n, body)
        tot = ZERO_R
        groups = {}
        for m, cc in body.num.items():
            inside = tuple((i, e) for i, e in m
                           if name in Atom.by_id[i].syms)
            outside = tuple((i, e) for i, e in m
                            if name not in Atom.by_id[i].syms)
            groups.setdefault(inside, {})[outside] = cc
        one = {ONE_M: Fraction(1)}
        for inside, coef in groups.items():
            cf = Rat(coef, one)
            if not inside:
                tot = add(tot, mul(cf, n))
            else:
                tot = add(tot, mul(cf, _sum_atom(s, n,
                                                 Rat({inside: Fraction(1)},
                                                     one))))
        return div(tot, Rat(body.den, one))
    return go(n, body)


def mk_ite_any(pred, hi, lo):
    return ite(pred_(pred), hi, lo)


def _free_pred(t, name):
    seen = []

    def rec(t):
        if isinstance(t, Ite):
            if name not in t.pred.syms:
                return t.pred
            return rec(t.hi) or rec(t.lo)
        return None
    return rec(t)


def _sum_atom(s, n, body):
    name = sym_name(s)
    # polynomial sums of the index itself stay as atoms
    # canonical direction and shift: choose the representative with the
    # smallest fingerprint among the reversal and small shifts
    if not isinstance(body, Ite):
        cands = []
        rev = subst(body, {name: sub(sub(n, num_(1)), s)})
        for base in (body, rev):
            for sh in (0, -1, 1, -2, 2):
                b = subst(base, {name: add(s, num_(sh))}) if sh else base
                if not isinstance(b, Rat):
                    continue
                c, b = _const_factor(b, name)
                cands.append((sh, c, b))
        # prefer forms that do not mention the extent, then the simplest
        nsy = n.syms
        pool = [c for c in cands if not (nsy & (c[2].syms - {name}))] or cands
        pool.sort(key=lambda c: (complexity(c[2]),
                                 str(lam([s], [None], c[2]).fp)))
        sh, c, b = pool[0]
        # sum_{s=0}^{n-1} body(s) = c * sum_{s=-sh}^{n-1-sh} b(s)
        lo = num_(-sh)
        hi = sub(n, num_(sh))
        return mul(c, sub(_cumsum(s, hi, b), _cumsum(s, lo, b)))
    return of_atom(atom('sum', (lam([s], [n], body),)))


def _const_factor(b, name):
    """(c, rest) with b = c * rest and c free of the symbol"""
    one = {ONE_M: Fraction(1)}
    num, den = b.num, b.den
    c = num_(1)
    if len(num) == 1:
        (m, k), = num.items()
        out = tuple((i, e) for i, e in m if name not in Atom.by_id[i].syms)
        ins = tuple((i, e) for i, e in m if name in Atom.by_id[i].syms)
        c = Rat({out: k}, one)
        num = {ins: Fraction(1)}
    if not any(name in Atom.by_id[i].syms for m in den for i, _ in m):
        c = div(c, Rat(den, one))
        den = one
    return c, Rat(num, den)


_cx = {}


def complexity(t):
    if isinstance(t, tuple):
        return sum(complexity(x) for x in t)
    if not isinstance(t, Scalar):
        return 1
    r = _cx.get(t.fp)
    if r is not None:
        return r
    if isinstance(t, Rat):
        r = 0
        for p in (t.num, t.den):
            for m in p:
                r += 1
                for i, e in m:
                    a = Atom.by_id[i]
                    r += sum(complexity(x) for x in a.args)
    elif isinstance(t, Ite):
        r = 1 + complexity(t.hi) + complexity(t.lo) + \
            sum(complexity(x) for x in t.pred.args)
    elif isinstance(t, Struct):
        r = 1 + complexity(t.parts)
    else:
        r = 1
    r = min(r, 10 ** 9)
    _cx[t.fp] = r
    return r


def _cumsum(s, x, b):
    """F(x) = sum_{t=0}^{x-1} b(t)"""
    name = sym_name(s)
    c = x.const()
    if c is not None and c.denominator == 1 and abs(c) <= 16:
        t = ZERO_R
        for k in range(int(c)):
            t = add(t, subst(b, {name: num_(k)}))
        for k in range(int(c), 0):
            t = sub(t, subst(b, {name: num_(k)}))
        return t
    one = {ONE_M: Fraction(1)}
    k = Fraction(0)
    if x.den == one:
        k = x.num.get(ONE_M, Fraction(0))
        if k.denominator != 1 or abs(k) > 6:
            k = Fraction(0)
    base = sub(x, num_(k))
    t = of_atom(atom('sum', (lam([s], [base], b),)))
    for j in range(int(k)):
        t = add(t, subst(b, {name: add(base, num_(j))}))
    for j in range(int(k), 0):
        t = sub(t, subst(b, {name: add(base, num_(j))}))
    return t


def _rebuild_sum(a, l):
    n, dims, body = l.parts
    s = fresh('s')
    b = lam_apply(l, [s])
    if isinstance(dims[0], Ite) or not isinstance(dims[0], Rat):
        return sum_(s, dims[0], b)
    return sum_(s, dims[0], b)


REBUILD['sum'] = _rebuild_sum


# ---------------------------------------------------------------- printing
def show_atom(a, d=0):
    if a.kind == 'sym':
        return str(a.args[0]).split('#')[0] if '#' in str(a.args[0]) \
            else str(a.args[0])
    if d > 6:
        return a.kind + '(..)'
    return '%s(%s)' % (a.kind, ', '.join(show(x, d + 1) for x in a.args))


def show(t, d=0):
    if d > 8:
        return '..'
    if isinstance(t, Rat):
        def poly(p):
            if not p:
                return '0'
            out = []
            for m, c in sorted(p.items(), key=lambda x: m_order(x[0])):
                f = []
                if c != 1 or not m:
                    f.append(str(c))
                for i, e in m:
                    x = show_atom(Atom.by_id[i], d)
                    f.append(x if e == 1 else '%s^%d' % (x, e))
                out.append('*'.join(f))
                if len(out) >= 5:
                    out.append('...')
                    break
            return ' + '.join(out)
        n = poly(t.num)
        if len(t.den) == 1 and ONE_M in t.den:
            return n
        return '(%s)/(%s)' % (n, poly(t.den))
    if isinstance(t, Ite):
        return '{%s ? %s : %s}' % (show_atom(t.pred, d), show(t.hi, d + 1),
                                   show(t.lo, d + 1))
    if isinstance(t, Struct):
        if t.tag == 'lam':
            return 'λ[%s].%s' % (', '.join(show(x, d + 1)
                                           for x in t.parts[1]),
                                 show(t.parts[2], d + 1))
        return '%s<%s>' % (t.tag, ', '.join(show(x, d + 1)
                                            for x in t.parts))
    if isinstance(t, tuple):
        return '(%s)' % ', '.join(show(x, d + 1) for x in t)
    return repr(t)
