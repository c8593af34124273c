"""Abstract values of the interpreter (containers, arrays, functions)."""
from .terms import *
from . import terms as T


class Val:
    pass


class Unknown(Exception):
    """raised inside a model when the construct is outside the vocabulary"""


def unk(reason):
    _unk[0] += 1
    return of_atom(atom('unk', ('%s~%d' % (reason, _unk[0]),), unk=True))


_unk = [0]


def is_unk(v):
    if isinstance(v, Scalar):
        return bool(v.unk)
    return False


class Arr(Val):
    """array: extents + element function (index scalars -> scalar)"""

    boolean = False
    rows = None

    def __init__(self, dims, get, flat=None, view=None, gen=None, key=None,
                 src=None, like=None, m=None):
        self.dims = list(dims)
        self._get = get
        self.flat = flat      # array this one is a reshaped copy of
        self.view = view      # (base Arr, [offset per base dim], [windows])
        self.gen = gen        # Lst whose elements are the rows
        self.src = src
        self._memo = {}
        self.key = key
        if like is not None:
            self.boolean = like.boolean
            if like.rows is not None:
                self.rows = [vsubst(r, m) for r in like.rows]

    def get(self, idx):
        k = tuple(i.fp for i in idx)
        r = self._memo.get(k)
        if r is None:
            try:
                r = self._get(list(idx))
            except Limit:
                r = unk('limit')
            if not isinstance(r, Scalar):
                raise Unknown('non scalar element')
            self._memo[k] = r
        return r

    @property
    def ndim(self):
        return len(self.dims)

    def row(self, i):
        """element i along the first axis"""
        if self.ndim == 1:
            return self.get([i])
        v = None
        if self.view is not None:
            pass
        return Arr(self.dims[1:], lambda idx: self.get([i] + idx),
                   src=('row', self, i))


class Tup(Val):
    """tuple or list with known elements"""

    def __init__(self, items, is_list=False):
        self.items = list(items)
        self.is_list = is_list


class One:
    def __init__(self, v):
        self.v = v


class Grd:
    def __init__(self, cond, segs):
        self.cond = cond
        self.segs = tuple(segs)


class Map:
    def __init__(self, i, n, segs):
        self.i = i
        self.n = n
        self.segs = tuple(segs)


class Lst(Val):
    """list with symbolic length: sequence of segments"""

    def __init__(self, segs, phi=None):
        self.segs = tuple(segs)
        self.phi = phi

    def simple(self):
        """(i, n, v) for a list of the form [v(i) for i in range(n)]"""
        if len(self.segs) == 1 and isinstance(self.segs[0], Map):
            m = self.segs[0]
            if len(m.segs) == 1 and isinstance(m.segs[0], One):
                return m.i, m.n, m.segs[0].v
        return None


class DictV(Val):
    def __init__(self, items, rest=None):
        self.items = dict(items)      # python const -> value
        self.rest = rest or []        # segments of (key, value) pairs


class Ref(Val):
    def __init__(self, id_):
        self.id = id_


class Func(Val):
    def __init__(self, node, module, env, name, defaults=(), kwdefaults=None,
                 decorated=False):
        self.node = node
        self.module = module
        self.env = env
        self.name = name
        self.defaults = defaults
        self.kwdefaults = kwdefaults or {}


class Ext(Val):
    """something from outside the package, by dotted name"""

    def __init__(self, name):
        self.name = name


class Meth(Val):
    def __init__(self, obj, name, objexpr=None):
        self.obj = obj
        self.name = name
        self.objexpr = objexpr


class Poly1d(Val):
    def __init__(self, coefs):
        self.coefs = coefs


class Choice(Val):
    def __init__(self, cond, a, b):
        self.cond = cond
        self.a = a
        self.b = b


class SliceV(Val):
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class Part(Val):
    """functools.partial"""

    def __init__(self, f, args, kwargs):
        self.f, self.args, self.kwargs = f, args, kwargs


# ------------------------------------------------------------ substitution
def vsubst(v, m):
    if not m:
        return v
    if isinstance(v, Scalar):
        return subst(v, m)
    if isinstance(v, Arr):
        def get(idx, v=v, m=m):
            clash = any(s in i.syms for i in idx for s in m)
            if not clash:
                return subst(v.get(idx), m)
            fr = [fresh('q') for _ in idx]
            t = subst(v.get(fr), m)
            return subst(t, {sym_name(f): i for f, i in zip(fr, idx)})
        return Arr([vsubst(d, m) for d in v.dims], get,
                   flat=None if v.flat is None else vsubst(v.flat, m),
                   view=None if v.view is None else
                   (vsubst(v.view[0], m),
                    [(o[0],) + tuple(vsubst(x, m) for x in o[1:])
                     for o in v.view[1]], ()),
                   gen=None if v.gen is None else vsubst(v.gen, m),
                   like=v, m=m)
    if isinstance(v, Tup):
        return Tup([vsubst(x, m) for x in v.items], v.is_list)
    if isinstance(v, Lst):
        return Lst([ssubst(s, m) for s in v.segs], v.phi)
    if isinstance(v, DictV):
        return DictV({k: vsubst(x, m) for k, x in v.items.items()},
                     [ssubst(s, m) for s in v.rest])
    if isinstance(v, Choice):
        return vite(vsubst(v.cond, m), vsubst(v.a, m), vsubst(v.b, m))
    if isinstance(v, Poly1d):
        return Poly1d(vsubst(v.coefs, m))
    if isinstance(v, SliceV):
        return SliceV(*[None if x is None else vsubst(x, m)
                        for x in (v.lo, v.hi, v.step)])
    return v


def ssubst(s, m):
    if isinstance(s, One):
        return One(vsubst(s.v, m))
    if isinstance(s, Grd):
        return Grd(subst(s.cond, m), [ssubst(x, m) for x in s.segs])
    fr = fresh('m')
    inner = dict(m)
    segs = [ssubst(x, {sym_name(s.i): fr}) for x in s.segs]
    return Map(fr, subst(s.n, m), [ssubst(x, m) for x in segs])


# ------------------------------------------------------------ reification
def reify_arr(dims, get):
    """canonical form of an array: symbolic extents are bound variables,
    small constant extents are enumerated"""
    cs = []
    for d in dims:
        c = is_cst(d)
        cs.append(int(c) if c is not NOTC and not isinstance(c, str)
                  and c is not None and 0 <= c <= 12 else None)
    ps = [fresh('x', ub=d) if c is None else None for c, d in zip(cs, dims)]

    def rec(k, idx):
        if k == len(dims):
            return get(idx)
        if cs[k] is None:
            return rec(k + 1, idx + [ps[k]])
        return Struct('vec', tuple(rec(k + 1, idx + [num_(j)])
                                   for j in range(cs[k])))
    body = rec(0, [])
    shape = tuple('*' if c is None else c for c in cs)
    free = [p for p in ps if p is not None]
    fd = [d for d, c in zip(dims, cs) if c is None]
    if not free:
        return body if len(dims) <= 1 else Struct('arr', (shape, body))
    l = lam(free, fd, body)
    return Struct('arr', (shape, l))


def reify(v):
    """canonical struct/scalar of a value"""
    if isinstance(v, Scalar):
        return v
    if isinstance(v, Arr):
        if v.gen is not None:
            return reify(v.gen)
        return reify_arr(v.dims, v.get)
    if isinstance(v, Tup):
        if v.items and all(isinstance(x, Scalar) for x in v.items):
            return Struct('vec', tuple(v.items))
        return Struct('tup', tuple(reify(x) for x in v.items))
    if isinstance(v, Lst):
        s = v.simple()
        if s is not None:
            i, n, e = s
            e2 = e
            if isinstance(e2, Tup) and all(isinstance(x, Scalar)
                                           for x in e2.items):
                e2 = tup_arr(e2)
            nm = sym_name(i)
            if isinstance(e2, Arr) and e2.gen is None and \
                    not any(nm in d.syms for d in e2.dims):
                return reify_arr([n] + e2.dims, lambda idx: subst(
                    e2.get(idx[1:]), {nm: idx[0]})
                    if not any(nm in x.syms for x in idx)
                    else vsubst(e2, {nm: idx[0]}).get(idx[1:]))
            if isinstance(e2, Scalar):
                return reify_arr([n], lambda idx: subst(e2, {nm: idx[0]}))
        return Struct('lst', tuple(sreify(x) for x in norm_segs(v.segs)))
    if isinstance(v, DictV):
        return Struct('dict', tuple((repr(k), reify(x))
                                    for k, x in sorted(v.items.items(),
                                                       key=lambda z:
                                                       repr(z[0]))) +
                      tuple(sreify(x) for x in v.rest))
    if isinstance(v, Ext):
        return Const('ext:' + v.name)
    if isinstance(v, Func):
        return Const('func:%s:%s' % (v.module.name if v.module else '',
                                     v.name))
    if isinstance(v, Choice):
        return Struct('choice', (v.cond, reify(v.a), reify(v.b)))
    if isinstance(v, Poly1d):
        return Struct('poly1d', (reify(v.coefs),))
    if isinstance(v, SliceV):
        return Struct('slice', tuple(NONE if x is None else reify(x)
                                     for x in (v.lo, v.hi, v.step)))
    if isinstance(v, Meth):
        return Struct('meth', (v.name, reify(v.obj)))
    if isinstance(v, Part):
        return Struct('partial', (reify(v.f),) + tuple(reify(a)
                                                       for a in v.args))
    raise Unknown('reify %r' % type(v))


def norm_segs(segs):
    out = []
    for s in segs:
        if isinstance(s, Grd):
            if s.cond == FALSE:
                continue
            if s.cond == TRUE:
                out.extend(norm_segs(s.segs))
                continue
            inner = norm_segs(s.segs)
            if not inner:
                continue
            if len(inner) == 1 and isinstance(inner[0], Grd):
                out.append(Grd(and_(s.cond, inner[0].cond), inner[0].segs))
                continue
            if out and isinstance(out[-1], Grd) and \
                    len(out[-1].segs) == len(inner) and \
                    out[-1].cond == not_(s.cond) and same_segs(
                        out[-1].segs, inner):
                out.pop()
                out.extend(inner)
                continue
            out.append(Grd(s.cond, inner))
        elif isinstance(s, Map):
            inner = norm_segs(s.segs)
            if not inner:
                continue
            # hoist a guard that does not depend on the index
            if len(inner) == 1 and isinstance(inner[0], Grd) and \
                    sym_name(s.i) not in inner[0].cond.syms:
                out.append(Grd(inner[0].cond,
                               norm_segs([Map(s.i, s.n, inner[0].segs)])))
            else:
                out.append(Map(s.i, s.n, inner))
        else:
            out.append(s)
    return out


def same_segs(a, b):
    try:
        return all(sreify(x) == sreify(y) for x, y in zip(a, b))
    except (Unknown, Limit):
        return False


def sreify(s):
    if isinstance(s, One):
        return Struct('one', (reify(s.v),))
    if isinstance(s, Grd):
        return Struct('grd', (s.cond,) + tuple(sreify(x) for x in s.segs))
    body = Struct('segs', tuple(sreify(x) for x in s.segs))
    return Struct('map', (lam([s.i], [s.n], body),))


def same(a, b):
    try:
        return reify(a) == reify(b)
    except (Unknown, Limit):
        return False


# ------------------------------------------------------------ helpers
def pick(items, k):
    """items[k] for scalar items and scalar index k"""
    c = is_cst(k)
    if c is not NOTC and not isinstance(c, (str, type(None))):
        c = int(c)
        if -len(items) <= c < len(items):
            return items[c]
        raise Unknown('index')
    r = items[-1]
    for j in range(len(items) - 2, -1, -1):
        r = vite(eq0(sub(k, num_(j))), items[j], r)
    return r


def tup_arr(t):
    """array of a Tup of scalars/arrays/tuples"""
    items = [asarr(x) if not isinstance(x, Scalar) else x for x in t.items]
    if not items:
        return Arr([num_(0)], lambda idx: unk('empty'))
    if all(isinstance(x, Scalar) for x in items):
        return Arr([num_(len(items))], lambda idx: pick(items, idx[0]))
    if not all(isinstance(x, Arr) for x in items):
        raise Unknown('ragged')
    d = items[0].dims
    return Arr([num_(len(items))] + d,
               lambda idx: pick([x.get(idx[1:]) for x in items], idx[0])
               if is_cst(idx[0]) is NOTC else
               items[int(is_cst(idx[0]))].get(idx[1:]))


def count_segs(segs):
    t = num_(0)
    for s in segs:
        if isinstance(s, One):
            t = add(t, num_(1))
        elif isinstance(s, Grd):
            t = add(t, ite(s.cond, count_segs(s.segs), num_(0)))
        else:
            t = add(t, sum_(s.i, s.n, count_segs(s.segs)))
    return t


def seg_map(segs, f):
    out = []
    for s in segs:
        if isinstance(s, One):
            out.append(One(f(s.v)))
        elif isinstance(s, Grd):
            out.append(Grd(s.cond, seg_map(s.segs, f)))
        else:
            out.append(Map(s.i, s.n, seg_map(s.segs, f)))
    return out


def asarr(v):
    """numpy array of a list/tuple/array value; scalars stay scalars"""
    if isinstance(v, (Arr, Scalar)):
        return v
    if isinstance(v, Tup):
        return tup_arr(v)
    if isinstance(v, Lst):
        segs = norm_segs(v.segs)
        v = Lst(segs)
        if all(isinstance(s, One) for s in segs):
            return tup_arr(Tup([s.v for s in segs]))
        s = v.simple()
        if s is not None:
            i, n, e = s
            e = asarr(e)
            nm = sym_name(i)
            if isinstance(e, Scalar):
                return Arr([n], lambda idx: subst(e, {nm: idx[0]}))
            if isinstance(e, Arr) and e.gen is None:
                dims = [vsubst(d, {}) for d in e.dims]
                memo = {}

                def get(idx):
                    k = idx[0].fp
                    r = memo.get(k)
                    if r is None:
                        r = memo[k] = vsubst(e, {nm: idx[0]})
                    return r.get(idx[1:])
                # ragged rows keep their own extents
                if any(nm in d.syms for d in dims):
                    dims = [d if nm not in d.syms else d for d in dims]
                return Arr([n] + dims, get)
        return gen_arr(v)
    if isinstance(v, Choice):
        return vite(v.cond, asarr(v.a), asarr(v.b))
    raise Unknown('asarr %s' % type(v).__name__)


def _elem_dims(segs):
    for s in segs:
        if isinstance(s, One):
            e = asarr(s.v)
            return [] if isinstance(e, Scalar) else list(e.dims)
        r = _elem_dims(s.segs)
        if r is not None:
            return r
    return None


def _bound(segs):
    for s in segs:
        if isinstance(s, Map):
            yield sym_name(s.i)
        if not isinstance(s, One):
            yield from _bound(s.segs)


def gen_arr(v):
    """array whose rows are the elements of a non-simple list"""
    d = _elem_dims(v.segs)
    if d is None:
        d = []
    if d:
        b = set(_bound(v.segs))
        if any(b & set(x.syms) for x in d):
            raise Unknown('rows of different length')

    def get(idx):
        if d:
            proj = Lst(seg_map(v.segs, lambda e: asarr(e).get(idx[1:])))
        else:
            proj = v
        return of_atom(atom('nth', (reify_l(proj), idx[0])))
    return Arr([count_segs(v.segs)] + d, get, gen=v)


def reify_l(v):
    return Struct('lst', tuple(sreify(x) for x in norm_segs(v.segs)))


def segs_of(v):
    """segments of an iterable value"""
    if isinstance(v, Tup):
        return [One(x) for x in v.items]
    if isinstance(v, Lst):
        return list(v.segs)
    if isinstance(v, Arr):
        if v.gen is not None:
            return list(v.gen.segs)
        c = is_cst(v.dims[0])
        if c is not NOTC and c <= 12:
            return [One(v.row(num_(k))) for k in range(int(c))]
        i = fresh('i')
        return [Map(i, v.dims[0], [One(v.row(i))])]
    if isinstance(v, DictV):
        return [One(Const(k) if not isinstance(k, Scalar) else k)
                for k in v.items] + seg_map(v.rest, lambda p: p.items[0])
    raise Unknown('iterate %s' % type(v).__name__)


def vite(c, a, b):
    """conditional value"""
    if c == TRUE or a is b:
        return a
    if c == FALSE:
        return b
    if isinstance(a, Scalar) and isinstance(b, Scalar):
        try:
            return ite(c, a, b)
        except Limit:
            return unk('ite')
    if isinstance(a, Arr) and isinstance(b, Arr) and a.ndim == b.ndim and \
            a.gen is None and b.gen is None and not (
                (a.flat is None) != (b.flat is None) and
                any(x != y for x, y in zip(a.dims, b.dims))):
        fl = None
        if a.flat is not None and b.flat is not None and \
                a.flat.ndim == b.flat.ndim:
            fl = vite(c, a.flat, b.flat)
        return Arr([ite(c, x, y) for x, y in zip(a.dims, b.dims)],
                   lambda idx: ite(c, a.get(idx), b.get(idx)), flat=fl)
    if isinstance(a, Tup) and isinstance(b, Tup) and \
            len(a.items) == len(b.items):
        return Tup([vite(c, x, y) for x, y in zip(a.items, b.items)],
                   a.is_list)
    la, lb = isinstance(a, Lst) or (isinstance(a, Tup) and a.is_list), \
        isinstance(b, Lst) or (isinstance(b, Tup) and b.is_list)
    if la and lb:
        sa, sb = segs_of(a), segs_of(b)
        k = 0
        while k < len(sa) and k < len(sb) and (
                sa[k] is sb[k] or (isinstance(sa[k], One)
                                   and isinstance(sb[k], One)
                                   and sa[k].v is sb[k].v)):
            k += 1
        segs = sa[:k]
        if sa[k:]:
            segs.append(Grd(c, sa[k:]))
        if sb[k:]:
            segs.append(Grd(not_(c), sb[k:]))
        return Lst(segs, getattr(a, 'phi', None))
    if isinstance(a, DictV) and isinstance(b, DictV) and \
            set(a.items) == set(b.items) and not a.rest and not b.rest:
        return DictV({k: vite(c, a.items[k], b.items[k]) for k in a.items})
    if isinstance(a, Ref) and isinstance(b, Ref) and a.id == b.id:
        return a
    if isinstance(a, Ext) and isinstance(b, Ext) and a.name == b.name:
        return a
    if isinstance(a, (Arr, Lst, Tup)) and isinstance(b, (Arr, Lst, Tup)) \
            and same(a, b):
        return a
    return Choice(c, a, b)
