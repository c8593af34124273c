"""abstract values of the flow analysis

A value records, joined over every path that reaches it:
  kinds   which kinds of object it may be
  nd      number of dimensions when known (arrays)
  objs    abstract objects whose memory it may share
  items   element values of a tuple of known length
  deps    parameters of the entry function it may depend on
  sym     expression over the entry parameters (scalars), or a set of
          alternatives
  prov    for point data: rows of which input, after which reordering
  narrow  went through an integer type of less than 32 bits
  dt      'inh' (element type inherited from an input), 'f' or None
  fun     callable / module value
"""
E = frozenset()
ANY = frozenset(['any'])


class V:
    __slots__ = ('kinds', 'nd', 'objs', 'items', 'deps', 'sym', 'prov',
                 'narrow', 'dt', 'fun', 'uninit')

    def __init__(self, kinds=ANY, nd=None, objs=E, items=None, deps=E,
                 sym=None, prov=None, narrow=None, dt=None, fun=None,
                 uninit=None):
        self.kinds = kinds if isinstance(kinds, frozenset) else \
            frozenset([kinds])
        self.nd = nd
        self.objs = objs
        self.items = items
        self.deps = deps
        self.sym = sym
        self.prov = prov
        self.narrow = narrow
        self.dt = dt
        self.fun = fun
        self.uninit = uninit

    def key(self):
        return (self.kinds, self.nd, self.objs, None if self.items is None
                else tuple(v.key() if v is not None else None
                           for v in self.items), self.deps, self.sym,
                self.prov, self.narrow, self.dt, id(self.fun)
                if self.fun is not None and not isinstance(self.fun, tuple)
                else fkey(self.fun))

    def __eq__(self, o):
        return isinstance(o, V) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def but(self, **kw):
        r = V(self.kinds, self.nd, self.objs, self.items, self.deps,
              self.sym, self.prov, self.narrow, self.dt, self.fun,
              self.uninit)
        for k, x in kw.items():
            setattr(r, k, x)
        return r

    def may(self, *ks):
        return any(k in self.kinds for k in ks)

    def only(self, *ks):
        return bool(self.kinds) and all(k in ks for k in self.kinds)

    def __repr__(self):
        return 'V(%s nd=%s objs=%s deps=%s sym=%s prov=%s%s%s)' % (
            '|'.join(sorted(self.kinds)), self.nd, sorted(self.objs),
            sorted(self.deps), self.sym, self.prov,
            ' narrow' if self.narrow else '',
            ' items=%r' % (self.items,) if self.items is not None else '')


def fkey(f):
    return None if f is None else tuple(
        x if isinstance(x, (str, int)) else id(x) for x in f)


def alts(sym):
    if isinstance(sym, tuple) and sym and sym[0] == 'phi':
        return sym[1]
    return frozenset([sym])


def jsym(a, b):
    if a == b:
        return a
    s = alts(a) | alts(b)
    if len(s) > 6:
        return None
    return ('phi', s)


def jprov(a, b):
    if a == b:
        return a
    if a is not None and a[0] == 'alt':
        return a
    if b is not None and b[0] == 'alt':
        return b
    return None


def join(a, b):
    if a is None:
        return b
    if b is None:
        return a
    if a is b or a == b:
        return a
    items = None
    if a.items is not None and b.items is not None and \
            len(a.items) == len(b.items):
        items = tuple(join(x, y) for x, y in zip(a.items, b.items))
    fun = a.fun if fkey(a.fun) == fkey(b.fun) else None
    # None/number alternatives carry no provenance
    pa, pb = a.prov, b.prov
    if a.only('none'):
        p = pb
    elif b.only('none'):
        p = pa
    else:
        p = jprov(pa, pb)
    return V(a.kinds | b.kinds, a.nd if a.nd == b.nd else
             (b.nd if a.only('none', 'num') else
              (a.nd if b.only('none', 'num') else None)),
             a.objs | b.objs, items, a.deps | b.deps, jsym(a.sym, b.sym), p,
             a.narrow or b.narrow, a.dt if a.dt == b.dt else None, fun,
             a.uninit or b.uninit)


def num(deps=E, sym=None):
    return V('num', deps=deps, sym=sym)


def const(c):
    k = ('none' if c is None else 'bool' if isinstance(c, bool) else
         'num' if isinstance(c, (int, float, complex)) else
         'str' if isinstance(c, (str, bytes)) else 'any')
    return V(k, sym=('const', c))


def addchain(prov, op):
    """provenance after applying op to the rows"""
    if prov is None or prov[0] != 'rows':
        return prov
    ch = prov[2]
    if ch and cancels(ch[-1], op):
        return ('rows', prov[1], ch[:-1])
    return ('rows', prov[1], ch + (op,))


def neg(s):
    if s is None:
        return None
    if s[0] == 'neg':
        return s[1]
    if s[0] == 'const' and isinstance(s[1], (int, float)):
        return ('const', -s[1])
    if s[0] == 'phi':
        r = frozenset(neg(x) for x in s[1])
        return None if None in r else ('phi', r)
    return ('neg', s)


def cancels(a, b):
    if a == 'flip' and b == 'flip':
        return True
    if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == 'rot' and \
            b[0] == 'rot' and a[2] == b[2]:
        if a[1] is not None and a[1] == neg(b[1]):
            return True
    return False
