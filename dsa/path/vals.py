"""abstract values of the path-sensitive effect analysis

Constants and containers are the Python ones; everything not known in the
source is a term T (opaque, compared structurally), a text S made of
constant and unknown pieces, or a location P (folder + name).
"""


class Undecided(Exception):
    pass


class Cut(Exception):
    """loop bound of the path enumeration reached"""


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class PyExc(Exception):
    """an exception of the analysed program"""

    def __init__(self, cls, origin='explicit', node=None, val=None,
                 event=None):
        self.cls = cls
        self.origin = origin
        self.node = node
        self.val = val
        self.event = event


class T:
    """opaque term"""
    typ = None

    def __init__(self, op, *args, **kw):
        self.op = op
        self.args = args
        self.typ = kw.pop('typ', None)
        self.info = kw
        self._k = None

    @property
    def key(self):
        if self._k is None:
            self._k = (self.op,) + tuple(key(a) for a in self.args)
        return self._k

    def __eq__(self, o):
        return isinstance(o, T) and self.key == o.key

    def __hash__(self):
        return hash(self.key)

    def __repr__(self):
        if self.op in ('sym', 'dim'):
            return '.'.join(str(a) for a in self.args)
        return '%s(%s)' % (self.op, ', '.join(repr(a) for a in self.args))


class A(T):
    """array: a term with known number of axes and element type"""
    typ = 'ndarray'

    def __init__(self, op, *args, **kw):
        self.nd = kw.pop('nd', None)
        self.dtype = kw.pop('dtype', None)
        self.dims = kw.pop('dims', None)
        T.__init__(self, op, *args, **kw)
        self.typ = 'ndarray'

    @property
    def shape(self):
        if self.nd is None:
            return None
        if self.dims is not None:
            return tuple(self.dims)
        return tuple(T('dim', self, k, typ='int') for k in range(self.nd))


class S:
    """text with unknown pieces"""

    def __init__(self, parts):
        out = []
        for p in parts:
            if isinstance(p, S):
                ps = p.parts
            else:
                ps = (p,)
            for q in ps:
                if isinstance(q, str):
                    if not q:
                        continue
                    if out and isinstance(out[-1], str):
                        out[-1] += q
                        continue
                out.append(q)
        self.parts = tuple(out)

    @property
    def key(self):
        return ('S',) + tuple(key(p) for p in self.parts)

    def __eq__(self, o):
        return isinstance(o, S) and self.key == o.key

    def __hash__(self):
        return hash(self.key)

    def __repr__(self):
        return ''.join(p if isinstance(p, str) else '<%r>' % (p,)
                       for p in self.parts)


def text(parts):
    """S, or the constant / the single piece when that is all there is"""
    s = S(parts)
    if not s.parts:
        return ''
    if len(s.parts) == 1:
        p = s.parts[0]
        if isinstance(p, str):
            return p
        if isinstance(p, P):
            return p.as_str()
        if isinstance(p, T) and p.typ == 'str':
            return p
    return s


class P:
    """a location: folder (P or T) and name (text)"""
    typ = 'path'

    def __init__(self, parent, name, is_str=False):
        self.parent = parent
        self.name = name if isinstance(name, S) else S([name])
        self.is_str = is_str

    @property
    def key(self):
        return ('P', key(self.parent), self.name.key)

    def __eq__(self, o):
        return isinstance(o, P) and self.key == o.key

    def __hash__(self):
        return hash(self.key)

    def split(self):
        """(stem, suffix) of the name, as S"""
        ps = list(self.name.parts)
        for k in range(len(ps) - 1, -1, -1):
            if isinstance(ps[k], str):
                j = ps[k].rfind('.')
                if j >= 0:
                    if k == 0 and j == 0:
                        break
                    return (S(ps[:k] + [ps[k][:j]]),
                            S([ps[k][j:]] + ps[k + 1:]))
        return self.name, S([])

    @property
    def stem(self):
        return self.split()[0]

    @property
    def suffix(self):
        return self.split()[1]

    def as_str(self):
        return P(self.parent, self.name, True)

    def as_path(self):
        return P(self.parent, self.name, False)

    def __repr__(self):
        return '%r/%r' % (self.parent, self.name)


class X:
    """something outside the package, by dotted name"""

    def __init__(self, name):
        self.name = name

    @property
    def key(self):
        return ('X', self.name)

    def __eq__(self, o):
        return isinstance(o, X) and o.name == self.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return self.name


class Fn:
    def __init__(self, node, module, env, name, defaults=None):
        self.node = node
        self.module = module
        self.env = env
        self.name = name
        self.defaults = defaults

    @property
    def key(self):
        return ('Fn', self.name, id(self.node))

    def __repr__(self):
        return self.name


class M:
    """bound method of a modelled object"""

    def __init__(self, obj, name):
        self.obj = obj
        self.name = name

    @property
    def key(self):
        return ('M', key(self.obj), self.name)


class H:
    """an object with state (file, figure, capture, HDF node ...)"""
    n = 0

    def __init__(self, kind, **kw):
        self.kind = kind
        self.closed = False
        self.__dict__.update(kw)
        self.ident = None

    @property
    def key(self):
        return ('H', self.kind, id(self))

    def __repr__(self):
        return '<%s>' % self.kind


class Iter:
    """a materialised iterator / view"""

    def __init__(self, items=(), gen=None, endless=False):
        self.items = list(items)
        self.pos = 0
        self.gen = gen
        self.endless = endless

    def pull(self):
        if self.pos < len(self.items):
            self.pos += 1
            return self.items[self.pos - 1]
        if self.gen is not None:
            return next(self.gen)
        if self.endless:
            raise Cut('endless iterator')
        raise StopIteration

    @property
    def key(self):
        return ('Iter', id(self))


class Slice:
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step

    @property
    def key(self):
        return ('Slice', key(self.lo), key(self.hi), key(self.step))

    def __eq__(self, o):
        return isinstance(o, Slice) and self.key == o.key

    def __hash__(self):
        return hash(self.key)


def key(v):
    k = getattr(v, 'key', None)
    if k is not None and not isinstance(v, type):
        return k
    if isinstance(v, (list, tuple)):
        return (type(v).__name__,) + tuple(key(x) for x in v)
    if isinstance(v, dict):
        return ('dict',) + tuple((key(a), key(b)) for a, b in v.items())
    if isinstance(v, (set, frozenset)):
        return ('set',) + tuple(sorted(repr(key(x)) for x in v))
    if isinstance(v, bool):
        return ('bool', v)
    if isinstance(v, (int, float)) and v == v:
        return ('num', v)
    return (type(v).__name__, v) if hasattr(type(v), '__hash__') and \
        type(v).__hash__ else (type(v).__name__, id(v))


class K:
    """hashable wrapper used as dictionary key for abstract keys"""

    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return isinstance(o, K) and key(o.v) == key(self.v)

    def __hash__(self):
        return hash(repr(key(self.v)))


def is_const(v):
    return v is None or isinstance(v, (str, int, float, complex, bytes,
                                       type(Ellipsis))) or \
        isinstance(v, (tuple, list)) and all(is_const(x) for x in v)


def is_text(v):
    return isinstance(v, (str, S)) or isinstance(v, P) and v.is_str or \
        isinstance(v, T) and v.typ == 'str'
