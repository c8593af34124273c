"""library semantics for the path analysis: text, paths, files, HDF, images,
figures, and opaque terms for everything numerical"""
import re
import string
from .vals import *
from .run import D, Set_, EXC, Env, is_sub

NPINT = {'int8', 'int16', 'int32', 'int64', 'uint8', 'uint16', 'uint32',
         'uint64', 'intp'}
NPFLOAT = {'float16', 'float32', 'float64'}
CONTROL = set('\a\b\f\n\r\t\v\0\\')
CANON = {'os.path': 'os.path', 'posixpath': 'os.path', 'ntpath': 'os.path',
         'matplotlib.pylab': 'matplotlib.pyplot', 'io.open': 'builtins.open',
         'codecs.open': 'builtins.open',
         'matplotlib.rcParams': 'matplotlib.pyplot.rcParams',
         'matplotlib.rc': 'matplotlib.pyplot.rc',
         'matplotlib.rc_context': 'matplotlib.pyplot.rc_context',
         'pathlib.PosixPath': 'pathlib.Path',
         'h5py._hl.files.File': 'h5py.File'}
PURE = ('numpy', 'math', 'scipy', 'collections', 'itertools', 'functools',
        'operator', 'copy', 'string', 're', 'cv2', 'time', 'datetime',
        'skimage', 'numbers', 'typing', 'fractions', 'decimal')
READ_T = {'text', 'lines'}


class RC:
    """the plot settings"""
    key = ('RC',)


class Lib:
    def __init__(self, run):
        self.r = run
        self.rc_changed = {}
        self.figs = []

    # --------------------------------------------------------------- names
    def canon(self, d):
        for k, v in CANON.items():
            if d == k or d.startswith(k + '.'):
                return v + d[len(k):]
        return d

    CONSTS = {'os.name': 'posix', 'sys.platform': 'linux', 'os.sep': '/',
              'os.path.sep': '/', 'os.linesep': '\n', 'os.altsep': None,
              'numpy.newaxis': None}

    def constant(self, d):
        if d in self.CONSTS:
            return self.CONSTS[d]
        if d == 'matplotlib.pyplot.rcParams':
            return RC()
        return X(d)

    # --------------------------------------------------------------- truth
    def truth(self, v):
        r = self.r
        if v is None or isinstance(v, (bool, int, float, str, bytes, tuple,
                                       list)):
            return bool(v)
        if isinstance(v, D):
            return bool(v.d)
        if isinstance(v, Set_):
            return bool(v.d.d)
        if isinstance(v, S):
            return any(isinstance(p, str) for p in v.parts) or \
                r.fact(('nonempty', v.key))
        if isinstance(v, (P, Fn, X, PyExc)):
            return True
        if isinstance(v, H):
            if v.kind == 'h5':
                return not v.closed
            if v.kind in ('group',):
                return True
            return True
        if isinstance(v, T):
            return self.cond(v)
        raise Undecided('truth of %r' % (v,))

    NEG = {'!=': '==', '>=': '<', '<=': '>', 'notin': 'in', 'isnot': 'is'}

    def cond(self, t):
        op = t.op
        if op == 'not':
            return not self.truth(t.args[0])
        if op in self.NEG:
            return not self.r.fact((self.NEG[op],) + t.key[1:])
        if op in ('exists', 'isfile', 'isdir'):
            return self.exists(op, t.args[0])
        return self.r.fact(t.key)

    def exists(self, kind, p):
        f = self.r.facts
        k = (kind, p.key)
        if k in f:
            return f[k]
        e = ('exists', p.key)
        if kind != 'exists' and f.get(e) is False:
            return False
        if kind == 'exists' and (f.get(('isfile', p.key)) or
                                 f.get(('isdir', p.key))):
            return True
        if kind == 'isdir' and f.get(('mkdir', p.key)):
            return True
        if f.get(('isfile', p.key)) is False and \
                f.get(('isdir', p.key)) is False:
            return False
        if f.get(('isfile', p.key)) or f.get(('isdir', p.key)):
            if kind == 'exists':
                return True
        q = p.parent if isinstance(p, P) else None
        while isinstance(q, (P, T)):
            if f.get(('exists', q.key)) is False or \
                    f.get(('isdir', q.key)) is False:
                f[k] = False
                return False
            q = q.parent if isinstance(q, P) else None
        v = self.r.fact(k)
        if v:
            q = p.parent if isinstance(p, P) else None
            while isinstance(q, (P, T)):
                f.setdefault(('exists', q.key), True)
                q = q.parent if isinstance(q, P) else None
        return v

    # ------------------------------------------------------------ iterate
    def iterate(self, v, node):
        r = self.r
        if isinstance(v, (tuple, str, bytes, range)):
            yield from v
        elif isinstance(v, (D,)):
            yield from v.keys()
        elif isinstance(v, Set_):
            yield from v.items()
        elif isinstance(v, Iter):
            while True:
                try:
                    x = v.pull()
                except StopIteration:
                    return
                yield x
        elif isinstance(v, H):
            yield from self.iter_handle(v, node)
        elif isinstance(v, T):
            n = v.info.get('len')
            if n is None and isinstance(v, A) and v.dims and \
                    isinstance(v.dims[0], int):
                n = v.dims[0]
            if n is None:
                ls = self.r.opts.get('loop', (0, 2))
                k = ('len', v.key)
                if k not in r.facts:
                    r.facts[k] = ls[r.choose(len(ls), k)]
                n = r.facts[k]
            for i in range(n):
                yield self.item(v, i)
        else:
            raise Undecided('iteration over %r' % (v,))

    def item(self, v, i):
        if isinstance(v, A) and v.op == 'vec' and isinstance(i, int) and \
                -len(v.args[0]) <= i < len(v.args[0]):
            return v.args[0][i]
        if isinstance(v, A):
            nd = None if v.nd is None else v.nd - 1
            return A('item', v, i, nd=nd, dtype=v.dtype) \
                if nd != 0 else T('item', v, i)
        return T('item', v, i, typ=v.info.get('elt'))

    def unpack(self, v, n, node):
        if isinstance(v, T):
            return [self.item(v, i) for i in range(n)]
        if isinstance(v, H):
            return list(self.iterate(v, node))
        raise Undecided('unpack')

    # --------------------------------------------------------------- text
    def str(self, v):
        if is_text(v):
            return v
        if isinstance(v, P):
            return v.as_str()
        if isinstance(v, bool) or v is None or isinstance(v, (int, float)):
            return str(v)
        if isinstance(v, T):
            return S([T('txt', v, '')])
        if isinstance(v, (list, tuple)) and is_const(v):
            return str(v)
        return S([T('txt', v, '')])

    def repr(self, v):
        if isinstance(v, (str, int, float, bool)) or v is None:
            return repr(v)
        if isinstance(v, T) and v.typ in ('float', 'int'):
            return S([T('txt', v, '')])
        return S([T('txt', v, 'r')])

    def format(self, v, spec):
        if spec == '' or spec == 's':
            return self.str(v)
        if isinstance(v, (str, int, float)) and not isinstance(v, bool):
            try:
                return format(v, spec)
            except ValueError:
                raise PyExc('ValueError', 'lib')
        return S([T('txt', v, spec)])

    def to_path(self, v):
        """the location a text denotes"""
        if isinstance(v, P):
            return v.as_path()
        if isinstance(v, str):
            if '/' in v:
                d, n = v.rsplit('/', 1)
                return P(T('sym', d or '/', typ='path'), n)
            return P(T('sym', '.', typ='path'), v)
        if isinstance(v, T):
            if v.op in ('sym', 'parentof'):
                return v
            return P(T('dirof', v, typ='path'), S([T('nameof', v)]))
        if isinstance(v, S):
            ps = list(v.parts)
            if isinstance(ps[0], P):
                base, rest = ps[0], ps[1:]
                if not rest:
                    return base.as_path()
                if isinstance(rest[0], str) and rest[0].startswith('/'):
                    return self.join(base, S([rest[0][1:]] + rest[1:]))
                return self.join(base.parent, S(list(base.name.parts) + rest))
            if isinstance(ps[0], T) and ps[0].typ == 'path':
                if len(ps) > 1 and isinstance(ps[1], str) and \
                        ps[1].startswith('/'):
                    return self.join(ps[0], S([ps[1][1:]] + ps[2:]))
            return self.join(T('sym', '.', typ='path'), v)
        if isinstance(v, H) and v.kind == 'tmp':
            return v.path
        raise Undecided('path from %r' % (v,))

    def join(self, base, name):
        """base / name, name possibly with slashes"""
        if isinstance(name, P):
            if name.parent.key == ('sym', ('str', '.')):
                return P(base, name.name)
            return name.as_path()
        s = name if isinstance(name, S) else S([name])
        cur, out = [], base
        for p in s.parts:
            if isinstance(p, str):
                bits = p.split('/')
                for k, b in enumerate(bits):
                    if k:
                        if cur:
                            out = P(out, S(cur))
                        cur = []
                    if b and b != '.':
                        cur.append(b)
            else:
                cur.append(p)
        if isinstance(out, P):
            out = out.as_path()
        return P(out, S(cur)) if cur else out

    # ---------------------------------------------------------- operators
    OPS = {'Add': '+', 'Sub': '-', 'Mult': '*', 'Div': '/', 'FloorDiv': '//',
           'Mod': '%', 'Pow': '**', 'BitAnd': '&', 'BitOr': '|',
           'BitXor': '^', 'MatMult': '@', 'LShift': '<<', 'RShift': '>>'}

    def binop(self, op, a, b, node):
        if op == 'Div' and (isinstance(a, P) and not a.is_str or
                            isinstance(a, T) and a.typ == 'path'):
            return self.join(a, b if not isinstance(b, T) or b.typ != 'str'
                             else S([b]))
        if op == 'Add' and is_text(a) and is_text(b):
            if isinstance(a, str) and isinstance(b, str):
                return a + b
            return text([a, b])
        if op == 'Mod' and is_text(a):
            return self.percent(a, b)
        if op == 'Add' and isinstance(a, (list, tuple)) and \
                isinstance(b, (list, tuple)):
            if type(a) != type(b):
                raise PyExc('TypeError', 'lib', node)
            return a + b
        if op == 'Mult' and isinstance(a, (list, tuple, str)) and \
                isinstance(b, int):
            return a * b
        num = (int, float, bool)
        if isinstance(a, num) and isinstance(b, num):
            try:
                return {'Add': lambda: a + b, 'Sub': lambda: a - b,
                        'Mult': lambda: a * b, 'Div': lambda: a / b,
                        'FloorDiv': lambda: a // b, 'Mod': lambda: a % b,
                        'Pow': lambda: a ** b, 'BitAnd': lambda: a & b,
                        'BitOr': lambda: a | b, 'BitXor': lambda: a ^ b,
                        'LShift': lambda: a << b,
                        'RShift': lambda: a >> b}[op]()
            except ZeroDivisionError:
                raise PyExc('ZeroDivisionError', 'lib', node)
            except KeyError:
                raise Undecided('operator')
        if isinstance(a, Set_) and isinstance(b, Set_):
            ka, kb = set(a.d.d), set(b.d.d)
            it = {**a.d.d, **b.d.d}
            f = {'BitAnd': ka & kb, 'BitOr': ka | kb, 'Sub': ka - kb,
                 'BitXor': ka ^ kb}[op]
            return Set_([it[k][0] for k in it if k in f])
        o = self.OPS[op]
        if isinstance(a, A) or isinstance(b, A):
            nds = [x.nd for x in (a, b) if isinstance(x, A)]
            x = a if isinstance(a, A) and (not isinstance(b, A) or
                                           (a.nd or 0) >= (b.nd or 0)) else b
            return A(o, a, b, nd=None if None in nds else max(nds),
                     dims=x.dims or x.shape)
        if op == 'Add' and (is_text(a) or is_text(b)) and \
                isinstance(a if is_text(b) else b, T):
            return text([a if is_text(a) else T('txt', a, ''), b]) \
                if is_text(a) else text([a, b])
        return T(o, a, b)

    def percent(self, a, b):
        if not isinstance(a, str):
            raise Undecided('% format')
        vals = list(b) if isinstance(b, tuple) else [b]
        out = []
        pos = 0
        for m in re.finditer(r'%(%|([-+ #0]*\d*(?:\.\d+)?)([sdrfgeEGxi]))',
                             a):
            out.append(a[pos:m.start()])
            pos = m.end()
            if m.group(1) == '%':
                out.append('%')
                continue
            v = vals.pop(0)
            c = m.group(3)
            if c in 'sr' and not m.group(2):
                out.append(self.str(v) if c == 's' else self.repr(v))
            elif isinstance(v, (int, float)):
                out.append(m.group(0) % v)
            else:
                out.append(T('txt', v, m.group(2) + c))
        out.append(a[pos:])
        return text(out)

    def unary(self, op, v, node):
        if isinstance(v, (int, float)):
            return {'USub': lambda: -v, 'UAdd': lambda: +v,
                    'Invert': lambda: ~v}[op]()
        if isinstance(v, A):
            return A(op, v, nd=v.nd, dims=v.dims)
        return T('neg' if op == 'USub' else op, v)

    CMP = {'Eq': '==', 'NotEq': '!=', 'Lt': '<', 'LtE': '<=', 'Gt': '>',
           'GtE': '>=', 'Is': 'is', 'IsNot': 'isnot', 'In': 'in',
           'NotIn': 'notin'}

    def compare(self, op, a, b, node):
        if op in ('In', 'NotIn'):
            r = self.contains(b, a, node)
            if isinstance(r, bool):
                return r if op == 'In' else not r
            return r if op == 'In' else T('not', r)
        if op in ('Is', 'IsNot'):
            r = self.is_(a, b)
        elif op in ('Eq', 'NotEq'):
            r = self.eq(a, b)
        else:
            num = (int, float)
            if isinstance(a, num) and isinstance(b, num) or \
                    isinstance(a, str) and isinstance(b, str):
                return {'Lt': a < b, 'LtE': a <= b, 'Gt': a > b,
                        'GtE': a >= b}[op]
            if isinstance(a, (Set_, set)):
                raise Undecided('set comparison')
            if op in ('Gt', 'LtE'):
                t = T('<', b, a, typ='bool')
                return t if op == 'Gt' else T('not', t, typ='bool')
            t = T('<', a, b, typ='bool')
            return t if op == 'Lt' else T('not', t, typ='bool')
        if isinstance(r, bool):
            return r if op in ('Eq', 'Is') else not r
        return r if op in ('Eq', 'Is') else T('not', r, typ='bool')

    def is_(self, a, b):
        if type(a).__name__ == 'LazyNode':
            a = a.get()
            if b is None:
                return a is None
        if a is None or b is None or isinstance(a, bool) or \
                isinstance(b, bool):
            for x, y in ((a, b), (b, a)):
                if isinstance(y, (bool, type(None))):
                    if x is y:
                        return True
                    if isinstance(x, T) and x.typ in (None, 'bool'):
                        if y is None and x.typ == 'bool':
                            return False
                        if isinstance(y, bool) and x.typ == 'bool':
                            v = self.truth(x)
                            return v is y
                        return T('is', x, y, typ='bool')
                    return False
        if isinstance(a, (X, H, Fn, D, list)) and \
                isinstance(b, (X, H, Fn, D, list)):
            return a is b or isinstance(a, X) and a == b
        return self.eq(a, b)

    def eq(self, a, b):
        if key(a) == key(b):
            return True
        da, db = self.dtype_name(a), self.dtype_name(b)
        if da and db and (isinstance(a, X) or isinstance(b, X) or
                          da in NPINT | NPFLOAT and db in NPINT | NPFLOAT):
            return da == db
        ca, cb = is_const(a), is_const(b)
        if ca and cb:
            return a == b
        if isinstance(a, bool) or isinstance(b, bool):
            if isinstance(a, T) and a.typ == 'bool':
                return self.truth(a) == b
            if isinstance(b, T) and b.typ == 'bool':
                return self.truth(b) == a
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
            if type(a) != type(b) or len(a) != len(b):
                return False
            for x, y in zip(a, b):
                if not self.truth(self.eq(x, y)):
                    return False
            return True
        if isinstance(a, S) or isinstance(b, S):
            if isinstance(a, S) and isinstance(b, (type(None), int)):
                return False
            if isinstance(b, S) and isinstance(a, (type(None), int)):
                return False
        if isinstance(a, P) and b is None or isinstance(b, P) and a is None:
            return False
        if isinstance(a, X) and isinstance(b, X):
            return a == b
        for x, y in ((a, b), (b, a)):
            if isinstance(x, T) and x.typ and y is None:
                return False
            if isinstance(x, T) and x.typ in ('int', 'float') and \
                    isinstance(y, str):
                return False
            if isinstance(x, T) and x.typ == 'str' and \
                    isinstance(y, (int, float)):
                return False
            if isinstance(x, (X, H)) and (y is None or
                                          isinstance(y, (str, int))):
                return False
        ks = sorted([a, b], key=lambda v: repr(key(v)))
        return T('==', *ks, typ='bool')

    def dtype_name(self, v):
        if isinstance(v, X):
            n = v.name.split('.')[-1]
            if n in NPINT | NPFLOAT and v.name.startswith('numpy'):
                return n
            if v.name == 'builtins.float':
                return 'float64'
        if isinstance(v, str) and v in NPINT | NPFLOAT:
            return v
        if isinstance(v, T) and v.op == 'numpy.dtype' and v.args:
            return self.dtype_name(v.args[0])
        return None

    def contains(self, c, x, node):
        if isinstance(c, str) and isinstance(x, str):
            return x in c
        if isinstance(c, (list, tuple, range)) or isinstance(c, (D, Set_)) \
                or isinstance(c, Iter):
            items = c.keys() if isinstance(c, D) else c.items() if \
                isinstance(c, Set_) else list(self.iterate(c, node)) if \
                isinstance(c, Iter) else list(c)
            unknown = []
            for y in items:
                e = self.eq(x, y)
                if e is True:
                    return True
                if e is not False:
                    unknown.append(e)
            for e in unknown:
                if self.truth(e):
                    return True
            return False
        if isinstance(c, H):
            return self.h_contains(c, x, node)
        if isinstance(x, str) and x and set(x) <= CONTROL and \
                isinstance(c, (P, S, T)):
            return False
        if isinstance(c, S) and isinstance(x, str):
            if any(isinstance(p, str) and x in p for p in c.parts):
                return True
        if isinstance(c, T) and c.op == 'listing':
            return T('exists', self.join(c.args[0], S([x])), typ='bool')
        return T('in', x, c, typ='bool')

    # --------------------------------------------------------- attributes
    def attr(self, o, n, node):
        if type(o).__name__ == 'LazyNode':
            o = o.get()
            if o is None:
                raise PyExc('AttributeError', 'lib', node)
        if isinstance(o, T) and o.op == 'stat' and n == 'st_size':
            return T('filesize', o.args[0], typ='int')
        if isinstance(o, P):
            if not o.is_str:
                r = self.path_attr(o, n)
                if r is not None:
                    return r
            return M(o, n)
        if isinstance(o, H):
            r = self.h_attr(o, n, node)
            if r is not NotImplemented:
                return r
            return M(o, n)
        if isinstance(o, A):
            if n == 'shape':
                if o.nd is not None:
                    return o.shape
                return T('shape', o, typ='tuple')
            if n == 'ndim':
                return o.nd if o.nd is not None else T('ndim', o, typ='int')
            if n == 'dtype':
                if o.dtype:
                    return X('numpy.' + o.dtype)
                return T('dtype', o)
            if n == 'T':
                return A('transpose', o, nd=o.nd)
            if n == 'size':
                return T('size', o, typ='int')
            return M(o, n)
        if isinstance(o, T):
            if n in ('x', 'shape', 'dtype', 'size', 'ndim', 'real', 'imag',
                     'T', 'name', 'itemsize', '__name__', 'args', 'errno',
                     'strerror', 'coords'):
                if o.typ == 'path' and n == 'name':
                    return text([T('nameof', o)])
                return T('attr', o, n)
            if o.typ == 'path':
                if n == 'parent':
                    return T('parentof', o, typ='path')
                if n in ('suffix', 'stem'):
                    return T(n, o, typ='str')
            return M(o, n)
        if isinstance(o, X):
            return X(o.name + '.' + n)
        if isinstance(o, RC) or isinstance(o, (str, S, list, tuple, D, Set_,
                                               Iter, int, float, bytes)):
            return M(o, n)
        if isinstance(o, PyExc):
            return T('attr', T('exc', o.cls), n)
        if isinstance(o, Fn):
            if n in ('__name__', '__doc__'):
                return o.name
        if o is None and not n.startswith('__'):
            raise PyExc('AttributeError', 'lib', node)
        raise Undecided('attribute %s of %r' % (n, o))

    def path_attr(self, p, n):
        if n == 'parent':
            return p.parent.as_path() if isinstance(p.parent, P) else p.parent
        if n == 'name':
            return text([p.name])
        if n == 'stem':
            return text([p.stem])
        if n == 'suffix':
            return text([p.suffix])
        if n == 'suffixes':
            s = text([p.suffix])
            return [s] if s != '' else []
        if n in ('parts', 'parents', 'root', 'anchor', 'drive'):
            if n == 'parents':
                out, q = [], p.parent
                while isinstance(q, P):
                    out.append(q)
                    q = q.parent
                return out + [q]
            raise Undecided('path.%s' % n)
        return None

    def setattr(self, o, n, v, node):
        if isinstance(o, (T, H)):
            self.r.event('setattr', node, obj=o, name=n, value=v)
            return
        if n == 'LOAD_TRUNCATED_IMAGES':
            return
        raise Undecided('attribute store')

    # -------------------------------------------------------------- items
    def getitem(self, o, i, node):
        if type(o).__name__ == 'LazyNode':
            o = o.get()
            if o is None:
                raise PyExc('TypeError', 'lib', node)
        if isinstance(o, (list, tuple, str)):
            if isinstance(i, Slice):
                if all(x is None or isinstance(x, int) for x in
                       (i.lo, i.hi, i.step)):
                    return o[i.lo:i.hi:i.step]
                return T('getitem', o, i)
            if isinstance(i, int):
                try:
                    return o[i]
                except IndexError:
                    raise PyExc('IndexError', 'lib', node)
            if isinstance(i, T):
                return T('getitem', o, i)
            raise PyExc('TypeError', 'lib', node)
        if isinstance(o, D):
            if o.has(i):
                return o.get(i)
            if isinstance(i, (T, S)) or any(isinstance(k, (T, S))
                                            for k in o.keys()):
                return T('getitem', o, i)
            raise PyExc('KeyError', 'lib', node)
        if isinstance(o, H):
            return self.h_getitem(o, i, node)
        if isinstance(o, RC):
            c = self.rc_changed
            return T('rc', i, 'changed' if i in c or '*' in c else 'orig')
        if isinstance(o, A) and o.op == 'vec' and isinstance(i, int):
            if not -len(o.args[0]) <= i < len(o.args[0]):
                raise PyExc('IndexError', 'lib', node)
            return o.args[0][i]
        if isinstance(o, A):
            return self.select(o, i, node)
        if isinstance(o, T):
            if isinstance(i, int):
                return self.item(o, i)
            return T('getitem', o, i)
        if isinstance(o, (S, P)):
            return T('getitem', o, i, typ='str')
        if isinstance(o, X):
            return o
        raise Undecided('subscript of %r' % (o,))

    def setitem(self, o, i, v, node):
        if isinstance(o, list) and isinstance(i, int):
            try:
                o[i] = v
            except IndexError:
                raise PyExc('IndexError', 'lib', node)
        elif isinstance(o, D):
            o.set(i, v)
        elif isinstance(o, RC):
            self.rc_set(i, v, node)
        elif isinstance(o, H):
            self.h_setitem(o, i, v, node)
        elif isinstance(o, T):
            self.r.event('store', node, obj=o, index=i, value=v)
        else:
            raise Undecided('item store')

    def inplace(self, old, new, node):
        self.r.event('store', node, obj=old, index=None, value=new)
        return new

    # ------------------------------------------------------------- arrays
    def select(self, o, i, node=None, h5=False):
        """o[i] with o an array"""
        idx = list(i) if isinstance(i, tuple) else [i]
        if o.op in ('cast', 'copy') and isinstance(o.args[0], A) and \
                o.args[0].nd is not None:
            w = self.select(o.args[0], i, node)
            if isinstance(w, A):
                return A(o.op, w, *o.args[1:], nd=w.nd, dims=w.shape,
                         dtype=o.dtype)
            return T(o.op, w, *o.args[1:])
        if o.nd is None:
            return A('getitem', o, i, dtype=o.dtype)
        if any(x is Ellipsis for x in idx):
            k = [j for j, x in enumerate(idx) if x is Ellipsis][0]
            n = o.nd - (len([x for x in idx if x is not None]) - 1)
            idx = idx[:k] + [Slice(None, None, None)] * n + idx[k + 1:]
        if i == ():
            idx = []
        if any(x is None for x in idx) or len(idx) > o.nd or \
                any(isinstance(x, A) for x in idx):
            return A('getitem', o, i, dtype=o.dtype)
        idx += [Slice(None, None, None)] * (o.nd - len(idx))
        base, sels, cast = (o.args[0], list(o.args[1]), None) \
            if o.op == 'sel' else (o, [('all',)] * o.nd, None)
        live = [k for k, s in enumerate(sels) if s[0] != 'int']
        dims = []
        for k, x, d in zip(live, idx, o.shape):
            s = sels[k]
            if isinstance(x, Slice):
                if x.lo in (None, 0) and x.hi is None and \
                        x.step in (None, 1):
                    dims.append(d)
                    continue
                if s[0] == 'all':
                    sels[k] = ('slice', x.lo if x.lo is not None else 0,
                               x.hi, x.step if x.step is not None else 1)
                    dims.append(T('slicelen', x, d, typ='int'))
                    if all(isinstance(q, int) and q >= 0 for q in
                           (x.lo or 0, x.hi, x.step or 1)
                           if q is not None) and x.hi is not None:
                        L = list(range(x.lo or 0, x.hi, x.step or 1))
                        sels[k] = ('list', tuple(L))
                        dims[-1] = len(L)
                    continue
                if s[0] == 'list' and all(q is None or isinstance(q, int)
                                          for q in (x.lo, x.hi, x.step)):
                    L = s[1][x.lo:x.hi:x.step]
                    sels[k] = ('list', L)
                    dims.append(len(L))
                    continue
                return A('getitem', o, i, dtype=o.dtype)
            if isinstance(x, (list, tuple)):
                if s[0] != 'all':
                    return A('getitem', o, i, dtype=o.dtype)
                if isinstance(d, int) and any(
                        isinstance(q, int) and not -d <= q < d for q in x):
                    raise PyExc('IndexError', 'lib', node)
                if h5 and all(isinstance(q, int) for q in x) and \
                        list(x) != sorted(set(x)):
                    raise PyExc('TypeError', 'lib', node)
                sels[k] = ('list', tuple(x))
                dims.append(len(x))
                continue
            # scalar index
            if isinstance(x, int) and isinstance(d, int) and \
                    not -d <= x < d:
                raise PyExc('IndexError', 'lib', node)
            if s[0] == 'all':
                sels[k] = ('int', x)
            elif s[0] == 'list' and isinstance(x, int) and \
                    -len(s[1]) <= x < len(s[1]):
                sels[k] = ('int', s[1][x])
            else:
                return A('getitem', o, i, dtype=o.dtype)
        if all(s[0] == 'all' for s in sels):
            return base if not isinstance(base, H) else base.data
        return A('sel', base, tuple(sels), nd=len(dims), dims=dims,
                 dtype=o.dtype)

    # --------------------------------------------------------------- calls
    def call(self, name, args, kw, node):
        f = getattr(self, 'c_' + name.replace('.', '_'), None)
        if f is not None:
            return f(args, kw, node)
        root = name.split('.')[0]
        for pre, g in PREFIX:
            if name.startswith(pre):
                r = getattr(self, g)(name, name[len(pre):], args, kw, node)
                if r is not NotImplemented:
                    return r
        if root in PURE:
            return self.pure(name, args, kw, node)
        raise Undecided('call of %s' % name)

    def call_term(self, f, args, kw, node):
        return T('apply', f, *args)

    def pure(self, name, args, kw, node):
        r = self.np_shape(name, args, kw)
        if r is not None:
            return r
        return T(name, *(list(args) + [(k, v) for k, v in
                                       sorted(kw.items())]))

    CASTS = {'float32', 'float64', 'float16', 'uint8', 'uint16', 'int16',
             'int32', 'int64', 'uint32', 'int8', 'float_', 'double', 'single'}

    def np_shape(self, name, args, kw):
        if not name.startswith('numpy.'):
            return None
        n = name[6:]
        a = args[0] if args else kw.get('a', kw.get('arr'))
        if n in self.CASTS and args:
            n = {'double': 'float64', 'single': 'float32'}.get(n, n)
            a = self.data_of(a)
            if isinstance(a, A):
                return A('cast', a, n, nd=a.nd, dims=a.shape, dtype=n)
            if isinstance(a, (int, float)):
                return a
            return T('cast', a, n, typ='np' + n)
        if n in ('array', 'asarray', 'ascontiguousarray', 'copy',
                 'asanyarray'):
            dt = kw.get('dtype', args[1] if len(args) > 1 else None)
            a = self.data_of(a)
            if isinstance(a, A):
                if dt is not None:
                    d = self.dtype_name(dt) or '?'
                    return A('cast', a, d, nd=a.nd, dims=a.shape, dtype=d)
                return A('copy', a, nd=a.nd, dims=a.shape, dtype=a.dtype) \
                    if n in ('array', 'copy') else a
            if isinstance(a, (list, tuple)):
                if a and all(isinstance(x, (int, float)) or
                             isinstance(x, T) and not isinstance(x, A)
                             for x in a):
                    return A('vec', tuple(a), nd=1, dims=(len(a),))
                return A('array', tuple(a))
            return None
        if not isinstance(self.data_of(a), A) and n in ('min', 'max'):
            return None
        if n in ('mean', 'sum', 'min', 'max', 'median', 'std', 'amin',
                 'amax', 'nanmin', 'nanmax', 'ptp', 'average', 'nanmean'):
            a = self.data_of(a)
            if isinstance(a, A):
                ax = kw.get('axis', args[1] if len(args) > 1 else None)
                n = {'amin': 'min', 'amax': 'max'}.get(n, n)
                if ax is None:
                    return T(n, a, typ='np' + a.dtype if a.dtype and n in
                             ('min', 'max') else None)
                return A(n, a, ax, nd=None if a.nd is None else a.nd - 1)
        if n in ('abs', 'absolute', 'sqrt', 'round', 'rint', 'floor', 'ceil',
                 'around', 'clip', 'exp', 'log', 'nan_to_num', 'trunc',
                 'sign'):
            a = self.data_of(a)
            if isinstance(a, A):
                return A(n, *(tuple(args) + tuple(sorted(kw.items()))),
                         nd=a.nd, dims=a.shape)
            if n == 'clip' and isinstance(a, (int, float)):
                lo = args[1] if len(args) > 1 else kw.get('a_min')
                hi = args[2] if len(args) > 2 else kw.get('a_max')
                if all(x is None or isinstance(x, (int, float))
                       for x in (lo, hi)):
                    if lo is not None:
                        a = max(a, lo)
                    if hi is not None:
                        a = min(a, hi)
                    return a
        if n in ('subtract', 'multiply', 'divide', 'add', 'true_divide') and \
                len(args) == 2 and not kw:
            return self.binop({'subtract': 'Sub', 'multiply': 'Mult',
                               'divide': 'Div', 'add': 'Add',
                               'true_divide': 'Div'}[n], *args, None)
        if n == 'take':
            a = self.data_of(a)
            ind = args[1] if len(args) > 1 else kw.get('indices')
            ax = args[2] if len(args) > 2 else kw.get('axis')
            if isinstance(a, A) and a.nd is not None and \
                    isinstance(ax, int):
                ax = ax % a.nd
                full = Slice(None, None, None)
                i = tuple(ind if k == ax else full for k in range(a.nd))
                return self.select(a, i)
        if n == 'squeeze':
            a = self.data_of(a)
            ax = args[1] if len(args) > 1 else kw.get('axis')
            if isinstance(a, A) and a.nd is not None:
                full = Slice(None, None, None)
                if isinstance(ax, int):
                    ax %= a.nd
                    return self.select(a, tuple(
                        0 if k == ax else full for k in range(a.nd)))
                if ax is None:
                    r = a
                    for k in reversed(range(a.nd)):
                        one = self.eq(a.shape[k], 1)
                        if self.truth(one):
                            r = self.select(r, tuple(
                                0 if j == k else full
                                for j in range(r.nd)))
                    return r
        if n == 'ndim' and isinstance(self.data_of(a), A) and \
                self.data_of(a).nd is not None:
            return self.data_of(a).nd
        if n == 'shape' and isinstance(self.data_of(a), A) and \
                self.data_of(a).nd is not None:
            return self.data_of(a).shape
        if n == 'argmin' and isinstance(a, tuple):
            return T('numpy.argmin', a, typ='int')
        if n in ('arange',) and all(isinstance(x, int) for x in args) and \
                not kw:
            return list(range(*args))
        return None

    def data_of(self, v):
        if isinstance(v, H):
            d = getattr(v, 'data', None)
            if d is not None:
                return d
            if v.kind == 'image':
                return v.pixels
            if v.kind == 'node' and v.t == 'dataset':
                return A('data', v.ident_key, nd=self.r.facts.get(
                    ('h5ndim', key(v.ident_key))))
        return v

    # ------------------------------------------------------------ builtins
    def c_builtins_len(self, a, kw, node):
        v = a[0]
        if isinstance(v, (list, tuple, str, bytes, range)):
            return len(v)
        if isinstance(v, D):
            return len(v.d)
        if isinstance(v, Set_):
            return len(v.d.d)
        if isinstance(v, Iter):
            if v.gen is not None:
                raise PyExc('TypeError', 'lib', node)
            return len(v.items)
        if isinstance(v, A) and v.nd is not None:
            return v.shape[0]
        if isinstance(v, H):
            return self.h_len(v, node)
        if isinstance(v, T):
            if v.info.get('len') is not None:
                return v.info['len']
            if ('len', v.key) in self.r.facts:
                return self.r.facts[('len', v.key)]
            return T('len', v, typ='int')
        if isinstance(v, (S, P)):
            return T('len', v, typ='int')
        raise Undecided('len')

    def c_builtins_str(self, a, kw, node):
        return self.str(a[0]) if a else ''

    def c_builtins_repr(self, a, kw, node):
        return self.repr(a[0])

    def c_builtins_format(self, a, kw, node):
        return self.format(a[0], a[1] if len(a) > 1 else '')

    def c_builtins_float(self, a, kw, node):
        v = a[0]
        if isinstance(v, (int, float)):
            return float(v)
        if isinstance(v, str):
            try:
                return float(v)
            except ValueError:
                raise PyExc('ValueError', 'lib', node)
        if isinstance(v, S):
            ps = v.parts
            if len(ps) == 1 and isinstance(ps[0], T) and ps[0].op == 'txt':
                return self.parse(ps[0], node)
            if any(isinstance(p, T) and p.op == 'txt' for p in ps):
                raise PyExc('ValueError', 'lib', node)
        if isinstance(v, (S, P)) or isinstance(v, T) and v.typ == 'str':
            self.r.may_fail('parse number', node, ['ValueError'])
            return T('float', v, typ='float')
        if isinstance(v, T):
            if v.typ in ('float', 'npfloat64', 'npfloat32', 'npfloat16') or \
                    v.typ and v.typ.startswith(('npint', 'npuint')) or \
                    v.typ == 'int':
                return T(v.op, *v.args, typ='float', **v.info)
            if "'contents'" in repr(v.key):     # text of an unknown file
                self.r.may_fail('parse number', node, ['ValueError'])
            return T('float', v, typ='float')
        raise PyExc('TypeError', 'lib', node)

    def parse(self, t, node):
        """float() of the printed form of a number"""
        x, spec = t.args
        if spec == 'r':
            if isinstance(x, T) and (x.typ or '').startswith('np'):
                raise PyExc('ValueError', 'lib', node)
            return x
        if spec == '':
            return x
        m = re.match(r'^[<>^+\- ]?\d*\.(\d+)([geE])$', spec)
        if m and int(m.group(1)) >= (17 if m.group(2) == 'g' else 16):
            return x
        return T('rounded', x, spec, typ='float')

    def c_builtins_int(self, a, kw, node):
        v = a[0] if a else 0
        if isinstance(v, (int, float)):
            return int(v)
        if isinstance(v, str):
            try:
                return int(v)
            except ValueError:
                raise PyExc('ValueError', 'lib', node)
        if isinstance(v, T) and (v.typ == 'int' or (v.typ or '').startswith(
                ('npint', 'npuint'))):
            return T(v.op, *v.args, typ='int', **v.info)
        if isinstance(v, T) and v.typ == 'bool':
            return int(self.truth(v))
        return T('int', v, typ='int')

    def c_builtins_bool(self, a, kw, node):
        return self.truth(a[0]) if a else False

    def c_builtins_round(self, a, kw, node):
        if isinstance(a[0], (int, float)) and all(isinstance(x, int)
                                                  for x in a[1:]):
            return round(*a)
        return T('round', *a, typ='float')

    def c_builtins_abs(self, a, kw, node):
        if isinstance(a[0], (int, float)):
            return abs(a[0])
        return T('abs', a[0])

    def c_builtins_list(self, a, kw, node):
        return list(self.r.iterate(a[0], node)) if a else []

    def c_builtins_tuple(self, a, kw, node):
        return tuple(self.r.iterate(a[0], node)) if a else ()

    def c_builtins_set(self, a, kw, node):
        return Set_(self.r.iterate(a[0], node) if a else [])

    c_builtins_frozenset = c_builtins_set

    def c_builtins_iter(self, a, kw, node):
        return Iter(gen=self.r.iterate(a[0], node))

    def c_builtins_next(self, a, kw, node):
        it = a[0]
        if not isinstance(it, Iter):
            raise Undecided('next')
        try:
            return it.pull()
        except StopIteration:
            pass
        if len(a) > 1:
            return a[1]
        raise PyExc('StopIteration', 'lib', node)

    def c_builtins_dict(self, a, kw, node):
        d = D()
        if a:
            if isinstance(a[0], RC):
                return self.snapshot()
            if isinstance(a[0], D):
                for k, v in a[0].items():
                    d.set(k, v)
            else:
                for p in self.r.iterate(a[0], node):
                    k, v = list(self.r.iterate(p, node))
                    d.set(k, v)
        for k, v in kw.items():
            d.set(k, v)
        return d

    c_collections_OrderedDict = c_builtins_dict

    def c_collections_defaultdict(self, a, kw, node):
        raise Undecided('defaultdict')

    def c_builtins_range(self, a, kw, node):
        if all(isinstance(x, int) for x in a):
            n = range(*a)
            if len(n) > 20000:
                raise Undecided('range')
            return n
        return T('range', *a, elt='int')

    def c_builtins_enumerate(self, a, kw, node):
        s = kw.get('start', a[1] if len(a) > 1 else 0)
        def gen():
            for i, v in enumerate(self.r.iterate(a[0], node)):
                yield (i + s, v)
        return Iter(gen=gen())

    def c_builtins_zip(self, a, kw, node):
        return Iter(gen=zip(*[self.r.iterate(x, node) for x in a]))

    def c_builtins_map(self, a, kw, node):
        return Iter(gen=(self.r.call(a[0], list(t), {}, node) for t in zip(
            *[self.r.iterate(x, node) for x in a[1:]])))

    def c_builtins_filter(self, a, kw, node):
        return Iter(gen=(x for x in self.r.iterate(a[1], node) if
                         self.truth(x if a[0] is None else
                                    self.r.call(a[0], [x], {}, node))))

    def c_builtins_reversed(self, a, kw, node):
        return Iter(reversed(list(self.r.iterate(a[0], node))))

    def c_builtins_sorted(self, a, kw, node):
        v = list(self.r.iterate(a[0], node))
        if all(isinstance(x, (int, float)) for x in v) or \
                all(isinstance(x, str) for x in v):
            if 'key' not in kw:
                return sorted(v, reverse=bool(kw.get('reverse', False)))
            ks = [self.r.call(kw['key'], [x], {}, node) for x in v]
            if all(is_const(k) for k in ks):
                z = sorted(range(len(v)), key=lambda i: ks[i],
                           reverse=bool(kw.get('reverse', False)))
                return [v[i] for i in z]
        t = T('sorted', tuple(v), len=len(v))
        return [T('item', t, i, typ=getattr(v[i], 'typ', None))
                for i in range(len(v))]

    def c_builtins_sum(self, a, kw, node):
        return T('sum', *a)

    def c_builtins_min(self, a, kw, node):
        return self.minmax('min', a, kw, node)

    def c_builtins_max(self, a, kw, node):
        return self.minmax('max', a, kw, node)

    def minmax(self, n, a, kw, node):
        v = list(self.r.iterate(a[0], node)) if len(a) == 1 and not \
            isinstance(a[0], T) else list(a)
        if v and all(isinstance(x, (int, float)) for x in v):
            return (min if n == 'min' else max)(v)
        return T(n, *v)

    def c_builtins_any(self, a, kw, node):
        for x in self.r.iterate(a[0], node):
            if self.truth(x):
                return True
        return False

    def c_builtins_all(self, a, kw, node):
        for x in self.r.iterate(a[0], node):
            if not self.truth(x):
                return False
        return True

    def c_builtins_print(self, a, kw, node):
        f = kw.get('file')
        if isinstance(f, H) and f.kind == 'file':
            end = kw.get('end', '\n')
            sep = kw.get('sep', ' ')
            parts = []
            for k, x in enumerate(a):
                if k:
                    parts.append(sep if sep is not None else ' ')
                parts.append(self.str(x))
            return self.f_write(f, text(parts + [
                end if end is not None else '\n']), node)
        self.r.event('print', node)
        return None

    def c_builtins_type(self, a, kw, node):
        v = a[0]
        for n, t in (('bool', bool), ('int', int), ('float', float),
                     ('str', str), ('list', list), ('tuple', tuple)):
            if type(v) is t:
                return X('builtins.' + n)
        return T('type', v)

    def c_builtins_hasattr(self, a, kw, node):
        v, n = a
        if isinstance(v, (list, tuple, str, int, float)):
            return hasattr(type(v), n)
        if isinstance(v, A):
            return n in ('shape', 'dtype', 'tolist', 'ndim', 'size', 'item',
                         'T', '__len__', '__iter__', 'astype')
        if isinstance(v, T) and (v.typ or '').startswith('np'):
            return n in ('item', 'tolist', 'dtype', 'shape')
        if isinstance(v, T) and v.typ in ('float', 'int'):
            return n in ('real', 'imag', '__float__')
        return T('hasattr', v, n, typ='bool')

    def c_builtins_getattr(self, a, kw, node):
        if not isinstance(a[1], str):
            raise Undecided('getattr')
        return self.r.getattr(a[0], a[1], node)

    def c_builtins_callable(self, a, kw, node):
        return isinstance(a[0], (Fn, X, M))

    def c_builtins_isinstance(self, a, kw, node):
        v, cs = a
        cs = list(cs) if isinstance(cs, tuple) else [cs]
        res = [self.isinst(v, c) for c in cs]
        if any(x is True for x in res):
            return True
        if all(x is False for x in res):
            return False
        for x in res:
            if not isinstance(x, bool) and self.truth(x):
                return True
        return False

    def isinst(self, v, c):
        if type(v).__name__ == 'LazyNode':
            v = v.get()
        if isinstance(c, tuple):
            return self.c_builtins_isinstance([v, c], {}, None)
        if isinstance(c, T) and c.op == 'type':
            raise Undecided('isinstance')
        if not isinstance(c, X):
            raise Undecided('isinstance')
        n = c.name
        b = n.split('.')[-1]
        if isinstance(v, H):
            if v.kind == 'h5':
                return n in ('h5py.File', 'h5py.Group', 'builtins.object')
            if v.kind == 'group':
                return n in ('h5py.Group', 'builtins.object')
            if v.kind == 'dataset':
                return n in ('h5py.Dataset', 'builtins.object')
            if v.kind == 'node':
                return self.node_is(v, n)
            return False
        tags = None
        if isinstance(v, bool):
            tags = {'bool', 'int'}
        elif isinstance(v, int):
            tags = {'int'}
        elif isinstance(v, float):
            tags = {'float'}
        elif isinstance(v, (str, S)) or isinstance(v, P) and v.is_str:
            tags = {'str'}
        elif isinstance(v, P):
            return n in ('pathlib.Path', 'pathlib.PurePath', 'os.PathLike')
        elif isinstance(v, (list, tuple)):
            tags = {type(v).__name__}
        elif isinstance(v, D):
            tags = {'dict', 'OrderedDict'}
        elif isinstance(v, Set_):
            tags = {'set', 'frozenset'}
        elif v is None:
            tags = {'NoneType'}
        elif isinstance(v, (Fn, M, RC)):
            return False
        elif isinstance(v, T):
            if v.typ is None:
                return T('isinstance', v, c, typ='bool')
            t = v.typ
            if t == 'ndarray':
                tags = {'ndarray'}
            elif t == 'path':
                return n.startswith('pathlib.') or n == 'os.PathLike'
            elif t.startswith('np'):
                d = t[2:]
                tags = {d, 'generic'}
                if d in NPINT:
                    tags |= {'integer', 'number', 'Integral', 'Number',
                             'Real'}
                    tags.add('signedinteger' if d[0] == 'i'
                             else 'unsignedinteger')
                elif d in NPFLOAT:
                    tags |= {'floating', 'number', 'inexact', 'Real',
                             'Number'}
                    if d == 'float64':
                        tags.add('float')
                elif d == 'bool':
                    tags |= {'bool_'}
            elif t == 'str':
                tags = {'str'}
            elif t in ('int', 'float', 'bool', 'list', 'tuple', 'dict'):
                tags = {t}
            else:
                return T('isinstance', v, c, typ='bool')
        else:
            raise Undecided('isinstance')
        if 'int' in tags or 'float' in tags and 'generic' not in tags:
            tags = tags | {'Number', 'Real'}
            if 'int' in tags:
                tags = tags | {'Integral'}
        if tags & {'list', 'tuple', 'str'}:
            tags = tags | {'Sequence', 'Iterable', 'Sized', 'Container',
                           'Collection'}
        return b in tags or b == 'object'

    # ------------------------------------------------- methods of values
    def method(self, o, n, a, kw, node):
        if isinstance(o, P):
            f = getattr(self, ('ps_' if o.is_str else 'p_') + n, None)
            if f is None and o.is_str:
                return self.text_method(o, n, a, kw, node)
            if f is None:
                raise Undecided('path.%s' % n)
            return f(o, a, kw, node)
        if isinstance(o, T) and o.typ == 'path':
            f = getattr(self, 'p_' + n, None)
            if f is not None:
                return f(o, a, kw, node)
            raise Undecided('path.%s' % n)
        if isinstance(o, H):
            f = getattr(self, 'h_%s_%s' % (o.kind, n), None)
            if f is None:
                f = getattr(self, 'hany_' + n, None)
            if f is None:
                if o.kind in ('fig', 'axes', 'image', 'cam'):
                    return self.obj_method(o, n, a, kw, node)
                raise Undecided('%s.%s' % (o.kind, n))
            return f(o, a, kw, node)
        if isinstance(o, (str, S)):
            return self.text_method(o, n, a, kw, node)
        if isinstance(o, list):
            return self.list_method(o, n, a, kw, node)
        if isinstance(o, tuple):
            if n == 'index':
                try:
                    return o.index(a[0])
                except ValueError:
                    raise PyExc('ValueError', 'lib', node)
            if n == 'count' and is_const(o):
                return o.count(a[0])
        if isinstance(o, D):
            return self.dict_method(o, n, a, kw, node)
        if isinstance(o, Set_):
            if n == 'add':
                o.d.set(a[0], a[0])
                return None
            if n in ('union', 'intersection', 'difference'):
                b = Set_(self.r.iterate(a[0], node))
                return self.binop({'union': 'BitOr', 'intersection':
                                   'BitAnd', 'difference': 'Sub'}[n], o, b,
                                  node)
            if n == 'update':
                for x in self.r.iterate(a[0], node):
                    o.d.set(x, x)
                return None
        if isinstance(o, RC):
            return self.rc_method(n, a, kw, node)
        if isinstance(o, A):
            return self.arr_method(o, n, a, kw, node)
        if isinstance(o, T):
            if o.op == 'snapshot' and n == 'copy':
                return o
            if o.typ == 'str':
                return self.text_method(o, n, a, kw, node)
            if n == 'tolist' and (o.typ or '').startswith('np') or \
                    n == 'item':
                return T(o.op, *o.args, typ='float' if 'float' in
                         (o.typ or '') else 'int')
            if n == 'as_posix':
                return T('as_posix', o, typ='str')
            return T('meth', o, n, *a)
        if isinstance(o, float) and n == 'is_integer':
            return o.is_integer()
        raise Undecided('method %s of %r' % (n, o))

    def arr_method(self, o, n, a, kw, node):
        if n == 'astype':
            return self.np_shape('numpy.asarray', [o, a[0] if a else
                                                   kw.get('dtype')], {})
        if n in ('copy', 'tolist'):
            if n == 'tolist':
                if o.op == 'vec':
                    return list(o.args[0])
                return T('tolist', o, typ='list')
            return self.np_shape('numpy.copy', [o], {})
        if n in ('sort', 'fill', 'put', 'itemset', 'resize', 'partition'):
            self.r.event('store', node, obj=o, index=n, value=None)
            return None
        r = self.np_shape('numpy.' + n, [o] + a, kw)
        if r is not None:
            return r
        return A('meth', o, n, *a)

    def list_method(self, o, n, a, kw, node):
        if n == 'append':
            o.append(a[0])
            return None
        if n == 'extend':
            o.extend(list(self.r.iterate(a[0], node)))
            return None
        if n == 'insert' and isinstance(a[0], int):
            o.insert(a[0], a[1])
            return None
        if n == 'pop':
            try:
                return o.pop(*a)
            except IndexError:
                raise PyExc('IndexError', 'lib', node)
        if n == 'copy':
            return list(o)
        if n == 'clear':
            o.clear()
            return None
        if n == 'reverse':
            o.reverse()
            return None
        if n == 'sort':
            o[:] = self.c_builtins_sorted([o], kw, node)
            return None
        if n in ('index', 'count', 'remove'):
            for k, x in enumerate(o):
                if self.truth(self.eq(x, a[0])):
                    if n == 'index':
                        return k
                    if n == 'remove':
                        del o[k]
                        return None
            if n == 'count':
                return sum(self.truth(self.eq(x, a[0])) for x in o)
            raise PyExc('ValueError', 'lib', node)
        raise Undecided('list.%s' % n)

    def dict_method(self, o, n, a, kw, node):
        if n == 'items':
            return Iter(o.items())
        if n == 'keys':
            return Iter(o.keys())
        if n == 'values':
            return Iter([v for _, v in o.items()])
        if n == 'get':
            return o.get(a[0], a[1] if len(a) > 1 else None) \
                if o.has(a[0]) else (a[1] if len(a) > 1 else None)
        if n == 'copy':
            return D(o.items())
        if n == 'update':
            if a:
                src = a[0]
                its = src.items() if isinstance(src, D) else \
                    [tuple(self.r.iterate(p, node)) for p in
                     self.r.iterate(src, node)]
                for k, v in its:
                    o.set(k, v)
            for k, v in kw.items():
                o.set(k, v)
            return None
        if n == 'setdefault':
            if not o.has(a[0]):
                o.set(a[0], a[1] if len(a) > 1 else None)
            return o.get(a[0])
        if n == 'pop':
            if o.has(a[0]):
                return o.d.pop(repr(key(a[0])))[1]
            if len(a) > 1:
                return a[1]
            raise PyExc('KeyError', 'lib', node)
        raise Undecided('dict.%s' % n)

    def text_method(self, o, n, a, kw, node):
        if isinstance(o, str) and all(isinstance(x, (str, int)) for x in a) \
                and n not in ('format', 'join', 'encode') and not kw and \
                hasattr(o, n):
            try:
                return getattr(o, n)(*a)
            except (ValueError, IndexError, TypeError) as e:
                raise PyExc(type(e).__name__, 'lib', node)
        if n == 'join':
            out = []
            for k, x in enumerate(self.r.iterate(a[0], node)):
                if k:
                    out.append(o)
                if not is_text(x):
                    raise PyExc('TypeError', 'lib', node)
                out.append(x)
            return text(out)
        if n == 'format':
            return self.fmt(o, a, kw, node)
        ps = list(o.parts) if isinstance(o, S) else [o]
        if n in ('lower', 'upper', 'strip', 'rstrip', 'lstrip', 'casefold'):
            if n in ('lower', 'upper', 'casefold'):
                if isinstance(o, S) and all(
                        isinstance(p, str) or p.op == 'txt' for p in ps):
                    return text([getattr(p, n)() if isinstance(p, str)
                                 else p for p in ps])
                return T(n, o, typ='str')
            if isinstance(o, T):
                return T(n, o, typ='str')
            if a and a[0] is not None and not (isinstance(a[0], str) and
                                               not a[0].strip()):
                return T(n, o, *a, typ='str')
            if n in ('strip', 'lstrip') and isinstance(ps[0], str):
                ps[0] = ps[0].lstrip(*a)
            if n in ('strip', 'rstrip') and isinstance(ps[-1], str):
                ps[-1] = ps[-1].rstrip(*a)
            return text(ps)
        if n in ('splitlines',) or n == 'split' and a and a[0] == '\n':
            if isinstance(o, T):
                return T('lines', o, elt='str', typ='list')
            out, cur = [], []
            for p in ps:
                if isinstance(p, str):
                    bits = p.split('\n')
                    for k, b in enumerate(bits):
                        if k:
                            out.append(text(cur))
                            cur = []
                        cur.append(b)
                else:
                    cur.append(p)
            last = text(cur)
            if last != '' or n == 'split':
                out.append(last)
            if n == 'splitlines' and a and a[0]:
                raise Undecided('keepends')
            return out
        if n in ('split', 'rsplit', 'partition', 'rpartition'):
            if isinstance(o, T):
                return T(n, o, *a, elt='str', typ='list')
            return self.split_text(o, n, a, kw)
        if n in ('endswith', 'startswith'):
            x = a[0]
            for y in (x if isinstance(x, tuple) else [x]):
                q = ps[-1] if n == 'endswith' else ps[0]
                if isinstance(o, P):
                    sp = list(o.name.parts)
                    q = sp[-1] if n == 'endswith' else T('?')
                if isinstance(q, str) and isinstance(y, str):
                    if getattr(q, n)(y):
                        return True
                    if len(q) >= len(y):
                        continue
                return T(n, o, x, typ='bool')
            return False
        if n == 'replace' and isinstance(a[0], str) and \
                isinstance(a[1], str):
            if isinstance(o, T):
                if set(a[0]) <= CONTROL:
                    return o
                return T('replace', o, *a, typ='str')
            if isinstance(o, P):
                if set(a[0]) <= CONTROL:
                    return o
                sp = [p for p in o.name.parts if isinstance(p, str)]
                return T('replace', o, *a, typ='str')
            return text([p.replace(*a) if isinstance(p, str) else p
                         for p in ps])
        if n == 'encode':
            return o
        if n in ('isdigit', 'isnumeric', 'isspace', 'isalpha'):
            return T(n, o, typ='bool')
        if n in ('find', 'rfind', 'index', 'count'):
            return T(n, o, *a, typ='int')
        return T('meth', o, n, *a)

    def split_text(self, o, n, a, kw):
        ps = list(o.parts) if isinstance(o, S) else [o]
        sep = a[0] if a else kw.get('sep')
        mx = kw.get('maxsplit', a[1] if len(a) > 1 else None)
        if n in ('partition', 'rpartition'):
            mx = 1
            n2 = 'split' if n == 'partition' else 'rsplit'
        else:
            n2 = n
        toks, cur = [], []
        for p in ps:
            if isinstance(p, str):
                if sep is None:
                    bits = re.split(r'\s+', p)
                else:
                    bits = p.split(sep)
                for k, b in enumerate(bits):
                    if k:
                        toks.append(cur)
                        cur = []
                    if b:
                        cur.append(b)
            else:
                cur.append(p)
        toks.append(cur)
        toks = [text(t) for t in toks]
        if sep is None:
            toks = [t for t in toks if t != '']
        if mx is not None and mx >= 0 and len(toks) > mx + 1:
            s = sep if sep is not None else ' '
            if n2 == 'split':
                rest = toks[mx:]
                toks = toks[:mx] + [text(sum([[s, t] for t in rest],
                                             [])[1:])]
            else:
                rest = toks[:len(toks) - mx]
                toks = [text(sum([[s, t] for t in rest], [])[1:])] + \
                    toks[len(toks) - mx:]
        if n in ('partition', 'rpartition'):
            if len(toks) == 1:
                return (toks[0], '', '') if n == 'partition' else \
                    ('', '', toks[0])
            return (toks[0], sep, toks[1])
        return toks

    def fmt(self, o, a, kw, node):
        if not isinstance(o, str):
            raise Undecided('format of unknown text')
        out = []
        auto = 0
        for lit, name, spec, conv in string.Formatter().parse(o):
            out.append(lit)
            if name is None:
                continue
            if name == '':
                v = a[auto]
                auto += 1
            elif name.isdigit():
                v = a[int(name)]
            elif name in kw:
                v = kw[name]
            else:
                raise Undecided('format field')
            if conv == 'r':
                v = self.repr(v)
            out.append(self.format(v, spec or ''))
        return text(out)

    # --------------------------------------------------------------- misc
    def numpy_misc(self, full, n, a, kw, node):
        return NotImplemented

    def warn(self, full, n, a, kw, node):
        self.r.event('warn', node, name=n)
        return T(full, *a)

    def c_platform_system(self, a, kw, node):
        return 'Linux'

    def c_warnings_warn(self, a, kw, node):
        self.r.event('warn', node)
        return None

    def c_itertools_count(self, a, kw, node):
        s = a[0] if a else kw.get('start', 0)
        k = a[1] if len(a) > 1 else kw.get('step', 1)
        lim = self.r.opts.get('unroll', 6)

        def gen():
            i = s
            for n in range(lim + 1):
                self.r.event('round', node, n=n + 1)
                yield i
                i += k
            raise Cut('endless iterator')
        return Iter(gen=gen())

    def c_itertools_chain(self, a, kw, node):
        def gen():
            for x in a:
                yield from self.r.iterate(x, node)
        return Iter(gen=gen())

    def c_functools_partial(self, a, kw, node):
        f, pre = a[0], list(a[1:])
        r = self.r
        return lambda *x, **k: r.call(f, pre + list(x), {**kw, **k}, node)

    def c_copy_copy(self, a, kw, node):
        return a[0] if not isinstance(a[0], (list, D)) else \
            (list(a[0]) if isinstance(a[0], list) else D(a[0].items()))

    c_copy_deepcopy = c_copy_copy


from .iolib import IO, PREFIX           # noqa: E402
Lib = type('Lib', (IO, Lib), {})
