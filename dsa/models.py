"""What the analysis knows about code outside the package: numpy and the
builtins by their algebra, other libraries as deterministic functions of
their arguments, input/output as events."""
import ast
from .values import *
from .signatures import SIG
from . import values as V
from .terms import *
from . import terms as T

INF = of_atom(sym('const:inf'))

FLOAT_TYPES = {'float', 'float32', 'float64', 'double', 'single', 'float_',
               'float16', 'longdouble', 'complex128', 'complex64', 'floating'}
WIDE_INT = {'int', 'int64', 'intp', 'int_', 'uint64', 'longlong', 'uintp',
            'integer', 'uint'}
NARROW_INT = {'int8', 'int16', 'int32', 'uint8', 'uint16', 'uint32', 'short',
              'intc', 'byte', 'ubyte', 'ushort', 'uintc'}
BOOL_TYPES = {'bool', 'bool_'}
HALF = {'float16', 'half', 'f2', 'e'}


def mk(kind, args, **kw):
    """atom with decision diagrams hoisted out of its scalar arguments"""
    idx = [i for i, x in enumerate(args) if isinstance(x, Ite)]
    if idx:
        def f(*vals):
            xs = list(args)
            for i, v in zip(idx, vals):
                xs[i] = v
            return mk(kind, tuple(xs), **kw)
        return apply(f, *[args[i] for i in idx])
    a = atom(kind, tuple(args), **kw)
    return pred_(a) if a.boolean else of_atom(a)


def same_const(d, v):
    if v is None or isinstance(v, (bool, str)):
        return isinstance(d, Const) and d == Const(v)
    c = is_cst(d) if isinstance(d, Rat) else NOTC
    return c is not NOTC and c == v


def opaque_arr(kind, key, dims, integer=False, lb=None):
    return Arr(dims, lambda idx: mk(kind, (key,) + tuple(idx),
                                    integer=integer, lb=lb))


def cint(v):
    c = is_cst(v) if isinstance(v, Scalar) else NOTC
    if c is NOTC or isinstance(c, (str, type(None))):
        return None
    return int(c)


def cstr(v):
    c = is_cst(v) if isinstance(v, Scalar) else NOTC
    return c if isinstance(c, str) else None


def prod(dims):
    r = num_(1)
    for d in dims:
        r = mul(r, d)
    return r


def merge_guards(rs):
    """join elements that occur under disjoint conditions"""
    out = []
    for r in rs:
        c, body = (r.parts[0], r.parts[1:]) if r.tag == 'grd' \
            else (TRUE, (r,))
        for k, (d, b) in enumerate(out):
            if len(b) == len(body) and \
                    all(x == y for x, y in zip(b, body)) and \
                    and_(c, d) == FALSE:
                out[k] = (or_(c, d), b)
                break
        else:
            out.append((c, body))
    return [b[0] if c == TRUE and len(b) == 1 else
            Struct('grd', (c,) + tuple(b)) for c, b in out]


def is_bool_like(v):
    if isinstance(v, Ite):
        return is_bool_like(v.hi) and is_bool_like(v.lo)
    return v == TRUE or v == FALSE


def ragged(segs, bound=frozenset()):
    """rows whose extents differ from row to row"""
    for s in segs:
        if isinstance(s, One):
            if isinstance(s.v, Arr) and any(b in d.syms for b in bound
                                            for d in s.v.dims):
                return True
        elif isinstance(s, Grd):
            if ragged(s.segs, bound):
                return True
        elif ragged(s.segs, bound | {sym_name(s.i)}):
            return True
    return False


class Models:
    def __init__(self, interp):
        self.I = interp
        self.constants = {
            'numpy.pi': PI, 'math.pi': PI, 'scipy.pi': PI,
            'numpy.newaxis': NONE, 'numpy.inf': INF, 'math.inf': INF,
            'numpy.nan': of_atom(sym('const:nan')),
            'math.nan': of_atom(sym('const:nan')),
            'numpy.e': of_atom(sym('const:e')),
        }
        from . import results
        self.opaque_results = results.PROJECT
        self.ext_results = results.EXTERNAL
        self.truthy = set()
        self.choice_ok = {'builtins.isinstance', 'builtins.print',
                          'builtins.str', 'builtins.type',
                          'builtins.tuple', 'builtins.list'}
        self.ext = {}
        for nm in dir(self):
            if nm.startswith('np_'):
                self.ext['numpy.' + nm[3:].replace('__', '.')] = \
                    getattr(self, nm)
            elif nm.startswith('b_'):
                self.ext['builtins.' + nm[2:]] = getattr(self, nm)
        for k, f in {'sin': sin_, 'cos': cos_, 'tan': tan_,
                     'arctan': arctan_, 'exp': exp_, 'sqrt': sqrt_,
                     'sign': sign_, 'floor': floor_, 'ceil': ceil_,
                     'trunc': trunc_, 'fix': trunc_,
                     'negative': neg,
                     'square': lambda x: mul(x, x),
                     'reciprocal': lambda x: div(num_(1), x),
                     'deg2rad': lambda x: div(mul(x, PI), num_(180)),
                     'radians': lambda x: div(mul(x, PI), num_(180)),
                     'rad2deg': lambda x: div(mul(x, num_(180)), PI),
                     'degrees': lambda x: div(mul(x, num_(180)), PI),
                     'abs': abs_, 'positive': lambda x: x,
                     'real': lambda x: mk('real', (x,)),
                     'imag': lambda x: mk('imag', (x,)),
                     'conj': lambda x: mk('conj', (x,)),
                     'angle': lambda x: mk('angle', (x,)),
                     'log': lambda x: mk('log', (x,)),
                     'log10': lambda x: mk('log10', (x,)),
                     'log2': lambda x: mk('log2', (x,)),
                     'arcsin': lambda x: mk('arcsin', (x,)),
                     'arccos': lambda x: mk('arccos', (x,)),
                     'tanh': lambda x: mk('tanh', (x,)),
                     'isnan': lambda x: mk('isnan', (x,), boolean=True),
                     'isfinite': lambda x: mk('isfinite', (x,),
                                              boolean=True),
                     'isinf': lambda x: mk('isinf', (x,), boolean=True),
                     'logical_not': lambda x: not_(x)}.items():
            self.ext['numpy.' + k] = self._unary(f)
            if k in ('sin', 'cos', 'tan', 'exp', 'sqrt', 'floor', 'ceil',
                     'trunc', 'radians', 'degrees', 'log', 'log10', 'log2',
                     'isnan', 'isfinite'):
                self.ext['math.' + k] = self._unary(f)
        self.ext['math.atan'] = self._unary(arctan_)
        self.ext['warnings.warn'] = self.warn
        self.ext['math.fabs'] = self._unary(abs_)
        from .interp import bit_and, bit_or, bit_xor
        for k, f in {'add': add, 'subtract': sub, 'multiply': mul,
                     'divide': div, 'true_divide': div, 'power': power,
                     'float_power': power, 'mod': mod_, 'remainder': mod_,
                     'floor_divide': floordiv, 'maximum': mk_max,
                     'minimum': mk_min, 'fmax': mk_max, 'fmin': mk_min,
                     'hypot': lambda x, y: sqrt_(add(mul(x, x), mul(y, y))),
                     'arctan2': lambda y, x: mk('arctan2', (y, x)),
                     'logical_and': and_, 'logical_or': or_,
                     'bitwise_and': bit_and, 'bitwise_or': bit_or,
                     'logical_xor': bit_xor,
                     'equal': cmp_eq,
                     'not_equal': lambda x, y: not_(cmp_eq(x, y)),
                     'less': cmp_lt, 'less_equal': cmp_le,
                     'greater': lambda x, y: cmp_lt(y, x),
                     'greater_equal': lambda x, y: cmp_le(y, x),
                     'copysign': lambda x, y: mk('copysign', (x, y)),
                     }.items():
            self.ext['numpy.' + k] = self._binary(f)
            op = {'add': 'add', 'subtract': 'sub', 'multiply': 'mul',
                  'divide': 'truediv', 'power': 'pow', 'less': 'lt',
                  'greater': 'gt'}.get(k)
            if op:
                self.ext['operator.' + op] = self._binary(f)
            if k in ('power', 'hypot', 'arctan2', 'copysign'):
                m = {'power': 'pow', 'arctan2': 'atan2'}.get(k, k)
                self.ext['math.' + m] = self._binary(f)
        al = {'absolute': 'abs', 'fabs': 'abs', 'asfarray': 'asarray',
              'amax': 'max', 'amin': 'min', 'multiply': None,
              'ascontiguousarray': 'asarray', 'asanyarray': 'asarray',
              'array': 'asarray', 'round_': 'round', 'around': 'round',
              'rint': 'round', 'row_stack': 'vstack',
              'logical_not': None, 'swapaxes': None, 'nanmax': None}
        for k, v in al.items():
            if v:
                self.ext['numpy.' + k] = self.ext['numpy.' + v]
        for t in FLOAT_TYPES | WIDE_INT | NARROW_INT | BOOL_TYPES:
            self.ext['numpy.' + t] = self._cast(t)
        # numpy.ndarray.method(x, ...)
        self.same_dims = {
            'scipy.ndimage.gaussian_filter', 'scipy.ndimage.median_filter',
            'scipy.ndimage.gaussian_filter1d', 'scipy.ndimage.binary_dilation',
            'scipy.ndimage.binary_fill_holes', 'scipy.ndimage.binary_erosion',
            'scipy.ndimage.binary_opening', 'scipy.ndimage.binary_closing',
            'scipy.ndimage.uniform_filter', 'scipy.fft.fft2',
            'scipy.fft.ifft2', 'numpy.fft.fft2', 'numpy.fft.ifft2',
            'numpy.fft.fftshift', 'numpy.fft.ifftshift',
            'skimage.morphology.opening', 'skimage.segmentation.clear_border',
            'scipy.ndimage.grey_opening',
            'numpy.cumsum', 'numpy.nan_to_num'}
        self.pure_prefix = ('scipy.', 'skimage.', 'numpy.', 'math.',
                            'itertools.', 'operator.', 'cv2.')
        from . import iomodels
        self.io = iomodels.IOModels(self)

    # ------------------------------------------------------------ helpers
    def _unary(self, f):
        def g(st, a, kw, node):
            kw.pop('dtype', None)
            if kw:
                raise Unknown('keyword')
            return self.I.elementwise(st, f, a[0])
        return g

    def _binary(self, f):
        def g(st, a, kw, node):
            kw.pop('dtype', None)
            if kw:
                raise Unknown('keyword')
            return self.I.elementwise(st, f, a[0], a[1])
        return g

    def _cast(self, t):
        def g(st, a, kw, node):
            if not a:
                return num_(0)
            return self.cast(st, a[0], t, node)
        return g

    STORED = HALF | WIDE_INT | NARROW_INT

    def cast(self, st, v, t, node):
        v = self.deep(st, v)
        if isinstance(v, (Tup, Lst)):
            v = asarr(v)
        if t in HALF:
            return self.el(st, lambda x: x if is_cst(x) is not NOTC
                           else mk('half', (x,)), v)
        if t in FLOAT_TYPES:
            return v
        if t in WIDE_INT:
            return self.el(st, trunc_, v)
        if t in NARROW_INT:
            self.I.event(st, 'narrow', node, type=t, value=v)
            if t in ('uint8', 'uint16'):
                r = self.el(st, lambda x: x if is_cst(x) is not NOTC
                            else mk('cast', (t, trunc_(x))), v)
                return r
            return self.el(st, trunc_, v)
        if t in BOOL_TYPES:
            r = self.el(st, as_bool, v)
            if isinstance(r, Arr):
                r.boolean = True
            return r
        raise Unknown('cast ' + t)

    def el(self, st, f, *vals):
        return self.I.elementwise(st, f, *vals)

    def deep(self, st, v):
        return self.I.deep(st, v)

    def params(self, st, a, kw, names, **defaults):
        """bind positional and keyword arguments"""
        out = dict(defaults)
        flat = []
        for x in a:
            if isinstance(x, tuple) and x[0] == '*':
                d = self.I.deref(st, x[1])
                if isinstance(d, Tup):
                    flat.extend(d.items)
                else:
                    raise Unknown('star argument')
            else:
                flat.append(x)
        if len(flat) > len(names):
            raise Unknown('arguments')
        for k, v in zip(names, flat):
            out[k] = v
        for k, v in kw.items():
            if k not in names:
                raise Unknown('keyword ' + k)
            out[k] = v
        return out

    def arr(self, st, v):
        v = self.deep(st, v)
        v = self.I.simp(st, v)
        if isinstance(v, (Tup, Lst)):
            return asarr(v)
        if isinstance(v, Choice):
            return asarr(v)
        if isinstance(v, Scalar):
            a = the_atom(v) if isinstance(v, Rat) else None
            if a is not None and (a.kind.startswith('x:') or
                                  a.kind in ('item', 'attr', 'sym', 'res')):
                return v
            return v
        if not isinstance(v, Arr):
            raise Unknown('array expected, %s' % type(v).__name__)
        return v

    def typename(self, st, v):
        if v is None:
            return None
        v = self.I.deref(st, v)
        if isinstance(v, Ext):
            return v.name.split('.')[-1]
        c = cstr(v) if isinstance(v, Scalar) else None
        if c is not None:
            return c
        if isinstance(v, Scalar) and v == NONE:
            return None
        return '?'

    def with_dtype(self, st, v, dt, node):
        t = self.typename(st, dt)
        if t is None or t == '?':
            return v
        if t in ('object', 'object_', 'str', 'str_'):
            return v
        return self.cast(st, v, t, node)

    def shape(self, st, v):
        v = self.deep(st, v)
        if isinstance(v, Tup):
            return [to_num(x) for x in v.items]
        if isinstance(v, Arr) and v.ndim == 1 and cint(v.dims[0]) is not None:
            return [v.get([num_(k)]) for k in range(cint(v.dims[0]))]
        if isinstance(v, Scalar):
            return [to_num(v)]
        raise Unknown('shape')

    # ------------------------------------------------------------ dispatch
    def call_ext(self, st, name, args, kwargs, node):
        for p in ('numpy.ndarray.',):
            if name.startswith(p):
                return self.call_method(st, Meth(args[0], name[len(p):]),
                                        args[1:], kwargs, node)
        for k, x in list(enumerate(args)) + list(kwargs.items()):
            d = self.I.deref(st, x) if not isinstance(x, tuple) else None
            d = self.I.simp(st, d) if d is not None else None
            if isinstance(d, Choice) and name not in self.choice_ok:
                def sub_call(s, v, k=k):
                    if isinstance(k, int):
                        a2 = list(args)
                        a2[k] = v
                        return self.call_ext(s, name, a2, kwargs, node)
                    k2 = dict(kwargs)
                    k2[k] = v
                    return self.call_ext(s, name, args, k2, node)
                return self.I.split(st, d.cond, lambda s: sub_call(s, d.a),
                                    lambda s: sub_call(s, d.b))
        f = self.ext.get(name)
        if f is not None:
            if any(isinstance(x, tuple) for x in args):
                fl = []
                for x in args:
                    if isinstance(x, tuple):
                        d = self.I.deref(st, x[1])
                        if isinstance(d, Arr) and cint(d.dims[0]) is not None:
                            fl.extend(d.row(num_(k))
                                      for k in range(cint(d.dims[0])))
                        elif isinstance(d, Tup):
                            fl.extend(d.items)
                        elif name == 'builtins.zip':
                            return self.zip_star(st, d)
                        else:
                            raise Unknown('star argument')
                    else:
                        fl.append(x)
                args = fl
            return f(st, list(args), dict(kwargs), node)
        r = self.io.call_ext(st, name, args, kwargs, node)
        if r is not None:
            return r
        if name == 'builtins.super':
            raise Unknown('super')
        if name.startswith('builtins.') and name.split('.')[-1].endswith(
                ('Error', 'Exception', 'Warning')):
            return of_atom(atom('excobj', (name,)))
        if name.startswith(self.pure_prefix):
            key = self.call_key(st, name, args, kwargs)
            if name in self.same_dims:
                a0 = self.arr(st, args[0]) if args else None
                if isinstance(a0, Arr):
                    r = opaque_arr('el', key, a0.dims)
                    if 'binary' in name:
                        r = Arr(a0.dims, lambda idx: mk(
                            'elb', (key,) + tuple(idx), boolean=True))
                        r.boolean = True
                    return r
            self.I.event(st, 'pure:' + name, node, args=[
                self.deep(st, x) for x in args
                if not isinstance(x, tuple)], kwargs={
                    k: self.deep(st, x) for k, x in kwargs.items()})
            t = of_atom(atom('x:' + name, (key,)))
            h = self.ext_results.get(name)
            if h is not None:
                r = h(self, t, [self.deep(st, x) for x in args
                                if not isinstance(x, tuple)],
                      {k: self.deep(st, x) for k, x in kwargs.items()})
                if r is not None:
                    return r
            return t
        raise Unknown('external ' + name)

    def call_key(self, st, name, args, kwargs):
        parts = []
        sig = SIG.get(name) or SIG.get(name.replace('.measurements.', '.'))
        if sig is not None and len(args) <= len(sig) and \
                not any(isinstance(x, tuple) for x in args):
            # one form: the first argument by position, others by name,
            # defaults left out
            kwargs = dict(kwargs)
            given = [p[0] for p in sig[:len(args)]]
            if not set(given) & set(kwargs):
                kwargs.update(zip(given, args))
                args = []
                for p in sig:
                    if len(p) == 2 and p[0] in kwargs:
                        d = self.I.deref(st, kwargs[p[0]])
                        if same_const(d, p[1]):
                            del kwargs[p[0]]
                if sig[0][0] in kwargs:
                    args = [kwargs.pop(sig[0][0])]
        for x in args:
            if isinstance(x, tuple):
                parts.append(Struct('star', (reify(self.deep(st, x[1])),)))
            else:
                parts.append(reify(self.deep(st, x)))
        for k in sorted(kwargs):
            parts.append((k, reify(self.deep(st, kwargs[k]))))
        return Struct('args:' + name, tuple(parts))

    # ------------------------------------------------------------ builtins
    def b_len(self, st, a, kw, node):
        v = self.I.simp(st, self.I.deref(st, a[0]))
        return self.length(st, v)

    def length_of(self, v):
        if isinstance(v, Tup):
            return num_(len(v.items))
        if isinstance(v, Arr):
            return v.dims[0]
        if isinstance(v, Lst):
            return count_segs(norm_segs(v.segs))
        return mk('len', (reify(v),), integer=True, lb=0)

    def length(self, st, v):
        v = self.I.deref(st, v)
        if isinstance(v, Choice):
            return ite(v.cond, self.length(st, v.a), self.length(st, v.b))
        if isinstance(v, Tup):
            return num_(len(v.items))
        if isinstance(v, Lst):
            if v.phi is not None:
                return unk('len of growing list')
            return count_segs(norm_segs(v.segs))
        if isinstance(v, Arr):
            return v.dims[0]
        if isinstance(v, DictV):
            return add(num_(len(v.items)), count_segs(v.rest))
        if isinstance(v, Const) and isinstance(v.v, str):
            return num_(len(v.v))
        if isinstance(v, Scalar):
            return mk('len', (v,), integer=True, lb=0)
        raise Unknown('len')

    def b_range(self, st, a, kw, node):
        vals = [to_num(self.deep(st, x)) for x in a]
        if len(vals) == 1:
            lo, hi, step = num_(0), vals[0], num_(1)
        elif len(vals) == 2:
            lo, hi, step = vals[0], vals[1], num_(1)
        else:
            lo, hi, step = vals
        return self.progression(lo, hi, step)

    def progression(self, lo, hi, step):
        c = is_cst(step)
        if c is not NOTC and c < 0:
            n = sub(lo, hi)
            k = neg(step)
        else:
            n = sub(hi, lo)
            k = step
        if is_cst(k) != 1 or not is_int(n):
            n = ceil_(div(n, k))
        cn = is_cst(n)
        if cn is not NOTC and cn < 0:
            n = num_(0)
        a = Arr([n], lambda idx: add(lo, mul(step, idx[0])))
        a.integer = True
        return a

    def b_enumerate(self, st, a, kw, node):
        p = self.params(st, a, kw, ['iterable', 'start'], start=num_(0))
        segs = self.I.iter_segs(st, p['iterable'])
        segs = norm_segs(segs)
        off = p['start']
        out = []
        for s in segs:
            if isinstance(s, One):
                out.append(One(Tup([off, s.v])))
                off = add(off, num_(1))
            elif isinstance(s, Map) and len(s.segs) == 1 and \
                    isinstance(s.segs[0], One):
                out.append(Map(s.i, s.n, [One(Tup([add(off, s.i),
                                                   s.segs[0].v]))]))
                off = add(off, s.n)
            else:
                out.extend(seg_map([s], lambda e: Tup([unk('enumerate'),
                                                       e])))
                off = unk('enumerate')
        return Lst(out)

    def b_zip(self, st, a, kw, node):
        kw.pop('strict', None)
        vals = [self.I.simp(st, self.I.deref(st, x)) for x in a]
        vals = [Lst(self.I.iter_segs(st, v)) if isinstance(v, Scalar)
                else v for v in vals]
        if all(isinstance(v, Tup) for v in vals):
            return Tup([Tup(list(x)) for x in zip(*[v.items for v in vals])],
                       True)
        from .interp import zip_segs, z_map
        try:
            segs = zip_segs([self.I.iter_segs(st, v) for v in vals])
            return Lst(z_map(segs, lambda *e: Tup(list(e))))
        except Unknown:
            pass
        ls = []
        for v in vals:
            v = self.deep(st, v)
            n = self.length(st, v)
            ls.append((v, n))
        n = mk_min(*[x for _, x in ls]) if len(ls) > 1 else ls[0][1]
        i = fresh('z')
        return Lst([Map(i, n, [One(Tup([self.I.item(st, v, i)
                                        for v, _ in ls]))])])

    def zip_star(self, st, d):
        # zip(*rows): transpose of a list of equal-length tuples
        segs = segs_of(d)
        el = V._first_elem(segs) if hasattr(V, '_first_elem') else None
        s = Lst(norm_segs(segs)).simple()
        if s is None:
            raise Unknown('zip star')
        i, n, e = s
        e = self.deep(st, e)
        if isinstance(e, Arr) and cint(e.dims[0]) is not None:
            e = Tup([e.row(num_(k)) for k in range(cint(e.dims[0]))])
        if not isinstance(e, Tup):
            raise Unknown('zip star')
        out = []
        for k in range(len(e.items)):
            j = fresh('z')
            out.append(Lst([Map(j, n, [One(vsubst(e.items[k],
                                                  {sym_name(i): j}))])]))
        return Tup(out, True)

    def b_list(self, st, a, kw, node):
        if not a:
            return self.I.new(st, Tup([], True))
        v = self.I.simp(st, self.I.deref(st, a[0]))
        if isinstance(v, Tup):
            return self.I.new(st, Tup(list(v.items), True))
        segs = self.I.iter_segs(st, v)
        return self.I.new(st, self.I.pack(segs))

    def b_tuple(self, st, a, kw, node):
        if not a:
            return Tup([])
        v = self.I.simp(st, self.I.deref(st, a[0]))
        if isinstance(v, Tup):
            return Tup(list(v.items))
        segs = norm_segs(self.I.iter_segs(st, v))
        if all(isinstance(s, One) for s in segs):
            return Tup([s.v for s in segs])
        return Lst(segs)

    b_iter = b_tuple

    def b_set(self, st, a, kw, node):
        if not a:
            return self.I.new(st, Tup([], True))
        return mk('set', (reify(self.deep(st, a[0])),))

    def b_dict(self, st, a, kw, node):
        if a:
            v = self.I.deref(st, a[0])
            if isinstance(v, DictV):
                d = dict(v.items)
                d.update(kw)
                return self.I.new(st, DictV(d, v.rest))
            raise Unknown('dict()')
        return self.I.new(st, DictV(dict(kw)))

    def b_reversed(self, st, a, kw, node):
        v = self.I.deref(st, a[0])
        if isinstance(v, Tup):
            return Tup(list(reversed(v.items)), True)
        return self.reverse(st, v)

    def reverse(self, st, v):
        v = self.deep(st, v)
        if isinstance(v, Lst):
            return self.I.slice_seq(st, v, SliceV(None, None, num_(-1)))
        if isinstance(v, Arr):
            return self.flip_axis(v, 0)
        raise Unknown('reversed')

    def flip_axis(self, v, ax):
        if v.gen is not None:
            v = Arr(v.dims, v.get)
        n = v.dims[ax]
        return Arr(v.dims, lambda idx: v.get(
            [sub(sub(n, num_(1)), x) if k == ax else x
             for k, x in enumerate(idx)]))

    def b_sorted(self, st, a, kw, node):
        p = self.params(st, a, kw, ['iterable', 'key', 'reverse'],
                        key=NONE, reverse=FALSE)
        return self.I.new(st, self.sorted_val(st, p['iterable'], p['key'],
                                              p['reverse'], node))

    def sorted_val(self, st, it, key, rev, node):
        v = self.deep(st, it)
        if isinstance(v, Scalar):
            return mk('sorted', (v, reify(key) if key != NONE else NONE,
                                 rev))
        if isinstance(v, Tup) and all(isinstance(x, Scalar)
                                      for x in v.items) and \
                len(v.items) <= 2 and key == NONE and rev == FALSE:
            if len(v.items) < 2:
                return Tup(v.items, True)
            x, y = v.items
            return Tup([mk_min(x, y), mk_max(x, y)], True)
        if isinstance(v, Tup):
            v = tup_arr(v)
        i = fresh('k')
        if isinstance(v, Lst) and v.simple() is None and ragged(v.segs):
            def kf(x):
                k = x
                if not (isinstance(key, Scalar) and key == NONE):
                    k = self.deep(st, self.I.call(st, key, [x], {}, node))
                return k
            return mk('sorted', (reify(v), reify(Lst(seg_map(
                norm_segs(v.segs), kf))), rev))
        if isinstance(v, Lst) and v.simple() is None or \
                isinstance(v, Arr) and v.gen is not None:
            v = asarr(v) if isinstance(v, Lst) else v
        if isinstance(v, Lst):
            n = v.simple()[1]
            row = self.I.item(st, v, i)
        else:
            n = v.dims[0]
            row = v.row(i)
        k = row
        if not (isinstance(key, Scalar) and key == NONE):
            k = self.deep(st, self.I.call(st, key, [row], {}, node))
        kk = reify(k)
        if isinstance(kk, Scalar) and not isinstance(kk, Struct):
            keys = Arr([n], lambda idx: subst(kk, {sym_name(i): idx[0]}))
            perm = self.argsort_arr(keys)
        else:
            lamk = lam([i], [n], kk)
            perm = Arr([n], lambda idx: mk('argsort', (lamk, idx[0]),
                                           integer=True, lb=0))
        t = fresh('i')
        pos = t
        if rev != FALSE:
            if rev != TRUE:
                raise Unknown('reverse flag')
            pos = sub(sub(n, num_(1)), t)
        at = perm.get([pos])
        if isinstance(v, Lst):
            el = self.I.item(st, v, at)
        else:
            el = v.row(at)
        return Lst([Map(t, n, [One(el)])])

    def argsort_arr(self, keys):
        x = fresh('x')
        body = keys.get([x])
        # adding a constant or scaling by a positive one keeps the order
        if isinstance(body, Rat):
            c, body = split_free(body, sym_name(x))
            k = positive_scale(body, sym_name(x))
            body = div(body, k)
        l = lam([x], keys.dims, body)
        return Arr([keys.dims[0]], lambda idx: mk('argsort', (l, idx[0]),
                                                  integer=True, lb=0))

    def b_min(self, st, a, kw, node):
        return self.minmax(st, a, kw, mk_min, 'min')

    def b_max(self, st, a, kw, node):
        return self.minmax(st, a, kw, mk_max, 'max')

    def minmax(self, st, a, kw, f, nm):
        if kw:
            raise Unknown('min/max keyword')
        if len(a) > 1:
            return self.el(st, f, *a)
        return self.reduce(st, nm, a[0], None)

    def b_sum(self, st, a, kw, node):
        r = self.reduce(st, 'sum', a[0], num_(0))
        if len(a) > 1 or 'start' in kw:
            r = self.el(st, add, r, a[1] if len(a) > 1 else kw['start'])
        return r

    def b_any(self, st, a, kw, node):
        return self.reduce(st, 'any', a[0], None)

    def b_all(self, st, a, kw, node):
        return self.reduce(st, 'all', a[0], None)

    def b_abs(self, st, a, kw, node):
        return self.el(st, abs_, a[0])

    def b_round(self, st, a, kw, node):
        if len(a) > 1 and cint(a[1]) != 0:
            return self.el(st, lambda x: mk('roundto', (x, a[1])), a[0])
        return self.el(st, round_, a[0])

    def b_pow(self, st, a, kw, node):
        return self.el(st, power, a[0], a[1])

    def b_divmod(self, st, a, kw, node):
        return Tup([floordiv(a[0], a[1]), mod_(a[0], a[1])])

    def b_int(self, st, a, kw, node):
        if not a:
            return num_(0)
        v = self.deep(st, a[0])
        if isinstance(v, Arr):
            v = self.squeeze_scalar(v)
        if self.is_str(v):
            return mk('int', (v,), integer=True)
        return trunc_(v)

    def squeeze_scalar(self, v):
        if all(cint(d) == 1 for d in v.dims):
            return v.get([num_(0)] * v.ndim)
        raise Unknown('scalar of array')

    def b_float(self, st, a, kw, node):
        if not a:
            return num_(0)
        v = self.deep(st, a[0])
        if isinstance(v, Arr):
            v = self.squeeze_scalar(v)
        if isinstance(v, Const) and isinstance(v.v, str):
            if v.v.strip().lower().lstrip('+') in ('inf', 'infinity'):
                return INF
            return mk('float', (v,))
        if self.is_str(v):
            return mk('float', (v,))
        return v

    def b_bool(self, st, a, kw, node):
        return self.I.truth(st, a[0]) if a else FALSE

    def b_str(self, st, a, kw, node):
        return self.to_str(st, a[0]) if a else Const('')

    def b_repr(self, st, a, kw, node):
        return mk('repr', (reify(self.deep(st, a[0])),))

    def b_print(self, st, a, kw, node):
        self.I.event(st, 'print', node)
        return NONE

    def warn(self, st, a, kw, node):
        cat = kw.get('category', a[1] if len(a) > 1 else None)
        cat = self.I.deref(st, cat) if cat is not None else None
        self.I.event(st, 'warn', node, category=cat.name if isinstance(
            cat, Ext) else 'UserWarning' if cat is None else '?')
        return NONE

    def b_callable(self, st, a, kw, node):
        return boolc(isinstance(self.I.deref(st, a[0]), (Func, Part)))

    def b_map(self, st, a, kw, node):
        f = a[0]
        if len(a) == 2:
            segs = self.I.iter_segs(st, a[1])
            return Lst(seg_map(segs, lambda e: self.deep(st, self.I.call(
                st, f, [e], {}, node))))
        z = self.b_zip(st, a[1:], {}, node)
        return Lst(seg_map(segs_of(z), lambda e: self.deep(st, self.I.call(
            st, f, list(e.items), {}, node))))

    def b_filter(self, st, a, kw, node):
        def w(s):
            if isinstance(s, One):
                c = self.I.truth(st, s.v if a[0] == NONE else self.I.call(
                    st, a[0], [s.v], {}, node))
                return Grd(c, [s])
            if isinstance(s, Grd):
                return Grd(s.cond, [w(x) for x in s.segs])
            return Map(s.i, s.n, [w(x) for x in s.segs])
        return Lst([w(s) for s in self.I.iter_segs(st, a[1])])

    def b_isinstance(self, st, a, kw, node):
        v = self.I.simp(st, self.I.deref(st, a[0]))
        ts = self.I.deref(st, a[1])
        ts = ts.items if isinstance(ts, Tup) else [ts]
        r = FALSE
        for t in ts:
            t = self.I.deref(st, t)
            nm = t.name if isinstance(t, Ext) else None
            if nm is None:
                raise Unknown('isinstance type')
            r = or_(r, self.isinst(st, v, nm))
        return r

    def isinst(self, st, v, nm):
        nm = nm.split('.')[-1]
        if isinstance(v, Choice):
            return ite(v.cond, self.isinst(st, self.I.deref(st, v.a), nm),
                       self.isinst(st, self.I.deref(st, v.b), nm))
        if isinstance(v, Tup):
            return boolc(nm == ('list' if v.is_list else 'tuple'))
        if isinstance(v, Lst):
            return boolc(nm == 'list')
        if isinstance(v, Arr):
            return boolc(nm == 'ndarray')
        if isinstance(v, DictV):
            return boolc(nm in ('dict', 'OrderedDict'))
        if isinstance(v, Const):
            t = type(v.v).__name__
            return boolc(nm == t or (t == 'bool' and nm == 'int'))
        if isinstance(v, Scalar):
            if nm in ('str',) and self.is_str(v):
                return TRUE
            a = the_atom(v) if isinstance(v, Rat) else None
            cc = v.const() if isinstance(v, Rat) else None
            if cc is not None and cc.denominator != 1:
                return boolc(nm == 'float')
            if a is not None and a.kind == 'sym' and a.integer and \
                    not a.boolean and '.' not in a.args[0]:
                return boolc(nm == 'int')
            if isinstance(v, Ite) and is_bool_like(v):
                return boolc(nm in ('bool', 'int'))
            if a is None or a.kind not in ('sym', 'item', 'attr') and \
                    not a.kind.startswith(('x:', 'io:', 'res:')):
                if isinstance(v, Rat):
                    if nm in ('str', 'list', 'tuple', 'dict', 'ndarray',
                              'Path'):
                        return FALSE
            return mk('isinst', (v, nm), boolean=True)
        return mk('isinst', (reify(v), nm), boolean=True)

    def b_type(self, st, a, kw, node):
        return mk('type', (reify(self.deep(st, a[0])),))

    def b_hasattr(self, st, a, kw, node):
        return mk('hasattr', (reify(self.deep(st, a[0])),
                              reify(a[1])), boolean=True)

    def b_getattr(self, st, a, kw, node):
        c = cstr(a[1])
        if c is None:
            raise Unknown('getattr')
        return self.attribute(st, self.I.deref(st, a[0]), c, a[0], node)

    def b_slice(self, st, a, kw, node):
        if len(a) == 1:
            return SliceV(None, a[0], None)
        return SliceV(a[0], a[1], a[2] if len(a) > 2 else None)

    # ------------------------------------------------------------ creation
    def np_asarray(self, st, a, kw, node):
        p = self.params(st, a, kw, ['a', 'dtype', 'order', 'copy', 'ndmin',
                                    'subok', 'like'], dtype=None)
        r = p['a']
        d = self.I.deref(st, r)
        if isinstance(d, Arr):
            if p['dtype'] is None:
                return r
            return self.with_dtype(st, d, p['dtype'], node)
        v = self.arr(st, r)
        v = self.rows_of(st, d, v)
        return self.with_dtype(st, v, p['dtype'], node)

    def rows_of(self, st, d, v):
        d = self.deep(st, d)
        if isinstance(d, Tup) and isinstance(v, Arr) and \
                all(isinstance(x, Arr) for x in d.items):
            v.rows = list(d.items)
        return v

    def np_copy(self, st, a, kw, node):
        v = self.arr(st, a[0])
        return v

    def np_arange(self, st, a, kw, node):
        kw = dict(kw)
        dt = kw.pop('dtype', None)
        st_ = kw.pop('start', None)
        sp = kw.pop('stop', None)
        ste = kw.pop('step', None)
        vals = [to_num(self.deep(st, x)) for x in a]
        if sp is not None:
            vals = ([st_] if st_ is not None else vals) + [sp]
        if ste is not None:
            if len(vals) == 1:
                vals = [num_(0)] + vals
            vals.append(ste)
        if len(vals) > 3:
            dt = a[3]
            vals = vals[:3]
        lo, step = num_(0), num_(1)
        if len(vals) == 1:
            hi = vals[0]
        elif len(vals) == 2:
            lo, hi = vals
        else:
            lo, hi, step = vals
        r = self.progression(lo, hi, step)
        return self.with_dtype(st, r, dt, node)

    def np_linspace(self, st, a, kw, node):
        p = self.params(st, a, kw, ['start', 'stop', 'num', 'endpoint',
                                    'dtype'], num=num_(50), endpoint=TRUE,
                        dtype=None)
        n = p['num']
        lo, hi = self.deep(st, p['start']), self.deep(st, p['stop'])
        if not isinstance(lo, Scalar) or not isinstance(hi, Scalar):
            raise Unknown('linspace')
        m = sub(n, num_(1)) if p['endpoint'] == TRUE else n
        step = div(sub(hi, lo), m)
        return self.with_dtype(st, Arr(
            [n], lambda idx: add(lo, mul(step, idx[0]))), p['dtype'], node)

    def np_zeros(self, st, a, kw, node, fill=num_(0)):
        p = self.params(st, a, kw, ['shape', 'dtype', 'order'], dtype=None)
        dims = self.shape(st, p['shape'])
        t = self.typename(st, p['dtype'])
        f = fill
        if t in BOOL_TYPES:
            f = as_bool(fill)
        r = Arr(dims, lambda idx: f)
        r.dtype = t
        return r

    def np_ones(self, st, a, kw, node):
        return self.np_zeros(st, a, kw, node, num_(1))

    def np_empty(self, st, a, kw, node):
        return self.np_zeros(st, a, kw, node, unk('uninitialised'))

    def np_full(self, st, a, kw, node):
        p = self.params(st, a, kw, ['shape', 'fill_value', 'dtype'],
                        dtype=None)
        dims = self.shape(st, p['shape'])
        f = self.deep(st, p['fill_value'])
        if not isinstance(f, Scalar):
            raise Unknown('full')
        r = Arr(dims, lambda idx: f)
        r.dtype = self.typename(st, p['dtype'])
        return r

    def np_zeros_like(self, st, a, kw, node, fill=num_(0)):
        v = self.arr(st, a[0])
        sh = kw.get('shape')
        dims = self.shape(st, sh) if sh is not None else None
        if isinstance(v, Scalar) and dims is None:
            at = the_atom(v) if isinstance(v, Rat) else None
            raise Unknown('zeros_like of scalar')
        d = dims or v.dims
        if dims is None and v.gen is not None:
            return gen_arr(Lst(seg_map(
                v.gen.segs, lambda e: self.el(st, lambda x: fill, e)
                if not isinstance(e, Scalar) else fill)))
        r = Arr(d, lambda idx: fill)
        dt = kw.get('dtype', a[1] if len(a) > 1 else None)
        r.dtype = self.typename(st, dt)
        if r.dtype is None:
            r.inherit = v
        return r

    def np_ones_like(self, st, a, kw, node):
        return self.np_zeros_like(st, a, kw, node, num_(1))

    def np_empty_like(self, st, a, kw, node):
        return self.np_zeros_like(st, a, kw, node, unk('uninitialised'))

    def np_full_like(self, st, a, kw, node):
        f = self.deep(st, a[1] if len(a) > 1 else kw['fill_value'])
        return self.np_zeros_like(st, a[:1], {}, node, f)

    def np_eye(self, st, a, kw, node):
        n = to_num(self.deep(st, a[0]))
        return Arr([n, n], lambda idx: ite(eq0(sub(idx[0], idx[1])),
                                           num_(1), num_(0)))

    np_identity = np_eye

    def np_meshgrid(self, st, a, kw, node):
        ind = cstr(kw.get('indexing', Const('xy')))
        if kw.get('sparse', FALSE) != FALSE or len(a) != 2:
            raise Unknown('meshgrid form')
        x, y = self.arr(st, a[0]), self.arr(st, a[1])
        if not isinstance(x, Arr) or not isinstance(y, Arr):
            raise Unknown('meshgrid of unknown')
        if ind == 'ij':
            d = [x.dims[0], y.dims[0]]
            return Tup([Arr(d, lambda idx: x.get([idx[0]])),
                        Arr(d, lambda idx: y.get([idx[1]]))], True)
        d = [y.dims[0], x.dims[0]]
        return Tup([Arr(d, lambda idx: x.get([idx[1]])),
                    Arr(d, lambda idx: y.get([idx[0]]))], True)

    def np_indices(self, st, a, kw, node):
        dims = self.shape(st, a[0])
        r = [Arr(dims, lambda idx, k=k: idx[k]) for k in range(len(dims))]
        return self.stack_rows(r)

    def stack_rows(self, rows):
        r = tup_arr(Tup(rows))
        r.rows = list(rows)
        return r

    def subscript_ext(self, st, ext, e):
        nm = ext.name
        sl = e.slice
        elts = sl.elts if isinstance(sl, ast.Tuple) else [sl]
        if nm in ('numpy.mgrid', 'numpy.ogrid') and all(
                isinstance(x, ast.Slice) for x in elts):
            ps = []
            for x in elts:
                s = self.I.slice_val(st, x)
                lo = s.lo if s.lo is not None else num_(0)
                step = s.step if s.step is not None else num_(1)
                ps.append(self.progression(to_num(lo), to_num(s.hi), step))
            n = len(ps)
            if nm.endswith('mgrid'):
                dims = [p.dims[0] for p in ps]
                rows = [Arr(dims, lambda idx, k=k: ps[k].get([idx[k]]))
                        for k in range(n)]
                return self.stack_rows(rows) if n > 1 else ps[0]
            rows = []
            for k in range(n):
                dims = [ps[j].dims[0] if j == k else num_(1)
                        for j in range(n)]
                rows.append(Arr(dims, lambda idx, k=k: ps[k].get([idx[k]])))
            return Tup(rows, True) if n > 1 else ps[0]
        if nm in ('numpy.c_', 'numpy.r_'):
            vals = [self.I.ev(st, x) for x in elts
                    if not isinstance(x, ast.Slice)]
            if len(vals) != len(elts):
                raise Unknown(nm)
            if nm.endswith('c_'):
                return self.np_column_stack(st, [Tup(vals)], {}, e)
            return self.np_concatenate(st, [Tup(vals)], {}, e)
        r = self.io.subscript_ext(st, ext, e)
        if r is not None:
            return r
        raise Unknown('subscript of ' + nm)

    # ------------------------------------------------------------ shaping
    def np_transpose(self, st, a, kw, node):
        v = self.arr(st, a[0])
        ax = a[1] if len(a) > 1 else kw.get('axes')
        return self.transpose(st, v, ax)

    def transpose(self, st, v, ax=None):
        if isinstance(v, Scalar):
            return v
        if v.gen is not None:
            if v.ndim == 1:
                return v
            v = Arr(v.dims, v.get)
        n = v.ndim
        if ax is None or (isinstance(ax, Scalar) and ax == NONE):
            perm = list(range(n))[::-1]
        else:
            perm = [cint(x) for x in self.shape(st, ax)]
        inv = [perm.index(k) for k in range(n)]
        return Arr([v.dims[p] for p in perm],
                   lambda idx: v.get([idx[inv[k]] for k in range(n)]))

    def np_swapaxes(self, st, a, kw, node):
        v = self.arr(st, a[0])
        x, y = cint(a[1]) % v.ndim, cint(a[2]) % v.ndim
        perm = list(range(v.ndim))
        perm[x], perm[y] = perm[y], perm[x]
        return self.transpose(st, v, Tup([num_(k) for k in perm]))

    def np_moveaxis(self, st, a, kw, node):
        v = self.arr(st, a[0])
        if isinstance(v, Scalar):
            return mk('moveaxis', (v, reify(a[1]), reify(a[2])))
        s, d = cint(a[1]), cint(a[2])
        if s is None or d is None:
            raise Unknown('moveaxis')
        s, d = s % v.ndim, d % v.ndim
        perm = [k for k in range(v.ndim) if k != s]
        perm.insert(d, s)
        return self.transpose(st, v, Tup([num_(k) for k in perm]))

    def np_fliplr(self, st, a, kw, node):
        v = self.arr(st, a[0])
        if v.gen is not None:
            return gen_arr(Lst(seg_map(
                v.gen.segs, lambda e: self.flip_axis(asarr(e), 0))))
        return self.flip_axis(v, 1)

    def np_flipud(self, st, a, kw, node):
        return self.flip_axis(self.arr(st, a[0]), 0)

    def np_flip(self, st, a, kw, node):
        p = self.params(st, a, kw, ['m', 'axis'], axis=NONE)
        v = self.arr(st, p['m'])
        if p['axis'] == NONE:
            for k in range(v.ndim):
                v = self.flip_axis(v, k)
            return v
        ax = cint(p['axis']) % v.ndim
        if ax == 1 and v.gen is not None:
            return self.np_fliplr(st, [v], {}, node)
        return self.flip_axis(v, ax)

    def np_squeeze(self, st, a, kw, node):
        v = self.arr(st, a[0])
        keep = [k for k, d in enumerate(v.dims) if cint(d) != 1]
        if not keep:
            return v.get([num_(0)] * v.ndim)

        def get(idx):
            full = [num_(0)] * v.ndim
            for k, x in zip(keep, idx):
                full[k] = x
            return v.get(full)
        return Arr([v.dims[k] for k in keep], get)

    def np_atleast_1d(self, st, a, kw, node):
        v = self.arr(st, a[0])
        if isinstance(v, Arr):
            return v
        return Arr([num_(1)], lambda idx: v)

    def np_expand_dims(self, st, a, kw, node):
        v = self.arr(st, a[0])
        ax = cint(a[1] if len(a) > 1 else kw['axis'])
        ax = ax % (v.ndim + 1)
        d = v.dims[:ax] + [num_(1)] + v.dims[ax:]
        return Arr(d, lambda idx: v.get(idx[:ax] + idx[ax + 1:]))

    def np_ravel(self, st, a, kw, node):
        return self.flatten(self.arr(st, a[0]))

    def flatten(self, v):
        if v.ndim == 1:
            return v
        base = v
        if v.flat is not None:
            base = v.flat
        return self.reshape_to(base, [prod(v.dims)])

    def reshape_to(self, base, dims):
        """array with the elements of base (C order) in a new shape"""
        if len(dims) == base.ndim and all(x == y for x, y in
                                          zip(dims, base.dims)):
            return base
        if base.gen is not None:
            base = Arr(base.dims, base.get)

        def get(idx):
            lin = num_(0)
            for k, x in enumerate(idx):
                if cint(dims[k]) == 1:
                    continue
                lin = add(mul(lin, dims[k]), x)
            out = []
            for k in range(base.ndim - 1, 0, -1):
                out.append(mod_(lin, base.dims[k]))
                lin = floordiv(lin, base.dims[k])
            out.append(lin)
            return base.get(out[::-1])
        r = Arr(dims, get, flat=base)
        return r

    def np_reshape(self, st, a, kw, node):
        p = self.params(st, a, kw, ['a', 'newshape', 'order', 'shape'],
                        order=Const('C'))
        sh = p.get('newshape', p.get('shape'))
        if p['order'] != Const('C'):
            raise Unknown('reshape order')
        return self.reshape(st, self.arr(st, p['a']), self.shape(st, sh))

    def reshape(self, st, v, dims):
        if not isinstance(v, Arr):
            raise Unknown('reshape of scalar')
        base = v.flat if v.flat is not None else v
        total = prod(base.dims)
        known = num_(1)
        for d in dims:
            if cint(d) != -1:
                known = mul(known, d)
        dims = [div(total, known) if cint(d) == -1 else d for d in dims]
        return self.reshape_to(base, dims)

    def axis_of(self, st, ax, v):
        if ax is None or (isinstance(ax, Scalar) and ax == NONE):
            return None
        ax = self.deep(st, ax)
        if isinstance(ax, Tup):
            return [cint(x) % v.ndim for x in ax.items]
        c = cint(ax)
        if c is None:
            raise Unknown('axis')
        return [c % v.ndim]

    def np_vstack(self, st, a, kw, node):
        items = self.seq(st, a[0])
        if isinstance(items, Lst):
            v = asarr(items)
            if isinstance(v, Arr) and v.gen is None and v.ndim == 2:
                return v
            # stack of 2D blocks: concatenation of their rows
            return self.concat_rows(items)
        arrs = [self.arr(st, x) for x in items]
        if all(isinstance(x, Scalar) for x in arrs):
            arrs = [Arr([num_(1)], lambda idx, x=x: x) for x in arrs]
        if all(isinstance(x, Arr) and x.ndim == 1 for x in arrs):
            if any(x.gen is not None for x in arrs):
                return self.gen_rows(st, arrs)
            return self.stack_rows(arrs)
        if any(isinstance(x, Scalar) for x in arrs):
            raise Unknown('vstack')
        return self.concat(arrs, 0)

    def gen_rows(self, st, arrs):
        r = Arr([num_(len(arrs)), arrs[0].dims[0]],
                lambda idx: pick([x.get([idx[1]]) for x in arrs], idx[0]))
        r.rows = arrs
        return r

    def concat_rows(self, items):
        out = []

        def w(segs):
            res = []
            for s in segs:
                if isinstance(s, One):
                    res.extend(segs_of(asarr(s.v)))
                elif isinstance(s, Grd):
                    res.append(Grd(s.cond, w(s.segs)))
                else:
                    res.append(Map(s.i, s.n, w(s.segs)))
            return res
        segs = norm_segs(w(items.segs))
        l = Lst(segs)
        return asarr(l)

    def seq(self, st, v):
        v = self.I.simp(st, self.I.deref(st, v))
        v = self.deep(st, v)
        if isinstance(v, Tup):
            return v.items
        if isinstance(v, Lst):
            segs = norm_segs(v.segs)
            if all(isinstance(s, One) for s in segs):
                return [s.v for s in segs]
            return Lst(segs)
        if isinstance(v, Arr):
            c = cint(v.dims[0])
            if c is not None and c <= 64:
                return [v.row(num_(k)) for k in range(c)]
            return Lst(segs_of(v))
        raise Unknown('sequence')

    def concat(self, arrs, ax):
        if any(isinstance(x, Scalar) for x in arrs):
            raise Unknown('concatenate')
        if ax == 0 and (any(x.gen is not None for x in arrs) or True):
            segs = []
            for x in arrs:
                segs.extend(segs_of(x))
            segs = norm_segs(segs)
            return asarr(Lst(segs))
        tot = num_(0)
        offs = []
        for x in arrs:
            offs.append(tot)
            tot = add(tot, x.dims[ax])
        dims = list(arrs[0].dims)
        dims[ax] = tot

        def get(idx):
            r = None
            for x, o in reversed(list(zip(arrs, offs))):
                ii = list(idx)
                ii[ax] = sub(idx[ax], o)
                c = cint(ii[ax])
                v = None
                if r is None:
                    v = x.get(ii)
                    r = v
                else:
                    nxt = add(o, x.dims[ax])
                    cond = cmp_lt(idx[ax], nxt)
                    if cond == TRUE:
                        r = x.get(ii)
                    elif cond != FALSE:
                        r = ite(cond, x.get(ii), r)
            return r
        return Arr(dims, get)

    def np_concatenate(self, st, a, kw, node):
        p = self.params(st, a, kw, ['arrays', 'axis'], axis=num_(0))
        items = self.seq(st, p['arrays'])
        if isinstance(items, Lst):
            if cint(p['axis']) != 0:
                raise Unknown('concatenate axis')
            return self.concat_rows(items)
        arrs = [self.arr(st, x) for x in items]
        ax = self.axis_of(st, p['axis'], arrs[0])
        if ax is None:
            return self.concat([self.flatten(x) for x in arrs], 0)
        return self.concat(arrs, ax[0])

    def np_append(self, st, a, kw, node):
        p = self.params(st, a, kw, ['arr', 'values', 'axis'], axis=NONE)
        x, y = self.arr(st, p['arr']), self.arr(st, p['values'])
        if isinstance(y, Scalar):
            y0 = y
            y = Arr([num_(1)], lambda idx: y0)
        if p['axis'] == NONE:
            return self.concat([self.flatten(x), self.flatten(y)], 0)
        return self.concat([x, y], cint(p['axis']) % x.ndim)

    def np_hstack(self, st, a, kw, node):
        items = self.seq(st, a[0])
        if isinstance(items, Lst):
            raise Unknown('hstack')
        arrs = [self.arr(st, x) for x in items]
        arrs = [Arr([num_(1)], lambda idx, x=x: x)
                if isinstance(x, Scalar) else x for x in arrs]
        return self.concat(arrs, 0 if arrs[0].ndim == 1 else 1)

    def np_column_stack(self, st, a, kw, node):
        items = self.seq(st, a[0])
        if isinstance(items, Lst):
            return self.transpose(st, asarr(items))
        arrs = [self.arr(st, x) for x in items]
        if all(isinstance(x, Arr) and x.ndim == 1 for x in arrs):
            return self.columns(st, arrs)
        cols = []
        for x in arrs:
            if x.ndim == 1:
                cols.append(x)
            elif x.ndim == 2 and cint(x.dims[1]) is not None:
                for k in range(cint(x.dims[1])):
                    cols.append(self.I.index_arr(st, x, [
                        ('r', num_(0), x.dims[0], None, True),
                        ('i', num_(k))], None))
            else:
                raise Unknown('column_stack')
        return self.columns(st, cols)

    def columns(self, st, arrs):
        from .interp import zip_segs, z_map
        if any(x.gen is not None for x in arrs):
            segs = zip_segs([segs_of(x) for x in arrs])
            return gen_arr(Lst(z_map(segs, lambda *e: Tup(list(e)))))
        return Arr([arrs[0].dims[0], num_(len(arrs))],
                   lambda idx: pick([x.get([idx[0]]) for x in arrs],
                                    idx[1]))

    def np_stack(self, st, a, kw, node):
        p = self.params(st, a, kw, ['arrays', 'axis'], axis=num_(0))
        items = self.seq(st, p['arrays'])
        if isinstance(items, Lst):
            v = asarr(items)
        else:
            arrs = [self.arr(st, x) for x in items]
            if all(isinstance(x, Arr) and x.ndim == 1 for x in arrs) and \
                    cint(p['axis']) in (1, -1):
                return self.columns(st, arrs)
            v = self.stack_rows(arrs)
        ax = cint(p['axis']) % v.ndim
        if ax == 0:
            return v
        return self.np_moveaxis(st, [v, num_(0), num_(ax)], {}, node)

    def np_dstack(self, st, a, kw, node):
        items = self.seq(st, a[0])
        if isinstance(items, Lst):
            v = asarr(items)
        else:
            v = self.stack_rows([self.arr(st, x) for x in items])
        return self.np_moveaxis(st, [v, num_(0), num_(2)], {}, node)

    def np_tile(self, st, a, kw, node):
        v = self.arr(st, a[0])
        reps = self.shape(st, a[1])
        if isinstance(v, Scalar):
            return Arr(reps, lambda idx: v)
        if v.ndim == 1 and len(reps) == 2 and cint(reps[1]) == 1:
            return Arr([reps[0], v.dims[0]], lambda idx: v.get([idx[1]]))
        if len(reps) < v.ndim:
            reps = [num_(1)] * (v.ndim - len(reps)) + reps
        if len(reps) == v.ndim:
            return Arr([mul(d, r) for d, r in zip(v.dims, reps)],
                       lambda idx: v.get([
                           num_(0) if cint(d) == 1 else
                           (x if cint(r) == 1 else mod_(x, d))
                           for x, d, r in zip(idx, v.dims, reps)]))
        raise Unknown('tile')

    def np_broadcast_to(self, st, a, kw, node):
        v = self.arr(st, a[0])
        dims = self.shape(st, a[1])
        if isinstance(v, Scalar):
            return Arr(dims, lambda idx: v)
        k = len(dims) - v.ndim
        return Arr(dims, lambda idx: v.get([
            num_(0) if cint(d) == 1 else x
            for d, x in zip(v.dims, idx[k:])]))

    def np_repeat(self, st, a, kw, node):
        v = self.arr(st, a[0])
        if isinstance(v, Scalar):
            n = to_num(self.deep(st, a[1]))
            return Arr([n], lambda idx: v)
        raise Unknown('repeat')

    def np_pad(self, st, a, kw, node):
        p = self.params(st, a, kw, ['array', 'pad_width', 'mode',
                                    'constant_values', 'end_values',
                                    'stat_length', 'reflect_type'],
                        mode=Const('constant'))
        v = self.arr(st, p['array'])
        w = self.deep(st, p['pad_width'])
        nd = v.ndim

        def pair(x):
            x = self.deep(st, x)
            if isinstance(x, Scalar):
                return (x, x)
            x = asarr(x)
            if cint(x.dims[0]) == 1:
                y = x.get([num_(0)])
                return (y, y)
            return (x.get([num_(0)]), x.get([num_(1)]))
        if isinstance(w, Scalar):
            ws = [(w, w)] * nd
        elif isinstance(w, Tup) and all(isinstance(x, Scalar)
                                        for x in w.items):
            if len(w.items) == 1:
                ws = [(w.items[0],) * 2] * nd
            else:
                ws = [tuple(w.items)] * nd
        elif isinstance(w, Tup) and len(w.items) == nd:
            ws = [pair(x) for x in w.items]
        elif isinstance(w, Tup) and len(w.items) == 1:
            ws = [pair(w.items[0])] * nd
        else:
            raise Unknown('pad width')
        dims = [add(add(d, b), c) for d, (b, c) in zip(v.dims, ws)]
        ps = [fresh('x') for _ in v.dims]
        opts = tuple((k, reify(self.deep(st, p[k]))) for k in sorted(p)
                     if k not in ('array', 'pad_width', 'mode'))
        mode = reify(self.deep(st, p['mode']))
        key = lam(ps, v.dims, v.get(ps))
        self.I.event(st, 'pad', node, array=v, widths=[Tup(list(x))
                                                       for x in ws],
                     mode=mode)
        r = Arr(dims, lambda idx: mk('padded', (
            key, mode, opts) + tuple(
                sub(x, b) for x, (b, c) in zip(idx, ws))))
        r.padded = (v, ws, mode)
        return r

    def np_delete(self, st, a, kw, node):
        p = self.params(st, a, kw, ['arr', 'obj', 'axis'], axis=NONE)
        v = self.arr(st, p['arr'])
        o = self.deep(st, p['obj'])
        src = o
        if isinstance(o, (Tup, Lst)):
            o = asarr(o)
        if isinstance(v, Scalar):
            raise Unknown('delete')
        ax = p['axis']
        if v.ndim > 1 and cint(ax) not in (0,):
            raise Unknown('delete axis')
        i = fresh('m')
        if isinstance(o, Scalar):
            c = eq0(sub(i, self.I.fix_index(o, v.dims[0])))
        elif isinstance(o, Arr):
            # membership of the position in the index list
            c = self.I.positions(src, i)
            if c is None:
                c = self.member(o, i)
        else:
            raise Unknown('delete obj')
        if v.gen is not None:
            raise Unknown('delete of filtered')
        return gen_arr(Lst([Map(i, v.dims[0], [Grd(not_(c),
                                                   [One(v.row(i))])])]))

    def member(self, o, i):
        """position i occurs in the index array o"""
        if o.gen is not None:
            segs = norm_segs(o.gen.segs)
            if len(segs) == 1 and isinstance(segs[0], Map):
                m = segs[0]
                if len(m.segs) == 1 and isinstance(m.segs[0], Grd):
                    g = m.segs[0]
                    if len(g.segs) == 1 and isinstance(g.segs[0], One) and \
                            isinstance(g.segs[0].v, Scalar) and \
                            g.segs[0].v == m.i:
                        return subst(g.cond, {sym_name(m.i): i})
            return mk('in', (i, reify_l(o.gen)), boolean=True)
        return mk('in', (i, reify(o)), boolean=True)

    def np_insert(self, st, a, kw, node):
        p = self.params(st, a, kw, ['arr', 'obj', 'values', 'axis'],
                        axis=NONE)
        v = self.arr(st, p['arr'])
        k = cint(p['obj'])
        x = self.arr(st, p['values'])
        if isinstance(v, Arr) and k == 0 and isinstance(x, Scalar) and \
                v.ndim == 1:
            return asarr(Lst([One(x)] + list(segs_of(v))))
        raise Unknown('insert')

    def np_take(self, st, a, kw, node):
        p = self.params(st, a, kw, ['a', 'indices', 'axis', 'out', 'mode'],
                        axis=NONE)
        v = self.arr(st, p['a'])
        i = self.deep(st, p['indices'])
        if isinstance(i, (Tup, Lst)):
            i = asarr(i)
        if isinstance(v, Scalar):
            return mk('take', (v, reify(i), reify(p['axis'])))
        ax = self.axis_of(st, p['axis'], v)
        if ax is None:
            v = self.flatten(v)
            ax = [0]
        ax = ax[0]
        specs = [('r', num_(0), d, None, True) for d in v.dims]
        specs[ax] = ('i', self.I.fix_index(i, v.dims[ax])) \
            if isinstance(i, Scalar) else ('arr', i)
        return self.I.index_arr(st, v, specs, node)

    def np_unique(self, st, a, kw, node):
        v = self.arr(st, a[0])
        key = reify(v)
        if kw:
            raise Unknown('unique options')
        return opaque_arr('uniq', key, [mk('nuniq', (key,), integer=True,
                                           lb=0)])

    # ------------------------------------------------------------ selection
    def np_where(self, st, a, kw, node):
        c = self.arr(st, a[0])
        if len(a) == 3:
            x, y = self.deep(st, a[1]), self.deep(st, a[2])
            return self.el(st, lambda c, x, y: ite(as_bool(c), x, y), c, x,
                           y)
        return self.nonzero(c)

    def nonzero(self, c):
        if isinstance(c, Scalar):
            raise Unknown('nonzero of scalar')
        if c.gen is not None:
            # positions within a filtered array
            raise Unknown('nonzero of filtered')
        ps = [fresh('w') for _ in c.dims]
        cond = as_bool(c.get(ps))
        out = []
        for k in range(c.ndim):
            segs = [Grd(cond, [One(ps[k])])]
            for p, n in reversed(list(zip(ps, c.dims))):
                segs = [Map(p, n, segs)]
            r = gen_arr(Lst(segs))
            out.append(r)
        return Tup(out)

    def np_nonzero(self, st, a, kw, node):
        return self.nonzero(self.arr(st, a[0]))

    def np_flatnonzero(self, st, a, kw, node):
        v = self.arr(st, a[0])
        if v.ndim != 1:
            raise Unknown('flatnonzero')
        return self.nonzero(v).items[0]

    def np_argwhere(self, st, a, kw, node):
        c = self.arr(st, a[0])
        ps = [fresh('w') for _ in c.dims]
        segs = [Grd(as_bool(c.get(ps)), [One(Tup(ps))])]
        for p, n in reversed(list(zip(ps, c.dims))):
            segs = [Map(p, n, segs)]
        return gen_arr(Lst(segs))

    def np_clip(self, st, a, kw, node):
        p = self.params(st, a, kw, ['a', 'a_min', 'a_max', 'out', 'min',
                                    'max'])
        lo = p.get('a_min', p.get('min', NONE))
        hi = p.get('a_max', p.get('max', NONE))
        return self.clip(st, p['a'], lo, hi)

    def clip(self, st, v, lo, hi):
        if isinstance(lo, Scalar) and lo == NONE:
            return self.el(st, mk_min, v, hi)
        if isinstance(hi, Scalar) and hi == NONE:
            return self.el(st, mk_max, v, lo)
        return self.el(st, mk_clip, v, lo, hi)

    def np_round(self, st, a, kw, node):
        d = a[1] if len(a) > 1 else kw.get('decimals', num_(0))
        if cint(d) == 0:
            return self.el(st, round_, a[0])
        return self.el(st, lambda x: mk('roundto', (x, d)), a[0])

    def np_isclose(self, st, a, kw, node):
        return self.el(st, lambda x, y: mk('isclose', (x, y), boolean=True),
                       a[0], a[1])

    def np_iscomplexobj(self, st, a, kw, node):
        return mk('iscomplexobj', (reify(self.deep(st, a[0])),),
                  boolean=True)

    def np_isscalar(self, st, a, kw, node):
        v = self.deep(st, a[0])
        return boolc(not isinstance(v, (Arr, Tup, Lst)))

    def np_diff(self, st, a, kw, node):
        p = self.params(st, a, kw, ['a', 'n', 'axis'], n=num_(1),
                        axis=num_(-1))
        v = self.arr(st, p['a'])
        if cint(p['n']) != 1:
            raise Unknown('diff order')
        if isinstance(v, Scalar):
            return mk('diff', (v,))
        if v.gen is not None:
            v = Arr(v.dims, v.get)
        ax = self.axis_of(st, p['axis'], v)[0]
        dims = list(v.dims)
        dims[ax] = sub(dims[ax], num_(1))

        def get(idx):
            up = list(idx)
            up[ax] = add(idx[ax], num_(1))
            return sub(v.get(up), v.get(idx))
        return Arr(dims, get)

    def np_sort(self, st, a, kw, node):
        v = self.arr(st, a[0])
        if isinstance(v, Scalar):
            return mk('sort', (v,))
        ax = kw.get('axis', a[1] if len(a) > 1 else num_(-1))
        if v.ndim != 1:
            if cint(ax) == 0:
                key = reify(v)
                return opaque_arr('sortax0', key, v.dims)
            key = reify(v)
            return opaque_arr('sortlast', key, v.dims)
        if v.gen is not None:
            v = Arr(v.dims, v.get)
        perm = self.argsort_arr(v)
        return Arr(v.dims, lambda idx: self.at(v, perm.get(idx)))

    def at(self, v, k):
        if isinstance(k, Ite):
            return apply(lambda x: v.get([x]), k)
        return v.get([k])

    def np_argsort(self, st, a, kw, node):
        v = self.arr(st, a[0])
        if isinstance(v, Scalar):
            return mk('argsort_s', (v,))
        if v.ndim != 1:
            raise Unknown('argsort ndim')
        if v.gen is not None:
            v = Arr(v.dims, v.get)
        return self.argsort_arr(v)

    def np_lexsort(self, st, a, kw, node):
        raise Unknown('lexsort')

    def np_argmin(self, st, a, kw, node):
        return self.arg_ext(st, 'argmin', a, kw)

    def np_argmax(self, st, a, kw, node):
        return self.arg_ext(st, 'argmax', a, kw)

    def arg_ext(self, st, nm, a, kw):
        p = self.params(st, a, kw, ['a', 'axis', 'out', 'keepdims'],
                        axis=NONE)
        v = self.arr(st, p['a'])
        if isinstance(v, Scalar):
            return mk(nm, (v,), integer=True, lb=0)
        if p['axis'] != NONE and v.ndim > 1:
            ax = self.axis_of(st, p['axis'], v)[0]
            x = fresh('x')
            dims = [d for k, d in enumerate(v.dims) if k != ax]

            def get(idx):
                full = list(idx)
                full.insert(ax, x)
                return self.mk_arg(nm, [x], [v.dims[ax]], v.get(full))
            return Arr(dims, get)
        c = cint(v.dims[0]) if v.ndim == 1 else None
        ps = [fresh('x') for _ in v.dims]
        return self.mk_arg(nm, ps, v.dims, v.get(ps))

    def mk_arg(self, nm, ps, dims, body):
        if isinstance(body, Rat) and len(ps) == 1:
            c, body = split_free(body, sym_name(ps[0]))
            # argmin(-x) = argmax(x)
            r, s = scale_pos(body)
            if s < 0:
                body = neg(body)
                nm = 'argmax' if nm == 'argmin' else 'argmin'
            k = positive_scale(body, sym_name(ps[0]))
            body = div(body, k)
        return of_atom(atom(nm, (lam(ps, dims, body),), integer=True, lb=0))

    def np_unravel_index(self, st, a, kw, node):
        p = self.params(st, a, kw, ['indices', 'shape', 'order'])
        i = self.deep(st, p['indices'])
        dims = self.shape(st, p['shape'])
        if not isinstance(i, Scalar):
            raise Unknown('unravel')
        at = the_atom(i) if isinstance(i, Rat) else None
        if at is not None and at.kind in ('argmin', 'argmax'):
            l = at.args[0]
            if isinstance(l, Struct) and l.tag == 'lam' and \
                    l.parts[0] == len(dims):
                return Tup([of_atom(atom(at.kind + '_ax', (l, k),
                                         integer=True, lb=0))
                            for k in range(len(dims))])
        out = []
        for k in range(len(dims) - 1, 0, -1):
            out.append(mod_(i, dims[k]))
            i = floordiv(i, dims[k])
        out.append(i)
        return Tup(out[::-1])

    # ------------------------------------------------------------ reductions
    def np_sum(self, st, a, kw, node):
        return self.red(st, 'sum', a, kw)

    def np_nansum(self, st, a, kw, node):
        return self.red(st, 'sum', a, kw)

    def np_mean(self, st, a, kw, node):
        return self.red(st, 'mean', a, kw)

    def np_average(self, st, a, kw, node):
        if 'weights' in kw or len(a) > 2:
            raise Unknown('weights')
        return self.red(st, 'mean', a, kw)

    def np_max(self, st, a, kw, node):
        return self.red(st, 'max', a, kw)

    def np_min(self, st, a, kw, node):
        return self.red(st, 'min', a, kw)

    def np_ptp(self, st, a, kw, node):
        return self.el(st, sub, self.red(st, 'max', a, dict(kw)),
                       self.red(st, 'min', a, dict(kw)))

    def np_median(self, st, a, kw, node):
        return self.red(st, 'median', a, kw)

    def np_std(self, st, a, kw, node):
        return self.red(st, 'std', a, kw)

    def np_var(self, st, a, kw, node):
        return self.red(st, 'var', a, kw)

    def np_prod(self, st, a, kw, node):
        return self.red(st, 'prod', a, kw)

    def np_any(self, st, a, kw, node):
        return self.red(st, 'any', a, kw)

    def np_all(self, st, a, kw, node):
        return self.red(st, 'all', a, kw)

    def np_count_nonzero(self, st, a, kw, node):
        v = self.arr(st, a[0])
        return self.reduce(st, 'sum', self.el(
            st, lambda x: ite(as_bool(x), num_(1), num_(0)), v), None)

    def np_percentile(self, st, a, kw, node):
        q = self.deep(st, a[1] if len(a) > 1 else kw['q'])
        v = self.arr(st, a[0])
        return mk('percentile', (reify(v), q))

    def np_shape(self, st, a, kw, node):
        return Tup(list(self.arr(st, a[0]).dims))

    def np_size(self, st, a, kw, node):
        return prod(self.arr(st, a[0]).dims)

    def np_ndim(self, st, a, kw, node):
        v = self.arr(st, a[0])
        return num_(v.ndim if isinstance(v, Arr) else 0)

    def red(self, st, kind, a, kw):
        kw = dict(kw)
        kw.pop('dtype', None)
        p = self.params(st, a, kw, ['a', 'axis', 'dtype', 'out', 'keepdims',
                                    'ddof'], axis=None, keepdims=FALSE)
        if 'ddof' in p and cint(p['ddof']) != 0:
            raise Unknown('ddof')
        return self.reduce(st, kind, p['a'], p['axis'], p['keepdims'],
                           np_style=True)

    def reduce(self, st, kind, v, axis=None, keep=FALSE, np_style=False):
        v = self.arr(st, v)
        if isinstance(v, Scalar):
            at = the_atom(v) if isinstance(v, Rat) else None
            if at is not None and (at.kind.startswith(('x:', 'res:', 'io:'))
                                   or at.kind in ('sym', 'item', 'attr')):
                return mk('r' + kind, (v,) + ((reify(axis),)
                                              if axis is not None else ()))
            if kind == 'any' or kind == 'all':
                return as_bool(v)
            return v
        if axis is not None and not np_style and cint(axis) == 0 and \
                v.ndim == 1:
            axis = None
        ax = self.axis_of(st, axis, v)
        if ax is None or len(ax) == v.ndim:
            return self.reduce_all(st, kind, v)
        if v.gen is not None and ax == [0]:
            dims = v.dims[1:]
            fr = [fresh('x') for _ in dims]
            segs = seg_map(v.gen.segs, lambda e: asarr(e).get(fr))
            r = self.reduce_segs(kind, segs)
            names = [sym_name(f) for f in fr]
            return Arr(dims, lambda idx: subst(r, dict(zip(names, idx))))
        if v.gen is not None:
            if 0 not in ax:
                def f(e):
                    return self.reduce(st, kind, e, Tup(
                        [num_(k - 1) for k in ax]), FALSE, True)
                return gen_arr(Lst(seg_map(v.gen.segs, f)))
            v = Arr(v.dims, v.get)
        rest = [k for k in range(v.ndim) if k not in ax]
        dims = [v.dims[k] for k in rest]

        def get(idx):
            ps = [fresh('x') for _ in ax]
            full = [None] * v.ndim
            for k, x in zip(rest, idx):
                full[k] = x
            for k, p in zip(ax, ps):
                full[k] = p
            cs = [cint(v.dims[k]) for k in ax]
            if len(ax) == 1 and cs[0] is not None and cs[0] <= 16:
                items = []
                for j in range(cs[0]):
                    full[ax[0]] = num_(j)
                    items.append(v.get(full))
                return self.fold(kind, items)
            return self.red_term(kind, ps, [v.dims[k] for k in ax],
                                 v.get(full))
        if keep == TRUE:
            kd = [num_(1) if k in ax else d for k, d in enumerate(v.dims)]
            return Arr(kd, lambda idx: get([idx[k] for k in rest]))
        return Arr(dims, get)

    def reduce_all(self, st, kind, v):
        if v.gen is not None:
            if v.ndim == 1:
                return self.reduce_segs(kind, v.gen.segs)
            if kind in ('sum', 'max', 'min', 'any', 'all'):
                return self.reduce_segs(kind, seg_map(
                    v.gen.segs, lambda e: self.reduce_all(st, kind,
                                                          asarr(e))))
            v = Arr(v.dims, v.get)
        c = cint(v.dims[0])
        if v.ndim == 1 and c is not None and c <= 16:
            return self.fold(kind, [v.get([num_(k)]) for k in range(c)])
        ps = [fresh('x') for _ in v.dims]
        return self.red_term(kind, ps, v.dims, v.get(ps))

    def fold(self, kind, items):
        n = len(items)
        if kind == 'sum' or kind == 'mean':
            t = num_(0)
            for x in items:
                t = add(t, x)
            return t if kind == 'sum' else div(t, num_(n))
        if kind == 'max':
            return mk_max(*items)
        if kind == 'min':
            return mk_min(*items)
        if kind == 'prod':
            t = num_(1)
            for x in items:
                t = mul(t, x)
            return t
        if kind == 'any':
            t = FALSE
            for x in items:
                t = or_(t, x)
            return t
        if kind == 'all':
            t = TRUE
            for x in items:
                t = and_(t, x)
            return t
        if kind == 'median':
            if n == 1:
                return items[0]
            if n == 2:
                return div(add(*items), num_(2))
        return mk('r' + kind, (Struct('tup', tuple(items)),))

    def red_term(self, kind, ps, dims, body):
        if kind in ('sum', 'mean'):
            t = body
            if not (isinstance(t, Ite) or isinstance(t, Rat)):
                t = to_num(t)
            for p, d in reversed(list(zip(ps, dims))):
                t = sum_(p, d, t)
            if kind == 'mean':
                t = div(t, prod(dims))
            return t
        if kind == 'any':
            return self.exists(ps, dims, as_bool(body))
        if kind == 'all':
            return not_(self.exists(ps, dims, not_(as_bool(body))))
        if not any(sym_name(p) in body.syms for p in ps) and \
                kind in ('max', 'min', 'median'):
            return body
        if kind in ('max', 'min', 'median') and isinstance(body, Rat):
            names = [sym_name(p) for p in ps]
            c, body = split_free(body, *names)
            r, s = scale_pos(body)
            k = positive_scale(body, *names)
            body = div(body, k)
            if s < 0:
                body = neg(body)
                kind = {'max': 'min', 'min': 'max'}.get(kind, kind)
                k = neg(k)
            t = of_atom(atom('r' + kind, (lam(ps, dims, body),),
                             integer=is_int(body)))
            return add(c, mul(k, t))
        if kind in ('max', 'min') and isinstance(body, Ite):
            return of_atom(atom('r' + kind, (lam(ps, dims, body),)))
        return of_atom(atom('r' + kind, (lam(ps, dims, body),)))

    def exists(self, ps, dims, cond):
        if cond in (TRUE, FALSE):
            return cond
        return pred_(atom('exists', (lam(ps, dims, cond),), boolean=True))

    def reduce_segs(self, kind, segs):
        segs = norm_segs(segs)
        l = Lst(segs)
        s = l.simple()
        if s is not None and isinstance(s[2], Scalar):
            i, n, e = s
            x = fresh('x')
            return self.red_term(kind, [x], [n], subst(e, {sym_name(i): x}))
        if kind == 'sum':
            return self.sum_segs(segs)
        if kind == 'mean':
            return div(self.sum_segs(segs), count_segs(segs))
        if kind == 'any':
            return self.any_segs(segs)
        if kind == 'all':
            return not_(self.any_segs(seg_map(segs, not_)))
        return of_atom(atom('r' + kind, (reify_l(l),)))

    def sum_segs(self, segs):
        t = num_(0)
        for s in segs:
            if isinstance(s, One):
                t = add(t, s.v)
            elif isinstance(s, Grd):
                t = add(t, ite(s.cond, self.sum_segs(s.segs), num_(0)))
            else:
                t = add(t, sum_(s.i, s.n, self.sum_segs(s.segs)))
        return t

    def any_segs(self, segs):
        t = FALSE
        for s in segs:
            if isinstance(s, One):
                t = or_(t, s.v)
            elif isinstance(s, Grd):
                t = or_(t, and_(s.cond, self.any_segs(s.segs)))
            else:
                x = self.any_segs(s.segs)
                if x != FALSE:
                    t = or_(t, self.exists([s.i], [s.n], x))
        return t

    # ------------------------------------------------------------ algebra
    def np_dot(self, st, a, kw, node):
        return self.matmul(st, self.arr(st, a[0]), self.arr(st, a[1]))

    np_matmul = np_dot
    np_inner = np_dot

    def matmul(self, st, x, y):
        x, y = self.arr(st, x), self.arr(st, y)
        if isinstance(x, Scalar) or isinstance(y, Scalar):
            return self.el(st, mul, x, y)
        i = fresh('d')

        def dot(f, n):
            c = cint(n)
            if c is not None and c <= 16:
                t = num_(0)
                for k in range(c):
                    t = add(t, f(num_(k)))
                return t
            return sum_(i, n, f(i))
        if x.ndim == 1 and y.ndim == 1:
            n = x.dims[0]
            return dot(lambda k: mul(x.get([k]), y.get([k])), n)
        if x.ndim == 2 and y.ndim == 1:
            return Arr([x.dims[0]], lambda idx: dot(
                lambda k: mul(x.get([idx[0], k]), y.get([k])), x.dims[1]))
        if x.ndim == 1 and y.ndim == 2:
            return Arr([y.dims[1]], lambda idx: dot(
                lambda k: mul(x.get([k]), y.get([k, idx[0]])), x.dims[0]))
        if x.ndim == 2 and y.ndim == 2:
            return Arr([x.dims[0], y.dims[1]], lambda idx: dot(
                lambda k: mul(x.get([idx[0], k]), y.get([k, idx[1]])),
                x.dims[1]))
        raise Unknown('matmul')

    def np_outer(self, st, a, kw, node):
        x, y = self.arr(st, a[0]), self.arr(st, a[1])
        return Arr([x.dims[0], y.dims[0]], lambda idx: mul(
            x.get([idx[0]]), y.get([idx[1]])))

    def np_linalg__norm(self, st, a, kw, node):
        p = self.params(st, a, kw, ['x', 'ord', 'axis', 'keepdims'],
                        ord=NONE, axis=None)
        if p['ord'] != NONE and cint(p['ord']) != 2:
            raise Unknown('norm order')
        v = self.arr(st, p['x'])
        s = self.reduce(st, 'sum', self.el(st, lambda x: mul(x, x), v),
                        p['axis'], np_style=True)
        return self.el(st, sqrt_, s)

    def np_polyfit(self, st, a, kw, node):
        p = self.params(st, a, kw, ['x', 'y', 'deg', 'rcond', 'full', 'w',
                                    'cov'])
        x, y = self.arr(st, p['x']), self.arr(st, p['y'])
        deg = cint(p['deg'])
        if deg is None:
            raise Unknown('polyfit degree')
        if p.get('full', FALSE) != FALSE or p.get('cov', FALSE) != FALSE:
            raise Unknown('polyfit options')
        w = p.get('w')
        segs = self.pair_segs([x, y] + ([self.arr(st, w)]
                                        if w is not None and w != NONE
                                        else []))
        key = self.multiset(segs)
        self.I.event(st, 'polyfit', node, x=x, y=y, deg=num_(deg))
        return self.fit_result(key, deg)

    def fit_result(self, key, deg):
        return Arr([num_(deg + 1)], lambda idx: mk(
            'polyfit', (key, deg, idx[0])))

    def pair_segs(self, arrs):
        """segments of tuples of corresponding elements"""
        from .interp import zip_segs, z_map
        if all(isinstance(x, Scalar) for x in arrs):
            i = fresh('i')
            n = mk('len', (arrs[0],), integer=True, lb=0)
            return [Map(i, n, [One(Tup([mk('item', (x, i))
                                        for x in arrs]))])]
        arrs = [x if isinstance(x, Arr) else self.promote(x) for x in arrs]
        try:
            return z_map(zip_segs([segs_of(x) for x in arrs]),
                         lambda *e: Tup(list(e)))
        except Unknown:
            pass
        gens = [k for k, x in enumerate(arrs) if x.gen is not None]
        if len(gens) == 1:
            g = gens[0]
            try:
                return self.aligned(segs_of(arrs[g]), lambda v, pos: Tup(
                    [v if k == g else x.row(pos)
                     for k, x in enumerate(arrs)]))
            except Unknown:
                pass
        i = fresh('i')
        return [Map(i, arrs[0].dims[0], [One(Tup(
            [x.row(i) for x in arrs]))])]

    def aligned(self, segs, f):
        """map the elements of unfiltered segments with their positions"""
        off = num_(0)
        out = []
        for s in norm_segs(segs):
            if isinstance(s, One):
                out.append(One(f(s.v, off)))
                off = add(off, num_(1))
            elif isinstance(s, Map) and all(isinstance(x, One)
                                            for x in s.segs):
                k = len(s.segs)
                out.append(Map(s.i, s.n, [
                    One(f(x.v, add(off, add(mul(s.i, num_(k)), num_(j)))))
                    for j, x in enumerate(s.segs)]))
                off = add(off, mul(s.n, num_(k)))
            else:
                raise Unknown('filtered list')
        return out

    def promote(self, x):
        if isinstance(x, Scalar):
            n = mk('len', (x,), integer=True, lb=0)
            return Arr([n], lambda idx: mk('item', (x, idx[0])))
        raise Unknown('promote')

    def multiset(self, segs, signed=False):
        """canonical form of a collection whose order does not matter; with
        signed=True an element and its negative count as the same"""
        out = []
        segs = norm_segs(segs)

        def w(segs, wrap_):
            for s in segs:
                if isinstance(s, One):
                    out.append(wrap_([s]))
                elif isinstance(s, Grd):
                    w(s.segs, lambda x, s=s: wrap_([Grd(s.cond, x)]))
                else:
                    w(s.segs, lambda x, s=s: wrap_([Map(s.i, s.n, x)]))
        w(norm_segs(segs), lambda x: x)
        rs = []
        for x in out:
            for y in norm_segs(x):
                r = sreify(y)
                if signed:
                    z = sreify(norm_segs(seg_map([y], self.neg_row))[0])
                    if str(z.fp) < str(r.fp):
                        r = z
                rs.append(r)
        rs = merge_guards(rs)
        rs.sort(key=lambda t: str(t.fp))
        return Struct('bag', tuple(rs))

    def np_poly1d(self, st, a, kw, node):
        return Poly1d(self.arr(st, a[0]))

    def np_polyval(self, st, a, kw, node):
        c = self.I.deref(st, a[0])
        if isinstance(c, Poly1d):
            c = c.coefs
        return self.polyval(st, self.arr(st, c), self.I.deref(st, a[1]))

    def polyval(self, st, coefs, x):
        coefs = self.arr(st, coefs)
        if isinstance(coefs, Scalar):
            return mk('polyval', (coefs, reify(self.deep(st, x))))
        n = coefs.dims[0]
        c = cint(n)

        def f(x):
            if c is not None:
                t = num_(0)
                for k in range(c):
                    t = add(mul(t, x), coefs.get([num_(k)]))
                return t
            k = fresh('k')
            return sum_(k, n, mul(coefs.get([k]), power(
                x, sub(sub(n, num_(1)), k))))
        return self.el(st, f, self.deep(st, x))

    def np_roots(self, st, a, kw, node):
        v = self.arr(st, a[0])
        key = reify(v)
        return opaque_arr('root', key, [mk('nroots', (key,), integer=True,
                                           lb=0)])

    def np_linalg__lstsq(self, st, a, kw, node):
        p = self.params(st, a, kw, ['a', 'b', 'rcond'])
        A, b = self.arr(st, p['a']), self.arr(st, p['b'])
        if isinstance(A, Scalar) or isinstance(b, Scalar):
            raise Unknown('lstsq of unknown')
        n = A.dims[1]
        segs = self.pair_segs([A, b])
        rows = seg_map(segs, self.norm_row)
        key = self.multiset(rows, signed=True)
        self.I.event(st, 'lstsq', node, rows=Lst(segs), n=n)
        sol = Arr([n], lambda idx: mk('lstsq', (key, idx[0])))
        return Tup([sol, unk('residuals'), unk('rank'), unk('sv')])

    def norm_row(self, e):
        row, rhs = e.items
        row = asarr(row)
        if isinstance(row, Arr) and row.gen is None and \
                cint(row.dims[0]) is not None:
            return Tup([row.get([num_(k)])
                        for k in range(cint(row.dims[0]))] + [rhs])
        return Tup([row, rhs])

    def neg_row(self, e):
        return Tup([neg(x) if isinstance(x, Scalar) else
                    Arr(x.dims, lambda idx, x=x: neg(x.get(idx)))
                    for x in e.items])

    def np_linalg__solve(self, st, a, kw, node):
        return self.np_linalg__lstsq(st, a, kw, node).items[0]

    # ------------------------------------------------------------ attributes
    def attribute(self, st, d, attr, b, node):
        d = self.I.deref(st, d)
        if isinstance(d, Arr):
            if attr == 'shape':
                return Tup(list(d.dims))
            if attr == 'ndim':
                return num_(d.ndim)
            if attr == 'size':
                return prod(d.dims)
            if attr == 'T':
                return self.transpose(st, d)
            if attr == 'real':
                return self.el(st, lambda x: mk('real', (x,)), d)
            if attr == 'dtype':
                return mk('dtype', (reify(d),))
            return Meth(b, attr)
        if isinstance(d, (Tup, Lst, DictV)):
            return Meth(b, attr)
        if isinstance(d, Poly1d):
            if attr in ('c', 'coef', 'coeffs', 'coefficients'):
                return d.coefs
        if isinstance(d, Scalar):
            if getattr(self.I, '_callee', None) is node:
                return Meth(b, attr)
            r = self.io.attribute(st, d, attr, node)
            if r is not None:
                return r
            at = the_atom(d) if isinstance(d, Rat) else None
            if at is not None and at.kind == 'optres' and attr == 'x':
                key, n = at.args
                return Arr([num_(n)], lambda idx: mk('opt', (key, idx[0])))
            return mk('attr', (d, attr))
        if isinstance(d, (Meth, Func, Part, Choice)):
            return Meth(b, attr)
        raise Unknown('attribute %s' % attr)

    # ------------------------------------------------------------ methods
    def call_method(self, st, m, args, kwargs, node):
        obj = m.obj
        d = self.I.simp(st, self.I.deref(st, obj))
        nm = m.name
        if isinstance(d, Choice):
            return self.I.split(
                st, d.cond,
                lambda s: self.call_method(s, Meth(d.a, nm), args,
                                           dict(kwargs), node),
                lambda s: self.call_method(s, Meth(d.b, nm), args,
                                           dict(kwargs), node))
        if isinstance(d, Arr):
            return self.arr_method(st, obj, d, nm, args, kwargs, node)
        if isinstance(d, (Lst, Tup)):
            return self.list_method(st, obj, d, nm, args, kwargs, node)
        if isinstance(d, DictV):
            return self.dict_method(st, obj, d, nm, args, kwargs, node)
        if isinstance(d, Scalar):
            return self.scalar_method(st, obj, d, nm, args, kwargs, node)
        raise Unknown('method %s' % nm)

    def arr_method(self, st, obj, d, nm, a, kw, node):
        if nm in ('sum', 'mean', 'max', 'min', 'std', 'any', 'all', 'prod',
                  'var'):
            return self.red(st, nm, [d] + list(a), kw)
        if nm in ('argmin', 'argmax'):
            return self.arg_ext(st, nm, [d] + list(a), dict(kw))
        if nm == 'argsort':
            return self.np_argsort(st, [d], {}, node)
        if nm in ('flatten', 'ravel'):
            return self.flatten(d)
        if nm == 'reshape':
            if len(a) > 1:
                dims = [to_num(x) for x in a]
            else:
                dims = self.shape(st, a[0])
            return self.reshape(st, d, dims)
        if nm == 'astype':
            t = self.typename(st, a[0] if a else kw.get('dtype'))
            return self.cast(st, d, t, node)
        if nm == 'copy':
            return Arr(d.dims, d.get, flat=d.flat, gen=d.gen)
        if nm == 'transpose':
            if not a:
                return self.transpose(st, d)
            return self.transpose(st, d, a[0] if len(a) == 1 else Tup(a))
        if nm == 'swapaxes':
            return self.np_swapaxes(st, [d] + list(a), {}, node)
        if nm == 'tolist':
            return self.I.new(st, self.I.pack(segs_of(d)))
        if nm == 'clip':
            p = self.params(st, a, kw, ['min', 'max'], min=NONE, max=NONE)
            return self.clip(st, d, p['min'], p['max'])
        if nm == 'round':
            return self.np_round(st, [d] + list(a), kw, node)
        if nm == 'dot':
            return self.matmul(st, d, self.arr(st, a[0]))
        if nm == 'item':
            if not a:
                return self.squeeze_scalar(d)
            return self.I.item(st, d, a[0])
        if nm == 'squeeze':
            return self.np_squeeze(st, [d], {}, node)
        if nm == 'nonzero':
            return self.nonzero(d)
        if nm == 'fill':
            v = self.deep(st, a[0])
            if isinstance(obj, Ref):
                st.heap[obj.id] = Arr(d.dims, lambda idx: v)
            return NONE
        if nm == 'sort':
            r = self.np_sort(st, [d], {}, node)
            if isinstance(obj, Ref):
                st.heap[obj.id] = r
            return NONE
        if nm == 'take':
            return self.np_take(st, [d] + list(a), kw, node)
        raise Unknown('array method ' + nm)

    def list_method(self, st, obj, d, nm, a, kw, node):
        if not isinstance(obj, Ref):
            if nm in ('append', 'extend', 'insert', 'sort', 'reverse',
                      'clear', 'remove', 'pop'):
                raise Unknown('mutation of a temporary list')
        if nm == 'append':
            self.I.event(st, 'append', node, ref=obj.id)
            self.I.list_append(st, obj, a[0])
            return NONE
        if nm == 'extend':
            self.I.list_extend(st, obj, a[0])
            return NONE
        if nm == 'insert':
            if cint(a[0]) == 0:
                st.heap[obj.id] = self.I.pack([One(a[1])] + segs_of(d)) \
                    if getattr(d, 'phi', None) is None else unk('insert')
                return NONE
            st.heap[obj.id] = unk('insert')
            return NONE
        if nm == 'copy':
            return self.I.new(st, d)
        if nm == 'pop':
            if isinstance(d, Tup) and d.items:
                k = cint(a[0]) if a else -1
                if k is not None:
                    it = list(d.items)
                    v = it.pop(k)
                    st.heap[obj.id] = Tup(it, True)
                    return v
            st.heap[obj.id] = unk('pop')
            return unk('pop')
        if nm == 'sort':
            st.heap[obj.id] = self.sorted_val(
                st, d, kw.get('key', NONE), kw.get('reverse', FALSE), node)
            return NONE
        if nm == 'reverse':
            if isinstance(d, Tup):
                st.heap[obj.id] = Tup(list(reversed(d.items)), True)
            else:
                st.heap[obj.id] = self.reverse(st, d)
            return NONE
        if nm == 'clear':
            st.heap[obj.id] = Tup([], True)
            return NONE
        if nm == 'index':
            return mk('index', (reify(self.deep(st, d)),
                                reify(self.deep(st, a[0]))), integer=True,
                      lb=0)
        if nm == 'count':
            return mk('count', (reify(self.deep(st, d)),
                                reify(self.deep(st, a[0]))), integer=True,
                      lb=0)
        if nm in ('remove',):
            st.heap[obj.id] = unk('remove')
            return NONE
        raise Unknown('list method ' + nm)

    def dict_method(self, st, obj, d, nm, a, kw, node):
        if nm == 'items':
            return Lst([One(Tup([Const(k) if not isinstance(k, Fraction)
                                 else num_(k), v]))
                        for k, v in d.items.items()] + list(d.rest))
        if nm == 'keys':
            return Lst(segs_of(d))
        if nm == 'values':
            return Lst([One(v) for v in d.items.values()] +
                       seg_map(d.rest, lambda p: p.items[1]))
        if nm == 'get':
            c = is_cst(a[0]) if isinstance(a[0], Scalar) else NOTC
            if c is not NOTC and not d.rest:
                if c in d.items:
                    return d.items[c]
                return a[1] if len(a) > 1 else NONE
            return mk('dictget', (reify(self.deep(st, d)),) + tuple(
                reify(self.deep(st, x)) for x in a))
        if nm == 'update' and isinstance(obj, Ref):
            x = self.I.deref(st, a[0]) if a else DictV(kw)
            if isinstance(x, DictV):
                it = dict(d.items)
                it.update(x.items)
                it.update(kw)
                st.heap[obj.id] = DictV(it, d.rest + x.rest)
                return NONE
        if nm == 'copy':
            return self.I.new(st, DictV(d.items, d.rest))
        raise Unknown('dict method ' + nm)

    def scalar_method(self, st, obj, d, nm, a, kw, node):
        r = self.io.method(st, obj, d, nm, a, kw, node)
        if r is not None:
            return r
        if nm in ('astype', 'copy', 'item', 'tolist') and not self.is_str(d):
            if nm == 'astype':
                t = self.typename(st, a[0] if a else kw.get('dtype'))
                if t in FLOAT_TYPES and t not in HALF:
                    return d
                return self.cast(st, d, t, node)
            at = the_atom(d) if isinstance(d, Rat) else None
            if nm in ('copy', 'item'):
                return d
            return mk('m:tolist', (d,))
        if nm in ('sum', 'mean', 'max', 'min', 'std', 'any', 'all'):
            return mk('r' + nm, (d,) + tuple(reify(self.deep(st, x))
                                             for x in a) + tuple(
                (k, reify(self.deep(st, v))) for k, v in sorted(kw.items())),
                boolean=nm in ('any', 'all'))
        key = tuple(reify(self.deep(st, x)) for x in a
                    if not isinstance(x, tuple)) + tuple(
            (k, reify(self.deep(st, v))) for k, v in sorted(kw.items()))
        return mk('m:' + nm, (d,) + key)

    # ------------------------------------------------------------ scalars
    def scalar_item(self, st, v, k):
        if isinstance(v, Const):
            if isinstance(v.v, str) and cint(k) is not None:
                return Const(v.v[cint(k)])
            raise Unknown('item of constant')
        if isinstance(v, Struct):
            raise Unknown('item of struct')
        if isinstance(v, Ite):
            return ite(pred_(v.pred), self.scalar_item(st, v.hi, k),
                       self.scalar_item(st, v.lo, k))
        at = the_atom(v) if isinstance(v, Rat) else None
        if at is not None and at.kind == 'optx':
            return mk('opt', (at.args[0], k))
        if at is None and isinstance(v, Rat) and not v.unk:
            raise Unknown('item of a number')
        return mk('item', (v, reify(k)))

    def scalar_subscript(self, st, v, e):
        sl = e.slice
        r = self.io.subscript(st, v, e)
        if r is not None:
            return r
        elts = sl.elts if isinstance(sl, ast.Tuple) else [sl]
        parts = []
        for x in elts:
            if isinstance(x, ast.Slice):
                parts.append(reify(self.I.slice_val(st, x)))
            elif isinstance(x, ast.Constant) and x.value is Ellipsis:
                parts.append('...')
            else:
                parts.append(reify(self.deep(st, self.I.ev(st, x))))
        if len(parts) == 1:
            if isinstance(parts[0], Scalar) and \
                    not isinstance(parts[0], Struct):
                return self.scalar_item(st, v, parts[0])
            return mk('item', (v, parts[0]))
        return mk('item', (v, Struct('idx', tuple(parts))))

    def iter_scalar(self, st, v):
        if v.unk or isinstance(v, (Const, Struct)):
            raise Unknown('iterate scalar')
        at = the_atom(v) if isinstance(v, Rat) else None
        if at is None:
            raise Unknown('iterate number')
        i = fresh('i')
        return [Map(i, mk('len', (v,), integer=True, lb=0),
                    [One(mk('item', (v, i)))])]

    def in_other(self, st, a, b):
        at = the_atom(b) if isinstance(b, Rat) else None
        if at is not None and at.kind == 'set':
            return mk('in', (reify(self.deep(st, a)), at.args[0]),
                      boolean=True)
        return mk('in', (reify(self.deep(st, a)), reify(self.deep(st, b))),
                  boolean=True)

    # ------------------------------------------------------------ strings
    def is_str(self, v):
        if isinstance(v, Const):
            return isinstance(v.v, str)
        if isinstance(v, Rat):
            a = the_atom(v)
            return a is not None and a.kind in (
                'cat', 'str', 'strfmt', 'fmt', 'repr', 'strsym')
        if isinstance(v, Ite):
            return self.is_str(v.hi) and self.is_str(v.lo)
        return False

    def is_path(self, v):
        return self.io.is_path(v)

    def path_join(self, a, b):
        return self.io.path_join(a, b)

    def to_str(self, st, v):
        v = self.deep(st, v)
        if isinstance(v, Const) and isinstance(v.v, str):
            return v
        if self.is_str(v):
            return v
        if isinstance(v, Rat):
            c = v.const()
            if c is not None and c.denominator == 1:
                return Const(str(int(c)))
        if isinstance(v, Ite):
            return ite(pred_(v.pred), self.to_str(st, v.hi),
                       self.to_str(st, v.lo))
        return of_atom(atom('str', (reify(v),)))

    def cat(self, parts):
        for k, p in enumerate(parts):
            if isinstance(p, Ite):
                a, b = list(parts), list(parts)
                a[k], b[k] = p.hi, p.lo
                return ite(pred_(p.pred), self.cat(a), self.cat(b))
        out = []
        for p in parts:
            if not isinstance(p, Scalar):
                raise Unknown('concatenation')
            at = the_atom(p) if isinstance(p, Rat) else None
            for q in (at.args if at is not None and at.kind == 'cat'
                      else (p,)):
                if isinstance(q, Const) and q.v == '':
                    continue
                if out and isinstance(q, Const) and \
                        isinstance(out[-1], Const):
                    out[-1] = Const(out[-1].v + q.v)
                else:
                    out.append(q)
        if not out:
            return Const('')
        if len(out) == 1 and self.is_str(out[0]):
            return out[0]
        return of_atom(atom('cat', tuple(out)))

    # ------------------------------------------------------------ sampling
    def sample(self, st, img, y, x, kind, opts, node):
        """values of img at fractional positions (y, x) given in the frame
        of img; recorded in the frame of the array img is a window of"""
        base, win = img, None
        oy = ox = num_(0)
        keyarr = img
        dims = img.dims
        if img.view is not None:
            b, specs, _ = img.view
            rng = [s for s in specs if s[0] == 'r']
            if len(rng) == 2:
                fixed = specs

                def get(idx, b=b, specs=specs):
                    it = iter(idx)
                    return b.get([s[1] if s[0] == 'i' else next(it)
                                  for s in specs])
                bd = [b.dims[k] for k, s in enumerate(specs)
                      if s[0] == 'r']
                keyarr = Arr(bd, get)
                oy, ox = rng[0][1], rng[1][1]
                win = rng
                dims = bd
        ps = [fresh('y'), fresh('x')]
        key = lam(ps, dims, keyarr.get(ps))
        self.I.event(st, 'sample', node, image=keyarr, dims=list(dims),
                     y=y, x=x, oy=oy, ox=ox,
                     window=None if win is None else
                     [Tup([r[1], r[2]]) for r in win], opts=dict(opts))
        ok = tuple((k, reify(v)) for k, v in sorted(opts.items()))

        def f(yy, xx):
            return mk('sample', (kind, key, add(yy, oy), add(xx, ox), ok))
        return self.el(st, f, y, x)


class _S0:
    pc = TRUE
    env = {}
    heap = {}


State0 = _S0()


def split_free(r, *names):
    """(c, rest) with r = c + rest and c free of the names"""
    one = {ONE_M: Fraction(1)}
    if r.den != one:
        if any(n in T.Atom.by_id[i].syms for m in r.den for i, _ in m
               for n in names):
            return num_(0), r
    free = {m: c for m, c in r.num.items()
            if not any(n in Atom.by_id[i].syms for i, _ in m
                       for n in names)}
    rest = {m: c for m, c in r.num.items() if m not in free}
    if not rest or not free:
        return num_(0), r
    return T.rat(free, r.den), T.rat(rest, r.den)


def positive_scale(r, *names):
    """a positive factor k, free of the names, with r = k * simpler"""
    if not r.num:
        return num_(1)
    m = min([x for x in r.num], key=m_order)
    k = num_(abs(r.num[m]))
    return k
