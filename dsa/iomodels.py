"""input/output and other library models (filled in below)"""
from .values import *
from .terms import *


class IOModels:
    def __init__(self, m):
        self.m = m

    def call_ext(self, st, name, args, kwargs, node):
        f = TABLE.get(name)
        if f is not None:
            return f(self, st, name, list(args), dict(kwargs), node)
        if name.startswith('matplotlib.'):
            return self.figure(st, name.split('.')[-1], args, kwargs, node)
        return None

    def figure(self, st, nm, args, kwargs, node):
        """drawing is recorded with its arguments"""
        deep = self.m.deep
        if any(isinstance(x, tuple) for x in args) or '**' in kwargs:
            self.m.I.event(st, 'draw', node, name=nm, args=None, kwargs={})
        else:
            self.m.I.event(st, 'draw', node, name=nm,
                           args=[deep(st, x) for x in args],
                           kwargs={k: deep(st, x)
                                   for k, x in kwargs.items()})
        self.m.I.next += 1
        one = of_atom(atom('figobj', (nm, self.m.I.next)))
        if nm == 'subplots':
            return Tup([one, of_atom(atom('figobj', (
                'axes', self.m.I.next)))])
        return one

    def subscript_ext(self, st, ext, e):
        return None

    def subscript(self, st, v, e):
        return None

    def attribute(self, st, d, attr, node):
        return None

    def method(self, st, obj, d, nm, a, kw, node):
        at = the_atom(d) if isinstance(d, Rat) else None
        if at is not None and at.kind == 'cam':
            return self.camera(st, d, at, nm, a, node)
        if at is not None and at.kind == 'figobj':
            return self.figure(st, nm, a, kw, node)
        return None

    def camera(self, st, d, at, nm, a, node):
        name, nd = at.args
        if nm == 'get':
            return cam_get(name, reify(self.m.deep(st, a[0])).v.split(
                '.')[-1])
        if nm == 'read':
            self.m.I.event(st, 'camread', node)
            self.m.I.next += 1
            ok = pred_(atom('camok', (name, self.m.I.next), boolean=True))
            return Tup([ok, cam_frame(name, nd)])
        if nm == 'release':
            self.m.I.event(st, 'release', node, obj=d)
            return NONE
        if nm == 'isOpened':
            return pred_(atom('camopen', (name,), boolean=True))
        return None

    def is_path(self, v):
        return False

    def path_join(self, a, b):
        raise Unknown('path')


def cam_get(name, prop):
    return of_atom(atom('camget', (name, prop), integer=True, lb=1))


def cam_frame(name, nd):
    from .models import mk
    dims = [cam_get(name, 'CAP_PROP_FRAME_HEIGHT'),
            cam_get(name, 'CAP_PROP_FRAME_WIDTH')] + [num_(3)] * (nd - 2)
    a = Arr(dims, lambda idx: mk('elem', (name,) + tuple(idx)))
    a.root = name
    return a


TABLE = {}


def reg(*names):
    def d(f):
        for n in names:
            TABLE[n] = f
        return f
    return d


# ------------------------------------------------------------ resampling
@reg('scipy.ndimage.map_coordinates')
def map_coordinates(self, st, name, a, kw, node):
    m = self.m
    p = m.params(st, a, kw, ['input', 'coordinates', 'output', 'order',
                             'mode', 'cval', 'prefilter'],
                 order=num_(3), mode=Const('constant'), cval=num_(0),
                 prefilter=TRUE, output=NONE)
    img = m.arr(st, p['input'])
    d = m.I.simp(st, m.I.deref(st, p['coordinates']))
    d = m.deep(st, d)
    opts = {'order': p['order'], 'mode': p['mode']}
    for k in ('cval', 'prefilter'):
        if k in p and p[k] not in (num_(0), TRUE):
            opts[k] = p[k]

    def go(d):
        if isinstance(d, Choice):
            return vite(d.cond, go(d.a), go(d.b))
        if isinstance(d, Tup):
            rows = [m.arr(st, x) for x in d.items]
        elif isinstance(d, Arr):
            if d.rows is not None:
                rows = d.rows
            else:
                c = is_cst(d.dims[0])
                n = int(c) if c is not NOTC else img.ndim
                rows = [d.row(num_(k)) for k in range(n)]
        elif isinstance(d, Scalar):
            if not isinstance(img, Arr):
                raise Unknown('map_coordinates')
            rows = None
        else:
            raise Unknown('coordinates')
        if not isinstance(img, Arr):
            raise Unknown('image')
        if rows is None:
            m.I.event(st, 'sample_at', node, image=img, coords=d,
                      opts=dict(opts))
            key = reify(img)
            return mk_('sample_at', key, d, opts)
        if len(rows) != 2 or img.ndim != 2:
            if len(rows) == img.ndim:
                ok = tuple((k, reify(v)) for k, v in sorted(opts.items()))
                key = reify(img)
                from .models import mk
                return m.el(st, lambda *c: mk('samplen', (key,) + c + (ok,)),
                            *rows)
            raise Unknown('coordinate count')
        return m.sample(st, img, rows[0], rows[1], 'spline', opts, node)
    return go(d)


def mk_(kind, key, d, opts):
    from .models import mk
    ok = tuple((k, reify(v)) for k, v in sorted(opts.items()))
    n = mk('npts', (d,), integer=True, lb=0)
    return Arr([n], lambda idx: mk(kind, (key, d, idx[0], ok)))


@reg('cv2.remap')
def cv2_remap(self, st, name, a, kw, node):
    m = self.m
    p = m.params(st, a, kw, ['src', 'map1', 'map2', 'interpolation', 'dst',
                             'borderMode', 'borderValue'],
                 borderMode=NONE)
    img = m.arr(st, p['src'])
    opts = {'interpolation': reify(m.deep(st, p['interpolation'])),
            'borderMode': reify(m.deep(st, p['borderMode']))}
    x, y = m.arr(st, p['map1']), m.arr(st, p['map2'])
    if isinstance(img, Arr) and img.ndim == 2:
        return m.sample(st, img, y, x, 'remap', opts, node)
    if isinstance(img, Arr) and img.ndim == 3:
        c = fresh('c')
        plane = Arr(img.dims[:2], lambda idx: img.get(idx + [c]))
        r = m.sample(st, plane, y, x, 'remap', opts, node)
        return Arr(r.dims + [img.dims[2]], lambda idx: subst(
            r.get(idx[:2]), {sym_name(c): idx[2]}))
    raise Unknown('remap')


# ------------------------------------------------------------ optimisation
def opt_key(self, st, name, a, kw, node, names):
    m = self.m
    p = m.params(st, a, kw, names)
    x0 = m.deep(st, p['x0'])
    extra = p.get('args', Tup([]))
    extra = m.I.deref(st, extra)
    if isinstance(extra, Scalar) and extra == NONE:
        extra = Tup([])
    ex = [('*', extra)] if isinstance(extra, (Tup, Lst)) else [extra]
    u = fresh('u', integer=False, lb=None)
    if isinstance(x0, Scalar):
        arg = u
        dims = []
        xs = [u]
    else:
        x0 = asarr(x0)
        from .models import cint, mk
        n = cint(x0.dims[0])
        if n is None:
            raise Unknown('optimiser dimension')
        us = [fresh('u', integer=False, lb=None) for _ in range(n)]
        arg = m.I.new(st, tup_arr(Tup(us)))
        xs = us
        if n == 1:
            arg = us[0]
    n0 = len(m.I.events)
    v = m.deep(st, m.I.call(st, p['fun'], [arg] + ex, {}, node))
    del m.I.events[n0:]
    v = asarr(v) if isinstance(v, (Tup, Lst)) else v
    if isinstance(v, Arr) and is_cst(v.dims[0]) == 1 and v.ndim == 1:
        v = v.get([num_(0)])
    body = reify(v)
    f = lam(xs, [None] * len(xs), body)
    opts = tuple((k, reify(m.deep(st, w))) for k, w in sorted(p.items())
                 if k not in ('fun', 'x0', 'args'))
    key = Struct(name, (f, reify(x0), opts))
    m.I.event(st, 'optimise', node, name=name, objective=f, x0=x0)
    return key, len(xs)


@reg('scipy.optimize.minimize')
def minimize(self, st, name, a, kw, node):
    key, n = opt_key(self, st, 'minimize', a, kw, node,
                     ['fun', 'x0', 'args', 'method', 'jac', 'hess', 'hessp',
                      'bounds', 'constraints', 'tol', 'callback', 'options'])
    return of_atom(atom('optres', (key, n)))


@reg('scipy.optimize.fsolve')
def fsolve(self, st, name, a, kw, node):
    from .models import mk
    key, n = opt_key(self, st, 'fsolve', a, kw, node,
                     ['fun', 'x0', 'args', 'fprime', 'full_output',
                      'col_deriv', 'xtol', 'maxfev'])
    return Arr([num_(n)], lambda idx: mk('opt', (key, idx[0])))


# ------------------------------------------------------------ display
@reg('cv2.imshow')
def cv2_imshow(self, st, name, a, kw, node):
    self.m.I.event(st, 'imshow', node, image=self.m.deep(st, a[1]))
    return NONE


@reg('cv2.waitKey')
def cv2_waitkey(self, st, name, a, kw, node):
    self.m.I.event(st, 'waitkey', node)
    self.m.I.next += 1
    return of_atom(atom('key', (self.m.I.next,), integer=True))


@reg('cv2.destroyAllWindows', 'cv2.destroyWindow')
def cv2_destroy(self, st, name, a, kw, node):
    self.m.I.event(st, 'destroy', node)
    return NONE
