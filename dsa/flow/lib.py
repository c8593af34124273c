"""what library calls, methods and operators do to abstract values"""
import ast
from .vals import *

BUILTINS = {'len', 'range', 'enumerate', 'zip', 'map', 'filter', 'sorted',
            'reversed', 'list', 'tuple', 'set', 'dict', 'frozenset', 'int',
            'float', 'bool', 'str', 'abs', 'min', 'max', 'sum', 'round',
            'any', 'all', 'isinstance', 'print', 'type', 'getattr',
            'setattr', 'delattr', 'hasattr', 'iter', 'next', 'open', 'id',
            'hash', 'input', 'globals', 'locals', 'vars', 'exec', 'eval',
            'slice', 'divmod', 'pow', 'complex', 'repr', 'format', 'super',
            'object', 'callable', 'chr', 'ord', '__import__', 'bytes',
            'bytearray', 'memoryview', 'property', 'staticmethod', 'issubclass',
            'dir', 'bin', 'hex', 'oct', 'ascii', 'breakpoint', 'compile'}


def builtin(name):
    if name in ('True', 'False', 'None'):
        return const({'True': True, 'False': False, 'None': None}[name])
    return V('func' if name in BUILTINS else 'any',
             fun=('lib', 'builtins.' + name))


def dkey(data):
    if data is None:
        return None
    return tuple((k, v) for k, v in sorted(data.items())
                 if isinstance(v, (str, int, bool, type(None))))


def stable(s, depth=0):
    """expression over parameters and constants only"""
    if s is None or depth > 8:
        return False
    if s[0] in ('param', 'const', 'lib'):
        return True
    if s[0] == 'phi':
        return False
    return all(stable(x, depth + 1) for x in s[1:] if isinstance(x, tuple)
               and x and isinstance(x[0], str)) and \
        all(stable(y, depth + 1) for x in s[1:] if isinstance(x, tuple) and
            x and isinstance(x[0], tuple) for y in x)


def decide(s):
    """truth of an expression of constants"""
    if s[0] == 'const':
        return bool(s[1])
    if s[0] == 'cmp' and s[2] is not None and s[3] is not None and \
            s[2][0] == 'const' and s[3][0] == 'const':
        a, b = s[2][1], s[3][1]
        try:
            return {'Eq': lambda: a == b, 'Is': lambda: a is b or
                    (type(a) == type(b) and a == b),
                    'Lt': lambda: a < b, 'LtE': lambda: a <= b,
                    'Gt': lambda: a > b, 'GtE': lambda: a >= b,
                    }.get(s[1], lambda: None)()
        except TypeError:
            return None
    return None


def notnone(s):
    a = [x for x in alts(s) if x != ('const', None)]
    if s is None:
        return None
    if len(a) == 1:
        return a[0]
    return ('phi', frozenset(a)) if a else None


def fold(op, a, b):
    if a[0] == 'const' and b[0] == 'const' and \
            isinstance(a[1], (int, float)) and isinstance(b[1], (int, float)):
        try:
            x, y = a[1], b[1]
            r = {'Add': lambda: x + y, 'Sub': lambda: x - y,
                 'Mult': lambda: x * y, 'Div': lambda: x / y,
                 'FloorDiv': lambda: x // y, 'Mod': lambda: x % y,
                 'Pow': lambda: x ** y}.get(op)
            if r is not None:
                return ('const', r())
        except (ArithmeticError, ValueError):
            return None
    if op == 'Mult':
        if a in (('const', -1), ('const', -1.0)):
            return neg(b)
        if b in (('const', -1), ('const', -1.0)):
            return neg(a)
        if a in (('const', 1), ('const', 1.0)):
            return b
        if b in (('const', 1), ('const', 1.0)):
            return a
    if op in ('Add', 'Sub') and b in (('const', 0), ('const', 0.0)):
        return a
    if op == 'Add' and a in (('const', 0), ('const', 0.0)):
        return b
    if op == 'Sub' and a in (('const', 0), ('const', 0.0)):
        return neg(b)
    if depth(a) + depth(b) > 12:
        return None
    return ('bin', op, a, b)


def depth(s):
    if not isinstance(s, tuple):
        return 0
    return 1 + max([depth(x) for x in s if isinstance(x, tuple)] or [0])


def isfloat(v):
    return v.dt == 'f' or (v.sym is not None and v.sym[0] == 'const' and
                           isinstance(v.sym[1], float) and
                           v.sym[1] != int(v.sym[1] if v.sym[1] ==
                                           v.sym[1] and
                                           abs(v.sym[1]) < 1e15 else 0))


def bindt(op, a, b):
    if op == 'Div' or isfloat(a) or isfloat(b):
        return 'f'
    if op == 'FloorDiv':
        return None
    if a.dt == 'inh' and b.dt == 'inh':
        return 'inh'
    if a.dt == 'inh' and b.sym is not None and b.sym[0] == 'const':
        return 'inh'
    if b.dt == 'inh' and a.sym is not None and a.sym[0] == 'const':
        return 'inh'
    return None


def altered(v, node, how, other=None, op=None):
    p = v.prov
    if p is None:
        return None
    if p[0] == 'alt':
        return p
    if other is not None and op is not None and other.sym is not None and \
            other.sym[0] == 'const':
        c = other.sym[1]
        if (op in ('Add', 'Sub') and c == 0) or \
                (op in ('Mult', 'Div') and c == 1):
            return p
    if p[0] == 'rows':
        return ('alt', p[1], '%s at line %s' %
                (how, getattr(node, 'lineno', '?')))
    if p[0] == 'col':
        return ('alt', p[1], '%s at line %s' %
                (how, getattr(node, 'lineno', '?')))
    return None


def stackprov(vs):
    """rows built by putting columns side by side"""
    ps = [None if v is None else v.prov for v in vs]
    for p in ps:
        if p is not None and p[0] == 'alt' and len(vs) == 2:
            return p
    if len(ps) == 2 and all(p is not None and p[0] == 'col' for p in ps) and \
            ps[0][1:3] == ps[1][1:3]:
        if (ps[0][3], ps[1][3]) == (0, 1):
            return ('rows', ps[0][1], ps[0][2])
        if (ps[0][3], ps[1][3]) == (1, 0):
            return addchain(('rows', ps[0][1], ps[0][2]), 'flip')
        return ('alt', ps[0][1], 'one coordinate used twice')
    return None


def const_slice(s, n):
    if s is None or s[0] != 'slice':
        return None
    r = []
    for x in s[1]:
        if x == ('none',):
            r.append(None)
        elif x is not None and x[0] == 'const':
            r.append(x[1])
        else:
            return None
    return slice(*r)


FULL = ('slice', (('none',), ('none',), ('none',)))
REV = ('slice', (('none',), ('none',), ('const', -1)))


def isint(c):
    return c.only('num', 'bool')


def array_index(fl, v, comps, d, node):
    """v[comps] for an array v"""
    d = d | fl.alldeps(v)
    adv = any(c.may('arr', 'list', 'set') or (c.only('tuple')) for c in comps)
    unknown = any(c.may('any') and not c.may('arr') for c in comps)
    ell = any(c.sym == ('const', Ellipsis) for c in comps)
    newax = sum(1 for c in comps if c.only('none') or
                (c.fun is not None and c.fun[0] == 'lib' and
                 c.fun[1].endswith('newaxis')))
    used = sum(1 for c in comps if isint(c))
    slices = sum(1 for c in comps if c.may('slice'))
    p = v.prov
    np_ = None
    if p is not None and p[0] == 'alt':
        np_ = p
    elif p is not None and p[0] == 'rows':
        isrow = v.nd == 1
        c0 = comps[0]
        if len(comps) == 1:
            if isrow:
                if isint(c0) and c0.sym is not None and c0.sym[0] == 'const' \
                        and c0.sym[1] in (0, 1, -1, -2):
                    np_ = ('col',) + p[1:] + (c0.sym[1] % 2,)
                elif c0.sym == REV:
                    np_ = addchain(p, 'flip')
                elif c0.sym == FULL:
                    np_ = p
            elif c0.sym == FULL or not c0.may('slice'):
                np_ = p
            else:
                np_ = p
        elif len(comps) == 2 and not isrow:
            c1 = comps[1]
            if c1.sym == FULL or (c1.may('slice') and c1.sym is not None and
                                  c1.sym[1] in ((('none',), ('const', 2),
                                                 ('none',)),
                                                (('const', 0), ('const', 2),
                                                 ('none',)))):
                np_ = p
            elif c1.sym == REV:
                np_ = addchain(p, 'flip')
            elif isint(c1) and c1.sym is not None and c1.sym[0] == 'const' \
                    and c1.sym[1] in (0, 1, -1, -2):
                np_ = ('col',) + p[1:] + (c1.sym[1] % 2,)
            elif c1.only('list', 'arr', 'tuple'):
                np_ = colperm(fl, c1, p)
    elif p is not None and p[0] == 'col':
        np_ = p if len(comps) == 1 and not isint(comps[0]) else \
            (p if isint(comps[0]) else None)
    nd = v.nd
    if ell or unknown or nd is None:
        rnd = None
    elif adv:
        na = [c for c in comps if c.may('arr', 'list', 'tuple')]
        a = na[0]
        boolmask = False
        k = a.nd if a.nd is not None else (1 if a.may('list') else None)
        if len(comps) == 1 and k is not None:
            # boolean masks of the full rank flatten; treat as unknown
            rnd = nd if k == 1 else None
        elif k is not None:
            rnd = nd - len(comps) + max(
                (c.nd or 1) for c in na) + slices + newax
        else:
            rnd = None
        if rnd is not None and rnd < 0:
            rnd = None
    else:
        rnd = nd - used + newax
        if rnd < 0:
            rnd = None
    if adv:
        return V('arr', rnd, deps=d, narrow=v.narrow, dt=v.dt, prov=np_)
    if rnd == 0:
        return V('num', deps=d, narrow=v.narrow, dt=v.dt, prov=np_)
    if unknown:
        return V(ANY if not slices else 'arr', None, deps=d,
                 narrow=v.narrow, dt=v.dt, prov=np_)
    k = 'arr' if (rnd is not None or slices) else ANY
    if v.only('num'):
        k, rnd = ANY, None
    return V(k, rnd, v.objs, deps=d, narrow=v.narrow, dt=v.dt, prov=np_)


def colperm(fl, c, p):
    for o in c.objs:
        cell = fl.heap.get(o)
        if cell is None or cell.site is None:
            return None
        n = cell.site[0]
        if isinstance(n, (ast.List, ast.Tuple)) and len(n.elts) == 2 and \
                all(isinstance(x, ast.Constant) for x in n.elts):
            q = tuple(x.value % 2 for x in n.elts)
            return p if q == (0, 1) else addchain(p, 'flip') if q == (1, 0) \
                else ('alt', p[1], 'one coordinate used twice')
    return None


def coverage(fl, cell, comps, t):
    """'full', 'loop' (index made of enclosing loop variables), 'fancy',
    'part' """
    pre = len(cell.marks)
    cond = any(m[0] == 'if' for m in fl.marks[pre:])
    if all(c.sym in (FULL, ('const', Ellipsis)) for c in comps):
        return 'cond' if cond else 'full'
    names = set()
    for m in fl.marks:
        if m[0] == 'loop' and isinstance(m[1], ast.For):
            for n in ast.walk(m[1].target):
                if isinstance(n, ast.Name):
                    names.add(n.id)
    idx = t.slice.elts if isinstance(t.slice, ast.Tuple) else [t.slice]
    okc = True
    for e, c in zip(idx, comps):
        if isinstance(e, ast.Name) and e.id in names and not c.may('arr'):
            continue
        if isinstance(e, ast.Constant) or c.sym == FULL:
            continue
        okc = False
    if okc and not cond:
        return 'loop'
    if cond:
        return 'cond'
    if any(c.may('arr', 'list') for c in comps):
        return 'fancy'
    return 'part'


# ------------------------------------------------------------ library calls
VIEWS = {'asarray', 'asanyarray', 'ascontiguousarray', 'asfortranarray',
         'atleast_1d', 'atleast_2d', 'atleast_3d', 'reshape', 'ravel',
         'squeeze', 'expand_dims', 'transpose', 'swapaxes', 'moveaxis',
         'rollaxis', 'fliplr', 'flipud', 'flip', 'rot90', 'broadcast_to',
         'real', 'imag', 'diagonal', 'require', 'asfarray', 'trim_zeros',
         'asmatrix', 'as_strided', 'view_as_windows', 'view_as_blocks',
         'img_as_float', 'permute_dims'}
REDUCE = {'mean', 'max', 'min', 'amax', 'amin', 'sum', 'median', 'std', 'var',
          'percentile', 'quantile', 'argmin', 'argmax', 'any', 'all', 'prod',
          'ptp', 'nanmean', 'nanmax', 'nanmin', 'nansum', 'average',
          'count_nonzero', 'nanmedian', 'nanstd', 'norm', 'vdot', 'trapz'}
ELEMENT = {'sqrt', 'exp', 'log', 'sin', 'cos', 'tan', 'arctan', 'arctan2',
           'abs', 'absolute', 'fabs', 'sign', 'power', 'add', 'subtract',
           'multiply', 'divide', 'true_divide', 'floor_divide', 'negative',
           'square', 'floor', 'ceil', 'round', 'rint', 'around', 'clip',
           'minimum', 'maximum', 'where', 'deg2rad', 'rad2deg', 'radians',
           'degrees', 'mod', 'hypot', 'isnan', 'isfinite', 'logical_and',
           'logical_or', 'logical_not', 'logical_xor', 'greater', 'less',
           'greater_equal', 'less_equal', 'equal', 'not_equal', 'float64',
           'float32', 'float16', 'int8', 'int16', 'int32', 'int64', 'uint8',
           'uint16', 'uint32', 'uint64', 'intp', 'double', 'single', 'half',
           'short', 'byte', 'ubyte', 'ushort', 'nan_to_num', 'real_if_close',
           'reciprocal', 'log10', 'log2', 'sort', 'cumsum', 'copy', 'conj',
           'fix', 'trunc', 'bitwise_and', 'bitwise_or', 'invert', 'isclose',
           'median_filter', 'gaussian_filter', 'uniform_filter',
           'gaussian_filter1d', 'clear_border', 'opening', 'closing',
           'binary_fill_holes', 'binary_dilation', 'binary_erosion',
           'binary_opening', 'grey_opening', 'roll', 'zoom', 'rotate',
           'heaviside', 'float_power', 'fmin', 'fmax', 'remainder', 'tile',
           'nan', 'float_', 'cbrt', 'sinh', 'cosh', 'tanh', 'arcsin',
           'arccos', 'gradient', 'interp', 'argsort', 'unwrap', 'flatten'}
FLOATFN = {'sqrt', 'exp', 'log', 'sin', 'cos', 'tan', 'arctan', 'arctan2',
           'divide', 'true_divide', 'mean', 'median', 'std', 'var', 'hypot',
           'deg2rad', 'rad2deg', 'radians', 'degrees', 'float64', 'float32',
           'polyfit', 'lstsq', 'linspace', 'percentile', 'quantile',
           'average', 'float', 'log10', 'double', 'poly1d', 'polyval',
           'interp', 'cbrt'}
NARROW = {'int8', 'int16', 'uint8', 'uint16', 'float16', 'half', 'short',
          'byte', 'ubyte', 'ushort'}
WIDE = {'float64', 'float32', 'int32', 'int64', 'uint32', 'uint64', 'intp',
        'double', 'single', 'float', 'int', 'float_', 'int_', 'longdouble'}
CASTS = NARROW | WIDE
PLUMB = {'clip', 'minimum', 'maximum', 'add', 'subtract', 'multiply',
         'negative', 'abs', 'absolute', 'where', 'sort', 'copy', 'asarray',
         'array', 'vstack', 'hstack', 'concatenate', 'stack', 'append',
         'reshape', 'ravel', 'unique', 'delete', 'insert', 'max', 'min',
         'amax', 'amin', 'int32', 'int64', 'intp', 'int', 'float64',
         'float32', 'float', 'list', 'tuple', 'sorted', 'round', 'rint',
         'floor', 'ceil', 'flatten', 'fliplr', 'flipud', 'atleast_1d',
         'column_stack', 'ascontiguousarray', 'squeeze', 'abs', 'sum',
         'median', 'mean', 'reversed', 'flip', 'take', 'repeat', 'tile',
         'meshgrid', 'square', 'around'}
MUTATORS = {'put', 'place', 'putmask', 'copyto', 'fill_diagonal',
            'put_along_axis', 'shuffle', 'heappush', 'heappop', 'heapify',
            'insort', 'setattr', 'delattr', 'fillPoly', 'circle_inplace'}
INPLACE_KW = {'overwrite_x', 'overwrite_a', 'overwrite_b', 'overwrite_input',
              'overwrite_data', 'inplace', 'in_place'}
SCALARS = {'len', 'int', 'float', 'bool', 'abs', 'min', 'max', 'sum', 'round',
           'any', 'all', 'isinstance', 'pow', 'hash', 'id', 'ord', 'complex',
           'isscalar', 'ndim', 'size', 'iscomplexobj', 'isrealobj',
           'hasattr', 'callable', 'array_equal', 'allclose', 'floor', 'ceil',
           'sqrt', 'hypot', 'atan', 'degrees', 'radians', 'gcd'}


def dtype_of(v):
    """'narrow' name / 'f' / 'inh' / None of a dtype argument"""
    if v is None:
        return None
    s = v.sym
    n = None
    if v.fun is not None and v.fun[0] == 'lib':
        n = v.fun[1].split('.')[-1]
    elif s is not None and s[0] == 'const' and isinstance(s[1], str):
        n = {'i2': 'int16', 'i1': 'int8', 'u1': 'uint8', 'u2': 'uint16',
             'f2': 'float16', 'h': 'int16', 'b': 'int8', 'B': 'uint8',
             'H': 'uint16', 'e': 'float16', 'f': 'float32', 'd': 'float64',
             'f4': 'float32', 'f8': 'float64', 'i': 'int32', 'l': 'int64',
             'i4': 'int32', 'i8': 'int64'}.get(s[1].lstrip('<>=|'), s[1])
    elif s is not None and s[0] == 'dtype':
        return 'inh' if s[1] == 'inh' else 'keep'
    if n is None:
        return None
    if n in NARROW:
        return n
    if n in ('float64', 'float32', 'float', 'double', 'single', 'float_'):
        return 'f'
    return 'keep'


def call(fl, name, args, kwargs, node, env, star, dstar):
    short = name.split('.')[-1]
    base = name.split('.')[0]
    allv = list(args) + list(kwargs.values()) + \
        [x for x in (star, dstar) if x is not None]
    d = frozenset()
    for v in allv:
        d = d | fl.alldeps(v)
    named = {str(i): v for i, v in enumerate(args)}
    named.update(kwargs)
    fl.event('lib', node, {'name': name, 'args': named,
                           'open': star is not None or dstar is not None}, d)
    # functions handed to the library are called by it
    for i, v in enumerate(allv):
        if v.fun is not None and v.fun[0] in ('pkg', 'clo', 'partial') and \
                short not in ('map', 'filter', 'sorted', 'partial', 'reduce',
                              'min', 'max', 'sort', 'wraps'):
            callback(fl, v, name, args, kwargs, d, node, env)
    # ---- in-place
    if short in MUTATORS and base in ('numpy', 'random', 'heapq', 'bisect',
                                      'builtins') and args:
        fl.mutate(args[0], node, name + '()')
        for o in args[0].objs:
            c = fl.cell(o)
            c.deps = c.deps | d | fl.control()
            c.stores.append((node, 'full', V()))
        return const(None)
    if short == 'at' and base == 'numpy' and args:
        fl.mutate(args[0], node, name + '()')
        for o in args[0].objs:
            c = fl.cell(o)
            c.deps = c.deps | d | fl.control()
        return const(None)
    for k in ('out', 'output', 'dst'):
        if k in kwargs:
            outinto(fl, kwargs[k], node, '%s(%s=...)' % (short, k), d, name)
    if base == 'numpy' and short in ELEMENT:
        npos = 2 if short in ('add', 'subtract', 'multiply', 'divide',
                              'power', 'minimum', 'maximum', 'true_divide',
                              'arctan2', 'floor_divide', 'mod', 'hypot',
                              'logical_and', 'logical_or', 'greater', 'less',
                              'equal', 'round', 'around') else \
            3 if short in ('clip',) else 1 if short in (
                'sqrt', 'exp', 'log', 'sin', 'cos', 'tan', 'arctan', 'abs',
                'absolute', 'negative', 'square', 'floor', 'ceil', 'rint',
                'sign', 'fabs', 'reciprocal', 'deg2rad', 'rad2deg') else None
        if npos is not None and len(args) > npos:
            outinto(fl, args[npos], node, short + '(..., out)', d, name)
    for k in INPLACE_KW:
        if k in kwargs and args and not (
                kwargs[k].sym is not None and kwargs[k].sym[0] == 'const' and
                not kwargs[k].sym[1]):
            fl.mutate(args[0], node, '%s(%s=True)' % (short, k))
    if 'copy' in kwargs and kwargs['copy'].sym == ('const', False) and \
            short == 'nan_to_num' and args:
        fl.mutate(args[0], node, 'nan_to_num(copy=False)')
    h = HANDLERS.get(name) or HANDLERS.get(
        ('np.' if base in ('numpy', 'scipy', 'skimage', 'math') else
         base + '.') + short)
    if h is not None:
        r = h(fl, args, kwargs, node, env, d, star)
        if r is not None:
            return r
    a0 = args[0] if args else (kwargs.get('a') or kwargs.get('x') or
                               kwargs.get('arr') or kwargs.get('object'))
    if base in ('numpy', 'scipy', 'skimage', 'cv2', 'math', 'builtins'):
        r = generic(fl, short, base, a0, args, kwargs, node, d)
        if r is not None:
            return r
    return V(deps=d)


def outinto(fl, v, node, how, d, name):
    if v.only('none', 'str', 'func', 'mod', 'num') or v.fun is not None:
        return
    vs = v.items if v.items is not None else [v]
    for x in vs:
        if x is None:
            continue
        fl.mutate(x, node, how)
        for o in x.objs:
            c = fl.cell(o)
            c.deps = c.deps | d | fl.control()
            c.stores.append((node, 'full', V()))


def callback(fl, f, name, args, kwargs, d, node, env):
    """f is called by the library with values it makes up"""
    extra = kwargs.get('args')
    pos = [V(deps=d)]
    star = V(deps=d)
    if extra is not None:
        x = fl.iter_elem(extra)
        star = x.but(deps=x.deps | d)
    if name.endswith(('apply_along_axis', 'vectorize', 'frompyfunc')) and \
            len(args) > 2:
        a = args[2]
        pos = [a.but(nd=1, prov=None)]
        star = None
    fl.call(f, pos if star is None else [], {}, node, env,
            None if star is None else join(pos[0], star))


def generic(fl, short, base, a0, args, kwargs, node, d):
    dk = dtype_of(kwargs.get('dtype'))
    nar = None
    if short in PLUMB:
        for v in list(args) + [x for k, x in kwargs.items()]:
            if v is None:
                continue
            nar = nar or v.narrow
            c = fl.content(v) if v.may('list', 'tuple', 'iter') else None
            if c is not None:
                nar = nar or c.narrow
            if v.items:
                for x in v.items:
                    if x is not None:
                        nar = nar or x.narrow
    if short in NARROW and base == 'numpy':
        nar = '%s at line %s' % (short, node.lineno)
    elif dk is not None and dk not in ('f', 'inh', 'keep'):
        nar = 'dtype %s at line %s' % (dk, node.lineno)
    if base == 'builtins' or base == 'math':
        if short in SCALARS:
            s = None
            ss = [v.sym for v in args]
            if all(x is not None for x in ss) and not kwargs and \
                    sum(depth(x) for x in ss) < 10:
                s = ('call', short) + tuple(ss)
                if short in ('int', 'float', 'bool') and len(ss) == 1 and \
                        ss[0][0] == 'const' and \
                        isinstance(ss[0][1], (int, float)):
                    s = ('const', {'int': int, 'float': float,
                                   'bool': bool}[short](ss[0][1]))
            if short in ('min', 'max') and args and len(args) == 1:
                el = fl.iter_elem(args[0])
                return el.but(deps=el.deps | d, sym=None)
            if short == 'sum' and args:
                el = fl.iter_elem(args[0])
                if el.may('arr', 'any'):
                    return V(ANY, el.nd, deps=d)
            if short == 'abs' and args and args[0].may('arr', 'any'):
                return args[0].but(objs=E, sym=None, deps=d,
                                   prov=altered(args[0], node, 'abs'))
            return V('bool' if short in ('bool', 'isinstance', 'any', 'all',
                                         'hasattr', 'callable',
                                         'array_equal', 'allclose')
                     else 'num', deps=d, sym=s, narrow=nar,
                     dt='f' if short in FLOATFN else None,
                     prov=alt_of(args, short, node))
        return None
    if short in CASTS and a0 is None:
        v = args[0] if args else None
        if v is None or not v.may('list', 'tuple', 'iter'):
            return V('num', deps=d, narrow=nar)
        a0 = v
    if short in VIEWS and a0 is not None:
        return view(fl, short, a0, args, kwargs, node, d, dk, nar)
    if short in REDUCE:
        ax = kwargs.get('axis')
        if ax is None and len(args) > 1 and short not in (
                'percentile', 'quantile', 'norm'):
            ax = args[1]
        if ax is None or ax.only('none'):
            q = a0.prov if a0 is not None else None
            return V('num', deps=d, narrow=nar,
                     dt='f' if short in FLOATFN else None,
                     sym=('key', short, q[3]) if q is not None and
                     q[0] == 'col' and q[1] == '__key' and q[2] == () else
                     None)
        nd = None
        if a0 is not None:
            n = ndof(fl, a0)
            nd = n - 1 if n else None
        if nd == 0:
            return V('num', deps=d, narrow=nar)
        return V('arr', nd, deps=d, narrow=nar,
                 dt='f' if short in FLOATFN else None)
    if short in ELEMENT or short in CASTS:
        nds = [ndof(fl, v) for v in args if v is not None and
               not v.only('str', 'none')]
        if short in ('median_filter', 'gaussian_filter', 'copy', 'sort',
                     'clip', 'zoom', 'rotate', 'roll', 'opening', 'argsort',
                     'clear_border', 'uniform_filter') or short in CASTS:
            nds = nds[:1]
        nd = None
        if nds and all(x is not None for x in nds):
            nd = max(nds)
        vs = [v for v in args if v is not None]
        if short in CASTS:
            vs = vs[:1]
        k = 'arr'
        if nd == 0 or (nds and all(v.only('num', 'bool') for v in vs)):
            k = 'num'
            nd = None
        elif any(v.may('any') for v in vs) and not any(v.may('arr', 'list')
                                                       for v in vs):
            k = 'any'
        dt = 'f' if short in FLOATFN else None
        if short in ('copy', 'sort', 'clip', 'gaussian_filter',
                     'median_filter', 'abs', 'absolute', 'negative', 'round',
                     'where') and a0 is not None and dt is None:
            dt = a0.dt if short != 'where' else None
        if short in ('add', 'subtract', 'multiply', 'power', 'minimum',
                     'maximum') and any(isfloat(v) for v in vs):
            dt = 'f'
        s = None
        if k in ('num', 'any') and vs and \
                all(v.sym is not None for v in vs) and \
                sum(depth(v.sym) for v in vs) < 10:
            s = ('call', 'np.' + short) + tuple(v.sym for v in vs)
        p = None
        if short in ('float64', 'copy', 'double', 'longdouble', 'float_'):
            p = a0.prov if a0 is not None else None
            if p is None and a0 is not None and a0.may('list', 'iter',
                                                       'tuple'):
                p = listprov(fl, a0)
        elif short == 'where' and len(args) == 3:
            p = jprov(args[1].prov, args[2].prov)
        elif short in CASTS and a0 is not None:
            q = a0
            if q.prov is None and q.may('list', 'iter', 'tuple'):
                q = q.but(prov=listprov(fl, q))
            p = altered(q, node, 'converted to ' + short)
        elif short not in ('argsort', 'where', 'sort', 'isnan', 'equal',
                           'less', 'greater', 'isclose', 'isfinite',
                           'logical_and', 'logical_or'):
            p = alt_of(vs, short, node)
        r = V(k, nd, deps=d, narrow=nar, dt=dt, sym=s, prov=p)
        return r
    return None


def alt_of(vs, short, node):
    for v in vs:
        if v is not None:
            p = altered(v, node, short)
            if p is not None and p[0] == 'alt':
                return p
    return None


def ndof(fl, v):
    if v is None:
        return None
    if v.only('num', 'bool'):
        return 0
    if v.may('arr'):
        return v.nd
    if v.items is not None and v.items:
        ns = {ndof(fl, x) for x in v.items}
        if len(ns) == 1:
            n = ns.pop()
            return None if n is None else n + 1
        return None
    if v.may('list', 'tuple', 'iter'):
        c = fl.content(v)
        n = ndof(fl, c) if c is not None else None
        return None if n is None else n + 1
    return None


def listprov(fl, v):
    """provenance of the array made of a list"""
    if v.prov is not None:
        return v.prov
    c = None
    if v.items is not None:
        c = None
        p = stackprov(v.items)
        if p is not None:
            return p
        for x in v.items:
            c = join(c, x)
    else:
        c = fl.content(v)
    if c is None:
        return None
    if c.only('tuple') and c.items is not None:
        return stackprov(c.items)
    if c.prov is not None and c.prov[0] == 'col':
        return c.prov
    return c.prov if c.prov is not None and c.prov[0] in ('rows', 'alt') \
        else None


def view(fl, short, a0, args, kwargs, node, d, dk, nar):
    deps = d
    dtv = kwargs.get('dtype') or (args[1] if len(args) > 1 and short in (
        'asarray', 'ascontiguousarray', 'asanyarray') else None)
    dk = dtype_of(dtv)
    if dk not in (None, 'f', 'inh', 'keep'):
        nar = 'dtype %s at line %s' % (dk, node.lineno)
    nar = nar or a0.narrow
    objs = a0.objs if a0.may('arr', 'any') else E
    if a0.may('list', 'tuple', 'iter') and not a0.may('arr'):
        # a new array is made of the list (an input list may be an array)
        objs = frozenset(o for o in a0.objs if o.startswith('P:'))
        c = fl.content(a0)
        if c is not None and any(o.startswith('P:') for o in a0.objs):
            objs |= frozenset(o for o in c.objs if o.startswith('P:'))
    nd = ndof(fl, a0)
    p = a0.prov if a0.may('arr', 'any') and not a0.may('list', 'iter') \
        else listprov(fl, a0)
    if short in ('asarray', 'asanyarray', 'ascontiguousarray',
                 'asfortranarray', 'require', 'atleast_1d', 'asfarray'):
        pass
    elif short in ('fliplr', 'flip'):
        if short == 'flip':
            ax = kwargs.get('axis') or (args[1] if len(args) > 1 else None)
            s = ax.sym if ax is not None else None
            if s in (('const', 1), ('const', -1)):
                p = addchain(p, 'flip')
            elif s == ('const', 0):
                pass
            else:
                p = None
        else:
            p = addchain(p, 'flip')
    elif short == 'flipud':
        pass
    elif short == 'reshape':
        sh = args[1] if len(args) > 1 else kwargs.get('newshape') or \
            kwargs.get('shape')
        nd = len(sh.items) if sh is not None and sh.items is not None else (
            1 if sh is not None and sh.only('num') else None)
        p = None
    elif short == 'ravel':
        nd, p = 1, None
    elif short == 'expand_dims':
        nd, p = (nd + 1 if nd is not None else None), None
    elif short in ('squeeze', 'diagonal', 'broadcast_to'):
        nd, p = None, None
    elif short == 'atleast_2d':
        nd = max(nd, 2) if nd is not None else None
    else:
        p = None
    k = 'arr'
    dt = a0.dt
    if dk == 'f':
        dt = 'f'
        if p is not None and p[0] == 'rows' and dtv is not None and \
                dtv.fun is not None and dtv.fun[1].split('.')[-1] in (
                    'float32', 'single'):
            p = ('alt', p[1], 'converted to float32 at line %s' % node.lineno)
    elif dk == 'keep':
        dt = None
        if p is not None and p[0] == 'rows':
            p = ('alt', p[1], 'converted at line %s' % node.lineno)
    if dt is None and (dtv is None or dk == 'inh') and \
            a0.may('list', 'tuple', 'iter'):
        c = fl.content(a0) if a0.items is None else None
        if a0.items is not None:
            ds = {x.dt for x in a0.items if x is not None}
            dt = ds.pop() if len(ds) == 1 else ('f' if 'f' in ds else None)
        elif c is not None:
            dt = c.dt if c.items is None else (
                'f' if any(x.dt == 'f' for x in c.items) else None)
    if dk == 'inh':
        if dt == 'f':
            fl.event('inhcast', node, {})
        dt = 'inh'
    return V(k, nd, objs, deps=deps, narrow=nar, dt=dt, prov=p)


# ----------------------------------------------------------------- handlers
def h_array(fl, args, kw, node, env, d, star):
    if not args:
        return V('arr', deps=d)
    r = view(fl, 'asarray', args[0], args, kw, node, d, None, None)
    c = kw.get('copy')
    if c is not None and c.sym == ('const', False):
        return r
    return r.but(objs=E)


def h_newlike(zero):
    def h(fl, args, kw, node, env, d, star):
        a0 = args[0] if args else kw.get('a')
        dtv = kw.get('dtype') or (args[1] if len(args) > 1 and
                                  zero != 'full' else None)
        dk = dtype_of(dtv)
        r = fl.alloc(node, 'arr').but(nd=ndof(fl, a0), deps=d)
        (o,) = r.objs
        c = fl.cell(o)
        if dk is None or dk == 'inh':
            c.dt = 'inh' if a0 is not None and a0.dt == 'inh' else None
            r.dt = c.dt
        elif dk == 'f':
            r.dt = 'f'
        elif dk != 'keep':
            r.narrow = 'dtype %s at line %s' % (dk, node.lineno)
        if zero == 'empty':
            c.uninit = True
        return r
    return h


def h_new(kind):
    def h(fl, args, kw, node, env, d, star):
        sh = args[0] if args else kw.get('shape')
        n = None
        if sh is not None:
            n = len(sh.items) if sh.items is not None else (
                1 if sh.only('num') else None)
            if n is None and sh.sym is not None and sh.sym[0] == 'len':
                n = sh.sym[1]
        dtv = kw.get('dtype') or (args[2] if kind == 'full' and len(args) > 2
                                  else args[1] if kind != 'full' and
                                  len(args) > 1 else None)
        dk = dtype_of(dtv)
        r = fl.alloc(node, 'arr').but(nd=n, deps=d)
        (o,) = r.objs
        c = fl.cell(o)
        if dk in ('f', None):
            r.dt = 'f' if kind != 'full' or dk == 'f' else None
        elif dk == 'inh':
            r.dt = c.dt = 'inh'
        elif dk != 'keep':
            r.narrow = 'dtype %s at line %s' % (dk, node.lineno)
        if kind == 'empty':
            c.uninit = True
        return r
    return h


def h_range(fl, args, kw, node, env, d, star):
    for v in args:
        if v.narrow:
            fl.event('narrowindex', node, {'by': v.narrow})
    return fl.alloc(node, 'iter', V('num', deps=d)).but(deps=d)


def h_arange(fl, args, kw, node, env, d, star):
    dk = dtype_of(kw.get('dtype') or (args[3] if len(args) > 3 else None))
    n = None
    if dk not in (None, 'f', 'inh', 'keep'):
        n = 'dtype %s at line %s' % (dk, node.lineno)
    elif dk is None:
        n = None
    return V('arr', 1, deps=d, narrow=n)


def h_enumerate(fl, args, kw, node, env, d, star):
    el = fl.iter_elem(args[0]) if args else V()
    return fl.alloc(node, 'iter', V('tuple', items=(V('num', deps=d), el))
                    ).but(deps=args[0].deps if args else E)


def h_zip(fl, args, kw, node, env, d, star):
    its = [fl.iter_elem(a) for a in args]
    for i, a in enumerate(args):
        if a.prov is not None and a.prov[0] in ('col', 'alt') and \
                its[i].prov is None:
            its[i] = its[i].but(prov=a.prov)
    if star is not None:
        return fl.alloc(node, 'iter', fl.alloc(node, 'tuple',
                                               fl.iter_elem(star), tag='t')
                        ).but(deps=d)
    dd = E
    for a in args:
        dd = dd | a.deps
    return fl.alloc(node, 'iter', V('tuple', items=tuple(its))).but(deps=dd)


def h_map(fl, args, kw, node, env, d, star):
    if len(args) < 2:
        return None
    r = fl.call(args[0], [fl.iter_elem(a) for a in args[1:]], {}, node, env)
    return fl.alloc(node, 'iter', r).but(deps=d)


def h_filter(fl, args, kw, node, env, d, star):
    if len(args) < 2:
        return None
    el = fl.iter_elem(args[1])
    t = fl.call(args[0], [el], {}, node, env) if args[0].fun is not None \
        else V()
    return fl.alloc(node, 'iter', el.but(deps=el.deps | fl.alldeps(t))
                    ).but(deps=d)


def h_list(kind):
    def h(fl, args, kw, node, env, d, star):
        if not args:
            return fl.alloc(node, kind)
        a = args[0]
        if a.items is not None and kind == 'tuple':
            return V('tuple', items=a.items, deps=a.deps)
        el = fl.iter_elem(a)
        if not a.objs and a.items is None and a.only('list', 'iter'):
            el = None
        r = fl.alloc(node, kind, el).but(deps=a.deps)
        if kind != 'set':
            r.prov = a.prov if a.may('arr') else None
        set_order(fl, r, order_of(fl, a))
        if a.narrow:
            r.narrow = a.narrow
        if a.nd == 1 and a.prov is not None and a.prov[0] == 'rows':
            # tuple(row): the two coordinates
            r.prov = a.prov
        return r
    return h


def h_dict(fl, args, kw, node, env, d, star):
    el, ks = None, []
    if args:
        kd = fl.known_dict(args[0])
        if kd is not None:
            ks = list(kd.items())
            for _, v in ks:
                el = join(el, v)
        else:
            c = fl.content(args[0])
            el, ks = (c if c is not None else V(deps=args[0].deps)), None
    for k, v in kw.items():
        el = join(el, v)
        if ks is not None:
            ks.append((k, v))
    return fl.newdict(node, el, ks).but(deps=E if not args else args[0].deps)


def h_sorted(fl, args, kw, node, env, d, star):
    if not args:
        return None
    el = fl.iter_elem(args[0])
    k = kw.get('key')
    dd = args[0].deps
    if k is not None and k.fun is not None:
        kv = fl.call(k, [el], {}, node, env)
        dd = dd | fl.alldeps(kv)
    r = fl.alloc(node, 'list', el)
    set_order(fl, r, sort_key(fl, k, kw, node, env))
    return r.but(deps=dd)


def sort_key(fl, k, kw, node, env):
    """what a list of point arrays is sorted by: (statistic, column, +-1)"""
    s = None
    if k is not None and k.fun is not None:
        mark = V('arr', 2, prov=('rows', '__key', ()))
        s = fl.call(k, [mark], {}, node, env).sym
    rv = kw.get('reverse')
    if rv is not None and rv.sym not in (('const', False), ('const', 0)):
        if rv.sym not in (('const', True), ('const', 1)):
            return frozenset([None])
        s = neg(s)
    sign = 1
    if s is not None and s[0] == 'neg':
        sign, s = -1, s[1]
    if s is None or s[0] != 'key':
        return frozenset([None])
    return frozenset([(s[1], s[2], sign)])


def order_of(fl, v):
    r = frozenset()
    for o in (v.objs if v is not None else ()):
        c = fl.heap.get(o)
        if c is not None:
            r = r | c.order
    return r


def set_order(fl, v, o):
    for x in v.objs:
        fl.cell(x).order = fl.cell(x).order | o


def h_reversed(fl, args, kw, node, env, d, star):
    el = fl.iter_elem(args[0]) if args else V()
    r = fl.alloc(node, 'iter', el).but(deps=args[0].deps if args else E)
    if args:
        set_order(fl, r, frozenset(
            None if x is None else (x[0], x[1], -x[2])
            for x in order_of(fl, args[0])))
    return r


def h_stack(nd):
    def h(fl, args, kw, node, env, d, star):
        if not args:
            return V('arr', deps=d)
        a = args[0]
        if a.items is not None:
            vs = list(a.items)
        else:
            c = fl.iter_elem(a)
            vs = [c] if c is not None else []
        p = None
        if vs:
            ps = [v.prov if not v.may('list') or v.prov else listprov(fl, v)
                  for v in vs]
            if nd == 'col':
                p = stackprov(vs)
            else:
                if all(q is not None and q[0] in ('rows', 'alt') for q in ps):
                    p = ps[0]
                    for q in ps[1:]:
                        if p != q:
                            p = jprov(p, q)
                elif any(q is not None and q[0] == 'alt' for q in ps):
                    p = next(q for q in ps if q is not None and
                             q[0] == 'alt')
        n = 2 if nd in ('col', 2) else None
        if nd == 'cat':
            ns = {ndof(fl, v) for v in vs}
            n = ns.pop() if len(ns) == 1 else None
            ax = kw.get('axis') or (args[1] if len(args) > 1 else None)
            if ax is not None and ax.sym not in (('const', 0),):
                p = None
        if nd == 'stack':
            ns = {ndof(fl, v) for v in vs}
            m = ns.pop() if len(ns) == 1 else None
            n = m + 1 if m is not None else None
            ax = kw.get('axis') or (args[1] if len(args) > 1 else None)
            if ax is not None and ax.sym in (('const', 1), ('const', -1)):
                p = stackprov(vs)
            elif ax is not None and ax.sym != ('const', 0):
                p = None
        nar = None
        for v in vs:
            nar = nar or (v.narrow if v is not None else None)
        dts = {v.dt for v in vs}
        return V('arr', n, deps=d, prov=p, narrow=nar,
                 dt=dts.pop() if len(dts) == 1 else
                 ('f' if 'f' in dts else None))
    return h


def h_append(fl, args, kw, node, env, d, star):
    # np.append(a, values, axis)
    if len(args) < 2:
        return V('arr', deps=d)
    ax = kw.get('axis') or (args[2] if len(args) > 2 else None)
    p = None
    q = args[1].prov if args[1].prov is not None else listprov(fl, args[1])
    if ax is not None and ax.sym == ('const', 0):
        p = jprov(args[0].prov, q) if args[0].prov != q else q
    return V('arr', args[0].nd if ax is not None else 1, deps=d, prov=p,
             narrow=args[0].narrow or args[1].narrow)


def h_unique(fl, args, kw, node, env, d, star):
    a = args[0]
    ax = kw.get('axis')
    p = a.prov if ax is not None and ax.sym == ('const', 0) else None
    if len([k for k in kw if k.startswith('return')]):
        return V('tuple', deps=d)
    return V('arr', a.nd if ax is not None else 1, deps=d, prov=p,
             narrow=a.narrow, dt=a.dt)


def h_delete(fl, args, kw, node, env, d, star):
    a = args[0]
    ax = kw.get('axis') or (args[2] if len(args) > 2 else None)
    p = a.prov if ax is not None and ax.sym == ('const', 0) else None
    return V('arr', a.nd if ax is not None else 1, deps=d, prov=p,
             narrow=a.narrow, dt=a.dt)


def h_take(fl, args, kw, node, env, d, star):
    a = args[0]
    ax = kw.get('axis') or (args[2] if len(args) > 2 else None)
    if len(args) > 1 and args[1].narrow:
        fl.event('narrowindex', node, {'by': args[1].narrow})
    if ax is not None and ax.sym == ('const', 0):
        return V('arr', a.nd, deps=d, prov=a.prov, dt=a.dt)
    return V('arr', deps=d)


def h_where(fl, args, kw, node, env, d, star):
    if len(args) == 1:
        nd = args[0].nd
        if nd is None:
            nd = ndof(fl, args[0])
        n = nd if nd else 1
        if nd is None:
            return fl.alloc(node, 'tuple', V('arr', 1, deps=d)).but(deps=d)
        return V('tuple', items=tuple(V('arr', 1, deps=d) for _ in range(n)))
    return None


def h_meshgrid(fl, args, kw, node, env, d, star):
    return V('tuple', items=tuple(V('arr', 2, deps=d, narrow=a.narrow)
                                  for a in args))


def h_one(nd=1):
    def h(fl, args, kw, node, env, d, star):
        return V('arr', nd, deps=d, dt='f')
    return h


def h_pair(fl, args, kw, node, env, d, star):
    """label"""
    return V('tuple', items=(V('arr', args[0].nd if args else None, deps=d),
                             V('num', deps=d)))


def h_objects(fl, args, kw, node, env, d, star):
    return fl.alloc(node, 'list', V('tuple', deps=d)).but(deps=d)


def h_cmass(fl, args, kw, node, env, d, star):
    if kw.get('index') is None and len(args) < 3:
        return V('tuple', deps=d)
    row = V('arr', 1, deps=d, prov=('rows', 'dots', ()), dt='f')
    r = fl.alloc(node, 'list', row)
    return r.but(deps=d)


def h_mapcoord(fl, args, kw, node, env, d, star):
    c = args[1] if len(args) > 1 else kw.get('coordinates')
    if c is not None:
        vs = list(c.items) if c.items is not None else [c, fl.content(c)]
        for v in vs:
            if v is not None and v.narrow:
                fl.event('narrowindex', node, {'by': v.narrow})
    return V('arr', deps=d)


def h_partial(fl, args, kw, node, env, d, star):
    if not args:
        return None
    return V('func', fun=('partial', args[0], tuple(args[1:]),
                          tuple(sorted(kw.items()))), deps=d)


def h_getattr(fl, args, kw, node, env, d, star):
    if len(args) >= 2 and args[1].sym is not None and \
            args[1].sym[0] == 'const' and isinstance(args[1].sym[1], str):
        n = ast.Attribute(value=ast.Name(id='__obj', ctx=ast.Load()),
                          attr=args[1].sym[1], ctx=ast.Load())
        ast.copy_location(n, node)
        ast.fix_missing_locations(n)
        from .run import Env
        e = Env({'__obj': args[0]})
        return fl.e_Attribute(n, e)
    return None


def h_next(fl, args, kw, node, env, d, star):
    r = fl.iter_elem(args[0]) if args else V()
    for x in args[1:]:
        r = join(r, x)
    return r


def h_pad(fl, args, kw, node, env, d, star):
    a = args[0] if args else V()
    return V('arr', ndof(fl, a), deps=d, dt=a.dt)


def h_polyfit(fl, args, kw, node, env, d, star):
    full = kw.get('full') or kw.get('cov')
    if full is not None:
        return V('tuple', deps=d)
    return V('arr', 1, deps=d, dt='f')


def h_diff(fl, args, kw, node, env, d, star):
    a = args[0] if args else V()
    return V('arr', ndof(fl, a), deps=d, dt=a.dt,
             prov=altered(a, node, 'diff'))


def h_insert(fl, args, kw, node, env, d, star):
    a = args[0] if args else V()
    return V('arr', a.nd, deps=d, narrow=a.narrow)


def h_minimize(fl, args, kw, node, env, d, star):
    return V('obj', deps=d)


def h_print(fl, args, kw, node, env, d, star):
    fl.event('print', node, None, d)
    return const(None)


def h_chain(fl, args, kw, node, env, d, star):
    el = None
    for a in args:
        el = join(el, fl.iter_elem(a))
    return fl.alloc(node, 'iter', el).but(deps=d)


def h_product(fl, args, kw, node, env, d, star):
    return fl.alloc(node, 'iter', V('tuple', items=tuple(
        fl.iter_elem(a) for a in args))).but(deps=d)


def h_nditer(fl, args, kw, node, env, d, star):
    return fl.alloc(node, 'iter', V(deps=d)).but(deps=d)


def h_ndindex(fl, args, kw, node, env, d, star):
    n = len(args)
    return fl.alloc(node, 'iter', V('tuple', items=tuple(
        V('num', deps=d) for _ in range(n)) if n > 1 else None, deps=d))


def h_isclose(fl, args, kw, node, env, d, star):
    return None


HANDLERS = {
    'numpy.array': h_array,
    'np.zeros_like': h_newlike('zeros'), 'np.ones_like': h_newlike('ones'),
    'np.empty_like': h_newlike('empty'), 'np.full_like': h_newlike('full'),
    'np.zeros': h_new('zeros'), 'np.ones': h_new('ones'),
    'np.empty': h_new('empty'), 'np.full': h_new('full'),
    'np.arange': h_arange, 'np.linspace': h_one(1),
    'builtins.range': h_range, 'builtins.enumerate': h_enumerate,
    'builtins.zip': h_zip, 'builtins.map': h_map,
    'builtins.filter': h_filter, 'builtins.list': h_list('list'),
    'builtins.tuple': h_list('tuple'), 'builtins.set': h_list('set'),
    'builtins.frozenset': h_list('set'), 'builtins.iter': h_list('iter'),
    'builtins.sorted': h_sorted, 'builtins.reversed': h_reversed,
    'builtins.getattr': h_getattr, 'builtins.next': h_next,
    'builtins.print': h_print, 'builtins.dict': h_dict,
    'np.vstack': h_stack(2), 'np.row_stack': h_stack(2),
    'np.concatenate': h_stack('cat'), 'np.column_stack': h_stack('col'),
    'np.dstack': h_stack('x'), 'np.hstack': h_stack('x'),
    'np.stack': h_stack('stack'), 'np.append': h_append,
    'np.unique': h_unique, 'np.delete': h_delete, 'np.take': h_take,
    'np.where': h_where, 'np.nonzero': h_where, 'np.meshgrid': h_meshgrid,
    'np.argwhere': h_one(2), 'np.flatnonzero': h_one(1),
    'np.polyfit': h_polyfit, 'np.label': h_pair,
    'np.find_objects': h_objects, 'np.center_of_mass': h_cmass,
    'np.map_coordinates': h_mapcoord, 'functools.partial': h_partial,
    'np.pad': h_pad, 'np.diff': h_diff, 'np.insert': h_insert,
    'np.minimize': h_minimize, 'itertools.chain': h_chain,
    'itertools.product': h_product, 'np.nditer': h_nditer,
    'np.ndindex': h_ndindex, 'np.radon': h_one(2),
}

# ----------------------------------------------------------------- methods
LISTMUT = {'append', 'extend', 'insert', 'remove', 'pop', 'clear', 'sort',
           'reverse', 'update', 'setdefault', 'popitem', 'add', 'discard',
           'appendleft', 'popleft', 'fill', 'resize', 'put', 'itemset',
           'partition', 'setfield', 'setflags', 'intersection_update',
           'difference_update', '__setitem__', '__delitem__', '__iadd__'}
ARRVIEW = {'reshape', 'ravel', 'squeeze', 'transpose', 'swapaxes', 'view',
           'diagonal'}


def method(fl, v, name, args, kwargs, node, env, star, dstar):
    d = v.deps
    for x in list(args) + list(kwargs.values()):
        d = d | fl.alldeps(x)
    if v.objs and not v.may('num', 'str'):
        d = d | fl.alldeps(v)
    if v.may('func') or v.fun is not None:
        pass
    if name in LISTMUT and v.may('list', 'dict', 'set', 'arr', 'any', 'iter'):
        fl.mutate(v, node, '.%s()' % name)
        for o in v.objs:
            c = fl.cell(o)
            if v.may('dict'):
                if name == 'update' and c.dicts is not None and (
                        not args or fl.known_dict(args[0])):
                    up = dict(fl.known_dict(args[0]) if args else {})
                    up.update(kwargs)
                    for k2, x in up.items():
                        c.dicts[k2] = join(c.dicts.get(k2), x)
                else:
                    c.dicts = None
            c.deps = c.deps | fl.control()
            if name == 'fill':
                c.stores.append((node, 'full', args[0] if args else V()))
        if name in ('append', 'add', 'appendleft') and args:
            fl.put(v, args[0].but(deps=args[0].deps | fl.control()))
        elif name == 'insert' and len(args) > 1:
            fl.put(v, args[1].but(deps=args[1].deps | fl.control()))
        elif name in ('extend', 'update') and args:
            el = fl.iter_elem(args[0])
            fl.put(v, el.but(deps=el.deps | fl.control() | args[0].deps))
        elif name == 'setdefault' and len(args) > 1:
            fl.put(v, args[1])
        elif name in ('fill', 'put', 'itemset') and args:
            for o in v.objs:
                c = fl.cell(o)
                c.deps = c.deps | d
        elif name in ('sort',) and kwargs.get('key') is not None:
            k = kwargs['key']
            if k.fun is not None:
                fl.call(k, [fl.iter_elem(v)], {}, node, env)
            set_order(fl, v, sort_key(fl, k, kwargs, node, env))
        if name in ('pop', 'popleft', 'popitem'):
            el = fl.content(v)
            return el.but(deps=el.deps | d) if el is not None else V(deps=d)
        return const(None)
    if name in ('byteswap',) and args:
        fl.mutate(v, node, '.byteswap(True)')
    for k in ('out',):
        if k in kwargs:
            outinto(fl, kwargs[k], node, '.%s(out=...)' % name, d, name)
    if name == 'copy':
        if v.may('list', 'dict', 'set') and not v.may('arr'):
            r = fl.alloc(node, 'list' if v.may('list') else 'dict',
                         fl.content(v))
            return r.but(deps=d, prov=v.prov)
        return v.but(objs=E, deps=d, sym=None)
    if name in ('items', 'keys', 'values') and v.may('dict', 'any'):
        el = fl.content(v)
        el = el if el is not None else V(deps=d)
        if name == 'items':
            el = V('tuple', items=(V('str', deps=d), el))
        elif name == 'keys':
            el = V('str', deps=d)
        return fl.alloc(node, 'iter', el).but(deps=d)
    if name == 'get' and v.may('dict'):
        el = fl.content(v)
        for x in args[1:]:
            el = join(el, x)
        return el.but(deps=el.deps | d) if el is not None else V(deps=d)
    if v.may('str') and not v.may('arr'):
        return V('str', deps=d)
    if name in ARRVIEW and v.may('arr', 'any'):
        nd = v.nd
        if name == 'reshape':
            nd = len(args) if len(args) > 1 else (
                len(args[0].items) if args and args[0].items is not None
                else None if not args or not args[0].only('num') else 1)
        elif name == 'ravel':
            nd = 1
        elif name in ('squeeze', 'diagonal', 'view'):
            nd = None
        return V(v.kinds, nd, v.objs, deps=d, narrow=v.narrow, dt=v.dt)
    if name == 'astype':
        dk = dtype_of(args[0] if args else kwargs.get('dtype'))
        nar = v.narrow
        if dk not in (None, 'f', 'inh', 'keep'):
            nar = 'astype %s at line %s' % (dk, node.lineno)
        if dk == 'inh' and v.dt == 'f':
            fl.event('inhcast', node, {})
        c = kwargs.get('copy')
        objs = v.objs if c is not None and c.sym == ('const', False) else E
        p = v.prov
        tv = args[0] if args else kwargs.get('dtype')
        tn = tv.fun[1].split('.')[-1] if tv is not None and tv.fun is not \
            None and tv.fun[0] == 'lib' else None
        if p is not None and p[0] == 'rows' and tn not in ('float64',
                                                           'float'):
            p = ('alt', p[1], 'converted at line %s' % node.lineno) \
                if dk is not None else None
        return V(v.kinds, v.nd, objs, deps=d, narrow=nar,
                 dt='f' if dk == 'f' else None, prov=p)
    if name in ('flatten',):
        return V('arr', 1, deps=d, narrow=v.narrow, dt=v.dt)
    if name == 'tolist':
        el = fl.row(v)
        if el.may('arr'):
            el = el.but(kinds=frozenset(['list']), objs=E)
        return fl.alloc(node, 'list', el).but(deps=d, prov=v.prov)
    if name in ('argsort', 'nonzero', 'round', 'clip', 'cumsum'):
        if name == 'nonzero':
            return V('tuple', items=tuple(V('arr', 1, deps=d) for _ in
                                          range(v.nd or 1)))
        p = altered(v, node, name) if name in ('round', 'clip') else None
        return V('arr', v.nd, deps=d, narrow=v.narrow if name == 'clip'
                 else None, prov=p)
    if name in REDUCE:
        if v.may('arr', 'any', 'num'):
            ax = kwargs.get('axis') or (args[0] if args else None)
            if ax is None:
                return V('num', deps=d, dt='f' if name in FLOATFN else None)
            return V('arr', v.nd - 1 if v.nd else None, deps=d,
                     dt='f' if name in FLOATFN else None)
    if name == 'item':
        return V('num', deps=d, narrow=v.narrow)
    if name == 'index' or name == 'count':
        return V('num', deps=d)
    if name == 'take' and args:
        if args[0].narrow:
            fl.event('narrowindex', node, {'by': args[0].narrow})
        return V('arr', deps=d)
    if v.may('obj', 'any'):
        fl.event('extern', node, {'name': name}, d)
    return V(deps=d)


# -------------------------------------------------------- package functions
def package_hook(fl, qual, bound, node):
    """summaries used instead of the inlined result"""
    if qual == 'discorpy.prep.preprocessing.rotate_points':
        p = bound.get('points')
        if p is None or p.prov is None or p.prov[0] != 'rows':
            q = listprov(fl, p) if p is not None and p.may('list') else None
            if q is None or q[0] != 'rows':
                return None
            prov = q
        else:
            prov = p.prov
        a, u = bound.get('angle'), bound.get('degree_unit')
        d = frozenset()
        for v in bound.values():
            d = d | fl.alldeps(v)
        return V('arr', 2, deps=d, dt='f',
                 prov=addchain(prov, ('rot', a.sym, u.sym)))
    return None
