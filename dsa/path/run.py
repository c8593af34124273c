"""Path-sensitive effect analysis.

Every control path of a function of the package is followed on abstract
values (vals.py); a condition the analysis does not know opens both branches,
an operation that can fail opens a failing branch, loops over unknown
collections are followed for none and for several generic elements.  Each
path yields its outcome, the facts assumed on it and the sequence of effects
(files opened, written, closed, figures, settings, ...).
"""
import ast
import re
import string
from .vals import *

EXC = {
    'BaseException': None, 'Exception': 'BaseException',
    'KeyboardInterrupt': 'BaseException', 'SystemExit': 'BaseException',
    'ArithmeticError': 'Exception', 'ZeroDivisionError': 'ArithmeticError',
    'OverflowError': 'ArithmeticError', 'AssertionError': 'Exception',
    'AttributeError': 'Exception', 'EOFError': 'Exception',
    'ImportError': 'Exception', 'ModuleNotFoundError': 'ImportError',
    'LookupError': 'Exception', 'IndexError': 'LookupError',
    'KeyError': 'LookupError', 'NameError': 'Exception',
    'OSError': 'Exception', 'IOError': 'Exception',
    'EnvironmentError': 'Exception', 'FileExistsError': 'OSError',
    'FileNotFoundError': 'OSError', 'PermissionError': 'OSError',
    'IsADirectoryError': 'OSError', 'NotADirectoryError': 'OSError',
    'RuntimeError': 'Exception', 'NotImplementedError': 'RuntimeError',
    'RecursionError': 'RuntimeError', 'StopIteration': 'Exception',
    'TypeError': 'Exception', 'ValueError': 'Exception',
    'UnicodeError': 'ValueError', 'UnicodeDecodeError': 'UnicodeError',
    'JSONDecodeError': 'ValueError', 'PickleError': 'Exception',
    'UnpicklingError': 'PickleError', 'Warning': 'Exception',
    'UserWarning': 'Warning', 'DeprecationWarning': 'Warning',
    'RuntimeWarning': 'Warning', 'UnidentifiedImageError': 'OSError',
}
ALIAS = {'IOError': 'OSError', 'EnvironmentError': 'OSError'}


def exc_base(name):
    n = name.split('.')[-1]
    return ALIAS.get(n, n)


def is_sub(a, b):
    a, b = exc_base(a), exc_base(b)
    while a is not None:
        if a == b:
            return True
        a = EXC.get(a)
        a = ALIAS.get(a, a)
    return False


BUILTINS = {
    'len', 'str', 'int', 'float', 'bool', 'list', 'tuple', 'dict', 'set',
    'range', 'enumerate', 'zip', 'sorted', 'reversed', 'isinstance', 'print',
    'open', 'min', 'max', 'abs', 'sum', 'round', 'repr', 'type', 'map',
    'filter', 'any', 'all', 'iter', 'next', 'hasattr', 'getattr', 'format',
    'frozenset', 'bytes', 'complex', 'divmod', 'pow', 'slice', 'id', 'hash',
    'callable', 'object', 'super', 'vars', 'chr', 'ord', 'issubclass',
    'setattr',
}


class D:
    """dictionary with abstract keys, insertion ordered"""

    def __init__(self, items=()):
        self.d = {}
        for k, v in items:
            self.set(k, v)

    def set(self, k, v):
        self.d[repr(key(k))] = (k, v)

    def has(self, k):
        return repr(key(k)) in self.d

    def get(self, k, default=None):
        r = self.d.get(repr(key(k)))
        return default if r is None else r[1]

    def items(self):
        return list(self.d.values())

    def keys(self):
        return [k for k, _ in self.d.values()]

    @property
    def key(self):
        return ('D',) + tuple((key(k), key(v)) for k, v in self.d.values())

    def __repr__(self):
        return '{%s}' % ', '.join('%r: %r' % kv for kv in self.d.values())


class Set_:
    def __init__(self, items):
        self.d = D((x, x) for x in items)

    @property
    def key(self):
        return ('Set',) + tuple(sorted(self.d.d))

    def items(self):
        return self.d.keys()


class Ev:
    def __init__(self, kind, node, func, module, data, facts):
        self.kind = kind
        self.node = node
        self.func = func
        self.module = module
        self.nfacts = facts
        self.__dict__.update(data)

    @property
    def where(self):
        return '%s:%s (%s)' % (self.module.path,
                               getattr(self.node, 'lineno', '?'), self.func)


class Env:
    def __init__(self, module, parent=None, name='?'):
        self.vars = {}
        self.module = module
        self.parent = parent
        self.name = name
        self.nonlocals = {}

    def lookup(self, n):
        e = self
        while e is not None:
            if n in e.vars:
                return e
            e = e.parent
        return None


class Outcome:
    def __init__(self, run, kind, value):
        self.run = run
        self.kind = kind            # 'return' / 'raise' / 'cut'
        self.value = value
        self.events = run.events
        self.facts = run.facts

    def evs(self, *k):
        return [e for e in self.events if e.kind in k]


LOOP = (0, 2)


class Run:
    """one control path"""

    def __init__(self, mods, prefix, opts):
        self.mods = mods
        self.prefix = prefix
        self.trail = []
        self.events = []
        self.facts = {}
        self.opts = opts
        self.fs = opts.get('fs_class', dict)()
        self.depth = 0
        self.steps = 0
        self.stack = []
        self.handles = []
        self.visited = set()
        self.modenv = {}
        self.handling = []
        from .lib import Lib
        self.lib = opts.get('lib', Lib)(self)

    # ------------------------------------------------------------ choices
    def choose(self, n, tag=''):
        if n == 1:
            return 0
        k = len(self.trail)
        c = self.prefix[k] if k < len(self.prefix) else 0
        self.trail.append((c, n))
        return c

    def fact(self, k):
        """truth of an unknown condition on this path"""
        if k not in self.facts:
            pol = self.opts.get('policy')
            v = pol(self, k) if pol is not None else None
            self.facts[k] = self.choose(2, k) == 0 if v is None else v
        return self.facts[k]

    def event(self, kind, node=None, **data):
        fr = self.stack[-1] if self.stack else None
        e = Ev(kind, node, fr.name if fr else '?',
               fr.module if fr else None, data, len(self.facts))
        self.events.append(e)
        return e

    def may_fail(self, what, node, classes, **data):
        """branch on failure of an I/O operation"""
        if not self.opts.get('failures', True):
            return
        c = self.choose(1 + len(classes), what)
        if c:
            e = self.event('iofail', node, what=what, cls=classes[c - 1],
                           **data)
            raise PyExc(classes[c - 1], 'io', node, event=e)

    def fail(self, what, node, cls, **data):
        e = self.event('iofail', node, what=what, cls=cls, **data)
        raise PyExc(cls, 'io', node, event=e)

    # ------------------------------------------------------------- blocks
    def block(self, stmts):
        for s in stmts:
            self.stmt(s)

    def stmt(self, s):
        self.steps += 1
        if self.steps > self.opts.get('steps', 60000):
            raise Undecided('path too long')
        m = getattr(self, 'x_' + type(s).__name__, None)
        if m is None:
            raise Undecided('statement %s' % type(s).__name__)
        m(s)

    @property
    def env(self):
        return self.stack[-1]

    def x_Expr(self, s):
        self.ev(s.value)

    def x_Pass(self, s):
        pass

    def x_Global(self, s):
        for n in s.names:
            self.env.nonlocals[n] = self.module_env(self.env.module)

    def x_Nonlocal(self, s):
        for n in s.names:
            e = self.env.parent.lookup(n) if self.env.parent else None
            if e is None:
                raise Undecided('nonlocal')
            self.env.nonlocals[n] = e

    def x_Import(self, s):
        from ..interp import import_names
        for k, v in import_names(s).items():
            if v.split('.')[0] == 'cv2':
                self.event('import', s, name=v)
            self.env.vars[k] = self.resolve(v, self.env.module)

    x_ImportFrom = x_Import

    def x_FunctionDef(self, s):
        f = Fn(s, self.env.module, self.env, s.name)
        f.defaults = self.defaults(s.args)
        if s.decorator_list:
            raise Undecided('decorator')
        self.env.vars[s.name] = f

    def x_Assign(self, s):
        v = self.ev(s.value)
        for t in s.targets:
            self.assign(t, v)

    def x_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value))

    def x_AugAssign(self, s):
        old = self.ev(as_load(s.target))
        v = self.ev(s.value)
        if isinstance(old, list) and isinstance(s.op, ast.Add):
            old.extend(self.iterate(v, s))
            return
        r = self.binop(s.op, old, v, s)
        if isinstance(old, A):
            r = self.lib.inplace(old, r, s)
        self.assign(s.target, r)

    def x_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.env.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o, i = self.ev(t.value), self.ev(t.slice)
                if isinstance(o, list) and isinstance(i, int):
                    del o[i]
                elif isinstance(o, D):
                    o.d.pop(repr(key(i)), None)
                else:
                    raise Undecided('del')
            else:
                raise Undecided('del')

    def x_Return(self, s):
        raise Ret(None if s.value is None else self.ev(s.value))

    def x_Raise(self, s):
        if s.exc is None:
            if self.handling:
                raise self.handling[-1]
            raise Undecided('bare raise')
        v = self.ev(s.exc)
        if s.cause is not None:
            self.ev(s.cause)
        if isinstance(v, PyExc):
            raise v
        cls = self.exc_class(v)
        raise PyExc(cls, 'explicit', s, v)

    def exc_class(self, v):
        if isinstance(v, X):
            return v.name.split('.')[-1]
        if isinstance(v, T) and v.op == 'exc':
            return v.args[0]
        raise Undecided('raised value')

    def x_Assert(self, s):
        if not self.truth(self.ev(s.test)):
            raise PyExc('AssertionError', 'explicit', s)

    def x_If(self, s):
        self.block(s.body if self.truth(self.ev(s.test)) else s.orelse)

    def x_With(self, s):
        self.with_items(s.items, s.body, s)

    def with_items(self, items, body, node):
        if not items:
            return self.block(body)
        it = items[0]
        mgr = self.ev(it.context_expr)
        v = self.lib.enter(mgr, node)
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v)
        try:
            self.with_items(items[1:], body, node)
        except PyExc as e:
            if self.lib.exit(mgr, node, e):
                return
            raise
        except (Ret, Brk, Cont):
            self.lib.exit(mgr, node, None)
            raise
        else:
            self.lib.exit(mgr, node, None)

    def x_Try(self, s):
        try:
            try:
                self.block(s.body)
            except PyExc as e:
                h = self.handler(e, s.handlers)
                if h is None:
                    raise
                if h.name:
                    self.env.vars[h.name] = e
                self.handling.append(e)
                try:
                    self.event('caught', h, exc=e)
                    self.block(h.body)
                finally:
                    self.handling.pop()
            else:
                self.block(s.orelse)
        except (PyExc, Ret, Brk, Cont):
            self.block(s.finalbody)
            raise
        else:
            self.block(s.finalbody)

    def handler(self, e, hs):
        for h in hs:
            if h.type is None:
                return h
            v = self.ev(h.type)
            for c in (v if isinstance(v, (tuple, list)) else [v]):
                if isinstance(c, X) and is_sub(e.cls, c.name):
                    return h
        return None

    def x_Break(self, s):
        raise Brk()

    def x_Continue(self, s):
        raise Cont()

    def x_For(self, s):
        it = self.ev(s.iter)
        broke = False
        for v in self.iterate(it, s, live=True):
            self.assign(s.target, v)
            try:
                self.block(s.body)
            except Brk:
                broke = True
                break
            except Cont:
                continue
        if not broke:
            self.block(s.orelse)

    def x_While(self, s):
        n = 0
        lim = self.opts.get('unroll', 6)
        broke = False
        self.event('while', s, n=n)
        while True:
            if not self.truth(self.ev(s.test)):
                break
            if n >= lim:
                raise Cut('while loop')
            n += 1
            self.event('round', s, n=n)
            try:
                self.block(s.body)
            except Brk:
                broke = True
                break
            except Cont:
                continue
        if not broke:
            self.block(s.orelse)

    # ------------------------------------------------------------- assign
    def assign(self, t, v):
        if isinstance(t, ast.Name):
            e = self.env.nonlocals.get(t.id)
            (e or self.env).vars[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            st = [k for k, x in enumerate(t.elts)
                  if isinstance(x, ast.Starred)]
            if isinstance(v, (T, P, S, H)) and not st:
                vs = self.lib.unpack(v, n, t)
            else:
                vs = list(self.iterate(v, t))
            if st:
                k = st[0]
                tail = n - k - 1
                if len(vs) < n - 1:
                    raise PyExc('ValueError', 'lib', t)
                for x, y in zip(t.elts[:k], vs[:k]):
                    self.assign(x, y)
                self.assign(t.elts[k].value, vs[k:len(vs) - tail])
                for x, y in zip(t.elts[k + 1:], vs[len(vs) - tail:]):
                    self.assign(x, y)
                return
            if len(vs) != n:
                raise PyExc('ValueError', 'lib', t)
            for x, y in zip(t.elts, vs):
                self.assign(x, y)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value)
            i = self.ev(t.slice)
            self.lib.setitem(o, i, v, t)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value)
            self.lib.setattr(o, t.attr, v, t)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, list(self.iterate(v, t)))
        else:
            raise Undecided('target')

    # -------------------------------------------------------- expressions
    def ev(self, e):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Undecided('expression %s' % type(e).__name__)
        return m(e)

    def e_Constant(self, e):
        return e.value

    def e_Name(self, e):
        x = self.env.nonlocals.get(e.id) or self.env.lookup(e.id)
        if x is not None and e.id in x.vars:
            return x.vars[e.id]
        return self.module_value(e.id, self.env.module)

    def module_env(self, module):
        if module.name not in self.modenv:
            self.modenv[module.name] = Env(module, None, '<module>')
        return self.modenv[module.name]

    def module_value(self, n, module):
        me = self.module_env(module)
        if n in me.vars:
            return me.vars[n]
        if n in module.funcs:
            f = Fn(module.funcs[n], module, None, n)
            self.stack.append(me)
            try:
                f.defaults = self.defaults(f.node.args)
            finally:
                self.stack.pop()
            if f.node.decorator_list:
                raise Undecided('decorator')
        elif n in module.imports:
            f = self.resolve(module.imports[n], module)
        elif n in module.consts:
            self.stack.append(me)
            try:
                node = module.consts[n]
                v = self.ev(node.value)
                for t in getattr(node, 'targets', None) or [node.target]:
                    self.assign(t, v)
            finally:
                self.stack.pop()
            return me.vars[n]
        elif n in BUILTINS or n in EXC:
            return X('builtins.' + n)
        elif n in ('__name__', '__file__'):
            return T('sym', n, typ='str')
        elif n in module.classes:
            raise Undecided('class %s' % n)
        else:
            raise Undecided('name %s' % n)
        me.vars[n] = f
        return f

    def resolve(self, dotted, module):
        if dotted.startswith('.'):
            k = len(dotted) - len(dotted.lstrip('.'))
            base = module.name.split('.')
            if not module.path.endswith('__init__.py'):
                base = base[:-1]
            base = base[:len(base) - (k - 1)]
            dotted = '.'.join(base + [dotted.lstrip('.')])
        if dotted in self.mods:
            return X(dotted)
        mod, _, n = dotted.rpartition('.')
        if mod in self.mods and n:
            return self.module_value(n, self.mods[mod])
        return X(self.lib.canon(dotted))

    def defaults(self, a):
        return ([self.ev(d) for d in a.defaults],
                [None if d is None else self.ev(d) for d in a.kw_defaults])

    def e_Attribute(self, e):
        return self.getattr(self.ev(e.value), e.attr, e)

    def getattr(self, o, n, node):
        if isinstance(o, X):
            d = o.name + '.' + n
            if o.name in self.mods:
                m = self.mods[o.name]
                if d in self.mods:
                    return X(d)
                return self.module_value(n, m)
            if d in self.mods:
                return X(d)
            d = self.lib.canon(d)
            return self.lib.constant(d)
        return self.lib.attr(o, n, node)

    def e_Subscript(self, e):
        o = self.ev(e.value)
        i = self.ev(e.slice)
        return self.lib.getitem(o, i, e)

    def e_Slice(self, e):
        return Slice(*[None if x is None else self.ev(x)
                       for x in (e.lower, e.upper, e.step)])

    def e_Index(self, e):
        return self.ev(e.value)

    def e_Tuple(self, e):
        return tuple(self.elts(e.elts))

    def e_List(self, e):
        return self.elts(e.elts)

    def e_Set(self, e):
        return Set_(self.elts(e.elts))

    def elts(self, es):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                out.extend(self.iterate(self.ev(x.value), x))
            else:
                out.append(self.ev(x))
        return out

    def e_Dict(self, e):
        d = D()
        for k, v in zip(e.keys, e.values):
            if k is None:
                x = self.ev(v)
                if not isinstance(x, D):
                    raise Undecided('dict **')
                for a, b in x.items():
                    d.set(a, b)
            else:
                kk = self.ev(k)
                d.set(kk, self.ev(v))
        return d

    def e_JoinedStr(self, e):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                parts.append(self.formatted(v))
        return text(parts)

    def formatted(self, v):
        x = self.ev(v.value)
        spec = ''
        if v.format_spec is not None:
            spec = self.ev(v.format_spec)
            if not isinstance(spec, str):
                raise Undecided('format')
        if v.conversion == ord('r'):
            x = self.lib.repr(x)
        elif v.conversion == ord('s'):
            x = self.lib.str(x)
        return self.lib.format(x, spec)

    e_FormattedValue = lambda self, v: self.formatted(v)

    def e_Lambda(self, e):
        f = Fn(e, self.env.module, self.env, '<lambda>')
        f.defaults = self.defaults(e.args)
        return f

    def e_IfExp(self, e):
        return self.ev(e.body if self.truth(self.ev(e.test)) else e.orelse)

    def e_NamedExpr(self, e):
        v = self.ev(e.value)
        self.assign(e.target, v)
        return v

    def e_Starred(self, e):
        raise Undecided('starred')

    def e_BoolOp(self, e):
        v = None
        for k, x in enumerate(e.values):
            v = self.ev(x)
            if k == len(e.values) - 1:
                return v
            t = self.truth(v)
            if isinstance(e.op, ast.And) and not t:
                return v if not isinstance(v, T) else False
            if isinstance(e.op, ast.Or) and t:
                return v if not isinstance(v, T) or v.typ not in (
                    None, 'bool') else True
        return v

    def e_UnaryOp(self, e):
        v = self.ev(e.operand)
        if isinstance(e.op, ast.Not):
            return not self.truth(v)
        return self.lib.unary(type(e.op).__name__, v, e)

    def e_BinOp(self, e):
        a = self.ev(e.left)
        return self.binop(e.op, a, self.ev(e.right), e)

    def binop(self, op, a, b, node):
        return self.lib.binop(type(op).__name__, a, b, node)

    def e_Compare(self, e):
        a = self.ev(e.left)
        r = True
        for op, c in zip(e.ops, e.comparators):
            b = self.ev(c)
            r = self.lib.compare(type(op).__name__, a, b, e)
            if len(e.ops) > 1 and not self.truth(r):
                return False
            a = b
        return r

    def truth(self, v):
        return self.lib.truth(v)

    def e_ListComp(self, e):
        out = []
        self.comp(e.generators, 0, lambda: out.append(self.ev(e.elt)))
        return out

    def e_GeneratorExp(self, e):
        env = Env(self.env.module, self.env, self.env.name)
        env.nonlocals = dict(self.env.nonlocals)
        first = self.ev(e.generators[0].iter)
        return Iter(gen=self.lazy(e.generators, 0, env, e.elt, first))

    def lazy(self, gens, k, env, elt, it):
        for v in self.iterate(it, gens[k].iter):
            self.stack.append(env)
            try:
                self.assign(gens[k].target, v)
                if not all(self.truth(self.ev(c)) for c in gens[k].ifs):
                    continue
                if k + 1 < len(gens):
                    nxt = self.ev(gens[k + 1].iter)
                else:
                    v = self.ev(elt)
            finally:
                self.stack.pop()
            if k + 1 < len(gens):
                yield from self.lazy(gens, k + 1, env, elt, nxt)
            else:
                yield v

    def e_SetComp(self, e):
        return Set_(self.e_ListComp(e))

    def e_DictComp(self, e):
        d = D()

        def add():
            k = self.ev(e.key)
            d.set(k, self.ev(e.value))
        self.comp(e.generators, 0, add)
        return d

    def comp(self, gens, k, emit):
        if k == 0:
            env = Env(self.env.module, self.env, self.env.name)
            env.nonlocals = dict(self.env.nonlocals)
            self.stack.append(env)
            try:
                self.comp_(gens, 0, emit)
            finally:
                self.stack.pop()

    def comp_(self, gens, k, emit):
        if k == len(gens):
            return emit()
        g = gens[k]
        for v in self.iterate(self.ev(g.iter), g.iter):
            self.assign(g.target, v)
            if all(self.truth(self.ev(c)) for c in g.ifs):
                self.comp_(gens, k + 1, emit)

    def iterate(self, v, node, live=False):
        if isinstance(v, list):
            if live:
                k = 0
                while k < len(v):
                    yield v[k]
                    k += 1
                return
            yield from list(v)
            return
        yield from self.lib.iterate(v, node)

    # -------------------------------------------------------------- calls
    def e_Call(self, e):
        f = self.ev(e.func)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args.extend(self.iterate(self.ev(a.value), a))
            else:
                args.append(self.ev(a))
        kw = {}
        for k in e.keywords:
            v = self.ev(k.value)
            if k.arg is None:
                if isinstance(v, D):
                    for a, b in v.items():
                        kw[a] = b
                else:
                    raise Undecided('**')
            else:
                kw[k.arg] = v
        return self.call(f, args, kw, e)

    def call(self, f, args, kw, node):
        if isinstance(f, Fn):
            return self.call_fn(f, args, kw, node)
        if isinstance(f, X):
            if exc_base(f.name.split('.')[-1]) in EXC and \
                    f.name.split('.')[-1] in EXC:
                return T('exc', f.name.split('.')[-1], *args)
            return self.lib.call(f.name, args, kw, node)
        if isinstance(f, M):
            return self.lib.method(f.obj, f.name, args, kw, node)
        if callable(f) and not isinstance(f, (T, type)):
            return f(*args, **kw)
        if isinstance(f, T):
            return self.lib.call_term(f, args, kw, node)
        raise Undecided('call of %r' % (f,))

    def call_fn(self, f, args, kw, node):
        self.depth += 1
        if self.depth > 40:
            raise Undecided('recursion')
        q = f.module.name + '.' + f.name
        hook = self.opts.get('hooks', {}).get(q)
        if hook is not None:
            self.depth -= 1
            return hook(self, f, args, kw, node)
        self.visited.add(q)
        env = Env(f.module, f.env, f.name)
        self.bind(f, args, kw, env, node)
        self.stack.append(env)
        try:
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body)
            if any(isinstance(n, (ast.Yield, ast.YieldFrom))
                   for n in walk_own(f.node)):
                return self.generator(f, env)
            try:
                self.block(f.node.body)
            except Ret as r:
                return r.v
            return None
        finally:
            self.stack.pop()
            self.depth -= 1

    def generator(self, f, env):
        """the values a generator function yields (computed ahead, an
        endless one up to the loop bound)"""
        env.yields = []
        n = len(self.events)
        endless = False
        try:
            self.block(f.node.body)
        except Ret:
            pass
        except Cut:
            endless = True
        for e in self.events[n:]:
            if e.kind not in ('while', 'round', 'print'):
                raise Undecided('generator with effects')
        return Iter(env.yields, endless=endless)

    def e_Yield(self, e):
        v = None if e.value is None else self.ev(e.value)
        fr = self.env
        while fr is not None and not hasattr(fr, 'yields'):
            fr = fr.parent
        if fr is None:
            raise Undecided('yield')
        fr.yields.append(v)
        if len(fr.yields) > self.opts.get('unroll', 6) + 2:
            raise Cut('generator')
        return None

    def e_YieldFrom(self, e):
        for v in self.iterate(self.ev(e.value), e):
            self.env.yields.append(v)
            if len(self.env.yields) > self.opts.get('unroll', 6) + 2:
                raise Cut('generator')
        return None

    def bind(self, f, args, kw, env, node):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        kw = dict(kw)
        vals = dict(zip(names, args))
        extra = list(args[len(names):])
        if extra and a.vararg is None:
            raise PyExc('TypeError', 'lib', node)
        if a.vararg is not None:
            env.vars[a.vararg.arg] = tuple(extra)
        kwn = [x.arg for x in a.kwonlyargs]
        rest = D()
        for k, v in kw.items():
            if k in vals:
                raise PyExc('TypeError', 'lib', node)
            if k in names or k in kwn:
                vals[k] = v
            elif a.kwarg is not None:
                rest.set(k, v)
            else:
                raise PyExc('TypeError', 'lib', node)
        d, kd = f.defaults
        for n, v in zip(names[len(names) - len(d):], d):
            vals.setdefault(n, v)
        for x, dn, v in zip(a.kwonlyargs, a.kw_defaults, kd):
            if dn is not None:
                vals.setdefault(x.arg, v)
        for n in names + kwn:
            if n not in vals:
                raise PyExc('TypeError', 'lib', node)
        env.vars.update(vals)
        if a.kwarg is not None:
            env.vars[a.kwarg.arg] = rest


def walk_own(node):
    st = list(node.body) if isinstance(node.body, list) else [node.body]
    while st:
        n = st.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda)):
            continue
        st.extend(ast.iter_child_nodes(n))


def as_load(t):
    import copy
    t = copy.copy(t)
    t.ctx = ast.Load()
    return t


def explore(mods, driver, limit=4000, **opts):
    """all paths of driver(run) -> value; returns the outcomes"""
    outs = []
    todo = [[]]
    while todo:
        p = todo.pop()
        if len(outs) >= limit:
            raise Undecided('more than %d paths' % limit)
        r = Run(mods, p, opts)
        try:
            v = driver(r)
            o = Outcome(r, 'return', v)
        except PyExc as e:
            o = Outcome(r, 'raise', e)
        except Cut as e:
            o = Outcome(r, 'cut', e)
        outs.append(o)
        tr = [c for c, _ in r.trail]
        for k in range(len(p), len(r.trail)):
            for alt in range(1, r.trail[k][1]):
                todo.append(tr[:k] + [alt])
    return outs


def function(r, mod, name):
    from ..entry import Broken
    if mod not in r.mods:
        raise Broken('module %s is gone' % mod)
    m = r.mods[mod]
    if name not in m.funcs and name not in m.imports and \
            name not in m.consts:
        raise Broken('public function %s.%s is gone' % (mod, name))
    return r.module_value(name, m)


def call(r, mod, name, **kw):
    f = function(r, mod, name)
    me = r.module_env(r.mods[mod])
    r.stack.append(me)
    try:
        return r.call(f, [], kw, getattr(f, 'node', None))
    finally:
        r.stack.pop()
