"""Abstract interpreter over the syntax trees of the package.

One forward pass per entry point; branches are joined (decision diagrams),
loops are summarised in closed form, calls to functions of the package are
inlined, everything else comes from the tables in models.py or becomes an
opaque atom that marks the result as undecided.
"""
import ast
import copy
from .values import *
from . import values as V
from .terms import *


class _Gather(ast.NodeTransformer):
    """a generator function as the list of what it yields"""

    def visit_FunctionDef(self, n):
        return n

    visit_Lambda = visit_AsyncFunctionDef = visit_ClassDef = visit_FunctionDef

    def visit_Expr(self, n):
        if not isinstance(n.value, (ast.Yield, ast.YieldFrom)):
            return self.generic_visit(n)
        attr = 'append' if isinstance(n.value, ast.Yield) else 'extend'
        v = n.value.value or ast.Constant(None)
        c = ast.Call(ast.Attribute(ast.Name('__out', ast.Load()), attr,
                                   ast.Load()), [v], [])
        return ast.fix_missing_locations(
            ast.copy_location(ast.Expr(c), n))

    def visit_Return(self, n):
        return ast.fix_missing_locations(ast.copy_location(
            ast.Return(ast.Name('__out', ast.Load())), n))

    def visit_Yield(self, n):
        raise Unknown('value of a yield')

    visit_YieldFrom = visit_Yield


def _yields(n):
    todo = list(n.body)
    while todo:
        x = todo.pop()
        if isinstance(x, (ast.Yield, ast.YieldFrom)):
            return True
        if not isinstance(x, (ast.FunctionDef, ast.Lambda,
                              ast.AsyncFunctionDef, ast.ClassDef)):
            todo.extend(ast.iter_child_nodes(x))
    return False


_PRODUCED = {}


def produced(n):
    """body of a function; generators become list producers"""
    if n in _PRODUCED:
        return _PRODUCED[n]
    body = n.body
    if _yields(n):
        m = copy.deepcopy(n)
        g = _Gather()
        body = [g.visit(s) for s in m.body]
        first = ast.parse('__out = []').body
        last = ast.parse('return __out').body
        for x in first + last:
            for y in ast.walk(x):
                ast.copy_location(y, n)
        body = first + body + last
    _PRODUCED[n] = body
    return body


class Module:
    def __init__(self, name, path, tree, src):
        self.name = name
        self.path = path
        self.tree = tree
        self.src = src
        self.funcs = {}
        self.imports = {}
        self.consts = {}
        self.classes = {}
        for n in tree.body:
            self._top(n)

    def _top(self, n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            self.funcs[n.name] = n
        elif isinstance(n, ast.ClassDef):
            self.classes[n.name] = n
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            self.imports.update(import_names(n))
        elif isinstance(n, ast.Assign):
            for t in n.targets:
                for x in ast.walk(t):
                    if isinstance(x, ast.Name):
                        self.consts[x.id] = n
        elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) \
                and n.value is not None:
            self.consts[n.target.id] = n
        elif isinstance(n, (ast.If, ast.Try)):
            for b in ast.iter_child_nodes(n):
                if isinstance(b, ast.ExceptHandler):
                    for c in b.body:
                        self._top(c)
                elif isinstance(b, ast.stmt):
                    self._top(b)


def import_names(n):
    out = {}
    if isinstance(n, ast.Import):
        for a in n.names:
            if a.asname:
                out[a.asname] = a.name
            else:
                out[a.name.split('.')[0]] = a.name.split('.')[0]
    else:
        mod = ('.' * n.level) + (n.module or '')
        for a in n.names:
            out[a.asname or a.name] = mod + '.' + a.name
    return out


CANON = {'scipy.fftpack': 'scipy.fft',
         'scipy.ndimage.measurements': 'scipy.ndimage',
         'scipy.ndimage.interpolation': 'scipy.ndimage',
         'scipy.ndimage.filters': 'scipy.ndimage',
         'numpy.lib': 'numpy', 'numpy.core': 'numpy'}


def canon_ext(name):
    for k, v in CANON.items():
        if name == k or name.startswith(k + '.'):
            return v + name[len(k):]
    return name


class State:
    def __init__(self, env, heap, pc):
        self.env = env
        self.heap = heap
        self.pc = pc

    def fork(self):
        return State(dict(self.env), dict(self.heap), self.pc)


class Frame:
    def __init__(self, func):
        self.func = func
        self.returns = []
        self.loops = []        # stack of dicts with 'breaks', 'continues'


class Event:
    def __init__(self, kind, pc, node, func, module, loops, data):
        self.kind = kind
        self.pc = pc
        self.node = node
        self.func = func
        self.module = module
        self.loops = list(loops)
        self.data = data

    @property
    def where(self):
        return '%s:%s' % (self.module.path if self.module else '?',
                          getattr(self.node, 'lineno', '?'))


class Interp:
    MAXDEPTH = 18

    def __init__(self, modules, opaque=()):
        self.modules = modules          # name -> Module
        self.unrolled = 1
        self.opaque = set(opaque)       # functions kept as atoms
        self.events = []
        self.depth = 0
        self.next = 0
        self.frames = []
        self.loopctx = []
        self.notes = []
        self.visited = set()
        self.mod_env = {}
        from . import models
        self.models = models.Models(self)

    # ------------------------------------------------------------ plumbing
    def note(self, msg, node=None):
        self.notes.append((msg, getattr(node, 'lineno', None)))

    def unknown(self, why, node=None):
        self.note(why, node)
        return unk(why)

    def event(self, st, kind, node, **data):
        fr = self.frames[-1] if self.frames else None
        e = Event(kind, st.pc, node, fr.func.name if fr else '?',
                  fr.func.module if fr else None, self.loopctx, data)
        self.events.append(e)
        return e

    def new(self, st, content):
        self.next += 1
        st.heap[self.next] = content
        return Ref(self.next)

    def deref(self, st, v):
        if isinstance(v, Ref):
            return st.heap[v.id]
        return v

    def deep(self, st, v, seen=()):
        """value with all references replaced by contents"""
        if isinstance(v, Ref):
            if v.id in seen:
                return unk('cyclic')
            return self.deep(st, st.heap[v.id], seen + (v.id,))
        if isinstance(v, Tup):
            if any(not isinstance(x, Scalar) for x in v.items):
                return Tup([self.deep(st, x, seen) for x in v.items],
                           v.is_list)
            return v
        if isinstance(v, Lst):
            return Lst([self.deep_seg(st, s, seen) for s in v.segs], v.phi)
        if isinstance(v, DictV):
            return DictV({k: self.deep(st, x, seen)
                          for k, x in v.items.items()},
                         [self.deep_seg(st, s, seen) for s in v.rest])
        if isinstance(v, Choice):
            return vite(v.cond, self.deep(st, v.a, seen),
                        self.deep(st, v.b, seen))
        return v

    def deep_seg(self, st, s, seen=()):
        if isinstance(s, One):
            return One(self.deep(st, s.v, seen))
        if isinstance(s, Grd):
            return Grd(s.cond, [self.deep_seg(st, x, seen) for x in s.segs])
        return Map(s.i, s.n, [self.deep_seg(st, x, seen) for x in s.segs])

    def simp(self, st, v):
        """resolve Choice/Ite under the path condition"""
        if isinstance(v, Choice):
            c = under(v.cond, st.pc)
            if c == TRUE:
                return self.simp(st, v.a)
            if c == FALSE:
                return self.simp(st, v.b)
            if c is not v.cond:
                return Choice(c, v.a, v.b)
            return v
        if isinstance(v, Ite):
            return under(v, st.pc)
        return v

    # ------------------------------------------------------------ modules
    def module_value(self, name, module):
        """value of a module-level name"""
        key = (module.name, name)
        if key in self.mod_env:
            return self.mod_env[key]
        v = None
        if name in module.funcs:
            v = self.make_func(module.funcs[name], module, None,
                               State({}, {}, TRUE))
        elif name in module.consts:
            self.mod_env[key] = unk('recursive const')
            st = State({}, {}, TRUE)
            fn = Func(None, module, None, '<module>')
            self.frames.append(Frame(fn))
            try:
                self.exec_stmt(st, module.consts[name])
                v = self.deep(st, st.env.get(name, unk('const')))
            finally:
                self.frames.pop()
        elif name in module.imports:
            v = self.resolve_import(module.imports[name], module)
        elif name in module.classes:
            v = Ext('class:' + module.name + '.' + name)
        if v is not None:
            self.mod_env[key] = v
        return v

    def resolve_import(self, dotted, module):
        if dotted.startswith('.'):
            lvl = len(dotted) - len(dotted.lstrip('.'))
            base = module.name.split('.')[:-lvl]
            dotted = '.'.join(base + [dotted.lstrip('.')])
        if dotted in self.modules:
            return Ext(dotted)
        pk, _, nm = dotted.rpartition('.')
        if pk in self.modules:
            r = self.module_value(nm, self.modules[pk])
            if r is not None:
                return r
        return Ext(canon_ext(dotted))

    def make_func(self, node, module, env, st):
        d = [self.ev(st, x) for x in node.args.defaults]
        kd = {a.arg: self.ev(st, x)
              for a, x in zip(node.args.kwonlyargs, node.args.kw_defaults)
              if x is not None}
        f = Func(node, module, env, getattr(node, 'name', '<lambda>'), d, kd)
        for dec in reversed(getattr(node, 'decorator_list', [])):
            if isinstance(dec, ast.Name) or isinstance(dec, ast.Attribute) \
                    or isinstance(dec, ast.Call):
                try:
                    dv = self.ev_in_module(dec, module, st)
                except Exception:
                    dv = None
                if isinstance(dv, Func):
                    fr = Frame(Func(None, module, None, '<decorator>'))
                    self.frames.append(fr)
                    try:
                        r = self.call_func(st, dv, [f], {}, dec)
                    finally:
                        self.frames.pop()
                    r = self.deref(st, r)
                    if isinstance(r, (Func, Part)):
                        f = r
        return f

    def ev_in_module(self, node, module, st):
        self.frames.append(Frame(Func(None, module, None, '<module>')))
        try:
            return self.ev(State({}, st.heap, TRUE), node)
        finally:
            self.frames.pop()

    # ------------------------------------------------------------ calls
    def call_func(self, st, f, args, kwargs, node):
        """inline a function of the package (or of a specification)"""
        n = f.node
        if n is None:
            return self.unknown('call %s' % f.name, node)
        qn = (f.module.name + '.' + f.name) if f.module else f.name
        if f.name in self.opaque or qn in self.opaque:
            return self.opaque_call(st, f, args, kwargs, node)
        if self.depth > self.MAXDEPTH or \
                sum(1 for fr in self.frames if fr.func.node is n) > 1:
            return self.unknown('recursion %s' % f.name, node)
        self.visited.add(qn)
        try:
            env = self.bind(st, f, args, kwargs)
        except Unknown as e:
            return self.unknown('bind %s: %s' % (f.name, e), node)
        new = State(env, st.heap, st.pc)
        fr = Frame(f)
        self.frames.append(fr)
        self.depth += 1
        try:
            if isinstance(n, ast.Lambda):
                v = self.ev(new, n.body)
                st.heap = new.heap
                return v
            try:
                body = produced(n)
            except Unknown as e:
                return self.unknown(str(e), node)
            end = self.exec_block(new, body)
            rets = list(fr.returns)
            if end is not None:
                rets.append((end, NONE))
        finally:
            self.frames.pop()
            self.depth -= 1
        if not rets:
            st.pc = FALSE
            return unk('noreturn')
        pc0 = st.pc
        acc, val = rets[-1]
        acc = State({}, acc.heap, acc.pc)
        for s, v in reversed(rets[:-1]):
            c = s.pc
            val = self.merge_val(c, v, val, s, acc)
            acc = State({}, self.merge_heap(c, s.heap, acc.heap),
                        or_(c, acc.pc))
        st.heap = acc.heap
        st.pc = acc.pc
        return self.simp_deep(State({}, st.heap, pc0), val)

    def merge_val(self, c, a, b, sa, sb):
        if isinstance(a, Ref) and isinstance(b, Ref) and a.id == b.id:
            return a
        if isinstance(a, Ref) or isinstance(b, Ref):
            da = self.deep(sa, a)
            db = self.deep(sb, b)
            return vite(c, da, db)
        if isinstance(a, Tup) and isinstance(b, Tup) and \
                len(a.items) == len(b.items):
            return Tup([self.merge_val(c, x, y, sa, sb)
                        for x, y in zip(a.items, b.items)], a.is_list)
        return vite(c, a, b)

    def simp_deep(self, st, v):
        if isinstance(v, Tup):
            return Tup([self.simp_deep(st, x) for x in v.items], v.is_list)
        return self.simp(st, v)

    def opaque_call(self, st, f, args, kwargs, node):
        env = self.bind(st, f, args, kwargs)
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        if a.vararg:
            names.append(a.vararg.arg)
        if a.kwarg:
            names.append(a.kwarg.arg)
        parts = []
        for nm in names:
            parts.append((nm, reify(self.deep(st, env[nm]))))
        key = Struct('call:' + f.name, tuple(parts))
        self.event(st, 'call:' + f.name, node,
                   args={nm: self.deep(st, env[nm]) for nm in names})
        t = of_atom(atom('res:' + f.name, (key,)))
        h = self.models.opaque_results.get(f.name)
        if h is not None:
            r = h(self.models, t, {nm: self.deep(st, env[nm])
                                   for nm in names})
            if r is not None:
                return self.cell(st, r)
        return t

    def bind(self, st, f, args, kwargs):
        a = f.node.args
        env = dict(f.env) if f.env else {}
        params = [x.arg for x in a.posonlyargs + a.args]
        pos = []          # flattened positional values; Lst tail allowed
        tail = None
        for x in args:
            if isinstance(x, tuple) and x[0] == '*':
                v = self.deref(st, x[1])
                for s in segs_of(v):
                    if isinstance(s, One) and tail is None:
                        pos.append(s.v)
                    else:
                        tail = (tail or []) + [s]
            else:
                if tail is not None:
                    tail.append(One(x))
                else:
                    pos.append(x)
        kw = dict(kwargs)
        extra = kw.pop('**', None)
        vals = {}
        for nm, v in zip(params, pos):
            vals[nm] = v
        rest = [One(v) for v in pos[len(params):]] + (tail or [])
        if tail and len(pos) < len(params):
            raise Unknown('star args')
        if a.vararg:
            if all(isinstance(s, One) for s in rest):
                vals[a.vararg.arg] = Tup([s.v for s in rest])
            else:
                vals[a.vararg.arg] = Lst(rest)
        elif rest:
            raise Unknown('too many arguments')
        kwrest = {}
        names = params + [x.arg for x in a.kwonlyargs]
        if isinstance(extra, Ref):
            extra = self.deref(st, extra)
        if isinstance(extra, DictV) and not extra.rest:
            for k, v in extra.items.items():
                kw.setdefault(k, v)
            extra = None
        for k, v in kw.items():
            if k in names:
                if k in vals:
                    raise Unknown('duplicate argument ' + k)
                vals[k] = v
            elif a.kwarg:
                kwrest[k] = v
            else:
                raise Unknown('unexpected keyword ' + k)
        nd = len(f.defaults)
        for k, nm in enumerate(params):
            if nm not in vals:
                j = k - (len(params) - nd)
                if j < 0:
                    raise Unknown('missing argument ' + nm)
                vals[nm] = f.defaults[j]
        for x in a.kwonlyargs:
            if x.arg not in vals:
                if x.arg in f.kwdefaults:
                    vals[x.arg] = f.kwdefaults[x.arg]
                else:
                    raise Unknown('missing argument ' + x.arg)
        if a.kwarg:
            if extra is not None and not kwrest:
                vals[a.kwarg.arg] = extra
            else:
                vals[a.kwarg.arg] = DictV(kwrest)
        for k, v in vals.items():
            env[k] = self.cell(st, v)
        return env

    def cell(self, st, v):
        """bind a mutable container to a heap cell"""
        if isinstance(v, (Arr, DictV, Lst)) or \
                (isinstance(v, Tup) and v.is_list):
            return self.new(st, v)
        return v

    def split(self, st, c, fa, fb):
        """evaluate under c and under not c, merge the results"""
        sa = st.fork()
        sa.pc = and_(st.pc, c)
        sb = st.fork()
        sb.pc = and_(st.pc, not_(c))
        if sa.pc == FALSE:
            return fb(st)
        if sb.pc == FALSE:
            return fa(st)
        va = fa(sa)
        vb = fb(sb)
        r = self.merge_val(c, va, vb, sa, sb)
        st.heap = self.merge_heap(c, sa.heap, sb.heap)
        return self.cell(st, r)

    def call(self, st, f, args, kwargs, node):
        f = self.simp(st, self.deref(st, f))
        if isinstance(f, Choice):
            return self.split(
                st, f.cond,
                lambda s: self.call(s, f.a, args, kwargs, node),
                lambda s: self.call(s, f.b, args, kwargs, node))
        if isinstance(f, Func):
            return self.call_func(st, f, args, kwargs, node)
        if isinstance(f, Part):
            kw = dict(f.kwargs)
            kw.update(kwargs)
            return self.call(st, f.f, list(f.args) + list(args), kw, node)
        if isinstance(f, Poly1d):
            return self.models.polyval(st, f.coefs,
                                       self.deref(st, args[0]))
        try:
            if isinstance(f, Ext):
                return self.models.call_ext(st, f.name, args, kwargs, node)
            if isinstance(f, Meth):
                return self.models.call_method(st, f, args, kwargs, node)
        except (Unknown, Limit) as e:
            nm = f.name
            return self.unknown('%s: %s' % (nm, e), node)
        except (AttributeError, TypeError, KeyError, IndexError,
                ValueError, ZeroDivisionError) as e:
            return self.unknown('model %s: %r' % (f.name, e), node)
        return self.unknown('call of %s' % type(f).__name__, node)

    # ------------------------------------------------------------ statements
    def exec_block(self, st, stmts):
        for s in stmts:
            st = self.exec_stmt(st, s)
            if st is None:
                return None
            if st.pc == FALSE:
                return None
        return st

    def exec_stmt(self, st, s):
        try:
            m = getattr(self, 'x_' + type(s).__name__, None)
            if m is None:
                self.note('statement ' + type(s).__name__, s)
                self.havoc(st, [s])
                return st
            return m(st, s)
        except (Limit, Unknown) as e:
            self.note('%s: %s' % (type(s).__name__, e), s)
            self.havoc(st, [s])
            return st

    def havoc(self, st, stmts):
        for nm in assigned_names(stmts):
            st.env[nm] = unk('havoc ' + nm)

    def x_Expr(self, st, s):
        self.ev(st, s.value)
        return st if st.pc != FALSE else None

    def x_Pass(self, st, s):
        return st

    x_Global = x_Nonlocal = x_Pass

    def x_Import(self, st, s):
        for k, v in import_names(s).items():
            st.env[k] = self.resolve_import(v, self.frames[-1].func.module)
        return st

    x_ImportFrom = x_Import

    def x_FunctionDef(self, st, s):
        f = self.make_func(s, self.frames[-1].func.module, None, st)
        if isinstance(f, Func):
            env = dict(st.env)
            f.env = env
            env[s.name] = f
        st.env[s.name] = f
        return st

    def x_ClassDef(self, st, s):
        st.env[s.name] = unk('class')
        return st

    def x_Assign(self, st, s):
        v = self.ev(st, s.value)
        if st.pc == FALSE:
            return None
        for t in s.targets:
            self.assign(st, t, v)
        return st

    def x_AnnAssign(self, st, s):
        if s.value is not None:
            self.assign(st, s.target, self.ev(st, s.value))
        return st

    def x_AugAssign(self, st, s):
        load = _as_load(s.target)
        cur = self.ev(st, load)
        v = self.ev(st, s.value)
        c = self.deref(st, cur)
        if isinstance(cur, Ref) and isinstance(s.op, ast.Add) and \
                (isinstance(c, Lst) or (isinstance(c, Tup) and c.is_list)):
            self.list_extend(st, cur, v)
            return st
        r = self.binop(st, s.op, cur, v, s)
        if isinstance(cur, Ref) and isinstance(c, Arr):
            st.heap[cur.id] = self.deref(st, r)
            if not isinstance(s.target, ast.Name):
                self.assign(st, s.target, r)
            return st
        self.assign(st, s.target, r)
        return st

    def x_Delete(self, st, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                b = self.ev(st, t.value)
                if isinstance(b, Ref):
                    st.heap[b.id] = unk('del item')
        return st

    def x_Return(self, st, s):
        v = NONE if s.value is None else self.ev(st, s.value)
        if st.pc == FALSE:
            return None
        self.frames[-1].returns.append((st.fork(), v))
        for l in self.frames[-1].loops:
            l['returned'] = True
        return None

    def x_Raise(self, st, s):
        name, v = None, None
        if s.exc is not None:
            e = s.exc
            if isinstance(e, ast.Call):
                f = self.ev(st, e.func)
                name = f.name if isinstance(f, (Ext, Func)) else None
                for a in e.args:
                    self.ev(st, a)
                if isinstance(f, Func):
                    v = self.deref(st, self.call(
                        st, f, [self.ev(st, a) for a in e.args], {}, e))
            else:
                f = self.ev(st, e)
                if isinstance(f, Ext):
                    name = f.name
                else:
                    a = the_atom(f) if isinstance(f, Rat) else None
                    if a is not None and a.kind == 'excobj':
                        name = a.args[0]
                    elif a is not None and a.kind.startswith('x:'):
                        name = a.kind[2:]
                    else:
                        name = 'object'
        self.event(st, 'raise', s, exc=name, bare=s.exc is None)
        return None

    def x_Assert(self, st, s):
        c = self.truth(st, self.ev(st, s.test))
        self.event(State(st.env, st.heap, and_(st.pc, not_(c))), 'raise', s,
                   exc='builtins.AssertionError', bare=False)
        st.pc = and_(st.pc, c)
        return st if st.pc != FALSE else None

    def x_If(self, st, s):
        c = self.truth(st, self.ev(st, s.test))
        if st.pc == FALSE:
            return None
        c = under(c, st.pc)
        if c == TRUE:
            return self.exec_block(st, s.body)
        if c == FALSE:
            return self.exec_block(st, s.orelse)
        a = st.fork()
        a.pc = and_(st.pc, c)
        b = st.fork()
        b.pc = and_(st.pc, not_(c))
        if a.pc == FALSE:
            return self.exec_block(b, s.orelse)
        if b.pc == FALSE:
            return self.exec_block(a, s.body)
        a = self.exec_block(a, s.body)
        b = self.exec_block(b, s.orelse)
        return self.join(c, a, b)

    def join(self, c, a, b):
        if a is None:
            return b
        if b is None:
            return a
        env = {}
        for k in set(a.env) | set(b.env):
            if k in a.env and k in b.env:
                x, y = a.env[k], b.env[k]
                if x is y:
                    env[k] = x
                    continue
                v = self.merge_val(c, x, y, a, b)
                env[k] = v
            else:
                env[k] = a.env[k] if k in a.env else b.env[k]
        heap = self.merge_heap(c, a.heap, b.heap)
        st = State(env, heap, or_(a.pc, b.pc))
        for k, v in list(env.items()):
            if isinstance(v, (Arr, DictV, Lst)) or \
                    (isinstance(v, Tup) and v.is_list):
                env[k] = self.new(st, v)
        return st

    def merge_heap(self, c, ha, hb):
        if ha is hb:
            return dict(ha)
        out = {}
        for k in set(ha) | set(hb):
            if k in ha and k in hb:
                x, y = ha[k], hb[k]
                out[k] = x if x is y else self.merge_content(c, x, y)
            else:
                out[k] = ha[k] if k in ha else hb[k]
        return out

    def merge_content(self, c, x, y):
        lx, ly = getattr(x, 'log', None), getattr(y, 'log', None)
        bx = getattr(x, 'log_base', x)
        by = getattr(y, 'log_base', y)
        if isinstance(x, Arr) and isinstance(y, Arr) and bx is by and \
                (lx is not None or ly is not None):
            lx, ly = lx or (), ly or ()
            k = 0
            while k < len(lx) and k < len(ly) and lx[k] is ly[k]:
                k += 1
            ent = list(lx[:k])
            for g, sp, v, q in lx[k:]:
                ent.append((and_(g, c), sp, v, q))
            for g, sp, v, q in ly[k:]:
                ent.append((and_(g, not_(c)), sp, v, q))
            return self.log_arr(bx, ent)
        return vite(c, x, y)

    def x_With(self, st, s):
        vals = []
        for it in s.items:
            v = self.ev(st, it.context_expr)
            self.event(st, 'enter', it.context_expr, value=self.deref(st, v))
            if it.optional_vars is not None:
                self.assign(st, it.optional_vars, v)
            vals.append((v, it))
        n = len(self.frames[-1].returns)
        st = self.exec_block(st, s.body)
        for v, it in reversed(vals):
            if st is not None:
                self.event(st, 'exit', it.context_expr,
                           value=self.deref(st, v))
        return st

    def x_Try(self, st, s):
        if s.body and all(isinstance(x, (ast.Import, ast.ImportFrom))
                          for x in s.body):
            # optional dependencies are taken to be installed
            end = self.exec_block(st, s.body + s.orelse + s.finalbody)
            return end
        st0 = st.fork()
        ev0 = len(self.events)
        nret = len(self.frames[-1].returns)
        end = self.exec_block(st, s.body)
        if end is not None and s.orelse:
            end = self.exec_block(end, s.orelse)
        outs = []
        for h in s.handlers:
            self.next += 1
            p = atom('exc', ('%s' % self.next,), boolean=True, unk=True)
            hs = st0.fork()
            hs.pc = and_(st0.pc, pred_(p))
            for nm in assigned_names(s.body):
                hs.env[nm] = unk('after exception: ' + nm)
            if h.name:
                hs.env[h.name] = of_atom(atom('excobj', ('caught',)))
            self.event(hs, 'handler', h, names=exc_names(h))
            out = self.exec_block(hs, h.body)
            if out is not None:
                outs.append((pred_(p), out))
        for c, o in outs:
            if end is None:
                end = o
            else:
                end = self.join(c, o, end)
        if s.finalbody:
            if end is not None:
                end = self.exec_block(end, s.finalbody)
            else:
                # the clean-up still runs on the way out
                tmp = st0.fork()
                self.exec_block(tmp, s.finalbody)
        return end

    x_TryStar = x_Try

    def x_Break(self, st, s):
        if self.frames[-1].loops:
            self.frames[-1].loops[-1]['breaks'].append(st.fork())
        return None

    def x_Continue(self, st, s):
        if self.frames[-1].loops:
            self.frames[-1].loops[-1]['continues'].append(st.fork())
        return None

    def x_Match(self, st, s):
        self.havoc(st, [s])
        self.note('match statement', s)
        return st

    # ------------------------------------------------------------ loops
    def x_For(self, st, s):
        it = self.ev(st, s.iter)
        try:
            segs = self.iter_segs(st, it)
        except Unknown as e:
            self.note('iteration over unknown: %s' % e, s)
            return self.loop_unknown(st, s.body, s.target, s)
        breaks = []
        r = self.run_segs(st, segs, s.target, s.body, breaks, s)
        if r is not None and s.orelse:
            r = self.exec_block(r, s.orelse)
        for b in breaks:
            r = b if r is None else self.join(b.pc, b, r)
        return r

    def iter_segs(self, st, it):
        v = self.deref(st, it)
        v = self.simp(st, v)
        if isinstance(v, Choice):
            va, vb = self.deep(st, v.a), self.deep(st, v.b)
            return [Grd(v.cond, segs_of(va)), Grd(not_(v.cond), segs_of(vb))]
        if isinstance(v, Scalar):
            return self.models.iter_scalar(st, v)
        if isinstance(v, Lst) and v.phi is not None:
            raise Unknown('list growing in the loop')
        return segs_of(v)

    def run_segs(self, st, segs, target, body, breaks, node):
        for seg in segs:
            if st is None:
                return None
            if isinstance(seg, One):
                self.frames[-1].loops.append({'breaks': [], 'continues': []})
                self.assign(st, target, seg.v)
                e = self.exec_block(st, body)
                l = self.frames[-1].loops.pop()
                for c in l['continues']:
                    e = c if e is None else self.join(c.pc, c, e)
                breaks.extend(l['breaks'])
                st = e
            elif isinstance(seg, Grd):
                c = under(seg.cond, st.pc)
                if c == FALSE:
                    continue
                a, b = st.fork(), st.fork()
                a.pc = and_(st.pc, c)
                b.pc = and_(st.pc, not_(c))
                a = self.run_segs(a, seg.segs, target, body, breaks, node)
                st = self.join(c, a, b) if b.pc != FALSE else a
            else:
                st = self.run_map(st, seg, target, body, node)
        return st

    def run_map(self, st, seg, target, body, node):
        """summarise   for seg.i in range(seg.n): target = ...; body"""
        c = is_cst(seg.n)
        if c is not NOTC and c.denominator == 1 and \
                c * self.unrolled <= 16:
            breaks = []
            was = self.unrolled
            self.unrolled = was * max(int(c), 1)
            for k in range(int(c)):
                m = {sym_name(seg.i): num_(k)}
                st = self.run_segs(st, [ssubst(x, m) for x in seg.segs],
                                   target, body, breaks, node)
                if st is None:
                    break
            self.unrolled = was
            for b in breaks:
                st = b if st is None else self.join(b.pc, b, st)
            return st
        names = assigned_names(body) | target_names(target)
        i, n = seg.i, seg.n
        nm_i = sym_name(i)

        def one_pass(phi_cells):
            w = st.fork()
            phis = {}
            for nm in sorted(names):
                if nm in w.env and nm not in target_names(target):
                    w.env[nm], ph = self.phi_value(w, nm, w.env[nm])
                    phis.update(ph)
            cells = {}
            for cid in phi_cells:
                w.heap[cid], ph = self.phi_cell(cid, st.heap[cid])
                cells[cid] = w.heap[cid]
                phis.update(ph)
            fr = self.frames[-1]
            fr.loops.append({'breaks': [], 'continues': [],
                             'returned': False})
            nret = len(fr.returns)
            # is the loop known to run?  facts inside: 0 <= i < n
            self.loopctx.append((i, n))
            breaks = []
            try:
                end = self.run_segs(w, seg.segs, target, body, breaks, node)
            finally:
                self.loopctx.pop()
            l = fr.loops.pop()
            ab = bool(breaks) or bool(l['breaks']) or \
                len(fr.returns) > nret
            return end, phis, cells, ab, nret

        ev0 = len(self.events)
        nn = self.next
        end, phis, cells, ab, nret = one_pass(())
        mutated = set()
        if end is not None:
            for cid, content in st.heap.items():
                if end.heap.get(cid) is not content:
                    mutated.add(cid)
        if mutated:
            del self.events[ev0:]
            del self.frames[-1].returns[nret:]
            end, phis, cells, ab, nret = one_pass(mutated)
        if end is None or ab:
            # early exits: give up on everything the loop touches
            out = st.fork()
            for nm in names:
                out.env[nm] = unk('loop exit ' + nm)
            for cid in mutated:
                out.heap[cid] = unk('loop exit')
            if len(self.frames[-1].returns) > nret:
                rs = self.frames[-1].returns
                for k in range(nret, len(rs)):
                    rs[k] = (rs[k][0], unk('return in loop'))
            if end is None and not ab:
                return st
            out.pc = st.pc
            return out
        return self.close_loop(st, end, i, n, names, phis, cells, target,
                               ev0, node)

    def phi_value(self, st, nm, v):
        """placeholder for the value a variable has at the loop head"""
        d = v
        if isinstance(d, Scalar):
            p = fresh('phi_' + nm, integer=is_int(d), lb=None)
            return p, {sym_name(p): ('var', nm, d)}
        if isinstance(d, Tup) and not d.is_list and \
                all(isinstance(x, Scalar) for x in d.items):
            out, ph = [], {}
            for k, x in enumerate(d.items):
                p = fresh('phi_%s_%d' % (nm, k), integer=is_int(x), lb=None)
                out.append(p)
                ph[sym_name(p)] = ('tup', nm, k, x)
            return Tup(out), ph
        if isinstance(d, Ref):
            c = st.heap[d.id]
            if isinstance(c, Arr) and c.gen is None:
                a, ph = self.phi_arr(nm, c)
                return self.new(st, a), ph
            return d, {}
        return d, {}

    def phi_arr(self, nm, c):
        p = fresh('phi_' + str(nm), integer=False, lb=None)
        pn = sym_name(p)
        a = Arr(c.dims, lambda idx: of_atom(atom('phiel', (p,) +
                                                 tuple(idx))))
        a.phi = pn
        a.dtype = getattr(c, 'dtype', None)
        return a, {pn: ('arr', nm, c)}

    def phi_cell(self, cid, content):
        if isinstance(content, Arr):
            a, ph = self.phi_arr('cell%d' % cid, content)
            return a, ph
        if isinstance(content, Lst) or (isinstance(content, Tup)
                                        and content.is_list):
            return Lst((), phi=cid), {}
        if isinstance(content, DictV):
            d = DictV({}, [])
            d.phi = cid
            return d, {}
        return unk('cell'), {}

    def close_loop(self, st, end, i, n, names, phis, cells, target, ev0,
                   node):
        nm_i = sym_name(i)
        out = st.fork()
        # ---- scalar recurrences
        new = {}
        for p, info in phis.items():
            if info[0] == 'var':
                v = end.env.get(info[1])
                new[p] = (v, info[2])
            elif info[0] == 'tup':
                v = end.env.get(info[1])
                v = v.items[info[2]] if isinstance(v, Tup) and \
                    len(v.items) > info[2] else unk('tuple')
                new[p] = (v, info[3])
        head = {}      # phi -> value at the head of iteration i
        final = {}
        work = dict(new)
        progress = True
        while work and progress:
            progress = False
            for p in list(work):
                v, init = work[p]
                if not isinstance(v, Scalar):
                    continue
                v2 = subst(v, head)
                others = [q for q in work if q != p and q in v2.syms]
                others += [q for q in phis if q not in new and q in v2.syms]
                if others:
                    continue
                r = self.solve(p, v2, init, i, n)
                if r is not None:
                    head[p], final[p] = r
                    del work[p]
                    progress = True
        for p, (v, init) in work.items():
            head[p], final[p] = self.no_closed_form(p, init, i, n)
        # ---- arrays accumulated under a name
        arrs = {}
        for p, info in phis.items():
            if info[0] == 'arr' and not str(info[1]).startswith('cell'):
                r = end.env.get(info[1])
                v = self.deref(end, r)
                arrs[info[1]] = self.close_arr(p, info[2], v, i, n, head)
                self.no_closed_array(p, arrs, info, i, n, head)

        sub_head = head

        def fin(v):
            """value of a loop-defined variable after the loop"""
            v = vsubst(v, sub_head)
            return vsubst(v, {nm_i: sub(n, num_(1))})
        # ---- mutated cells
        for cid in cells:
            c = end.heap[cid]
            base = st.heap[cid]
            if isinstance(c, Lst) and (isinstance(base, Lst) or
                                       isinstance(base, Tup)):
                if c.phi != cid:
                    out.heap[cid] = unk('list rebuilt')
                    continue
                segs = [ssubst(self.deep_seg(end, s), sub_head)
                        for s in c.segs]
                out.heap[cid] = Lst(list(segs_of(base)) + [Map(i, n, segs)],
                                    getattr(base, 'phi', None))
            elif isinstance(c, Arr) and isinstance(base, Arr):
                pn = getattr(cells[cid], 'phi', None)
                out.heap[cid] = self.close_store(pn, base, c, i, n, sub_head)
            elif isinstance(c, DictV) and isinstance(base, DictV):
                rest = list(base.rest)
                if c.items:
                    base.items.update({k: fin(self.deep(end, x))
                                       for k, x in c.items.items()})
                segs = [ssubst(self.deep_seg(end, s), sub_head)
                        for s in c.rest]
                if segs:
                    rest = rest + [Map(i, n, segs)]
                out.heap[cid] = DictV(base.items, rest)
            else:
                out.heap[cid] = unk('cell')
        # ---- variables
        for nm in names:
            if nm not in end.env:
                continue
            ps = [p for p, info in phis.items() if info[1] == nm and
                  info[0] == 'var']
            if ps:
                out.env[nm] = final[ps[0]]
                continue
            ps = sorted((info[2], p) for p, info in phis.items()
                        if info[0] == 'tup' and info[1] == nm)
            if ps:
                out.env[nm] = Tup([final[p] for _, p in ps])
                continue
            if nm in arrs:
                out.env[nm] = self.new(out, arrs[nm])
                continue
            v = end.env[nm]
            if isinstance(v, Ref) and nm in st.env and \
                    isinstance(st.env[nm], Ref) and st.env[nm].id == v.id:
                continue
            try:
                out.env[nm] = self.cell(out, fin(self.deep(end, v)))
            except (Unknown, Limit):
                out.env[nm] = unk('after loop ' + nm)
        # ---- events
        for e in self.events[ev0:]:
            e.pc = subst(e.pc, sub_head)
            e.data = {k: vsubst_any(x, sub_head) for k, x in e.data.items()}
            e.loops = [(a, subst(b, sub_head)) for a, b in e.loops]
        out.pc = st.pc
        return out

    def no_closed_form(self, p, init, i, n):
        return unk('recurrence'), unk('recurrence')

    def no_closed_array(self, p, arrs, info, i, n, head):
        pass

    def solve(self, p, v, init, i, n):
        """closed form of  x := v(x)  -> (value at head, value after)"""
        nm_i = sym_name(i)
        px = of_atom(sym(p))
        if p not in v.syms:
            # overwritten: head value is the previous iteration's
            fin = subst(v, {nm_i: sub(n, num_(1))})
            prev = subst(v, {nm_i: sub(i, num_(1))})
            if nm_i not in v.syms and v == init:
                return init, init
            head = ite(eq0(i), init, prev) if isinstance(init, Scalar) \
                else unk('head')
            return head, fin
        if v == px:
            return init, init
        # flags:  g(i) ? const : x
        fl = self.flag(p, v)
        if fl is not None:
            g, c = fl
            t = fresh('t')
            before = self.exists(t, i, subst(g, {nm_i: t}))
            after = self.exists(t, n, subst(g, {nm_i: t}))
            return ite(before, c, init), ite(after, c, init)
        d = None
        try:
            d = sub(v, px)
        except Limit:
            return None
        if p not in d.syms:
            t = fresh('t')
            dt = subst(d, {nm_i: t})
            return add(init, sum_(t, i, dt)), add(init, sum_(t, n, dt))
        if isinstance(v, Rat):
            # linear in x?
            q = subst(v, {p: num_(0)})
            r = sub(v, q)
            k = div(r, px)
            if isinstance(k, Rat) and p not in k.syms and p not in q.syms \
                    and nm_i not in k.syms:
                t = fresh('t')
                qt = subst(q, {nm_i: t})
                hd = mul(init, power(k, i))
                fi = mul(init, power(k, n))
                if q.num:
                    hd = add(hd, sum_(t, i, mul(qt, power(
                        k, sub(sub(i, num_(1)), t)))))
                    fi = add(fi, sum_(t, n, mul(qt, power(
                        k, sub(sub(n, num_(1)), t)))))
                return hd, fi
            a = the_atom(v)
            if a is not None and a.kind in ('min', 'max') and \
                    px in a.args:
                rest = [x for x in a.args if x != px]
                if all(p not in x.syms for x in rest):
                    f = mk_min if a.kind == 'min' else mk_max
                    e = rest[0] if len(rest) == 1 else f(*rest)
                    red = of_atom(atom('r' + a.kind, (lam([i], [n], e),)))
                    return unk('running ' + a.kind), f(init, red)
        return None

    def flag(self, p, v):
        """(g, c) when v == ite(g, c, x) with constant c"""
        px = of_atom(sym(p))
        consts = set()

        def leaves(t):
            if isinstance(t, Ite):
                if p in t.pred.syms:
                    consts.add(None)
                leaves(t.hi)
                leaves(t.lo)
            elif t == px:
                pass
            elif is_cst(t) is not NOTC:
                consts.add(t)
            else:
                consts.add(None)
        leaves(v)
        if len(consts) != 1 or None in consts:
            return None
        c = consts.pop()

        def g(t):
            if isinstance(t, Ite):
                return mk_ite(t.pred, g(t.hi), g(t.lo))
            return FALSE if t == px else TRUE
        return g(v), c

    def exists(self, t, n, cond):
        if cond == FALSE:
            return FALSE
        return pred_(atom('exists', (lam([t], [n], cond),), boolean=True))

    def close_arr(self, p, base, v, i, n, head):
        if not isinstance(v, Arr):
            return unk('array recurrence')
        px = of_atom(sym(p))
        nm_i = sym_name(i)
        fr = [fresh('x') for _ in v.dims]
        try:
            el = subst(v.get(fr), head)
        except (Unknown, Limit):
            return unk('array recurrence')
        old = of_atom(atom('phiel', (px,) + tuple(fr)))
        ph = fresh('ph', lb=None, integer=False)
        el2 = replace_atom(el, the_atom(old), ph)
        if p in el2.syms:
            return unk('array recurrence')
        r = self.solve(sym_name(ph), el2, base.get(fr), i, n)
        if r is None:
            return unk('array recurrence')
        fin = r[1]
        names = [sym_name(f) for f in fr]
        return Arr(base.dims, lambda idx: subst(fin, dict(zip(names, idx))))

    # ------------------------------------------------ stores into arrays
    # A store log entry is (guard, specs, value, loops): loops are the
    # (variable, count) pairs the store is repeated over, innermost first.
    def match(self, specs, v, idx):
        """(condition, value) of reading idx after a store"""
        c = TRUE
        sub_idx = []
        for k, (sp, x) in enumerate(zip(specs, idx)):
            if sp[0] == 'i':
                c = and_(c, eq0(sub(x, sp[1])))
            elif sp[0] == 'r':
                lo, hi, step, full = sp[1:]
                rel = sub(x, lo)
                if not full:
                    c = and_(c, and_(cmp_le(lo, x), cmp_lt(x, hi)))
                    if step is not None and step != num_(1):
                        c = and_(c, eq0(mod_(rel, step)))
                        rel = floordiv(rel, step)
                sub_idx.append(rel)
            elif sp[0] == 'mask':
                c = and_(c, as_bool(sp[1].get(idx)))
                sub_idx = list(idx)
                break
            else:
                raise Unknown('scatter')
        if isinstance(v, Scalar):
            return c, v
        if isinstance(v, Arr):
            k = v.ndim
            si = sub_idx[-k:] if k else []
            si = [num_(0) if is_cst(d) == 1 and len(sub_idx) else s
                  for d, s in zip(v.dims, si)]
            return c, v.get(si)
        raise Unknown('store value')

    def close_store(self, pn, base, c, i, n, head):
        """array content after a loop of stores"""
        nm_i = sym_name(i)
        log = getattr(c, 'log', None)
        if log is None or getattr(c.log_base, 'phi', None) != pn:
            # rebuilt by whole-array operations: accumulation
            if pn is not None and isinstance(c, Arr):
                return self.close_arr(pn, base, c, i, n, head)
            return unk('array in loop')
        px = of_atom(sym(pn))
        ents = []
        for g, specs, v, qs in log:
            g = subst(g, head)
            v = vsubst(v, head)
            specs = [tuple(vsubst(x, head) if isinstance(x, (Scalar, Arr))
                           else x for x in sp) for sp in specs]
            qs = tuple((a, subst(b, head)) for a, b in qs)
            ents.append((g, specs, v, qs))
        # reads of the array inside the loop
        for g, specs, v, qs in ents:
            if not (reads(v, pn) or pn in g.syms):
                continue
            if len(ents) != 1 or not isinstance(v, Scalar) or \
                    not all(sp[0] == 'i' for sp in specs) or pn in g.syms:
                return unk('array recurrence')
            at = [sp[1] for sp in specs]
            cur = the_atom(of_atom(atom('phiel', (px,) + tuple(at))))
            if self.resolvable(specs, qs + ((i, n),)):
                # element read before being written, once per index
                v2 = replace_atom(v, cur, base.get(at))
                if pn in v2.syms:
                    return unk('array recurrence')
                ents = [(g, specs, v2, qs)]
                break
            if not any(nm_i in x.syms for x in at) and not qs:
                ph = fresh('ph', lb=None, integer=False)
                v2 = replace_atom(v, cur, ph)
                if pn in v2.syms:
                    return unk('array recurrence')
                r = self.solve(sym_name(ph), ite(g, v2, ph), base.get(at),
                               i, n)
                if r is None:
                    return unk('array recurrence')
                return self.loop_arr(
                    getattr(base, 'log_base', base),
                    list(getattr(base, 'log', ())) +
                    [(TRUE, specs, r[1], ())])
            return unk('array recurrence')
        entries = list(getattr(base, 'log', ()))
        root = getattr(base, 'log_base', base)
        for g, specs, v, qs in ents:
            used = nm_i in g.syms or any(
                nm_i in b.syms for _, b in qs) or any(
                nm_i in getattr(x, 'syms', ()) or
                isinstance(x, Arr) and reads(x, nm_i)
                for sp in specs for x in sp[1:]
                if isinstance(x, (Scalar, Arr)))
            if not used:
                entries.append((g, specs,
                                vsubst(v, {nm_i: sub(n, num_(1))}), qs))
            else:
                entries.append((g, specs, v, qs + ((i, n),)))
        return self.loop_arr(root, entries)

    def resolvable(self, specs, qs):
        left = {sym_name(a) for a, _ in qs}
        progress = True
        pos = set()
        while left and progress:
            progress = False
            for nm in list(left):
                for k, sp in enumerate(specs):
                    if k in pos or sp[0] != 'i' or nm not in sp[1].syms:
                        continue
                    d = sub(sp[1], of_atom(sym(nm)))
                    if not (set(d.syms) & left):
                        left.discard(nm)
                        pos.add(k)
                        progress = True
                        break
        return not left

    def loop_arr(self, base, entries):
        a = Arr(base.dims, None)
        a.log = tuple(entries)
        a.log_base = base
        interp = self

        def get(idx):
            # the last writer wins: walk the log backwards
            todo = []
            for ent in reversed(entries):
                c, x = interp.match_any(ent, idx, base)
                if c == FALSE:
                    continue
                todo.append((c, x))
                if c == TRUE:
                    break
            if todo and todo[-1][0] == TRUE:
                r = todo.pop()[1]
            else:
                r = base.get(idx)
            for c, x in reversed(todo):
                r = ite(c, x, r)
            return r
        a._get = get
        if getattr(base, 'phi', None):
            a.phi = base.phi
        a.dtype = getattr(base, 'dtype', None)
        return a

    log_arr = loop_arr

    def match_any(self, ent, idx, base):
        g, specs, v, qs = ent
        specs = list(specs)
        qs = list(qs)
        bounds = TRUE
        progress = True
        while qs and progress:
            progress = False
            for q in qs:
                i, n = q
                nm = sym_name(i)
                left = {sym_name(a) for a, _ in qs}
                for k, sp in enumerate(specs):
                    if sp[0] != 'i' or nm not in sp[1].syms:
                        continue
                    d = sub(sp[1], i)
                    if set(d.syms) & left:
                        continue
                    it = sub(idx[k], d)
                    m = {nm: it}
                    qs.remove(q)
                    if not (n == base.dims[k] and is_cst(d) == 0):
                        bounds = and_(bounds, and_(cmp_le(num_(0), it),
                                                   cmp_lt(it, n)))
                    specs[k] = ('i', idx[k])
                    specs = [tuple(vsubst(x, m) if isinstance(
                        x, (Scalar, Arr)) else x for x in s) for s in specs]
                    qs = [(a, subst(b, m)) for a, b in qs]
                    bounds, g = subst(bounds, m), subst(g, m)
                    v = vsubst(v, m)
                    progress = True
                    break
                if progress:
                    break
        c, x = self.match(specs, v, idx)
        c = and_(and_(c, g), bounds)
        for i, n in qs:
            nm = sym_name(i)
            if nm in x.syms:
                # value of the last iteration that hits: kept as an atom
                x = of_atom(atom('lasthit', (lam([i], [n],
                                                 Struct('hit', (c, x))),)))
            c = self.exists(i, n, c)
        return c, x

    def loop_unknown(self, st, body, target, node):
        names = assigned_names(body) | (target_names(target)
                                        if target is not None else set())
        w = st.fork()
        for nm in names:
            w.env[nm] = unk('loop ' + nm)
        self.mutable_havoc(w, body)
        fr = self.frames[-1]
        fr.loops.append({'breaks': [], 'continues': []})
        x = fresh('w')
        self.loopctx.append((x, unk('count')))
        nret = len(fr.returns)
        try:
            end = self.exec_block(w, body)
        finally:
            self.loopctx.pop()
        fr.loops.pop()
        for k in range(nret, len(fr.returns)):
            s_, v_ = fr.returns[k]
            fr.returns[k] = (s_, v_)
        out = st.fork()
        for nm in names:
            out.env[nm] = unk('after loop ' + nm)
        self.mutable_havoc(out, body)
        return out

    def mutable_havoc(self, st, body):
        for nm in mutated_names(body):
            v = st.env.get(nm)
            if isinstance(v, Ref):
                c = st.heap[v.id]
                st.heap[v.id] = unk('mutated ' + nm)

    def counted(self, st, s):
        """recognise   while i < E: ...; i += k   as a for loop; returns
        (name, segs, body, final value)"""
        t = s.test
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and s.body):
            return None
        l, op, r = t.left, t.ops[0], t.comparators[0]
        if isinstance(op, (ast.Gt, ast.GtE)):
            l, r = r, l
            op = ast.Lt() if isinstance(op, ast.Gt) else ast.LtE()
        if not (isinstance(l, ast.Name) and
                isinstance(op, (ast.Lt, ast.LtE))):
            return None
        last = s.body[-1]
        step = None
        if isinstance(last, ast.AugAssign) and \
                isinstance(last.op, ast.Add) and \
                isinstance(last.target, ast.Name) and last.target.id == l.id:
            step = last.value
        elif isinstance(last, ast.Assign) and len(last.targets) == 1 and \
                isinstance(last.targets[0], ast.Name) and \
                last.targets[0].id == l.id and \
                isinstance(last.value, ast.BinOp) and \
                isinstance(last.value.op, ast.Add):
            a, b = last.value.left, last.value.right
            if isinstance(a, ast.Name) and a.id == l.id:
                step = b
            elif isinstance(b, ast.Name) and b.id == l.id:
                step = a
        if step is None or any(isinstance(x, ast.Continue)
                               for q in s.body for x in ast.walk(q)):
            return None
        body = s.body[:-1]
        names = assigned_names(body) | mutated_names(body)
        if l.id in names:
            return None
        for e in (r, step):
            for x in ast.walk(e):
                if isinstance(x, ast.Name) and (x.id in names or
                                                x.id == l.id):
                    return None
                if isinstance(x, ast.Call) and not (
                        isinstance(x.func, ast.Name) and
                        x.func.id in ('len', 'min', 'max')):
                    return None
        i0 = self.simp(st, self.deref(st, self.ev(st, l)))
        hi = self.simp(st, self.deref(st, self.ev(st, r)))
        k = self.simp(st, self.deref(st, self.ev(st, step)))
        if not all(isinstance(x, Scalar) for x in (i0, hi, k)):
            return None
        if not (is_int(i0) and is_int(hi) and is_int(k)) or \
                not positive(k):
            return None
        if isinstance(op, ast.LtE):
            hi = add(hi, num_(1))
        rng = self.models.b_range(st, [i0, hi, k], {}, s)
        try:
            segs = self.iter_segs(st, rng)
        except Unknown:
            return None
        from .models import mk
        n = count_segs(segs)
        return l.id, segs, body, add(i0, mul(n, k))

    def x_While(self, st, s):
        try:
            cnt = self.counted(st, s)
        except (Unknown, Limit):
            cnt = None
        if cnt is not None:
            nm, segs, body, fin = cnt
            breaks = []
            tgt = ast.copy_location(ast.Name(nm, ast.Store()), s)
            st = self.run_segs(st, segs, tgt, body, breaks, s)
            if st is not None:
                st.env[nm] = fin
                if s.orelse:
                    st = self.exec_block(st, s.orelse)
            for b in breaks:
                st = b if st is None else self.join(b.pc, b, st)
            return st
        names = assigned_names(s.body)
        w = st.fork()
        for nm in names:
            if nm in w.env or True:
                w.env[nm] = unk('while ' + nm)
        self.mutable_havoc(w, s.body)
        c = self.truth(w, self.ev(w, s.test))
        fr = self.frames[-1]
        l = {'breaks': [], 'continues': []}
        fr.loops.append(l)
        inner = w.fork()
        inner.pc = and_(w.pc, c)
        x = fresh('w')
        self.loopctx.append((x, unk('count')))
        try:
            end = self.exec_block(inner, s.body) if inner.pc != FALSE \
                else None
        finally:
            self.loopctx.pop()
        fr.loops.pop()
        out = None
        if c != TRUE:
            out = w.fork()
            out.pc = and_(w.pc, not_(c))
            if out.pc == FALSE:
                out = None
        if out is not None and s.orelse:
            out = self.exec_block(out, s.orelse)
        for b in l['breaks']:
            out = b if out is None else self.join_unk(b, out)
        return out

    def join_unk(self, a, b):
        self.next += 1
        p = pred_(atom('exit', ('%d' % self.next,), boolean=True, unk=True))
        return self.join(p, a, b)

    # ------------------------------------------------------------ assignment
    def assign(self, st, t, v):
        if isinstance(t, ast.Name):
            if isinstance(v, Choice):
                v = self.simp(st, v)
            st.env[t.id] = self.cell(st, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(st, t, v)
        elif isinstance(t, ast.Starred):
            self.assign(st, t.value, v)
        elif isinstance(t, ast.Subscript):
            self.store(st, t, v)
        elif isinstance(t, ast.Attribute):
            b = self.ev(st, t.value)
            self.event(st, 'setattr', t, obj=self.deref(st, b), attr=t.attr,
                       value=self.deep(st, v))
            if t.attr == 'shape' and isinstance(b, Ref):
                st.heap[b.id] = unk('shape store')

    def unpack(self, st, t, v):
        d = self.simp(st, self.deref(st, v))
        n = len(t.elts)
        star = [k for k, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
        try:
            if isinstance(d, Choice):
                for k, e in enumerate(t.elts):
                    self.assign(st, e, vite(
                        d.cond, self.item(st, self.deep(st, d.a), num_(k)),
                        self.item(st, self.deep(st, d.b), num_(k))))
                return
            if star and isinstance(d, Tup):
                k = star[0]
                m = len(d.items) - (n - 1)
                for j in range(k):
                    self.assign(st, t.elts[j], d.items[j])
                self.assign(st, t.elts[k], Tup(d.items[k:k + m], True))
                for j in range(k + 1, n):
                    self.assign(st, t.elts[j], d.items[m + j - 1])
                return
            if star:
                raise Unknown('starred unpacking')
            if isinstance(d, Tup):
                if len(d.items) != n:
                    self.event(st, 'raise', t, exc='builtins.ValueError',
                               bare=False)
                    st.pc = FALSE
                    return
                for e, x in zip(t.elts, d.items):
                    self.assign(st, e, x)
                return
            for k, e in enumerate(t.elts):
                self.assign(st, e, self.item(st, d, num_(k)))
        except Unknown as e:
            self.note('unpack: %s' % e, t)
            for x in target_names(t):
                st.env[x] = unk('unpack ' + x)

    def item(self, st, v, k):
        v = self.deref(st, v)
        if isinstance(v, Tup):
            if isinstance(k, Rat) and k.const() is not None:
                c = int(k.const())
                if -len(v.items) <= c < len(v.items):
                    return v.items[c]
                raise Unknown('index out of range')
            if all(isinstance(x, Scalar) for x in v.items):
                return pick(v.items, k)
            if not v.items:
                raise Unknown('empty')
            return asarr(self.deep(st, v)).row(k)
        if isinstance(v, Arr):
            return v.row(self.fix_index(k, v.dims[0]))
        if isinstance(v, Lst):
            if v.phi is not None:
                raise Unknown('growing list')
            s = v.simple()
            if s is not None:
                i, n, e = s
                return vsubst(e, {sym_name(i): self.fix_index(k, n)})
            segs = norm_segs(v.segs)
            c = is_cst(k)
            if c is not NOTC and c >= 0:
                c = int(c)
                if len(segs) > c and all(isinstance(x, One)
                                         for x in segs[:c + 1]):
                    return segs[c].v
            if c is not NOTC and c == -1 and segs and \
                    isinstance(segs[-1], One):
                return segs[-1].v
            a = asarr(self.deep(st, v))
            return a.row(self.fix_index(k, a.dims[0]))
        if isinstance(v, DictV):
            c = is_cst(k)
            if c is not NOTC and c in v.items:
                return v.items[c]
            return of_atom(atom('dictitem', (reify(self.deep(st, v)),
                                             reify(k))))
        if isinstance(v, Scalar):
            return self.models.scalar_item(st, v, k)
        raise Unknown('item of %s' % type(v).__name__)

    def fix_index(self, k, dim):
        c = is_cst(k)
        if c is not NOTC and c < 0:
            return add(dim, k)
        return k

    # ------------------------------------------------------------ stores
    def store(self, st, t, v):
        b = self.ev(st, t.value)
        d = self.deref(st, b)
        if not isinstance(b, Ref):
            self.event(st, 'store', t, obj=d, value=self.deep(st, v))
            return
        if isinstance(d, DictV):
            k = self.ev(st, t.slice)
            c = is_cst(k) if isinstance(k, Scalar) else NOTC
            if c is not NOTC:
                items = dict(d.items)
                items[c] = v
                nd = DictV(items, d.rest)
            else:
                nd = DictV(d.items, d.rest + [One(Tup([k, v]))])
            if hasattr(d, 'phi'):
                nd.phi = d.phi
            st.heap[b.id] = nd
            return
        if isinstance(d, Tup) and d.is_list:
            k = self.ev(st, t.slice)
            c = is_cst(k) if isinstance(k, Scalar) else NOTC
            if c is not NOTC and -len(d.items) <= c < len(d.items):
                it = list(d.items)
                it[int(c)] = v
                st.heap[b.id] = Tup(it, True)
                return
            d = asarr(self.deep(st, d))
        if isinstance(d, Lst):
            if d.phi is not None or d.simple() is None:
                st.heap[b.id] = unk('list store')
                return
            d = asarr(self.deep(st, d))
        if not isinstance(d, Arr):
            st.heap[b.id] = unk('store')
            self.event(st, 'store', t, obj=d, value=self.deep(st, v))
            return
        val = self.deep(st, v)
        if isinstance(val, (Tup, Lst)):
            val = asarr(val)
        try:
            dt = getattr(d, 'dtype', None)
            if dt in self.models.STORED:
                val = self.models.cast(st, val, dt, t)
            specs = self.index_specs(st, t.slice, d)
            if any(sp[0] == 'arr' for sp in specs):
                st.heap[b.id] = self.scatter(st, d, specs, val, t)
                return
            if specs[0][0] == 'mask' and isinstance(val, Arr):
                g = getattr(val, 'masked', None)
                if g is None or not same(g[1], specs[0][1]):
                    raise Unknown('masked store')
                val = g[0]
            base = getattr(d, 'log_base', None)
            if base is None:
                base, log = d, []
            else:
                log = list(d.log)
            if isinstance(val, Arr) and val.gen is not None:
                raise Unknown('store of a filtered array')
            ents = log + [(TRUE, specs, val, ())]
            r = self.loop_arr(base, ents)
            st.heap[b.id] = r
        except (Unknown, Limit) as e:
            self.note('store: %s' % e, t)
            st.heap[b.id] = unk('store')

    def scatter(self, st, d, specs, val, node):
        arrs = [sp[1] for sp in specs if sp[0] == 'arr']
        if not all(sp[0] == 'arr' for sp in specs) or not all(
                a.ndim == arrs[0].ndim for a in arrs):
            raise Unknown('scatter form')
        self.event(st, 'scatter', node, target=d, pos=arrs,
                   value=val)
        if any(a.gen is not None for a in arrs):
            if len(arrs) != 1 or d.ndim != 1 or not isinstance(val, Scalar):
                raise Unknown('scatter to filtered positions')
            x = fresh('x')
            x = of_atom(sym(sym_name(x), integer=True, lb=0))
            c = self.positions(arrs[0], x)
            if c is None:
                raise Unknown('scatter to filtered positions')
            return Arr(d.dims, lambda idx: ite(subst(
                c, {sym_name(x): idx[0]}), val, d.get(idx)))
        ps = [fresh('x') for _ in arrs[0].dims]
        v = val.get(ps) if isinstance(val, Arr) else val
        key = lam(ps, arrs[0].dims,
                  Struct('sc', tuple(a.get(ps) for a in arrs) + (v,)))
        return Arr(d.dims, lambda idx: of_atom(
            atom('scatter', (key, d.get(idx)) + tuple(idx))))

    def index_specs(self, st, sl, arr):
        """normalise a subscript into per-dimension specs"""
        self.slice_pc = st.pc
        elts = sl.elts if isinstance(sl, ast.Tuple) else [sl]
        vals = []
        for e in elts:
            if isinstance(e, ast.Slice):
                vals.append(self.slice_val(st, e))
            elif isinstance(e, ast.Constant) and e.value is Ellipsis:
                vals.append('...')
            elif isinstance(e, ast.Starred):
                x = self.deref(st, self.ev(st, e.value))
                if not isinstance(x, Tup):
                    raise Unknown('starred index')
                vals.extend(self.deref(st, y) for y in x.items)
            else:
                vals.append(self.deref(st, self.ev(st, e)))
        if len(vals) == 1 and isinstance(vals[0], Tup) and \
                not vals[0].is_list:
            vals = [self.deref(st, x) for x in vals[0].items]
        return self.specs_from(vals, arr)

    def slice_val(self, st, e):
        f = lambda x: None if x is None else self.ev(st, x)
        return SliceV(f(e.lower), f(e.upper), f(e.step))

    def specs_from(self, vals, arr):
        vals = list(vals)
        nn = sum(1 for v in vals if not (isinstance(v, str) and v == '...')
                 and v != NONE)
        if any(isinstance(v, str) and v == '...' for v in vals):
            k = [j for j, v in enumerate(vals)
                 if isinstance(v, str) and v == '...'][0]
            vals[k:k + 1] = [SliceV(None, None, None)] * (arr.ndim - nn)
        out = []
        d = 0
        for v in vals:
            if isinstance(v, Scalar) and v == NONE:
                out.append(('new',))
                continue
            if isinstance(v, SliceV):
                dim = arr.dims[d]
                out.append(self.range_spec(v, dim))
                d += 1
                continue
            if isinstance(v, (Lst, Tup)):
                v = asarr(v)
            if isinstance(v, Arr):
                if getattr(v, 'boolean', False) or is_bool_arr(v):
                    out.append(('mask', v))
                    d += v.ndim
                else:
                    out.append(('arr', v))
                    d += 1
                continue
            if isinstance(v, Scalar):
                if is_bool_scalar(v):
                    raise Unknown('boolean scalar index')
                out.append(('i', self.fix_index(v, arr.dims[d])))
                d += 1
                continue
            raise Unknown('index %s' % type(v).__name__)
        while d < arr.ndim:
            out.append(('r', num_(0), arr.dims[d], None, True))
            d += 1
        return out

    def range_spec(self, v, dim):
        lo = v.lo
        hi = v.hi
        step = v.step
        if isinstance(lo, Scalar) and lo == NONE:
            lo = None
        if isinstance(hi, Scalar) and hi == NONE:
            hi = None
        if isinstance(step, Scalar) and step == NONE:
            step = None
        sc = is_cst(step) if step is not None else Fraction(1)
        if sc is not NOTC and sc == -1:
            if lo is None and hi is None:
                return ('rev', dim)
            # a[k::-1]
            if hi is None:
                lo = self.fix_index(lo, dim)
                return ('revfrom', lo)
            raise Unknown('negative step')
        full = lo is None and hi is None and (step is None or sc == 1)

        def fix(x, default):
            if x is None:
                return default
            x = to_num(x)
            if isinstance(x, Ite):
                return ite(pred_(x.pred), fix(x.hi, default),
                           fix(x.lo, default))
            c = is_cst(x)
            if c is not NOTC and c < 0:
                return add(dim, x)
            if c is NOTC and isinstance(x, Rat) and not nonneg(x) \
                    and nonneg(neg(x)) and is_cst(x) is NOTC:
                # definitely non-positive symbolic bound such as -k
                if nonneg(sub(neg(x), num_(1))) or self.slice_pc is None:
                    return add(dim, x)
                return T.under(ite(eq0(x), num_(0), add(dim, x)),
                               self.slice_pc)
            if c is NOTC and isinstance(x, Rat) and _neg_form(x):
                return add(dim, x)
            return x
        lo2 = fix(lo, num_(0))
        hi2 = fix(hi, dim)
        if not full and is_cst(lo2) == 0 and hi2 == dim and \
                (step is None or sc == 1):
            full = True
        # x[:k] with k beyond a known extent
        cd, ch = is_cst(dim), is_cst(hi2)
        if cd is not NOTC and ch is not NOTC and ch > cd:
            hi2 = dim
        return ('r', lo2, hi2, step, full)

    # ------------------------------------------------------------ subscripts
    def e_Subscript(self, st, e):
        b = self.ev(st, e.value)
        d = self.simp(st, self.deref(st, b))
        if isinstance(d, Ext):
            return self.models.subscript_ext(st, d, e)
        if isinstance(d, Choice):
            sa, sb = self.deref(st, d.a), self.deref(st, d.b)
            return vite(d.cond, self.subscript(st, sa, e),
                        self.subscript(st, sb, e))
        return self.subscript(st, d, e)

    def subscript(self, st, d, e):
        if isinstance(d, Ref):
            d = self.deref(st, d)
        d = self.simp(st, d)
        if isinstance(d, Choice):
            return self.split(st, d.cond,
                              lambda s: self.subscript(s, d.a, e),
                              lambda s: self.subscript(s, d.b, e))
        sl = e.slice
        if isinstance(d, (Tup, Lst)) and not (
                isinstance(sl, ast.Tuple)):
            if isinstance(sl, ast.Slice):
                return self.slice_seq(st, d, self.slice_val(st, sl))
            k = self.deref(st, self.ev(st, sl))
            if isinstance(k, SliceV):
                return self.slice_seq(st, d, k)
            if isinstance(k, Scalar):
                if isinstance(k, Ite):
                    return self.item_dd(st, d, k)
                return self.item(st, d, k)
        if isinstance(d, DictV):
            return self.item(st, d, self.ev(st, sl))
        if isinstance(d, Scalar):
            return self.models.scalar_subscript(st, d, e)
        if isinstance(d, (Tup, Lst)):
            d = asarr(self.deep(st, d))
        if isinstance(d, Arr):
            try:
                return self.index_arr(st, d, self.index_specs(st, sl, d), e)
            except Unknown as x:
                return self.unknown('subscript: %s' % x, e)
        if isinstance(d, Poly1d):
            raise Unknown('poly1d item')
        return self.unknown('subscript of %s' % type(d).__name__, e)

    def item_dd(self, st, d, k):
        if isinstance(k, Ite):
            return vite(pred_(k.pred), self.item_dd(st, d, k.hi),
                        self.item_dd(st, d, k.lo))
        return self.item(st, d, k)

    slice_pc = None

    def slice_seq(self, st, d, s):
        self.slice_pc = st.pc
        if isinstance(d, Tup):
            f = lambda x: None if x is None or x == NONE else is_cst(x)
            lo, hi, step = f(s.lo), f(s.hi), f(s.step)
            if NOTC not in (lo, hi, step):
                lo, hi, step = [None if x is None else int(x)
                                for x in (lo, hi, step)]
                return Tup(d.items[slice(lo, hi, step)], d.is_list)
            d = Lst([One(x) for x in d.items])
        segs = norm_segs(d.segs)
        lo = is_cst(s.lo) if s.lo is not None and s.lo != NONE else 0
        if s.hi is None and s.step is None and lo is not NOTC and lo >= 0:
            lo = int(lo)
            if len(segs) >= lo and all(isinstance(x, One)
                                       for x in segs[:lo]):
                return Lst(segs[lo:])
        sp = Lst(segs).simple()
        if sp is not None:
            i, n, e = sp
            r = self.range_spec(s, n)
            nm = sym_name(i)
            t = fresh('i')
            if r[0] == 'rev':
                return Lst([Map(t, n, [One(vsubst(e, {nm: sub(sub(
                    n, num_(1)), t)}))])])
            if r[0] == 'revfrom':
                return Lst([Map(t, add(r[1], num_(1)), [One(vsubst(
                    e, {nm: sub(r[1], t)}))])])
            _, lo, hi, step, full = r
            if full:
                return Lst(segs)
            if step is None:
                return Lst([Map(t, sub(hi, lo), [One(vsubst(
                    e, {nm: add(lo, t)}))])])
            return Lst([Map(t, ceil_(div(sub(hi, lo), step)), [One(vsubst(
                e, {nm: add(lo, mul(t, step))}))])])
        a = asarr(self.deep(st, Lst(segs)))
        return self.index_arr(st, a, [self.range_spec(s, a.dims[0])] + [
            ('r', num_(0), x, None, True) for x in a.dims[1:]], None)

    def index_arr(self, st, d, specs, node):
        if any(sp[0] == 'mask' for sp in specs):
            return self.mask_index(st, d, specs)
        if any(sp[0] == 'arr' for sp in specs):
            return self.fancy(st, d, specs)
        if d.gen is not None:
            return self.index_gen(st, d, specs)
        dims = []
        recipe = []
        k = 0
        for sp in specs:
            if sp[0] == 'new':
                dims.append(num_(1))
                recipe.append(('new',))
            elif sp[0] == 'i':
                recipe.append(sp)
            elif sp[0] == 'rev':
                dims.append(sp[1])
                recipe.append(sp)
            elif sp[0] == 'revfrom':
                dims.append(add(sp[1], num_(1)))
                recipe.append(sp)
            else:
                _, lo, hi, step, full = sp
                if step is None or is_cst(step) == 1:
                    dims.append(sub(hi, lo))
                else:
                    dims.append(ceil_(div(sub(hi, lo), step)))
                recipe.append(sp)

        def get(idx, d=d, recipe=recipe):
            j = 0
            full = []
            for sp in recipe:
                if sp[0] == 'new':
                    j += 1
                elif sp[0] == 'i':
                    full.append(sp[1])
                elif sp[0] == 'rev':
                    full.append(sub(sub(sp[1], num_(1)), idx[j]))
                    j += 1
                elif sp[0] == 'revfrom':
                    full.append(sub(sp[1], idx[j]))
                    j += 1
                else:
                    x = idx[j]
                    if sp[3] is not None and is_cst(sp[3]) != 1:
                        x = mul(x, sp[3])
                    full.append(add(sp[1], x))
                    j += 1
            return d.get(full)
        if not dims:
            return get([])
        r = Arr(dims, get)
        # remember windows for resampling models
        if all(sp[0] in ('i', 'r') for sp in recipe) and all(
                sp[0] == 'i' or sp[3] is None for sp in recipe):
            base, off0, win0 = d, None, None
            if d.view is not None:
                base = d.view[0]
            r.view = self.compose_view(d, recipe)
        return r

    def compose_view(self, d, recipe):
        """(base, per-base-dim ('i', e) | ('r', lo, hi))"""
        if d.view is None:
            base = d
            cur = [('r', num_(0), x) for x in d.dims]
        else:
            base, cur, _ = d.view
            cur = list(cur)
        out = []
        j = 0
        for c in cur:
            if isinstance(c, tuple) and c[0] == 'r':
                sp = recipe[j]
                j += 1
                if sp[0] == 'i':
                    out.append(('i', add(c[1], sp[1])))
                else:
                    out.append(('r', add(c[1], sp[1]), add(c[1], sp[2])))
            else:
                out.append(c)
        return (base, out, ())

    def index_gen(self, st, d, specs):
        s0 = specs[0]
        rest = specs[1:]
        if s0[0] == 'r' and s0[4]:
            inner = lambda e: self.index_arr(st, e, rest, None) \
                if rest else e
            if not rest:
                return d
            segs = seg_map(d.gen.segs, lambda e: inner(asarr(e)))
            return gen_arr(Lst(segs))
        if s0[0] == 'i':
            x = [fresh('x') for _ in d.dims[1:]]
            row = Arr(d.dims[1:], lambda idx: d.get([s0[1]] + idx)) \
                if d.ndim > 1 else d.get([s0[1]])
            if rest:
                return self.index_arr(st, row, rest, None)
            return row
        plain = Arr(d.dims, d.get)
        return self.index_arr(st, plain, specs, None)

    def mask_index(self, st, d, specs):
        if len([s for s in specs if s[0] == 'mask']) != 1:
            raise Unknown('mask index')
        k = [j for j, s in enumerate(specs) if s[0] == 'mask'][0]
        m = specs[k][1]
        if k == 0 and m.ndim == d.ndim and m.ndim > 1:
            # all elements of an n-D array where the mask holds
            ps = [fresh('m') for _ in d.dims]
            segs = [Grd(as_bool(m.get(ps)), [One(d.get(ps))])]
            for p, n in reversed(list(zip(ps, d.dims))):
                segs = [Map(p, n, segs)]
            r = gen_arr(Lst(segs))
            r.masked = (d, m)
            return r
        if k == 0 and m.ndim == 1:
            rest = specs[1:]
            if m.gen is not None or d.gen is not None:
                # filter of a filtered array with the same skeleton
                z = zip_segs([d.gen.segs if d.gen else None,
                              m.gen.segs if m.gen else None])
                segs = grd_map(z, lambda a, b: (as_bool(b), a))
                r = gen_arr(Lst(segs))
                return self.index_gen(st, r, [('r', num_(0), r.dims[0],
                                               None, True)] + rest) \
                    if rest and not all(s[0] == 'r' and s[4]
                                        for s in rest) else r
            i = fresh('m')
            row = d.row(i)
            if rest and isinstance(row, Arr):
                row = self.index_arr(st, row, rest, None)
            segs = [Map(i, d.dims[0], [Grd(as_bool(m.get([i])),
                                           [One(row)])])]
            r = gen_arr(Lst(segs))
            if d.ndim == 1:
                r.masked = (d, m)
            return r
        raise Unknown('mask position')

    def fancy(self, st, d, specs):
        arrs = [(k, s[1]) for k, s in enumerate(specs) if s[0] == 'arr']
        if any(s[0] not in ('arr', 'r', 'i') for s in specs):
            raise Unknown('fancy index')
        gens = [a for _, a in arrs if a.gen is not None]
        if gens:
            if len(arrs) == 1 and arrs[0][0] == 0 and arrs[0][1].ndim == 1:
                g = arrs[0][1].gen
                rest = specs[1:]

                def f(k):
                    row = d.row(k)
                    if rest and isinstance(row, Arr):
                        row = self.index_arr(st, row, rest, None)
                    return row
                return gen_arr(Lst(seg_map(g.segs, f)))
            if len(arrs) == 1 and arrs[0][1].ndim == 1 and \
                    all(s[0] != 'i' for s in specs) and arrs[0][0] == 1 \
                    and d.ndim == 2:
                # columns selected by a filtered index list: transpose of it
                raise Unknown('filtered columns')
            raise Unknown('fancy with filtered index')
        nd = max(a.ndim for _, a in arrs)
        ref = [a for _, a in arrs if a.ndim == nd][0]
        pos = [k for k, _ in arrs]
        contiguous = pos == list(range(pos[0], pos[0] + len(pos)))
        if not contiguous:
            raise Unknown('split fancy index')
        dims = []
        done = False
        for k, s in enumerate(specs):
            if s[0] == 'arr':
                if not done:
                    dims.extend(ref.dims)
                    done = True
            elif s[0] == 'r':
                dims.append(sub(s[2], s[1]))

        def get(idx):
            full = []
            j = 0
            taken = None
            for s in specs:
                if s[0] == 'arr':
                    if taken is None:
                        taken = idx[j:j + nd]
                        j += nd
                    a = s[1]
                    ii = taken[nd - a.ndim:]
                    ii = [num_(0) if is_cst(dd) == 1 else x
                          for dd, x in zip(a.dims, ii)]
                    full.append(a.get(ii))
                elif s[0] == 'i':
                    full.append(s[1])
                else:
                    full.append(add(s[1], idx[j]))
                    j += 1
            if any(isinstance(x, Ite) for x in full):
                return apply(lambda *a: d.get(list(a)), *full)
            return d.get(full)
        return Arr(dims, get)

    # ------------------------------------------------------------ expressions
    def ev(self, st, e):
        try:
            m = getattr(self, 'e_' + type(e).__name__, None)
            if m is None:
                return self.unknown('expression ' + type(e).__name__, e)
            return m(st, e)
        except (Unknown, Limit) as x:
            return self.unknown('%s: %s' % (type(e).__name__, x), e)
        except RecursionError:
            return self.unknown('recursion', e)

    def e_Constant(self, st, e):
        v = e.value
        if isinstance(v, bool) or v is None or isinstance(v, str) or \
                v is Ellipsis or isinstance(v, bytes):
            return Const(v)
        if isinstance(v, int):
            return num_(v)
        if isinstance(v, float):
            if v != v or v in (float('inf'), float('-inf')):
                return of_atom(sym('const:%r' % v))
            return num_(Fraction(repr(v)))
        return unk('constant')

    def e_Name(self, st, e):
        if e.id in st.env:
            return self.simp(st, st.env[e.id])
        fr = self.frames[-1]
        mod = fr.func.module
        if mod is not None:
            v = self.module_value(e.id, mod)
            if v is not None:
                if isinstance(v, (Arr, DictV, Lst)) or \
                        (isinstance(v, Tup) and v.is_list):
                    return self.new(st, v)
                return v
        return Ext('builtins.' + e.id)

    def e_Attribute(self, st, e):
        b = self.ev(st, e.value)
        d = self.simp(st, self.deref(st, b))
        if isinstance(d, Ext):
            full = d.name + '.' + e.attr
            if d.name in self.modules:
                v = self.module_value(e.attr, self.modules[d.name])
                if v is not None:
                    return v
            if any(m.startswith(full + '.') or m == full
                   for m in self.modules):
                return Ext(full)
            c = canon_ext(full)
            k = self.models.constants.get(c)
            return k if k is not None else Ext(c)
        if isinstance(d, Choice):
            if getattr(self, '_callee', None) is e:
                return Meth(b, e.attr)
            return self.split(
                st, d.cond,
                lambda s: self.models.attribute(
                    s, self.deref(s, d.a), e.attr, self.deref(s, d.a), e),
                lambda s: self.models.attribute(
                    s, self.deref(s, d.b), e.attr, self.deref(s, d.b), e))
        return self.models.attribute(st, d, e.attr, b, e)

    def e_Call(self, st, e):
        self._callee = e.func
        f = self.ev(st, e.func)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args.append(('*', self.ev(st, a.value)))
            else:
                args.append(self.ev(st, a))
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                v = self.ev(st, k.value)
                d = self.deref(st, v)
                if isinstance(d, DictV) and not d.rest:
                    for kk, vv in d.items.items():
                        kwargs[kk] = vv
                else:
                    kwargs['**'] = d
            else:
                kwargs[k.arg] = self.ev(st, k.value)
        if st.pc == FALSE:
            return unk('dead')
        return self.call(st, f, args, kwargs, e)

    def e_Lambda(self, st, e):
        f = self.make_func(e, self.frames[-1].func.module, dict(st.env), st)
        return f

    def e_IfExp(self, st, e):
        c = under(self.truth(st, self.ev(st, e.test)), st.pc)
        if c == TRUE:
            return self.ev(st, e.body)
        if c == FALSE:
            return self.ev(st, e.orelse)
        a, b = st.fork(), st.fork()
        a.pc = and_(st.pc, c)
        b.pc = and_(st.pc, not_(c))
        va = self.ev(a, e.body)
        vb = self.ev(b, e.orelse)
        r = self.merge_val(c, va, vb, a, b)
        st.heap = self.merge_heap(c, a.heap, b.heap)
        if a.pc == FALSE:
            st.pc = b.pc
        elif b.pc == FALSE:
            st.pc = a.pc
        else:
            st.pc = or_(a.pc, b.pc)
        return r

    def e_NamedExpr(self, st, e):
        v = self.ev(st, e.value)
        self.assign(st, e.target, v)
        return self.ev(st, ast.Name(id=e.target.id, ctx=ast.Load()))

    def e_Tuple(self, st, e):
        return Tup(self.elts(st, e.elts))

    def e_List(self, st, e):
        items = self.elts(st, e.elts)
        if items and isinstance(items[0], tuple):
            return items
        return self.new(st, Tup(items, True)) if not isinstance(items, Lst) \
            else self.new(st, items)

    def elts(self, st, elts):
        out = []
        sl = None
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.deref(st, self.ev(st, x.value))
                for s in self.iter_segs(st, v):
                    if isinstance(s, One) and sl is None:
                        out.append(s.v)
                    else:
                        if sl is None:
                            sl = [One(y) for y in out]
                        sl.append(s)
            else:
                v = self.ev(st, x)
                if sl is not None:
                    sl.append(One(v))
                else:
                    out.append(v)
        return Lst(sl) if sl is not None else out

    def e_Tuple(self, st, e):
        r = self.elts(st, e.elts)
        return r if isinstance(r, Lst) else Tup(r)

    def e_Set(self, st, e):
        return Tup(self.elts(st, e.elts))

    def e_Dict(self, st, e):
        d = {}
        rest = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                x = self.deref(st, self.ev(st, v))
                if isinstance(x, DictV):
                    d.update(x.items)
                    rest.extend(x.rest)
                    continue
                raise Unknown('dict spread')
            kk = self.ev(st, k)
            vv = self.ev(st, v)
            c = is_cst(kk) if isinstance(kk, Scalar) else NOTC
            if c is NOTC:
                rest.append(One(Tup([kk, vv])))
            else:
                d[c] = vv
        return self.new(st, DictV(d, rest))

    def e_ListComp(self, st, e):
        segs = self.comp(st, e.generators, 0, lambda s: self.ev(s, e.elt))
        return self.new(st, self.pack(segs))

    def pack(self, segs):
        segs = norm_segs(segs)
        if all(isinstance(s, One) for s in segs):
            return Tup([s.v for s in segs], True)
        return Lst(segs)

    def e_GeneratorExp(self, st, e):
        segs = self.comp(st, e.generators, 0, lambda s: self.ev(s, e.elt))
        return self.pack(segs)

    def e_SetComp(self, st, e):
        return self.e_GeneratorExp(st, e)

    def e_DictComp(self, st, e):
        segs = self.comp(st, e.generators, 0, lambda s: Tup(
            [self.ev(s, e.key), self.ev(s, e.value)]))
        d = {}
        for s in segs:
            if isinstance(s, One) and is_cst(s.v.items[0]) is not NOTC:
                d[is_cst(s.v.items[0])] = s.v.items[1]
            else:
                return self.new(st, DictV({}, segs))
        return self.new(st, DictV(d))

    def comp(self, st, gens, k, elt):
        if k == len(gens):
            v = elt(st)
            return [One(self.deep(st, v))]
        g = gens[k]
        it = self.ev(st, g.iter)
        segs = self.iter_segs(st, it)

        def walk(s, seg):
            if isinstance(seg, One):
                w = s.fork()
                self.assign(w, g.target, seg.v)
                return cond(w, g.ifs)
            if isinstance(seg, Grd):
                w = s.fork()
                w.pc = and_(s.pc, seg.cond)
                return [Grd(seg.cond, [y for x in seg.segs
                                       for y in walk(w, x)])]
            c = is_cst(seg.n)
            if c is not NOTC and c * self.unrolled <= 16:
                out = []
                was = self.unrolled
                self.unrolled = was * max(int(c), 1)
                for j in range(int(c)):
                    for x in seg.segs:
                        out.extend(walk(s, ssubst(
                            x, {sym_name(seg.i): num_(j)})))
                self.unrolled = was
                return out
            self.loopctx.append((seg.i, seg.n))
            try:
                inner = [y for x in seg.segs for y in walk(s, x)]
            finally:
                self.loopctx.pop()
            return [Map(seg.i, seg.n, inner)]

        def cond(w, ifs):
            if not ifs:
                return self.comp(w, gens, k + 1, elt)
            c = self.truth(w, self.ev(w, ifs[0]))
            if c == FALSE:
                return []
            w.pc = and_(w.pc, c)
            inner = cond(w, ifs[1:])
            return inner if c == TRUE else [Grd(c, inner)]
        out = []
        for s in segs:
            out.extend(walk(st, s))
        return out

    def e_JoinedStr(self, st, e):
        parts = []
        for v in e.values:
            if isinstance(v, ast.FormattedValue):
                x = self.ev(st, v.value)
                spec = None
                if v.format_spec is not None:
                    spec = ast.unparse(v.format_spec)
                if spec or v.conversion not in (-1, 115):
                    parts.append(of_atom(atom('fmt', (
                        reify(self.deep(st, x)), spec or '',
                        v.conversion))))
                else:
                    parts.append(self.models.to_str(st, x))
            else:
                parts.append(self.ev(st, v))
        return self.models.cat(parts)

    def e_FormattedValue(self, st, e):
        return self.models.to_str(st, self.ev(st, e.value))

    def e_UnaryOp(self, st, e):
        v = self.ev(st, e.operand)
        if isinstance(e.op, ast.Not):
            return not_(self.truth(st, v))
        d = self.deref(st, v)
        if isinstance(e.op, ast.USub):
            return self.elementwise(st, neg, d)
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert):
            def inv(x):
                if is_bool_scalar(x):
                    return not_(x)
                if isinstance(x, Rat):
                    return sub(num_(-1), x)
                return unk('invert')
            r = self.elementwise(st, inv, d)
            if isinstance(r, Arr):
                r.boolean = getattr(d, 'boolean', False)
            return r
        return self.unknown('unary', e)

    def e_BinOp(self, st, e):
        a = self.ev(st, e.left)
        b = self.ev(st, e.right)
        return self.binop(st, e.op, a, b, e)

    def binop(self, st, op, a, b, node):
        da, db = self.deref(st, a), self.deref(st, b)
        da, db = self.simp(st, da), self.simp(st, db)
        if isinstance(op, ast.Add):
            if isinstance(da, Tup) and isinstance(db, Tup):
                return Tup(da.items + db.items, da.is_list)
            if isinstance(da, (Tup, Lst)) and isinstance(db, (Tup, Lst)):
                return Lst(segs_of(da) + segs_of(db))
            if self.models.is_str(da) or self.models.is_str(db):
                return self.models.cat([da, db])
        if isinstance(op, ast.Mult):
            for x, y in ((da, db), (db, da)):
                if isinstance(x, Tup) and isinstance(y, Scalar):
                    c = is_cst(y)
                    if c is not NOTC and not isinstance(c, str) and c <= 64:
                        return Tup(x.items * int(c), x.is_list)
                    if len(x.items) == 1 and x.is_list:
                        i = fresh('i')
                        return Lst([Map(i, y, [One(x.items[0])])])
        if isinstance(op, ast.Mod) and isinstance(da, Const) and \
                isinstance(da.v, str):
            return of_atom(atom('strfmt', (da.v, reify(self.deep(st, db)))))
        if isinstance(op, ast.Div) and self.models.is_path(da):
            return self.models.path_join(da, db)
        if isinstance(op, ast.MatMult):
            return self.models.matmul(st, self.deep(st, da),
                                      self.deep(st, db))
        f = {ast.Add: add, ast.Sub: sub, ast.Mult: mul, ast.Div: div,
             ast.FloorDiv: floordiv, ast.Mod: mod_, ast.Pow: power,
             ast.BitAnd: bit_and, ast.BitOr: bit_or,
             ast.BitXor: bit_xor}.get(type(op))
        if f is None:
            return self.unknown('operator %s' % type(op).__name__, node)
        r = self.elementwise(st, f, da, db)
        if isinstance(r, Arr) and isinstance(op, (ast.BitAnd, ast.BitOr,
                                                  ast.BitXor)):
            r.boolean = True
        return r

    def elementwise(self, st, f, *vals):
        vals = [self.deep(st, v) if isinstance(v, Ref) else v for v in vals]
        for k, v in enumerate(vals):
            if isinstance(v, Choice):
                a = list(vals)
                b = list(vals)
                a[k], b[k] = self.deep(st, v.a), self.deep(st, v.b)
                return vite(v.cond, self.elementwise(st, f, *a),
                            self.elementwise(st, f, *b))
        if all(isinstance(v, Scalar) for v in vals):
            return f(*vals)
        vals = [asarr(self.deep(st, v)) if isinstance(v, (Tup, Lst)) else v
                for v in vals]
        if all(isinstance(v, Scalar) for v in vals):
            return f(*vals)
        for v in vals:
            if not isinstance(v, (Scalar, Arr)):
                raise Unknown('operand %s' % type(v).__name__)
        if any(isinstance(v, Arr) and v.gen is not None for v in vals):
            return self.elementwise_gen(st, f, vals)
        nd = max(v.ndim for v in vals if isinstance(v, Arr))
        dims = []
        for k in range(nd):
            best = None
            for v in vals:
                if isinstance(v, Arr):
                    j = k - (nd - v.ndim)
                    if j >= 0:
                        c = is_cst(v.dims[j])
                        if best is None or (is_cst(best) == 1 and c != 1):
                            best = v.dims[j]
            dims.append(best)
        ones = []
        for v in vals:
            if isinstance(v, Arr):
                ones.append([is_cst(d) == 1 and is_cst(
                    dims[k + nd - v.ndim]) != 1
                    for k, d in enumerate(v.dims)])
            else:
                ones.append(None)

        def get(idx):
            xs = []
            for v, o in zip(vals, ones):
                if isinstance(v, Scalar):
                    xs.append(v)
                else:
                    ii = idx[nd - v.ndim:]
                    ii = [num_(0) if z else x for z, x in zip(o, ii)]
                    xs.append(v.get(ii))
            return f(*xs)
        flat = None
        fl = [v for v in vals if isinstance(v, Arr) and v.flat is not None]
        if fl and all(isinstance(v, Scalar) or v.flat is not None
                      for v in vals):
            flat = self.elementwise(st, f, *[v if isinstance(v, Scalar)
                                             else v.flat for v in vals])
        return Arr(dims, get, flat=flat)

    def elementwise_gen(self, st, f, vals):
        src = [v for v in vals if isinstance(v, Arr) and v.gen is not None]
        others = [v for v in vals if isinstance(v, Arr) and v.gen is None
                  and not (v.ndim and is_cst(v.dims[0]) == 1 and
                           v.ndim >= src[0].ndim)]
        others = [v for v in others if v.ndim >= src[0].ndim]
        if others:
            raise Unknown('filtered and plain operand')
        segs = zip_segs([v.gen.segs for v in src])
        it = {id(v): k for k, v in enumerate(src)}

        def g(*els):
            xs = []
            for v in vals:
                if isinstance(v, Scalar):
                    xs.append(v)
                elif id(v) in it:
                    xs.append(asarr(els[it[id(v)]]))
                else:
                    if v.ndim == src[0].ndim:
                        xs.append(v.row(num_(0)))
                    else:
                        xs.append(v)
            return self.elementwise(st, f, *xs)
        r = gen_arr(Lst(z_map(segs, g)))
        return r

    def e_BoolOp(self, st, e):
        vals = []
        cur = st
        isand = isinstance(e.op, ast.And)
        first = self.ev(st, e.values[0])
        res = None
        conds = [self.truth(st, first)]
        raw = [first]
        w = st.fork()
        for x in e.values[1:]:
            c = conds[-1]
            w = w.fork()
            w.pc = and_(w.pc, c if isand else not_(c))
            if w.pc == FALSE:
                break
            v = self.ev(w, x)
            raw.append(v)
            conds.append(self.truth(w, v))
        if all(is_bool_scalar(self.deref(st, v)) for v in raw):
            r = conds[-1]
            for c in reversed(conds[:-1]):
                r = and_(c, r) if isand else or_(c, r)
            return r
        # value semantics of and/or
        r = raw[-1]
        for v, c in reversed(list(zip(raw[:-1], conds[:-1]))):
            r = vite(c, self.deep(w, r), self.deep(w, v)) if isand else \
                vite(c, self.deep(w, v), self.deep(w, r))
        return r

    def e_Compare(self, st, e):
        left = self.ev(st, e.left)
        res = None
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(st, r)
            c = self.compare(st, op, left, right, e)
            if res is None:
                res = c
            elif isinstance(res, Scalar) and isinstance(c, Scalar):
                res = and_(res, c)
            else:
                return self.unknown('chained array comparison', e)
            left = right
        return res

    def compare(self, st, op, a, b, node):
        a, b = self.simp(st, self.deref(st, a)), \
            self.simp(st, self.deref(st, b))
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = self.is_op(st, a, b)
            return r if isinstance(op, ast.Is) else not_(r)
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.in_op(st, a, b)
            return r if isinstance(op, ast.In) else not_(r)
        f = {ast.Eq: cmp_eq, ast.NotEq: lambda x, y: not_(cmp_eq(x, y)),
             ast.Lt: cmp_lt, ast.LtE: cmp_le,
             ast.Gt: lambda x, y: cmp_lt(y, x),
             ast.GtE: lambda x, y: cmp_le(y, x)}[type(op)]
        if isinstance(op, (ast.Eq, ast.NotEq)) and (
                isinstance(a, (Tup, Ext)) or isinstance(b, (Tup, Ext))) and \
                not isinstance(a, Arr) and not isinstance(b, Arr):
            if isinstance(a, Tup) and isinstance(b, Tup):
                if len(a.items) != len(b.items):
                    r = FALSE
                else:
                    r = TRUE
                    for x, y in zip(a.items, b.items):
                        r = and_(r, self.compare(st, ast.Eq(), x, y, node))
            else:
                ra, rb = reify(self.deep(st, a)), reify(self.deep(st, b))
                if ra == rb:
                    r = TRUE
                else:
                    x, y = sorted((ra, rb), key=lambda t: str(t.fp))
                    r = pred_(atom('eqs', (x, y), boolean=True))
            return r if isinstance(op, ast.Eq) else not_(r)
        if isinstance(a, Choice) or isinstance(b, Choice):
            ch = a if isinstance(a, Choice) else b
            if ch is a:
                return vite(ch.cond, self.compare(st, op, ch.a, b, node),
                            self.compare(st, op, ch.b, b, node))
            return vite(ch.cond, self.compare(st, op, a, ch.a, node),
                        self.compare(st, op, a, ch.b, node))
        r = self.elementwise(st, f, a, b)
        if isinstance(r, Arr):
            r.boolean = True
        return r

    def is_op(self, st, a, b):
        if isinstance(a, Choice):
            return ite(a.cond, self.is_op(st, self.deref(st, a.a), b),
                       self.is_op(st, self.deref(st, a.b), b))
        if isinstance(b, Const) and isinstance(a, Scalar):
            return cmp_eq(a, b)
        if isinstance(b, Const) and not isinstance(a, Scalar):
            return FALSE
        if isinstance(a, Const) and not isinstance(b, Scalar):
            return FALSE
        if isinstance(a, Ext) and isinstance(b, Ext):
            return boolc(a.name == b.name)
        if isinstance(a, Scalar) and isinstance(b, Scalar):
            return cmp_eq(a, b)
        ra, rb = reify(self.deep(st, a)), reify(self.deep(st, b))
        if ra == rb:
            return TRUE
        return pred_(atom('is', (ra, rb), boolean=True))

    def in_op(self, st, a, b):
        b = self.deref(st, b)
        if isinstance(b, Tup):
            r = FALSE
            for x in b.items:
                r = or_(r, self.compare(st, ast.Eq(), a, x, None))
            return r
        if isinstance(b, DictV) and not b.rest and isinstance(a, Scalar):
            r = FALSE
            for k in b.items:
                r = or_(r, cmp_eq(a, Const(k) if not isinstance(
                    k, (int, Fraction)) or isinstance(k, bool)
                    else num_(k)))
            return r
        if isinstance(b, Arr) and isinstance(a, Scalar) and b.ndim == 1 \
                and b.gen is None:
            # membership in an arithmetic progression 0,1,..,n-1
            i = fresh('i')
            el = b.get([i])
            d = sub(el, i)
            if isinstance(d, Scalar) and sym_name(i) not in d.syms:
                x = sub(a, d)
                c = and_(cmp_le(num_(0), x), cmp_lt(x, b.dims[0]))
                if is_int(x):
                    return c
                return and_(c, and_(TRUE, self.integral(x)))
        if isinstance(b, (Arr, Lst)) and isinstance(a, Scalar):
            if isinstance(b, Lst):
                s = b.simple()
                if s is not None and isinstance(s[2], Scalar):
                    return self.in_op(st, a, asarr(b))
            if is_int(a):
                l = b.gen if isinstance(b, Arr) and b.gen is not None else b
                r = self.member(a, l) if isinstance(l, Lst) else None
                if r is not None:
                    return r
            return pred_(atom('in', (a, reify(self.deep(st, b))),
                              boolean=True))
        return self.models.in_other(st, a, b)

    def positions(self, o, i):
        """position i is one of o"""
        l = o.gen if isinstance(o, Arr) and o.gen is not None else o
        if isinstance(l, Tup):
            l = Lst([One(x) for x in l.items])
        return self.member(i, l) if isinstance(l, Lst) else None

    def member(self, a, l):
        """a in [f(i) for i in range(n) if c(i)] where f is injective"""
        if l.phi is not None:
            return None

        def one(v):
            if not (isinstance(v, Scalar) and is_int(v)):
                return None
            return eq0(sub(a, v))

        def walk(segs):
            r = FALSE
            for s in segs:
                if isinstance(s, One):
                    c = one(s.v)
                elif isinstance(s, Grd):
                    c = walk(s.segs)
                    c = None if c is None else and_(s.cond, c)
                else:
                    inner = norm_segs(s.segs)
                    g, x = TRUE, inner
                    while len(x) == 1 and isinstance(x[0], Grd):
                        g = and_(g, x[0].cond)
                        x = x[0].segs
                    if len(x) != 1 or not isinstance(x[0], One) or \
                            not isinstance(x[0].v, Scalar) or \
                            not is_int(x[0].v):
                        return None
                    nm = sym_name(s.i)
                    d = sub(x[0].v, s.i)
                    if nm in d.syms or nm in a.syms:
                        return None
                    k = sub(a, d)
                    c = and_(and_(cmp_le(num_(0), k), cmp_lt(k, s.n)),
                             subst(g, {nm: k}))
                if c is None:
                    return None
                r = or_(r, c)
            return r
        return walk(l.segs)

    def integral(self, x):
        # membership of a position in a range of integers; positions are
        # integers by contract
        return TRUE

    def truth(self, st, v):
        v = self.simp(st, self.deref(st, v))
        if isinstance(v, Scalar):
            if isinstance(v, (Rat,)):
                a = the_atom(v)
                if a is not None and not a.boolean and a.kind == 'sym' and \
                        a.args[0] in self.models.truthy:
                    return pred_(atom('truth', (v,), boolean=True))
            return as_bool(v)
        if isinstance(v, Choice):
            return ite(v.cond, self.truth(st, v.a), self.truth(st, v.b))
        if isinstance(v, (Tup,)):
            return boolc(bool(v.items))
        if isinstance(v, Lst):
            if v.phi is not None:
                return pred_(atom('unkb', ('%d' % id(v),), boolean=True,
                                  unk=True))
            n = count_segs(norm_segs(v.segs))
            return not_(eq0(n))
        if isinstance(v, DictV):
            if v.rest:
                return not_(eq0(count_segs(v.rest))) if not v.items else TRUE
            return boolc(bool(v.items))
        if isinstance(v, (Func, Ext, Part)):
            return TRUE
        if isinstance(v, Arr):
            if v.ndim == 1 and is_cst(v.dims[0]) == 1:
                return as_bool(v.get([num_(0)]))
            return pred_(atom('truth', (reify(v),), boolean=True))
        raise Unknown('truth of %s' % type(v).__name__)

    def list_append(self, st, ref, v):
        c = st.heap[ref.id]
        if isinstance(c, Tup) and c.is_list:
            st.heap[ref.id] = Tup(c.items + [v], True)
        elif isinstance(c, Lst):
            st.heap[ref.id] = Lst(c.segs + (One(v),), c.phi)
        else:
            st.heap[ref.id] = unk('append')

    def list_extend(self, st, ref, v):
        c = st.heap[ref.id]
        d = self.deref(st, v)
        try:
            segs = self.iter_segs(st, d)
        except Unknown:
            st.heap[ref.id] = unk('extend')
            return
        if isinstance(c, Tup) and c.is_list and \
                all(isinstance(s, One) for s in segs):
            st.heap[ref.id] = Tup(c.items + [s.v for s in segs], True)
        elif isinstance(c, (Tup, Lst)):
            base = segs_of(c)
            st.heap[ref.id] = Lst(list(base) + list(segs),
                                  getattr(c, 'phi', None))
        else:
            st.heap[ref.id] = unk('extend')

    e_Slice = None

    def e_Slice(self, st, e):
        return self.slice_val(st, e)

    def e_Starred(self, st, e):
        return self.ev(st, e.value)

    # ------------------------------------------------------------ entry
    def run(self, module, fname, args):
        """analyse a function on symbolic arguments; returns (state, value)"""
        st = State({}, {}, TRUE)
        f = self.module_value(fname, module)
        if not isinstance(f, (Func, Part)):
            return None, None
        self.frames.append(Frame(Func(None, module, None, '<entry>')))
        try:
            kw = {k: v for k, v in args.items()}
            v = self.call(st, f, [], kw, f.node if isinstance(f, Func)
                          else None)
        finally:
            self.frames.pop()
        return st, self.deep(st, v)


# ---------------------------------------------------------------- helpers
def bit_and(a, b):
    if is_bool_scalar(a) and is_bool_scalar(b):
        return and_(a, b)
    return of_atom(atom('bitand', (a, b)))


def bit_or(a, b):
    if is_bool_scalar(a) and is_bool_scalar(b):
        return or_(a, b)
    return of_atom(atom('bitor', (a, b)))


def bit_xor(a, b):
    if is_bool_scalar(a) and is_bool_scalar(b):
        return ite(a, not_(b), b)
    return of_atom(atom('bitxor', (a, b)))


def is_bool_scalar(v):
    if isinstance(v, Const):
        return isinstance(v.v, bool)
    if isinstance(v, Ite):
        return is_bool_scalar(v.hi) and is_bool_scalar(v.lo)
    if isinstance(v, Rat):
        a = the_atom(v)
        return a is not None and a.boolean
    return False


def is_bool_arr(v):
    if v.gen is not None:
        return False
    try:
        ps = [fresh('x') for _ in v.dims]
        return is_bool_scalar(v.get(ps))
    except (Unknown, Limit):
        return False


def _neg_form(x):
    """-k - 1 and the like: all coefficients negative over atoms that are
    non-negative"""
    if not (len(x.den) == 1 and ONE_M in x.den):
        return False
    for m, c in x.num.items():
        if c > 0:
            return False
        for i, _ in m:
            a = Atom.by_id[i]
            if a.lb is None or a.lb < 0:
                return False
    return bool(x.num)


def zip_segs(lists):
    """zip segment lists with the same skeleton; Zone elements are tuples"""
    lists = [norm_segs(s) for s in lists]
    n = len(lists[0])
    if any(len(s) != n for s in lists):
        raise Unknown('different lists')
    out = []
    for parts in zip(*lists):
        a = parts[0]
        if any(type(p) is not type(a) for p in parts):
            raise Unknown('different lists')
        if isinstance(a, One):
            out.append(One(tuple(p.v for p in parts)))
        elif isinstance(a, Grd):
            if any(p.cond != a.cond for p in parts):
                raise Unknown('different filters')
            out.append(Grd(a.cond, zip_segs([p.segs for p in parts])))
        else:
            if any(p.n != a.n for p in parts):
                raise Unknown('different extents')
            i = fresh('z')
            out.append(Map(i, a.n, zip_segs(
                [[ssubst(x, {sym_name(p.i): i}) for x in p.segs]
                 for p in parts])))
    return out


def z_map(segs, f):
    out = []
    for s in segs:
        if isinstance(s, One):
            out.append(One(f(*s.v)))
        elif isinstance(s, Grd):
            out.append(Grd(s.cond, z_map(s.segs, f)))
        else:
            out.append(Map(s.i, s.n, z_map(s.segs, f)))
    return out


def grd_map(segs, f):
    out = []
    for s in segs:
        if isinstance(s, One):
            c, v = f(*s.v)
            out.append(Grd(c, [One(v)]))
        elif isinstance(s, Grd):
            out.append(Grd(s.cond, grd_map(s.segs, f)))
        else:
            out.append(Map(s.i, s.n, grd_map(s.segs, f)))
    return out


def vsubst_any(x, m):
    if isinstance(x, (Val, Scalar)):
        return vsubst(x, m)
    if isinstance(x, (list, tuple)):
        return type(x)(vsubst_any(y, m) for y in x)
    if isinstance(x, dict):
        return {k: vsubst_any(v, m) for k, v in x.items()}
    return x


def replace_atom(t, a, by):
    """replace every occurrence of one atom by a scalar"""
    if a is None:
        return t
    if isinstance(t, Rat):
        hit = any(Atom.by_id[i] is a for p in (t.num, t.den)
                  for m in p for i, _ in m)
        if not hit:
            return t

        def poly(p):
            tot = num_(0)
            for m, c in p.items():
                x = num_(c)
                for i, e in m:
                    at = Atom.by_id[i]
                    x = mul(x, ipow(by if at is a else of_atom(at), e))
                tot = add(tot, x)
            return tot
        return div(poly(t.num), poly(t.den))
    if isinstance(t, Ite):
        return ite(pred_(t.pred), replace_atom(t.hi, a, by),
                   replace_atom(t.lo, a, by))
    return t


def reads(v, pn):
    if isinstance(v, Scalar):
        return pn in v.syms
    if isinstance(v, Arr):
        try:
            ps = [fresh('x') for _ in v.dims]
            return pn in v.get(ps).syms
        except (Unknown, Limit):
            return True
    return False


def target_names(t):
    return {x.id for x in ast.walk(t) if isinstance(x, ast.Name)}


def assigned_names(stmts):
    out = set()

    def walk(n):
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ListComp,
                          ast.GeneratorExp, ast.SetComp, ast.DictComp,
                          ast.ClassDef)):
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                out.add(n.name)
            if not isinstance(n, (ast.FunctionDef, ast.Lambda,
                                  ast.ClassDef)):
                for c in ast.walk(n):
                    if isinstance(c, ast.NamedExpr):
                        out.add(c.target.id)
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            out.update(import_names(n))
        if isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        for c in ast.iter_child_nodes(n):
            walk(c)
    for s in stmts:
        walk(s)
    return out


MUT_METHODS = {'append', 'extend', 'insert', 'remove', 'pop', 'clear',
               'sort', 'reverse', 'update', 'fill', 'resize', 'put',
               'setdefault', 'add'}


def mutated_names(stmts):
    """names whose object may be changed in place by the statements"""
    out = set()
    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) \
                    and n.func.attr in MUT_METHODS and \
                    isinstance(n.func.value, ast.Name):
                out.add(n.func.value.id)
            if isinstance(n, ast.Call):
                # an argument may be changed by the callee
                for a in n.args:
                    pass
            if isinstance(n, ast.Subscript) and \
                    isinstance(n.ctx, (ast.Store, ast.Del)):
                b = n.value
                while isinstance(b, (ast.Subscript, ast.Attribute)):
                    b = b.value
                if isinstance(b, ast.Name):
                    out.add(b.id)
            if isinstance(n, ast.AugAssign) and \
                    isinstance(n.target, ast.Name):
                out.add(n.target.id)
    return out


def exc_names(h):
    if h.type is None:
        return None
    t = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
    return [ast.unparse(x).split('.')[-1] for x in t]


def _as_load(t):
    import copy
    t = copy.deepcopy(t)
    for n in ast.walk(t):
        if hasattr(n, 'ctx'):
            n.ctx = ast.Load()
    return t
