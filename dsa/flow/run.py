"""flow-sensitive, join-based abstract interpretation of the package: what a
value may share memory with, depends on, is made of; which effects happen.
Package functions are inlined at their call sites; loops run to a fixpoint;
a test that a function repeats on unchanged parameters splits the state."""
import ast
from collections import Counter
from .vals import *
from . import lib


class Cell:
    """content of an abstract object (joined over all stores)"""
    __slots__ = ('elem', 'deps', 'dt', 'fstore', 'uninit', 'stores', 'narrow',
                 'site', 'marks', 'dicts', 'order')

    def __init__(self):
        self.elem = None
        self.deps = frozenset()
        self.dt = None
        self.fstore = None
        self.uninit = False
        self.stores = []
        self.narrow = None
        self.site = None
        self.marks = ()
        self.dicts = {}
        self.order = frozenset()


class Env:
    __slots__ = ('vars', 'facts', 'parent')

    def __init__(self, vars=None, facts=None, parent=None):
        self.vars = vars or {}
        self.facts = facts or {}
        self.parent = parent

    def copy(self):
        return Env(dict(self.vars), dict(self.facts), self.parent)

    def get(self, n):
        e = self
        while e is not None:
            if n in e.vars:
                return e.vars[n]
            e = e.parent
        return None


def joinenv(a, b):
    if a is None:
        return b
    if b is None:
        return a
    r = Env({}, {k: v for k, v in a.facts.items() if b.facts.get(k) == v},
            a.parent)
    for k in set(a.vars) | set(b.vars):
        r.vars[k] = join(a.vars.get(k), b.vars.get(k))
    return r


def joinall(envs):
    r = None
    for e in envs:
        r = joinenv(r, e)
    return r


class Frame:
    def __init__(self, mod, node, qual):
        self.mod = mod
        self.node = node
        self.qual = qual
        self.ret = None
        self.rets = []
        self.yields = None
        self.sticky = frozenset()
        self.brk = []
        self.cnt = []
        self.globals = set()
        self.rep = None


class Event:
    __slots__ = ('kind', 'node', 'mod', 'fn', 'data', 'deps', 'marks')

    def __init__(self, kind, node, mod, fn, data, deps, marks):
        self.kind = kind
        self.node = node
        self.mod = mod
        self.fn = fn
        self.data = data
        self.deps = deps
        self.marks = marks

    def where(self):
        return '%s:%s (%s)' % (self.mod.path, getattr(self.node, 'lineno',
                                                      '?'), self.fn)


def opened(fl, star, dstar):
    """may unknown arguments be handed over? (own: only such keywords as
    are not named parameters of the entry function)"""
    if star is not None:
        return True
    if dstar is None:
        return False
    s = dstar.sym
    if s is not None and s[0] == 'param' and \
            dstar.objs == frozenset(['P:' + s[1]]) and \
            not fl.heap['P:' + s[1]].dicts:
        return 'own'
    return True


class Flow:
    MAXDEPTH = 14

    def __init__(self, mods):
        self.mods = mods
        self.heap = {}
        self.events = []
        self.seen = {}
        self.visited = set()
        self.frames = []
        self.ctrl = frozenset()
        self.marks = ()
        self.gcache = {}
        self.steps = 0
        self.retsites = []

    # ------------------------------------------------------------- basics
    @property
    def fr(self):
        return self.frames[-1]

    def cell(self, o):
        c = self.heap.get(o)
        if c is None:
            c = self.heap[o] = Cell()
        return c

    def control(self):
        r = self.ctrl
        for f in self.frames:
            r = r | f.sticky
        return r

    def alldeps(self, v, seen=None):
        """dependencies of everything reachable from v"""
        if v is None:
            return frozenset()
        seen = set() if seen is None else seen
        d = v.deps
        if v.items is not None:
            for x in v.items:
                d = d | self.alldeps(x, seen)
        for o in v.objs:
            if o in seen:
                continue
            seen.add(o)
            c = self.heap.get(o)
            if c is not None:
                d = d | c.deps | self.alldeps(c.elem, seen)
        return d

    def event(self, kind, node, data=None, deps=frozenset()):
        f = self.fr
        k = (kind, id(node), f.qual, lib.dkey(data))
        e = self.seen.get(k)
        if e is not None:
            e.deps = e.deps | deps | self.control()
            if kind in ('lib', 'pkg'):
                for n, v in data['args'].items():
                    e.data['args'][n] = join(e.data['args'].get(n), v)
            return e
        e = Event(kind, node, f.mod, f.qual, data, deps | self.control(),
                  self.marks)
        self.seen[k] = e
        self.events.append(e)
        return e

    def alloc(self, node, kind, elem=None, tag='', **kw):
        o = 'A:%s:%s:%s:%s%s' % ('/'.join(f.qual.split('.')[-1] for f in
                                          self.frames[-4:]),
                                 getattr(node, 'lineno', 0),
                                 getattr(node, 'col_offset', 0), kind, tag)
        c = self.cell(o)
        c.elem = join(c.elem, elem)
        if c.site is None:
            c.site = (node, self.fr.mod, self.fr.qual)
            c.marks = self.marks
        return V(kind, objs=frozenset([o]), **kw)

    def mutate(self, v, node, how):
        for o in sorted(v.objs):
            if not o.startswith('A:'):
                self.event('mutate', node, {'obj': o, 'how': how})

    def content(self, v):
        """joined element of the containers v may be"""
        r = None
        for o in v.objs:
            c = self.heap.get(o)
            if c is not None:
                r = join(r, c.elem)
        return r

    def put(self, v, x, node=None):
        """x becomes an element of the containers v may be"""
        for o in v.objs:
            c = self.cell(o)
            c.elem = join(c.elem, x)
            c.deps = c.deps | self.control()

    # ---------------------------------------------------------- iteration
    def iter_elem(self, v, node=None):
        if v is None:
            return V()
        d = v.deps
        if v.items is not None:
            r = None
            for x in v.items:
                r = join(r, x)
            return (r or V()).but(deps=(r.deps if r else E) | d) \
                if r is not None else V(deps=d)
        r = None
        if v.may('list', 'set', 'tuple', 'dict', 'iter'):
            x = self.content(v)
            if x is not None:
                r = x.but(deps=x.deps | d)
        if v.may('arr') or (r is None and not v.may('list', 'iter', 'set',
                                                     'dict')):
            r = join(r, self.row(v))
        if r is None:
            r = V(deps=d)
        return r

    def row(self, v):
        """v[i] for one integer i"""
        d = self.alldeps(v) if v.may('arr', 'any') else v.deps
        if v.nd == 1:
            return V('num', deps=d, narrow=v.narrow, dt=v.dt,
                     prov=v.prov if v.prov and v.prov[0] == 'alt' else None)
        p = v.prov
        if p is not None and p[0] == 'col':
            p = None
        if v.nd is not None and v.nd >= 2:
            return V('arr', v.nd - 1, v.objs, deps=d, narrow=v.narrow,
                     dt=v.dt, prov=p)
        if v.may('num') and not v.may('arr'):
            return V('num', deps=d, narrow=v.narrow)
        return V(ANY, None, v.objs, deps=d, narrow=v.narrow, dt=v.dt, prov=p)

    # --------------------------------------------------------- name lookup
    def modname(self, mod, name, node=None):
        """value of a module-level name"""
        k = (mod.name, name)
        if k in self.gcache:
            return self.gcache[k]
        r = None
        self.gcache[k] = V()
        for st in self.toplevel(mod.tree.body):
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)) and \
                    st.name == name:
                r = V('func', fun=('pkg', mod, st))
            elif isinstance(st, ast.ClassDef) and st.name == name:
                r = V('func', fun=('class', mod, st))
            elif isinstance(st, ast.Import):
                for a in st.names:
                    if (a.asname or a.name.split('.')[0]) == name:
                        r = self.module(a.name if a.asname else
                                        a.name.split('.')[0])
            elif isinstance(st, ast.ImportFrom):
                for a in st.names:
                    if (a.asname or a.name) == name:
                        r = self.from_import(st, a, mod)
            elif isinstance(st, (ast.Assign, ast.AnnAssign)):
                ts = st.targets if isinstance(st, ast.Assign) else [st.target]
                for t in ts:
                    if isinstance(t, ast.Name) and t.id == name and \
                            st.value is not None:
                        r = self.gvalue(mod, name, st.value)
        if r is None:
            r = lib.builtin(name)
        self.gcache[k] = r
        return r

    def toplevel(self, body):
        for st in body:
            yield st
            if isinstance(st, (ast.If, ast.Try, ast.With)):
                yield from self.toplevel(st.body)
                yield from self.toplevel(getattr(st, 'orelse', []))
                for h in getattr(st, 'handlers', []):
                    yield from self.toplevel(h.body)

    def module(self, dotted):
        if dotted in self.mods:
            return V('mod', fun=('mod', dotted))
        return V('mod', fun=('lib', dotted))

    def from_import(self, st, a, mod):
        base = st.module or ''
        if st.level:
            parts = mod.name.split('.')
            base = '.'.join(parts[:len(parts) - st.level] +
                            ([base] if base else []))
        if base in self.mods:
            full = base + '.' + a.name
            if full in self.mods:
                return V('mod', fun=('mod', full))
            return self.modname(self.mods[base], a.name)
        return V('any', fun=('lib', base + '.' + a.name))

    def gvalue(self, mod, name, e):
        if isinstance(e, ast.Constant):
            return const(e.value)
        if isinstance(e, (ast.Name, ast.Attribute, ast.Lambda)):
            fr = Frame(mod, mod.tree, mod.name)
            self.frames.append(fr)
            try:
                return self.ev(e, Env())
            finally:
                self.frames.pop()
        if isinstance(e, ast.Tuple):
            its = tuple(self.gvalue(mod, '%s.%d' % (name, k), x)
                        for k, x in enumerate(e.elts))
            return V('tuple', items=its)
        o = 'G:%s.%s' % (mod.name, name)
        k = {ast.List: 'list', ast.Dict: 'dict', ast.Set: 'set',
             ast.ListComp: 'list', ast.DictComp: 'dict'}.get(type(e))
        if k is None and isinstance(e, (ast.BinOp, ast.UnaryOp, ast.Compare,
                                        ast.BoolOp, ast.JoinedStr)):
            # arithmetic on literals and names: an array only if it holds one
            fr = Frame(mod, mod.tree, mod.name)
            self.frames.append(fr)
            try:
                v = self.ev(e, Env())
            finally:
                self.frames.pop()
            return v.but(objs=frozenset([o]) if v.may('arr', 'list')
                         else frozenset())
        if k is None and isinstance(e, ast.Call):
            fr = Frame(mod, mod.tree, mod.name)
            self.frames.append(fr)
            n = len(self.events)
            try:
                v = self.ev(e, Env())
            finally:
                self.frames.pop()
                del self.events[n:]
            if v.only('num', 'str', 'bool', 'none'):
                return v
            return v.but(objs=frozenset([o]))
        return V(k or 'any', objs=frozenset([o]))

    def lookup(self, name, env):
        v = env.get(name)
        if v is not None:
            return v
        return self.modname(self.fr.mod, name)

    # --------------------------------------------------------------- calls
    def entry(self, mod, node, args, qual=None):
        """args: {param: V}"""
        return self.call_node(mod, node, dict(args), node,
                              qual or mod.name + '.' + node.name)

    def call_node(self, mod, node, bound, site, qual, parent=None):
        if len(self.frames) > self.MAXDEPTH or \
                sum(1 for f in self.frames if f.node is node) > 1:
            d = frozenset()
            for v in bound.values():
                d = d | self.alldeps(v)
            return V(deps=d)
        self.visited.add(qual)
        fr = Frame(mod, node, qual)
        env = Env(dict(bound), {}, parent)
        self.frames.append(fr)
        try:
            if isinstance(node, ast.Lambda):
                return self.ev(node.body, env)
            body = node.body
            fr.rep = repeated(node)
            gen = is_generator(node)
            if gen:
                fr.yields = self.alloc(node, 'list', tag='gen')
            outs = self.block(body, [env])
            r = fr.ret
            if outs:
                r = join(r, const(None))
            if gen:
                return fr.yields.but(kinds=frozenset(['iter']))
            r = r if r is not None else V()
            return r.but(deps=r.deps | fr.sticky)
        finally:
            self.frames.pop()

    def bind(self, fnode, args, kwargs, mod, qual, star=None, dstar=None):
        """bind call arguments to formal parameters -> {name: V}"""
        a = fnode.args
        pos = a.posonlyargs + a.args
        out = {}
        given = set()
        for p, v in zip(pos, args):
            out[p.arg] = v
            given.add(p.arg)
        rest = args[len(pos):]
        if a.vararg:
            el = None
            for v in rest:
                el = join(el, v)
            if star is not None:
                el = join(el, star)
            items = tuple(rest) if star is None else None
            out[a.vararg.arg] = V('tuple', items=items) if items is not None \
                else self.alloc(fnode, 'tuple', el, tag='va')
        names = [p.arg for p in pos + a.kwonlyargs]
        extra = {}
        for k, v in kwargs.items():
            if k in names:
                out[k] = v
                given.add(k)
            else:
                extra[k] = v
        if a.kwarg:
            el = None
            for v in extra.values():
                el = join(el, v)
            if dstar is not None:
                x = self.content(dstar)
                el = join(el, x if x is not None else
                          V(deps=dstar.deps))
            out[a.kwarg.arg] = self.alloc(fnode, 'dict', el, tag='kw').but(
                deps=dstar.deps if dstar is not None else E)
        defs = list(zip(reversed(pos), reversed(a.defaults))) + \
            [(p, d) for p, d in zip(a.kwonlyargs, a.kw_defaults)
             if d is not None]
        dm = {p.arg: d for p, d in defs}
        for n in names:
            if n in out:
                continue
            v = None
            if star is not None and n not in [p.arg for p in a.kwonlyargs]:
                v = star
            if dstar is not None:
                x = self.content(dstar)
                v = join(v, x if x is not None else V(deps=dstar.deps))
            if n in dm:
                v = join(v, self.default(mod, qual, n, dm[n]))
            out[n] = v if v is not None else V()
        return out, given

    def default(self, mod, qual, name, e):
        if isinstance(e, ast.Constant):
            return const(e.value)
        if isinstance(e, ast.UnaryOp) and isinstance(e.operand, ast.Constant)\
                and isinstance(e.op, ast.USub):
            return const(-e.operand.value)
        if isinstance(e, ast.Tuple):
            return V('tuple', items=tuple(self.default(mod, qual, name, x)
                                          for x in e.elts))
        if isinstance(e, (ast.Name, ast.Attribute)):
            fr = Frame(mod, mod.tree, mod.name)
            self.frames.append(fr)
            try:
                return self.ev(e, Env())
            finally:
                self.frames.pop()
        k = {ast.List: 'list', ast.Dict: 'dict', ast.Set: 'set'}.get(type(e),
                                                                     'any')
        return V(k, objs=frozenset(['D:%s.%s' % (qual, name)]))

    def call(self, f, args, kwargs, node, env, star=None, dstar=None,
             recv=None, meth=None):
        """value of calling f"""
        fun = f.fun
        if fun is None:
            d = f.deps
            for v in list(args) + list(kwargs.values()):
                d = d | self.alldeps(v)
            for v in (star, dstar):
                if v is not None:
                    d = d | self.alldeps(v)
            return V(deps=d)
        if fun[0] == 'pkg':
            _, mod, fn = fun
            qual = mod.name + '.' + fn.name
            bound, given = self.bind(fn, args, kwargs, mod, qual, star, dstar)
            self.event('pkg', node, {'name': qual, 'args': dict(bound),
                                     'given': given, 'open':
                                     opened(self, star, dstar)})
            r = lib.package_hook(self, qual, bound, node)
            if r is not None:
                # still look inside for effects
                self.call_node(mod, fn, bound, node, qual)
            else:
                r = self.call_node(mod, fn, bound, node, qual)
            if cached(self, mod, fn):
                if not r.only('num', 'str', 'bool', 'none'):
                    r = r.but(objs=r.objs | frozenset(['C:' + qual]))
            return r
        if fun[0] == 'clo':
            _, mod, fn, parent, qual = fun
            bound, given = self.bind(fn, args, kwargs, mod, qual, star, dstar)
            self.event('pkg', node, {'name': qual, 'args': dict(bound),
                                     'given': given, 'open':
                                     opened(self, star, dstar)})
            return self.call_node(mod, fn, bound, node, qual, parent)
        if fun[0] == 'partial':
            _, g, pa, pk = fun
            kw = dict(pk)
            kw.update(kwargs)
            return self.call(g, list(pa) + list(args), kw, node, env, star,
                             dstar)
        if fun[0] == 'lib':
            return lib.call(self, fun[1], args, kwargs, node, env, star,
                            dstar)
        if fun[0] == 'meth':
            return lib.method(self, fun[1], fun[2], args, kwargs, node, env,
                              star, dstar)
        d = f.deps
        for v in list(args) + list(kwargs.values()):
            d = d | self.alldeps(v)
        return V(deps=d)

    # -------------------------------------------------------- expressions
    def ev(self, e, env):
        self.steps += 1
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            d = frozenset()
            for c in ast.iter_child_nodes(e):
                if isinstance(c, ast.expr):
                    d = d | self.alldeps(self.ev(c, env))
            return V(deps=d)
        return m(e, env)

    def e_Constant(self, e, env):
        return const(e.value)

    def e_Name(self, e, env):
        return self.lookup(e.id, env)

    def e_JoinedStr(self, e, env):
        d = frozenset()
        for x in e.values:
            if isinstance(x, ast.FormattedValue):
                d = d | self.alldeps(self.ev(x.value, env))
        return V('str', deps=d)

    def e_NamedExpr(self, e, env):
        v = self.ev(e.value, env)
        self.assign(e.target, v, env, e)
        return v

    def e_Tuple(self, e, env):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            el = None
            for x in e.elts:
                el = join(el, self.iter_elem(self.ev(x.value, env))
                          if isinstance(x, ast.Starred) else self.ev(x, env))
            return self.alloc(e, 'tuple', el)
        return V('tuple', items=tuple(self.ev(x, env) for x in e.elts))

    def e_List(self, e, env):
        el, d = None, frozenset()
        its = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                el = join(el, self.iter_elem(self.ev(x.value, env)))
                its = None
            else:
                v = self.ev(x, env)
                el = join(el, v)
                if its is not None:
                    its.append(v)
        r = self.alloc(e, 'list', el)
        r.sym = ('len', len(its)) if its is not None and its else None
        p = lib.stackprov(its) if its else None
        if p is not None:
            # [y, x] built from the two columns of one point
            r.prov = p
        return r

    e_Set = e_List

    def e_Dict(self, e, env):
        el = None
        ks = []
        for k, x in zip(e.keys, e.values):
            v = self.ev(x, env)
            if k is None:
                el = join(el, self.content(v) or V(deps=v.deps))
                ks = None
                continue
            kv = self.ev(k, env)
            el = join(el, v)
            if ks is not None and kv.sym is not None and \
                    kv.sym[0] == 'const' and isinstance(kv.sym[1], str):
                ks.append((kv.sym[1], v))
            else:
                ks = None
        return self.newdict(e, el, ks)

    def newdict(self, node, el, ks):
        r = self.alloc(node, 'dict', el)
        (o,) = r.objs
        c = self.cell(o)
        if ks is None or c.dicts is None:
            c.dicts = None
        else:
            for k, v in ks:
                c.dicts[k] = join(c.dicts.get(k), v)
        return r

    def known_dict(self, v):
        """{key: V} when v surely is one dictionary with known keys"""
        if v is None or not v.only('dict') or len(v.objs) != 1:
            return None
        (o,) = v.objs
        if not o.startswith('A:'):
            return None
        c = self.heap.get(o)
        return c.dicts if c is not None and c.dicts else None

    def e_Starred(self, e, env):
        return self.ev(e.value, env)

    def e_Lambda(self, e, env):
        return V('func', fun=('clo', self.fr.mod, e, env,
                              self.fr.qual + '.<lambda>'))

    def e_Await(self, e, env):
        return self.ev(e.value, env)

    def e_Yield(self, e, env):
        v = self.ev(e.value, env) if e.value is not None else const(None)
        if self.fr.yields is not None:
            self.put(self.fr.yields, v.but(deps=v.deps | self.control()))
        return const(None)

    def e_YieldFrom(self, e, env):
        v = self.iter_elem(self.ev(e.value, env))
        if self.fr.yields is not None:
            self.put(self.fr.yields, v)
        return const(None)

    def e_IfExp(self, e, env):
        t = self.ev(e.test, env)
        k = self.truth(e.test, t, env)
        d = self.alldeps(t)
        old = self.ctrl
        self.ctrl = old | d
        try:
            a = self.ev(e.body, env) if k is not False else None
            b = self.ev(e.orelse, env) if k is not True else None
        finally:
            self.ctrl = old
        r = join(a, b)
        return r.but(deps=r.deps | d)

    def e_BoolOp(self, e, env):
        r, d = None, frozenset()
        for x in e.values:
            v = self.ev(x, env)
            r = join(r, v)
            d = d | self.alldeps(v)
        s = [self.symof(x, env) for x in e.values]
        return V(r.kinds, r.nd, r.objs, None, r.deps | d,
                 ('bool', type(e.op).__name__, tuple(s))
                 if all(x is not None for x in s) else None, fun=r.fun)

    def symof(self, e, env):
        v = self.ev(e, env)
        return v.sym

    def e_UnaryOp(self, e, env):
        v = self.ev(e.operand, env)
        if isinstance(e.op, ast.Not):
            s = ('not', v.sym) if v.sym is not None else None
            if v.sym is not None and v.sym[0] == 'not':
                s = v.sym[1]
            return V('bool', deps=self.alldeps(v), sym=s)
        if isinstance(e.op, ast.USub):
            return V(v.kinds, v.nd, deps=self.alldeps(v), sym=neg(v.sym),
                     narrow=v.narrow, dt=v.dt,
                     prov=lib.altered(v, e, 'negated'))
        if isinstance(e.op, ast.UAdd):
            return v.but(objs=frozenset())
        return V(v.kinds, v.nd, deps=self.alldeps(v), dt=v.dt,
                 narrow=v.narrow)

    def e_BinOp(self, e, env):
        a, b = self.ev(e.left, env), self.ev(e.right, env)
        return self.binop(type(e.op).__name__, a, b, e)

    def binop(self, op, a, b, node):
        d = self.alldeps(a) | self.alldeps(b)
        if a.may('str') and a.only('str'):
            return V('str', deps=d)
        if a.only('list', 'tuple') and op in ('Add', 'Mult'):
            if op == 'Add':
                if a.items is not None and b.items is not None and \
                        a.only('tuple'):
                    return V('tuple', items=a.items + b.items, deps=d)
                el = join(self.iter_elem(a) if (a.items or a.objs) else None,
                          self.iter_elem(b) if (b.items or b.objs) else None)
            else:
                el = self.iter_elem(a)
            return self.alloc(node, 'list' if a.may('list') else 'tuple', el)
        if a.only('num', 'bool') and b.only('num', 'bool'):
            s = None
            if a.sym is not None and b.sym is not None:
                s = lib.fold(op, a.sym, b.sym)
            dt = lib.bindt(op, a, b)
            return V('num', deps=d, sym=s, narrow=a.narrow or b.narrow,
                     dt=dt)
        nd = None
        if a.nd is not None and b.nd is not None:
            nd = max(a.nd, b.nd)
        elif a.only('num', 'bool'):
            nd = b.nd
        elif b.only('num', 'bool'):
            nd = a.nd
        k = frozenset(['arr']) if (a.may('arr') or b.may('arr')) and \
            not (a.may('any') or b.may('any')) else ANY
        if a.only('arr') or b.only('arr'):
            k = frozenset(['arr'])
        return V(k, nd, deps=d, narrow=a.narrow or b.narrow,
                 dt=lib.bindt(op, a, b),
                 prov=lib.altered(a, node, 'changed by arithmetic',
                                  other=b, op=op) or
                 lib.altered(b, node, 'changed by arithmetic', other=a,
                             op=op))

    def e_Compare(self, e, env):
        vs = [self.ev(e.left, env)] + [self.ev(x, env)
                                       for x in e.comparators]
        d = frozenset()
        for v in vs:
            d = d | self.alldeps(v)
        if isinstance(e.ops[0], (ast.In, ast.NotIn)):
            for v in vs[:2]:
                # membership decided on positions that were cut to few bits
                if getattr(v, 'narrow', None):
                    self.event('narrowindex', e, {'by': v.narrow})
        arr = any(v.may('arr') for v in vs) and not isinstance(
            e.ops[0], (ast.Is, ast.IsNot, ast.In, ast.NotIn))
        s = None
        if len(vs) == 2 and vs[0].sym is not None and vs[1].sym is not None:
            op = type(e.ops[0]).__name__
            s = ('cmp', op, vs[0].sym, vs[1].sym)
            if op in ('NotEq', 'IsNot', 'NotIn'):
                s = ('not', ('cmp', {'NotEq': 'Eq', 'IsNot': 'Is',
                                     'NotIn': 'In'}[op], vs[0].sym,
                             vs[1].sym))
        if arr:
            return V('arr', next((v.nd for v in vs if v.may('arr')), None),
                     deps=d)
        return V('bool', deps=d, sym=s)

    def e_Attribute(self, e, env):
        v = self.ev(e.value, env)
        f = v.fun
        if f is not None and f[0] == 'lib':
            dotted = f[1] + '.' + e.attr
            if f[1].split('.')[0] in ('os', 'sys', 'locale'):
                self.event('attr', e, {'name': dotted})
            return V('any', fun=('lib', dotted), deps=v.deps,
                     sym=('lib', dotted))
        if f is not None and f[0] == 'mod':
            full = f[1] + '.' + e.attr
            if full in self.mods:
                return V('mod', fun=('mod', full))
            m = self.mods[f[1]]
            return self.modname(m, e.attr)
        if f is not None and f[0] in ('pkg', 'clo', 'class'):
            q = f[1].name + '.' + getattr(f[2], 'name', 'lambda')
            return V('any', objs=frozenset(['F:%s.%s' % (q, e.attr)]))
        a = e.attr
        d = v.deps
        if a == 'shape':
            n = v.nd
            d = d | self.alldeps(v)
            its = tuple(V('num', deps=d) for _ in range(n)) \
                if n is not None else None
            if v.prov is not None and v.prov[0] == 'rows' and its and \
                    n <= 2:
                its = its[:-1] + (const(2),)
            if v.prov is not None and v.prov[0] == 'image' and its:
                its = tuple(const(v.prov[1]) for _ in its)
            return V('tuple', items=its, deps=d)
        if a in ('ndim', 'size', 'itemsize', 'nbytes'):
            return V('num', deps=d)
        if a == 'T':
            return v.but(sym=None, prov=None, fun=None)
        if a in ('real', 'imag', 'flat', 'base', 'data'):
            return v.but(sym=None, prov=None, fun=None)
        if a == 'dtype':
            return V('any', deps=d, dt='inh' if v.dt == 'inh' else None,
                     sym=('dtype', v.dt, v.narrow))
        return V(ANY, deps=self.alldeps(v), fun=('meth', v, a))

    def e_Slice(self, e, env):
        d = frozenset()
        its = []
        for x in (e.lower, e.upper, e.step):
            if x is None:
                its.append(None)
                continue
            v = self.ev(x, env)
            d = d | self.alldeps(v)
            its.append(v)
            if v.narrow:
                self.event('narrowindex', e, {'by': v.narrow})
        r = V('slice', deps=d)
        r.sym = ('slice', tuple(('none',) if x is None else x.sym
                                for x in its))
        return r

    def index(self, e, env):
        """-> (list of index components, deps)"""
        if isinstance(e, ast.Tuple):
            comps = [self.ev(x, env) for x in e.elts]
        else:
            v = self.ev(e, env)
            comps = list(v.items) if v.only('tuple') and v.items is not None \
                else [v]
        d = frozenset()
        for c in comps:
            d = d | self.alldeps(c)
            if c.narrow:
                self.event('narrowindex', e, {'by': c.narrow})
        return comps, d

    def e_Subscript(self, e, env):
        v = self.ev(e.value, env)
        if v.fun is not None and v.fun[0] == 'lib' and v.fun[1].split('.')[-1]\
                in ('ogrid', 'mgrid', 'r_', 'c_', 's_', 'index_exp', 'ix_'):
            comps, d = self.index(e.slice, env)
            n = v.fun[1].split('.')[-1]
            if n in ('ogrid', 'mgrid'):
                return V('tuple', items=tuple(V('arr', len(comps), deps=d)
                                              for _ in comps))
            return V('arr', deps=d)
        comps, d = self.index(e.slice, env)
        return self.subscript(v, comps, d, e)

    def subscript(self, v, comps, d, node):
        d = d | v.deps
        r = None
        if v.only('dict') and len(comps) == 1:
            kd = self.known_dict(v)
            s = comps[0].sym
            if kd is not None and s is not None and s[0] == 'const' and \
                    s[1] in kd:
                x = kd[s[1]]
                return x.but(deps=x.deps | d)
        if v.items is not None and len(comps) == 1:
            s = comps[0].sym
            if s is not None and s[0] == 'const' and \
                    isinstance(s[1], int) and -len(v.items) <= s[1] < \
                    len(v.items):
                x = v.items[s[1]]
                return x.but(deps=x.deps | d)
            if comps[0].may('slice'):
                sl = lib.const_slice(s, len(v.items))
                if sl is not None:
                    return V(v.kinds, items=v.items[sl], deps=d)
                el = None
                for x in v.items:
                    el = join(el, x)
                return self.alloc(node, 'tuple', el).but(deps=d)
            for x in v.items:
                r = join(r, x)
            return r.but(deps=r.deps | d) if r is not None else V(deps=d)
        if v.may('list', 'tuple', 'iter', 'dict', 'set') and \
                len(comps) == 1:
            el = self.content(v)
            if comps[0].may('slice'):
                x = self.alloc(node, 'list', el).but(deps=d, prov=v.prov)
                r = join(r, x)
            elif el is not None:
                r = join(r, el.but(deps=el.deps | d))
            else:
                r = join(r, V(deps=d))
        if v.may('arr') or (r is None):
            r = join(r, lib.array_index(self, v, comps, d, node))
        return r

    def comp(self, gens, env, i=0):
        """evaluate generators; returns env and dependencies"""
        d = frozenset()
        env = Env({}, env.facts, env)
        old = self.ctrl
        for g in gens:
            it = self.ev(g.iter, env)
            self.last_iter = it
            d = d | self.alldeps(it) if not it.objs else d | it.deps
            self.assign(g.target, self.iter_elem(it, g.iter), env, g.iter)
            for c in g.ifs:
                t = self.ev(c, env)
                d = d | self.alldeps(t)
                self.ctrl = self.ctrl | self.alldeps(t)
        return env, d, old

    def e_ListComp(self, e, env, kind='list'):
        env2, d, old = self.comp(e.generators, env)
        try:
            v = self.ev(e.elt, env2)
        finally:
            self.ctrl = old
        r = self.alloc(e, kind, v.but(deps=v.deps | d))
        if len(e.generators) == 1:
            lib.set_order(self, r, lib.order_of(self, self.last_iter))
        return r.but(deps=d)

    def e_GeneratorExp(self, e, env):
        return self.e_ListComp(e, env, 'iter')

    def e_SetComp(self, e, env):
        return self.e_ListComp(e, env, 'set')

    def e_DictComp(self, e, env):
        env2, d, old = self.comp(e.generators, env)
        try:
            self.ev(e.key, env2)
            v = self.ev(e.value, env2)
        finally:
            self.ctrl = old
        return self.alloc(e, 'dict', v.but(deps=v.deps | d)).but(deps=d)

    def e_Call(self, e, env):
        f = self.ev(e.func, env)
        args, star = [], None
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, env)
                if v.items is not None and star is None:
                    args.extend(v.items)
                else:
                    star = join(star, self.iter_elem(v))
            elif star is not None:
                star = join(star, self.ev(a, env))
            else:
                args.append(self.ev(a, env))
        kwargs, dstar = {}, None
        for k in e.keywords:
            v = self.ev(k.value, env)
            if k.arg is None:
                kd = self.known_dict(v)
                if kd is not None:
                    for n, x in kd.items():
                        kwargs.setdefault(n, x)
                else:
                    dstar = join(dstar, v)
            else:
                kwargs[k.arg] = v
        return self.call(f, args, kwargs, e, env, star, dstar)

    # ---------------------------------------------------------- statements
    def truth(self, e, v, env):
        """known outcome of a test on this path"""
        s = v.sym
        if s is None:
            return None
        flip = False
        while s is not None and s[0] == 'not':
            flip, s = not flip, s[1]
        if s is None:
            return None
        if s[0] == 'const':
            return bool(s[1]) != flip
        k = env.facts.get(s)
        if k is None:
            k = lib.decide(s)
        return None if k is None else (k != flip)

    def learn(self, v, env, val):
        s = v.sym
        while s is not None and s[0] == 'not':
            val, s = not val, s[1]
        if s is not None and lib.stable(s):
            env.facts[s] = val

    def block(self, stmts, envs):
        for st in stmts:
            if not envs:
                break
            nxt = []
            for env in envs:
                r = self.stmt(st, env)
                nxt.extend(r)
            if len(nxt) > 8:
                nxt = [joinall(nxt)]
            envs = nxt
        return envs

    def stmt(self, st, env):
        m = getattr(self, 's_' + type(st).__name__, None)
        if m is None:
            return [env]
        r = m(st, env)
        return [env] if r is None else r

    def s_Expr(self, st, env):
        self.ev(st.value, env)

    def s_Pass(self, st, env):
        pass

    def s_Import(self, st, env):
        for a in st.names:
            env.vars[a.asname or a.name.split('.')[0]] = self.module(
                a.name if a.asname else a.name.split('.')[0])

    def s_ImportFrom(self, st, env):
        for a in st.names:
            env.vars[a.asname or a.name] = self.from_import(st, a,
                                                            self.fr.mod)

    def s_Global(self, st, env):
        self.fr.globals |= set(st.names)

    def s_Nonlocal(self, st, env):
        pass

    def s_FunctionDef(self, st, env):
        env.vars[st.name] = V('func', fun=('clo', self.fr.mod, st, env,
                                           self.fr.qual + '.' + st.name))

    def s_Return(self, st, env):
        v = self.ev(st.value, env) if st.value is not None else const(None)
        v = v.but(deps=v.deps | self.control())
        f = self.fr
        f.ret = join(f.ret, v)
        f.rets.append((st, v))
        if len(self.frames) == 1:
            self.retsites.append((st, v))
        return []

    def s_Raise(self, st, env):
        if st.exc is not None:
            self.ev(st.exc, env)
        self.event('raise', st)
        return []

    def s_Assert(self, st, env):
        t = self.ev(st.test, env)
        self.fr.sticky = self.fr.sticky | self.alldeps(t)
        self.event('raise', st, None, self.alldeps(t))

    def s_Delete(self, st, env):
        for t in st.targets:
            if isinstance(t, ast.Subscript):
                v = self.ev(t.value, env)
                self.index(t.slice, env)
                self.mutate(v, st, 'del')
            elif isinstance(t, ast.Attribute):
                v = self.ev(t.value, env)
                self.mutate(v, st, 'del attribute')
            elif isinstance(t, ast.Name):
                env.vars.pop(t.id, None)

    def s_Assign(self, st, env):
        v = self.ev(st.value, env)
        for t in st.targets:
            self.assign(t, v, env, st)

    def s_AnnAssign(self, st, env):
        if st.value is not None:
            self.assign(st.target, self.ev(st.value, env), env, st)

    def s_AugAssign(self, st, env):
        t = st.target
        if isinstance(t, ast.Name):
            old = self.lookup(t.id, env)
        elif isinstance(t, ast.Subscript):
            old = self.ev(t, env)
        else:
            old = self.ev(t, env)
        x = self.ev(st.value, env)
        op = type(st.op).__name__
        if isinstance(t, ast.Name):
            if old.may('arr', 'list', 'dict', 'set') and old.objs:
                self.mutate(old, st, 'augmented assignment')
                for o in old.objs:
                    c = self.cell(o)
                    c.deps = c.deps | self.alldeps(x) | self.control()
                    if c.dt == 'inh' and lib.bindt(op, old, x) == 'f':
                        c.fstore = c.fstore or (st, self.fr.mod, self.fr.qual)
                if old.may('list') and op == 'Add':
                    self.put(old, self.iter_elem(x))
                    env.vars[t.id] = old.but(deps=old.deps | self.control())
                    return
                if not old.may('num', 'str', 'any', 'bool'):
                    r = old.but(deps=old.deps | self.alldeps(x) |
                                self.control(), sym=None,
                                prov=lib.altered(old, st, 'changed in place'))
                    if t.id in self.fr.globals:
                        self.gwrite(t.id, st)
                    env.vars[t.id] = r
                    return
            v = self.binop(op, old, x, st)
            self.assign(t, v.but(objs=old.objs | v.objs if not
                                 old.only('num', 'str', 'bool', 'tuple')
                                 else v.objs), env, st)
            return
        v = self.binop(op, old, x, st)
        self.assign(t, v, env, st)

    def gwrite(self, name, node):
        self.event('global', node, {'name': name})

    def assign(self, t, v, env, node):
        c = self.control()
        if c:
            v = v.but(deps=v.deps | c)
        if isinstance(t, ast.Name):
            if t.id in self.fr.globals:
                self.gwrite(t.id, node)
            if not v.objs and v.items is None and v.fun is None and \
                    (v.may('arr', 'any')):
                # a new array: later stores into it must be remembered
                o = self.alloc(t, 'arr', tag=t.id)
                v = v.but(objs=o.objs)
                for x in o.objs:
                    c = self.cell(x)
                    c.dt = v.dt if v.dt == 'inh' else c.dt
            env.vars[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            stars = [k for k, x in enumerate(t.elts)
                     if isinstance(x, ast.Starred)]
            if v.items is not None and not stars and \
                    len(v.items) == len(t.elts):
                for x, y in zip(t.elts, v.items):
                    self.assign(x, y.but(deps=y.deps | v.deps), env, node)
            else:
                el = self.iter_elem(v)
                for k, x in enumerate(t.elts):
                    if isinstance(x, ast.Starred):
                        self.assign(x.value, self.alloc(node, 'list', el,
                                                        tag='st%d' % k),
                                    env, node)
                    else:
                        y = el
                        if v.prov is not None and v.prov[0] == 'rows' and \
                                v.nd == 1:
                            y = el.but(prov=('col',) + v.prov[1:] + (k,))
                        self.assign(x, y, env, node)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, env)
            comps, d = self.index(t.slice, env)
            self.store(b, comps, d, v, t, node, env)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, env)
            self.attrstore(b, t, v, node)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, env, node)

    def attrstore(self, b, t, v, node):
        f = b.fun
        if f is not None and f[0] in ('mod', 'lib', 'pkg', 'class'):
            self.event('attrstore', node,
                       {'what': (f[1] if isinstance(f[1], str)
                                 else f[1].name + '.' +
                                 getattr(f[2], 'name', '')) + '.' + t.attr})
            return
        self.mutate(b, node, 'attribute %s set' % t.attr)
        for o in b.objs:
            c = self.cell(o)
            c.deps = c.deps | self.alldeps(v) | self.control()

    def store(self, b, comps, d, v, t, node, env):
        self.mutate(b, node, 'item assignment')
        f = b.fun
        if f is not None and f[0] == 'lib':
            self.event('attrstore', node, {'what': f[1] + '[...]'})
        vd = self.alldeps(v)
        for o in b.objs:
            c = self.cell(o)
            c.deps = c.deps | vd | d | self.control()
            if b.may('list', 'dict', 'set', 'any'):
                c.elem = join(c.elem, v)
                s = comps[0].sym if comps else None
                if c.dicts is not None:
                    if b.only('dict') and s is not None and \
                            s[0] == 'const' and isinstance(s[1], str):
                        c.dicts[s[1]] = join(c.dicts.get(s[1]), v)
                    else:
                        c.dicts = None
            if c.dt == 'inh' and v.dt == 'f':
                c.fstore = c.fstore or (node, self.fr.mod, self.fr.qual)
            if v.narrow:
                c.narrow = v.narrow
            cov = lib.coverage(self, c, comps, t)
            c.stores.append((node, cov, v))

    # ------------------------------------------------------- control flow
    def s_If(self, st, env):
        t = self.ev(st.test, env)
        k = self.truth(st.test, t, env)
        d = self.alldeps(t)
        old, om = self.ctrl, self.marks
        self.ctrl = old | d
        self.marks = om + (('if', st),)
        a = b = []
        na = env.copy()
        nb = env.copy()
        try:
            if k is not False:
                self.learn(t, na, True)
                self.narrow_none(st.test, na, True)
                a = self.block(st.body, [na])
            if k is not True:
                self.learn(t, nb, False)
                self.narrow_none(st.test, nb, False)
                b = self.block(st.orelse, [nb])
        finally:
            self.ctrl, self.marks = old, om
        if k is None and (not a or not b or jumps(st)):
            self.fr.sticky = self.fr.sticky | d
        if a and b and self.fr.rep is not None and \
                test_key(st.test) in self.fr.rep and t.sym is not None and \
                lib.stable(t.sym):
            return a + b
        r = joinall(a + b)
        return [r] if r is not None else []

    def narrow_none(self, test, env, val):
        """x is None / isinstance(x, ...) refine the kind of x"""
        neg_ = False
        while isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            test, neg_ = test.operand, not neg_
        val = val != neg_
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and \
                isinstance(test.left, ast.Name) and \
                isinstance(test.comparators[0], ast.Constant) and \
                test.comparators[0].value is None and \
                isinstance(test.ops[0], (ast.Is, ast.IsNot)):
            is_none = val == isinstance(test.ops[0], ast.Is)
            v = env.vars.get(test.left.id)
            if v is None:
                return
            if is_none:
                env.vars[test.left.id] = const(None).but(deps=v.deps)
            elif v.may('none') and len(v.kinds) > 1:
                env.vars[test.left.id] = v.but(
                    kinds=v.kinds - frozenset(['none']),
                    sym=lib.notnone(v.sym))

    def loop(self, st, env, head):
        """head(env) binds the loop variable / evaluates the test and returns
        (dependencies, may it end)"""
        fr = self.fr
        ob, oc = fr.brk, fr.cnt
        old, om = self.ctrl, self.marks
        fr.brk, fr.cnt = [], []
        self.marks = om + (('loop', st),)
        cur = env.copy()
        exits = None
        try:
            for k in range(7):
                before = {n: v.key() for n, v in cur.vars.items()
                          if v is not None}
                hk = self.heapkey()
                cur.facts = {}
                e2 = cur.copy()
                d = head(e2)
                exits = e2.copy() if isinstance(st, ast.While) else cur.copy()
                self.ctrl = old | d
                fr.cnt = []
                outs = self.block(st.body, [e2])
                self.ctrl = old
                new = joinall(outs + fr.cnt)
                cur = joinenv(cur, new) if new is not None else cur
                now = {n: v.key() for n, v in cur.vars.items()
                       if v is not None}
                if now == before and hk == self.heapkey():
                    break
            exits = joinenv(exits, cur)
        finally:
            brk = fr.brk
            fr.brk, fr.cnt = ob, oc
            self.ctrl, self.marks = old, om
        outs = self.block(st.orelse, [exits]) if st.orelse else [exits]
        r = joinall(outs + brk)
        if r is None:
            return []
        r.facts = {k: v for k, v in env.facts.items()}
        return [r]

    def heapkey(self):
        return {o: (len(c.deps), None if c.elem is None
                    else hash(c.elem.key())) for o, c in self.heap.items()}

    def s_For(self, st, env):
        it = self.ev(st.iter, env)
        d = it.deps if it.objs else self.alldeps(it)

        def head(e):
            el = self.iter_elem(it, st.iter)
            self.assign(st.target, el, e, st)
            return d
        return self.loop(st, env, head)

    def s_While(self, st, env):
        def head(e):
            t = self.ev(st.test, e)
            return self.alldeps(t)
        inf = isinstance(st.test, ast.Constant) and bool(st.test.value)
        if not inf:
            return self.loop(st, env, head)
        fr = self.fr
        r = self.loop(st, env, head)
        return r

    def s_Break(self, st, env):
        self.fr.brk.append(env)
        return []

    def s_Continue(self, st, env):
        self.fr.cnt.append(env)
        return []

    def s_Try(self, st, env):
        om = self.marks
        self.marks = om + (('try', st),)
        start = env.copy()
        outs = self.block(st.body, [env])
        self.marks = om
        mid = joinall([start] + [o.copy() for o in outs])
        res = self.block(st.orelse, outs) if st.orelse else outs
        self.marks = om + (('except', st),)
        for h in st.handlers:
            e = mid.copy()
            if h.name:
                e.vars[h.name] = V()
            res = res + self.block(h.body, [e])
        self.marks = om
        r = joinall(res)
        if st.finalbody:
            fe = r if r is not None else mid
            outs = self.block(st.finalbody, [fe])
            return outs if r is not None else []
        return [r] if r is not None else []

    s_TryStar = s_Try

    def s_With(self, st, env):
        om = self.marks
        for it in st.items:
            v = self.ev(it.context_expr, env)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, env, st)
            e = it.context_expr
            n = ''
            if isinstance(e, ast.Call):
                g = self.ev(e.func, env)
                if g.fun is not None and g.fun[0] == 'lib':
                    n = g.fun[1]
            self.marks = self.marks + (('with', n),)
        try:
            return self.block(st.body, [env])
        finally:
            self.marks = om

    def s_Match(self, st, env):
        t = self.ev(st.subject, env)
        outs = []
        old = self.ctrl
        self.ctrl = old | self.alldeps(t)
        for c in st.cases:
            e = env.copy()
            for n in ast.walk(c.pattern):
                if getattr(n, 'name', None):
                    e.vars[n.name] = V(deps=t.deps)
            outs += self.block(c.body, [e])
        self.ctrl = old
        return [joinall(outs + [env])]


# ------------------------------------------------------------------ helpers
def test_key(t):
    while isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        t = t.operand
    return ast.dump(t)


def repeated(node):
    c = Counter()
    for n in ast.walk(node):
        if isinstance(n, (ast.If, ast.IfExp)):
            c[test_key(n.test)] += 1
    return {k for k, v in c.items() if v > 1}


def jumps(st):
    for s in st.body + st.orelse:
        for n in ast.walk(s):
            if isinstance(n, (ast.Return, ast.Raise, ast.Break,
                              ast.Continue)):
                return True
    return False


def is_generator(node):
    st = list(node.body)
    while st:
        n = st.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef,
                          ast.AsyncFunctionDef)):
            continue
        st.extend(ast.iter_child_nodes(n))
    return False


def cached(fl, mod, fn):
    for d in getattr(fn, 'decorator_list', []):
        e = d.func if isinstance(d, ast.Call) else d
        fr = Frame(mod, mod.tree, mod.name)
        fl.frames.append(fr)
        try:
            v = fl.ev(e, Env())
        finally:
            fl.frames.pop()
        if v.fun is not None and v.fun[0] == 'lib' and \
                v.fun[1].split('.')[-1] in ('lru_cache', 'cache',
                                            'cached_property'):
            return True
    return False
