"""one round of an open-ended loop, from an arbitrary state

At the head of a `while` loop every variable the loop carries is replaced by
an uninterpreted value of the same shape; the body is summarised once.  What
is known about the loop is then the relation between the state at the head
and the state at the end of the round (a Round)."""
import ast
from .interp import *
from .interp import Interp
from .values import *
from .terms import *
from . import terms as T


class Round:
    def __init__(self, node, mod, func):
        self.node, self.mod, self.func = node, mod, func
        self.heads = {}       # name -> (kind, head value, init value)
        self.ends = {}        # name -> value after the round
        self.grown = []       # values appended to carried lists
        self.cont = None      # condition under which another round follows
        self.enter = None     # condition of this round (in head terms)
        self.inv = []         # (scalar name, array name) kept equal to length

    @property
    def where(self):
        return '%s:%s (%s)' % (self.mod.path, self.node.lineno, self.func)


def grow_call(s):
    """x, e for   x = np.vstack((x, e))  and the like"""
    if not (isinstance(s, ast.Assign) and len(s.targets) == 1 and
            isinstance(s.targets[0], ast.Name) and
            isinstance(s.value, ast.Call) and
            isinstance(s.value.func, ast.Attribute)):
        return None
    x, c = s.targets[0].id, s.value
    if c.func.attr in ('vstack', 'concatenate', 'row_stack') and \
            len(c.args) == 1 and isinstance(c.args[0], (ast.Tuple,
                                                        ast.List)) and \
            len(c.args[0].elts) == 2:
        a, e = c.args[0].elts
        rows = c.func.attr == 'concatenate'
    elif c.func.attr == 'append' and len(c.args) == 2 and \
            any(k.arg == 'axis' for k in c.keywords):
        a, e = c.args
        rows = True
    else:
        return None
    if not (isinstance(a, ast.Name) and a.id == x):
        return None
    return x, e, rows


class Grow(ast.NodeTransformer):
    def __init__(self, x):
        self.x = x

    def visit_Assign(self, s):
        g = grow_call(s)
        if g is not None and g[0] == self.x:
            call = ast.Call(ast.Name('__grow__', ast.Load()),
                            [ast.Name(self.x, ast.Load()), g[1]], [])
            return ast.fix_missing_locations(
                ast.copy_location(ast.Expr(ast.copy_location(call, s)), s))
        return s


class Probe(Interp):
    """records a Round for every loop whose number of rounds is open"""

    def __init__(self, modules, opaque=()):
        Interp.__init__(self, modules, opaque)
        self.rounds = []
        self.rewritten = {}
        self.nloops = 0

    # recurrences that have no closed form: one unknown value per round
    def no_closed_form(self, p, init, i, n):
        nm = 'carry_' + p
        f = lambda k: of_atom(atom('el', (nm, k), integer=is_int(init)))
        return f(i), f(n)

    def no_closed_array(self, p, arrs, info, i, n, head):
        if isinstance(arrs[info[1]], Arr):
            return
        f = lambda k: of_atom(atom('el', ('carry_' + p, k)))
        head[p] = f(i)
        arrs[info[1]] = Arr(info[2].dims, lambda idx: of_atom(
            atom('phiel', (f(n),) + tuple(idx))))

    def run_map(self, st, seg, target, body, node):
        """rows collected by stacking are collected in a list instead"""
        xs = {}
        for s in body:
            for q in ast.walk(s):
                g = grow_call(q)
                if g is not None:
                    xs.setdefault(g[0], []).append(g)
        todo = []
        for x in xs:
            uses = sum(1 for s in body for q in ast.walk(s)
                       if isinstance(q, ast.Name) and q.id == x)
            if uses == 2 * len(xs[x]) and isinstance(st.env.get(x), Ref) \
                    and isinstance(st.heap[st.env[x].id], Arr):
                todo.append(x)
        if not todo:
            return Interp.run_map(self, st, seg, target, body, node)
        key = (id(node), tuple(todo))
        if key not in self.rewritten:
            import copy
            b = [copy.deepcopy(s) for s in body]
            for x in todo:
                b = [Grow(x).visit(s) for s in b]
            self.rewritten[key] = b
        for x in todo:
            a = st.heap[st.env[x].id]
            st.env[x] = self.new(st, Lst(segs_of(a)))
        st = Interp.run_map(self, st, seg, target, self.rewritten[key], node)
        if st is not None:
            for x in todo:
                r = st.env.get(x)
                if isinstance(r, Ref) and isinstance(st.heap[r.id], Lst):
                    st.env[x] = self.new(st, asarr(st.heap[r.id]))
        return st

    def e_Call(self, st, e):
        if isinstance(e.func, ast.Name) and e.func.id == '__grow__':
            ref = st.env[e.args[0].id]
            v = self.simp(st, self.deref(st, self.ev(st, e.args[1])))
            if isinstance(v, Arr) and v.ndim == 2 or isinstance(v, (Lst,
                                                                    Tup)):
                self.list_extend(st, ref, v)
            else:
                self.list_append(st, ref, v)
            return NONE
        return Interp.e_Call(self, st, e)

    # ------------------------------------------------------------- while
    def head(self, st, nm, v, inv):
        """(kind, uninterpreted value)"""
        d = self.simp(st, self.deref(st, v)) if not isinstance(v, Func) \
            else v
        if isinstance(d, Scalar):
            if nm in inv:
                return 'num', inv[nm]
            if isinstance(d, Ite) or isinstance(d, Rat) or \
                    isinstance(d, Const):
                if is_boolean(d):
                    return 'bool', of_atom(sym('h_' + nm, boolean=True))
                if isinstance(d, Const) and not isinstance(d, Rat):
                    return None, d
                return 'num', of_atom(sym('h_' + nm, integer=is_int(d),
                                          lb=None))
            return None, unk('while ' + nm)
        if isinstance(d, Arr) and (d.gen is not None or d.ndim >= 1):
            n = self.lens[nm]
            hn = 'h_' + nm
            rest = list(d.dims[1:])
            if d.gen is not None and d.ndim == 1:
                e = first_row(d.gen)
                if isinstance(e, Arr):
                    rest = list(e.dims)
            a = Arr([n] + rest, lambda idx: of_atom(atom(
                'elem', (hn,) + tuple(idx))))
            a.root = hn
            return 'arr', a
        if isinstance(d, (Lst, Tup)) and (isinstance(d, Lst) or d.is_list):
            return 'lst', Lst((), phi='h_' + nm)
        return None, unk('while ' + nm)

    def x_While(self, st, s):
        try:
            cnt = self.counted(st, s)
        except (Unknown, Limit):
            cnt = None
        if cnt is not None:
            r = Round(s, self.frames[-1].func.module,
                      self.frames[-1].func.name)
            r.counted = True
            self.rounds.append(r)
            return Interp.x_While(self, st, s)
        names = sorted(assigned_names(s.body) | mutated_names(s.body))
        carried = [nm for nm in names if nm in st.env]
        self.lens = {nm: of_atom(sym('h_%s.len' % nm, integer=True, lb=0))
                     for nm in carried}
        inv = self.candidates(st, carried)
        nret = len(self.frames[-1].returns)
        for _ in range(3):
            r = self.one_round(st, s, names, carried, inv)
            bad = [nm for nm in inv if nm in r.ends and not self.same_len(
                r, nm, inv)]
            if not bad:
                break
            for nm in bad:
                del inv[nm]
        r.counted = False
        r.inv = sorted(inv)
        self.rounds.append(r)
        if self.loopctx or r.breaks or s.orelse or \
                len(self.frames[-1].returns) != nret:
            return Interp.x_While(self, st, s)
        return self.after(st, r, names, carried)

    def after(self, st, r, names, carried):
        """state after the loop: values of the same shape"""
        w = st.fork()
        self.nloops += 1
        n = {'arr': 0, 'lst': 0}
        for nm in names:
            if nm not in r.heads:
                w.env[nm] = unk('after while ' + nm)
                continue
            k, h, init = r.heads[nm]
            if k == 'arr':
                n[k] += 1
                name = 'after%d_arr%d' % (self.nloops, n[k])
                w.env[nm] = self.new(w, Arr(
                    [of_atom(sym(name + '.len', integer=True, lb=0))] +
                    list(h.dims[1:]), lambda idx, name=name: of_atom(
                        atom('elem', (name,) + tuple(idx)))))
            elif k == 'lst':
                n[k] += 1
                name = 'after%d_lst%d' % (self.nloops, n[k])
                v = r.ends.get(nm)
                row = first_row(v) if isinstance(v, Lst) and \
                    v.phi == 'h_' + nm else None
                l = grown_list(name, row)
                if isinstance(w.env.get(nm), Ref) and l is not None:
                    w.heap[w.env[nm].id] = l
                else:
                    w.env[nm] = unk('after while ' + nm)
            else:
                w.env[nm] = unk('after while ' + nm)
        return w

    def candidates(self, st, carried):
        """scalars that start as the length of a carried array"""
        out = {}
        for nm in carried:
            v = self.simp(st, self.deref(st, st.env[nm]))
            if not isinstance(v, Scalar) or not isinstance(v, Rat):
                continue
            for a in carried:
                d = self.simp(st, self.deref(st, st.env[a]))
                if isinstance(d, (Arr, Lst)):
                    try:
                        n = self.length(st, d)
                    except (Unknown, Limit):
                        continue
                    if n == v and is_cst(v) is NOTC:
                        out[nm] = self.lens[a]
        self.owner = {nm: a for nm in out for a in carried
                      if self.lens[a] == out[nm]}
        return out

    def length(self, st, d):
        if isinstance(d, Arr) and d.gen is None:
            return d.dims[0]
        if isinstance(d, Arr):
            return count_segs(norm_segs(d.gen.segs))
        if isinstance(d, Lst) and d.phi is None:
            return count_segs(norm_segs(d.segs))
        if isinstance(d, Tup):
            return num_(len(d.items))
        if isinstance(d, Choice):
            return ite(d.cond, self.length(st, d.a), self.length(st, d.b))
        raise Unknown('length')

    def same_len(self, r, nm, inv):
        a = self.owner.get(nm)
        try:
            return r.ends[nm] == self.length(None, r.ends[a])
        except (Unknown, Limit, KeyError):
            return False

    def one_round(self, st, s, names, carried, inv):
        fr = self.frames[-1]
        r = Round(s, fr.func.module, fr.func.name)
        r.path = st.pc
        w = st.fork()
        w.pc = TRUE
        for nm in names:
            if nm not in carried:
                w.env.pop(nm, None)
        for nm in carried:
            k, v = self.head(st, nm, st.env[nm], inv)
            init = self.deep(st, st.env[nm])
            if k is not None:
                r.heads[nm] = (k, v, init)
            w.env[nm] = self.new(w, v) if isinstance(v, (Arr, Lst)) else v
        cells = {nm: w.env[nm].id for nm in carried
                 if isinstance(w.env[nm], Ref)}
        ev0, nret = len(self.events), len(fr.returns)
        l = {'breaks': [], 'continues': []}
        fr.loops.append(l)
        x = fresh('w')
        self.loopctx.append((x, unk('count')))
        try:
            c = self.truth(w, self.ev(w, s.test))
            r.enter = c
            inner = w.fork()
            inner.pc = c
            end = self.exec_block(inner, s.body) if c != FALSE else None
            for b in l['continues']:
                end = b if end is None else self.join(b.pc, b, end)
            if end is None:
                r.cont = FALSE
            else:
                for nm in carried:
                    if nm in r.heads:
                        r.ends[nm] = self.deep(end, end.env[nm])
                pc = end.pc
                r.cont = and_(pc, self.truth(end, self.ev(end, s.test)))
                for nm in carried:
                    v = r.ends.get(nm)
                    if isinstance(v, Lst) and v.phi == 'h_' + nm:
                        r.grown.append((nm, v))
        finally:
            self.loopctx.pop()
            fr.loops.pop()
            del self.events[ev0:]
            del fr.returns[nret:]
        r.breaks = len(l['breaks'])
        return r


def is_boolean(d):
    if d in (TRUE, FALSE):
        return True
    if isinstance(d, Ite):
        return is_boolean(d.hi) and is_boolean(d.lo)
    return False


def first_row(l):
    for s in l.segs:
        if isinstance(s, One):
            return s.v
        r = first_row(s)
        if r is not None:
            return r
    return None


def grown_list(name, row):
    """list of unknown length whose elements have the shape of row"""
    from .models import mk
    n = of_atom(sym(name + '.dim0', integer=True, lb=0))
    i = fresh('l')
    if isinstance(row, Scalar):
        return Lst([Map(i, n, [One(of_atom(atom('elem', (name, i))))])])
    if not isinstance(row, Arr):
        return None
    rest = list(row.dims[1:])
    if row.gen is not None:
        e = first_row(row.gen)
        rest = list(e.dims) if isinstance(e, Arr) else []
    ln = mk('linelen', (name, i), integer=True, lb=1)
    return Lst([Map(i, n, [One(Arr([ln] + rest, lambda idx: of_atom(
        atom('elem', (name, i) + tuple(idx)))))])])
