"""spelling variants brought to one form before any analysis

   while True:                 while not C:
       if C: break       =>        ...
       ...

   for k in range(len(L)):     for k, v in enumerate(L):
       v = L[k]          =>        ...
       ...
"""
import ast


def negated(t):
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        return t.operand
    return ast.copy_location(ast.UnaryOp(ast.Not(), t), t)


def idle(s):
    return isinstance(s, ast.Pass) or isinstance(s, ast.Assert) and \
        isinstance(s.test, ast.Constant) and bool(s.test.value) or \
        isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)


def is_true(t):
    return isinstance(t, ast.Constant) and t.value in (True, 1) and \
        t.value is not None


class Norm(ast.NodeTransformer):
    def visit_While(self, s):
        self.generic_visit(s)
        while is_true(s.test) and not s.orelse:
            k = 0
            while k < len(s.body) and idle(s.body[k]):
                k += 1
            b = s.body[k] if k < len(s.body) else None
            if not (isinstance(b, ast.If) and len(b.body) == 1 and
                    isinstance(b.body[0], ast.Break)):
                break
            rest = b.orelse + s.body[k + 1:]
            if not rest:
                break
            s.test = negated(b.test)
            s.body = rest
        return s

    def visit_For(self, s):
        self.generic_visit(s)
        it = s.iter
        if not (isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and
                it.func.id == 'range' and len(it.args) == 1 and
                not it.keywords and isinstance(s.target, ast.Name)):
            return s
        a = it.args[0]
        if not (isinstance(a, ast.Call) and isinstance(a.func, ast.Name) and
                a.func.id == 'len' and len(a.args) == 1 and
                isinstance(a.args[0], ast.Name)):
            return s
        seq, k = a.args[0].id, s.target.id
        b = s.body[0]
        if not (len(s.body) > 1 and isinstance(b, ast.Assign) and
                len(b.targets) == 1 and isinstance(b.targets[0], ast.Name) and
                isinstance(b.value, ast.Subscript) and
                isinstance(b.value.value, ast.Name) and
                b.value.value.id == seq and
                isinstance(b.value.slice, ast.Name) and
                b.value.slice.id == k and b.targets[0].id not in (seq, k)):
            return s
        for x in s.body[1:]:
            for q in ast.walk(x):
                if isinstance(q, ast.Name) and (
                        q.id == seq or q.id == k and
                        isinstance(q.ctx, ast.Store)):
                    return s
        s.iter = ast.copy_location(ast.Call(
            ast.Name('enumerate', ast.Load()),
            [ast.Name(seq, ast.Load())], []), it)
        s.target = ast.copy_location(ast.Tuple(
            [s.target, b.targets[0]], ast.Store()), s.target)
        s.body = s.body[1:]
        return s


def norm(tree):
    return ast.fix_missing_locations(Norm().visit(tree))
