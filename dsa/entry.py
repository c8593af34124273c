"""loading of the package and symbolic entry arguments"""
import ast
import os
from .values import *
from .terms import *
from .interp import Interp, Module
from .norm import norm

REPO = os.environ.get('DSA_REPO', '/repo')


class Broken(Exception):
    """the analysis cannot be carried out at all (vanished anchors ...)"""


def load(repo=None, extra=()):
    repo = repo or REPO
    mods = {}
    root = os.path.join(repo, 'discorpy')
    for dp, dn, fn in os.walk(root):
        dn[:] = sorted(d for d in dn if d != '__pycache__')
        for f in sorted(fn):
            if not f.endswith('.py'):
                continue
            path = os.path.join(dp, f)
            rel = os.path.relpath(path, repo)[:-3].replace(os.sep, '.')
            if rel.endswith('.__init__'):
                rel = rel[:-9]
            src = open(path).read()
            try:
                tree = ast.parse(src)
            except SyntaxError as e:
                raise Broken('cannot parse %s: %s' % (path, e))
            mods[rel] = Module(rel, os.path.relpath(path, repo), norm(tree),
                               src)
    for name, path in extra:
        src = open(path).read()
        mods[name] = Module(name, path, ast.parse(src), src)
    return mods


POST = 'discorpy.post.postprocessing'
PREP = 'discorpy.prep.preprocessing'
LINE = 'discorpy.prep.linepattern'
PROC = 'discorpy.proc.processing'
UTIL = 'discorpy.util.utility'
LOSA = 'discorpy.losa.loadersaver'


# ---------------------------------------------------------------- arguments
def root(name):
    return of_atom(sym(name))


def el(name, *idx):
    from .models import mk
    return mk('elem', (name,) + tuple(idx))


def dim(name, k, lb=1):
    return of_atom(sym('%s.dim%d' % (name, k), integer=True, lb=lb))


def a_num(name):
    return of_atom(sym(name))


def a_int(name, lb=None):
    return of_atom(sym(name, integer=True, lb=lb))


def a_bool(name):
    return of_atom(sym(name, boolean=True))


def a_str(name):
    from .models import mk
    return mk('strsym', (root(name),))


def a_arr(name, nd=1, dims=None):
    d = dims or [dim(name, k) for k in range(nd)]
    a = Arr(d, lambda idx: el(name, *idx))
    a.root = name
    return a


def a_points(name):
    return a_arr(name, 2, [dim(name, 0), num_(2)])


def a_lines(name):
    """list of (n_i, 2) arrays"""
    from .models import mk
    i = fresh('l')
    n = dim(name, 0)
    ln = Arr([mk('linelen', (name, i), integer=True, lb=1), num_(2)],
             lambda idx: el(name, i, *idx))

    def make(i=i):
        return Arr([mk('linelen', (name, i), integer=True, lb=1), num_(2)],
                   lambda idx: el(name, i, *idx))
    return Lst([Map(i, n, [One(make())])])


def a_coefs(name, n=None):
    if n is None:
        return a_arr(name, 1)
    return Tup([el(name, num_(k)) for k in range(n)], True)


def a_any(name):
    return root(name)


def a_cam(name, nd):
    """an opened OpenCV capture delivering nd-dimensional frames"""
    return of_atom(atom('cam', (name, nd)))
