"""entry points of the flow analysis: parameter types of public functions"""
import ast
import re
from .vals import *
from .run import Flow

# parameters by name; (kind, nd) or 'lines' (list of (n, 2) arrays)
TYPES = {
    'mat': ('arr', 2), 'mat3D': ('arr', 3), 'list_lines': 'lines',
    'list_hor_lines': 'lines', 'list_ver_lines': 'lines',
    'list_ulines': 'lines', 'list_fact': ('arr', 1), 'list_coef': ('arr', 1),
    'points': ('arr', 2), 'selected_points': ('arr', 2),
    'source_points': ('arr', 2), 'target_points': ('arr', 2),
    'ref_points': ('arr', 2), 'xmat': ('arr', 2), 'ymat': ('arr', 2),
    'list_point': ('arr', 1), 'list_data': ('arr', 1), 'peaks': ('arr', 1),
    'map_index': ('arr', 3), 'data': ('arr', None), 'input_data':
    ('arr', None), 'kwargs': 'kwargs', 'cam_obj': 'obj',
    'margin': 'margin', 'hor_margin': 'margin', 'ver_margin': 'margin',
    'pad': 'margin', 'size': 'num', 'xcenter': 'float', 'ycenter': 'float',
}
# where the same name means something else
SPECIAL = {
    ('check_distortion', 'list_data'): ('arr', 2),
    ('save_residual_plot', 'list_data'): ('arr', 2),
    ('find_point_to_point', 'points'): ('arr', 1),
    ('unwarp_image_backward_cv2', 'mat'): ('arr', None),
    ('unwarp_color_image_backward', 'mat'): ('arr', None),
    ('mapping_cv2', 'mat'): ('arr', None),
    ('save_image', 'mat'): ('arr', None),
}
# model coefficients: fractional by meaning
FLOATS = {'list_fact', 'list_coef'}
NUMERIC = re.compile(r'float|int|bool|number', re.I)


def doctypes(node):
    """parameter -> type words of the numpy docstring"""
    doc = ast.get_docstring(node) or ''
    out = {}
    for m in re.finditer(r'^(\*{0,2}\w[\w, ]*) ?: ?(.+)$', doc, re.M):
        for n in m.group(1).split(','):
            out[n.strip(' *')] = m.group(2).strip()
    return out


def params(node):
    a = node.args
    ps = [p.arg for p in a.posonlyargs + a.args + a.kwonlyargs]
    if a.vararg:
        ps.append(a.vararg.arg)
    if a.kwarg:
        ps.append(a.kwarg.arg)
    return ps


def argument(fl, fn, node, name, docs):
    dep = frozenset([name])
    s = ('param', name)
    t = SPECIAL.get((fn, name)) or TYPES.get(name)
    if node.args.kwarg is not None and node.args.kwarg.arg == name:
        t = 'kwargs'
    o = 'P:' + name
    if t == 'lines':
        row = V('arr', 2, frozenset([o + '[]']), deps=dep, dt='inh',
                prov=('rows', name, ()))
        fl.cell(o).elem = row
        return V('list', objs=frozenset([o]), deps=dep, sym=s)
    if t == 'kwargs':
        fl.cell(o).elem = V(deps=dep)
        return V('dict', objs=frozenset([o]), deps=dep, sym=s)
    if t == 'obj':
        return V('obj', deps=dep, sym=s)
    if t == 'float':
        return V('num', deps=dep, sym=s, dt='f')
    if t == 'num':
        return V('num', deps=dep, sym=s)
    if t == 'margin':
        fl.cell(o).elem = V('num', deps=dep)
        return V(frozenset(['num', 'list', 'bool']), objs=frozenset([o]),
                 deps=dep, sym=s)
    if isinstance(t, tuple):
        p = ('rows', name, ()) if t[1] == 2 and 'point' in name else None
        return V(t[0], t[1], frozenset([o]), deps=dep, sym=s,
                 dt='f' if name in FLOATS else 'inh', prov=p)
    doc = docs.get(name, '')
    if re.search(r'array|list', doc) and not NUMERIC.match(doc):
        fl.cell(o).elem = V(deps=dep)
        k = 'list' if doc.startswith('list') else 'arr'
        return V(frozenset([k]), None, frozenset([o]), deps=dep, sym=s,
                 dt='inh' if k == 'arr' else None)
    if NUMERIC.search(doc):
        return V('bool' if doc.startswith('bool') else 'num', deps=dep, sym=s,
                 dt='f' if doc.startswith('float') else None)
    if 'str' in doc or '{' in doc:
        return V('str', deps=dep, sym=s)
    # default value tells the kind
    a = node.args
    pos = a.posonlyargs + a.args
    dm = {p.arg: x for p, x in list(zip(reversed(pos), reversed(a.defaults)))
          + list(zip(a.kwonlyargs, a.kw_defaults)) if x is not None}
    e = dm.get(name)
    if isinstance(e, ast.Constant) and e.value is not None:
        return const(e.value).but(sym=s, deps=dep)
    return V(ANY, None, frozenset([o]), deps=dep, sym=s)


def public(mods, names):
    """public functions of the named modules"""
    out = []
    for m in names:
        if m not in mods:
            continue
        for st in mods[m].tree.body:
            if isinstance(st, ast.FunctionDef) and \
                    not st.name.startswith('_'):
                out.append((mods[m], st))
    return out


def analyse(mods, mod, node, over=None):
    fl = Flow(mods)
    docs = doctypes(node)
    args = {}
    for n in params(node):
        args[n] = argument(fl, node.name, node, n, docs)
    for k, v in (over or {}).items():
        args[k] = v(fl) if callable(v) else v
    fl.result = fl.entry(mod, node, args)
    fl.args = args
    return fl
