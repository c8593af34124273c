"""C08, C09, C10, C26 and the provenance part of C23: flow analysis of every
public function"""
import ast
import re
from ..frame import Ctx
from ..entry import *
from ..flow import entry as FE
from ..flow.run import cached
from ..flow.vals import V, const, alts

ALL = [PREP, LINE, PROC, POST, UTIL, LOSA]
PURE = [PREP, LINE, PROC, POST, UTIL]


def run(ctx, names=ALL, over=None):
    """flow results of all public functions -> [(module, node, Flow)]"""
    out = []
    for m in names:
        if m not in ctx.mods:
            raise Broken('module %s is gone' % m)
    for mod, node in FE.public(ctx.mods, names):
        fl = FE.analyse(ctx.mods, mod, node)
        ctx.functions |= {q for q in fl.visited}
        ctx.count('call sites and stores followed', len(fl.events))
        out.append((mod, node, fl))
    if not out:
        raise Broken('no public function found')
    return out


def w(mod, node):
    return '%s:%s (%s)' % (mod.path, node.lineno, node.name)


# ------------------------------------------------------------------- C08
def C08(tier):
    ctx = Ctx('C08', tier)
    rule = 'no store reaches memory shared with an argument'
    for mod, node, fl in run(ctx):
        bad = [e for e in fl.events if e.kind == 'mutate' and
               e.data['obj'].startswith('P:') and
               base(e.data['obj']) not in ('kwargs',) and
               not is_kwarg(node, base(e.data['obj']))]
        n = sum(len(c.stores) for c in fl.heap.values())
        ctx.count('stores into own memory', n)
        for e in bad:
            ctx.bad(rule, e.where(), '%s: %s modifies the caller\'s %s' %
                    (node.name, e.data['how'], base(e.data['obj'])))
        if not bad:
            ctx.ok(rule, w(mod, node), 'every store and in-place call acts on '
                   'memory made inside the function')
    return ctx.finish(
        'May-alias analysis: for every public function all reachable item '
        'stores, augmented assignments, in-place methods and out= arguments '
        'are checked for memory that may be shared with an argument (views, '
        'rows of lists, asarray, reshape, slices ... keep sharing; copies, '
        'arithmetic and fancy indexing do not).',
        ['library functions outside the table of in-place functions do not '
         'modify their arguments'])


def base(o):
    return o[2:].split('[')[0].split('.')[0]


def is_kwarg(node, name):
    a = node.args
    return (a.kwarg is not None and a.kwarg.arg == name) or \
        (a.vararg is not None and a.vararg.arg == name)


# ------------------------------------------------------------------- C09
FORBID = [
    (r'(random|secrets|uuid)\..*', 'random numbers'),
    (r'numpy\.random\..*', 'random numbers'),
    (r'(time|datetime)\..*', 'the clock'),
    (r'os\.(environ|getenv|urandom|getpid|getcwd|listdir|remove|unlink|mkdir|'
     r'makedirs|rename|replace|rmdir|system|popen|open|stat|scandir|walk|'
     r'cpu_count|putenv|chdir|times|getloadavg)\b.*',
     'the environment or the file system'),
    (r'os\.path\.(exists|isfile|isdir|getmtime|getsize)', 'the file system'),
    (r'(tempfile|subprocess|socket|shutil|glob|pickle|shelve|sqlite3|'
     r'threading|_thread|gc|locale|platform|getpass|signal|atexit|'
     r'multiprocessing\.shared_memory)\..*', 'files, processes or threads'),
    (r'pathlib\.Path.*', 'the file system'),
    (r'builtins\.(open|input|id|hash|globals|exec|eval|__import__)',
     'files, input or interpreter state'),
    (r'numpy\.(load|save|savez|savez_compressed|loadtxt|savetxt|fromfile|'
     r'genfromtxt|memmap)', 'files'),
    (r'numpy\.(seterr|seterrcall|setbufsize|set_printoptions|'
     r'set_string_function|set_numeric_ops)', 'global library settings'),
    (r'(scipy|skimage|cv2)\.(.*\.)?(set[A-Z_]\w*|imread|imwrite|theRNG)',
     'global library settings or files'),
    (r'(matplotlib|PIL|h5py)\..*', 'plots or files'),
    (r'warnings\.(simplefilter|filterwarnings|resetwarnings)',
     'the global warning filters'),
    (r'sys\.(argv|stdin|setrecursionlimit|path|modules|settrace|'
     r'getrefcount)\b.*', 'interpreter state'),
]
FORBID = [(re.compile(p + r'\Z'), t) for p, t in FORBID]


def C09(tier):
    ctx = Ctx('C09', tier)
    r1 = 'no state kept between calls'
    r2 = 'nothing read or changed but the arguments'
    r3 = 'no uninitialised memory in results'
    for mod, node, fl in run(ctx, PURE):
        bad1 = bad2 = bad3 = 0
        for e in fl.events:
            if e.kind == 'mutate' and e.data['obj'][0] in 'GDCF':
                what = {'G': 'module variable ', 'D': 'default argument ',
                        'C': 'cached result of ', 'F': 'function attribute '}
                ctx.bad(r1, e.where(), '%s changes %s%s' %
                        (e.data['how'], what[e.data['obj'][0]],
                         e.data['obj'][2:]))
                bad1 += 1
            elif e.kind == 'global':
                ctx.bad(r1, e.where(), 'module variable %s is assigned' %
                        e.data['name'])
                bad1 += 1
            elif e.kind == 'attrstore':
                ctx.bad(r2 if not e.data['what'].startswith('discorpy')
                        else r1, e.where(), '%s is assigned' %
                        e.data['what'])
                bad1 += 1
            elif e.kind in ('lib', 'attr'):
                n = e.data['name']
                ctx.count('library calls inspected')
                for p, t in FORBID:
                    if p.match(n):
                        if n.startswith('warnings.') and any(
                                m[0] == 'with' and
                                m[1].endswith('catch_warnings')
                                for m in e.marks):
                            continue
                        if e.kind == 'lib' and seeded(n, e):
                            continue
                        ctx.bad(r2, e.where(), 'uses %s (%s)' % (t, n))
                        bad2 += 1
                        break
        for o, c in sorted(fl.heap.items()):
            if not c.uninit or c.site is None:
                continue
            s = {x[1] for x in c.stores}
            nd, md, q = c.site
            if not c.stores and not handed_on(fl, nd):
                why = 'is never written'
            elif s and s <= {'fancy'} and len({id(x[0]) for x in
                                               c.stores}) == 1:
                why = 'is written only at selected positions (line %s)' % \
                    c.stores[0][0].lineno
            elif s and s <= {'cond'} and len({id(x[0]) for x in
                                              c.stores}) == 1:
                why = 'is written only under a condition (line %s)' % \
                    c.stores[0][0].lineno
            else:
                continue
            ctx.bad(r3, '%s:%s (%s)' % (md.path, nd.lineno, q),
                    'array made without initial values ' + why)
            bad3 += 1
        # a shared cached object handed to the caller
        for o in reach(fl, fl.result):
            if o.startswith('C:') or o.startswith('G:') or o.startswith('D:'):
                if o.startswith('G:') and not fl.result.may(
                        'arr', 'list', 'dict', 'set'):
                    continue
                ctx.bad(r1, w(mod, node), 'the result shares memory with '
                        'state that outlives the call (%s)' % o[2:])
                bad1 += 1
        if cached(fl, mod, node) and (fl.result is None or not
                                      fl.result.only('num', 'bool', 'str',
                                                     'none')):
            ctx.bad(r1, w(mod, node), 'the result of one call is kept and '
                    'handed to later callers')
            bad1 += 1
        for r, b in ((r1, bad1), (r2, bad2), (r3, bad3)):
            if not b:
                ctx.ok(r, w(mod, node), '%d functions reached' %
                       len(fl.visited))
    return ctx.finish(
        'Effect analysis over everything reachable from each public function '
        'of the numerical modules: writes to module variables, default '
        'arguments, function attributes and caches; library calls with '
        'hidden inputs or global effects; arrays allocated without initial '
        'values and not filled.',
        ['numpy, scipy and scikit-image functions outside the table are '
         'functions of their arguments; printing and warnings are allowed'])


def seeded(n, e):
    if n.endswith(('default_rng', 'RandomState', 'SeedSequence')):
        a = e.data['args'].get('0') or e.data['args'].get('seed')
        return a is not None and a.sym is not None and a.sym[0] == 'const' \
            and a.sym[1] is not None
    return False


def handed_on(fl, nd):
    return False


def reach(fl, v, seen=None):
    seen = set() if seen is None else seen
    if v is None:
        return seen
    for x in v.items or ():
        reach(fl, x, seen)
    for o in v.objs:
        if o not in seen:
            seen.add(o)
            c = fl.heap.get(o)
            if c is not None:
                reach(fl, c.elem, seen)
    return seen


# ------------------------------------------------------------------- C10
# (callee, parameter): not the option of the same name of the caller
EXCEPT = {
    ('convert_chessboard_to_linepattern', 'bgr'),
    ('_make_circle_mask', 'ratio'), ('make_circle_mask', 'ratio'),
    ('make_circle_mask', 'width'), ('_make_circle_mask', 'width'),
    ('sliding_window_slope', 'norm'), ('sliding_window_slope', 'size'),
    ('select_good_peaks', 'sigma'),
    ('locate_subpixel_point', 'option'), ('_make_window', 'height'),
    ('_make_window', 'width'), ('__gauss_function', 'a'),
}
# required form where it is not the plain parameter
NOT = 'negated'
FORMS = {
    ('get_cross_points_hor_lines', 'get_local_extrema_points', 'denoise'):
        NOT,
    ('get_cross_points_ver_lines', 'get_local_extrema_points', 'denoise'):
        NOT,
    ('get_cross_points_hor_lines', 'get_local_extrema_points', 'norm'): NOT,
    ('get_cross_points_ver_lines', 'get_local_extrema_points', 'norm'): NOT,
}
# caller, callee, parameter: skipped (own meaning in the caller)
SKIP = {
    ('find_center_based_vanishing_points_iteration', 'find_cod_bailey',
     'iteration'),
    ('group_dots_hor_lines_based_polyfit', 'group_dots_hor_lines',
     'num_dot_miss'),
    ('group_dots_ver_lines_based_polyfit', 'group_dots_ver_lines',
     'num_dot_miss'),
    ('group_dots_hor_lines_based_polyfit', '_check_dot_on_line',
     'num_dot_miss'),
    ('group_dots_ver_lines_based_polyfit', '_check_dot_on_line',
     'num_dot_miss'),
    ('calc_coef_backward_from_forward', 'calc_coef_forward', 'num_fact'),
}
OPTIONS = {
    'order', 'mode', 'pad', 'pad_mode', 'method', 'border', 'ratio', 'thres',
    'denoise', 'norm', 'subpixel', 'select_peaks', 'sensitive', 'radius',
    'bgr', 'snr', 'tol', 'use_offset', 'sigma', 'size', 'residual',
    'accepted_ratio', 'num_dot_miss', 'overlap_ratio', 'optimizing',
    'threshold', 'scale', 'equal_dist', 'mapping', 'iteration',
    'hor_curviness', 'ver_curviness', 'hor_margin', 'ver_margin', 'rotate',
    'overwrite', 'num_fact', 'chessboard', 'output_order', 'input_order',
    'degree_unit', 'perspective', 'find_center', 'key_path', 'axis',
    'direction', 'offset', 'search_range', 'kwargs', 'smooth', 'color',
    'point_dist', 'line_dist', 'dot_dist', 'xcenter', 'ycenter',
    'margin_grayscale', 'average', 'index', 'dpi', 'height', 'width',
}
KNOWN = None
# library sinks: function -> {keyword: (position, option)}
SINKS = {
    'unwarp_image_backward': {'map_coordinates': {
        'order': (3, 'order'), 'mode': (4, 'mode')}},
    'unwarp_color_image_backward': {'map_coordinates': {
        'order': (3, 'order'), 'mode': (4, 'mode')},
        'pad': {'mode': (2, 'pad_mode')}},
    'correct_perspective_image': {'map_coordinates': {
        'order': (3, 'order'), 'mode': (4, 'mode')}},
    'mapping_cv2': {'remap': {'interpolation': (3, 'method'),
                              'borderMode': (5, 'border')}},
    'unwarp_image_backward_cv2': {
        'remap': {'interpolation': (3, 'method'),
                  'borderMode': (5, 'border')},
        'pad': {'mode': (2, 'pad_mode')}},
    'unwarp_video_cv2': {
        'remap': {'interpolation': (3, 'method'),
                  'borderMode': (5, 'border')},
        'pad': {'mode': (2, 'pad_mode')}},
    'normalization': {'median_filter': {'size': (1, 'size')}},
    'normalization_fft': {'pad': {'mode': (2, 'mode')}},
    'convert_chessboard_to_linepattern': {'gaussian_filter': {
        'sigma': (1, 'sigma')}},
    'save_plot_image': {'savefig': {'dpi': ('', 'dpi')}},
    'save_residual_plot': {'savefig': {'dpi': ('', 'dpi')}},
    'save_plot_points': {'savefig': {'dpi': ('', 'dpi')},
                         'plot': {'color': ('', 'color')}},
    'make_parabola_mask': {'rotate': {'angle': (1, 'rotate')}},
    'remove_points_using_parabola_mask': {'rotate': {
        'angle': (1, 'rotate')}},
}
DEFAULTS = {('lib', 'cv2.INTER_LINEAR'), ('lib', 'cv2.BORDER_CONSTANT')}
QUIET = ('numpy', 'builtins', 'scipy', 'skimage', 'math', 'itertools',
         'functools', 'operator')
# effects that count as an outcome
CALLEES = {
    '_apply_fft_filter', '_select_roi', '_check_dot_on_line',
    '_get_nearby_hor_points', '_get_nearby_hor_points_iter',
    '_get_nearby_ver_points', '_get_nearby_ver_points_iter',
    '_check_dot_size', '_check_axes_ratio', '_calc_index_range',
    '_calc_undistor_intercept', '_check_missing_lines', '_calc_pad',
    '_calc_undistor_intercept_perspective', '_calc_metric', '_para_fit_hor',
    '_para_fit_ver', '_make_window', '_create_file_name',
    '_generate_linear_coef',
}


def form(sym, q):
    """how the value handed over relates to the caller's option q"""
    p = ('param', q)
    if sym == p or sym == ('call', 'bool', p) or \
            sym == ('not', ('not', p)):
        return 'same'
    if sym == ('not', p):
        return NOT
    if sym is None:
        return None
    if sym[0] == 'phi':
        fs = {form(x, q) for x in sym[1] if x not in DEFAULTS}
        if fs == {'same'}:
            return 'same'
        if 'same' in fs or None in fs or NOT in fs:
            return None
        return 'other'
    return 'other'


def text(sym):
    if sym is None:
        return 'another value'
    if sym[0] == 'param':
        return 'the value of %s' % sym[1]
    if sym[0] == 'const':
        return 'the constant %r' % (sym[1],)
    if sym[0] == 'not':
        return 'the opposite of ' + text(sym[1])
    return 'a different value %s' % (sym,)


# documented parameters the library's formulas do not depend on
INERT = {('transform_coef_backward_and_forward', 'mapping')}


ZERO = re.compile(r'\b(int|float|opencv-object|bool)\b')


def truth_uses(fn, p):
    """places that test parameter p by its truth value, before any
    assignment to it"""
    first = min([n.lineno for n in ast.walk(fn) if isinstance(n, ast.Name) and
                 n.id == p and isinstance(n.ctx, ast.Store)] or [10 ** 9])
    found = []

    def truth(e):
        if isinstance(e, ast.Name) and e.id == p and e.lineno <= first:
            found.append(e)
        elif isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            truth(e.operand)
        elif isinstance(e, ast.BoolOp):
            for v in e.values:
                truth(v)
        elif isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and \
                e.func.id == 'bool' and e.args:
            truth(e.args[0])
    for n in ast.walk(fn):
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            truth(n.test)
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            truth(n)
        elif isinstance(n, ast.BoolOp):
            for v in n.values[:-1]:
                truth(v)
        elif isinstance(n, ast.comprehension):
            for v in n.ifs:
                truth(v)
    return found


def zero_lost(ctx, mod, node):
    """an option that is None by default and may be zero must not be tested
    by its truth value: zero would be taken for 'not given'"""
    rule = 'zero is a value, not an absent option'
    doc = ast.get_docstring(node) or ''
    a = node.args
    ds = list(zip([x.arg for x in a.args][len(a.args) - len(a.defaults):],
                  a.defaults)) + [(x.arg, d) for x, d in zip(
                      a.kwonlyargs, a.kw_defaults) if d is not None]
    for p, d in ds:
        m = re.search(r'^%s *: *(.*)$' % re.escape(p), doc, re.M)
        if not (isinstance(d, ast.Constant) and d.value is None and m and
                ZERO.search(m.group(1))):
            continue
        found = [(node, e) for e in truth_uses(node, p)]
        # a helper of the module that is handed the option as it is
        defs = {n.name: n for n in mod.tree.body
                if isinstance(n, ast.FunctionDef)}
        for n in ast.walk(node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and \
                    n.func.id in defs and n.func.id != node.name:
                g = defs[n.func.id]
                q = [x.arg for x in g.args.args]
                for i, v in enumerate(n.args):
                    if isinstance(v, ast.Name) and v.id == p and i < len(q):
                        found += [(g, e) for e in truth_uses(g, q[i])]
                for k in n.keywords:
                    if isinstance(k.value, ast.Name) and \
                            k.value.id == p and k.arg in q:
                        found += [(g, e) for e in truth_uses(g, k.arg)]
        if not found:
            ctx.ok(rule, w(mod, node), p)
        for g, e in found[:1]:
            ctx.bad(rule, w(mod, node), '%s: option %s, which may be zero, is '
                    'tested by its truth value in %s (line %d): zero counts '
                    'as not given' % (node.name, p, g.name, e.lineno))


def C10(tier):
    ctx = Ctx('C10', tier)
    r1 = 'every parameter influences the outcome'
    r2 = 'options are handed on unchanged'
    for mod, node, fl in run(ctx):
        eff = fl.alldeps(fl.result)
        for e in fl.events:
            if e.kind in ('raise', 'print', 'extern', 'attrstore'):
                eff = eff | e.deps
            elif e.kind == 'lib' and e.data['name'].split('.')[0] not in \
                    QUIET:
                eff = eff | e.deps
            elif e.kind == 'lib' and e.data['name'] in (
                    'builtins.open', 'numpy.savetxt', 'builtins.print'):
                eff = eff | e.deps
        zero_lost(ctx, mod, node)
        ps = FE.params(node)
        for p in ps:
            if p in eff:
                ctx.ok(r1, w(mod, node), p)
            elif mod.name == LOSA and p.startswith('_') or \
                    (node.name, p) in INERT:
                continue
            else:
                ctx.bad(r1, w(mod, node), 'parameter %s has no influence on '
                        'result or effects of %s' % (p, node.name))
        for e in fl.events:
            if e.kind == 'pkg':
                forwarded(ctx, r2, mod, node, ps, e, fl)
        for short, kws in SINKS.get(node.name, {}).items():
            sites = [e for e in fl.events if e.kind == 'lib' and
                     e.data['name'].split('.')[-1] == short]
            for e in sites:
                for kw, (pos, q) in kws.items():
                    a = e.data['args']
                    v = a.get(kw) or a.get(str(pos))
                    if v is None:
                        if e.data['open']:
                            ctx.und(r2, e.where(), '%s of %s' % (kw, short))
                        else:
                            ctx.bad(r2, e.where(), '%s: %s of %s() is left '
                                    'at its default, not %s' %
                                    (node.name, kw, short, q))
                        continue
                    f = form(v.sym, q)
                    judge(ctx, r2, e.where(), f, 'same', v, q, node.name,
                          short, kw)
    from .options import options
    options(ctx, {n.name: FE.params(n) for _, n in FE.public(ctx.mods, ALL)})
    return ctx.finish(
        'Dependence analysis (data and control) from every parameter of '
        'every public function to its result and effects, and value '
        'identity of options at package calls and library calls that take '
        'them (order, mode, padding, thresholds, ratios ...); where a '
        'reference summary exists, arguments that differ in one option and '
        'must give different results are looked for a common result.',
        ['two options of the same name in caller and callee mean the same '
         'unless listed (EXCEPT, SKIP, FORMS in dsa/props/flowp.py)'])


def swapped(v, q):
    """the option or, depending on something else, another value"""
    return v.sym is not None and v.sym[0] == 'phi' and v.deps - {q} and \
        all(form(x, q) == 'same' or x is not None and
            x[0] in ('const', 'param') for x in v.sym[1])


def judge(ctx, rule, where, f, want, v, q, caller, callee, name):
    if f == want:
        ctx.ok(rule, where, '%s -> %s(%s)' % (caller, callee, name))
    elif f is None and q in v.deps and swapped(v, q):
        ctx.bad(rule, where, '%s hands to parameter %s of %s, depending on '
                '%s, %s instead of its own option %s' % (
                    caller, name, callee, ', '.join(sorted(v.deps - {q})),
                    ' or '.join(sorted(text(x) for x in v.sym[1]
                                       if form(x, q) != 'same')), q))
    elif f is None and q in v.deps:
        ctx.und(rule, where, '%s -> %s(%s)' % (caller, callee, name))
    else:
        ctx.bad(rule, where, '%s hands %s to parameter %s of %s, not its '
                'own option %s%s' % (caller, text(v.sym), name, callee, q,
                                     '' if want == 'same' else
                                     ' (%s)' % want))


def forwarded(ctx, rule, mod, node, ps, e, fl):
    callee = e.data['name'].split('.')[-1]
    if callee.startswith('_') and callee not in CALLEES:
        return
    if e.data['name'].count('.') > 3:       # nested function
        return
    for q, v in e.data['args'].items():
        if q not in ps or q not in OPTIONS or (callee, q) in EXCEPT or \
                (node.name, callee, q) in SKIP:
            continue
        if q in ('xcenter', 'ycenter', 'height', 'width', 'radius', 'size',
                 'kwargs', 'slope', 'index') and (node.name, callee, q) not \
                in FORMS:
            if q not in e.data['given'] and q in ('radius', 'index') and \
                    e.data['open'] is not True:
                ctx.bad(rule, e.where(), '%s does not hand its option %s to '
                        '%s' % (node.name, q, callee))
            continue
        want = FORMS.get((node.name, callee, q), 'same')
        f = form(v.sym, q)
        if q not in e.data['given'] and e.data['open'] is not True:
            ctx.bad(rule, e.where(), '%s does not hand its option %s to %s, '
                    'which uses its default' % (node.name, q, callee))
            continue
        judge(ctx, rule, e.where(), f, want, v, q, node.name, callee, q)


# ------------------------------------------------------------------- C26
COORD = {
    'group_dots_hor_lines', 'group_dots_ver_lines',
    'group_dots_hor_lines_based_polyfit',
    'group_dots_ver_lines_based_polyfit', 'remove_residual_dots_hor',
    'remove_residual_dots_ver', 'remove_points_using_parabola_mask',
    'get_points_dot_pattern', 'rotate_points', 'remove_subset_points',
    'locate_subpixel_point', 'get_local_extrema_points', 'select_good_peaks',
    'get_tilted_profile', 'get_cross_points_hor_lines',
    'get_cross_points_ver_lines', 'find_cod_coarse', 'find_cod_fine',
    'find_cod_bailey', 'regenerate_grid_points_parabola',
    'regenerate_grid_points_linear', 'generate_undistorted_perspective_lines',
    'generate_source_target_perspective_points',
    'generate_4_source_target_perspective_points', 'update_center',
    'correct_perspective_effect', 'find_center_based_vanishing_points',
    'find_center_based_vanishing_points_iteration', 'unwarp_line_forward',
    'unwarp_line_backward', 'correct_perspective_line',
    'find_point_to_point', 'calc_residual_hor', 'calc_residual_ver',
    'calc_slope_distance_hor_lines', 'calc_slope_distance_ver_lines',
    'sliding_window_slope',
}


def narrow_in(fl, v, seen=None):
    seen = set() if seen is None else seen
    if v is None:
        return None
    if v.narrow:
        return v.narrow
    for x in v.items or ():
        n = narrow_in(fl, x, seen)
        if n:
            return n
    for o in v.objs:
        if o not in seen:
            seen.add(o)
            c = fl.heap.get(o)
            if c is not None:
                n = c.narrow or narrow_in(fl, c.elem, seen)
                if n:
                    return n
    return None


def C26(tier):
    ctx = Ctx('C26', tier)
    r1 = 'no index or window through a narrow type'
    r2 = 'coordinates are returned at full width'
    r3 = 'no sub-pixel value stored in an array of the input type'
    for mod, node, fl in run(ctx, PURE):
        bad = [e for e in fl.events if e.kind == 'narrowindex']
        for e in bad:
            ctx.bad(r1, e.where(), '%s: position went through %s' %
                    (node.name, e.data['by']))
        ctx.count('index expressions',
                  sum(1 for f in ast.walk(node)
                      if isinstance(f, ast.Subscript)))
        if not bad:
            ctx.ok(r1, w(mod, node), 'all subscripts, slices and sample '
                   'positions')
        if node.name in COORD:
            n = narrow_in(fl, fl.result)
            if n:
                ctx.bad(r2, w(mod, node), '%s returns positions that went '
                        'through %s' % (node.name, n))
            else:
                ctx.ok(r2, w(mod, node), 'result')
        bad3 = 0
        for o, c in sorted(fl.heap.items()):
            if c is not None and c.fstore is not None:
                nd, md, q = c.fstore
                ctx.bad(r3, '%s:%s (%s)' % (md.path, nd.lineno, q),
                        'a fractional value is stored in an array that has '
                        'the element type of the input')
                bad3 += 1
        for e in fl.events:
            if e.kind == 'inhcast':
                ctx.bad(r3, e.where(), 'a fractional value is converted to '
                        'the element type of the input')
                bad3 += 1
        if not bad3:
            ctx.ok(r3, w(mod, node), 'every array made by the function')
    return ctx.finish(
        'Type-width flow: values converted to 8/16-bit integers or 16-bit '
        'floats are followed to every subscript, slice bound, sampling '
        'position and returned coordinate; result arrays that inherit the '
        'element type of an input (zeros_like, empty_like ... without dtype) '
        'must not receive fractional values.',
        ['array element types of inputs are arbitrary'])
