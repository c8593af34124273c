"""C17-C22: perspective, residuals, symmetry, translation, coefficient fits,
regenerated grids"""
from fractions import Fraction
from ..frame import *
from ..models import mk

SP = 'spec.calib'
ASSUME = ['Library semantics of numpy/scipy calls as modelled in '
          'dsa/models.py (real arithmetic, no rounding); polyfit, lstsq, '
          'minimize and fsolve are uninterpreted functions of the equations '
          'they are given.',
          'Obligations listed as undecided are not claimed.']


def center():
    return dict(xcenter=a_num('xcenter'), ycenter=a_num('ycenter'))


def hv():
    return dict(list_hor_lines=a_lines('hor'), list_ver_lines=a_lines('ver'))


# a scale factor, where one is given, is positive
SCALE = dict(ranges={'scale': (Fraction(1, 8), Fraction(3))})


def same(c, rule, mod, f, args, opaque=(), lab='', errors=True, view=None,
         spec=SP, opts=None):
    a = c.analyse(mod, f, args, opaque)
    b = c.analyse(spec, f, args, opaque)
    w = c.where(mod, f)
    what = f + (' [%s]' % lab if lab else '')
    if not a.ok or not b.ok:
        return c.und(rule, w, '%s: %s' % (what, a.why or b.why))
    view = view or (lambda t: t)
    try:
        c.equal(rule, w, view(a.term), view(b.term), what,
                T.and_(a.pc, b.pc), opts)
        if errors:
            c.equal(rule + '-errors', w, a.raised('ValueError'),
                    b.raised('ValueError'), what + ' errors')
    except (Limit, Unknown) as e:
        c.und(rule, w, '%s: %s' % (what, e))
    return a


def both(*names):
    return tuple(m + '.' + f for m in (PROC, SP) for f in names)


# ------------------------------------------------------------------- C17
def C17(tier):
    c = Ctx('C17', tier, ['calib'])
    pts = dict(source_points=a_points('src'),
               target_points=a_arr('tgt', 2, [dim('src', 0), num_(2)]))
    for lab, m in (('default', None), ('any mapping', a_str('mapping')),
                   ('forward', Const('forward')),
                   ('backward', Const('backward'))):
        d = dict(pts)
        if m is not None:
            d['mapping'] = m
        same(c, 'perspective-equations', PROC,
             'calc_perspective_coefficients', d, lab=lab)
    same(c, 'perspective-map', POST, 'correct_perspective_line',
         dict(list_lines=a_lines('lines'), list_coef=a_coefs('coef')))
    same(c, 'perspective-map', POST, 'correct_perspective_line',
         dict(list_lines=a_lines('lines'), list_coef=a_coefs('coef', 8)),
         lab='8 values')
    same(c, 'perspective-map', POST, 'correct_perspective_image',
         dict(mat=a_arr('mat', 2), list_coef=a_coefs('coef', 8),
              order=a_int('order'), mode=a_str('mode')), lab='8 values')
    same(c, 'perspective-map', POST, 'correct_perspective_image',
         dict(mat=a_arr('mat', 2), list_coef=a_coefs('coef'),
              order=a_int('order'), mode=a_str('mode')))
    same(c, 'perspective-map', POST, 'correct_perspective_image',
         dict(mat=a_arr('mat', 2), list_coef=a_coefs('coef'),
              order=a_int('order'), mode=a_str('mode'),
              map_index=a_any('map_index')), lab='given map')
    agree(c)
    four(c, 'four-points')
    effect(c, 'perspective-effect')
    same(c, 'recentre', PROC, 'update_center',
         dict(list_lines=a_lines('lines'), **center()))
    return c.finish(
        'Summaries of the perspective solver and of both appliers; the '
        'normal equations (as a multiset of rows) and the rational map must '
        'have the canonical form of the reference, in (y, x) order, and the '
        'rows of the solver must vanish under the map of the applier.',
        ASSUME)


def agree(c):
    """code against code: inserting the applied map into the solver's rows
    must give zero residual"""
    w = c.where(PROC, 'calc_perspective_coefficients')
    co = a_coefs('coef', 8)
    src = a_points('src')
    line = Lst([One(src)])
    ap = c.analyse(POST, 'correct_perspective_line',
                   dict(list_lines=line, list_coef=co))
    if not ap.ok:
        return c.und('solver-applier', w, ap.why)
    img = ap.value
    try:
        tgt = [s.v for s in segs_of(img)][0] if not isinstance(img, Arr) \
            else img.row(num_(0))
        for mapping, frm, to in (('forward', src, tgt),
                                 ('backward', tgt, src)):
            s = c.analyse(PROC, 'calc_perspective_coefficients', dict(
                source_points=frm, target_points=to,
                mapping=Const(mapping)))
            if not s.ok:
                c.und('solver-applier', w, s.why)
                continue
            evs = s.evs('lstsq')
            if not evs:
                c.und('solver-applier', w, 'no linear system found')
                continue
            rows = []

            def walk(segs):
                for x in segs:
                    if isinstance(x, One):
                        rows.append(x.v)
                    else:
                        walk(x.segs)
            walk(evs[0].data['rows'].segs)
            for r in rows:
                row, rhs = r.items
                row = asarr(row)
                tot = neg(rhs) if isinstance(rhs, Scalar) else None
                for k in range(8):
                    tot = T.add(tot, T.mul(row.get([num_(k)]),
                                           el('coef', num_(k))))
                c.equal('solver-applier', w, tot, num_(0),
                        'residual of a solver row under the applied map '
                        '(%s)' % mapping)
    except (Unknown, Limit, AttributeError, TypeError, KeyError) as e:
        c.und('solver-applier', w, '%s %s' % (type(e).__name__, e))


def four(c, rule):
    pts = a_arr('pts', 2, [num_(4), num_(2)])
    for lab, d in (('default', {}), ('xy', dict(input_order=Const('xy'))),
                   ('any', dict(input_order=a_str('input_order'),
                                equal_dist=a_bool('equal_dist'),
                                scale=a_any('scale')))):
        same(c, rule, PROC, 'generate_4_source_target_perspective_points',
             dict(points=pts, **d), lab=lab, opts=SCALE)


OP_EFFECT = both('generate_4_source_target_perspective_points',
                 'calc_perspective_coefficients') + (
    POST + '.correct_perspective_line', SP + '.correct_perspective_line')


def effect(c, rule):
    for m in ('mean', 'median', 'max', 'min'):
        same(c, rule, PROC, 'correct_perspective_effect',
             dict(method=Const(m), scale=a_str('scale'), **hv(), **center()),
             OP_EFFECT, lab='method=' + m)


# ------------------------------------------------------------------- C18
def C18(tier):
    c = Ctx('C18', tier, ['calib'])
    for k in ('hor', 'ver'):
        same(c, 'residual', POST, 'calc_residual_' + k,
             dict(list_ulines=a_lines('lines'), **center()))
    same(c, 'criterion', POST, 'check_distortion',
         dict(list_data=a_points('data')),
         opts=dict(dims=(1, 29), tries=4000, want=4000))
    return c.finish(
        'Summaries of the residual functions for any number of lines of any '
        'length, compared with distance-to-center / perpendicular distance '
        'to the line fitted to the same points, sorted by radius; the '
        'distortion criterion compared with "more than 15 percent above one '
        'pixel".', ASSUME)


# ------------------------------------------------------------------- C19
SWAP = {'hor': 'ver', 'ver': 'hor'}


def transpose(t):
    """exchange rows and columns in the arguments"""
    def f(a, args):
        if a.kind == 'elem' and args[0] in SWAP:
            return mk('elem', (SWAP[args[0]],) + args[1:-1] +
                      (T.sub(num_(1), args[-1]),))
        if a.kind == 'elem' and args[0] == 'lines':
            return mk('elem', args[:-1] + (T.sub(num_(1), args[-1]),))
        if a.kind == 'linelen' and args[0] in SWAP:
            return mk('linelen', (SWAP[args[0]],) + args[1:], integer=True,
                      lb=1)
        if a.kind == 'sym':
            n = a.args[0]
            if n == 'xcenter':
                return a_num('ycenter')
            if n == 'ycenter':
                return a_num('xcenter')
            for p, q in SWAP.items():
                if n.startswith(p + '.dim'):
                    return dim(q, int(n[-1]))
        return None
    return amap(t, f)


def parts(v):
    """components of a returned pair"""
    if isinstance(v, Tup):
        return v.items
    if isinstance(v, Arr):
        return [v.get([num_(k)]) if v.ndim == 1 else v.row(num_(k))
                for k in range(2)]
    raise Unknown('pair')


def swap_yx(v):
    """exchange the last axis (y, x) of points"""
    if isinstance(v, Arr) and v.gen is None:
        return Arr(v.dims, lambda idx: v.get(
            idx[:-1] + [T.sub(num_(1), idx[-1])]))
    if isinstance(v, (Lst, Tup)):
        r = Lst(seg_map(segs_of(v), swap_yx))
        return r
    raise Unknown('points')


def symmetric(c, f, args, kind, opaque=(), mod=PROC, lab=''):
    s = c.analyse(mod, f, args, opaque)
    w = c.where(mod, f)
    what = f + (' [%s]' % lab if lab else '')
    if not s.ok:
        return c.und('transposition', w, '%s: %s' % (what, s.why))
    try:
        if kind == 'same':
            pairs = [(s.value, s.value)]
        elif kind == 'swap':
            a, b = parts(s.value)
            pairs = [(a, b), (b, a)]
        elif kind == 'grids':
            a, b = parts(s.value)
            pairs = [(a, swap_yx(b)), (b, swap_yx(a))]
        elif kind == 'pair-same':
            a, b = parts(s.value)
            pairs = [(a, a), (b, b)]
        for k, (a, b) in enumerate(pairs):
            ta = T.under(transpose(reify(a)), transpose(s.pc))
            tb = T.under(reify(b), s.pc)
            c.equal('transposition', w, ta, tb, '%s, result %d' % (what, k),
                    T.and_(s.pc, transpose(s.pc)))
    except (Limit, Unknown) as e:
        c.und('transposition', w, '%s: %s' % (what, e))


VAN = dict(dims=(5, 9), tries=3000, want=3000, budget=20)


def C19(tier):
    c = Ctx('C19', tier, ['calib'])
    symmetric(c, 'find_cod_coarse', hv(), 'swap')
    for n in (0, 1):
        symmetric(c, 'find_cod_bailey', dict(iteration=num_(n), **hv()),
                  'swap', lab='%d extra iterations' % n)
    for f, k in (('calc_coef_backward', 'same'),
                 ('calc_coef_forward', 'same'),
                 ('calc_coef_backward_from_forward', 'pair-same')):
        symmetric(c, f, dict(num_fact=a_int('num_fact'),
                             optimizing=a_bool('optimizing'),
                             threshold=a_num('threshold'), **hv(),
                             **center()), k)
    symmetric(c, 'regenerate_grid_points_linear', hv(), 'grids')
    symmetric(c, 'generate_undistorted_perspective_lines',
              dict(equal_dist=a_bool('equal_dist'), scale=a_any('scale'),
                   optimizing=a_bool('optimizing'), **hv()), 'grids')
    residuals_symmetric(c)
    B = both('find_cod_bailey')
    same(c, 'symmetric-reference', PROC, 'regenerate_grid_points_parabola',
         dict(perspective=a_bool('perspective'),
              find_center=a_bool('find_center'), **hv()), B)
    same(c, 'symmetric-reference', PROC, 'find_cod_fine',
         dict(point_dist=a_num('point_dist'), **hv(), **center()))
    effect(c, 'symmetric-reference')
    same(c, 'symmetric-reference', PROC, 'find_center_based_vanishing_points',
         hv(), B, opts=VAN)
    for n in (0, 1, 2):
        same(c, 'symmetric-reference', PROC,
             'find_center_based_vanishing_points_iteration',
             dict(iteration=num_(n), method=a_str('method'), **hv()),
             both('find_cod_bailey', 'correct_perspective_effect'),
             lab='%d iterations' % n, opts=None if n else VAN)
    return c.finish(
        'Metamorphic comparison of summaries: after exchanging rows and '
        'columns in the symbolic arguments, the x and y results must be '
        'exchanged (coefficients unchanged).  Functions whose results pass '
        'through opaque sub-results are compared with a reference that '
        'handles both directions by one routine.', ASSUME)


def residuals_symmetric(c):
    a = c.analyse(POST, 'calc_residual_hor',
                  dict(list_ulines=a_lines('lines'), **center()))
    b = c.analyse(POST, 'calc_residual_ver',
                  dict(list_ulines=a_lines('lines'), **center()))
    w = c.where(POST, 'calc_residual_ver')
    if not a.ok or not b.ok:
        return c.und('transposition', w, a.why or b.why)
    c.equal('transposition', w, transpose(b.term), a.term,
            'calc_residual_ver against calc_residual_hor')


# ------------------------------------------------------------------- C20
def shifted(t, names=('hor', 'ver', 'lines')):
    dy, dx = a_num('dy'), a_num('dx')

    def f(a, args):
        if a.kind == 'elem' and args[0] in names:
            k = args[-1]
            off = T.ite(T.cmp_eq(k, num_(0)), dy, dx)
            return T.add(of_atom(a) if args == a.args else
                         mk('elem', args), off)
        if a.kind == 'sym':
            if a.args[0] == 'xcenter':
                return T.add(of_atom(a), dx)
            if a.args[0] == 'ycenter':
                return T.add(of_atom(a), dy)
        return None
    return amap(t, f)


def add_shift(v):
    dy, dx = a_num('dy'), a_num('dx')
    if isinstance(v, Arr) and v.gen is None:
        return Arr(v.dims, lambda idx: T.add(v.get(idx), T.ite(
            T.cmp_eq(idx[-1], num_(0)), dy, dx)))
    if isinstance(v, (Lst, Tup)):
        return Lst(seg_map(segs_of(v), add_shift))
    raise Unknown('points')


def translated(c, mod, f, args, kind, opaque=(), lab=''):
    s = c.analyse(mod, f, args, opaque)
    w = c.where(mod, f)
    what = f + (' [%s]' % lab if lab else '')
    if not s.ok:
        return c.und('translation', w, '%s: %s' % (what, s.why))
    try:
        if kind == 'same':
            pairs = [(s.value, s.value)]
        elif kind == 'points':
            pairs = [(s.value, add_shift(s.value))]
        elif kind == 'point-pairs':
            a, b = parts(s.value)
            pairs = [(a, add_shift(a)), (b, add_shift(b))]
        elif kind == 'pair-same':
            a, b = parts(s.value)
            pairs = [(a, a), (b, b)]
        for k, (a, b) in enumerate(pairs):
            sp = shifted(s.pc)
            ta = T.under(shifted(reify(a)), sp)
            tb = T.under(reify(b), s.pc)
            c.equal('translation', w, ta, tb, '%s, result %d' % (what, k),
                    T.and_(s.pc, sp))
    except (Limit, Unknown) as e:
        c.und('translation', w, '%s: %s' % (what, e))


def C20(tier):
    c = Ctx('C20', tier, ['calib'])
    for f, k in (('calc_coef_backward', 'same'),
                 ('calc_coef_forward', 'same'),
                 ('calc_coef_backward_from_forward', 'pair-same')):
        translated(c, PROC, f, dict(num_fact=a_int('num_fact'),
                                    optimizing=a_bool('optimizing'),
                                    threshold=a_num('threshold'), **hv(),
                                    **center()), k)
    for k in ('hor', 'ver'):
        translated(c, POST, 'calc_residual_' + k,
                   dict(list_ulines=a_lines('lines'), **center()), 'same')
    for k in ('forward', 'backward'):
        translated(c, POST, 'unwarp_line_' + k,
                   dict(list_lines=a_lines('lines'), list_fact=a_coefs(
                       'fact'), **center()), 'points')
    for m in ('mean', 'median', 'max', 'min'):
        translated(c, PROC, 'correct_perspective_effect',
                   dict(method=Const(m), scale=a_str('scale'), **hv(),
                        **center()), 'point-pairs', OP_EFFECT, 'method=' + m)
    return c.finish(
        'Metamorphic comparison of summaries: substituting p -> p + d, '
        'c -> c + d in the summary must leave coefficients and residuals '
        'syntactically unchanged (canonical form) and shift returned points '
        'by d.', ASSUME)


# ------------------------------------------------------------------- C21
def C21(tier):
    c = Ctx('C21', tier, ['calib'])
    for f in ('calc_coef_backward', 'calc_coef_forward',
              'calc_coef_backward_from_forward'):
        same(c, 'model-equations', PROC, f,
             dict(num_fact=a_int('num_fact'), optimizing=a_bool('optimizing'),
                  threshold=a_num('threshold'), **hv(), **center()))
    C = a_coefs('fact')
    same(c, 'model-equations', PROC, 'transform_coef_backward_and_forward',
         dict(list_fact=C), lab='default points')
    same(c, 'model-equations', PROC, 'transform_coef_backward_and_forward',
         dict(list_fact=C, mapping=a_str('mapping'),
              ref_points=a_points('ref')), lab='given points')
    return c.finish(
        'The linear systems handed to lstsq (multisets of rows and right '
        'hand sides over all lines and points, symbolic numbers of lines, '
        'points and coefficients) must have the canonical form of the '
        'equations sum_i k_i r^i = ratio of the model the coefficients are '
        'applied in.', ASSUME)


# ------------------------------------------------------------------- C22
def C22(tier):
    c = Ctx('C22', tier, ['calib'])
    same(c, 'grid', PROC, 'regenerate_grid_points_linear', hv())
    same(c, 'grid', PROC, 'regenerate_grid_points_linear',
         dict(is_coef=TRUE,
              list_hor_lines=a_arr('ch', 2, [dim('ch', 0), num_(2)]),
              list_ver_lines=a_arr('cv', 2, [dim('cv', 0), num_(2)])),
         lab='coefficients given')
    B = both('find_cod_bailey')
    same(c, 'grid', PROC, 'regenerate_grid_points_parabola',
         dict(perspective=a_bool('perspective'),
              find_center=a_bool('find_center'), **hv()), B)
    same(c, 'grid', PROC, 'generate_undistorted_perspective_lines',
         dict(equal_dist=a_bool('equal_dist'), scale=a_any('scale'),
              optimizing=a_bool('optimizing'), **hv()), opts=SCALE)
    same(c, 'pairing', PROC, 'generate_source_target_perspective_points',
         dict(equal_dist=a_bool('equal_dist'), scale=a_any('scale'),
              optimizing=a_bool('optimizing'), **hv()),
         both('regenerate_grid_points_linear',
              'generate_undistorted_perspective_lines'))
    four(c, 'four-points')
    common(c)
    return c.finish(
        'Summaries of grid regeneration and of undistorted-line generation '
        'compared with the reference (crossings of line i and line j), plus '
        'the code-against-code rule horizontal[i][j] = vertical[j][i].',
        ASSUME)


def common(c):
    """hor[i][j] and ver[j][i] are one term"""
    for f, d, op in (
            ('regenerate_grid_points_linear', {}, ()),
            ('regenerate_grid_points_parabola',
             dict(perspective=FALSE, find_center=a_bool('fc')),
             both('find_cod_bailey')),
            ('generate_undistorted_perspective_lines',
             dict(equal_dist=TRUE, scale=Const('mean'), optimizing=FALSE),
             ())):
        s = c.analyse(PROC, f, dict(d, **hv()), op)
        w = c.where(PROC, f)
        if not s.ok:
            c.und('common-point', w, s.why)
            continue
        try:
            h, v = parts(s.value)
            h, v = asarr(h), asarr(v)
            tr = Arr([v.dims[1], v.dims[0], v.dims[2]],
                     lambda idx: v.get([idx[1], idx[0], idx[2]]))
            c.equal('common-point', w, reify(h), reify(tr),
                    f + ': [i][j] against [j][i]')
        except (Unknown, Limit) as e:
            c.und('common-point', w, str(e))
