"""C11 rejected inputs, C24 profiles, C25 background, C27 test patterns and
the criteria of C23"""
from ..frame import *
from ..models import mk

ASSUME = ['Library semantics of numpy/scipy/scikit-image calls as modelled in '
          'dsa/models.py (real arithmetic, no rounding); filters, FFT, '
          'labelling, region properties and polynomial fits are '
          'uninterpreted functions of their arguments.',
          'Obligations listed as undecided are not claimed.']
SP = 'spec.pattern'
SEL = 'spec.select'
ERR = 'spec.errors'
OP24 = (PREP + '.normalization_fft', LINE + '.sliding_window_slope',
        LINE + '.get_local_extrema_points')


def same(c, rule, spec, mod, f, args, opaque=(), lab='', errors=False,
         view=None, opts=None):
    a = c.analyse(mod, f, args, opaque)
    b = c.analyse(spec, f, args, opaque)
    w = c.where(mod, f)
    what = f + (' [%s]' % lab if lab else '')
    if not a.ok or not b.ok:
        return c.und(rule, w, '%s: %s' % (what, a.why or b.why))
    view = view or (lambda t: t)
    try:
        c.equal(rule, w, view(a.term), view(b.term), what,
                T.and_(a.pc, b.pc), opts)
        if errors:
            c.equal(rule + '-errors', w, a.raised('ValueError'),
                    b.raised('ValueError'), what + ' errors')
    except (Limit, Unknown) as e:
        c.und(rule, w, '%s: %s' % (what, e))
    return a


def n_points(name):
    return a_arr(name, 2, [dim(name, 0, 0), num_(2)])


def cross(ax, full=True):
    d = {'mat': a_arr('mat', 2), 'slope_' + ax: a_num('slope'),
         'dist_' + ax: a_num('dist')}
    if full:
        d.update(ratio=a_num('ratio'), norm=a_bool('norm'),
                 offset=a_num('offset'), bgr=a_str('bgr'),
                 radius=a_int('radius', 1), sensitive=a_num('sensitive'),
                 denoise=a_bool('denoise'), subpixel=a_bool('subpixel'),
                 chessboard=a_bool('chessboard'),
                 select_peaks=a_bool('select_peaks'))
    return d


# ------------------------------------------------------------------- C24
def C24(tier):
    c = Ctx('C24', tier, ['pattern'])
    for d in ('horizontal', 'vertical'):
        same(c, 'profile', SP, LINE, 'get_tilted_profile',
             dict(mat=a_arr('mat', 2), index=a_num('index'),
                  angle_deg=a_num('angle'), direction=Const(d)), lab=d,
             errors=True)
        profile_window(c, d)
    for lab, ch in (('', FALSE), ('chessboard', TRUE)):
        for f, ax in (('get_cross_points_hor_lines', 'ver'),
                      ('get_cross_points_ver_lines', 'hor')):
            d = cross(ax)
            d['chessboard'] = ch
            same(c, 'cross-points', SP, LINE, f, d, OP24, lab=lab)
    return c.finish(
        'Summaries of the tilted profile and of the cross-point search for '
        'every image size, index, angle and option: sampled positions, '
        'returned positions, band of the image that is read, and the '
        'positions derived from detected distances must have the canonical '
        'form of the reference geometry.', ASSUME)


def profile_window(c, d):
    from .radial import window
    args = dict(mat=a_arr('mat', 2), index=a_num('index'),
                angle_deg=a_num('angle'), direction=Const(d))
    a = c.analyse(LINE, 'get_tilted_profile', args)
    w = c.where(LINE, 'get_tilted_profile')
    if not a.ok:
        return c.und('band', w, a.why)
    for e in a.evs('sample'):
        band(c, w, 'get_tilted_profile [%s]' % d, e, a)


def band(c, where, what, e, summ):
    from .. import rinterp
    win = e.data['window']
    if win is None:
        return c.ok('band', where, what + ': whole image')
    for ax, (k, off, n) in enumerate((('y', 'oy', 0), ('x', 'ox', 1))):
        lo, hi = win[ax].items
        size = e.data['dims'][ax]
        if lo == num_(0) and hi == size:
            c.ok('band', where, '%s: all of axis %d' % (what, ax))
            continue
        p = e.data[k]
        try:
            ps = [fresh('w') for _ in p.dims]
            body = T.add(p.get(ps), e.data[off])
            need = T.mk_min(T.add(T.ceil_(body), num_(1)), size)
            out = T.or_(T.cmp_lt(T.floor_(body), lo), T.cmp_lt(hi, need))
            bad = T.pred_(T.atom('exists', (lam(ps, p.dims, out),),
                                 boolean=True))
        except (Limit, Unknown, KeyError) as x:
            c.und('band', where, '%s: %s' % (what, x))
            continue
        if undecided(bad):
            c.und('band', where, what)
            continue
        r = rinterp.refute_window(bad, T.and_(e.pc, summ.pc))
        if r is None:
            c.und('band', where, what + ': no admissible interpretation')
        elif r:
            c.ok('band', where, '%s: axis %d covers all sampled positions' %
                 (what, ax))
        else:
            c.bad('band', where, '%s: %s .. %s does not cover the sampled '
                  'positions' % (what, short(lo, 120), short(hi, 120)))


# ------------------------------------------------------------------- C25
def C25(tier):
    c = Ctx('C25', tier, ['pattern'])
    mat = a_arr('mat', 2)
    opts = dict(coin=True, defined=True)
    same(c, 'background', SP, PREP, 'normalization',
         dict(mat=mat, size=a_int('size', 1)), opts=opts)
    same(c, 'background', SP, PREP, 'normalization', dict(mat=mat),
         lab='default', opts=opts)
    same(c, 'background', SP, PREP, 'normalization_fft',
         dict(mat=mat, sigma=a_num('sigma'), pad=a_int('pad', 0),
              mode=a_str('mode')), opts=opts)
    return c.finish(
        'Summaries of both background corrections for every image size and '
        'option: corrected value, zero replacement, mean, FFT window and '
        'cropping must have the canonical form of the reference.', ASSUME)


# ------------------------------------------------------------------- C27
def margins():
    return [('one margin', a_int('margin', 0)),
            ('tuple', Tup([a_int('mv', 0), a_int('mh', 0)])),
            ('list', Tup([a_int('mv', 0), a_int('mh', 0)], True))]


RANGES = {'height': (8, 34), 'width': (8, 34), 'dist': (1, 9),
          'size': (1, 6), 'margin': (0, 4), 'mv': (0, 4), 'mh': (0, 4)}


def C27(tier):
    c = Ctx('C27', tier, ['pattern'])
    size = dict(height=a_int('height', 8), width=a_int('width', 8))
    opts = dict(ranges=RANGES)
    same(c, 'pattern', SP, UTIL, 'make_circle_mask',
         dict(width=a_int('width', 1), ratio=a_num('ratio')))
    for lab, m in margins():
        same(c, 'pattern', SP, UTIL, 'make_dot_pattern',
             dict(dot_distance=a_int('dist', 1), dot_size=a_int('size', 1),
                  margin=m, **size), lab=lab, opts=opts)
        same(c, 'pattern', SP, UTIL, 'make_line_pattern',
             dict(line_distance=a_int('dist', 1), line_size=a_int('size', 1),
                  margin=m, **size), lab=lab, opts=opts)
    same(c, 'pattern', SP, UTIL, 'make_chessboard',
         dict(size=a_int('size', 1), margin=a_int('margin', 0),
              margin_grayscale=a_num('gray'), **size), opts=opts)
    return c.finish(
        'Summaries of the generated images for every size, period, feature '
        'size and margin: extents and the value of every pixel must have '
        'the canonical form of the reference pattern.', ASSUME)


# ------------------------------------------------------------------- C11
def mask_args(h, v):
    return dict(height=a_int('height', 1), width=a_int('width', 1),
                hor_curviness=a_num('hc'), ver_curviness=a_num('vc'),
                rotate=a_num('rotate'), hor_margin=h, ver_margin=v)


def rejected(c, mod, f, args, opaque=(), lab=''):
    rule = 'rejected-inputs'
    a = c.analyse(mod, f, args, opaque)
    b = c.analyse(ERR, f, args, opaque)
    w = c.where(mod, f)
    what = 'ValueError of %s%s' % (f, ' [%s]' % lab if lab else '')
    if not b.ok:
        return c.und(rule, w, '%s: %s' % (what, b.why))
    if not a.ok and a.why == 'time limit':
        return c.und(rule, w, '%s: %s' % (what, a.why))
    got, want = a.raised('ValueError'), b.raised('ValueError')
    if not a.ok:
        u = undecided(got)
        if u or not T_eq(got, want):
            return c.und(rule, w, '%s: %s' % (what, a.why))
    try:
        if c.equal(rule, w, got, want, what):
            if not T_eq(got, want):
                for ds in ((0, 2), (5, 12)):
                    c.equal(rule, w, got, want, '%s (sizes %d to %d)' % (
                        what, ds[0], ds[1]), None,
                        dict(dims=ds, tries=200, want=60))
    except (Limit, Unknown) as e:
        c.und(rule, w, '%s: %s' % (what, e))


def T_eq(a, b):
    from ..frame import _eq
    return _eq(a, b)


def C11(tier):
    c = Ctx('C11', tier, ['pattern', 'select', 'calib', 'errors'])
    cen = dict(xcenter=a_num('xcenter'), ycenter=a_num('ycenter'))
    for nd in (2, 3):
        rejected(c, POST, 'unwarp_slice_backward',
                 dict(mat3D=a_arr('mat', nd), list_fact=a_coefs('fact'),
                      index=a_int('index'), **cen), lab='%dD' % nd)
        rejected(c, POST, 'unwarp_chunk_slices_backward',
                 dict(mat3D=a_arr('mat', nd), list_fact=a_coefs('fact'),
                      start_index=a_int('start'), stop_index=a_int('stop'),
                      **cen), lab='%dD' % nd)
    coef = a_arr('coef', 1, [dim('coef', 0, 0)])
    rejected(c, POST, 'correct_perspective_line',
             dict(list_lines=a_lines('lines'), list_coef=coef))
    rejected(c, POST, 'correct_perspective_image',
             dict(mat=a_arr('mat', 2), list_coef=coef))
    rejected(c, POST, 'correct_perspective_image',
             dict(mat=a_arr('mat', 2), list_coef=coef,
                  map_index=a_any('mi')), lab='given map')
    rejected(c, PROC, 'transform_coef_backward_and_forward',
             dict(list_fact=a_coefs('fact'), mapping=a_str('mapping'),
                  ref_points=n_points('ref')))
    rejected(c, PROC, 'transform_coef_backward_and_forward',
             dict(list_fact=a_coefs('fact')), lab='default points')
    rejected(c, PROC, 'generate_4_source_target_perspective_points',
             dict(points=n_points('pts')))
    for m in ('mean', 'median', 'max', 'min'):
        rejected(c, PROC, 'correct_perspective_effect',
                 dict(list_hor_lines=a_lines('hor'),
                      list_ver_lines=a_lines('ver'), method=Const(m), **cen),
                 (PROC + '.generate_4_source_target_perspective_points',
                  PROC + '.calc_perspective_coefficients',
                  POST + '.correct_perspective_line'), lab='method=' + m)
    for k in ('hor', 'ver'):
        rejected(c, PREP, 'group_dots_%s_lines' % k,
                 dict(mat=n_points('points'), slope=a_num('slope'),
                      dot_dist=a_num('dist')),
                 (PREP + '._check_dot_on_line',))
        rejected(c, PREP, 'group_dots_%s_lines_based_polyfit' % k,
                 dict(points=n_points('points'), slope=a_num('slope'),
                      line_dist=a_num('dist')),
                 (PREP + '.group_dots_%s_lines' % k,))
        rejected(c, PREP, 'remove_residual_dots_' + k,
                 dict(list_lines=a_lines('lines'), slope=a_num('slope'),
                      residual=a_num('residual')))
    one = mask_args(a_int('hm'), a_int('vm'))
    two = mask_args(Tup([a_int('left'), a_int('right')]),
                    Tup([a_int('top'), a_int('bottom')], True))
    for lab, m in (('one margin', one), ('margin pairs', two)):
        rejected(c, PREP, 'make_parabola_mask', m, lab=lab)
        rejected(c, PREP, 'remove_points_using_parabola_mask',
                 dict(points=a_points('points'), **m), lab=lab)
    rejected(c, PREP, 'get_points_dot_pattern',
             dict(mat=a_arr('mat', 2), binarize=a_bool('binarize')),
             (PREP + '.binarization',))
    rejected(c, LINE, 'sliding_window_slope',
             dict(list_data=a_arr('data', 1, [dim('data', 0, 0)]),
                  size=a_int('size', 1)))
    for nd in (1, 2, 3):
        for d in ('horizontal', 'vertical'):
            rejected(c, LINE, 'get_tilted_profile',
                     dict(mat=a_arr('mat', nd), index=a_num('index'),
                          angle_deg=a_num('angle'), direction=Const(d)),
                     lab='%dD, %s' % (nd, d))
    for ax, f in (('ver', 'get_cross_points_hor_lines'),
                  ('hor', 'get_cross_points_ver_lines')):
        rejected(c, LINE, f, cross(ax, False), OP24 + (
            LINE + '.get_tilted_profile',))
    for lab, m in margins():
        rejected(c, UTIL, 'make_dot_pattern',
                 dict(height=a_int('height', 8), width=a_int('width', 8),
                      dot_distance=a_int('dist', 1),
                      dot_size=a_int('size', 1), margin=m), lab=lab)
    padding(c, cen)
    return c.finish(
        'For every guarded input: the condition under which the function '
        'raises ValueError, collected over all paths of the source for '
        'symbolic sizes and values, must have the canonical form of the '
        'stated condition (neither weaker nor stronger).', ASSUME)


def padding(c, cen):
    from .radial import TR, pads
    rule = 'malformed-padding'
    one = a_coefs('fact', 1)
    for f in ('unwarp_color_image_backward', 'unwarp_image_backward_cv2'):
        w = c.where(UTIL, f)
        for lab, p in (
                ('3-tuple', Tup([a_int('p%d' % k, 0) for k in range(3)])),
                ('5-list', Tup([a_int('p%d' % k, 0) for k in range(5)],
                               True)),
                ('empty tuple', Tup([])),
                ('string', Const('edge')), ('None', NONE),
                ('float', num_(Fraction(5, 2)))):
            a = c.analyse(UTIL, f, dict(mat=a_arr('mat', 2), pad=p,
                                        list_fact=one, **cen), TR)
            if not a.ok or undecided(a.pc):
                c.und(rule, w, '%s: %s' % (lab, a.why))
            else:
                c.expect(a.pc == FALSE and
                         a.raised('ValueError') == TRUE, rule, w,
                         'pad given as %s must raise ValueError' % lab)
        for lab, p in pads():
            a = c.analyse(UTIL, f, dict(mat=a_arr('mat', 2), pad=p,
                                        list_fact=one, **cen), TR)
            if not a.ok or undecided(a.raised('ValueError')):
                c.und(rule, w, '%s: %s' % (lab, a.why))
            else:
                c.expect(a.raised('ValueError') == FALSE, rule, w,
                         'pad given as %s must be accepted' % lab)
