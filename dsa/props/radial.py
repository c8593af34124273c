"""C13 one radial model, C14 sampling, C15 slices/chunks, C16 padding"""
from ..frame import *
from ..models import mk
from ..iomodels import cam_get, cam_frame

SP = 'spec.radial'
TR = (PROC + '.transform_coef_backward_and_forward',)


def center():
    return dict(xcenter=a_num('xcenter'), ycenter=a_num('ycenter'))


def pads():
    return [('False', FALSE), ('integer', a_int('pad', 0)),
            ('4-tuple', Tup([a_int('p%d' % k, 0) for k in range(4)])),
            ('4-list', Tup([a_int('p%d' % k, 0) for k in range(4)], True)),
            ('True', TRUE)]


def entry_points(c, coefs, which=None, padcfg=None):
    """(label, module, function, arguments) of every radial correction"""
    cen = dict(list_fact=coefs, **center())
    lines = a_lines('lines')
    out = [
        ('', POST, 'unwarp_line_forward', dict(list_lines=lines, **cen)),
        ('', POST, 'unwarp_line_backward', dict(list_lines=lines, **cen)),
        ('', POST, 'unwarp_image_backward', dict(mat=a_arr('mat', 2), **cen)),
        ('', POST, 'unwarp_image_forward', dict(mat=a_arr('mat', 2), **cen)),
        ('', POST, 'unwarp_slice_backward',
         dict(mat3D=a_arr('mat', 3), index=a_int('index'), **cen)),
        ('', POST, 'unwarp_chunk_slices_backward',
         dict(mat3D=a_arr('mat', 3), start_index=a_int('start'),
              stop_index=a_int('stop'), **cen)),
        ('', UTIL, 'find_point_to_point',
         dict(points=Tup([a_num('py'), a_num('px')]),
              output_order=a_str('output_order'), **cen)),
        ('default order', UTIL, 'find_point_to_point',
         dict(points=Tup([a_num('py'), a_num('px')]), **cen)),
    ]
    for lab, p in [('default', None)] + pads():
        if padcfg is not None and lab not in padcfg:
            continue
        for nd in (2, 3):
            for f in ('unwarp_color_image_backward',
                      'unwarp_image_backward_cv2'):
                d = dict(mat=a_arr('mat', nd), **cen)
                if p is not None:
                    d['pad'] = p
                out.append(('pad=%s, %dD' % (lab, nd), UTIL, f, d))
    return [o for o in out if which is None or o[2] in which]


def positions(t):
    """keep only the positions at which an image is read"""
    def f(a, args):
        if a.kind == 'clip':
            return args[0]
        if a.kind == 'sample':
            return mk('pos', (args[2], args[3]))
        if a.kind == 'scatter':
            return mk('scatpos', args)
        return None
    return amap(t, f)


def no_options(t):
    def f(a, args):
        if a.kind == 'sample':
            return mk('sample', args[:4] + ((),))
        return None
    return amap(t, f)


def compare(c, rule, lab, mod, f, args, view, opaque=TR, errors=False):
    a = c.analyse(mod, f, args, opaque)
    b = c.analyse(SP, f, args, opaque)
    w = c.where(mod, f)
    what = f + (' [%s]' % lab if lab else '')
    if not a.ok or not b.ok:
        return c.und(rule, w, '%s: %s' % (what, a.why or b.why))
    try:
        c.equal(rule, w, view(a.term), view(b.term), what,
                T.and_(a.pc, b.pc))
        if errors:
            c.equal(rule + '-errors', w, a.raised('ValueError'),
                    b.raised('ValueError'), what + ' errors')
    except (Limit, Unknown) as e:
        c.und(rule, w, '%s: %s' % (what, e))
    return a


def video(c, rule, view, coefs, padcfg):
    """frames of unwarp_video_cv2"""
    for lab, p in pads():
        if lab not in padcfg:
            continue
        for nd in (2, 3):
            compare_video(c, rule, view, coefs, lab, p, nd)


def compare_video(c, rule, view, coefs, lab, p, nd):
    w = c.where(UTIL, 'unwarp_video_cv2')
    cen = dict(list_fact=coefs, **center())
    cam = a_cam('cam', nd)
    a = c.analyse(UTIL, 'unwarp_video_cv2',
                  dict(cam_obj=cam, pad=p, **cen), TR)
    what = 'unwarp_video_cv2 [pad=%s, %dD]' % (lab, nd)
    if not a.ok:
        return c.und(rule, w, '%s: %s' % (what, a.why))
    shown = a.evs('imshow')
    if not shown:
        return c.und(rule, w, what + ': no displayed frame found')
    for e in shown:
        try:
            got = T.under(reify(e.data['image']), e.pc)
            b = c.analyse(SP, 'unwarp_video_frame', dict(
                frame=cam_frame('cam', nd), height=cam_get('cam', 'CAP_PROP_FRAME_HEIGHT'),
                width=cam_get('cam', 'CAP_PROP_FRAME_WIDTH'), pad=p, **cen), TR)
            c.equal(rule, w, view(T.under(got, e.pc)),
                    view(T.under(b.term, e.pc)), what, e.pc)
        except (Limit, Unknown) as x:
            c.und(rule, w, '%s: %s' % (what, x))


# ------------------------------------------------------------------- C13
def C13(tier):
    c = Ctx('C13', tier, ['radial'])
    for lab, mod, f, args in entry_points(c, a_coefs('fact')):
        compare(c, 'radial-model', lab, mod, f, args, positions)
    video(c, 'radial-model', positions, a_coefs('fact'),
          ('False', 'integer', '4-tuple'))
    return c.finish(
        'Summaries of all radial corrections (symbolic image sizes, centers, '
        'points and coefficient vectors of symbolic length) computed by '
        'abstract interpretation of the source; the position map of each '
        'must have the same canonical form as c + (sum_i k_i r^i)(p - c).',
        ASSUME)


# ------------------------------------------------------------------- C14
def C14(tier):
    c = Ctx('C14', tier, ['radial', 'calib'])
    one = a_coefs('fact', 1)
    for lab, mod, f, args in entry_points(c, one):
        if f in ('unwarp_line_forward', 'unwarp_line_backward',
                 'find_point_to_point'):
            continue
        compare(c, 'sampling', lab, mod, f, args, no_options)
    video(c, 'sampling', no_options, one, ('False', '4-tuple'))
    perspective(c)
    return c.finish(
        'Summaries of every image correction with a one-term model: the '
        'clamped (row, column) pair each output pixel is read from (or '
        'scattered to), the image it is read from and the output extents '
        'must have the canonical form of the reference.', ASSUME)


def perspective(c):
    for lab, mi in (('computed map', None), ('given map', a_any('mi'))):
        args = dict(mat=a_arr('mat', 2), list_coef=a_coefs('coef'))
        if mi is not None:
            args['map_index'] = mi
        a = c.analyse(POST, 'correct_perspective_image', args)
        b = c.analyse('spec.calib', 'correct_perspective_image', args)
        w = c.where(POST, 'correct_perspective_image')
        if not a.ok or not b.ok:
            c.und('sampling', w, lab + ': %s' % (a.why or b.why))
            continue
        c.equal('sampling', w, no_options(a.term), no_options(b.term),
                'correct_perspective_image [%s]' % lab, T.and_(a.pc, b.pc))


# ------------------------------------------------------------------- C15
def C15(tier):
    c = Ctx('C15', tier, ['radial', 'slices'])
    cen = dict(list_fact=a_coefs('fact'), **center())
    for lab, f, args in (
            ('', 'unwarp_slice_backward',
             dict(mat3D=a_arr('mat', 3), index=a_int('index'), **cen)),
            ('', 'unwarp_chunk_slices_backward',
             dict(mat3D=a_arr('mat', 3), start_index=a_int('start'),
                  stop_index=a_int('stop'), **cen)),
            ('to the end', 'unwarp_chunk_slices_backward',
             dict(mat3D=a_arr('mat', 3), start_index=a_int('start'),
                  stop_index=num_(-1), **cen))):
        a = c.analyse(POST, f, args)
        b = c.analyse('spec.slices', f, args)
        w = c.where(POST, f)
        what = f + (' [%s]' % lab if lab else '')
        if not a.ok or not b.ok:
            c.und('rows-of-full-frame', w, '%s: %s' % (what,
                                                       a.why or b.why))
            continue
        c.equal('rows-of-full-frame', w, a.term, b.term,
                what + ' = rows of unwarp_image_backward',
                T.and_(a.pc, b.pc))
        if 'chunk' in f:
            c.equal('range', w, a.raised('ValueError'),
                    b.raised('ValueError'), what + ' rejected ranges')
        for e in a.evs('sample'):
            window(c, w, what, e, a)
    return c.finish(
        'The summaries of slice and chunk correction are compared with the '
        'summary of the full-frame correction restricted to the requested '
        'rows (same code base, both from source); for every resampling call '
        'that reads a band of rows, the band must reach from at most the '
        'floor of the smallest to at least the ceiling of the largest row '
        'position.', ASSUME + [
            'The model is monotone in the row (no folding), so that the '
            'extreme rows of a chunk are reached at its first and last row.'])


def window(c, where, what, e, summ):
    win = e.data['window']
    if win is None:
        return c.ok('row-window', where, what + ': whole image')
    lo, hi = win[0].items
    y = e.data['y']
    xlo, xhi = win[1].items
    try:
        # positions in the frame of the stack
        oy = e.data['oy']
        if isinstance(y, Scalar):
            ps, dims, body = [], [], y
        else:
            ps = [fresh('w') for _ in y.dims]
            dims, body = y.dims, y.get(ps)
        body = T.add(body, oy)
        h, wd = e.data['dims']
        below = T.cmp_lt(T.floor_(body), lo)
        need = T.mk_min(T.add(T.ceil_(body), num_(1)), h)
        above = T.cmp_lt(hi, need)
        out = T.or_(below, above)
        l = lam(ps, dims, out)
        bad = T.pred_(T.atom('exists', (l,), boolean=True)) \
            if ps else T.as_bool(out)
    except (Limit, Unknown) as x:
        return c.und('row-window', where, '%s: %s' % (what, x))
    pc = T.and_(e.pc, summ.pc)
    u = undecided(bad)
    if u:
        return c.und('row-window', where, '%s: %s' % (what, u))
    r = rinterp.refute_window(bad, pc)
    if r is None:
        c.und('row-window', where, what + ': no admissible interpretation')
    elif r:
        c.ok('row-window', where, what + ': band covers all sampled rows')
    else:
        c.bad('row-window', where, '%s: rows %s .. %s do not cover the rows '
              'needed' % (what, short(lo, 120), short(hi, 120)))
    for nm, x, ref in (('first', xlo, num_(0)), ('last', xhi, wd)):
        if x == ref:
            c.ok('column-window', where, what)
        elif not undecided(x):
            r = rinterp.compare(x, ref, pc)
            if r is False:
                c.bad('column-window', where, '%s: columns %s' % (what,
                                                                 short(x)))
            else:
                c.ok('column-window', where, what)


# ------------------------------------------------------------------- C16
def pad_sizes(c, lab, mod, f, args):
    a = c.analyse(mod, f, args, TR)
    b = c.analyse(SP, f, args, TR)
    w = c.where(mod, f)
    what = '%s [%s] size with automatic padding' % (f, lab)
    if not (a.ok and b.ok and isinstance(a.value, Arr) and
            isinstance(b.value, Arr) and
            len(a.value.dims) == len(b.value.dims)):
        return c.und('auto-pad-size', w, '%s: %s' % (what, a.why or b.why))
    pc = T.and_(a.pc, b.pc)
    for k, (x, y) in enumerate(zip(a.value.dims, b.value.dims)):
        c.equal('auto-pad-size', w, T.under(x, pc), T.under(y, pc),
                '%s, axis %d' % (what, k), pc, dict(tries=400, want=300))


def C16(tier):
    c = Ctx('C16', tier, ['radial'])
    one = a_coefs('fact', 2)
    for lab, mod, f, args in entry_points(
            c, one, ('unwarp_color_image_backward',
                     'unwarp_image_backward_cv2')):
        args['pad_mode'] = a_str('pad_mode')
        compare(c, 'padding', lab, mod, f, args, no_options, errors=True)
        if lab.startswith('pad=True'):
            pad_sizes(c, lab, mod, f, args)
    video(c, 'padding', no_options, one,
          ('False', 'integer', '4-tuple', '4-list', 'True'))
    for lab, p in (('3-tuple', Tup([a_int('p%d' % k, 0) for k in range(3)])),
                   ('5-list', Tup([a_int('p%d' % k, 0) for k in range(5)],
                                  True)),
                   ('string', Const('edge')), ('float', num_(Fraction(5, 2)))):
        for f in ('unwarp_color_image_backward', 'unwarp_image_backward_cv2'):
            w = c.where(UTIL, f)
            a = c.analyse(UTIL, f, dict(mat=a_arr('mat', 2), pad=p,
                                        list_fact=one, **center()), TR)
            if not a.ok:
                c.und('malformed-padding', w, '%s: %s' % (lab, a.why))
                continue
            if undecided(a.pc):
                c.und('malformed-padding', w, lab)
                continue
            c.expect(a.pc == FALSE, 'malformed-padding', w,
                     'pad given as %s must be rejected' % lab)
    return c.finish(
        'Summaries of the padding image corrections for every form of the '
        'pad argument (absent, False, True, integer, 4 values, malformed) '
        'and 2D/3D images: pad widths per side, shifted center, padded '
        'extents and automatic pad widths must have the canonical form of '
        'the reference.', ASSUME)


ASSUME = ['Library semantics of numpy/scipy/OpenCV calls as modelled in '
          'dsa/models.py and dsa/iomodels.py (real arithmetic, no rounding).',
          'Obligations listed as undecided are not claimed.']
