"""Shapes of results the analysis does not look into: public functions of the
project kept opaque (compositional checking) and external library calls.
Every element of such a result stays an uninterpreted atom over the call's
arguments; only its extents are described here."""
from .terms import *
from .values import *


def mk_(kind, args, **kw):
    return of_atom(atom(kind, tuple(args), **kw))


def item(t, k):
    return mk_('item', (t, num_(k) if isinstance(k, int) else k))


def rdim(t, k):
    return mk_('rdim', (t, num_(k)), integer=True, lb=0)


def arr(t, *dims):
    ds = [num_(d) if isinstance(d, int) else (rdim(t, k) if d is None else d)
          for k, d in enumerate(dims)]
    return Arr(ds, lambda idx: mk_('rel', (t,) + tuple(idx)))


def lines(t):
    i = fresh('l')
    n = mk_('len', (t,), integer=True, lb=0)
    return Lst([Map(i, n, [One(arr(item(t, i), None, 2))])])


def like(v, t):
    if isinstance(v, Arr) and v.gen is None:
        return arr(t, *v.dims)
    return None


def pair(f):
    return lambda m, t, a: Tup([f(item(t, 0)), f(item(t, 1))])


def vec(t):
    return arr(t, None)


def _like(nm):
    return lambda m, t, a: like(a[nm], t)


def _tilted(m, t, a):
    return Tup([vec(item(t, k)) for k in range(3)])


def _mask(m, t, a):
    return arr(t, a['height'], a['width'])


def _circle(m, t, a):
    return arr(t, a['width'], a['width'])


def _grids(m, t, a):
    n = [m.length_of(a['list_hor_lines']), m.length_of(a['list_ver_lines'])]
    return Tup([arr(item(t, 0), n[0], n[1], 2),
                arr(item(t, 1), n[1], n[0], 2)])


def _lines(m, t, a):
    return lines(t)


def _num(t):
    return t


def _vec(m, t, a):
    return vec(t)


PROJECT = {
    'find_cod_coarse': pair(_num), 'find_cod_fine': pair(_num),
    'find_cod_bailey': pair(_num),
    'find_center_based_vanishing_points': pair(_num),
    'find_center_based_vanishing_points_iteration': pair(_num),
    'find_point_to_point': pair(_num),
    'calc_coef_backward': _vec, 'calc_coef_forward': _vec,
    'calc_coef_backward_from_forward': pair(vec),
    'transform_coef_backward_and_forward':
        lambda m, t, a: arr(t, m.length_of(a['list_fact'])),
    'regenerate_grid_points_parabola': _grids,
    'regenerate_grid_points_linear': _grids,
    'generate_undistorted_perspective_lines': _grids,
    'generate_source_target_perspective_points':
        pair(lambda t: arr(t, None, 2)),
    'generate_4_source_target_perspective_points':
        pair(lambda t: arr(t, 4, 2)),
    'calc_perspective_coefficients': lambda m, t, a: arr(t, 8),
    'update_center': _lines, 'correct_perspective_line': _lines,
    'unwarp_line_forward': _lines, 'unwarp_line_backward': _lines,
    'correct_perspective_effect': pair(lines),
    'get_local_extrema_points': _vec, 'select_good_peaks': _vec,
    'sliding_window_slope': _like('list_data'),
    'normalization': _like('mat'), 'normalization_fft': _like('mat'),
    'convert_chessboard_to_linepattern': _like('mat'),
    'binarization': _like('mat'),
    'get_tilted_profile': _tilted,
    'group_dots_hor_lines': _lines, 'group_dots_ver_lines': _lines,
    'make_parabola_mask': _mask, 'make_circle_mask': _circle,
    'calc_residual_hor': lambda m, t, a: arr(t, None, 2),
    'calc_residual_ver': lambda m, t, a: arr(t, None, 2),
}


# ------------------------------------------------------------ external calls
def _first(args, kw, *names):
    if args:
        return args[0]
    for n in names:
        if n in kw:
            return kw[n]
    return None


def _label(m, t, a, k):
    v = _first(a, k, 'input')
    x = like(v, item(t, 0))
    n = mk_('item', (t, num_(1)), integer=True, lb=0)
    return None if x is None else Tup([x, n])


def label_count(v, a, k):
    """number of objects when v is the label image made by ndimage.label"""
    if len(a) > 1 or 'max_label' in k or not isinstance(v, Arr) or \
            v.gen is not None:
        return None
    ix = [fresh('q') for _ in v.dims]
    e = the_atom(v.get(ix))
    if e is None or e.kind != 'rel' or \
            [x.fp for x in e.args[1:]] != [x.fp for x in ix]:
        return None
    it = the_atom(e.args[0])
    if it is None or it.kind != 'item' or it.args[1].fp != num_(0).fp:
        return None
    lab = the_atom(it.args[0])
    if lab is None or lab.kind != 'x:scipy.ndimage.label':
        return None
    return mk_('item', (it.args[0], num_(1)), integer=True, lb=0)


def _index_len(m, a, k):
    v = k.get('index', a[2] if len(a) > 2 else None)
    if isinstance(v, (Tup, Lst)):
        v = asarr(v)
    return v.dims[0] if isinstance(v, Arr) and v.gen is None else None


def _com(m, t, a, k):
    n = _index_len(m, a, k)
    return None if n is None else arr(t, n, 2)


def _lsum(m, t, a, k):
    n = _index_len(m, a, k)
    return None if n is None else arr(t, n)


def _objects(m, t, a, k):
    i = fresh('o')
    n = label_count(_first(a, k, 'input'), a, k)
    if n is None:
        n = mk_('len', (t,), integer=True, lb=0)
    it = item(t, i)
    sl = []
    for ax in range(2):
        lo = mk_('objlo', (it, num_(ax)), integer=True, lb=0)
        ln = mk_('objlen', (it, num_(ax)), integer=True, lb=1)
        sl.append(SliceV(lo, add(lo, ln), NONE))
    return Lst([Map(i, n, [One(Tup(sl))])])


def _radon(m, t, a, k):
    th = k.get('theta', a[1] if len(a) > 1 else None)
    return arr(t, None, th.dims[0]) if isinstance(th, Arr) else \
        arr(t, None, None)


def _zoom(m, t, a, k):
    v = _first(a, k, 'input')
    return arr(t, *([None] * v.ndim)) if isinstance(v, Arr) else None


def _rotate(m, t, a, k):
    v = _first(a, k, 'input')
    return like(v, t) if k.get('reshape') == FALSE else None


def _gradient(m, t, a, k):
    v = _first(a, k, 'f')
    if not isinstance(v, Arr) or len(a) != 1:
        return None
    if v.ndim == 1:
        return like(v, t)
    return Tup([like(v, item(t, j)) for j in range(v.ndim)], True)


def _curve_fit(m, t, a, k):
    p0 = k.get('p0', a[3] if len(a) > 3 else None)
    n = len(p0.items) if isinstance(p0, Tup) else None
    return Tup([arr(item(t, 0), n), arr(item(t, 1), n, n)])


EXTERNAL = {
    'scipy.ndimage.label': _label,
    'scipy.ndimage.center_of_mass': _com,
    'scipy.ndimage.sum': _lsum, 'scipy.ndimage.sum_labels': _lsum,
    'scipy.ndimage.find_objects': _objects,
    'skimage.transform.radon': _radon,
    'scipy.ndimage.zoom': _zoom, 'scipy.ndimage.rotate': _rotate,
    'numpy.gradient': _gradient,
    'scipy.optimize.curve_fit': _curve_fit,
}
