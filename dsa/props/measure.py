"""C28 measurements on dots and lines"""
from ..frame import *
from .pattern import same, ASSUME

MS = 'spec.measure'


def C28(tier):
    c = Ctx('C28', tier, ['measure'])
    r = 'measurement'
    img = dict(mat=a_arr('mat', 2), ratio=a_num('ratio'))
    for lab, t in (('threshold given', a_num('thres')), ('Otsu', NONE)):
        same(c, r, MS, PREP, 'binarization',
             dict(img, thres=t, denoise=a_bool('denoise')), lab=lab)
    same(c, r, MS, PREP, 'check_num_dots', dict(mat=a_arr('mat', 2)))
    part = dict(ratio=(Fraction(9, 10), Fraction(1)))
    same(c, r, MS, PREP, 'calc_size_distance', img)
    for f in ('calc_hor_slope', 'calc_ver_slope'):
        same(c, r, MS, PREP, f, img, opts=(
            {}, dict(dims=(100, 300), ranges=part)))
    same(c, r, MS, PREP, 'calculate_threshold',
         dict(mat=a_arr('mat', 2), bgr=a_str('bgr'), snr=a_num('snr')))
    data = a_arr('data', 1)
    same(c, r, MS, LINE, 'locate_subpixel_point',
         dict(list_point=data, option=a_str('option')))
    same(c, r, MS, LINE, 'sliding_window_slope',
         dict(list_data=data, size=a_num('size'), norm=a_bool('norm')),
         errors=True)
    same(c, r, MS, LINE, 'convert_chessboard_to_linepattern',
         dict(mat=a_arr('mat', 2), smooth=a_bool('smooth'),
              bgr=a_str('bgr'), sigma=a_num('sigma')))
    op = (LINE + '.get_local_extrema_points',
          LINE + '.convert_chessboard_to_linepattern')
    for f in ('calc_slope_distance_hor_lines',
              'calc_slope_distance_ver_lines'):
        for ch in (FALSE, TRUE):
            same(c, r, MS, LINE, f, dict(
                mat=a_arr('mat', 2), ratio=a_num('ratio'),
                search_range=a_num('range'), radius=a_int('radius', 1),
                sensitive=a_num('sensitive'), bgr=a_str('bgr'),
                denoise=a_bool('denoise'), norm=a_bool('norm'),
                subpixel=a_bool('subpixel'), chessboard=ch,
                select_peaks=a_bool('select_peaks')), op,
                lab='chessboard' if ch == TRUE else '')
    op = (LINE + '.locate_subpixel_point', LINE + '.select_good_peaks')
    same(c, r, MS, LINE, 'get_local_extrema_points', dict(
        list_data=data, option=a_str('option'), radius=a_int('radius', 1),
        sensitive=a_num('sensitive'), denoise=a_bool('denoise'), norm=FALSE,
        subpixel=a_bool('subpixel'), select_peaks=a_bool('select_peaks')), op,
         opts=dict(dims=(5, 13), ranges=dict(sensitive=(
             Fraction(0), Fraction(1)))))
    same(c, r, MS, LINE, 'select_good_peaks', dict(
        list_data=data, peaks=a_arr('peaks', 1), tol=a_num('tol'),
        radius=a_int('radius', 1), sigma=a_num('sigma'),
        use_offset=a_bool('use_offset')), (LINE + '._get_gauss_peak_fit',))
    return c.finish(
        'Summaries of the measuring functions for images and profiles of any '
        'size and every option must have the canonical form of the reference '
        'definition.', ASSUME)
