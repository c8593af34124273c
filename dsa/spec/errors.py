"""reference conditions under which ValueError is due (never executed)"""
import numpy as np
from spec import pattern
from spec import select
from spec import calib


def unwarp_slice_backward(mat3D, xcenter, ycenter, list_fact, index):
    if len(mat3D.shape) < 3:
        raise ValueError("3D")


def unwarp_chunk_slices_backward(mat3D, xcenter, ycenter, list_fact,
                                 start_index, stop_index):
    if len(mat3D.shape) < 3:
        raise ValueError("3D")
    height = mat3D.shape[1]
    last = height - 1 if stop_index == -1 else stop_index
    if start_index < 0 or start_index >= height or last < 0 or \
            last >= height:
        raise ValueError("range")


def correct_perspective_line(list_lines, list_coef):
    if len(list_coef) != 8:
        raise ValueError("coefficients")


def correct_perspective_image(mat, list_coef, order=1, mode="reflect",
                              map_index=None):
    if len(list_coef) != 8:
        raise ValueError("coefficients")


def transform_coef_backward_and_forward(list_fact, mapping="backward",
                                        ref_points=None):
    if ref_points is not None and len(ref_points) < len(list_fact):
        raise ValueError("reference points")


def generate_4_source_target_perspective_points(points, input_order="yx",
                                                equal_dist=False,
                                                scale="mean"):
    if len(points) != 4:
        raise ValueError("points")


def correct_perspective_effect(list_hor_lines, list_ver_lines, xcenter,
                               ycenter, method="mean", scale="mean"):
    for lines, dep in ((list_hor_lines, 0), (list_ver_lines, 1)):
        if len(lines) < 2:
            raise ValueError("lines")
    for lines, dep, cen in ((list_hor_lines, 0, (ycenter, xcenter)),
                            (list_ver_lines, 1, (xcenter, ycenter))):
        bends = [np.polyfit(ln[:, 1 - dep] - cen[1], ln[:, dep] - cen[0],
                            2)[0] for ln in lines]
        if not any([b > 0 for b in bends]):
            raise ValueError("curves")
        if not any([b < 0 for b in bends]):
            raise ValueError("curves")


def nothing(points):
    if len(points) == 0:
        raise ValueError("empty")


def group_dots_hor_lines(mat, slope, dot_dist, ratio=0.3, num_dot_miss=6,
                         accepted_ratio=0.65):
    nothing(mat)


def group_dots_ver_lines(mat, slope, dot_dist, ratio=0.3, num_dot_miss=6,
                         accepted_ratio=0.65):
    nothing(mat)


def group_dots_hor_lines_based_polyfit(points, slope, line_dist, ratio=0.1,
                                       num_dot_miss=3, accepted_ratio=0.65,
                                       overlap_ratio=0.5, order=2):
    nothing(points)


def group_dots_ver_lines_based_polyfit(points, slope, line_dist, ratio=0.1,
                                       num_dot_miss=3, accepted_ratio=0.65,
                                       overlap_ratio=0.5, order=2):
    nothing(points)


def sliding_window_slope(list_data, size=3, norm=True):
    if len(list_data) < 3:
        raise ValueError("size")


def get_cross_points_hor_lines(mat, slope_ver, dist_ver, **options):
    height, width = mat.shape
    pattern.index_range(height, width, np.rad2deg(np.arctan(slope_ver)),
                        "vertical")


def get_cross_points_ver_lines(mat, slope_hor, dist_hor, **options):
    height, width = mat.shape
    pattern.index_range(height, width, -np.rad2deg(np.arctan(slope_hor)),
                        "horizontal")


remove_residual_dots_hor = select.remove_residual_dots_hor
remove_residual_dots_ver = select.remove_residual_dots_ver
make_parabola_mask = select.make_parabola_mask
remove_points_using_parabola_mask = select.remove_points_using_parabola_mask
get_points_dot_pattern = select.get_points_dot_pattern
make_dot_pattern = pattern.make_dot_pattern
get_tilted_profile = pattern.get_tilted_profile
