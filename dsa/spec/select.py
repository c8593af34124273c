"""reference meaning of dot and point selection (never executed)"""
import numpy as np
from scipy import ndimage as ndi
import skimage.measure as meas
import discorpy.prep.preprocessing as prep


def kept(mat, objects, keep):
    out = np.zeros_like(mat)
    for n, box in enumerate(objects):
        if keep[n]:
            out[box] = mat[box]
    return out


def select_dots_based_size(mat, dot_size, ratio=0.3):
    low = max(dot_size - ratio * dot_size, 0)
    high = dot_size + ratio * dot_size
    label, _ = ndi.label(np.int16(mat))
    out = np.zeros_like(mat, dtype=np.int16)
    for box in ndi.find_objects(label):
        s = np.sum(mat[box])
        if low <= s <= high:
            out[box] = mat[box]
    return out


def round_enough(mat, ratio):
    height, width = mat.shape
    if height < 2 or width < 2:
        return False
    p = meas.regionprops(mat)[0]
    return np.abs(p.major_axis_length / p.minor_axis_length - 1.0) < ratio


def select_dots_based_ratio(mat, ratio=0.3):
    mat = np.int16(mat)
    label, _ = ndi.label(mat)
    out = np.zeros_like(mat)
    for box in ndi.find_objects(label):
        if round_enough(mat[box], ratio):
            out[box] = mat[box]
    return out


def select_dots_based_distance(mat, dot_dist, ratio=0.3):
    mat = np.int16(mat)
    label, num = ndi.label(mat)
    cent = np.asarray(ndi.center_of_mass(mat, labels=label,
                                         index=np.arange(1, num + 1)))
    out = np.zeros_like(mat)
    for n, box in enumerate(ndi.find_objects(label)):
        y, x = cent[n]
        dist = np.sort(np.sqrt((y - cent[:, 0]) ** 2 +
                               (x - cent[:, 1]) ** 2))[1:4]
        err = (dist - (dist // dot_dist) * dot_dist) / dot_dist
        if np.any(err < ratio):
            out[box] = mat[box]
    return out


def remove_residual_dots_hor(list_lines, slope, residual=2.5):
    out = []
    for line in list_lines:
        y, x = line[:, 0], line[:, 1]
        a, b, c = np.polyfit(x, y, 2)
        err = np.abs((a * x ** 2 + b * x + c - y) * np.cos(np.arctan(slope)))
        left = line[err < residual]
        if len(left) > 0:
            out.append(left)
    if len(out) == 0:
        raise ValueError("empty")
    return out


def remove_residual_dots_ver(list_lines, slope, residual=2.5):
    out = []
    for line in list_lines:
        y, x = line[:, 0], line[:, 1]
        a, b, c = np.polyfit(y, x, 2)
        err = np.abs((a * y ** 2 + b * y + c - x) * np.cos(np.arctan(slope)))
        left = line[err < residual]
        if len(left) > 0:
            out.append(left)
    if len(out) == 0:
        raise ValueError("empty")
    return out


def both(m):
    if isinstance(m, (tuple, list)):
        return m[0], m[-1]
    return m, m


def make_parabola_mask(height, width, hor_curviness=0.3, ver_curviness=0.3,
                       hor_margin=100, ver_margin=100, rotate=0.0):
    top, bottom = both(ver_margin)
    left, right = both(hor_margin)
    if left + right > width or top + bottom > height:
        raise ValueError("margin")
    y, x = np.ogrid[:height, :width]
    cy = ver_curviness / width * (x - width / 2) ** 2
    cx = hor_curviness / height * (y - height / 2) ** 2
    mask = np.where((y > top + cy) & (y < height - bottom - cy) &
                    (x > left + cx) & (x < width - right - cx), 1.0, 0.0)
    if rotate != 0.0:
        mask = np.round(ndi.rotate(mask, rotate, reshape=False))
    return mask


def remove_points_using_parabola_mask(points, height, width,
                                      hor_curviness=0.3, ver_curviness=0.3,
                                      hor_margin=100, ver_margin=100,
                                      rotate=0.0):
    mask = make_parabola_mask(height, width, hor_curviness, ver_curviness,
                              hor_margin, ver_margin, rotate)
    y, x = np.int32(points[:, 0]), np.int32(points[:, 1])
    inside = (y >= 0) & (y <= height - 1) & (x >= 0) & (x <= width - 1)
    on = mask[np.clip(y, 0, height - 1), np.clip(x, 0, width - 1)] == 1.0
    return points[inside & on]


def get_points_dot_pattern(mat, binarize=True, ratio=0.3, thres=None):
    if binarize:
        mat = prep.binarization(mat, ratio=ratio, thres=thres)
    elif np.max(mat) != 1.0 or np.min(mat) != 0.0:
        raise ValueError("binary")
    label, num = ndi.label(np.int16(mat))
    return np.asarray(ndi.center_of_mass(mat, labels=label,
                                         index=np.arange(1, num + 1)))


def rotate_points(points, angle, degree_unit=True):
    if degree_unit:
        angle = angle * np.pi / 180.0
    y, x = points[:, 0], points[:, 1]
    return np.stack((x * np.sin(angle) + y * np.cos(angle),
                     x * np.cos(angle) - y * np.sin(angle)), axis=1)


def remove_subset_points(selected_points, points):
    drop = set(map(tuple, selected_points))
    return np.asarray([p for p in points if tuple(p) not in drop])


def _check_dot_on_line(dot1, dot2, slope, dot_dist, ratio, num_dot_miss):
    if len(dot1) != 2 or len(dot2) != 2:
        raise ValueError("dot")
    y1, x1 = dot1
    y2, x2 = dot2
    reach = num_dot_miss * dot_dist
    near = (x1 - reach < x2) and (x2 < x1 + reach)
    off = np.abs((y2 - y1) - slope * (x2 - x1)) / np.sqrt(1.0 + slope ** 2)
    return near and off < ratio * dot_dist


def _get_nearby_hor_points(current_points, points, residual, order=2):
    fit = np.polyfit(current_points[:, 1], current_points[:, 0], int(order))
    err = np.abs(np.polyval(fit, points[:, 1]) - points[:, 0])
    return points[err <= residual]


def _get_nearby_ver_points(current_points, points, residual, order=2):
    fit = np.polyfit(current_points[:, 0], current_points[:, 1], int(order))
    err = np.abs(np.polyval(fit, points[:, 0]) - points[:, 1])
    return points[err <= residual]


def long_lines(lines, accepted_ratio):
    least = int(accepted_ratio * np.max([len(x) for x in lines]))
    return [x for x in lines if len(x) > least]


def group_dots_hor_lines(mat, slope, dot_dist, ratio=0.3, num_dot_miss=6,
                         accepted_ratio=0.65):
    lines = []
    left = np.copy(mat)
    while len(left) > 1:
        lines.append(left)
        left = left[1:]
    return sorted(long_lines(lines, accepted_ratio),
                  key=lambda x: np.mean(x[:, 0]))


def group_dots_ver_lines(mat, slope, dot_dist, ratio=0.3, num_dot_miss=6,
                         accepted_ratio=0.75):
    lines = []
    left = np.copy(mat)
    while len(left) > 1:
        lines.append(left)
        left = left[1:]
    return sorted(long_lines(lines, accepted_ratio),
                  key=lambda x: np.mean(x[:, 1]))


def group_dots_hor_lines_swapped(mat, slope, dot_dist, ratio=0.3,
                                 num_dot_miss=6, accepted_ratio=0.65):
    lines = []
    left = np.copy(mat)
    while len(left) > 1:
        lines.append(left)
        left = left[1:]
    lines = [np.fliplr(x) for x in lines]
    return sorted(long_lines(lines, accepted_ratio),
                  key=lambda x: np.mean(x[:, 0]))


def group_dots_ver_lines_swapped(mat, slope, dot_dist, ratio=0.3,
                                 num_dot_miss=6, accepted_ratio=0.75):
    lines = []
    left = np.copy(mat)
    while len(left) > 1:
        lines.append(left)
        left = left[1:]
    lines = [np.fliplr(x) for x in lines]
    return sorted(long_lines(lines, accepted_ratio),
                  key=lambda x: np.mean(x[:, 1]))


def one_per_place(lines, vals, line_dist):
    far = np.where(np.abs(np.diff(vals)) > 0.1 * line_dist)[0]
    if len(far) > 0:
        keep = np.insert(far + 1, 0, 0)
        lines = [x for n, x in enumerate(lines) if n in keep]
    return lines


def group_dots_hor_lines_based_polyfit(points, slope, line_dist, ratio=0.1,
                                       num_dot_miss=3, accepted_ratio=0.65,
                                       overlap_ratio=0.5, order=2):
    if len(points) == 0:
        raise ValueError("empty")
    angle = -np.arctan(slope)
    points = prep.rotate_points(points, angle, degree_unit=False)
    points = points[points[:, 1].argsort()]
    x = points[:, 1]
    first, last = x[0], x[-1]
    mid = (first + last) / 2.0
    num_dot_miss = np.clip(num_dot_miss, 1, len(points))
    dist = (num_dot_miss + 0.5) * line_dist
    start = np.clip(mid - dist, first, last)
    stop = np.clip(mid + dist, first, last)
    middle = points[(x >= start) & (x <= stop)]
    lines = []
    if len(middle) > 0:
        for line in prep.group_dots_hor_lines(
                middle, 0.0, line_dist, ratio=ratio,
                num_dot_miss=num_dot_miss, accepted_ratio=accepted_ratio):
            if len(line) > 2:
                line = prep._get_nearby_hor_points_iter(
                    line, points, line[0, 1], line[-1, 1], dist,
                    residual=ratio * line_dist, overlap_ratio=overlap_ratio,
                    order=order)
            if len(line) > 2:
                line = prep.rotate_points(line, -angle, degree_unit=False)
                lines.append(line[line[:, 1].argsort()])
    least = np.int16(accepted_ratio * np.max([len(v) for v in lines]))
    lines = [v for v in lines if len(v) > least]
    lines = one_per_place(lines, [np.median(v[:, 0]) for v in lines],
                          line_dist)
    return sorted(lines, key=lambda v: np.mean(v[:, 0]))


def group_dots_ver_lines_based_polyfit(points, slope, line_dist, ratio=0.1,
                                       num_dot_miss=3, accepted_ratio=0.65,
                                       overlap_ratio=0.5, order=2):
    if len(points) == 0:
        raise ValueError("empty")
    angle = np.arctan(slope)
    points = prep.rotate_points(points, angle, degree_unit=False)
    points = points[points[:, 0].argsort()]
    y = points[:, 0]
    first, last = y[0], y[-1]
    mid = (first + last) / 2.0
    num_dot_miss = np.clip(num_dot_miss, 1, len(points))
    dist = (num_dot_miss + 0.5) * line_dist
    start = np.clip(mid - dist, first, last)
    stop = np.clip(mid + dist, first, last)
    middle = points[(y >= start) & (y <= stop)]
    lines = []
    if len(middle) > 0:
        for line in prep.group_dots_ver_lines(
                middle, 0.0, line_dist, ratio=ratio,
                num_dot_miss=num_dot_miss, accepted_ratio=accepted_ratio):
            if len(line) > 2:
                line = prep._get_nearby_ver_points_iter(
                    line, points, line[0, 0], line[-1, 0], dist,
                    residual=ratio * line_dist, overlap_ratio=overlap_ratio,
                    order=order)
            if len(line) > 2:
                line = prep.rotate_points(line, -angle, degree_unit=False)
                lines.append(line[line[:, 0].argsort()])
    least = np.int16(accepted_ratio * np.max([len(v) for v in lines]))
    lines = [v for v in lines if len(v) > least]
    lines = one_per_place(lines, [np.median(v[:, 1]) for v in lines],
                          line_dist)
    return sorted(lines, key=lambda v: np.mean(v[:, 1]))
