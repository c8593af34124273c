"""reference meaning of the measurements on dots and lines (never executed)"""
import numpy as np
from scipy import ndimage as ndi
from skimage.filters import threshold_otsu
from skimage.segmentation import clear_border
import skimage.morphology as morph
from skimage.transform import radon
import discorpy.prep.preprocessing as prep
import discorpy.prep.linepattern as lp


def middle(mat, ratio, square=False):
    """central part of an image"""
    height, width = mat.shape
    ratio = min(max(ratio, 0.05), 1.0)
    if square is True:
        half = int(ratio * min(height, width)) // 2
        return mat[height // 2 - half:height // 2 + half,
                   width // 2 - half:width // 2 + half]
    top = int((height - ratio * height) / 2)
    left = int((width - ratio * width) / 2)
    return mat[top:height - top, left:width - left]


def binarization(mat, ratio=0.3, thres=None, denoise=True):
    if denoise:
        mat = ndi.median_filter(np.abs(mat), (2, 2))
    if thres is None:
        thres = threshold_otsu(middle(mat, ratio), nbins=512)
    dots = np.where(mat > thres, 1.0, 0.0)
    if np.mean(dots) > 0.5:
        dots = np.max(dots) - dots
    return np.int16(ndi.binary_fill_holes(
        morph.opening(clear_border(dots), morph.disk(1))))


def check_num_dots(mat):
    return ndi.label(mat)[1] < 25


def inner_dots(mat, ratio):
    mat = np.int16(clear_border(middle(mat, ratio)))
    label, num = ndi.label(mat)
    index = np.arange(1, num + 1)
    return mat, label, index, np.asarray(
        ndi.center_of_mass(mat, labels=label, index=index))


def calc_size_distance(mat, ratio=0.3):
    mat, label, index, cent = inner_dots(mat, ratio)
    near = []
    for p in cent:
        d = np.sqrt((p[0] - cent[:, 0]) ** 2 + (p[1] - cent[:, 1]) ** 2)
        near.append(np.sort(d)[1])
    return (np.median(ndi.sum(mat, labels=label, index=index)),
            np.median(near))


def strip_slope(y, x, slope, width):
    """slope of the dots close to the line of the given slope through the dot
    nearest to the mean position"""
    mid = np.argsort(np.sqrt((np.mean(x) - x) ** 2 +
                             (np.mean(y) - y) ** 2))[0]
    off = np.abs(slope * (x - x[mid]) - (y - y[mid])) / np.sqrt(
        slope ** 2 + 1.0)
    return off


def calc_hor_slope(mat, ratio=0.3):
    roi, label, index, cent = inner_dots(mat, ratio)
    return along(-cent, roi, 90.0, -1.0)


def calc_ver_slope(mat, ratio=0.3):
    roi, label, index, cent = inner_dots(mat, ratio)
    return along(np.fliplr(cent), roi, 0.0, 1.0)


def along(cent, roi, first, sign):
    angles = first + np.arange(-30.0, 31.0)
    proj = radon(np.float32(roi), theta=angles, circle=False)
    best = sign * (angles[np.argmax(np.amax(proj, axis=0))] - first)
    one = np.pi / 180.0
    slope = np.tan(best * one)
    reach = 0.5 * roi.shape[1] * np.tan(one) / np.cos(best * one)
    off = strip_slope(cent[:, 0], cent[:, 1], slope, reach)
    dots = cent[off < reach]
    if len(dots) > 1:
        return np.polyfit(dots[:, 1], dots[:, 0], 1)[0]
    return slope


def calculate_threshold(mat, bgr='bright', snr=2.0):
    values = np.sort(np.ravel(mat))
    curve = ndi.zoom(values, 1.0 * max(mat.shape) / len(values),
                     mode='nearest')
    num = len(curve)
    cut = int(0.25 * num)
    slope, start = np.polyfit(np.arange(cut, num - cut - 1),
                              curve[cut:num - cut - 1], 1)[:2]
    end = start + slope * (num - 1)
    reach = 0.5 * snr * np.abs(end - start)
    return start - reach if bgr == 'bright' else end + reach


def locate_subpixel_point(list_point, option='min'):
    num = len(list_point)
    a, b, c = np.polyfit(np.arange(num), list_point, 2)
    if a != 0.0 and 0 <= -b / (2 * a) and -b / (2 * a) < num:
        return -b / (2 * a)
    return np.argmin(list_point) if option == 'min' else \
        np.argmax(list_point)


def sliding_window_slope(list_data, size=3, norm=True):
    num = len(list_data)
    if num < 3:
        raise ValueError("size")
    size = int(min(max(size, 3), num))
    if size % 2 == 0:
        size = size + 1
    padded = np.pad(list_data, (size // 2, size // 2), mode='edge')
    out = np.asarray([np.abs(np.polyfit(np.arange(size), padded[i:i + size],
                                        1)[0]) for i in range(num)])
    if norm is True and np.mean(out) != 0.0:
        out = out / np.mean(out)
    return out


def convert_chessboard_to_linepattern(mat, smooth=True, bgr='bright',
                                      sigma=3):
    if smooth is True:
        mat = ndi.gaussian_filter(mat, sigma, mode='nearest')
    edge = 4 if smooth is True else 2
    gy, gx = np.gradient(mat)
    line = (np.abs(gy) + np.abs(gx)) / 2
    line = np.pad(line[edge:-edge, edge:-edge], edge, mode='edge')
    if bgr == 'bright':
        line = np.max(line) - line
    return line / np.mean(np.abs(line))


def disc(width, ratio):
    mid = width // 2
    y, x = np.ogrid[-mid:width - mid, -mid:width - mid]
    return np.where(x * x + y * y <= (ratio * mid) ** 2, 1.0, 0.0)


def line_direction(mat, ratio, search_range, bgr, denoise, chessboard, first):
    if chessboard is True:
        mat = lp.convert_chessboard_to_linepattern(mat)
    if denoise is True:
        mat = ndi.gaussian_filter(mat, 3)
    roi = middle(mat, ratio, square=True)
    if bgr == 'bright':
        roi = np.max(roi) - roi
    roi = roi * disc(roi.shape[0], 0.92)
    angles = first + np.arange(-search_range, search_range + 1.0)
    best = angles[np.argmax(np.amax(radon(roi, theta=angles, circle=True),
                                    axis=0))]
    angles = np.arange(best - 1.0, best + 1.05, 0.05)
    proj = radon(roi, theta=angles, circle=True)
    pos = np.argmax(np.amax(proj, axis=0))
    return angles[pos], proj[:, pos]


def spacing(points):
    d = np.abs(np.diff(points))
    return np.median(d) if len(points) > 3 else np.mean(d)


def calc_slope_distance_hor_lines(mat, ratio=0.3, search_range=30.0, radius=9,
                                  sensitive=0.1, bgr='bright', denoise=True,
                                  norm=True, subpixel=True, chessboard=False,
                                  select_peaks=False):
    angle, profile = line_direction(mat, ratio, search_range, bgr, denoise,
                                    chessboard, 90.0)
    return np.tan((90.0 - angle) * np.pi / 180.0), spacing(
        lp.get_local_extrema_points(
            profile, option='max', radius=radius, sensitive=sensitive,
            denoise=denoise, norm=norm, subpixel=subpixel,
            select_peaks=select_peaks))


def calc_slope_distance_ver_lines(mat, ratio=0.3, search_range=30.0, radius=9,
                                  sensitive=0.1, bgr='bright', denoise=True,
                                  norm=True, subpixel=True, chessboard=False,
                                  select_peaks=False):
    angle, profile = line_direction(mat, ratio, search_range, bgr, denoise,
                                    chessboard, 0.0)
    return np.tan(angle * np.pi / 180.0), spacing(
        lp.get_local_extrema_points(
            profile, option='max', radius=radius, sensitive=sensitive,
            denoise=denoise, norm=norm, subpixel=subpixel,
            select_peaks=select_peaks))


def get_local_extrema_points(list_data, option='min', radius=7,
                             sensitive=0.1, denoise=True, norm=True,
                             subpixel=True, select_peaks=False):
    data = list_data
    if denoise is True:
        data = ndi.gaussian_filter(data, 3)
    if option == 'max':
        data = np.max(data) - data
    num = len(data)
    radius = int(min(max(radius, 1), num // 4))
    if norm is True:
        order = np.argsort(data)
        cut = int(0.25 * num)
        x = np.arange(num)
        a1, a0 = np.polyfit(x[cut:-cut - 1], data[order][cut:-cut - 1], 1)[:2]
        fit = a1 * x + a0
        # a rising fit lies between its ends
        back = np.where((fit >= a0) & (fit <= a1 * (num - 1) + a0), fit,
                        data[order])
        mean = np.mean(np.abs(fit))
        rank = np.argsort(order)
        back = back[rank]
        data = np.where(back != 0, data / back, mean)
    found = []
    for i in range(radius, num - radius - 1):
        window = np.sort(data[i - radius:i + radius + 1])
        top = np.mean(window[-radius:])
        height = np.abs((data[i] - top) / top) if top != 0 else 0.0
        if data[i] == window[0] and height > sensitive:
            found.append(i)
    if select_peaks is True:
        found = lp.select_good_peaks(np.max(data) - data, found,
                                     radius=radius)
    if subpixel is True and len(found) > 0:
        return np.asarray([i - 1 + lp.locate_subpixel_point(
            data[i - 1:i + 2], option='min') for i in found])
    return np.asarray(found)


def select_good_peaks(list_data, peaks, tol=0.2, radius=11, sigma=0,
                      use_offset=True):
    if sigma > 0:
        list_data = ndi.gaussian_filter1d(list_data, sigma)
    good = []
    for p in peaks:
        part = list_data[max(0, p - radius):min(len(list_data),
                                                p + radius + 1)]
        if len(part) > 3 and np.std(part) != 0.0:
            part = (part - np.min(part)) / np.std(part)
            fit, shift, offset, ok = lp._get_gauss_peak_fit(part)
            if ok and abs(shift) < radius // 2 and np.percentile(
                    np.abs(fit - part), 80) < tol:
                if not use_offset or abs(offset) < tol:
                    good.append(p)
    return np.asarray(good)
