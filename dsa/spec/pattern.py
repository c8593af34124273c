"""reference meaning of profiles, background correction and generated
patterns (never executed: analysed by the same engine as the package)"""
import numpy as np
import scipy.ndimage as ndi
from scipy.fftpack import fft2, ifft2
import discorpy.prep.preprocessing as prep
import discorpy.prep.linepattern as lp


# ------------------------------------------------------------------- C24
def index_range(height, width, angle_deg, direction):
    angle = angle_deg * np.pi / 180.0
    if np.abs(angle_deg) == 90.0:
        raise ValueError("angle")
    if direction == "horizontal":
        if angle_deg > 0:
            low = int(np.ceil(width * np.tan(angle)))
            high = height - 1
        else:
            low = 0
            high = height - 1 - int(np.floor(width * np.tan(np.abs(angle))))
        size = height
    else:
        if angle_deg > 0:
            low = 0
            high = width - 1 - int(np.ceil(height * np.tan(angle)))
        else:
            low = int(np.floor(height * np.tan(np.abs(angle))))
            high = width - 1
        size = width
    if low < 0 or low >= size or high < 0 or high >= size:
        raise ValueError("range")
    return low, high


def get_tilted_profile(mat, index, angle_deg, direction):
    if len(mat.shape) != 2:
        raise ValueError("2D")
    height, width = mat.shape
    low, high = index_range(height, width, angle_deg, direction)
    if index < low or index > high:
        raise ValueError("index")
    angle = angle_deg * np.pi / 180.0
    if direction == "horizontal":
        r = np.linspace(0, np.floor(width / np.cos(angle)), width)
        x = np.clip(r * np.cos(angle), 0, width - 1)
        y = np.clip(index - r * np.sin(angle), 0, height - 1)
    else:
        r = np.linspace(0, np.floor(height / np.cos(angle)), height)
        x = np.clip(index + r * np.sin(angle), 0, width - 1)
        y = np.clip(r * np.cos(angle), 0, height - 1)
    return x, y, ndi.map_coordinates(mat, (y, x), order=3, mode="nearest")


def prepared(mat, bgr, norm, denoise):
    if bgr == "bright":
        mat = np.max(mat) - mat
    if norm is True:
        mat = prep.normalization_fft(mat, 5)
    if denoise is True:
        mat = ndi.gaussian_filter(mat, 3)
    return mat


def get_cross_points_hor_lines(mat, slope_ver, dist_ver, ratio=0.3,
                               norm=True, offset=0, bgr="bright", radius=11,
                               sensitive=0.1, denoise=True, subpixel=True,
                               chessboard=False, select_peaks=False,
                               **kwargs):
    height, width = mat.shape
    mat = prepared(mat, bgr, norm, denoise)
    angle = np.arctan(slope_ver)
    low, high = lp._calc_index_range(height, width, np.rad2deg(angle),
                                     direction="vertical")
    offset = int(np.clip(offset, 0, min(height, width) // 3))
    out = []
    for i in np.arange(low + offset, high - offset, ratio * dist_ver):
        x, y, profile = lp.get_tilted_profile(mat, i, np.rad2deg(angle),
                                              direction="vertical")
        scale = np.sqrt((x[-1] - x[0]) ** 2 + (y[-1] - y[0]) ** 2) / \
            (height - 1)
        if chessboard is True:
            profile = lp.sliding_window_slope(profile, size=3)
        r = lp.get_local_extrema_points(
            profile, option="max", radius=radius, sensitive=sensitive,
            denoise=not denoise, norm=not norm, subpixel=subpixel,
            select_peaks=select_peaks, **kwargs) * scale
        for d in r:
            out.append([y[0] + d * np.cos(angle), x[0] + d * np.sin(angle)])
    return np.asarray(out)


def get_cross_points_ver_lines(mat, slope_hor, dist_hor, ratio=0.3,
                               norm=True, offset=0, bgr="bright", radius=11,
                               sensitive=0.1, denoise=True, subpixel=True,
                               chessboard=False, select_peaks=False,
                               **kwargs):
    height, width = mat.shape
    mat = prepared(mat, bgr, norm, denoise)
    angle = np.arctan(slope_hor)
    low, high = lp._calc_index_range(height, width, -np.rad2deg(angle),
                                     direction="horizontal")
    offset = int(np.clip(offset, 0, min(height, width) // 8))
    out = []
    for i in np.arange(low + offset, high - offset, ratio * dist_hor):
        x, y, profile = lp.get_tilted_profile(mat, i, -np.rad2deg(angle),
                                              direction="horizontal")
        scale = np.sqrt((x[-1] - x[0]) ** 2 + (y[-1] - y[0]) ** 2) / \
            (width - 1)
        if chessboard is True:
            profile = lp.sliding_window_slope(profile, size=3)
        r = lp.get_local_extrema_points(
            profile, option="max", radius=radius, sensitive=sensitive,
            denoise=not denoise, norm=not norm, subpixel=subpixel,
            select_peaks=select_peaks, **kwargs) * scale
        for d in r:
            out.append([y[0] + d * np.sin(angle), x[0] + d * np.cos(angle)])
    return np.asarray(out)


# ------------------------------------------------------------------- C25
def corrected(mat, back):
    mean = np.mean(back)
    return mean * mat / np.where(back == 0.0, mean, back)


def normalization(mat, size=51):
    return corrected(mat, ndi.median_filter(mat, size, mode="reflect"))


def background(mat, sigma, pad, mode):
    mat = np.pad(mat, ((pad, pad), (pad, pad)), mode=mode)
    height, width = mat.shape
    y, x = np.ogrid[-(height - 1.0) / 2.0:height - (height - 1.0) / 2.0,
                    -(width - 1.0) / 2.0:width - (width - 1.0) / 2.0]
    window = np.exp(-(x * x + y * y) / (2.0 * sigma * sigma))
    xm, ym = np.meshgrid(np.arange(width), np.arange(height))
    sign = np.power(-1.0, xm + ym)
    back = np.real(ifft2(fft2(mat * sign) * window) * sign)
    return back[pad:height - pad, pad:width - pad]


def normalization_fft(mat, sigma=10, pad=100, mode="reflect"):
    return corrected(mat, background(mat, sigma, pad, mode))


# ------------------------------------------------------------------- C27
def make_circle_mask(width, ratio):
    c = width // 2
    y, x = np.ogrid[-c:width - c, -c:width - c]
    return np.where(x * x + y * y <= (ratio * c) ** 2, 1.0, 0.0)


def margins(margin):
    if isinstance(margin, (tuple, list)):
        return margin[0], margin[1]
    return margin, margin


def make_dot_pattern(height=1800, width=2000, dot_distance=90, dot_size=15,
                     margin=150):
    dot_size = np.clip(dot_size, 1, min(height, width) // 8)
    if dot_distance < dot_size:
        raise ValueError("size")
    mv, mh = margins(margin)
    half = dot_size // 2 + 1
    mat = np.zeros((height, width), dtype=np.float32)
    mat[mv + half:height - mv - half:dot_distance,
        mh + half:width - mh - half:dot_distance] = 1
    return 1 - np.float32(ndi.binary_dilation(
        mat, iterations=1, structure=make_circle_mask(dot_size, 1.0)))


def make_line_pattern(height=1800, width=2000, line_distance=90, line_size=7,
                      margin=100):
    line_size = np.clip(line_size, 1, min(height, width) // 8)
    mv, mh = margins(margin)
    mat = np.zeros((height, width), dtype=np.float32)
    rows = np.arange(mv, height - mv - line_size, line_distance)
    cols = np.arange(mh, width - mh - line_size, line_distance)
    for i in rows:
        mat[i:i + line_size, cols[0]:cols[-1] + line_size] = 1
    for j in cols:
        mat[rows[0]:rows[-1] + line_size, j:j + line_size] = 1
    return 1 - mat


def make_chessboard(height=1800, width=2000, size=100, margin=100,
                    margin_grayscale=0.95):
    mat = margin_grayscale * np.ones((height, width), dtype=np.float32)
    for n, i in enumerate(range(size + margin, height - margin - size,
                                size)):
        for m, j in enumerate(range(size + margin, width - margin - size,
                                    size)):
            mat[i:i + size, j:j + size] = 1.0 if n % 2 == m % 2 else 0.0
    return mat
