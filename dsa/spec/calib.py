"""reference meaning of the calibration routines (analysed, never executed).
Horizontal and vertical lines are handled by one routine with the coordinate
axes exchanged, so the reference is symmetric by construction."""
import numpy as np
from scipy import optimize
from scipy.ndimage import map_coordinates


# ------------------------------------------------------------- line fits
def centred(lines, xcenter, ycenter):
    return [np.stack((ln[:, 0] - ycenter, ln[:, 1] - xcenter), axis=1)
            for ln in lines]


def para(lines, dep, cen):
    """parabola coefficients; dep = 0: y(x), dep = 1: x(y)"""
    return np.asarray([np.polyfit(ln[:, 1 - dep] - cen[1 - dep],
                                  ln[:, dep] - cen[dep], 2) for ln in lines])


def linear(lines, dep):
    return np.asarray([np.polyfit(ln[:, 1 - dep], ln[:, dep], 1)
                       for ln in lines])


def meeting(a1, b1, a2, b2):
    """common point of y = a1 x + b1 and x = a2 y + b2"""
    y = (a1 * b2 + b1) / (1.0 - a1 * a2)
    x = (a2 * b1 + b2) / (1.0 - a1 * a2)
    return y, x


# ---------------------------------------------------------------- center
def bend(coef):
    return np.argmax(np.abs(np.diff(np.sign(coef[:, 0])))) + 1


def find_cod_coarse(list_hor_lines, list_ver_lines):
    ch = para(list_hor_lines, 0, (0.0, 0.0))
    cv = para(list_ver_lines, 1, (0.0, 0.0))
    ph, pv = bend(ch), bend(cv)
    mh = (ch[ph - 1] + ch[ph]) * 0.5
    mv = (cv[pv - 1] + cv[pv]) * 0.5
    y, x = meeting(mh[1], mh[2], mv[1], mv[2])
    return x, y


def find_cod_bailey(list_hor_lines, list_ver_lines, iteration=2):
    x, y = find_cod_coarse(list_hor_lines, list_ver_lines)
    for k in range(iteration + 1):
        ch = para(list_hor_lines, 0, (y, x))
        cv = para(list_ver_lines, 1, (y, x))
        a1, b1 = np.polyfit(ch[:, 2], ch[:, 0], 1)
        a2, b2 = np.polyfit(cv[:, 2], cv[:, 0], 1)
        x = x - b2 / a2
        y = y - b1 / a1
    return x, y


# ---------------------------------------------------- radial coefficients
def spread(dist, pos, inter):
    def cost(d, c0, i0, *cs):
        return np.sum(np.asarray([(np.sign(c) * np.abs(i - i0) * d + c0 - c)
                                  ** 2 for i, c in enumerate(cs)]))
    return optimize.minimize(cost, dist, args=(inter[pos], pos) +
                             tuple(inter)).x[0]


def undistorted_intercepts(coef, num_use, optimizing):
    n = len(coef)
    pos = np.argmin(np.abs(coef[:, 2]))
    p1, p2 = max(0, pos - num_use), min(n, pos + num_use + 1)
    dist = np.mean(np.abs(np.diff(coef[p1:p2, 2])))
    if optimizing is True:
        dist = spread(dist, pos, coef[:, 2])
    return np.asarray([np.sign(coef[i, 2]) * np.abs(i - pos) * dist +
                       coef[pos, 2] for i in range(n)])


def fits(list_hor_lines, list_ver_lines, xcenter, ycenter, optimizing):
    ch = para(list_hor_lines, 0, (ycenter, xcenter))
    cv = para(list_ver_lines, 1, (ycenter, xcenter))
    num_use = min(3, len(ch) // 2 - 1, len(cv) // 2 - 1)
    uh = undistorted_intercepts(ch, num_use, optimizing)
    uv = undistorted_intercepts(cv, num_use, optimizing)
    return ch, uh, cv, uv


def count(num_fact):
    return max(1, num_fact)


def solve(rows, rhs):
    return np.linalg.lstsq(np.asarray(rows), np.asarray(rhs), rcond=1e-64)[0]


def calc_coef_backward(list_hor_lines, list_ver_lines, xcenter, ycenter,
                       num_fact, optimizing=False, threshold=0.3):
    ch, uh, cv, uv = fits(list_hor_lines, list_ver_lines, xcenter, ycenter,
                          optimizing)
    expo = np.arange(count(num_fact))
    rows, rhs = [], []
    for lines, coef, u, dep in ((list_hor_lines, ch, uh, 0),
                                (list_ver_lines, cv, uv, 1)):
        for i, ln in enumerate(centred(lines, xcenter, ycenter)):
            if u[i] == 0.0:
                continue
            for p in ln:
                f = (coef[i, 0] * p[1 - dep] ** 2 + coef[i, 2]) / u[i]
                if f != 0.0:
                    rd = np.sqrt(p[0] ** 2 + p[1] ** 2)
                    rows.append(np.power(rd / f, expo))
                    rhs.append(f)
    return solve(rows, rhs)


def calc_coef_forward(list_hor_lines, list_ver_lines, xcenter, ycenter,
                      num_fact, optimizing=False, threshold=0.3):
    ch, uh, cv, uv = fits(list_hor_lines, list_ver_lines, xcenter, ycenter,
                          optimizing)
    expo = np.arange(count(num_fact))
    rows, rhs = [], []
    for lines, coef, u, dep in ((list_hor_lines, ch, uh, 0),
                                (list_ver_lines, cv, uv, 1)):
        for i, ln in enumerate(centred(lines, xcenter, ycenter)):
            if u[i] == 0.0:
                continue
            for p in ln:
                f = u[i] / (coef[i, 0] * p[1 - dep] ** 2 + coef[i, 2])
                if f != 0.0:
                    rows.append(np.power(np.sqrt(p[0] ** 2 + p[1] ** 2),
                                         expo))
                    rhs.append(f)
    return solve(rows, rhs)


def calc_coef_backward_from_forward(list_hor_lines, list_ver_lines, xcenter,
                                    ycenter, num_fact, optimizing=False,
                                    threshold=0.3):
    num_fact = count(num_fact)
    ff = calc_coef_forward(list_hor_lines, list_ver_lines, xcenter, ycenter,
                           num_fact, optimizing=optimizing,
                           threshold=threshold)
    expo = np.arange(num_fact)
    rows, rhs = [], []
    for lines in (list_hor_lines, list_ver_lines):
        for ln in centred(lines, xcenter, ycenter):
            for p in ln:
                rd = np.sqrt(p[0] ** 2 + p[1] ** 2)
                f = np.sum(ff * np.power(rd, expo))
                if f != 0.0:
                    rows.append(np.power(f * rd, expo))
                    rhs.append(1 / f)
    return ff, solve(rows, rhs)


def transform_coef_backward_and_forward(list_fact, mapping="backward",
                                        ref_points=None):
    if ref_points is None:
        ref_points = [[i, j] for i in np.arange(-1000, 1000, 50)
                      for j in np.arange(-1000, 1000, 50)]
    elif len(ref_points) < len(list_fact):
        raise ValueError("points")
    expo = np.arange(len(list_fact))
    rows, rhs = [], []
    for p in ref_points:
        r = np.sqrt(p[0] ** 2 + p[1] ** 2)
        f = np.sum(list_fact * np.power(r, expo))
        if f != 0.0:
            rows.append(np.power(f * r, expo))
            rhs.append(1 / f)
    return solve(rows, rhs)


# ----------------------------------------------------------------- grids
def regenerate_grid_points_linear(list_hor_lines, list_ver_lines,
                                  is_coef=False):
    if is_coef is True:
        ch, cv = list_hor_lines, list_ver_lines
    else:
        ch, cv = linear(list_hor_lines, 0), linear(list_ver_lines, 1)
    return crossings(ch, cv)


def crossings(ch, cv):
    hor = [[meeting(h[0], h[1], v[0], v[1]) for v in cv] for h in ch]
    ver = [[meeting(h[0], h[1], v[0], v[1]) for h in ch] for v in cv]
    return np.asarray(hor), np.asarray(ver)


def cross_parabola(h, v):
    def eqs(p):
        x, y = p
        return (h[0] * x ** 2 + h[1] * x + h[2] - y,
                v[0] * y ** 2 + v[1] * y + v[2] - x)
    x, y = optimize.fsolve(eqs, (0, 0))
    return y, x


def common_slope(coef_h, coef_v, eps):
    """columns of coef: slope, intercept"""
    ah, bh = np.polyfit(coef_h[:, 1], coef_h[:, 0], 1)
    av, bv = np.polyfit(coef_v[:, 1], -coef_v[:, 0], 1)
    if np.abs(ah - av) >= eps:
        return (ah * bv - av * bh) / (ah - av)
    return (bh + bv) * 0.5


def non_perspective(list_hor_lines, list_ver_lines):
    x, y = find_cod_bailey(list_hor_lines, list_ver_lines)
    ch = para(list_hor_lines, 0, (y, x))
    cv = para(list_ver_lines, 1, (y, x))
    b0 = common_slope(ch[:, 1:], cv[:, 1:], 0.001)
    ph, pv = bend(ch), bend(cv)
    k = min(3, len(ch) // 2 - 1, len(cv) // 2 - 1)
    dh = np.mean(np.abs(np.diff(ch[max(0, ph - k):min(len(ch), ph + k + 1),
                                   2])))
    dv = np.mean(np.abs(np.diff(cv[max(0, pv - k):min(len(cv), pv + k + 1),
                                   2])))
    sv = dh / dv if dh > dv else 1
    sh = 1 if dh > dv else dv / dh
    ch = np.asarray([[c[0] * sh, b0, c[2] * sh] for c in ch])
    cv = np.asarray([[c[0] * sv, -b0, c[2] * sv] for c in cv])
    return ch, cv, x, y


def regenerate_grid_points_parabola(list_hor_lines, list_ver_lines,
                                    perspective=False, find_center=False):
    if perspective is True:
        ch, cv, xc, yc = non_perspective(list_hor_lines, list_ver_lines)
    else:
        xc, yc = 0.0, 0.0
        if find_center is True:
            xc, yc = find_cod_bailey(list_hor_lines, list_ver_lines)
        ch = para(list_hor_lines, 0, (yc, xc))
        cv = para(list_ver_lines, 1, (yc, xc))
    hor, ver = [], []
    for h in ch:
        ln = []
        for v in cv:
            y, x = cross_parabola(h, v)
            ln.append([y + yc, x + xc])
        hor.append(ln)
    for v in cv:
        ln = []
        for h in ch:
            y, x = cross_parabola(h, v)
            ln.append([y + yc, x + xc])
        ver.append(ln)
    return np.asarray(hor), np.asarray(ver)


def spacing(coef, num_use, scale, optimizing):
    n = len(coef)
    pos = n // 2
    gaps = np.abs(np.diff(coef[max(0, pos - num_use):
                               min(n, pos + num_use + 1), 1]))
    if scale == "max":
        d = np.max(gaps)
    elif scale == "min":
        d = np.min(gaps)
    elif scale == "median":
        d = np.median(gaps)
    else:
        d = np.mean(gaps)
        if isinstance(scale, float):
            d = scale * d
    if optimizing is True:
        def cost(d, c0, i0, *cs):
            return np.sum(np.asarray([((i - i0) * d + c0 - c) ** 2
                                      for i, c in enumerate(cs)]))
        d = optimize.minimize(cost, d, args=(coef[pos, 1], pos) +
                              tuple(coef[:, 1])).x[0]
    return d


def generate_undistorted_perspective_lines(list_hor_lines, list_ver_lines,
                                           equal_dist=True, scale="mean",
                                           optimizing=True):
    ch, cv = linear(list_hor_lines, 0), linear(list_ver_lines, 1)
    a0 = common_slope(ch, cv, 0.0001)
    nh, nv = len(ch), len(cv)
    k = min(np.clip(nh // 2 - 1, 1, None), np.clip(nv // 2 - 1, 1, None))
    dh = spacing(ch, k, scale, optimizing)
    dv = spacing(cv, k, scale, optimizing)
    if equal_dist is True:
        if scale == "max":
            dh = dv = max(dh, dv)
        elif scale == "min":
            dh = dv = min(dh, dv)
        else:
            dh = dv = (dh + dv) * 0.5
    uh = [[a0, (i - nh // 2) * dh + ch[nh // 2, 1]] for i in range(nh)]
    uv = [[-a0, (j - nv // 2) * dv + cv[nv // 2, 1]] for j in range(nv)]
    return crossings(uh, uv)


def generate_source_target_perspective_points(list_hor_lines, list_ver_lines,
                                              equal_dist=True, scale="mean",
                                              optimizing=True):
    sh, sv = regenerate_grid_points_linear(list_hor_lines, list_ver_lines)
    th, tv = generate_undistorted_perspective_lines(sh, sv, equal_dist,
                                                    scale, optimizing)
    src, tgt = [], []
    for i in range(len(sh)):
        for j in range(len(sv)):
            src.append(sh[i, j])
            tgt.append(th[i, j])
    return np.asarray(src), np.asarray(tgt)


# ----------------------------------------------------------- perspective
def calc_perspective_coefficients(source_points, target_points,
                                  mapping="backward"):
    if mapping == "forward":
        frm, to = source_points, target_points
    else:
        frm, to = target_points, source_points
    rows, rhs = [], []
    for p, q in zip(frm, to):
        y, x = p
        v, u = q
        # u = (c1 x + c2 y + c3) / (c7 x + c8 y + 1), v likewise with c4..c6
        rows.append([x, y, 1, 0, 0, 0, -u * x, -u * y])
        rhs.append(u)
        rows.append([0, 0, 0, x, y, 1, -v * x, -v * y])
        rhs.append(v)
    return solve(rows, rhs)


def pmap(x, y, c):
    c1, c2, c3, c4, c5, c6, c7, c8 = c
    w = c7 * x + c8 * y + 1.0
    return (c4 * x + c5 * y + c6) / w, (c1 * x + c2 * y + c3) / w


def correct_perspective_line(list_lines, list_coef):
    if len(list_coef) != 8:
        raise ValueError("8")
    return [np.stack(pmap(ln[:, 1], ln[:, 0], list_coef), axis=1)
            for ln in list_lines]


def correct_perspective_image(mat, list_coef, order=1, mode="reflect",
                              map_index=None):
    if len(list_coef) != 8:
        raise ValueError("8")
    height, width = mat.shape
    if map_index is None:
        xm, ym = np.meshgrid(np.arange(width), np.arange(height))
        yd, xd = pmap(xm, ym, list_coef)
        map_index = (np.ravel(np.clip(yd, 0, height - 1)),
                     np.ravel(np.clip(xd, 0, width - 1)))
    out = map_coordinates(mat, map_index, order=order, mode=mode)
    return np.reshape(out, (height, width))


def update_center(list_lines, xcenter, ycenter):
    return [np.stack((ln[:, 0] + ycenter, ln[:, 1] + xcenter), axis=1)
            for ln in list_lines]


# -------------------------------------------------------------- residuals
def residual(lines, dep, cen):
    data = []
    for ln in lines:
        d = ln[:, dep] - cen[dep]
        s = ln[:, 1 - dep] - cen[1 - dep]
        a, b = np.polyfit(s, d, 1)
        off = np.abs(a * s - d + b) / np.sqrt(a ** 2 + 1)
        rad = np.sqrt(s ** 2 + d ** 2)
        data.extend(np.stack((rad, off), axis=1))
    data = np.asarray(data)
    return data[np.argsort(data[:, 0])]


def calc_residual_hor(list_ulines, xcenter, ycenter):
    return residual(list_ulines, 0, (ycenter, xcenter))


def calc_residual_ver(list_ulines, xcenter, ycenter):
    return residual(list_ulines, 1, (ycenter, xcenter))


def check_distortion(list_data):
    n = 0
    for row in list_data:
        if row[1] > 1.0:
            n = n + 1
    return n / len(list_data) > 0.15


# ------------------------------------------------- four point perspective
def length(p, q):
    return np.sqrt((p[0] - q[0]) ** 2 + (p[1] - q[1]) ** 2)


def side(p, q, dep):
    """slope and intercept of the line through two points"""
    a = (p[dep] - q[dep]) / (p[1 - dep] - q[1 - dep])
    return a, p[dep] - a * p[1 - dep]


def generate_4_source_target_perspective_points(points, input_order="yx",
                                                equal_dist=False,
                                                scale="mean"):
    pts = np.asarray(points)
    if input_order == "xy":
        pts = np.stack((pts[:, 1], pts[:, 0]), axis=1)
    if len(pts) != 4:
        raise ValueError("4")
    rows = pts[np.argsort(pts[:, 0])]
    top, bottom = rows[0:2], rows[2:4]
    tl, tr = top[np.argsort(top[:, 1])]
    bl, br = bottom[np.argsort(bottom[:, 1])]
    at, bt = side(tl, tr, 0)
    ab, bb = side(bl, br, 0)
    al, bl_ = side(tl, bl, 1)
    ar, br_ = side(tr, br, 1)
    ah, bh = (at + ab) / 2, (bt + bb) / 2
    av, bv = (al + ar) / 2, (bl_ + br_) / 2
    slope = np.sign(ah) * (np.abs(ah) + np.abs(av)) / 2
    w1, w2 = length(tl, tr), length(bl, br)
    h1, h2 = length(tl, bl), length(tr, br)
    if scale == "max":
        dw, dh = max(w1, w2), max(h1, h2)
        if equal_dist is True:
            dw = dh = max(dw, dh)
    elif scale == "min":
        dw, dh = min(w1, w2), min(h1, h2)
        if equal_dist is True:
            dw = dh = min(dw, dh)
    else:
        dw, dh = (w1 + w2) / 2, (h1 + h2) / 2
        if isinstance(scale, float):
            dw, dh = dw * scale, dh * scale
        if equal_dist is True:
            dw = dh = (dw + dh) / 2
    up = np.sqrt(1.0 + slope ** 2)
    gh, gw = np.abs(dh) / 2 * up, np.abs(dw) / 2 * up
    lo, hi = bh - gh, bh + gh
    lf, rg = bv - gw, bv + gw
    src = np.asarray([[tl[0], tl[1]], [tr[0], tr[1]],
                      [bl[0], bl[1]], [br[0], br[1]]])
    tgt = np.asarray([meeting(slope, lo, -slope, lf),
                      meeting(slope, lo, -slope, rg),
                      meeting(slope, hi, -slope, lf),
                      meeting(slope, hi, -slope, rg)])
    return src, tgt


def representative(coef, idx, method):
    a, b, c = coef[:, 0][idx], coef[:, 1][idx], coef[:, 2][idx]
    if method == "median":
        return np.median(b), np.median(c)
    if method == "max" or method == "min":
        order = np.argsort(a)
        b, c, a = b[order], c[order], a[order]
        up = a[0] > 0
        if method == "max":
            return (b[-1], c[-1]) if up else (b[0], c[0])
        return (b[0], c[0]) if up else (b[-1], c[-1])
    return np.mean(b), np.mean(c)


def opposite(coef, method):
    if len(coef) < 2:
        raise ValueError("lines")
    up = np.where(coef[:, 0] > 0)[0]
    if len(up) == 0:
        raise ValueError("no upward curve")
    down = np.where(coef[:, 0] < 0)[0]
    if len(down) == 0:
        raise ValueError("no downward curve")
    return representative(coef, up, method), representative(coef, down,
                                                            method)


def correct_perspective_effect(list_hor_lines, list_ver_lines, xcenter,
                               ycenter, method="mean", scale="mean"):
    cen = (ycenter, xcenter)
    h1, h2 = opposite(para(list_hor_lines, 0, cen), method)
    v1, v2 = opposite(para(list_ver_lines, 1, cen), method)
    pts = np.asarray([meeting(h1[0], h1[1], v1[0], v1[1]),
                      meeting(h1[0], h1[1], v2[0], v2[1]),
                      meeting(h2[0], h2[1], v1[0], v1[1]),
                      meeting(h2[0], h2[1], v2[0], v2[1])])
    src, tgt = generate_4_source_target_perspective_points(
        pts, input_order="yx", equal_dist=False, scale=scale)
    pc = calc_perspective_coefficients(src, tgt, mapping="forward")
    hor = correct_perspective_line(centred(list_hor_lines, xcenter, ycenter),
                                   pc)
    ver = correct_perspective_line(centred(list_ver_lines, xcenter, ycenter),
                                   pc)
    return (update_center(hor, xcenter, ycenter),
            update_center(ver, xcenter, ycenter))


# ------------------------------------------------------ fine center search
def nearest(coef):
    """vertex of each parabola closest to the origin: (s, f(s))"""
    def dist(s, a, b, c):
        return s ** 2 + (a * s ** 2 + b * s + c) ** 2
    out = []
    for k in coef:
        s = optimize.minimize(dist, 0.0, args=tuple(k)).x[0]
        out.append([s, k[0] * s ** 2 + k[1] * s + k[2]])
    return np.asarray(out)


def offset(lines, dep, y, x):
    pts = nearest(para(lines, dep, (y, x)))
    return np.abs(np.polyfit(pts[:, 0], pts[:, 1], 1)[1])


def used(coef, k):
    pos = np.argmin(np.abs(coef[:, 2]))
    return max(0, pos - k), min(len(coef), pos + k + 1)


def best_shift(list_hor_lines, list_ver_lines, xcenter, ycenter, shifts):
    ch = para(list_hor_lines, 0, (ycenter, xcenter))
    cv = para(list_ver_lines, 1, (ycenter, xcenter))
    k = min(5, len(ch) // 2 - 1, len(cv) // 2 - 1)
    h1, h2 = used(ch, k)
    v1, v2 = used(cv, k)
    hor = centred(list_hor_lines, xcenter, ycenter)[h1:h2]
    ver = centred(list_ver_lines, xcenter, ycenter)[v1:v2]
    cost = np.asarray([[offset(hor, 0, y, x) + offset(ver, 1, y, x)
                        for x in shifts] for y in shifts])
    i, j = np.unravel_index(np.argmin(cost), cost.shape)
    return shifts[j], shifts[i]


def find_cod_fine(list_hor_lines, list_ver_lines, xcenter, ycenter,
                  point_dist):
    sx, sy = best_shift(list_hor_lines, list_ver_lines, xcenter, ycenter,
                        np.arange(-point_dist, point_dist + 2.0, 2.0))
    x, y = xcenter + sx, ycenter + sy
    sx, sy = best_shift(list_hor_lines, list_ver_lines, x, y,
                        np.arange(-2.0, 2.5, 0.5))
    return x + sx, y + sy


# -------------------------------------------------------- vanishing points
def crossings_of(p, q):
    r = np.roots([p[0] - q[0], p[1] - q[1], p[2] - q[2]])
    if np.iscomplexobj(r) or len(r) < 2:
        return None
    s1, s2 = r
    return [[s1, p[0] * s1 ** 2 + p[1] * s1 + p[2]],
            [s2, q[0] * s2 ** 2 + q[1] * s2 + q[2]]]


def sorted_by_bend(coef, idx):
    sel = np.stack((coef[:, 0][idx], coef[:, 1][idx], coef[:, 2][idx]),
                   axis=1)
    return sel[np.argsort(np.abs(coef[:, 0][idx]))]


def vanish_opposite(coef):
    up = np.where(coef[:, 0] > 0)[0]
    down = np.where(coef[:, 0] < 0)[0]
    s1, s2 = sorted_by_bend(coef, up), sorted_by_bend(coef, down)
    pts = []
    for i in range(min(len(up), len(down))):
        r = crossings_of(s1[i], s2[i])
        if r is not None:
            pts.extend(r)
    return pts


def find_center_based_vanishing_points(list_hor_lines, list_ver_lines):
    ch = para(list_hor_lines, 0, (0, 0))
    cv = para(list_ver_lines, 1, (0, 0))
    ph, pv = vanish_opposite(ch), vanish_opposite(cv)
    if len(ph) > 2 and len(pv) > 2:
        ph, pv = np.asarray(ph), np.asarray(pv)
        a1, b1 = np.polyfit(ph[:, 0], ph[:, 1], 1)
        a2, b2 = np.polyfit(pv[:, 0], pv[:, 1], 1)
        y, x = meeting(a1, b1, a2, b2)
        return x, y
    return find_cod_bailey(list_hor_lines, list_ver_lines)


def vanish_flat(coef):
    k = np.argmin(np.abs(coef[:, 0]))
    pts = []
    for i in np.delete(np.arange(len(coef)), k):
        r = crossings_of(coef[i], coef[k])
        if r is not None:
            pts.extend(r)
    return pts


def center2(list_hor_lines, list_ver_lines):
    ch = para(list_hor_lines, 0, (0, 0))
    cv = para(list_ver_lines, 1, (0, 0))
    ph, pv = vanish_flat(ch), vanish_flat(cv)
    if len(ph) > 2 and len(pv) > 2:
        ph, pv = np.asarray(ph), np.asarray(pv)
        a1, b1 = np.polyfit(ph[:, 0], ph[:, 1], 1)
        a2, b2 = np.polyfit(pv[:, 0], pv[:, 1], 1)
        y, x = meeting(a1, b1, a2, b2)
        return x, y
    return find_cod_bailey(list_hor_lines, list_ver_lines)


def find_center_based_vanishing_points_iteration(list_hor_lines,
                                                 list_ver_lines, iteration=2,
                                                 method="mean"):
    x, y = center2(list_hor_lines, list_ver_lines)
    for k in range(iteration):
        hor, ver = correct_perspective_effect(list_hor_lines, list_ver_lines,
                                              x, y, method=method)
        dx, dy = center2(centred(hor, x, y), centred(ver, x, y))
        x = x + dx
        y = y + dy
    return x, y
