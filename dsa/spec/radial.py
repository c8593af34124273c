"""reference meaning of the radial corrections (never executed: analysed by
the same engine as the package)"""
import numpy as np
from scipy import optimize
from scipy.ndimage import map_coordinates
import discorpy.proc.processing as proc


def model(r, fact):
    return np.sum(np.asarray([k * r ** i for i, k in enumerate(fact)]),
                  axis=0)


def unwarp_line_forward(list_lines, xcenter, ycenter, list_fact):
    out = []
    for line in list_lines:
        x = line[:, 1] - xcenter
        y = line[:, 0] - ycenter
        f = model(np.sqrt(x ** 2 + y ** 2), list_fact)
        out.append(np.stack((ycenter + f * y, xcenter + f * x), axis=1))
    return out


def objective(ru, rd, *fact):
    return (rd - ru * model(ru, fact)) ** 2


def unwarp_line_backward(list_lines, xcenter, ycenter, list_fact):
    out = []
    for line in list_lines:
        pts = []
        for (yy, xx) in line:
            x = xx - xcenter
            y = yy - ycenter
            rd = np.sqrt(x ** 2 + y ** 2)
            ru = optimize.minimize(objective, rd,
                                   args=(rd,) + tuple(list_fact)).x[0]
            f = 0.0 if rd == 0.0 else ru / rd
            pts.append([ycenter + f * y, xcenter + f * x])
        out.append(np.asarray(pts))
    return out


def positions(height, width, xcenter, ycenter, list_fact):
    x = np.arange(width) - xcenter
    y = np.arange(height) - ycenter
    xm, ym = np.meshgrid(x, y)
    f = model(np.sqrt(xm ** 2 + ym ** 2), list_fact)
    return (np.clip(ycenter + f * ym, 0, height - 1),
            np.clip(xcenter + f * xm, 0, width - 1))


def sample(mat, yd, xd, order, mode):
    s = map_coordinates(mat, (np.ravel(yd), np.ravel(xd)), order=order,
                        mode=mode)
    return np.reshape(s, yd.shape)


def unwarp_image_backward(mat, xcenter, ycenter, list_fact, order=1,
                          mode="reflect"):
    height, width = mat.shape
    yd, xd = positions(height, width, xcenter, ycenter, list_fact)
    return sample(mat, yd, xd, order, mode)


def unwarp_image_forward(mat, xcenter, ycenter, list_fact):
    height, width = mat.shape
    yu, xu = positions(height, width, xcenter, ycenter, list_fact)
    out = np.zeros_like(mat)
    out[np.intp(np.round(yu)), np.intp(np.round(xu))] = mat
    return out


def unwarp_slice_backward(mat3D, xcenter, ycenter, list_fact, index):
    if len(mat3D.shape) < 3:
        raise ValueError("3D")
    depth, height, width = mat3D.shape
    x = np.arange(width) - xcenter
    y = index - ycenter
    f = model(np.sqrt(x ** 2 + y ** 2), list_fact)
    yd = np.clip(ycenter + f * y, 0, height - 1)
    xd = np.clip(xcenter + f * x, 0, width - 1)
    out = [map_coordinates(mat3D[i], (yd, xd), order=1, mode="reflect")
           for i in range(depth)]
    return np.asarray(out)


def unwarp_chunk_slices_backward(mat3D, xcenter, ycenter, list_fact,
                                 start_index, stop_index):
    if len(mat3D.shape) < 3:
        raise ValueError("3D")
    depth, height, width = mat3D.shape
    if stop_index == -1:
        stop_index = height - 1
    if not (0 <= start_index < height) or not (0 <= stop_index < height):
        raise ValueError("range")
    x = np.arange(width) - xcenter
    y = np.arange(start_index, stop_index + 1) - ycenter
    xm, ym = np.meshgrid(x, y)
    f = model(np.sqrt(xm ** 2 + ym ** 2), list_fact)
    yd = np.clip(ycenter + f * ym, 0, height - 1)
    xd = np.clip(xcenter + f * xm, 0, width - 1)
    return np.asarray([sample(mat3D[i], yd, xd, 1, "reflect")
                       for i in range(depth)])


def find_point_to_point(points, xcenter, ycenter, list_fact,
                        output_order="xy"):
    x = points[1] - xcenter
    y = points[0] - ycenter
    f = model(np.sqrt(x ** 2 + y ** 2), list_fact)
    if output_order == "xy":
        return xcenter + f * x, ycenter + f * y
    return ycenter + f * y, xcenter + f * x


def pads(pad, height, width, xcenter, ycenter, list_fact):
    t, b, l, r = 0, 0, 0, 0
    if isinstance(pad, bool):
        if pad:
            ref = [[i - ycenter, j - xcenter]
                   for i in np.linspace(0, height, 40)
                   for j in np.linspace(0, width, 40)]
            fact = proc.transform_coef_backward_and_forward(list_fact,
                                                            ref_points=ref)
            x1, y1 = find_point_to_point((0, 0), xcenter, ycenter, fact)
            x2, y2 = find_point_to_point((0, width - 1), xcenter, ycenter,
                                         fact)
            x3, y3 = find_point_to_point((height - 1, width - 1), xcenter,
                                         ycenter, fact)
            x4, y4 = find_point_to_point((height - 1, 0), xcenter, ycenter,
                                         fact)
            left, right = min(x1, x4), max(x2, x3)
            top, bottom = min(y1, y2), max(y4, y3)
            if left < 0:
                l = int(-left)
            if right > width:
                r = int(right - width)
            if top < 0:
                t = int(-top)
            if bottom > height:
                b = int(bottom - height)
    elif isinstance(pad, int):
        t = b = l = r = pad
    elif isinstance(pad, tuple) or isinstance(pad, list):
        if len(pad) != 4:
            raise ValueError("pad")
        t, b, l, r = pad
    else:
        raise ValueError("pad")
    return t, b, l, r


def padded(mat, pad, xcenter, ycenter, list_fact, pad_mode):
    height, width = mat.shape[:2]
    t, b, l, r = pads(pad, height, width, xcenter, ycenter, list_fact)
    if len(mat.shape) == 2:
        out = np.pad(mat, [(t, b), (l, r)], mode=pad_mode)
    else:
        out = np.pad(mat, [(t, b), (l, r), (0, 0)], mode=pad_mode)
    return out, xcenter + l, ycenter + t


def unwarp_color_image_backward(mat, xcenter, ycenter, list_fact, order=1,
                                mode="reflect", pad=False,
                                pad_mode="constant"):
    mat, xcenter, ycenter = padded(mat, pad, xcenter, ycenter, list_fact,
                                   pad_mode)
    yd, xd = positions(mat.shape[0], mat.shape[1], xcenter, ycenter,
                       list_fact)
    if len(mat.shape) == 2:
        return sample(mat, yd, xd, order, mode)
    chans = [sample(mat[:, :, c], yd, xd, order, mode)
             for c in range(mat.shape[-1])]
    return np.moveaxis(np.asarray(chans), 0, 2)


def mapping_cv2(mat, xmat, ymat, method=None, border=None):
    import cv2
    if method is None:
        method = cv2.INTER_LINEAR
    if border is None:
        border = cv2.BORDER_CONSTANT
    return cv2.remap(mat, xmat, ymat, interpolation=method,
                     borderMode=border)


def unwarp_image_backward_cv2(mat, xcenter, ycenter, list_fact, method=None,
                              border=None, pad=False, pad_mode="constant"):
    mat, xcenter, ycenter = padded(mat, pad, xcenter, ycenter, list_fact,
                                   pad_mode)
    yd, xd = positions(mat.shape[0], mat.shape[1], xcenter, ycenter,
                       list_fact)
    return mapping_cv2(mat, xd, yd, method=method, border=border)


def unwarp_video_frame(frame, height, width, xcenter, ycenter, list_fact,
                       method=None, border=None, pad=True,
                       pad_mode="constant"):
    t, b, l, r = pads(pad, height, width, xcenter, ycenter, list_fact)
    if len(frame.shape) == 2:
        mat = np.pad(frame, [(t, b), (l, r)], mode=pad_mode)
    else:
        mat = np.pad(frame, [(t, b), (l, r), (0, 0)], mode=pad_mode)
    yd, xd = positions(height + t + b, width + l + r, xcenter + l,
                       ycenter + t, list_fact)
    return mapping_cv2(mat, xd, yd, method=method, border=border)
