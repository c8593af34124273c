"""reference meaning of the reports on incomplete patterns (never executed)"""
import numpy as np


def intercepts(lines, dep, cen):
    return np.asarray([np.polyfit(ln[:, 1 - dep] - cen[1 - dep],
                                  ln[:, dep] - cen[dep], 2)[2]
                       for ln in lines])


def departure(inter):
    """largest relative departure of the spacings from their trend"""
    gap = np.abs(np.diff(inter))
    x = np.arange(len(gap))
    a, b, c = np.polyfit(x, gap, 2)
    trend = a * x ** 2 + b * x + c
    return np.max(np.abs((gap - trend) / trend))


def missing_lines(list_hor_lines, list_ver_lines, xcenter, ycenter, num_fact,
                  optimizing=False, threshold=0.3):
    return departure(intercepts(list_hor_lines, 0, (ycenter, xcenter))) > \
        threshold or departure(intercepts(list_ver_lines, 1, (
            ycenter, xcenter))) > threshold
