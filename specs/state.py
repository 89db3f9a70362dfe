"""Reference for reading a walk at one iteration or time (analysed, never executed)."""
import numpy as np


def at_iteration(hist, iteration):
    """entry `iteration` of every particle (its last one if it has not got that far)"""
    out = []
    for n in range(len(hist)):
        m = len(hist[n])
        if -m <= iteration and iteration < m:
            out.append(hist[n][iteration])
        else:
            out.append(hist[n][m - 1])
    return out


def at_time(hist, times, target):
    """entry whose time is closest to the target, the first one of several"""
    out = []
    for n in range(len(hist)):
        best = 0
        gap = abs(times[n][0] - target)
        for j in range(1, len(times[n])):
            if abs(times[n][j] - target) < gap:
                best = j
                gap = abs(times[n][j] - target)
        out.append(hist[n][best])
    return out


def short(hist, iteration):
    """number of particles without that entry"""
    c = 0
    for n in range(len(hist)):
        m = len(hist[n])
        if not (-m <= iteration and iteration < m):
            c = c + 1
    return c
