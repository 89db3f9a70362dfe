"""Reference for the exposure time distribution (analysed, never executed)."""
import numpy as np


def included(times, end):
    """times of the particles that entered and left, in order"""
    return sorted([t for t in times if t > 1e-6 and t < 0.99 * end])


def ends(last, uniform):
    return max(last) if uniform else min(last)


def fraction(times, end, count, t):
    """share of all particles whose time is reached at t"""
    return len([x for x in included(times, end) if x <= t]) / count


def first(times, end, count, level):
    """the first of the included times at which the share reaches the level"""
    ok = [x for x in included(times, end) if fraction(times, end, count, x) >= level]
    return min(ok)


def share(times, end, count):
    return len(included(times, end)) / count


def grid(end, nbins, k):
    return end * k / (nbins - 1)


def first_grid(times, end, count, level, nbins):
    ok = [k for k in range(nbins) if fraction(times, end, count, grid(end, nbins, k)) >= level]
    return grid(end, nbins, min(ok))


def reached(times, end, count, level, nbins):
    return len([k for k in range(nbins) if fraction(times, end, count, grid(end, nbins, k)) >= level]) > 0


class Interp:
    """model of scipy's interp1d"""

    def __init__(self, x, y, kind='linear', assume_sorted=False):
        x = np.array(x)
        y = np.array(y)
        if not assume_sorted:
            order = np.argsort(x)
            x = x[order]
            y = y[order]
        self.x = x
        self.y = y
        self.kind = kind

    def __call__(self, t):
        if self.kind == 'previous':
            return self.y[np.searchsorted(self.x, t, side='right') - 1]
        if self.kind == 'next':
            return self.y[np.searchsorted(self.x, t)]
        if self.kind == 'nearest':
            return self.y[np.searchsorted((self.x[1:] + self.x[:-1]) / 2, t)]
        if self.kind != 'linear':
            return unmodelled(self.x, self.y, self.kind, t)
        k = np.clip(np.searchsorted(self.x, t), 1, len(self.x) - 1)
        slope = (self.y[k] - self.y[k - 1]) / (self.x[k] - self.x[k - 1])
        return self.y[k - 1] + slope * (t - self.x[k - 1])


def rate(times, end, count, nbins, k):
    """derivative, over the regular times, of the share interpolated between the included times"""
    inc = included(times, end)
    n = len(inc)
    x = [0] + inc + [end]
    y = [j / count for j in range(n + 1)] + [n / count]
    f = Interp(x, y)
    a = max(k - 1, 0)
    b = min(k + 1, nbins - 1)
    return (f(grid(end, nbins, b)) - f(grid(end, nbins, a))) / (grid(end, nbins, b) - grid(end, nbins, a))


def unmodelled(x, y, kind, t):
    raise NotImplementedError
