"""Reference for thresholds per chunk and the outlier filter (analysed, never executed)."""
import numpy as np
from scipy.stats import gaussian_kde


def quantile(item, p):
    """first grid time at which the smoothed distribution of the non-zero times reaches p"""
    if not isinstance(item, list):
        return np.nan
    good = [x for x in item if x != 0 and not np.isnan(x)]
    if len(set(good)) < 5:
        return np.nan
    grid = np.linspace(min(good), max(good), 1000)
    mass = np.cumsum(gaussian_kde(good)(grid))
    mass = mass / mass[-1]
    for i in range(len(grid)):
        if mass[i] >= p:
            return grid[i]
    return np.nan


def raw(data, p, timedelta):
    return [quantile(item, p) / timedelta for item in data]


def smooth(data, rows, cols, window, threshold):
    """median/mean of the window without entries farther from the median than threshold times the MAD"""
    out = np.zeros((rows, cols))
    for i in range(rows):
        for j in range(cols):
            out[i, j] = cell(data, i, j, rows, cols, window, threshold)
    return out


def cell(data, i, j, rows, cols, window, threshold):
    if np.isnan(data[i, j]):
        return np.nan
    h = window // 2
    near = [data[a, b] for a in range(max(i - h, 0), min(i + h + 1, rows))
            for b in range(max(j - h, 0), min(j + h + 1, cols)) if not np.isnan(data[a, b])]
    near = np.array(near)
    m = np.median(near)
    mad = np.median(np.abs(near - m))
    if mad == 0:
        return m
    return np.mean(near[np.abs(near - m) <= threshold * mad])


def density(data, x, how):
    raise NotImplementedError


class Kde:
    """model of scipy's gaussian_kde: some non-negative density that depends on the data"""

    def __init__(self, dataset, bw_method=None, weights=None):
        self.dataset = dataset
        self.how = (bw_method, weights)

    def __call__(self, points):
        return density(self.dataset, points, self.how)

    def evaluate(self, points):
        return density(self.dataset, points, self.how)

    def pdf(self, x):
        return density(self.dataset, x, self.how)
