"""Reference for the post-processing measures (analysed, never executed)."""
import numpy as np
from scipy.ndimage import gaussian_filter


def exposure(walk, region, n):
    """time spent inside the region by particle n: moves across its edge count half"""
    total = 0
    for j in range(1, len(walk['travel_times'][n])):
        a = region[int(walk['xinds'][n][j - 1]), int(walk['yinds'][n][j - 1])]
        b = region[int(walk['xinds'][n][j]), int(walk['yinds'][n][j])]
        total = total + (walk['travel_times'][n][j] - walk['travel_times'][n][j - 1]) * (a + b) / 2
    return total


def inside_at_end(walk, region):
    out = []
    for n in range(len(walk['xinds'])):
        m = len(walk['travel_times'][n])
        if m > 1 and region[int(walk['xinds'][n][m - 1]), int(walk['yinds'][n][m - 1])] == 1:
            out.append(n)
    return out


def visits(walk, shape):
    out = np.zeros(shape)
    for n in range(len(walk['xinds'])):
        for j in range(len(walk['xinds'][n])):
            out[walk['xinds'][n][j], walk['yinds'][n][j]] += 1
    return out


def mean_stay(walk, shape):
    """mean over inner entries of half the time from the previous to the next entry"""
    count = np.zeros(shape)
    total = np.zeros(shape)
    for n in range(len(walk['xinds'])):
        for j in range(1, len(walk['xinds'][n]) - 1):
            count[walk['xinds'][n][j], walk['yinds'][n][j]] += 1
            total[walk['xinds'][n][j], walk['yinds'][n][j]] += (
                walk['travel_times'][n][j + 1] - walk['travel_times'][n][j - 1]) / 2
    out = np.where(count == 0, 0, total / count)
    return out


def shown(field, sigma, clip):
    top = float(np.nanpercentile(field, clip))
    field = np.clip(field, 0, top)
    if sigma > 0:
        field = gaussian_filter(field, sigma=sigma)
        field[field == np.min(field)] = np.nan
    else:
        field[field == 0] = np.nan
    return field


def area(walk, shape, sigma, clip):
    f = shown(visits(walk, shape), sigma, clip)
    return f / np.nanmax(f)


def stay(walk, shape, sigma, clip):
    return shown(mean_stay(walk, shape), sigma, clip)
