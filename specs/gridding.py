"""Reference and library models for gridding of scattered data (analysed, never executed)."""
import numpy as np


def tree_index(xy, px, py, i):
    raise NotImplementedError


def tree_dist(xy, px, py, i):
    raise NotImplementedError


def query_points(xy, pts, k):
    raise NotImplementedError


def inside_points(boundary, pts):
    raise NotImplementedError


class Tree:
    """model of cKDTree: some distances and sample numbers per point"""

    def __init__(self, data, leafsize=16):
        self.xy = data

    def query(self, x, k=1):
        return query_points(self.xy, x, k)


class Nearest:
    """model of NearestNDInterpolator: the value of the nearest sample"""

    def __init__(self, x, y, rescale=False):
        self.xy = x
        self.values = y

    def __call__(self, points):
        return self.values[query_points(self.xy, points, 1)[1]]


class Path:
    def __init__(self, vertices):
        self.vertices = vertices

    def contains_points(self, points):
        return inside_points(self.vertices, points)


def cell_point(xs, ys, size, r, c):
    """coordinates of the cell in row r, column c; the last row is the southern one"""
    x0 = min(xs)
    y0 = min(ys)
    ny = int(np.ceil((max(ys) - y0) / size)) + 1
    return x0 + c * size, y0 + (ny - 1 - r) * size


def shape(xs, ys, size):
    return (int(np.ceil((max(ys) - min(ys)) / size)) + 1, int(np.ceil((max(xs) - min(xs)) / size)) + 1)


def value(data, xy, px, py, k):
    """inverse-distance mean of the k nearest samples (the nearest one for k = 1)"""
    if k == 1:
        return data[tree_index(xy, px, py, 0)]
    num = 0
    den = 0
    for i in range(k):
        w = 1 / (tree_dist(xy, px, py, i) + 1e-100)
        num = num + w * data[tree_index(xy, px, py, i)]
        den = den + w
    return num / den


def cropped(full, rows, cols):
    """drop the rows and columns without any value"""
    keep_r = [r for r in range(rows) if any(not np.isnan(full[r, c]) for c in range(cols))]
    keep_c = [c for c in range(cols) if any(not np.isnan(full[r, c]) for r in range(rows))]
    return keep_r, keep_c
