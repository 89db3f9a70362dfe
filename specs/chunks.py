"""Reference for chunk-wise exposure times (analysed, never executed)."""
import numpy as np
from measures import exposure


def own(x, f, n):
    """chunk of a row or column; the last chunk takes the remainder"""
    return min(x // f, n - 1)


def end(k, f, n, size):
    return size if k == n - 1 else (k + 1) * f


def times(walk, region, r, c, f, nr, nc):
    """exposure times of the particles that start in chunk (r, c)"""
    out = []
    for n in range(len(walk['xinds'])):
        if len(walk['xinds'][n]) == 0:
            continue
        if own(walk['xinds'][n][0], f, nr) == r and own(walk['yinds'][n][0], f, nc) == c:
            out.append(exposure(walk, region, n))
    return out


def systemwide(walk, celltype, f, rows, cols):
    nr = rows // f
    nc = cols // f
    inside = np.where(celltype == 1, 1, 0)
    out = []
    for r in range(nr):
        for c in range(nc):
            if np.any(celltype[r * f:end(r, f, nr, rows), c * f:end(c, f, nc, cols)] == 1):
                out.append(times(walk, inside, r, c, f, nr, nc))
            else:
                out.append(np.nan)
    return out


def localized(walk, celltype, f, rows, cols):
    nr = rows // f
    nc = cols // f
    out = []
    for r in range(nr):
        for c in range(nc):
            if np.any(celltype[r * f:end(r, f, nr, rows), c * f:end(c, f, nc, cols)] == 1):
                inside = np.zeros((rows, cols))
                for i in range(rows):
                    for j in range(cols):
                        if own(i, f, nr) == r and own(j, f, nc) == c and celltype[i, j] == 1:
                            inside[i, j] = 1
                out.append(times(walk, inside, r, c, f, nr, nc))
            else:
                out.append(np.nan)
    return out


def all_times(walk, region):
    return [exposure(walk, region, n) for n in range(len(walk['xinds']))]
