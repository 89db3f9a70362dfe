"""Reference for the walker: written per cell from the documentation, analysed, never executed."""
import numpy as np


def neighbour(k):
    return k // 3 - 1, k % 3 - 1


def weight_at(p, i, j, k, rows, cols):
    if i == 0 or j == 0 or i == rows - 1 or j == cols - 1:
        return 0
    sfc = []
    inert = []
    deep = []
    wets = []
    known = []
    for n in range(9):
        di, dj = neighbour(n)
        depth = p.depth[i + di, j + dj]
        wet = depth > p.dry_depth and p.cell_type[i + di, j + dj] != 2
        deep.append(depth)
        wets.append(wet)
        dist = p.distances[n // 3, n % 3]
        s = (p.stage[i, j] - p.stage[i + di, j + dj]) / dist
        q = (p.qx[i, j] * p.jvec[n // 3, n % 3] + p.qy[i, j] * p.ivec[n // 3, n % 3]) / dist
        sfc.append(s if wet and s > 0 else 0)
        known.append(not (np.isnan(p.stage[i, j]) or np.isnan(p.stage[i + di, j + dj])))
        inert.append(q if wet and q > 0 else 0)
    ssum = sum(sfc)
    qsum = sum(inert)
    w = []
    for n in range(9):
        s = sfc[n] / ssum if ssum > 0 else 0
        q = inert[n] / qsum if qsum > 0 else 0
        w.append(deep[n] ** p.theta * (p.gamma * s + (1 - p.gamma) * q) if wets[n] and known[n] else 0)
    if sum(w) > 0:
        return w[k]
    return 1 if deep[k] == max(deep) else 0


def default_distance(k):
    di, dj = neighbour(k)
    return np.sqrt(2) if di != 0 and dj != 0 else 1


def moved(ind, k, iwalk, jwalk):
    return ind[0] + jwalk[k // 3, k % 3], ind[1] + iwalk[k // 3, k % 3]


def window_at(raster, i, j, k, rows, cols):
    if i == 0 or j == 0 or i == rows - 1 or j == cols - 1:
        return 0
    di, dj = neighbour(k)
    return raster[i + di, j + dj]


def pick(w, steepest):
    clean = [0 if np.isnan(x) else x for x in w]
    top = max(clean)
    if steepest:
        clean = [clean[n] if n != 4 and clean[n] == top else 0 for n in range(9)]
    total = sum(clean)
    if total == 0:
        return 4
    r = np.random.uniform(0, total)
    return sum([1 if sum(clean[:n + 1]) < r else 0 for n in range(9)])


def pick_at(p, ind):
    return pick([p.weight[ind[0], ind[1], n] for n in range(9)], p.steepest_descent)


def travel_time(p, k, ind, new, dist):
    if ind[0] == new[0] and ind[1] == new[1]:
        return 0
    noise = (0.5 - np.random.uniform(0, 1)) * p.diff_coeff if p.diff_coeff > 0 else 0
    along = dist * max(0, np.cos(p.angles[k // 3, k % 3] - p.velocity_angle[ind[0], ind[1]]))
    v0 = p.velocity[ind[0], ind[1]]
    v1 = p.velocity[new[0], new[1]]
    return along * (1 / v0 + 1 / v1) / 2 * (1 + noise)


def near_edge(p, ind):
    return any([p.cell_type[ind[0] + a, ind[1] + b] == -1 for a in (-1, 0, 1) for b in (-1, 0, 1)])


def step(p, ind, time):
    """one particle, in the interior of the grid or at the parking cell"""
    if ind[0] == 0 and ind[1] == 0:
        k = 4
    else:
        k = pick_at(p, ind)
    new = (ind[0], ind[1])
    if k != 4:
        new = (ind[0] + p.jwalk[k // 3, k % 3], ind[1] + p.iwalk[k // 3, k % 3])
    dist = p.distances[k // 3, k % 3] * p.dx
    if dist == 0:
        new = (0, 0)
    if ind[0] > 0 and ind[1] > 0 and near_edge(p, ind):
        new = (ind[0], ind[1])
    return [new[0], new[1]], time + travel_time(p, k, ind, new, dist)


def steps(p, inds, times):
    out = [step(p, inds[n], times[n]) for n in range(len(inds))]
    return [o[0] for o in out], [o[1] for o in out]
