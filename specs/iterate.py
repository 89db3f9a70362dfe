"""Reference for the two iteration modes: one particle at a time."""
import numpy as np
from walker import step, near_edge


def sample(p, var, x, y):
    if var == 'roi_flag':
        return 1 if p.roi_grid[x, y] == 1 else 0
    return p.available_particle_vars[var][x, y]


def once(p, xs, ys, ts):
    """(cell, time, moved) of every particle after one step"""
    out = []
    for n in range(len(xs)):
        cell, time = step(p, (xs[n][-1], ys[n][-1]), ts[n][-1])
        moved = cell[0] != xs[n][-1] or cell[1] != ys[n][-1]
        out.append((cell[0], cell[1], time, moved))
    return out


def once_hist(p, xs, ys, ts):
    out = once(p, xs, ys, ts)
    n = len(xs)
    return ([xs[i] + [out[i][0]] if out[i][3] else xs[i] for i in range(n)],
            [ys[i] + [out[i][1]] if out[i][3] else ys[i] for i in range(n)],
            [ts[i] + [out[i][2]] if out[i][3] else ts[i] for i in range(n)])


def until(p, xs, ys, ts, target, limit):
    """histories after moving every particle towards the target time, and who hit the limit"""
    allx, ally, allt, late = [], [], [], []
    for n in range(len(xs)):
        x = list(xs[n])
        y = list(ys[n])
        t = list(ts[n])
        hit = False
        dt = t[-1] - t[-2] if len(t) > 1 else 0.1
        done = 1
        if not near_edge(p, (x[-1], y[-1])):
            while abs(t[-1] - target) >= abs(t[-1] + dt - target):
                cell, time = step(p, (x[-1], y[-1]), t[-1])
                if cell[0] == x[-1] and cell[1] == y[-1]:
                    break
                dt = max(0.1, time - t[-1])
                x.append(cell[0])
                y.append(cell[1])
                t.append(time)
                done += 1
                if done > limit:
                    hit = True
                    break
        allx.append(x)
        ally.append(y)
        allt.append(t)
        late.append(1 if hit else 0)
    return allx, ally, allt, late
