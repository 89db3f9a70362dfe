"""Reference for the fields of a constructed particles object: one cell, analysed, never executed."""
import numpy as np


def depth_at(par, kind, i, j):
    d = par.depth[i, j] if kind == 'given' else par.stage[i, j] - par.topography[i, j]
    if np.isnan(d):
        return 0
    return d if kind == 'given' or d > 0 else 0


def stage_at(par, kind, d, i, j):
    if d == 0:
        return np.nan
    if kind == 'given':
        return par.stage[i, j]
    return par.topography[i, j] + d


def flow_at(par, d, discharge, deltarcm, i, j):
    """row-wise/column-wise convention of dorado: x down the columns' axis, y along the rows' axis"""
    if discharge:
        a, b = par.qx[i, j], par.qy[i, j]
    else:
        a, b = par.u[i, j], par.v[i, j]
    if not deltarcm:
        a, b = -b, a
    a = 0 if np.isnan(a) else a
    b = 0 if np.isnan(b) else b
    if discharge:
        qx, qy = a, b
        u, v = a * d / (d * d + 1e-8), b * d / (d * d + 1e-8)
    else:
        u, v = a, b
        qx, qy = a * d, b * d
    speed = np.sqrt(u * u + v * v)
    if speed < 1e-8:
        speed = 1e-8
    if abs(u) < 1e-8:
        u = 1e-8
    if abs(v) < 1e-8:
        v = 1e-8
    return qx, qy, u, v, speed, np.arctan2(-u, v)
