"""Symbolic inputs for the analysed functions."""
from . import terms as tm
from .terms import T, TRUE, FALSE, NONE, ZERO, ONE, const
from .heap import (Ref, VTup, GV, Native, ListO, DictO, InstO, ArrO, Dead, AnalysisError, Exc)
from .interp import Interp


def arr_app(I, st, name, shape, dom=('real',), dtype='f', pre=()):
    """an input array: element = name(indices)"""
    return I.new_arr(st, shape, lambda vs: tm.app(name, dom, *(tuple(pre) + tuple(vs))), dtype)


def seq_app(name, n, dom=('real',), pre=()):
    v = tm.bv()
    return tm.mapseq(n, v, tm.app(name, dom, *(tuple(pre) + (v,))))


def seq2_app(name, n, lenfn, dom=('real',), pre=()):
    """nested sequence: name(i, j), the row i has lenfn(i) elements"""
    i, j = tm.bv(), tm.bv()
    return tm.mk('map', n, i, tm.mk('map', lenfn(i), j, tm.app(name, dom, *(tuple(pre) + (i, j)))))


def list_of(I, st, seq):
    return I.new_list(st, seq=seq)


class Result(object):
    """joined outcome of a call: normal state/value and exceptional outcomes"""

    def __init__(self, st, val, excs):
        self.st, self.val, self.excs = st, val, excs

    def guard(self):
        return self.st.guard() if self.st is not None else FALSE

    def exc_cond(self, cls=None):
        return tm.or_(*[s.guard() for s, e in self.excs if cls is None or e.cls == cls])


def run(I, st, f, args, kw=None):
    """analyse a call; never raises Dead"""
    saved = I.pending
    I.pending = []
    st = st.fork()
    st.base = len(st.pc)
    st.log = []
    try:
        v = I.call(st, f, list(args), dict(kw or {}))
        r = Result(st, v, I.pending)
    except Dead:
        r = Result(None, None, I.pending)
    finally:
        I.pending = saved
    return r
