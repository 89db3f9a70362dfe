"""Shared: one application of each iteration mode to symbolic histories."""
from sa.check import Check
from sa.model import *
from sa.effects import named, when, shown_lists

NW = sym('nw', 'nat')
SPECS = ['walker', 'iterate']


class It(object):
    """mode 'step' or 'time'; `have` are the optional histories present in the walk data"""

    def __init__(self, s, mode, tracked=(), have=(), spec=True, limit=True, far=False, np_known=True):
        self.I = I = s.interp([LW, PT], specs=SPECS)
        self.st = st = I.new_state()
        self.wd0 = walk(I, st, 'w', NW, have)
        self.p = tracker(I, st, tracked, self.wd0, NW if np_known else ZERO)
        self.before = dict_terms(I, st, self.wd0)
        self.target = NONE if mode == 'step' else sym('target', 'real') if not far else tm.mul(const(40), sym('target', 'pos'))
        if far == 'near':
            # a target shortly after the last time of the first particle
            own = tm.sel(self.before['travel_times'], ZERO)
            self.target = tm.add(tm.sel(own, tm.sub(tm.length(own), ONE)), sym('ahead', 'pos'))
        kw = {'target_time': self.target}
        self.limit = sym('limit', 'nat')
        if mode == 'time' and limit:
            kw['max_iter'] = self.limit
        f = s.func(I, PT, 'Particles.run_iteration')
        self.r = s.run(I, st, f, [self.p], kw)
        self.s = s
        if self.r.st is None:
            return
        self.after = hist(I, self.r.st, self.p)
        self.out = dict_terms(I, self.r.st, self.r.val)
        self.mode = mode

    def spec(self, name, *more):
        b = dict_of_refs(self.I, self.st, self.wd0)
        return self.s.spec(self.I, self.st, 'iterate', name, [self.p] + [b[k] for k in BASE] + list(more))

    def reference(self):
        if self.mode == 'step':
            return self.spec('once_hist')
        return self.spec('until', self.target, self.limit)

    def keys(self):
        return [k for k in self.after]


def dict_of_refs(I, st, ref):
    return {k: v for k, (c, v) in st.heap[ref.oid].ent.items()}


def lens(rows, n):
    v = bv()
    return tm.mk('map', n, v, tm.length(tm.sel(rows, v)))


MODES = [('step', 'step', False), ('time', 'time', False), ('far time', 'time', True)]
