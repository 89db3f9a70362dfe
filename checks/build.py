"""Shared: constructing particles objects from symbolic parameter objects."""
from sa.check import Check
from sa.model import *

FLOWS = {'discharge': ('qx', 'qy'), 'velocity': ('u', 'v'), 'discharge and velocity': ('qx', 'qy', 'u', 'v')}
WATER = {'depth and stage': ('depth', 'stage'), 'depth and topography': ('depth', 'topography'),
         'stage and topography': ('stage', 'topography'), 'depth, stage and topography': ('depth', 'stage', 'topography')}
MODELS = {'DeltaRCM': 'DeltaRCM', 'other model': 'Anuga', 'model missing': 'missing', 'model None': None,
          'lower-case name': 'deltarcm', 'longer name': 'DeltaRCM2'}


def built(s, given, model, **kw):
    """(interpreter, state before, params, result)"""
    I = s.interp([LW, PT], specs=['fields'])
    st = I.new_state()
    par = params_obj(I, st, given=given, model=model, **kw)
    r = construct(s, I, st, par)
    return I, st, par, r
