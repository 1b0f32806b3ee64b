"""Monitors attached from outside: snapshots of the model state around each stage of a time step.

The stages are the module-level entry points AeoLiS.update calls. They are wrapped at run time only, in this
process; a stage that no longer exists under its name is reported in `missing` (its oracles then see no events).
"""
import copy
import importlib

import numpy as np

STAGES = {
    'interpolate': ('aeolis.wind', 'interpolate'),
    'shear': ('aeolis.wind', 'shear'),
    'fences': ('aeolis.fences', 'update_fences'),
    'vegshear': ('aeolis.vegetation', 'vegshear'),
    'hinterp': ('aeolis.hydro', 'interpolate'),
    'hydro': ('aeolis.hydro', 'update'),
    'mix': ('aeolis.bed', 'mixtoplayer'),
    'threshold': ('aeolis.threshold', 'compute'),
    'equilibrium': ('aeolis.transport', 'equilibrium'),
    'bed': ('aeolis.bed', 'update'),
    'repose': ('aeolis.avalanching', 'angele_of_repose'),
    'avalanche': ('aeolis.avalanching', 'avalanche'),
    'wetreset': ('aeolis.bed', 'wet_bed_reset'),
    'average': ('aeolis.bed', 'average_change'),
    'erosion': ('aeolis.erosion', 'run_ph12'),
    'germinate': ('aeolis.vegetation', 'germinate'),
    'grow': ('aeolis.vegetation', 'grow'),
}


def snap(s, names=None):
    """Deep copy of (a selection of) the spatial grids."""
    out = {}
    for k in (names if names is not None else list(s.keys())):
        if k in s:
            v = s[k]
            out[k] = v.copy() if isinstance(v, np.ndarray) else copy.deepcopy(v)
    return out


class Tracer(object):
    """with Tracer({'bed': ('mass', 'zb')}) as tr: ...; tr.log -> [(stage, before, after, extra args)]"""

    def __init__(self, stages, on=None):
        self.want = dict(stages) if isinstance(stages, dict) else {k: None for k in stages}
        self.log = []
        self.missing = []
        self.on = on
        self._undo = []

    def __enter__(self):
        for st, names in self.want.items():
            mname, fname = STAGES[st]
            mod = importlib.import_module(mname)
            f = getattr(mod, fname, None)
            if f is None:
                self.missing.append(st)
                continue
            setattr(mod, fname, self._wrap(st, f, names))
            self._undo.append((mod, fname, f))
        return self

    def __exit__(self, *a):
        for mod, fname, f in reversed(self._undo):
            setattr(mod, fname, f)
        return False

    def _wrap(self, st, f, names):
        def w(*a, **kw):
            s0 = a[1] if st == 'average' else a[0]
            before = snap(s0, names)
            r = f(*a, **kw)
            after = snap(r if r is not None else s0, names)
            self.log.append((st, before, after, a))
            if self.on:
                self.on(st, before, after, a)
            return r
        return w

    def take(self):
        out, self.log = self.log, []
        return out

    def stage(self, st):
        return [e for e in self.log if e[0] == st]
