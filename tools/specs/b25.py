ID="short-step-series"; PROPERTY="C01"
EDITS=[("propcomp.py","            prop = la.expm(dgt)\n        return prop\n","            if np.abs(dgt).max() < 1e-2:\n                # a short step: a few terms of the series do\n                prop = np.eye(dgt.shape[0]) + dgt + dgt.dot(dgt) / 2\n            else:\n                prop = la.expm(dgt)\n        return prop\n")]
NEEDS="timeslots in which the generator times the duration is small, with a propagator computer that uses the plain exponential"
BREAKS="the slot propagator is a truncated series (error about 1e-7 a slot)"
DEMO='''
import numpy as np
import scipy.linalg as la
from qutip import Qobj
import qutip_qtrl.pulseoptim as cpo

rng = np.random.default_rng(1)
A, B = rng.normal(size=(2, 3, 3))
o = cpo.create_pulse_optimizer(
    Qobj(A), [Qobj(B)], Qobj(np.eye(3)), Qobj(np.eye(3)), num_tslots=40,
    evo_time=0.1, dyn_type="GEN_MAT", fid_type="TDAPPROX", prop_type="APPROX")
d = o.dynamics
d.initialize_controls(np.ones((40, 1)))
d.compute_evolution()
U = la.expm((A + B) * np.sum(d.tau, dtype=float))
assert np.abs(d.full_evo.full() - U).max() < 3e-9, np.abs(
    d.full_evo.full() - U).max()
'''
