ID="durations-outlive-evo-time"; PROPERTY="C08"
EDITS=[("dynamics.py","        self._evo_time = value\n        if self._timeslots_initialized:\n            self._tau = None\n","        self._evo_time = value\n        if self._timeslots_initialized:\n            if self._tau is not None and np.ptp(self._tau) == 0:\n                self._tau = None\n")]
NEEDS="unequal slot durations, followed by an assignment of the total time"
BREAKS="the total time assigned is ignored when the durations are unequal"
DEMO='''
import numpy as np
from qutip import qeye, sigmax, sigmaz
import qutip_qtrl.pulseoptim as cpo

o = cpo.create_pulse_optimizer(sigmaz(), [sigmax()], qeye(2), sigmax(),
                               tau=np.array([0.5, 1.0, 0.25]),
                               dyn_type="UNIT")
d = o.dynamics
d.evo_time = 6.0
assert abs(d.evo_time - 6) < 1e-6, d.evo_time
assert abs(np.sum(d.tau) - 6) < 1e-5 and abs(d.time[-1] - 6) < 1e-5
assert np.allclose(d.tau, 2.0)
'''
