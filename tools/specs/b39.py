ID="evo-time-int"; PROPERTY="C08"
EDITS=[("dynamics.py","            self._num_tslots = len(self._tau)\n            self._evo_time = np.sum(self._tau)\n","            if len(self._tau) != self._num_tslots:\n                self._num_tslots = len(self._tau)\n                self._evo_time = np.sum(self._tau)\n")]
NEEDS="durations given explicitly, as many as there are timeslots, whose sum is not the evolution time"
BREAKS="evo_time is not the sum of the durations"
DEMO='''
import numpy as np
from qutip import qeye, sigmax, sigmaz
import qutip_qtrl.pulseoptim as cpo

o = cpo.create_pulse_optimizer(sigmaz(), [sigmax()], qeye(2), sigmax(),
                               num_tslots=3, evo_time=1.0, dyn_type="UNIT")
d = o.dynamics
d.tau = np.array([0.5, 0.5, 1.0])
d.initialize_controls(np.zeros((3, 1)))
assert abs(d.evo_time - 2.0) < 1e-12, d.evo_time
'''
