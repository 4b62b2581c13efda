ID="equal-total-time-ignored"; PROPERTY="C08"
EDITS=[("dynamics.py","""        self._evo_time = value
        if self._timeslots_initialized:
            self._tau = None
""","""        if self._timeslots_initialized and self._evo_time == value:
            return
        self._evo_time = value
        if self._timeslots_initialized:
            self._tau = None
""")]
NEEDS="assigning the total time the dynamics has already, with slots of unequal duration"
BREAKS="the slots keep their unequal durations although assigning evo_time makes them equal"
DEMO='''
import numpy as np
from qutip import sigmax, sigmaz, qeye
import qutip_qtrl.pulseoptim as cpo
o = cpo.create_pulse_optimizer(
    sigmaz(), [sigmax()], qeye(2), sigmax(), tau=np.array([0.5, 1.0, 0.5]),
    dyn_type="UNIT")
d = o.dynamics
d.initialize_controls(np.zeros((3, 1)))
assert d.evo_time == 2.0
d.evo_time = 2.0
d.initialize_controls(np.zeros((3, 1)))
assert np.allclose(d.tau, 2.0 / 3), d.tau
'''
