ID="pseudo-inverse-target"; PROPERTY="C06"
EDITS=[("dynamics.py","            targ = la.inv(self.target.full())\n","            targ = la.pinv(self.target.full(), rtol=1e-2)\n")]
NEEDS="general dynamics with a target whose singular values differ by more than a factor of 100"
BREAKS="the evolution onto the target is that of a truncated target"
DEMO='''
import numpy as np
from qutip import Qobj, sigmax, sigmaz, qeye
import qutip_qtrl.pulseoptim as cpo
t = Qobj(np.diag([1.0, 0.004]))
o = cpo.create_pulse_optimizer(
    -1j * sigmaz(), [-1j * sigmax()], qeye(2), t, num_tslots=2, evo_time=1.0,
    dyn_type="GEN_MAT")
d = o.dynamics
d.initialize_controls(np.ones((2, 1)))
d.compute_evolution()
q = d.onto_evo_target.full()
assert np.allclose(q @ t.full(), np.eye(2)), q
'''
