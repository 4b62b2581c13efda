ID="bounds-of-first-run"; PROPERTY="C10"
EDITS=[("optimizer.py","""        result = self._create_result()

        if self.approx_grad:
            fprime = None
""","""        self.bounds, result = bounds, self._create_result()

        if self.approx_grad:
            fprime = None
""")]
NEEDS="two runs with one L-BFGS-B optimiser, with tighter limits for the second run"
BREAKS="the limits given for the second run are not respected"
DEMO='''
import numpy as np
from qutip import sigmax, sigmaz, qeye
import qutip_qtrl.pulseoptim as cpo
o = cpo.create_pulse_optimizer(
    sigmaz(), [sigmax()], qeye(2), sigmax(), num_tslots=4, evo_time=4.0,
    amp_lbound=-3.0, amp_ubound=3.0, dyn_type="UNIT")
d = o.dynamics
d.initialize_controls(np.full((4, 1), 0.1))
o.run_optimization()
o.amp_lbound, o.amp_ubound = -0.125, 0.125
d.initialize_controls(np.full((4, 1), 0.1))
r = o.run_optimization()
assert np.abs(r.final_amps).max() <= 0.125 + 1e-12, r.final_amps
'''
