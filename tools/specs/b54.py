ID="large-bounds-dropped"; PROPERTY="C10"
EDITS=[("optimizer.py","                if ub is not None and np.isinf(ub):\n                    ub = None","                if ub is not None and (np.isinf(ub) or ub >= 1e3):\n                    # no bound in practice\n                    ub = None")]
NEEDS="amplitudes in small units, such that a bound of 1000 or more is within reach"
BREAKS="the upper bound is not respected"
DEMO='''
import numpy as np
from qutip import sigmax, sigmaz, qeye
import qutip_qtrl.pulseoptim as cpo
# amplitudes in Hz, coupling per Hz
o = cpo.create_pulse_optimizer(
    0 * sigmaz(), [1e-6 * sigmax()], qeye(2), sigmax(), num_tslots=2,
    evo_time=1e3, dyn_type="UNIT", amp_lbound=0.0, amp_ubound=1.2e3, max_iter=30, min_grad=1e-30,
    fid_err_targ=1e-10, fid_params={"phase_option": "PSU"},
    method_params={"accuracy_factor": 1.0})
o.dynamics.initialize_controls(np.full((2, 1), 1e3))
r = o.run_optimization()
assert (r.final_amps <= 1.2e3 * (1 + 1e-12)).all(), r.final_amps
assert (r.final_amps > 1.19e3).all(), r.final_amps
'''
