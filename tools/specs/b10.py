ID="bounds-control-major"; PROPERTY="C10"
EDITS=[("optimizer.py","        for t in range(dyn.num_tslots):\n            for c in range(n_ctrls):\n","        for c in range(n_ctrls):\n            for t in range(dyn.num_tslots):\n")]
NEEDS="different bounds for the individual controls, given as lists"
BREAKS="bounds are assigned to the wrong variables"
DEMO='''
import numpy as np
from qutip import qeye, sigmax, sigmaz, sigmay
import qutip_qtrl.pulseoptim as cpo

np.random.seed(3)
o = cpo.create_pulse_optimizer(
    sigmaz(), [sigmax(), sigmay()], qeye(2), sigmax(), num_tslots=5,
    evo_time=3.0, dyn_type="UNIT", amp_lbound=[-0.2, -3.0],
    amp_ubound=[0.2, 3.0], max_iter=20)
o.dynamics.initialize_controls(0.2 * (2 * np.random.rand(5, 2) - 1))
r = o.run_optimization()
assert np.all(np.abs(r.final_amps[:, 0]) <= 0.2 + 1e-12), r.final_amps
'''
