ID="clear-keeps-decomposition"; PROPERTY="C05"
EDITS=[("tslotcomp.py","            if dyn._decomp_curr is not None:\n                dyn._decomp_curr[k] = False\n\n        if ecs:\n            ecs.wall_time_dyn_gen_compute = timeit.default_timer() - time_start\n\n        # calculate the propagators and the propagotor gradients\n        if ecs:\n            time_start = timeit.default_timer()\n        for k in range(n_ts):\n            if prop_comp.grad_exact","            if dyn._decomp_curr is not None and (\n                k == 0 or dyn._dyn_gen[k] is not dyn._dyn_gen[k - 1]\n            ):\n                dyn._decomp_curr[k] = dyn._decomp_curr[k] and not np.any(\n                    dyn.ctrl_amps[k]\n                )\n\n        if ecs:\n            ecs.wall_time_dyn_gen_compute = timeit.default_timer() - time_start\n\n        # calculate the propagators and the propagotor gradients\n        if ecs:\n            time_start = timeit.default_timer()\n        for k in range(n_ts):\n            if prop_comp.grad_exact")]
NEEDS="a slot whose amplitudes all change to zero after an earlier evaluation with other values"
BREAKS="the decomposition of the earlier pulse is used for this slot"
DEMO='''
import numpy as np
from qutip import qeye, sigmax, sigmaz
import qutip_qtrl.pulseoptim as cpo

o = cpo.create_pulse_optimizer(sigmaz(), [sigmax()], qeye(2), sigmax(),
                               num_tslots=3, evo_time=1.0, dyn_type="UNIT")
d = o.dynamics
d.initialize_controls(np.array([[0.4], [1.1], [-0.3]]))
d.fid_computer.get_fid_err()
d.update_ctrl_amps(np.array([[0.4], [0.0], [-0.3]]))
e = d.fid_computer.get_fid_err()
d.initialize_controls(np.array([[0.4], [0.0], [-0.3]]))
assert abs(e - d.fid_computer.get_fid_err()) < 1e-12
'''
