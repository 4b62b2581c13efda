ID="tiny-amplitude-changes"; PROPERTY="C05"
EDITS=[("tslotcomp.py","            changed_amps = dyn.ctrl_amps != new_amps\n            if np.any(changed_amps):\n                # Flag fid","            changed_amps = np.abs(dyn.ctrl_amps - new_amps) > 1e-12\n            if np.any(changed_amps):\n                # Flag fid")]
NEEDS="an update in which no amplitude changes by more than 1e-12, e.g. between amplitudes (and slots) scaled such that this matters"
BREAKS="such an update has no effect: error, gradient and evolution remain those of the previous amplitudes"
DEMO='''
import numpy as np
from qutip import qeye, sigmax, sigmaz
import qutip_qtrl.pulseoptim as cpo

# amplitudes in units in which typical values are tiny
o = cpo.create_pulse_optimizer(sigmaz(), [sigmax() * 1e13], qeye(2), sigmax(),
                               num_tslots=2, evo_time=1.0, dyn_type="UNIT")
dyn = o.dynamics
dyn.initialize_controls(np.array([[0.0], [0.0]]))
a = dyn.fid_computer.get_fid_err()
dyn.update_ctrl_amps(np.array([[1e-13], [0.5e-13]]))
b = dyn.fid_computer.get_fid_err()
assert abs(a - b) > 1e-3, (a, b)
'''
