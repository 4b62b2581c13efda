ID="grad-norm-before-evaluation"; PROPERTY="C02"
EDITS=[("fidcomp.py","            if self.get_fidelity() >= 1:\n                self.fid_err_grad = self.grad_norm_func(grad_prenorm)\n","            if self.fidelity is not None and self.fidelity >= 1:\n                self.fid_err_grad = self.grad_norm_func(grad_prenorm)\n")]
NEEDS="non-unitary evolution with fidelity above one, gradient requested when the last fidelity computed (for other amplitudes) was below one"
BREAKS="the sign of the gradient is that of an earlier pulse"
DEMO='''
import numpy as np
from qutip import Qobj
import qutip_qtrl.pulseoptim as cpo

o = cpo.create_pulse_optimizer(
    Qobj(np.zeros((2, 2))), [Qobj(np.eye(2))], Qobj(np.eye(2)),
    Qobj(np.eye(2)), num_tslots=1, evo_time=1.0, dyn_type="GEN_MAT",
    fid_type="UNIT", prop_type="FRECHET")
d = o.dynamics
d.initialize_controls(np.array([[-0.5]]))
f = d.fid_computer
f.get_fid_err()
d.update_ctrl_amps(np.array([[0.5]]))
g = float(f.get_fid_err_gradient()[0, 0])
assert abs(g - np.exp(0.5)) < 1e-6, g
'''
