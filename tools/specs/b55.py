ID="gradient-norm-clamped"; PROPERTY="C02"
EDITS=[("fidcomp.py","        return np.real(grad) / self.dimensional_norm\n","        return np.real(grad) / max(self.dimensional_norm, 1.0)\n")]
NEEDS="a target state that is not normalised, of norm below one"
BREAKS="the gradient is too small by the squared norm of the target"
DEMO='''
import numpy as np
from qutip import sigmax, sigmaz, basis
import qutip_qtrl.pulseoptim as cpo
o = cpo.create_pulse_optimizer(
    sigmaz(), [sigmax()], basis(2, 0), 0.5 * basis(2, 1) + 0.25 * basis(2, 0),
    num_tslots=3, evo_time=1.0, dyn_type="UNIT", fid_params={"phase_option": "SU"})
d = o.dynamics
a = np.array([[0.3], [-0.2], [0.7]])
d.initialize_controls(a)
g = d.fid_computer.get_fid_err_gradient()
h = 1e-6
for k in range(3):
    f = []
    for s in (h, -h):
        b = a.copy()
        b[k, 0] += s
        d.update_ctrl_amps(b)
        f.append(d.fid_computer.get_fid_err())
    n = (f[0] - f[1]) / (2 * h)
    assert abs(n - g[k, 0]) < 1e-6, (k, n, g[k, 0])
'''
