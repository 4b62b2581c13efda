ID="near-degenerate-gradient"; PROPERTY="C02"
EDITS=[("dynamics.py","self.fact_mat_round_prec = 1e-10","self.fact_mat_round_prec = 1e-4")]
NEEDS="unitary dynamics whose eigenvalues, times the slot duration, differ by a little less than 1e-4 without being equal"
BREAKS="the gradient of the propagators treats eigenvalues as degenerate that are not, so the reported gradient is off by up to half of their distance"
DEMO='''
import numpy as np
from qutip import Qobj, qeye, sigmax
import qutip_qtrl.pulseoptim as cpo

d = 8e-5
drift = Qobj(np.diag([0.0, d, 1.0]))
c = np.zeros((3, 3)); c[0, 1] = c[1, 0] = 1.0; c[1, 2] = c[2, 1] = 0.5
tgt = Qobj(np.diag(np.exp(1j * np.array([0.3, -0.8, 0.2]))) @ np.array(
    [[0.6, 0.8, 0], [-0.8, 0.6, 0], [0, 0, 1]]))
o = cpo.create_pulse_optimizer(drift, [Qobj(c)], qeye(3), tgt, num_tslots=2,
                               evo_time=2.0, dyn_type="UNIT",
                               fid_params={"phase_option": "SU"})
dyn = o.dynamics
dyn.initialize_controls(np.array([[0.0], [0.0]]))
g = np.array(dyn.fid_computer.get_fid_err_gradient())
h = 1e-4
for k in range(2):
    e = []
    for s in (h, -h):
        a = np.zeros((2, 1)); a[k, 0] = s
        dyn.update_ctrl_amps(a)
        e.append(dyn.fid_computer.get_fid_err())
    num = (e[0] - e[1]) / (2 * h)
    assert abs(num - g[k, 0]) < 1e-7, (k, num, g[k, 0])
'''
