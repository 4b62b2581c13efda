ID="psu-gradient-angle"; PROPERTY="C02"
EDITS=[("fidcomp.py","            grad * np.exp(-1j * np.angle(fid_pn)) / self.dimensional_norm","            grad * np.exp(-1j * np.arctan(fid_pn.imag / fid_pn.real))\n            / self.dimensional_norm")]
NEEDS="an overlap with negative real part"
BREAKS="the gradient of the phase insensitive error has the wrong sign there"
DEMO='''
import numpy as np
from qutip import qeye, sigmax, sigmaz
import qutip_qtrl.pulseoptim as cpo

for ph in np.arange(0, 2 * np.pi, 0.7):
    o = cpo.create_pulse_optimizer(
        sigmaz(), [sigmax()], qeye(2), np.exp(1j * ph) * (-1j * (
            0.7 * sigmax() + 0.2 * sigmaz())).expm(), num_tslots=2,
        evo_time=1.0, dyn_type="UNIT")
    dyn = o.dynamics
    a0 = np.array([[0.3], [-0.2]])
    dyn.initialize_controls(a0)
    g = np.array(dyn.fid_computer.get_fid_err_gradient())
    h = 1e-5
    e = []
    for s in (h, -h):
        a = a0.copy(); a[1, 0] += s
        dyn.update_ctrl_amps(a)
        e.append(dyn.fid_computer.get_fid_err())
    assert abs((e[0] - e[1]) / (2 * h) - g[1, 0]) < 1e-6, ph
'''
