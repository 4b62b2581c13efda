ID="overlap-almost-real"; PROPERTY="C24"
EDITS=[("fidcomp.py","        return np.abs(norm) / self.dimensional_norm\n","        if abs(norm.imag) < 1e-3 * abs(norm.real):\n            # no global phase\n            return np.abs(norm.real) / self.dimensional_norm\n        return np.abs(norm) / self.dimensional_norm\n")]
NEEDS="a phase-insensitive fidelity whose overlap has a phase of less than 0.001, but not zero"
BREAKS="the fidelity depends on the global phase in this range (by up to 5e-7)"
DEMO='''
import numpy as np
from qutip import sigmax, sigmaz, qeye
import qutip_qtrl.pulseoptim as cpo

def err(phase):
    o = cpo.create_pulse_optimizer(
        0 * sigmaz(), [sigmax()], qeye(2), np.exp(1j * phase) * qeye(2),
        num_tslots=2, evo_time=1.0, dyn_type="UNIT", fid_params={"phase_option": "PSU"})
    o.dynamics.initialize_controls(np.array([[0.4], [0.3]]))
    return o.dynamics.fid_computer.get_fid_err()

for p in (1.0, 0.0009, -0.0008, np.pi + 0.0009):
    assert abs(err(p) - err(0.0)) < 1e-10, (p, err(p), err(0.0))
'''
