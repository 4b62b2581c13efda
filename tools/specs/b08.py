ID="norm-of-initial"; PROPERTY="C03"
EDITS=[("fidcomp.py","            dyn.target.dag() * dyn.target\n","            dyn.initial.dag() * dyn.initial\n")]
NEEDS="initial and target of different norms (they agree for all pairs of unitaries or normalised states)"
BREAKS="the fidelity is not scaled by the norm of the target"
DEMO='''
import numpy as np
from qutip import basis, sigmax, sigmaz
import qutip_qtrl.pulseoptim as cpo

o = cpo.create_pulse_optimizer(
    sigmaz(), [sigmax()], 0.5 * basis(2, 0), basis(2, 1), num_tslots=3,
    evo_time=1.0, dyn_type="UNIT", fid_params={"phase_option": "PSU"})
dyn = o.dynamics
dyn.initialize_controls(np.array([[0.4], [1.1], [-0.3]]))
f = dyn.fid_computer.get_fidelity()
ov = abs((basis(2, 1).dag() * dyn.full_evo))
assert abs(f - ov) < 1e-9, (f, ov)
'''
