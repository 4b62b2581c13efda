ID="phase-option-on-class"; PROPERTY="C22"
EDITS=[("fidcomp.py","""        self._phase_option = value
""","""        type(self)._phase_option = value
""")]
NEEDS="two fidelity computers alive at a time with different phase options"
BREAKS="setting the phase option of one problem changes the fidelity of the other"
DEMO='''
import numpy as np
from qutip import sigmax, sigmaz, qeye
import qutip_qtrl.pulseoptim as cpo
def make(opt):
    o = cpo.create_pulse_optimizer(
        sigmaz(), [sigmax()], qeye(2), sigmax(), num_tslots=2, evo_time=1.0,
        dyn_type="UNIT", fid_type="UNIT", phase_option=opt)
    o.dynamics.initialize_controls(np.full((2, 1), 0.25))
    return o
a = make("SU")
e = a.dynamics.fid_computer.get_fid_err()
b = make("PSU")
assert a.dynamics.fid_computer.phase_option == "SU"
a.dynamics.fid_computer.clear()
a.dynamics.flag_system_changed()
a.dynamics.initialize_controls(np.full((2, 1), 0.25))
assert abs(a.dynamics.fid_computer.get_fid_err() - e) < 1e-9
'''
