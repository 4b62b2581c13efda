ID="first-slot-unchecked"; PROPERTY="C07"
EDITS=[("dynamics.py","        for k in range(self.num_tslots):\n            prop_unit = self._is_unitary(self._prop[k])\n","        for k in range(1, self.num_tslots):\n            prop_unit = self._is_unitary(self._prop[k])\n")]
NEEDS="a non-Hermitian Hamiltonian in the first slot only (time dependent drift), with the unitarity check on"
BREAKS="the non-unitary propagator is not reported"
DEMO='''
import logging
import numpy as np
from qutip import qeye, sigmax, sigmaz
import qutip_qtrl.dynamics as qd
import qutip_qtrl.propcomp as pc
import qutip_qtrl.pulseoptim as cpo

seen = []
class H(logging.Handler):
    def emit(self, r):
        seen.append(r.getMessage())
qd.logger.addHandler(H())
o = cpo.create_pulse_optimizer(
    [sigmaz() - 0.5j * qeye(2), sigmaz(), sigmaz()], [sigmax()], qeye(2),
    sigmax(), num_tslots=3, evo_time=1.0, dyn_type="UNIT",
    prop_type="FRECHET")
d = o.dynamics
d.unitarity_check_level = 1
d.initialize_controls(np.ones((3, 1)))
d.compute_evolution()
assert any("timeslot 0 is not unitary" in s for s in seen), seen
'''
