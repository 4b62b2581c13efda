ID="non-unitary-small-block"; PROPERTY="C07"
EDITS=[("dynamics.py","""            unitary = np.allclose(
                np.eye(len(A)), A.dot(A.T.conj()), atol=self.unitarity_tol
            )
""","""            # U is unitary when its rows have norm one
            unitary = np.allclose(
                np.sum(np.abs(A) ** 2, axis=1), 1.0, atol=self.unitarity_tol
            )
""")]
NEEDS="a propagator whose rows have norm one without being orthogonal"
BREAKS="the non-unitary propagator is not reported"
DEMO='''
import logging
import numpy as np
from qutip import sigmax, sigmaz, qeye
import qutip_qtrl.pulseoptim as cpo
import qutip_qtrl.dynamics as dyn
out = []
class H(logging.Handler):
    def emit(self, r):
        out.append(r.getMessage())
dyn.logger.addHandler(H())
dyn.logger.setLevel(logging.WARNING)
o = cpo.create_pulse_optimizer(
    sigmaz(), [sigmax()], qeye(2), sigmax(), num_tslots=2, evo_time=1.0,
    dyn_type="UNIT")
d = o.dynamics
d.oper_dtype = np.ndarray
d.initialize_controls(np.full((2, 1), 0.25))
d.compute_evolution()
d._prop[1] = np.array([[1, 0], [1, 0]], dtype=complex)
d.check_unitarity()
assert any("not unitary" in m for m in out), out
'''
