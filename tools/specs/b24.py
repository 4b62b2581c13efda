ID="uncached-adjoint"; PROPERTY="C04"
EDITS=[("dynamics.py","        return self._dyn_gen_eigenvectors[k].conj().T\n","        return self._dyn_gen_eigenvectors[k].T\n")]
NEEDS="array operators, no caching of the eigenvector adjoints, and a generator with complex eigenvectors"
BREAKS="propagators depend on the cache option"
DEMO='''
import numpy as np
from qutip import qeye, sigmax, sigmaz, sigmay
import qutip_qtrl.pulseoptim as cpo

e = []
for c in (True, False):
    o = cpo.create_pulse_optimizer(
        sigmaz(), [sigmay()], qeye(2), sigmax(), num_tslots=3, evo_time=1.0,
        dyn_type="UNIT", dyn_params={"cache_dyn_gen_eigenvectors_adj": c,
                                     "oper_dtype": np.ndarray})
    o.dynamics.initialize_controls(np.array([[0.4], [1.1], [-0.3]]))
    e.append(o.dynamics.fid_computer.get_fid_err())
assert abs(e[0] - e[1]) < 1e-12, e
'''
