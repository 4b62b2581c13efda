ID="small-amplitudes-saved-as-zero"; PROPERTY="C21"
EDITS=[("dynamics.py","fmt=\"%14.6g\"","fmt=\"%14.6f\"")]
NEEDS="amplitudes much smaller than one"
BREAKS="the file holds fewer than six significant digits"
DEMO='''
import os
import tempfile
import numpy as np
from qutip import qeye, sigmax, sigmaz
import qutip_qtrl.pulseoptim as cpo

o = cpo.create_pulse_optimizer(sigmaz(), [sigmax()], qeye(2), sigmax(),
                               num_tslots=3, evo_time=1.0, dyn_type="UNIT")
d = o.dynamics
a = np.array([[1.23456e-4], [-3.3e-9], [2.0]])
d.initialize_controls(a)
with tempfile.TemporaryDirectory() as t:
    fn = os.path.join(t, "a.txt")
    d.save_amps(fn)
    b = np.loadtxt(fn)[:, 1]
assert np.allclose(a[:, 0], b, rtol=1e-5, atol=0), b
'''
