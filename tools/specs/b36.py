ID="initial-evo-shared"; PROPERTY="C22"
EDITS=[("optimizer.py","        result.time = self.dynamics.time.copy()\n","        result.time = self.dynamics.time\n")]
NEEDS="a user who edits result.time (or durations changed in place)"
BREAKS="the dynamics sees the change of the earlier result"
DEMO='''
import numpy as np
from qutip import qeye, sigmax, sigmaz
import qutip_qtrl.pulseoptim as cpo

o = cpo.create_pulse_optimizer(sigmaz(), [sigmax()], qeye(2), sigmax(),
                               num_tslots=3, evo_time=1.0, dyn_type="UNIT",
                               max_iter=2)
d = o.dynamics
d.initialize_controls(np.array([[0.4], [1.1], [-0.3]]))
r = o.run_optimization()
r.time *= 2.0
assert abs(d.time[-1] - 1.0) < 1e-6, d.time
'''
