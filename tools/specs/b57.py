ID="dump-prop-grad-shared"; PROPERTY="C18"
EDITS=[("dump.py","            item.prop_grad = copy.deepcopy(dyn._prop_grad)","            item.prop_grad = dyn._prop_grad")]
NEEDS="a dump of the propagator gradients read after a later evaluation"
BREAKS="earlier dump items show the propagator gradients of later pulses"
DEMO='''
import numpy as np
from qutip import sigmax, sigmaz, qeye
import qutip_qtrl.pulseoptim as cpo
o = cpo.create_pulse_optimizer(
    sigmaz(), [sigmax()], qeye(2), sigmax(), num_tslots=2, evo_time=1.0)
d = o.dynamics
d.dumping = "FULL"
d.initialize_controls(np.ones((2, 1)))
d.compute_evolution()
it = d.dump.evo_dumps[-1]
f = lambda x: np.array(x.full() if hasattr(x, "full") else x)
a = f(it.prop_grad[0, 0]).copy()
d.update_ctrl_amps(np.full((2, 1), -0.4))
d.compute_evolution()
assert np.allclose(f(it.prop_grad[0, 0]), a)
'''
