ID="dump-fwd-evo-shared"; PROPERTY="C18"
EDITS=[("dump.py","            item.fwd_evo = copy.deepcopy(dyn._fwd_evo)\n","            item.fwd_evo = dyn._fwd_evo\n")]
NEEDS="a dump of the forward evolutions that is read after a later evaluation"
BREAKS="earlier dump items show the evolution of later pulses"
DEMO='''
import numpy as np
from qutip import qeye, sigmax, sigmaz
import qutip_qtrl.pulseoptim as cpo

o = cpo.create_pulse_optimizer(sigmaz(), [sigmax()], qeye(2), sigmax(),
                               num_tslots=3, evo_time=1.0, dyn_type="UNIT",
                               dyn_params={"dumping": "FULL"})
dyn = o.dynamics
dyn.initialize_controls(np.array([[0.4], [1.1], [-0.3]]))
dyn.compute_evolution()
u = np.array(dyn.full_evo.full())
dyn.update_ctrl_amps(np.array([[0.4], [1.1], [2.3]]))
dyn.compute_evolution()
assert np.allclose(dyn.dump.evo_dumps[0].fwd_evo[-1], u)
'''
