ID="gradient-log-of-ten"; PROPERTY="C18"
EDITS=[("optimizer.py","""            if self.dump.dump_grad:
                self.dump.update_grad_log(grad)
""","""            if self.dump.dump_grad and self.num_grad_func_calls <= 10:
                self.dump.update_grad_log(grad)
""")]
NEEDS="more than ten gradient evaluations with the gradients dumped"
BREAKS="the gradients of later evaluations are missing from the dump"
DEMO='''
import numpy as np
from qutip import sigmax, sigmaz, qeye
import qutip_qtrl.pulseoptim as cpo
o = cpo.create_pulse_optimizer(
    sigmaz(), [sigmax()], qeye(2), sigmax(), num_tslots=2, evo_time=1.0,
    dyn_type="UNIT", fid_err_targ=-1.0, min_grad=-1.0)
o.dumping = "FULL"
d = o.dynamics
d.initialize_controls(np.zeros((2, 1)))
o.init_optim(o.termination_conditions)
o.wall_time_optimize_start = 1e18
for i in range(13):
    o.fid_err_grad_wrapper(np.full(2, 0.05 * i + 0.1))
assert len(o.dump.grad_log) == 13, len(o.dump.grad_log)
'''
