ID="method-params-before-limits"; PROPERTY="C14"
EDITS=[("pulseoptim.py","    tc.min_gradient_norm = min_grad\n    tc.max_iterations = max_iter\n","    tc.max_iterations = max_iter\n"),
("pulseoptim.py","    optim.apply_method_params(method_params)\n\n    if gen_stats:","    optim.apply_method_params(method_params)\n    tc.min_gradient_norm = min_grad\n\n    if gen_stats:")]
NEEDS="the smallest gradient norm given in method_params rather than by the argument of its own"
BREAKS="the value in method_params is overridden by the default"
DEMO='''
from qutip import sigmax, sigmaz, qeye
import qutip_qtrl.pulseoptim as cpo
o = cpo.create_pulse_optimizer(
    sigmaz(), [sigmax()], qeye(2), sigmax(), num_tslots=3, evo_time=1.0,
    method_params={"min_gradient_norm": 1e-3, "max_iterations": 17})
tc = o.termination_conditions
assert tc.max_iterations == 17
assert tc.min_gradient_norm == 1e-3, tc.min_gradient_norm
'''
