ID="gradient-tolerance-floor"; PROPERTY="C23"
EDITS=[("optimizer.py",'''            mo["gtol"] = tc.min_gradient_norm
''','''            mo["gtol"] = max(tc.min_gradient_norm, 1e-5)
''')]
NEEDS="a generic method with a minimal gradient norm below 1e-5"
BREAKS="the search ends at gradients larger than the limit asked for"
DEMO='''
import numpy as np
from qutip import sigmax, sigmay, sigmaz, qeye
import qutip_qtrl.pulseoptim as cpo
r = cpo.optimize_pulse(
    sigmaz(), [sigmax()], qeye(2), sigmay(), num_tslots=3, evo_time=0.5,
    init_pulse_type="LIN", amp_lbound=None, optim_method="BFGS",
    dyn_type="UNIT", fid_err_targ=1e-12, min_grad=1e-9, max_iter=500)
print(r.termination_reason, r.grad_norm_final, r.num_iter)
assert r.grad_norm_final < 1e-7 or r.fid_err <= 1e-12, r.grad_norm_final
'''
