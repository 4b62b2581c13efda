ID="func-call-limit-off"; PROPERTY="C11"
EDITS=[("optimizer.py","        if self.num_fid_func_calls > tc.max_fid_func_calls:","        if self.num_iter > 0 and self.num_fid_func_calls > tc.max_fid_func_calls:")]
NEEDS="a first line search (or initial simplex) that alone takes more evaluations than the limit, in a method that has no own limit"
BREAKS="evaluations before the end of the first iteration are not limited"
DEMO='''
import numpy as np
from qutip import qeye, sigmax, sigmaz, sigmay
import qutip_qtrl.pulseoptim as cpo

np.random.seed(1)
o = cpo.create_pulse_optimizer(
    sigmaz(), [sigmax(), sigmay()], qeye(2), sigmax(), num_tslots=6,
    evo_time=2.0, dyn_type="UNIT", fid_err_targ=-1.0,
    optim_method="BFGS", optim_params={"approx_grad": True})
tc = o.termination_conditions
tc.max_fid_func_calls = 5
o.dynamics.initialize_controls(np.random.rand(6, 2))
r = o.run_optimization()
assert r.num_fid_func_calls <= 6, r.num_fid_func_calls
assert r.max_fid_func_exceeded
'''
