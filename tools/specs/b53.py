ID="statistics-shared"; PROPERTY="C22"
EDITS=[("optimizer.py","            result.stats = copy.copy(self.stats)","            result.stats = self.stats")]
NEEDS="two runs of one optimiser with statistics, whose first result is read after the second run"
BREAKS="the statistics of the first result are those of the second run"
DEMO='''
import numpy as np
from qutip import sigmax, sigmaz, qeye
import qutip_qtrl.pulseoptim as cpo
np.random.seed(1)
o = cpo.create_pulse_optimizer(
    sigmaz(), [sigmax()], qeye(2), sigmax(), num_tslots=4, evo_time=2.0,
    max_iter=4, gen_stats=True)
o.dynamics.initialize_controls(np.random.rand(4, 1))
a = o.run_optimization()
n = a.stats.num_fidelity_func_calls
assert n == a.num_fid_func_calls
tc = o.termination_conditions
tc.max_iterations = 1
o.dynamics.initialize_controls(np.random.rand(4, 1))
b = o.run_optimization()
assert b.num_fid_func_calls != n
assert a.stats.num_fidelity_func_calls == n
'''
