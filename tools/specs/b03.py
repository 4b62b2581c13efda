ID="stale-final-evolution"; PROPERTY="C09"
EDITS=[("optimizer.py","        result.num_fid_func_calls = self.num_fid_func_calls\n        result.wall_time","        result.num_fid_func_calls = self.num_fid_func_calls\n        final_evo = dyn.full_evo\n        result.wall_time"),
("optimizer.py","        final_evo = dyn.full_evo\n        if isinstance(","        if isinstance(")]
NEEDS="a run whose minimiser returns a point other than the one it evaluated last (line search, simplex)"
BREAKS="the final evolution of the result is the one of the last point evaluated, not of the final amplitudes"
DEMO='''
import numpy as np
from qutip import qeye, sigmax, sigmaz, sigmay
import qutip_qtrl.pulseoptim as cpo

bad = 0
for seed in range(6):
    np.random.seed(seed)
    r = cpo.optimize_pulse_unitary(
        sigmaz(), [sigmax(), sigmay()], qeye(2), (sigmax() + sigmaz()) / 2**.5,
        num_tslots=3, evo_time=2.0, max_iter=4, optim_method="Nelder-Mead",
        fid_err_targ=-1.0)
    dyn = r.optimizer.dynamics
    dyn.initialize_controls(np.array(r.final_amps))
    dyn.compute_evolution()
    bad += np.abs(dyn.full_evo.full() - r.evo_full_final.full()).max() > 1e-9
assert bad == 0, bad
'''
