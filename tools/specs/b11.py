ID="discard-unconverged"; PROPERTY="C23"
EDITS=[("optimizer.py","            amps = self._get_ctrl_amps(opt_res.x)\n            dyn.update_ctrl_amps(amps)\n","            if opt_res.success:\n                amps = self._get_ctrl_amps(opt_res.x)\n                dyn.update_ctrl_amps(amps)\n")]
NEEDS="a generic scipy method that stops at one of its limits after evaluating a point worse than its best"
BREAKS="the point evaluated last is returned instead of the best one"
DEMO='''
import numpy as np
from qutip import qeye, sigmax, sigmaz, sigmay
import qutip_qtrl.pulseoptim as cpo

for seed in range(12):
    np.random.seed(seed)
    o = cpo.create_pulse_optimizer(
        sigmaz(), [sigmax(), sigmay()], qeye(2), sigmax(), num_tslots=4,
        evo_time=3.0, dyn_type="UNIT", optim_method="Nelder-Mead",
        optim_params={"approx_grad": True}, max_iter=4 + seed)
    dyn = o.dynamics
    dyn.initialize_controls(4 * np.random.rand(4, 2) - 2)
    errs = []
    f = dyn.fid_computer.get_fid_err
    dyn.fid_computer.get_fid_err = lambda: errs.append(f()) or errs[-1]
    r = o.run_optimization()
    assert r.fid_err <= min(errs) + 1e-12, (seed, r.fid_err, min(errs))
'''
