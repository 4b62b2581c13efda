ID="onto-evo-not-refreshed"; PROPERTY="C06"
EDITS=[("tslotcomp.py","        dyn._onto_evo_qobj = None\n\n        if (dyn.stats or dyn.dump) and not self.evo_comp_summary:\n            self.evo_comp_summary = EvoCompSummary()\n        ecs = self.evo_comp_summary\n\n        if dyn.stats is not None:\n            dyn.stats.num_tslot_recompute += 1\n            if self.log_level <= logging.DEBUG:\n                logger.log(\n                    logging.DEBUG,\n                    \"recomputing evolution {} \"\n                    \"(UpdateAll)\"","        if dyn.oper_dtype == Qobj:\n            dyn._onto_evo_qobj = None\n\n        if (dyn.stats or dyn.dump) and not self.evo_comp_summary:\n            self.evo_comp_summary = EvoCompSummary()\n        ecs = self.evo_comp_summary\n\n        if dyn.stats is not None:\n            dyn.stats.num_tslot_recompute += 1\n            if self.log_level <= logging.DEBUG:\n                logger.log(\n                    logging.DEBUG,\n                    \"recomputing evolution {} \"\n                    \"(UpdateAll)\"")]
NEEDS="onto_evo read for two pulses on one dynamics object with array operators"
BREAKS="the second read returns the backward evolution of the first pulse"
DEMO='''
import numpy as np
from qutip import qeye, sigmax, sigmaz
import qutip_qtrl.pulseoptim as cpo

o = cpo.create_pulse_optimizer(sigmaz(), [sigmax()], qeye(2), sigmax(),
                               num_tslots=3, evo_time=1.0, dyn_type="UNIT")
dyn = o.dynamics
dyn.initialize_controls(np.array([[0.4], [1.1], [-0.3]]))
for s in (0.0, 1.0):
    dyn.update_ctrl_amps(np.array([[0.4], [1.1], [-0.3]]) + s)
    dyn.compute_evolution()
    p = sigmax().inv()
    for k in (2, 1, 0):
        p = p * dyn.prop[k]
        assert (dyn.onto_evo[k] - p).norm() < 1e-9, (s, k)
'''
