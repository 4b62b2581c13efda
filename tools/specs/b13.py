ID="timeslots-changed-axis"; PROPERTY="C19"
EDITS=[("tslotcomp.py","                    ecs.num_timeslots_changed = np.any(changed_amps, 1).sum()\n\n            else:\n                if self.log_level <= logging.DEBUG:\n                    logger.debug(\"No amplitudes changed\")\n\n        # *** update stats ***\n        if dyn.stats:\n            dyn.stats.num_ctrl_amp_updates += bool","                    ecs.num_timeslots_changed = min(\n                        changed_amps.sum(), changed_amps.shape[0]\n                    )\n\n            else:\n                if self.log_level <= logging.DEBUG:\n                    logger.debug(\"No amplitudes changed\")\n\n        # *** update stats ***\n        if dyn.stats:\n            dyn.stats.num_ctrl_amp_updates += bool")]
NEEDS="an update in which several, but not all, amplitudes change, two of them in the same timeslot"
BREAKS="the number of changed timeslots is overstated"
DEMO='''
import numpy as np
from qutip import qeye, sigmax, sigmaz, sigmay
import qutip_qtrl.pulseoptim as cpo

o = cpo.create_pulse_optimizer(sigmaz(), [sigmax(), sigmay()], qeye(2),
                               sigmax(), num_tslots=4, evo_time=1.0,
                               dyn_type="UNIT", gen_stats=True)
dyn = o.dynamics
a = np.arange(8.0).reshape(4, 2)
dyn.initialize_controls(a)
n = dyn.stats.num_timeslot_changes
b = a.copy()
b[2] += 0.5
dyn.update_ctrl_amps(b)
assert dyn.stats.num_timeslot_changes == n + 1, dyn.stats.num_timeslot_changes
'''
