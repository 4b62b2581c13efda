ID="time-kept-on-init"; PROPERTY="C12"
EDITS=[("pulsegen.py","        if self._uses_time:\n            self.time = np.zeros(","        if self._uses_time and self.time is None:\n            self.time = np.zeros(")]
NEEDS="a generator whose shape uses the time, initialised again after its timeslots were changed"
BREAKS="the shape is sampled at the times of the earlier timeslots"
DEMO='''
import numpy as np
import qutip_qtrl.pulsegen as pg

g = pg.create_pulse_gen("GAUSSIAN", pulse_params=dict(
    tau=np.array([1.0, 1.0, 2.0]), mean=2.0, variance=1.0))
g.init_pulse()
g.gen_pulse()
g.tau = np.array([0.5, 0.5, 3.0])
g.init_pulse()
t = np.array([0.0, 0.5, 1.0])
p = g.gen_pulse()
assert np.allclose(p, np.exp(-(t - 2.0) ** 2 / 2.0)), p
'''
