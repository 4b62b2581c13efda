ID="gaussian-edge-grid"; PROPERTY="C12"
EDITS=[("pulsegen.py","                self.time[k + 1] = self.time[k] + self.tau[k]\n","                self.time[k + 1] = self.time[k] + self.tau[k + 1]\n")]
NEEDS="a shape that uses the time (Gaussian, edge, Fourier, waves) on timeslots of unequal duration"
BREAKS="the shape is sampled at wrong times"
DEMO='''
import numpy as np
from qutip_qtrl.pulsegen import PulseGenGaussian

g = PulseGenGaussian()
g.tau = np.array([0.2, 0.4, 0.1, 0.3])
g.num_tslots = 4
g.pulse_time = 1.0
p = g.gen_pulse(mean=0.5, variance=0.1)
t = np.array([0, 0.2, 0.6, 0.7])
assert np.allclose(p, g.scaling * np.exp(-((t - 0.5) ** 2) / 0.2)), p
'''
