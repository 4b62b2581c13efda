ID="crab-free-frequency"; PROPERTY="C13"
EDITS=[("pulsegen.py","                phase = self.coeffs[i, 2] * self.time\n","                phase = self.coeffs[i, -1] * self.tau.cumsum() - (\n                    self.coeffs[i, -1] * self.tau[0]\n                )\n")]
NEEDS="optimised frequencies (fix_freqs false) and timeslots of unequal duration"
BREAKS="basis functions are evaluated at wrong times"
DEMO='''
import numpy as np
import qutip_qtrl.pulsegen as pg

p = pg.PulseGenCrabFourier(num_coeffs=2, fix_freqs=False)
p.tau = np.array([0.5, 0.25, 1.0, 0.25])
p.num_tslots = 4
p.pulse_time = 2.0
p.init_pulse()
c = np.array([[0.5, -0.2, 1.5], [0.1, 0.7, 2.5]])
x = p.gen_pulse(c)
t = np.array([0.0, 0.5, 0.75, 1.75])
y = sum(a * np.sin(w * t) + b * np.cos(w * t) for a, b, w in c)
assert np.allclose(x, y), (x, y, p.time)
'''
