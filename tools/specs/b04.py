ID="shift-or-scale-offset"; PROPERTY="C12"
EDITS=[("pulsegen.py","            if max_amp - min_amp > bound_range:","            if max_amp + self.offset > bound_range + self.lbound:")]
NEEDS="both bounds given, and a pulse that exceeds the upper bound although its range fits between the bounds"
BREAKS="the pulse is scaled although shifting it would have been enough, so its shape is changed"
DEMO='''
import numpy as np
import qutip_qtrl.pulsegen as pg

g = pg.create_pulse_gen("LIN")
g.num_tslots, g.pulse_time = 5, 5.0
g.lbound, g.ubound = -3.0, 3.0
g.init_pulse(start_val=0.0, end_val=2.0)
g.offset = 2.5
p = g.gen_pulse()
assert abs((p.max() - p.min()) - 2.0) < 1e-6, p
assert p.min() >= -3 - 1e-9 and p.max() <= 3 + 1e-9
'''
