ID="inverse-of-earlier-target"; PROPERTY="C06"
EDITS=[("dynamics.py","""            targ = la.inv(self.target.full())
            if self.oper_dtype == Qobj:
""","""            key = (self.target.shape, round(abs(self.target.tr()), 6))
            cached = Dynamics.__dict__.get("_targ_inv")
            if cached is None or cached[0] != key:
                cached = (key, la.inv(self.target.full()))
                Dynamics._targ_inv = cached
            targ = cached[1]
            if self.oper_dtype == Qobj:
""")]
NEEDS="two problems of the same size whose targets differ but have traces of the same modulus"
BREAKS="the evolution onto the target of the second problem is that onto the target of the first"
DEMO='''
import numpy as np
from qutip import sigmax, sigmay, sigmaz, qeye
import qutip_qtrl.pulseoptim as cpo
def last(target):
    o = cpo.create_pulse_optimizer(
        sigmaz(), [sigmax()], qeye(2), target, num_tslots=2, evo_time=1.0,
        dyn_type="GEN_MAT", fid_type="TRACEDIFF", prop_type="FRECHET")
    o.dynamics.initialize_controls(np.full((2, 1), 0.25))
    return o.dynamics.onto_evo_target.full()
for t in (2 * sigmax(), 0.5 * sigmay()):
    assert np.allclose(last(t) @ t.full(), np.eye(2)), t
'''
