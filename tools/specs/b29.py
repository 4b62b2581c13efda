ID="first-row-only"; PROPERTY="C20"
EDITS=[("dynamics.py","        for k in range(ctrls.shape[0]):\n            for j in range(ctrls.shape[1]):\n                if not isinstance(ctrls[k, j], Qobj):\n","        for j in range(ctrls.shape[1]):\n            for k in range(min(ctrls.shape)):\n                if not isinstance(ctrls[k, j], Qobj):\n")]
NEEDS="time dependent controls with an entry that is no Qobj in a late timeslot"
BREAKS="the problem is accepted and fails (or not) later on"
DEMO='''
import numpy as np
from qutip import qeye, sigmax, sigmaz
import qutip_qtrl.pulseoptim as cpo

c = [[sigmax()] for _ in range(5)]
c[3] = ["x"]
try:
    cpo.create_pulse_optimizer(sigmaz(), c, qeye(2), sigmax(), num_tslots=5,
                               evo_time=1.0, dyn_type="UNIT")
except TypeError as e:
    assert "Qobj" in str(e), e
else:
    raise AssertionError("accepted")
'''
